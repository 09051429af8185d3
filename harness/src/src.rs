//! Dictionary sources: compile them with the real builders, load the result, and record what lookups find.
use crate::util::*;
use crate::world::*;
use lindera_core::character_definition::CategoryId;
use lindera_core::dictionary::Dictionary;
use lindera_core::prefix_dict::PrefixDict;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryLoader, UserDictionaryConfig};
use serde_json::{json, Value};
use std::fs;
use std::path::{Path, PathBuf};

pub struct Opts {
    pub ty: String,
    pub n: usize,
    pub sample: u64,
    pub big: usize,
    pub maxrows: usize,
    pub grid: u64,
}

pub fn enc(kind: &str, s: &str) -> Vec<u8> {
    if kind == "ipadic" {
        encoding_rs::EUC_JP.encode(s).0.into_owned()
    } else {
        s.as_bytes().to_vec()
    }
}
/// One of the encodings a source file of the kind may have: other than EUC-JP, UTF-16 with a byte order mark is allowed too.
fn enc_any(rng: &mut Rng, kind: &str, s: &str) -> Vec<u8> {
    let which = rng.below(14);
    if kind == "ipadic" || which > 2 {
        return enc(kind, s);
    }
    let s = format!("\u{feff}{}", s);
    match which {
        0 => s.into_bytes(),
        1 => s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        _ => s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
    }
}
fn fits(kind: &str, c: char) -> bool {
    kind != "ipadic" || (c as u32) < 128 || {
        let mut b = [0u8; 4];
        let s: &str = c.encode_utf8(&mut b);
        let e = encoding_rs::EUC_JP.encode(s);
        !e.2 && encoding_rs::EUC_JP.decode(&e.0).0 == s
    }
}

/// A valid source directory for everything that the case does not define itself.
pub fn base_src(dir: &Path, kind: &str) {
    fs::create_dir_all(dir).unwrap();
    let n = unk_fields(kind);
    fs::write(dir.join("w1.csv"), "a,0,0,1,x,y\n").unwrap();
    fs::write(dir.join("char.def"), "DEFAULT 0 1 0\n").unwrap();
    fs::write(dir.join("unk.def"), format!("DEFAULT,0,0,5{}\n", ",*".repeat(n - 4))).unwrap();
    fs::write(dir.join("matrix.def"), "1 1\n0 0 0\n").unwrap();
}

pub fn build(kind_s: &str, src: &Path, dst: &Path) -> Result<lindera_core::LinderaResult<()>, String> {
    guard(&format!("build {}", kind_s), || DictionaryBuilderResolver::resolve_builder(kind(kind_s)).unwrap().build_dictionary(src, dst))
}

fn entries(d: &PrefixDict<Vec<u8>>, details: &dyn Fn(usize) -> Option<Vec<String>>, text: &str) -> Value {
    let row = |n: Option<usize>, w: &lindera_core::word_entry::WordEntry| {
        let ds = match details(w.word_id.0 as usize) {
            Some(v) => v.iter().map(|s| cps(s)).collect::<Vec<_>>(),
            None => vec![],
        };
        json!({"n": n.unwrap_or(text.len()), "l": w.left_id, "r": w.right_id, "c": w.word_cost, "d": ds, "y": w.word_id.1})
    };
    let pre: Vec<Value> = d.prefix(text).map(|(n, w)| row(Some(n), &w)).collect();
    let exact: Vec<Value> = d.find_surface(text).iter().map(|w| row(None, w)).collect();
    json!({"t": cps(text), "pre": pre, "exact": exact})
}

fn guarded_entries(d: &PrefixDict<Vec<u8>>, details: &dyn Fn(usize) -> Option<Vec<String>>, text: &str) -> Value {
    guard("lookup", || entries(d, details, text)).unwrap_or_else(|_| json!({"t": cps(text), "pre": [], "exact": [], "panic": true}))
}

fn verdict<T>(r: Result<lindera_core::LinderaResult<T>, String>) -> (Option<T>, &'static str) {
    match r {
        Ok(Ok(v)) => (Some(v), "ok"),
        Ok(Err(_)) => (None, "err"),
        Err(_) => (None, "panic"),
    }
}

fn load(dst: &Path) -> (Option<Dictionary>, &'static str) {
    verdict(guard("load", || DictionaryLoader::load_dictionary(dst.to_path_buf())))
}

/// A line of a case: file number and fields (or one field, the raw text).
type Line = (usize, Vec<String>);

fn lines_json(ty: &str, lines: &[Line]) -> Value {
    Value::Array(
        lines
            .iter()
            .map(|(f, x)| json!({"f": f, "x": if ty == "defs" { cps(&x[0]) } else { Value::Array(x.iter().map(|s| cps(s)).collect()) }}))
            .collect(),
    )
}

fn csv_random(rng: &mut Rng, fields: &[String]) -> String {
    let mut l = fields
        .iter()
        .map(|f| if rng.chance(15) { format!("\"{}\"", f.replace('"', "\"\"")) } else { csv_field(f) })
        .collect::<Vec<_>>()
        .join(",");
    if l.is_empty() {
        l = "\"\"".to_string();
    }
    l.push_str(if rng.chance(10) { "\r\n" } else { "\n" });
    l
}

/// Where the sources and the compiled dictionary of a case lie: their paths can be any names.
fn places(rng: &mut Rng, dir: &Path) -> (PathBuf, PathBuf) {
    const NAMES: [&str; 12] = ["src", "a b", "x[1]", "v*", "q?", "{a,b}", "[!a]", "辞書", "s.csv", "100%", "w**", "a'\"b"];
    let mut name = |n: &str| dir.join(format!("{}{}", n, if rng.chance(60) { "" } else { *rng.pick(&NAMES) }));
    let (mut s, d) = (name("src"), name("dic"));
    if rng.chance(10) {
        s = s.join("deep").join("er");
    }
    (s, d)
}

fn case_words(rng: &mut Rng, dir: &Path, kind_s: &str, lines: &[Line], probes: &[String]) -> Value {
    let (src, dst) = places(rng, dir);
    base_src(&src, kind_s);
    fs::remove_file(src.join("w1.csv")).unwrap();
    let mut files: Vec<(usize, String)> = vec![];
    for (f, x) in lines {
        let l = csv_random(rng, x);
        match files.iter_mut().find(|(g, _)| g == f) {
            Some((_, s)) => s.push_str(&l),
            None => files.push((*f, l)),
        }
    }
    let names = ["Noun.csv", "a b.csv", "w[10].csv", "w*.csv", "あ.csv"];
    for (f, s) in &files {
        fs::write(src.join(names[f % 5]), enc_any(rng, kind_s, s)).unwrap();
    }
    if rng.chance(50) {
        fs::write(src.join("readme.txt"), "not,a,word,list\n").unwrap();
        fs::write(src.join("old.csv.bak"), "x,1,1,1,z\n").unwrap();
    }
    let (b, mut res) = verdict(build(kind_s, &src, &dst));
    let mut obs = vec![];
    if b.is_some() {
        let (d, r) = load(&dst);
        res = r;
        if let Some(d) = d {
            for p in probes {
                obs.push(guarded_entries(&d.dict, &|i| d.word_details(i), p));
            }
        }
    }
    json!({"ty": "words", "kind": kind_s, "lines": lines_json("words", lines), "res": res, "obs": obs})
}

fn case_user(rng: &mut Rng, dir: &Path, kind_s: &str, lines: &[Line], probes: &[String]) -> Value {
    fs::create_dir_all(dir).unwrap();
    let p = dir.join("user.csv");
    let text: String = lines.iter().map(|(_, x)| csv_random(rng, x)).collect();
    // (user dictionaries are UTF-8)
    fs::write(&p, if rng.chance(6) { format!("\u{feff}{}", text) } else { text }).unwrap();
    let q = dir.join("sub").join("user.bin");
    if rng.chance(40) && !lines.is_empty() {
        // something else has been compiled to that place before
        let mut old = lines.to_vec();
        for _ in 0..1 + rng.below(2) {
            let i = rng.below(old.len());
            let x = &mut old[i].1;
            let f = if rng.chance(40) { 0 } else { rng.below(x.len()) };
            if rng.chance(60) {
                x[f] = x[f].chars().map(|c| *rng.pick(&if c.is_ascii_lowercase() { ['a', 'b', 'c', c] } else if c.is_ascii_digit() { ['1', '2', '3', c] } else if c.len_utf8() == 3 { ['あ', 'い', '東', c] } else { [c; 4] })).collect();
            } else {
                x[f].push('x');
            }
        }
        let before = dir.join("before.csv");
        fs::write(&before, old.iter().map(|(_, x)| csv_random(rng, x)).collect::<String>()).unwrap();
        let _ = guard("earlier user bin", || DictionaryBuilderResolver::resolve_builder(kind(kind_s)).unwrap().build_user_dictionary(&before, &q).is_ok());
    }
    let (u, res) = verdict(guard("user csv", || {
        DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: p.clone(), kind: Some(kind(kind_s)) })
    }));
    let (b, mut bres) = verdict(guard("user bin", || {
        DictionaryBuilderResolver::resolve_builder(kind(kind_s)).unwrap().build_user_dictionary(&p, &q)
    }));
    let mut bu = None;
    if b.is_some() {
        let k = if rng.chance(50) { Some(kind(kind_s)) } else { None };
        let (v, r) = verdict(guard("load user bin", || {
            DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: q.clone(), kind: k })
        }));
        bu = v;
        bres = r;
    }
    let mut look = |d: &Option<lindera_core::dictionary::UserDictionary>| -> Vec<Value> {
        match d {
            Some(d) => probes.iter().map(|t| guarded_entries(&d.dict, &|i| d.word_details(i), t)).collect(),
            None => vec![],
        }
    };
    let (o, bo) = (look(&u), look(&bu));
    json!({"ty": "user", "kind": kind_s, "lines": lines_json("user", lines), "res": res, "obs": o, "bres": bres, "bobs": bo})
}

fn case_matrix(rng: &mut Rng, dir: &Path, kind_s: &str, lines: &[Line], pairs: &[(u32, u32)]) -> Value {
    let (src, dst) = places(rng, dir);
    base_src(&src, kind_s);
    let mut text = String::new();
    for (_, x) in lines {
        let sep = *rng.pick(&[" ", " ", "\t", "  "]);
        text.push_str(&x.join(sep));
        if rng.chance(10) {
            text.push(' ');
        }
        text.push_str(if rng.chance(10) { "\r\n" } else { "\n" });
    }
    fs::write(src.join("matrix.def"), enc_any(rng, kind_s, &text)).unwrap();
    let (b, mut res) = verdict(build(kind_s, &src, &dst));
    let mut obs = vec![];
    if b.is_some() {
        let (d, r) = load(&dst);
        res = r;
        if let Some(d) = d {
            for (f, b) in pairs {
                obs.push(match guard("cost", || d.cost_matrix.cost(*f, *b)) {
                    Ok(c) => json!([f, b, c]),
                    Err(_) => json!([f, b, 99999]),
                });
            }
        }
    }
    json!({"ty": "matrix", "kind": kind_s, "lines": lines_json("matrix", lines), "res": res, "obs": obs})
}

fn case_defs(rng: &mut Rng, dir: &Path, kind_s: &str, lines: &[Line], probes: &[char]) -> Value {
    let (src, dst) = places(rng, dir);
    base_src(&src, kind_s);
    let mut text = [String::new(), String::new()];
    for (f, x) in lines {
        text[*f - 1].push_str(&x[0]);
        text[*f - 1].push_str(if rng.chance(10) { "\r\n" } else { "\n" });
    }
    if rng.chance(30) {
        // no newline at the end of the file
        for t in text.iter_mut() {
            while t.ends_with('\n') || t.ends_with('\r') {
                t.pop();
            }
        }
    }
    fs::write(src.join("char.def"), enc_any(rng, kind_s, &text[0])).unwrap();
    fs::write(src.join("unk.def"), enc_any(rng, kind_s, &text[1])).unwrap();
    let (b, mut res) = verdict(build(kind_s, &src, &dst));
    let mut obs = vec![];
    let mut all = vec![];
    if b.is_some() {
        let (d, r) = load(&dst);
        res = r;
        if let Some(d) = d {
            let rec = |k: CategoryId| -> Value {
                let def = d.char_definitions.lookup_definition(k);
                let us: Vec<Value> = d
                    .unknown_dictionary
                    .lookup_word_ids(k)
                    .iter()
                    .map(|i| {
                        let w = d.unknown_dictionary.word_entry(*i);
                        json!([w.left_id, w.right_id, w.word_cost])
                    })
                    .collect();
                json!({"n": cps(d.char_definitions.category_name(k)), "inv": def.invoke, "grp": def.group, "len": def.length, "u": us})
            };
            for c in probes {
                obs.push(
                    guard("categories", || json!({"c": *c as u32, "cs": d.char_definitions.lookup_categories(*c).iter().map(|k| rec(*k)).collect::<Vec<_>>()}))
                        .unwrap_or_else(|_| json!({"c": *c as u32, "cs": [], "panic": true})),
                );
            }
            all = guard("all categories", || (0..d.char_definitions.categories().len()).map(|k| rec(CategoryId(k))).collect()).unwrap_or_default();
        }
    }
    json!({"ty": "defs", "kind": kind_s, "lines": lines_json("defs", lines), "res": res, "obs": obs, "all": all})
}

fn case(rng: &mut Rng, out: &Path, ty: &str, kind_s: &str, lines: &[Line]) -> Value {
    let dir = scratch(out, "s");
    let v = match ty {
        "words" | "user" => {
            let mut ps: Vec<String> = vec![String::new()];
            let norm = |s: &str| s.replace('―', "—").replace('～', "〜");
            for (_, x) in lines {
                let s = &x[0];
                for t in [s.clone(), norm(s), format!("{}a", norm(s)), format!("{}\u{0}", s)] {
                    if !ps.contains(&t) && ps.len() < 40 && rng.chance(60) {
                        ps.push(t);
                    }
                }
                let mut t = norm(s);
                t.pop();
                if rng.chance(20) {
                    ps.push(t);
                }
            }
            for _ in 0..4 {
                if !lines.is_empty() {
                    let a = rng.pick(lines).1[0].clone();
                    let b = rng.pick(lines).1[0].clone();
                    ps.push(norm(&format!("{}{}", a, b)));
                }
            }
            ps.push("zzz".to_string());
            if ty == "words" {
                case_words(rng, &dir, kind_s, lines, &ps)
            } else {
                case_user(rng, &dir, kind_s, lines, &ps)
            }
        }
        "matrix" => {
            let mut pairs = vec![];
            if let Some((_, h)) = lines.first() {
                let g = |i: usize| h.get(i).and_then(|s| s.trim().parse::<u32>().ok()).unwrap_or(0);
                let (nf, nb) = (g(0), g(1));
                if nf > 0 && nb > 0 {
                    if nf * nb <= 30 {
                        for f in 0..nf {
                            for b in 0..nb {
                                pairs.push((f, b));
                            }
                        }
                    } else {
                        pairs = vec![(0, 0), (nf - 1, nb - 1), (nf - 1, 0), (0, nb - 1)];
                        for (_, x) in lines[1..].iter().take(40) {
                            let g = |i: usize| x.get(i).and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
                            if g(0) < nf && g(1) < nb {
                                pairs.push((g(0), g(1)));
                                pairs.push((g(0), (g(1) + 1) % nb));
                            }
                        }
                        for _ in 0..10 {
                            pairs.push((rng.below(nf as usize) as u32, rng.below(nb as usize) as u32));
                        }
                    }
                }
            }
            case_matrix(rng, &dir, kind_s, lines, &pairs)
        }
        _ => {
            let mut ps: Vec<u32> = vec![0, 0x41, 0x3042, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFEFF];
            for (f, x) in lines {
                let t = x[0].trim();
                if *f == 1 && t.starts_with("0x") {
                    let w = t.split_whitespace().next().unwrap();
                    for h in w.split("..") {
                        if let Ok(v) = u32::from_str_radix(h.trim_start_matches("0x"), 16) {
                            ps.extend([v.saturating_sub(1), v, v + 1]);
                        }
                    }
                }
            }
            ps.sort();
            ps.dedup();
            let mut cs: Vec<char> = ps.into_iter().filter_map(char::from_u32).collect();
            if cs.len() > 40 {
                rng.shuffle(&mut cs);
                cs.truncate(40);
            }
            case_defs(rng, &dir, kind_s, lines, &cs)
        }
    };
    let _ = fs::remove_dir_all(&dir);
    v
}

// ---------------------------------------------------------------- generators
fn num(rng: &mut Rng, lo: i64, hi: i64, ws: bool, bad: u64) -> String {
    if rng.chance(bad) {
        let v = ["", "x", "1.0", "1e3", "--1", "+", "-", "99999", "65536", "-40000", "１", "1 2", "0x1", "99999999999999999999"];
        let s = rng.pick(&v).to_string();
        // 65536 and 99999 are out of range for both kinds of number
        return s;
    }
    let v = match rng.below(6) {
        0 => lo,
        1 => hi,
        2 => rng.range(lo, hi),
        _ => rng.range(0, 9),
    };
    let mut s = v.to_string();
    if v >= 0 && rng.chance(5) {
        s = format!("+{}", s);
    } else if v > 0 && rng.chance(8) {
        s = format!("0{}", s);
    }
    if ws && rng.chance(15) {
        s = match rng.below(4) {
            0 => format!(" {}", s),
            1 => format!("{}  ", s),
            2 => format!("\t{} ", s),
            _ => format!("\u{3000}{}", s),
        };
    }
    s
}
fn only(kind_s: &str, s: String) -> String {
    s.chars().filter(|c| fits(kind_s, *c)).collect()
}
fn surface(rng: &mut Rng, kind_s: &str, prev: &[String]) -> String {
    let al = ['a', 'b', 'あ', '東', '―', '～', '—', '〜', 'é', '😀', ' ', '"', '#', '\u{7F}', '\\', '\\', '\'', '\t', ';', '\u{3000}'];
    let mut s = if !prev.is_empty() && rng.chance(50) { rng.pick(prev).clone() } else { String::new() };
    let n = rng.below(4);
    for _ in 0..n {
        s.push(*rng.pick(&al));
    }
    s = only(kind_s, s);
    if s.is_empty() {
        s.push(*rng.pick(&['a', 'b', 'あ']));
    }
    s
}
fn detail(rng: &mut Rng, kind_s: &str) -> String {
    let s = match rng.below(12) {
        0 => String::new(),
        10 => rng.pick(&["\\", "a\\", "\\\"", "\\,", "'q'", "'", "\"\"", "\"", ",", "\t", "a;b", "#", "\u{3000}", "\r\n", "\\n", "x\\0y", " ", "\n"]).to_string(),
        1 => "a,b".to_string(),
        2 => "say \"hi\"".to_string(),
        3 => "line\nbreak".to_string(),
        4 => "―～—〜".to_string(),
        5 => "長".repeat(1 + rng.below(120)),
        6 => " sp ".to_string(),
        7 => "😀é".to_string(),
        8 => "*".to_string(),
        _ => format!("d{}", rng.below(50)),
    };
    only(kind_s, s)
}

fn gen_words(rng: &mut Rng, maxrows: usize) -> (String, Vec<Line>) {
    let kind_s = rng.pick(&KINDS).to_string();
    let bad = if kind_s == "cc-cedict" { 8 } else if rng.chance(20) { 4 } else { 0 };
    let nf = 1 + rng.below(3);
    let long = if rng.chance(10) { 30 } else { 4 };
    let widths: Vec<usize> = (0..nf).map(|_| 5 + rng.below(long)).collect();
    let n = match rng.below(20) {
        0 => 0,
        _ => 1 + rng.below(maxrows),
    };
    let mut prev: Vec<String> = vec![];
    let mut lines: Vec<Line> = vec![];
    for _ in 0..n {
        let f = rng.below(nf);
        let s = if !prev.is_empty() && rng.chance(15) { rng.pick(&prev).clone() } else { surface(rng, &kind_s, &prev) };
        prev.push(s.clone());
        let mut w = widths[f];
        if kind_s == "cc-cedict" && rng.chance(30) {
            w = if rng.chance(20) { 1 + rng.below(3) } else { 5 + rng.below(4) };
        } else if bad > 0 && rng.chance(5) {
            w += 1;
        }
        let mut x = vec![s, num(rng, 0, 65535, true, bad), num(rng, 0, 65535, true, bad), num(rng, -32768, 32767, true, bad)];
        while x.len() < w {
            x.push(detail(rng, &kind_s));
        }
        x.truncate(w);
        lines.push((f, x));
    }
    if rng.chance(6) && !lines.is_empty() {
        // many homographs, up to and beyond what an index entry can count
        let k = *rng.pick(&[30usize, 31, 32, 33, 64]);
        let (f, x) = rng.pick(&lines).clone();
        for i in 0..k {
            let mut y = x.clone();
            if y.len() > 3 {
                y[3] = i.to_string();
            }
            lines.push((f, y));
        }
        rng.shuffle(&mut lines);
    }
    if rng.chance(3) && !lines.is_empty() && kind_s != "ipadic" {
        let i = rng.below(lines.len());
        lines[i].1[0].push('\u{0}');
    }
    (kind_s, lines)
}

fn gen_user(rng: &mut Rng, maxrows: usize) -> (String, Vec<Line>) {
    let kind_s = rng.pick(&KINDS).to_string();
    let full = detailed_fields(&kind_s);
    let flexible = kind_s.starts_with("ipadic");
    let bad = if rng.chance(25) { 4 } else { 0 };
    let n = match rng.below(15) {
        0 => 0,
        _ => 1 + rng.below(maxrows.min(12)),
    };
    let style = rng.below(4); // 0 simple, 1 detailed, 2 longer, 3 mixed
    let extra = 1 + rng.below(3);
    let mut prev: Vec<String> = vec![];
    let mut lines: Vec<Line> = vec![];
    for _ in 0..n {
        let s = if !prev.is_empty() && rng.chance(25) { rng.pick(&prev).clone() } else { surface(rng, "user", &prev) };
        prev.push(s.clone());
        let mut w = match style {
            0 => 3,
            1 => full,
            2 => full + extra,
            _ => {
                if flexible || rng.chance(10) {
                    *rng.pick(&[3, full, full + extra])
                } else {
                    full
                }
            }
        };
        if bad > 0 && rng.chance(10) {
            w = *rng.pick(&[1usize, 2, 4, 5, full - 1, full + 1]);
        }
        let mut x = vec![s];
        if w == 3 {
            x.push(detail(rng, "user"));
            x.push(detail(rng, "user"));
        } else {
            x.push(num(rng, 0, 65535, false, bad));
            x.push(num(rng, 0, 65535, false, bad));
            x.push(num(rng, -32768, 32767, false, bad));
            while x.len() < w {
                x.push(detail(rng, "user"));
            }
            x.truncate(w);
        }
        lines.push((1, x));
    }
    if rng.chance(6) && !lines.is_empty() {
        let k = *rng.pick(&[30usize, 31, 32, 40]);
        let l = rng.pick(&lines).clone();
        for _ in 0..k {
            lines.push(l.clone());
        }
        rng.shuffle(&mut lines);
    }
    if rng.chance(2) && !lines.is_empty() {
        let i = rng.below(lines.len());
        lines[i].1[0].push('\u{0}');
    }
    (kind_s, lines)
}

/// Rows with long surfaces, many columns or long details, around what a byte or two can count.
fn widen_rows(rng: &mut Rng, kind_s: &str, sys: bool, lines: &mut Vec<Line>, huge: bool) {
    if lines.is_empty() {
        return;
    }
    for _ in 0..1 + rng.below(3) {
        let (f, mut x) = rng.pick(lines).clone();
        if x.len() < 3 {
            continue;
        }
        if rng.chance(60) {
            let n = *rng.pick(&[21usize, 31, 32, 33, 63, 64, 65, 85, 86, 127, 128, 129, 255, 256, 257, 300]);
            let u = rng.pick(lines).1[0].clone() + &surface(rng, if sys { kind_s } else { "user" }, &[]);
            x[0] = u.replace('\0', "a").chars().cycle().take(n).collect();
        }
        if rng.chance(40) && x.len() > 4 {
            let n = *rng.pick(&[16usize, 63, 64, 127, 128, 255, 256, 300]);
            while x.len() < n {
                x.push(detail(rng, kind_s));
            }
        }
        if rng.chance(40) {
            let at = if x.len() == 3 { 1 + rng.below(2) } else { x.len() - 1 - rng.below((x.len() - 4).max(1)) };
            let n = *rng.pick(&[127usize, 128, 255, 256, 257, 1000, 4096, 5000]);
            x[at] = only(kind_s, "語d～".repeat(n)).chars().take(n).collect();
        }
        lines.push((f, x));
    }
    if huge {
        let (f, mut x) = lines[0].clone();
        let at = if x.len() == 3 { 2 } else { x.len() - 1 };
        if x.len() == 3 || x.len() > 4 {
            x[at] = only(kind_s, "語d～x".repeat(9000));
            let n = lines.len();
            lines.insert(n / 2, (f, x));
        }
    }
    rng.shuffle(lines);
}

fn gen_matrix(rng: &mut Rng) -> (String, Vec<Line>) {
    let kind_s = rng.pick(&KINDS).to_string();
    let (nf, nb) = match rng.below(12) {
        0 => (40000 + rng.below(25536), 1 + rng.below(2)),
        1 => (1 + rng.below(2), 40000 + rng.below(25536)),
        2 => (1 + rng.below(300), 1 + rng.below(300)),
        3 => (256, 257),
        _ => (1 + rng.below(5), 1 + rng.below(5)),
    };
    let s = |v: i64| v.to_string();
    let mut cells: Vec<(usize, usize)> = vec![];
    if nf * nb <= 25 {
        for f in 0..nf {
            for b in 0..nb {
                if rng.chance(85) {
                    cells.push((f, b));
                }
            }
        }
    } else {
        for _ in 0..20 {
            let f = if rng.chance(30) { nf - 1 } else { rng.below(nf) };
            let b = if rng.chance(30) { nb - 1 } else { rng.below(nb) };
            if !cells.contains(&(f, b)) {
                cells.push((f, b));
            }
        }
    }
    let mut lines: Vec<Line> = vec![];
    for (f, b) in cells {
        let c = match rng.below(5) {
            0 => *rng.pick(&[32767, -32768, 32766, -32767, 0, -1]),
            _ => rng.range(-32768, 32767),
        };
        lines.push((1, vec![s(f as i64), s(b as i64), num_text(rng, c)]));
    }
    if rng.chance(30) {
        rng.shuffle(&mut lines);
    }
    let mut head = vec![s(nf as i64), s(nb as i64)];
    if rng.chance(15) {
        // one fault
        let bad = match rng.below(9) {
            0 => vec![s(nf as i64), s(0), s(1)],
            1 => vec![s(0), s(nb as i64), s(1)],
            2 => vec![s(-1), s(0), s(1)],
            3 => vec![s(0), s(0), s(32768)],
            4 => vec![s(0), s(0), s(-32769)],
            5 => vec![s(0), "x".into(), s(1)],
            6 => vec![s(0), s(0)],
            7 => vec![],
            _ => vec![s(0), s(0), "1.5".into()],
        };
        let at = rng.below(lines.len() + 1);
        lines.insert(at, (1, bad));
    } else if rng.chance(6) {
        head = rng.pick(&[vec!["3".to_string()], vec![], vec!["-1".into(), "2".into()], vec!["x".into(), "2".into()], vec!["65536".into(), "1".into()]]).clone();
    }
    lines.insert(0, (1, head));
    if rng.chance(2) {
        lines.clear();
    }
    (kind_s, lines)
}
fn num_text(rng: &mut Rng, v: i64) -> String {
    if v >= 0 && rng.chance(5) {
        format!("+{}", v)
    } else if v >= 0 && rng.chance(5) {
        format!("00{}", v)
    } else {
        v.to_string()
    }
}

fn gen_defs(rng: &mut Rng) -> (String, Vec<Line>) {
    let kind_s = rng.pick(&KINDS).to_string();
    let pool = ["KANJI", "HIRAGANA", "SPACE", "A", "漢字", "NUMERIC", "A-B", "default"];
    let mut names: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut names);
    names.truncate(rng.below(6));
    let at = rng.below(names.len() + 1);
    names.insert(at, "DEFAULT".to_string());
    let sep = |rng: &mut Rng| rng.pick(&[" ", "\t", "  ", " \t "]).to_string();
    let deco = |rng: &mut Rng, mut l: String| {
        if rng.chance(15) {
            l = format!(" {}", l);
        }
        if rng.chance(20) {
            l.push_str(rng.pick(&[" # 0x0041 X", "#c", " ", "\t# 東"]));
        }
        l
    };
    let mut cat: Vec<String> = vec![];
    for n in &names {
        let f = |rng: &mut Rng| rng.pick(&["0", "1", "1", "0", "2", "01"]).to_string();
        let (a, b) = (f(rng), f(rng));
        let len = rng.pick(&["0", "1", "2", "10"]).to_string();
        let l = format!("{}{}{}{}{}{}{}", n, sep(rng), a, sep(rng), b, sep(rng), len);
        cat.push(deco(rng, l));
    }
    let mut rngs: Vec<String> = vec![];
    let points = [0u32, 1, 0x20, 0x41, 0x5A, 0x3041, 0x3042, 0x3096, 0x4E00, 0x9FFF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF];
    for _ in 0..rng.below(9) {
        let mut a = *rng.pick(&points);
        let mut b = *rng.pick(&points);
        if rng.chance(30) {
            a = rng.below(0x10000) as u32;
        }
        if rng.chance(30) {
            b = (a + rng.below(4) as u32).min(0xFFFF);
        }
        let (lo, hi) = (a.min(b), a.max(b));
        let hex = |rng: &mut Rng, v: u32| match rng.below(3) {
            0 => format!("0x{:04x}", v),
            1 => format!("0x{:X}", v),
            _ => format!("0x{:04X}", v),
        };
        let mut l = hex(rng, lo);
        if lo != hi || rng.chance(30) {
            l = format!("{}..{}", l, hex(rng, hi));
        }
        for _ in 0..1 + rng.below(3) {
            l = format!("{}{}{}", l, sep(rng), rng.pick(&names));
        }
        rngs.push(deco(rng, l));
    }
    let mut lines: Vec<String> = match rng.below(3) {
        0 => cat.into_iter().chain(rngs).collect(),
        1 => rngs.into_iter().chain(cat).collect(),
        _ => {
            let mut v: Vec<String> = cat.into_iter().chain(rngs).collect();
            rng.shuffle(&mut v);
            v
        }
    };
    for _ in 0..rng.below(3) {
        let at = rng.below(lines.len() + 1);
        lines.insert(at, rng.pick(&["", "   ", "# comment", "#", "\t# 0x0041 KANJI"]).to_string());
    }
    if rng.chance(15) {
        let at = rng.below(lines.len() + 1);
        let bad = rng.pick(&["0x0041 NOSUCH", "KANJI 1 0", "X a 0 0", "X 0 0 0 0", "0xZZZZ DEFAULT", "0x0041..0xQ DEFAULT", "X 0 -1 0", "NAME", "X 0 0 x"]).to_string();
        lines.insert(at, bad);
    }
    let n = unk_fields(&kind_s);
    let mut out: Vec<Line> = lines.into_iter().map(|l| (1, vec![only(&kind_s, l)])).collect();
    let bad = if rng.chance(12) { 6 } else { 0 };
    let mut unk: Vec<Line> = vec![];
    for name in &names {
        for _ in 0..rng.below(4) {
            let mut f = vec![name.clone(), num(rng, 0, 65535, false, bad), num(rng, 0, 65535, false, bad), num(rng, -32768, 32767, false, bad)];
            while f.len() < n {
                f.push(rng.pick(&["*", "名詞", "", "一般"]).to_string());
            }
            if bad > 0 && rng.chance(10) {
                if rng.chance(50) {
                    f.push("*".into());
                } else {
                    f.pop();
                }
            }
            unk.push((2, vec![only(&kind_s, f.join(","))]));
        }
    }
    rng.shuffle(&mut unk);
    if bad > 0 && rng.chance(30) {
        let at = rng.below(unk.len() + 1);
        unk.insert(at, (2, vec![String::new()]));
        unk.push((2, vec!["DEFAULT".into()]));
    }
    out.extend(unk);
    (kind_s, out)
}

/// One small edit in one line: a character put in, replaced or taken out.
fn corrupt(rng: &mut Rng, ty: &str, kind_s: &str, lines: &mut [Line]) {
    const ODD: [char; 40] = [
        '#', '#', ';', '"', '\'', '\\', '/', '.', ',', '+', '-', '_', 'x', 'e', '0', '1', '9', ' ', '\t', '%', '^', '*', '(', ')', '=', ':', '|', '~', '@', '!', '?', '&', '$', '<', '>', '[', '{', '０', 'é', '１',
    ];
    if lines.is_empty() {
        return;
    }
    let edit = |rng: &mut Rng, s: &str| {
        let mut c: Vec<char> = s.chars().collect();
        let at = rng.below(c.len() + 1);
        match rng.below(4) {
            0 if at < c.len() => {
                c.remove(at);
            }
            1 if at < c.len() => c[at] = *rng.pick(&ODD),
            _ => c.insert(at, *rng.pick(&ODD)),
        }
        only(kind_s, c.into_iter().collect())
    };
    let i = rng.below(lines.len());
    let l = &mut lines[i].1;
    match ty {
        "words" | "user" => {
            if l.len() > 3 {
                let f = 1 + rng.below(3);
                l[f] = edit(rng, &l[f]);
            }
        }
        "matrix" => {
            let t = edit(rng, &l.join(" "));
            *l = t.split_whitespace().map(|x| x.to_string()).collect();
        }
        _ => {
            let t = edit(rng, &l[0]);
            // other spellings of a code point than 0x and digits are not specified
            let vague = t.split('#').next().unwrap().split_whitespace().next().map_or(false, |w| {
                w.starts_with("0x") && w.split("..").any(|b| !b.starts_with("0x") || b[2..].contains("0x") || b.contains('+'))
            });
            if !vague || lines[i].0 == 2 {
                lines[i].1 = vec![t];
            }
        }
    }
}

// ---------------------------------------------------------------- one field at a time
/// Every odd spelling in every numeric field of a one-row source, and every number of fields.
const SPELLINGS: [&str; 36] = [
    "", " ", "0", "-0", "+0", "00", "007", "+7", "-7", "++7", "+-7", "--7", "+", "-", "x", "1x", "x1", "1.0", "1.", "1e3", "0x1", "１", "1_0", "1 2", " 1", "1 ", "\t1", "\u{3000}1", "32767", "32768", "-32768",
    "-32769", "65535", "65536", "99999999999999999999", "é",
];
fn grid(ty: &str) -> Vec<(String, Vec<Line>)> {
    let mut o: Vec<(String, Vec<Line>)> = vec![];
    for k in KINDS {
        let ok = |s: &&str| s.chars().all(|c| fits(k, c));
        match ty {
            "words" | "user" => {
                let full = if ty == "words" { 6 } else { detailed_fields(k) };
                let row = |w: usize| -> Vec<String> { (0..w).map(|i| if i == 0 { "a".to_string() } else if i < 4 { "1".to_string() } else { format!("d{}", i) }).collect() };
                let good = {
                    let mut g = row(full);
                    g[0] = "b".into();
                    g
                };
                for f in 1..4 {
                    for v in SPELLINGS.iter().filter(|s| ok(s)) {
                        let mut x = row(full);
                        x[f] = v.to_string();
                        o.push((k.to_string(), vec![(1, good.clone()), (1, x)]));
                    }
                }
                if ty == "words" {
                    // the characters that some types rewrite, in every column there may be
                    let dashes = only(k, "a―b～c".to_string());
                    for w in 5..=28 {
                        let mut x = row(w);
                        x[w - 1] = dashes.clone();
                        let mut y = vec![dashes.clone(); w];
                        y[1..4].clone_from_slice(&x[1..4]);
                        o.push((k.to_string(), vec![(1, x)]));
                        o.push((k.to_string(), vec![(1, y)]));
                    }
                }
                for w in (1..=full + 3).filter(|w| *w != 4) {
                    // (a row with no detail columns has no agreed meaning)
                    o.push((k.to_string(), vec![(1, row(w))]));
                    let mut y = row(w);
                    y[0] = "c".into();
                    o.push((k.to_string(), vec![(1, row(w)), (1, y)]));
                    o.push((k.to_string(), vec![(1, good.clone()), (1, row(w))]));
                }
            }
            "matrix" => {
                let s = |v: &[&str]| -> Line { (1, v.iter().map(|s| s.to_string()).collect()) };
                for v in SPELLINGS.iter().filter(|s| !s.chars().any(|c| c.is_whitespace()) && !s.is_empty() && s.len() < 8) {
                    o.push((k.to_string(), vec![s(&[v, "2"]), s(&["0", "1", "5"])]));
                    o.push((k.to_string(), vec![s(&["2", v]), s(&["1", "0", "5"])]));
                    o.push((k.to_string(), vec![s(&["9", "9"]), s(&[v, "1", "5"])]));
                    o.push((k.to_string(), vec![s(&["9", "9"]), s(&["1", v, "5"])]));
                    o.push((k.to_string(), vec![s(&["9", "9"]), s(&["1", "1", v])]));
                }
                for w in 0..5 {
                    o.push((k.to_string(), vec![s(&["2", "2", "2", "2"][..w.min(4)]), s(&["0", "1", "5"])]));
                    o.push((k.to_string(), vec![s(&["2", "2"]), s(&["0", "1", "1", "1", "1"][..w])]));
                }
            }
            _ => {
                let n = unk_fields(k);
                let unk = |f: &[&str]| -> Line { (2, vec![f.join(",")]) };
                let star: Vec<&str> = vec!["*"; n + 4];
                let with = |x: [&str; 4], w: usize| -> Line { unk(&x.iter().cloned().chain(star.iter().cloned()).take(w).collect::<Vec<_>>()) };
                let def = (1, vec!["DEFAULT 0 1 0".to_string()]);
                for v in SPELLINGS.iter().filter(|s| ok(s)) {
                    o.push((k.to_string(), vec![def.clone(), with(["DEFAULT", v, "1", "1"], n)]));
                    o.push((k.to_string(), vec![def.clone(), with(["DEFAULT", "1", v, "1"], n)]));
                    o.push((k.to_string(), vec![def.clone(), with(["DEFAULT", "1", "1", v], n)]));
                }
                for w in 1..n + 4 {
                    o.push((k.to_string(), vec![def.clone(), with(["DEFAULT", "1", "2", "3"], w)]));
                }
                for v in SPELLINGS.iter().filter(|s| ok(s) && !s.chars().any(|c| c.is_whitespace()) && !s.is_empty()) {
                    // (a minus sign before zero, and a sign or a second prefix in a code point, have no agreed meaning)
                    let mut ls = vec![format!("0x0041 {}", v), format!("{}..0x0042 DEFAULT", v)];
                    if *v != "-0" {
                        ls.extend([format!("X {} 0 0", v), format!("X 0 {} 0", v), format!("X 0 1 {}", v)]);
                    }
                    if !v.starts_with(['+', '-']) && *v != "0x1" {
                        ls.extend([format!("0x{} DEFAULT", v), format!("0x0041..0x{} DEFAULT", v), format!("0x0041 DEFAULT DEFAULT {}", v)]);
                    }
                    for l in ls {
                        o.push((k.to_string(), vec![def.clone(), (1, vec![l])]));
                    }
                }
            }
        }
    }
    o
}

// ---------------------------------------------------------------- big sources, described by a formula
/// Row i is: surface = decimal digits of i, ids i mod 997 and i mod 65536, cost i mod 65536 - 32768, detail "d" and i.
fn big_words(rng: &mut Rng, out: &Path, ty: &str, n: usize) -> Value {
    let kind_s = if ty == "bigwords" { *rng.pick(&KINDS[1..]) } else { *rng.pick(&KINDS) };
    let dir = scratch(out, "big");
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    let mut text = String::new();
    let width = if ty == "bigwords" { 5 } else { detailed_fields(kind_s) };
    for i in order {
        text.push_str(&format!("{},{},{},{},d{}", i, i % 997, i % 65536, (i % 65536) as i64 - 32768, i));
        text.push_str(&",*".repeat(width - 5));
        text.push('\n');
    }
    let mut ps: Vec<String> = ["0", "00", "7", "x", "65535", "65536", "65537", "131071", "1310720"].iter().map(|s| s.to_string()).collect();
    ps.push((n - 1).to_string());
    ps.push(n.to_string());
    for _ in 0..60 {
        ps.push(rng.below(n * 12).to_string());
    }
    let mut obs = vec![];
    let mut res;
    if ty == "bigwords" {
        let (src, dst) = (dir.join("src"), dir.join("dic"));
        base_src(&src, kind_s);
        fs::write(src.join("w1.csv"), text).unwrap();
        let (b, r) = verdict(build(kind_s, &src, &dst));
        res = r;
        if b.is_some() {
            let (d, r) = load(&dst);
            res = r;
            if let Some(d) = d {
                obs = ps.iter().map(|t| guarded_entries(&d.dict, &|i| d.word_details(i), t)).collect();
            }
        }
    } else {
        let p = dir.join("user.csv");
        let q = dir.join("user.bin");
        fs::write(&p, text).unwrap();
        let (b, r) = verdict(guard("big user", || DictionaryBuilderResolver::resolve_builder(kind(kind_s)).unwrap().build_user_dictionary(&p, &q)));
        res = r;
        if b.is_some() {
            let (d, r) = verdict(guard("big user load", || DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: q.clone(), kind: None })));
            res = r;
            if let Some(d) = d {
                obs = ps.iter().map(|t| guarded_entries(&d.dict, &|i| d.word_details(i), t)).collect();
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    json!({"ty": ty, "kind": kind_s, "n": n, "lines": [], "w": 0, "extra": width - 5, "res": res, "obs": obs})
}
/// Cost of (f, b) is (31 f + 7 b) mod 65536 - 32768.
fn big_matrix(rng: &mut Rng, out: &Path) -> Value {
    let kind_s = *rng.pick(&KINDS);
    let dir = scratch(out, "big");
    let (src, dst) = (dir.join("src"), dir.join("dic"));
    base_src(&src, kind_s);
    let (nf, nb) = (200 + rng.below(300), 200 + rng.below(300));
    let cost = |f: usize, b: usize| ((31 * f + 7 * b) % 65536) as i64 - 32768;
    let mut text = format!("{} {}\n", nf, nb);
    for b in 0..nb {
        for f in 0..nf {
            text.push_str(&format!("{} {} {}\n", f, b, cost(f, b)));
        }
    }
    fs::write(src.join("matrix.def"), enc_any(rng, kind_s, &text)).unwrap();
    let (b, mut res) = verdict(build(kind_s, &src, &dst));
    let mut obs = vec![];
    if b.is_some() {
        let (d, r) = load(&dst);
        res = r;
        if let Some(d) = d {
            for i in 0..300 {
                let (f, b) = if i < 4 { ((i % 2) * (nf - 1), (i / 2) * (nb - 1)) } else { (rng.below(nf), rng.below(nb)) };
                obs.push(json!([f, b, guard("cost", || d.cost_matrix.cost(f as u32, b as u32)).unwrap_or(99999)]));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    json!({"ty": "bigmatrix", "kind": kind_s, "n": 0, "lines": [], "res": res, "obs": obs})
}

/// More categories, ranges and unknown-word entries than a byte can count.
fn big_defs(rng: &mut Rng) -> (String, Vec<Line>) {
    let kind_s = rng.pick(&KINDS).to_string();
    let nc = 257 + rng.below(80);
    let mut names: Vec<String> = (0..nc).map(|i| format!("C{}", (i * 7919) % 10007)).collect();
    names[rng.below(nc)] = "DEFAULT".to_string();
    let mut lines: Vec<Line> = vec![];
    for n in &names {
        lines.push((1, vec![format!("{} {} {} {}", n, rng.below(2), rng.below(2), rng.below(4))]));
    }
    // ranges: a lattice of overlapping ones, one of many categories, one over everything
    for i in 0..300 {
        let a = rng.below(0x3000) as u32;
        let b = (a + rng.below(400) as u32).min(0xFFFF);
        let cs: Vec<String> = (0..1 + rng.below(2)).map(|_| rng.pick(&names).clone()).collect();
        let l = if i % 3 == 0 { format!("0x{:04X} {}", a, cs.join(" ")) } else { format!("0x{:04X}..0x{:04X} {}", a, b, cs.join(" ")) };
        lines.push((1, vec![l]));
    }
    lines.push((1, vec![format!("0x4E00..0x4E10 {}", names.join(" "))]));
    if rng.chance(50) {
        rng.shuffle(&mut lines);
    }
    let n = unk_fields(&kind_s);
    let mut unk: Vec<Line> = vec![];
    for (i, name) in names.iter().enumerate() {
        for k in 0..if i == 3 { 300 } else { rng.below(3) } {
            let mut f = vec![name.clone(), (i * 13 + k).to_string(), rng.below(65536).to_string(), (rng.below(65536) as i64 - 32768).to_string()];
            while f.len() < n {
                f.push("*".to_string());
            }
            unk.push((2, vec![f.join(",")]));
        }
    }
    if rng.chance(50) {
        rng.shuffle(&mut unk);
    }
    lines.extend(unk);
    (kind_s, lines)
}

/// How a user dictionary file is taken: by its extension, with or without a kind, and its content.
fn dispatch(rng: &mut Rng, out: &Path) -> Vec<Value> {
    let dir = scratch(out, "disp");
    let mut o = vec![];
    for kind_s in KINDS {
        let csv = dir.join("ok.csv");
        let simple = "東京,名詞,トウキョウ\n";
        fs::write(&csv, simple).unwrap();
        let bin = dir.join("ok.bin");
        DictionaryBuilderResolver::resolve_builder(kind(kind_s)).unwrap().build_user_dictionary(&csv, &bin).unwrap();
        let good = fs::read(&bin).unwrap();
        let contents: Vec<(&str, Option<Vec<u8>>)> = vec![
            ("csv", Some(simple.as_bytes().to_vec())),
            ("badcsv", Some(b"a,b\n".to_vec())),
            ("bin", Some(good.clone())),
            ("cutbin", Some(good[..rng.below(good.len())].to_vec())),
            ("cutbin", Some(good[..good.len() - 1].to_vec())),
            ("cutbin", Some(vec![])),
            ("junk", Some(vec![0xFF; 1 + rng.below(100)])),
            ("missing", None),
        ];
        for (ext, name) in [("csv", "u.csv"), ("bin", "u.bin"), ("other", "u.txt"), ("other", "u"), ("other", "u.CSV"), ("other", "u.bin.gz"), ("other", ".csv")] {
            for (content, data) in &contents {
                for has in [true, false] {
                    let p: PathBuf = dir.join(name);
                    let _ = fs::remove_file(&p);
                    if let Some(d) = data {
                        fs::write(&p, d).unwrap();
                    }
                    let (u, mut res) = verdict(guard("dispatch", || {
                        DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig {
                            path: p.clone(),
                            kind: if has { Some(kind(kind_s)) } else { None },
                        })
                    }));
                    if let Some(u) = u {
                        if u.dict.find_surface("東京").len() != 1 && !(ext == "csv" && data.as_ref().map(|d| d.is_empty()).unwrap_or(false)) {
                            res = "wrong";
                        }
                    }
                    let c = if ext == "csv" && data.as_ref().map(|d| d.is_empty()).unwrap_or(false) { "csv" } else { content };
                    o.push(json!({"ty": "disp", "kind": kind_s, "lines": [], "ext": ext, "content": c, "has": has, "res": res, "obs": []}));
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    o
}

pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut rng = Rng::new(seed);
    let mut cases = Out::new(out, "cases.ndjson");
    if let Some(p) = scn {
        for l in fs::read_to_string(p).unwrap().lines() {
            if !rng.chance(o.sample) {
                continue;
            }
            let v: Value = serde_json::from_str(l).unwrap();
            let ty = v["ty"].as_str().unwrap();
            let lines: Vec<Line> = v["lines"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| {
                    let f = x["f"].as_u64().unwrap() as usize;
                    (f, if ty == "defs" { vec![from_cps(&x["x"])] } else { x["x"].as_array().unwrap().iter().map(from_cps).collect() })
                })
                .collect();
            cases.put(&case(&mut rng, out, ty, v["kind"].as_str().unwrap(), &lines));
        }
    }
    for (k, lines) in grid(&o.ty) {
        if rng.chance(o.grid) {
            cases.put(&case(&mut rng, out, &o.ty, &k, &lines));
        }
    }
    for i in 0..o.n {
        let (k, mut lines) = match o.ty.as_str() {
            "words" => gen_words(&mut rng, if i % 50 == 0 { 200 } else { o.maxrows }),
            "user" => gen_user(&mut rng, o.maxrows),
            "matrix" => gen_matrix(&mut rng),
            _ => gen_defs(&mut rng),
        };
        if rng.chance(25) {
            corrupt(&mut rng, &o.ty, &k, &mut lines);
        }
        if i % 40 == 9 && matches!(o.ty.as_str(), "words" | "user") {
            widen_rows(&mut rng, &k, o.ty == "words", &mut lines, i % 200 == 9);
        }
        cases.put(&case(&mut rng, out, &o.ty, &k, &lines));
    }
    for _ in 0..o.big {
        match o.ty.as_str() {
            "words" => cases.put(&big_words(&mut rng, out, "bigwords", 140000)),
            "user" => cases.put(&big_words(&mut rng, out, "biguser", 80000)),
            "matrix" => cases.put(&big_matrix(&mut rng, out)),
            _ => {
                let (k, lines) = big_defs(&mut rng);
                cases.put(&case(&mut rng, out, &o.ty, &k, &lines));
            }
        }
    }
    if o.ty == "user" {
        for c in dispatch(&mut rng, out) {
            cases.put(&c);
        }
    }
}
