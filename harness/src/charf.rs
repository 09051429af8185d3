//! Character filters: chains of filters applied by the real code, one by one and inside an analyzer.
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::path::Path;
use unicode_normalization::char::{canonical_combining_class, compose, decompose_canonical, decompose_compatible};
use unicode_segmentation::UnicodeSegmentation;

// ---------------------------------------------------------------- filters as the specification sees them
fn chr_pat(c: u32) -> String {
    regex_escape(char::from_u32(c).unwrap())
}
fn regex_escape(c: char) -> String {
    match c {
        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' | '#' | '&' | '-' | '~' => format!("\\{}", c),
        '\n' => "\\n".into(),
        _ => c.to_string(),
    }
}
pub fn render(n: &Value) -> String {
    let k = n["k"].as_str().unwrap();
    match k {
        "chr" => chr_pat(n["c"].as_u64().unwrap() as u32),
        "any" => ".".into(),
        "set" => {
            let mut s = String::from(if n["neg"].as_bool().unwrap() { "[^" } else { "[" });
            for r in n["cs"].as_array().unwrap() {
                let (a, b) = (r[0].as_u64().unwrap() as u32, r[1].as_u64().unwrap() as u32);
                s.push_str(&chr_pat(a));
                if a != b {
                    s.push('-');
                    s.push_str(&chr_pat(b));
                }
            }
            s.push(']');
            s
        }
        "cat" => n["xs"].as_array().unwrap().iter().map(|x| if x["k"] == "alt" { format!("(?:{})", render(x)) } else { render(x) }).collect(),
        "alt" => {
            let v: Vec<String> = n["xs"].as_array().unwrap().iter().map(render).collect();
            format!("(?:{})", v.join("|"))
        }
        "rep" => {
            let (min, max) = (n["min"].as_i64().unwrap(), n["max"].as_i64().unwrap());
            let q = match (min, max) {
                (0, -1) => "*".to_string(),
                (1, -1) => "+".to_string(),
                (0, 1) => "?".to_string(),
                (a, -1) => format!("{{{},}}", a),
                (a, b) if a == b => format!("{{{}}}", a),
                (a, b) => format!("{{{},{}}}", a, b),
            };
            format!("(?:{}){}{}", render(&n["x"]), q, if n["lazy"].as_bool().unwrap() { "?" } else { "" })
        }
        "grp" => match n["name"].as_str() {
            Some(name) => format!("(?P<{}>{})", name, render(&n["x"])),
            None => format!("({})", render(&n["x"])),
        },
        "bol" => "^".into(),
        "eol" => "$".into(),
        "eps" => "(?:)".into(),
        _ => panic!("node {}", k),
    }
}
fn render_tpl(t: &Value) -> String {
    let mut s = String::new();
    for p in t.as_array().unwrap() {
        let g = p["g"].as_i64().unwrap();
        if g < 0 {
            s.push_str(&from_cps(&p["s"]).replace('$', "$$"));
        } else {
            s.push_str(&format!("${{{}}}", g));
        }
    }
    s
}
/// kind and JSON arguments of a filter record
pub fn filter_args(f: &Value) -> (&'static str, Value) {
    match f["k"].as_str().unwrap() {
        "map" => {
            let mut m = serde_json::Map::new();
            for kv in f["m"].as_array().unwrap() {
                m.insert(from_cps(&kv[0]), json!(from_cps(&kv[1])));
            }
            ("mapping", json!({ "mapping": m }))
        }
        "rex" => ("regex", json!({"pattern": render(&f["re"]), "replacement": if f["raw"].is_null() { render_tpl(&f["tpl"]) } else { from_cps(&f["raw"]) }})),
        "iter" => ("japanese_iteration_mark", json!({"normalize_kanji": f["kanji"], "normalize_kana": f["kana"]})),
        _ => ("unicode_normalize", json!({"kind": f["form"]})),
    }
}
pub fn load(f: &Value) -> Result<BoxCharacterFilter, String> {
    let (k, a) = filter_args(f);
    match guard("load filter", || CharacterFilterLoader::load_from_value(k, &a)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("err {}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}

// ---------------------------------------------------------------- generation
pub const POOL: [char; 52] = [
    'a', 'b', 'Z', '1', ' ', '.', '$', '-', '。', '、', '\n', '\t', '\r', 'é', 'e', '\u{301}', '\u{323}', '\u{307}', 'あ', 'い', 'う', 'か', 'が', 'は', 'ば', 'ぱ', 'ガ', 'ｶ', 'ﾞ', '\u{3099}',
    'ハ', '々', 'ゝ', 'ゞ', 'ヽ', 'ヾ', '東', '京', '①', 'ﬁ', '㍿', '가', 'ᄀ', 'ᅡ', 'ᆨ', 'Å', '😀', '𠮷', '\u{1D15E}', 'ﷺ', '\u{0344}', '\u{0}',
];
pub fn alphabet(rng: &mut Rng, marks: bool) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    let n = 2 + rng.below(4);
    if marks {
        v.push(*rng.pick(&['々', 'ゝ', 'ゞ', 'ヽ', 'ヾ']));
        v.push(*rng.pick(&['か', 'が', 'は', 'ば', 'ぱ', 'ガ', 'カ', '東', 'a', 'づ', 'っ', 'ッ', 'ド', 'む', 'ン', 'ぢ', 'う', 'ゔ', 'ヴ', 'ウ']));
    }
    match rng.below(5) {
        0 => v.extend(['e', '\u{301}', '\u{323}', '\u{307}']),
        1 => v.extend(['か', '\u{3099}', 'ｶ', 'ﾞ']),
        2 => v.extend(['ᄀ', 'ᅡ', 'ᆨ', '가']),
        _ => {}
    }
    if rng.chance(15) {
        // characters of one neighbourhood
        let (a, b) = *rng.pick(&BLOCKS);
        v.clear();
        while v.len() < n + 2 {
            v.extend(char::from_u32(a + rng.below((b - a + 1) as usize) as u32));
        }
        return v;
    }
    for _ in 0..n {
        v.push(*rng.pick(&POOL));
    }
    v
}
const BLOCKS: [(u32, u32); 24] = [
    (0x20, 0x7E), (0xA0, 0xFF), (0xA0, 0xFF), (0x100, 0x24F), (0x2B0, 0x36F), (0x370, 0x4FF), (0x5D0, 0x6FF), (0x900, 0x9FF), (0xE00, 0xFFF), (0x1100, 0x11FF),
    (0x1E00, 0x1FFF), (0x2000, 0x20FF), (0x2100, 0x218F), (0x2460, 0x24FF), (0x2E80, 0x2FDF), (0x3000, 0x30FF), (0x3040, 0x30FF), (0x3130, 0x33FF), (0x4E00, 0x9FFF),
    (0xAC00, 0xD7A3), (0xF900, 0xFAFF), (0xFB00, 0xFDFF), (0xFF00, 0xFFEF), (0x1D100, 0x1D7FF),
];
pub fn text(rng: &mut Rng, al: &[char], max: usize) -> String {
    let n = rng.below(max + 1);
    let mut v: Vec<char> = (0..n).map(|_| if rng.chance(8) { *rng.pick(&POOL) } else { *rng.pick(al) }).collect();
    if rng.chance(5) {
        let at = *rng.pick(&[0, v.len(), v.len() / 2]);
        v.insert(at, *rng.pick(&ODD));
    }
    v.into_iter().collect()
}
fn lit(rng: &mut Rng, al: &[char]) -> u32 {
    loop {
        let c = *rng.pick(al);
        if c != '\0' || true {
            return c as u32;
        }
    }
}
fn gen_node(rng: &mut Rng, al: &[char], depth: usize, ng: &mut i64, nullable_ok: bool, in_rep: bool) -> Value {
    let r = if depth == 0 { rng.below(4) } else { rng.below(12) };
    match r {
        0 | 1 => json!({"k": "chr", "c": lit(rng, al)}),
        2 => json!({"k": "any"}),
        3 => {
            let n = 1 + rng.below(3);
            let cs: Vec<Value> = (0..n)
                .map(|_| {
                    let (a, b) = (lit(rng, al), lit(rng, al));
                    if rng.chance(60) || (a.min(b) < 0xE000 && a.max(b) > 0xD7FF) {
                        json!([a, a])
                    } else {
                        json!([a.min(b), a.max(b)])
                    }
                })
                .collect();
            json!({"k": "set", "cs": cs, "neg": rng.chance(30)})
        }
        4 | 5 | 6 => {
            let n = 2 + rng.below(2);
            let k = rng.below(n);
            let xs: Vec<Value> = (0..n).map(|i| gen_node(rng, al, depth - 1, ng, nullable_ok || i != k, in_rep)).collect();
            json!({"k": "cat", "xs": xs})
        }
        7 | 8 => {
            let n = 2 + rng.below(2);
            let xs: Vec<Value> = (0..n).map(|_| gen_node(rng, al, depth - 1, ng, nullable_ok, in_rep)).collect();
            json!({"k": "alt", "xs": xs})
        }
        9 if !in_rep => {
            let (min, max) = *rng.pick(if nullable_ok { &[(0, -1), (0, 1), (0, 2), (1, -1), (2, 3), (2, -1), (1, 2)] } else { &[(1, -1), (1, -1), (2, 2), (1, 2), (2, -1), (1, 3), (2, 3)] });
            let x = gen_node(rng, al, depth - 1, ng, false, true);
            json!({"k": "rep", "x": x, "min": min, "max": max, "lazy": rng.chance(30)})
        }
        10 => {
            *ng += 1;
            let n = *ng;
            let x = gen_node(rng, al, depth - 1, ng, nullable_ok, in_rep);
            if rng.chance(30) {
                let name = format!("{}{}", rng.pick(&["x", "_", "a1_", "B"]), n);
                json!({"k": "grp", "n": n, "x": x, "name": name})
            } else {
                json!({"k": "grp", "n": n, "x": x})
            }
        }
        11 if nullable_ok && !in_rep => json!({"k": rng.pick(&["bol", "eol", "eps"])}),
        _ => json!({"k": "chr", "c": lit(rng, al)}),
    }
}
pub fn gen_filter(rng: &mut Rng, al: &[char], kinds: &[&str]) -> Value {
    match *rng.pick(kinds) {
        "map" => {
            let mut m: Vec<(String, String)> = vec![];
            for _ in 0..rng.below(6) {
                let k: String = if !m.is_empty() && rng.chance(40) {
                    // nested or overlapping with an earlier key
                    let b = rng.pick(&m).0.clone();
                    let x = rng.pick(al).to_string();
                    match rng.below(3) {
                        0 => b + &x,
                        1 => x + &b,
                        _ => b.chars().skip(1).collect::<String>() + &x,
                    }
                } else {
                    (0..1 + rng.below(3)).map(|_| *rng.pick(al)).collect()
                };
                let k = k.replace('\0', "a");
                if k.is_empty() || m.iter().any(|x| x.0 == k) {
                    continue;
                }
                let v: String = (0..rng.below(4)).map(|_| if rng.chance(50) { *rng.pick(al) } else { *rng.pick(&POOL) }).collect();
                m.push((k, v));
            }
            if rng.chance(3) {
                widen_map(rng, al, &mut m);
            }
            json!({"k": "map", "m": m.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect::<Vec<_>>()})
        }
        "rex" => {
            let mut ng = 0;
            let re = gen_node(rng, al, 3, &mut ng, true, false);
            let ng = ng as usize;
            let names: Vec<Value> = (1..=ng).map(|i| group_name(&re, i)).collect();
            let raw = if rng.chance(50) { gen_raw(rng, al, ng, &names) } else { (0..rng.below(4)).map(|_| if rng.chance(50) { format!("${{{}}}", rng.below(ng + 2)) } else { rng.pick(al).to_string().replace('$', "$$") }).collect() };
            json!({"k": "rex", "re": re, "ng": ng, "raw": cps(&raw), "names": names.iter().map(|n| cps(n.as_str().unwrap())).collect::<Vec<_>>()})
        }
        "iter" => json!({"k": "iter", "kanji": rng.chance(60), "kana": rng.chance(60)}),
        _ => json!({"k": "norm", "form": rng.pick(&["nfc", "nfd", "nfkc", "nfkd"])}),
    }
}

/// the name of group number i, "" if it has none
fn group_name(n: &Value, i: usize) -> Value {
    if n["k"] == "grp" && n["n"].as_u64() == Some(i as u64) {
        return json!(n["name"].as_str().unwrap_or(""));
    }
    let mut subs: Vec<&Value> = n["xs"].as_array().map(|v| v.iter().collect()).unwrap_or_default();
    if !n["x"].is_null() {
        subs.push(&n["x"]);
    }
    subs.iter().map(|x| group_name(x, i)).find(|x| x != "").unwrap_or(json!(""))
}
/// a replacement with references in every notation, and with what only looks like one
fn gen_raw(rng: &mut Rng, al: &[char], ng: usize, names: &[Value]) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(4) {
        let name = match rng.below(6) {
            0 if ng > 0 => names[rng.below(ng)].as_str().unwrap().to_string(),
            1 => rng.pick(&["x", "_", "1a", "a1", "+1", "", "00", "99999999999999999999", " 1", "東"]).to_string(),
            2 => format!("0{}", rng.below(ng + 2)),
            _ => rng.below(ng + 2).to_string(),
        };
        match rng.below(8) {
            0 | 1 => s.push_str(&format!("${}", name)),
            2 | 3 => s.push_str(&format!("${{{}}}", name)),
            4 => s.push_str(*rng.pick(&["$", "$$", "${", "$}", "$-", "$ ", "{", "}", "\\1", "\\", "&", "$$1"])),
            _ => s.push(*rng.pick(al)),
        }
    }
    s
}
/// hundreds of keys, or keys and values of hundreds of characters
fn widen_map(rng: &mut Rng, al: &[char], m: &mut Vec<(String, String)>) {
    let add = |k: String, v: String, m: &mut Vec<(String, String)>| {
        let k = k.replace('\0', "a");
        if !k.is_empty() && !m.iter().any(|x| x.0 == k) {
            m.push((k, v));
        }
    };
    if rng.chance(50) {
        let n = *rng.pick(&[255usize, 256, 257, 300]);
        while m.len() < n {
            let k: String = if rng.chance(30) { (0..1 + rng.below(4)).map(|_| *rng.pick(al)).collect() } else { (0..1 + rng.below(3)).map(|_| *rng.pick(&POOL)).collect() };
            let k = if m.len() > 200 && rng.chance(50) { format!("{}{}", k, m.len()) } else { k };
            let v: String = if rng.chance(50) { m.len().to_string() } else { rng.pick(al).to_string() };
            add(k, v, m);
        }
    } else {
        for _ in 0..1 + rng.below(2) {
            let n = *rng.pick(&[40usize, 85, 86, 127, 128, 129, 255, 256, 257, 300]);
            let u: String = (0..1 + rng.below(3)).map(|_| *rng.pick(al)).collect();
            let k: String = u.chars().cycle().take(n).collect();
            let v: String = (0..rng.below(4)).map(|_| *rng.pick(al)).collect();
            let v = if rng.chance(30) { v.chars().cycle().take(n).collect() } else { v };
            add(k, v, m);
        }
    }
}
/// a key of the first mapping of a chain that no short text would contain
pub fn long_key(fs: &[Value]) -> Option<String> {
    let m = fs.first()?.get("m")?.as_array()?;
    m.iter().map(|x| from_cps(&x[0])).max_by_key(|k| k.chars().count()).filter(|k| k.chars().count() >= 40)
}

// ---------------------------------------------------------------- Unicode data for the specification
pub fn unicode_data(texts: &[String]) -> (Value, Value) {
    let mut set = std::collections::BTreeSet::new();
    for t in texts {
        set.extend(t.chars());
    }
    let mut all = set.clone();
    for c in &set {
        decompose_canonical(*c, |x| {
            all.insert(x);
        });
        decompose_compatible(*c, |x| {
            all.insert(x);
        });
    }
    let mut nd = vec![];
    for c in &all {
        let (mut d, mut k) = (vec![], vec![]);
        decompose_canonical(*c, |x| d.push(x as u32));
        decompose_compatible(*c, |x| k.push(x as u32));
        let cc = canonical_combining_class(*c);
        if cc != 0 || d != [*c as u32] || k != [*c as u32] {
            nd.push(json!({"c": *c as u32, "cc": cc, "d": d, "k": k}));
        }
    }
    let mut np = vec![];
    let mut frontier: std::collections::BTreeSet<char> = all.clone();
    let mut seen = std::collections::BTreeSet::new();
    while !frontier.is_empty() {
        let mut next = std::collections::BTreeSet::new();
        for a in &frontier {
            for b in &all {
                if let Some(x) = compose(*a, *b) {
                    if seen.insert((*a, *b)) {
                        np.push(json!([*a as u32, *b as u32, x as u32]));
                        next.insert(x);
                    }
                }
            }
        }
        frontier = next;
    }
    (json!(nd), json!(np))
}
pub fn clusters(t: &str) -> Value {
    json!(t.graphemes(true).map(|g| g.chars().count()).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- tokenizers that cut texts
pub fn simple_world(grp: bool, inv: bool, words: &[String]) -> World {
    let mut sys = vec![Row { s: "枠".into(), l: 0, r: 0, c: 0, d: vec!["w".into()], simple: false, raw: vec![] }];
    for (i, s) in words.iter().enumerate() {
        sys.push(Row { s: s.clone(), l: 0, r: 0, c: (i as i64 % 5) - 3, d: vec![format!("d{}", i)], simple: false, raw: vec![] });
    }
    World {
        kind: "unidic".into(),
        sys,
        usr: vec![],
        hasu: false,
        cats: vec![Cat { n: "DEFAULT".into(), inv, grp }],
        rng: vec![],
        unk: vec![Unk { k: 0, l: 0, r: 0, c: 10 }],
        mat: vec![vec![0]],
        files: 1,
        layout: 1,
        pad: Pad::default(),
    }
}
pub fn tokenizer_of(w: &World, dir: &Path) -> Tokenizer {
    let r = Tokenizer::new(w.build(dir).expect("dictionary builds"), None, Mode::Normal);
    let _ = std::fs::remove_dir_all(dir);
    r
}

pub struct Opts {
    pub n: usize,
    pub maxlen: usize,
    pub kinds: Vec<&'static str>,
    pub chain: (usize, usize),
    pub tokens: bool,
    pub marks: bool,
    pub sample: u64,
    pub long: usize,
    pub scale: usize,
    pub marks_grid: bool,
}

// ---------------------------------------------------------------- texts far too long for the model
/// A character that no generated filter reads or writes and that nothing composes with.
const SEP: char = '※';
fn ignores_sep(n: &Value) -> bool {
    match n["k"].as_str().unwrap() {
        "any" | "bol" | "eol" => false,
        "set" => !n["neg"].as_bool().unwrap() && n["cs"].as_array().unwrap().iter().all(|r| !(r[0].as_u64().unwrap()..=r[1].as_u64().unwrap()).contains(&(SEP as u64))),
        "cat" | "alt" => n["xs"].as_array().unwrap().iter().all(ignores_sep),
        "rep" | "grp" => ignores_sep(&n["x"]),
        _ => true,
    }
}
/// May the filter be judged piece by piece?  Runs of marks must find what they repeat inside the piece.
fn local(f: &Value, pieces: &[&str]) -> bool {
    match f["k"].as_str().unwrap() {
        "rex" => ignores_sep(&f["re"]),
        "iter" => pieces.iter().all(|p| {
            let m: Vec<bool> = p.chars().map(|c| (f["kanji"] == true && c == '々') || (f["kana"] == true && "ゝゞヽヾ".contains(c))).collect();
            (0..m.len()).filter(|i| m[*i] && (*i == 0 || !m[i - 1])).all(|i| m[i..].iter().take_while(|x| **x).count() <= i)
        }),
        "norm" => pieces.iter().all(|p| {
            // a cluster never spans the separator
            let t = format!("{}{}{}", SEP, p, SEP);
            let g: Vec<&str> = t.graphemes(true).collect();
            g.len() >= 2 && g[0].chars().count() == 1 && g[g.len() - 1].chars().count() == 1
        }),
        _ => true,
    }
}
/// (x SEP)^n through a chain: every piece must be what the chain makes of x SEP by itself.
fn scale_cases(fs: &[Value], filters: &[BoxCharacterFilter], x: &str, n: usize, an: Option<&Tokenizer>, co: &mut Out) {
    let unit = format!("{}{}", x, SEP);
    let sl = SEP.len_utf8();
    let bad = |fs: &[Value], r: &str, e: String| {
        json!({"fs": fs, "t": cps(&unit), "st": [{"r": r, "o": [], "e": e}], "g": vec![json!([]); fs.len()], "nd": [], "np": [], "hk": an.is_some(), "kr": r, "k": [], "sc": n})
    };
    let mut big = unit.repeat(n);
    let mut texts: Vec<Vec<String>> = vec![vec![unit.clone()]; n]; // per window, the text after each stage
    let mut used = 0;
    for (f, flt) in fs.iter().zip(filters) {
        {
            let mut ps: Vec<&str> = big.split(SEP).collect();
            ps.sort();
            ps.dedup();
            if !local(f, &ps) {
                break;
            }
        }
        match guard(&format!("char filter {} on {} times {:?}", f, n, unit), || flt.apply(&big)) {
            Ok(Ok((o, _, _))) => big = o,
            Ok(Err(e)) => return co.put(&bad(&fs[used..used + 1], "err", e.to_string())),
            Err(e) => return co.put(&bad(&fs[used..used + 1], "panic", e)),
        }
        used += 1;
        let ps: Vec<&str> = big.split(SEP).collect();
        if ps.len() != n + 1 {
            return co.put(&bad(&fs[used - 1..used], "shape", format!("{} separators of {}", ps.len() - 1, n)));
        }
        for (w, p) in texts.iter_mut().zip(&ps) {
            w.push(format!("{}{}{}", p, SEP, ps[n]));
        }
    }
    let fs = &fs[..used];
    // tokens: one per character, cut after each separator
    let mut toks: Vec<Vec<(String, i64, i64)>> = vec![vec![]; n];
    if let Some(t) = an {
        let a = Analyzer::new(filters[..used].iter().map(|f| f.box_clone()).collect(), t.clone(), vec![]);
        let input = unit.repeat(n);
        match guard(&format!("analyze {} times {:?} with {}", n, unit, json!(fs)), || a.analyze(&input)) {
            Ok(Ok(ks)) => {
                let mut j = 0;
                let mut tail = vec![];
                let ul = unit.len() as i64;
                let all: Vec<(String, i64, i64)> = ks.iter().map(|k| (k.text.to_string(), k.byte_start as i64, k.byte_end as i64)).collect();
                for (i, (t, b, e)) in all.iter().enumerate() {
                    if j == n {
                        tail.push((t.clone(), b - (n as i64 - 1) * ul, e - (n as i64 - 1) * ul));
                        continue;
                    }
                    let base = j as i64 * ul;
                    let (mut e2, sep) = (e - base, t.ends_with(SEP));
                    // what follows a separator may vanish, and its end may then stand for either side of that
                    if sep && j + 1 < n && e2 > ul && i + 1 < all.len() && all[i + 1].2 >= *e {
                        e2 = ul;
                    }
                    toks[j].push((t.clone(), b - base, e2));
                    if sep {
                        j += 1;
                    }
                }
                if j != n {
                    return co.put(&bad(fs, "shape", format!("{} separator tokens of {}", j, n)));
                }
                for w in toks.iter_mut() {
                    w.extend(tail.iter().cloned());
                }
            }
            Ok(Err(e)) => return co.put(&bad(fs, "err", e.to_string())),
            Err(e) => return co.put(&bad(fs, "panic", e)),
        }
    }
    let mut seen: std::collections::HashSet<(Vec<String>, Vec<(String, i64, i64)>)> = Default::default();
    for (w, k) in texts.into_iter().zip(toks) {
        if seen.len() >= 8 || !seen.insert((w.clone(), k.clone())) {
            continue;
        }
        let st: Vec<Value> = w[1..].iter().map(|o| json!({"r": "ok", "o": cps(o)})).collect();
        let g: Vec<Value> = fs.iter().enumerate().map(|(i, f)| if f["k"] == "norm" { clusters(&w[i]) } else { json!([]) }).collect();
        let (nd, np) = if fs.iter().any(|f| f["k"] == "norm") { unicode_data(&w) } else { (json!([]), json!([])) };
        co.put(&json!({"fs": fs, "t": cps(&unit), "st": st, "g": g, "nd": nd, "np": np, "hk": an.is_some(), "kr": if an.is_some() { "ok" } else { "none" },
            "k": k.iter().map(|(t, b, e)| json!({"t": cps(t), "bs": b, "be": e})).collect::<Vec<_>>(), "sc": n, "len": sl}));
    }
}
/// Every kana followed by every mark, and by two marks, under all settings.
fn marks_grid() -> Vec<(Value, Vec<String>)> {
    let kana: Vec<char> = (0x3041..=0x3096u32).chain(0x309D..=0x309F).chain(0x30A1..=0x30FF).chain([0x4E00, 0x6771, 0x3400, 0x20000, 0x61, 0xFF76]).filter_map(char::from_u32).collect();
    let marks = ['々', 'ゝ', 'ゞ', 'ヽ', 'ヾ'];
    let mut texts = vec![];
    for m in marks {
        for k in kana.chunks(48) {
            texts.push(k.iter().map(|c| format!("{}{}", c, m)).collect::<String>());
        }
    }
    for (i, m) in marks.iter().enumerate() {
        for (j, k) in kana.chunks(36).enumerate() {
            texts.push(k.iter().zip(k.iter().rev()).map(|(a, b)| format!("{}{}{}{}", a, b, m, marks[(i + j) % 5])).collect::<String>());
        }
    }
    let mut o = vec![];
    for kanji in [false, true] {
        for kn in [false, true] {
            o.push((json!({"k": "iter", "kanji": kanji, "kana": kn}), texts.clone()));
        }
    }
    o
}

fn case(fs: &[Value], filters: &[BoxCharacterFilter], t: &str, an: Option<&Analyzer>) -> Value {
    let mut cur = t.to_string();
    let mut st = vec![];
    let mut g = vec![];
    let mut texts = vec![t.to_string()];
    for (f, x) in fs.iter().zip(filters) {
        g.push(if f["k"] == "norm" { clusters(&cur) } else { json!([]) });
        match guard(&format!("char filter {} on {:?}", f, cur), || x.apply(&cur)) {
            Ok(Ok((o, _, _))) => {
                st.push(json!({"r": "ok", "o": cps(&o)}));
                cur = o;
                texts.push(cur.clone());
            }
            Ok(Err(_)) => {
                st.push(json!({"r": "err", "o": []}));
                break;
            }
            Err(e) => {
                st.push(json!({"r": "panic", "o": [], "e": e}));
                break;
            }
        }
    }
    let (nd, np) = if fs.iter().any(|f| f["k"] == "norm") { unicode_data(&texts) } else { (json!([]), json!([])) };
    let mut c = json!({"fs": fs, "t": cps(t), "st": st, "g": g, "nd": nd, "np": np, "hk": an.is_some(), "kr": "none", "k": []});
    if let Some(a) = an {
        match guard(&format!("analyze {:?} with {}", t, json!(fs)), || a.analyze(t)) {
            Ok(Ok(ks)) => {
                c["kr"] = json!("ok");
                c["k"] = json!(ks.iter().map(|k| json!({"t": cps(&k.text), "bs": k.byte_start, "be": k.byte_end})).collect::<Vec<_>>());
            }
            Ok(Err(_)) => c["kr"] = json!("err"),
            Err(e) => {
                c["kr"] = json!("panic");
                c["e"] = json!(e);
            }
        }
    }
    c
}

pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut co = Out::new(out, "cases.ndjson");
    let mut toks: Vec<Tokenizer> = vec![];
    if o.tokens {
        toks.push(tokenizer_of(&simple_world(false, true, &[]), &scratch(out, "w")));
        toks.push(tokenizer_of(&simple_world(true, true, &[]), &scratch(out, "w")));
        let mut rng = Rng::new(seed ^ 77);
        for _ in 0..6 {
            let words: Vec<String> = (0..60).map(|_| text(&mut rng, &POOL, 2) + &rng.pick(&POOL).to_string()).map(|s| s.replace('\0', "a")).collect();
            toks.push(tokenizer_of(&simple_world(rng.chance(50), rng.chance(50), &words), &scratch(out, "w")));
        }
    }
    let go = |fs: &[Value], texts: &[String], ti: usize, co: &mut Out| {
        let mut filters = vec![];
        for f in fs {
            match load(f) {
                Ok(x) => filters.push(x),
                Err(e) => {
                    // a pattern beyond the engine's limits is no case
                    if e.starts_with("panic") {
                        co.put(&json!({"fs": fs, "t": [], "st": [{"r": "panic", "o": [], "e": e}], "g": vec![json!([]); fs.len()], "nd": [], "np": [], "hk": o.tokens, "kr": "panic", "k": []}));
                    } else {
                        // every generated filter is valid
                        co.put(&json!({"fs": [f], "t": [], "st": [{"r": "err", "o": [], "e": e}], "g": [[]], "nd": [], "np": [], "hk": o.tokens, "kr": "err", "k": []}));
                    }
                    return;
                }
            }
        }
        let an = if o.tokens {
            Some(Analyzer::new(filters.iter().map(|f| f.box_clone()).collect(), toks[ti].clone(), vec![]))
        } else {
            None
        };
        for t in texts {
            co.put(&case(fs, &filters, t, an.as_ref()));
        }
    };
    if let Some(s) = scn {
        let mut rng = Rng::new(seed ^ 0x5c4);
        for line in std::fs::read_to_string(s).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let fs = v["fs"].as_array().unwrap();
            if fs.iter().any(|f| !o.kinds.contains(&f["k"].as_str().unwrap())) {
                continue;
            }
            let texts: Vec<String> = v["texts"].as_array().unwrap().iter().filter(|_| rng.chance(o.sample)).map(from_cps).collect();
            go(fs, &texts, 0, &mut co);
        }
    }
    if o.marks_grid {
        for (f, texts) in marks_grid() {
            go(&[f], &texts, 0, &mut co);
        }
    }
    for k in 0..o.scale {
        let mut rng = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(k as u64));
        let mk = o.marks || rng.chance(30);
        let al = alphabet(&mut rng, mk);
        let n = 1 + rng.below(o.chain.1);
        let fs: Vec<Value> = (0..n)
            .map(|_| {
                let mut f = gen_filter(&mut rng, &al, &o.kinds);
                for _ in 0..20 {
                    if f["k"] == "rex" && !ignores_sep(&f["re"]) {
                        f = gen_filter(&mut rng, &al, &["rex"]);
                    }
                }
                f
            })
            .collect();
        let filters: Vec<BoxCharacterFilter> = match fs.iter().map(load).collect() {
            Ok(v) => v,
            Err(_) => continue, // reported by the other cases
        };
        let mut x = text(&mut rng, &al, 6);
        for _ in 0..20 {
            if !local(&fs[0], &[&x, ""]) {
                x = text(&mut rng, &al, 6);
            }
        }
        let ul = x.len() + SEP.len_utf8();
        let size = if o.marks && k % 4 == 1 {
            70_000 / (ul / 3).max(1) // more than 2^16 characters
        } else {
            *rng.pick(&[300, 300, 70_000 / ul, 70_000 / ul, if k % 12 == 0 { 1_100_000 / ul } else { 300 }])
        };
        scale_cases(&fs, &filters, &x, size, if o.tokens { Some(&toks[0]) } else { None }, &mut co);
    }
    for k in 0..o.n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let mk = o.marks || rng.chance(30);
        let al = alphabet(&mut rng, mk);
        let n = o.chain.0 + rng.below(o.chain.1 - o.chain.0 + 1);
        let fs: Vec<Value> = (0..n).map(|_| gen_filter(&mut rng, &al, &o.kinds)).collect();
        let m = 6;
        let mut texts: Vec<String> = (0..m).map(|_| text(&mut rng, &al, o.maxlen)).collect();
        if let Some(l) = long_key(&fs) {
            // where tokens are traced back, one such text is enough, and a short one
            let some = if !o.tokens { m } else if l.len() < 140 { 1 } else { 0 };
            for t in texts.iter_mut().take(some) {
                let i = rng.below(t.chars().count() + 1);
                let cut = if rng.chance(70) { 0 } else { 1 };
                *t = t.chars().take(i).chain(l.chars().skip(cut)).chain(t.chars().skip(i)).collect();
            }
        }
        if fs.iter().any(|f| f["k"] == "norm") && rng.chance(if o.tokens { 2 } else { 12 }) {
            // many combining marks on one character
            let ms: Vec<char> = (0..1 + rng.below(3)).map(|_| *rng.pick(&['\u{301}', '\u{323}', '\u{307}', '\u{3099}', '\u{345}'])).collect();
            let n = *rng.pick(if o.tokens { &[15usize, 31, 32, 33][..] } else { &[15usize, 29, 30, 31, 32, 33, 62, 64, 70] });
            let j = rng.below(texts.len());
            let i = rng.below(texts[j].chars().count() + 1);
            texts[j] = texts[j].chars().take(i).chain((0..n).map(|_| *rng.pick(&ms)).collect::<Vec<_>>()).chain(texts[j].chars().skip(i)).collect();
        }
        if k < o.long && fs.iter().all(|f| f["k"] != "rex") {
            texts.push(text(&mut rng, &al, 20 * o.maxlen));
        }
        let ti = if o.tokens { rng.below(toks.len()) } else { 0 };
        let ti = if rng.chance(50) { 0 } else { ti };
        go(&fs, &texts, ti, &mut co);
    }
}
