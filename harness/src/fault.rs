//! Histories of faults, repairs, builds and loads on real source and target directories.
use crate::util::*;
use crate::world::*;
use lindera_core::dictionary::Dictionary;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

const TARGETS: [&str; 7] = ["dict.da", "dict.vals", "dict.words", "dict.wordsidx", "char_def.bin", "unk.bin", "matrix.mtx"];
const DECODED: [&str; 4] = ["dict.da", "char_def.bin", "unk.bin", "matrix.mtx"];

fn file(f: &str) -> &'static str {
    match f {
        "csv" => "w0.csv",
        "char" => "char.def",
        "unk" => "unk.def",
        _ => "matrix.def",
    }
}

/// What a loaded dictionary does: tokens with details of some texts in both modes.
fn fingerprint(d: Dictionary, texts: &[String]) -> String {
    let mut s = String::new();
    for mode in [Mode::Normal, Mode::Decompose(Penalty::default())] {
        let t = Tokenizer::new(d.clone(), None, mode);
        for x in texts {
            match t.tokenize(x) {
                Ok(mut v) => {
                    for k in v.iter_mut() {
                        let w = k.word_id.0;
                        let ds = k.get_details().map(|v| v.join("\u{1}")).unwrap_or_default();
                        s.push_str(&format!("{}/{}/{}/{};", k.byte_start, k.byte_end, w, ds));
                    }
                }
                Err(e) => s.push_str(&format!("{:?}", e.kind())),
            }
            s.push('\n');
        }
    }
    s
}

/// Malformed content of one source file: faulty lines, and (matrix only) faulty headers.
fn bad_lines(f: &str, kind_s: &str, good: &[u8]) -> Vec<(bool, Vec<u8>)> {
    let cc = kind_s == "cc-cedict";
    let first = good.split(|b| *b == b'\n').next().unwrap().to_vec();
    let num = ["", "x", "1x", "x1", "1.0", "1e3", "+", "-", "--1", "1 2", "0x1", "\u{FF11}", "99999999999999999999", "_"];
    let id: Vec<&str> = num.iter().cloned().chain(["-1", "65536", "70000"]).collect();
    let cost: Vec<&str> = num.iter().cloned().chain(["32768", "-32769", "40000", "65536"]).collect();
    let mut o: Vec<(bool, Vec<u8>)> = vec![];
    // sources of the ipadic kind are EUC-JP: a full-width digit must be encoded
    let mut put = |h: bool, s: String| o.push((h, crate::src::enc(kind_s, &s)));
    match f {
        "csv" => {
            let tail = ",x".repeat(first.iter().filter(|b| **b == b',').count().saturating_sub(3));
            if !cc {
                for l in ["a", "a,0", "a,0,0", "\u{3042},0"] {
                    put(false, l.to_string());
                }
                for v in &id {
                    put(false, format!("a,{},0,1{}", v, tail));
                    put(false, format!("a,0,{},1{}", v, tail));
                }
                for v in &cost {
                    put(false, format!("a,0,0,{}{}", v, tail));
                }
            }
            if kind_s != "ipadic" {
                o.push((false, b"\xFF\xFE\xFA,0,0,1,x".to_vec()));
                let mut row = b"\0".to_vec();
                row.extend(&first); // a complete row but for the NUL
                o.push((false, row));
            }
        }
        "char" => {
            for l in ["DEFAULT", "DEFAULT 0", "DEFAULT 0 1", "DEFAULT 0 1 0 0", "X 0 1 0 # y\nX2 0 1", "0xZZ DEFAULT", "0x DEFAULT", "0x0041.. DEFAULT", "0x0041..0x DEFAULT", "0x0041..0x0042..0x0043 DEFAULT",
                "0x10000 DEFAULT", "0x0041..0x10FFFF DEFAULT", "0x0041..0x004G DEFAULT", "0x0041 NOSUCH", "0x0041 DEFAULT NOSUCH", "0x0041..0x0042 NOSUCH DEFAULT"] {
                put(false, l.to_string());
            }
            for v in num.iter().filter(|v| !v.is_empty() && !v.contains(' ')).cloned().chain(["-1", "4294967296"]) {
                put(false, format!("DEFAULT {} 1 0", v));
                put(false, format!("DEFAULT 0 {} 0", v));
                put(false, format!("DEFAULT 0 1 {}", v));
            }
        }
        "unk" => {
            let n = unk_fields(kind_s);
            let row = |l: &str, r: &str, c: &str, n: usize| format!("DEFAULT,{},{},{}{}", l, r, c, ",*".repeat(n - 4));
            for w in 4..n + 4 {
                if w != n {
                    put(false, row("0", "0", "1", w));
                }
            }
            put(false, "DEFAULT".to_string());
            put(false, "".to_string());
            for v in &id {
                put(false, row(v, "0", "1", n));
                put(false, row("0", v, "1", n));
            }
            for v in &cost {
                put(false, row("0", "0", v, n));
            }
        }
        _ => {
            for l in ["", "0", "0 0", "99 0 1", "0 99 1", "99 99 1"] {
                put(false, l.to_string());
            }
            for l in ["", "1", "x 1", "1 x", "x", "-1 1", "1 -1", "1.0 1", "65536 1"] {
                put(true, l.to_string());
            }
            for v in cost.iter().filter(|v| !v.is_empty() && !v.contains(' ')) {
                put(false, format!("0 0 {}", v));
            }
            for v in id.iter().filter(|v| !v.is_empty() && !v.contains(' ')) {
                put(false, format!("{} 0 1", v));
                put(false, format!("0 {} 1", v));
            }
        }
    }
    o
}
/// The good content with a malformed line at the start, at the end or in between (after the header of a matrix).
fn bad_content(rng: &mut Rng, f: &str, kind_s: &str, good: &[u8], which: Option<usize>) -> Vec<u8> {
    let all = bad_lines(f, kind_s, good);
    let (header, l) = all[which.unwrap_or_else(|| rng.below(all.len())) % all.len()].clone();
    let nl: Vec<usize> = (0..good.len()).filter(|i| good[*i] == b'\n').map(|i| i + 1).collect();
    let (from, to) = if header {
        (0, nl[0] - 1)
    } else {
        let at = if f == "matrix" { *rng.pick(&nl) } else { *[0].iter().chain(nl.iter()).nth(rng.below(nl.len() + 1)).unwrap() };
        (at, at)
    };
    let mut v = good[..from].to_vec();
    v.extend(&l);
    if !header {
        v.push(b'\n');
    }
    v.extend(&good[to..]);
    if !l.is_empty() && rng.chance(20) {
        while v.ends_with(b"\n") {
            v.pop();
        }
    }
    v
}

pub fn run(out: &Path, seed: u64, n: usize, scn: Option<&Path>, sample: u64, grid: u64) {
    let mut rng = Rng::new(seed);
    let mut cases = Out::new(out, "cases.ndjson");
    let mut scns: Vec<(String, Vec<(String, String, String)>)> = vec![];
    if let Some(p) = scn {
        for l in fs::read_to_string(p).unwrap().lines() {
            if !rng.chance(sample) {
                continue;
            }
            let v: Value = serde_json::from_str(l).unwrap();
            let s = |x: &Value| x.as_str().unwrap().to_string();
            scns.push((s(&v["kind"]), v["ops"].as_array().unwrap().iter().map(|o| (s(&o["op"]), s(&o["f"]), s(&o["k"]))).collect()));
        }
    }
    for _ in 0..n {
        let mut ops = vec![];
        let o = |a: &str, b: &str, c: &str| (a.to_string(), b.to_string(), c.to_string());
        for _ in 0..4 + rng.below(10) {
            let f = *rng.pick(&["csv", "char", "unk", "matrix"]);
            let next = match rng.below(10) {
                0 | 1 => o("harm", f, rng.pick(&["missing", "bad", "empty", "dir"])),
                2 => o("repair", f, ""),
                3 => {
                    for g in ["csv", "char", "unk", "matrix"] {
                        ops.push(o("repair", g, ""));
                    }
                    o("build", "", "")
                }
                4 if rng.chance(30) => o("damage", rng.pick(&TARGETS), "dir"),
                4 => o("damage", rng.pick(&TARGETS), "missing"),
                5 if rng.chance(60) => o("edit", "", rng.pick(&["1", "2"])),
                5 => o("damage", rng.pick(&DECODED), rng.pick(&["cut", "junk", "empty"])),
                6 | 7 => o("build", "", ""),
                _ => o("load", "", ""),
            };
            ops.push(next);
        }
        ops.push(o("load", "", ""));
        scns.push((rng.pick(&KINDS).to_string(), ops));
    }
    // every malformed line of every file by itself
    for k in KINDS {
        for f in ["csv", "char", "unk", "matrix"] {
            for i in 0..120 {
                let o = |a: &str, b: &str, c: &str| (a.to_string(), b.to_string(), c.to_string());
                scns.push((k.to_string(), vec![o("harm", f, &format!("bad{}", i)), o("build", "", "")]));
            }
        }
    }
    let mut serial = 0;
    let prof = Profile { users: 0, unk_heavy: false, delim: 10, homograph: true, kanji: false, crowd: false, kinds: true };
    for (kind_s, ops) in scns {
        let one = ops[0].2.strip_prefix("bad").and_then(|i| i.parse::<usize>().ok());
        if one.is_some() && !rng.chance(grid) {
            continue;
        }
        let dir = scratch(out, "fault");
        let (mut w, al) = gen_world(&mut rng, &prof);
        while w.kind != kind_s {
            let (x, _) = gen_world(&mut rng, &prof);
            w = x;
        }
        // version 2: a source of its own, or parts of version 1, or the other way round
        let (mut w2, mut al2) = gen_world(&mut rng, &prof);
        while w2.kind != kind_s {
            (w2, al2) = gen_world(&mut rng, &prof);
        }
        if rng.chance(50) {
            w2 = w.clone();
            w2.sys.truncate(1 + rng.below(2));
            w2.unk.iter_mut().for_each(|u| u.c = -u.c.max(-32767));
            w2.mat.iter_mut().for_each(|r| r[0] = (r[0] + 77) % 1000);
        } else if rng.chance(50) {
            // files of the same sizes with other content
            w2 = w.clone();
            w2.sys.iter_mut().for_each(|r| {
                if r.c.abs() >= 10 {
                    r.c += if r.c % 10 == 9 || r.c % 10 == -9 || r.c.abs() > 32000 { 0 } else { r.c.signum() }
                }
                r.d.iter_mut().for_each(|d| *d = d.chars().rev().collect());
            });
            w2.cats.iter_mut().for_each(|c| {
                if rng.chance(60) {
                    c.inv = !c.inv
                }
                if rng.chance(60) {
                    c.grp = !c.grp
                }
            });
            w2.unk.iter_mut().for_each(|u| u.c = if u.c > 0 && u.c < 9 { u.c + 1 } else { u.c });
            w2.mat.iter_mut().for_each(|r| r.reverse());
        }
        w.files = 1;
        w2.files = 1;
        if rng.chance(50) {
            std::mem::swap(&mut w, &mut w2);
        }
        let mut texts: Vec<String> = (0..4).map(|_| gen_text_words(&mut rng, &w, &al, &prof, 6)).collect();
        texts.extend((0..3).map(|_| gen_text_words(&mut rng, &w2, &al2, &prof, 6)));
        let (src, dst) = (dir.join("src"), dir.join("dic"));
        serial += 1;
        let builder = || DictionaryBuilderResolver::resolve_builder(kind(&kind_s)).unwrap();
        let mut good: Vec<Vec<(String, Vec<u8>)>> = vec![];
        let mut want: Vec<String> = vec![];
        let mut broken = false;
        for (v, x) in [&w2, &w].iter().enumerate() {
            let _ = fs::remove_dir_all(&src);
            // a directory no other dictionary has ever been in
            let base = dir.join(format!("base{}-{}", serial, v));
            x.write_src(&src);
            match guard("baseline", || {
                builder().build_dictionary(&src, &base).expect("baseline build");
                fingerprint(DictionaryLoader::load_dictionary(base.clone()).unwrap(), &texts)
            }) {
                Ok(f) => want.insert(0, f),
                Err(_) => broken = true,
            }
            good.insert(0, ["csv", "char", "unk", "matrix"].iter().map(|f| (f.to_string(), fs::read(src.join(file(f))).unwrap())).collect());
        }
        if broken {
            // good sources that do not give a dictionary
            cases.put(&json!({"kind": kind_s, "evs": [{"op": "build", "r": "err"}]}));
            let _ = fs::remove_dir_all(&dir);
            continue;
        }
        let ver = std::cell::Cell::new(0);
        let good_of = |f: &str| good[ver.get()].iter().find(|g| g.0 == f).unwrap().1.clone();
        let remove = |p: &Path| {
            let _ = fs::remove_file(p);
            let _ = fs::remove_dir(p);
        };
        if let Some(i) = one {
            if i >= bad_lines(&ops[0].1, &kind_s, &good_of(&ops[0].1)).len() {
                let _ = fs::remove_dir_all(&dir);
                continue;
            }
        }
        let mut evs = vec![];
        for (op, f, k) in &ops {
            match op.as_str() {
                "harm" => {
                    let p = src.join(file(f));
                    remove(&p);
                    match k.as_str() {
                        "missing" => {}
                        "dir" => fs::create_dir(&p).unwrap(),
                        "empty" => fs::write(&p, b"").unwrap(),
                        _ => fs::write(&p, bad_content(&mut rng, f, &kind_s, &good_of(f), one)).unwrap(),
                    }
                    evs.push(json!({"op": op, "f": f, "k": if one.is_some() { "bad" } else { k.as_str() }}));
                }
                "repair" => {
                    let p = src.join(file(f));
                    remove(&p);
                    fs::write(&p, good_of(f)).unwrap();
                    evs.push(json!({"op": op, "f": f}));
                }
                "edit" => {
                    ver.set(k.parse::<usize>().unwrap() - 1);
                    for f in ["csv", "char", "unk", "matrix"] {
                        let p = src.join(file(f));
                        remove(&p);
                        fs::write(&p, good_of(f)).unwrap();
                    }
                    evs.push(json!({"op": op, "v": ver.get() + 1}));
                }
                "damage" if k == "dir" => {
                    let p = dst.join(f);
                    remove(&p);
                    fs::create_dir_all(&p).unwrap();
                    evs.push(json!({"op": op, "f": f, "k": k}));
                }
                "damage" if k == "missing" && dst.join(f).is_dir() => {
                    remove(&dst.join(f));
                    evs.push(json!({"op": op, "f": f, "k": k}));
                }
                "damage" => {
                    let p = dst.join(f);
                    if !p.is_file() {
                        continue;
                    }
                    let b = fs::read(&p).unwrap();
                    match k.as_str() {
                        "missing" => remove(&p),
                        "empty" => fs::write(&p, b"").unwrap(),
                        "cut" => {
                            let mut n = rng.below(b.len());
                            if f == "dict.da" && n % 1024 == 0 {
                                n += 4; // anything but whole blocks
                            }
                            fs::write(&p, &b[..n]).unwrap()
                        }
                        _ => fs::write(&p, vec![0xFFu8; 16 + rng.below(40)]).unwrap(),
                    }
                    evs.push(json!({"op": op, "f": f, "k": k}));
                }
                "build" => {
                    let r = match guard(&format!("build {} after {:?}", kind_s, ops), || builder().build_dictionary(&src, &dst)) {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "panic",
                    };
                    evs.push(json!({"op": op, "r": r}));
                }
                _ => {
                    let missing: Vec<&str> = TARGETS.iter().cloned().filter(|t| !dst.join(t).is_file()).collect();
                    let (r, is) = match guard(&format!("load {} after {:?}", kind_s, ops), || DictionaryLoader::load_dictionary(dst.clone())) {
                        Ok(Ok(d)) => ("ok", guard("use", || fingerprint(d, &texts)).map(|x| (1..3).filter(|v| want[v - 1] == x).collect::<Vec<_>>()).unwrap_or_default()),
                        Ok(Err(_)) => ("err", vec![]),
                        Err(_) => ("panic", vec![]),
                    };
                    evs.push(json!({"op": op, "r": r, "is": is, "missing": missing}));
                }
            }
        }
        cases.put(&json!({"kind": kind_s, "evs": evs}));
        let _ = fs::remove_dir_all(&dir);
    }
}
