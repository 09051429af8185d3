//! The command line tool, run as a process; what the library returns for the same lines is recorded beside.
use crate::charf;
use crate::config::{decode, encode};
use crate::contained::{names, open};
use crate::pipe::{chain, plain};
use crate::tokf;
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn kind_of(s: &str) -> &str {
    if s == "A" {
        "unidic"
    } else {
        s
    }
}
/// user dictionaries have all sorts of file names: the last extension alone is the extension
fn file_of(n: &str, e: &str) -> String {
    match n.len() % 3 {
        0 => format!("{}.{}", n, e),
        1 => format!("my {}.v1.2.{}", n, e),
        _ => format!("辞書-{}.bin.{}", n, e),
    }
}
fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}

type Pair = (Dictionary, Option<UserDictionary>);
struct Lib {
    srcs: PathBuf,
    pairs: HashMap<(String, String), Pair>,
}
impl Lib {
    fn pair(&mut self, d: &str, u: &str) -> Pair {
        let srcs = self.srcs.clone();
        self.pairs
            .entry((d.to_string(), u.to_string()))
            .or_insert_with(|| open(&srcs, "", d, if u.is_empty() { "" } else { kind_of(u) }, u, if u.is_empty() { "" } else { "csv" }).expect("reference dictionary"))
            .clone()
    }
}

/// (kind, args); what a flag or a configuration says
fn filters(x: &Value, fam: &str) -> Vec<(String, Value)> {
    x[fam].as_array().unwrap().iter().map(|f| (s(f, "k").to_string(), decode(&f["a"]).unwrap_or(Value::Null))).collect()
}
fn load(x: &Value) -> Option<(Vec<BoxCharacterFilter>, Vec<BoxTokenFilter>)> {
    let c = filters(x, "cf").iter().map(|(k, a)| CharacterFilterLoader::load_from_value(k, a).ok()).collect::<Option<_>>()?;
    let t = filters(x, "tf").iter().map(|(k, a)| TokenFilterLoader::load_from_value(k, a).ok()).collect::<Option<_>>()?;
    Some((c, t))
}

fn bytes(t: &Value) -> Vec<u8> {
    let mut v = vec![];
    for c in t.as_array().unwrap() {
        match c.as_i64().unwrap() {
            -1 => v.push(0xff),
            c => v.extend(char::from_u32(c as u32).unwrap().to_string().as_bytes()),
        }
    }
    v
}
fn lines(t: &Value) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in bytes(t).split_inclusive(|b| *b == b'\n') {
        if let Ok(l) = std::str::from_utf8(l) {
            let l = l.trim().to_string();
            if !v.contains(&l) {
                v.push(l);
            }
        }
    }
    v
}
fn chars_of(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(t) => cps(t),
        Err(_) => json!([-2]),
    }
}
fn token(k: &Token) -> Value {
    json!({"t": cps(&k.text), "d": k.details.iter().map(|x| cps(x)).collect::<Vec<_>>(), "bs": k.byte_start, "be": k.byte_end, "w": json!(k.word_id).to_string()})
}

/// what the library makes of every line of command `x` with each dictionary the command could be talking about
fn analyses(lib: &mut Lib, cmds: &[Value], x: &Value) -> Option<Vec<Value>> {
    let all = names();
    let known = |n: &str| all.contains(&n);
    let built = |op: &str, at: &str| -> Vec<String> {
        cmds.iter().filter(|c| s(c, "op") == op && s(c, "dest") == at && known(s(c, "src"))).map(|c| s(c, "src").to_string()).collect()
    };
    let mut ds: Vec<String> = vec![];
    if known(s(x, "kind")) && s(x, "kind") != "A" {
        ds.push(s(x, "kind").into());
    } else if known(s(x, "dir")) {
        ds.push(s(x, "dir").into());
    } else {
        ds.extend(built("build", s(x, "dir")));
    }
    ds.sort();
    ds.dedup();
    let u = &x["user"];
    let us = match s(u, "at") {
        "" => vec![""],
        "@" => vec![s(u, "n")],
        at => if built("ubuild", at).iter().any(|n| n == s(u, "n")) { vec![s(u, "n")] } else { vec![] },
    };
    match guard("load filters", || load(x).is_some()) {
        Ok(true) => {}
        Ok(false) => return Some(vec![]),
        Err(_) => return None,
    }
    let mode = || if s(x, "mode") == "decompose" { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
    let mut out = vec![];
    for d in &ds {
        for u in us.iter().filter(|u| u.is_empty() || known(u)) {
            let (dic, ud) = lib.pair(d, u);
            let (c, t) = load(x)?;
            let a = Analyzer::new(c, Tokenizer::new(dic, ud, mode()), t);
            let mut ls = vec![];
            for l in lines(&x["t"]) {
                // a panic of the library is not the tool's
                match guard(&format!("analyze {:?}", l), || a.analyze(&l)).ok()? {
                    Ok(k) => ls.push(json!({"t": cps(&l), "ok": true, "k": k.iter().map(token).collect::<Vec<_>>()})),
                    Err(_) => ls.push(json!({"t": cps(&l), "ok": false, "k": []})),
                }
            }
            out.push(json!({"s": d, "u": u, "l": ls}));
        }
    }
    Some(out)
}

struct Shell {
    bin: PathBuf,
    srcs: PathBuf,
    dir: PathBuf,
    n: usize,
}
impl Shell {
    fn new(bin: &Path, srcs: &Path, dir: &Path) -> Shell {
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir.join("bad/bad")).unwrap();
        for f in fs::read_dir(srcs.join("unidic/src")).unwrap() {
            let f = f.unwrap();
            fs::copy(f.path(), dir.join("bad/bad").join(f.file_name())).unwrap();
        }
        fs::write(dir.join("bad/bad/char.def"), "DEFAULT 0 1 0\n0xZZ DEFAULT\n").unwrap();
        fs::write(dir.join("bad/bad.csv"), "a,b\n").unwrap();
        for n in names() {
            fs::copy(srcs.join(n).join("user.csv"), dir.join(file_of(n, "csv"))).unwrap();
        }
        Shell { bin: bin.into(), srcs: srcs.into(), dir: dir.into(), n: 0 }
    }
    fn fresh(&mut self) {
        for d in ["d1", "d2"] {
            let _ = fs::remove_dir_all(self.dir.join(d));
        }
    }
    fn dic(&self, p: &str) -> PathBuf {
        if names().contains(&p) {
            self.srcs.join(p).join("dic")
        } else {
            self.dir.join(p)
        }
    }
    fn user(&self, u: &Value) -> PathBuf {
        let (at, n, e) = (s(u, "at"), s(u, "n"), s(u, "e"));
        if at != "@" {
            self.dir.join(at).join(if names().contains(&n) { file_of(n, e) } else { format!("{}.{}", n, e) })
        } else if names().contains(&n) {
            self.srcs.join(n).join(format!("user.{}", e))
        } else {
            self.dir.join("nowhere").join(format!("{}.{}", n, e))
        }
    }
    fn source(&self, x: &Value, user: bool) -> PathBuf {
        let n = s(x, "src");
        match n {
            "bad" => self.dir.join("bad").join(if user { "bad.csv" } else { "bad" }),
            "none" => self.dir.join("nowhere").join(if user { "none.csv" } else { "none" }),
            _ => if user { self.dir.join(file_of(n, "csv")) } else { self.srcs.join(n).join("src") },
        }
    }
    fn run(&mut self, rng: &mut Rng, x: &Value) -> (String, Vec<u8>, Vec<String>) {
        let path = |p: PathBuf| p.to_str().unwrap().to_string();
        let mut opts: Vec<Vec<String>> = vec![];
        let mut pos: Vec<String> = vec![];
        let mut opt = |rng: &mut Rng, sh: &str, lo: &str, v: String| {
            opts.push(match rng.below(4) {
                0 => vec![format!("-{}", sh), v],
                1 => vec![format!("-{}{}", sh, v)],
                2 => vec![format!("--{}", lo), v],
                _ => vec![format!("--{}={}", lo, v)],
            });
        };
        if !s(x, "kind").is_empty() {
            opt(rng, "t", "dic-type", s(x, "kind").into());
        }
        let op = s(x, "op");
        let mut input = vec![];
        match op {
            "list" => {}
            "build" | "ubuild" => {
                if op == "ubuild" {
                    opts.push(vec![if rng.chance(50) { "-u" } else { "--build-user-dic" }.to_string()]);
                }
                pos.push(path(self.source(x, op == "ubuild")));
                pos.push(path(self.dir.join(s(x, "dest"))));
            }
            _ => {
                if !s(x, "dir").is_empty() {
                    opt(rng, "d", "dic-dir", path(self.dic(s(x, "dir"))));
                }
                if !s(&x["user"], "at").is_empty() {
                    opt(rng, "u", "user-dic-file", path(self.user(&x["user"])));
                }
                if !s(x, "mode").is_empty() {
                    opt(rng, "m", "mode", s(x, "mode").into());
                }
                if !s(x, "fmt").is_empty() {
                    opt(rng, "o", "output-format", s(x, "fmt").into());
                }
                let text = |f: &Value| {
                    let k = s(f, "k");
                    if f["raw"] == true {
                        return format!("{}:{{\"min\": ", k);
                    }
                    match decode(&f["a"]) {
                        None => k.to_string(),
                        Some(a) => format!("{}:{}", k, a),
                    }
                };
                for f in x["cf"].as_array().unwrap() {
                    opt(rng, "C", "character-filter", text(f));
                }
                for f in x["tf"].as_array().unwrap() {
                    opt(rng, "T", "token-filter", text(f));
                }
                input = bytes(&x["t"]);
                match s(x, "inp") {
                    "file" => {
                        self.n += 1;
                        let f = self.dir.join(format!("input{}.txt", self.n % 3));
                        fs::write(&f, &input).unwrap();
                        pos.push(path(f));
                        input = b"not this".to_vec();
                    }
                    "absent" => pos.push(path(self.dir.join("nowhere/input.txt"))),
                    _ => {}
                }
            }
        }
        if !s(x, "extra").is_empty() {
            opts.push(vec![s(x, "extra").to_string()]);
        }
        // filters of one family keep their order; everything else may come in any order
        let is = |o: &Vec<String>, sh: &str, lo: &str| o[0].starts_with(sh) || o[0].starts_with(lo);
        let fl: Vec<usize> = (0..opts.len()).filter(|i| is(&opts[*i], "-C", "--character") || is(&opts[*i], "-T", "--token-f")).collect();
        let flags: Vec<Vec<String>> = fl.iter().map(|i| opts[*i].clone()).collect();
        let mut order: Vec<usize> = (0..opts.len()).collect();
        rng.shuffle(&mut order);
        let mut next = flags.into_iter();
        let mut args: Vec<String> = vec![if op == "tok" { "tokenize" } else if op == "list" { "list" } else { "build" }.to_string()];
        let cut = rng.below(opts.len() + 1);
        for (i, o) in order.iter().enumerate() {
            if i == cut && rng.chance(50) {
                args.append(&mut pos);
            }
            args.extend(if fl.contains(o) { next.next().unwrap() } else { opts[*o].clone() });
        }
        args.append(&mut pos);
        let (r, o) = self.process(&args, input);
        (r, o, args)
    }
    fn process(&self, args: &[String], input: Vec<u8>) -> (String, Vec<u8>) {
        let mut p = Command::new(&self.bin).args(args).current_dir(&self.dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the tool starts");
        let mut si = p.stdin.take().unwrap();
        let mut so = p.stdout.take().unwrap();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&input);
        });
        let rd = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let t = Instant::now();
        let st = loop {
            if let Some(st) = p.try_wait().unwrap() {
                break Some(st);
            }
            if t.elapsed() > Duration::from_secs(60) {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        let _ = w.join();
        let o = rd.join().unwrap();
        let r = match st {
            None => "hang",
            Some(st) if st.signal().is_some() || st.code() == Some(101) => "crash",
            Some(st) if st.success() => "ok",
            _ => "fail",
        };
        (r.to_string(), o)
    }
}

/// standard output as the specification sees it
fn observed(x: &Value, r: &mut String, o: &[u8]) -> Value {
    match s(x, "op") {
        "list" => json!(String::from_utf8_lossy(o).lines().collect::<Vec<_>>()),
        "tok" if s(x, "fmt") == "json" => {
            let mut v = vec![];
            for d in serde_json::Deserializer::from_slice(o).into_iter::<Value>() {
                let chunk = d.ok().and_then(|d| {
                    d.as_array()?
                        .iter()
                        .map(|k| {
                            let ds = k["details"].as_array()?.iter().map(|x| Some(cps(x.as_str()?))).collect::<Option<Vec<_>>>()?;
                            Some(json!({"t": cps(k["text"].as_str()?), "d": ds, "bs": k["byte_start"].as_u64()?, "be": k["byte_end"].as_u64()?, "w": k["word_id"].to_string()}))
                        })
                        .collect::<Option<Vec<_>>>()
                });
                match chunk {
                    Some(c) => v.push(json!(c)),
                    None => {
                        *r = "junk".into();
                        return json!([]);
                    }
                }
            }
            json!(v)
        }
        "tok" => chars_of(o),
        _ => json!([]),
    }
}

pub fn run(out: &Path, srcs: &Path, seed: u64, n: usize, scn: Option<&Path>, sample: u64) {
    let bin = PathBuf::from(std::env::var("LINDERA_CLI").expect("LINDERA_CLI"));
    let v: Value = serde_json::from_slice(&fs::read(srcs.join("worlds.json")).unwrap()).unwrap();
    let worlds: HashMap<String, World> = v["worlds"].as_array().unwrap().iter().map(|w| (s(w, "name").to_string(), World::from_json(w))).collect();
    let texts: Vec<String> = v["texts"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
    let mut lib = Lib { srcs: srcs.into(), pairs: HashMap::new() };
    let mut sh = Shell::new(&bin, srcs, &scratch(out, "cli"));
    let mut co = Out::new(out, "cases.ndjson");
    let mut rng = Rng::new(seed ^ 0xC11);
    let mut go = |rng: &mut Rng, lib: &mut Lib, cmds: &[Value]| {
        sh.fresh();
        let mut done = vec![];
        for x in cmds {
            let mut e = x.clone();
            if s(x, "op") == "tok" {
                for f in ["cf", "tf"] {
                    for y in e[f].as_array_mut().unwrap() {
                        if let Some(a) = decode(&y["a"]) {
                            y["a"] = encode(&a);
                        }
                    }
                }
                match analyses(lib, cmds, x) {
                    Some(a) => e["an"] = json!(a),
                    None => return,
                }
            }
            let (mut r, o, args) = sh.run(rng, x);
            e["o"] = observed(x, &mut r, &o);
            e["r"] = json!(r);
            e["args"] = json!(args);
            done.push(e);
        }
        co.put(&json!({ "cmds": done }));
    };
    if let Some(f) = scn {
        for line in fs::read_to_string(f).unwrap().lines() {
            let h: Value = serde_json::from_str(line).unwrap();
            if rng.chance(sample) {
                go(&mut rng, &mut lib, h.as_array().unwrap());
            }
        }
    }
    let all = names();
    let blank = json!({"kind": "", "dir": "", "user": {"at": "", "n": "", "e": ""}, "mode": "", "fmt": "", "cf": [], "tf": [], "inp": "stdin", "extra": "", "t": [], "src": "", "dest": "", "op": "list"});
    for round in 0..n {
        let mut cmds = vec![];
        let mut huge = round % 100 == 7;
        let mut built: Vec<(String, String)> = vec![];
        let mut bins: Vec<(String, String)> = vec![];
        for _ in 0..1 + rng.below(6) {
            let mut x = blank.clone();
            let some = *rng.pick(&all);
            match rng.below(10) {
                0 if rng.chance(20) => {}
                0..=2 => {
                    let u = rng.chance(40);
                    let src = if rng.chance(12) { *rng.pick(&["bad", "none"]) } else { some };
                    let dest = *rng.pick(&["d1", "d2"]);
                    x["op"] = json!(if u { "ubuild" } else { "build" });
                    x["src"] = json!(src);
                    x["dest"] = json!(dest);
                    x["kind"] = json!(if rng.chance(90) { if all.contains(&src) { kind_of(src) } else { "unidic" } } else { *rng.pick(&["", "ipadic", "klingon", "cc-cedict"]) });
                    if rng.chance(3) {
                        x["extra"] = json!("--with-details");
                    }
                    if u { &mut bins } else { &mut built }.push((dest.into(), src.into()));
                }
                _ => {
                    x["op"] = json!("tok");
                    let mut d = some.to_string();
                    let mut at = "";
                    match rng.below(3) {
                        0 => at = "kind",
                        1 if !built.is_empty() => {
                            let (p, b) = rng.pick(&built).clone();
                            x["dir"] = json!(p);
                            d = b;
                        }
                        _ => {
                            x["dir"] = json!(some);
                        }
                    }
                    if !all.contains(&d.as_str()) || at == "kind" && d == "A" {
                        d = "unidic".into();
                    }
                    if at == "kind" {
                        x["kind"] = json!(d);
                        if rng.chance(25) {
                            x["dir"] = json!(*rng.pick(&["A", "d1", "none"]));
                        }
                    }
                    if rng.chance(45) {
                        let un = *rng.pick(&all);
                        x["user"] = if !bins.is_empty() && rng.chance(60) {
                            let (p, b) = rng.pick(&bins);
                            json!({"at": p, "n": b, "e": "bin"})
                        } else if rng.chance(60) && x["kind"] != "" {
                            let k = s(&x, "kind").to_string();
                            json!({"at": "@", "n": if k == "unidic" && rng.chance(50) { "A".into() } else { k }, "e": "csv"})
                        } else {
                            json!({"at": "@", "n": un, "e": "bin"})
                        };
                    }
                    x["mode"] = json!(*rng.pick(&["", "", "normal", "decompose", "decompose"]));
                    x["fmt"] = json!(*rng.pick(&["", "mecab", "wakati", "json", "json"]));
                    if rng.chance(4) {
                        let (k, v) = *rng.pick(&[("mode", "search"), ("fmt", "Mecab"), ("inp", "absent"), ("extra", "--with-details"), ("dir", "none"), ("kind", "klingon")]);
                        x[k] = json!(v);
                    }
                    if rng.chance(40) && x["inp"] == "stdin" {
                        x["inp"] = json!("file");
                    }
                    // the input: words of the dictionary and anything else, with all sorts of white space around
                    let w = &worlds[&d];
                    let p = Profile { users: 0, unk_heavy: false, delim: 8, homograph: false, kanji: false, crowd: false, kinds: true };
                    let al: Vec<char> = w.sys.iter().flat_map(|r| r.s.chars()).chain(charf::POOL).collect();
                    let mut t: Vec<i64> = vec![];
                    for _ in 0..rng.below(6) {
                        let ws = [' ', '\t', '\r', '\u{b}', '\u{a0}', '\u{3000}', '\u{2003}', '\u{feff}', '\u{200b}', '\u{85}'];
                        let mut l = String::new();
                        for _ in 0..rng.below(3) {
                            l.push(*rng.pick(&ws));
                        }
                        l += &match rng.below(4) {
                            0 => rng.pick(&texts).clone(),
                            1 => gen_text(&mut rng, &al, &p, 10),
                            2 => gen_text_words(&mut rng, w, &al, &p, 6) + &tokf::numeral(&mut rng),
                            _ => gen_text_words(&mut rng, w, &al, &p, 6),
                        };
                        if rng.chance(2) || huge {
                            // longer than one read of a buffered input, cut anywhere in a character
                            let n = if huge { 66_000 } else { *rng.pick(&[1000usize, 2731, 4096, 8191, 8192, 8193]) };
                            huge = false;
                            let mut m = "a".repeat(rng.below(3));
                            while m.len() < n {
                                let more = gen_text_words(&mut rng, w, &al, &p, 6);
                                m += &if n > 60_000 { more.replace('\n', "b") } else { more };
                            }
                            l += &m;
                        }
                        for _ in 0..rng.below(3) {
                            l.push(*rng.pick(&ws));
                        }
                        t.extend(l.chars().map(|c| c as i64));
                        if rng.chance(1) {
                            t.push(-1);
                        }
                        t.push(10);
                    }
                    if rng.chance(2) && !t.is_empty() {
                        let n = *rng.pick(&[256usize, 257, 300]) / t.iter().filter(|c| **c == 10).count().max(1);
                        if t.len() < 40 {
                            t = t.repeat(n);
                        }
                    }
                    if rng.chance(30) {
                        t.pop();
                    }
                    x["t"] = json!(t);
                    let ks: Vec<Token> = lines(&x["t"]).iter().filter_map(|l| plain(&Tokenizer::new(lib.pair(&d, "").0, None, Mode::Normal), l)).flatten().take(12).collect();
                    let item = |(k, a): (&'static str, Value)| json!({"k": k, "a": if a.is_null() { json!({"j": "none"}) } else { encode(&a) }, "raw": false});
                    if rng.chance(50) {
                        let cf: Vec<Value> = chain(&mut rng, 2, &["map", "rex", "norm", "iter"], |r, kinds| item(charf::filter_args(&charf::gen_filter(r, &al, kinds))));
                        let mut tf: Vec<Value> = chain(&mut rng, 3, &tokf::ALL, |r, kinds| item(tokf::filter_args(&tokf::gen_filter(r, &ks, kinds))));
                        if rng.chance(5) {
                            tf.push(rng.pick(&[json!({"k": "length", "a": {"j": "none"}, "raw": true}), json!({"k": "regex", "a": {"j": "none"}, "raw": false}), json!({"k": "japanese_katakana", "a": {"j": "null"}, "raw": false})]).clone());
                        }
                        x["cf"] = json!(cf);
                        x["tf"] = json!(tf);
                    }
                }
            }
            cmds.push(x);
        }
        go(&mut rng, &mut lib, &cmds);
    }
}
