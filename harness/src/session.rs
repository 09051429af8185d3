//! Histories of instances, clones and concurrent calls, against what a process of its own returns for each call.
use crate::charf;
use crate::pipe::plain;
use crate::tokf;
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_filter::token::Token;
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::Path;
use std::process::Command;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

pub enum Inst {
    An(Analyzer),
    Tok(Tokenizer),
}
impl Inst {
    pub fn new(c: &Value) -> Option<Inst> {
        let b = serde_json::to_vec(&c["conf"]).unwrap();
        guard("new", || {
            if c["what"] == "an" {
                AnalyzerConfig::from_slice(&b).ok().and_then(|c| Analyzer::from_config(&c).ok()).map(Inst::An)
            } else {
                serde_json::from_slice(&b).ok().and_then(|c| Tokenizer::from_config(c).ok()).map(Inst::Tok)
            }
        })
        .ok()
        .flatten()
    }
    fn dup(&self) -> Inst {
        match self {
            Inst::An(a) => Inst::An(a.clone()),
            Inst::Tok(t) => Inst::Tok(t.clone()),
        }
    }
    /// A clone whose dictionaries have been serialized and read back.
    fn copy(&self) -> Option<Inst> {
        let mut x = self.dup();
        let t = match &mut x {
            Inst::An(a) => &mut a.tokenizer,
            Inst::Tok(t) => t,
        };
        t.dictionary = bincode::deserialize(&bincode::serialize(&t.dictionary).ok()?).ok()?;
        t.user_dictionary = bincode::deserialize(&bincode::serialize(&t.user_dictionary).ok()?).ok()?;
        t.mode = serde_json::from_str(&serde_json::to_string(&t.mode).ok()?).ok()?;
        Some(x)
    }
    /// Set the public fields to those of another instance.
    fn set(&mut self, new: Inst) {
        fn fields(t: &mut Tokenizer, n: Tokenizer) {
            t.mode = n.mode;
            t.dictionary = n.dictionary;
            t.user_dictionary = n.user_dictionary;
        }
        match (self, new) {
            (Inst::Tok(t), Inst::Tok(n)) => fields(t, n),
            (Inst::An(a), Inst::An(n)) => {
                a.character_filters = n.character_filters;
                a.token_filters = n.token_filters;
                fields(&mut a.tokenizer, n.tokenizer);
            }
            (x, new) => *x = new,
        }
    }
    pub fn call(&self, text: &str) -> String {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match self {
            Inst::An(a) => match a.analyze(text) {
                Ok(v) => json!(v.iter().map(tokf::tok_json).collect::<Vec<_>>()).to_string(),
                Err(e) => format!("err {}", e),
            },
            Inst::Tok(t) => match t.tokenize(text) {
                Ok(mut v) => {
                    let mut ks = vec![];
                    for k in v.iter_mut().rev() {
                        let details = k.get_details().map(|d| d.iter().map(|s| s.to_string()).collect()).unwrap_or(vec!["<none>".into()]);
                        ks.push(tokf::tok_json(&Token {
                            text: k.text.to_string(),
                            byte_start: k.byte_start,
                            byte_end: k.byte_end,
                            position: k.position,
                            position_length: k.position_length,
                            word_id: k.word_id,
                            details,
                        }));
                    }
                    json!(ks).to_string()
                }
                Err(e) => format!("err {}", e),
            },
        }));
        r.unwrap_or_else(|_| "panic".to_string())
    }
}

/// what a new process returns: `one` reads configuration and text and prints the result
pub fn one(cfg: &Path, text: &Path) {
    let c: Value = serde_json::from_slice(&std::fs::read(cfg).unwrap()).unwrap();
    let t = std::fs::read_to_string(text).unwrap();
    match guard("one", || Inst::new(&c).map(|i| i.call(&t))) {
        Ok(Some(r)) => print!("{}", r),
        _ => print!("no instance"),
    }
}

fn gen_texts(rng: &mut Rng, w: &World, al: &[char], p: &Profile) -> Vec<String> {
    let mut v = vec![String::new()];
    let word = |rng: &mut Rng, n: usize| gen_text_words(rng, w, al, p, n);
    let a = word(rng, 4);
    let mut r: Vec<char> = a.chars().collect();
    r.reverse();
    v.push(a.clone());
    v.push(r.iter().collect());
    v.push(format!("{}{}", a, word(rng, 3)));
    v.push(a.to_uppercase());
    v.push((0..80).map(|_| word(rng, 5)).collect::<Vec<_>>().concat());
    let d: String = (0..20).map(|_| word(rng, 4)).collect::<Vec<_>>().join("。");
    v.push(d);
    v.push(charf::text(rng, &charf::POOL, 20));
    while v.len() < 12 {
        v.push(if rng.chance(50) { gen_text(rng, al, p, 8) } else { word(rng, 6) });
    }
    v
}
/// Change one value of a configuration and keep its shape: a word, a tag, a number, a flag, a dictionary.
fn vary(rng: &mut Rng, c: &mut Value, dirs: &[(std::path::PathBuf, World, Vec<char>)]) -> bool {
    fn leaves(v: &Value, at: String, o: &mut Vec<String>) {
        match v {
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{}/{}", at, i), o)),
            Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), o)),
            _ => o.push(at),
        }
    }
    let mut ls = vec![];
    leaves(&c["conf"], String::new(), &mut ls);
    let fl: Vec<String> = ls.iter().filter(|l| l.contains("_filters/") && !l.ends_with("/kind")).cloned().collect();
    let at = if !fl.is_empty() && rng.chance(75) { rng.pick(&fl).clone() } else { rng.pick(&ls).clone() };
    let x = c["conf"].pointer(&at).unwrap().clone();
    let new = match &x {
        Value::Bool(b) => json!(!b),
        Value::Number(n) => json!(n.as_i64().unwrap_or(0) + 1),
        Value::String(s) if at.ends_with("/dictionary/path") => json!(dirs.iter().map(|d| d.0.join("dic").to_str().unwrap().to_string()).find(|d| d != s)),
        Value::String(_) if at.ends_with("user_dictionary/path") || at.ends_with("user_dictionary/kind") => Value::Null,
        Value::String(s) => {
            let named = [["nfc", "nfd", "nfkc", "nfkd"].as_slice(), &["hiragana", "katakana"], &["ipadic", "unidic", "ipadic-neologd", "ko-dic"]];
            match named.iter().find(|n| n.contains(&s.as_str())) {
                Some(n) => json!(n[(n.iter().position(|x| x == s).unwrap() + 1) % n.len()]),
                None => {
                    let w = rng.pick(&words(dirs)).clone();
                    json!(rng.pick(&[s.chars().rev().collect::<String>(), s.chars().skip(1).collect(), format!("{}x", s), w]))
                },
            }
        }
        _ => Value::Null,
    };
    if new.is_null() || new == x {
        return false;
    }
    *c["conf"].pointer_mut(&at).unwrap() = new;
    true
}
fn words(dirs: &[(std::path::PathBuf, World, Vec<char>)]) -> Vec<String> {
    dirs.iter().flat_map(|d| d.1.sys.iter().map(|r| r.s.clone())).collect()
}
fn gen_confs(rng: &mut Rng, dirs: &[(std::path::PathBuf, World, Vec<char>)], texts: &[String], theme: usize) -> Vec<Value> {
    let mut v: Vec<Value> = vec![];
    let mut tries = 0;
    // every kind of filter is at some time what the configurations of a group differ in
    let cks = ["map", "rex", "norm", "iter"];
    let theme = theme % (cks.len() + tokf::ALL.len() + 1);
    while v.len() < 6 {
        if v.len() == 1 {
            // a sibling: the same configuration but for one value, which matters for some text
            let x: Vec<&String> = texts.iter().filter(|t| t.chars().count() < 40).collect();
            // (in threads of their own: nothing is remembered between these calls)
            let results = |c: &Value| guard("results", || std::thread::scope(|s| s.spawn(|| Inst::new(c).map(|i| x.iter().map(|t| i.call(t)).collect::<Vec<_>>())).join()).ok().flatten()).ok().flatten();
            let r0 = results(&v[0]);
            let sib = (0..25).find_map(|_| {
                let mut c = v[0].clone();
                let ok = vary(rng, &mut c, dirs) && results(&c).map_or(false, |r| Some(r) != r0);
                ok.then_some(c)
            });
            tries += 1;
            match sib {
                Some(c) => v.push(c),
                None if tries < 12 => v.clear(),
                None => v.push(v[0].clone()),
            }
            continue;
        }
        // another sibling of one of them
        if !v.is_empty() && rng.chance(40) {
            let mut c = rng.pick(&v).clone();
            if vary(rng, &mut c, dirs) && !v.contains(&c) && Inst::new(&c).is_some() {
                v.push(c);
            }
            continue;
        }
        let (dir, w, al) = if v.is_empty() { &dirs[0] } else { rng.pick(dirs) };
        let mut tc = json!({"dictionary": {"path": dir.join("dic").to_str().unwrap()}});
        if w.hasu && rng.chance(70) {
            tc["user_dictionary"] = json!({"path": dir.join("user.csv").to_str().unwrap(), "kind": w.kind});
        }
        if rng.chance(50) {
            tc["mode"] = json!({"decompose": {"kanji_penalty_length_threshold": rng.below(3), "kanji_penalty_length_penalty": rng.range(0, 3000),
                                              "other_penalty_length_threshold": rng.below(5), "other_penalty_length_penalty": rng.range(0, 1700)}});
        }
        if theme == cks.len() + tokf::ALL.len() && v.len() < 2 || rng.chance(25) && !v.is_empty() {
            v.push(json!({"what": "tok", "conf": tc}));
            continue;
        }
        let first = v.is_empty();
        let mut ks = tokf::gen_tokens(rng, 2);
        if let Some(Inst::Tok(t)) = Inst::new(&json!({"what": "tok", "conf": tc})) {
            let x: Vec<&String> = texts.iter().filter(|t| t.chars().count() < 40).collect();
            for _ in 0..3 {
                ks.extend(guard("plain", || plain(&t, rng.pick(&x))).ok().flatten().unwrap_or_default().into_iter().take(5));
            }
        }
        let item = |(k, a): (&'static str, Value)| json!({"kind": k, "args": a});
        let (cf, tf): (Vec<Value>, Vec<Value>) = if first && theme < cks.len() {
            ((0..1 + rng.below(2)).map(|_| item(charf::filter_args(&charf::gen_filter(rng, al, &cks[theme..=theme])))).collect(), vec![])
        } else if first {
            let k = theme - cks.len();
            (vec![], (0..1 + rng.below(2)).map(|_| item(tokf::filter_args(&tokf::gen_filter(rng, &ks, &tokf::ALL[k..=k])))).collect())
        } else {
            (
                (0..rng.below(4)).map(|_| item(charf::filter_args(&charf::gen_filter(rng, al, &cks)))).collect(),
                (0..rng.below(4)).map(|_| item(tokf::filter_args(&tokf::gen_filter(rng, &ks, &tokf::ALL)))).collect(),
            )
        };
        let c = json!({"what": "an", "conf": {"character_filters": cf, "tokenizer": tc, "token_filters": tf}});
        if Inst::new(&c).is_some() {
            v.push(c);
        }
    }
    v
}

enum Cmd {
    Call(Arc<Inst>, String, usize),
}
struct Worker {
    tx: Sender<Cmd>,
    rx: Receiver<Vec<String>>,
}
fn worker() -> Worker {
    let (tx, crx) = channel::<Cmd>();
    let (rtx, rx) = channel();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            while let Ok(Cmd::Call(i, t, reps)) = crx.recv() {
                let mut v: Vec<String> = vec![];
                for _ in 0..reps {
                    let r = i.call(&t);
                    if !v.contains(&r) {
                        v.push(r);
                    }
                }
                drop(i);
                let _ = rtx.send(v);
            }
        })
        .unwrap();
    Worker { tx, rx }
}

/// ev: events as the specification names them; adds r
fn replay(confs: &[Value], texts: &[String], ev: &mut [Value], ids: &mut HashMap<String, usize>, reps: usize) {
    let mut inst: HashMap<u64, Arc<Inst>> = HashMap::new();
    let workers: Vec<Worker> = (0..4).map(|_| worker()).collect();
    for e in ev.iter_mut() {
        let u = |k: &str| e[k].as_u64().unwrap();
        match e["a"].as_str().unwrap() {
            "new" => {
                let x = Inst::new(&confs[u("k") as usize - 1]);
                let ok = x.is_some();
                if let Some(x) = x {
                    inst.insert(u("i"), Arc::new(x));
                }
                e["r"] = json!([if ok { 0 } else { -1 }]);
            }
            "change" => {
                let x = Inst::new(&confs[u("k") as usize - 1]);
                let ok = x.is_some() && inst.contains_key(&u("i"));
                if let (Some(x), Some(a)) = (x, inst.get_mut(&u("i"))) {
                    if Arc::get_mut(a).is_none() {
                        // a call still uses it
                        *a = Arc::new(a.dup());
                    }
                    Arc::get_mut(a).unwrap().set(x);
                }
                e["r"] = json!([if ok { 0 } else { -1 }]);
            }
            "clone" | "copy" => {
                let copy = e["a"] == "copy";
                let x = inst.get(&u("i")).and_then(|x| guard("clone", || if copy { x.copy() } else { Some(x.dup()) }).ok().flatten());
                let ok = x.is_some();
                if let Some(x) = x {
                    inst.insert(u("j"), Arc::new(x));
                }
                e["r"] = json!([if ok { 0 } else { -1 }]);
            }
            "drop" => {
                let x = inst.remove(&u("i"));
                let ok = guard("drop", || drop(x)).is_ok();
                e["r"] = json!([if ok { 0 } else { -1 }]);
            }
            "begin" => {
                if let Some(x) = inst.get(&u("i")) {
                    workers[u("h") as usize - 1].tx.send(Cmd::Call(x.clone(), texts[u("t") as usize - 1].clone(), reps)).unwrap();
                }
                e["r"] = json!([0]);
            }
            _ => {
                let h = u("h") as usize - 1;
                let v = guard("a call in a thread of its own", || workers[h].rx.recv().unwrap_or_default()).unwrap_or_default();
                let r: Vec<usize> = v
                    .into_iter()
                    .map(|s| {
                        let n = ids.len() + 1;
                        *ids.entry(s).or_insert(n)
                    })
                    .collect();
                e["r"] = json!(r);
            }
        }
    }
}

fn random_history(rng: &mut Rng, len: usize, fav: &[usize], ncfg: usize, ntext: usize) -> Vec<Value> {
    let mut inst = [0usize; 6];
    let mut busy = [false; 4];
    let mut ev = vec![];
    let e = |a: &str, i: usize, j: usize, k: usize, h: usize, t: usize| json!({"a": a, "i": i, "j": j, "k": k, "h": h, "t": t});
    while ev.len() < len || busy.iter().any(|b| *b) {
        let used: Vec<usize> = (0..6).filter(|i| inst[*i] != 0).collect();
        let free: Vec<usize> = (0..6).filter(|i| inst[*i] == 0).collect();
        let idle: Vec<usize> = (0..4).filter(|h| !busy[*h]).collect();
        let wait: Vec<usize> = (0..4).filter(|h| busy[*h]).collect();
        let r = if ev.len() >= len { 99 } else { rng.below(100) };
        if r < 12 && !free.is_empty() {
            let i = *rng.pick(&free);
            inst[i] = if rng.chance(60) { *rng.pick(fav) } else { 1 + rng.below(ncfg) };
            ev.push(e("new", i + 1, 0, inst[i], 0, 0));
        } else if r < 25 && !free.is_empty() && !used.is_empty() {
            let (i, j) = (*rng.pick(&used), *rng.pick(&free));
            inst[j] = inst[i];
            ev.push(e(if rng.chance(25) { "copy" } else { "clone" }, i + 1, j + 1, 0, 0, 0));
        } else if r < 33 && !used.is_empty() {
            let i = *rng.pick(&used);
            inst[i] = 0;
            ev.push(e("drop", i + 1, 0, 0, 0, 0));
        } else if r < 38 && used.iter().any(|i| fav.iter().any(|k| *k != inst[*i])) {
            let i = *rng.pick(&used);
            let k = if rng.chance(60) { *rng.pick(fav) } else { 1 + rng.below(ncfg) };
            if k != inst[i] {
                inst[i] = k;
                ev.push(e("change", i + 1, 0, k, 0, 0));
            }
        } else if r < 72 && !used.is_empty() && !idle.is_empty() {
            let h = *rng.pick(&idle);
            busy[h] = true;
            ev.push(e("begin", *rng.pick(&used) + 1, 0, 0, h + 1, 1 + rng.below(ntext)));
        } else if !wait.is_empty() {
            let h = *rng.pick(&wait);
            busy[h] = false;
            ev.push(e("end", 0, 0, 0, h + 1, 0));
        }
    }
    ev
}

/// the configuration that differs least from another one
fn near(confs: &[Value], k: usize) -> usize {
    let diff = |a: &Value, b: &Value| {
        let (a, b): (Vec<char>, Vec<char>) = (a.to_string().chars().collect(), b.to_string().chars().collect());
        let pre = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
        let suf = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count();
        (a.len().max(b.len())).saturating_sub(pre + suf)
    };
    (0..confs.len()).filter(|j| *j != k).min_by_key(|j| diff(&confs[k], &confs[*j])).unwrap()
}

pub struct Opts {
    pub groups: usize,
    pub scn: usize,
    pub random: usize,
    pub len: usize,
}
pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut co = Out::new(out, "cases.ndjson");
    let exe = std::env::current_exe().unwrap();
    let hist: Vec<Value> = scn.map(|s| std::fs::read_to_string(s).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect()).unwrap_or_default();
    for g in 0..o.groups {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(g as u64));
        let p = Profile { users: 60, unk_heavy: rng.chance(20), delim: 8, homograph: true, kanji: rng.chance(30), crowd: false, kinds: true };
        let mut dirs = vec![];
        for i in 0..2 {
            let dir = scratch(out, &format!("g{}", i));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            let (w, al) = gen_world(&mut rng, &p);
            let ok = guard("build", || w.build(&dir).is_ok() && w.build_user(&dir).is_ok());
            if ok == Ok(true) {
                dirs.push((dir, w, al));
            }
        }
        if dirs.is_empty() {
            continue;
        }
        let texts = {
            let (_, w, al) = &dirs[0];
            gen_texts(&mut rng, w, al, &p)
        };
        let confs = gen_confs(&mut rng, &dirs, &texts, g);
        if std::env::var("LHX_CONFS").is_ok() {
            eprintln!("{} {} {}", g, json!(confs), json!(texts));
        }
        // baselines, each in a process of its own
        let bdir = scratch(out, "base");
        for (k, c) in confs.iter().enumerate() {
            std::fs::write(bdir.join(format!("c{}", k)), c.to_string()).unwrap();
        }
        for (j, t) in texts.iter().enumerate() {
            std::fs::write(bdir.join(format!("t{}", j)), t).unwrap();
        }
        let mut ids: HashMap<String, usize> = HashMap::new();
        let jobs: Vec<(usize, usize)> = (0..confs.len()).flat_map(|k| (0..texts.len()).map(move |j| (k, j))).collect();
        let mut base = vec![vec![0usize; texts.len()]; confs.len()];
        for chunk in jobs.chunks(8) {
            let outs: Vec<_> = chunk
                .iter()
                .map(|(k, j)| {
                    Command::new(&exe)
                        .args(["one", "--out"])
                        .arg(&bdir)
                        .arg("--cfg")
                        .arg(bdir.join(format!("c{}", k)))
                        .arg("--text")
                        .arg(bdir.join(format!("t{}", j)))
                        .stdout(std::process::Stdio::piped())
                        .spawn()
                        .unwrap()
                })
                .collect();
            for ((k, j), ch) in chunk.iter().zip(outs) {
                let r = guard("a baseline process", || ch.wait_with_output().unwrap()).unwrap();
                let s = String::from_utf8(r.stdout).unwrap();
                let n = ids.len() + 1;
                base[*k][*j] = *ids.entry(s).or_insert(n);
            }
        }
        let mut emit = |ev: Vec<Value>, ids: &mut HashMap<String, usize>, reps: usize| {
            let mut ev = ev;
            replay(&confs, &texts, &mut ev, ids, reps);
            let mut c = json!({"g": g, "base": base, "ev": ev});
            // for the reader of a report: what was configured and returned
            let wrong = ev.iter().any(|e| e["a"] == "end" && (e["r"].as_array().unwrap().len() != 1 || !base.iter().any(|b| b.contains(&(e["r"][0].as_u64().unwrap() as usize)))));
            if wrong {
                c["confs"] = json!(confs.iter().map(|c| c.to_string()).collect::<Vec<_>>());
                c["texts"] = json!(texts.iter().map(|t| cps(t)).collect::<Vec<_>>());
            }
            co.put(&c);
        };
        for _ in 0..o.scn.min(hist.len()) {
            let h = rng.pick(&hist);
            // the two configurations and texts of the scenario: any two of the group's
            let k1 = if rng.chance(40) { rng.below(2) } else { rng.below(6) };
            let k2 = if rng.chance(60) { near(&confs, k1) } else { (k1 + 1 + rng.below(5)) % 6 };
            // preferably texts for which the configurations give different results
            let apart: Vec<usize> = (0..texts.len()).filter(|t| base[k1][*t] != base[k2][*t]).collect();
            let t1 = if !apart.is_empty() && rng.chance(60) { *rng.pick(&apart) } else { rng.below(12) };
            let t2 = if apart.len() > 1 && rng.chance(50) { *rng.pick(&apart) } else { (t1 + 1 + rng.below(11)) % 12 };
            let ev: Vec<Value> = h["ev"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| {
                    let mut e = e.clone();
                    if e["a"] == "clone" && rng.chance(20) {
                        e["a"] = json!("copy");
                    }
                    e["k"] = json!(match e["k"].as_u64().unwrap() {
                        0 => 0,
                        1 => k1 + 1,
                        _ => k2 + 1,
                    });
                    e["t"] = json!(match e["t"].as_u64().unwrap() {
                        0 => 0,
                        1 => t1 + 1,
                        _ => t2 + 1,
                    });
                    e
                })
                .collect();
            let reps = 1 + rng.below(6);
            emit(ev, &mut ids, reps);
        }
        for _ in 0..o.random {
            let fav = if rng.chance(40) { 0 } else { rng.below(6) };
            let ev = random_history(&mut rng, o.len, &[fav + 1, near(&confs, fav) + 1], confs.len(), texts.len());
            let reps = 1 + rng.below(4);
            emit(ev, &mut ids, reps);
        }
    }
}
