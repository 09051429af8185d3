//! Does every run end? Odd texts, the whole code space, long texts, arbitrary tokens.
use crate::charf;
use crate::tok::mode_of;
use crate::tokf;
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_filter::token::Token;
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub struct Opts {
    pub profile: String,
    pub sample: u64,
    pub part: usize,
    pub parts: usize,
    pub worlds: usize,
    pub n: usize,
    pub chunk: usize,
    pub len: usize,
    pub heavy: usize,
    pub every: usize,
    pub huge: usize,
}

struct Scn {
    confs: Vec<Value>,
    texts: Vec<Value>,
    classes: Vec<String>,
}
fn read(scn: &Path) -> Scn {
    let mut s = Scn { confs: vec![], texts: vec![], classes: vec![] };
    for line in std::fs::read_to_string(scn).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        if !v["conf"].is_null() {
            s.confs.push(v["conf"].clone());
        } else if !v["class"].is_null() {
            s.classes.push(from_cps(&v["class"]));
        } else {
            s.texts.push(v["text"].clone());
        }
    }
    s
}
fn spell(t: &Value) -> String {
    t.as_array().unwrap().iter().map(|s| from_cps(&s["s"]).repeat(s["n"].as_u64().unwrap() as usize)).collect()
}
fn list(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

/// counts of endings, and a few of the runs that did not end well
#[derive(Default)]
struct Tally {
    n: BTreeMap<String, u64>,
    bad: Vec<Value>,
}
impl Tally {
    fn put(&mut self, r: Result<bool, String>, what: impl Fn() -> Value) {
        let s = match r {
            Ok(true) => "ok".to_string(),
            Ok(false) => "err".to_string(),
            Err(e) => {
                if self.bad.len() < 3 {
                    self.bad.push(json!({"input": what(), "panic": e}));
                }
                "panic".to_string()
            }
        };
        *self.n.entry(s).or_default() += 1;
    }
    fn case(self, conf: &Value, world: &str) -> Value {
        json!({"conf": conf, "world": world, "runs": self.n.iter().map(|(r, n)| json!({"r": r, "n": n})).collect::<Vec<_>>(), "bad": self.bad})
    }
}
fn analyzer(t: &Tokenizer, conf: &Value) -> Result<Analyzer, String> {
    let pen: Vec<i64> = list(&conf["pen"]).iter().map(|x| x.as_i64().unwrap()).collect();
    let cf = list(&conf["cf"]).iter().map(charf::load).collect::<Result<Vec<_>, _>>()?;
    let tf = list(&conf["tf"]).iter().map(tokf::load).collect::<Result<Vec<_>, _>>()?;
    let t = Tokenizer::new(t.dictionary.clone(), t.user_dictionary.clone(), mode_of(&pen));
    Ok(Analyzer::new(cf, t, tf))
}
fn short(t: &str) -> Value {
    if t.chars().count() <= 80 {
        json!(t)
    } else {
        json!({"start": t.chars().take(40).collect::<String>(), "chars": t.chars().count()})
    }
}
fn analyze(a: &Analyzer, conf: &Value, t: &str) -> Result<bool, String> {
    guard(&format!("analyze {} with {}", short(t), conf), || a.analyze(t).is_ok())
}

fn open(out: &Path, w: &World) -> Option<Tokenizer> {
    let dir = scratch(out, "w");
    let r = guard("build", || {
        let d = w.build(&dir).ok()?;
        let u = w.build_user(&dir).ok()?;
        Some(Tokenizer::new(d, u, mode_of(&[])))
    });
    let _ = std::fs::remove_dir_all(&dir);
    r.ok()?
}
/// a dictionary of the classes: every one a word on its own, and some together
fn class_world(rng: &mut Rng, classes: &[String], grp: bool, inv: bool) -> World {
    let mut words: Vec<String> = vec![];
    for c in classes.iter().filter(|c| !c.contains('\0')) {
        if rng.chance(50) {
            words.push(c.clone());
        }
        if rng.chance(50) {
            words.push(c.clone() + &rng.pick(classes).replace('\0', ""));
        }
    }
    words.sort();
    words.dedup();
    charf::simple_world(grp, inv, &words)
}
/// costs at the ends of their range, one unknown word per character
fn heavy(c: i64) -> World {
    let mut w = charf::simple_world(false, true, &[]);
    w.unk[0].c = c;
    w.mat = vec![vec![c]];
    w
}

const BLOCKS: [(u32, u32); 24] = [
    (0, 0x7f), (0x80, 0x24f), (0x300, 0x36f), (0x370, 0x5ff), (0x600, 0x8ff), (0x900, 0xdff), (0xe00, 0xfff), (0x1100, 0x11ff), (0x1ab0, 0x1aff), (0x1e00, 0x206f), (0x20d0, 0x2bff),
    (0x2e80, 0x303f), (0x3040, 0x30ff), (0x3130, 0x33ff), (0x3400, 0x9fff), (0xac00, 0xd7ff), (0xe000, 0xfaff), (0xfb00, 0xfdff), (0xfe00, 0xffff), (0x10000, 0x12fff), (0x1b000, 0x1d7ff), (0x1f000, 0x1faff), (0x20000, 0x323af), (0xe0000, 0x10ffff),
];
fn anything(rng: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let bs: Vec<(u32, u32)> = (0..1 + rng.below(4)).map(|_| *rng.pick(&BLOCKS)).collect();
    for _ in 0..rng.below(max + 1) {
        let (a, b) = *rng.pick(&bs);
        if let Some(c) = char::from_u32(a + rng.below((b - a + 1) as usize) as u32) {
            for _ in 0..1 + if rng.chance(10) { rng.below(5) } else { 0 } {
                s.push(c);
            }
        }
        if rng.chance(12) {
            s.push(*rng.pick(&charf::POOL));
        }
    }
    s
}

fn skip(i: usize, o: &Opts) -> bool {
    i % o.parts != o.part
}

pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut co = Out::new(out, "cases.ndjson");
    for p in o.profile.split(',') {
        one(out, seed, p, o, scn, &mut co);
    }
}
fn one(out: &Path, seed: u64, profile: &str, o: &Opts, scn: Option<&Path>, co: &mut Out) {
    let mut rng = Rng::new(seed ^ 0x707A1 ^ ((o.part as u64) << 20));
    let s = scn.map(read).unwrap_or(Scn { confs: vec![], texts: vec![], classes: vec![] });
    match profile {
        // every exported configuration x every exported text
        "grid" => {
            let mut ws: Vec<(String, Tokenizer)> = vec![];
            for (n, g, i) in [("plain", false, true), ("grouping", true, true), ("quiet", false, false), ("quiet grouping", true, false)] {
                let w = class_world(&mut rng, &s.classes, g, i);
                if let Some(t) = open(out, &w) {
                    ws.push((n.into(), t));
                }
            }
            let p = Profile { users: 60, unk_heavy: true, delim: 8, homograph: false, kanji: false, crowd: false, kinds: true };
            while ws.len() < 4 + o.worlds.min(20) {
                let (w, _) = gen_world(&mut rng, &p);
                if let Some(t) = open(out, &w) {
                    ws.push((w.to_json().to_string(), t));
                }
            }
            for (i, conf) in s.confs.iter().enumerate() {
                if skip(i, o) {
                    continue;
                }
                let bare = list(&conf["cf"]).is_empty() && list(&conf["tf"]).is_empty();
                for (k, (wn, t)) in ws.iter().enumerate() {
                    if !bare && k > 1 && (i + k) % 4 != 0 {
                        continue;
                    }
                    let mut y = Tally::default();
                    match analyzer(t, conf) {
                        Err(e) => y.put(if e.starts_with("panic") { Err(e) } else { Ok(false) }, || json!("load")),
                        Ok(a) => {
                            for x in &s.texts {
                                if list(x).len() == 2 && !rng.chance(o.sample) {
                                    continue;
                                }
                                let x = spell(x);
                                y.put(analyze(&a, conf, &x), || json!(x));
                            }
                        }
                    }
                    co.put(&y.case(conf, wn));
                }
            }
        }
        // every character there is, in runs of `chunk`
        "space" => {
            let w = class_world(&mut rng, &s.classes, true, true);
            let t = match open(out, &w) {
                Some(t) => t,
                None => return,
            };
            let all: Vec<char> = ('\0'..=char::MAX).collect();
            for (i, conf) in s.confs.iter().enumerate() {
                if skip(i, o) || list(&conf["cf"]).len() + list(&conf["tf"]).len() > 1 {
                    continue;
                }
                let a = match analyzer(&t, conf) {
                    Ok(a) => a,
                    Err(_) => continue,
                };
                let mut y = Tally::default();
                for (k, cs) in all.chunks(o.chunk).enumerate() {
                    let x: String = cs.iter().collect();
                    if o.every > 1 && (k + i) % o.every != 0 && !(cs[0] as u32 <= 0x33ff || (0xf900..0x10000).contains(&(cs[0] as u32))) {
                        continue;
                    }
                    y.put(analyze(&a, conf, &x), || json!(x));
                    if o.chunk < 4 {
                        for x in [format!("か{}か", x), format!("{}\u{3099}", x), format!("a{}{}", x, x)] {
                            y.put(analyze(&a, conf, &x), || json!(x));
                        }
                    }
                }
                co.put(&y.case(conf, "classes"));
            }
        }
        // long texts, also where costs add up fast
        "long" => {
            let mut ws = vec![];
            for (n, w) in [("plain", class_world(&mut rng, &s.classes, false, true)), ("grouping", class_world(&mut rng, &s.classes, true, true)), ("heavy", heavy(32767)), ("light", heavy(-32768))] {
                if let Some(t) = open(out, &w) {
                    ws.push((n, t));
                }
            }
            for (i, conf) in s.confs.iter().enumerate() {
                if skip(i, o) {
                    continue;
                }
                let bare = list(&conf["cf"]).is_empty() && list(&conf["tf"]).is_empty();
                for (n, t) in &ws {
                    let weighty = n.len() == 5 && *n != "plain";
                    if weighty && !bare {
                        continue;
                    }
                    let a = match analyzer(t, conf) {
                        Ok(a) => a,
                        Err(_) => continue,
                    };
                    let mut y = Tally::default();
                    for (j, c) in s.classes.iter().enumerate() {
                        if weighty && !["a", "東"].contains(&c.as_str()) || !weighty && (i + j) % o.every != 0 {
                            continue;
                        }
                        let len = if weighty { o.heavy } else { o.len };
                        let x: String = c.repeat(len / c.chars().count());
                        y.put(analyze(&a, conf, &x), || short(&x));
                    }
                    if !y.n.is_empty() {
                        co.put(&y.case(conf, n));
                    }
                }
            }
        }
        // one sentence of several hundred thousand tokens, in a thread with an ordinary stack
        "huge" => {
            let t = match open(out, &heavy(1)) {
                Some(t) => t,
                None => return,
            };
            let cs: Vec<&String> = s.classes.iter().filter(|c| !c.contains(['。', '、', '\n', '\t', '\r', '\0']) && c.chars().count() == 1).collect();
            for (i, conf) in s.confs.iter().enumerate() {
                if skip(i, o) || list(&conf["cf"]).len() + list(&conf["tf"]).len() > 1 || (i / o.parts) % o.every > 2 {
                    continue;
                }
                let a = match analyzer(&t, conf) {
                    Ok(a) => a,
                    Err(_) => continue,
                };
                let unit: String = (0..3).map(|_| rng.pick(&cs).as_str()).collect();
                let x = unit.repeat(o.huge / 3);
                let mut y = Tally::default();
                let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || analyze(&a, conf, &x)).unwrap().join().unwrap());
                y.put(r, || json!([unit, o.huge / 3]));
                co.put(&y.case(conf, "one sentence"));
            }
        }
        // random dictionaries, filters, texts of any blocks; token filters on arbitrary tokens
        _ => {
            for k in 0..o.worlds {
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add((k * o.parts + o.part) as u64) ^ 0x7070);
                let p = Profile { users: 50, unk_heavy: rng.chance(40), delim: 8, homograph: rng.chance(30), kanji: rng.chance(30), crowd: false, kinds: true };
                let (w, mut al) = gen_world(&mut rng, &p);
                let t = match open(out, &w) {
                    Some(t) => t,
                    None => continue,
                };
                al.extend(charf::alphabet(&mut rng, true));
                for _ in 0..o.n {
                    let ks: Vec<Token> = tokf::gen_tokens(&mut rng, 9);
                    let cf: Vec<Value> = (0..rng.below(4)).map(|_| charf::gen_filter(&mut rng, &al, &["map", "rex", "norm", "iter"])).collect();
                    let tf: Vec<Value> = (0..rng.below(4)).map(|_| tokf::gen_filter(&mut rng, &ks, &tokf::ALL)).collect();
                    let big = |rng: &mut Rng| *rng.pick(&[0, 1, 2, 7, -1, 1000, i32::MAX as i64, i32::MIN as i64]);
                    let size = |rng: &mut Rng| *rng.pick(&[0, 1, 2, 7, 5_000_000_000, i32::MAX as i64, i64::MAX]);
                    let pen = if rng.chance(40) { vec![] } else { vec![size(&mut rng), big(&mut rng), size(&mut rng), big(&mut rng)] };
                    let conf = json!({"cf": cf, "tf": tf, "pen": pen});
                    let mut y = Tally::default();
                    let a = match analyzer(&t, &conf) {
                        Ok(a) => a,
                        Err(e) => {
                            if e.starts_with("panic") {
                                y.put(Err(e), || json!("load"));
                                co.put(&y.case(&conf, &w.to_json().to_string()));
                            }
                            continue;
                        }
                    };
                    for _ in 0..12 {
                        let x = match rng.below(4) {
                            0 => gen_text(&mut rng, &al, &p, 40),
                            1 => gen_text_words(&mut rng, &w, &al, &p, 12),
                            2 => anything(&mut rng, 12),
                            _ => anything(&mut rng, 80),
                        };
                        y.put(analyze(&a, &conf, &x), || json!(x));
                        y.put(guard(&format!("tokenize {:?} {}", x, conf), || a.tokenizer.tokenize(&x).map(|mut v| v.iter_mut().for_each(|k| drop(k.get_details()))).is_ok()), || json!(x));
                    }
                    // tokens as other tokenizers, or other filters, might make them
                    if let Ok(fs) = list(&conf["tf"]).iter().map(tokf::load).collect::<Result<Vec<_>, _>>() {
                        for _ in 0..12 {
                            let mut ks = tokf::gen_tokens(&mut rng, 8);
                            for x in ks.iter_mut() {
                                if rng.chance(15) {
                                    x.text = anything(&mut rng, 6);
                                }
                                if rng.chance(10) {
                                    x.details = (0..rng.below(20)).map(|_| anything(&mut rng, 3)).collect();
                                }
                                if rng.chance(5) {
                                    x.position_length = *rng.pick(&[0, 5, 1000]);
                                }
                            }
                            let what = json!(ks.iter().map(tokf::tok_json).collect::<Vec<_>>());
                            y.put(guard(&format!("token filters {} {}", conf, what), || fs.iter().all(|f| f.apply(&mut ks).is_ok())), || what.clone());
                        }
                    }
                    co.put(&y.case(&conf, &w.to_json().to_string()));
                }
            }
        }
    }
}
