//! Dictionaries contained in the program, against the same sources built and loaded from a directory.
use crate::tok::toks_json;
use crate::util::*;
use crate::world::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

/// the sources: one per kind, and "A", which is only ever built into a directory
pub fn names() -> Vec<&'static str> {
    let mut v = KINDS.to_vec();
    v.push("A");
    v
}

/// Write the sources, a directory built from each and the texts to probe with.
pub fn sources(out: &Path, seed: u64) {
    let p = Profile { users: 100, unk_heavy: false, delim: 8, homograph: false, kanji: false, crowd: false, kinds: true };
    let mut rng = Rng::new(seed ^ 0xC047);
    let mut worlds = vec![];
    let mut texts = vec![String::new()];
    for n in names() {
        let (mut w, al) = loop {
            let (w, al) = gen_world(&mut rng, &p);
            let (f, b) = (w.mat.len(), w.mat[0].len());
            // mostly matrices that are not square, tall and wide
            if (w.kind == n || n == "A" && w.kind == "unidic") && w.sys.len() > 5 && f >= 2 && b >= 2 && (f != b || rng.chance(10)) && w.usr.iter().all(|r| !r.s.is_empty()) {
                break (w, al);
            }
        };
        // any user dictionary may be used with any dictionary
        for r in w.usr.iter_mut() {
            r.l %= 2;
            r.r %= 2;
        }
        // two of them are big
        match n {
            "ko-dic" => w.pad.sys = 12_000,
            "cc-cedict" => w.pad.cats = 300,
            _ => {}
        }
        let dir = out.join(n);
        w.build(&dir).expect("valid sources build");
        fs::write(dir.join("user.csv"), w.user_csv()).unwrap();
        lindera_dictionary::DictionaryBuilderResolver::resolve_builder(kind(&w.kind)).unwrap().build_user_dictionary(&dir.join("user.csv"), &dir.join("user.bin")).unwrap();
        for _ in 0..2 {
            texts.push(gen_text_words(&mut rng, &w, &al, &p, 8));
        }
        texts.push(gen_text(&mut rng, &al, &p, 12));
        let mut j = w.to_json();
        j["name"] = json!(n);
        worlds.push(j);
    }
    let all: String = texts.concat();
    texts.push(all);
    fs::write(out.join("worlds.json"), json!({"worlds": worlds, "texts": texts}).to_string()).unwrap();
}

/// everything that can be asked of a dictionary, as one string per probe
fn battery(d: &Dictionary, u: &Option<UserDictionary>, texts: &[String], ids: (usize, usize)) -> Vec<String> {
    let mut r = vec![];
    let mut put = |n: &str, f: &dyn Fn() -> Value| {
        r.push(match guard(&format!("contained {}", n), f) {
            Ok(v) => format!("{} {}", n, v),
            Err(e) => format!("{} panic {}", n, e),
        })
    };
    let all: String = texts.last().unwrap().clone();
    put("words", &|| {
        let mut v = vec![];
        for (i, _) in all.char_indices() {
            for (n, w) in d.dict.prefix(&all[i..]) {
                v.push(json!([i, n, w.left_id, w.right_id, w.word_cost, w.word_id.0, w.word_id.1, d.word_details(w.word_id.0 as usize)]));
            }
        }
        json!(v)
    });
    put("costs", &|| {
        json!((0..ids.0).map(|a| (0..ids.1).map(|b| d.cost_matrix.cost(a as u32, b as u32)).collect::<Vec<_>>()).collect::<Vec<_>>())
    });
    put("characters", &|| {
        let c = &d.char_definitions;
        json!(all
            .chars()
            .chain(['\0', '\u{ffff}', '\u{10ffff}', 'ゐ'])
            .map(|x| c
                .lookup_categories(x)
                .iter()
                .map(|k| {
                    let i = c.lookup_definition(*k);
                    let ids: Vec<_> = d.unknown_dictionary.lookup_word_ids(*k).iter().map(|w| {
                        let e = d.unknown_dictionary.word_entry(*w);
                        json!([w, e.left_id, e.right_id, e.word_cost])
                    }).collect();
                    json!([c.category_name(*k), i.invoke, i.group, i.length, ids])
                })
                .collect::<Vec<_>>())
            .collect::<Vec<_>>())
    });
    let mode = |dec: bool| if dec { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
    for dec in [false, true] {
        let t = Tokenizer::new(d.clone(), u.clone(), mode(dec));
        for x in texts {
            r.push(toks_json(&t, x, false).to_string());
        }
    }
    r
}

/// `p`: directory, `un`, `ue`: name and extension of the user dictionary
/// answers are compared by their digests
fn digest(v: &[String]) -> Value {
    json!(v.iter().map(|s| format!("{:016x}", s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))).collect::<Vec<_>>())
}

pub fn open(dir: &Path, k: &str, p: &str, uk: &str, un: &str, ue: &str) -> Result<(Dictionary, Option<UserDictionary>), String> {
    let kd = |k: &str| if k.is_empty() { None } else { Some(kind(k)) };
    let up = format!("{}/user.{}", un, ue);
    guard(&format!("load {} {} {} {}", k, p, uk, up), || {
        let d = DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind: kd(k), path: if p.is_empty() { None } else { Some(dir.join(p).join("dic")) } })
            .map_err(|e| format!("err {}", e))?;
        let u = if ue.is_empty() {
            None
        } else {
            Some(DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { kind: kd(uk), path: dir.join(&up) }).map_err(|e| format!("err {}", e))?)
        };
        Ok((d, u))
    })
    .unwrap_or_else(|e| Err(format!("panic {}", e)))
}

/// rows and columns of the matrix
fn shape(w: &Value) -> (usize, usize) {
    let m = w["mat"].as_array().unwrap();
    (m.len(), m[0].as_array().unwrap().len())
}

/// Reference: every dictionary loaded from the directory it was built into, with every user dictionary, loaded from CSV.
pub fn reference(dir: &Path) {
    let v: Value = serde_json::from_slice(&fs::read(dir.join("worlds.json")).unwrap()).unwrap();
    let texts: Vec<String> = v["texts"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
    let mut o = Out::new(dir, "ref.ndjson");
    for w in v["worlds"].as_array().unwrap() {
        let s = w["name"].as_str().unwrap();
        let mut by = serde_json::Map::new();
        let mut full = serde_json::Map::new();
        for u in std::iter::once("").chain(names()) {
            let uk = if u == "A" { "unidic" } else { u };
            let (d, ud) = open(dir, "", s, uk, u, if u.is_empty() { "" } else { "csv" }).expect("reference");
            let b = battery(&d, &ud, &texts, shape(w));
            by.insert(format!("u{}", u), digest(&b));
            full.insert(format!("u{}", u), json!(b));
        }
        o.put(&json!({"s": s, "r": by}));
        fs::write(dir.join(format!("full-{}.json", s)), json!(full).to_string()).unwrap();
    }
}

/// for the reader of a report only: the first answer that is not the reference's
fn explain(srcs: &Path, op: &Value, b: &[String]) -> Value {
    let g = |n: &str| op[n].as_str().unwrap();
    let s = if g("k").is_empty() { g("p") } else { g("k") };
    let full: Value = fs::read(srcs.join(format!("full-{}.json", s))).ok().and_then(|x| serde_json::from_slice(&x).ok()).unwrap_or(Value::Null);
    let want = &full[format!("u{}", g("un"))];
    for (i, x) in b.iter().enumerate() {
        if want[i] != json!(x) {
            let cut = |s: &str| s.chars().take(1500).collect::<String>();
            return json!({"probe": i, "got": cut(x), "want": cut(want[i].as_str().unwrap_or(""))});
        }
    }
    json!("")
}

/// Run histories of loads and probes. The directories are built here, by this program.
pub fn run(out: &Path, srcs: &Path, seed: u64, n: usize, scn: Option<&Path>, sample: u64) {
    let v: Value = serde_json::from_slice(&fs::read(srcs.join("worlds.json")).unwrap()).unwrap();
    let texts: Vec<String> = v["texts"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect();
    let ids = |s: &str| shape(v["worlds"].as_array().unwrap().iter().find(|w| w["name"] == s).unwrap());
    let dir = scratch(out, "d");
    for w in v["worlds"].as_array().unwrap() {
        let s = w["name"].as_str().unwrap();
        let k = kind(w["kind"].as_str().unwrap());
        let _ = guard("build", || {
            let _ = lindera_dictionary::DictionaryBuilderResolver::resolve_builder(k).unwrap().build_dictionary(&srcs.join(s).join("src"), &dir.join(s).join("dic"));
        });
        for f in ["user.csv", "user.bin"] {
            fs::copy(srcs.join(s).join(f), dir.join(s).join(f)).unwrap();
        }
    }
    let has: Vec<String> = DictionaryKind::contained_variants().iter().map(|k| k.as_str().to_string()).collect();
    let mut co = Out::new(out, "cases.ndjson");
    let mut rng = Rng::new(seed ^ 0x0C0);
    let mut go = |ops: &[Value], co: &mut Out| {
        let mut hs: Vec<Option<(Dictionary, Option<UserDictionary>, (usize, usize))>> = vec![];
        let mut done = vec![];
        let loads: Vec<&Value> = ops.iter().filter(|o| o["op"] == "load").collect();
        for op in ops {
            let mut e = op.clone();
            if op["op"] == "load" {
                let g = |n: &str| op[n].as_str().unwrap().to_string();
                let (k, p) = (g("k"), g("p"));
                match open(&dir, &k, &p, &g("uk"), &g("un"), &g("ue")) {
                    Ok((d, u)) => {
                        e["r"] = json!("ok");
                        let s = if k.is_empty() { p.as_str() } else { k.as_str() };
                        hs.push(Some((d, u, ids(s))));
                    }
                    Err(x) => {
                        e["r"] = json!(x.split(' ').next().unwrap());
                        hs.push(None);
                    }
                }
            } else {
                // ask handle h; a failed load cannot be asked
                let h = op["h"].as_u64().unwrap() as usize;
                match hs.get(h - 1).and_then(|x| x.as_ref()) {
                    Some((d, u, m)) => {
                        let b = battery(d, u, &texts, *m);
                        e["r"] = digest(&b);
                        e["diff"] = explain(srcs, &loads[h - 1], &b);
                    }
                    None => continue,
                }
            }
            done.push(e);
        }
        co.put(&json!({"has": has, "ops": done}));
    };
    if let Some(s) = scn {
        for line in fs::read_to_string(s).unwrap().lines() {
            let ops: Value = serde_json::from_str(line).unwrap();
            if rng.chance(sample) {
                go(ops.as_array().unwrap(), &mut co);
            }
        }
    }
    let all = names();
    for _ in 0..n {
        let mut ops = vec![];
        let mut loads = 0;
        for _ in 0..3 + rng.below(8) {
            if loads == 0 || rng.chance(50) {
                let k = if rng.chance(75) { *rng.pick(&KINDS) } else { "" };
                let p = if k.is_empty() && rng.chance(95) || rng.chance(20) { *rng.pick(&all) } else { "" };
                let u = *rng.pick(&all);
                let (uk, un, ue) = match rng.below(4) {
                    0 => (if u == "A" { "unidic" } else { u }, u, "csv"),
                    1 => (if rng.chance(50) { *rng.pick(&KINDS) } else { "" }, u, "bin"),
                    2 if rng.chance(30) => ("", u, "csv"),
                    _ => ("", "", ""),
                };
                ops.push(json!({"op": "load", "k": k, "p": p, "uk": uk, "un": un, "ue": ue}));
                loads += 1;
            } else {
                ops.push(json!({"op": "ask", "h": 1 + rng.below(loads)}));
            }
        }
        go(&ops, &mut co);
    }
}
