//! Analyzers made in every way there is, and their stages run one by one.
use crate::charf;
use crate::tok::mode_of;
use crate::tokf;
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::path::Path;

/// the tokenizer's tokens with their details, as token filters get them
pub fn plain(t: &Tokenizer, text: &str) -> Option<Vec<Token>> {
    guard("plain tokenization", || {
        let mut v = t.tokenize(text).ok()?;
        v.iter_mut()
            .map(|k| {
                Some(Token {
                    text: k.text.to_string(),
                    byte_start: k.byte_start,
                    byte_end: k.byte_end,
                    position: k.position,
                    position_length: k.position_length,
                    word_id: k.word_id,
                    details: k.get_details()?.iter().map(|s| s.to_string()).collect(),
                })
            })
            .collect()
    })
    .ok()
    .flatten()
}
fn json_list(ks: &[Token]) -> Value {
    json!(ks.iter().map(tokf::tok_json).collect::<Vec<_>>())
}

struct Ways {
    made: Vec<(&'static str, Analyzer)>,
    failed: Vec<(&'static str, String)>,
    chars: Vec<BoxCharacterFilter>,
    toks: Vec<BoxTokenFilter>,
}

/// the same analyzer, made by hand, from a configuration (bytes, file), from command line flags, and cloned
fn make(out: &Path, t: &Tokenizer, tconf: &Value, cf: &[Value], tf: &[Value]) -> Option<Ways> {
    let mut made = vec![];
    let mut failed = vec![];
    let load = || -> Option<(Vec<BoxCharacterFilter>, Vec<BoxTokenFilter>)> {
        Some((cf.iter().map(|f| charf::load(f).ok()).collect::<Option<_>>()?, tf.iter().map(|f| tokf::load(f).ok()).collect::<Option<_>>()?))
    };
    let (chars, toks) = load()?;
    let (c2, t2) = load()?;
    let hand = Analyzer::new(c2, t.clone(), t2);
    made.push(("clone", hand.clone()));
    made.push(("hand", hand));
    let item = |(k, a): (&'static str, Value)| if a.is_null() { json!({ "kind": k }) } else { json!({"kind": k, "args": a}) };
    let mut conf = json!({"tokenizer": tconf});
    if !cf.is_empty() {
        conf["character_filters"] = json!(cf.iter().map(|f| item(charf::filter_args(f))).collect::<Vec<_>>());
    }
    if !tf.is_empty() {
        conf["token_filters"] = json!(tf.iter().map(|f| item(tokf::filter_args(f))).collect::<Vec<_>>());
    }
    let bytes = serde_json::to_vec_pretty(&conf).unwrap();
    let file = out.join("conf.json");
    std::fs::write(&file, &bytes).unwrap();
    for way in ["slice", "file"] {
        let r = guard("analyzer from configuration", || {
            let c = if way == "slice" { AnalyzerConfig::from_slice(&bytes)? } else { AnalyzerConfig::from_file(&file)? };
            Analyzer::from_config(&c)
        });
        match r {
            Ok(Ok(a)) => made.push((way, a)),
            Ok(Err(e)) => failed.push((way, format!("err {}", e))),
            Err(e) => failed.push((way, format!("panic {}", e))),
        }
    }
    let flag = |(k, a): (&'static str, Value)| if a.is_null() { k.to_string() } else { format!("{}:{}", k, a) };
    let r = guard("filters from flags", || -> lindera_core::LinderaResult<Analyzer> {
        let c = cf.iter().map(|f| CharacterFilterLoader::load_from_cli_flag(&flag(charf::filter_args(f)))).collect::<Result<_, _>>()?;
        let k = tf.iter().map(|f| TokenFilterLoader::load_from_cli_flag(&flag(tokf::filter_args(f)))).collect::<Result<_, _>>()?;
        Ok(Analyzer::new(c, t.clone(), k))
    });
    match r {
        Ok(Ok(a)) => made.push(("flags", a)),
        Ok(Err(e)) => failed.push(("flags", format!("err {}", e))),
        Err(e) => failed.push(("flags", format!("panic {}", e))),
    }
    Some(Ways { made, failed, chars, toks })
}

/// None if a stage on its own fails: that is for others to judge
fn case(w: &Ways, t: &Tokenizer, cf: &[Value], tf: &[Value], text: &str) -> Option<Value> {
    let (mut cur, mut st, mut g, mut texts) = (text.to_string(), vec![], vec![], vec![text.to_string()]);
    for (f, x) in cf.iter().zip(&w.chars) {
        g.push(if f["k"] == "norm" { charf::clusters(&cur) } else { json!([]) });
        cur = guard("char filter", || x.apply(&cur)).ok()?.ok()?.0;
        st.push(cps(&cur));
        texts.push(cur.clone());
    }
    let mut ks = plain(t, &cur)?;
    let kt = json_list(&ks);
    let mut ts = vec![];
    for x in &w.toks {
        guard("token filter", || x.apply(&mut ks)).ok()?.ok()?;
        ts.push(json_list(&ks));
    }
    let (nd, np) = if cf.iter().any(|f| f["k"] == "norm") { charf::unicode_data(&texts) } else { (json!([]), json!([])) };
    let mut rt: Vec<Value> = w.failed.iter().map(|(n, e)| json!({"n": n, "r": e, "k": []})).collect();
    for (n, a) in &w.made {
        rt.push(match guard(&format!("analyze {:?} with {} {}", text, json!(cf), json!(tf)), || a.analyze(text)) {
            Ok(Ok(v)) => json!({"n": n, "r": "ok", "k": json_list(&v)}),
            Ok(Err(e)) => json!({"n": n, "r": format!("err {}", e), "k": []}),
            Err(e) => json!({"n": n, "r": format!("panic {}", e), "k": []}),
        });
    }
    Some(json!({"cf": cf, "tf": tf, "t": cps(text), "st": st, "g": g, "nd": nd, "np": np, "kt": kt, "ts": ts, "rt": rt}))
}

/// Some filters one after another; often several of the same kind, sometimes the same filter again, or many.
pub fn chain<'a>(rng: &mut Rng, most: usize, kinds: &[&'a str], mut gen: impl FnMut(&mut Rng, &[&'a str]) -> Value) -> Vec<Value> {
    let n = if rng.chance(4) { 5 + rng.below(8) } else { rng.below(most + 1) };
    let few: Vec<&str> = if rng.chance(25) { (0..1 + rng.below(2)).map(|_| *rng.pick(kinds)).collect() } else { kinds.to_vec() };
    let mut v: Vec<Value> = vec![];
    for _ in 0..n {
        let f = if !v.is_empty() && rng.chance(7) { rng.pick(&v).clone() } else { gen(rng, &few) };
        v.push(f);
    }
    v
}

pub struct Opts {
    pub worlds: usize,
    pub confs: usize,
    pub texts: usize,
    pub sample: u64,
    pub maxlen: usize,
    pub chain: usize,
}

pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut co = Out::new(out, "cases.ndjson");
    let open = |w: &World, dir: &Path, pen: &[i64]| -> Option<(Tokenizer, Value)> {
        let d = guard("build", || w.build(dir)).ok()?.ok()?;
        let u = guard("build", || w.build_user(dir)).ok()?.ok()?;
        let mut conf = json!({"dictionary": {"path": dir.join("dic").to_str().unwrap()}});
        if w.hasu {
            conf["user_dictionary"] = json!({"path": dir.join("user.csv").to_str().unwrap(), "kind": w.kind});
        }
        if pen.is_empty() {
            if w.layout % 2 == 0 {
                conf["mode"] = json!("normal");
            }
        } else {
            conf["mode"] = json!({"decompose": {"kanji_penalty_length_threshold": pen[0], "kanji_penalty_length_penalty": pen[1],
                                                "other_penalty_length_threshold": pen[2], "other_penalty_length_penalty": pen[3]}});
        }
        Some((Tokenizer::new(d, u, mode_of(pen)), conf))
    };
    if let Some(s) = scn {
        let mut rng = Rng::new(seed ^ 0x919);
        let mut w = charf::simple_world(false, true, &["aか".to_string(), "かa".to_string(), "々".to_string(), "aa".to_string()]);
        for (i, r) in w.sys.iter_mut().enumerate() {
            r.d = vec![if i % 2 == 0 { "N" } else { "V" }.to_string()];
        }
        let (t, conf) = open(&w, &scratch(out, "w"), &[]).expect("dictionary builds");
        for line in std::fs::read_to_string(s).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let (cf, tf) = (v["cf"].as_array().unwrap(), v["tf"].as_array().unwrap());
            let texts: Vec<String> = v["texts"].as_array().unwrap().iter().filter(|_| rng.chance(o.sample)).map(from_cps).collect();
            if texts.is_empty() {
                continue;
            }
            if let Some(ways) = make(out, &t, &conf, cf, tf) {
                for x in &texts {
                    if let Some(c) = case(&ways, &t, cf, tf, x) {
                        co.put(&c);
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(scratch(out, "w"));
    }
    for k in 0..o.worlds {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let p = Profile { users: 40, unk_heavy: rng.chance(20), delim: 8, homograph: rng.chance(30), kanji: rng.chance(30), crowd: false, kinds: true };
        let (w, mut al) = gen_world(&mut rng, &p);
        let pen: Vec<i64> = match rng.below(3) {
            0 => vec![2, 3000, 7, 1700],
            1 => vec![rng.below(4) as i64, rng.range(0, 50), rng.below(6) as i64, rng.range(0, 50)],
            _ => vec![],
        };
        let dir = scratch(out, "w");
        if let Some((t, conf)) = open(&w, &dir, &pen) {
            if rng.chance(50) {
                al.extend(charf::alphabet(&mut rng, true));
            }
            for _ in 0..o.confs {
                let mut texts: Vec<String> = vec![];
                for _ in 0..o.texts {
                    let x = if rng.chance(60) { gen_text_words(&mut rng, &w, &al, &p, 5) } else { gen_text(&mut rng, &al, &p, o.maxlen) };
                    let x = if rng.chance(15) { x + &tokf::numeral(&mut rng) } else { x };
                    texts.push(x.chars().take(o.maxlen + 8).collect());
                }
                let ks: Vec<Token> = texts.iter().filter_map(|x| plain(&t, x)).flatten().take(12).collect();
                let cf = chain(&mut rng, o.chain, &["map", "rex", "norm", "iter", "map"], |r, ks| charf::gen_filter(r, &al, ks));
                let tf = chain(&mut rng, o.chain, &tokf::ALL, |r, kinds| tokf::gen_filter(r, &ks, kinds));
                if let Some(ways) = make(out, &t, &conf, &cf, &tf) {
                    for x in &texts {
                        if let Some(c) = case(&ways, &t, &cf, &tf, x) {
                            co.put(&c);
                        }
                    }
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}
