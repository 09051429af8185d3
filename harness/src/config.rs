//! Configurations: every way to load one, valid or not, and what was loaded.
use crate::charf::{clusters, simple_world, unicode_data};
use crate::tokf::{tok_from, tok_json};
use crate::util::*;
use crate::world::*;
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::Mode;
use lindera_core::LinderaResult;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind};
use lindera_filter::character_filter::{
    japanese_iteration_mark::JapaneseIterationMarkCharacterFilter, mapping::MappingCharacterFilter, regex::RegexCharacterFilter,
    unicode_normalize::UnicodeNormalizeCharacterFilter, BoxCharacterFilter, CharacterFilterLoader,
};
use lindera_filter::token_filter::{
    japanese_base_form::JapaneseBaseFormTokenFilter, japanese_compound_word::JapaneseCompoundWordTokenFilter, japanese_kana::JapaneseKanaTokenFilter,
    japanese_katakana_stem::JapaneseKatakanaStemTokenFilter, japanese_keep_tags::JapaneseKeepTagsTokenFilter, japanese_number::JapaneseNumberTokenFilter,
    japanese_reading_form::JapaneseReadingFormTokenFilter, japanese_stop_tags::JapaneseStopTagsTokenFilter, keep_words::KeepWordsTokenFilter,
    korean_keep_tags::KoreanKeepTagsTokenFilter, korean_stop_tags::KoreanStopTagsTokenFilter, length::LengthTokenFilter,
    mapping::MappingTokenFilter, stop_words::StopWordsTokenFilter, BoxTokenFilter, TokenFilterLoader,
};
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::str::FromStr;

// ---------------------------------------------------------------- values as the specification sees them
pub fn decode(v: &Value) -> Option<Value> {
    let text = |s: &Value, u: &Value| -> String {
        match u.as_array() {
            Some(a) if !a.is_empty() => from_cps(u),
            _ => s.as_str().unwrap().to_string(),
        }
    };
    Some(match v["j"].as_str().unwrap() {
        "none" => return None,
        "null" => Value::Null,
        "bool" => v["b"].clone(),
        "int" => v["n"].clone(),
        "big" => json!(5_000_000_000u64),
        "float" => json!(1.5),
        "str" => json!(text(&v["s"], &v["u"])),
        "arr" => Value::Array(v["a"].as_array().unwrap().iter().map(|x| decode(x).unwrap()).collect()),
        _ => Value::Object(v["f"].as_array().unwrap().iter().map(|f| (text(&f["k"], &f["u"]), decode(&f["v"]).unwrap())).collect()),
    })
}
fn name(s: &str) -> String {
    s.replace('\0', "NUL")
}
pub fn encode(v: &Value) -> Value {
    match v {
        Value::Null => json!({"j": "null"}),
        Value::Bool(b) => json!({"j": "bool", "b": b}),
        Value::Number(n) => match n.as_i64() {
            Some(i) if i.abs() < 1 << 31 => json!({"j": "int", "n": i}),
            Some(i) if i > 0 => json!({"j": "big"}),
            _ => json!({"j": "float"}),
        },
        Value::String(s) => json!({"j": "str", "s": name(s), "u": cps(s)}),
        Value::Array(a) => json!({"j": "arr", "a": a.iter().map(encode).collect::<Vec<_>>()}),
        Value::Object(o) => json!({"j": "obj", "f": o.iter().map(|(k, v)| json!({"k": name(k), "u": cps(k), "v": encode(v)})).collect::<Vec<_>>()}),
    }
}
fn encode_opt(v: &Option<Value>) -> Value {
    v.as_ref().map_or(json!({"j": "none"}), encode)
}

// ---------------------------------------------------------------- the environment: dictionaries A and B, user dictionaries
pub struct Env {
    dir: PathBuf,
}
impl Env {
    pub fn new(dir: &Path) -> Env {
        std::fs::create_dir_all(dir).unwrap();
        for n in ["A", "B"] {
            let mut w = simple_world(false, true, &["あい".to_string()]);
            w.sys[0].d = vec![n.to_string()];
            w.build(&dir.join(n)).unwrap();
        }
        let csv = dir.join("user.csv");
        std::fs::write(&csv, "ゆうざ,カスタム,ユウザ\n").unwrap();
        DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic).unwrap().build_user_dictionary(&csv, &dir.join("user.bin")).unwrap();
        std::fs::write(dir.join("bad.csv"), "ゆうざ,カスタム\n").unwrap();
        std::fs::write(dir.join("bad.bin"), [7u8, 0, 0, 0]).unwrap();
        std::fs::copy(&csv, dir.join("user.txt")).unwrap();
        std::fs::copy(&csv, dir.join("user")).unwrap();
        Env { dir: dir.to_path_buf() }
    }
    fn path(&self, s: &str) -> String {
        let p = match s {
            "@A" => self.dir.join("A").join("dic"),
            "@B" => self.dir.join("B").join("dic"),
            _ => self.dir.join(&s[1..]),
        };
        p.to_str().unwrap().to_string()
    }
    /// the value with its symbolic paths replaced
    pub fn real(&self, v: &Value) -> Value {
        match v {
            Value::String(s) if s.starts_with('@') => json!(self.path(s)),
            Value::Array(a) => Value::Array(a.iter().map(|x| self.real(x)).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), self.real(v))).collect()),
            _ => v.clone(),
        }
    }
}

// ---------------------------------------------------------------- filters
enum F {
    C(BoxCharacterFilter),
    T(BoxTokenFilter),
}
fn from_slice(fam: &str, kind: &str, b: &[u8]) -> Option<LinderaResult<F>> {
    macro_rules! c {
        ($t:ident) => {
            $t::from_slice(b).map(|x| F::C(BoxCharacterFilter::from(x)))
        };
    }
    macro_rules! t {
        ($t:ident) => {
            $t::from_slice(b).map(|x| F::T(BoxTokenFilter::from(x)))
        };
    }
    Some(match (fam, kind) {
        ("char", "mapping") => c!(MappingCharacterFilter),
        ("char", "regex") => c!(RegexCharacterFilter),
        ("char", "unicode_normalize") => c!(UnicodeNormalizeCharacterFilter),
        ("char", "japanese_iteration_mark") => c!(JapaneseIterationMarkCharacterFilter),
        ("token", "keep_words") => t!(KeepWordsTokenFilter),
        ("token", "stop_words") => t!(StopWordsTokenFilter),
        ("token", "length") => t!(LengthTokenFilter),
        ("token", "japanese_keep_tags") => t!(JapaneseKeepTagsTokenFilter),
        ("token", "japanese_stop_tags") => t!(JapaneseStopTagsTokenFilter),
        ("token", "korean_keep_tags") => t!(KoreanKeepTagsTokenFilter),
        ("token", "korean_stop_tags") => t!(KoreanStopTagsTokenFilter),
        ("token", "mapping") => t!(MappingTokenFilter),
        ("token", "japanese_kana") => t!(JapaneseKanaTokenFilter),
        ("token", "japanese_katakana_stem") => t!(JapaneseKatakanaStemTokenFilter),
        ("token", "japanese_base_form") => t!(JapaneseBaseFormTokenFilter),
        ("token", "japanese_reading_form") => t!(JapaneseReadingFormTokenFilter),
        ("token", "japanese_compound_word") => t!(JapaneseCompoundWordTokenFilter),
        ("token", "japanese_number") => t!(JapaneseNumberTokenFilter),
        _ => return None,
    })
}
fn probes() -> Vec<String> {
    ["", "aab(ab) éいb", "い々時々かゝ", "①ﬁe\u{301}ガ", "ab,a\n"].iter().map(|s| s.to_string()).collect()
}
fn probe_tokens(base: &Value) -> Vec<Value> {
    let mut words: Vec<String> = vec!["a".into(), "ABc".into(), "カタナー".into(), "アー".into(), "かなカナ".into(), "二百三".into(), "b".into()];
    fn strings(v: &Value, out: &mut Vec<String>) {
        match v {
            Value::String(s) => out.push(s.clone()),
            Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
            Value::Object(o) => o.iter().for_each(|(k, x)| {
                out.push(k.clone());
                strings(x, out)
            }),
            _ => {}
        }
    }
    strings(base, &mut words);
    words.truncate(14);
    let details: Vec<Vec<String>> = {
        let d = |n: usize, h: &str| -> Vec<String> {
            let mut v: Vec<String> = h.split(',').map(|x| x.to_string()).collect();
            v.truncate(4);
            while v.len() < n {
                v.push(if v.len() < 4 { "*".into() } else { format!("x{}", v.len()) });
            }
            v
        };
        let mut out = vec![d(17, "a"), d(17, "a"), d(9, "a,b"), d(17, "a,b,c,d"), d(9, "a,b,c,d"), vec!["UNK".to_string()], d(4, "a"), d(17, "b")];
        for w in &words[7..] {
            if !w.is_empty() {
                out.push(d(9, w));
            }
        }
        out
    };
    let mut v = vec![];
    let mut b = 0;
    for (i, w) in words.iter().enumerate() {
        let d = &details[i % details.len()];
        v.push(json!({"t": cps(w), "bs": b, "be": b + w.len(), "p": i, "pl": 1, "w": format!("{}S", i), "d": d.iter().map(|x| cps(x)).collect::<Vec<_>>()}));
        b += w.len();
    }
    v
}
fn outcome<T>(what: &str, f: impl FnOnce() -> LinderaResult<T>) -> (String, Option<T>) {
    match guard(what, f) {
        Ok(Ok(x)) => ("ok".into(), Some(x)),
        Ok(Err(_)) => ("err".into(), None),
        Err(_) => ("panic".into(), None),
    }
}
fn route(n: &str, r: (String, Option<F>), texts: &[String], ks: &[Value]) -> Value {
    let mut o = json!({"n": n, "r": r.0, "name": "", "o": [], "pr": "ok"});
    match &r.1 {
        Some(F::C(f)) => {
            o["name"] = json!(f.name());
            let mut outs = vec![];
            for t in texts {
                match guard("probe", || f.apply(t)) {
                    Ok(Ok((x, _, _))) => outs.push(cps(&x)),
                    _ => o["pr"] = json!("bad"),
                }
            }
            o["o"] = json!(outs);
        }
        Some(F::T(f)) => {
            o["name"] = json!(f.name());
            let mut v: Vec<_> = ks.iter().map(tok_from).collect();
            match guard("probe", || f.apply(&mut v)) {
                Ok(Ok(())) => o["o"] = json!(v.iter().map(tok_json).collect::<Vec<_>>()),
                _ => o["pr"] = json!("bad"),
            }
        }
        None => {}
    }
    o
}
fn filter_case(fam: &str, kind: &str, args: &Option<Value>) -> Value {
    let a = args.clone().unwrap_or(Value::Null);
    let texts = if fam == "char" { probes() } else { vec![] };
    let ks = if fam == "token" { probe_tokens(&a) } else { vec![] };
    let what = format!("load {} filter {:?} {}", fam, kind, a);
    let value = || -> LinderaResult<F> {
        if fam == "char" {
            CharacterFilterLoader::load_from_value(kind, &a).map(F::C)
        } else {
            TokenFilterLoader::load_from_value(kind, &a).map(F::T)
        }
    };
    let flag = |s: &str| -> LinderaResult<F> {
        if fam == "char" {
            CharacterFilterLoader::load_from_cli_flag(s).map(F::C)
        } else {
            TokenFilterLoader::load_from_cli_flag(s).map(F::T)
        }
    };
    let mut rt = vec![route("value", outcome(&what, value), &texts, &ks)];
    if !kind.contains(':') {
        match args {
            None => {
                rt.push(route("flag", outcome(&what, || flag(kind)), &texts, &ks));
                rt.push(route("flag", outcome(&what, || flag(&format!("{}:", kind))), &texts, &ks));
            }
            Some(a) => rt.push(route("flag", outcome(&what, || flag(&format!("{}:{}", kind, a))), &texts, &ks)),
        }
    }
    if args.is_some() {
        let b = serde_json::to_vec(&a).unwrap();
        if from_slice(fam, kind, b"{").is_some() {
            rt.push(route("slice", outcome(&what, || from_slice(fam, kind, &b).unwrap()), &texts, &ks));
        }
    }
    let (nd, np) = if kind == "unicode_normalize" { unicode_data(&texts) } else { (json!([]), json!([])) };
    let us: Vec<Value> = ks
        .iter()
        .map(|k| match kind {
            "lowercase" => cps(&from_cps(&k["t"]).to_lowercase()),
            "uppercase" => cps(&from_cps(&k["t"]).to_uppercase()),
            _ => json!([]),
        })
        .collect();
    json!({"t": "filter", "fam": fam, "kind": kind, "v": encode(&a), "rt": rt, "texts": texts.iter().map(|x| json!({"t": cps(x), "g": clusters(x)})).collect::<Vec<_>>(),
           "nd": nd, "np": np, "ks": ks, "us": us})
}
/// arguments that are not JSON: always an error
fn malformed_case(fam: &str, kind: &str, text: &[u8]) -> Value {
    let what = format!("load {} filter {:?} malformed", fam, kind);
    let mut rt = vec![];
    if let Ok(s) = std::str::from_utf8(text) {
        let f = format!("{}:{}", kind, s);
        let r = if fam == "char" {
            outcome(&what, || CharacterFilterLoader::load_from_cli_flag(&f).map(F::C))
        } else {
            outcome(&what, || TokenFilterLoader::load_from_cli_flag(&f).map(F::T))
        };
        rt.push(json!({"n": "flag", "r": r.0}));
    }
    if from_slice(fam, kind, b"{").is_some() {
        rt.push(json!({"n": "slice", "r": outcome(&what, || from_slice(fam, kind, text).unwrap()).0}));
    }
    json!({"t": "malformed", "fam": fam, "kind": kind, "text": text, "rt": rt})
}

// ---------------------------------------------------------------- tokenizers and analyzers
fn pen(m: &Mode) -> Value {
    match m {
        Mode::Normal => json!([]),
        Mode::Decompose(p) => json!([
            p.kanji_penalty_length_threshold.min(i32::MAX as usize),
            p.kanji_penalty_length_penalty,
            p.other_penalty_length_threshold.min(i32::MAX as usize),
            p.other_penalty_length_penalty
        ]),
    }
}
fn loaded(t: &Tokenizer) -> Value {
    // which dictionary: the detail of a word; the user dictionary: it has its word
    let d = guard("which dictionary", || t.tokenize("枠").ok().and_then(|mut v| v.get_mut(0).and_then(|k| k.get_details().map(|d| d[0].to_string())))).ok().flatten();
    // (whether it is chosen depends on the penalties)
    let u = guard("which user dictionary", || t.user_dictionary.as_ref().map_or(0, |u| u.dict.find_surface("ゆうざ").len())).unwrap_or(0) == 1;
    json!({"dic": format!("@{}", d.unwrap_or_default()), "user": u, "mode": pen(&t.mode)})
}
const NOTHING: &str = r#"{"dic": "", "user": false, "mode": []}"#;
fn tokenizer_case(env: &Env, v: &Value) -> Value {
    let txt = env.real(v).to_string();
    let what = format!("tokenizer {}", v);
    let mut rt = vec![];
    let mut put = |n: &str, c: Result<Option<TokenizerConfig>, String>| {
        let (r, t) = match c {
            Ok(Some(c)) => outcome(&what, || Tokenizer::from_config(c)),
            Ok(None) => ("err".into(), None),
            Err(_) => ("panic".into(), None),
        };
        let l = t.map(|t| loaded(&t)).unwrap_or_else(|| serde_json::from_str(NOTHING).unwrap());
        rt.push(json!({"n": n, "r": r, "l": l}));
    };
    let c = guard(&what, || serde_json::from_str::<TokenizerConfig>(&txt).ok());
    let read = c.clone().ok().flatten();
    put("text", c);
    if let Some(c) = read {
        // serialized and read back, as a map and as a sequence
        put("json", guard(&what, || serde_json::from_str(&serde_json::to_string_pretty(&c).unwrap()).ok()));
        put("bincode", guard(&what, || bincode::deserialize(&bincode::serialize(&c).unwrap()).ok()));
    }
    json!({"t": "tokenizer", "v": encode(v), "rt": rt})
}
/// A setting that is given twice.
fn repeated_case(env: &Env, rng: &mut Rng, v: &Value) -> Option<Value> {
    let v = env.real(v);
    let o = v.as_object().filter(|o| !o.is_empty())?;
    let ks: Vec<&String> = o.keys().collect();
    let deep = |k: &str| o[k].as_object().map_or(false, |x| x.len() > 0) && k != "mode";
    let twice = (*rng.pick(&ks)).clone();
    let body = |o: &serde_json::Map<String, Value>, k: &str| {
        let mut items: Vec<String> = o.iter().map(|(n, x)| format!("{}: {}", json!(n), x)).collect();
        items.push(format!("{}: {}", json!(k), o[k]));
        items.rotate_left(o.len() % 2);
        format!("{{{}}}", items.join(", "))
    };
    let txt = if deep(&twice) && rng.chance(50) {
        let x = o[&twice].as_object().unwrap();
        let ks: Vec<&String> = x.keys().filter(|k| ["kind", "path"].contains(&k.as_str())).collect();
        if ks.is_empty() {
            return None;
        }
        let inner = body(x, *rng.pick(&ks));
        let items: Vec<String> = o.iter().map(|(n, y)| format!("{}: {}", json!(n), if *n == twice { inner.clone() } else { y.to_string() })).collect();
        format!("{{{}}}", items.join(", "))
    } else {
        body(o, &twice)
    };
    let r = match guard("repeated", || serde_json::from_str::<TokenizerConfig>(&txt).is_ok()) {
        Ok(true) => "ok",
        Ok(false) => "err",
        Err(_) => "panic",
    };
    Some(json!({"t": "malformed", "fam": "", "kind": "", "text": cps(&txt), "rt": [{"n": "text", "r": r}]}))
}
fn analyzer_case(env: &Env, rng: &mut Rng, v: &Option<Value>) -> Value {
    let bad: [&[u8]; 6] = [b"", b"{", b"{\"tokenizer\":", b"{\"tokenizer\": \"\xff\"}", b"{} x", b"nul"];
    let bytes = match v {
        Some(v) => serde_json::to_vec(&env.real(v)).unwrap(),
        None => rng.pick(&bad).to_vec(),
    };
    let what = format!("analyzer {}", v.clone().unwrap_or_default());
    let file = env.dir.join("config.json");
    std::fs::write(&file, &bytes).unwrap();
    let mut rt = vec![];
    for way in ["slice", "file"] {
        let (r, a) = outcome(&what, || {
            let c = if way == "slice" { AnalyzerConfig::from_slice(&bytes)? } else { AnalyzerConfig::from_file(&file)? };
            Analyzer::from_config(&c)
        });
        let mut built: Vec<String> = vec![];
        let mut l: Value = serde_json::from_str(NOTHING).unwrap();
        if let Some(a) = &a {
            for a in [a, &a.clone()] {
                let mut b: Vec<String> = a.character_filters.iter().map(|f| format!("char:{}", f.name())).collect();
                b.push("tokenizer".into());
                b.extend(a.token_filters.iter().map(|f| format!("token:{}", f.name())));
                if !built.is_empty() && built != b {
                    b.push("clone".into());
                }
                built = b;
            }
            l = loaded(&a.tokenizer);
        }
        rt.push(json!({"n": way, "r": r, "built": built, "l": l}));
    }
    let _ = std::fs::remove_file(&file);
    json!({"t": "analyzer", "v": encode_opt(v), "rt": rt})
}
fn name_case(s: &str) -> Value {
    let m = match guard("mode", || Mode::from_str(s)) {
        Ok(Ok(m)) => json!({"r": "ok", "m": pen(&m)}),
        Ok(Err(_)) => json!({"r": "err", "m": []}),
        Err(_) => json!({"r": "panic", "m": []}),
    };
    let k = match guard("kind", || DictionaryKind::from_str(s)) {
        Ok(Ok(k)) => json!({"r": "ok", "s": k.as_str()}),
        Ok(Err(_)) => json!({"r": "err", "s": ""}),
        Err(_) => json!({"r": "panic", "s": ""}),
    };
    json!({"t": "name", "s": s, "mode": m, "kind": k})
}

// ---------------------------------------------------------------- random configurations
fn any_value(rng: &mut Rng, pool: &[Value]) -> Value {
    match rng.below(12) {
        0 => Value::Null,
        1 => json!(rng.chance(50)),
        2 => json!(rng.range(-3, 4)),
        3 => json!(*rng.pick(&[i32::MAX as i64, i32::MIN as i64 + 1, 5_000_000_000, -5_000_000_000])),
        4 => json!(1.5),
        5 => json!(*rng.pick(&["", "a", "normal", "decompose", "nfc", "unidic", "ipadic", "lowercase", "a,b,c,d,e", "é", "@A", "@user.csv", "\0"])),
        6 => json!([]),
        7 => json!({}),
        _ => rng.pick(pool).clone(),
    }
}
/// Another spelling of a name.
fn respell(rng: &mut Rng, s: &str) -> String {
    let n = s.chars().count();
    let at = rng.below(n + 1);
    match rng.below(12) {
        0 => s.to_uppercase(),
        1 => s.chars().enumerate().map(|(i, c)| if i == 0 || rng.chance(10) { c.to_ascii_uppercase() } else { c }).collect(),
        2 => format!("{} ", s),
        3 => format!(" {}", s),
        4 => s.replace('_', "-"),
        5 => s.replace('-', "_"),
        6 => s.chars().filter(|c| c.is_ascii_alphanumeric()).collect(),
        7 => s.split(|c| c == '_' || c == '-').map(|w| w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect::<String>()).collect(),
        8 => s.chars().take(at).collect(),
        9 => s.chars().skip(at).collect(),
        10 => s.chars().enumerate().filter(|x| x.0 != at).map(|x| x.1).collect(),
        _ => format!("{}{}", s, rng.pick(&["s", "_filter", "\0", "\n", ".", "é", "2"])),
    }
}
/// one change somewhere inside the value
fn mutate(rng: &mut Rng, v: &mut Value, pool: &[Value]) {
    let deeper = rng.chance(75);
    match v {
        Value::Array(a) if deeper && !a.is_empty() => {
            let i = rng.below(a.len());
            mutate(rng, &mut a[i], pool);
        }
        Value::Object(o) if deeper && !o.is_empty() => {
            let k = o.keys().nth(rng.below(o.len())).unwrap().clone();
            mutate(rng, &mut o[&k], pool);
        }
        Value::Array(a) => match rng.below(4) {
            0 if !a.is_empty() => {
                let i = rng.below(a.len());
                a.remove(i);
            }
            1 if !a.is_empty() => {
                let i = rng.below(a.len());
                let x = a[i].clone();
                a.insert(i, x);
            }
            2 if a.len() > 1 => {
                let n = a.len();
                a.swap(0, n - 1);
            }
            _ => {
                let i = rng.below(a.len() + 1);
                a.insert(i, any_value(rng, pool));
            }
        },
        Value::Object(o) => match rng.below(4) {
            0 if !o.is_empty() => {
                let k = o.keys().nth(rng.below(o.len())).unwrap().clone();
                o.remove(&k);
            }
            1 if !o.is_empty() => {
                // a key with another name
                let k = o.keys().nth(rng.below(o.len())).unwrap().clone();
                let x = o.remove(&k).unwrap();
                let k2 = match rng.below(4) {
                    0 => k.to_uppercase(),
                    1 if rng.chance(50) => respell(rng, &k),
                    1 => format!("{}s", k),
                    2 => k.chars().skip(1).collect(),
                    _ => k.replace('_', "-"),
                };
                o.insert(k2, x);
            }
            2 => {
                o.insert(rng.pick(&["extra", "mode", "kind", "path", "args", "min", "tags"]).to_string(), any_value(rng, pool));
            }
            _ => *v = any_value(rng, pool),
        },
        Value::String(s) if rng.chance(50) => *s = respell(rng, s),
        _ => *v = any_value(rng, pool),
    }
}

pub fn run(out: &Path, seed: u64, n: usize, scn: Option<&Path>, sample: u64) {
    let env = Env::new(&scratch(out, "env"));
    let mut co = Out::new(out, "cases.ndjson");
    let mut filters: Vec<(String, String, Value)> = vec![];
    let mut toks: Vec<Value> = vec![];
    let mut ans: Vec<Value> = vec![];
    let mut rng = Rng::new(seed ^ 0xc0f);
    if let Some(s) = scn {
        for line in std::fs::read_to_string(s).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let x = decode(&v["v"]);
            let keep = rng.chance(sample);
            match v["t"].as_str().unwrap() {
                "filter" => {
                    let (fam, kind) = (v["fam"].as_str().unwrap(), v["kind"].as_str().unwrap());
                    if keep || x.is_none() {
                        co.put(&filter_case(fam, kind, &x));
                    }
                    if x.is_none() {
                        let bad: [&[u8]; 7] = [b"{", b"{\"kind\": }", b"[", b"nul", b"{} {}", b"{\"words\": [\"a]}", b"\xff{}"];
                        for b in bad {
                            co.put(&malformed_case(fam, kind, b));
                        }
                    }
                    if let Some(x) = x {
                        filters.push((fam.into(), kind.into(), x));
                    }
                }
                "tokenizer" => {
                    let x = x.unwrap();
                    if keep {
                        co.put(&tokenizer_case(&env, &x));
                    }
                    toks.push(x);
                }
                _ => {
                    if keep {
                        co.put(&analyzer_case(&env, &mut rng, &x));
                    }
                    ans.extend(x);
                }
            }
        }
    }
    for s in [
        "normal", "decompose", "", "Normal", "NORMAL", "search", "normal ", " decompose", "norma", "decompose:", "ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict", "IPADIC", "UniDic", "kodic",
        "ko_dic", "cc-cedic", "ipadic-neologd ", "ipadic_neologd", "cccedict", "\u{0}",
    ] {
        co.put(&name_case(s));
    }
    for _ in 0..40 {
        let n = *rng.pick(&["normal", "decompose", "ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"]);
        co.put(&name_case(&respell(&mut rng, n)));
    }
    // every filter by another name
    let mut names: Vec<(String, String, Value)> = vec![];
    for f in &filters {
        if !names.iter().any(|x| x.0 == f.0 && x.1 == f.1) && guard("load", || if f.0 == "char" { CharacterFilterLoader::load_from_value(&f.1, &f.2).is_ok() } else { TokenFilterLoader::load_from_value(&f.1, &f.2).is_ok() }) == Ok(true) {
            names.push(f.clone());
        }
    }
    for (fam, kind, v) in names {
        for _ in 0..6 {
            co.put(&filter_case(&fam, &respell(&mut rng, &kind), &Some(v.clone())));
        }
    }
    // the file is missing, or a directory
    for p in ["missing.json", "A"] {
        let r = outcome("config file", || AnalyzerConfig::from_file(&env.dir.join(p)));
        co.put(&json!({"t": "malformed", "fam": "", "kind": "", "text": [], "rt": [{"n": "file", "r": r.0}]}));
    }
    if filters.is_empty() {
        return;
    }
    let pool: Vec<Value> = filters.iter().map(|f| f.2.clone()).chain(toks.iter().cloned()).collect();
    for k in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        match rng.below(3) {
            0 => {
                let (fam, mut kind, mut v) = rng.pick(&filters).clone();
                if rng.chance(15) {
                    kind = respell(&mut rng, &kind);
                    co.put(&filter_case(&fam, &kind, &Some(v)));
                    continue;
                }
                for _ in 0..1 + rng.below(2) {
                    mutate(&mut rng, &mut v, &pool);
                }
                co.put(&filter_case(&fam, &kind, &Some(v)));
            }
            1 => {
                let mut v = rng.pick(&toks).clone();
                for _ in 0..rng.below(3) {
                    mutate(&mut rng, &mut v, &pool);
                }
                co.put(&tokenizer_case(&env, &v));
                if rng.chance(30) {
                    if let Some(c) = repeated_case(&env, &mut rng, &v) {
                        co.put(&c);
                    }
                }
            }
            _ => {
                let mut list = |rng: &mut Rng, fam: &str| -> Value {
                    let fs: Vec<&(String, String, Value)> = filters.iter().filter(|f| f.0 == fam).collect();
                    (0..rng.below(4))
                        .filter_map(|_| {
                            // mostly filters that load
                            for _ in 0..6 {
                                let f = rng.pick(&fs);
                                let ok = if fam == "char" { guard("load", || CharacterFilterLoader::load_from_value(&f.1, &f.2).is_ok()) } else { guard("load", || TokenFilterLoader::load_from_value(&f.1, &f.2).is_ok()) };
                                if ok == Ok(true) || rng.chance(3) {
                                    return Some(json!({"kind": f.1, "args": f.2}));
                                }
                            }
                            None
                        })
                        .collect()
                };
                let (c, t) = (list(&mut rng, "char"), list(&mut rng, "token"));
                let mut v = json!({"character_filters": c, "tokenizer": if rng.chance(60) { json!({"dictionary": {"path": "@B"}, "mode": "normal"}) } else { rng.pick(&toks).clone() }, "token_filters": t});
                for _ in 0..rng.below(3) {
                    mutate(&mut rng, &mut v, &pool);
                }
                co.put(&analyzer_case(&env, &mut rng, &Some(v)));
            }
        }
    }
}
