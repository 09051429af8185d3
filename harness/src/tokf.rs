//! Token filters: chains of filters applied by the real code to sequences of tokens.
use crate::util::*;
use lindera_core::word_entry::WordId;
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use serde_json::{json, Value};
use std::path::Path;

pub fn word_id_str(w: &WordId) -> String {
    format!("{}{}", w.0, if w.1 { "S" } else { "U" })
}
pub fn tok_json(k: &Token) -> Value {
    json!({"t": cps(&k.text), "bs": k.byte_start, "be": k.byte_end, "p": k.position, "pl": k.position_length,
           "w": word_id_str(&k.word_id), "d": k.details.iter().map(|d| cps(d)).collect::<Vec<_>>()})
}
pub fn tok_from(v: &Value) -> Token {
    let w = v["w"].as_str().unwrap();
    let u = |k: &str| v[k].as_u64().unwrap() as usize;
    Token {
        text: from_cps(&v["t"]),
        byte_start: u("bs"),
        byte_end: u("be"),
        position: u("p"),
        position_length: u("pl"),
        word_id: WordId(w[..w.len() - 1].parse().unwrap(), w.ends_with('S')),
        details: v["d"].as_array().unwrap().iter().map(from_cps).collect(),
    }
}
fn strs(v: &Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(|x| json!(from_cps(x))).collect())
}
fn tags(v: &Value) -> Value {
    Value::Array(v.as_array().unwrap().iter().map(tag).collect())
}
fn tag(v: &Value) -> Value {
    json!(v.as_array().unwrap().iter().map(from_cps).collect::<Vec<_>>().join(","))
}
/// kind and JSON arguments of a filter record
pub fn filter_args(f: &Value) -> (&'static str, Value) {
    match f["k"].as_str().unwrap() {
        "keepw" => ("keep_words", json!({"words": strs(&f["words"])})),
        "stopw" => ("stop_words", json!({"words": strs(&f["words"])})),
        "len" => {
            let mut m = serde_json::Map::new();
            for k in ["min", "max"] {
                let n = f[k].as_i64().unwrap();
                if n >= 0 {
                    m.insert(k.into(), json!(n));
                }
            }
            ("length", Value::Object(m))
        }
        "jkeep" => ("japanese_keep_tags", json!({"tags": tags(&f["tags"])})),
        "jstop" => ("japanese_stop_tags", json!({"tags": tags(&f["tags"])})),
        "kkeep" => ("korean_keep_tags", json!({"tags": strs(&f["tags"])})),
        "kstop" => ("korean_stop_tags", json!({"tags": strs(&f["tags"])})),
        "lower" => ("lowercase", Value::Null),
        "upper" => ("uppercase", Value::Null),
        "kread" => ("korean_reading_form", Value::Null),
        "map" => {
            let (_, a) = crate::charf::filter_args(f);
            ("mapping", a)
        }
        "kana" => ("japanese_kana", json!({"kind": f["to"]})),
        "stem" => ("japanese_katakana_stem", if f["dflt"] == json!(true) { json!({}) } else { json!({"min": f["min"]}) }),
        "base" => ("japanese_base_form", json!({"kind": f["kind"]})),
        "read" => ("japanese_reading_form", json!({"kind": f["kind"]})),
        "comp" => {
            let mut m = json!({"kind": f["kind"], "tags": tags(&f["tags"])});
            if !f["nt"].as_array().unwrap().is_empty() {
                m["new_tag"] = tag(&f["nt"]);
            }
            ("japanese_compound_word", m)
        }
        "num" => ("japanese_number", if f["has"] == json!(true) { json!({"tags": tags(&f["tags"])}) } else { json!({}) }),
        k => panic!("filter {}", k),
    }
}
pub fn load(f: &Value) -> Result<BoxTokenFilter, String> {
    let (k, a) = filter_args(f);
    match guard("load filter", || TokenFilterLoader::load_from_value(k, &a)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("err {}", e)),
        Err(e) => Err(format!("panic {}", e)),
    }
}

// ---------------------------------------------------------------- generation
const WORDS: [&str; 14] = ["です", "ます", "Rust", "rust", "コーヒー", "コピー", "東京", "東京都", "ー", "アー", "ｶﾅ", "é", "😀", "カタカナー"];
const KANA: [char; 34] = [
    'ぁ', 'ゖ', '\u{3097}', '\u{3099}', '゛', 'ゝ', 'ゞ', 'ゟ', '゠', 'ァ', 'ヴ', 'ヶ', 'ヷ', 'ヺ', '・', 'ー', 'ヽ', 'ヾ', 'ヿ', 'か', 'が', 'カ', 'ガ', 'ん', 'ン', 'ｶ', 'ｰ', 'ㇰ', 'a', '東', '\u{3040}', '\u{3100}', 'ゔ', 'う',
];
const CASE: [char; 20] = ['a', 'Z', 'ß', 'Σ', 'σ', 'ς', 'İ', 'ı', 'ǅ', 'ﬁ', 'É', 'é', '1', 'あ', 'Ａ', 'ｚ', '𐐀', 'Ω', 'ŉ', 'ΐ'];
const NUMS: [char; 30] = [
    '0', '5', '９', '〇', '零', '一', '壱', '二', '弐', '三', '参', '四', '五', '六', '七', '八', '九', '十', '拾', '百', '千', '万', '億', '兆', '京', '垓', '1', '２', '百', '千',
];
fn digit(rng: &mut Rng, zero: bool) -> char {
    const D: [char; 27] = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '１', '２', '９', '一', '二', '三', '四', '五', '六', '七', '八', '九', '壱', '弐', '参', '６', '７', '８'];
    if zero && rng.chance(30) {
        *rng.pick(&['0', '０', '〇', '零'])
    } else {
        *rng.pick(&D)
    }
}
fn section(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(25) {
        s.push(digit(rng, false));
        for _ in 0..rng.below(4) {
            s.push(digit(rng, true));
        }
        return s;
    }
    let mut last = 4;
    for (z, us) in [(3, ['千', '千']), (2, ['百', '百']), (1, ['十', '拾'])] {
        if rng.chance(50) {
            if rng.chance(60) {
                s.push(digit(rng, false));
            }
            s.push(*rng.pick(&us));
            last = z;
        }
    }
    if last < 4 && rng.chance(60) {
        let n = if rng.chance(70) { 1 } else { 1 + rng.below(last) };
        for _ in 0..n {
            s.push(digit(rng, n > 1));
        }
    } else if last == 4 && rng.chance(70) {
        s.push(digit(rng, false));
    }
    s
}
pub fn numeral(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => (0..1 + rng.below(30)).map(|_| digit(rng, true)).collect(),
        1 => (0..1 + rng.below(6)).map(|_| *rng.pick(&NUMS)).collect(),
        2 | 3 => section(rng),
        _ => {
            let mut s = String::new();
            for u in ['垓', '京', '兆', '億', '万'] {
                if rng.chance(35) {
                    s.push_str(&section(rng));
                    s.push(u);
                }
            }
            s.push_str(&section(rng));
            s
        }
    }
}
fn tok_text(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 | 1 => rng.pick(&WORDS).to_string(),
        2 => (0..1 + rng.below(5)).map(|_| *rng.pick(&KANA)).collect(),
        3 => (0..1 + rng.below(5)).map(|_| *rng.pick(&CASE)).collect(),
        4 | 5 => {
            let mut s = String::new();
            for _ in 0..1 + rng.below(2) {
                if rng.chance(30) {
                    s.push(*rng.pick(&['第', '年', '.', ',', '点', '　', 'a', '元']));
                }
                s.push_str(&numeral(rng));
                if rng.chance(30) {
                    s.push(*rng.pick(&['円', '年', '.', ',', '点', '　', 'a', '号']));
                }
            }
            s
        }
        6 => {
            let n = rng.below(6);
            let mut s: String = (0..n).map(|_| *rng.pick(&['カ', 'ー', 'ヽ', '・', 'ァ', 'ヿ', 'カ', 'ン'])).collect();
            if rng.chance(70) {
                s.push('ー');
            }
            s
        }
        7 => (0..rng.below(3)).map(|_| *rng.pick(&crate::charf::POOL)).collect(),
        _ => rng.pick(&["ab", "abc", "a", "abcabc", "aabb", "bc"]).to_string(),
    }
}
const PARTS: [&str; 8] = ["名詞", "数", "動詞", "*", "一般", "UNK", "助詞", "JKS"];
fn details(rng: &mut Rng) -> Vec<String> {
    let n = *rng.pick(&[1usize, 1, 4, 9, 9, 9, 17, 17, 3, 2, 5, 7, 8, 0, 6, 10, 11]);
    let unk = rng.chance(12);
    if unk {
        return vec!["UNK".to_string()];
    }
    let at = if rng.chance(6) { rng.below(n.max(1)) } else { 99 };
    (0..n)
        .map(|i| if i == at { "UNK".to_string() } else if i < 4 { if rng.chance(8) { tok_text(rng).replace(',', ".") } else { rng.pick(&PARTS[..if i == 0 { 5 } else { 5 }]).to_string() } } else { tok_text(rng) })
        .collect()
}
/// a text whose length is near a power of two
fn long_text(rng: &mut Rng) -> String {
    let n = *rng.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300]);
    let b = match rng.below(3) {
        0 => "カー".to_string(),
        1 => "ab".to_string(),
        _ => tok_text(rng) + "い",
    };
    b.chars().cycle().take(n).collect()
}
pub fn gen_tokens(rng: &mut Rng, max: usize) -> Vec<Token> {
    gen_tokens_of(rng, max, false, false)
}
/// many: hundreds of tokens; far: long texts, far into a text
fn gen_tokens_of(rng: &mut Rng, max: usize, many: bool, far: bool) -> Vec<Token> {
    let n = if many { *rng.pick(&[100usize, 255, 256, 257, 300]) } else { rng.below(max + 1) };
    let (mut b, mut p) = (rng.below(2) * 7, rng.below(2) * 3);
    if far {
        b = *rng.pick(&[0, 250, 65_500, 65_530, 16_777_200, 1_000_000_000]);
        p = *rng.pick(&[0, 250, 65_530, 1_000_000]);
    }
    let common = details(rng);
    let common2 = details(rng);
    let mut v = vec![];
    for _ in 0..n {
        let t = if far && rng.chance(30) { long_text(rng) } else { tok_text(rng) };
        let pl = if far && rng.chance(10) {
            *rng.pick(&[255, 256, 300, 65_536])
        } else if rng.chance(15) { 2 } else { 1 };
        let d = match if many && rng.chance(80) { 0 } else { rng.below(3) } {
            0 => common.clone(),
            1 => common2.clone(),
            _ => details(rng),
        };
        let unk = d.first().map_or(false, |x| x == "UNK");
        v.push(Token {
            byte_start: b,
            byte_end: b + t.len(),
            text: t.clone(),
            position: p,
            position_length: pl,
            word_id: if unk { WordId(u32::MAX, true) } else { WordId(rng.below(100000) as u32, rng.chance(70)) },
            details: d,
        });
        b += t.len() + if rng.chance(10) { 3 } else { 0 };
        p += pl + if rng.chance(10) { 1 } else { 0 };
    }
    v
}
fn tag_of(rng: &mut Rng, ks: &[Token]) -> Value {
    // a tag of some token, cut short or varied, or a random one
    let mut v: Vec<String> = if !ks.is_empty() && rng.chance(75) {
        let k = rng.pick(ks);
        if k.details.len() >= 4 {
            let mut v = k.details[..4].to_vec();
            while v.last().map_or(false, |x| x == "*") && v.len() > 1 && rng.chance(70) {
                v.pop();
            }
            v
        } else {
            k.details.iter().take(1).cloned().collect()
        }
    } else {
        (0..1 + rng.below(4)).map(|_| rng.pick(&PARTS).to_string()).collect()
    };
    if rng.chance(15) && v.len() > 1 {
        v.pop();
    }
    if v.is_empty() {
        v.push("*".into());
    }
    // a tag is given as one string, its parts separated by commas
    for x in v.iter_mut() {
        *x = x.replace(',', ".");
    }
    json!(v.iter().map(|x| cps(x)).collect::<Vec<_>>())
}
fn tag_list(rng: &mut Rng, ks: &[Token]) -> Value {
    json!((0..rng.below(4)).map(|_| tag_of(rng, ks)).collect::<Vec<_>>())
}
pub fn gen_filter(rng: &mut Rng, ks: &[Token], kinds: &[&'static str]) -> Value {
    let kind = *rng.pick(&["ipadic", "ipadic", "unidic", "unidic", "ipadic-neologd", "ko-dic", "cc-cedict"]);
    match *rng.pick(kinds) {
        k @ ("keepw" | "stopw") => {
            let words: Vec<Value> = (0..rng.below(5))
                .map(|_| {
                    let w = if !ks.is_empty() && rng.chance(70) { rng.pick(ks).text.clone() } else { tok_text(rng) };
                    let w = if rng.chance(20) { w.chars().skip(1).collect() } else if rng.chance(10) { w.to_lowercase() } else { w };
                    cps(&w)
                })
                .collect();
            json!({"k": k, "words": words})
        }
        "len" => {
            let n = |rng: &mut Rng| if rng.chance(30) { -1 } else { rng.range(0, 6) };
            json!({"k": "len", "min": n(rng), "max": n(rng)})
        }
        k @ ("jkeep" | "jstop") => json!({"k": k, "tags": tag_list(rng, ks)}),
        k @ ("kkeep" | "kstop") => {
            let tags: Vec<Value> = (0..rng.below(4))
                .map(|_| if !ks.is_empty() && rng.chance(70) { cps(rng.pick(ks).details.first().map_or("", |x| x.as_str())) } else { cps(rng.pick::<&str>(&PARTS)) })
                .collect();
            json!({"k": k, "tags": tags})
        }
        k @ ("lower" | "upper" | "kread") => json!({ "k": k }),
        "map" => {
            let mut al: Vec<char> = ks.iter().flat_map(|k| k.text.chars()).filter(|c| *c != '\0').collect();
            al.extend(['a', 'b', 'c']);
            crate::charf::gen_filter(rng, &al, &["map"])
        }
        "kana" => json!({"k": "kana", "to": rng.pick(&["hiragana", "katakana"])}),
        "stem" => {
            let d = rng.chance(25);
            json!({"k": "stem", "dflt": d, "min": if d { 3 } else { rng.range(1, 5) }})
        }
        k @ ("base" | "read") => json!({"k": k, "kind": kind}),
        "comp" => {
            let nt = if rng.chance(50) { json!([]) } else { tag_of(rng, ks) };
            json!({"k": "comp", "kind": kind, "tags": tag_list(rng, ks), "nt": nt})
        }
        _ => {
            let has = rng.chance(50);
            json!({"k": "num", "has": has, "tags": if has { tag_list(rng, ks) } else { json!([]) }})
        }
    }
}

pub struct Opts {
    pub n: usize,
    pub kinds: Vec<&'static str>,
    pub any: Vec<&'static str>,
    pub sample: u64,
    pub maxtoks: usize,
}
pub const ALL: [&str; 17] = ["keepw", "stopw", "len", "jkeep", "jstop", "kkeep", "kstop", "lower", "upper", "map", "kana", "stem", "base", "read", "kread", "comp", "num"];

fn cps_sum(ks: &[Token]) -> usize {
    ks.iter().flat_map(|k| k.text.chars()).map(|c| c as usize).sum()
}
pub fn case(fs: &[Value], ks: &[Token]) -> Value {
    let k0: Vec<Value> = ks.iter().map(tok_json).collect();
    let mut cur = ks.to_vec();
    let mut st = vec![];
    for f in fs {
        let u: Vec<Value> = cur
            .iter()
            .map(|k| match f["k"].as_str().unwrap() {
                "lower" => cps(&k.text.to_lowercase()),
                "upper" => cps(&k.text.to_uppercase()),
                _ => json!([]),
            })
            .collect();
        let r = match load(f) {
            Err(e) => Err(e),
            Ok(x) => {
                let mut work = cur.clone();
                if (ks.len() + cps_sum(ks)) % 3 == 1 {
                    // a filter that has been used before, on other tokens
                    let mut other: Vec<Token> = ks.iter().rev().take(3).cloned().collect();
                    for k in other.iter_mut().take(1) {
                        k.text.push('一');
                    }
                    let _ = guard("token filter", || x.apply(&mut other));
                }
                match guard(&format!("token filter {}", f), || x.apply(&mut work)) {
                    Ok(Ok(())) => Ok(work),
                    Ok(Err(e)) => Err(format!("err {}", e)),
                    Err(e) => Err(format!("panic {}", e)),
                }
            }
        };
        match r {
            Ok(w) => {
                cur = w;
                st.push(json!({"r": "ok", "u": u, "k": cur.iter().map(tok_json).collect::<Vec<_>>()}));
            }
            Err(e) => {
                st.push(json!({"r": e, "u": u, "k": []}));
                break;
            }
        }
    }
    json!({"fs": fs, "k": k0, "st": st})
}

pub fn run(out: &Path, seed: u64, o: &Opts, scn: Option<&Path>) {
    let mut co = Out::new(out, "cases.ndjson");
    if let Some(s) = scn {
        let mut rng = Rng::new(seed ^ 0x5c5);
        for line in std::fs::read_to_string(s).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            if let Some(ts) = v["texts"].as_array() {
                // numerals: many texts at once, one token each
                let f = json!([{"k": "num", "has": false, "tags": []}]);
                let ts: Vec<&Value> = ts.iter().filter(|_| rng.chance(o.sample)).collect();
                for c in ts.chunks(40) {
                    let ks: Vec<Token> = c
                        .iter()
                        .enumerate()
                        .map(|(i, t)| Token { text: from_cps(t), byte_start: i, byte_end: i, position: i, position_length: 1, word_id: WordId(1, true), details: vec!["数".into()] })
                        .collect();
                    co.put(&case(f.as_array().unwrap(), &ks));
                }
                continue;
            }
            let fs = v["fs"].as_array().unwrap();
            if !fs.iter().any(|f| o.kinds.contains(&f["k"].as_str().unwrap())) {
                continue;
            }
            for ks in v["ks"].as_array().unwrap() {
                if rng.chance(o.sample) {
                    let ks: Vec<Token> = ks.as_array().unwrap().iter().map(tok_from).collect();
                    co.put(&case(fs, &ks));
                }
            }
        }
    }
    for k in 0..o.n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let (many, far) = (k % 90 == 7, k % 15 == 4);
        let ks = gen_tokens_of(&mut rng, o.maxtoks, many, far);
        let n = 1 + if rng.chance(35) { rng.below(3) } else { 0 };
        let at = rng.below(n);
        let fs: Vec<Value> = (0..n).map(|i| if i == at { gen_filter(&mut rng, &ks, &o.kinds) } else { gen_filter(&mut rng, &ks, &o.any) }).collect();
        let fs: Vec<Value> = if k % 30 == 11 || k % 30 == 4 { fs.into_iter().map(|f| widen(&mut rng, f, &ks)).collect() } else { fs };
        co.put(&case(&fs, &ks));
    }
}
/// the same filter with hundreds of words or tags, or with limits as long as the texts
fn widen(rng: &mut Rng, mut f: Value, ks: &[Token]) -> Value {
    let n = *rng.pick(&[20usize, 63, 64, 65, 255, 256, 257, 300]);
    let at = |rng: &mut Rng, v: &mut Vec<Value>, x: Value| {
        let i = rng.below(v.len() + 1);
        v.insert(i, x)
    };
    if f["words"].is_array() {
        let mut v = f["words"].as_array().unwrap().clone();
        while v.len() < n {
            let w = format!("{}{}", tok_text(rng), v.len());
            at(rng, &mut v, cps(&w));
        }
        f["words"] = json!(v);
    } else if f["tags"].is_array() && f["has"] != json!(false) {
        let korean = f["k"] == "kkeep" || f["k"] == "kstop";
        let mut v = f["tags"].as_array().unwrap().clone();
        while v.len() < n {
            let w = format!("{}{}", rng.pick(&PARTS), v.len());
            let x = if korean {
                cps(&w)
            } else {
                let t: Vec<Value> = (0..1 + rng.below(4)).map(|i| if i == 0 { cps(&w) } else { cps(rng.pick::<&str>(&PARTS)) }).collect();
                json!(t)
            };
            at(rng, &mut v, x);
        }
        f["tags"] = json!(v);
    } else if f["k"] == "len" && !ks.is_empty() {
        let l = rng.pick(ks).text.chars().count() as i64;
        let x = l + rng.range(-1, 1);
        let key = *rng.pick(&["min", "max"]);
        f[key] = json!(x.max(0));
    } else if f["k"] == "stem" && f["dflt"] != json!(true) && !ks.is_empty() {
        let l = rng.pick(ks).text.chars().count() as i64;
        f["min"] = json!((l + rng.range(-1, 1)).max(1));
    }
    f
}
