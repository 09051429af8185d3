//! A "world": dictionary sources, from which real dictionaries are built, and which the specification reads.
use crate::util::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::LinderaResult;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use serde_json::{json, Value};
use std::fs;
use std::path::Path;
use std::str::FromStr;

#[derive(Clone, Debug)]
pub struct Row {
    pub s: String,
    pub l: i64,
    pub r: i64,
    pub c: i64,
    pub d: Vec<String>,
    pub simple: bool, // user rows only: three-column form, `raw` holds columns 2 and 3
    pub raw: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Cat {
    pub n: String,
    pub inv: bool,
    pub grp: bool,
}
#[derive(Clone, Debug)]
pub struct Range {
    pub lo: u32,
    pub hi: u32,
    pub cs: Vec<usize>, // indexes into cats
}
#[derive(Clone, Debug)]
pub struct Unk {
    pub k: usize,
    pub l: i64,
    pub r: i64,
    pub c: i64,
}
#[derive(Clone, Debug)]
pub struct World {
    pub kind: String,
    pub sys: Vec<Row>,
    pub usr: Vec<Row>,
    pub hasu: bool,
    pub cats: Vec<Cat>,
    pub rng: Vec<Range>,
    pub unk: Vec<Unk>,
    pub mat: Vec<Vec<i64>>, // [right id of the left word][left id of the right word]
    pub files: usize,
    pub layout: u64, // seed for the order of lines in the source files
    pub pad: Pad,
}

/// What else is written to the sources, without any effect on texts that contain no filler character: rows
/// of filler surfaces, categories without characters, and context ids with gaps between them.
#[derive(Clone, Debug, Default)]
pub struct Pad {
    pub sys: usize,
    pub usr: usize,
    pub cats: usize,
    pub right: Vec<i64>, // id of the matrix -> id in the sources; empty: the same
    pub left: Vec<i64>,
}
pub fn filler(i: usize) -> String {
    let mut s = String::from(if i % 2 == 0 { "Б" } else { "龠" });
    for d in i.to_string().bytes() {
        s.push(['б', 'в', 'г', 'д', 'ж', 'з', 'и', 'к', 'л', 'м'][(d - b'0') as usize]);
    }
    s
}
impl Pad {
    pub fn spread(rng: &mut Rng, n: usize, to: usize) -> Vec<i64> {
        let mut v: Vec<i64> = vec![0];
        while v.len() < n {
            let x = if v.len() == 1 { to - 1 } else { 1 + rng.below(to - 1) } as i64;
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v
    }
    fn r(&self, r: i64) -> i64 {
        *self.right.get(r as usize).unwrap_or(&r)
    }
    fn l(&self, l: i64) -> i64 {
        *self.left.get(l as usize).unwrap_or(&l)
    }
}

pub const KINDS: [&str; 5] = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];

pub fn kind(k: &str) -> DictionaryKind {
    DictionaryKind::from_str(k).unwrap()
}
pub fn unk_fields(k: &str) -> usize {
    match k {
        "ipadic" | "ipadic-neologd" => 11,
        "unidic" | "cc-cedict" => 10,
        _ => 12,
    }
}
pub fn detailed_fields(k: &str) -> usize {
    match k {
        "ipadic" | "ipadic-neologd" => 13,
        "unidic" => 21,
        _ => 12,
    }
}

fn row_json(r: &Row) -> Value {
    json!({"s": cps(&r.s), "l": r.l, "r": r.r, "c": r.c, "d": r.d, "m": r.simple, "w": r.raw})
}
fn row_from(v: &Value) -> Row {
    let strs = |x: &Value| -> Vec<String> {
        x.as_array()
            .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
            .unwrap_or_default()
    };
    Row {
        s: from_cps(&v["s"]),
        l: v["l"].as_i64().unwrap(),
        r: v["r"].as_i64().unwrap(),
        c: v["c"].as_i64().unwrap(),
        d: strs(&v["d"]),
        simple: v["m"].as_bool().unwrap_or(false),
        raw: strs(&v["w"]),
    }
}

impl World {
    pub fn to_json(&self) -> Value {
        json!({
            "kind": self.kind,
            "sys": self.sys.iter().map(row_json).collect::<Vec<_>>(),
            "usr": self.usr.iter().map(row_json).collect::<Vec<_>>(),
            "hasu": self.hasu,
            "cats": self.cats.iter().map(|c| json!({"n": c.n, "inv": c.inv, "grp": c.grp})).collect::<Vec<_>>(),
            "rng": self.rng.iter().map(|r| json!({"lo": r.lo, "hi": r.hi, "cs": r.cs.iter().map(|c| c + 1).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "unk": self.unk.iter().map(|u| json!({"k": u.k + 1, "l": u.l, "r": u.r, "c": u.c})).collect::<Vec<_>>(),
            "mat": self.mat,
        })
    }
    pub fn from_json(v: &Value) -> World {
        World {
            kind: v["kind"].as_str().unwrap_or("unidic").to_string(),
            sys: v["sys"].as_array().unwrap().iter().map(row_from).collect(),
            usr: v["usr"].as_array().unwrap().iter().map(row_from).collect(),
            hasu: v["hasu"].as_bool().unwrap(),
            cats: v["cats"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| Cat {
                    n: c["n"].as_str().unwrap().to_string(),
                    inv: c["inv"].as_bool().unwrap(),
                    grp: c["grp"].as_bool().unwrap(),
                })
                .collect(),
            rng: v["rng"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| Range {
                    lo: c["lo"].as_u64().unwrap() as u32,
                    hi: c["hi"].as_u64().unwrap() as u32,
                    cs: c["cs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect(),
                })
                .collect(),
            unk: v["unk"]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| Unk {
                    k: c["k"].as_u64().unwrap() as usize - 1,
                    l: c["l"].as_i64().unwrap(),
                    r: c["r"].as_i64().unwrap(),
                    c: c["c"].as_i64().unwrap(),
                })
                .collect(),
            mat: v["mat"]
                .as_array()
                .unwrap()
                .iter()
                .map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())
                .collect(),
            files: 1,
            layout: 1,
            pad: Pad::default(),
        }
    }

    fn enc(&self, s: &str) -> Vec<u8> {
        if self.kind == "ipadic" {
            encoding_rs::EUC_JP.encode(s).0.into_owned()
        } else {
            s.as_bytes().to_vec()
        }
    }

    /// Write the source files of the system dictionary.
    pub fn write_src(&self, dir: &Path) {
        fs::create_dir_all(dir).unwrap();
        let mut rng = Rng::new(self.layout);
        // CSV files
        let n = self.files.max(1);
        let mut files = vec![String::new(); n];
        for (i, r) in self.sys.iter().enumerate() {
            let mut f = vec![r.s.clone(), self.pad.l(r.l).to_string(), self.pad.r(r.r).to_string(), r.c.to_string()];
            f.extend(r.d.iter().cloned());
            files[i % n].push_str(&csv_line(&f));
            if self.pad.sys > 0 {
                // rows of one file are equally wide
                let per = self.pad.sys / self.sys.len();
                for j in i * per..(i + 1) * per {
                    let mut f = vec![filler(j), "0".into(), "0".into(), (j % 30000).to_string()];
                    f.extend((0..r.d.len()).map(|k| format!("f{}", j + k)));
                    files[i % n].push_str(&csv_line(&f));
                }
            }
        }
        for (i, f) in files.iter().enumerate() {
            fs::write(dir.join(format!("w{}.csv", i)), self.enc(f)).unwrap();
        }
        fs::write(dir.join("char.def"), self.enc(&self.char_def())).unwrap();
        fs::write(dir.join("unk.def"), self.enc(&self.unk_def())).unwrap();
        // matrix: lines in any order, pairs of cost 32767 may be left out
        let mut lines = vec![];
        for (f, row) in self.mat.iter().enumerate() {
            for (b, c) in row.iter().enumerate() {
                if *c == 32767 && rng.chance(70) {
                    continue;
                }
                lines.push(format!("{} {} {}\n", self.pad.r(f as i64), self.pad.l(b as i64), c));
            }
        }
        rng.shuffle(&mut lines);
        let top = |v: &Vec<i64>, n: usize| v.iter().max().map(|m| *m as usize + 1).unwrap_or(n);
        let text = format!("{} {}\n{}", top(&self.pad.right, self.mat.len()), top(&self.pad.left, self.mat[0].len()), lines.concat());
        fs::write(dir.join("matrix.def"), text).unwrap();
    }

    pub fn char_def(&self) -> String {
        let mut s = String::from("# categories\n\n");
        for i in 0..self.pad.cats {
            s.push_str(&format!("FILLER{} 0 1 0\n", i));
        }
        for c in &self.cats {
            // the length is read but means nothing to the segmentation
            let len = [0, 0, 1, 2, 3, 10][(c.n.len() * 7 + self.cats.len() * 3 + self.rng.len() + self.sys.len()) % 6];
            s.push_str(&format!("{} {} {} {} # {}\n", c.n, c.inv as u32, c.grp as u32, len, c.n));
        }
        s.push_str("\n# ranges\n");
        for r in &self.rng {
            let names = r.cs.iter().map(|c| self.cats[*c].n.clone()).collect::<Vec<_>>().join(" ");
            if r.lo == r.hi {
                s.push_str(&format!("0x{:04X} {}\n", r.lo, names));
            } else {
                s.push_str(&format!("0x{:04X}..0x{:04X} {}  # c\n", r.lo, r.hi, names));
            }
        }
        s
    }
    pub fn unk_def(&self) -> String {
        let n = unk_fields(&self.kind);
        let mut s = String::new();
        for i in 0..self.pad.cats {
            s.push_str(&format!("FILLER{},0,0,{}{}\n", i, i, ",*".repeat(n - 4)));
        }
        for u in &self.unk {
            let mut f = vec![self.cats[u.k].n.clone(), self.pad.l(u.l).to_string(), self.pad.r(u.r).to_string(), u.c.to_string()];
            while f.len() < n {
                f.push("*".to_string());
            }
            s.push_str(&f.join(","));
            s.push('\n');
        }
        s
    }
    pub fn user_csv(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.usr.iter().enumerate() {
            let f = if r.simple {
                vec![r.s.clone(), r.raw[0].clone(), r.raw[1].clone()]
            } else {
                let mut f = vec![r.s.clone(), self.pad.l(r.l).to_string(), self.pad.r(r.r).to_string(), r.c.to_string()];
                f.extend(r.d.iter().cloned());
                f
            };
            s.push_str(&csv_line(&f));
            let per = self.pad.usr / self.usr.len();
            for j in i * per..(i + 1) * per {
                let mut g = f.clone();
                g[0] = filler(j);
                if f.len() == 3 {
                    g[1] = format!("f{}", j);
                } else {
                    (g[1], g[2]) = ("0".into(), "0".into());
                    g[4] = format!("f{}", j);
                }
                s.push_str(&csv_line(&g));
            }
        }
        s
    }
    pub fn build(&self, dir: &Path) -> LinderaResult<Dictionary> {
        let src = dir.join("src");
        let dst = dir.join("dic");
        self.write_src(&src);
        DictionaryBuilderResolver::resolve_builder(kind(&self.kind))?.build_dictionary(&src, &dst)?;
        DictionaryLoader::load_dictionary(dst)
    }
    pub fn build_user(&self, dir: &Path) -> LinderaResult<Option<UserDictionary>> {
        if !self.hasu {
            return Ok(None);
        }
        fs::create_dir_all(dir).unwrap();
        let p = dir.join("user.csv");
        fs::write(&p, self.user_csv()).unwrap();
        DictionaryLoader::load_user_dictionary_from_csv(kind(&self.kind), p).map(Some)
    }
}

/// Characters encodable in every source encoding, by UTF-8 length and script; several categories' worth.
pub const ALPHA: [char; 20] = [
    'あ', 'い', 'ん', 'ア', 'ー', '東', '京', '一', '々', 'a', 'b', 'Z', '1', ' ', '。', '、', '！', 'α', '가', '〇',
];
/// Characters that may occur in texts only (not encodable in EUC-JP, or outside the BMP).
pub const TEXT_ONLY: [char; 8] = ['é', '😀', '𠮷', '\u{3099}', '\u{0}', '\u{10FFFF}', '\u{FFFF}', 'ﾊ'];

#[derive(Clone)]
pub struct Profile {
    pub users: u64,     // percent of worlds with a user dictionary
    pub unk_heavy: bool, // few dictionary words
    pub delim: u64,     // percent of delimiters in texts
    pub homograph: bool, // many rows per surface
    pub kanji: bool,    // long words over kanji and kana (for length penalties)
    pub crowd: bool,    // sometimes a surface with many rows
    pub kinds: bool,    // all kinds (otherwise mostly unidic)
}

pub fn simple_details(kind: &str, s: &str, c1: &str, c2: &str) -> Vec<String> {
    let st = |n: usize| vec!["*".to_string(); n];
    let mut v = vec![c1.to_string()];
    match kind {
        "ipadic" | "ipadic-neologd" => {
            v.extend(st(5));
            v.push(s.to_string());
            v.push(c2.to_string());
            v.extend(st(1));
        }
        "unidic" => {
            v.extend(st(5));
            v.push(c2.to_string());
            v.extend(st(10));
        }
        "ko-dic" => {
            v.extend(st(2));
            v.push(c2.to_string());
            v.extend(st(4));
        }
        _ => {
            v.extend(st(3));
            v.push(c2.to_string());
            v.extend(st(3));
        }
    }
    v
}

fn gen_word(rng: &mut Rng, al: &[char], max: usize) -> String {
    let n = 1 + rng.below(max);
    (0..n).map(|_| *rng.pick(al)).collect()
}

pub fn gen_world(rng: &mut Rng, p: &Profile) -> (World, Vec<char>) {
    let kind_s = if p.kinds || rng.chance(30) { *rng.pick(&KINDS) } else { "unidic" };
    // alphabet of this world
    let mut pool: Vec<char> = ALPHA.iter().cloned().filter(|c| kind_s != "ipadic" || *c != '가').collect();
    if p.kanji {
        pool = vec!['東', '京', '一', '龠', '都', 'あ', 'ア', 'ー', 'a', '々'];
        if kind_s != "ipadic" {
            pool.extend(['\u{9FAF}', '\u{9FB0}', '\u{4DFF}', '𠮷', 'é']);
        }
    }
    rng.shuffle(&mut pool);
    let n = 2 + rng.below(4);
    let mut al: Vec<char> = pool[..n].to_vec();
    if p.kanji && rng.chance(60) {
        al[0] = '東';
    }
    let ids = 1 + rng.below(4);
    let ids_b = if rng.chance(50) { ids } else { 1 + rng.below(4) };
    let span = *rng.pick(&[0i64, 3, 20, 100, 2000, 30000]);
    let cost = |rng: &mut Rng| -> i64 {
        if span == 30000 && rng.chance(20) {
            *rng.pick(&[32767, -32768, 32766, -32767, 0])
        } else {
            rng.range(-span, span)
        }
    };
    let mut sys: Vec<Row> = vec![];
    let nwords = if p.unk_heavy { 1 + rng.below(4) } else { 1 + rng.below(14) };
    let maxlen = if p.kanji { 9 } else { 4 };
    let ncols = if kind_s == "cc-cedict" { 0 } else { rng.below(8) };
    let mut last = String::new();
    for i in 0..nwords {
        let s = if i > 0 && (p.homograph && rng.chance(50) || rng.chance(10)) {
            last.clone()
        } else if i > 0 && rng.chance(30) {
            // an extension or a prefix of the last word
            let mut t = last.clone();
            if rng.chance(60) || t.chars().count() < 2 {
                t.push(*rng.pick(&al));
            } else {
                t.pop();
            }
            t
        } else {
            gen_word(rng, &al, maxlen)
        };
        last = s.clone();
        let nc = if kind_s == "cc-cedict" { rng.below(6) } else { ncols };
        let mut d = vec![format!("d{}", i)];
        for j in 0..nc {
            d.push(match rng.below(5) {
                0 => "*".to_string(),
                1 => String::new(),
                2 => format!("v,{}", j),
                3 => format!("品詞{}", i),
                _ => format!("x{}\"y", j),
            });
        }
        sys.push(Row { s, l: rng.below(ids_b) as i64, r: rng.below(ids) as i64, c: cost(rng), d, simple: false, raw: vec![] });
    }
    if p.crowd && rng.chance(12) {
        // many rows that begin at one place: up to 31 for a surface, and for its extensions too
        let base = rng.pick(&sys).s.clone();
        let mut s = base.clone();
        for ext in 0..1 + rng.below(2) {
            if ext > 0 {
                s.push(*rng.pick(&al));
            }
            let have = sys.iter().filter(|r| r.s == s).count();
            let want = 14 + rng.below(18);
            for j in have..want {
                sys.push(Row { s: s.clone(), l: rng.below(ids_b) as i64, r: rng.below(ids) as i64, c: cost(rng), d: (0..ncols + 1).map(|k| format!("c{}.{}.{}", ext, j, k)).collect(), simple: false, raw: vec![] });
            }
        }
    }
    // user dictionary
    let hasu = rng.chance(p.users);
    let mut usr = vec![];
    if hasu {
        let flexible = kind_s.starts_with("ipadic");
        let all_simple = rng.chance(50);
        for i in 0..(1 + rng.below(5)) {
            let s = if rng.chance(40) { rng.pick(&sys).s.clone() } else { gen_word(rng, &al, maxlen) };
            let simple = if flexible { rng.chance(50) } else { all_simple };
            if simple {
                let (c1, c2) = (format!("u{}", i), format!("ヨミ{}", i));
                let d = simple_details(kind_s, &s, &c1, &c2);
                usr.push(Row { s, l: 0, r: 0, c: -10000, d, simple: true, raw: vec![c1, c2] });
            } else {
                let extra = if flexible && rng.chance(30) { rng.below(3) } else { 0 };
                let d = (0..detailed_fields(kind_s) - 4 + extra).map(|j| if j == 0 { format!("U{}", i) } else { format!("q{}", j % 3) }).collect();
                usr.push(Row { s, l: rng.below(ids_b) as i64, r: rng.below(ids) as i64, c: cost(rng), d, simple: false, raw: vec![] });
            }
        }
    }
    if rng.chance(if hasu { 15 } else { 6 }) {
        // one or two words much longer than the others
        for _ in 0..1 + rng.below(2) {
            let u: Vec<char> = (0..1 + rng.below(3)).map(|_| *rng.pick(&al)).collect();
            let n = *rng.pick(&[10usize, 16, 17, 21, 22, 32, 33, 42, 43, 64, 65, 85, 86, 100, 128, 130]);
            let n = if p.kanji && rng.chance(20) { *rng.pick(&[255usize, 256, 257, 260]) } else { n };
            let mut s: String = u.iter().cycle().take(n).collect();
            if rng.chance(50) {
                s.push(*rng.pick(&al));
            }
            let rows = if hasu && rng.chance(60) { &mut usr } else { &mut sys };
            let mut r: Row = rng.pick(rows).clone();
            if r.simple {
                r.d = simple_details(kind_s, &s, &r.raw[0], &r.raw[1]);
            } else if rng.chance(50) {
                r.c = -20000;
            }
            r.s = s;
            rows.push(r);
        }
    }
    if p.crowd && rng.chance(10) {
        // details of tens of kilobytes
        let n = *rng.pick(&[255usize, 32_768, 65_530, 65_536, 70_000, 70_000]);
        let rows = if hasu && rng.chance(50) { &mut usr } else { &mut sys };
        let r = rng.below(rows.len());
        if !rows[r].simple && rng.chance(70) {
            rows[r].c = -20000;
        }
        if let Some(x) = Some(&mut rows[r]).filter(|r| !r.simple).and_then(|r| r.d.last_mut()) {
            *x = "説明x".repeat(n / 7 + 1);
        }
    }
    // categories: DEFAULT plus some, every one with unknown-word entries
    let mut cats = vec![Cat { n: "DEFAULT".into(), inv: rng.chance(50), grp: rng.chance(50) }];
    for i in 0..rng.below(4) {
        cats.push(Cat { n: format!("C{}", i), inv: rng.chance(40), grp: rng.chance(60) });
    }
    let dpos = rng.below(cats.len());
    cats.swap(0, dpos);
    let mut ranges = vec![];
    for _ in 0..rng.below(6) {
        let a = *rng.pick(&al) as u32;
        let b = *rng.pick(&al) as u32;
        let (lo, hi) = if rng.chance(60) { (a, a) } else { (a.min(b), a.max(b)) };
        let k = 1 + rng.below(3.min(cats.len()));
        let mut cs: Vec<usize> = (0..cats.len()).collect();
        rng.shuffle(&mut cs);
        cs.truncate(k);
        ranges.push(Range { lo, hi, cs });
    }
    let mut unk = vec![];
    for k in 0..cats.len() {
        for _ in 0..1 + rng.below(3) {
            unk.push(Unk { k, l: rng.below(ids_b) as i64, r: rng.below(ids) as i64, c: cost(rng) });
        }
    }
    rng.shuffle(&mut unk);
    let mat = (0..ids)
        .map(|_| (0..ids_b).map(|_| if rng.chance(8) { 32767 } else { cost(rng) }).collect())
        .collect();
    let w = World { kind: kind_s.to_string(), sys, usr, hasu, cats, rng: ranges, unk, mat, files: 1 + rng.below(3), layout: rng.next(), pad: Pad::default() };
    (w, al)
}

pub fn gen_text(rng: &mut Rng, al: &[char], p: &Profile, max: usize) -> String {
    let n = rng.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        let c = if rng.chance(p.delim) {
            *rng.pick(&['。', '、', '\n', '\t', '．', '\r'])
        } else if rng.chance(6) {
            *rng.pick(&TEXT_ONLY)
        } else if rng.chance(6) {
            *rng.pick(&ALPHA)
        } else {
            *rng.pick(al)
        };
        s.push(c);
    }
    if rng.chance(10) {
        // characters that programs like to treat specially, above all at the edges
        let c = *rng.pick(&ODD);
        let at = *rng.pick(&[0, s.len(), s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0)]);
        s.insert(at, c);
    }
    s
}
pub const ODD: [char; 24] = [
    '\u{FEFF}', '\u{FEFF}', '\u{0}', '\u{1}', '\u{B}', '\u{C}', '\u{1A}', '\u{7F}', '\u{85}', '\u{A0}', '\u{AD}', '\u{200B}', '\u{200D}', '\u{200E}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{301}', '\u{3099}',
    '\u{FE0F}', '\u{FFFD}', '\u{FFFF}', '\u{E0001}', '\u{10FFFF}',
];

/// A text made of dictionary words with random glue, so that long words are really used.
pub fn gen_text_words(rng: &mut Rng, w: &World, al: &[char], p: &Profile, max: usize) -> String {
    let mut s = String::new();
    let n = 1 + rng.below(max);
    for _ in 0..n {
        if rng.chance(70) {
            if w.hasu && rng.chance(40) {
                s.push_str(&rng.pick(&w.usr).s);
            } else {
                s.push_str(&rng.pick(&w.sys).s);
            }
        } else {
            s.push_str(&gen_text(rng, al, p, 2));
        }
    }
    s
}
