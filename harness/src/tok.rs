//! Tokenizer domain: worlds and the tokenizations the real code produced for them.
use crate::util::*;
use crate::world::*;
use lindera_core::mode::{Mode, Penalty};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::path::Path;

pub fn mode_of(pen: &[i64]) -> Mode {
    if pen.is_empty() {
        Mode::Normal
    } else {
        Mode::Decompose(Penalty {
            kanji_penalty_length_threshold: pen[0] as usize,
            kanji_penalty_length_penalty: pen[1] as i32,
            other_penalty_length_threshold: pen[2] as usize,
            other_penalty_length_penalty: pen[3] as i32,
        })
    }
}

pub fn toks_json(t: &Tokenizer, text: &str, scramble: bool) -> Value {
    let r = guard(&format!("tokenize {:?}", text), || -> Result<Value, String> {
        let mut toks = t.tokenize(text).map_err(|e| format!("{}", e))?;
        let n = toks.len();
        if scramble {
            // read details in reverse order first, then again in order
            for i in (0..n).rev() {
                let _ = toks[i].get_details();
            }
        }
        let mut out = vec![];
        for k in toks.iter_mut() {
            let d: Option<Vec<String>> = k.get_details().map(|v| v.iter().map(|s| s.to_string()).collect());
            out.push(json!({
                "t": cps(k.text), "bs": k.byte_start, "be": k.byte_end, "p": k.position, "pl": k.position_length,
                "sys": k.word_id.is_system(), "unk": k.word_id.is_unknown(),
                "d": d.unwrap_or(vec!["<none>".to_string()]),
            }));
        }
        Ok(json!(out))
    });
    match r {
        Ok(Ok(v)) => json!({"r": "ok", "k": v}),
        Ok(Err(e)) => json!({"r": "err", "k": [], "e": e}),
        Err(e) => json!({"r": "panic", "k": [], "e": e}),
    }
}

pub struct Opts {
    pub worlds: usize,
    pub texts: usize,
    pub parts: bool,
    pub nou: bool,
    pub decompose: u64,
    pub maxlen: usize,
    pub sample: u64,
    pub long: usize,
    pub longlen: usize,
    pub scale: usize,
    /// texts of consecutive code points: every n-th chunk (0: none)
    pub cuts: usize,
}

fn emit_case(co: &mut Out, wi: usize, w: &World, toks: &Toks, text: &str, pen: &[i64], o: &Opts, rng: &mut Rng) {
    let t = if pen.is_empty() { &toks.normal } else { toks.get(pen) };
    let mut c = toks_json(t, text, rng.chance(50));
    c["w"] = json!(wi);
    c["pen"] = json!(pen);
    c["t"] = cps(text);
    c["parts"] = json!([]);
    c["hp"] = json!(o.parts);
    c["nou"] = json!({"r": "none", "k": []});
    if o.parts {
        let mut parts = vec![];
        for s in text.split_inclusive(['。', '、', '\n', '\t']) {
            let mut p = toks_json(t, s, false);
            p["t"] = cps(s);
            parts.push(p);
        }
        c["parts"] = json!(parts);
    }
    if o.nou && w.hasu {
        let t2 = Tokenizer::new(t.dictionary.clone(), None, t.mode.clone());
        c["nou"] = toks_json(&t2, text, false);
    }
    co.put(&c);
}

struct Toks {
    normal: Tokenizer,
    dec: std::cell::RefCell<Vec<(Vec<i64>, &'static Tokenizer)>>,
}
impl Toks {
    fn get(&self, pen: &[i64]) -> &'static Tokenizer {
        let mut d = self.dec.borrow_mut();
        if let Some((_, t)) = d.iter().find(|(p, _)| p == pen) {
            return t;
        }
        let t = Tokenizer::new(self.normal.dictionary.clone(), self.normal.user_dictionary.clone(), mode_of(pen));
        let t: &'static Tokenizer = Box::leak(Box::new(t));
        d.push((pen.to_vec(), t));
        t
    }
}

fn build(w: &World, dir: &Path) -> Result<Toks, String> {
    let r = guard("build dictionary", || -> Result<Toks, String> {
        let d = w.build(dir).map_err(|e| format!("build: {}", e))?;
        let u = match guard("build user dictionary", || w.build_user(dir)) {
            Ok(u) => u.map_err(|e| format!("user: {}", e))?,
            Err(e) => return Err(format!("user: {}", e)),
        };
        Ok(Toks { normal: Tokenizer::new(d, u, Mode::Normal), dec: Default::default() })
    });
    let _ = std::fs::remove_dir_all(dir);
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic: {}", e)),
    }
}

// ---------------------------------------------------------------- texts far beyond what the model can hold
// (Scale.tla says why a huge text may be judged by its windows.)

/// A character that every segmentation must take as one token, in exactly one way.
fn pin(rng: &mut Rng, w: &mut World) -> char {
    let z = *rng.pick(&['§', '☆', '#', '÷']);
    w.rng.retain(|r| !(r.lo <= z as u32 && z as u32 <= r.hi));
    let inv = rng.chance(50);
    let k = w.cats.len();
    w.cats.push(Cat { n: "PIN".into(), inv, grp: false });
    w.rng.push(Range { lo: z as u32, hi: z as u32, cs: vec![k] });
    let (nf, nb) = (w.mat.len(), w.mat[0].len());
    w.unk.push(Unk { k, l: rng.below(nb) as i64, r: rng.below(nf) as i64, c: rng.range(-20, 20) });
    if !inv && rng.chance(50) {
        let mut r = w.sys[0].clone();
        r.s = z.to_string();
        r.c = 1;
        w.sys.push(r);
    }
    z
}

/// Make all costs small (otherwise the cost of a path of a million tokens does not fit in 31 bits).
fn shrink(w: &mut World) {
    for r in w.sys.iter_mut() {
        r.c %= 500;
    }
    for r in w.usr.iter_mut().filter(|r| !r.simple) {
        r.c %= 500;
    }
    for u in w.unk.iter_mut() {
        u.c %= 500;
    }
    for row in w.mat.iter_mut() {
        for c in row.iter_mut() {
            *c %= 500;
        }
    }
}

#[derive(Clone, PartialEq)]
struct Tk {
    t: String,
    bs: i64,
    be: i64,
    p: i64,
    pl: i64,
    sys: bool,
    unk: bool,
    d: Vec<String>,
}
impl Tk {
    fn json(&self) -> Value {
        json!({"t": cps(&self.t), "bs": self.bs, "be": self.be, "p": self.p, "pl": self.pl, "sys": self.sys, "unk": self.unk, "d": self.d})
    }
    /// The token seen from byte `b`, token number `p`.
    fn moved(mut self, b: usize, p: usize) -> Tk {
        self.bs -= b as i64;
        self.be -= b as i64;
        self.p -= p as i64;
        self
    }
}

/// Tokenize on a thread with the standard stack.
fn on_thread(t: &Tokenizer, text: &str) -> Result<Vec<Tk>, &'static str> {
    let run = || -> Result<Vec<Tk>, &'static str> {
        let short: String = text.chars().take(40).collect();
        let r = guard(&format!("tokenize {} bytes: {:?}...", text.len(), short), || {
            let mut toks = t.tokenize(text).map_err(|_| "err")?;
            Ok(toks
                .iter_mut()
                .map(|k| {
                    let d = k.get_details().map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or(vec!["<none>".to_string()]);
                    Tk { t: k.text.to_string(), bs: k.byte_start as i64, be: k.byte_end as i64, p: k.position as i64, pl: k.position_length as i64, sys: k.word_id.is_system(), unk: k.word_id.is_unknown(), d }
                })
                .collect())
        });
        r.unwrap_or(Err("panic"))
    };
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap().join().unwrap())
}

struct Win {
    wi: usize,
    pen: Vec<i64>,
    text: String,
    unit: String,
    n: usize,
}
impl Win {
    /// One case per distinct window (the first six).
    fn emit(&self, co: &mut Out, wins: Result<Vec<Vec<Tk>>, &str>, parts: &[Value]) {
        let mut put = |j: usize, r: &str, k: &[Tk], cnt: usize| {
            let k: Vec<Value> = k.iter().map(|k| k.json()).collect();
            co.put(&json!({"w": self.wi, "pen": self.pen, "t": cps(&self.text), "r": r, "k": k, "parts": parts, "hp": !parts.is_empty(),
                "nou": {"r": "none", "k": []}, "sc": {"unit": cps(&self.unit), "n": self.n, "win": j, "cnt": cnt}}));
        };
        let wins = match wins {
            Ok(w) => w,
            Err(b) => return put(0, b, &[], 1),
        };
        let mut seen: Vec<(Vec<Tk>, usize, usize)> = vec![];
        for (j, k) in wins.into_iter().enumerate() {
            if let Some(s) = seen.iter_mut().find(|s| s.0 == k) {
                s.2 += 1;
            } else if seen.len() < 6 {
                seen.push((k, j, 1));
            }
        }
        for (k, j, cnt) in seen {
            put(j, "ok", &k, cnt);
        }
    }
}

/// z (x z)^n, judged window by window: z x z.
fn scale_rep(co: &mut Out, wi: usize, t: &Tokenizer, z: char, x: &str, n: usize, pen: &[i64]) {
    let unit = format!("{}{}", x, z);
    let text = format!("{}{}", z, unit.repeat(n));
    let w = Win { wi, pen: pen.to_vec(), text: format!("{}{}", z, unit), unit: unit.clone(), n };
    let zs = z.to_string();
    let wins = on_thread(t, &text).and_then(|ks| {
        let at: Vec<usize> = (0..ks.len()).filter(|&j| ks[j].t == zs).collect();
        if at.len() != n + 1 || at[0] != 0 || at[n] != ks.len() - 1 {
            return Err("shape");
        }
        Ok((0..n).map(|j| ks[at[j]..=at[j + 1]].iter().map(|k| k.clone().moved(j * unit.len(), at[j])).collect()).collect())
    });
    w.emit(co, wins, &[]);
}

/// u^n where u ends with a delimiter, judged window by window: u.
fn scale_sent(co: &mut Out, wi: usize, t: &Tokenizer, u: &str, n: usize, pen: &[i64], parts: bool) {
    let w = Win { wi, pen: pen.to_vec(), text: u.to_string(), unit: u.to_string(), n };
    let mut ps = vec![];
    if parts {
        for s in u.split_inclusive(['。', '、', '\n', '\t']) {
            let mut p = toks_json(t, s, false);
            p["t"] = cps(s);
            ps.push(p);
        }
    }
    let wins = on_thread(t, &u.repeat(n)).and_then(|ks| {
        let mut wins: Vec<Vec<Tk>> = vec![];
        let mut first = 0;
        for (q, k) in ks.into_iter().enumerate() {
            let j = k.bs as usize / u.len();
            if j >= n || j + 1 < wins.len() || j > wins.len() {
                return Err("shape");
            }
            if j == wins.len() {
                wins.push(vec![]);
                first = q;
            }
            wins[j].push(k.moved(j * u.len(), first));
        }
        if wins.len() == n {
            Ok(wins)
        } else {
            Err("shape")
        }
    });
    w.emit(co, wins, &ps);
}

/// z c^n z where the run of c can only be one unknown word, judged as z c c c z.
fn scale_run(co: &mut Out, wi: usize, t: &Tokenizer, z: char, c: char, n: usize, pen: &[i64]) {
    let text: String = std::iter::once(z).chain(std::iter::repeat(c).take(n)).chain(std::iter::once(z)).collect();
    let w = Win { wi, pen: pen.to_vec(), text: format!("{}{}{}{}{}", z, c, c, c, z), unit: c.to_string(), n };
    let (zl, cl, cut) = (z.len_utf8() as i64, c.len_utf8() as i64, (n as i64 - 3) * c.len_utf8() as i64);
    let sq = |b: i64| if b <= zl { b } else if b >= zl + n as i64 * cl { b - cut } else { zl + cl };
    let win = on_thread(t, &text).map(|ks| {
        let squeeze = |mut k: Tk| {
            let (s, e) = (k.bs, k.be);
            k.bs = sq(s);
            k.be = sq(e);
            if 0 <= s && s <= e && text.get(s as usize..e as usize) == Some(&k.t) {
                k.t = w.text[k.bs as usize..k.be as usize].to_string();
            }
            k
        };
        vec![ks.into_iter().take(8).map(squeeze).collect()]
    });
    w.emit(co, win, &[]);
}

fn scale(co: &mut Out, wo: &mut dyn FnMut(&World, &Result<Toks, String>) -> usize, out: &Path, seed: u64, p: &Profile, o: &Opts) {
    for s in 0..o.scale {
        let mut rng = Rng::new(seed.wrapping_mul(77_003).wrapping_add(900_000 + s as u64));
        let (mut w, al) = gen_world(&mut rng, p);
        if s % 4 != 3 {
            shrink(&mut w);
        }
        let z = pin(&mut rng, &mut w);
        // a character no row contains, all of whose categories group
        let c = *rng.pick(&['κ', '仝', 'ヱ', '×']);
        let mut run = None;
        if !w.sys.iter().chain(&w.usr).any(|r| r.s.contains(c)) {
            w.rng.retain(|r| !(r.lo <= c as u32 && c as u32 <= r.hi));
            let (nf, nb) = (w.mat.len(), w.mat[0].len());
            let mut cs = vec![];
            for q in 0..1 + rng.below(2) {
                w.cats.push(Cat { n: format!("RUN{}", q), inv: rng.chance(50), grp: true });
                cs.push(w.cats.len() - 1);
                for _ in 0..1 + rng.below(2) {
                    w.unk.push(Unk { k: w.cats.len() - 1, l: rng.below(nb) as i64, r: rng.below(nf) as i64, c: rng.range(-50, 50) });
                }
            }
            w.rng.push(Range { lo: c as u32, hi: c as u32, cs });
            run = Some(c);
        }
        let built = build(&w, &scratch(out, "w"));
        let wi = wo(&w, &built);
        let t = match &built {
            Ok(t) => t,
            Err(_) => continue,
        };
        let pens: Vec<Vec<i64>> = vec![vec![2, 3000, 7, 1700], vec![rng.below(4) as i64, rng.range(-20, 50), rng.below(6) as i64, rng.range(-20, 50)]];
        let q = Profile { delim: 0, ..p.clone() };
        // bytes of the whole text: some hundreds of tokens, more than 16 bits' worth of bytes, of tokens
        let sizes: [usize; 4] = [1500, 70_000, 300_000, *rng.pick(&[600, 70_000, 70_000, 1_000_000])];
        for (round, bytes) in sizes.into_iter().enumerate() {
            if round >= 2 && s % 3 != 0 {
                continue;
            }
            let pen: Vec<i64> = if rng.chance(o.decompose) { rng.pick(&pens).clone() } else { vec![] };
            let tk = if pen.is_empty() { &t.normal } else { t.get(&pen) };
            let mut x = gen_text_words(&mut rng, &w, &al, &q, 3);
            if rng.chance(20) {
                x = gen_text(&mut rng, &al, p, 6);
            }
            x = x.chars().filter(|k| *k != z).take(12).collect();
            let unit = x.len() + z.len_utf8();
            let n = (bytes / unit).max(1);
            scale_rep(co, wi, tk, z, &x, n, &pen);
            // many sentences
            let mut u = gen_text_words(&mut rng, &w, &al, p, 4);
            u = u.chars().take(14).collect();
            u.push(*rng.pick(&['。', '、', '\n', '\t']));
            let longest = u.split_inclusive(['。', '、', '\n', '\t']).count();
            let n = if longest == 0 { 1 } else { bytes / u.len() };
            scale_sent(co, wi, tk, &u, n.max(1), &pen, o.parts);
            if let Some(c) = run {
                let n = if round == 0 { *rng.pick(&[250, 255, 256, 257, 300, 512]) } else if round == 1 && s % 3 == 0 && c.len_utf8() == 3 { 66_000 / c.len_utf8() } else { 1000 };
                scale_run(co, wi, tk, z, c, n, &pen);
            }
        }
    }
}

/// Every character of Unicode between characters of the same kind: only delimiters cut.
fn cuts(co: &mut Out, wo: &mut dyn FnMut(&World, &Result<Toks, String>) -> usize, out: &Path, seed: u64, o: &Opts) {
    let mut rng = Rng::new(seed ^ 0xc075);
    let w = crate::charf::simple_world(true, seed % 2 == 0, &[]);
    let built = build(&w, &scratch(out, "w"));
    let wi = wo(&w, &built);
    if let Ok(t) = &built {
        let all: Vec<char> = (1..=0x10FFFFu32).filter_map(char::from_u32).collect();
        for (i, c) in all.chunks(120).enumerate() {
            // (the ideographs, Hangul and the higher planes are sampled)
            let plain = matches!(c[0] as u32, 0..=0x33FF | 0x4DC0..=0x4DFF | 0xA000..=0xABFF | 0xD800..=0xDFFF | 0xF900..=0xFFFF | 0x1F000..=0x1FAFF | 0xE0000..=0xE01FF);
            if plain || (i + seed as usize) % o.cuts == 0 {
                let text: String = c.iter().collect();
                emit_case(co, wi, &w, t, &text, &[], o, &mut rng);
            }
        }
    }
}

/// A valid user dictionary that could not be loaded.
fn no_user(co: &mut Out, wi: usize, built: &Result<Toks, String>) {
    if let Err(e) = built {
        if e.starts_with("user: ") {
            co.put(&json!({"w": wi, "pen": [], "t": [], "r": "nouser", "k": [], "parts": [], "hp": false, "nou": {"r": "none", "k": []}, "e": e}));
        }
    }
}

pub fn run(out: &Path, seed: u64, p: &Profile, o: &Opts, scn: Option<&Path>) {
    let mut wo = Out::new(out, "worlds.ndjson");
    let mut co = Out::new(out, "cases.ndjson");
    let mut wi = 0;
    let mut put_world = |w: &World, built: &Result<Toks, String>, wo: &mut Out| -> usize {
        wi += 1;
        let mut j = w.to_json();
        j["built"] = json!(match built {
            Ok(_) => "ok".to_string(),
            Err(e) => e.clone(),
        });
        wo.put(&j);
        wi
    };
    // scenarios exported by the model checker
    if let Some(s) = scn {
        let body = std::fs::read_to_string(s).unwrap();
        let mut rng = Rng::new(seed ^ 0x5c3);
        for line in body.lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let w = World::from_json(&v["world"]);
            let built = build(&w, &scratch(out, "w"));
            let i = put_world(&w, &built, &mut wo);
            if let Ok(t) = &built {
                for c in v["texts"].as_array().unwrap() {
                    let text = from_cps(c);
                    for q in v["pens"].as_array().unwrap() {
                        if !rng.chance(o.sample) {
                            continue;
                        }
                        let pen: Vec<i64> = q.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                        if pen.is_empty() && o.decompose > 80 || !pen.is_empty() && o.decompose == 0 {
                            continue;
                        }
                        emit_case(&mut co, i, &w, t, &text, &pen, o, &mut rng);
                    }
                }
            }
        }
    }
    scale(&mut co, &mut |w, b| put_world(w, b, &mut wo), out, seed, p, o);
    if o.cuts > 0 {
        cuts(&mut co, &mut |w, b| put_world(w, b, &mut wo), out, seed, o);
    }
    let mut padded = 0;
    for k in 0..o.worlds {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
        let mut q = p.clone();
        q.kanji = p.kanji || p.users == 100 && k % 3 == 0;
        let p = &q;
        let (mut w, al) = gen_world(&mut rng, p);
        if k % 13 == 7 {
            // a category, or none at all, has unknown-word entries: some sentences cannot be segmented
            let only = if rng.chance(40) { usize::MAX } else { rng.below(w.cats.len()) };
            w.unk.retain(|u| only != usize::MAX && u.k != only);
        }
        // the same world in a big dictionary (see Pad)
        if k % 5 == 1 {
            let (f, b) = *rng.pick(&[(300, 300), (2, 65535), (65535, 2), (5, 40000), (700, 500)]);
            w.pad.right = Pad::spread(&mut rng, w.mat.len(), f.max(w.mat.len()));
            w.pad.left = Pad::spread(&mut rng, w.mat[0].len(), b.max(w.mat[0].len()));
        }
        if k % 5 == 2 {
            w.pad.cats = *rng.pick(&[1, 3, 256, 300]);
        }
        if k % 110 == 3 {
            w.pad.sys = 70_000;
        }
        if k % 110 >= 4 && !w.usr.is_empty() && padded <= k / 110 {
            w.pad.usr = 70_000;
            padded += 1;
        }
        let built = build(&w, &scratch(out, "w"));
        let i = put_world(&w, &built, &mut wo);
        no_user(&mut co, i, &built);
        if let Ok(t) = &built {
            let pens: Vec<Vec<i64>> = vec![
                vec![2, 3000, 7, 1700],
                vec![rng.below(4) as i64, rng.range(-10, 50), rng.below(6) as i64, rng.range(-10, 50)],
                vec![rng.below(9) as i64, *rng.pick(&[0, 1, 7, 100, 3000, -1, -100]), rng.below(9) as i64, *rng.pick(&[0, 1, 7, 100, 1700, -1, -100])],
            ];
            for _ in 0..o.texts {
                let text = if rng.chance(45) { gen_text_words(&mut rng, &w, &al, p, 4) } else { gen_text(&mut rng, &al, p, o.maxlen) };
                // a word much longer than the others stays whole
                let longest = w.sys.iter().chain(&w.usr).map(|r| r.s.chars().count()).max().unwrap_or(0);
                let keep = if longest > 12 { longest + o.maxlen } else { o.maxlen } + 6;
                let text: String = text.chars().take(keep).collect();
                let pen = if rng.chance(o.decompose) { rng.pick(&pens).clone() } else { vec![] };
                emit_case(&mut co, i, &w, t, &text, &pen, o, &mut rng);
            }
            if k < o.long {
                // one long text: many sentences, or one long sentence
                let mut q = p.clone();
                q.delim = *rng.pick(&[0, 1, 20]);
                let n = 30 + rng.below(o.longlen);
                let text: String = if rng.chance(30) {
                    // one character over and over, also around the limits of a byte
                    let a = *rng.pick(&al);
                    let n = if rng.chance(50) { *rng.pick(&[85, 86, 127, 128, 129, 254, 255, 256, 257, 258, 300]) } else { n };
                    let glue = if rng.chance(40) { rng.pick(&al).to_string() } else { String::new() };
                    glue.clone() + &a.to_string().repeat(n) + &glue
                } else {
                    let mut s = String::new();
                    while s.chars().count() < n {
                        s.push_str(&gen_text_words(&mut rng, &w, &al, &q, 6));
                    }
                    s
                };
                let pen = if rng.chance(o.decompose) { rng.pick(&pens).clone() } else { vec![] };
                emit_case(&mut co, i, &w, t, &text, &pen, o, &mut rng);
            }
        }
    }
}

// ---------------------------------------------------------------- tokens in a caller's hands (Details.tla)
pub fn hold(out: &Path, seed: u64, p: &Profile, worlds: usize, texts: usize, scn: Option<&Path>, sample: u64) {
    let mut co = Out::new(out, "cases.ndjson");
    let mut hists: Vec<Value> = vec![];
    if let Some(f) = scn {
        hists.extend(std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str::<Value>(l).unwrap()["hist"].clone()));
    }
    let mut rng = Rng::new(seed);
    for k in 0..worlds {
        let (w, al) = gen_world(&mut rng, p);
        let tk = match build(&w, &scratch(out, "w")) {
            Ok(t) => t,
            Err(e) => {
                co.put(&json!({"rows": [], "evs": [{"op": "build", "i": 0, "d": [e]}]}));
                continue;
            }
        };
        let t = &tk.normal;
        let own = |rng: &mut Rng| -> Vec<String> {
            match rng.below(4) {
                0 => vec![],
                1 => vec!["UNK".into()],
                2 => w.sys[rng.below(w.sys.len())].d.clone(),
                _ => (0..1 + rng.below(3)).map(|j| format!("own{},{}", rng.below(5), j)).collect(),
            }
        };
        let mut todo: Vec<(String, Vec<Value>)> = vec![];
        for _ in 0..texts {
            let text = gen_text_words(&mut rng, &w, &al, p, 4);
            let h: Vec<Value> = (0..2 + rng.below(14)).map(|_| json!({"op": *rng.pick(&["read", "read", "read", "set", "unset", "copy", "again"]), "i": 1 + rng.below(9), "d": own(&mut rng)})).collect();
            todo.push((text, h));
        }
        // the histories of the model, spread over the worlds
        for (j, h) in hists.iter().enumerate() {
            if j % worlds == k && rng.chance(sample) {
                let text = format!("{}{}", rng.pick(&w.sys).s, gen_text_words(&mut rng, &w, &al, p, 2));
                todo.push((text, h.as_array().unwrap().clone()));
            }
        }
        for (text, h) in todo {
            let r = guard("hold tokens", || -> Result<Value, String> {
                let rows: Vec<Vec<String>> = t.tokenize(&text).map_err(|e| e.to_string())?.iter_mut().map(|k| k.get_details().map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or_default()).collect();
                let mut held = t.tokenize(&text).map_err(|e| e.to_string())?;
                let mut evs = vec![json!({"op": "again", "i": 0, "d": []})];
                for o in &h {
                    let (op, i) = (o["op"].as_str().unwrap(), o["i"].as_u64().unwrap() as usize);
                    let d: Vec<String> = o["d"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    if op == "again" {
                        if held.len() < 60 {
                            let more = t.tokenize(&text).map_err(|e| e.to_string())?;
                            let same = more.len() == rows.len();
                            held.extend(more);
                            evs.push(json!({"op": if same { "again" } else { "other" }, "i": 0, "d": []}));
                        }
                        continue;
                    }
                    if held.is_empty() {
                        continue;
                    }
                    let i = (i - 1) % held.len();
                    let got = match op {
                        "read" => held[i].get_details().map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or(vec!["<none>".to_string()]),
                        "set" => {
                            held[i].set_details(Some(d.clone()));
                            d
                        }
                        "unset" => {
                            held[i].set_details(None);
                            vec![]
                        }
                        _ => {
                            let c = held[i].clone();
                            held.push(c);
                            vec![]
                        }
                    };
                    evs.push(json!({"op": op, "i": i + 1, "d": got}));
                }
                // in the end everything held is read
                for i in 0..held.len() {
                    let got: Vec<String> = held[i].get_details().map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or(vec!["<none>".to_string()]);
                    evs.push(json!({"op": "read", "i": i + 1, "d": got}));
                }
                Ok(json!({"rows": rows, "evs": evs}))
            });
            co.put(&match r {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => json!({"rows": [], "evs": [{"op": "err", "i": 0, "d": [e]}]}),
                Err(e) => json!({"rows": [], "evs": [{"op": "panic", "i": 0, "d": [e]}]}),
            });
        }
    }
}
