//! Plumbing shared by all domains: seeded randomness, JSON helpers, panic capture, watchdog, scratch space.
use serde_json::{json, Value};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, v: &[T], pct: u64) -> Vec<T> {
        let mut o = vec![];
        for x in v {
            if self.chance(pct) {
                o.push(x.clone());
            }
        }
        o
    }
}

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn from_cps(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap())
        .collect()
}

thread_local! {
    static GUARDED: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Run `f`; a panic is an observation, not a crash of the harness.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    TICK.fetch_add(1, Ordering::SeqCst);
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = what.to_string();
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    TICK.fetch_add(1, Ordering::SeqCst);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// A call that does not return within the limit is reported (exit status 3) with its description.
pub fn start_watchdog(out: PathBuf, limit: Duration) {
    let said = out.clone();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("LHX_PANICS").is_ok() {
            eprintln!("{}", i)
        }
        // nobody catches this one: it ends the run
        if GUARDED.with(|g| g.get()) == 0 && std::thread::current().name() == Some("main") {
            let _ = fs::write(said.join("panic.txt"), format!("{}", i));
        }
    }));
    std::thread::spawn(move || {
        let mut last = TICK.load(Ordering::SeqCst);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = TICK.load(Ordering::SeqCst);
            if now != last || now % 2 == 0 {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > limit {
                let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let _ = fs::write(out.join("hang.txt"), &cur);
                std::process::exit(3);
            }
        }
    });
}

pub struct Out {
    dir: PathBuf,
    f: std::io::BufWriter<fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(dir: &Path, name: &str) -> Out {
        fs::create_dir_all(dir).unwrap();
        Out {
            dir: dir.to_path_buf(),
            f: std::io::BufWriter::new(fs::File::create(dir.join(name)).unwrap()),
            n: 0,
        }
    }
    pub fn put(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.f, v).unwrap();
        self.f.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn dir(&self) -> &Path {
        &self.dir
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        let _ = self.f.flush();
    }
}

/// A scratch directory below the output directory, removed by whoever removes the output directory.
pub fn scratch(out: &Path, name: &str) -> PathBuf {
    let d = out.join("scratch").join(name);
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn csv_field(s: &str) -> String {
    if s.contains(|c| c == ',' || c == '"' || c == '\n' || c == '\r') || s.starts_with(' ') {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
pub fn csv_line(fields: &[String]) -> String {
    // a record of one empty field must be quoted, or the reader takes it for a blank line
    if fields.len() == 1 && fields[0].is_empty() {
        return "\"\"\n".to_string();
    }
    let mut l = fields.iter().map(|f| csv_field(f)).collect::<Vec<_>>().join(",");
    l.push('\n');
    l
}
