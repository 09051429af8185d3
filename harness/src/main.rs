mod charf;
mod cli;
mod codec;
mod config;
mod contained;
mod fault;
mod pipe;
mod session;
mod src;
mod tok;
mod tokf;
mod total;
mod util;
mod world;
use std::path::PathBuf;
use std::time::Duration;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let dom = a[1].clone();
    let out = PathBuf::from(get("--out").expect("--out"));
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let n = |k: &str, d: usize| get(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    let scn = get("--scn").map(PathBuf::from);
    std::fs::create_dir_all(&out).unwrap();
    util::start_watchdog(out.clone(), Duration::from_secs(n("--limit", 30) as u64));
    match dom.as_str() {
        "tok" => {
            let prof = get("--profile").unwrap_or_default();
            let mut p = world::Profile { users: 30, unk_heavy: false, delim: 8, homograph: false, kanji: false, crowd: true, kinds: false };
            let mut o = tok::Opts { worlds: n("--worlds", 50), texts: n("--texts", 30), parts: false, nou: false, decompose: 30, maxlen: n("--maxlen", 10), sample: n("--sample", 100) as u64, long: n("--long", 0), longlen: n("--longlen", 70), scale: n("--scale", 0), cuts: n("--cuts", 0) };
            match prof.as_str() {
                "min" => o.decompose = 0,
                "unk" => { p.unk_heavy = true; p.users = 10; }
                "user" => { p.users = 100; p.kinds = true; o.nou = true; }
                "details" => { p.homograph = true; p.users = 50; }
                "sent" => { p.delim = 30; o.parts = true; }
                "dec" => { p.kanji = true; o.decompose = 85; }
                _ => {}
            }
            tok::run(&out, seed, &p, &o, scn.as_deref());
        }
        "hold" => {
            let p = world::Profile { users: 50, unk_heavy: false, delim: 8, homograph: true, kanji: false, crowd: false, kinds: true };
            tok::hold(&out, seed, &p, n("--worlds", 50), n("--texts", 10), scn.as_deref(), n("--sample", 100) as u64);
        }
        "chain" => {
            let prof = get("--profile").unwrap_or_default();
            let mut o = charf::Opts { n: n("--n", 500), maxlen: n("--maxlen", 8), kinds: vec!["map", "rex", "norm"], chain: (1, 2), tokens: false, marks: false, sample: n("--sample", 20) as u64, long: n("--long", 20), scale: n("--scale", 0), marks_grid: false };
            match prof.as_str() {
                "marks" => { o.kinds = vec!["iter"]; o.chain = (1, 1); o.marks = true; o.marks_grid = true; }
                "offsets" => { o.kinds = vec!["map", "rex", "norm", "iter"]; o.chain = (0, 3); o.tokens = true; }
                _ => {}
            }
            charf::run(&out, seed, &o, scn.as_deref());
        }
        "tf" => {
            let prof = get("--profile").unwrap_or_default();
            let kinds: Vec<&'static str> = match prof.as_str() {
                "select" => tokf::ALL[..7].to_vec(),
                "rewrite" => tokf::ALL[7..15].to_vec(),
                "compound" => vec!["comp"],
                "number" => vec!["num"],
                _ => tokf::ALL.to_vec(),
            };
            let o = tokf::Opts { n: n("--n", 500), kinds, any: tokf::ALL.to_vec(), sample: n("--sample", 20) as u64, maxtoks: n("--maxtoks", 7) };
            tokf::run(&out, seed, &o, scn.as_deref());
        }
        "src" => {
            let o = src::Opts { ty: get("--ty").unwrap(), n: n("--n", 200), sample: n("--sample", 20) as u64, big: n("--big", 1), maxrows: n("--maxrows", 25), grid: n("--grid", 100) as u64 };
            src::run(&out, seed, &o, scn.as_deref());
        }
        "fault" => fault::run(&out, seed, n("--n", 200), scn.as_deref(), n("--sample", 100) as u64, n("--grid", 100) as u64),
        "codec" => codec::run(&out, seed, n("--n", 200), scn.as_deref(), n("--sample", 100) as u64, n("--maxlen", 40000), n("--big", 0)),
        "config" => config::run(&out, seed, n("--n", 200), scn.as_deref(), n("--sample", 100) as u64),
        "pipe" => {
            let o = pipe::Opts { worlds: n("--worlds", 20), confs: n("--confs", 10), texts: n("--texts", 3), sample: n("--sample", 10) as u64, maxlen: n("--maxlen", 10), chain: n("--chain", 3) };
            pipe::run(&out, seed, &o, scn.as_deref());
        }
        "session" => {
            let o = session::Opts { groups: n("--groups", 10), scn: n("--scenarios", 60), random: n("--random", 10), len: n("--len", 60) };
            session::run(&out, seed, &o, scn.as_deref());
        }
        "one" => {
            session::one(&PathBuf::from(get("--cfg").unwrap()), &PathBuf::from(get("--text").unwrap()));
            return;
        }
        "sources" => {
            contained::sources(&out, seed);
            contained::reference(&out);
            return;
        }
        "contained" => contained::run(&out, &PathBuf::from(get("--srcs").unwrap()), seed, n("--n", 60), scn.as_deref(), n("--sample", 100) as u64),
        "cli" => cli::run(&out, &PathBuf::from(get("--srcs").unwrap()), seed, n("--n", 60), scn.as_deref(), n("--sample", 100) as u64),
        "total" => {
            let o = total::Opts { profile: get("--profile").unwrap_or_default(), sample: n("--sample", 100) as u64, part: n("--part", 0), parts: n("--parts", 1), worlds: n("--worlds", 4), n: n("--n", 10), chunk: n("--chunk", 61), len: n("--len", 3000), heavy: n("--heavy", 40000), every: n("--every", 5), huge: n("--huge", 300_000) };
            total::run(&out, seed, &o, scn.as_deref());
        }
        _ => panic!("unknown domain"),
    }
    let _ = std::fs::remove_dir_all(out.join("scratch"));
}
