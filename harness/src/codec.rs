//! Compression: sequences of compress / serialize / read back / copy / corrupt / decompress.
use crate::util::*;
use lindera_compress::{compress, Algorithm, CompressedData};
use lindera_decompress::decompress;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

fn alg(a: &str) -> Algorithm {
    match a {
        "deflate" => Algorithm::Deflate,
        "zlib" => Algorithm::Zlib,
        "gzip" => Algorithm::Gzip,
        _ => Algorithm::Raw,
    }
}
/// Bytes as runs [byte, count, ...] while that is short; long irregular data as blocks of a digest.
fn show(b: &[u8]) -> Value {
    let mut runs: Vec<(u8, usize)> = vec![];
    for x in b {
        match runs.last_mut() {
            Some((y, n)) if y == x => *n += 1,
            _ => runs.push((*x, 1)),
        }
        if runs.len() > 300 {
            let h = b.chunks(997).map(|c| c.iter().fold(7u32, |h, x| (h.wrapping_mul(31).wrapping_add(*x as u32)) & 0x7fff_ffff)).collect::<Vec<_>>();
            return json!({"n": b.len(), "runs": [], "digest": h});
        }
    }
    json!({"n": b.len(), "runs": runs.iter().flat_map(|(x, n)| [*x as u64, *n as u64]).collect::<Vec<_>>(), "digest": []})
}
fn gen(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[255usize, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 8192, 4096]),
        3 => rng.below(max),
        _ => rng.below(200),
    };
    match rng.below(5) {
        0 => vec![*rng.pick(&[0u8, 255, 97]); n],
        1 => (0..n).map(|_| rng.next() as u8).collect(),
        2 => (0..n).map(|i| (i % 7) as u8).collect(),
        3 => (0..n).map(|i| if i < n / 2 { rng.next() as u8 } else { 0 }).collect(),
        _ => "日本語の形態素解析".bytes().cycle().take(n).collect(),
    }
}

pub fn run(out: &Path, seed: u64, n: usize, scn: Option<&Path>, sample: u64, max: usize, big: usize) {
    let mut rng = Rng::new(seed);
    let mut cases = Out::new(out, "cases.ndjson");
    let mut scns: Vec<(String, Vec<u8>, Vec<String>)> = vec![];
    if let Some(p) = scn {
        for l in fs::read_to_string(p).unwrap().lines() {
            if !rng.chance(sample) {
                continue;
            }
            let v: Value = serde_json::from_str(l).unwrap();
            scns.push((
                v["alg"].as_str().unwrap().to_string(),
                v["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
                v["ops"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            ));
        }
    }
    for _ in 0..n {
        let a = rng.pick(&["deflate", "zlib", "gzip", "raw"]).to_string();
        let mut data = gen(&mut rng, max);
        if rng.chance(25) {
            // data that looks like something: compressed already, once or twice, in one of the forms it has, or the head of it
            for _ in 0..1 + rng.below(2) {
                let b = *rng.pick(&["deflate", "zlib", "gzip", "raw"]);
                if let Ok(Ok(Ok(x))) = guard("compress", || compress(&data, alg(b)).map(|c| bincode::serialize(&c))) {
                    data = if rng.chance(70) { x[12..].to_vec() } else { x };
                }
            }
            match rng.below(8) {
                0 => data.truncate(1 + data.len() / 2),
                1 => data.extend(gen(&mut rng, 64)),
                2 => data = [*rng.pick(&[&[0x1f_u8, 0x8b][..], &[0x1f, 0x8b, 8, 0], &[0x78, 0x9c], &[0xef, 0xbb, 0xbf], &[0xfe, 0xff], b"PK", &[0x28, 0xb5, 0x2f, 0xfd]]), &data].concat(),
                _ => {}
            }
        }
        let mut ops = vec![];
        for _ in 0..rng.below(4) {
            ops.push(rng.pick(&["wire", "copy", "wire", "corrupt", "wire"]).to_string());
        }
        if rng.chance(60) {
            ops.retain(|o| o != "corrupt");
        }
        scns.push((a, data, ops));
    }
    // megabytes
    for i in 0..big {
        for a in ["deflate", "zlib", "gzip", "raw"] {
            let n = (1 << 20) + rng.below(7 << 20);
            let data = match (i + rng.below(2)) % 3 {
                0 => (0..n).map(|_| rng.next() as u8).collect(),
                1 => "日本語の形態素解析".bytes().cycle().take(n).collect(),
                _ => (0..n).map(|i| if i % 4096 < 64 { rng.next() as u8 } else { (i / 4096) as u8 }).collect::<Vec<u8>>(),
            };
            scns.push((a.to_string(), data, vec!["wire".to_string()]));
        }
    }
    // tens of megabytes that compress to very little
    for a in ["deflate", "zlib", "gzip", "raw"].iter().take(if big > 0 { 4 } else { 0 }) {
        let mut data = vec![rng.next() as u8; (17 << 20) + rng.below(16 << 20)];
        data.push(rng.next() as u8);
        scns.push((a.to_string(), data, vec!["wire".to_string()]));
    }
    for (a, data, ops) in scns {
        let mut evs = vec![];
        let mut cur: Option<CompressedData> = match guard("compress", || compress(&data, alg(&a))) {
            Ok(Ok(c)) => {
                evs.push(json!({"op": "pack", "r": "ok"}));
                Some(c)
            }
            Ok(Err(_)) => {
                evs.push(json!({"op": "pack", "r": "err"}));
                None
            }
            Err(_) => {
                evs.push(json!({"op": "pack", "r": "panic"}));
                None
            }
        };
        for o in ops.iter() {
            let c = match cur.clone() {
                Some(c) => c,
                None => break,
            };
            if o == "copy" {
                cur = Some(c.clone());
                evs.push(json!({"op": "copy", "r": "ok"}));
                continue;
            }
            let mut bytes = bincode::serialize(&c).unwrap();
            if o == "corrupt" {
                // the algorithm tag and the length stay valid, the data changes
                let at = 12 + rng.below(bytes.len().saturating_sub(12).max(1));
                match rng.below(3) {
                    0 if at < bytes.len() => bytes[at] ^= 1 << rng.below(8),
                    1 if bytes.len() > 12 => {
                        // cut the data
                        let keep = rng.below(bytes.len() - 12);
                        bytes.truncate(12 + keep);
                        bytes[4..12].copy_from_slice(&(keep as u64).to_le_bytes());
                    }
                    _ => {
                        // arbitrary data, or a truncated message
                        if rng.chance(50) {
                            let junk: Vec<u8> = (0..rng.below(60)).map(|_| rng.next() as u8).collect();
                            bytes.truncate(4);
                            bytes.extend((junk.len() as u64).to_le_bytes());
                            bytes.extend(junk);
                        } else {
                            let keep = rng.below(bytes.len());
                            bytes.truncate(keep);
                        }
                    }
                }
            }
            let r = guard("read back", || bincode::deserialize_from::<_, CompressedData>(bytes.as_slice()));
            let (r, v) = match r {
                Ok(Ok(v)) => ("ok", Some(v)),
                Ok(Err(_)) => ("err", None),
                Err(_) => ("panic", None),
            };
            cur = v;
            evs.push(json!({"op": o, "r": r}));
        }
        if let Some(c) = cur {
            evs.push(match guard("decompress", || decompress(c)) {
                Ok(Ok(b)) => json!({"op": "unpack", "r": "ok", "d": show(&b)}),
                Ok(Err(_)) => json!({"op": "unpack", "r": "err", "d": show(&[])}),
                Err(_) => json!({"op": "unpack", "r": "panic", "d": show(&[])}),
            });
        }
        cases.put(&json!({"alg": a, "data": show(&data), "evs": evs}));
    }
}
