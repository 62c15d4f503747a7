mod js; mod mp; mod props; mod rng; mod val; mod wr;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn one(prop: &str, seed: u64, i: u64) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| props::case(prop, seed, i))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect() }
fn put(out: &str, prop: &str, seed: u64, i: u64, detail: &str) {
    std::fs::write(out, format!("{{\"property\": \"{prop}\", \"seed\": {seed}, \"case\": {i}, \"detail\": \"{}\"}}\n", esc(&if detail.chars().count() > 4000 { detail.chars().take(4000).chain("…".chars()).collect::<String>() } else { detail.to_string() }))).unwrap();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        // witness one PROP SEED CASE
        "one" => match one(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()) { Ok(()) => println!("holds"), Err(e) => { println!("{e}"); std::process::exit(1) } },
        // worker: PROP SEED MILLIS START STRIDE STATE OUT
        "work" => {
            let (prop, seed, ms, start, stride) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
            let mut st = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&a[7]).unwrap();
            let t = Instant::now();
            let mut i = start;
            while t.elapsed() < Duration::from_millis(ms) {
                st.seek(SeekFrom::Start(0)).unwrap(); st.write_all(&i.to_le_bytes()).unwrap();
                if let Err(e) = one(prop, seed, i) { put(&a[8], prop, seed, i, &e); std::process::exit(1) }
                i += stride;
            }
        }
        // witness search PROP SEED SECS OUT
        "search" => {
            let (prop, seed, secs, out) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<f64>().unwrap(), &a[5]);
            let n: u64 = 6;
            let ms = (secs * 1000.0) as u64;
            let me = std::env::current_exe().unwrap();
            let mut ws: Vec<_> = (0..n).map(|k| {
                let (st, o) = (format!("{out}.st{k}"), format!("{out}.{k}"));
                let _ = std::fs::remove_file(&o);
                let c = std::process::Command::new(&me).args(["work", prop, &seed.to_string(), &ms.to_string(), &k.to_string(), &n.to_string(), &st, &o]).stderr(std::process::Stdio::null()).spawn().unwrap();
                (c, st, o, u64::MAX, Instant::now(), false)
            }).collect();
            let at = |st: &str| -> u64 { std::fs::read(st).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0) };
            let mut found = false;
            loop {
                let mut live = false;
                for w in ws.iter_mut() {
                    if w.5 { continue }
                    match w.0.try_wait().unwrap() {
                        None => {
                            live = true;
                            let i = at(&w.1);
                            if i != w.3 { w.3 = i; w.4 = Instant::now() }
                            else if w.4.elapsed() > Duration::from_secs(20) { let _ = w.0.kill(); let _ = w.0.wait(); w.5 = true; if !found { found = true; put(out, prop, seed, i, "no answer after 20 s on this case") } }
                        }
                        Some(s) => {
                            w.5 = true;
                            match s.code() {
                                Some(0) => {}
                                Some(1) if std::path::Path::new(&w.2).exists() => if !found { found = true; std::fs::copy(&w.2, out).unwrap(); }
                                other => if !found { found = true; put(out, prop, seed, at(&w.1), &format!("the process ended abnormally ({other:?}, {s}) on this case")) }
                            }
                        }
                    }
                }
                if found { for w in ws.iter_mut() { if !w.5 { let _ = w.0.kill(); let _ = w.0.wait(); } } }
                if found || !live { break }
                std::thread::sleep(Duration::from_millis(50));
            }
            let mut cases = 0;
            for (k, w) in ws.iter().enumerate() { cases += (at(&w.1).saturating_sub(k as u64)) / n + 1; let _ = std::fs::remove_file(&w.1); let _ = std::fs::remove_file(&w.2); }
            println!("{cases}");
            std::process::exit(found as i32)
        }
        // witness replay FILE
        "replay" => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let f = |k: &str| -> String { let i = s.find(&format!("\"{k}\": ")).unwrap() + k.len() + 4; s[i..].trim_start_matches('"').chars().take_while(|c| c.is_alphanumeric()).collect() };
            match one(&f("property"), f("seed").parse().unwrap(), f("case").parse().unwrap()) { Ok(()) => println!("holds"), Err(e) => { println!("{e}"); std::process::exit(1) } }
        }
        _ => std::process::exit(2),
    }
}
