//! Drives the library entry point: one job per line (input TAB include dirs...), one answer per line.
use std::io::{BufRead, Write};
use std::path::PathBuf;

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, c| (h ^ u64::from(*c)).wrapping_mul(0x100000001b3))
}

fn job(line: &str) -> String {
    let mut it = line.split('\t').map(PathBuf::from);
    let input = it.next().unwrap();
    let includes: Vec<PathBuf> = it.collect();
    let r = std::panic::catch_unwind(|| {
        idlc::Language::Rust
            .generate(&includes, &input)
            .map(|d| {
                let mut v: Vec<(String, String)> =
                    d.into_iter().map(|(k, v)| (k.display().to_string(), v)).collect();
                v.sort();
                v
            })
            .map_err(|e| e.to_string())
    });
    match r {
        Ok(Ok(files)) => {
            let mut s = String::from("OK");
            for (n, c) in files {
                s.push_str(&format!(" {n}={:016x}", fnv(c.as_bytes())));
            }
            s
        }
        Ok(Err(e)) => format!("ERR {}", e.replace('\n', " ")),
        Err(p) => format!(
            "PANIC {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")
        ),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(|| {
            let out = std::io::stdout();
            for l in std::io::stdin().lock().lines() {
                let a = job(&l.unwrap());
                let mut o = out.lock();
                writeln!(o, "{a}").unwrap();
                o.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
