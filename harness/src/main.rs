mod conf;
mod j;
mod local;
mod report;
mod run;
mod scatter;
#[cfg(feature = "checkpointing")]
mod store;
mod vclock;
mod world;
use j::*;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);

/// A fresh directory below $GSV_SCRATCH (always set by the driver)
pub fn scratch_dir() -> std::path::PathBuf {
    let base = std::env::var("GSV_SCRATCH").expect("GSV_SCRATCH");
    let d = std::path::Path::new(&base).join(format!(
        "s{}_{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    ));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_else(|| "run".into());
    let stdin = std::io::stdin();
    // the code under test prints to stdout when verbose: results go to the file given
    let path = std::env::args().nth(2).expect("output file");
    let mut out = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("scenario");
        let m = v.get("mode").and_then(|m| m.as_str()).unwrap_or(&mode);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match m {
            "run" => run::scenario(&v),
            "scatter" => scatter::scenario(&v),
            "local" => local::scenario(&v),
            "report" => report::scenario(&v),
            #[cfg(feature = "checkpointing")]
            "dump" => json!({"id":v["id"],"cks":run::ck::dump(std::path::Path::new(v["dir"].as_str().unwrap()))}),
            #[cfg(feature = "checkpointing")]
            "store" => store::ops(&v),
            #[cfg(feature = "checkpointing")]
            "roundtrip" => store::roundtrip(&v),
            m => panic!("mode {m}"),
        }));
        let r = match r {
            Ok(r) => r,
            Err(p) => json!({"id":v["id"],"harness_panic":run::panic_msg(p)}),
        };
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
