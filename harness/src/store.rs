//! Checkpoint store: sequences of operations, round trips, damaged files.
use crate::conf;
use crate::j::*;
use crate::run::panic_msg;
use globalsearch::checkpoint::{CheckpointError, CheckpointManager, read_checkpoint_file};
use globalsearch::types::{CheckpointConfig, LocalSolution, OQNLPCheckpoint, SolutionSet};
use ndarray::Array1;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;

fn sol(v: &Value) -> LocalSolution {
    LocalSolution { point: Array1::from(j2vf(&v[0])), objective: j2f(&v[1]) }
}

pub fn j2ck(v: &Value) -> OQNLPCheckpoint {
    OQNLPCheckpoint {
        params: conf::params(&v["params"]),
        current_iteration: u(&v["it"]),
        merit_threshold: j2f(&v["thr"]),
        solution_set: opt(v, "set")
            .map(|s| SolutionSet { solutions: Array1::from(s.as_array().unwrap().iter().map(sol).collect::<Vec<_>>()) }),
        reference_set: v["ref"].as_array().unwrap().iter().map(|p| Array1::from(j2vf(p))).collect(),
        unchanged_cycles: u(&v["unch"]),
        elapsed_time: j2f(&v["elapsed"]),
        distance_filter_solutions: v["dist"].as_array().unwrap().iter().map(sol).collect(),
        current_seed: u64_(&v["seed"]),
        target_objective: opt(v, "target").map(j2f),
        exclude_out_of_bounds: b(&v["excl"]),
        #[cfg(feature = "rayon")]
        batch_iterations: opt(v, "batch").map(u),
        #[cfg(feature = "rayon")]
        enable_parallel: b(&v["par"]),
        abs_tol: j2f(&v["abs"]),
        rel_tol: j2f(&v["rel"]),
        timestamp: v["ts"].as_str().unwrap().to_string(),
    }
}

fn h(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}
fn hs<'a>(it: impl IntoIterator<Item = &'a f64>) -> Vec<String> {
    it.into_iter().map(|x| h(*x)).collect()
}

/// Every field, floating-point values as bit patterns (built field by field, not with Debug)
pub fn ckbits(c: &OQNLPCheckpoint) -> Value {
    let s = |s: &LocalSolution| json!([hs(&s.point), h(s.objective)]);
    let mut v = json!({
        "params":conf::params2j(&c.params),"tf":h(c.params.threshold_factor),"df":h(c.params.distance_factor),
        "it":c.current_iteration,"thr":h(c.merit_threshold),
        "set":c.solution_set.as_ref().map(|q| q.solutions.iter().map(s).collect::<Vec<_>>()),
        "ref":c.reference_set.iter().map(hs).collect::<Vec<_>>(),
        "unch":c.unchanged_cycles,"elapsed":h(c.elapsed_time),
        "dist":c.distance_filter_solutions.iter().map(s).collect::<Vec<_>>(),
        "seed":c.current_seed.to_string(),"target":c.target_objective.map(h),
        "excl":c.exclude_out_of_bounds,"abs":h(c.abs_tol),"rel":h(c.rel_tol),"ts":c.timestamp});
    #[cfg(feature = "rayon")]
    {
        v["batch"] = json!(c.batch_iterations.map(|x| x.to_string()));
        v["par"] = json!(c.enable_parallel);
    }
    v
}

fn err(e: &CheckpointError) -> String {
    match e {
        CheckpointError::IoError { .. } => "io",
        CheckpointError::SerializationError { .. } => "decode",
        CheckpointError::CheckpointNotFound { .. } => "notfound",
        CheckpointError::InvalidCheckpoint { .. } => "invalid",
        CheckpointError::DirectoryCreationFailed { .. } => "dir",
    }
    .to_string()
}

pub fn sample(tag: u64, it: usize, extra: usize) -> OQNLPCheckpoint {
    let p = json!({"iterations":10,"population":10,"wait":2,"tf":0.5,"df":0.25,"seed":tag.to_string(),
        "solver":{"type":"COBYLA","max_iter":7,"initial_step_size":0.5}});
    OQNLPCheckpoint {
        params: conf::params(&p),
        current_iteration: it,
        merit_threshold: tag as f64,
        solution_set: None,
        reference_set: (0..(3 + extra)).map(|i| Array1::from(vec![i as f64, tag as f64])).collect(),
        unchanged_cycles: 1,
        elapsed_time: 0.0,
        distance_filter_solutions: vec![],
        current_seed: tag,
        target_objective: None,
        exclude_out_of_bounds: false,
        #[cfg(feature = "rayon")]
        batch_iterations: None,
        #[cfg(feature = "rayon")]
        enable_parallel: true,
        abs_tol: 1e-8,
        rel_tol: 1e-6,
        timestamp: format!("tag {tag}"),
    }
}

fn listing(dir: &Path) -> Value {
    let mut v: Vec<(String, Value)> = vec![];
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let c = std::fs::read(e.path()).unwrap_or_default();
            let j = match catch_unwind(AssertUnwindSafe(|| read_checkpoint_file(&e.path()))) {
                Ok(Ok(c)) => json!(["ck", c.current_seed, c.current_iteration]),
                _ => json!(["raw", c.len(), String::from_utf8_lossy(&c[..c.len().min(12)])]),
            };
            v.push((n, j));
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    json!(v)
}

fn loaded(r: Result<OQNLPCheckpoint, CheckpointError>) -> Value {
    match r {
        // a checkpoint no save produced shows as a mismatch
        Ok(c) => {
            let same = (0..4).any(|x| ckbits(&c) == ckbits(&sample(c.current_seed, c.current_iteration, x * 40)));
            json!({"tag":c.current_seed,"it":c.current_iteration,"whole":same})
        }
        Err(e) => json!({"err":err(&e)}),
    }
}

/// {"ops":[...], "list":bool}: results of the operations, in order
pub fn ops(v: &Value) -> Value {
    let (base, own) = match opt(v, "dir") {
        Some(d) => (std::path::PathBuf::from(d.as_str().unwrap()), false),
        None => (crate::scratch_dir(), true),
    };
    let dir = base.join("ck");
    let mut ms: Vec<Option<CheckpointManager>> = (0..8).map(|_| None).collect();
    let mut outs = vec![];
    for op in v["ops"].as_array().unwrap() {
        let m = op.get("m").map(u).unwrap_or(0);
        let r = catch_unwind(AssertUnwindSafe(|| match op["op"].as_str().unwrap() {
            "mgr" => {
                let c = CheckpointConfig {
                    checkpoint_dir: dir.clone(),
                    checkpoint_name: op["name"].as_str().unwrap().to_string(),
                    save_frequency: 1,
                    keep_all: b(&op["keep_all"]),
                    auto_resume: true,
                };
                match CheckpointManager::new(c) {
                    Ok(x) => {
                        ms[m] = Some(x);
                        json!("ok")
                    }
                    Err(e) => json!({"err":err(&e)}),
                }
            }
            "save" => {
                let it = u(&op["it"]);
                let c = sample(u64_(&op["tag"]), it, op.get("extra").map(u).unwrap_or(0) * 40);
                match ms[m].as_ref().unwrap().save_checkpoint(&c, it) {
                    Ok(p) => json!({"file":p.file_name().unwrap().to_string_lossy()}),
                    Err(e) => json!({"err":err(&e)}),
                }
            }
            "load" => loaded(ms[m].as_ref().unwrap().load_latest_checkpoint()),
            "exists" => json!(ms[m].as_ref().unwrap().checkpoint_exists()),
            "clean" => match ms[m].as_ref().unwrap().cleanup_old_checkpoints(u(&op["n"])) {
                Ok(()) => json!("ok"),
                Err(e) => json!({"err":err(&e)}),
            },
            "read" => loaded(read_checkpoint_file(&dir.join(op["p"].as_str().unwrap()))),
            "put" => {
                std::fs::create_dir_all(&dir).unwrap();
                std::fs::write(dir.join(op["p"].as_str().unwrap()), op["data"].as_str().unwrap()).unwrap();
                json!("ok")
            }
            "rm" => {
                let _ = std::fs::remove_file(dir.join(op["p"].as_str().unwrap()));
                json!("ok")
            }
            "rmdir" => {
                let _ = std::fs::remove_dir_all(&dir);
                json!("ok")
            }
            o => panic!("store op {o}"),
        }));
        let r = r.unwrap_or_else(|p| json!({"panic":panic_msg(p)}));
        outs.push(if v.get("list").map(b).unwrap_or(true) { json!([r, listing(&dir)]) } else { json!([r, []]) });
    }
    if own {
        let _ = std::fs::remove_dir_all(&base);
    }
    json!({"id":v["id"],"outs":outs})
}

/// Round trip of one checkpoint, and what happens to its damaged forms
pub fn roundtrip(v: &Value) -> Value {
    let base = crate::scratch_dir();
    let c = j2ck(&v["ck"]);
    let want = ckbits(&c);
    let mk = |keep_all: bool, name: &str| {
        CheckpointManager::new(CheckpointConfig {
            checkpoint_dir: base.join("ck"),
            checkpoint_name: name.to_string(),
            save_frequency: 1,
            keep_all,
            auto_resume: false,
        })
        .unwrap()
    };
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Value, String> {
        let m = mk(v["keep_all"].as_bool().unwrap_or(false), "c");
        let path = m.save_checkpoint(&c, c.current_iteration).map_err(|e| format!("save: {e:?}"))?;
        let bytes = std::fs::read(&path).unwrap();
        let l1 = m.load_latest_checkpoint().map_err(|e| format!("load: {e:?}"))?;
        let l2 = m.load_checkpoint_from_path(&path).map_err(|e| format!("load path: {e:?}"))?;
        let l3 = read_checkpoint_file(&path).map_err(|e| format!("read: {e:?}"))?;
        let m2 = mk(false, "again");
        let p2 = m2.save_checkpoint(&l1, l1.current_iteration).map_err(|e| format!("save: {e:?}"))?;
        let again = std::fs::read(&p2).unwrap();
        let mut damage = vec![];
        let dm = base.join("d.bin");
        let mut probe = |what: String, data: &[u8]| {
            std::fs::write(&dm, data).unwrap();
            let a = catch_unwind(AssertUnwindSafe(|| read_checkpoint_file(&dm)));
            let bb = catch_unwind(AssertUnwindSafe(|| m2.load_checkpoint_from_path(&dm)));
            let show = |r: std::thread::Result<Result<OQNLPCheckpoint, CheckpointError>>| match r {
                Ok(Ok(c)) => {
                    if ckbits(&c) == want { "same".to_string() } else { "other".to_string() }
                }
                Ok(Err(e)) => err(&e),
                Err(p) => format!("panic {}", panic_msg(p)),
            };
            damage.push(json!([what, show(a), show(bb)]));
        };
        if v.get("truncate").map(|x| b(x)).unwrap_or(false) {
            for n in 0..bytes.len() {
                probe(format!("truncated to {n}"), &bytes[..n]);
            }
        }
        if let Some(fs) = opt(v, "foreign") {
            for f in fs.as_array().unwrap() {
                let d: Vec<u8> = f.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                probe(format!("foreign {} bytes", d.len()), &d);
            }
        }
        if let Some(ms) = opt(v, "mutate") {
            for f in ms.as_array().unwrap() {
                // [position as a fraction, 8 bytes written there]
                let mut d = bytes.clone();
                let pos = ((d.len() as f64) * f[0].as_f64().unwrap()) as usize;
                for (i, x) in f[1].as_array().unwrap().iter().enumerate() {
                    if pos + i < d.len() {
                        d[pos + i] = x.as_u64().unwrap() as u8;
                    }
                }
                probe(format!("mutated at {pos}"), &d);
            }
        }
        let same = vec![ckbits(&l1) == want, ckbits(&l2) == want, ckbits(&l3) == want];
        let bytes_eq = again == bytes;
        let missing = match read_checkpoint_file(&base.join("nope.bin")) {
            Err(e) => err(&e),
            Ok(_) => "loaded".to_string(),
        };
        let display = !format!("{l1}").is_empty();
        let diff = if same[0] { Value::Null } else { json!([want, ckbits(&l1)]) };
        Ok(json!({"len":bytes.len(),"same":same,"bytes":bytes_eq,"display":display,"missing":missing,
            "damage":damage,"diff":diff}))
    }));
    let out = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"err":e}),
        Err(p) => json!({"panic":panic_msg(p)}),
    };
    let _ = std::fs::remove_dir_all(&base);
    json!({"id":v["id"],"out":out})
}
