//! Whole optimisation runs (possibly several in a row over the same checkpoint directory).
use crate::conf;
use crate::j::*;
use crate::world::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::{OQNLP, OQNLPError};
use globalsearch::types::{LocalSolution, SolutionSet};
use ndarray::{Array1, Array2};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

pub fn sol2j(s: &LocalSolution) -> Value {
    json!([vf2j(&s.point), f2j(s.objective)])
}

pub fn set2j(s: &SolutionSet) -> Value {
    Value::Array(s.solutions.iter().map(sol2j).collect())
}

pub fn obs2j(o: &Observer) -> Value {
    let s1 = |s: &globalsearch::observers::Stage1State| {
        json!({"ref":s.reference_set_size(),"best":f2j(s.best_objective()),"sub":s.current_substage(),
          "evals":s.function_evaluations(),"trials":s.trial_points_generated(),
          "bp":s.best_point().map(vf2j),"time":s.total_time().map(f2j)})
    };
    let s2 = |s: &globalsearch::observers::Stage2State| {
        json!({"best":f2j(s.best_objective()),"size":s.solution_set_size(),"it":s.current_iteration(),
          "thr":f2j(s.threshold_value()),"calls":s.local_solver_calls(),"improved":s.improved_local_calls(),
          "evals":s.function_evaluations(),"unch":s.unchanged_cycles(),"bp":s.best_point().map(vf2j),
          "last":s.last_added_point().map(vf2j),"time":s.total_time().map(f2j)})
    };
    json!({"s1":o.stage1().map(s1),"s1f":o.stage1_final().map(s1),"s2":o.stage2().map(s2),
        "elapsed":o.elapsed_time().map(f2j),"obs1":o.should_observe_stage1(),"obs2":o.should_observe_stage2(),
        "timing":o.is_timing_enabled()})
}

pub fn err2j(e: &OQNLPError) -> Value {
    let v = match e {
        OQNLPError::LocalSolverError(_) => "LocalSolverError",
        OQNLPError::NoFeasibleSolution { .. } => "NoFeasibleSolution",
        OQNLPError::ObjectiveFunctionEvaluationFailed { .. } => "ObjectiveFunctionEvaluationFailed",
        OQNLPError::ScatterSearchError(_) => "ScatterSearchError",
        OQNLPError::ScatterSearchRunError(_) => "ScatterSearchRunError",
        OQNLPError::InvalidPopulationSize(_) => "InvalidPopulationSize",
        OQNLPError::InvalidIterations(..) => "InvalidIterations",
        OQNLPError::DistanceFilterError(_) => "DistanceFilterError",
        OQNLPError::InvalidThresholdFactor(_) => "InvalidThresholdFactor",
        OQNLPError::InvalidCustomPointsDimension { .. } => "InvalidCustomPointsDimension",
        OQNLPError::CustomPointOutOfBounds { .. } => "CustomPointOutOfBounds",
        #[cfg(feature = "checkpointing")]
        OQNLPError::CheckpointError(_) => "CheckpointError",
    };
    let d = format!("{e:?}");
    json!({"variant":v,"debug":d,"msg":e.to_string()})
}

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What is written to stderr until `end` (scenarios of a process run one after another)
struct Stderr {
    path: std::path::PathBuf,
    saved: i32,
}

impl Stderr {
    fn start() -> Stderr {
        use std::os::fd::AsRawFd;
        let path = crate::scratch_dir().join("stderr");
        let f = std::fs::File::create(&path).unwrap();
        let saved = unsafe { dup(2) };
        unsafe { dup2(f.as_raw_fd(), 2) };
        Stderr { path, saved }
    }
    fn end(self) -> String {
        unsafe {
            dup2(self.saved, 2);
            close(self.saved);
        }
        String::from_utf8_lossy(&std::fs::read(&self.path).unwrap()).into_owned()
    }
}

pub fn make_observer(v: &Value, log: &Log) -> Observer {
    let mut o = Observer::new();
    if v.get("stage1").map(b).unwrap_or(true) {
        o = o.with_stage1_tracking();
    }
    if v.get("stage2").map(b).unwrap_or(true) {
        o = o.with_stage2_tracking();
    }
    if v.get("timing").map(b).unwrap_or(false) {
        o = o.with_timing();
    }
    if let Some(m) = opt(v, "mode") {
        o = o.with_mode(match m.as_str().unwrap() {
            "s1" => ObserverMode::Stage1Only,
            "s2" => ObserverMode::Stage2Only,
            _ => ObserverMode::Both,
        });
    }
    match v.get("cb").and_then(|x| x.as_str()).unwrap_or("log") {
        "none" => {}
        "default" => o = o.with_default_callback(),
        "stage1" => o = o.with_stage1_callback(),
        "stage2" => o = o.with_stage2_callback(),
        _ => {
            let l = log.clone();
            o = o.with_callback(move |obs| {
                let s = obs2j(obs);
                log_cb(&l, s);
            });
        }
    }
    if let Some(f) = opt(v, "freq") {
        o = o.with_callback_frequency(u(f));
    }
    if v.get("unique").map(b).unwrap_or(false) {
        o = o.unique_updates();
    }
    o
}

#[cfg(feature = "checkpointing")]
pub mod ck {
    use super::*;
    use globalsearch::checkpoint::read_checkpoint_file;
    use globalsearch::types::{CheckpointConfig, OQNLPCheckpoint};
    use std::path::Path;

    pub fn config(v: &Value, dir: &Path) -> CheckpointConfig {
        CheckpointConfig {
            checkpoint_dir: dir.join(v.get("dir").and_then(|x| x.as_str()).unwrap_or("ck")),
            checkpoint_name: v.get("name").and_then(|x| x.as_str()).unwrap_or("run").to_string(),
            save_frequency: v.get("freq").map(u).unwrap_or(1),
            keep_all: v.get("keep_all").map(b).unwrap_or(true),
            auto_resume: v.get("auto_resume").map(b).unwrap_or(true),
        }
    }

    pub fn ck2j(c: &OQNLPCheckpoint) -> Value {
        let mut v = json!({
            "params":conf::params2j(&c.params),"it":c.current_iteration,"thr":f2j(c.merit_threshold),
            "set":c.solution_set.as_ref().map(set2j),
            "ref":c.reference_set.iter().map(vf2j).collect::<Vec<_>>(),
            "unch":c.unchanged_cycles,"elapsed":f2j(c.elapsed_time),
            "dist":c.distance_filter_solutions.iter().map(sol2j).collect::<Vec<_>>(),
            "seed":c.current_seed.to_string(),"target":c.target_objective.map(f2j),
            "excl":c.exclude_out_of_bounds,"abs":f2j(c.abs_tol),"rel":f2j(c.rel_tol),"ts":c.timestamp});
        #[cfg(feature = "rayon")]
        {
            v["batch"] = json!(c.batch_iterations);
            v["par"] = json!(c.enable_parallel);
        }
        #[cfg(not(feature = "rayon"))]
        {
            v["batch"] = Value::Null;
            v["par"] = Value::Null;
        }
        v
    }

    /// Every checkpoint file below `dir`, in name order
    pub fn dump(dir: &Path) -> Value {
        let mut names = vec![];
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                names.push(e.file_name().to_string_lossy().to_string());
            }
        }
        names.sort();
        Value::Array(
            names
                .iter()
                .filter(|n| n.ends_with(".bin"))
                .map(|n| match read_checkpoint_file(&dir.join(n)) {
                    Ok(c) => json!({"file":n,"ck":ck2j(&c)}),
                    Err(e) => json!({"file":n,"err":format!("{e:?}")}),
                })
                .collect(),
        )
    }
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn log2j(log: &Log, times: bool, with_log: bool) -> (Value, Value) {
    let g = lock(log);
    let evs: Vec<Value> = if with_log {
        g.ev
            .iter()
            .map(|e| {
                let v = match (e.kind, e.val) {
                    (0, None) => json!("err"),
                    (_, Some(x)) => f2j(x),
                    _ => Value::Null,
                };
                if times {
                    json!([e.kind, e.pid, v, e.thread, e.t_us])
                } else {
                    json!([e.kind, e.pid, v, e.thread])
                }
            })
            .collect()
    } else {
        vec![]
    };
    let pts = if with_log { g.pts.iter().map(|p| vf2j(p)).collect::<Vec<_>>() } else { vec![] };
    (json!({"ev":evs,"pts":pts}), Value::Array(g.cbs.clone()))
}

pub fn fault(v: &Value) -> Option<Fault> {
    let f = opt(v, "fault")?;
    let n = u64_(&f["n"]);
    Some(Fault {
        kind: match f["kind"].as_str().unwrap() {
            "obj" => 0,
            "grad" => 1,
            "hess" => 2,
            _ => 255,
        },
        n,
        upto: f.get("upto").map(u64_).unwrap_or(n),
        how: f["how"].as_str().unwrap().to_string(),
    })
}

#[allow(unused_variables, unused_mut)]
fn one_run(world_j: &Value, run: &Value, dir: &std::path::Path) -> Value {
    let log: Log = Arc::new(Mutex::new(LogInner::default()));
    let mut world = World::from_json(world_j, Some(log.clone()));
    world.fault = fault(run);
    if let Some(x) = opt(run, "sleep_us") {
        world.sleep_us = u64_(x);
    }
    if let Some(x) = opt(run, "jitter") {
        world.jitter = u64_(x);
    }
    let virt = opt(run, "durs").is_some();
    if let Some(x) = opt(run, "durs") {
        world.durs = Arc::new(x.as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect());
    }
    let counts = world.count.clone();
    let threads = run.get("threads").map(u).unwrap_or(0);
    let obs_after: Arc<Mutex<Value>> = Arc::new(Mutex::new(Value::Null));
    let resumed: Arc<Mutex<Value>> = Arc::new(Mutex::new(Value::Null));
    let oa = obs_after.clone();
    let rs = resumed.clone();
    let lg = log.clone();
    let wq = world.quiet();
    let body = move || -> Result<SolutionSet, Value> {
        let p = conf::params(&run["params"]);
        let mut o = OQNLP::new(world, p).map_err(|e| json!({"at":"new","e":err2j(&e)}))?;
        // the settings may be given in any order; "first" settings are overridden by the ones that follow
        let names = ["points", "target", "excl", "tol", "max_time", "verbose", "batch", "parallel", "obs", "ckpt"];
        let mut steps: Vec<(String, &Value)> = vec![];
        if let Some(f) = opt(run, "first") {
            for s in f.as_array().unwrap() {
                // (a setting that is no longer overridden is not given at all)
                if opt(run, s[0].as_str().unwrap()).is_some() {
                    steps.push((s[0].as_str().unwrap().to_string(), &s[1]));
                }
            }
        }
        let mut order: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        if let Some(x) = opt(run, "order") {
            order = x.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        }
        for k in order {
            if let Some(x) = opt(run, &k) {
                steps.push((k, x));
            }
        }
        for (k, x) in steps {
            match k.as_str() {
                "points" => {
                    let rows: Vec<Vec<f64>> = x.as_array().unwrap().iter().map(j2vf).collect();
                    let nc = rows.first().map(|r| r.len()).unwrap_or(run["ncols"].as_u64().unwrap_or(1) as usize);
                    let a = Array2::from_shape_fn((rows.len(), nc), |(i, j)| rows[i][j]);
                    o = o.with_points(a).map_err(|e| json!({"at":"points","e":err2j(&e)}))?;
                }
                "target" => o = o.target_objective(j2f(x)),
                "excl" => o = if b(x) { o.exclude_out_of_bounds() } else { o.set_exclude_out_of_bounds(false) },
                "tol" => o = o.with_tolerance(j2f(&x[0]), j2f(&x[1])),
                "max_time" => o = o.max_time(j2f(x)),
                "verbose" => {
                    if b(x) {
                        o = o.verbose();
                    }
                }
                #[cfg(feature = "rayon")]
                "batch" => o = o.batch_iterations(u(x)),
                #[cfg(feature = "rayon")]
                "parallel" => o = o.parallel(b(x)),
                "obs" => o = o.add_observer(make_observer(x, &lg)),
                #[cfg(feature = "checkpointing")]
                "ckpt" => {
                    o = o
                        .with_checkpointing(ck::config(x, dir))
                        .map_err(|e| json!({"at":"with_checkpointing","e":err2j(&e)}))?
                }
                _ => {}
            }
        }
        #[cfg(feature = "checkpointing")]
        {
            if let Some(x) = opt(run, "resume") {
                let np = conf::params(&x["params"]);
                let r = match opt(x, "file") {
                    None => o.resume_with_modified_params(np).map(|v| json!(v)),
                    Some(f) => o
                        .resume_from_checkpoint_with_params(&dir.join(f.as_str().unwrap()), np)
                        .map(|_| json!("ok")),
                };
                match r {
                    Ok(v) => *rs.lock().unwrap() = v,
                    Err(e) => {
                        *rs.lock().unwrap() = json!({"err":err2j(&e)});
                        return Err(json!({"at":"resume","e":err2j(&e)}));
                    }
                }
            }
        }
        let n = run.get("repeat").map(u).unwrap_or(1);
        let mut r = o.run();
        for _ in 1..n {
            r = o.run();
        }
        *oa.lock().unwrap() = o.observer().map(obs2j).unwrap_or(Value::Null);
        r.map_err(|e| json!({"at":"run","e":err2j(&e)}))
    };
    let console = run.get("console").map(b).unwrap_or(false).then(Stderr::start);
    let t0 = std::time::Instant::now();
    if virt {
        crate::vclock::start();
    }
    let res = catch_unwind(AssertUnwindSafe(|| {
        #[cfg(feature = "rayon")]
        {
            if threads > 0 {
                let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
                return pool.install(body);
            }
        }
        body()
    }));
    let console = console.map(|c| c.end());
    let vus = crate::vclock::now_us();
    crate::vclock::stop();
    let wall_us = t0.elapsed().as_micros() as u64;
    let (logj, cbs) = log2j(
        &log,
        run.get("times").map(b).unwrap_or(false),
        run.get("log").map(b).unwrap_or(true),
    );
    let mut out = match res {
        Ok(Ok(s)) => json!({"ok":set2j(&s)}),
        Ok(Err(e)) => json!({"err":e}),
        Err(p) => json!({"panic":panic_msg(p)}),
    };
    out["console"] = json!(console);
    out["log"] = logj;
    out["cbs"] = cbs;
    out["virtual_us"] = json!(vus);
    out["wall_us"] = json!(wall_us);
    out["obs"] = obs_after.lock().unwrap().clone();
    out["resumed"] = resumed.lock().unwrap().clone();
    out["counts"] = json!(
        counts.iter().map(|c| c.load(std::sync::atomic::Ordering::SeqCst)).collect::<Vec<_>>()
    );
    #[cfg(feature = "checkpointing")]
    if let Some(x) = opt(run, "ckpt") {
        if run.get("dump").map(b).unwrap_or(true) {
            out["cks"] = ck::dump(&ck::config(x, dir).checkpoint_dir);
        }
    }
    // Reference set of Stage 1 and outcomes of local searches, through the public components
    if run.get("solo").map(b).unwrap_or(false) {
        let pj = opt(run, "resume").map(|r| &r["params"]).unwrap_or(&run["params"]);
        let p = conf::params(pj);
        let mut points: Vec<Vec<f64>> = vec![];
        if let Some(a) = out.get("cks").and_then(|x| x.as_array()) {
            if let Some(last) = a.iter().rev().find(|c| c.get("ck").is_some()) {
                points = last["ck"]["ref"].as_array().unwrap().iter().map(j2vf).collect();
            }
        }
        if run.get("ss").map(b).unwrap_or(true) {
            let r = catch_unwind(AssertUnwindSafe(|| ss_run(&wq, run)));
            out["ss"] = match r {
                Ok(Ok((rs, best))) => {
                    for (x, _) in &rs {
                        points.push(x.to_vec());
                    }
                    json!({"ref":rs.iter().map(|(x, f)| json!([vf2j(x), f2j(*f)])).collect::<Vec<_>>(),
                        "best":vf2j(&best)})
                }
                Ok(Err(e)) => json!({"err":e}),
                Err(e) => json!({"panic":panic_msg(e)}),
            };
        }
        let mut seen = std::collections::HashSet::new();
        points.retain(|x| seen.insert(x.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        let solos: Vec<Value> = points.iter().map(|x| solo(&wq, &p, x)).collect();
        out["solo"] = Value::Array(solos);
    }
    out
}

pub fn ss_run(w: &World, run: &Value) -> Result<(Vec<(Array1<f64>, f64)>, Array1<f64>), String> {
    use globalsearch::scatter_search::ScatterSearch;
    let mut ss = ScatterSearch::new(w.quiet(), conf::params(&run["params"])).map_err(|e| format!("{e:?}"))?;
    #[cfg(feature = "rayon")]
    {
        ss = ss.parallel(run.get("parallel").map(b).unwrap_or(true));
    }
    if let Some(pts) = opt(run, "points") {
        ss = ss.with_custom_points(
            pts.as_array().unwrap().iter().map(|p| Array1::from(j2vf(p))).collect(),
        );
    }
    ss.run().map_err(|e| format!("{e:?}"))
}

pub fn solo(w: &World, p: &globalsearch::types::OQNLPParams, x: &[f64]) -> Value {
    let w = w.quiet();
    let cnt = w.count.clone();
    let f = w.raw_f(x);
    let ls = LocalSolver::new(w, p.local_solver_type.clone(), p.local_solver_config.clone());
    let r = catch_unwind(AssertUnwindSafe(|| ls.solve(Array1::from(x.to_vec()))));
    let evals = cnt[0].load(std::sync::atomic::Ordering::SeqCst);
    let mut v = match r {
        Ok(Ok(s)) => json!({"sol":sol2j(&s)}),
        Ok(Err(e)) => json!({"err":format!("{e:?}")}),
        Err(p) => json!({"panic":panic_msg(p)}),
    };
    v["p"] = vf2j(x);
    v["f"] = f.map(f2j).unwrap_or(Value::Null);
    v["evals"] = json!(evals);
    v
}

/// {"world":..., "runs":[...]}: the runs share one scratch directory
pub fn scenario(v: &Value) -> Value {
    let own = opt(v, "dir").is_none();
    let scratch = match opt(v, "dir") {
        Some(d) => std::path::PathBuf::from(d.as_str().unwrap()),
        None => crate::scratch_dir(),
    };
    let mut outs = vec![];
    for r in v["runs"].as_array().unwrap() {
        // file-system preparation between runs
        if let Some(ops) = opt(r, "fs") {
            for op in ops.as_array().unwrap() {
                let p = scratch.join(op["p"].as_str().unwrap());
                match op["op"].as_str().unwrap() {
                    "rm" => {
                        let _ = std::fs::remove_file(&p);
                    }
                    "write" => {
                        let _ = std::fs::create_dir_all(p.parent().unwrap());
                        std::fs::write(&p, op["data"].as_str().unwrap()).unwrap();
                    }
                    "cp" => {
                        std::fs::copy(scratch.join(op["from"].as_str().unwrap()), &p).unwrap();
                    }
                    o => panic!("fs op {o}"),
                }
            }
        }
        let w = opt(r, "world").unwrap_or(&v["world"]);
        outs.push(one_run(w, r, &scratch));
    }
    if own {
        let _ = std::fs::remove_dir_all(&scratch);
    }
    json!({"id":v["id"],"runs":outs})
}
