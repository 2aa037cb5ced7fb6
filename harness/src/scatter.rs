//! Stage 1 in isolation: the scatter search through its public methods.
use crate::conf;
use crate::j::*;
use crate::run::panic_msg;
use crate::world::*;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::{ScatterSearch, ScatterSearchError};
use ndarray::Array1;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

fn sserr(e: &ScatterSearchError) -> Value {
    let v = match e {
        ScatterSearchError::NoCandidates => "NoCandidates",
        ScatterSearchError::NoFeasibleCandidates { .. } => "NoFeasibleCandidates",
        ScatterSearchError::EvaluationError { .. } => "EvaluationError",
        ScatterSearchError::InvalidBounds { .. } => "InvalidBounds",
    };
    json!({"err":v,"msg":e.to_string()})
}

/// objective calls in the log from event `from` on: [point, value or "err"]
fn calls(log: &Log, from: usize) -> Value {
    let g = lock(log);
    Value::Array(
        g.ev[from..]
            .iter()
            .filter(|e| e.kind == 0)
            .map(|e| json!([vf2j(&g.pts[e.pid]), e.val.map(f2j).unwrap_or(json!("err"))]))
            .collect(),
    )
}

fn pairs(v: &[(Array1<f64>, f64)]) -> Value {
    Value::Array(v.iter().map(|(p, f)| json!([vf2j(p), f2j(*f)])).collect())
}

pub fn scenario(v: &Value) -> Value {
    let threads = v.get("threads").map(u).unwrap_or(0);
    let body = || -> Value {
        let r = catch_unwind(AssertUnwindSafe(|| inner(v)));
        r.unwrap_or_else(|p| json!({"panic":panic_msg(p)}))
    };
    #[cfg(feature = "rayon")]
    let mut out = if threads > 0 {
        rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(body)
    } else {
        body()
    };
    #[cfg(not(feature = "rayon"))]
    let mut out = {
        let _ = threads;
        body()
    };
    out["id"] = v["id"].clone();
    out
}

fn inner(v: &Value) -> Value {
    let params = conf::params(&v["params"]);
    let custom: Option<Vec<Array1<f64>>> =
        opt(v, "points").map(|p| p.as_array().unwrap().iter().map(|p| Array1::from(j2vf(p))).collect());
    let fail_pct = v.get("fail_pct").map(u64_).unwrap_or(0);
    let fresh = |w: World| {
        let mut s = ScatterSearch::new(w, params.clone())?;
        #[cfg(feature = "rayon")]
        if let Some(x) = opt(v, "parallel") {
            s = s.parallel(b(x));
        }
        if let Some(c) = &custom {
            s = s.with_custom_points(c.clone());
        }
        Ok::<_, ScatterSearchError>(s)
    };
    let world = || {
        let log: Log = Arc::new(Mutex::new(LogInner::default()));
        (World::from_json(&v["world"], Some(log.clone())), log)
    };
    let mut out = json!({});

    // the candidates the diversification will draw: the generator is seeded by the parameters only
    let (w, _) = world();
    let feas = w.clone();
    match fresh(w) {
        Err(e) => return json!({"new":sserr(&e)}),
        Ok(s) => {
            let n = params.population_size;
            let mut batches = vec![s.generate_stratified_samples(n).unwrap()];
            if feas.ncons > 0 {
                for _ in 0..10 {
                    batches.push(s.generate_stratified_samples(2 * n).unwrap());
                }
            }
            out["samples"] = Value::Array(
                batches
                    .iter()
                    .map(|bt| {
                        Value::Array(
                            bt.iter()
                                .map(|p| json!([vf2j(p), feas.feasible(&p.to_vec())]))
                                .collect(),
                        )
                    })
                    .collect(),
            );
        }
    }

    // A: step by step
    let (w, log) = world();
    let count = w.count.clone();
    let mut wa = w.clone();
    let n0 = {
        let mut s = fresh(w).unwrap();
        if let Err(e) = s.initialize_reference_set() {
            out["init"] = sserr(&e);
            out["init_calls"] = calls(&log, 0);
            return out;
        }
        out["init_calls"] = calls(&log, 0);
        count[0].load(SeqCst)
    };
    {
        let (w2, log) = world();
        wa.log = Some(log.clone());
        wa.count = w2.count.clone();
        wa.fail_from = n0;
        wa.fail_pct = fail_pct;
        let mut s = fresh(wa.clone()).unwrap();
        s.initialize_reference_set().unwrap();
        let at = lock(&log).ev.len();
        let trials = s.generate_trial_points().unwrap();
        out["gen_calls"] = calls(&log, at);
        let at = lock(&log).ev.len();
        s.update_reference_set(&trials);
        out["upd_calls"] = calls(&log, at);
        out["trials"] = Value::Array(
            trials.iter().map(|p| json!([vf2j(p), wa.feasible(&p.to_vec())])).collect(),
        );
        // another round would combine the best points of the new set
        out["trials2"] = Value::Array(
            s.generate_trial_points().unwrap().iter().map(|p| json!([vf2j(p), true])).collect(),
        );
        out["best"] = s.best_solution().map(|p| vf2j(&p)).unwrap_or(Value::Null);
    }
    // B: as a whole, same failures; C: every late evaluation fails, so that the initial set is returned
    for (name, pct) in [("full", fail_pct), ("only_init", 100)] {
        let (mut w, log) = world();
        w.fail_from = n0;
        w.fail_pct = pct;
        let s = fresh(w.clone()).unwrap();
        match s.run() {
            Ok((set, best)) => {
                out[name] = json!({"set":pairs(&set),"best":vf2j(&best),"calls":calls(&log, 0),
                    "feas":set.iter().map(|(p, _)| w.feasible(&p.to_vec())).collect::<Vec<_>>()})
            }
            Err(e) => out[name] = sserr(&e),
        }
    }
    let bounds = feas.variable_bounds();
    let (lo, up) = (bounds.column(0).to_owned(), bounds.column(1).to_owned());
    let mid = &lo / 2.0 + &up / 2.0;
    let mut req = vec![lo, up, mid];
    req.extend(custom.unwrap_or_default());
    out["required"] = Value::Array(
        req.iter().map(|p| json!([vf2j(p), feas.feasible(&p.to_vec())])).collect(),
    );
    out
}
