//! One local search through the library, and the same search by calling the algorithm directly.
use crate::conf;
use crate::j::*;
use crate::run::panic_msg;
use crate::world::*;
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::{LocalSolver, LocalSolverError};
use globalsearch::problem::Problem;
use ndarray::Array1;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};

fn err(e: &LocalSolverError) -> Value {
    let v = match e {
        #[cfg(feature = "argmin")]
        LocalSolverError::InvalidLBFGSConfig { .. } => "InvalidLBFGSConfig",
        #[cfg(feature = "argmin")]
        LocalSolverError::InvalidNelderMeadConfig { .. } => "InvalidNelderMeadConfig",
        #[cfg(feature = "argmin")]
        LocalSolverError::InvalidSteepestDescentConfig { .. } => "InvalidSteepestDescentConfig",
        #[cfg(feature = "argmin")]
        LocalSolverError::InvalidTrustRegionConfig { .. } => "InvalidTrustRegionConfig",
        #[cfg(feature = "argmin")]
        LocalSolverError::InvalidNewtonCG { .. } => "InvalidNewtonCG",
        LocalSolverError::InvalidCOBYLAConfig { .. } => "InvalidCOBYLAConfig",
        LocalSolverError::RunFailed { .. } => "RunFailed",
        LocalSolverError::NoSolution { .. } => "NoSolution",
    };
    json!({"err":v,"msg":e.to_string()})
}

fn events(log: &Log) -> Value {
    let g = lock(log);
    Value::Array(
        g.ev.iter()
            .filter(|e| e.kind < 3)
            .map(|e| json!([e.kind, vf2j(&g.pts[e.pid]), e.val.map(f2j).unwrap_or(json!("err"))]))
            .collect(),
    )
}

/// the builder's starting point may be `new` with explicit arguments
pub fn config(v: &Value) -> LocalSolverConfig {
    conf::solver_config(v)
}

pub fn scenario(v: &Value) -> Value {
    let mut out = json!({"id":v["id"]});
    let start = Array1::from(j2vf(&v["start"]));
    let t = v["solver"]["type"].as_str().unwrap();
    let world = |kind: &str| {
        let log: Log = Arc::new(Mutex::new(LogInner::default()));
        let mut w = World::from_json(&v["world"], Some(log.clone()));
        w.fault = crate::run::fault(v);
        let _ = kind;
        (w, log)
    };
    // the library
    let only_ref = v.get("only_ref").map(b).unwrap_or(false);
    for (name, track) in [("tracked", true), ("plain", false)] {
        if only_ref {
            break;
        }
        let (w, log) = world(name);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let c = config(&v["solver"]);
            let cj = conf::config2j(&c);
            let s = LocalSolver::new(w, conf::solver_type(t), c);
            let r = if track {
                s.solve_with_tracking(start.clone(), true)
            } else {
                s.solve(start.clone()).map(|x| (x, 0))
            };
            (cj, r)
        }));
        out[name] = match r {
            Ok((cj, Ok((s, n)))) => json!({"config":cj,"point":vf2j(&s.point),"objective":f2j(s.objective),"count":n}),
            Ok((cj, Err(e))) => {
                let mut x = err(&e);
                x["config"] = cj;
                x
            }
            Err(p) => json!({"panic":panic_msg(p)}),
        };
        out[name]["ev"] = events(&log);
    }
    // the algorithm itself
    if let Some(full) = opt(v, "full") {
        let (w, log) = world("ref");
        let r = catch_unwind(AssertUnwindSafe(|| reference(w, t, full, start.clone())));
        out["ref"] = match r {
            Ok(Ok((p, f))) => json!({"point":vf2j(&p),"objective":f2j(f)}),
            Ok(Err((cfg, m))) => json!({"err":if cfg { "config" } else { "run" },"msg":m}),
            Err(p) => json!({"panic":panic_msg(p)}),
        };
        out["ref"]["ev"] = events(&log);
    }
    out
}

type RefResult = Result<(Vec<f64>, f64), (bool, String)>;

#[cfg(feature = "argmin")]
mod am {
    use super::*;
    use argmin::core::{CostFunction, Error, Executor, Gradient, Hessian, IterState, LineSearch, Solver, State};
    use argmin::solver::{
        gradientdescent::SteepestDescent,
        linesearch::{HagerZhangLineSearch, MoreThuenteLineSearch},
        neldermead::NelderMead,
        newton::NewtonCG,
        quasinewton::LBFGS,
        trustregion::{CauchyPoint, Steihaug, TrustRegion},
    };
    use ndarray::Array2;

    pub struct P0(pub World);
    impl CostFunction for P0 {
        type Param = Array1<f64>;
        type Output = f64;
        fn cost(&self, x: &Array1<f64>) -> Result<f64, Error> {
            self.0.objective(x).map_err(|e| Error::msg(e.to_string()))
        }
    }
    impl Gradient for P0 {
        type Param = Array1<f64>;
        type Gradient = Array1<f64>;
        fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, Error> {
            self.0.gradient(x).map_err(|e| Error::msg(e.to_string()))
        }
    }
    impl Hessian for P0 {
        type Param = Array1<f64>;
        type Hessian = Array2<f64>;
        fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, Error> {
            self.0.hessian(x).map_err(|e| Error::msg(e.to_string()))
        }
    }
    fn c(e: Error) -> (bool, String) {
        (true, e.to_string())
    }
    type V = Array1<f64>;
    fn go<S, G, H>(w: World, s: S, x0: Option<V>, n: u64) -> RefResult
    where
        S: Solver<P0, IterState<V, G, (), H, (), f64>>,
        IterState<V, G, (), H, (), f64>: State<Param = V, Float = f64>,
    {
        let r = Executor::new(P0(w), s)
            .configure(|st: IterState<V, G, (), H, (), f64>| {
                let st = st.max_iters(n);
                match x0 {
                    Some(x) => st.param(x),
                    None => st,
                }
            })
            .run()
            .map_err(|e| (false, e.to_string()))?;
        let st = r.state();
        let p = st.get_best_param().ok_or((false, "none".to_string()))?;
        Ok((p.to_vec(), st.get_best_cost()))
    }
    fn mt(v: &Value) -> Result<MoreThuenteLineSearch<V, V, f64>, (bool, String)> {
        let b = j2vf(&v["bounds"]);
        MoreThuenteLineSearch::new()
            .with_c(j2f(&v["c1"]), j2f(&v["c2"])).map_err(c)?
            .with_bounds(b[0], b[1]).map_err(c)?
            .with_width_tolerance(j2f(&v["width_tolerance"])).map_err(c)
    }
    fn hz(v: &Value) -> Result<HagerZhangLineSearch<V, V, f64>, (bool, String)> {
        let b = j2vf(&v["bounds"]);
        HagerZhangLineSearch::new()
            .with_delta_sigma(j2f(&v["delta"]), j2f(&v["sigma"])).map_err(c)?
            .with_epsilon(j2f(&v["epsilon"])).map_err(c)?
            .with_theta(j2f(&v["theta"])).map_err(c)?
            .with_gamma(j2f(&v["gamma"])).map_err(c)?
            .with_eta(j2f(&v["eta"])).map_err(c)?
            .with_bounds(b[0], b[1]).map_err(c)
    }
    fn lbfgs<L>(w: World, l: L, v: &Value, x0: V, n: u64) -> RefResult
    where
        L: Clone + LineSearch<V, f64>,
        LBFGS<L, V, V, f64>: Solver<P0, IterState<V, V, (), (), (), f64>>,
    {
        let mut s = LBFGS::new(l, u(&v["history_size"]))
            .with_tolerance_cost(j2f(&v["tolerance_cost"])).map_err(c)?
            .with_tolerance_grad(j2f(&v["tolerance_grad"])).map_err(c)?;
        if let Some(x) = opt(v, "l1_coefficient") {
            s = s.with_l1_regularization(j2f(x)).map_err(c)?;
        }
        go(w, s, Some(x0), n)
    }
    pub fn reference(w: World, t: &str, v: &Value, x0: V) -> RefResult {
        let n = u64_(&v["max_iter"]);
        let is_mt = v.get("ls").map(|l| l["t"] == "mt").unwrap_or(true);
        let ls = v.get("ls").cloned().unwrap_or(Value::Null);
        match t {
            "LBFGS" if is_mt => lbfgs(w, mt(&ls)?, v, x0, n),
            "LBFGS" => lbfgs(w, hz(&ls)?, v, x0, n),
            "SteepestDescent" if is_mt => go::<_, V, ()>(w, SteepestDescent::new(mt(&ls)?), Some(x0), n),
            "SteepestDescent" => go::<_, V, ()>(w, SteepestDescent::new(hz(&ls)?), Some(x0), n),
            "NewtonCG" if is_mt => {
                let s = NewtonCG::new(mt(&ls)?)
                    .with_curvature_threshold(j2f(&v["curvature_threshold"]))
                    .with_tolerance(j2f(&v["tolerance"])).map_err(c)?;
                go::<_, V, Array2<f64>>(w, s, Some(x0), n)
            }
            "NewtonCG" => {
                let s = NewtonCG::new(hz(&ls)?)
                    .with_curvature_threshold(j2f(&v["curvature_threshold"]))
                    .with_tolerance(j2f(&v["tolerance"])).map_err(c)?;
                go::<_, V, Array2<f64>>(w, s, Some(x0), n)
            }
            "TrustRegion" if v["method"] == "cauchy" => {
                let s = TrustRegion::new(CauchyPoint::new())
                    .with_radius(j2f(&v["radius"])).map_err(c)?
                    .with_max_radius(j2f(&v["max_radius"])).map_err(c)?
                    .with_eta(j2f(&v["eta"])).map_err(c)?;
                go::<_, V, Array2<f64>>(w, s, Some(x0), n)
            }
            "TrustRegion" => {
                let s = TrustRegion::new(Steihaug::new())
                    .with_radius(j2f(&v["radius"])).map_err(c)?
                    .with_max_radius(j2f(&v["max_radius"])).map_err(c)?
                    .with_eta(j2f(&v["eta"])).map_err(c)?;
                go::<_, V, Array2<f64>>(w, s, Some(x0), n)
            }
            "NelderMead" => {
                let d = j2f(&v["simplex_delta"]);
                let mut simplex = vec![x0.clone()];
                for i in 0..x0.len() {
                    let mut p = x0.clone();
                    p[i] += d;
                    simplex.push(p);
                }
                let s = NelderMead::new(simplex)
                    .with_sd_tolerance(j2f(&v["sd_tolerance"])).map_err(c)?
                    .with_alpha(j2f(&v["alpha"])).map_err(c)?
                    .with_gamma(j2f(&v["gamma"])).map_err(c)?
                    .with_rho(j2f(&v["rho"])).map_err(c)?
                    .with_sigma(j2f(&v["sigma"])).map_err(c)?;
                go::<_, (), ()>(w, s, None, n)
            }
            t => panic!("reference {t}"),
        }
    }
}

fn reference(w: World, t: &str, v: &Value, x0: Array1<f64>) -> RefResult {
    if t != "COBYLA" {
        #[cfg(feature = "argmin")]
        return am::reference(w, t, v, x0);
        #[cfg(not(feature = "argmin"))]
        panic!("no argmin");
    }
    let b: Vec<(f64, f64)> = w.bounds.iter().map(|b| (b[0], b[1])).collect();
    let cons = w.constraints();
    let f = |x: &[f64], _: &mut ()| w.objective(&Array1::from(x.to_vec())).unwrap_or(f64::INFINITY);
    cobyla::minimize(
        f,
        &x0.to_vec(),
        &b,
        &cons,
        (),
        u(&v["max_iter"]),
        cobyla::RhoBeg::All(j2f(&v["initial_step_size"])),
        Some(cobyla::StopTols {
            ftol_rel: j2f(&v["ftol_rel"]),
            ftol_abs: j2f(&v["ftol_abs"]),
            xtol_rel: j2f(&v["xtol_rel"]),
            xtol_abs: j2vf(&v["xtol_abs"]),
        }),
    )
    .map(|(_, x, f)| (x, f))
    .map_err(|e| (false, format!("{e:?}")))
}
