//! Parameters and local-solver configurations from JSON, through the public builders.
use crate::j::*;
use globalsearch::local_solver::builders::*;
use globalsearch::types::{LocalSolverType, OQNLPParams};
#[cfg(feature = "argmin")]
use ndarray::Array1;

/// setter calls in order
fn calls(v: &Value) -> Vec<(String, Value)> {
    let mut it: Vec<(String, Value)> = vec![];
    for (k, x) in v.as_object().unwrap() {
        match k.as_str() {
            "type" | "config_type" | "t" | "ctor" => {}
            "set" => {
                for e in x.as_array().unwrap() {
                    it.push((e[0].as_str().unwrap().to_string(), e[1].clone()));
                }
            }
            k => it.push((k.to_string(), x.clone())),
        }
    }
    it
}

/// arguments of `new`, if the builder starts there
#[allow(dead_code)]
fn ctor(v: &Value) -> Option<&Value> {
    v.get("ctor").filter(|c| c.is_object())
}

fn facade(v: &Value) -> bool {
    v.get("ctor").map(|c| c == "facade").unwrap_or(false)
}

#[cfg(feature = "argmin")]
fn tr_method(x: &Value) -> TrustRegionRadiusMethod {
    match x.as_str().unwrap() {
        "cauchy" => TrustRegionRadiusMethod::Cauchy,
        _ => TrustRegionRadiusMethod::Steihaug,
    }
}

#[cfg(feature = "argmin")]
fn optf(x: &Value) -> Option<f64> {
    if x.is_null() { None } else { Some(j2f(x)) }
}

#[cfg(feature = "argmin")]
pub fn line_search(v: &Value) -> LineSearchParams {
    match v["t"].as_str().unwrap() {
        "mt" => {
            let mut b = match ctor(v) {
                Some(c) => MoreThuenteBuilder::new(
                    j2f(&c["c1"]),
                    j2f(&c["c2"]),
                    j2f(&c["width_tolerance"]),
                    Array1::from(j2vf(&c["bounds"])),
                ),
                None if facade(v) => LineSearchParams::morethuente(),
                None => MoreThuenteBuilder::default(),
            };
            for (k, x) in &calls(v) {
                b = match k.as_str() {
                    "c1" => b.c1(j2f(x)),
                    "c2" => b.c2(j2f(x)),
                    "width_tolerance" => b.width_tolerance(j2f(x)),
                    "bounds" => b.bounds(Array1::from(j2vf(x))),
                    k => panic!("mt {k}"),
                };
            }
            b.build()
        }
        "hz" => {
            let mut b = match ctor(v) {
                Some(c) => HagerZhangBuilder::new(
                    j2f(&c["delta"]),
                    j2f(&c["sigma"]),
                    j2f(&c["epsilon"]),
                    j2f(&c["theta"]),
                    j2f(&c["gamma"]),
                    j2f(&c["eta"]),
                    Array1::from(j2vf(&c["bounds"])),
                ),
                None if facade(v) => LineSearchParams::hagerzhang(),
                None => HagerZhangBuilder::default(),
            };
            for (k, x) in &calls(v) {
                b = match k.as_str() {
                    "delta" => b.delta(j2f(x)),
                    "sigma" => b.sigma(j2f(x)),
                    "epsilon" => b.epsilon(j2f(x)),
                    "theta" => b.theta(j2f(x)),
                    "gamma" => b.gamma(j2f(x)),
                    "eta" => b.eta(j2f(x)),
                    "bounds" => b.bounds(Array1::from(j2vf(x))),
                    k => panic!("hz {k}"),
                };
            }
            b.build()
        }
        t => panic!("line search {t}"),
    }
}

pub fn solver_type(s: &str) -> LocalSolverType {
    match s {
        #[cfg(feature = "argmin")]
        "LBFGS" => LocalSolverType::LBFGS,
        #[cfg(feature = "argmin")]
        "NelderMead" => LocalSolverType::NelderMead,
        #[cfg(feature = "argmin")]
        "SteepestDescent" => LocalSolverType::SteepestDescent,
        #[cfg(feature = "argmin")]
        "TrustRegion" => LocalSolverType::TrustRegion,
        #[cfg(feature = "argmin")]
        "NewtonCG" => LocalSolverType::NewtonCG,
        "COBYLA" => LocalSolverType::COBYLA,
        t => panic!("solver type {t}"),
    }
}

/// `order` of the keys in the JSON object is the order in which the builder's setters are called
pub fn solver_config(v: &Value) -> LocalSolverConfig {
    let t = v.get("config_type").unwrap_or(&v["type"]).as_str().unwrap();
    let it = calls(v);
    let it = it.iter();
    match t {
        #[cfg(feature = "argmin")]
        "LBFGS" => {
            let mut b = match ctor(v) {
                Some(c) => LBFGSBuilder::new(u64_(&c["max_iter"]), j2f(&c["tolerance_grad"]), j2f(&c["tolerance_cost"]), u(&c["history_size"]), optf(&c["l1_coefficient"]), line_search(&c["ls"])),
                None if facade(v) => LocalSolverConfig::lbfgs(),
                None => LBFGSBuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "max_iter" => b.max_iter(u64_(x)),
                    "tolerance_grad" => b.tolerance_grad(j2f(x)),
                    "tolerance_cost" => b.tolerance_cost(j2f(x)),
                    "history_size" => b.history_size(u(x)),
                    "l1_coefficient" => b.l1_coefficient(if x.is_null() { None } else { Some(j2f(x)) }),
                    "ls" => b.line_search_params(line_search(x)),
                    k => panic!("lbfgs {k}"),
                };
            }
            b.build()
        }
        #[cfg(feature = "argmin")]
        "NelderMead" => {
            let mut b = match ctor(v) {
                Some(c) => NelderMeadBuilder::new(j2f(&c["simplex_delta"]), j2f(&c["sd_tolerance"]), u64_(&c["max_iter"]), j2f(&c["alpha"]), j2f(&c["gamma"]), j2f(&c["rho"]), j2f(&c["sigma"])),
                None if facade(v) => LocalSolverConfig::neldermead(),
                None => NelderMeadBuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "simplex_delta" => b.simplex_delta(j2f(x)),
                    "sd_tolerance" => b.sd_tolerance(j2f(x)),
                    "max_iter" => b.max_iter(u64_(x)),
                    "alpha" => b.alpha(j2f(x)),
                    "gamma" => b.gamma(j2f(x)),
                    "rho" => b.rho(j2f(x)),
                    "sigma" => b.sigma(j2f(x)),
                    k => panic!("nm {k}"),
                };
            }
            b.build()
        }
        #[cfg(feature = "argmin")]
        "SteepestDescent" => {
            let mut b = match ctor(v) {
                Some(c) => SteepestDescentBuilder::new(u64_(&c["max_iter"]), line_search(&c["ls"])),
                None if facade(v) => LocalSolverConfig::steepestdescent(),
                None => SteepestDescentBuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "max_iter" => b.max_iter(u64_(x)),
                    "ls" => b.line_search_params(line_search(x)),
                    k => panic!("sd {k}"),
                };
            }
            b.build()
        }
        #[cfg(feature = "argmin")]
        "TrustRegion" => {
            let mut b = match ctor(v) {
                Some(c) => TrustRegionBuilder::new(tr_method(&c["method"]), u64_(&c["max_iter"]), j2f(&c["radius"]), j2f(&c["max_radius"]), j2f(&c["eta"])),
                None if facade(v) => LocalSolverConfig::trustregion(),
                None => TrustRegionBuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "method" => b.method(tr_method(x)),
                    "max_iter" => b.max_iter(u64_(x)),
                    "radius" => b.radius(j2f(x)),
                    "max_radius" => b.max_radius(j2f(x)),
                    "eta" => b.eta(j2f(x)),
                    k => panic!("tr {k}"),
                };
            }
            b.build()
        }
        #[cfg(feature = "argmin")]
        "NewtonCG" => {
            let mut b = match ctor(v) {
                Some(c) => NewtonCGBuilder::new(u64_(&c["max_iter"]), j2f(&c["curvature_threshold"]), j2f(&c["tolerance"]), line_search(&c["ls"])),
                None if facade(v) => LocalSolverConfig::newton_cg(),
                None => NewtonCGBuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "max_iter" => b.max_iter(u64_(x)),
                    "curvature_threshold" => b.curvature_threshold(j2f(x)),
                    "tolerance" => b.tolerance(j2f(x)),
                    "ls" => b.line_search_params(line_search(x)),
                    k => panic!("ncg {k}"),
                };
            }
            b.build()
        }
        "COBYLA" => {
            let mut b = match ctor(v) {
                Some(c) => COBYLABuilder::new(u64_(&c["max_iter"]), j2f(&c["initial_step_size"])),
                None if facade(v) => LocalSolverConfig::cobyla(),
                None => COBYLABuilder::default(),
            };
            for (k, x) in it {
                b = match k.as_str() {
                    "max_iter" => b.max_iter(u64_(x)),
                    "initial_step_size" => b.initial_step_size(j2f(x)),
                    "ftol_rel" => b.ftol_rel(j2f(x)),
                    "ftol_abs" => b.ftol_abs(j2f(x)),
                    "xtol_rel" => b.xtol_rel(j2f(x)),
                    "xtol_abs" => b.xtol_abs(j2vf(x)),
                    k => panic!("cobyla {k}"),
                };
            }
            b.build()
        }
        t => panic!("solver config {t}"),
    }
}

pub fn params(v: &Value) -> OQNLPParams {
    OQNLPParams {
        iterations: u(&v["iterations"]),
        population_size: u(&v["population"]),
        wait_cycle: u(&v["wait"]),
        threshold_factor: j2f(&v["tf"]),
        distance_factor: j2f(&v["df"]),
        local_solver_type: solver_type(v["solver"]["type"].as_str().unwrap()),
        local_solver_config: solver_config(&v["solver"]),
        seed: u64_(&v["seed"]),
    }
}

#[cfg(feature = "argmin")]
fn ls2j(p: &LineSearchParams) -> Value {
    match &p.method {
        LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => json!({
            "t":"mt","c1":f2j(*c1),"c2":f2j(*c2),"width_tolerance":f2j(*width_tolerance),"bounds":vf2j(bounds)}),
        LineSearchMethod::HagerZhang { delta, sigma, epsilon, theta, gamma, eta, bounds } => json!({
            "t":"hz","delta":f2j(*delta),"sigma":f2j(*sigma),"epsilon":f2j(*epsilon),"theta":f2j(*theta),
            "gamma":f2j(*gamma),"eta":f2j(*eta),"bounds":vf2j(bounds)}),
    }
}

pub fn type2s(t: &LocalSolverType) -> &'static str {
    match t {
        #[cfg(feature = "argmin")]
        LocalSolverType::LBFGS => "LBFGS",
        #[cfg(feature = "argmin")]
        LocalSolverType::NelderMead => "NelderMead",
        #[cfg(feature = "argmin")]
        LocalSolverType::SteepestDescent => "SteepestDescent",
        #[cfg(feature = "argmin")]
        LocalSolverType::TrustRegion => "TrustRegion",
        #[cfg(feature = "argmin")]
        LocalSolverType::NewtonCG => "NewtonCG",
        LocalSolverType::COBYLA => "COBYLA",
    }
}

pub fn config2j(c: &LocalSolverConfig) -> Value {
    match c {
        #[cfg(feature = "argmin")]
        LocalSolverConfig::LBFGS {
            max_iter, tolerance_grad, tolerance_cost, history_size, l1_coefficient, line_search_params,
        } => json!({"type":"LBFGS","max_iter":max_iter,"tolerance_grad":f2j(*tolerance_grad),
            "tolerance_cost":f2j(*tolerance_cost),"history_size":history_size,
            "l1_coefficient":l1_coefficient.map(f2j),"ls":ls2j(line_search_params)}),
        #[cfg(feature = "argmin")]
        LocalSolverConfig::NelderMead {
            simplex_delta, sd_tolerance, max_iter, alpha, gamma, rho, sigma,
        } => json!({"type":"NelderMead","simplex_delta":f2j(*simplex_delta),"sd_tolerance":f2j(*sd_tolerance),
            "max_iter":max_iter,"alpha":f2j(*alpha),"gamma":f2j(*gamma),"rho":f2j(*rho),"sigma":f2j(*sigma)}),
        #[cfg(feature = "argmin")]
        LocalSolverConfig::SteepestDescent { max_iter, line_search_params } => {
            json!({"type":"SteepestDescent","max_iter":max_iter,"ls":ls2j(line_search_params)})
        }
        #[cfg(feature = "argmin")]
        LocalSolverConfig::TrustRegion {
            trust_region_radius_method, max_iter, radius, max_radius, eta,
        } => json!({"type":"TrustRegion","method": match trust_region_radius_method {
            TrustRegionRadiusMethod::Cauchy => "cauchy", TrustRegionRadiusMethod::Steihaug => "steihaug"},
            "max_iter":max_iter,"radius":f2j(*radius),"max_radius":f2j(*max_radius),"eta":f2j(*eta)}),
        #[cfg(feature = "argmin")]
        LocalSolverConfig::NewtonCG { max_iter, curvature_threshold, tolerance, line_search_params } => json!({
            "type":"NewtonCG","max_iter":max_iter,"curvature_threshold":f2j(*curvature_threshold),
            "tolerance":f2j(*tolerance),"ls":ls2j(line_search_params)}),
        LocalSolverConfig::COBYLA {
            max_iter, initial_step_size, ftol_rel, ftol_abs, xtol_rel, xtol_abs,
        } => json!({"type":"COBYLA","max_iter":max_iter,"initial_step_size":f2j(*initial_step_size),
            "ftol_rel":f2j(*ftol_rel),"ftol_abs":f2j(*ftol_abs),"xtol_rel":f2j(*xtol_rel),
            "xtol_abs":vf2j(xtol_abs)}),
    }
}

pub fn params2j(p: &OQNLPParams) -> Value {
    json!({"iterations":p.iterations,"population":p.population_size,"wait":p.wait_cycle,
        "tf":f2j(p.threshold_factor),"df":f2j(p.distance_factor),"seed":p.seed.to_string(),
        "stype":type2s(&p.local_solver_type),"solver":config2j(&p.local_solver_config)})
}
