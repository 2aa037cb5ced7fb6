//! Test problems ("worlds") whose every call is recorded.
use crate::j::*;
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Instant;

/// One recorded event. kind: 0 objective, 1 gradient, 2 Hessian, 3 constraint, 9 observer callback
#[derive(Clone)]
pub struct Ev {
    pub kind: u8,
    pub pid: usize,
    /// value (objective or constraint); None: the call returned an error
    pub val: Option<f64>,
    pub thread: usize,
    pub t_us: u64,
}

#[derive(Default)]
pub struct LogInner {
    pub pts: Vec<Vec<f64>>,
    index: HashMap<Vec<u64>, usize>,
    pub ev: Vec<Ev>,
    pub cbs: Vec<Value>,
    threads: HashMap<std::thread::ThreadId, usize>,
    start: Option<Instant>,
}

impl LogInner {
    pub fn intern(&mut self, x: &[f64]) -> usize {
        let key: Vec<u64> = x.iter().map(|v| v.to_bits()).collect();
        if let Some(&i) = self.index.get(&key) {
            return i;
        }
        let i = self.pts.len();
        self.pts.push(x.to_vec());
        self.index.insert(key, i);
        i
    }
    fn now(&mut self) -> (usize, u64) {
        let n = self.threads.len();
        let th = *self.threads.entry(std::thread::current().id()).or_insert(n);
        let st = *self.start.get_or_insert_with(Instant::now);
        (th, st.elapsed().as_micros() as u64)
    }
}

pub type Log = Arc<Mutex<LogInner>>;

pub fn lock(l: &Log) -> std::sync::MutexGuard<'_, LogInner> {
    l.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn log_call(l: &Log, kind: u8, x: &[f64], val: Option<f64>) {
    let mut g = lock(l);
    let pid = g.intern(x);
    let (thread, t_us) = g.now();
    g.ev.push(Ev { kind, pid, val, thread, t_us });
}

pub fn log_cb(l: &Log, v: Value) {
    let mut g = lock(l);
    let pid = g.cbs.len();
    g.cbs.push(v);
    let (thread, t_us) = g.now();
    g.ev.push(Ev { kind: 9, pid, val: None, thread, t_us });
}

/// Constraints are plain function pointers, so their definitions live in globals.
#[derive(Clone, Debug)]
pub enum Cons {
    /// a.x + b >= 0
    Lin(Vec<f64>, f64),
    /// r2 - |x-c|^2 >= 0
    Ball(Vec<f64>, f64),
    /// |x-c|^2 - r2 >= 0
    Out(Vec<f64>, f64),
    /// sqrt(x0 - c) >= 0: undefined left of c
    Sqrt(f64),
}
static CONS: RwLock<Vec<Cons>> = RwLock::new(Vec::new());
static CONS_LOG: RwLock<Option<Log>> = RwLock::new(None);

pub fn eval_cons(c: &Cons, x: &[f64]) -> f64 {
    match c {
        Cons::Lin(a, b) => a.iter().zip(x).map(|(a, x)| a * x).sum::<f64>() + b,
        Cons::Ball(c, r2) => r2 - c.iter().zip(x).map(|(c, x)| (x - c) * (x - c)).sum::<f64>(),
        Cons::Out(c, r2) => c.iter().zip(x).map(|(c, x)| (x - c) * (x - c)).sum::<f64>() - r2,
        Cons::Sqrt(c) => (x[0] - c).sqrt(),
    }
}

fn cons_fn<const I: usize>(x: &[f64], _: &mut ()) -> f64 {
    let v = eval_cons(&CONS.read().unwrap()[I], x);
    if let Some(l) = CONS_LOG.read().unwrap().as_ref() {
        log_call(l, 3 + 10 * (I as u8), x, Some(v));
    }
    v
}

const CONS_FNS: [fn(&[f64], &mut ()) -> f64; 4] =
    [cons_fn::<0>, cons_fn::<1>, cons_fn::<2>, cons_fn::<3>];

#[derive(Clone, Debug)]
pub enum Kind {
    /// point -> (objective or error, gradient or error)
    Table(Arc<HashMap<Vec<u64>, (Option<f64>, Option<Vec<f64>>)>>),
    /// min over basins of depth + scale*|x-c|^2
    Basin(Arc<Vec<(Vec<f64>, f64, f64)>>),
    Named(String),
    /// pseudo-random choice from a few values: ties, undefined and infinite objectives
    Hash(u64, Arc<Vec<f64>>),
}

fn hash_pt(seed: u64, x: &[f64]) -> u64 {
    let mut h = seed ^ 0x5851F42D4C957F2D;
    for v in x {
        h = (h ^ (v + 0.0).to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ (h >> 32)
}

#[derive(Clone)]
pub struct Fault {
    /// which calls: 0 objective, 1 gradient, 2 hessian, 255 any
    pub kind: u8,
    /// index (from 1) of the call that fails; `upto` >= n the last one
    pub n: u64,
    pub upto: u64,
    pub how: String,
}

#[derive(Clone)]
pub struct World {
    pub kind: Kind,
    pub bounds: Vec<[f64; 2]>,
    pub ncons: usize,
    pub log: Option<Log>,
    pub fault: Option<Fault>,
    pub count: Arc<[AtomicU64; 4]>,
    /// 0 objective only, 1 gradient too, 2 Hessian too
    pub derivs: u8,
    pub sleep_us: u64,
    /// pseudo-random delay depending on point and call (completion orders)
    pub jitter: u64,
    /// virtual duration of a call in microseconds, by point and kind
    pub durs: Arc<Vec<i64>>,
    pub nan_outside: bool,
    /// after this many objective calls, points chosen by their hash fail (percentage)
    pub fail_from: u64,
    pub fail_pct: u64,
    /// calls after which everything fails
    pub cap: u64,
}

impl World {
    pub fn from_json(v: &Value, log: Option<Log>) -> World {
        let kind = match v["kind"].as_str().unwrap() {
            "table" => {
                let mut m = HashMap::new();
                for e in v["entries"].as_array().unwrap() {
                    let p: Vec<u64> = j2vf(&e["p"]).iter().map(|x| x.to_bits()).collect();
                    m.insert(p, (opt(e, "f").map(j2f), opt(e, "g").map(j2vf)));
                }
                Kind::Table(Arc::new(m))
            }
            "basin" => Kind::Basin(Arc::new(
                v["basins"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| (j2vf(&e["c"]), j2f(&e["h"]), j2f(&e["d"])))
                    .collect(),
            )),
            "named" => Kind::Named(v["name"].as_str().unwrap().to_string()),
            "hash" => Kind::Hash(u64_(&v["seed"]), Arc::new(j2vf(&v["levels"]))),
            k => panic!("unknown world {k}"),
        };
        let bounds = v["bounds"]
            .as_array()
            .unwrap()
            .iter()
            .map(|b| {
                let b = j2vf(b);
                [b[0], b[1]]
            })
            .collect();
        let mut cons = vec![];
        if let Some(cs) = opt(v, "cons") {
            for c in cs.as_array().unwrap() {
                cons.push(match c["t"].as_str().unwrap() {
                    "lin" => Cons::Lin(j2vf(&c["a"]), j2f(&c["b"])),
                    "ball" => Cons::Ball(j2vf(&c["c"]), j2f(&c["r2"])),
                    "sqrt" => Cons::Sqrt(j2f(&c["c"])),
                    "out" => Cons::Out(j2vf(&c["c"]), j2f(&c["r2"])),
                    t => panic!("cons {t}"),
                });
            }
        }
        let ncons = cons.len();
        *CONS.write().unwrap() = cons;
        *CONS_LOG.write().unwrap() = log.clone();
        World {
            kind,
            bounds,
            ncons,
            log,
            fault: None,
            count: Arc::new(Default::default()),
            derivs: v.get("derivs").map(|x| u(x) as u8).unwrap_or(2),
            sleep_us: v.get("sleep_us").map(u64_).unwrap_or(0),
            jitter: v.get("jitter").map(u64_).unwrap_or(0),
            durs: Arc::new(vec![]),
            nan_outside: v.get("nan_outside").map(b).unwrap_or(false),
            fail_from: u64::MAX,
            fail_pct: 0,
            cap: v.get("cap").map(u64_).unwrap_or(60_000),
        }
    }

    pub fn quiet(&self) -> World {
        let mut w = self.clone();
        w.log = None;
        w.fault = None;
        w.sleep_us = 0;
        w.jitter = 0;
        w.durs = Arc::new(vec![]);
        w.count = Arc::new(Default::default());
        w
    }

    pub fn raw_f(&self, x: &[f64]) -> Option<f64> {
        if self.nan_outside && x.iter().zip(&self.bounds).any(|(x, b)| *x < b[0] || *x > b[1]) {
            return Some(f64::NAN);
        }
        match &self.kind {
            Kind::Table(m) => {
                let k: Vec<u64> = x.iter().map(|v| (v + 0.0).to_bits()).collect();
                m.get(&k).and_then(|e| e.0)
            }
            Kind::Basin(bs) => Some(
                bs.iter()
                    .map(|(c, h, d)| {
                        d + h * c.iter().zip(x).map(|(c, x)| (x - c) * (x - c)).sum::<f64>()
                    })
                    .fold(f64::INFINITY, f64::min),
            ),
            Kind::Named(n) => Some(named_f(n, x)),
            Kind::Hash(s, l) => Some(l[(hash_pt(*s, x) % l.len() as u64) as usize]),
        }
    }

    pub fn raw_g(&self, x: &[f64]) -> Option<Vec<f64>> {
        match &self.kind {
            Kind::Table(m) => {
                let k: Vec<u64> = x.iter().map(|v| (v + 0.0).to_bits()).collect();
                m.get(&k).and_then(|e| e.1.clone())
            }
            Kind::Basin(bs) => {
                let i = self.active(bs, x);
                let (c, h, _) = &bs[i];
                Some(c.iter().zip(x).map(|(c, x)| 2.0 * h * (x - c)).collect())
            }
            Kind::Named(n) => Some(named_g(n, x)),
            Kind::Hash(..) => Some(vec![0.0; x.len()]),
        }
    }

    fn active(&self, bs: &[(Vec<f64>, f64, f64)], x: &[f64]) -> usize {
        let mut best = (f64::INFINITY, 0);
        for (i, (c, h, d)) in bs.iter().enumerate() {
            let v = d + h * c.iter().zip(x).map(|(c, x)| (x - c) * (x - c)).sum::<f64>();
            if v < best.0 {
                best = (v, i);
            }
        }
        best.1
    }

    pub fn raw_h(&self, x: &[f64]) -> Option<Vec<Vec<f64>>> {
        let n = x.len();
        match &self.kind {
            Kind::Table(_) | Kind::Hash(..) => {
                Some((0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect())
            }
            Kind::Basin(bs) => {
                let h = bs[self.active(bs, x)].1;
                Some((0..n).map(|i| (0..n).map(|j| if i == j { 2.0 * h } else { 0.0 }).collect()).collect())
            }
            Kind::Named(nm) => Some(named_h(nm, x)),
        }
    }

    fn fault_now(&self, kind: u8) -> Option<String> {
        let k = self.count[kind as usize].fetch_add(1, Ordering::SeqCst) + 1;
        let all = self.count[3].fetch_add(1, Ordering::SeqCst) + 1;
        // some line searches of argmin never end on some inputs: bound every run
        if all > self.cap {
            return Some("err".into());
        }
        let f = self.fault.as_ref()?;
        let n = if f.kind == 255 {
            all
        } else if f.kind == kind {
            k
        } else {
            return None;
        };
        if n >= f.n && n <= f.upto { Some(f.how.clone()) } else { None }
    }

    /// Whether a late evaluation of this point fails
    pub fn late_failure(&self, x: &[f64]) -> bool {
        hash_pt(77, x) % 100 < self.fail_pct
    }

    fn fails(&self, x: &[f64]) -> bool {
        self.count[0].load(Ordering::SeqCst) > self.fail_from && self.late_failure(x)
    }

    pub fn feasible(&self, x: &[f64]) -> bool {
        CONS.read().unwrap()[..self.ncons].iter().all(|c| eval_cons(c, x) >= 0.0)
    }

    fn delay(&self, kind: u64, x: &[f64]) {
        if !self.durs.is_empty() {
            let k = hash_pt(991 + kind, x) % self.durs.len() as u64;
            crate::vclock::advance_us(self.durs[k as usize]);
        }
        if self.sleep_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.sleep_us));
        }
        if self.jitter > 0 {
            let mut h = self.jitter ^ self.count[0].load(Ordering::Relaxed).wrapping_mul(0x9E37);
            for v in x {
                h = (h ^ v.to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
                h ^= h >> 29;
            }
            if h % 4 == 0 {
                std::thread::sleep(std::time::Duration::from_micros((h >> 8) % 400));
            } else if h % 4 == 1 {
                std::thread::yield_now();
            }
        }
    }
}

fn ee(s: &str) -> EvaluationError {
    EvaluationError::InvalidInput { reason: s.to_string() }
}

fn act(how: &str) -> Option<f64> {
    match how {
        "panic" => panic!("gsv: injected crash"),
        "abort" => std::process::abort(),
        "nan" => Some(f64::NAN),
        "inf" => Some(f64::INFINITY),
        "err" => None,
        h => panic!("fault {h}"),
    }
}

impl Problem for World {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let xs = x.to_vec();
        self.delay(0, &xs);
        let val = match self.fault_now(0) {
            Some(how) => act(&how),
            None if self.fails(&xs) => None,
            None => self.raw_f(&xs),
        };
        if let Some(l) = &self.log {
            log_call(l, 0, &xs, val);
        }
        val.ok_or_else(|| ee("injected objective failure"))
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let xs = x.to_vec();
        self.delay(1, &xs);
        let f = self.fault_now(1);
        let missing = f.as_deref() == Some("err") || self.derivs < 1 || self.raw_g(&xs).is_none();
        if let Some(l) = &self.log {
            log_call(l, 1, &xs, if missing { None } else { Some(0.0) });
        }
        if self.derivs < 1 {
            return Err(EvaluationError::GradientNotImplemented);
        }
        if let Some(how) = f {
            return match act(&how) {
                None => Err(ee("injected gradient failure")),
                Some(v) => Ok(Array1::from_elem(xs.len(), v)),
            };
        }
        self.raw_g(&xs).map(Array1::from).ok_or_else(|| ee("no gradient"))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let xs = x.to_vec();
        self.delay(2, &xs);
        let f = self.fault_now(2);
        let missing = f.as_deref() == Some("err") || self.derivs < 2 || self.raw_h(&xs).is_none();
        if let Some(l) = &self.log {
            log_call(l, 2, &xs, if missing { None } else { Some(0.0) });
        }
        if self.derivs < 2 {
            return Err(EvaluationError::HessianNotImplemented);
        }
        let n = xs.len();
        if let Some(how) = f {
            return match act(&how) {
                None => Err(ee("injected hessian failure")),
                Some(v) => Ok(Array2::from_elem((n, n), v)),
            };
        }
        let h = self.raw_h(&xs).ok_or_else(|| ee("no hessian"))?;
        Ok(Array2::from_shape_fn((n, n), |(i, j)| h[i][j]))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        Array2::from_shape_fn((self.bounds.len(), 2), |(i, j)| self.bounds[i][j])
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        CONS_FNS[..self.ncons].to_vec()
    }
}

fn named_f(n: &str, x: &[f64]) -> f64 {
    match n {
        "sphere" => x.iter().map(|v| v * v).sum(),
        // distinct curvatures, minimum off-centre
        "ellipsoid" => {
            x.iter().enumerate().map(|(i, v)| (i as f64 + 1.0) * (v - 0.3) * (v - 0.3)).sum()
        }
        "sixhump" => {
            let (a, b) = (x[0], x[1]);
            (4.0 - 2.1 * a * a + a.powi(4) / 3.0) * a * a + a * b + (-4.0 + 4.0 * b * b) * b * b
        }
        "rosen" => x
            .windows(2)
            .map(|w| 100.0 * (w[1] - w[0] * w[0]).powi(2) + (1.0 - w[0]).powi(2))
            .sum(),
        "rastrigin" => x
            .iter()
            .map(|v| v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos() + 10.0)
            .sum(),
        "styb" => x.iter().map(|v| 0.5 * (v.powi(4) - 16.0 * v * v + 5.0 * v)).sum(),
        // separable double well: many optima with exactly equal objectives
        "well" => x.iter().map(|v| (v * v - 1.0) * (v * v - 1.0)).sum(),
        // minimum beyond the usual bounds
        "slope" => x.iter().map(|v| (v - 20.0) * (v - 20.0)).sum::<f64>() * 0.01,
        "const" => 7.25,
        "abs" => x.iter().map(|v| (v - 0.25).abs()).sum(),
        "step" => x.iter().map(|v| v.floor()).sum(),
        "quartic" => x.iter().map(|v| (v - 1.0).powi(4)).sum(),
        n => panic!("named {n}"),
    }
}

fn named_g(n: &str, x: &[f64]) -> Vec<f64> {
    match n {
        "sphere" => x.iter().map(|v| 2.0 * v).collect(),
        "ellipsoid" => {
            x.iter().enumerate().map(|(i, v)| 2.0 * (i as f64 + 1.0) * (v - 0.3)).collect()
        }
        "sixhump" => {
            let (a, b) = (x[0], x[1]);
            vec![
                8.0 * a - 8.4 * a.powi(3) + 2.0 * a.powi(5) + b,
                a - 8.0 * b + 16.0 * b.powi(3),
            ]
        }
        "rosen" => {
            let mut g = vec![0.0; x.len()];
            for i in 0..x.len() - 1 {
                let t = x[i + 1] - x[i] * x[i];
                g[i] += -400.0 * t * x[i] - 2.0 * (1.0 - x[i]);
                g[i + 1] += 200.0 * t;
            }
            g
        }
        "rastrigin" => {
            let p = 2.0 * std::f64::consts::PI;
            x.iter().map(|v| 2.0 * v + 10.0 * p * (p * v).sin()).collect()
        }
        "styb" => x.iter().map(|v| 0.5 * (4.0 * v.powi(3) - 32.0 * v + 5.0)).collect(),
        "well" => x.iter().map(|v| 4.0 * v * (v * v - 1.0)).collect(),
        "slope" => x.iter().map(|v| 0.02 * (v - 20.0)).collect(),
        "const" | "step" => vec![0.0; x.len()],
        "abs" => x.iter().map(|v| (v - 0.25).signum()).collect(),
        "quartic" => x.iter().map(|v| 4.0 * (v - 1.0).powi(3)).collect(),
        n => panic!("named {n}"),
    }
}

fn named_h(n: &str, x: &[f64]) -> Vec<Vec<f64>> {
    let d = x.len();
    let diag = |f: &dyn Fn(usize, f64) -> f64| -> Vec<Vec<f64>> {
        (0..d).map(|i| (0..d).map(|j| if i == j { f(i, x[i]) } else { 0.0 }).collect()).collect()
    };
    match n {
        "sphere" => diag(&|_, _| 2.0),
        "ellipsoid" => diag(&|i, _| 2.0 * (i as f64 + 1.0)),
        "sixhump" => {
            let (a, b) = (x[0], x[1]);
            vec![
                vec![8.0 - 25.2 * a * a + 10.0 * a.powi(4), 1.0],
                vec![1.0, -8.0 + 48.0 * b * b],
            ]
        }
        "rosen" => {
            let mut h = vec![vec![0.0; d]; d];
            for i in 0..d - 1 {
                h[i][i] += 1200.0 * x[i] * x[i] - 400.0 * x[i + 1] + 2.0;
                h[i][i + 1] += -400.0 * x[i];
                h[i + 1][i] += -400.0 * x[i];
                h[i + 1][i + 1] += 200.0;
            }
            h
        }
        "rastrigin" => {
            let p = 2.0 * std::f64::consts::PI;
            diag(&|_, v| 2.0 + 10.0 * p * p * (p * v).cos())
        }
        "styb" => diag(&|_, v| 0.5 * (12.0 * v * v - 32.0)),
        "well" => diag(&|_, v| 12.0 * v * v - 4.0),
        "slope" => diag(&|_, _| 0.02),
        "const" | "step" | "abs" => diag(&|_, _| 0.0),
        "quartic" => diag(&|_, v| 12.0 * (v - 1.0).powi(2)),
        n => panic!("named {n}"),
    }
}
