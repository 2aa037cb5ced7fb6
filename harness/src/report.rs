//! The texts a solution set prints.
use crate::j::*;
use globalsearch::problem::Problem;
use globalsearch::types::{EvaluationError, LocalSolution, SolutionSet};
use ndarray::Array1;
use std::sync::RwLock;

/// value of each constraint at a point, by the bits of the point's first coordinate
static TABLE: RwLock<Vec<Vec<(u64, f64)>>> = RwLock::new(vec![]);

fn con<const I: usize>(x: &[f64], _: &mut ()) -> f64 {
    let t = TABLE.read().unwrap();
    t[I].iter().find(|(k, _)| *k == x[0].to_bits()).map(|(_, v)| *v).unwrap_or(f64::MAX)
}

const CONS: [fn(&[f64], &mut ()) -> f64; 4] = [con::<0>, con::<1>, con::<2>, con::<3>];

#[derive(Clone)]
struct P(usize);

impl Problem for P {
    fn objective(&self, _: &Array1<f64>) -> Result<f64, EvaluationError> {
        Ok(0.0)
    }
    fn variable_bounds(&self) -> ndarray::Array2<f64> {
        ndarray::array![[0.0, 1.0]]
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        CONS[..self.0].to_vec()
    }
}

pub fn scenario(v: &Value) -> Value {
    let pts: Vec<Vec<f64>> = v["points"].as_array().unwrap().iter().map(j2vf).collect();
    let vals: Vec<f64> = j2vf(&v["vals"]);
    let cons: Vec<Vec<f64>> = v["cons"].as_array().unwrap().iter().map(j2vf).collect();
    *TABLE.write().unwrap() =
        cons.iter().map(|c| pts.iter().zip(c).map(|(p, x)| (p[0].to_bits(), *x)).collect()).collect();
    let p = P(cons.len());
    let s = SolutionSet {
        solutions: pts
            .iter()
            .zip(&vals)
            .map(|(x, f)| LocalSolution { point: Array1::from(x.clone()), objective: *f })
            .collect(),
    };
    let d: Option<Vec<String>> = opt(v, "desc")
        .map(|d| d.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect());
    let ds: Option<Vec<&str>> = d.as_ref().map(|d| d.iter().map(|x| x.as_str()).collect());
    json!({"id":v["id"],"plain":format!("{s}"),"with":s.display_with_constraints(&p, ds.as_deref()),
        "problem":s.display_with_problem(&p),"len":s.len(),
        "empty":s.is_empty(),"best":s.best_solution().map(crate::run::sol2j)})
}
