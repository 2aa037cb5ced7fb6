//! JSON helpers: floats that may be non-finite are written as strings.
pub use serde_json::{Value, json};

pub fn f2j(x: f64) -> Value {
    if x.is_nan() {
        Value::String("nan".into())
    } else if x == f64::INFINITY {
        Value::String("inf".into())
    } else if x == f64::NEG_INFINITY {
        Value::String("-inf".into())
    } else {
        json!(x)
    }
}

pub fn vf2j<'a>(it: impl IntoIterator<Item = &'a f64>) -> Value {
    Value::Array(it.into_iter().map(|x| f2j(*x)).collect())
}

pub fn j2f(v: &Value) -> f64 {
    match v {
        Value::String(s) => match s.as_str() {
            "nan" => f64::NAN,
            "-nan" => f64::from_bits(0xFFF8_0000_0000_0000),
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            s if s.starts_with("0x") => f64::from_bits(u64::from_str_radix(&s[2..], 16).unwrap()),
            s => s.parse().unwrap_or_else(|_| panic!("bad float {s}")),
        },
        v => v.as_f64().unwrap_or_else(|| panic!("bad float {v}")),
    }
}

pub fn j2vf(v: &Value) -> Vec<f64> {
    v.as_array().unwrap_or_else(|| panic!("array expected, got {v}")).iter().map(j2f).collect()
}

pub fn u(v: &Value) -> usize {
    u64_(v) as usize
}

pub fn u64_(v: &Value) -> u64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        v => v.as_u64().unwrap_or_else(|| panic!("bad integer {v}")),
    }
}

pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or(false)
}

pub fn opt<'a>(v: &'a Value, k: &str) -> Option<&'a Value> {
    match v.get(k) {
        None | Some(Value::Null) => None,
        Some(x) => Some(x),
    }
}
