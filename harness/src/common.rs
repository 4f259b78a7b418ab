//! Shared plumbing: cases and records are JSON objects, integer coordinates only.
use rand::{rngs::StdRng, Rng};
pub use serde_json::{json, Map, Value};
use vector_traits::num_traits::FromPrimitive;
pub use vector_traits::{GenericScalar, GenericVector2, GenericVector3, HasXY, HasXYZ};

pub type P2 = (i64, i64);
pub type P3 = (i64, i64, i64);
pub type Out = Result<Value, String>;

pub struct Gen {
    pub rng: StdRng,
    pub thorough: bool,
    pub cases: Vec<Value>,
}
impl Gen {
    pub fn push(&mut self, v: Value) {
        self.cases.push(v)
    }
    /// a budget: `q` on the quick tier, `t` on the thorough tier
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        self.rng.gen_range(lo..=hi)
    }
    pub fn p2(&mut self, lo: i64, hi: i64) -> P2 {
        (self.r(lo, hi), self.r(lo, hi))
    }
    pub fn p3(&mut self, lo: i64, hi: i64) -> P3 {
        (self.r(lo, hi), self.r(lo, hi), self.r(lo, hi))
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        let i = self.rng.gen_range(0..xs.len());
        &xs[i]
    }
    /// some hundreds, or sometimes thousands
    pub fn hundreds(&mut self, lo: i64, hi: i64) -> i64 {
        // sometimes more than 16 bits can count
        if self.coin(0.1) {
            self.r(66000, 70000)
        } else if self.coin(0.3) {
            self.r(1000, 4500)
        } else {
            self.r(lo, hi)
        }
    }
    pub fn coin(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }
}

pub fn sc<S: GenericScalar>(x: f64) -> S {
    S::from_f64(x).unwrap()
}
pub fn v2<T: GenericVector2>(p: P2, k: f64) -> T {
    T::new_2d(sc(p.0 as f64 * k), sc(p.1 as f64 * k))
}
pub fn v3<T: GenericVector3>(p: P3, k: f64) -> T {
    T::new_3d(sc(p.0 as f64 * k), sc(p.1 as f64 * k), sc(p.2 as f64 * k))
}
pub fn f<S: GenericScalar>(s: S) -> f64 {
    s.into()
}
/// value/k * scale rounded to an integer; None if not finite or too big for the checker
pub fn sint(x: f64, k: f64, scale: f64) -> Result<i64, String> {
    let v = (x / k * scale).round();
    if !v.is_finite() || v.abs() > 2.0e9 {
        return Err(format!("value out of range: {}", x));
    }
    Ok(v as i64)
}
/// is value/k*scale an integer?
pub fn exact(x: f64, k: f64, scale: f64) -> bool {
    let v = x / k * scale;
    v.is_finite() && v.fract() == 0.0
}
pub fn out2<T: GenericVector2>(p: T, k: f64, scale: f64) -> Out {
    Ok(json!([
        sint(f(p.x()), k, scale)?,
        sint(f(p.y()), k, scale)?
    ]))
}
pub fn out3<T: GenericVector3>(p: T, k: f64, scale: f64) -> Out {
    Ok(json!([
        sint(f(p.x()), k, scale)?,
        sint(f(p.y()), k, scale)?,
        sint(f(p.z()), k, scale)?
    ]))
}
pub fn outs2<T: GenericVector2>(ps: &[T], k: f64, scale: f64) -> Out {
    ps.iter()
        .map(|p| out2(*p, k, scale))
        .collect::<Result<Vec<_>, _>>()
        .map(Value::from)
}
pub fn outs3<T: GenericVector3>(ps: &[T], k: f64, scale: f64) -> Out {
    ps.iter()
        .map(|p| out3(*p, k, scale))
        .collect::<Result<Vec<_>, _>>()
        .map(Value::from)
}
/// points that must be copies of integer input points: exact or it is reported as foreign
pub fn same2<T: GenericVector2>(ps: &[T], k: f64) -> Out {
    for p in ps {
        if !exact(f(p.x()), k, 1.0) || !exact(f(p.y()), k, 1.0) {
            return Err(format!("not an input point {:?}", p));
        }
    }
    outs2(ps, k, 1.0)
}
pub fn same3<T: GenericVector3>(ps: &[T], k: f64) -> Out {
    for p in ps {
        if !exact(f(p.x()), k, 1.0) || !exact(f(p.y()), k, 1.0) || !exact(f(p.z()), k, 1.0) {
            return Err(format!("not an input point {:?}", p));
        }
    }
    outs3(ps, k, 1.0)
}

// ---- reading cases
pub fn i(v: &Value, name: &str) -> i64 {
    v[name].as_i64().unwrap_or_else(|| panic!("no int {name} in {v}"))
}
pub fn us(v: &Value, name: &str) -> usize {
    i(v, name) as usize
}
pub fn b(v: &Value, name: &str) -> bool {
    v[name].as_bool().unwrap_or_else(|| panic!("no bool {name} in {v}"))
}
pub fn s<'a>(v: &'a Value, name: &str) -> &'a str {
    v[name].as_str().unwrap_or_else(|| panic!("no string {name} in {v}"))
}
pub fn rp2(v: &Value) -> P2 {
    (v[0].as_i64().unwrap(), v[1].as_i64().unwrap())
}
pub fn rp3(v: &Value) -> P3 {
    (
        v[0].as_i64().unwrap(),
        v[1].as_i64().unwrap(),
        v[2].as_i64().unwrap(),
    )
}
pub fn pts2(v: &Value) -> Vec<P2> {
    v.as_array().unwrap().iter().map(rp2).collect()
}
pub fn pts3(v: &Value) -> Vec<P3> {
    v.as_array().unwrap().iter().map(rp3).collect()
}
pub fn uss(v: &Value) -> Vec<usize> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_i64().unwrap() as usize)
        .collect()
}
/// the coordinate unit: case field "e" is a power of two exponent
pub fn unit(v: &Value) -> f64 {
    2f64.powi(v["e"].as_i64().unwrap_or(0) as i32)
}
pub fn vs2<T: GenericVector2>(ps: &[P2], k: f64) -> Vec<T> {
    ps.iter().map(|p| v2(*p, k)).collect()
}
pub fn vs3<T: GenericVector3>(ps: &[P3], k: f64) -> Vec<T> {
    ps.iter().map(|p| v3(*p, k)).collect()
}
pub fn e2s<X>(r: Result<X, linestring::LinestringError>) -> Result<X, String> {
    r.map_err(|e| format!("{e:?}"))
}

/// dispatch on the vector type named by case field "t"
#[macro_export]
macro_rules! by2 {
    ($case:expr, $fun:ident) => {
        match $case["t"].as_str().unwrap() {
            "d" => $fun::<vector_traits::glam::DVec2>($case),
            "f" => $fun::<vector_traits::glam::Vec2>($case),
            "cd" => $fun::<vector_traits::cgmath::Vector2<f64>>($case),
            "cf" => $fun::<vector_traits::cgmath::Vector2<f32>>($case),
            t => panic!("type {t}"),
        }
    };
}
#[macro_export]
macro_rules! by3 {
    ($case:expr, $fun:ident) => {
        match $case["t"].as_str().unwrap() {
            "d" => $fun::<vector_traits::glam::DVec3>($case),
            "f" => $fun::<vector_traits::glam::Vec3>($case),
            "fa" => $fun::<vector_traits::glam::Vec3A>($case),
            "cd" => $fun::<vector_traits::cgmath::Vector3<f64>>($case),
            "cf" => $fun::<vector_traits::cgmath::Vector3<f32>>($case),
            t => panic!("type {t}"),
        }
    };
}
/// the behaviours of the model, each on one of the vector types after the other
pub fn emitted(g: &mut Gen, types: &[(&str, i64)], k: Option<&str>) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, mut c) in gen.into_iter().enumerate() {
        let (t, e) = types[it % types.len()];
        c["t"] = json!(t);
        c["e"] = json!(e);
        c["src"] = json!("tlc");
        if let Some(k) = k {
            c["k"] = json!(k)
        }
        g.push(c);
    }
}
/// (type tag, exponent of the unit)
pub const T2: [(&str, i64); 10] = [
    ("d", 0), ("f", 0), ("cd", 0), ("cf", 0), ("d", -12), ("d", 9), ("f", -8), ("d", -20), ("cf", 6), ("cd", 24),
];
pub const T3: [(&str, i64); 11] = [
    ("d", 0), ("f", 0), ("fa", 0), ("cd", 0), ("cf", 0), ("d", -10), ("d", 7), ("f", -7), ("fa", 6), ("cd", -20), ("cd", 20),
];
pub fn is_f64(t: &str) -> bool {
    t == "d" || t == "cd"
}
