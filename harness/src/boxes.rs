//! P14 histories of axis aligned boxes, P21 histories of iterators over line strings
use crate::common::*;
use crate::{by2, by3};
use linestring::linestring_2d::{self as l2, Aabb2, Line2, LineString2};
use linestring::linestring_3d::{self as l3, Aabb3, Line3, LineString3};

fn points2(g: &mut Gen, n: i64, m: i64) -> Vec<P2> {
    (0..n).map(|_| g.p2(-m, m)).collect()
}
fn points3(g: &mut Gen, n: i64, m: i64) -> Vec<P3> {
    (0..n).map(|_| g.p3(-m, m)).collect()
}
/// random operation histories on one box. Points are lists of points of the right dimension.
pub fn gen14(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        g.push(json!({"k":"d2","t":t,"e":0,"ops":c["ops"]}));
    }
    for it in 0..g.n(9000, 90000) {
        let d2 = it % 2 == 0;
        let (t, e) = if d2 { T2[it / 2 % T2.len()] } else { T3[it / 2 % T3.len()] };
        let m = *g.pick(&[2, 5, 50]);
        let mut ops: Vec<Value> = vec![];
        let long = it % 60 < 2;
        let n = if long { g.r(10, 40) } else { g.r(1, 9) };
        for j in 0..n {
            let op = if j == 0 {
                *g.pick(&["empty", "with", "with", "new", "from", "corners"])
            } else {
                *g.pick(&["pt", "pts", "box", "apply", "cp", "cp", "cb", "cl", "get", "get", "eq"])
            };
            let op = match op {
                // operations that only exist in one of the dimensions
                "new" | "from" if !d2 => "with",
                "corners" if d2 => "with",
                x => x,
            };
            let cnt = match op {
                "pt" | "cp" | "new" => 1,
                "cl" => 2,
                "get" | "empty" | "apply" => 0,
                "corners" => 2,
                _ => if it % 4500 == 7 { g.r(300, 1100) } else if it % 600 < 2 { g.r(50, 400) } else if long { g.r(0, 12) } else { g.r(0, 3) },
            };
            let mut v = if d2 {
                Value::from(points2(g, cnt, m).iter().map(|p| json!(p)).collect::<Vec<_>>())
            } else {
                Value::from(points3(g, cnt, m).iter().map(|p| json!(p)).collect::<Vec<_>>())
            };
            if op == "corners" {
                // a constructor that takes the low and high corner
                let a = rp3(&v[0]);
                let b = rp3(&v[1]);
                v = json!([
                    [a.0.min(b.0), a.1.min(b.1), a.2.min(b.2)],
                    [a.0.max(b.0), a.1.max(b.1), a.2.max(b.2)]
                ]);
            }
            // a monotone function: x -> mul*x + add
            let mul = g.r(1, 3);
            let add = g.r(-3, 3);
            ops.push(json!({"op":op,"v":v,"mul":if op=="apply" {mul} else {1},"add":if op=="apply" {add} else {0}}));
        }
        g.push(json!({"k":if d2 {"d2"} else {"d3"},"t":t,"e":e,"ops":ops}));
    }
}
pub fn exec14(c: &Value) -> Out {
    if s(c, "k") == "d2" {
        by2!(c, exec14t)
    } else {
        by3!(c, exec14u)
    }
}
/// positions twice their value, so that centers are integers
fn o2<T: GenericVector2>(p: Option<T>, k: f64) -> Out {
    match p {
        None => Ok(json!([])),
        Some(p) => {
            if !exact(f(p.x()), k, 2.0) || !exact(f(p.y()), k, 2.0) {
                return Err(format!("not exact {p:?}"));
            }
            Ok(json!([out2(p, k, 2.0)?]))
        }
    }
}
fn o3<T: GenericVector3>(p: Option<T>, k: f64) -> Out {
    match p {
        None => Ok(json!([])),
        Some(p) => {
            if !exact(f(p.x()), k, 2.0) || !exact(f(p.y()), k, 2.0) || !exact(f(p.z()), k, 2.0) {
                return Err(format!("not exact {p:?}"));
            }
            Ok(json!([out3(p, k, 2.0)?]))
        }
    }
}
fn exec14t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let mut b = Aabb2::<T>::default();
    let mut res: Vec<Value> = vec![];
    for o in c["ops"].as_array().unwrap() {
        let v: Vec<T> = vs2(&pts2(&o["v"]), k);
        let mut r = json!({"yes": false});
        match s(o, "op") {
            "empty" => b = Aabb2::default(),
            "with" => b = Aabb2::with_points(&v),
            "new" => b = Aabb2::new(v[0]),
            "from" => b = v.iter().into(),
            "pt" => b.update_with_point(v[0]),
            "pts" => b.update_with_points(&v),
            "box" => b.update_with_aabb(Aabb2::with_points(&v)),
            "apply" => {
                let (m, a): (T::Scalar, T::Scalar) =
                    (sc(i(o, "mul") as f64), sc(i(o, "add") as f64 * k));
                b.apply(&|p: T| T::new_2d(p.x() * m + a, p.y() * m + a))
            }
            "cp" => r["yes"] = json!(b.contains_point_inclusive(v[0])),
            "cl" => r["yes"] = json!(b.contains_line_inclusive(&Line2::new(v[0], v[1]))),
            "cb" => r["yes"] = json!(b.contains_aabb_inclusive(&Aabb2::with_points(&v))),
            "eq" => r["yes"] = json!(b == Aabb2::with_points(&v)),
            "get" => (),
            x => panic!("op {x}"),
        }
        r["lo"] = o2(b.low(), k)?;
        r["hi"] = o2(b.high(), k)?;
        r["center"] = o2(b.center(), k)?;
        r["mm"] = match b.min_max() {
            None => json!([]),
            Some((l, h)) => json!([out2(l, k, 2.0)?, out2(h, k, 2.0)?]),
        };
        r["ext"] = match b.extents() {
            None => json!([]),
            Some((l, h, d)) => json!([out2(l, k, 2.0)?, out2(h, k, 2.0)?, out2(d, k, 2.0)?]),
        };
        r["hull"] = match b.convex_hull::<T>() {
            None => json!([]),
            Some(h) => outs2(&h, k, 2.0)?,
        };
        let outline: Vec<T> = b.into();
        r["outline"] = outs2(&outline, k, 2.0)?;
        res.push(r)
    }
    Ok(json!({ "res": res }))
}
fn exec14u<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let mut b = Aabb3::<T>::default();
    let mut res: Vec<Value> = vec![];
    for o in c["ops"].as_array().unwrap() {
        let v: Vec<T> = vs3(&pts3(&o["v"]), k);
        let mut r = json!({"yes": false});
        match s(o, "op") {
            "empty" => b = Aabb3::default(),
            "with" => b = Aabb3::with_points(&v),
            "corners" => {
                b = if i(c, "e") % 2 == 0 {
                    [v[0], v[1]].into()
                } else {
                    [v[0].x(), v[0].y(), v[0].z(), v[1].x(), v[1].y(), v[1].z()].into()
                }
            }
            "pt" => b.update_with_point(v[0]),
            "pts" => b.update_with_points(&v),
            "box" => b.update_with_aabb(Aabb3::with_points(&v)),
            "apply" => {
                let (m, a): (T::Scalar, T::Scalar) =
                    (sc(i(o, "mul") as f64), sc(i(o, "add") as f64 * k));
                b.apply(&|p: T| T::new_3d(p.x() * m + a, p.y() * m + a, p.z() * m + a))
            }
            "cp" => r["yes"] = json!(b.contains_point_inclusive(v[0])),
            "cl" => r["yes"] = json!(b.contains_line_inclusive(&Line3::new(v[0], v[1]))),
            "cb" => r["yes"] = json!(b.contains_aabb_inclusive(&Aabb3::with_points(&v))),
            "eq" => r["yes"] = json!(b == Aabb3::with_points(&v)),
            "get" => (),
            x => panic!("op {x}"),
        }
        r["lo"] = o3(b.get_low(), k)?;
        r["hi"] = o3(b.get_high(), k)?;
        r["center"] = o3(b.center(), k)?;
        r["ext"] = match b.extents() {
            None => json!([]),
            Some((l, h, d)) => json!([out3(l, k, 2.0)?, out3(h, k, 2.0)?, out3(d, k, 2.0)?]),
        };
        r["mm"] = json!([]);
        r["hull"] = json!([]);
        r["outline"] = json!([]);
        res.push(r)
    }
    Ok(json!({ "res": res }))
}

// ------------------------------------------------------------------ P21
pub fn gen21(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        g.push(json!({"k":"d2","t":t,"e":0,"pts":c["pts"],"w":c["w"],"c":c["c"]}));
    }
    for it in 0..g.n(9000, 60000) {
        let d2 = it % 2 == 0;
        let (t, e) = if d2 { T2[it / 2 % T2.len()] } else { T3[it / 2 % T3.len()] };
        let n = if it % 600 < 2 { g.hundreds(60, 600) } else if it % 60 < 2 { g.r(8, 50) } else { g.r(0, 7) };
        let m = *g.pick(&[1, 20]);
        let mut p: Vec<P3> = points3(g, n, m);
        if p.len() > 1 && g.coin(0.4) {
            let l = p.len() - 1;
            p[l] = p[0]
        }
        // how often next() is called between the looks at the length
        let w = g.r(0, n + 2);
        let c = g.r(0, n / 2 + 2);
        let v: Value = if d2 {
            p.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>().into()
        } else {
            json!(p)
        };
        g.push(json!({"k":if d2 {"d2"} else {"d3"},"t":t,"e":e,"pts":v,"w":w,"c":c}));
    }
}
pub fn exec21(c: &Value) -> Out {
    if s(c, "k") == "d2" {
        by2!(c, exec21t)
    } else {
        by3!(c, exec21u)
    }
}
macro_rules! history {
    ($it:expr, $n:expr, $pt:expr) => {{
        let mut it = $it;
        let mut h: Vec<Value> = vec![json!({"len": it.len(), "empty": it.is_empty(), "seg": []})];
        for _ in 0..$n {
            let seg = match it.next() {
                None => json!([]),
                Some(l) => json!([$pt(l.start)?, $pt(l.end)?]),
            };
            h.push(json!({"len": it.len(), "empty": it.is_empty(), "seg": seg}));
        }
        h
    }};
}
fn exec21t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    let pt = |q: T| out2(q, k, 1.0);
    let mut ap = p.clone();
    let one: T::Scalar = sc(k);
    LineString2::apply(&mut ap, &|q: T| T::new_2d(q.x() + one, q.y() - one));
    let ch = p.chunk_iter();
    let rem = same2(ch.remainder(), k)?;
    Ok(json!({
        "win": history!(p.window_iter(), us(c, "w"), pt),
        "chk": history!(ch, us(c, "c"), pt), "rem": rem,
        "rest": p.window_iter().count(), "crest": p.chunk_iter().count(),
        "conn": LineString2::is_connected(&p), "count": p.point_count(),
        "app": same2(&ap, k)?,
        "xlen": ExactSizeIterator::len(&p.window_iter()),
    }))
}
fn exec21u<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs3(&pts3(&c["pts"]), k);
    let pt = |q: T| out3(q, k, 1.0);
    let mut ap = p.clone();
    let one: T::Scalar = sc(k);
    LineString3::apply(&mut ap, &|q: T| T::new_3d(q.x() + one, q.y() - one, q.z() + one));
    let ch = p.chunk_iter();
    let rem = same3(ch.remainder(), k)?;
    Ok(json!({
        "win": history!(p.window_iter(), us(c, "w"), pt),
        "chk": history!(ch, us(c, "c"), pt), "rem": rem,
        "rest": p.window_iter().count(), "crest": p.chunk_iter().count(),
        "conn": LineString3::is_connected(&p), "count": -1,
        "app": same3(&ap, k)?,
        "xlen": p.window_iter().len(),
    }))
}
#[allow(unused_imports)]
use {l2 as _, l3 as _};
