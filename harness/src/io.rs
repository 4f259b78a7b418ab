//! P25 feeding the sweeps, P26 the text of shapes and shapes made from plain numbers
use crate::common::*;
use crate::{by2, by3};
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{scale_to_coordinate, Aabb2, Intersection, Line2};
use linestring::linestring_3d::Line3;
use std::fmt::Debug;

// ------------------------------------------------------------------ P25
pub const BAD: [i64; 3] = [1000001, 1000002, 1000003];
fn coord<S: GenericScalar>(x: i64, k: f64) -> S {
    sc(match x {
        1000001 => f64::NAN,
        1000002 => f64::INFINITY,
        1000003 => f64::NEG_INFINITY,
        x => x as f64 * k,
    })
}
pub fn point<T: GenericVector2>(p: P2, k: f64) -> T {
    T::new_2d(coord(p.0, k), coord(p.1, k))
}
/// the same history for a sweep over a given list of vertices
fn indexed(g: &mut Gen, calls: &Value, t: &str, e: i64, kind: &str) {
    let mut verts: Vec<P2> = vec![];
    let mut out: Vec<Value> = vec![];
    let mut at = |g: &mut Gen, p: P2| {
        if let Some(k) = verts.iter().position(|x| *x == p) {
            if g.coin(0.7) {
                return k;
            }
        }
        if g.coin(0.1) {
            // nobody asks for this one
            let b = *g.pick(&BAD);
            verts.push((b, 1))
        }
        verts.push(p);
        verts.len() - 1
    };
    for c in calls.as_array().unwrap() {
        let v: Vec<(usize, usize)> = c["v"]
            .as_array()
            .unwrap()
            .iter()
            .map(|l| (at(g, rp2(&l[0])), at(g, rp2(&l[1]))))
            .collect();
        out.push(json!({"op": c["op"], "v": v}))
    }
    if g.coin(0.3) {
        verts.push((2, *g.pick(&BAD)))
    }
    g.push(json!({"k":"edges","src":kind,"t":t,"e":e,"verts":verts,"calls":out}));
}
pub fn gen25(g: &mut Gen) {
    emitted(g, &T2, None);
    for n in 0..g.cases.len() {
        let c = g.cases[n].clone();
        if g.thorough || n % 3 == 0 {
            indexed(g, &c["calls"], s(&c, "t"), i(&c, "e"), "tlc")
        }
    }
    for it in 0..g.n(6000, 60000) {
        let (t, e) = T2[it % T2.len()];
        let long = it % 200 < 2;
        let bad = *g.pick(&[0.0, 0.0, 0.01, 0.1]);
        let m = *g.pick(&[2, 5, 20]);
        let mut calls: Vec<Value> = vec![];
        for _ in 0..g.r(1, 5) {
            if g.coin(0.2) {
                calls.push(json!({"op": *g.pick(&["stop", "ignore"]), "v": []}));
                continue;
            }
            let n = if long { g.r(20, 60) } else { g.r(0, 4) };
            let mut pt = |g: &mut Gen| {
                let mut p = g.p2(16 - m / 2, 16 + m);
                if g.coin(if long { bad / 20.0 } else { bad }) {
                    let b = *g.pick(&BAD);
                    if g.coin(0.5) {
                        p.0 = b
                    } else {
                        p.1 = b
                    }
                }
                p
            };
            let v: Vec<(P2, P2)> = (0..n).map(|_| (pt(g), pt(g))).collect();
            calls.push(json!({"op":"feed","v":v}));
        }
        if it % 2 == 0 {
            g.push(json!({"k":"lines","src":"rnd","t":t,"e":e,"calls":calls}));
        } else {
            indexed(g, &Value::from(calls), t, e, "rnd")
        }
    }
}
pub fn exec25(c: &Value) -> Out {
    by2!(c, exec25t)
}
fn exec25t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let mut res: Vec<Value> = vec![];
    let mut ran = false;
    if s(c, "k") == "lines" {
        let mut x = IntersectionData::<T>::default();
        for o in c["calls"].as_array().unwrap() {
            let r = match s(o, "op") {
                "stop" => x.with_stop_at_first_intersection(true),
                "ignore" => x.with_ignore_end_point_intersections(true),
                _ => {
                    let v: Vec<Line2<T>> = o["v"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|l| Line2::new(point(rp2(&l[0]), k), point(rp2(&l[1]), k)))
                        .collect();
                    x.with_lines(v.into_iter())
                }
            };
            match r {
                Err(_) => {
                    res.push(json!({"ok": false}));
                    return Ok(json!({"res": res, "ran": false}));
                }
                Ok(y) => x = y,
            }
            let mut kept: Vec<Value> = vec![];
            for l in x.get_lines() {
                kept.push(same2(&[l.start, l.end], k)?)
            }
            res.push(json!({"ok": true, "kept": kept}));
        }
        if let Ok(y) = x.compute() {
            ran = y.count() < 1_000_000
        }
    } else {
        let verts: Vec<T> = pts2(&c["verts"]).iter().map(|p| point(*p, k)).collect();
        let mut x = IntersectionTester::<T>::new(verts);
        for o in c["calls"].as_array().unwrap() {
            let r = match s(o, "op") {
                "stop" => x.with_stop_at_first_intersection(true),
                "ignore" => x.with_ignore_end_point_intersections(true),
                _ => {
                    let v: Vec<(usize, usize)> =
                        pts2(&o["v"]).iter().map(|l| (l.0 as usize, l.1 as usize)).collect();
                    x.with_edges(v.iter())
                }
            };
            match r {
                Err(_) => {
                    res.push(json!({"ok": false}));
                    return Ok(json!({"res": res, "ran": false}));
                }
                Ok(y) => x = y,
            }
            res.push(json!({"ok": true, "kept": x.get_lines()}));
        }
        if let Ok((_, y)) = x.compute() {
            ran = y.count() < 1_000_000
        }
    }
    Ok(json!({"res": res, "ran": ran}))
}

// ------------------------------------------------------------------ P26
pub fn gen26(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    // every number of the model, in every place
    for (it, c) in gen.into_iter().enumerate() {
        let (n, d) = (i(&c, "n"), i(&c, "d"));
        let mut p = [g.r(-9, 9), g.r(-9, 9), g.r(-9, 9), g.r(-9, 9), g.r(-9, 9), g.r(-9, 9)];
        if it % 2 == 0 {
            let t = ["d", "f", "cd", "cf"][it / 2 % 4];
            p[it / 2 % 4] = n;
            g.push(json!({"k":"line","src":"tlc","t":t,"d":d,"a":[p[0],p[1]],"b":[p[2],p[3]]}));
        } else {
            let t = ["d", "f", "fa", "cd", "cf"][it / 2 % 5];
            p[it / 2 % 6] = n;
            g.push(json!({"k":"line3","src":"tlc","t":t,"d":d,"a":p[..3],"b":p[3..]}));
        }
    }
    for it in 0..g.n(6000, 60000) {
        let d = *g.pick(&[1, 1, 2, 4, 8, 16]);
        let m = *g.pick(&[3, 50, 900]);
        let t = T2[it % 4].0;
        match it % 6 {
            0 => {
                let (a, b) = (g.p2(-m, m), g.p2(-m, m));
                g.push(json!({"k":"line","src":"rnd","t":t,"d":d,"a":a,"b":b}));
            }
            1 => {
                let (a, b) = (g.p3(-m, m), g.p3(-m, m));
                let t = T3[it / 6 % 5].0;
                g.push(json!({"k":"line3","src":"rnd","t":t,"d":d,"a":a,"b":b}));
            }
            2 => {
                let n = if it % 600 == 2 { g.r(20, 200) } else { g.r(0, 4) };
                let p: Vec<P2> = (0..n).map(|_| g.p2(-m, m)).collect();
                g.push(json!({"k":"box","src":"rnd","t":t,"d":d,"pts":p}));
            }
            3 => {
                let (a, b) = (g.p2(-m, m), g.p2(-m, m));
                let n = g.r(-20, 20);
                g.push(json!({"k":"scale","src":"rnd","t":t,"d":d,"a":a,"b":b,"n":n}));
            }
            _ => {
                let x: Vec<i64> = (0..6).map(|_| g.r(0, 1 << 30)).collect();
                g.push(json!({"k":"any","src":"rnd","t":t,"x":x}));
            }
        }
    }
}
pub fn exec26(c: &Value) -> Out {
    match s(c, "k") {
        "line3" => by3!(c, exec26u),
        "any" => match s(c, "t") {
            "d" => exec26a::<vector_traits::glam::DVec2, vector_traits::glam::DVec3>(c),
            "f" => exec26a::<vector_traits::glam::Vec2, vector_traits::glam::Vec3A>(c),
            "cd" => exec26a::<vector_traits::cgmath::Vector2<f64>, vector_traits::cgmath::Vector3<f64>>(c),
            _ => exec26a::<vector_traits::cgmath::Vector2<f32>, vector_traits::cgmath::Vector3<f32>>(c),
        },
        _ => by2!(c, exec26t),
    }
}
fn text(x: &dyn Debug) -> String {
    format!("{x:?}")
}
fn exec26t<T: GenericVector2>(c: &Value) -> Out {
    let d = i(c, "d") as f64;
    let k = 1.0 / d;
    match s(c, "k") {
        "line" => {
            let (a, b): (T, T) = (v2(rp2(&c["a"]), k), v2(rp2(&c["b"]), k));
            let l = Line2::new(a, b);
            let ends = |l: Line2<T>| same2(&[l.start, l.end], k);
            Ok(json!({
                "text": text(&l), "new": ends(l)?,
                "flat": ends([a.x(), a.y(), b.x(), b.y()].into())?,
                "nested": ends([[a.x(), a.y()], [b.x(), b.y()]].into())?,
                "over": text(&Intersection::Overlap(l)),
                "point": text(&Intersection::Intersection(a)) == text(&a),
            }))
        }
        "box" => {
            let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
            let x: Aabb2<T> = p.iter().into();
            Ok(json!({"text": text(&Aabb2::<T>::with_points(&p)), "list": text(&x)}))
        }
        _ => {
            let (a, b): (T, T) = (v2(rp2(&c["a"]), 1.0), v2(rp2(&c["b"]), 1.0));
            let r = scale_to_coordinate(a, b, sc(i(c, "n") as f64 * k));
            let r = same2(&[r], k)?;
            Ok(json!({"out": r[0]}))
        }
    }
}
fn exec26u<T: GenericVector3 + Copy>(c: &Value) -> Out {
    let k = 1.0 / i(c, "d") as f64;
    let (a, b): (T, T) = (v3(rp3(&c["a"]), k), v3(rp3(&c["b"]), k));
    let l = Line3::new(a, b);
    let ends = |l: Line3<T>| same3(&[l.start, l.end], k);
    let one: T::Scalar = sc(k);
    Ok(json!({
        "text": text(&l), "new": ends(l)?,
        "flat": ends([a.x(), a.y(), a.z(), b.x(), b.y(), b.z()].into())?,
        "nested": ends([a, b].into())?,
        "app": ends(l.apply(|p| T::new_3d(p.x() + one, p.y() - one, p.z() + one + one + one)))?,
    }))
}
/// replace the numbers of a text by #; do they read back as the numbers given, with a decimal?
fn shape<S: GenericScalar + std::str::FromStr>(text: &str, x: &[S], same: &mut Vec<bool>) -> String {
    let mut out = String::new();
    let mut num = String::new();
    let mut n = 0;
    let mut name = false;
    for ch in text.chars().chain([' ']) {
        // a box starts with its name, a minus behind a parenthesis is a dash
        let part = match ch {
            '-' => !out.ends_with(')') && num.is_empty() || num.ends_with('e'),
            '0'..='9' | '.' | 'e' | '+' => !name || !num.is_empty(),
            _ => false,
        };
        name = ch.is_ascii_alphabetic() || (name && ch != '[');
        if part {
            num.push(ch);
            continue;
        }
        if !num.is_empty() {
            same.push(
                n < x.len()
                    && num.contains('.')
                    && !num.ends_with('.')
                    && num.parse::<S>().map(|y| y == x[n]).unwrap_or(false),
            );
            n += 1;
            num.clear();
            out.push('#');
        }
        if ch != ' ' {
            out.push(ch)
        }
    }
    out
}
fn exec26a<T: GenericVector2, U: GenericVector3<Scalar = T::Scalar>>(c: &Value) -> Out
where
    T::Scalar: std::str::FromStr,
{
    // numbers of all sizes, most of them with as many digits as there are
    let x: Vec<T::Scalar> = c["x"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| {
            let n = n.as_i64().unwrap();
            let m = (n >> 10) as f64 / 3.0 * if n & 1 == 1 { -1.0 } else { 1.0 };
            match (n >> 1) & 7 {
                0 => sc(m.round()),
                1 => sc(m.round() * 2f64.powi(((n >> 4) & 63) as i32)),
                _ => sc(m * 2f64.powi(((n >> 4) & 63) as i32 - 40)),
            }
        })
        .collect();
    let mut same = vec![];
    let (a, b) = (T::new_2d(x[0], x[1]), T::new_2d(x[2], x[3]));
    let line = shape(&text(&Line2::new(a, b)), &x, &mut same);
    let bb = Aabb2::<T>::with_points(&[a, b]);
    let (lo, hi) = (bb.low().unwrap(), bb.high().unwrap());
    let bx = shape(&text(&bb), &[lo.x(), lo.y(), hi.x(), hi.y()], &mut same);
    let l3 = Line3::<U>::new(U::new_3d(x[0], x[1], x[2]), U::new_3d(x[3], x[4], x[5]));
    let line3 = shape(&text(&l3), &x, &mut same);
    Ok(json!({"line": line, "box": bx, "line3": line3, "same": same}))
}
