//! P12 shapes, P13 discretization, P15 affine transforms, P16 planes, P17 parabolic arcs, P18 obj files,
//! P24 approximate equality
use crate::common::*;
use crate::segm::hcf;
use crate::{by2, by3};
use linestring::linestring_2d::{self as l2, Line2, LineString2, SimpleAffine, VoronoiParabolicArc};
use linestring::linestring_3d::{self as l3, Aabb3, Line3, LineString3, Plane};
use linestring::prelude::divide_into_shapes;
use vector_traits::approx::{AbsDiffEq, UlpsEq};
use vector_traits::num_traits::AsPrimitive;

// ------------------------------------------------------------------ P12
pub fn gen12(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    // the graphs of the model: in order, and relabeled, shuffled, flipped, with duplicates
    for c in gen {
        let e: Vec<P2> = pts2(&c["edges"]);
        let ix: Vec<i64> = e.iter().flat_map(|x| [x.0, x.1]).collect();
        g.push(json!({"k":"tlc","ix":ix}));
        mangle(g, e, "tlcm");
    }
    for it in 0..g.n(9000, 120000) {
        let n = if it % 150 == 0 { 100 } else { *g.pick(&[3, 5, 8, 12, 20, 40]) };
        let m = g.r(0, n * 5 / 4);
        let mut e: Vec<P2> = vec![];
        let style = g.r(0, 4);
        let mut last = g.r(0, n - 1);
        for _ in 0..m {
            let a = if style <= 1 && g.coin(0.9) { last } else { g.r(0, n - 1) };
            let b = if style == 0 { (a + 1) % n } else { g.r(0, n - 1) };
            if a != b {
                e.push((a, b));
                last = b
            }
        }
        if style == 4 {
            // disjoint loops
            e.clear();
            let mut at = 0;
            while at + 3 <= n {
                let l = g.r(3, 6).min(n - at);
                for i in 0..l {
                    e.push((at + i, at + (i + 1) % l))
                }
                at += l + g.r(0, 1);
            }
            if g.coin(0.5) {
                let (a, b) = g.p2(0, n - 1);
                if a != b {
                    e.push((a, b))
                }
            }
        }
        mangle(g, e, "rnd");
    }
    for it in 0..g.n(8, 100) {
        // hundreds of vertices
        let n = if it % 8 == 5 { g.r(1000, 1300) } else { g.r(150, 600) };
        let mut e: Vec<P2> = (0..n - 1).map(|i| (i, i + 1)).collect();
        if it % 3 == 0 {
            e.push((n - 1, 0))
        }
        for _ in 0..g.r(0, if it % 2 == 0 { 2 } else { n / 8 }) {
            if g.coin(0.5) {
                let k = g.r(0, e.len() as i64 - 1) as usize;
                e.swap_remove(k);
            } else {
                let (a, b) = g.p2(0, n - 1);
                if a != b {
                    e.push((a, b))
                }
            }
        }
        mangle(g, e, "many");
    }
}
fn mangle(g: &mut Gen, mut e: Vec<P2>, k: &str) {
    let n = e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap_or(0) as usize;
    let mut label: Vec<i64> = (0..n as i64 + g.r(0, 2)).collect();
    for i in (1..label.len()).rev() {
        let j = g.r(0, i as i64) as usize;
        label.swap(i, j)
    }
    // not every index is used
    let gap = *g.pick(&[1, 1, 1, 1, 2, 31, 32, 33, 64, 1000]);
    for l in label.iter_mut() {
        *l = *l * gap + if gap > 1 { g.r(0, gap - 1) } else { 0 }
    }
    for _ in 0..g.r(0, 2) {
        if !e.is_empty() {
            let x = *g.pick(&e);
            e.push(x)
        }
    }
    for i in (1..e.len()).rev() {
        let j = g.r(0, i as i64) as usize;
        e.swap(i, j)
    }
    let mut ix: Vec<i64> = vec![];
    for x in e {
        let (a, b) = (label[x.0 as usize], label[x.1 as usize]);
        if g.coin(0.5) {
            ix.extend([a, b])
        } else {
            ix.extend([b, a])
        }
    }
    if g.coin(0.1) {
        // a dangling index is not an edge
        ix.push(g.r(0, 3))
    }
    g.push(json!({"k":k,"ix":ix}));
}
pub fn exec12(c: &Value) -> Out {
    let (groups, vob) = divide_into_shapes(&uss(&c["ix"]));
    let set: Vec<usize> = vob.iter_set_bits(..).collect();
    Ok(json!({"groups": groups, "set": set, "size": vob.len()}))
}

// ------------------------------------------------------------------ P13
const SD: f64 = 1024.0;
pub fn gen13(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        g.push(json!({"k":"d2","t":t,"e":0,"pts":c["pts"],"d":c["d"],"q":4}));
    }
    for it in 0..g.n(12000, 120000) {
        let n = if it % 100 < 2 { g.r(6, 40) } else { g.r(0, 5) };
        let m = *g.pick(&[1, 3, 10]);
        // quarter units, 0 is infinity
        let d = *g.pick(&[0, 1, 2, 3, 4, 4, 5, 8, 10, 12, 20, 24, 40, 100]);
        let d = if m == 10 && d > 0 && d < 3 { 3 } else { d };
        if it % 2 == 0 {
            let (t, e) = T2[it / 2 % T2.len()];
            let mut p: Vec<P2> = vec![];
            for _ in 0..n {
                p.push(match p.last() {
                    Some(l) if g.coin(0.3) => {
                        let s = *g.pick(&[(3, 4), (4, 3), (0, 0), (1, 0), (0, 2), (5, 0)]);
                        ((l.0 + s.0).min(20), (l.1 - s.1).max(-20))
                    }
                    _ => g.p2(-m, m),
                })
            }
            g.push(json!({"k":"d2","t":t,"e":e,"pts":p,"d":d,"q":4}));
        } else {
            let (t, e) = T3[it / 2 % T3.len()];
            let mut p: Vec<P3> = vec![];
            for _ in 0..n {
                p.push(match p.last() {
                    Some(l) if g.coin(0.3) => {
                        let s = *g.pick(&[(1, 2, 2), (2, 1, 2), (0, 0, 0), (1, 0, 0), (0, 3, 4), (2, 3, 6)]);
                        ((l.0 + s.0).min(20), (l.1 - s.1).max(-20), (l.2 + s.2).min(20))
                    }
                    _ => g.p3(-m, m),
                })
            }
            g.push(json!({"k":"d3","t":t,"e":e,"pts":p,"d":d,"q":4}));
        }
    }
    for it in 0..g.n(16, 200) {
        // many points, or many steps
        let three = it % 2 == 1;
        let (n, m, d) = if it % 4 < 2 { (if it % 16 < 2 { g.r(1000, 2000) } else { g.r(200, 500) }, 6, g.r(2, 40)) } else { (g.r(2, 3), 400, g.r(1, 4)) };
        if three {
            let p: Vec<P3> = (0..n).map(|_| g.p3(-m / 2, m / 2)).collect();
            g.push(json!({"k":"d3","t":"d","e":0,"pts":p,"d":d,"q":4}));
        } else {
            let p: Vec<P2> = (0..n).map(|_| g.p2(-m / 2, m / 2)).collect();
            g.push(json!({"k":"d2","t":"cd","e":0,"pts":p,"d":d,"q":4}));
        }
    }
    for it in 0..g.n(4, 40) {
        // thousands of steps on one segment
        let q = *g.pick(&[64, 128]);
        if it % 2 == 1 {
            let o = g.p3(-30, -25);
            let (x, y, z) = g.p3(15, 30);
            g.push(json!({"k":"d3","t":"d","e":0,"pts":[o, (x, y, z)],"d":1,"q":q}));
        } else {
            let o = g.p2(-30, -25);
            let (x, y) = g.p2(20, 30);
            g.push(json!({"k":"d2","t":"d","e":0,"pts":[o, (x, y)],"d":1,"q":q}));
        }
    }
    for it in 0..g.n(2, 6) {
        // more steps than 16 bits can count, along an axis
        let l = *g.pick(&[-5, 5]);
        if it % 2 == 1 {
            let o = g.p3(-2, 2);
            let p = match g.r(0, 2) {
                0 => (o.0 + l, o.1, o.2),
                1 => (o.0, o.1 + l, o.2),
                _ => (o.0, o.1, o.2 + l),
            };
            g.push(json!({"k":"d3","t":"d","e":0,"pts":[o, p],"d":1,"q":16384}));
        } else {
            let o = g.p2(-2, 2);
            let p = if g.coin(0.5) { (o.0 + l, o.1) } else { (o.0, o.1 + l) };
            g.push(json!({"k":"d2","t":"cd","e":0,"pts":[o, p],"d":1,"q":16384}));
        }
    }
    // segments that are a little longer or shorter than, or exactly as long as, a number of steps;
    // how little depends on the precision of the type
    for it in 0..g.n(3000, 30000) {
        let three = it % 2 == 1;
        let (t, e) = if three { T3[it / 2 % T3.len()] } else { T2[it / 2 % T2.len()] };
        let most = if is_f64(t) { *g.pick(&[30, 300, 3000, 20000]) } else { *g.pick(&[30, 100, 300]) };
        let n = *g.pick(&[1, 1, 2, 3, 5, 8]);
        let d = g.r(most / 4 / n + 1, most / n);
        let want = (n * d) * (n * d);
        let mut best: (i64, P3) = (i64::MAX, (0, 0, 0));
        for _ in 0..40 {
            let x = if g.coin(0.1) { n * d } else { g.r(0, n * d) };
            let y = if three { g.r(0, n * d / 2) } else { 0 };
            let rest = want - x * x - y * y;
            if rest < 0 {
                continue;
            }
            let z = (rest as f64).sqrt() as i64 + g.r(0, 1);
            // exactly as long one time out of four
            let off = (x * x + y * y + z * z - want).abs();
            if (off > 0 || it % 4 == 0) && off < best.0 {
                best = (off, (x, y, z))
            }
        }
        let (off, v) = best;
        if off == i64::MAX || (!is_f64(t) && off > 0 && want / off > 200000) {
            continue;
        }
        let o = g.p3(-20, 20);
        let sg = |g: &mut Gen, x: i64| if g.coin(0.5) { -x } else { x };
        let v = (sg(g, v.0), sg(g, v.1), sg(g, v.2));
        if three {
            let p = [o, (o.0 + v.0, o.1 + v.1, o.2 + v.2)];
            g.push(json!({"k":"d3","t":t,"e":e,"pts":p,"d":d,"q":1}));
        } else {
            let p = [(o.0, o.1), (o.0 + v.2, o.1 + v.0)];
            g.push(json!({"k":"d2","t":t,"e":e,"pts":p,"d":d,"q":1}));
        }
    }
}
pub fn exec13(c: &Value) -> Out {
    if s(c, "k") == "d2" {
        match s(c, "t") {
            "d" => exec13t::<vector_traits::glam::DVec2>(c),
            "f" => exec13t::<vector_traits::glam::Vec2>(c),
            "cd" => exec13t::<vector_traits::cgmath::Vector2<f64>>(c),
            _ => exec13t::<vector_traits::cgmath::Vector2<f32>>(c),
        }
    } else {
        match s(c, "t") {
            "d" => exec13u::<vector_traits::glam::DVec3>(c),
            "f" => exec13u::<vector_traits::glam::Vec3>(c),
            "fa" => exec13u::<vector_traits::glam::Vec3A>(c),
            "cd" => exec13u::<vector_traits::cgmath::Vector3<f64>>(c),
            _ => exec13u::<vector_traits::cgmath::Vector3<f32>>(c),
        }
    }
}
fn step<S: GenericScalar>(c: &Value, k: f64) -> S {
    match i(c, "d") {
        0 => sc(f64::INFINITY),
        d => sc(d as f64 / i(c, "q") as f64 * k),
    }
}
/// take everything (bounded), and look if it stays at the end
fn drain<X>(mut it: impl Iterator<Item = X>) -> (Vec<X>, bool) {
    let mut v = vec![];
    while v.len() < 100_000 {
        match it.next() {
            Some(x) => v.push(x),
            None => return (v, it.next().is_none() && it.next().is_none()),
        }
    }
    (v, false)
}
fn exec13t<T: GenericVector2>(c: &Value) -> Out
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    let (o, fused) = drain(p.discretize(step(c, k)));
    Ok(json!({"out": outs2(&o, k, SD)?, "fused": fused}))
}
fn exec13u<T: GenericVector3>(c: &Value) -> Out
where
    usize: AsPrimitive<<T as HasXY>::Scalar>,
{
    let k = unit(c);
    let p: Vec<T> = vs3(&pts3(&c["pts"]), k);
    let (o, fused) = drain(p.discretize(step(c, k)));
    Ok(json!({"out": outs3(&o, k, SD)?, "fused": fused}))
}

// ------------------------------------------------------------------ P15
const SA: f64 = 256.0;
pub fn gen15(g: &mut Gen) {
    emitted(g, &[("d", 0), ("f", 0), ("cd", 0), ("cf", 0), ("d", -1), ("cf", 1)], None);
    for n in 0..g.cases.len() {
        let q = g.p2(-3, 3);
        g.cases[n]["q"] = json!(q);
    }
    for it in 0..g.n(16000, 160000) {
        let (t, e) = T2[it % T2.len()];
        let e = if e < 0 { -1 } else { e.min(1) };
        let m = *g.pick(&[1, 4, 16, 30]);
        let na = if g.coin(0.03) { 0 } else { g.r(1, 4) };
        let nb = if g.coin(0.03) { 0 } else { g.r(1, 4) };
        let a: Vec<P2> = (0..na).map(|_| g.p2(-m, m)).collect();
        let m = *g.pick(&[1, 4, 16, 30]);
        let b: Vec<P2> = (0..nb).map(|_| g.p2(-m, m)).collect();
        let p = g.p2(-30, 30);
        let q = g.p2(-30, 30);
        g.push(json!({"k":"fit","t":t,"e":e,"a":a,"b":b,"p":p,"q":q}));
    }
    for it in 0..g.n(600, 6000) {
        let (t, _) = T2[it % 4];
        // explicit, exactly invertible transforms (scale 2^s per axis)
        let (ao, bo) = (g.p2(-20, 20), g.p2(-20, 20));
        let s = g.p2(-3, 3);
        let m = (*g.pick(&[1, -1]), *g.pick(&[1, -1]));
        let p = g.p2(-30, 30);
        let q = g.p2(-30, 30);
        g.push(json!({"k":"set","t":t,"e":0,"ao":ao,"bo":bo,"s":s,"m":m,"p":p,"q":q}));
        // which of the four coordinates is not finite
        let w = g.r(0, 4);
        let bad = g.r(0, 2);
        g.push(json!({"k":"inf","t":t,"e":0,"p":p,"q":q,"w":w,"bad":bad}));
        g.push(json!({"k":"default","t":t,"e":0,"p":p,"q":q}));
    }
}
pub fn exec15(c: &Value) -> Out {
    by2!(c, exec15t)
}
fn fin<T: GenericVector2>(r: Result<T, linestring::LinestringError>, k: f64) -> Out {
    match r {
        Ok(p) => Ok(json!([out2(p, k, SA)?])),
        Err(_) => Ok(json!([])),
    }
}
fn fin4<S: GenericScalar>(r: Result<[S; 4], linestring::LinestringError>, k: f64) -> Out {
    match r {
        Ok(p) => {
            let mut v = vec![];
            for x in p {
                v.push(sint(f(x), k, SA)?)
            }
            Ok(json!([[v[0], v[1]], [v[2], v[3]]]))
        }
        Err(_) => Ok(json!([])),
    }
}
fn exec15t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let (pi, qi) = (rp2(&c["p"]), rp2(&c["q"]));
    let (p, q): (T, T) = (v2(pi, k), v2(qi, k));
    let kind = s(c, "k");
    let a = match kind {
        "fit" => {
            let a = l2::Aabb2::<T>::with_points(&vs2(&pts2(&c["a"]), k));
            let b = l2::Aabb2::<T>::with_points(&vs2(&pts2(&c["b"]), k));
            match SimpleAffine::<T>::new(&a, &b) {
                Ok(x) => x,
                Err(_) => return Ok(json!({"made": false})),
            }
        }
        "set" => {
            let (ao, bo, s) = (rp2(&c["ao"]), rp2(&c["bo"]), rp2(&c["s"]));
            let m = rp2(&c["m"]);
            SimpleAffine::<T> {
                a_offset: [sc(ao.0 as f64), sc(ao.1 as f64)],
                scale: [
                    sc(m.0 as f64 * 2f64.powi(s.0 as i32)),
                    sc(m.1 as f64 * 2f64.powi(s.1 as i32)),
                ],
                b_offset: [sc(bo.0 as f64), sc(bo.1 as f64)],
            }
        }
        _ => SimpleAffine::<T>::default(),
    };
    if kind == "inf" {
        let bad: T::Scalar = sc([f64::INFINITY, f64::NEG_INFINITY, f64::NAN][us(c, "bad")]);
        let mut v = [p.x(), p.y(), q.x(), q.y()];
        let w = us(c, "w");
        if w < 4 {
            v[w] = bad
        }
        let (p, q) = (T::new_2d(v[0], v[1]), T::new_2d(v[2], v[3]));
        return Ok(json!({
            "pok": a.transform_ab(p).is_ok(), "pok2": a.transform_ba(p).is_ok(),
            "qok": a.transform_ab(q).is_ok(), "qok2": a.transform_ba(q).is_ok(),
            "aok": a.transform_ab_a(v).is_ok(), "aok2": a.transform_ba_a(v).is_ok(),
        }));
    }
    let v = [p.x(), p.y(), q.x(), q.y()];
    let ab = a.transform_ab(p);
    let back = match &ab {
        Ok(x) => fin(a.transform_ba(*x), k)?,
        Err(_) => json!([]),
    };
    Ok(json!({
        "made": true,
        "ab": fin(ab, k)?, "ba": fin(a.transform_ba(p), k)?, "back": back,
        "aba": fin4(a.transform_ab_a(v), k)?, "baa": fin4(a.transform_ba_a(v), k)?,
    }))
}

// ------------------------------------------------------------------ P16
pub fn gen16(g: &mut Gen) {
    emitted(g, &T3, None);
    for it in 0..g.n(14000, 120000) {
        let (t, e) = T3[it % T3.len()];
        let pl = ["XY", "XZ", "YZ"][(it / 7) % 3];
        match it % 2 {
            0 => {
                let n = if it % 1000 == 50 { g.hundreds(60, 500) } else if it % 50 == 0 { g.r(5, 40) } else { g.r(0, 4) };
                let p: Vec<P3> = (0..n).map(|_| g.p3(-50, 50)).collect();
                let q: Vec<P2> = (0..n).map(|_| g.p2(-50, 50)).collect();
                g.push(json!({"k":"proj","t":t,"e":e,"plane":pl,"pts":p,"pts2":q}));
            }
            _ => {
                let n = if g.coin(0.03) { 0 } else { g.r(1, 4) };
                let mut d = (g.r(0, 1) * g.r(0, 60), g.r(0, 1) * g.r(0, 60), g.r(0, 1) * g.r(0, 60));
                if g.coin(0.3) {
                    d = g.p3(0, 8)
                }
                let p: Vec<P3> = (0..n)
                    .map(|_| (g.r(0, d.0), g.r(0, d.1), g.r(0, d.2)))
                    .map(|p| (p.0 + 1, p.1 - 5, p.2))
                    .collect();
                // relaxed: up to 2^-eps of the widest axis counts as nothing
                let eps = g.r(1, 7);
                g.push(json!({"k":"plane","t":t,"e":e,"pts":p,"eps":eps}));
            }
        }
    }
}
pub fn exec16(c: &Value) -> Out {
    by3!(c, exec16t)
}
fn pname(p: Option<Plane>) -> &'static str {
    match p {
        None => "none",
        Some(Plane::XY) => "XY",
        Some(Plane::XZ) => "XZ",
        Some(Plane::YZ) => "YZ",
    }
}
fn exec16t<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs3(&pts3(&c["pts"]), k);
    if s(c, "k") == "plane" {
        let a = Aabb3::<T>::with_points(&p);
        return Ok(json!({
            "exact": pname(Plane::get_plane(a)),
            "relaxed": pname(Plane::get_plane_relaxed(a, sc(2f64.powi(-i(c, "eps") as i32)), 1)),
        }));
    }
    let pl = match s(c, "plane") {
        "XY" => Plane::XY,
        "XZ" => Plane::XZ,
        _ => Plane::YZ,
    };
    let q: Vec<T::Vector2> = vs2(&pts2(&c["pts2"]), k);
    let p2: Vec<T::Vector2> = p.copy_to_2d(pl);
    let q3: Vec<<T::Vector2 as GenericVector2>::Vector3> = q.copy_to_3d(pl);
    let pp: Vec<T::Vector2> = p.iter().map(|p| pl.point_to_2d::<T>(*p)).collect();
    let qp: Vec<T> = q.iter().map(|q| pl.point_to_3d::<T>(*q)).collect();
    let pback: Vec<T::Vector2> = qp.iter().map(|p| pl.point_to_2d::<T>(*p)).collect();
    let lines: Vec<T::Vector2> = p
        .windows(2)
        .flat_map(|w| {
            let l = Line3::new(w[0], w[1]).copy_to_2d(pl);
            [l.start, l.end]
        })
        .collect();
    let lines3: Vec<<T::Vector2 as GenericVector2>::Vector3> = q
        .windows(2)
        .flat_map(|w| {
            let l = Line2::new(w[0], w[1]).copy_to_3d(pl);
            [l.start, l.end]
        })
        .collect();
    Ok(json!({
        "to2": same2(&p2, k)?, "to3": same3(&q3, k)?,
        "pt2": same2(&pp, k)?, "pt3": same3(&qp, k)?,
        "back": same2(&pback, k)?,
        "line2": same2(&lines, k)?, "line3": same3(&lines3, k)?,
    }))
}

// ------------------------------------------------------------------ P17
const SP: f64 = 256.0;
pub fn gen17(g: &mut Gen) {
    // rotations that keep integers: (direction, length)
    const DIRS: [(i64, i64, i64); 8] = [
        (1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5),
    ];
    // the arcs of the model, on a segment that lies anywhere
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for c in gen {
        let (b, d0, d1, md) = (i(&c, "b"), i(&c, "d0"), i(&c, "d1"), i(&c, "md"));
        for u in DIRS {
            let t = *g.pick(&["d", "d", "cd", "f", "cf"]);
            let md = if u.2 == 5 && md == 1 { 2 } else { md };
            let b = if g.coin(0.5) { -b } else { b };
            place(g, "tlc", t, u, b, d0, d1, md);
        }
    }
    for it in 0..g.n(12000, 120000) {
        let t = ["d", "d", "cd", "f", "cf"][it % 5];
        let u = *g.pick(&DIRS);
        let b = *g.pick(&[1, 2, 4, -1, -2, -4]);
        // in the frame of the segment: parabola y = (dx^2 + b^2) / 2b
        let step = match i64::abs(b) { 1 => 1, 2 => 2, _ => 4 };
        let dx = |g: &mut Gen| {
            let n = if u.2 == 1 { 9 } else { 4 };
            match i64::abs(b) {
                1 => 2 * g.r(-n / 2, n / 2 - 1) + 1,
                _ => step * g.r(-n / step, n / step),
            }
        };
        let (d0, d1) = (dx(g), dx(g));
        if d0 == d1 {
            continue;
        }
        let md = *g.pick(&[1, 2, 4, 8, 16, 40, 200]); // sixteenths
        let md = if u.2 == 5 && md == 1 { 2 } else { md };
        place(g, "arc", t, u, b, d0, d1, md);
    }
}
/// y = (dx^2 + b^2) / 2b in the frame of a segment that lies anywhere
#[allow(clippy::too_many_arguments)]
fn place(g: &mut Gen, k: &str, t: &str, u: (i64, i64, i64), b: i64, d0: i64, d1: i64, md: i64) {
    let a = g.r(-3, 3);
    // the segment spans the projections
    let lo = a + d0.min(d1) - g.r(0, 2);
    let hi = a + d0.max(d1) + g.r(0, 2);
    let y = |d: i64| (d * d + b * b) / (2 * b);
    let o = g.p2(-3, 3);
    let flip = g.coin(0.3);
    let rot = |x: i64, y: i64| (o.0 + u.0 * x - u.1 * y, o.1 + u.1 * x + u.0 * y);
    let (sa, sb) = if flip { (rot(hi, 0), rot(lo, 0)) } else { (rot(lo, 0), rot(hi, 0)) };
    g.push(json!({"k":k,"t":t,"e":0,"sa":sa,"sb":sb,"len":(hi-lo)*u.2,"cell":rot(a,b),
        "p":rot(a+d0,y(d0)),"q":rot(a+d1,y(d1)),"md":md}));
}
pub fn exec17(c: &Value) -> Out {
    by2!(c, exec17t)
}
fn exec17t<T: GenericVector2>(c: &Value) -> Out {
    let p = |n: &str| -> T { v2(rp2(&c[n]), 1.0) };
    let arc = VoronoiParabolicArc::new(Line2::new(p("sa"), p("sb")), p("cell"), p("p"), p("q"));
    let md: T::Scalar = sc(i(c, "md") as f64 / 16.0);
    let o2 = arc.discretize_2d(md);
    let o3 = arc.discretize_3d(md);
    let st = arc.discretize_3d_straight_line();
    if o2.len() > 400 || o3.len() > 400 {
        return Err("too many points".into());
    }
    Ok(json!({
        "o2": outs2(&o2, 1.0, SP)?, "o3": outs3(&o3, 1.0, SP)?, "line": outs3(&st, 1.0, SP)?,
        "ends": o2.first() == Some(&p("p")) && o2.last() == Some(&p("q")),
    }))
}

// ------------------------------------------------------------------ P18
pub fn gen18(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "fa", "cd", "cf"][it % 5];
        let k = if c["full"] == json!(true) { "full" } else { "obj" };
        g.push(json!({"k":k,"t":t,"e":0,"lines":c["lines"],"name":"m"}));
    }
    for it in 0..g.n(2500, 20000) {
        let (t, e) = T3[it % T3.len()];
        let e = if g.coin(0.3) { g.r(-9, 9) } else { e };
        // also coordinates with as many digits as the type can hold
        let m = *g.pick(&[1, 2, 30, if is_f64(t) { 2000000000 } else { 16777000 }]);
        let mut groups: Vec<Vec<(P3, P3)>> = vec![];
        let big = it % 40 < 2;
        let many = it % 300 == 5;
        for _ in 0..(if big { g.r(3, 12) } else { g.r(0, 3) }) {
            let mut v: Vec<(P3, P3)> = vec![];
            for _ in 0..(if many { g.r(100, 250) } else if big { g.r(0, 14) } else { g.r(0, 4) }) {
                let a = match v.last() {
                    Some(l) if g.coin(0.6) => l.1,
                    _ => g.p3(-m, m),
                };
                v.push((a, g.p3(-m, m)))
            }
            groups.push(v)
        }
        let name = *g.pick(&["a", "obj name", "x_1"]);
        let k = if it % 20 == 19 || it % 300 == 5 && g.coin(0.5) { "full" } else { "obj" };
        g.push(json!({"k":k,"t":t,"e":e,"lines":groups,"name":name}));
    }
    g.push(json!({"k":"badpath","t":"d","e":0,"lines":[[[[0,0,0],[1,0,0]]]],"name":"a"}));
}
pub fn exec18(c: &Value) -> Out {
    by3!(c, exec18t)
}
fn exec18t<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let lines: Vec<Vec<Line3<T>>> = c["lines"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            v.as_array()
                .unwrap()
                .iter()
                .map(|x| Line3::new(v3(rp3(&x[0]), k), v3(rp3(&x[1]), k)))
                .collect()
        })
        .collect();
    // the harness runs in a scratch directory of its own
    let bad = s(c, "k") == "badpath";
    // a device without room for anything
    let full = s(c, "k") == "full";
    let path = if bad { "no-such-dir/out.obj" } else if full { "/dev/full" } else { "out.obj" };
    let r = l3::save_to_obj_file(path, s(c, "name"), &lines);
    if bad || full {
        return Ok(json!({"failed": r.is_err()}));
    }
    e2s(r)?;
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let mut v: Vec<Value> = vec![];
    let mut l: Vec<Value> = vec![];
    let mut name: Vec<String> = vec![];
    for line in text.lines() {
        let line = line.split('#').next().unwrap().trim_end();
        let mut w = line.splitn(2, ' ');
        match (w.next(), w.next()) {
            (Some("o"), Some(n)) => {
                if !v.is_empty() || !l.is_empty() {
                    return Err("object name after the data".into());
                }
                name.push(n.to_string())
            }
            (Some("v"), Some(r)) => {
                let x: Vec<f64> = r
                    .split_whitespace()
                    .map(|x| {
                        // read with the precision it was written with
                        if is_f64(s(c, "t")) { x.parse::<f64>() } else { x.parse::<f32>().map(f64::from) }
                    })
                    .collect::<Result<_, _>>()
                    .map_err(|e| e.to_string())?;
                if x.len() != 3 || !x.iter().all(|x| exact(*x, k, 1.0)) {
                    return Err(format!("bad vertex {line}"));
                }
                v.push(json!([sint(x[0], k, 1.0)?, sint(x[1], k, 1.0)?, sint(x[2], k, 1.0)?]))
            }
            (Some("l"), Some(r)) => {
                let x: Vec<i64> = r
                    .split_whitespace()
                    .map(|x| x.parse::<i64>())
                    .collect::<Result<_, _>>()
                    .map_err(|e| e.to_string())?;
                if x.iter().any(|x| x.abs() > 100000) {
                    return Err(format!("bad line {line}"));
                }
                l.push(json!(x))
            }
            (Some(""), None) => (),
            _ => return Err(format!("unknown line {line}")),
        }
    }
    Ok(json!({"v": v, "l": l, "o": name}))
}

// ------------------------------------------------------------------ P24
pub fn gen24(g: &mut Gen) {
    emitted(g, &T2[..4], None);
    for it in 0..g.n(16000, 120000) {
        let (t, _) = T2[it % 4];
        let m = *g.pick(&[2, 20, 100]);
        let near = |g: &mut Gen, p: P2| {
            let r = *g.pick(&[0, 0, 1, 2, 4]);
            (p.0 + g.r(-r, r), p.1 + g.r(-r, r))
        };
        let (a, mut b) = (g.p2(-m, m), g.p2(-m, m));
        let (mut c, mut d) = (near(g, a), near(g, b));
        if g.coin(0.4) {
            std::mem::swap(&mut c, &mut d)
        }
        if g.coin(0.1) {
            c = g.p2(-m, m)
        }
        let eps = *g.pick(&[0, 1, 2, 3, 5]);
        if it % 2 == 0 {
            // also segments whose ends are as close as the tolerance
            if g.coin(0.3) {
                b = near(g, a);
                c = near(g, a);
                d = near(g, b);
            }
            g.push(json!({"k":"line","t":t,"e":0,"a":a,"b":b,"c":c,"d":d,"eps":eps}));
        } else {
            let n = if it % 1000 == 81 { g.hundreds(60, 500) } else if it % 40 == 1 { g.r(5, 40) } else { g.r(0, 4) };
            let p: Vec<P2> = (0..n).map(|_| g.p2(-m, m)).collect();
            let mut q: Vec<P2> = p.iter().map(|x| near(g, *x)).collect();
            match g.r(0, 6) {
                0 => {
                    q.pop();
                }
                1 => q.push((1, 1)),
                _ => (),
            }
            let z = g.r(-m, m);
            let dz = if g.coin(0.5) { 0 } else { g.r(-3, 3) };
            g.push(json!({"k":"vec","t":t,"e":0,"p":p,"q":q,"z":z,"dz":dz,"eps":eps}));
        }
    }
    let _ = hcf(1, 1);
}
pub fn exec24(c: &Value) -> Out {
    match s(c, "t") {
        "d" => exec24t::<vector_traits::glam::DVec2, vector_traits::glam::DVec3>(c),
        "f" => exec24t::<vector_traits::glam::Vec2, vector_traits::glam::Vec3>(c),
        "cd" => exec24t::<vector_traits::cgmath::Vector2<f64>, vector_traits::cgmath::Vector3<f64>>(c),
        _ => exec24t::<vector_traits::cgmath::Vector2<f32>, vector_traits::cgmath::Vector3<f32>>(c),
    }
}
/// a lattice with a spacing of 1/64: an epsilon of (n + 1/2)/64 can't hit a difference exactly
const LAT: f64 = 1.0 / 64.0;
fn exec24t<T: GenericVector2, U: GenericVector3>(c: &Value) -> Out {
    let eps = (i(c, "eps") as f64 + 0.5) * LAT;
    let e: T::Scalar = sc(eps);
    if s(c, "k") == "line" {
        let p = |n: &str| -> T { v2(rp2(&c[n]), LAT) };
        let (l, m) = (Line2::new(p("a"), p("b")), Line2::new(p("c"), p("d")));
        let arr: Line2<T> = [p("a").x(), p("a").y(), p("b").x(), p("b").y()].into();
        let arr2: Line2<T> = [[p("a").x(), p("a").y()], [p("b").x(), p("b").y()]].into();
        return Ok(json!({
            "abs": l.abs_diff_eq(&m, e), "sba": m.abs_diff_eq(&l, e),
            "ulps": UlpsEq::ulps_eq(&l, &m, e, 4), "slu": UlpsEq::ulps_eq(&m, &l, e, 4),
            "eq": l == m, "qe": m == l,
            "arr": out2(arr.start, LAT, 1.0)?, "arr1": out2(arr.end, LAT, 1.0)?,
            "arr2": out2(arr2.start, LAT, 1.0)?, "arr3": out2(arr2.end, LAT, 1.0)?,
        }));
    }
    let (p, q): (Vec<T>, Vec<T>) = (vs2(&pts2(&c["p"]), LAT), vs2(&pts2(&c["q"]), LAT));
    let (z, dz) = (i(c, "z"), i(c, "dz"));
    let p3: Vec<P3> = pts2(&c["p"]).iter().map(|x| (x.0, x.1, z)).collect();
    let q3: Vec<P3> = pts2(&c["q"]).iter().map(|x| (x.0, x.1, z + dz)).collect();
    let (p3, q3): (Vec<U>, Vec<U>) = (vs3(&p3, LAT), vs3(&q3, LAT));
    let e3: U::Scalar = sc(eps);
    Ok(json!({
        "abs": l2::Approx::abs_diff_eq(&p, &q, e), "ulps": l2::Approx::ulps_eq(&p, &q, e, 4),
        "abs3": l3::Approx::abs_diff_eq(&p3, &q3, e3), "ulps3": l3::Approx::ulps_eq(&p3, &q3, e3, 4),
    }))
}
