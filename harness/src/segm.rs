//! P01 segment intersection, P19 ray queries, P20 line string queries, P22 distances
use crate::common::*;
use crate::{by2, by3};
use linestring::linestring_2d::{self as l2, Intersection, Line2, LineString2};
use linestring::linestring_3d as l3;

pub const S: f64 = 256.0;

fn inter<T: GenericVector2>(r: &Option<Intersection<T>>, k: f64, z: f64) -> Out {
    Ok(match r {
        None => json!({"kind":"none"}),
        Some(Intersection::Intersection(p)) => json!({"kind":"point","p":out2(*p,k,z)?}),
        Some(Intersection::Overlap(l)) => {
            json!({"kind":"overlap","a":out2(l.start,k,z)?,"b":out2(l.end,k,z)?,"same": l.start==l.end})
        }
    })
}
fn seg(g: &mut Gen, m: i64) -> (P2, P2) {
    let a = g.p2(-m, m);
    let b = match g.r(0, 9) {
        0 => (a.0, g.r(-m, m)),
        1 => (g.r(-m, m), a.1),
        2 => a,
        _ => g.p2(-m, m),
    };
    (a, b)
}
/// a second segment, related to the first one in an interesting way
fn other(g: &mut Gen, a: P2, b: P2, m: i64) -> (P2, P2) {
    let along = |g: &mut Gen| {
        let d = (b.0 - a.0, b.1 - a.1);
        let n = hcf(d.0.abs(), d.1.abs()).max(1);
        let t = g.r(-2, n + 2);
        (a.0 + d.0 / n * t, a.1 + d.1 / n * t)
    };
    let r = match g.r(0, 8) {
        0 | 1 => (along(g), along(g)),
        2 => (along(g), g.p2(-m, m)),
        3 => (g.p2(-m, m), b),
        4 => (g.p2(-m, m), a),
        5 => {
            // parallel, near by
            let s = (g.r(-1, 1), g.r(-1, 1));
            ((a.0 + s.0, a.1 + s.1), (b.0 + s.0, b.1 + s.1))
        }
        _ => seg(g, m),
    };
    if g.coin(0.5) {
        (r.1, r.0)
    } else {
        r
    }
}
pub fn hcf(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        hcf(b, a % b)
    }
}
fn inside(p: P2, m: i64) -> bool {
    p.0.abs() <= m && p.1.abs() <= m
}

/// the vector w with d x w = 1, for coordinates of d without a common factor
pub fn beside(d: P2) -> P2 {
    let (mut r, mut u, mut v) = (d, (1, 0), (0, 1));
    while r.1 != 0 {
        let q = r.0 / r.1;
        r = (r.1, r.0 - q * r.1);
        u = (u.1, u.0 - q * u.1);
        v = (v.1, v.0 - q * v.1);
    }
    (-v.0 * r.0, u.0 * r.0)
}
/// the same shape, sheared: areas and all that has to do with sides remains, but it gets as
/// long and thin as `lim`, the largest difference of two coordinates, permits
pub fn sheared(g: &mut Gen, p: &[P2], lim: i64) -> Option<Vec<P2>> {
    let ext = |p: &[P2]| {
        let x = p.iter().map(|p| p.0).max()? - p.iter().map(|p| p.0).min()?;
        let y = p.iter().map(|p| p.1).max()? - p.iter().map(|p| p.1).min()?;
        Some((x, y))
    };
    let e = ext(p)?;
    let m = lim / (1 + e.0.max(e.1));
    for _ in 0..20 {
        let r = g.p2(-m, m);
        if hcf(r.0, r.1).abs() != 1 {
            continue;
        }
        let w = beside(r);
        let o = *p.first()?;
        let q: Vec<P2> = p
            .iter()
            .map(|p| {
                let (x, y) = (p.0 - o.0, p.1 - o.1);
                (x * r.0 + y * w.0, x * r.1 + y * w.1)
            })
            .collect();
        let x = ext(&q)?;
        if x.0.max(x.1) <= lim {
            return Some(q);
        }
    }
    None
}
/// adds sheared copies of some of the cases that are not larger than `small`; `keys` are their points and lists of points,
/// `dirs` their directions
pub fn stretch(g: &mut Gen, every: usize, small: i64, lim: (i64, i64), keys: &[&str], dirs: &[&str]) {
    for i in (0..g.cases.len()).step_by(every) {
        let mut c = g.cases[i].clone();
        let lim = if is_f64(s(&c, "t")) { lim.1 } else { lim.0 };
        let one = |v: &Value| v[0].is_i64();
        let mut p: Vec<P2> = vec![];
        if keys.iter().any(|k| c[*k].is_null()) {
            continue;
        }
        for k in keys {
            if one(&c[*k]) {
                p.push(rp2(&c[*k]))
            } else {
                p.extend(pts2(&c[*k]))
            }
        }
        // (a point on a segment is looked for with square roots)
        if p.is_empty() || s(&c, "k") == "line" && p.windows(2).any(|w| w[0] == w[1]) {
            continue;
        }
        let o = p[0];
        for k in dirs {
            let d = rp2(&c[*k]);
            p.push((o.0 + d.0, o.1 + d.1));
        }
        let d = |f: &dyn Fn(&P2) -> i64| p.iter().map(f).max().unwrap() - p.iter().map(f).min().unwrap();
        if d(&|p| p.0).max(d(&|p| p.1)) > small {
            continue;
        }
        let Some(q) = sheared(g, &p, lim) else { continue };
        let mut q = q.into_iter();
        for k in keys {
            c[*k] = if one(&c[*k]) {
                json!(q.next().unwrap())
            } else {
                let n = c[*k].as_array().unwrap().len();
                json!(q.by_ref().take(n).collect::<Vec<_>>())
            }
        }
        for k in dirs {
            // the first point is the origin now
            c[*k] = json!(q.next().unwrap());
        }
        g.push(c);
    }
}
pub fn gen01(g: &mut Gen) {
    emitted(g, &T2, Some("tlc"));
    for n in 0..g.cases.len() {
        let q = g.p2(-3, 5);
        let c = &mut g.cases[n];
        c["q"] = json!(q);
        c["S"] = json!(256);
        c["ask"] = json!(true);
    }
    for it in 0..g.n(24000, 300000) {
        let (t, e) = T2[it % T2.len()];
        let mut m = *g.pick(&[2, 4, 8, 20, 60]);
        let (a, b) = seg(g, m);
        let (c, d) = other(g, a, b, m);
        // a single precision point-on-segment test works with square roots
        if !is_f64(t) && (a == b || c == d) {
            m = 8
        } else {
            m = 60
        }
        if !(inside(a, m) && inside(b, m) && inside(c, m) && inside(d, m)) {
            continue;
        }
        let q = g.p2(-60, 60);
        let ask = is_f64(t) || [a, b, c].iter().all(|p| inside(*p, 8));
        g.push(json!({"k":"rnd","t":t,"e":e,"a":a,"b":b,"c":c,"d":d,"q":q,"S":256,"ask":ask}));
    }
    // long segments: nearly parallel ones, ones that just touch and ones that just don't
    for it in 0..g.n(10000, 100000) {
        let (t, e) = T2[it % T2.len()];
        let m = *g.pick(&[100, 300]);
        let (a, b) = (g.p2(-m, m), g.p2(-m, m));
        let near = |g: &mut Gen| {
            let n = *g.pick(&[1, 2, 3, 16]);
            let w = if g.coin(0.2) { g.r(-2, n + 2) } else { g.r(0, n) };
            let r = *g.pick(&[0, 0, 1, 2]);
            (a.0 + (b.0 - a.0) * w / n + g.r(-r, r), a.1 + (b.1 - a.1) * w / n + g.r(-r, r))
        };
        let c = near(g);
        let d = if g.coin(0.6) { near(g) } else { g.p2(-m, m) };
        let (c, d) = if g.coin(0.5) { (c, d) } else { (d, c) };
        if a == b || c == d || !inside(c, 300) || !inside(d, 300) {
            continue;
        }
        let q = g.p2(-300, 300);
        g.push(json!({"k":"long","t":t,"e":e,"a":a,"b":b,"c":c,"d":d,"q":q,"S":1,"ask":is_f64(t)}));
    }
    // as long as the products of their coordinates are exact, and as parallel as they can be
    for it in 0..g.n(4000, 60000) {
        let (t, e) = T2[it % T2.len()];
        let m = if is_f64(t) { 14000 } else { 3500 };
        let r = g.p2(-m, m);
        if hcf(r.0, r.1).abs() != 1 {
            continue;
        }
        let w = beside(r);
        let (n, k) = (g.r(-1, 1), g.r(-8, 8));
        // n r + k w
        let at = |n: i64, k: i64| (n * r.0 + k * w.0, n * r.1 + k * w.1);
        let a = g.p2(-500, 500);
        let b = (a.0 + r.0, a.1 + r.1);
        let h = match g.r(0, 3) {
            0 => 0,
            1 => -k,
            2 => g.r(-9, 9),
            _ if k < 0 => g.r(0, -k),
            _ => g.r(-k, 0),
        };
        let (c, s) = (at(g.r(-1, 1), h), at(n, k));
        let c = (a.0 + c.0, a.1 + c.1);
        let d = (c.0 + s.0, c.1 + s.1);
        let lim = if is_f64(t) { 28000 } else { 4000 };
        let close = |p: P2, q: P2| inside((p.0 - q.0, p.1 - q.1), lim);
        if c == d || ![(a, c), (a, d), (b, c), (b, d), (c, d)].iter().all(|x| close(x.0, x.1)) {
            continue;
        }
        let (a, b) = if g.coin(0.5) { (a, b) } else { (b, a) };
        let (c, d) = if g.coin(0.5) { (c, d) } else { (d, c) };
        let q = g.p2(-300, 300);
        g.push(json!({"k":"far","t":t,"e":e,"a":a,"b":b,"c":c,"d":d,"q":q,"S":1,"ask":false}));
    }
}
pub fn exec01(c: &Value) -> Out {
    by2!(c, exec01t)
}
fn exec01t<T: GenericVector2>(cs: &Value) -> Out {
    let k = unit(cs);
    let z = i(cs, "S") as f64;
    let p = |n: &str| -> T { v2(rp2(&cs[n]), k) };
    let (a, b, c, d, q) = (p("a"), p("b"), p("c"), p("d"), p("q"));
    let r = Line2::new(a, b).intersection_point(Line2::new(c, d));
    let mut o = json!({
        "r": inter(&r, k, z)?,
        // the same question asked the other way around
        "m": inter(&Line2::new(c, d).intersection_point(Line2::new(a, b)), k, z)?,
    });
    if let Some(x) = r {
        o["single"] = out2(x.single(), k, z)?;
        o["close"] = out2(x.closest(q), k, z)?;
    }
    // point on segment
    o["pc"] = inter(&l2::intersect_line_point(Line2::new(a, b), c), k, z)?;
    Ok(o)
}

// ------------------------------------------------------------------ P20
fn polyline(g: &mut Gen, m: i64, nmax: i64) -> Vec<P2> {
    let n = g.r(0, nmax);
    let mut p: Vec<P2> = vec![];
    for _ in 0..n {
        p.push(if p.is_empty() || g.coin(0.6) {
            g.p2(-m, m)
        } else {
            let l = p[p.len() - 1];
            let q = (l.0 + g.r(-2, 2), l.1 + g.r(-2, 2));
            if inside(q, m) {
                q
            } else {
                g.p2(-m, m)
            }
        })
    }
    if g.coin(0.3) && p.len() > 2 {
        let q = p[0];
        p.push(q)
    }
    p
}
pub fn gen20(g: &mut Gen) {
    emitted(g, &T2, None);
    for it in 0..g.n(12000, 100000) {
        let (t, e) = T2[it % T2.len()];
        let m = if is_f64(t) { *g.pick(&[2, 5, 20, 60]) } else { *g.pick(&[2, 4, 8]) };
        let p = polyline(g, m, if it % 8000 == 4001 { 70000 } else if it % 4000 == 1 { 3000 } else if it % 1000 == 1 { 500 } else if it % 50 == 0 { 60 } else { 9 });
        let (c, d) = if p.len() > 1 && g.coin(0.7) {
            let i = g.r(0, p.len() as i64 - 2) as usize;
            other(g, p[i], p[i + 1], m)
        } else {
            seg(g, m)
        };
        if !inside(c, m) || !inside(d, m) {
            continue;
        }
        g.push(json!({"k":"line","t":t,"e":e,"pts":p,"c":c,"d":d}));
    }
    // convex loops
    for it in 0..g.n(12000, 100000) {
        let (t, e) = T2[it % T2.len()];
        let m = if is_f64(t) { *g.pick(&[2, 5, 20, 60]) } else { *g.pick(&[2, 4, 8]) };
        let n = if it % 100 == 2 { 120 } else { g.r(3, 12) };
        let cl: Vec<P2> = (0..n).map(|_| g.p2(-m, m)).collect();
        if !crate::hull::spanning(&cl) {
            continue;
        }
        let mut h = crate::hull::chain_hull(&cl);
        if g.coin(0.5) {
            h.reverse()
        }
        let i = g.r(0, h.len() as i64 - 2) as usize;
        let (c, d) = if g.coin(0.6) { other(g, h[i], h[i + 1], m) } else { seg(g, m) };
        if !inside(c, m) || !inside(d, m) || c == d {
            continue;
        }
        g.push(json!({"k":"convex","t":t,"e":e,"pts":h,"c":c,"d":d}));
    }
    stretch(g, 6, 15, (2000, 8000), &["pts", "c", "d"], &[]);
}
pub fn exec20(c: &Value) -> Out {
    by2!(c, exec20t)
}
fn exec20t<T: GenericVector2>(cs: &Value) -> Out {
    let k = unit(cs);
    let p: Vec<T> = vs2(&pts2(&cs["pts"]), k);
    let l = Line2::<T>::new(v2(rp2(&cs["c"]), k), v2(rp2(&cs["d"]), k));
    let (x, y) = p.find_two_intersections(&l);
    let two: Vec<T> = x.into_iter().chain(y).collect();
    Ok(json!({
        "first": inter(&p.intersection(&l), k, S)?,
        "all": p.find_all_intersections(&l).into_iter().map(|i| inter(&Some(i), k, S)).collect::<Result<Vec<_>, _>>()?,
        "two": outs2(&two, k, S)?,
    }))
}

// ------------------------------------------------------------------ P19
pub fn gen19(g: &mut Gen) {
    emitted(g, &T2, Some("ray"));
    for it in 0..g.n(25000, 200000) {
        let (t, e) = T2[it % T2.len()];
        let m = *g.pick(&[2, 5, 12, 30]);
        let p = polyline(g, m, if it % 8000 == 4001 { 70000 } else if it % 4000 == 1 { 3000 } else if it % 1000 == 1 { 500 } else if it % 50 == 0 { 60 } else { 9 });
        let o = if !p.is_empty() && g.coin(0.3) {
            *g.pick(&p)
        } else {
            g.p2(-m, m)
        };
        let d = loop {
            let d = match g.r(0, 5) {
                0 => (g.r(-3, 3), 0),
                1 => (0, g.r(-3, 3)),
                2 if !p.is_empty() => {
                    // aim at a vertex
                    let v = *g.pick(&p);
                    let d = (v.0 - o.0, v.1 - o.1);
                    let h = hcf(d.0.abs(), d.1.abs()).max(1);
                    (d.0 / h, d.1 / h)
                }
                _ => g.p2(-6, 6),
            };
            if d != (0, 0) {
                break d;
            }
        };
        // the result is not defined when the ray starts on top of an edge it runs along
        let c = |a: P2, b: P2| a.0 * b.1 - a.1 * b.0;
        let bad = p.windows(2).any(|w| {
            let (u, v) = ((w[0].0 - o.0, w[0].1 - o.1), (w[1].0 - o.0, w[1].1 - o.1));
            c(u, d) == 0 && c(v, d) == 0 && u.0 * v.0 + u.1 * v.1 <= 0
        });
        if bad {
            continue;
        }
        g.push(json!({"k":"ray","t":t,"e":e,"pts":p,"o":o,"dir":d}));
    }
    stretch(g, 8, 15, (1000, 1000), &["o", "pts"], &["dir"]);
}
pub fn exec19(c: &Value) -> Out {
    by2!(c, exec19t)
}
fn exec19t<T: GenericVector2>(cs: &Value) -> Out {
    let k = unit(cs);
    let p: Vec<T> = vs2(&pts2(&cs["pts"]), k);
    let (dir, o): (T, T) = (v2(rp2(&cs["dir"]), k), v2(rp2(&cs["o"]), k));
    let r = p.closest_ray_intersection(dir, o);
    let r: Vec<T> = r.into_iter().collect();
    // the edges on their own
    let mut te: Vec<Vec<i64>> = vec![];
    for w in p.windows(2) {
        te.push(match Vec::<T>::ray_edge_intersection(o, dir, w[0], w[1]) {
            Some(t) => vec![sint(f(t), 1.0, S)?],
            None => vec![],
        });
    }
    Ok(json!({"r": outs2(&r, k, S)?, "te": te}))
}

// ------------------------------------------------------------------ P22
pub fn gen22(g: &mut Gen) {
    emitted(g, &T2, None);
    for n in 0..g.cases.len() {
        if s(&g.cases[n], "k") == "d3" {
            let (t, e) = T3[n % T3.len()];
            g.cases[n]["t"] = json!(t);
            g.cases[n]["e"] = json!(e);
        }
    }
    for it in 0..g.n(20000, 200000) {
        let m = *g.pick(&[2, 5, 14]);
        if it % 2 == 0 {
            let (t, e) = T2[it / 2 % T2.len()];
            let a = g.p2(-m, m);
            let b = if g.coin(0.1) { a } else { g.p2(-m, m) };
            let p = if g.coin(0.2) { (2 * b.0 - a.0, 2 * b.1 - a.1) } else { g.p2(-m, m) };
            if !inside(p, 20) {
                continue;
            }
            g.push(json!({"k":"d2","t":t,"e":e,"a":a,"b":b,"p":p}));
        } else {
            let (t, e) = T3[it / 2 % T3.len()];
            let a = g.p3(-m, m);
            let b = if g.coin(0.1) { a } else { g.p3(-m, m) };
            let p = g.p3(-m, m);
            g.push(json!({"k":"d3","t":t,"e":e,"a":a,"b":b,"p":p}));
        }
    }
    // long lines, and points close to them
    for it in 0..g.n(8000, 80000) {
        let m = *g.pick(&[100, 400, 1200]);
        if it % 2 == 0 {
            let (t, e) = T2[it / 2 % T2.len()];
            let (a, b) = (g.p2(-m, m), g.p2(-m, m));
            let w = g.r(-4, 20);
            let r = *g.pick(&[0, 1, 2]);
            let p = (a.0 + (b.0 - a.0) * w / 16 + g.r(-r, r), a.1 + (b.1 - a.1) * w / 16 + g.r(-r, r));
            let (u, v) = ((b.0 - a.0, b.1 - a.1), (p.0 - a.0, p.1 - a.1));
            let c = u.0 * v.1 - u.1 * v.0;
            let far = |x: P2, y: P2| (x.0 - y.0) * (x.0 - y.0) + (x.1 - y.1) * (x.1 - y.1);
            if a == b || c * c > 30_000_000 || far(a, p).min(far(b, p)) > 500_000 {
                continue;
            }
            g.push(json!({"k":"d2","t":t,"e":e,"a":a,"b":b,"p":p}));
        } else {
            let (t, e) = T3[it / 2 % T3.len()];
            let (a, b) = (g.p3(-m, m), g.p3(-m, m));
            let w = g.r(-8, 24);
            let r = *g.pick(&[0, 1, 2]);
            let at = |g: &mut Gen, a: i64, b: i64| a + (b - a) * w / 16 + g.r(-r, r);
            let p = (at(g, a.0, b.0), at(g, a.1, b.1), at(g, a.2, b.2));
            let (u, v) = ((b.0 - a.0, b.1 - a.1, b.2 - a.2), (p.0 - a.0, p.1 - a.1, p.2 - a.2));
            let c = (u.1 * v.2 - u.2 * v.1, u.2 * v.0 - u.0 * v.2, u.0 * v.1 - u.1 * v.0);
            if a == b || c.0 * c.0 + c.1 * c.1 + c.2 * c.2 > 30_000_000 {
                continue;
            }
            g.push(json!({"k":"d3","t":t,"e":e,"a":a,"b":b,"p":p}));
        }
    }
}
pub fn exec22(c: &Value) -> Out {
    if s(c, "k") == "d2" {
        by2!(c, exec22t)
    } else {
        by3!(c, exec22u)
    }
}
fn exec22t<T: GenericVector2>(cs: &Value) -> Out {
    let k = unit(cs);
    let p = |n: &str| -> T { v2(rp2(&cs[n]), k) };
    let safe = f(l2::distance_to_line_squared_safe(p("a"), p("b"), p("p")));
    let raw = if cs["a"] == cs["b"] {
        safe
    } else {
        f(l2::distance_to_line_squared(p("a"), p("b"), p("p")))
    };
    Ok(json!({"safe": sint(safe, k * k, 64.0)?, "raw": sint(raw, k * k, 64.0)?}))
}
fn exec22u<T: GenericVector3>(cs: &Value) -> Out {
    let k = unit(cs);
    let p = |n: &str| -> T { v3(rp3(&cs[n]), k) };
    let safe = f(l3::distance_to_line_squared_safe(p("a"), p("b"), p("p")));
    let raw = if cs["a"] == cs["b"] {
        safe
    } else {
        f(l3::distance_to_line_squared(p("a"), p("b"), p("p")))
    };
    Ok(json!({"safe": sint(safe, k * k, 64.0)?, "raw": sint(raw, k * k, 64.0)?}))
}
