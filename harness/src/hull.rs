//! P05 sequential convex hulls, P06 parallel hull, P07 containment, P23 orientation
use crate::by2;
use crate::common::*;
use linestring::linestring_2d::{convex_hull as ch, LineString2};
#[cfg(not(feature = "modelpar"))]
use std::collections::HashMap;
#[cfg(not(feature = "modelpar"))]
use std::sync::{Arc, Mutex, OnceLock};

pub fn cross(a: P2, b: P2, c: P2) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn spanning(p: &[P2]) -> bool {
    p.iter().any(|b| *b != p[0] && p.iter().any(|c| cross(p[0], *b, *c) != 0))
}
/// used only to *construct* inputs (hulls to query), never to judge results
pub fn chain_hull(ps: &[P2]) -> Vec<P2> {
    let mut p = ps.to_vec();
    p.sort();
    p.dedup();
    let mut h: Vec<P2> = vec![];
    for &q in &p {
        while h.len() > 1 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
            let _ = h.pop();
        }
        h.push(q)
    }
    let l = h.len() + 1;
    for &q in p.iter().rev().skip(1) {
        while h.len() >= l && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
            let _ = h.pop();
        }
        h.push(q)
    }
    h
}

/// point clouds with many collinear points and duplicates, or none at all
fn cloud(g: &mut Gen, f64ok: bool, nmax: usize) -> Vec<P2> {
    if nmax < 100 && g.coin(0.12) {
        // long and thin (single precision angles tell no more than this apart)
        let m = *g.pick(&[1, 2, 3, 5]);
        let n = g.r(3, nmax as i64) as usize;
        let p: Vec<P2> = (0..n).map(|_| g.p2(0, m)).collect();
        if spanning(&p) {
            if let Some(p) = crate::segm::sheared(g, &p, if f64ok { 14000 } else { 1400 }) {
                return p;
            }
        }
    }
    loop {
        let n = g.r(3, nmax as i64) as usize;
        let style = g.r(0, 7);
        let mut p: Vec<P2> = match style {
            0 => (0..n).map(|_| g.p2(0, 2)).collect(),
            1 => (0..n).map(|_| g.p2(-3, 3)).collect(),
            2 => (0..n).map(|_| g.p2(0, 9)).collect(),
            3 => (0..n).map(|_| g.p2(-40, 40)).collect(),
            4 if f64ok => (0..n).map(|_| g.p2(-10000, 10000)).collect(),
            4 => (0..n).map(|_| g.p2(-500, 500)).collect(),
            // a border: everything is on the rim of a box
            5 => {
                let w = g.r(1, 8);
                (0..n)
                    .map(|_| {
                        let t = g.r(0, w);
                        match g.r(0, 3) {
                            0 => (t, 0),
                            1 => (w, t),
                            2 => (t, w),
                            _ => (0, t),
                        }
                    })
                    .collect()
            }
            // convex position: points of a parabola (all are hull vertices)
            6 => {
                let m = if f64ok { 60 } else { 20 };
                (0..n)
                    .map(|_| {
                        let x = g.r(-m, m);
                        (x, x * x)
                    })
                    .collect()
            }
            // two diagonals
            _ => (0..n)
                .map(|_| {
                    let t = g.r(-6, 6);
                    if g.coin(0.5) {
                        (t, t)
                    } else {
                        (t, -t)
                    }
                })
                .collect(),
        };
        if g.coin(0.3) {
            // duplicates of extreme points
            let k = g.r(1, 3);
            for _ in 0..k {
                let q = if g.coin(0.5) {
                    *p.iter().min().unwrap()
                } else {
                    *g.pick(&p.clone())
                };
                let at = g.r(0, p.len() as i64) as usize;
                p.insert(at, q)
            }
        }
        if g.coin(0.3) {
            let q = p[0];
            p.push(q)
        }
        if spanning(&p) {
            return p;
        }
    }
}
/// points on one line (or a single one, or none), with duplicates
fn flat_cloud(g: &mut Gen) -> Vec<P2> {
    let top = if g.coin(0.1) { 40 } else { 7 };
    let n = g.r(0, top) as usize;
    let (o, d) = (g.p2(-5, 5), g.p2(-3, 3));
    let m = *g.pick(&[0, 1, 2, 5, 20]);
    let mut p: Vec<P2> = (0..n)
        .map(|_| {
            let t = g.r(-m, m);
            (o.0 + t * d.0, o.1 + t * d.1)
        })
        .collect();
    if n > 0 && g.coin(0.3) {
        p.push(p[0])
    }
    p
}
fn flat_indices(g: &mut Gen, p: &[P2]) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..p.len()).collect();
    for i in (1..ix.len()).rev() {
        let j = g.r(0, i as i64) as usize;
        ix.swap(i, j)
    }
    if g.coin(0.3) {
        let keep = g.r(0, ix.len() as i64) as usize;
        ix.truncate(keep);
    }
    if !ix.is_empty() && g.coin(0.3) {
        ix.push(ix[0])
    }
    ix
}
fn indices(g: &mut Gen, p: &[P2]) -> Vec<usize> {
    let all: Vec<usize> = (0..p.len()).collect();
    match g.r(0, 3) {
        0 => {
            // a permutation of a subset, maybe with an explicit loop
            for _ in 0..20 {
                let mut ix = all.clone();
                for i in (1..ix.len()).rev() {
                    let j = g.r(0, i as i64) as usize;
                    ix.swap(i, j)
                }
                let keep = g.r(3, ix.len() as i64) as usize;
                ix.truncate(keep);
                let sub: Vec<P2> = ix.iter().map(|i| p[*i]).collect();
                if spanning(&sub) {
                    if g.coin(0.4) {
                        ix.push(ix[0])
                    }
                    return ix;
                }
            }
            all
        }
        1 => {
            let mut ix = all;
            ix.push(0);
            ix
        }
        _ => all,
    }
}

/// hundreds of points: all over the place, or around a circle
/// more points than 16 bits can count, most of them several times; those far out are there once
fn huge(g: &mut Gen) -> Vec<P2> {
    let n = g.r(66000, 80000) as usize;
    let m = g.r(10, 40);
    let mut p: Vec<P2> = (0..n).map(|_| g.p2(-m, m)).collect();
    for _ in 0..g.r(3, 12) {
        let at = if g.coin(0.5) { g.r(65536, n as i64 - 1) } else { g.r(0, n as i64 - 1) } as usize;
        p[at] = g.p2(-m - 15, m + 15);
    }
    p
}
fn many(g: &mut Gen, f64ok: bool) -> Vec<P2> {
    let n = g.r(200, 1200);
    let m = if f64ok { 400 } else { 40 };
    if g.coin(0.6) {
        return (0..n).map(|_| g.p2(-m, m)).collect();
    }
    let n = n / 3;
    (0..n)
        .map(|_| {
            let a = g.r(0, 6283) as f64 / 1000.0;
            ((a.cos() * m as f64) as i64, (a.sin() * m as f64) as i64)
        })
        .collect()
}
pub fn gen05(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    // behaviours enumerated by TLC (module Graham): the input and the model's hull
    for c in gen {
        let t = if g.coin(0.5) { "d" } else { "f" };
        let n = c["pts"].as_array().unwrap().len();
        let ix: Vec<usize> = (0..n).collect();
        g.push(json!({"k":"hull","t":t,"e":0,"pts":c["pts"],"ix":ix,"src":"tlc"}));
    }
    for it in 0..g.n(1200, 12000) {
        let (t, e) = T2[it % T2.len()];
        let p = flat_cloud(g);
        let ix = flat_indices(g, &p);
        g.push(json!({"k":"flat","t":t,"e":e,"pts":p,"ix":ix,"src":"rnd"}));
    }
    for it in 0..g.n(9000, 120000) {
        let (t, e) = T2[it % T2.len()];
        let p = cloud(g, is_f64(t), if it % 200 == 0 { 150 } else if it % 17 == 0 { 40 } else { 14 });
        let ix = indices(g, &p);
        g.push(json!({"k":"hull","t":t,"e":e,"pts":p,"ix":ix,"src":"rnd"}));
    }
    for it in 0..g.n(16, 200) {
        let (t, e) = T2[it % T2.len()];
        let p = many(g, is_f64(t));
        let ix = indices(g, &p);
        g.push(json!({"k":"hull","t":t,"e":e,"pts":p,"ix":ix,"src":"many"}));
    }
    for it in 0..g.n(2, 8) {
        let p = huge(g);
        let ix: Vec<usize> = if it % 2 == 0 { (0..p.len()).collect() } else { indices(g, &p) };
        g.push(json!({"k":"hull","t":(["d", "cd"][it % 2]),"e":0,"pts":p,"ix":ix,"src":"huge"}));
    }
}
pub fn exec05(c: &Value) -> Out {
    by2!(c, exec05t)
}
fn triangle(p: &[P2]) -> bool {
    p.len() == 3 && (p[1].0 - p[0].0) * (p[2].1 - p[0].1) != (p[1].1 - p[0].1) * (p[2].0 - p[0].0)
}
fn exec05t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    let ix = uss(&c["ix"]);
    let lim = |v: Vec<usize>| v;
    let ip = pts2(&c["pts"]);
    let low = ix.iter().copied().min_by_key(|i| ip[*i]);
    let open = if ip.len() > 1 && ip[0] == ip[ip.len() - 1] { &ip[1..] } else { &ip[..] };
    let distinct = open.iter().collect::<std::collections::HashSet<_>>().len() == open.len();
    #[allow(deprecated)]
    let mut wo = if distinct && open.len() > 3 || triangle(open) { e2s(ch::graham_scan_wo_atan2(&p))? } else { vec![] };
    // the three corners of a triangle come as an open loop
    if open.len() == 3 && wo.len() == 3 {
        wo.push(wo[0]);
    }
    Ok(json!({
        "wo": same2(&wo, k)?,
        "gs": same2(&e2s(ch::graham_scan(&p))?, k)?,
        "gw": same2(&e2s(ch::gift_wrap(&p))?, k)?,
        "ls": same2(&e2s(p.convex_hull())?, k)?,
        "igs": lim(e2s(ch::indexed_graham_scan(&p, &ix))?),
        "igw": lim(e2s(ch::indexed_gift_wrap(&p, &ix))?),
        "ign": lim(e2s(ch::indexed_graham_scan_no_loop(&p, &ix, None))?),
        // told where to start
        "igl": lim(e2s(ch::indexed_graham_scan_no_loop(&p, &ix, low))?),
    }))
}

// ------------------------------------------------------------------ P06
#[cfg(not(feature = "modelpar"))]
fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static POOLS: OnceLock<Mutex<HashMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    POOLS
        .get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry(n)
        .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone()
}
/// how the thread pool cuts n chunks in leaves and brackets the combination of the leaves
fn any_tree(g: &mut Gen, n: usize) -> String {
    if n <= 1 || g.coin(0.25) {
        return n.to_string();
    }
    let k = match g.r(0, 3) {
        0 => 1,
        1 => n - 1,
        _ => g.r(1, n as i64 - 1) as usize,
    };
    let l = any_tree(g, k);
    let r = any_tree(g, n - k);
    format!("[{l},{r}]")
}
#[cfg(feature = "modelpar")]
fn tree(v: &Value) -> rayon::Tree {
    match v.as_array() {
        Some(a) => rayon::Tree::Node(Box::new(tree(&a[0])), Box::new(tree(&a[1]))),
        None => rayon::Tree::Leaf(v.as_u64().unwrap() as usize),
    }
}
/// runs f on a pool of the given number of threads, or with the given schedule
#[cfg(not(feature = "modelpar"))]
fn on_pool<R: Send>(c: &Value, f: impl FnOnce() -> R + Send) -> R {
    pool(us(c, "th")).install(f)
}
#[cfg(feature = "modelpar")]
fn on_pool<R: Send>(c: &Value, f: impl FnOnce() -> R + Send) -> R {
    let t = c["tree"].as_str().map(|s| tree(&serde_json::from_str(s).unwrap()));
    rayon::set_tree(t);
    f()
}
pub fn gen06(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for c in gen {
        let n = c["pts"].as_array().unwrap().len();
        let ix: Vec<usize> = (0..n).collect();
        if cfg!(feature = "modelpar") {
            let t = if g.coin(0.5) { "d" } else { "f" };
            g.push(json!({"k":"schedule","t":t,"e":0,"pts":c["pts"],"ix":ix,"chunk":c["chunk"],"th":0,"tree":c["tree"],"src":"tlc"}));
        } else {
            let th = *g.pick(&[1, 2, 8]);
            g.push(json!({"k":"par","t":"d","e":0,"pts":c["pts"],"ix":ix,"chunk":c["chunk"],"th":th,"src":"tlc"}));
        }
    }
    if cfg!(feature = "modelpar") {
        for it in 0..g.n(6000, 90000) {
            let (t, e) = T2[it % T2.len()];
            let flat = g.coin(0.1);
            let p = if flat {
                flat_cloud(g)
            } else {
                cloud(g, is_f64(t), if it % 300 == 0 { 150 } else if it % 5 == 0 { 40 } else { 12 })
            };
            let ix = if flat { flat_indices(g, &p) } else { indices(g, &p) };
            let n = if ix.len() > 1 && ix.first() == ix.last() { ix.len() - 1 } else { ix.len() };
            let chunk = g.r(1, (n as i64 / 2).clamp(1, 9)) as usize;
            let tree = any_tree(g, n.div_ceil(chunk));
            g.push(json!({"k":"schedule","t":t,"e":e,"pts":p,"ix":ix,"chunk":chunk,"th":0,"tree":tree,"src":"rnd"}));
        }
        for it in 0..g.n(12, 200) {
            let (t, e) = T2[it % T2.len()];
            let p = many(g, is_f64(t));
            let ix = indices(g, &p);
            let n = if ix.first() == ix.last() { ix.len() - 1 } else { ix.len() };
            let chunk = g.r(5, 100) as usize;
            let tree = any_tree(g, n.div_ceil(chunk));
            g.push(json!({"k":"schedule","t":t,"e":e,"pts":p,"ix":ix,"chunk":chunk,"th":0,"tree":tree,"src":"many"}));
        }
        return;
    }
    for it in 0..g.n(1200, 12000) {
        let (t, e) = T2[it % T2.len()];
        let p = flat_cloud(g);
        let ix = flat_indices(g, &p);
        let chunk = g.r(1, 6);
        let th = *g.pick(&[1, 2, 3, 8]);
        g.push(json!({"k":"flat","t":t,"e":e,"pts":p,"ix":ix,"chunk":chunk,"th":th,"src":"rnd"}));
    }
    for it in 0..g.n(9000, 120000) {
        let (t, e) = T2[it % T2.len()];
        let p = cloud(g, is_f64(t), if it % 100 == 0 { 200 } else if it % 7 == 0 { 48 } else { 16 });
        let ix = indices(g, &p);
        let chunk = if g.coin(if p.len() > 48 { 0.5 } else { 0.15 }) {
            g.r(1, ix.len() as i64 + 2)
        } else {
            g.r(1, 6)
        };
        let th = *g.pick(&[1, 1, 2, 2, 3, 4, 8, 16]);
        g.push(json!({"k":"par","t":t,"e":e,"pts":p,"ix":ix,"chunk":chunk,"th":th,"src":"rnd"}));
    }
    for it in 0..g.n(24, 300) {
        let (t, e) = T2[it % T2.len()];
        let p = many(g, is_f64(t));
        let ix = indices(g, &p);
        let chunk = if g.coin(0.5) { g.r(1, 40) } else { g.r(1, ix.len() as i64 + 2) };
        let th = *g.pick(&[1, 2, 4, 8, 16]);
        g.push(json!({"k":"par","t":t,"e":e,"pts":p,"ix":ix,"chunk":chunk,"th":th,"src":"many"}));
    }
    for it in 0..g.n(2, 8) {
        let p = huge(g);
        let ix: Vec<usize> = if it % 2 == 0 { (0..p.len()).collect() } else { indices(g, &p) };
        let chunk = *g.pick(&[100, 1000, 30000, 66000]);
        let th = *g.pick(&[1, 2, 4, 8, 16]);
        g.push(json!({"k":"par","t":(["d", "cd"][it % 2]),"e":0,"pts":p,"ix":ix,"chunk":chunk,"th":th,"src":"huge"}));
    }
}
pub fn exec06(c: &Value) -> Out {
    by2!(c, exec06t)
}
fn exec06t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    let ix = uss(&c["ix"]);
    let chunk = us(c, "chunk");
    on_pool(c, || {
        let out = e2s(ch::convex_hull_par(&p, &ix, chunk))?;
        let seq = e2s(ch::indexed_graham_scan(&p, &ix))?;
        let m = if chunk > 1 {
            same2(&e2s(p.convex_hull_par(chunk))?, k)?
        } else {
            json!([])
        };
        Ok(json!({"out": out, "seq": seq, "m": m}))
    })
}

// ------------------------------------------------------------------ P07
fn any_hull(g: &mut Gen, f64ok: bool) -> Vec<P2> {
    loop {
        let m = *g.pick(&[2, 3, 6, 12, if f64ok { 400 } else { 40 }]);
        let n = (if g.coin(0.03) { g.r(25, 90) } else { g.r(3, 24) }) as usize;
        let big = g.coin(0.25);
        let p: Vec<P2> = if big {
            // a rounded polygon with many vertices: points near a circle
            let r = if f64ok { 900.0 } else { 200.0 };
            (0..n.max(8) * 3)
                .map(|_| {
                    let a = g.r(0, 6283) as f64 / 1000.0;
                    ((a.cos() * r) as i64, (a.sin() * r) as i64)
                })
                .collect()
        } else {
            (0..n).map(|_| g.p2(-m, m)).collect()
        };
        if !spanning(&p) {
            continue;
        }
        let mut h = chain_hull(&p);
        let _ = h.pop();
        let rot = g.r(0, h.len() as i64 - 1) as usize;
        h.rotate_left(rot);
        h.push(h[0]);
        return h;
    }
}
fn query_points(g: &mut Gen, h: &[P2]) -> Vec<P2> {
    let (x0, x1) = (h.iter().map(|p| p.0).min().unwrap(), h.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (h.iter().map(|p| p.1).min().unwrap(), h.iter().map(|p| p.1).max().unwrap());
    let mut q: Vec<P2> = vec![];
    if (x1 - x0 + 3) * (y1 - y0 + 3) <= 120 {
        for x in x0 - 1..=x1 + 1 {
            for y in y0 - 1..=y1 + 1 {
                q.push((x, y))
            }
        }
        return q;
    }
    q.extend(h.iter());
    for _ in 0..40 {
        q.push((g.r(x0 - 1, x1 + 1), g.r(y0 - 1, y1 + 1)))
    }
    // close to vertices, close to and on chords
    for _ in 0..40 {
        let a = *g.pick(h);
        let b = *g.pick(h);
        let d = g.r(1, 8);
        let t = g.r(0, d);
        let mut m = (a.0 + (b.0 - a.0) * t / d, a.1 + (b.1 - a.1) * t / d);
        if g.coin(0.4) {
            m = (m.0 + g.r(-1, 1), m.1 + g.r(-1, 1))
        }
        q.push(m)
    }
    q
}
pub fn gen07(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for c in gen {
        let k = if c["h"].as_array().unwrap().len() > 3 { "pts" } else { "deg" };
        g.push(json!({"k":k,"t":"d","e":0,"h":c["h"],"q":c["q"],"src":"tlc"}));
    }
    for it in 0..g.n(1500, 12000) {
        let (t, e) = T2[it % T2.len()];
        let h = any_hull(g, is_f64(t));
        let q = query_points(g, &h);
        g.push(json!({"k":"pts","t":t,"e":e,"h":h,"q":q,"src":"rnd"}));
    }
    for it in 0..g.n(600, 4000) {
        // loops without area
        let (t, e) = T2[it % T2.len()];
        let m = *g.pick(&[2, 10, 300]);
        let (u, v, w) = (g.p2(-m, m), g.p2(-3, 3), g.r(1, 6));
        let a = u;
        let bb = if g.coin(0.4) { a } else { (u.0 + w * v.0, u.1 + w * v.1) };
        let h = if a == bb { vec![a, a] } else { vec![a, bb, a] };
        let mut q: Vec<P2> = (-3..w + 3).map(|k| (u.0 + k * v.0, u.1 + k * v.1)).collect();
        q.extend([a, bb, (a.0 + 1, a.1), (bb.0, bb.1 - 1), g.p2(-m, m), g.p2(-m, m)]);
        g.push(json!({"k":"deg","t":t,"e":e,"h":h,"q":q,"src":"rnd"}));
        let m = g.r(1, 3) as usize;
        let inner: Vec<P2> = (0..m).map(|_| *g.pick(&q)).collect();
        g.push(json!({"k":"hh","t":t,"e":e,"a":h,"b":inner,"src":"deg"}));
    }
    for _ in 0..g.n(12, 200) {
        // several hundred vertices
        let n = g.hundreds(600, 2000);
        let p: Vec<P2> = (0..n)
            .map(|_| {
                let a = g.r(0, 62831) as f64 / 10000.0;
                ((a.cos() * 10000.0) as i64, (a.sin() * 10000.0) as i64)
            })
            .collect();
        let h = chain_hull(&p);
        let q = query_points(g, &h);
        let q: Vec<P2> = (0..60).map(|_| *g.pick(&q)).collect();
        let b = chain_hull(&q);
        g.push(json!({"k":"pts","t":"d","e":0,"h":h,"q":q,"src":"many"}));
        g.push(json!({"k":"hh","t":"cd","e":0,"a":h,"b":b,"src":"many"}));
    }
    for it in 0..g.n(5000, 40000) {
        let (t, e) = T2[it % T2.len()];
        let a = any_hull(g, is_f64(t));
        // b: another hull, or one made from points of / around a
        let bb = if g.coin(0.3) {
            any_hull(g, is_f64(t))
        } else {
            let m = g.r(3, 9) as usize;
            let mut p: Vec<P2> = vec![];
            for _ in 0..m {
                let x = *g.pick(&a);
                let y = *g.pick(&a);
                let z = *g.pick(&a);
                p.push(match g.r(0, 5) {
                    0 => x,
                    1 => (x.0 + g.r(-1, 1), x.1 + g.r(-1, 1)),
                    2 => ((x.0 + y.0) / 2, (x.1 + y.1) / 2),
                    _ => ((x.0 + y.0 + z.0) / 3, (x.1 + y.1 + z.1) / 3),
                })
            }
            if spanning(&p) {
                let mut h = chain_hull(&p);
                if g.coin(0.2) {
                    let _ = h.pop();
                }
                h
            } else {
                p
            }
        };
        g.push(json!({"k":"hh","t":t,"e":e,"a":a,"b":bb,"src":"rnd"}));
    }
    crate::segm::stretch(g, 6, 1000, (4000, 14000), &["a", "b"], &[]);
    crate::segm::stretch(g, 6, 1000, (4000, 14000), &["h", "q"], &[]);
}
pub fn exec07(c: &Value) -> Out {
    by2!(c, exec07t)
}
fn exec07t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    if s(c, "k") != "hh" {
        let h: Vec<T> = vs2(&pts2(&c["h"]), k);
        let open: Vec<T> = h[..h.len() - 1].to_vec();
        let q: Vec<T> = vs2(&pts2(&c["q"]), k);
        let map = |f: &dyn Fn(T) -> bool| -> Vec<bool> { q.iter().map(|p| f(*p)).collect() };
        Ok(json!({
            "inc": map(&|p| ch::contains_point_inclusive(&h, p)),
            "exc": map(&|p| ch::contains_point_exclusive(&h, p)),
            "minc": map(&|p| h.contains_point_inclusive(p)),
            "mexc": map(&|p| h.contains_point_exclusive(p)),
            "oinc": map(&|p| ch::contains_point_inclusive(&open, p)),
            "oexc": map(&|p| ch::contains_point_exclusive(&open, p)),
        }))
    } else {
        let a: Vec<T> = vs2(&pts2(&c["a"]), k);
        let bb: Vec<T> = vs2(&pts2(&c["b"]), k);
        Ok(json!({
            "ch": ch::contains_convex_hull(&a, &bb),
            "chp": ch::contains_convex_hull_par(&a, &bb),
        }))
    }
}

// ------------------------------------------------------------------ P23
pub fn gen23(g: &mut Gen) {
    emitted(g, &T2, Some("or"));
    for it in 0..g.n(20000, 200000) {
        let (t, e) = T2[it % T2.len()];
        let m = *g.pick(&[3, 10, 100, if is_f64(t) { 14000 } else { 400 }]);
        let a = g.p2(-m, m);
        let bb = g.p2(-m, m);
        let c = match g.r(0, 4) {
            0 => (2 * bb.0 - a.0, 2 * bb.1 - a.1),
            1 => ((a.0 + bb.0) / 2, (a.1 + bb.1) / 2),
            // as close to the line as it gets
            2 => {
                let w = g.r(-20, 36);
                (a.0 + (bb.0 - a.0) * w / 16, a.1 + (bb.1 - a.1) * w / 16)
            }
            _ => g.p2(-m, m),
        };
        let lim = if is_f64(t) { 14000 } else { 1200 };
        if c.0.abs() > lim || c.1.abs() > lim {
            continue;
        }
        g.push(json!({"k":"or","t":t,"e":e,"a":a,"b":bb,"c":c}));
    }
    // far apart and almost on a line: the smallest areas there are
    for it in 0..g.n(3000, 60000) {
        let (t, e) = T2[it % T2.len()];
        let m = if is_f64(t) { 12000 } else { 2000 };
        let d = g.p2(-m, m);
        if crate::segm::hcf(d.0, d.1).abs() != 1 {
            continue;
        }
        // beside the line through d, by an area of one
        let w = crate::segm::beside(d);
        let area = g.r(-3, 3);
        let n = g.r(-1, 2);
        let c = (n * d.0 + area * w.0, n * d.1 + area * w.1);
        let lim = if is_f64(t) { 25000 } else { 4000 };
        if [c, (c.0 - d.0, c.1 - d.1)].iter().any(|p| p.0.abs().max(p.1.abs()) > lim) {
            continue;
        }
        let a = g.p2(-1000, 1000);
        let (b, c) = ((a.0 + d.0, a.1 + d.1), (a.0 + c.0, a.1 + c.1));
        let o = match g.r(0, 5) {
            0 => (a, b, c),
            1 => (b, c, a),
            2 => (c, a, b),
            3 => (b, a, c),
            4 => (a, c, b),
            _ => (c, b, a),
        };
        g.push(json!({"k":"or","t":t,"e":e,"a":o.0,"b":o.1,"c":o.2}));
    }
}
pub fn exec23(c: &Value) -> Out {
    by2!(c, exec23t)
}
fn exec23t<T: GenericVector2>(cs: &Value) -> Out {
    let k = unit(cs);
    let (a, b, c): (T, T, T) = (
        v2(rp2(&cs["a"]), k),
        v2(rp2(&cs["b"]), k),
        v2(rp2(&cs["c"]), k),
    );
    let o = ch::point_orientation(a, b, c);
    Ok(json!({
        "o": match o { ch::Orientation::Left => 1, ch::Orientation::Right => -1, ch::Orientation::Collinear => 0 },
        "oleft": o.is_left(), "olc": o.is_left_or_collinear(),
        "left": ch::is_point_left(a, b, c),
        "lc": ch::is_point_left_allow_collinear(a, b, c),
        "cross": sint(f(ch::cross_2d(a, b, c)), k * k, 1.0)?,
    }))
}

// ------------------------------------------------------------------ P27
fn bad_point(g: &mut Gen, m: i64) -> P2 {
    let b = *g.pick(&crate::io::BAD);
    match g.r(0, 4) {
        0 => (b, *g.pick(&crate::io::BAD)),
        1 | 2 => (b, g.r(-m, m)),
        _ => (g.r(-m, m), b),
    }
}
pub fn gen27(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for c in gen {
        let t = *g.pick(&["d", "f", "cd", "cf"]);
        let th = *g.pick(&[1, 2, 8]);
        g.push(json!({"k":"tlc","t":t,"e":0,"verts":c["verts"],"ix":c["ix"],"chunk":c["chunk"],"th":th}));
    }
    for it in 0..g.n(6000, 60000) {
        let (t, e) = T2[it % T2.len()];
        let mut v = match it % 400 {
            0 => many(g, is_f64(t)),
            _ if it % 11 == 0 => flat_cloud(g),
            x => cloud(g, is_f64(t), if x < 40 { 40 } else { 9 }),
        };
        if v.is_empty() {
            continue;
        }
        let m = *g.pick(&[1, 3, 10]);
        // mostly one bad point, anywhere
        for _ in 0..*g.pick(&[0, 1, 1, 1, 2, 3]) {
            let b = bad_point(g, m);
            let n = v.len();
            let at = match g.r(0, 5) {
                0 => 0,
                1 => n - 1,
                2 => {
                    // the place of an extreme point
                    (0..n).min_by_key(|i| v[*i]).unwrap()
                }
                _ => g.r(0, n as i64 - 1) as usize,
            };
            if g.coin(0.5) {
                v[at] = b
            } else {
                v.insert(at, b)
            }
        }
        let ix = flat_indices(g, &v);
        let chunk = if g.coin(0.5) { g.r(1, 4) } else { g.r(1, v.len() as i64 + 1) };
        let th = *g.pick(&[1, 2, 3, 8]);
        g.push(json!({"k":"rnd","t":t,"e":e,"verts":v,"ix":ix,"chunk":chunk,"th":th}));
    }
}
pub fn exec27(c: &Value) -> Out {
    by2!(c, exec27t)
}
fn exec27t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let v: Vec<T> = pts2(&c["verts"]).iter().map(|p| crate::io::point(*p, k)).collect();
    let ix = uss(&c["ix"]);
    let p: Vec<T> = ix.iter().map(|i| v[*i]).collect();
    let pts = |r: Result<Vec<T>, linestring::LinestringError>| match r {
        // what can't be told is not a hull
        Ok(h) => json!({"by":"point","open":false,"err":false,"h":same2(&h, k).unwrap_or(json!([]))}),
        Err(_) => json!({"by":"point","open":false,"err":true,"h":[]}),
    };
    let inds = |open: bool, r: Result<Vec<usize>, linestring::LinestringError>| match r {
        Ok(h) => json!({"by":"index","open":open,"err":false,"h":h}),
        Err(_) => json!({"by":"index","open":open,"err":true,"h":[]}),
    };
    let chunk = us(c, "chunk");
    let par = |chunk: usize| on_pool(c, || ch::convex_hull_par(&v, &ix, chunk));
    Ok(json!({"outs": [
        pts(ch::gift_wrap(&p)),
        pts(ch::graham_scan(&p)),
        pts(p.convex_hull()),
        inds(false, ch::indexed_gift_wrap(&v, &ix)),
        inds(false, ch::indexed_graham_scan(&v, &ix)),
        inds(true, ch::indexed_graham_scan_no_loop(&v, &ix, None)),
        inds(false, par(chunk)),
        inds(false, par(ix.len() + 1)),
    ]}))
}
