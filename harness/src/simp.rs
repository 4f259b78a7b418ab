//! P08/P09 Ramer-Douglas-Peucker, P10/P11 Visvalingam-Whyatt
use crate::common::*;
use crate::{by2, by3};
use linestring::linestring_2d::LineString2;
use linestring::linestring_3d::LineString3;
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};

fn walk2(g: &mut Gen, n: usize, lo: i64, hi: i64) -> Vec<P2> {
    let style = g.r(0, 4);
    let mut p: Vec<P2> = vec![];
    while p.len() < n {
        let q = match (style, p.last()) {
            (0, Some(l)) => (l.0 + g.r(-1, 2), l.1 + g.r(-1, 1)),
            (1, Some(l)) => (l.0 + g.r(0, 2), l.1 + g.r(-2, 2)),
            (2, _) if p.len() > 1 => {
                // revisit old points
                if g.coin(0.4) {
                    *g.pick(&p)
                } else {
                    g.p2(lo, hi)
                }
            }
            (3, Some(_)) => {
                let x = p.len() as i64 + lo;
                (x, g.r(0, 2))
            }
            _ => g.p2(lo, hi),
        };
        p.push((q.0.clamp(lo, hi), q.1.clamp(lo, hi)))
    }
    if g.coin(0.35) && n > 1 {
        p[n - 1] = p[0]
    }
    p
}
/// a long polyline with few points on top of each other: all over the place, or a noisy curve
fn long2(g: &mut Gen, n: usize, lo: i64, hi: i64) -> Vec<P2> {
    let w = hi - lo;
    if g.coin(0.4) {
        return (0..n).map(|_| g.p2(lo, hi)).collect();
    }
    let (a, f, noise) = (g.r(0, w / 3), g.r(1, 5) as f64, g.r(0, w / 8));
    (0..n as i64)
        .map(|j| {
            let y = lo + w / 2 + (a as f64 * (j as f64 * f / n as f64 * 6.28).sin()) as i64 + g.r(-noise, noise);
            (lo + j * w / n as i64, y.clamp(lo, hi))
        })
        .collect()
}
fn walk3(g: &mut Gen, n: usize, lo: i64, hi: i64) -> Vec<P3> {
    let a = walk2(g, n, lo, hi);
    let flat = g.coin(0.2);
    let mut z = g.r(lo, hi);
    let mut v = vec![];
    for q in a {
        if !flat {
            z = if g.coin(0.5) { (z + g.r(-2, 2)).clamp(lo, hi) } else { g.r(lo, hi) }
        }
        v.push(match n % 3 {
            0 => (q.0, q.1, z),
            1 => (z, q.0, q.1),
            _ => (q.0, z, q.1),
        })
    }
    if g.coin(0.3) && n > 1 {
        v[n - 1] = v[0]
    }
    v
}
pub fn gen08(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        let n = c["pts"].as_array().unwrap().len();
        let ix: Vec<usize> = (0..n).collect();
        g.push(json!({"k":"tlc","t":t,"e":0,"pts":c["pts"],"ix":ix,"d":c["d"]}));
    }
    for it in 0..g.n(24000, 200000) {
        let (t, e) = T2[it % T2.len()];
        let n = if it % 60 == 7 { g.r(25, 120) } else if g.coin(0.9) { g.r(0, 10) } else { g.r(10, 24) } as usize;
        let (lo, hi) = if is_f64(t) { *g.pick(&[(0, 3), (-10, 10), (0, 50)]) } else { *g.pick(&[(0, 3), (0, 10)]) };
        let (t, lo, hi) = if n > 24 { (if it % 2 == 0 { "cd" } else { "d" }, 0, 50) } else { (t, lo, hi) };
        let p = if n > 24 { long2(g, n, lo, hi) } else { walk2(g, n, lo, hi) };
        let ix = if n > 24 { (0..n).filter(|_| g.coin(0.9)).collect() } else { subset(g, n) };
        let d = *g.pick(&[0, 1, 2, 3, 4, 4, 6, 8, 8, 12, 20, 40]);
        g.push(json!({"k":"rnd","t":t,"e":e,"pts":p,"ix":ix,"d":d}));
    }
    crate::segm::stretch(g, 6, 12, (0, 100), &["pts"], &[]);
    for it in 0..g.n(24, 300) {
        let (t, lo, hi) = *g.pick(&[("d", 0, 50), ("cd", 0, 50), ("f", 0, 10), ("cf", 0, 10)]);
        let p = spikes2(g, lo, hi);
        let ix: Vec<usize> = (0..p.len()).filter(|_| it % 2 == 0 || g.coin(0.9)).collect();
        let d = *g.pick(&[8, 12, 20, 40]);
        g.push(json!({"k":"many","t":t,"e":0,"pts":p,"ix":ix,"d":d}));
    }
}
/// A line of several hundred points, that lies flat but for a few points.
fn spikes2(g: &mut Gen, lo: i64, hi: i64) -> Vec<P2> {
    let n = if g.coin(0.4) { g.r(1000, 2600) } else { g.r(250, 500) };
    let noise = if n > 500 { 0 } else { 1 };
    let mut p: Vec<P2> = (0..n).map(|k| (lo + k * (hi - lo) / (n - 1), g.r(0, noise))).collect();
    for _ in 0..g.r(1, 4) {
        let k = g.r(0, n - 1) as usize;
        p[k].1 = g.r(lo, hi);
    }
    p
}
fn subset(g: &mut Gen, n: usize) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..n).collect();
    match g.r(0, 3) {
        0 if n > 0 => {
            let m = g.r(0, n as i64);
            ix = (0..m).map(|_| g.r(0, n as i64 - 1) as usize).collect()
        }
        1 => ix.reverse(),
        _ => (),
    }
    ix
}
pub fn exec08(c: &Value) -> Out {
    by2!(c, exec08t)
}
/// the distance is given in quarter units
fn dist<S: GenericScalar>(c: &Value, k: f64) -> S {
    sc(i(c, "d") as f64 / 4.0 * k)
}
fn exec08t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    Ok(json!({
        "out": same2(&p.simplify_rdp(dist(c, k)), k)?,
        "iout": indexed_simplify_rdp_2d(&p, &uss(&c["ix"]), dist(c, k)),
    }))
}
pub fn gen09(g: &mut Gen) {
    emitted(g, &T3, Some("tlc"));
    for c in g.cases.iter_mut() {
        c["ix"] = (0..c["pts"].as_array().unwrap().len()).collect();
    }
    for it in 0..g.n(20000, 200000) {
        let (t, e) = T3[it % T3.len()];
        let n = if it % 60 == 7 { g.r(19, 100) } else if g.coin(0.9) { g.r(0, 10) } else { g.r(10, 18) } as usize;
        let (lo, hi) = if is_f64(t) { *g.pick(&[(0, 2), (-5, 5), (-7, 8)]) } else { *g.pick(&[(0, 2), (0, 5)]) };
        let (t, lo, hi) = if n > 18 { (if it % 2 == 0 { "cd" } else { "d" }, -7, 8) } else { (t, lo, hi) };
        let p = if n > 18 { long2(g, n, lo, hi).iter().map(|q| (q.1, q.0, g.r(lo, hi))).collect() } else { walk3(g, n, lo, hi) };
        let ix = if n > 18 { (0..n).filter(|_| g.coin(0.9)).collect() } else { subset(g, n) };
        let d = *g.pick(&[0, 1, 2, 3, 4, 4, 6, 8, 12, 20]);
        g.push(json!({"k":"rnd","t":t,"e":e,"pts":p,"ix":ix,"d":d}));
    }
    for it in 0..g.n(24, 300) {
        let (t, lo, hi) = *g.pick(&[("d", -7, 8), ("cd", -7, 8), ("f", 0, 5), ("cf", 0, 5)]);
        let axis = g.r(0, 2);
        let flat = spikes2(g, lo, hi);
        let some = 4.0 / flat.len() as f64;
        let p: Vec<P3> = flat.iter().map(|q| { let z = if !g.coin(some) { 1 } else { g.r(lo, hi) }; match axis { 0 => (q.0, q.1, z), 1 => (q.1, z, q.0), _ => (z, q.0, q.1) } }).collect();
        let ix: Vec<usize> = (0..p.len()).filter(|_| it % 2 == 0 || g.coin(0.9)).collect();
        let d = *g.pick(&[8, 12, 20]);
        g.push(json!({"k":"many","t":t,"e":0,"pts":p,"ix":ix,"d":d}));
    }
}
pub fn exec09(c: &Value) -> Out {
    by3!(c, exec09t)
}
fn exec09t<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs3(&pts3(&c["pts"]), k);
    Ok(json!({
        "out": same3(&p.simplify_rdp(dist(c, k)), k)?,
        "iout": indexed_simplify_rdp_3d(&p, &uss(&c["ix"]), dist(c, k)),
    }))
}
pub fn gen10(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        g.push(json!({"k":"tlc","t":t,"e":0,"pts":c["pts"],"del":c["del"]}));
    }
    for it in 0..g.n(16000, 120000) {
        let (t, e) = T2[it % T2.len()];
        let n = if it % 120 == 6 { g.r(13, 70) } else if g.coin(0.9) { g.r(0, 8) } else { g.r(9, 12) } as usize;
        let t = if n > 12 && !is_f64(t) { "d" } else { t };
        let (lo, hi) = if n > 12 {
            (-500, 500)
        } else if n > 8 {
            (0, 40)
        } else if is_f64(t) {
            *g.pick(&[(0, 5), (0, 40), (-500, 500)])
        } else {
            *g.pick(&[(0, 5), (0, 40)])
        };
        // few triangles of equal size: every order among them is a behaviour of its own
        let p = if n > 12 { (0..n).map(|_| g.p2(lo, hi)).collect() } else { walk2(g, n, lo, hi) };
        let del = g.r(0, n as i64 + 2);
        g.push(json!({"k":"rnd","t":t,"e":e,"pts":p,"del":del}));
    }
    crate::segm::stretch(g, 10, 1000, (500, 14000), &["pts"], &[]);
    for it in 0..g.n(16, 200) {
        let n = if it % 100 == 61 { g.r(66000, 70000) } else if it % 8 == 3 { g.r(1000, 2500) } else { g.r(200, 600) };
        let p: Vec<_> = (0..n).map(|_| g.p2(-500, 500)).collect();
        let del = if it % 8 < 2 { n / 4 } else if n > 60000 { g.r(1, 3) } else { g.r(1, 8) };
        g.push(json!({"k":"many","t":(["d", "cd"][it % 2]),"e":0,"pts":p,"del":del}));
    }
}
pub fn exec10(c: &Value) -> Out {
    by2!(c, exec10t)
}
fn exec10t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs2(&pts2(&c["pts"]), k);
    Ok(json!({"out": same2(&p.simplify_vw(us(c, "del")), k)?}))
}
pub fn gen11(g: &mut Gen) {
    emitted(g, &T3, Some("tlc"));
    for it in 0..g.n(16000, 120000) {
        let (t, e) = T3[it % T3.len()];
        let n = if it % 120 == 7 { g.r(13, 70) } else if g.coin(0.9) { g.r(0, 8) } else { g.r(9, 12) } as usize;
        let t = if n > 12 && !is_f64(t) { "d" } else { t };
        let (lo, hi) = if n > 12 {
            (-30, 30)
        } else if n > 8 {
            (0, 25)
        } else if is_f64(t) {
            *g.pick(&[(0, 4), (0, 25), (-30, 30)])
        } else {
            *g.pick(&[(0, 4), (0, 25)])
        };
        let p = if n > 12 { (0..n).map(|_| g.p3(lo, hi)).collect() } else { walk3(g, n, lo, hi) };
        let del = g.r(0, n as i64 + 2);
        g.push(json!({"k":"rnd","t":t,"e":e,"pts":p,"del":del}));
    }
    for it in 0..g.n(16, 200) {
        let n = if it % 100 == 61 { g.r(66000, 70000) } else if it % 8 == 3 { g.r(1000, 2500) } else { g.r(200, 600) };
        let p: Vec<_> = (0..n).map(|_| g.p3(-30, 30)).collect();
        let del = if it % 8 < 2 { n / 4 } else if n > 60000 { g.r(1, 3) } else { g.r(1, 8) };
        g.push(json!({"k":"many","t":(["d", "cd"][it % 2]),"e":0,"pts":p,"del":del}));
    }
}
pub fn exec11(c: &Value) -> Out {
    by3!(c, exec11t)
}
fn exec11t<T: GenericVector3>(c: &Value) -> Out {
    let k = unit(c);
    let p: Vec<T> = vs3(&pts3(&c["pts"]), k);
    Ok(json!({"out": same3(&p.simplify_vw(us(c, "del")), k)?}))
}
