//! P02 self intersection, P03 / P04 sweep-line intersections
use crate::by2;
use crate::common::*;
use linestring::linestring_2d::{
    indexed_intersection::IntersectionTester, intersection::IntersectionData, Line2, LineString2,
};

const S: f64 = 1024.0;

/// the sweep compares coordinates relatively: spans are small compared to the distance to 0
fn place(g: &mut Gen, f64ok: bool) -> (i64, i64) {
    // (span, offset)
    match g.r(0, 5) {
        0 => (2, 16),
        1 => (3, 16),
        2 => (5, 16),
        3 => (10, 16),
        4 if f64ok => (50, 64),
        4 => (10, 32),
        _ => (4, 16),
    }
}
fn segments(g: &mut Gen, span: i64, nmax: i64) -> Vec<(P2, P2)> {
    let n = g.r(0, nmax);
    let mut v: Vec<(P2, P2)> = vec![];
    while (v.len() as i64) < n {
        let style = g.r(0, 9);
        let a = g.p2(0, span);
        let mut b = g.p2(0, span);
        match style {
            0 => b.1 = a.1,
            1 => b.0 = a.0,
            _ => (),
        }
        let s = if style == 2 && !v.is_empty() {
            // share an end point, or lie on top of each other
            let o = *g.pick(&v);
            if g.coin(0.5) {
                (o.1, b)
            } else {
                (o.0, o.1)
            }
        } else {
            (a, b)
        };
        let s = if g.coin(0.05) { (s.0, s.0) } else { s };
        if s.0 != s.1 || g.coin(0.3) {
            v.push(if g.coin(0.5) { s } else { (s.1, s.0) })
        }
    }
    v
}
/// lines in the eight main directions, as long as a power of two: all their crossings can be
/// computed without rounding, so they may lie around 0
fn octant(g: &mut Gen, span: i64, nmax: i64) -> Vec<(P2, P2)> {
    let n = g.r(2, nmax);
    let mut v: Vec<(P2, P2)> = vec![];
    for _ in 0..400 {
        if v.len() as i64 >= n {
            break;
        }
        let a = if v.is_empty() || g.coin(0.7) { g.p2(0, span) } else { let o = *g.pick(&v); if g.coin(0.5) { o.0 } else { o.1 } };
        let l = *g.pick(&[1, 2, 4, 8, 16]);
        let (dx, dy) = *g.pick(&[(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]);
        let b = (a.0 + l * dx, a.1 + l * dy);
        if b.0 >= 0 && b.1 >= 0 && b.0 <= span && b.1 <= span {
            v.push((a, b))
        }
    }
    v
}
/// a star: many lines through one point
fn star(g: &mut Gen, span: i64, nmax: i64) -> Vec<(P2, P2)> {
    let c = g.p2(1, span - 1);
    let n = g.r(2, nmax);
    let mut v = vec![];
    for _ in 0..40 {
        if v.len() as i64 >= n {
            break;
        }
        let a = g.p2(0, span);
        let b = (2 * c.0 - a.0, 2 * c.1 - a.1);
        if a != c && b.0 >= 0 && b.1 >= 0 && b.0 <= span && b.1 <= span {
            v.push(match g.r(0, 4) {
                0 => (a, c),
                1 => (c, b),
                _ => (a, b),
            })
        }
    }
    v
}
pub fn gen03(g: &mut Gen) {
    sweep_cases(g, 1)
}
pub fn gen04(g: &mut Gen) {
    sweep_cases(g, 1)
}
fn sweep_cases(g: &mut Gen, _x: i64) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        let cut = g.r(0, 3);
        g.push(json!({"k":"tlc","t":t,"e":0,"off":16,"segs":c["segs"],"ign":c["ign"],"stop":c["stop"],"cut":cut}));
    }
    for it in 0..g.n(10000, 120000) {
        let (t, e) = T2[it % T2.len()];
        let (span, off) = place(g, is_f64(t));
        let nmax = if g.coin(0.1) { 12 } else { 6 };
        let v = if g.coin(0.15) { star(g, span, nmax) } else { segments(g, span, nmax) };
        let ign = g.coin(0.5);
        let stop = g.coin(0.2);
        let off = if g.coin(0.8) { off } else { -off - span };
        let cut = g.r(0, 3);
        g.push(json!({"k":"sw","t":t,"e":e,"off":off,"segs":v,"ign":ign,"stop":stop,"cut":cut}));
    }
    // long and thin: lines that are almost parallel
    for it in 0..g.n(2500, 30000) {
        let (t, e) = T2[it % T2.len()];
        let (span, nmax) = if g.coin(0.1) { (8, 10) } else { (g.r(2, 4), 6) };
        let v = segments(g, span, nmax);
        let p: Vec<P2> = v.iter().flat_map(|x| [x.0, x.1]).collect();
        let lim = if is_f64(t) { 500 } else { 50 };
        let Some(p) = crate::segm::sheared(g, &p, lim) else { continue };
        let v: Vec<(P2, P2)> = p.chunks(2).map(|x| (x[0], x[1])).collect();
        let ign = g.coin(0.5);
        let stop = g.coin(0.2);
        let cut = g.r(0, 3);
        let off = if is_f64(t) { 1024 } else { 128 };
        let off = if g.coin(0.8) { off } else { -off };
        g.push(json!({"k":"thin","t":t,"e":e,"off":off,"segs":v,"ign":ign,"stop":stop,"cut":cut}));
    }
    // around 0
    for it in 0..g.n(3000, 30000) {
        let (t, e) = T2[it % T2.len()];
        let span = *g.pick(&[4, 6, 8, 16, 20]);
        let nmax = if g.coin(0.1) { 16 } else { 8 };
        let v = octant(g, span, nmax);
        let ign = g.coin(0.5);
        let stop = g.coin(0.2);
        let cut = g.r(0, 3);
        let off = -g.r(0, span);
        g.push(json!({"k":"zero","t":t,"e":e,"off":off,"segs":v,"ign":ign,"stop":stop,"cut":cut}));
    }
    // sparse, bigger inputs
    for it in 0..g.n(300, 4000) {
        let t = ["d", "cd"][it % 2];
        let n = if it % 6 == 0 { g.r(25, 60) } else { g.r(12, 24) };
        let mut v: Vec<(P2, P2)> = vec![];
        while (v.len() as i64) < n {
            let a = g.p2(0, 50);
            let b = (a.0 + g.r(-12, 12), a.1 + g.r(-12, 12));
            if a != b && b.0 >= 0 && b.1 >= 0 && b.0 <= 50 && b.1 <= 50 {
                v.push((a, b))
            }
        }
        let ign = g.coin(0.5);
        let cut = g.r(0, 30);
        g.push(json!({"k":"big","t":t,"e":0,"off":64,"segs":v,"ign":ign,"stop":false,"cut":cut}));
    }
    // many short ones
    for it in 0..g.n(8, 100) {
        let t = ["d", "cd"][it % 2];
        let n = g.r(90, 260);
        let l = *g.pick(&[1, 2, 4]);
        let mut v: Vec<(P2, P2)> = vec![];
        while (v.len() as i64) < n {
            let a = g.p2(0, 50);
            let b = (a.0 + g.r(-l, l), a.1 + g.r(-l, l));
            if a != b && b.0 >= 0 && b.1 >= 0 && b.0 <= 50 && b.1 <= 50 {
                v.push((a, b))
            }
        }
        let ign = g.coin(0.5);
        let cut = g.r(0, 200);
        g.push(json!({"k":"many","t":t,"e":0,"off":64,"segs":v,"ign":ign,"stop":false,"cut":cut}));
    }
}
fn segs_of(c: &Value) -> Vec<(P2, P2)> {
    c["segs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (rp2(&x[0]), rp2(&x[1])))
        .collect()
}
fn shift(p: P2, off: i64) -> P2 {
    (p.0 + off, p.1 + off)
}
/// log a position relative to the offset
fn local<T: GenericVector2>(p: T, k: f64, off: i64) -> Out {
    let o = off as f64;
    Ok(json!([
        sint(f(p.x()) / k - o, 1.0, S)?,
        sint(f(p.y()) / k - o, 1.0, S)?
    ]))
}
/// how many of the lines are handed over by the first call
fn cut(c: &Value, n: usize) -> usize {
    match us(c, "cut") {
        0 => n,
        x => x.min(n),
    }
}
pub fn exec03(c: &Value) -> Out {
    by2!(c, exec03t)
}
fn exec03t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let off = i(c, "off");
    let lines: Vec<Line2<T>> = segs_of(c)
        .iter()
        .map(|x| Line2::new(v2(shift(x.0, off), k), v2(shift(x.1, off), k)))
        .collect();
    let cut = cut(c, lines.len());
    let r = e2s(
        e2s(
            e2s(e2s(
                IntersectionData::default().with_ignore_end_point_intersections(b(c, "ign")),
            )?
            .with_stop_at_first_intersection(b(c, "stop")))?
            // all at once, or in two calls
            .with_lines(lines[..cut].iter().copied()),
        )
        .and_then(|d| if cut < lines.len() { e2s(d.with_lines(lines[cut..].iter().copied())) } else { Ok(d) })?
        .compute(),
    )?;
    let len = r.len();
    let mut out = vec![];
    for (p, l) in r {
        out.push(json!({"p": local(p, k, off)?, "l": l}));
    }
    Ok(json!({"out": out, "len": len}))
}
pub fn exec04(c: &Value) -> Out {
    by2!(c, exec04t)
}
fn exec04t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let off = i(c, "off");
    // a vertex table without duplicates, or with one vertex per segment end
    let share = c["segs"].as_array().unwrap().len() % 2 == 0;
    let mut table: Vec<P2> = vec![];
    let mut edges: Vec<(usize, usize)> = vec![];
    for x in segs_of(c) {
        let mut ix = |p: P2| {
            if share {
                if let Some(i) = table.iter().position(|q| *q == p) {
                    return i;
                }
            }
            table.push(p);
            table.len() - 1
        };
        edges.push((ix(x.0), ix(x.1)));
    }
    let vertices: Vec<T> = table.iter().map(|p| v2(shift(*p, off), k)).collect();
    let cut = cut(c, edges.len());
    let (verts, r) = e2s(
        e2s(
            e2s(e2s(
                IntersectionTester::new(vertices.clone())
                    .with_ignore_end_point_intersections(b(c, "ign")),
            )?
            .with_stop_at_first_intersection(b(c, "stop")))?
            .with_edges(edges[..cut].iter()),
        )
        .and_then(|d| if cut < edges.len() { e2s(d.with_edges(&edges[cut..])) } else { Ok(d) })?
        .compute(),
    )?;
    let len = r.len();
    let mut out = vec![];
    for (ix, l) in r {
        if ix >= verts.len() {
            return Err(format!("vertex index {ix} out of range"));
        }
        out.push(json!({"p": local(verts[ix], k, off)?, "l": l}));
    }
    Ok(json!({"out": out, "len": len,
        "prefix": verts.len() >= vertices.len() && verts[..vertices.len()] == vertices[..],
    }))
}

// ------------------------------------------------------------------ P02
pub fn gen02(g: &mut Gen) {
    let gen: Vec<Value> = std::mem::take(&mut g.cases);
    for (it, c) in gen.into_iter().enumerate() {
        let t = ["d", "f", "cd", "cf"][it % 4];
        g.push(json!({"k":"tlc","t":t,"e":0,"off":0,"pts":c["pts"]}));
    }
    long02(g);
    many02(g);
    zero02(g);
    for it in 0..g.n(24000, 300000) {
        let (t, e) = T2[it % T2.len()];
        let long = g.coin(0.35);
        let n = if long { g.r(10, 14) } else { g.r(0, 9) };
        let (span, off) = place(g, is_f64(t));
        let span = if g.coin(0.4) { (span * 3).min(if off == 64 { 60 } else { 14 }) } else { span };
        let style = g.r(0, 4);
        let mut p: Vec<P2> = vec![];
        let mut guard = 0;
        while (p.len() as i64) < n {
            guard += 1;
            if guard > 400 {
                break;
            }
            let q = match style {
                // spiral/walk like: short steps, mostly not self intersecting
                0 | 1 if !p.is_empty() => {
                    let l = p[p.len() - 1];
                    (l.0 + g.r(-2, 3), l.1 + g.r(-3, 3))
                }
                // monotone: never self intersecting
                2 if !p.is_empty() => {
                    let l = p[p.len() - 1];
                    (l.0 + g.r(0, 1), l.1 + g.r(0, 2))
                }
                // axis parallel
                3 if !p.is_empty() => {
                    let l = p[p.len() - 1];
                    if g.coin(0.5) {
                        (l.0, l.1 + g.r(-3, 3))
                    } else {
                        (l.0 + g.r(-3, 3), l.1)
                    }
                }
                _ => g.p2(0, span),
            };
            if q.0 < 0 || q.1 < 0 || q.0 > span || q.1 > span || p.last() == Some(&q) {
                continue;
            }
            p.push(q)
        }
        if p.len() > 3 && g.coin(0.4) && p[0] != p[p.len() - 1] {
            let q = p[0];
            if p.len() == 9 && !long {
                let _ = p.pop();
                if p[p.len() - 1] != q {
                    p.push(q)
                }
            } else {
                p.push(q)
            }
        }
        // a non self-intersecting polygon: hull of random points
        if style == 4 && g.coin(0.5) && crate::hull::spanning(&p) {
            p = crate::hull::chain_hull(&p);
        }
        // a polyline may stay where it is
        if !p.is_empty() && g.coin(0.25) {
            for _ in 0..g.r(1, 3) {
                let i = g.r(0, p.len() as i64 - 1) as usize;
                p.insert(i, p[i])
            }
        }
        let off = if p.len() >= 10 || g.coin(0.3) { off } else { -(span / 2) };
        g.push(json!({"k":if p.len()<10 {"short"} else {"long"},"t":t,"e":e,"off":off,"pts":p}));
        if p.len() < 10 && it % 5 == 0 && p.windows(2).all(|w| w[0] != w[1]) {
            if let Some(p) = crate::segm::sheared(g, &p, if is_f64(t) { 14000 } else { 900 }) {
                g.push(json!({"k":"short","t":t,"e":e,"off":off,"pts":p}))
            }
        }
        if p.len() >= 10 && it % 5 == 0 && span <= 10 {
            if let Some(p) = crate::segm::sheared(g, &p, if is_f64(t) { 500 } else { 50 }) {
                let off = if is_f64(t) { 1024 } else { 128 };
                g.push(json!({"k":"thin","t":t,"e":e,"off":off,"pts":p}))
            }
        }
    }
}
/// ten and more points around 0, in steps that need no rounding
fn zero02(g: &mut Gen) {
    for it in 0..g.n(3000, 30000) {
        let (t, e) = T2[it % T2.len()];
        let span = *g.pick(&[8, 16, 24, 32, 50]);
        let n = g.r(10, 16) as usize;
        let up = g.coin(0.5);
        let mut p: Vec<P2> = vec![g.p2(0, span)];
        for _ in 0..400 {
            if p.len() >= n {
                break;
            }
            let a = p[p.len() - 1];
            let l = *g.pick(&[0, 1, 1, 2, 2, 4, 8, 16]);
            let (dx, dy) = *g.pick(&[(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]);
            let dy = if up && g.coin(0.8) { i64::abs(dy) } else { dy };
            let b = (a.0 + l * dx, a.1 + l * dy);
            if b.0 >= 0 && b.1 >= 0 && b.0 <= span && b.1 <= span {
                p.push(b)
            }
        }
        let off = -g.r(0, span);
        g.push(json!({"k":"zero","t":t,"e":e,"off":off,"pts":p}));
    }
}
/// a line of up to several hundred points that goes back and forth, row by row
fn many02(g: &mut Gen) {
    for it in 0..g.n(20, 250) {
        let t = ["d", "cd"][it % 2];
        let rows = g.r(4, 24);
        let step = g.r(3, 9);
        let mut p: Vec<P2> = vec![];
        for r in 0..rows {
            let mut row: Vec<P2> = (0..=50 / step).map(|k| (k * step, 2 * r + g.r(0, 1))).collect();
            if r % 2 == 1 {
                row.reverse()
            }
            p.extend(row);
        }
        let n = p.len() as i64;
        match g.r(0, 3) {
            0 => (),
            1 => {
                let k = g.r(0, n - 1) as usize;
                p[k].1 = (p[k].1 + g.r(-2, 2)).max(0);
            }
            2 => {
                let k = g.r(0, n - 1) as usize;
                p[k].0 = (p[k].0 + g.r(-9, 9)).clamp(0, 50);
            }
            // up around everything, and back to the start
            _ => {
                for q in p.iter_mut() {
                    q.0 = (q.0 + 1).min(50)
                }
                let top = p[p.len() - 1].1 + 1;
                let q = (p[0].0, 0);
                p.push((p[p.len() - 1].0, top));
                p.push((if g.coin(0.2) { 1 } else { 0 }, top));
                p.push((0, 0));
                p.push(q);
                if p[0] != q && g.coin(0.5) {
                    p.push(p[0])
                }
            }
        }
        p.dedup();
        if g.coin(0.5) {
            p = p.iter().map(|q| (q.1, q.0)).collect()
        }
        if g.coin(0.5) {
            p.reverse()
        }
        g.push(json!({"k":"long","t":t,"e":0,"off":64,"pts":p}));
    }
}
/// long polylines: monotone ones with (maybe) a last part that comes back
fn long02(g: &mut Gen) {
    for it in 0..g.n(240, 3000) {
        let t = ["d", "cd"][it % 2];
        let n = g.r(15, 50);
        let mut p: Vec<P2> = (0..n).map(|y| (g.r(0, 50), y)).collect();
        if g.coin(0.3) {
            // a comb: everything is connected by vertical and horizontal edges
            p = (0..n).map(|j| (if (j / 2) % 2 == 0 { 1 } else { g.r(2, 50) }, j - j / 2)).collect();
        }
        match g.r(0, 3) {
            0 => (),
            1 => {
                // touches a vertex, or comes close
                let q = *g.pick(&p);
                let q = (q.0 + g.r(-1, 1), q.1 + g.r(-1, 1));
                p.push((50, 50));
                p.push((q.0.clamp(0, 50), q.1.clamp(0, 50)))
            }
            _ => {
                // around everything, back to the start
                p.insert(0, (0, 0));
                p.push((g.r(0, 50), 50));
                p.push((50, 50));
                p.push((if g.coin(0.7) { 50 } else { g.r(0, 50) }, if g.coin(0.7) { 0 } else { g.r(0, 3) }));
                p.push((0, 0));
            }
        }
        p.dedup();
        if g.coin(0.5) {
            p = p.iter().map(|q| (q.1, q.0)).collect()
        }
        if g.coin(0.5) {
            p.reverse()
        }
        let off = if g.coin(0.8) { 64 } else { -114 };
        g.push(json!({"k":"huge","t":t,"e":0,"off":off,"pts":p}));
    }
}
pub fn exec02(c: &Value) -> Out {
    by2!(c, exec02t)
}
fn exec02t<T: GenericVector2>(c: &Value) -> Out {
    let k = unit(c);
    let off = i(c, "off");
    let p: Vec<T> = pts2(&c["pts"]).iter().map(|p| v2(shift(*p, off), k)).collect();
    Ok(json!({"r": e2s(p.is_self_intersecting())?}))
}
