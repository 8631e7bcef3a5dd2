//! The reference model: an executable specification of what a Lottie document
//! means, written directly over the JSON text of the document (it shares no
//! types and no code with the library under test) as a recursive function from
//! (document, frame, placement, opacity) to the list of sink calls.
use crate::rec::Op;
use kurbo::{Affine, ParamCurve, PathEl, PathSeg, Point, Shape};
use peniko::{BlendMode, Brush, Color, Compose, Gradient, Mix};
use serde_json::Value;
use std::collections::HashMap;

const NULL: Value = Value::Null;

fn get<'a>(v: &'a Value, k: &str) -> &'a Value {
    v.get(k).unwrap_or(&NULL)
}
fn num(v: &Value, k: &str) -> Option<f64> {
    get(v, k).as_f64()
}
fn flag(v: &Value, k: &str) -> bool {
    match get(v, k) {
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64() == Some(1.0),
        _ => false,
    }
}

// ------------------------------------------------------------------ keyframes

fn handle(v: &Value, k: &str) -> Option<f64> {
    match get(v, k) {
        Value::Array(a) => a.first().and_then(Value::as_f64),
        Value::Number(n) => n.as_f64(),
        _ => None,
    }
}

/// The cubic easing curve of a span: y at the curve point whose x is `t`.
pub fn ease(o: (f64, f64), i: (f64, f64), t: f64) -> f64 {
    let b = |p1: f64, p2: f64, u: f64| {
        let w = 1.0 - u;
        3.0 * w * w * u * p1 + 3.0 * w * u * u * p2 + u * u * u
    };
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if b(o.0, i.0, m) < t {
            lo = m;
        } else {
            hi = m;
        }
    }
    b(o.1, i.1, 0.5 * (lo + hi))
}

/// Where a frame falls in a keyframe list: left index, right index, weight.
fn span(keys: &[Value], f: f64) -> (usize, usize, f64) {
    let n = keys.len();
    let time = |k: usize| num(&keys[k], "t").unwrap();
    if f < time(0) {
        return (0, 0, 0.0);
    }
    let mut l = 0;
    while l + 1 < n && time(l + 1) <= f {
        l += 1;
    }
    if l + 1 == n || flag(&keys[l], "h") {
        return (l, l, 0.0);
    }
    let x = (f - time(l)) / (time(l + 1) - time(l));
    let k = &keys[l];
    let h = |name: &str, d: f64| {
        let v = get(k, name);
        (handle(v, "x").unwrap_or(d), handle(v, "y").unwrap_or(d))
    };
    (l, l + 1, if x == 0.0 { 0.0 } else { ease(h("o", 0.0), h("i", 1.0), x) })
}

fn nums(v: &Value) -> Vec<f64> {
    match v {
        Value::Array(a) => a.iter().filter_map(Value::as_f64).collect(),
        Value::Number(n) => vec![n.as_f64().unwrap()],
        _ => vec![],
    }
}
pub fn is_keys(k: &Value) -> bool {
    matches!(k, Value::Array(a) if a.first().is_some_and(Value::is_object))
}

/// Components of an animatable number/vector property at frame `f`.
pub fn prop(p: &Value, f: f64) -> Vec<f64> {
    let k = get(p, "k");
    if !is_keys(k) {
        return nums(k);
    }
    let keys = k.as_array().unwrap();
    let (l, r, w) = span(keys, f);
    let (a, b) = (nums(get(&keys[l], "s")), nums(get(&keys[r], "s")));
    if w == 0.0 {
        return a;
    }
    a.iter().zip(&b).map(|(x, y)| x + (y - x) * w).collect()
}
fn scalar(v: &Value, k: &str, f: f64, default: f64) -> f64 {
    match v.get(k) {
        None | Some(Value::Null) => default,
        Some(p) => prop(p, f).first().copied().unwrap_or(default),
    }
}
fn vec2(v: &Value, k: &str, f: f64, default: (f64, f64)) -> (f64, f64) {
    match v.get(k) {
        None | Some(Value::Null) => default,
        Some(p) => {
            if flag(p, "s") && p.get("x").is_some() {
                return (scalar(p, "x", f, 0.0), scalar(p, "y", f, 0.0));
            }
            let c = prop(p, f);
            if c.len() < 2 { (0.0, 0.0) } else { (c[0], c[1]) }
        }
    }
}

// ----------------------------------------------------------------- transforms

/// x -> position + R(r) K(skew) S(scale) (x - anchor), as a plain 2x3 matrix.
pub fn transform(ks: &Value, f: f64) -> Affine {
    let (ax, ay) = vec2(ks, "a", f, (0.0, 0.0));
    let (px, py) = vec2(ks, "p", f, (0.0, 0.0));
    let (sx, sy) = vec2(ks, "s", f, (100.0, 100.0));
    let (sx, sy) = (sx / 100.0, sy / 100.0);
    let rot = match ks.get("r") {
        None => match ks.get("rz") {
            _ => 0.0,
        },
        Some(r) if r.get("k").is_none() && r.get("z").is_some() => scalar(r, "z", f, 0.0),
        _ => scalar(ks, "r", f, 0.0),
    };
    let sk = scalar(ks, "sk", f, 0.0);
    let sa = scalar(ks, "sa", f, 0.0);
    let m = |a: [f64; 4], b: [f64; 4]| {
        // row-major 2x2
        [
            a[0] * b[0] + a[1] * b[2],
            a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2],
            a[2] * b[1] + a[3] * b[3],
        ]
    };
    let r2 = |d: f64| {
        let (s, c) = d.to_radians().sin_cos();
        [c, -s, s, c]
    };
    let skew = m(r2(-sa), m([1.0, sk.to_radians().tan(), 0.0, 1.0], r2(sa)));
    let lin = m(r2(rot), m(skew, [sx, 0.0, 0.0, sy]));
    let tx = px - (lin[0] * ax + lin[1] * ay);
    let ty = py - (lin[2] * ax + lin[3] * ay);
    Affine::new([lin[0], lin[2], lin[1], lin[3], tx, ty])
}

// --------------------------------------------------------------------- shapes

type Els = Vec<PathEl>;

fn bezier_pts(b: &Value) -> (Vec<[Point; 3]>, bool) {
    let pts = |k: &str| -> Vec<Point> {
        get(b, k)
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|p| {
                        let c = nums(p);
                        Point::new(c[0], c[1])
                    })
                    .collect()
            })
            .unwrap_or_default()
    };
    let (v, i, o) = (pts("v"), pts("i"), pts("o"));
    let at = |a: &Vec<Point>, n: usize| a.get(n).copied().unwrap_or(Point::ZERO);
    (
        v.iter().enumerate().map(|(n, p)| [*p, at(&i, n), at(&o, n)]).collect(),
        flag(b, "c"),
    )
}
fn bezier_path(v: &[[Point; 3]], closed: bool) -> Els {
    let mut out = vec![];
    if v.is_empty() {
        return out;
    }
    out.push(PathEl::MoveTo(v[0][0]));
    let mut edge = |a: &[Point; 3], b: &[Point; 3]| {
        if a[2] == Point::ZERO && b[1] == Point::ZERO {
            out.push(PathEl::LineTo(b[0]));
        } else {
            out.push(PathEl::CurveTo(
                a[0] + a[2].to_vec2(),
                b[0] + b[1].to_vec2(),
                b[0],
            ));
        }
    };
    for n in 1..v.len() {
        edge(&v[n - 1], &v[n]);
    }
    if closed {
        edge(&v[v.len() - 1], &v[0]);
        out.push(PathEl::ClosePath);
    }
    out
}

/// A path property (`{"k": bezier | keyframes}`) at a frame.
pub fn path_prop(p: &Value, f: f64) -> Els {
    path_points(p, f).map(|(v, c)| bezier_path(&v, c)).unwrap_or_default()
}
/// Its vertices (with relative tangents) and whether it is closed.
pub fn path_points(p: &Value, f: f64) -> Option<(Vec<[Point; 3]>, bool)> {
    let k = get(p, "k");
    if !is_keys(k) {
        return if k.is_array() { None } else { Some(bezier_pts(k)) };
    }
    let keys = k.as_array().unwrap();
    let first = |v: &Value, name: &str| v.get(name).and_then(|a| a.get(0)).cloned();
    // the outline a keyframe starts from (a last keyframe may leave it out)
    let start = |n: usize| {
        first(&keys[n], "s")
            .or_else(|| first(&keys[n - 1], "e"))
            .or_else(|| first(&keys[n - 1], "s"))
            .unwrap()
    };
    let closed = (0..keys.len()).any(|n| flag(&start(n), "c") || first(&keys[n], "e").is_some_and(|e| flag(&e, "c")));
    let (l, r, w) = span(keys, f);
    let from = bezier_pts(&start(l)).0;
    if l == r {
        return Some((from, closed));
    }
    let to = bezier_pts(&first(&keys[l], "e").unwrap_or_else(|| start(r))).0;
    let mix: Vec<[Point; 3]> = from
        .iter()
        .zip(&to)
        .map(|(a, b)| [a[0].lerp(b[0], w), a[1].lerp(b[1], w), a[2].lerp(b[2], w)])
        .collect();
    Some((mix, closed))
}

fn star(s: &Value, f: f64) -> Els {
    let (cx, cy) = vec2(s, "p", f, (0.0, 0.0));
    let n = scalar(s, "pt", f, 0.0).round();
    if n < 1.0 {
        return vec![];
    }
    let n = n as usize;
    let rot = scalar(s, "r", f, 0.0);
    let polygon = num(s, "sy") == Some(2.0);
    let count = if polygon { n } else { 2 * n };
    let step = std::f64::consts::TAU / count as f64;
    let outer = (scalar(s, "or", f, 0.0), scalar(s, "os", f, 0.0) / 100.0);
    let inner = (scalar(s, "ir", f, 0.0), scalar(s, "is", f, 0.0) / 100.0);
    let v: Vec<[Point; 3]> = (0..count)
        .map(|k| {
            let (rad, round) = if polygon || k % 2 == 0 { outer } else { inner };
            let ang = (rot - 90.0).to_radians() + step * k as f64;
            let (sn, cs) = ang.sin_cos();
            let len = if round.abs() > 1e-6 {
                rad * (step / 2.0).tan() * round * 4.0 / 3.0
            } else {
                0.0
            };
            [
                Point::new(cx + rad * cs, cy + rad * sn),
                Point::new(sn * len, -cs * len),
                Point::new(-sn * len, cs * len),
            ]
        })
        .collect();
    let mut out = vec![PathEl::MoveTo(v[0][0])];
    for k in 1..=count {
        let (a, b) = (&v[k - 1], &v[k % count]);
        out.push(PathEl::CurveTo(a[0] + a[2].to_vec2(), b[0] + b[1].to_vec2(), b[0]));
    }
    out.push(PathEl::ClosePath);
    out
}

/// Outline of a geometry element, and whether it may be approximated.
fn geometry(s: &Value, f: f64) -> Option<(Els, bool)> {
    Some(match get(s, "ty").as_str()? {
        "rc" => {
            let (x, y) = vec2(s, "p", f, (0.0, 0.0));
            let (w, h) = vec2(s, "s", f, (0.0, 0.0));
            let r = scalar(s, "r", f, 0.0);
            let rect = kurbo::Rect::new(x - w / 2.0, y - h / 2.0, x + w / 2.0, y + h / 2.0);
            (kurbo::RoundedRect::from_rect(rect, r).path_elements(0.1).collect(), r != 0.0)
        }
        "el" => {
            let (x, y) = vec2(s, "p", f, (0.0, 0.0));
            let (w, h) = vec2(s, "s", f, (0.0, 0.0));
            (
                kurbo::Ellipse::new((x, y), (w / 2.0, h / 2.0), 0.0).path_elements(0.1).collect(),
                true,
            )
        }
        "sh" => (path_prop(get(s, "ks"), f), false),
        "sr" => (star(s, f), false),
        _ => return None,
    })
}

fn seg_len(s: &PathSeg) -> f64 {
    *seg_table(s).last().unwrap()
}
fn seg_table(s: &PathSeg) -> Vec<f64> {
    if let PathSeg::Line(l) = s {
        return vec![0.0, (l.p1 - l.p0).hypot()];
    }
    const N: usize = 400;
    let mut t = vec![0.0];
    let mut prev = s.eval(0.0);
    for k in 1..=N {
        let p = s.eval(k as f64 / N as f64);
        t.push(t[k - 1] + (p - prev).hypot());
        prev = p;
    }
    t
}
fn seg_param(table: &[f64], len: f64) -> f64 {
    let n = table.len() - 1;
    for k in 0..n {
        if table[k + 1] >= len {
            let d = table[k + 1] - table[k];
            let u = if d > 0.0 { (len - table[k]) / d } else { 0.0 };
            return (k as f64 + u.clamp(0.0, 1.0)) / n as f64;
        }
    }
    1.0
}

/// The parts of an outline kept by a trim (start/end in percent, offset in degrees).
pub fn trim(path: &[PathEl], s: f64, e: f64, off: f64) -> Els {
    let (s, e) = if s <= e { (s, e) } else { (e, s) };
    let span = e - s;
    if span <= 1e-9 {
        return vec![];
    }
    if span >= 100.0 - 1e-9 {
        return path.to_vec();
    }
    let mut a = s / 100.0 + off / 360.0;
    a -= a.floor();
    let b = a + span / 100.0;
    let eps = 1e-12;
    let mut ranges = vec![];
    if b <= 1.0 + eps {
        // ends on or before the path's end
        if a >= 1.0 - eps {
            ranges.push((0.0, b - 1.0));
        } else {
            ranges.push((a, b.min(1.0)));
        }
    } else {
        if a < 1.0 - eps {
            ranges.push((a, 1.0));
        }
        ranges.push((0.0, b - 1.0));
    }
    if a <= eps && b >= 1.0 - 1e-9 {
        return path.to_vec();
    }
    let segs: Vec<PathSeg> = kurbo::BezPath::from_vec(path.to_vec()).segments().collect();
    let tables: Vec<Vec<f64>> = segs.iter().map(seg_table).collect();
    let total: f64 = segs.iter().map(seg_len).sum();
    let mut out: Els = vec![];
    if !(total > 0.0) {
        return out;
    }
    for (a, b) in ranges {
        let (a, b) = (a * total, b * total);
        let mut at = 0.0;
        let mut pen: Option<Point> = None;
        for (seg, table) in segs.iter().zip(&tables) {
            let len = *table.last().unwrap();
            let (lo, hi) = ((a - at).max(0.0), (b - at).min(len));
            at += len;
            if hi - lo <= 1e-7 {
                continue;
            }
            let u = if lo <= 0.0 { 0.0 } else { seg_param(table, lo) };
            let v = if hi >= len { 1.0 } else { seg_param(table, hi) };
            let part = seg.subsegment(u..v);
            if pen.is_none_or(|p| (p - part.start()).hypot() > 1e-6) {
                out.push(PathEl::MoveTo(part.start()));
            }
            out.push(match part {
                PathSeg::Line(l) => PathEl::LineTo(l.p1),
                PathSeg::Quad(q) => PathEl::QuadTo(q.p1, q.p2),
                PathSeg::Cubic(c) => PathEl::CurveTo(c.p1, c.p2, c.p3),
            });
            pen = Some(part.end());
        }
    }
    out
}

#[derive(Clone)]
struct Geom {
    path: Els,
    loose: bool,
    t: Affine,
    styled: bool,
}
#[derive(Clone)]
struct Style {
    stroke: Option<kurbo::Stroke>,
    brush: Brush,
    alpha: f64,
    over: Vec<usize>,
}
#[derive(Default)]
struct Tree {
    geoms: Vec<Geom>,
    styles: Vec<Style>,
}

fn paint(s: &Value, f: f64) -> Option<(Option<kurbo::Stroke>, Brush)> {
    let ty = get(s, "ty").as_str()?;
    let stroke = |lc: f64, lj: f64| {
        let cap = match num(s, "lc").unwrap_or(lc) as i64 {
            1 => kurbo::Cap::Butt,
            2 => kurbo::Cap::Round,
            _ => kurbo::Cap::Square,
        };
        let join = match num(s, "lj").unwrap_or(lj) as i64 {
            1 => kurbo::Join::Miter,
            2 => kurbo::Join::Round,
            _ => kurbo::Join::Bevel,
        };
        kurbo::Stroke {
            width: scalar(s, "w", f, 0.0),
            join,
            miter_limit: num(s, "ml").unwrap_or(4.0),
            start_cap: cap,
            end_cap: cap,
            dash_pattern: Default::default(),
            dash_offset: 0.0,
        }
    };
    let solid = || {
        let c = prop(get(s, "c"), f);
        if c.len() < 3 {
            return Brush::Solid(Color::new([0.0, 0.0, 0.0, 1.0]));
        }
        Brush::Solid(Color::new([c[0] as f32, c[1] as f32, c[2] as f32, 1.0]))
    };
    let grad = || {
        let (sx, sy) = vec2(s, "s", f, (0.0, 0.0));
        let (ex, ey) = vec2(s, "e", f, (0.0, 0.0));
        let mut g = if num(s, "t") == Some(2.0) {
            Gradient::new_radial((sx, sy), (ex - sx).hypot(ey - sy) as f32)
        } else {
            Gradient::new_linear((sx, sy), (ex, ey))
        };
        let n = num(get(s, "g"), "p").unwrap() as usize;
        let raw = prop(get(get(s, "g"), "k"), f);
        let alphas: Vec<f64> = raw[(4 * n).min(raw.len())..].chunks_exact(2).map(|c| c[1]).collect();
        for c in raw.chunks_exact(4).take(n) {
            // only uniform opacity stops are specified
            let a = alphas.first().copied().unwrap_or(1.0);
            g.stops.push(
                (
                    c[0] as f32,
                    Color::new([c[1] as f32, c[2] as f32, c[3] as f32, a as f32]),
                )
                    .into(),
            );
        }
        Brush::Gradient(g)
    };
    Some(match ty {
        "fl" => (None, solid()),
        "st" => (Some(stroke(1.0, 3.0)), solid()),
        "gf" => (None, grad()),
        "gs" => (Some(stroke(2.0, 2.0)), grad()),
        _ => return None,
    })
}

fn shapes(list: &[Value], t: Affine, alpha: f64, f: f64, tree: &mut Tree) -> Vec<usize> {
    let mut scope: Vec<usize> = vec![];
    let first_style = tree.styles.len();
    for s in list {
        let ty = get(s, "ty").as_str().unwrap_or("");
        if let Some((path, loose)) = geometry(s, f) {
            // joins the previous outline of this scope unless that is already styled
            if let Some(&last) = scope.last() {
                let g = &tree.geoms[last];
                if last + 1 == tree.geoms.len() && !g.styled && g.t == t {
                    tree.geoms[last].path.extend(path);
                    tree.geoms[last].loose |= loose;
                    continue;
                }
            }
            scope.push(tree.geoms.len());
            tree.geoms.push(Geom {
                path,
                loose,
                t,
                styled: false,
            });
        } else if let Some((stroke, brush)) = paint(s, f) {
            for g in &mut tree.geoms {
                g.styled = true;
            }
            tree.styles.push(Style {
                stroke,
                brush,
                alpha: alpha * scalar(s, "o", f, 100.0) / 100.0,
                over: scope.clone(),
            });
        } else if ty == "gr" {
            let items: Vec<Value> = get(s, "it").as_array().cloned().unwrap_or_default();
            let tr = items.iter().rev().find(|i| get(i, "ty") == "tr").cloned();
            let items: Vec<Value> = items.into_iter().filter(|i| get(i, "ty") != "tr").collect();
            let (gt, ga) = match tr {
                Some(tr) => (transform(&tr, f), scalar(&tr, "o", f, 100.0) / 100.0),
                None => (Affine::IDENTITY, 1.0),
            };
            scope.extend(shapes(&items, t * gt, alpha * ga, f, tree));
        } else if ty == "tm" {
            let (a, b, o) = (scalar(s, "s", f, 0.0), scalar(s, "e", f, 100.0), scalar(s, "o", f, 0.0));
            for &g in &scope {
                let g = &mut tree.geoms[g];
                let cut = trim(&g.path, a, b, o);
                if g.path.iter().any(|e| matches!(e, PathEl::CurveTo(..) | PathEl::QuadTo(..))) {
                    g.loose = true;
                }
                g.path = cut;
            }
        } else if ty == "rp" {
            repeat(s, t, f, tree, &mut scope, first_style);
        }
    }
    scope
}

/// Only reachable for documents built through the public model.
fn repeat(s: &Value, t: Affine, f: f64, tree: &mut Tree, scope: &mut Vec<usize>, first_style: usize) {
    let copies = scalar(s, "c", f, 0.0).round().max(0.0) as usize;
    let off = scalar(s, "o", f, 0.0);
    let tr = get(s, "tr");
    let (px, py) = vec2(tr, "p", f, (0.0, 0.0));
    let (ax, ay) = vec2(tr, "a", f, (0.0, 0.0));
    let (sx, sy) = vec2(tr, "s", f, (100.0, 100.0));
    let rot = scalar(tr, "r", f, 0.0);
    let so = scalar(tr, "so", f, 100.0) / 100.0;
    let eo = scalar(tr, "eo", f, 100.0) / 100.0;
    let originals: Vec<usize> = scope.clone();
    let styles: Vec<Style> = tree.styles.drain(first_style..).collect();
    let sources: Vec<Geom> = originals.iter().map(|g| tree.geoms[*g].clone()).collect();
    scope.clear();
    for c in 0..copies {
        let k = off + c as f64;
        let (sn, cs) = (k * rot).to_radians().sin_cos();
        let (fx, fy) = ((sx / 100.0).powf(k), (sy / 100.0).powf(k));
        // about the anchor, then moved
        let lin = [cs * fx, sn * fx, -sn * fy, cs * fy];
        let m = Affine::new([
            lin[0],
            lin[1],
            lin[2],
            lin[3],
            k * px + ax - (lin[0] * ax + lin[2] * ay),
            k * py + ay - (lin[1] * ax + lin[3] * ay),
        ]);
        let base = tree.geoms.len();
        for g in &sources {
            let inner = t.inverse() * g.t;
            tree.geoms.push(Geom {
                t: t * m * inner,
                styled: true,
                ..g.clone()
            });
        }
        scope.extend(base..tree.geoms.len());
        let a = if copies > 1 { so + (eo - so) * c as f64 / copies as f64 } else { so };
        if a <= 0.0 {
            continue;
        }
        for st in &styles {
            let mut st = st.clone();
            st.alpha *= a;
            for g in &mut st.over {
                *g = base + originals.iter().position(|o| o == g).unwrap();
            }
            tree.styles.push(st);
        }
    }
    for g in &mut tree.geoms {
        g.styled = true;
    }
}

// --------------------------------------------------------------------- layers

pub struct Ly<'a> {
    pub v: &'a Value,
    pub hidden: bool,
    pub source: bool,
    pub parent: Option<usize>,
    pub matte: Option<(BlendMode, usize)>,
}

pub fn layer_set(list: &[Value]) -> Vec<Ly<'_>> {
    let mut by_ind: HashMap<u64, usize> = HashMap::new();
    for (i, v) in list.iter().enumerate() {
        by_ind.insert(get(v, "ind").as_u64().unwrap_or(0), i);
    }
    let mut open: Option<usize> = None;
    let mut out = vec![];
    for (i, v) in list.iter().enumerate() {
        let hidden = flag(v, "hd");
        let source = flag(v, "td") && !hidden;
        let parent = get(v, "parent").as_u64().and_then(|p| by_ind.get(&p).copied());
        let mode: Option<BlendMode> = match num(v, "tt").map(|x| x as i64) {
            Some(1) | Some(3) => Some(Compose::SrcIn.into()),
            Some(2) | Some(4) => Some(Compose::SrcOut.into()),
            Some(_) => Some(Mix::Normal.into()),
            None => None,
        };
        let matte = mode.and_then(|m| {
            let target = match num(v, "tp") {
                Some(p) => by_ind.get(&(p as u64)).copied(),
                None => open,
            };
            target.map(|t| (m, t))
        });
        if source {
            open = Some(i);
        } else if mode.is_some() {
            open = None;
        }
        out.push(Ly {
            v,
            hidden,
            source,
            parent,
            matte,
        });
    }
    out
}

pub struct Spec<'a> {
    w: f64,
    h: f64,
    root: &'a [Value],
    assets: HashMap<String, &'a [Value]>,
}

impl<'a> Spec<'a> {
    pub fn new(doc: &'a Value) -> Self {
        let mut assets: HashMap<String, &[Value]> = HashMap::new();
        if let Some(list) = get(doc, "assets").as_array() {
            for a in list {
                if let (Some(id), Some(l)) = (get(a, "id").as_str(), get(a, "layers").as_array()) {
                    assets.insert(id.to_string(), l);
                }
            }
        }
        Spec {
            w: num(doc, "w").unwrap_or(0.0),
            h: num(doc, "h").unwrap_or(0.0),
            root: get(doc, "layers").as_array().map(|v| v.as_slice()).unwrap_or(&[]),
            assets,
        }
    }
    fn full(&self) -> Els {
        kurbo::Rect::new(0.0, 0.0, self.w, self.h).path_elements(0.1).collect()
    }
    pub fn render(&self, f: f64, t: Affine, alpha: f64) -> Vec<Op> {
        let mut out = vec![Op::Clip {
            t,
            path: self.full(),
            loose: false,
        }];
        self.list(self.root, t, alpha, f, &mut out);
        out.push(Op::Pop);
        out
    }
    fn list(&self, list: &[Value], t: Affine, alpha: f64, f: f64, out: &mut Vec<Op>) {
        let set = layer_set(list);
        for i in (0..set.len()).rev() {
            if !set[i].source {
                self.layer(&set, i, t, alpha, f, out);
            }
        }
    }
    fn layer(&self, set: &[Ly], i: usize, t: Affine, alpha: f64, f: f64, out: &mut Vec<Op>) {
        let l = &set[i];
        let v = l.v;
        if !(num(v, "ip").unwrap() <= f && f < num(v, "op").unwrap()) {
            return;
        }
        out.push(Op::Begin(get(v, "nm").as_str().unwrap_or("").to_string(), i));
        // ancestors, outermost first
        let mut m = transform(get(v, "ks"), f);
        let mut up = l.parent;
        let mut hops = 0;
        while let Some(p) = up {
            if hops == set.len() {
                break;
            }
            hops += 1;
            m = transform(get(set[p].v, "ks"), f) * m;
            up = set[p].parent;
        }
        let m = t * m;
        if let Some((mode, source)) = l.matte {
            out.push(Op::Layer {
                blend: Mix::Normal.into(),
                alpha: 1.0,
                t,
                path: self.full(),
            });
            self.layer(set, source, t, alpha, f, out);
            out.push(Op::Layer {
                blend: mode,
                alpha: 1.0,
                t,
                path: self.full(),
            });
        }
        let alpha = alpha * scalar(get(v, "ks"), "o", f, 100.0) / 100.0;
        let mut pops = 0;
        for mask in get(v, "masksProperties").as_array().unwrap_or(&vec![]) {
            if let Some(pt) = mask.get("pt") {
                out.push(Op::Clip {
                    t: m,
                    path: path_prop(pt, f),
                    loose: false,
                });
                pops += 1;
            }
        }
        if !l.hidden {
            match num(v, "ty").unwrap() as i64 {
                0 => {
                    if let Some(layers) = self.assets.get(get(v, "refId").as_str().unwrap()) {
                        let stretch = num(v, "sr").unwrap_or(1.0);
                        let start = num(v, "st").unwrap_or(0.0);
                        self.list(layers, m, alpha, (f - start) / stretch, out);
                    }
                }
                4 => {
                    let mut tree = Tree::default();
                    shapes(get(v, "shapes").as_array().unwrap(), m, alpha, f, &mut tree);
                    for s in tree.styles.iter().rev() {
                        let brush = s.brush.clone().multiply_alpha(s.alpha.max(0.0).min(1.0) as f32);
                        for g in &s.over {
                            let g = &tree.geoms[*g];
                            out.push(Op::Draw {
                                stroke: s.stroke.clone(),
                                t: g.t,
                                brush: brush.clone(),
                                path: g.path.clone(),
                                loose: g.loose,
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        for _ in 0..pops + 2 * l.matte.is_some() as usize {
            out.push(Op::Pop);
        }
        out.push(Op::End);
    }
}
