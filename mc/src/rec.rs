//! The observation side: a recording sink and the canonical, tolerance-aware
//! comparison of two call sequences.
use kurbo::{Affine, BezPath, ParamCurve, PathEl, PathSeg, Point, Shape};
use peniko::{BlendMode, Brush};
use velato::model::fixed;
use velato::{Composition, RenderSink, Renderer};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Layer {
        blend: BlendMode,
        alpha: f32,
        t: Affine,
        path: Vec<PathEl>,
    },
    Clip {
        t: Affine,
        path: Vec<PathEl>,
        /// compare the outline only up to flattening accuracy
        loose: bool,
    },
    Pop,
    Draw {
        stroke: Option<fixed::Stroke>,
        t: Affine,
        brush: Brush,
        path: Vec<PathEl>,
        loose: bool,
    },
    Begin(String, usize),
    End,
}

/// What a sink callback may do besides recording (inject a panic, yield to a
/// scheduler, run another renderer).
pub trait Hook {
    fn at(&mut self, nth: usize, op: &Op);
}
impl Hook for () {
    fn at(&mut self, _: usize, _: &Op) {}
}
impl<F: FnMut(usize, &Op)> Hook for F {
    fn at(&mut self, n: usize, op: &Op) {
        self(n, op)
    }
}

pub struct Rec<H: Hook> {
    pub ops: Vec<Op>,
    pub hook: H,
    pub limit: usize,
}

impl<H: Hook> Rec<H> {
    pub fn new(hook: H) -> Self {
        Rec {
            ops: vec![],
            hook,
            limit: 4_000_000,
        }
    }
    fn push(&mut self, op: Op) {
        if self.ops.len() >= self.limit {
            panic!("render emitted more than {} sink calls", self.limit);
        }
        let n = self.ops.len();
        self.ops.push(op);
        let Rec { ops, hook, .. } = self;
        hook.at(n, ops.last().unwrap());
    }
}

fn els(shape: &impl Shape) -> Vec<PathEl> {
    shape.path_elements(0.1).collect()
}

impl<H: Hook> RenderSink for Rec<H> {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, t: Affine, shape: &impl Shape) {
        self.push(Op::Layer {
            blend: blend.into(),
            alpha,
            t,
            path: els(shape),
        });
    }
    fn push_clip_layer(&mut self, t: Affine, shape: &impl Shape) {
        self.push(Op::Clip {
            t,
            path: els(shape),
            loose: false,
        });
    }
    fn pop_layer(&mut self) {
        self.push(Op::Pop);
    }
    fn draw(&mut self, stroke: Option<&fixed::Stroke>, t: Affine, brush: &fixed::Brush, shape: &impl Shape) {
        self.push(Op::Draw {
            stroke: stroke.cloned(),
            t,
            brush: brush.clone(),
            path: els(shape),
            loose: false,
        });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.push(Op::Begin(name.to_string(), index));
    }
    fn end_layer_group(&mut self) {
        self.push(Op::End);
    }
}

pub fn render(c: &Composition, frame: f64) -> Vec<Op> {
    render_at(&mut Renderer::new(), c, frame, Affine::IDENTITY, 1.0)
}
pub fn render_at(r: &mut Renderer, c: &Composition, frame: f64, t: Affine, a: f64) -> Vec<Op> {
    let mut rec = Rec::new(());
    r.append(c, frame, t, a, &mut rec);
    rec.ops
}

// ---------------------------------------------------------------- comparison

fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub const TOL: f64 = 2e-6;

pub fn aff_eq(a: &Affine, b: &Affine) -> bool {
    let (a, b) = (a.as_coeffs(), b.as_coeffs());
    // tolerance relative to the linear part and the translation separately
    let l = a[..4].iter().chain(&b[..4]).fold(0.0_f64, |m, v| m.max(v.abs()));
    let t = a[4..].iter().chain(&b[4..]).fold(0.0_f64, |m, v| m.max(v.abs()));
    for i in 0..6 {
        let s = if i < 4 { l } else { t.max(1.0) };
        if a[i].is_nan() || b[i].is_nan() {
            if a[i].is_nan() != b[i].is_nan() {
                return false;
            }
            continue;
        }
        if a[i] == b[i] {
            continue;
        }
        if !((a[i] - b[i]).abs() <= TOL * s.max(1e-3)) {
            return false;
        }
    }
    true
}
fn pt_eq(a: Point, b: Point, scale: f64) -> bool {
    let e = |x: f64, y: f64| {
        if x.is_nan() || y.is_nan() {
            x.is_nan() && y.is_nan()
        } else {
            x == y || (x - y).abs() <= TOL * scale
        }
    };
    e(a.x, b.x) && e(a.y, b.y)
}

#[derive(Clone, Debug)]
pub struct Sub {
    pub segs: Vec<PathSeg>,
    pub closed: bool,
}

/// Canonical form of a path: subpaths of non-degenerate segments; straight
/// curves count as lines; the closing line is explicit; empty subpaths vanish.
pub fn canon(path: &[PathEl]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut cur: Option<Sub> = None;
    let mut at = Point::ZERO;
    let mut start = Point::ZERO;
    let near = |a: Point, b: Point| {
        a == b || (a - b).hypot() <= 1e-9 * (1.0 + a.x.abs().max(a.y.abs()))
    };
    let add = |cur: &mut Option<Sub>, seg: PathSeg| {
        let degenerate = match seg {
            PathSeg::Line(l) => near(l.p0, l.p1),
            PathSeg::Quad(q) => near(q.p0, q.p1) && near(q.p1, q.p2),
            PathSeg::Cubic(c) => near(c.p0, c.p1) && near(c.p0, c.p2) && near(c.p0, c.p3),
        };
        if degenerate {
            return;
        }
        let seg = match seg {
            PathSeg::Cubic(c)
                if (near(c.p0, c.p1) || on_seg(c.p1, c.p0, c.p3))
                    && (near(c.p2, c.p3) || on_seg(c.p2, c.p0, c.p3)) =>
            {
                PathSeg::Line(kurbo::Line::new(c.p0, c.p3))
            }
            PathSeg::Quad(q) => PathSeg::Cubic(q.raise()),
            s => s,
        };
        cur.get_or_insert_with(|| Sub {
            segs: vec![],
            closed: false,
        })
        .segs
        .push(seg);
    };
    for el in path {
        match *el {
            PathEl::MoveTo(p) => {
                out.extend(cur.take());
                at = p;
                start = p;
            }
            PathEl::LineTo(p) => {
                add(&mut cur, PathSeg::Line(kurbo::Line::new(at, p)));
                at = p;
            }
            PathEl::QuadTo(a, p) => {
                add(&mut cur, PathSeg::Quad(kurbo::QuadBez::new(at, a, p)));
                at = p;
            }
            PathEl::CurveTo(a, b, p) => {
                add(&mut cur, PathSeg::Cubic(kurbo::CubicBez::new(at, a, b, p)));
                at = p;
            }
            PathEl::ClosePath => {
                if !near(at, start) {
                    add(&mut cur, PathSeg::Line(kurbo::Line::new(at, start)));
                }
                if let Some(mut c) = cur.take() {
                    c.closed = true;
                    out.push(c);
                }
                at = start;
            }
        }
    }
    out.extend(cur.take());
    out
}
fn on_seg(p: Point, a: Point, b: Point) -> bool {
    let d = b - a;
    let l = d.hypot();
    if l == 0.0 {
        return false;
    }
    let v = p - a;
    let cross = (d.x * v.y - d.y * v.x).abs() / l;
    let along = (d.x * v.x + d.y * v.y) / l;
    cross <= 1e-9 * l && along >= -1e-9 * l && along <= l * (1.0 + 1e-9)
}

pub fn extent(path: &[Sub]) -> f64 {
    let mut m = 1.0_f64;
    for s in path {
        for g in &s.segs {
            for p in [g.start(), g.end()] {
                for v in [p.x.abs(), p.y.abs()] {
                    if v.is_finite() {
                        m = m.max(v);
                    }
                }
            }
        }
    }
    m
}

pub fn path_eq(a: &[PathEl], b: &[PathEl], loose: bool) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let (ca, cb) = (canon(a), canon(b));
    let scale = extent(&ca).max(extent(&cb));
    let strict = || -> Result<(), String> {
        if ca.len() != cb.len() {
            return Err(format!("{} vs {} subpaths", ca.len(), cb.len()));
        }
        for (i, (x, y)) in ca.iter().zip(&cb).enumerate() {
            if x.closed != y.closed {
                return Err(format!("subpath {i} closed {} vs {}", x.closed, y.closed));
            }
            if x.segs.len() != y.segs.len() {
                return Err(format!("subpath {i}: {} vs {} segments", x.segs.len(), y.segs.len()));
            }
            for (j, (s, t)) in x.segs.iter().zip(&y.segs).enumerate() {
                let ok = match (s, t) {
                    (PathSeg::Line(s), PathSeg::Line(t)) => {
                        pt_eq(s.p0, t.p0, scale) && pt_eq(s.p1, t.p1, scale)
                    }
                    (PathSeg::Cubic(s), PathSeg::Cubic(t)) => {
                        pt_eq(s.p0, t.p0, scale)
                            && pt_eq(s.p1, t.p1, scale)
                            && pt_eq(s.p2, t.p2, scale)
                            && pt_eq(s.p3, t.p3, scale)
                    }
                    // straight within rounding on one side only: compare as curves
                    (s, t) => (0..=8).all(|k| {
                        let u = k as f64 / 8.0;
                        dist_seg(s.eval(u), t) <= TOL * scale && dist_seg(t.eval(u), s) <= TOL * scale
                    }),
                };
                if !ok {
                    return Err(format!("subpath {i} segment {j}: {s:?} vs {t:?}"));
                }
            }
        }
        Ok(())
    };
    let r = strict();
    if r.is_ok() || !loose {
        return r;
    }
    loose_eq(&ca, &cb, 0.25_f64).map_err(|e| format!("{e} [{}]", r.unwrap_err()))
}

fn dist_seg(p: Point, s: &PathSeg) -> f64 {
    use kurbo::ParamCurveNearest;
    s.nearest(p, 1e-9).distance_sq.sqrt()
}

fn sample(s: &Sub) -> Vec<Point> {
    let mut v = vec![];
    for g in &s.segs {
        let n = if matches!(g, PathSeg::Line(_)) { 24 } else { 16 };
        for k in 0..=n {
            v.push(g.eval(k as f64 / n as f64));
        }
    }
    v
}

/// Same subpath structure, same start/end and same point set up to `tol`.
pub fn loose_eq(a: &[Sub], b: &[Sub], tol: f64) -> Result<(), String> {
    let one = |x: &Sub, y: &Sub| -> Result<(), String> {
        if x.closed != y.closed {
            return Err(format!("closed {} vs {}", x.closed, y.closed));
        }
        let (px, py) = (sample(x), sample(y));
        let ends = [(px[0], py[0]), (*px.last().unwrap(), *py.last().unwrap())];
        for (p, q) in ends {
            if (p - q).hypot() > 2.0 * tol {
                return Err(format!("endpoint {p:?} vs {q:?}"));
            }
        }
        for (pts, other) in [(&px, y), (&py, x)] {
            for p in pts.iter() {
                let d = other.segs.iter().map(|s| dist_seg(*p, s)).fold(f64::INFINITY, f64::min);
                if !(d <= tol) {
                    return Err(format!("point {p:?} is {d} away"));
                }
            }
        }
        Ok(())
    };
    // Slivers shorter than the accuracy may exist on one side only.
    let sliver = |s: &Sub| {
        let p = sample(s);
        !p.iter().any(|q| (*q - p[0]).hypot() > 2.0 * tol)
    };
    // reach[j]: the first i subpaths of a and the first j of b agree
    let mut why = None;
    let mut reach = vec![false; b.len() + 1];
    for i in 0..=a.len() {
        let above = std::mem::replace(&mut reach, vec![false; b.len() + 1]);
        for j in 0..=b.len() {
            reach[j] = (i == 0 && j == 0)
                || (i > 0 && above[j] && sliver(&a[i - 1]))
                || (j > 0 && reach[j - 1] && sliver(&b[j - 1]));
            if !reach[j] && i > 0 && j > 0 && above[j - 1] {
                match one(&a[i - 1], &b[j - 1]) {
                    Ok(()) => reach[j] = true,
                    Err(e) => why = Some(format!("subpath {} against {}: {e}", i - 1, j - 1)),
                }
            }
        }
    }
    if reach[b.len()] {
        return Ok(());
    }
    Err(format!("{} vs {} subpaths: {}", a.len(), b.len(), why.unwrap_or_default()))
}

fn f32_eq(a: f32, b: f32) -> bool {
    close(a as f64, b as f64, 2e-5)
}

pub fn brush_eq(a: &Brush, b: &Brush) -> Result<(), String> {
    match (a, b) {
        (Brush::Solid(x), Brush::Solid(y)) => {
            if x.components.iter().zip(&y.components).all(|(p, q)| f32_eq(*p, *q)) {
                Ok(())
            } else {
                Err(format!("colour {:?} vs {:?}", x.components, y.components))
            }
        }
        (Brush::Gradient(x), Brush::Gradient(y)) => {
            use peniko::GradientKind::*;
            let same = match (&x.kind, &y.kind) {
                (Linear(p), Linear(q)) => {
                    let s = [p.start, p.end, q.start, q.end].iter().fold(1.0_f64, |m, v| m.max(v.x.abs()).max(v.y.abs()));
                    pt_eq(p.start, q.start, s) && pt_eq(p.end, q.end, s)
                }
                (Radial(p), Radial(q)) => {
                    let s = [p.start_center, p.end_center, q.start_center, q.end_center]
                        .iter()
                        .fold(1.0_f64, |m, v| m.max(v.x.abs()).max(v.y.abs()));
                    pt_eq(p.start_center, q.start_center, s)
                        && pt_eq(p.end_center, q.end_center, s)
                        && f32_eq(p.start_radius, q.start_radius)
                        && f32_eq(p.end_radius, q.end_radius)
                }
                (p, q) => p == q,
            };
            if !same {
                return Err(format!("gradient {:?} vs {:?}", x.kind, y.kind));
            }
            if x.extend != y.extend || x.interpolation_cs != y.interpolation_cs || x.hue_direction != y.hue_direction {
                return Err(format!("gradient mode {x:?} vs {y:?}"));
            }
            if x.stops.len() != y.stops.len() {
                return Err(format!("{} vs {} stops", x.stops.len(), y.stops.len()));
            }
            for (p, q) in x.stops.iter().zip(y.stops.iter()) {
                if !f32_eq(p.offset, q.offset)
                    || p.color.cs != q.color.cs
                    || !p.color.components.iter().zip(&q.color.components).all(|(m, n)| f32_eq(*m, *n))
                {
                    return Err(format!("stop {p:?} vs {q:?}"));
                }
            }
            Ok(())
        }
        (a, b) => {
            if a == b {
                Ok(())
            } else {
                Err(format!("brush {a:?} vs {b:?}"))
            }
        }
    }
}

pub fn stroke_eq(a: &Option<fixed::Stroke>, b: &Option<fixed::Stroke>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            close(a.width, b.width, TOL)
                && a.join == b.join
                && close(a.miter_limit, b.miter_limit, TOL)
                && a.start_cap == b.start_cap
                && a.end_cap == b.end_cap
                && a.dash_pattern == b.dash_pattern
                && close(a.dash_offset, b.dash_offset, TOL)
        }
        _ => false,
    }
}

pub fn op_eq(a: &Op, b: &Op) -> Result<(), String> {
    match (a, b) {
        (Op::Pop, Op::Pop) | (Op::End, Op::End) => Ok(()),
        (Op::Begin(n, i), Op::Begin(m, j)) => {
            if n == m && i == j {
                Ok(())
            } else {
                Err(format!("begin({n:?},{i}) vs begin({m:?},{j})"))
            }
        }
        (
            Op::Layer { blend, alpha, t, path },
            Op::Layer {
                blend: b2,
                alpha: a2,
                t: t2,
                path: p2,
            },
        ) => {
            if blend != b2 {
                return Err(format!("layer blend {blend:?} vs {b2:?}"));
            }
            if !f32_eq(*alpha, *a2) {
                return Err(format!("layer alpha {alpha} vs {a2}"));
            }
            if !aff_eq(t, t2) {
                return Err(format!("layer transform {t:?} vs {t2:?}"));
            }
            path_eq(path, p2, false).map_err(|e| format!("layer shape: {e}"))
        }
        (
            Op::Clip { t, path, loose },
            Op::Clip {
                t: t2,
                path: p2,
                loose: l2,
            },
        ) => {
            if !aff_eq(t, t2) {
                return Err(format!("clip transform {t:?} vs {t2:?}"));
            }
            path_eq(path, p2, *loose || *l2).map_err(|e| format!("clip shape: {e}"))
        }
        (
            Op::Draw {
                stroke,
                t,
                brush,
                path,
                loose,
            },
            Op::Draw {
                stroke: s2,
                t: t2,
                brush: b2,
                path: p2,
                loose: l2,
            },
        ) => {
            if !stroke_eq(stroke, s2) {
                return Err(format!("stroke {stroke:?} vs {s2:?}"));
            }
            if !aff_eq(t, t2) {
                return Err(format!("draw transform {t:?} vs {t2:?}"));
            }
            brush_eq(brush, b2)?;
            path_eq(path, p2, *loose || *l2).map_err(|e| format!("draw shape: {e}"))
        }
        _ => Err(format!("{} vs {}", short(a), short(b))),
    }
}

fn is_empty_draw(o: &Op) -> bool {
    matches!(o, Op::Draw { path, .. } if canon(path).is_empty())
}

/// Compares two call sequences (`a` observed, `b` expected). Draws of an empty
/// outline paint nothing and are ignored when the sequences differ otherwise.
pub fn trace_eq(a: &[Op], b: &[Op]) -> Result<(), String> {
    let strict = trace_eq_strict(a, b);
    if strict.is_ok() {
        return strict;
    }
    let drop = |v: &[Op]| -> Vec<Op> { v.iter().filter(|o| !is_empty_draw(o)).cloned().collect() };
    let (da, db) = (drop(a), drop(b));
    if da.len() != a.len() || db.len() != b.len() {
        return trace_eq_strict(&da, &db);
    }
    strict
}

pub fn trace_eq_strict(a: &[Op], b: &[Op]) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        op_eq(x, y).map_err(|e| format!("call {i}: observed vs expected: {e}"))?;
    }
    if a.len() != b.len() {
        return Err(format!(
            "observed {} calls, expected {}; first extra: {}",
            a.len(),
            b.len(),
            short(if a.len() > b.len() { &a[b.len()] } else { &b[a.len()] })
        ));
    }
    Ok(())
}

pub fn short(o: &Op) -> String {
    match o {
        Op::Pop => "pop".into(),
        Op::End => "end".into(),
        Op::Begin(n, i) => format!("begin({n:?},{i})"),
        Op::Layer { blend, alpha, t, .. } => format!("layer({blend:?},{alpha},{:?})", t.as_coeffs()),
        Op::Clip { t, path, .. } => format!("clip({:?},{})", t.as_coeffs(), svg(path)),
        Op::Draw {
            stroke, t, brush, path, ..
        } => format!(
            "draw({},{:?},{},{})",
            match stroke {
                Some(s) => format!("stroke w{} {:?} {:?} {}", s.width, s.join, s.start_cap, s.miter_limit),
                None => "fill".into(),
            },
            t.as_coeffs(),
            match brush {
                Brush::Solid(c) => format!("{:?}", c.components),
                b => format!("{b:?}"),
            },
            svg(path)
        ),
    }
}
fn svg(p: &[PathEl]) -> String {
    let s = BezPath::from_vec(if matches!(p.first(), Some(PathEl::MoveTo(_)) | None) { p.to_vec() } else { vec![] }).to_svg();
    if s.len() > 400 { format!("{}...", &s[..400]) } else { s }
}
pub fn dump(ops: &[Op]) -> String {
    let mut out = String::new();
    for (i, o) in ops.iter().enumerate() {
        if i > 80 {
            out += "  ...\n";
            break;
        }
        out += &format!("  {i}: {}\n", short(o));
    }
    out
}

/// Bracket discipline of a call sequence.
pub fn balanced(ops: &[Op], w: f64, h: f64, t: Affine) -> Result<(), String> {
    let mut st: Vec<char> = vec![];
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Layer { .. } | Op::Clip { .. } => {
                if st.is_empty() {
                    if i != 0 {
                        return Err(format!("call {i}: a second outermost layer"));
                    }
                    match o {
                        Op::Clip { t: t2, path, .. } => {
                            let want: Vec<PathEl> = kurbo::Rect::new(0.0, 0.0, w, h).path_elements(0.1).collect();
                            path_eq(path, &want, false).map_err(|e| format!("outermost clip: {e}"))?;
                            if !aff_eq(t2, &t) {
                                return Err("outermost clip has the wrong transform".into());
                            }
                        }
                        _ => return Err("outermost layer is not a clip".into()),
                    }
                }
                st.push('L')
            }
            Op::Pop => {
                if st.pop() != Some('L') {
                    return Err(format!("call {i}: pop does not match the innermost open bracket"));
                }
            }
            Op::Begin(..) => {
                if st.is_empty() {
                    return Err(format!("call {i}: begin outside the outermost clip"));
                }
                st.push('G')
            }
            Op::End => {
                if st.pop() != Some('G') {
                    return Err(format!("call {i}: end does not match the innermost open bracket"));
                }
            }
            Op::Draw { .. } => {
                if st.is_empty() {
                    return Err(format!("call {i}: draw outside the outermost clip"));
                }
            }
        }
    }
    if !st.is_empty() {
        return Err(format!("{} brackets left open at the end", st.len()));
    }
    if ops.is_empty() {
        return Err("no outermost clip".into());
    }
    Ok(())
}
