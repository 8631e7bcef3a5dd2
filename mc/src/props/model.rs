//! Fixed and animated representations in the public model (C27).
use crate::check::*;
use crate::corpus::{self, frames};
use crate::rec::*;
use crate::run::*;
use kurbo::{PathEl, Point, Size, Vec2};
use peniko::Color;
use serde_json::{Value as J, json};
use std::collections::HashMap;
use velato::Composition;
use velato::model::*;

/// One place of a composition that holds a fixed or animated value.
pub enum Slot<'a> {
    N(&'a mut Value<f64>),
    P(&'a mut Value<Point>),
    V(&'a mut Value<Vec2>),
    S(&'a mut Value<Size>),
    C(&'a mut Value<Color>),
    Transform(&'a mut Transform),
    Stroke(&'a mut Stroke),
    Repeater(&'a mut Repeater),
    Stops(&'a mut ColorStops),
    Brush(&'a mut Brush),
    Geometry(&'a mut Geometry),
    Trim(&'a mut Trim),
}
use Slot as S;

fn freeze_value<T: Tween + Default>(v: &mut Value<T>, f: f64) {
    *v = Value::Fixed(v.evaluate(f));
}
fn time(frame: f64) -> Time {
    Time { frame, in_tangent: None, out_tangent: None, hold: false }
}
/// The times of the keyframes that hold one value, in several forms.
pub const THAWS: usize = 6;
fn thaw_times(form: usize) -> Vec<Time> {
    let h = |x, y| Some(EasingHandle { x, y });
    match form {
        0 => vec![time(7.0)],
        1 => vec![time(0.0), time(20.0)],
        2 => vec![
            Time { frame: -3.5, in_tangent: h(0.6, 0.9), out_tangent: h(0.4, 0.1), hold: false },
            Time { frame: 25.0, in_tangent: h(0.2, 1.3), out_tangent: h(0.8, -0.3), hold: false },
            time(30.0),
        ],
        3 => vec![Time { hold: true, ..time(3.0) }, time(12.0), time(15.0)],
        4 => vec![time(1e6)],
        _ => (0..40).map(|i| time(i as f64 * 2.0 + 0.5)).collect(),
    }
}
fn keyed<T: Tween>(v: &T, form: usize) -> Animated<T> {
    let times = thaw_times(form);
    Animated { values: vec![v.clone(); times.len()], times }
}
fn thaw_value<T: Tween>(v: &mut Value<T>, form: usize) -> bool {
    let Value::Fixed(x) = v else { return false };
    *v = Value::Animated(keyed(x, form));
    true
}
/// `x` in keyframes, as a value.
fn val<T: Tween>(x: T, form: usize) -> Value<T> {
    Value::Animated(keyed(&x, form))
}

impl Slot<'_> {
    pub fn is_fixed(&self) -> bool {
        match self {
            S::N(v) => v.is_fixed(),
            S::P(v) => v.is_fixed(),
            S::V(v) => v.is_fixed(),
            S::S(v) => v.is_fixed(),
            S::C(v) => v.is_fixed(),
            S::Transform(v) => v.is_fixed(),
            S::Stroke(v) => v.is_fixed(),
            S::Repeater(v) => v.is_fixed(),
            S::Stops(v) => v.is_fixed(),
            S::Brush(v) => v.is_fixed(),
            S::Geometry(v) => matches!(v, Geometry::Fixed(_)),
            S::Trim(v) => v.is_fixed(),
        }
    }
    /// The value at a frame, as text.
    pub fn show(&self, f: f64) -> String {
        match self {
            S::N(v) => format!("{:?}", v.evaluate(f)),
            S::P(v) => format!("{:?}", v.evaluate(f)),
            S::V(v) => format!("{:?}", v.evaluate(f)),
            S::S(v) => format!("{:?}", v.evaluate(f)),
            S::C(v) => format!("{:?}", v.evaluate_or(f, Color::TRANSPARENT)),
            S::Transform(v) => format!("{:?}", v.evaluate(f).as_ref()),
            S::Stroke(v) => format!("{:?}", v.evaluate(f).as_ref()),
            S::Repeater(v) => format!("{:?}", v.evaluate(f).as_ref()),
            S::Stops(v) => format!("{:?}", v.evaluate(f).as_ref()),
            S::Brush(v) => format!("{:?}", v.evaluate(1.0, f).as_ref()),
            S::Geometry(v) => {
                let mut p = vec![];
                v.evaluate(f, &mut p);
                format!("{p:?}")
            }
            S::Trim(v) => format!("{:?}", v.evaluate(f).as_ref()),
        }
    }
    /// Replaces the value by the fixed one it has at a frame.
    pub fn freeze(&mut self, f: f64) {
        match self {
            S::N(v) => freeze_value(v, f),
            S::P(v) => freeze_value(v, f),
            S::V(v) => freeze_value(v, f),
            S::S(v) => freeze_value(v, f),
            S::C(v) => **v = Value::Fixed(v.evaluate_or(f, Color::TRANSPARENT)),
            S::Transform(v) => **v = Transform::Fixed(v.evaluate(f).into_owned()),
            S::Stroke(v) => **v = Stroke::Fixed(v.evaluate(f).into_owned()),
            S::Repeater(v) => **v = Repeater::Fixed(v.evaluate(f).into_owned()),
            S::Stops(v) => **v = ColorStops::Fixed(v.evaluate(f).into_owned()),
            S::Brush(v) => **v = Brush::Fixed(v.evaluate(1.0, f).into_owned()),
            S::Geometry(v) => {
                let mut p = vec![];
                v.evaluate(f, &mut p);
                **v = Geometry::Fixed(p);
            }
            S::Trim(v) => **v = Trim::Fixed(v.evaluate(f).into_owned()),
        }
    }
    /// Replaces a fixed value by an animated one that never changes; false where
    /// there is nothing to replace.
    pub fn thaw(&mut self, form: usize) -> bool {
        match self {
            S::N(v) => thaw_value(v, form),
            S::P(v) => thaw_value(v, form),
            S::V(v) => thaw_value(v, form),
            S::S(v) => thaw_value(v, form),
            S::C(v) => thaw_value(v, form),
            S::Transform(t) => {
                let Transform::Fixed(m) = &**t else { return false };
                let [a, b, c, d, e, g] = m.as_coeffs();
                let r = b.atan2(a);
                let (sx, shear, sy) = (a.hypot(b), c * r.cos() + d * r.sin(), d * r.cos() - c * r.sin());
                if sx == 0.0 || sy == 0.0 {
                    return false;
                }
                let n = |x: f64| val(x, form);
                **t = Transform::Animated(animated::Transform {
                    anchor: Value::Fixed(Point::ZERO),
                    position: if form % 2 == 0 {
                        animated::Position::Value(val(Point::new(e, g), form))
                    } else {
                        animated::Position::SplitValues((n(e), n(g)))
                    },
                    rotation: n(r.to_degrees()),
                    scale: val(Vec2::new(sx * 100.0, sy * 100.0), form),
                    skew: n((shear / sy).atan().to_degrees()),
                    skew_angle: n(0.0),
                });
                true
            }
            S::Stroke(s) => {
                let Stroke::Fixed(k) = &**s else { return false };
                **s = Stroke::Animated(animated::Stroke { width: val(k.width, form), join: k.join, miter_limit: Some(k.miter_limit), cap: k.start_cap });
                true
            }
            S::Repeater(r) => {
                let Repeater::Fixed(x) = &**r else { return false };
                **r = Repeater::Animated(animated::Repeater {
                    copies: val(x.copies as f64, form),
                    offset: val(x.offset, form),
                    anchor_point: val(x.anchor_point, form),
                    position: val(x.position, form),
                    rotation: val(x.rotation, form),
                    scale: val(x.scale, form),
                    start_opacity: val(x.start_opacity, form),
                    end_opacity: val(x.end_opacity, form),
                });
                true
            }
            S::Stops(s) => {
                let ColorStops::Fixed(x) = &**s else { return false };
                **s = ColorStops::Animated(keyed_stops(x, form));
                true
            }
            S::Brush(b) => {
                let Brush::Fixed(x) = &**b else { return false };
                let b2 = match x {
                    peniko::Brush::Solid(c) => animated::Brush::Solid(val(*c, form)),
                    peniko::Brush::Gradient(g) => {
                        let (is_radial, start_point, end_point) = match &g.kind {
                            peniko::GradientKind::Linear(p) => (false, p.start, p.end),
                            peniko::GradientKind::Radial(p) => (true, p.start_center, p.start_center + Vec2::new(0.0, p.end_radius as f64)),
                            _ => return false,
                        };
                        animated::Brush::Gradient(animated::Gradient {
                            is_radial,
                            start_point: val(start_point, form),
                            end_point: Value::Fixed(end_point),
                            stops: if form % 2 == 0 { ColorStops::Fixed(g.stops.clone()) } else { ColorStops::Animated(keyed_stops(&g.stops, form)) },
                        })
                    }
                    _ => return false,
                };
                **b = Brush::Animated(b2);
                true
            }
            S::Geometry(g) => {
                let Geometry::Fixed(p) = &**g else { return false };
                let Some((start, is_closed)) = spline_of(p) else { return false };
                let times = thaw_times(form);
                let end = if form == 5 { Some(start.clone()) } else { None };
                **g = Geometry::Spline(animated::Spline {
                    is_closed,
                    values: vec![animated::SplineKeyframeValues { start, end }; times.len()],
                    times,
                });
                true
            }
            S::Trim(t) => {
                let Trim::Fixed(x) = &**t else { return false };
                **t = Trim::Animated(animated::Trim { start: val(x.start, form), end: val(x.end, form), offset: val(x.offset, form) });
                true
            }
        }
    }
}
fn keyed_stops(x: &fixed::ColorStops, form: usize) -> animated::ColorStops {
    let frames = thaw_times(form);
    let flat: Vec<f64> = x
        .iter()
        .flat_map(|s| {
            let c = s.color.components;
            [s.offset, c[0], c[1], c[2], c[3]].map(|v| v as f64)
        })
        .collect();
    animated::ColorStops { values: vec![flat; frames.len()], frames, count: x.len() }
}
/// The vertices of a path of one open or closed run of lines and curves.
fn spline_of(p: &[PathEl]) -> Option<(Vec<Point>, bool)> {
    let PathEl::MoveTo(first) = *p.first()? else { return None };
    let mut v: Vec<[Point; 3]> = vec![[first, Point::ZERO, Point::ZERO]];
    let mut closed = false;
    for (i, e) in p[1..].iter().enumerate() {
        let (a, b, to) = match *e {
            PathEl::LineTo(to) => (Vec2::ZERO, Vec2::ZERO, to),
            PathEl::CurveTo(a, b, to) => (a - v.last().unwrap()[0], b - to, to),
            PathEl::ClosePath if i + 2 == p.len() && i > 0 => {
                closed = true;
                break;
            }
            _ => return None,
        };
        v.last_mut().unwrap()[2] = a.to_point();
        v.push([to, b.to_point(), Point::ZERO]);
    }
    if closed {
        let last = v.pop()?;
        if last[0] != first || v.is_empty() {
            return None;
        }
        v[0][1] = last[1];
    }
    Some((v.concat(), closed))
}

type F<'a> = &'a mut dyn FnMut(Slot<'_>, &str);

fn transform_slots(t: &mut Transform, at: &str, f: F) {
    if let Transform::Animated(a) = t {
        f(S::P(&mut a.anchor), &format!("{at}.anchor"));
        match &mut a.position {
            animated::Position::Value(v) => f(S::P(v), &format!("{at}.position")),
            animated::Position::SplitValues((x, y)) => {
                f(S::N(x), &format!("{at}.x"));
                f(S::N(y), &format!("{at}.y"));
            }
        }
        f(S::N(&mut a.rotation), &format!("{at}.rotation"));
        f(S::V(&mut a.scale), &format!("{at}.scale"));
        f(S::N(&mut a.skew), &format!("{at}.skew"));
        f(S::N(&mut a.skew_angle), &format!("{at}.skew_angle"));
    }
    f(S::Transform(t), at);
}
fn geometry_slots(g: &mut Geometry, at: &str, f: F) {
    match g {
        Geometry::Fixed(_) | Geometry::Spline(_) => {}
        Geometry::Rect(r) => {
            f(S::P(&mut r.position), &format!("{at}.position"));
            f(S::S(&mut r.size), &format!("{at}.size"));
            f(S::N(&mut r.corner_radius), &format!("{at}.radius"));
        }
        Geometry::Ellipse(r) => {
            f(S::P(&mut r.position), &format!("{at}.position"));
            f(S::S(&mut r.size), &format!("{at}.size"));
        }
        Geometry::Star(s) => {
            f(S::P(&mut s.position), &format!("{at}.position"));
            for (n, v) in [
                ("inner radius", &mut s.inner_radius),
                ("inner roundness", &mut s.inner_roundness),
                ("outer radius", &mut s.outer_radius),
                ("outer roundness", &mut s.outer_roundness),
                ("rotation", &mut s.rotation),
                ("points", &mut s.points),
            ] {
                f(S::N(v), &format!("{at}.{n}"));
            }
        }
    }
    f(S::Geometry(g), at);
}
fn shape_slots(s: &mut Shape, at: &str, f: F) {
    match s {
        Shape::Group(list, t) => {
            for (i, s) in list.iter_mut().enumerate() {
                shape_slots(s, &format!("{at}/{i}"), f);
            }
            if let Some(t) = t {
                transform_slots(&mut t.transform, &format!("{at}.transform"), f);
                f(S::N(&mut t.opacity), &format!("{at}.opacity"));
            }
        }
        Shape::Geometry(g) => geometry_slots(g, at, f),
        Shape::Draw(d) => {
            if let Some(s) = &mut d.stroke {
                if let Stroke::Animated(a) = s {
                    f(S::N(&mut a.width), &format!("{at}.stroke.width"));
                }
                f(S::Stroke(s), &format!("{at}.stroke"));
            }
            match &mut d.brush {
                Brush::Animated(animated::Brush::Solid(c)) => f(S::C(c), &format!("{at}.brush.colour")),
                Brush::Animated(animated::Brush::Gradient(g)) => {
                    f(S::P(&mut g.start_point), &format!("{at}.brush.start"));
                    f(S::P(&mut g.end_point), &format!("{at}.brush.end"));
                    f(S::Stops(&mut g.stops), &format!("{at}.brush.stops"));
                }
                Brush::Fixed(_) => {}
            }
            f(S::Brush(&mut d.brush), &format!("{at}.brush"));
            f(S::N(&mut d.opacity), &format!("{at}.opacity"));
        }
        Shape::Repeater(r) => {
            if let Repeater::Animated(a) = r {
                f(S::P(&mut a.anchor_point), &format!("{at}.anchor"));
                f(S::P(&mut a.position), &format!("{at}.position"));
                f(S::V(&mut a.scale), &format!("{at}.scale"));
                for (n, v) in [
                    ("copies", &mut a.copies),
                    ("offset", &mut a.offset),
                    ("rotation", &mut a.rotation),
                    ("start opacity", &mut a.start_opacity),
                    ("end opacity", &mut a.end_opacity),
                ] {
                    f(S::N(v), &format!("{at}.{n}"));
                }
            }
            f(S::Repeater(r), at);
        }
        Shape::Trim(t) => {
            if let Trim::Animated(a) = t {
                f(S::N(&mut a.start), &format!("{at}.start"));
                f(S::N(&mut a.end), &format!("{at}.end"));
                f(S::N(&mut a.offset), &format!("{at}.offset"));
            }
            f(S::Trim(t), at);
        }
    }
}
fn layer_slots(l: &mut Layer, at: &str, f: F) {
    transform_slots(&mut l.transform, &format!("{at}.transform"), f);
    f(S::N(&mut l.opacity), &format!("{at}.opacity"));
    for (i, m) in l.masks.iter_mut().enumerate() {
        geometry_slots(&mut m.geometry, &format!("{at}.mask{i}"), f);
        f(S::N(&mut m.opacity), &format!("{at}.mask{i}.opacity"));
    }
    match &mut l.content {
        Content::None => {}
        Content::Instance { time_remap, .. } => {
            if let Some(t) = time_remap {
                f(S::N(t), &format!("{at}.time_remap"));
            }
        }
        Content::Shape(list) => {
            for (i, s) in list.iter_mut().enumerate() {
                shape_slots(s, &format!("{at}/{i}"), f);
            }
        }
    }
}
/// Visits every slot, members before the element that holds them, and tells the
/// list (`None` for the top level) it belongs to.
pub fn slots(c: &mut Composition, f: &mut dyn FnMut(usize, Option<&str>, Slot<'_>, &str)) {
    let mut n = 0;
    let mut ids: Vec<String> = c.assets.keys().cloned().collect();
    ids.sort();
    for (i, l) in c.layers.iter_mut().enumerate() {
        layer_slots(l, &format!("layer {i}"), &mut |s, at| {
            f(n, None, s, at);
            n += 1;
        });
    }
    for id in ids {
        for (i, l) in c.assets.get_mut(&id).unwrap().iter_mut().enumerate() {
            layer_slots(l, &format!("asset {id} layer {i}"), &mut |s, at| {
                f(n, Some(&id), s, at);
                n += 1;
            });
        }
    }
}
/// The frame each list is shown at when the composition shows `frame`, for those
/// shown at one frame only.
fn local_frames(c: &Composition, frame: f64) -> HashMap<Option<String>, f64> {
    fn go(c: &Composition, id: Option<&str>, f: f64, depth: usize, out: &mut HashMap<Option<String>, Vec<f64>>) {
        let seen = out.entry(id.map(String::from)).or_default();
        if !seen.contains(&f) {
            seen.push(f);
        }
        let layers = match id {
            None => &c.layers,
            Some(id) => match c.assets.get(id) {
                Some(l) => l,
                None => return,
            },
        };
        if depth > 8 {
            return;
        }
        for l in layers {
            if let Content::Instance { name, .. } = &l.content {
                go(c, Some(name), f / l.stretch - l.start_frame / l.stretch, depth + 1, out);
            }
        }
    }
    let mut out = HashMap::new();
    go(c, None, frame, 0, &mut out);
    out.into_iter().filter(|(_, f)| f.len() == 1).map(|(k, f)| (k, f[0])).collect()
}

fn compare(k: &mut Cov, doc: &J, want: &[Op], c: &Composition, f: f64, what: &dyn Fn() -> String) -> R {
    let got = render(c, f);
    k.state(&(doc.to_string(), f.to_bits(), what()));
    k.step(want.len());
    k.trace();
    trace_eq(&got, want).map_err(|e| Fail {
        msg: format!("frame {f}: {}: {e}", what()),
        data: json!({"doc": doc, "frame": f, "edit": what(), "observed": dump(&got), "expected": dump(want)}),
    })
}

/// A document's composition with a repeater in every shape layer.
pub fn repeated(mut c: Composition) -> Composition {
    let rep = |n: usize| {
        Shape::Repeater(Repeater::Fixed(fixed::Repeater {
            copies: 2,
            offset: 0.5 * n as f64,
            anchor_point: Point::new(3.0, -1.0),
            position: Point::new(5.0, 8.0),
            rotation: 30.0,
            scale: Vec2::new(90.0, 110.0),
            start_opacity: 90.0,
            end_opacity: 20.0,
        }))
    };
    for l in c.layers.iter_mut().chain(c.assets.values_mut().flatten()) {
        if let Content::Shape(s) = &mut l.content {
            s.push(rep(s.len()));
        }
    }
    c
}

/// The same with repeaters whose members are all animated.
pub fn repeated_moving(c: Composition) -> Composition {
    let mut c = repeated(c);
    slots(&mut c, &mut |_, _, s, _| {
        if let S::Repeater(r) = s
            && let Repeater::Fixed(x) = &*r
        {
            let n = |a: f64, b: f64| Value::Animated(Animated { times: vec![time(0.0), time(14.0)], values: vec![a, b] });
            let p = |a: Point, b: Point| Value::Animated(Animated { times: vec![time(0.0), time(14.0)], values: vec![a, b] });
            *r = Repeater::Animated(animated::Repeater {
                copies: n(x.copies as f64, 4.0),
                offset: n(x.offset, -1.0),
                anchor_point: p(x.anchor_point, Point::ZERO),
                position: p(x.position, Point::new(-6.0, 2.0)),
                rotation: n(x.rotation, -70.0),
                scale: Value::Animated(Animated { times: vec![time(0.0), time(14.0)], values: vec![x.scale, Vec2::new(50.0, 130.0)] }),
                start_opacity: n(x.start_opacity, 10.0),
                end_opacity: n(x.end_opacity, 100.0),
            });
        }
    });
    c
}

pub fn c27(x: &mut X) {
    let docs: Vec<(String, J)> = corpus::docs()
        .into_iter()
        .chain(corpus::assets())
        .chain([("opacity stops".to_string(), super::keys::opacity_stops())])
        .chain(super::keys::elements().into_iter().map(|(n, d)| (n.to_string(), d)))
        .collect();
    for (name, d) in &docs {
        for variant in 0..3 {
            let load = || -> Result<Composition, Fail> {
                let c = parse(d)?;
                Ok(match variant {
                    0 => c,
                    1 => repeated(c),
                    _ => repeated_moving(c),
                })
            };
            let Ok(c) = load() else { continue };
            let mut info: Vec<(Option<String>, bool, String)> = vec![];
            slots(&mut c.clone(), &mut |_, list, s, at| info.push((list.map(String::from), s.is_fixed(), at.to_string())));
            let moving: Vec<usize> = (0..info.len()).filter(|i| !info[*i].1).collect();
            let title = format!("{name}{}", ["", ", repeated", ", repeated by a moving repeater"][variant]);

            x.family("an element that says it is fixed never changes");
            x.case(|k| {
                let mut bad = None;
                slots(&mut c.clone(), &mut |_, _, s, at| {
                    if s.is_fixed() {
                        let first = s.show(frames()[0]);
                        for f in frames() {
                            k.step(1);
                            if s.show(f) != first && bad.is_none() {
                                bad = Some(format!("[{title}] {at} is fixed but changes by frame {f}"));
                            }
                        }
                    }
                });
                k.trace();
                k.state(&title);
                match bad {
                    Some(e) => fail(e, json!({"doc": d})),
                    None => Ok(()),
                }
            });

            x.family("freezing animated elements");
            let mut sets: Vec<Vec<usize>> = vec![moving.clone()];
            for (n, &i) in moving.iter().enumerate() {
                sets.push(vec![i]);
                sets.push(moving.iter().copied().filter(|j| *j != i).collect());
                if moving.len() <= 30 || x.tier_thorough {
                    for &j in &moving[..n] {
                        sets.push(vec![j, i]);
                    }
                }
            }
            for (n, set) in sets.iter().enumerate() {
                if set.is_empty() {
                    continue;
                }
                x.case(|k| {
                    for (fi, f) in frames().into_iter().enumerate() {
                        if !x_all(n, fi) {
                            continue;
                        }
                        let local = local_frames(&c, f);
                        let mut z = c.clone();
                        let mut names = vec![];
                        slots(&mut z, &mut |i, list, mut s, at| {
                            if set.contains(&i)
                                && let Some(lf) = local.get(&list.map(String::from))
                            {
                                s.freeze(*lf);
                                names.push(at.to_string());
                            }
                        });
                        if names.is_empty() {
                            continue;
                        }
                        compare(k, d, &render(&c, f), &z, f, &|| format!("[{title}] {names:?} replaced by the fixed value at the frame"))?;
                    }
                    Ok(())
                });
            }

            x.family("keyframes that never change the value");
            let still: Vec<usize> = (0..info.len()).filter(|i| info[*i].1).collect();
            for form in 0..THAWS {
                let mut sets: Vec<Vec<usize>> = vec![still.clone()];
                for &i in &still {
                    sets.push(vec![i]);
                }
                for (n, set) in sets.iter().enumerate() {
                    x.case(|k| {
                        let mut z = c.clone();
                        let mut names = vec![];
                        slots(&mut z, &mut |i, _, mut s, at| {
                            if set.contains(&i) && s.thaw(form) {
                                names.push(at.to_string());
                                if s.is_fixed() {
                                    names.push("STILL FIXED".into());
                                }
                            }
                        });
                        if names.is_empty() {
                            return Ok(());
                        }
                        if names.iter().any(|n| n == "STILL FIXED") {
                            return fail(format!("[{title}] {names:?}: keyframed elements call themselves fixed"), json!({"doc": d}));
                        }
                        for (fi, f) in frames().into_iter().enumerate() {
                            if n == 0 || (fi + n) % 4 == 0 {
                                compare(k, d, &render(&c, f), &z, f, &|| format!("[{title}] {names:?} given as keyframes, form {form}"))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    members(x);
}
fn x_all(n: usize, fi: usize) -> bool {
    n == 0 || (fi + n) % 4 == 0
}

const FORMS: [&str; 7] = ["transform", "split transform", "stroke", "repeater", "trim", "solid brush", "gradient brush"];

/// Elements with every subset of their members animated: `into_model`,
/// `is_fixed` and the two ways to evaluate agree.
fn members(x: &mut X) {
    let n = |on: bool, a: f64, b: f64| -> Value<f64> {
        if on {
            Value::Animated(Animated { times: vec![time(0.0), time(10.0)], values: vec![a, b] })
        } else {
            Value::Fixed(a)
        }
    };
    let p = |on: bool, a: f64, b: f64| -> Value<Point> {
        if on {
            Value::Animated(Animated { times: vec![time(0.0), time(10.0)], values: vec![Point::new(a, b), Point::new(b, a)] })
        } else {
            Value::Fixed(Point::new(a, b))
        }
    };
    let v = |on: bool, a: f64, b: f64| -> Value<Vec2> {
        if on {
            Value::Animated(Animated { times: vec![time(0.0), time(10.0)], values: vec![Vec2::new(a, b), Vec2::new(b, a)] })
        } else {
            Value::Fixed(Vec2::new(a, b))
        }
    };
    let stops = |on: bool| -> ColorStops {
        let a = [0.0, 1.0, 0.5, 0.25, 0.75, 1.0, 0.0, 0.5, 1.0, 0.5];
        let b = [0.25, 0.0, 0.5, 0.5, 1.0, 0.75, 1.0, 0.5, 0.0, 0.25];
        let s = animated::ColorStops { frames: vec![time(0.0), time(10.0)], values: vec![a.to_vec(), b.to_vec()], count: 2 };
        if on { ColorStops::Animated(s) } else { ColorStops::Fixed(s.evaluate(0.0)) }
    };
    let colour = |on: bool| -> Value<Color> {
        let (a, b) = (Color::new([1.0, 0.25, 0.0, 0.5]), Color::new([0.0, 0.5, 1.0, 1.0]));
        if on { Value::Animated(Animated { times: vec![time(0.0), time(10.0)], values: vec![a, b] }) } else { Value::Fixed(a) }
    };
    let fr = [-1.0, 0.0, 2.5, 5.0, 9.75, 10.0, 30.0];
    for (fi, form) in FORMS.iter().enumerate() {
        x.family(&format!("members of a {form} animated in all combinations"));
        let count = [6, 7, 1, 8, 3, 1, 3][fi];
        for bits in 0..1u32 << count {
            for radial in [false, true] {
                if radial && fi != 6 {
                    continue;
                }
                x.case(|k| {
                    let on = |i: u32| bits >> i & 1 == 1;
                    k.state(&(fi, bits, radial));
                    // (says fixed, says fixed as model, [(value, value of the model, borrowed or owned)])
                    let (a, b, vals): (bool, bool, Vec<(String, String, String)>) = match fi {
                        0 | 1 => {
                            let t = animated::Transform {
                                anchor: p(on(0), 2.0, 3.0),
                                position: if fi == 0 { animated::Position::Value(p(on(1), 9.0, -4.0)) } else { animated::Position::SplitValues((n(on(1), 9.0, 1.0), n(on(6), -4.0, 2.0))) },
                                rotation: n(on(2), 15.0, 75.0),
                                scale: v(on(3), 120.0, 60.0),
                                skew: n(on(4), 5.0, 20.0),
                                skew_angle: n(on(5), 10.0, 50.0),
                            };
                            let m = t.clone().into_model();
                            (t.is_fixed(), m.is_fixed(), fr.iter().map(|f| (format!("{:?}", t.evaluate(*f)), format!("{:?}", m.evaluate(*f).as_ref()), format!("{:?}", m.evaluate(*f).into_owned()))).collect())
                        }
                        2 => {
                            let t = animated::Stroke { width: n(on(0), 2.0, 5.0), join: kurbo::Join::Bevel, miter_limit: Some(3.0), cap: kurbo::Cap::Square };
                            let m = t.clone().into_model();
                            (t.is_fixed(), m.is_fixed(), fr.iter().map(|f| (format!("{:?}", t.evaluate(*f)), format!("{:?}", m.evaluate(*f).as_ref()), format!("{:?}", m.evaluate(*f).into_owned()))).collect())
                        }
                        3 => {
                            let t = animated::Repeater {
                                copies: n(on(0), 2.0, 6.0),
                                offset: n(on(1), 0.0, 1.5),
                                anchor_point: p(on(2), 1.0, 2.0),
                                position: p(on(3), 10.0, 4.0),
                                rotation: n(on(4), 10.0, 40.0),
                                scale: v(on(5), 90.0, 50.0),
                                start_opacity: n(on(6), 100.0, 60.0),
                                end_opacity: n(on(7), 20.0, 80.0),
                            };
                            let m = t.clone().into_model();
                            (t.is_fixed(), m.is_fixed(), fr.iter().map(|f| (format!("{:?}", t.evaluate(*f)), format!("{:?}", m.evaluate(*f).as_ref()), format!("{:?}", m.evaluate(*f).into_owned()))).collect())
                        }
                        4 => {
                            let t = animated::Trim { start: n(on(0), 10.0, 30.0), end: n(on(1), 50.0, 90.0), offset: n(on(2), 0.0, 360.0) };
                            let m = t.clone().into_model();
                            (t.is_fixed(), m.is_fixed(), fr.iter().map(|f| (format!("{:?}", t.evaluate(*f)), format!("{:?}", m.evaluate(*f).as_ref()), format!("{:?}", m.evaluate(*f).into_owned()))).collect())
                        }
                        _ => {
                            let t = if fi == 5 {
                                animated::Brush::Solid(colour(on(0)))
                            } else {
                                animated::Brush::Gradient(animated::Gradient { is_radial: radial, start_point: p(on(0), 1.0, 4.0), end_point: p(on(1), 30.0, 20.0), stops: stops(on(2)) })
                            };
                            let m = t.clone().into_model();
                            for f in fr {
                                for alpha in [1.0, 0.75, 0.5, 0.0, 1e-3, 1.0 - 1e-6, 1.0 + 1e-6, 1.25, 2.0, 30.0] {
                                    k.step(1);
                                    let want = t.evaluate(1.0, f).multiply_alpha(alpha as f32);
                                    for (how, got) in [("the animated brush", t.evaluate(alpha, f)), ("the model's brush", m.evaluate(alpha, f).into_owned())] {
                                        if let Err(e) = brush_eq(&got, &want) {
                                            return fail(
                                                format!("{form}, members {bits:b} animated: opacity {alpha} asked of {how} at frame {f}: {e}"),
                                                json!({"brush": format!("{t:?}"), "observed": format!("{got:?}"), "expected": format!("{want:?}")}),
                                            );
                                        }
                                    }
                                }
                            }
                            (t.is_fixed(), m.is_fixed(), fr.iter().map(|f| (format!("{:?}", t.evaluate(1.0, *f)), format!("{:?}", m.evaluate(1.0, *f).as_ref()), format!("{:?}", m.evaluate(1.0, *f).into_owned()))).collect())
                        }
                    };
                    k.trace();
                    if a != (bits == 0) || b != (bits == 0) {
                        return fail(format!("{form} with members {bits:b} animated says fixed: {a}, as model: {b}"), json!({}));
                    }
                    for (f, (x, y, z)) in fr.iter().zip(vals) {
                        k.step(1);
                        if x != y || y != z {
                            return fail(format!("{form} with members {bits:b} animated, frame {f}: {x}, as model {y}, owned {z}"), json!({}));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    let size = |on: bool, a: f64, b: f64| -> Value<Size> {
        let (a, b) = (Size::new(a, b), Size::new(b, a));
        if on { Value::Animated(Animated { times: vec![time(0.0), time(10.0)], values: vec![a, b] }) } else { Value::Fixed(a) }
    };
    x.family("members of an ellipse or rectangle animated in all combinations");
    for bits in 0..1u32 << 3 {
        for (is_ccw, radius) in [(false, 0.0f64), (false, 2.5), (true, 0.0), (true, 90.0)] {
            x.case(|k| {
                let on = |i: u32| bits >> i & 1 == 1;
                k.state(&("ellipse", is_ccw, radius.to_bits(), bits));
                k.trace();
                let e = animated::Ellipse { is_ccw, position: p(on(0), 4.0, 9.0), size: size(on(1), 12.0, 30.0) };
                let r = animated::Rect { is_ccw, position: p(on(0), 4.0, 9.0), size: size(on(1), 12.0, 30.0), corner_radius: n(on(2), radius, 1.5) };
                if e.is_fixed() != (bits & 3 == 0) || r.is_fixed() != (bits == 0) {
                    return fail(format!("with members {bits:b} animated, the ellipse says fixed: {}, the rectangle: {}", e.is_fixed(), r.is_fixed()), json!({}));
                }
                for f in fr {
                    k.step(1);
                    let (pos, size) = (e.position.evaluate(f), e.size.evaluate(f));
                    let want = kurbo::Rect::from_center_size(pos, size);
                    // evaluation appends to the path it is given
                    let start = vec![PathEl::MoveTo(Point::new(7.0, 7.0)), PathEl::LineTo(Point::new(8.0, 7.0))];
                    for (what, alone, model) in [
                        ("ellipse", kurbo::Shape::bounding_box(&e.evaluate(f)), Geometry::Ellipse(e.clone())),
                        ("rectangle", kurbo::Shape::bounding_box(&r.evaluate(f)), Geometry::Rect(r.clone())),
                    ] {
                        let mut path = start.clone();
                        model.evaluate(f, &mut path);
                        let mut once = vec![];
                        model.evaluate(f, &mut once);
                        let b = kurbo::Shape::bounding_box(&kurbo::BezPath::from_vec(once.clone()));
                        let near = |a: kurbo::Rect| [a.x0 - want.x0, a.y0 - want.y0, a.x1 - want.x1, a.y1 - want.y1].iter().all(|d| d.abs() < 0.02);
                        if path[..2] != start[..] || path[2..] != once[..] || !near(alone) || !near(b) {
                            return fail(format!("{what} with members {bits:b} animated, frame {f}: {path:?}, alone {once:?}, box {alone:?}"), json!({"expected box": format!("{want:?}")}));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    x.family("fixed paths appended to a path");
    for have in 0..6 {
        for len in 0..8 {
            x.case(|k| {
                let el = |i: usize| if i == 0 { PathEl::MoveTo(Point::new(1.0, 2.0)) } else { PathEl::LineTo(Point::new(i as f64, 3.0)) };
                let fixed: Vec<PathEl> = (0..len).map(el).collect();
                let start: Vec<PathEl> = (0..have).map(|i| if i == 0 { PathEl::MoveTo(Point::new(-1.0, -2.0)) } else { PathEl::LineTo(Point::new(-(i as f64), 5.0)) }).collect();
                let mut path = start.clone();
                Geometry::Fixed(fixed.clone()).evaluate(3.0, &mut path);
                k.state(&("append", have, len));
                k.trace();
                k.step(1);
                if path != [start, fixed].concat() {
                    return fail(format!("a fixed path of {len} elements evaluated into one of {have} gives {path:?}"), json!({}));
                }
                Ok(())
            });
        }
    }
    x.family("members of a star or polygon animated in all combinations");
    for is_polygon in [false, true] {
        for bits in 0..1u32 << 7 {
            x.case(|k| {
                let on = |i: u32| bits >> i & 1 == 1;
                k.state(&("star", is_polygon, bits));
                k.trace();
                let s = animated::Star {
                    is_polygon,
                    direction: 1.0,
                    position: p(on(0), 4.0, 9.0),
                    inner_radius: n(on(1), 5.0, 8.0),
                    inner_roundness: n(on(2), 0.0, 40.0),
                    outer_radius: n(on(3), 20.0, 12.0),
                    outer_roundness: n(on(4), 10.0, 0.0),
                    rotation: n(on(5), 0.0, 45.0),
                    points: n(on(6), 5.0, 9.0),
                };
                let g = s.clone().into_model();
                if (bits == 0) != matches!(g, Geometry::Fixed(_)) && !is_polygon {
                    return fail(format!("star with members {bits:b} animated becomes {g:?}"), json!({}));
                }
                for f in fr {
                    k.step(1);
                    // evaluation appends to the path it is given
                    let start = vec![PathEl::MoveTo(Point::new(7.0, 7.0)), PathEl::LineTo(Point::new(8.0, 7.0))];
                    let (mut a, mut b) = (start.clone(), start);
                    s.evaluate(f, &mut a);
                    g.evaluate(f, &mut b);
                    if a != b || a.len() < 4 || a[0] != PathEl::MoveTo(Point::new(7.0, 7.0)) {
                        return fail(format!("star with members {bits:b} animated, frame {f}: {a:?}, as model {b:?}"), json!({}));
                    }
                }
                Ok(())
            });
        }
    }
}
