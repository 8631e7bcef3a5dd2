//! Compositions edited by hand through the public model (C28).
use super::model::{Slot, slots};
use crate::check::*;
use crate::corpus;
use serde_json::json;
use crate::rec::*;
use crate::run::*;
use kurbo::{Affine, PathEl, Point, Vec2};
use velato::Composition;
use velato::model::*;

type Fl<'a> = &'a mut dyn FnMut(&mut f64);

fn times(list: &mut [Time], f: Fl) {
    for t in list {
        f(&mut t.frame);
        for h in [&mut t.in_tangent, &mut t.out_tangent].into_iter().flatten() {
            f(&mut h.x);
            f(&mut h.y);
        }
    }
}
fn value<T: Tween>(v: &mut Value<T>, g: impl Fn(&mut T, Fl), f: Fl) {
    match v {
        Value::Fixed(x) => g(x, f),
        Value::Animated(a) => {
            times(&mut a.times, f);
            for x in &mut a.values {
                g(x, f);
            }
        }
    }
}
fn point(p: &mut Point, f: Fl) {
    f(&mut p.x);
    f(&mut p.y);
}
fn vector(p: &mut Vec2, f: Fl) {
    f(&mut p.x);
    f(&mut p.y);
}
fn single(x: &mut f32, f: Fl) {
    let mut v = *x as f64;
    f(&mut v);
    *x = v as f32;
}
/// Every number a slot holds itself (those of its members come on their own).
fn numbers_in(s: Slot<'_>, f: Fl) {
    match s {
        Slot::N(v) => value(v, |x, f| f(x), f),
        Slot::P(v) => value(v, point, f),
        Slot::V(v) => value(v, vector, f),
        Slot::S(v) => value(
            v,
            |s, f| {
                f(&mut s.width);
                f(&mut s.height);
            },
            f,
        ),
        Slot::C(v) => value(v, |c, f| c.components.iter_mut().for_each(|x| single(x, f)), f),
        Slot::Transform(Transform::Fixed(m)) => {
            let mut c = m.as_coeffs();
            c.iter_mut().for_each(|x| f(x));
            *m = Affine::new(c);
        }
        Slot::Stroke(Stroke::Fixed(k)) => {
            f(&mut k.width);
            f(&mut k.miter_limit);
        }
        Slot::Stroke(Stroke::Animated(k)) => k.miter_limit.iter_mut().for_each(|x| f(x)),
        Slot::Repeater(Repeater::Fixed(r)) => {
            f(&mut r.offset);
            point(&mut r.anchor_point, f);
            point(&mut r.position, f);
            f(&mut r.rotation);
            vector(&mut r.scale, f);
            f(&mut r.start_opacity);
            f(&mut r.end_opacity);
        }
        Slot::Stops(ColorStops::Animated(s)) => {
            times(&mut s.frames, f);
            s.values.iter_mut().flatten().for_each(|x| f(x));
        }
        Slot::Stops(ColorStops::Fixed(s)) => s.iter_mut().for_each(|s| single(&mut s.offset, f)),
        Slot::Brush(Brush::Fixed(peniko::Brush::Solid(c))) => c.components.iter_mut().for_each(|x| single(x, f)),
        Slot::Geometry(Geometry::Fixed(p)) => {
            for e in p {
                match e {
                    PathEl::MoveTo(a) | PathEl::LineTo(a) => point(a, f),
                    PathEl::QuadTo(a, b) => {
                        point(a, f);
                        point(b, f);
                    }
                    PathEl::CurveTo(a, b, c) => {
                        point(a, f);
                        point(b, f);
                        point(c, f);
                    }
                    PathEl::ClosePath => {}
                }
            }
        }
        Slot::Geometry(Geometry::Spline(s)) => {
            times(&mut s.times, f);
            for v in &mut s.values {
                v.start.iter_mut().for_each(|p| point(p, f));
                v.end.iter_mut().flatten().for_each(|p| point(p, f));
            }
        }
        Slot::Geometry(Geometry::Star(s)) => f(&mut s.direction),
        Slot::Trim(Trim::Fixed(t)) => {
            f(&mut t.start);
            f(&mut t.end);
            f(&mut t.offset);
        }
        _ => {}
    }
}
fn lists(c: &mut Composition) -> Vec<(String, &mut Vec<Layer>)> {
    let Composition { layers, assets, .. } = c;
    let mut out: Vec<(String, &mut Vec<Layer>)> = assets.iter_mut().map(|(k, v)| (format!("asset {k}"), v)).collect();
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out.insert(0, ("layers".into(), layers));
    out
}
fn numbers(c: &mut Composition, f: &mut dyn FnMut(usize, &mut f64, &str)) {
    let mut n = 0;
    slots(c, &mut |_, _, s, at| {
        numbers_in(s, &mut |x| {
            f(n, x, at);
            // a number of copies asks for that many copies
            if at.ends_with(".copies") && *x > 100.0 {
                *x = 100.0;
            }
            n += 1;
        });
    });
    for (at, l) in lists(c) {
        for (i, l) in l.iter_mut().enumerate() {
            for (what, x) in [
                ("width", &mut l.width),
                ("height", &mut l.height),
                ("stretch", &mut l.stretch),
                ("start frame", &mut l.start_frame),
                ("first frame", &mut l.frames.start),
                ("end frame", &mut l.frames.end),
            ] {
                f(n, x, &format!("{what} of {at} {i}"));
                n += 1;
            }
        }
    }
}

const CUTS: usize = 7;
/// Forms from `CUTS` on shorten one inner list to one length.
const FORMS: usize = CUTS + 3 * 24;
fn cut_animated<T: Tween>(v: &mut Value<T>, form: usize) -> bool {
    let Value::Animated(a) = v else { return false };
    match form {
        0 => a.times.clear(),
        1 => a.values.clear(),
        2 => a.times.truncate(1),
        3 => a.values.truncate(1),
        4 => a.times.reverse(),
        5 => {
            let t = a.times[0];
            a.times.iter_mut().for_each(|x| *x = t);
        }
        6 => {
            let t = a.times[a.times.len() - 1];
            a.times.extend([t, t, Time { frame: t.frame - 100.0, ..t }]);
        }
        CUTS => drop(a.values.pop()),
        8 => drop(a.times.pop()),
        9 => drop(a.times.remove(0)),
        10 => drop(a.values.remove(0)),
        11 => a.values.push(a.values[0].clone()),
        _ => return false,
    }
    true
}
/// The list among three and the length that a form asks for.
fn shorter(form: usize) -> (usize, usize) {
    ((form - CUTS) % 3, (form - CUTS) / 3)
}
fn shorten<T>(l: &mut Vec<T>, len: usize) -> bool {
    let shorter = len < l.len();
    l.truncate(len);
    shorter
}
/// Lists of keyframes, values and points made longer, shorter or unordered.
fn cut(s: Slot<'_>, form: usize) -> bool {
    match s {
        Slot::N(v) => cut_animated(v, form),
        Slot::P(v) => cut_animated(v, form),
        Slot::V(v) => cut_animated(v, form),
        Slot::S(v) => cut_animated(v, form),
        Slot::C(v) => cut_animated(v, form),
        Slot::Stops(ColorStops::Fixed(s)) => match form {
            0 => {
                *s = Default::default();
                true
            }
            _ => false,
        },
        Slot::Stops(ColorStops::Animated(s)) => {
            let end = s.values.len() - 1;
            match form {
                0 => s.frames.clear(),
                1 => s.values.clear(),
                2 => s.count = 0,
                3 => s.count = usize::MAX,
                4 => s.values[0].truncate(3),
                5 => s.values.iter_mut().for_each(Vec::clear),
                6 => s.frames.reverse(),
                _ => {
                    return match shorter(form) {
                        (2, extra) => {
                            s.count += extra + 1;
                            extra < 3
                        }
                        (which, len) => shorten(&mut s.values[which * end.min(1)], len),
                    };
                }
            }
            true
        }
        Slot::Geometry(Geometry::Fixed(p)) => match form {
            0 => {
                p.clear();
                true
            }
            1 | 2 => {
                p.truncate(form);
                true
            }
            3 => {
                let q = p.clone();
                p.extend(q);
                true
            }
            4 if !p.is_empty() => {
                p.push(PathEl::ClosePath);
                p.push(PathEl::ClosePath);
                true
            }
            5 if !p.is_empty() => {
                let first = p[0];
                p.extend([first, first]);
                true
            }
            _ => false,
        },
        Slot::Geometry(Geometry::Spline(s)) => {
            match form {
                0 => s.times.clear(),
                1 => s.values.clear(),
                2 => s.values[0].start.clear(),
                3 => s.values[0].start.truncate(4),
                4 => {
                    s.values[0].end = Some(vec![Point::ZERO]);
                    s.is_closed = !s.is_closed;
                }
                5 => s.values.iter_mut().for_each(|v| v.start.truncate(2)),
                6 => s.times.reverse(),
                _ => {
                    let v = &mut s.values;
                    let (which, len) = shorter(form);
                    return match which {
                        2 => {
                            let first = &mut v[0];
                            let mut list = first.start.clone();
                            let cut = shorten(&mut list, len);
                            first.end = Some(list);
                            cut
                        }
                        _ => {
                            let i = which.min(v.len() - 1);
                            shorten(&mut v[i].start, len)
                        }
                    };
                }
            }
            true
        }
        _ => false,
    }
}

type Edit = Box<dyn Fn(&mut Composition)>;
fn shape_lists(c: &mut Composition, f: &mut dyn FnMut(usize, &mut Vec<Shape>)) {
    fn go(l: &mut Vec<Shape>, n: &mut usize, f: &mut dyn FnMut(usize, &mut Vec<Shape>)) {
        for s in l.iter_mut() {
            if let Shape::Group(l, _) = s {
                go(l, n, f);
            }
        }
        f(*n, l);
        *n += 1;
    }
    let mut n = 0;
    for (_, l) in lists(c) {
        for l in l {
            if let Content::Shape(s) = &mut l.content {
                go(s, &mut n, f);
            }
        }
    }
}
/// Edits of the references between layers and of the lists of layers and shapes.
fn edits(c: &Composition) -> Vec<(String, Edit)> {
    let mut out: Vec<(String, Edit)> = vec![];
    let mut c2 = c.clone();
    let ids: Vec<String> = c.assets.keys().cloned().chain(["missing".to_string()]).collect();
    let sizes: Vec<usize> = lists(&mut c2).iter().map(|l| l.1.len()).collect();
    for (li, len) in sizes.iter().copied().enumerate() {
        for i in 0..len {
            let mut add = |what: String, f: Box<dyn Fn(&mut Layer)>| {
                out.push((format!("list {li} layer {i}: {what}"), Box::new(move |c: &mut Composition| f(&mut lists(c)[li].1[i]))));
            };
            for to in (0..=len).map(Some).chain([None, Some(usize::MAX)]) {
                add(format!("parent {to:?}"), Box::new(move |l| l.parent = to));
                for blend in [peniko::BlendMode::default(), peniko::Compose::SrcIn.into()] {
                    add(format!("matte {to:?}"), Box::new(move |l| l.mask_layer = to.map(|t| (blend, t))));
                }
            }
            add("is_mask".into(), Box::new(|l| l.is_mask = !l.is_mask));
            for id in &ids {
                let id = id.clone();
                add(
                    format!("content {id}"),
                    Box::new(move |l| l.content = Content::Instance { name: id.clone(), time_remap: Some(Value::Fixed(f64::NAN)) }),
                );
            }
            add("no content".into(), Box::new(|l| l.content = Content::None));
            add("no shapes".into(), Box::new(|l| l.content = Content::Shape(vec![])));
            add("default".into(), Box::new(|l| *l = Layer::default()));
            add(
                "empty mask".into(),
                Box::new(|l| l.masks.push(Mask { mode: Default::default(), geometry: Geometry::Fixed(vec![]), opacity: Value::Fixed(f64::NAN) })),
            );
            out.push((format!("list {li}: without {i}"), Box::new(move |c| drop(lists(c)[li].1.remove(i)))));
            out.push((
                format!("list {li}: {i} twice"),
                Box::new(move |c| {
                    let mut l = lists(c);
                    let x = l[li].1[i].clone();
                    l[li].1.insert(0, x);
                }),
            ));
        }
        out.push((format!("list {li}: emptied"), Box::new(move |c| lists(c)[li].1.clear())));
        out.push((format!("list {li}: reversed"), Box::new(move |c| lists(c)[li].1.reverse())));
    }
    for id in ids {
        out.push((
            format!("{id} holds the top-level list"),
            Box::new(move |c| {
                let l = c.layers.clone();
                c.assets.insert(id.clone(), l);
            }),
        ));
    }
    let mut lens = vec![];
    shape_lists(&mut c2, &mut |_, l| lens.push(l.len()));
    for (li, len) in lens.into_iter().enumerate() {
        let mut add = |what: String, f: Box<dyn Fn(&mut Vec<Shape>)>| {
            out.push((
                format!("shape list {li}: {what}"),
                Box::new(move |c: &mut Composition| {
                    shape_lists(c, &mut |n, l| {
                        if n == li {
                            f(l)
                        }
                    })
                }),
            ));
        };
        add("emptied".into(), Box::new(Vec::clear));
        add("reversed".into(), Box::new(|l| l.reverse()));
        add(
            "doubled".into(),
            Box::new(|l| {
                let m = l.clone();
                l.extend(m);
            }),
        );
        add(
            "wrapped in itself".into(),
            Box::new(|l| {
                for _ in 0..3 {
                    let m = l.clone();
                    l.insert(0, Shape::Group(m, None));
                }
            }),
        );
        for i in 0..len {
            add(format!("without {i}"), Box::new(move |l| drop(l.remove(i))));
        }
        for i in 0..=len {
            for copies in [0, 1, 5] {
                add(
                    format!("{copies} copies at {i}"),
                    Box::new(move |l| {
                        l.insert(
                            i,
                            Shape::Repeater(Repeater::Fixed(fixed::Repeater {
                                copies,
                                offset: -1.5,
                                anchor_point: Point::new(1.0, 2.0),
                                position: Point::new(-3.0, 4.0),
                                rotation: 400.0,
                                scale: Vec2::new(0.0, -10.0),
                                start_opacity: -20.0,
                                end_opacity: 300.0,
                            })),
                        )
                    }),
                );
            }
            for t in [(0.0, 0.0, 0.0), (80.0, 20.0, 1e9), (f64::NAN, 50.0, 0.0), (0.0, f64::INFINITY, 3.0), (-50.0, 20.0, f64::NAN)] {
                add(
                    format!("trim {t:?} at {i}"),
                    Box::new(move |l| l.insert(i, Shape::Trim(Trim::Fixed(fixed::Trim { start: t.0, end: t.1, offset: t.2 })))),
                );
            }
            add(format!("empty group at {i}"), Box::new(move |l| l.insert(i, Shape::Group(vec![], None))));
        }
    }
    out
}

fn survives(k: &mut Cov, name: &str, what: &str, c: &Composition, frames: &[f64]) -> R {
    if std::env::var_os("MC_TELL").is_some() {
        eprintln!("[{name}] {what}");
    }
    for &f in frames {
        let data = || json!({"document": name, "edit": what, "frame": f});
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render(c, f))).map_err(|p| Fail { msg: format!("[{name}] {what}, frame {f}: panic: {} at {}", panic_text(&p), last_panic()), data: data() })?;
        k.state(&(name, what, f.to_bits()));
        k.step(got.len());
        k.trace();
        balanced(&got, c.width as f64, c.height as f64, Affine::IDENTITY).map_err(|e| Fail { msg: format!("[{name}] {what}, frame {f}: {e}"), data: data() })?;
    }
    Ok(())
}

pub fn c28(x: &mut X) {
    let values = [f64::NAN, f64::INFINITY, -1e300, 0.0, -1.0, f64::NEG_INFINITY, 1e300, 1e-320, 1e10, -7.5e4, f64::MAX, 100.0];
    let frames = [0.0, 7.25, 41.0];
    let x_all = x.tier_thorough;
    let odd = [-4.0, 0.0, 7.25, 20.0, 99.99, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -0.0];
    let mut docs: Vec<(String, serde_json::Value)> = corpus::docs();
    docs.extend(corpus::assets());
    docs.push(("opacity stops".into(), super::keys::opacity_stops()));
    docs.extend(super::keys::elements().into_iter().map(|(n, d)| (n.to_string(), d)));
    for (name, d) in &docs {
        for variant in 0..3 {
            let repeated = variant != 0;
            let Ok(c) = parse(d) else { continue };
            let c = match variant {
                0 => c,
                1 => super::model::repeated(c),
                _ => super::model::repeated_moving(c),
            };
            let name = &format!("{name}{}", ["", ", repeated", ", repeated by a moving repeater"][variant]);

            x.family("frames that are no numbers");
            x.case(|k| survives(k, name, "unedited", &c, &odd));

            x.family("one number replaced");
            let mut n = 0;
            numbers(&mut c.clone(), &mut |_, _, _| n += 1);
            for i in 0..n {
                if !x.tier_thorough && repeated && i % 4 != 0 {
                    continue;
                }
                x.case(|k| {
                    for v in if x_all { &values[..] } else { &values[..6] }.iter().copied() {
                        let mut z = c.clone();
                        let mut what = String::new();
                        numbers(&mut z, &mut |j, x, at| {
                            if i == j {
                                what = format!("number {i} ({at}) is {v}");
                                *x = v;
                            }
                        });
                        survives(k, name, &what, &z, if x_all { &frames } else { &frames[1..2] })?;
                    }
                    Ok(())
                });
            }
            x.family("all numbers of one element replaced");
            let mut names: Vec<String> = vec![];
            numbers(&mut c.clone(), &mut |_, _, at| {
                if names.last().is_none_or(|l| l != at) {
                    names.push(at.into());
                }
            });
            for el in &names {
                x.case(|k| {
                    for v in values {
                        let mut z = c.clone();
                        numbers(&mut z, &mut |_, x, at| {
                            if at == el {
                                *x = v;
                            }
                        });
                        survives(k, name, &format!("all numbers of {el} are {v}"), &z, &frames)?;
                    }
                    Ok(())
                });
            }
            x.family("all numbers replaced");
            for v in values {
                x.case(|k| {
                    let mut z = c.clone();
                    numbers(&mut z, &mut |_, x, at| {
                        if !at.contains(" frame of ") {
                            *x = v;
                        }
                    });
                    survives(k, name, &format!("all numbers are {v}"), &z, &odd)
                });
            }
            x.family("lists of keyframes, values and points cut");
            let mut n = 0;
            slots(&mut c.clone(), &mut |i, _, _, _| n = i + 1);
            for form in 0..FORMS {
                for i in 0..=n {
                    let mut z = c.clone();
                    let mut what = String::new();
                    let mut done = false;
                    slots(&mut z, &mut |j, _, s, at| {
                        if (i == j || i == n) && cut(s, form) {
                            done = true;
                            what = format!("lists of {at} cut, form {form}");
                        }
                    });
                    if done {
                        x.case(|k| survives(k, name, &what, &z, if form < CUTS || x_all { &odd } else { &frames }));
                    }
                }
            }
            x.family("one structural edit");
            let es = if variant == 2 && !x.tier_thorough { vec![] } else { edits(&c) };
            for (what, e) in &es {
                x.case(|k| {
                    let mut z = c.clone();
                    e(&mut z);
                    survives(k, name, what, &z, &odd)
                });
            }
            if !repeated && (x.tier_thorough || es.len() < 160) {
                x.family("two structural edits");
                for (i, (a, e)) in es.iter().enumerate() {
                    x.case(|k| {
                        let mut y = c.clone();
                        e(&mut y);
                        // edits of the edited composition, by position in its own list
                        for (b, g) in edits(&y).iter().skip(i % 3).step_by(if es.len() > 400 { 9 } else { 1 }) {
                            let mut z = y.clone();
                            g(&mut z);
                            survives(k, name, &format!("{a}; {b}"), &z, &[7.25])?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
