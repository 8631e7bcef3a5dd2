//! Repeaters exist only in the public model; documents cannot express them.
use super::shapes::{T, forests, items};
use crate::check::*;
use crate::doc::*;
use crate::rec::*;
use crate::run::*;
use crate::spec::Spec;
use kurbo::{Affine, Point, Vec2};
use velato::model::{self, animated, fixed};

fn model_of(v: &Value, anim: bool) -> model::Shape {
    let parse_one = |s: Value| -> model::Shape {
        let c: velato::Composition = doc(vec![shape(1, vec![s])], vec![]).to_string().parse().unwrap();
        match c.layers.into_iter().next().unwrap().content {
            model::Content::Shape(mut s) if s.len() == 1 => s.pop().unwrap(),
            c => panic!("{c:?}"),
        }
    };
    match v["ty"].as_str().unwrap() {
        "gr" => {
            let its = v["it"].as_array().unwrap();
            let shapes = its.iter().filter(|i| i["ty"] != "tr").map(|i| model_of(i, anim)).collect();
            let tr = its.iter().find(|i| i["ty"] == "tr").map(|t| {
                match parse_one(group(vec![rect(0.0, 0.0, 1.0, 1.0), t.clone()])) {
                    model::Shape::Group(_, Some(t)) => t,
                    s => panic!("{s:?}"),
                }
            });
            model::Shape::Group(shapes, tr)
        }
        "rp" => {
            let t = &v["tr"];
            let r = animated::Repeater {
                copies: value(&v["c"], anim, |p| p[0]),
                offset: value(&v["o"], false, |p| p[0]),
                anchor_point: value(&t["a"], false, |p| Point::new(p[0], p[1])),
                position: value(&t["p"], false, |p| Point::new(p[0], p[1])),
                rotation: value(&t["r"], anim, |p| p[0]),
                scale: value(&t["s"], false, |p| Vec2::new(p[0], p[1])),
                start_opacity: value(&t["so"], anim, |p| p[0]),
                end_opacity: value(&t["eo"], false, |p| p[0]),
            };
            let animated = anim || [&v["c"], &v["o"], &t["a"], &t["p"], &t["r"], &t["s"], &t["so"], &t["eo"]].iter().any(|p| p["a"] == 1);
            if animated {
                return model::Shape::Repeater(r.into_model());
            }
            model::Shape::Repeater(model::Repeater::Fixed(fixed::Repeater {
                copies: r.copies.evaluate(0.0).round() as usize,
                offset: r.offset.evaluate(0.0),
                anchor_point: r.anchor_point.evaluate(0.0),
                position: r.position.evaluate(0.0),
                rotation: r.rotation.evaluate(0.0),
                scale: r.scale.evaluate(0.0),
                start_opacity: r.start_opacity.evaluate(0.0),
                end_opacity: r.end_opacity.evaluate(0.0),
            }))
        }
        _ => parse_one(v.clone()),
    }
}

/// A model value from a document property; `keyed` turns a constant into
/// keyframes that hold it.
fn value<T: Copy + model::Tween>(p: &Value, keyed: bool, f: impl Fn(&[f64]) -> T) -> model::Value<T> {
    let nums = |v: &Value| -> Vec<f64> { v.as_array().map_or_else(|| vec![v.as_f64().unwrap()], |a| a.iter().map(|x| x.as_f64().unwrap()).collect()) };
    let time = |frame| model::Time {
        frame,
        in_tangent: None,
        out_tangent: None,
        hold: false,
    };
    if p["a"] == 1 {
        let keys = p["k"].as_array().unwrap();
        return model::Value::Animated(model::Animated {
            times: keys.iter().map(|k| time(k["t"].as_f64().unwrap())).collect(),
            values: keys.iter().map(|k| f(&nums(&k["s"]))).collect(),
        });
    }
    let x = f(&nums(&p["k"]));
    if !keyed {
        return model::Value::Fixed(x);
    }
    model::Value::Animated(model::Animated {
        times: vec![time(0.0), time(10.0)],
        values: vec![x, x],
    })
}

pub fn conform_model(k: &mut Cov, shapes: &[Value], anim: bool) -> R {
    let d = doc(vec![set(shape(1, shapes.to_vec()), "ks", super::layers::odd_ks(1)), marked(2, 3)], vec![]);
    // the frame of the composition comes from a document without repeaters
    let plain = set(d.clone(), "layers/0/shapes", json!(mark(1)));
    let mut c = parse(&plain)?;
    c.layers[0].content = model::Content::Shape(shapes.iter().map(|s| model_of(s, anim)).collect());
    conform_composition(k, &d, &c, &[0.0, 4.0], anim)
}
fn conform_composition(k: &mut Cov, d: &Value, c: &velato::Composition, frames: &[f64], anim: bool) -> R {
    let spec = Spec::new(d);
    for &f in frames {
        let got = render(c, f);
        let want = spec.render(f, Affine::IDENTITY, 1.0);
        k.state(&(d.to_string(), f.to_bits(), anim));
        k.step(want.len());
        k.trace();
        trace_eq(&got, &want).map_err(|e| differ(e, d, f, &got, &want))?;
    }
    Ok(())
}

pub fn c22(x: &mut X) {
    x.family("repeater parameters");
    product(&[5, 4, 3, 3, 3, 3, 3], |c| {
        let make = || {
            let rp = json!({"ty": "rp", "c": st(json!([0.0, 1.0, 2.0, 3.0, 3.5][c[0]])), "o": st(json!([0.0, 1.0, -2.0, 0.5][c[1]])),
                "tr": {"p": st([json!([0, 0]), json!([10, 5]), json!([-3, 0.5])][c[2]].clone()),
                    "a": st([json!([0, 0]), json!([4, 4]), json!([-1, 9])][c[3]].clone()),
                    "s": st([json!([100, 100]), json!([90, 110]), json!([50, 100])][c[4]].clone()),
                    "r": st(json!([0.0, 30.0, -90.0][c[5]])),
                    "so": st(json!([100, 50, 0][c[6]])), "eo": st(json!([100, 0, 80][c[6]]))}});
            vec![
                rect(1.0, 2.0, 3.0, 4.0),
                fill(0.1, 0.2, 0.3),
                ell(9.0, 9.0, 2.0, 2.0),
                stroke(0.3, 0.2, 0.1, 1.0),
                rp,
                rect(20.0, 20.0, 2.0, 2.0),
                fill(0.9, 0.9, 0.9),
            ]
        };
        x.sample(|| json!(make()));
        x.case(|k| conform_model(k, &make(), c.iter().sum::<usize>() % 2 == 1));
    });
    x.family("repeater in every position of a tree");
    forests(&[T::Rect, T::Fill, T::Rep], &[0, 1], x.pick(6, 7), &mut |ts| {
        let n = ts.iter().filter(|t| **t == T::Rep).count();
        if n == 0 || n > 3 || !ts.contains(&T::Rect) || !ts.contains(&T::Fill) {
            return;
        }
        // empty groups disappear on import; the public model keeps them
        let make = || items(ts);
        x.sample(|| json!(make()));
        x.case(|k| conform_model(k, &make(), ts.len() % 2 == 1));
    });
    x.family("repeaters with trims and strokes");
    forests(&[T::Poly, T::Stroke, T::Rep, T::Trim], &[1], x.pick(5, 6), &mut |ts| {
        if !ts.contains(&T::Rep) || !ts.contains(&T::Poly) || !ts.contains(&T::Stroke) || !ts.contains(&T::Trim) {
            return;
        }
        let make = || items(ts);
        x.sample(|| json!(make()));
        x.case(|k| conform_model(k, &make(), false));
    });
    x.family("copy counts");
    for n in (0..x.pick(40, 120usize)).chain([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 513, 1000, 1025]).chain(x.pick(vec![], vec![2049, 4097, 8193])) {
        x.case(|k| {
            let mut v = items(&[T::Rect, T::Fill, T::Open(1), T::Poly, T::Stroke, T::Close, T::Rep, T::Rect, T::Fill]);
            v[3]["c"] = st(json!(n));
            v[3]["tr"]["s"] = st(json!([100, 100]));
            conform_model(k, &v, n % 2 == 0)
        });
    }
    x.family("animated parameters, every subset");
    for set_of in 0..256usize {
        for easing in 0..x.pick(2, 4usize) {
            let make = || {
                let v = |bit: usize, a: Value, b: Value| -> Value {
                    if set_of >> bit & 1 == 0 {
                        return st(a);
                    }
                    match easing {
                        0 => kf(&[(2.0, a), (10.0, b)]),
                        1 => kf(&[(bit as f64 * 0.5, b.clone()), (4.5, a.clone()), (12.0 - bit as f64, b)]),
                        2 => kf(&[(7.0, b)]),
                        _ => kf(&[(10.0, a.clone()), (10.5, b), (30.0, a)]),
                    }
                };
                let rp = json!({"ty": "rp", "c": v(0, json!(2), json!(5)), "o": v(1, json!(0), json!(1.5)), "tr": {
                    "p": v(2, json!([10, 5]), json!([-3, 0.5])), "a": v(3, json!([4, 4]), json!([-1, 9])),
                    "s": v(4, json!([90, 110]), json!([50, 100])), "r": v(5, json!(30), json!(-90)),
                    "so": v(6, json!(100), json!(40)), "eo": v(7, json!(10), json!(80))}});
                vec![rect(1.0, 2.0, 3.0, 4.0), fill(0.1, 0.2, 0.3), rp, rect(20.0, 20.0, 2.0, 2.0), stroke(0.9, 0.9, 0.9, 1.0)]
            };
            x.sample(|| json!(make()));
            x.case(|k| {
                let shapes = make();
                let d = doc(vec![set(shape(1, shapes.clone()), "ks", super::layers::odd_ks(1)), marked(2, 3)], vec![]);
                let mut c = parse(&set(d.clone(), "layers/0/shapes", json!(mark(1))))?;
                c.layers[0].content = model::Content::Shape(shapes.iter().map(|s| model_of(s, false)).collect());
                conform_composition(k, &d, &c, &[0.0, 3.0, 5.0, 7.5, 10.0, 12.0, 40.0], false)
            });
        }
    }
    x.family("repeaters on several layers and in a precomposition");
    let trees = [
        vec![T::Rect, T::Fill, T::Rep],
        vec![T::Open(1), T::Rect, T::Rep, T::Close, T::Stroke, T::Rep],
        vec![T::Rect, T::Fill, T::Rep, T::Rect, T::Rep, T::Stroke],
        vec![T::Rep, T::Rect, T::Fill],
    ];
    for a in &trees {
        for b in &trees {
            for c in &trees {
                x.case(|k| {
                    let lists = [items(a), items(b), items(c)];
                    let d = |l: [Vec<Value>; 3]| {
                        let [a, b, c] = l;
                        let mut late = inst(2, "pc");
                        late["st"] = json!(2);
                        doc(vec![set(shape(1, a), "ks", super::layers::anim_ks(1)), late, shape(3, b)], vec![asset("pc", vec![set(shape(1, c), "ks", super::layers::anim_ks(2)), marked(2, 4)])])
                    };
                    let full = d(lists.clone());
                    let mut comp = parse(&d([mark(1), mark(1), mark(1)]))?;
                    let content = |s: &Vec<Value>| model::Content::Shape(s.iter().map(|s| model_of(s, false)).collect());
                    comp.layers[0].content = content(&lists[0]);
                    comp.layers[2].content = content(&lists[1]);
                    comp.assets.get_mut("pc").unwrap()[0].content = content(&lists[2]);
                    conform_composition(k, &full, &comp, &[0.0, 4.0, 9.0], false)
                });
            }
        }
    }
}
