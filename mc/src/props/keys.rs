//! Keyframed values (C15) and independence of animated properties (C16).
use crate::check::*;
use crate::corpus;
use crate::doc::*;
use crate::run::*;
use crate::spec;

#[derive(Clone, Copy)]
enum Kind {
    Num(f64, f64),
    V2([f64; 2], [f64; 2]),
    Rgb,
    Path(bool),
    Stops,
}
const MIX: [f64; 8] = [0.0, 1.0, 0.35, 0.8, 0.1, 0.55, 0.95, 0.2];

/// The n-th keyframe value of a kind (the JSON of `s`).
fn val(k: Kind, n: usize) -> Value {
    let m = MIX[n % 8];
    let m2 = MIX[(n + 3) % 8];
    match k {
        Kind::Num(a, b) => json!([a + (b - a) * m]),
        Kind::V2(a, b) => json!([a[0] + (b[0] - a[0]) * m, a[1] + (b[1] - a[1]) * m2]),
        Kind::Rgb => json!([0.4 + 0.2 * m, 0.6 - 0.2 * m2, 0.45 + 0.1 * m, 1]),
        Kind::Path(c) => json!([bez(
            &[[m * 10.0, 0.0], [20.0, m2 * 7.0], [5.0 + m, 15.0 - m2]],
            &[[-m, 1.0], [m2, -2.0], [0.5, 0.25 + m]],
            &[[m2, 0.0], [0.0, 2.0 * m], [-1.0, m]],
            c
        )]),
        Kind::Stops => json!([0.1 + 0.1 * m, 0.4 + 0.2 * m, 0.5, 0.6 - 0.2 * m2, 0.7 + 0.1 * m2, 0.5, 0.4 + 0.1 * m, 0.3]),
    }
}

fn one(shapes: Vec<Value>) -> Value {
    doc(vec![shape(1, shapes)], vec![])
}
fn f1() -> Value {
    fill(0.2, 0.4, 0.6)
}
/// Every animatable slot: name, document around a value for it, kind of value.
#[allow(clippy::type_complexity)]
fn slots() -> Vec<(&'static str, Box<dyn Fn(Value) -> Value>, Kind)> {
    let mut out: Vec<(&'static str, Box<dyn Fn(Value) -> Value>, Kind)> = vec![];
    let v2 = Kind::V2([3.0, 20.0], [30.0, 11.0]);
    let pct = Kind::Num(40.0, 60.0);
    for (name, key, kind) in [
        ("layer anchor", "a", v2),
        ("layer position", "p", v2),
        ("layer scale", "s", Kind::V2([80.0, 120.0], [150.0, 60.0])),
        ("layer rotation", "r", Kind::Num(-20.0, 130.0)),
        ("layer skew", "sk", Kind::Num(5.0, 30.0)),
        ("layer skew axis", "sa", Kind::Num(-30.0, 60.0)),
        ("layer opacity", "o", pct),
    ] {
        let base = set(set(set(ks_at(2.0, 3.0), "a", st(json!([1, 4]))), "sk", st(json!(15))), "sa", st(json!(20)));
        out.push((
            name,
            Box::new(move |v| doc(vec![set(marked(1, 1), "ks", set(base.clone(), key, v))], vec![])),
            kind,
        ));
    }
    for (name, x) in [("split x", true), ("split y", false)] {
        out.push((
            name,
            Box::new(move |v| {
                let o = st(json!(4));
                let (a, b) = if x { (v, o) } else { (o, v) };
                doc(vec![set(marked(1, 1), "ks", set(ks(), "p", json!({"s": true, "x": a, "y": b})))], vec![])
            }),
            Kind::Num(-3.0, 40.0),
        ));
    }
    for (name, key, kind) in [
        ("group anchor", "a", v2),
        ("group position", "p", v2),
        ("group scale", "s", Kind::V2([80.0, 120.0], [150.0, 60.0])),
        ("group rotation", "r", Kind::Num(-20.0, 130.0)),
        ("group skew", "sk", Kind::Num(5.0, 30.0)),
        ("group skew axis", "sa", Kind::Num(-30.0, 60.0)),
        ("group opacity", "o", pct),
    ] {
        let base = set(set(tr_at(2.0, 3.0), "sk", st(json!(15))), "sa", st(json!(20)));
        out.push((
            name,
            Box::new(move |v| one(vec![group(vec![rect(1.0, 2.0, 3.0, 4.0), f1(), set(base.clone(), key, v)])])),
            kind,
        ));
    }
    let size = Kind::V2([30.0, 40.0], [50.0, 20.0]);
    let mut geo = |name: &'static str, g: Value, key: &'static str, kind: Kind| {
        out.push((name, Box::new(move |v| one(vec![set(g.clone(), key, v), f1()])), kind));
    };
    geo("rect position", rect(1.0, 2.0, 30.0, 20.0), "p", v2);
    geo("rect size", rect(1.0, 2.0, 30.0, 20.0), "s", size);
    geo("rect radius", rect(1.0, 2.0, 30.0, 20.0), "r", Kind::Num(2.0, 4.0));
    geo("ellipse position", ell(1.0, 2.0, 30.0, 20.0), "p", v2);
    geo("ellipse size", ell(1.0, 2.0, 30.0, 20.0), "s", size);
    for (star_name, sy) in [(["star outer radius", "star outer roundness", "star points", "star rotation", "star position"], 1), (
        ["polygon outer radius", "polygon outer roundness", "polygon points", "polygon rotation", "polygon position"],
        2,
    )] {
        geo(star_name[0], star(sy, 5.0), "or", Kind::Num(20.0, 33.0));
        geo(star_name[1], star(sy, 5.0), "os", Kind::Num(20.0, 80.0));
        geo(star_name[2], star(sy, 5.0), "pt", Kind::Num(5.1, 9.3));
        geo(star_name[3], star(sy, 5.0), "r", Kind::Num(0.0, 95.0));
        geo(star_name[4], star(sy, 5.0), "p", v2);
    }
    geo("star inner radius", star(1, 5.0), "ir", Kind::Num(6.0, 14.0));
    geo("star inner roundness", star(1, 5.0), "is", Kind::Num(20.0, 80.0));
    geo("open path", path(json!(0)), "ks", Kind::Path(false));
    geo("closed path", path(json!(0)), "ks", Kind::Path(true));
    out.push((
        "mask path",
        Box::new(|v| doc(vec![set(marked(1, 1), "masksProperties", json!([mask(v)]))], vec![])),
        Kind::Path(true),
    ));
    let mut sty = |name: &'static str, s: Value, key: &'static str, kind: Kind| {
        out.push((name, Box::new(move |v| one(vec![rect(1.0, 2.0, 9.0, 7.0), set(s.clone(), key, v)])), kind));
    };
    sty("fill colour", f1(), "c", Kind::Rgb);
    sty("fill opacity", f1(), "o", pct);
    sty("stroke colour", stroke(0.1, 0.2, 0.3, 2.0), "c", Kind::Rgb);
    sty("stroke opacity", stroke(0.1, 0.2, 0.3, 2.0), "o", pct);
    sty("stroke width", stroke(0.1, 0.2, 0.3, 2.0), "w", Kind::Num(4.0, 6.0));
    for (n, radial) in [(["linear start", "linear end", "linear stops", "linear opacity"], false), (["radial start", "radial end", "radial stops", "radial opacity"], true)] {
        sty(n[0], gfill(radial, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])), "s", v2);
        sty(n[1], gfill(radial, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])), "e", v2);
        sty(n[2], gfill(radial, 2, json!([])), "g/k", Kind::Stops);
        sty(n[3], gfill(radial, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])), "o", pct);
    }
    sty("gradient stroke width", gstroke(false, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])), "w", Kind::Num(4.0, 6.0));
    sty("gradient stroke stops", gstroke(true, 2, json!([])), "g/k", Kind::Stops);
    sty("gradient stroke end", gstroke(true, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])), "e", v2);
    let mut trim = |name: &'static str, key: &'static str, kind: Kind| {
        out.push((
            name,
            Box::new(move |v| one(vec![path(poly(&[[0.0, 0.0], [40.0, 0.0], [40.0, 30.0]], false)), set(trimp(20.0, 85.0, 10.0), key, v), f1()])),
            kind,
        ));
    };
    trim("trim start", "s", Kind::Num(30.0, 60.0));
    trim("trim end", "e", Kind::Num(40.0, 80.0));
    trim("trim offset", "o", Kind::Num(-50.0, 500.0));
    out
}

/// For every property a document in which nothing else moves.
pub fn single_slots(all: bool) -> Vec<Value> {
    let mut out = vec![];
    for (i, (_, build, kind)) in slots().iter().enumerate() {
        for (n, e) in EASE.iter().enumerate().filter(|(n, _)| all || *n == 2 || *n == i % 6) {
            out.push(build(animated(vec![key(0.0, val(*kind, n), *e, 0, None), key(10.0, val(*kind, n + 1), None, 0, None)])));
        }
    }
    out
}

/// Easing of one span; `None` leaves the handles out.
const EASE: [Option<[f64; 4]>; 6] = [
    None,
    Some([0.0, 0.0, 1.0, 1.0]),
    Some([0.33, 0.0, 0.67, 1.0]),
    Some([0.2, -0.5, 0.5, 1.7]),
    Some([1.0, 0.0, 0.0, 1.0]),
    Some([0.0, 1.0, 0.1, 0.9]),
];
const FORMS: usize = 5;
fn handle(x: f64, y: f64, form: usize) -> Value {
    match form {
        0 => json!({"x": x, "y": y}),
        1 => json!({"x": [x], "y": [y]}),
        2 => json!({"x": [x, x], "y": [y, y]}),
        3 => json!({"x": [x], "y": y}),
        _ => json!({"x": x, "y": [y, y, y]}),
    }
}
fn key(t: f64, s: Value, ease: Option<[f64; 4]>, form: usize, hold: Option<bool>) -> Value {
    let mut k = json!({"t": t, "s": s});
    if let Some([ox, oy, ix, iy]) = ease {
        k["o"] = handle(ox, oy, form);
        k["i"] = handle(ix, iy, form);
    }
    if let Some(h) = hold {
        k["h"] = json!(h as u8);
    }
    k
}
fn animated(keys: Vec<Value>) -> Value {
    json!({"a": 1, "k": keys})
}
fn probes(times: &[f64]) -> Vec<f64> {
    let mut v = vec![times[0] - 3.0, times[0] - 1.0 / 1024.0, times[times.len() - 1] + 0.25, times[times.len() - 1] + 100.0];
    for w in times.windows(2) {
        for u in [1.0 / 1024.0, 0.2, 0.4, 0.7, 0.95, 1023.0 / 1024.0] {
            v.push(w[0] + (w[1] - w[0]) * u);
        }
    }
    // just beside every edge
    for t in &times[..if times.len() == 2 { 2 } else { 0 }] {
        let e = t.abs().max(1.0) * 1e-13;
        v.extend([t - e, t + e, t - 1e-7, t + 1e-7]);
    }
    v.extend_from_slice(times);
    v
}
const TIMES: [[f64; 4]; 3] = [[0.0, 10.0, 25.0, 32.0], [-5.5, 0.0, 7.25, 8.0], [3.0, 3.5, 60.0, 61.0]];

/// Span options: six easings, a hold, an eased hold, an explicit non-hold.
fn option(o: usize) -> (Option<[f64; 4]>, Option<bool>) {
    match o {
        0..=5 => (EASE[o], None),
        6 => (None, Some(true)),
        7 => (EASE[3], Some(true)),
        _ => (EASE[2], Some(false)),
    }
}

pub fn c15(x: &mut X) {
    super::corpus_conform(x);
    let sl = slots();
    for n in 1..=x.pick(3, 4usize) {
        x.family(&format!("{n} keyframes of every property"));
        let mut sizes = vec![sl.len(), if n == 4 { 1 } else { 3 }];
        sizes.extend(vec![9; n - 1]);
        sizes.push(3);
        product(&sizes, |c| {
            let (name, build, kind) = &sl[c[0]];
            let times = &TIMES[c[1]][..n];
            // quick: the time set rotates along with the options
            if n == 3 && !x.tier_thorough && (c[2] + c[3] + c[4]) % 3 != c[1] {
                return;
            }
            let make = || {
                let keys = (0..n)
                    .map(|i| {
                        let (e, h) = option(if i + 1 == n { [0, 3, 6][c[2 + i]] } else { c[2 + i] });
                        key(times[i], val(*kind, i), e, (c[0] + i) % FORMS, h)
                    })
                    .collect();
                build(animated(keys))
            };
            x.sample(|| json!({"slot": name, "doc": make()}));
            x.case(|k| {
                conform(k, &make(), &probes(times)).map_err(|mut e| {
                    e.msg = format!("[{name}] {}", e.msg);
                    e
                })
            });
        });
    }
    x.family("forms of handles and deprecated end values");
    product(&[sl.len(), 6, FORMS, 2, 2], |c| {
        let (name, build, kind) = &sl[c[0]];
        let path = matches!(kind, Kind::Path(_));
        let make = || {
            let mut keys = vec![
                key(0.0, val(*kind, 0), EASE[c[1]], c[2], None),
                key(8.0, val(*kind, 1), EASE[(c[1] + 2) % 6], (c[2] + 1) % FORMS, None),
                key(20.0, val(*kind, 2), None, 0, None),
            ];
            if c[3] == 1 {
                keys[0]["e"] = val(*kind, 1);
                // an outline may end elsewhere than where the next one starts
                keys[1]["e"] = val(*kind, if path { 4 } else { 2 });
            }
            if c[4] == 1 && path {
                keys[2].as_object_mut().unwrap().remove("s");
            }
            build(animated(keys))
        };
        if c[4] == 1 && !path {
            return;
        }
        x.case(|k| {
            conform(k, &make(), &probes(&[0.0, 8.0, 20.0])).map_err(|mut e| {
                e.msg = format!("[{name}] {}", e.msg);
                e
            })
        });
    });
    x.family("easing curves");
    let xs: Vec<f64> = x.pick(vec![0.0, 0.25, 0.5, 0.8, 1.0], vec![0.0, 0.1, 0.25, 0.4, 0.5, 0.66, 0.8, 0.95, 1.0]);
    let ys: Vec<f64> = x.pick(vec![-0.5, 0.0, 0.5, 1.0, 1.5], vec![-2.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5]);
    let places: Vec<usize> = ["layer position", "layer rotation", "fill colour", "open path", "linear stops", "layer scale"]
        .iter()
        .map(|n| sl.iter().position(|s| s.0 == *n).unwrap())
        .collect();
    product(&[xs.len(), ys.len(), xs.len(), ys.len(), places.len()], |c| {
        let (name, build, kind) = &sl[places[c[4]]];
        let e = [xs[c[0]], ys[c[1]], xs[c[2]], ys[c[3]]];
        x.case(|k| {
            let d = build(animated(vec![key(2.0, val(*kind, 0), Some(e), c[0] % FORMS, None), key(18.0, val(*kind, 1), None, 0, None)]));
            let fr: Vec<f64> = (1..16).filter(|i| *i != 8).map(|i| 2.0 + i as f64).collect();
            conform(k, &d, &fr).map_err(|mut e| {
                e.msg = format!("[{name}] {}", e.msg);
                e
            })
        });
    });
    x.family("many keyframes");
    for n in 4..=x.pick(40, 140usize) {
        for (name, build, kind) in &sl {
            if !x.tier_thorough && (n + name.len()) % 4 != 0 {
                continue;
            }
            x.case(|k| {
                let mut t = -2.0;
                let mut times = vec![];
                let keys = (0..n)
                    .map(|i| {
                        t += [1.0, 0.5, 4.0, 2.25][i % 4];
                        times.push(t);
                        let (e, h) = option((i * 7 + n) % 9);
                        key(t, val(*kind, i), e, i % FORMS, h)
                    })
                    .collect();
                let d = build(animated(keys));
                let mut fr: Vec<f64> = times.iter().flat_map(|t| [t - 1.0 / 1024.0, *t, t + 0.375]).collect();
                fr.push(-50.0);
                fr.push(1e4);
                conform(k, &d, &fr).map_err(|mut e| {
                    e.msg = format!("[{name}, {n} keyframes] {}", e.msg);
                    e
                })
            });
        }
    }
    x.family("very many keyframes");
    for n in x.pick(vec![255, 257, 1025, 5000], vec![255, 257, 1023, 1024, 1025, 2049, 4097, 8193, 16385, 32769, 65537, 70000usize]) {
        for (si, (name, build, kind)) in sl.iter().enumerate() {
            if n > 1025 && si % 5 != n % 5 {
                continue;
            }
            x.case(|k| {
                let keys = (0..n)
                    .map(|i| {
                        let (e, h) = option((i * 7 + n) % 9);
                        key(i as f64 * 0.5, val(*kind, i), e, i % FORMS, h)
                    })
                    .collect();
                let d = set(build(animated(keys)), "layers/0/op", json!(1e7));
                let fr: Vec<f64> = [0, 1, 2, n / 3, n / 2, 254, 255, 256, 257, 1022, 1023, 1024, 1025, n - 3, n - 2, n - 1, n]
                    .iter()
                    .flat_map(|i| [*i as f64 * 0.5, *i as f64 * 0.5 + 0.125])
                    .collect();
                conform(k, &d, &fr).map_err(|mut e| {
                    e.msg = format!("[{name}, {n} keyframes] {}", e.msg);
                    e
                })
            });
        }
    }
    x.family("easings that share components, one after the other");
    // spans that differ in one component of their easing only, sampled at
    // the same fraction within one render and from render to render
    let shared = [[0.3, 0.0, 0.6, 1.0], [0.3, 0.7, 0.6, 1.0], [0.3, 0.0, 0.6, 0.2], [0.3, 0.7, 0.6, 0.2], [0.8, 0.0, 0.6, 1.0], [0.3, 0.0, 0.1, 1.0]];
    product(&[6, 6, 6, 2], |c| {
        x.case(|k| {
            let e = |i: usize| Some(shared[c[i]]);
            let s = |kind, n, i| animated(vec![key(0.0, val(kind, n), e(i), c[3], None), key(8.0, val(kind, n + 1), e((i + 1) % 3), c[3], None), key(16.0, val(kind, n + 2), None, 0, None)]);
            let size = Kind::V2([30.0, 40.0], [50.0, 20.0]);
            let mut f = f1();
            f["c"] = s(Kind::Rgb, 1, 0);
            f["o"] = s(Kind::Num(40.0, 60.0), 2, 1);
            let mut r = rect(1.0, 2.0, 3.0, 4.0);
            r["p"] = s(Kind::V2([3.0, 20.0], [30.0, 11.0]), 0, 2);
            r["s"] = s(size, 3, 1);
            let mut p = path(json!(0));
            p["ks"] = s(Kind::Path(true), 1, 0);
            let mut l = shape(1, vec![p, r, f]);
            l["ks"]["r"] = s(Kind::Num(-20.0, 130.0), 1, 2);
            l["ks"]["o"] = s(Kind::Num(40.0, 60.0), 3, 0);
            let mut m = shape(2, vec![rect(1.0, 2.0, 3.0, 4.0), f1()]);
            m["ks"]["p"] = s(Kind::V2([3.0, 20.0], [30.0, 11.0]), 2, 1);
            conform(k, &doc(vec![l, m], vec![]), &[2.0, 10.0, 2.0, 4.0, 12.0, 6.0, 14.0])
        });
    });
    x.family("values that overshoot their usual range");
    // curves that leave 0..1 with values at the ends of the range
    let wild = [[0.2, -1.5, 0.5, 2.5], [0.3, 1.9, 0.7, 1.5], [0.4, -0.8, 0.6, -0.4]];
    let ends = |kind: Kind, n: usize| -> Value {
        let u = (n % 2) as f64;
        match kind {
            Kind::Num(..) => json!([u * 50.0]),
            Kind::V2(..) => json!([u * 20.0, 20.0 - u * 19.0]),
            Kind::Rgb => json!([u, 1.0 - u, u * 0.9, 1]),
            Kind::Path(_) => val(kind, n),
            Kind::Stops => json!([u * 0.5, u, 1.0 - u, u, 1.0 - u * 0.5, 1.0 - u, u, 1.0]),
        }
    };
    for (name, build, kind) in &sl {
        // only within their range do these have a meaning
        if name.starts_with("trim") || name.ends_with("points") || name.ends_with("opacity") || name.ends_with("roundness") || name.contains("radius") || name.ends_with("width") {
            continue;
        }
        for w in &wild {
            for first in 0..2 {
                x.case(|k| {
                    let d = build(animated(vec![key(0.0, ends(*kind, first), Some(*w), 0, None), key(10.0, ends(*kind, first + 1), Some(wild[1]), 1, None), key(20.0, ends(*kind, first), None, 0, None)]));
                    let fr: Vec<f64> = (0..21).map(|i| i as f64).collect();
                    conform(k, &d, &fr).map_err(|mut e| {
                        e.msg = format!("[{name}] {}", e.msg);
                        e
                    })
                });
            }
        }
    }
    x.family("large keyframe times");
    for (name, build, kind) in &sl {
        for b in [1e5, -3e5, 1048576.25] {
            x.case(|k| {
                let times = [b, b + 16.0, b + 1000.0];
                let keys = (0..3).map(|i| key(times[i], val(*kind, i), EASE[2], 0, None)).collect();
                let d = set(set(build(animated(keys)), "layers/0/ip", json!(-1e7)), "layers/0/op", json!(1e7));
                conform(k, &d, &probes(&times)).map_err(|mut e| {
                    e.msg = format!("[{name}] {}", e.msg);
                    e
                })
            });
        }
    }
    super::ladder::ladder(x, "C15");
}

// ------------------------------------------------------------------------ C16

/// Pointers of all keyframed properties of a document.
pub fn find_slots(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if o.get("k").is_some_and(spec::is_keys) {
                out.push(at);
                return;
            }
            for (k, w) in o {
                find_slots(w, format!("{at}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, w) in a.iter().enumerate() {
                find_slots(w, format!("{at}/{i}"), out);
            }
        }
        _ => {}
    }
}
/// The static property with the value `p` has at `frame`.
fn frozen(p: &Value, frame: f64) -> Value {
    let keys = p["k"].as_array().unwrap();
    let is_path = keys.iter().any(|k| k["s"].get(0).is_some_and(Value::is_object));
    if is_path {
        let (v, c) = spec::path_points(p, frame).unwrap();
        let col = |n: usize| v.iter().map(|p| json!([p[n].x, p[n].y])).collect::<Vec<_>>();
        return st(json!({"c": c, "v": col(0), "i": col(1), "o": col(2)}));
    }
    let v = spec::prop(p, frame);
    if v.len() == 1 { st(json!(v[0])) } else { st(json!(v)) }
}
fn freeze(d: &Value, which: &[&String], frame: f64) -> Value {
    let mut out = d.clone();
    for p in which {
        let f = frozen(d.pointer(p).unwrap(), frame);
        *out.pointer_mut(p).unwrap() = f;
    }
    out
}

fn anim(kind: Kind, from: usize) -> Value {
    animated(vec![
        key(0.0, val(kind, from), EASE[2], 0, None),
        key(10.0, val(kind, from + 1), None, 0, Some(true)),
        key(16.0, val(kind, from + 2), EASE[3], 1, None),
        key(30.0, val(kind, from + 3), None, 0, None),
    ])
}

/// Elements with all their slots animated at once.
/// Gradients with opacity stops of all kinds (what the model leaves open).
pub fn opacity_stops() -> Value {
    let mut alphas = vec![];
    for (i, n) in [1, 2, 3, 5, 8].into_iter().enumerate() {
        let stops = |seed: usize| {
            let mut v: Vec<f64> = vec![0.125, 1.0, 0.0, 0.5, 0.75, 0.2, 0.6, 0.1];
            (0..n).for_each(|j| v.extend([j as f64 / n as f64, ((j * 5 + seed + i) % 8) as f64 / 8.0]));
            json!(v)
        };
        let mut g = if i % 2 == 0 { gfill(i % 4 == 0, 2, json!([])) } else { gstroke(i % 4 == 1, 2, json!([])) };
        g["g"]["k"] = if i == 3 { kf(&[(0.0, stops(0)), (16.0, stops(3))]) } else { crate::doc::st(stops(0)) };
        alphas.extend([rect(i as f64, 2.0, 20.0, 9.0), g]);
    }
    one(alphas)
}
pub fn elements() -> Vec<(&'static str, Value)> {
    let v2 = |n| anim(Kind::V2([3.0, 20.0], [30.0, 11.0]), n);
    let sc = |n| anim(Kind::V2([80.0, 120.0], [150.0, 60.0]), n);
    let num = |a: f64, b: f64, n: usize| anim(Kind::Num(a, b), n);
    let t = |mut k: Value, split: bool| {
        k["a"] = v2(1);
        k["p"] = v2(2);
        if split {
            k["p"] = json!({"s": true, "x": num(0.0, 9.0, 1), "y": num(4.0, -8.0, 2)});
        }
        k["s"] = sc(3);
        k["r"] = num(0.0, 77.0, 4);
        k["sk"] = num(5.0, 25.0, 5);
        k["sa"] = num(0.0, 50.0, 6);
        k["o"] = num(40.0, 60.0, 7);
        k
    };
    let mut st1 = star(1, 5.0);
    for (i, (key, a, b)) in [("or", 20.0, 30.0), ("os", 10.0, 60.0), ("ir", 5.0, 15.0), ("is", 0.0, 50.0), ("r", 0.0, 60.0), ("pt", 4.1, 7.3)].iter().enumerate() {
        st1[*key] = num(*a, *b, i);
    }
    st1["p"] = v2(0);
    let mut poly1 = st1.clone();
    poly1["sy"] = json!(2);
    let mut rc = rect(0.0, 0.0, 30.0, 20.0);
    rc["p"] = v2(1);
    rc["s"] = anim(Kind::V2([30.0, 40.0], [50.0, 20.0]), 2);
    rc["r"] = num(1.0, 4.0, 3);
    let mut el = ell(0.0, 0.0, 30.0, 20.0);
    el["p"] = v2(1);
    el["s"] = anim(Kind::V2([30.0, 40.0], [50.0, 20.0]), 2);
    let mut fl = f1();
    fl["c"] = anim(Kind::Rgb, 1);
    fl["o"] = num(40.0, 60.0, 2);
    let mut sk = stroke(0.1, 0.2, 0.3, 1.0);
    sk["c"] = anim(Kind::Rgb, 1);
    sk["o"] = num(40.0, 60.0, 2);
    sk["w"] = num(3.0, 6.0, 3);
    let grad = |mut g: Value| {
        g["s"] = v2(1);
        g["e"] = v2(2);
        g["g"]["k"] = anim(Kind::Stops, 3);
        g["o"] = num(40.0, 60.0, 4);
        if g["ty"] == "gs" {
            g["w"] = num(3.0, 6.0, 3);
        }
        g
    };
    let mut tm = trimp(0.0, 0.0, 0.0);
    tm["s"] = num(10.0, 40.0, 1);
    tm["e"] = num(60.0, 90.0, 2);
    tm["o"] = num(-30.0, 300.0, 3);
    let m = |n| mask(anim(Kind::Path(true), n));
    let r = || rect(1.0, 2.0, 20.0, 9.0);
    let mut masked = set(marked(1, 1), "masksProperties", json!([m(1), m(2), m(3)]));
    masked["ks"]["r"] = num(0.0, 50.0, 1);
    masked["ks"]["p"] = v2(3);
    vec![
        ("layer transform", doc(vec![set(marked(1, 1), "ks", t(ks(), false))], vec![])),
        ("layer transform, split", doc(vec![set(marked(1, 1), "ks", t(ks(), true))], vec![])),
        ("parent transform", doc(vec![set(marked(1, 1), "parent", json!(2)), set(null(2), "ks", t(ks(), false))], vec![])),
        ("instance transform", doc(vec![set(inst(1, "a"), "ks", t(ks(), false))], vec![asset("a", vec![marked(1, 1)])])),
        ("layer in asset", doc(vec![inst(1, "a")], vec![asset("a", vec![set(marked(1, 1), "ks", t(ks(), true))])])),
        ("matte source", {
            let src = set(set(marked(1, 1), "td", json!(1)), "ks", t(ks(), false));
            doc(vec![src, set(marked(2, 2), "tt", json!(1))], vec![])
        }),
        ("group transform", one(vec![group(vec![r(), f1(), set(t(ks(), false), "ty", json!("tr"))])])),
        ("group transform, split", one(vec![group(vec![r(), f1(), set(t(ks(), true), "ty", json!("tr"))])])),
        ("star", one(vec![st1, f1()])),
        ("polygon", one(vec![poly1, f1()])),
        ("rect and ellipse", one(vec![rc, el, f1()])),
        ("fill and stroke", one(vec![r(), fl, sk])),
        ("linear fill", one(vec![r(), grad(gfill(false, 2, json!([])))])),
        ("radial fill", one(vec![r(), grad(gfill(true, 2, json!([])))])),
        ("linear stroke", one(vec![r(), grad(gstroke(false, 2, json!([])))])),
        ("radial stroke", one(vec![r(), grad(gstroke(true, 2, json!([])))])),
        ("trim and path", {
            let p = json!({"ty": "sh", "ks": anim(Kind::Path(false), 0)});
            let q = json!({"ty": "sh", "ks": anim(Kind::Path(true), 3)});
            one(vec![p, q, tm, f1()])
        }),
        ("masks", doc(vec![masked], vec![])),
    ]
}

pub fn c16(x: &mut X) {
    let frames = [-2.0, 0.0, 3.0, 10.0, 12.5, 16.0, 20.5, 30.0, 44.0];
    for (name, d) in elements() {
        x.family(&format!("subsets of {name}"));
        let mut all = vec![];
        find_slots(&d, String::new(), &mut all);
        for bits in 0u32..1 << all.len() {
            for fi in 0..frames.len() {
                // quick: two of the nine frames per subset of large elements
                if !x.tier_thorough && all.len() > 5 && fi != (bits as usize + 3) % 9 && fi != (bits as usize * 5) % 9 {
                    continue;
                }
                let f = frames[fi];
                let which: Vec<&String> = all.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, s)| s).collect();
                x.sample(|| json!({"doc": d, "frozen": which, "frame": f}));
                x.case(|k| {
                    let z = freeze(&d, &which, f);
                    same_render(k, &d, &z, &[f], &format!("[{name}] static {which:?} differ"))?;
                    // the frozen document itself stays animated in the rest
                    conform(k, &z, &frames)
                });
            }
        }
    }
    for (name, d) in corpus::docs() {
        let mapped = d.to_string().contains("\"sr\":2") || ["precomps", "deep precomps"].contains(&name.as_str());
        let mut all = vec![];
        find_slots(&d, String::new(), &mut all);
        all.retain(|p| !mapped || p.starts_with("/layers"));
        if all.is_empty() {
            continue;
        }
        x.family(&format!("singles, pairs and all of corpus document {name}"));
        let mut sets: Vec<Vec<usize>> = vec![(0..all.len()).collect()];
        for i in 0..all.len() {
            sets.push(vec![i]);
            sets.push((0..all.len()).filter(|j| *j != i).collect());
            if x.tier_thorough || all.len() <= 40 {
                for j in 0..i {
                    sets.push(vec![j, i]);
                }
            }
        }
        for (n, s) in sets.iter().enumerate() {
            let fr = corpus::few_frames();
            for (fi, f) in fr.iter().enumerate() {
                if !x.tier_thorough && n > 0 && fi != n % fr.len() {
                    continue;
                }
                x.case(|k| {
                    let which: Vec<&String> = s.iter().map(|i| &all[*i]).collect();
                    let z = freeze(&d, &which, *f);
                    same_render(k, &d, &z, &[*f], &format!("[{name}] static {which:?} differ"))
                });
            }
        }
    }
}
