use crate::check::*;
use crate::doc::*;
use crate::run::*;

/// A token of a shape tree in prefix form.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T {
    Rect,
    Ell,
    Poly,
    Fill,
    Stroke,
    Trim,
    Rep,
    /// group with: nothing, a moving transform, an identity transform, an
    /// animated transform
    Open(u8),
    Close,
}

/// All token strings with at most `n` nodes (empty groups and the empty string
/// included).
pub fn forests(leaves: &[T], groups: &[u8], n: usize, f: &mut impl FnMut(&[T])) {
    fn go(leaves: &[T], groups: &[u8], left: usize, open: usize, cur: &mut Vec<T>, f: &mut impl FnMut(&[T])) {
        if open == 0 {
            f(cur);
        }
        if left > 0 {
            for l in leaves {
                cur.push(*l);
                go(leaves, groups, left - 1, open, cur, f);
                cur.pop();
            }
            for g in groups {
                cur.push(T::Open(*g));
                go(leaves, groups, left - 1, open + 1, cur, f);
                cur.pop();
            }
        }
        if open > 0 {
            cur.push(T::Close);
            go(leaves, groups, left, open - 1, cur, f);
            cur.pop();
        }
    }
    go(leaves, groups, n, 0, &mut vec![], f);
}

/// The document form of a token string; every leaf has its own parameters.
pub fn items(ts: &[T]) -> Vec<Value> {
    let mut stack: Vec<(u8, Vec<Value>)> = vec![(0, vec![])];
    for (i, t) in ts.iter().enumerate() {
        let k = i as f64;
        let v = match t {
            T::Rect => rect(3.0 * k + 1.0, 2.0 * k, 5.0 + k, 4.0),
            T::Ell => ell(3.0 * k + 1.0, 2.0 * k, 5.0 + k, 4.0),
            T::Poly => path(poly(&[[k, 0.0], [k + 9.0, 1.0], [k + 4.0, 7.0 + k]], i % 2 == 0)),
            T::Fill => fill(k / 16.0, 0.25, 0.5),
            T::Stroke => stroke(0.5, k / 16.0, 0.0, 1.0 + k),
            T::Trim => trimp(10.0 + 3.0 * k, 60.0 + 2.0 * k, 45.0 * k),
            T::Rep => json!({"ty": "rp", "c": st(json!(2)), "o": st(json!(0)),
                "tr": {"p": st(json!([7.0 + k, 1])), "a": st(json!([1, 2])), "s": st(json!([90, 110])), "r": st(json!(10)), "so": st(json!(100)), "eo": st(json!(40))}}),
            T::Open(g) => {
                stack.push((*g, vec![]));
                continue;
            }
            T::Close => {
                let (g, mut it) = stack.pop().unwrap();
                let n = it.len() as f64;
                match g {
                    1 => it.push(set(set(tr_at(2.0 + k, 1.0 + n), "r", st(json!(5.0 * k + 5.0))), "o", st(json!(90)))),
                    2 => it.push(tr()),
                    3 => it.push(set(tr(), "p", kf(&[(0.0, json!([0, 0])), (8.0, json!([k, 8.0]))]))),
                    _ => {}
                }
                group(it)
            }
        };
        stack.last_mut().unwrap().1.push(v);
    }
    stack.pop().unwrap().1
}

/// Exhaustive shape trees: a reduced alphabet up to `n` nodes and the full one
/// up to `m` nodes.
pub fn trees(x: &mut X, n: usize, m: usize) {
    let layer_ks = super::layers::odd_ks(1);
    let one = |x: &mut X, ts: &[T]| {
        let make = || doc(vec![set(shape(1, items(ts)), "ks", layer_ks.clone())], vec![]);
        x.sample(|| make());
        x.case(|k| conform(k, &make(), &[4.0]));
    };
    x.family(&format!("shape trees of up to {n} nodes over 3 leaves and 2 kinds of group"));
    forests(&[T::Rect, T::Fill, T::Stroke], &[0, 1], n, &mut |ts| one(x, ts));
    x.family(&format!("shape trees of up to {m} nodes over 5 leaves and 4 kinds of group"));
    forests(&[T::Rect, T::Ell, T::Poly, T::Fill, T::Stroke], &[0, 1, 2, 3], m, &mut |ts| one(x, ts));
}

pub fn c18(x: &mut X) {
    super::corpus_conform(x);
    trees(x, x.pick(6, 7), x.pick(4, 5));
    x.family("several layers of one document");
    // a renderer goes through many trees: nothing may carry over
    let mut all = vec![];
    forests(&[T::Rect, T::Fill], &[0, 1], 3, &mut |ts| all.push(ts.to_vec()));
    for a in &all {
        for b in &all {
            x.case(|k| conform(k, &doc(vec![shape(1, items(a)), shape(2, items(b))], vec![]), &[0.0]));
        }
    }
    x.family("deep groups");
    // as deep as the text parser goes, and deeper in the public model
    let deep: &[usize] = if cfg!(feature = "models") { &[63, 64, 65, 66, 80, 127, 128, 129, 200, 255, 256, 257, 300] } else { &[] };
    for n in (1..30usize).chain(x.pick(vec![40, 52, 56], (30..57).collect())).chain(deep.iter().copied().take(x.pick(9, 20))) {
        for kind in 0..4u8 {
            for style in 0..3 {
                x.case(|k| {
                    let mut ts = vec![T::Rect];
                    for _ in 0..n {
                        ts.push(T::Open(kind));
                        ts.push(T::Poly);
                        if style == 1 {
                            ts.push(T::Fill);
                        }
                    }
                    for i in 0..n {
                        if style == 2 && i % 2 == 0 {
                            ts.push(T::Stroke);
                        }
                        ts.push(T::Close);
                    }
                    ts.push(T::Fill);
                    if n > 56 {
                        #[cfg(feature = "models")]
                        return super::repeat::conform_model(k, &items(&ts), false);
                        #[cfg(not(feature = "models"))]
                        unreachable!();
                    }
                    conform(k, &doc(vec![shape(1, items(&ts))], vec![]), &[3.0])
                });
            }
        }
    }
    x.family("long lists");
    for n in x.sizes(1, 60, 200, 1025).into_iter().map(|n| n as usize) {
        for per in [1usize, 2, 3, 8] {
            x.case(|k| {
                let mut ts = vec![];
                for i in 0..n {
                    ts.push([T::Rect, T::Ell, T::Poly][i % 3]);
                    if i % per == per - 1 {
                        ts.push(if i % 2 == 0 { T::Fill } else { T::Stroke });
                    }
                    if i % 7 == 6 {
                        ts.extend([T::Open((i % 4) as u8), T::Rect, T::Close]);
                    }
                }
                conform(k, &doc(vec![shape(1, items(&ts))], vec![]), &[3.0])
            });
        }
    }
    super::sweep::groups(x);
    super::ladder::ladder(x, "C18");
}

fn one_shape(g: Value) -> Value {
    doc(vec![shape(1, vec![g, fill(0.1, 0.2, 0.3)])], vec![])
}
/// Replaces static members by keyframes that pass through the same value.
fn still(v: &Value, keys: &[&str]) -> Value {
    let mut v = v.clone();
    for k in keys {
        let val = v[*k]["k"].clone();
        v[*k] = kf(&[(0.0, val.clone()), (9.0, val.clone()), (20.0, val)]);
    }
    v
}

pub fn c19(x: &mut X) {
    super::corpus_conform(x);
    let fr = [-1.0, 0.0, 4.0, 9.0, 30.0];
    let ps = [json!([0, 0]), json!([10, -5]), json!([0.5, 1e4, 3])];
    let ss = [json!([0, 0]), json!([10, 10]), json!([20, 7]), json!([0.5, 300]), json!([12, 0])];
    let ph = |i: usize| (st(ps[i].clone()), kf(&[(0.0, ps[i].clone()), (16.0, json!([3, 4]))]));
    x.family("rectangles and ellipses");
    product(&[3, 5, 5, 2, 2, 2, 2], |c| {
        let make = || {
            let mut g = if c[6] == 0 { rect(0.0, 0.0, 1.0, 1.0) } else { ell(0.0, 0.0, 1.0, 1.0) };
            let (p0, p1) = ph(c[0]);
            g["p"] = if c[3] == 0 { p0 } else { p1 };
            g["s"] = if c[4] == 0 { st(ss[c[1]].clone()) } else { kf(&[(0.0, ss[c[1]].clone()), (16.0, json!([8, 2]))]) };
            if c[6] == 0 {
                let r = [0.0, 1.0, 3.5, 5.0, 1000.0][c[2]];
                g["r"] = if c[5] == 0 { st(json!(r)) } else { kf(&[(0.0, json!(r)), (16.0, json!(2))]) };
            }
            g
        };
        x.sample(|| one_shape(make()));
        x.case(|k| {
            let g = make();
            conform(k, &one_shape(g.clone()), &fr)?;
            if c[3] + c[4] + c[5] == 0 {
                same_render(k, &one_shape(still(&g, &["p", "s"])), &one_shape(g), &fr, "animated shape differs from the static one")?;
            }
            Ok(())
        });
    });
    x.family("stars and polygons");
    let pts = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 12.0, 2.4, 2.5, 4.5];
    product(&[2, pts.len(), 4, 3, 3, 3, 2], |c| {
        let make = || {
            let mut s = star(1 + c[0] as u64, pts[c[1]]);
            s["r"] = st(json!([0.0, 15.0, -90.0, 400.0][c[2]]));
            s["or"] = st(json!([30.0, 0.0, 7.5][c[3]]));
            s["os"] = st(json!([0.0, 50.0, -120.0][c[4]]));
            s["is"] = st(json!([0.0, 100.0, -30.0][c[5]]));
            s["ir"] = st(json!([12.0, 40.0][c[6]]));
            if c[0] == 1 && c[5] + c[6] == 0 {
                s = del(del(s, "ir"), "is");
            }
            s
        };
        x.sample(|| one_shape(make()));
        x.case(|k| {
            let g = make();
            conform(k, &one_shape(g.clone()), &[0.0])?;
            same_render(k, &one_shape(still(&g, &["p", "r", "pt", "or", "os"])), &one_shape(g), &[0.0, 4.0], "animated star differs from the static one")
        });
    });
    x.family("star members animated");
    for sy in [1u64, 2] {
        for mask in 0..128u32 {
            x.case(|k| {
                let mut s = star(sy, 5.0);
                s["os"] = st(json!(10));
                s["is"] = st(json!(20));
                for (i, key) in ["p", "r", "pt", "or", "os", "ir", "is"].iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        s[*key] = match *key {
                            "p" => kf(&[(0.0, json!([0, 0])), (20.0, json!([9, 3]))]),
                            _ => {
                                let v = s[*key]["k"].as_f64().unwrap();
                                kf(&[(0.0, json!(v)), (20.0, json!(v * 1.5 + 4.0))])
                            }
                        };
                    }
                }
                conform(k, &one_shape(s), &[0.0, 5.0, 12.5, 20.0])
            });
        }
    }
    x.family("point counts");
    for n in (1..x.pick(200, 1000usize)).chain([255, 256, 257, 500, 1001]) {
        for sy in [1u64, 2] {
            x.case(|k| {
                let mut s = star(sy, n as f64);
                s["os"] = st(json!(if n % 3 == 0 { 40 } else { 0 }));
                conform(k, &one_shape(s), &[0.0])
            });
        }
    }
    x.family("paths: every tangent pattern");
    for n in 0..=x.pick(4, 5usize) {
        for closed in [0, 1, 2] {
            for bits in 0..1u32 << (2 * n) {
                let make = || {
                    let v: Vec<[f64; 2]> = (0..n).map(|i| [10.0 * i as f64, ((i * i) as f64) * 3.0 - 4.0]).collect();
                    let tan = |side: usize| -> Vec<[f64; 2]> {
                        (0..n)
                            .map(|i| if bits >> (2 * i + side) & 1 == 1 { [2.0 + i as f64, -3.0 + side as f64] } else { [0.0, 0.0] })
                            .collect()
                    };
                    let mut b = bez(&v, &tan(0), &tan(1), closed == 1);
                    if closed == 2 {
                        b = del(b, "c");
                    }
                    b
                };
                x.sample(|| one_shape(path(make())));
                x.case(|k| {
                    let b = make();
                    conform(k, &one_shape(path(b.clone())), &[0.0])?;
                    let mut p = path(Value::Null);
                    p["ks"] = path_kf(&[(0.0, b.clone()), (9.0, b.clone()), (20.0, b.clone())]);
                    same_render(k, &one_shape(p), &one_shape(path(b)), &fr, "animated path differs from the static one")
                });
            }
        }
    }
    x.family("path vertex counts");
    for n in (0..x.pick(120, 400usize)).chain([255, 256, 257, 500, 1023, 1024, 1025, 2000]).chain(x.pick(vec![], vec![4097, 8193, 20000, 65537])) {
        for c in [false, true] {
            x.case(|k| {
                let v: Vec<[f64; 2]> = (0..n).map(|i| [(i * 7 % 23) as f64, (i * 5 % 19) as f64]).collect();
                let t: Vec<[f64; 2]> = (0..n).map(|i| if i % 3 == 0 { [0.0, 0.0] } else { [1.0, (i % 5) as f64] }).collect();
                conform(k, &one_shape(path(bez(&v, &t, &t, c))), &[0.0])
            });
        }
    }
    x.family("animated paths");
    for n in 1..=4usize {
        for keys in 1..=4usize {
            for c in [false, true] {
                for e in [false, true] {
                    x.case(|k| {
                        let b = |j: usize| {
                            let v: Vec<[f64; 2]> = (0..n).map(|i| [(i * 7 + j * 3) as f64, (i * 5 % 19 + j) as f64]).collect();
                            let t: Vec<[f64; 2]> = (0..n).map(|i| [(i + j) as f64, 1.0]).collect();
                            bez(&v, &t, &t, c)
                        };
                        let mut p = path_kf(&(0..keys).map(|j| (j as f64 * 8.0, b(j))).collect::<Vec<_>>());
                        if e {
                            for j in 0..keys.saturating_sub(1) {
                                p["k"][j]["e"] = json!([b(j + 1)]);
                            }
                        }
                        conform(k, &one_shape(json!({"ty": "sh", "ks": p})), &[-1.0, 0.0, 2.0, 8.0, 13.0, 16.0, 24.0, 30.0])
                    });
                }
            }
        }
    }
    super::sweep::geometry(x);
    super::ladder::ladder(x, "C19");
}

fn outlines() -> Vec<(&'static str, Vec<Value>)> {
    let sq = |k: f64| path(poly(&[[k, 0.0], [k + 10.0, 0.0], [k + 10.0, 10.0], [k, 10.0]], true));
    vec![
        ("line", vec![path(poly(&[[0.0, 0.0], [40.0, 0.0]], false))]),
        ("open", vec![path(poly(&[[0.0, 0.0], [10.0, 0.0], [10.0, 30.0]], false))]),
        ("square", vec![sq(0.0)]),
        ("rect", vec![rect(5.0, 5.0, 30.0, 10.0)]),
        ("two squares", vec![sq(0.0), sq(50.0)]),
        ("three parts", vec![path(poly(&[[0.0, 0.0], [10.0, 0.0]], false)), sq(30.0), path(poly(&[[90.0, 5.0], [90.0, 15.0], [95.0, 15.0]], false))]),
        ("touching parts", vec![path(poly(&[[0.0, 0.0], [10.0, 0.0]], false)), path(poly(&[[10.0, 0.0], [10.0, 10.0]], false))]),
        ("ellipse", vec![ell(20.0, 20.0, 80.0, 80.0)]),
        ("curve", vec![path(bez(&[[0.0, 0.0], [60.0, 40.0]], &[[0.0, 0.0], [-20.0, 0.0]], &[[0.0, 60.0], [0.0, 0.0]], false))]),
        ("rounded", vec![set(rect(0.0, 0.0, 60.0, 40.0), "r", st(json!(10)))]),
        ("star", vec![star(1, 5.0)]),
        ("mixed", vec![sq(0.0), ell(60.0, 20.0, 60.0, 60.0)]),
        ("point", vec![path(poly(&[[3.0, 3.0]], false))]),
        ("empty", vec![path(poly(&[], true))]),
        ("hairpin", vec![path(poly(&[[0.0, 0.0], [20.0, 0.0], [0.0, 0.0], [20.0, 0.0]], false))]),
    ]
}

pub fn c20(x: &mut X) {
    super::corpus_conform(x);
    let se: Vec<f64> = x.pick(vec![0.0, 10.0, 25.0, 50.0, 80.0, 100.0], vec![0.0, 5.0, 10.0, 25.0, 33.0, 50.0, 66.0, 75.0, 80.0, 99.0, 100.0]);
    let mut off: Vec<f64> = (-16..=16).map(|i| i as f64 * 45.0).collect();
    off.extend([30.0, -10.0, 1000.0, -3600.0, 359.0, 3.6]);
    if !x.tier_thorough {
        off.retain(|o| o.abs() <= 360.0 || o % 180.0 == 0.0 || *o == 1000.0);
    }
    for (name, g) in outlines() {
        x.family(&format!("trim grid on {name}"));
        for &s in &se {
            for &e in &se {
                for &o in &off {
                    let make = || {
                        let mut v = g.clone();
                        v.push(trimp(s, e, o));
                        v.push(stroke(0.0, 0.0, 0.0, 1.0));
                        doc(vec![shape(1, v)], vec![])
                    };
                    x.sample(make);
                    x.case(|k| conform(k, &make(), &[0.0]));
                }
            }
        }
    }
    x.family("trim in every position of a tree");
    forests(&[T::Rect, T::Poly, T::Fill, T::Trim], &[0, 1], x.pick(5, 6), &mut |ts| {
        if !ts.contains(&T::Trim) || !ts.contains(&T::Fill) {
            return;
        }
        let make = || doc(vec![shape(1, items(ts))], vec![]);
        x.sample(make);
        x.case(|k| conform(k, &make(), &[4.0]));
    });
    x.family("empty, full and partial trims in every position");
    // trims that keep nothing / everything / a wrapped part
    let kinds = [(50.0, 50.0, 0.0), (0.0, 100.0, 90.0), (100.0, 0.0, 0.0), (60.0, 90.0, 120.0)];
    forests(&[T::Rect, T::Poly, T::Fill, T::Trim], &[0], x.pick(4, 5), &mut |ts| {
        let n = ts.iter().filter(|t| **t == T::Trim).count();
        if n == 0 || n > 3 || !ts.contains(&T::Fill) {
            return;
        }
        product(&vec![kinds.len(); n], |c| {
            let make = || {
                let mut v = items(ts);
                let mut i = 0;
                fn go(v: &mut [Value], i: &mut usize, c: &[usize], kinds: &[(f64, f64, f64)]) {
                    for s in v {
                        if s["ty"] == "tm" {
                            let (a, b, o) = kinds[c[*i]];
                            *s = trimp(a, b, o);
                            *i += 1;
                        } else if let Some(it) = s.get_mut("it") {
                            go(it.as_array_mut().unwrap(), i, c, kinds);
                        }
                    }
                }
                go(&mut v, &mut i, c, &kinds);
                doc(vec![shape(1, v)], vec![])
            };
            x.case(|k| conform(k, &make(), &[4.0]));
        });
    });
    x.family("animated trims");
    for (name, g) in outlines() {
        for mask in 1..8u32 {
            x.case(|k| {
                let mut t = trimp(20.0, 70.0, 30.0);
                for (i, (key, to)) in [("s", 60.0), ("e", 10.0), ("o", 500.0)].iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        let v = t[*key]["k"].as_f64().unwrap();
                        t[*key] = kf(&[(0.0, json!(v)), (16.0, json!(to))]);
                    }
                }
                let mut v = g.clone();
                v.extend([t, fill(0.0, 0.0, 0.0)]);
                conform(k, &doc(vec![shape(1, v)], vec![]), &[0.0, 3.0, 9.5, 16.0]).map_err(|mut e| {
                    e.msg = format!("[{name}] {}", e.msg);
                    e
                })
            });
        }
    }
    x.family("slight trims of large outlines");
    let near = [0.0, 0.002, 0.02, 0.04, 0.06, 0.3, 49.96, 50.0, 50.04, 50.3, 99.7, 99.94, 99.96, 99.98, 99.998, 100.0];
    let large = [
        vec![path(poly(&[[0.0, 0.0], [20000.0, 0.0]], false))],
        vec![path(poly(&[[0.0, 0.0], [9000.0, 0.0], [9000.0, 7000.0], [-100.0, 8000.0]], true))],
        vec![path(poly(&[[-3000.0, 0.0], [7000.0, 100.0], [20.0, 9000.0]], false)), rect(500.0, 500.0, 8000.0, 4000.0)],
    ];
    for (n, g) in large.iter().enumerate() {
        for &s in &near {
            for &e in &near {
                x.case(|k| {
                    for o in [0.0, 0.2, 90.0, 180.3, -0.1] {
                        let mut v = g.clone();
                        v.extend([trimp(s, e, o), stroke(0.0, 0.0, 0.0, 1.0)]);
                        conform(k, &doc(vec![shape(1, v)], vec![]), &[0.0]).map_err(|mut f| {
                            f.msg = format!("[large outline {n}, {s}% to {e}%, {o} degrees] {}", f.msg);
                            f
                        })?;
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("long outlines");
    for n in (2..x.pick(60, 200usize)).chain([255, 256, 257, 400]).chain(x.pick(vec![], vec![1025, 2000])) {
        for c in [false, true] {
            x.case(|k| {
                let v: Vec<[f64; 2]> = (0..n).map(|i| [(i * 7 % 23) as f64 * 4.0, (i * 5 % 19) as f64 * 3.0]).collect();
                for (s, e, o) in [(0.0, 37.0, 0.0), (20.0, 90.0, 100.0), (55.0, 56.0, -700.0)] {
                    conform(k, &doc(vec![shape(1, vec![path(poly(&v, c)), trimp(s, e, o), fill(0.0, 0.0, 0.0)])], vec![]), &[0.0])?;
                }
                Ok(())
            });
        }
    }
    super::sweep::trims(x);
    super::ladder::ladder(x, "C20");
}

pub fn c21(x: &mut X) {
    super::corpus_conform(x);
    let opt = |i: usize| [None, Some(1), Some(2), Some(3)][i];
    let g = || vec![rect(0.0, 0.0, 9.0, 9.0), ell(30.0, 3.0, 9.0, 5.0)];
    let one = |s: Value| {
        let mut v = g();
        v.push(s);
        doc(vec![shape(1, v)], vec![])
    };
    x.family("stroke styles");
    product(&[2, 4, 4, 4, 3, 2], |c| {
        let make = || {
            let mut s = if c[0] == 0 { stroke(0.2, 0.3, 0.4, 1.0) } else { gstroke(false, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])) };
            for (key, i) in [("lc", 1), ("lj", 2)] {
                match opt(c[i]) {
                    Some(v) => s[key] = json!(v),
                    None => s = del(s, key),
                }
            }
            match c[3] {
                0 => s = del(s, "ml"),
                i => s["ml"] = json!([0.0, 1.0, 4.0, 12.5][i]),
            }
            let w = [0.0, 1.0, 33.25][c[4]];
            s["w"] = if c[5] == 0 { st(json!(w)) } else { kf(&[(0.0, json!(w)), (16.0, json!(5))]) };
            one(s)
        };
        x.sample(make);
        x.case(|k| conform(k, &make(), &[0.0, 5.0, 16.0]));
    });
    x.family("colours");
    let lv = [0.0, 0.25, 0.6, 1.0];
    product(&[2, 4, 4, 4, 3], |c| {
        let make = || {
            let mut s = if c[0] == 0 { fill(0.0, 0.0, 0.0) } else { stroke(0.0, 0.0, 0.0, 2.0) };
            let col = json!([lv[c[1]], lv[c[2]], lv[c[3]], 1]);
            s["c"] = match c[4] {
                0 => st(col),
                1 => st(json!([lv[c[1]], lv[c[2]], lv[c[3]]])),
                _ => kf(&[(0.0, col), (16.0, json!([0.5, 0.25, 0.75, 1]))]),
            };
            one(s)
        };
        x.sample(make);
        x.case(|k| conform(k, &make(), &[0.0, 5.0, 16.0]));
    });
    x.family("gradients");
    product(&[2, 3, 6, 4, 3, 2, 2, 3], |c| {
        let n = c[2] + 1;
        let make = || {
            let mut s = if c[0] == 0 { gfill(false, n, json!([])) } else { gstroke(false, n, json!([])) };
            match c[1] {
                0 => s["t"] = json!(1),
                1 => s["t"] = json!(2),
                // linear when the type is left out
                _ => s = del(s, "t"),
            }
            let list = |shift: f64| {
                let mut l = vec![];
                for i in 0..n {
                    // some neighbouring offsets coincide
                    let o = if i == 2 { 1.0 / n as f64 } else { i as f64 / n as f64 };
                    l.extend([json!(o), json!((0.3 + 0.1 * i as f64 + shift) % 1.0), json!((0.7 * i as f64) % 1.0), json!(1.0 - o)]);
                }
                let a = [1.0, 0.5, 0.0][c[4]];
                for i in 0..[0, 1, 2, 3][c[3]] {
                    l.extend([json!(i as f64 * 0.5), json!(a)]);
                }
                json!(l)
            };
            s["g"]["k"] = if c[5] == 0 { st(list(0.0)) } else { kf(&[(0.0, list(0.0)), (16.0, list(0.37))]) };
            s["s"] = if c[6] == 0 { st(json!([1, 2])) } else { kf(&[(0.0, json!([1, 2])), (16.0, json!([5, -3]))]) };
            s["e"] = [st(json!([11, 22])), st(json!([1, 2])), kf(&[(0.0, json!([7, 2])), (16.0, json!([5, 30]))])][c[7]].clone();
            one(s)
        };
        // opacity stops are read from the list only when there are any
        if c[3] == 0 && c[4] > 0 {
            return;
        }
        x.sample(make);
        x.case(|k| conform(k, &make(), &[0.0, 5.0, 16.0]));
    });
    x.family("stops that coincide");
    // every way for neighbouring stops to share offset, colour or both
    product(&[5, 5, 5, 2, 2], |c| {
        x.case(|k| {
            let mut cur = [0.25, 0.2, 0.4, 0.6];
            let mut l: Vec<f64> = vec![];
            let mut later: Vec<f64> = vec![];
            l.extend(cur);
            later.extend(cur);
            for (i, how) in c[..3].iter().enumerate() {
                match how {
                    0 => {}
                    1 => cur[0] += 0.25,
                    2 => cur[1] += 0.125,
                    3 => cur = [cur[0] + 0.125, cur[1], cur[2] + 0.125, cur[3] - 0.125],
                    _ => cur = [1.0, 0.5, 0.5, 0.5],
                }
                l.extend(cur);
                // apart by the end: the stops part while they move
                later.extend([cur[0] * 0.5 + i as f64 * 0.125, cur[1], cur[2], 0.25 * i as f64]);
            }
            let mut s = if c[3] == 0 { gfill(c[2] % 2 == 0, 4, json!(l)) } else { gstroke(c[1] % 2 == 0, 4, json!(l)) };
            if c[4] == 1 {
                s["g"]["k"] = kf(&[(0.0, json!(l)), (8.0, json!(later)), (16.0, json!(l))]);
            }
            conform(k, &one(s), &[0.0, 4.0, 8.0, 12.0, 20.0])
        });
    });
    x.family("stop counts");
    for n in (1..x.pick(64, 200usize)).chain([100, 127, 128, 129, 255, 256, 257, 300, 600]) {
        for a in 0..3 {
            for anim in [false, true] {
                x.case(|k| {
                    let list = |sh: usize| {
                        let mut l = vec![];
                        for i in 0..n {
                            l.extend([i as f64 / n as f64, ((i * 7 + sh) % 11) as f64 / 11.0, ((i * 5) % 13) as f64 / 13.0, (i % 3) as f64 / 3.0]);
                        }
                        for i in 0..a * 2 {
                            l.extend([i as f64 / 4.0, 0.25]);
                        }
                        json!(l)
                    };
                    let mut s = gfill(n % 2 == 0, n, list(0));
                    if anim {
                        s["g"]["k"] = kf(&[(0.0, list(0)), (16.0, list(3))]);
                    }
                    conform(k, &one(s), &[0.0, 5.0])
                });
            }
        }
    }
    x.family("style sequences");
    product(&[4, 4, 4], |c| {
        x.case(|k| {
            let mk = |i: usize, n: f64| match i {
                0 => fill(n, 0.0, 0.0),
                1 => stroke(n, 0.0, 0.0, 1.0 + n),
                2 => gfill(true, 2, json!([0, n, 0, 0, 1, 0, 1, 0])),
                _ => gstroke(false, 2, json!([0, n, 0, 0, 1, 0, 1, 0])),
            };
            let mut v = g();
            for (i, s) in c.iter().enumerate() {
                v.push(mk(*s, 0.2 * i as f64));
            }
            conform(k, &doc(vec![shape(1, v)], vec![]), &[0.0])
        });
    });
    super::sweep::paints(x);
    super::ladder::ladder(x, "C21");
}
