//! Documents rich enough that many features are active at once.
use crate::doc::*;

pub fn k2(a: [f64; 2], b: [f64; 2]) -> Value {
    kfe(&[(0.0, json!(a)), (20.0, json!(b)), (35.0, json!(a))], (0.4, 0.1), (0.6, 0.9))
}
pub fn k1(a: f64, b: f64) -> Value {
    kfe(&[(0.0, json!(a)), (20.0, json!(b)), (35.0, json!(a))], (0.3, 0.0), (0.7, 1.0))
}
pub fn ks_anim() -> Value {
    json!({"a": k2([0.0, 0.0], [4.0, 2.0]), "p": k2([10.0, 20.0], [30.0, 25.0]), "s": k2([100.0, 100.0], [150.0, 50.0]),
        "r": k1(0.0, 90.0), "o": k1(100.0, 40.0), "sk": k1(0.0, 20.0), "sa": k1(0.0, 45.0)})
}
pub fn ks_split() -> Value {
    let mut k = ks_anim();
    k["p"] = json!({"s": true, "x": k1(3.0, 9.0), "y": k1(4.0, -5.0)});
    k
}
const TRI: [[f64; 2]; 3] = [[0.0, 0.0], [30.0, 5.0], [10.0, 25.0]];
const TRI2: [[f64; 2]; 3] = [[5.0, -3.0], [20.0, 15.0], [-10.0, 30.0]];
pub fn curve(c: bool) -> Value {
    bez(&TRI, &[[-3.0, 1.0], [2.0, -6.0], [0.0, 0.0]], &[[4.0, 0.0], [0.0, 0.0], [-5.0, 3.0]], c)
}
pub fn curve2(c: bool) -> Value {
    bez(&TRI2, &[[-1.0, 4.0], [0.0, -2.0], [3.0, 0.0]], &[[1.0, 1.0], [6.0, 0.0], [0.0, 3.0]], c)
}
pub fn path_anim(c: bool) -> Value {
    path_kf(&[(0.0, curve(c)), (12.0, curve2(c)), (30.0, curve(c))])
}
pub fn path_old_style() -> Value {
    json!({"a": 1, "k": [
        {"t": 0, "s": [curve(true)], "e": [curve2(true)], "o": {"x": 0.2, "y": 0.1}, "i": {"x": 0.8, "y": 0.7}},
        {"t": 15, "s": [curve2(true)], "e": [curve(true)]},
        {"t": 30}]})
}
pub fn grad() -> Value {
    json!([0.0, 1.0, 0.0, 0.0, 0.4, 0.2, 0.6, 0.1, 1.0, 0.0, 0.0, 1.0])
}
pub fn grad_anim() -> Value {
    kf(&[
        (0.0, json!([0.0, 1.0, 0.0, 0.0, 1.0, 0.2, 0.6, 0.1])),
        (18.0, json!([0.3, 0.5, 0.5, 0.0, 0.9, 0.0, 0.1, 1.0])),
        (40.0, json!([0.1, 0.0, 0.0, 0.2, 0.8, 1.0, 0.6, 0.5])),
    ])
}
pub fn everything_shapes() -> Vec<Value> {
    let mut inner_tr = ks_anim();
    inner_tr["ty"] = json!("tr");
    let mut star1 = star(1, 5.0);
    star1["or"] = k1(30.0, 20.0);
    star1["is"] = k1(0.0, 60.0);
    star1["pt"] = k1(5.0, 8.0);
    star1["r"] = k1(0.0, 90.0);
    star1["p"] = k2([0.0, 0.0], [7.0, 1.0]);
    let mut rc = rect(5.0, 6.0, 20.0, 10.0);
    rc["r"] = k1(0.0, 4.0);
    rc["s"] = k2([20.0, 10.0], [10.0, 30.0]);
    rc["p"] = k2([5.0, 6.0], [-5.0, 16.0]);
    let mut el = ell(15.0, 6.0, 20.0, 10.0);
    el["s"] = k2([20.0, 10.0], [10.0, 30.0]);
    let mut fl = fill(0.1, 0.2, 0.3);
    fl["c"] = kf(&[(0.0, json!([0.1, 0.2, 0.3, 1])), (25.0, json!([0.9, 0.8, 0.1, 1]))]);
    fl["o"] = k1(100.0, 30.0);
    let mut sk = stroke(0.4, 0.5, 0.6, 2.0);
    sk["w"] = k1(2.0, 9.0);
    sk["o"] = k1(80.0, 30.0);
    let mut gf = gfill(false, 2, json!([]));
    gf["g"]["k"] = grad_anim();
    gf["s"] = k2([1.0, 2.0], [3.0, 4.0]);
    gf["o"] = k1(90.0, 10.0);
    let mut gs = gstroke(true, 3, grad());
    gs["e"] = k2([11.0, 2.0], [3.0, 14.0]);
    let mut tm = trimp(0.0, 100.0, 0.0);
    tm["s"] = k1(0.0, 50.0);
    tm["e"] = k1(100.0, 70.0);
    tm["o"] = k1(0.0, 200.0);
    vec![
        rc.clone(),
        fl.clone(),
        group(vec![el.clone(), star1, sk.clone(), group(vec![json!({"ty": "sh", "ks": path_anim(true)}), gf, inner_tr.clone()]), inner_tr.clone()]),
        el,
        group(vec![rect(0.0, 0.0, 4.0, 4.0), json!({"ty": "sh", "ks": path_old_style()})]),
        sk,
        group(vec![json!({"ty": "sh", "ks": path_anim(false)}), tm, gs, tr_at(2.0, 3.0)]),
        path(curve(true)),
        fl,
    ]
}

pub fn frames() -> Vec<f64> {
    vec![-4.0, 0.0, 0.5, 3.0, 7.25, 12.0, 15.0, 19.9, 20.0, 25.0, 30.0, 33.3, 35.0, 40.0, 60.0, 99.99, 100.0]
}
pub fn few_frames() -> Vec<f64> {
    vec![0.0, 7.25, 20.0, 30.0, 41.0]
}

/// Named documents of the corpus.
pub fn docs() -> Vec<(String, Value)> {
    let mut out: Vec<(String, Value)> = vec![];
    let mut add = |n: &str, d: Value| out.push((n.to_string(), d));
    add("empty", doc(vec![], vec![]));
    add("one", doc(vec![marked(1, 1)], vec![]));
    add("everything", doc(vec![set(shape(1, everything_shapes()), "ks", ks_anim())], vec![]));
    add("split", doc(vec![set(shape(1, mark(2)), "ks", ks_split()), set(marked(2, 3), "parent", json!(1))], vec![]));
    // parents
    add("parents", {
        let mut l = vec![];
        for (i, p) in [(1, 3), (2, 0), (3, 2), (7, 1), (5, 7)] {
            let mut y = set(marked(i, i as usize), "ks", if i == 3 { ks_split() } else { ks_anim() });
            if p != 0 {
                y["parent"] = json!(p);
            }
            l.push(y);
        }
        l.push(set(set(null(9), "parent", json!(5)), "ks", ks_at(3.0, 3.0)));
        doc(l, vec![])
    });
    // windows
    add("windows", {
        let l = (0..8u64)
            .map(|i| {
                let mut y = marked(i + 1, i as usize);
                y["ip"] = json!(i as f64 * 5.0 - 3.0);
                y["op"] = json!(i as f64 * 7.5 + 4.0);
                y["parent"] = json!(if i == 0 { 99 } else { i });
                y["ks"] = ks_at(i as f64, 1.0);
                y
            })
            .collect();
        doc(l, vec![])
    });
    // mattes
    add("mattes", {
        let mut l = vec![];
        for i in 1..=9u64 {
            let mut y = set(marked(i, i as usize), "ks", if i % 2 == 0 { ks_anim() } else { ks_at(i as f64, 2.0) });
            match i {
                1 | 4 | 7 => y["td"] = json!(1),
                2 => y["tt"] = json!(1),
                3 => y["tt"] = json!(2),
                5 => {
                    y["tt"] = json!(3);
                    y["tp"] = json!(7);
                }
                6 => y["tt"] = json!(4),
                8 => y["tt"] = json!(2),
                _ => {}
            }
            l.push(y);
        }
        doc(l, vec![])
    });
    // masks
    add("masks", {
        let mut a = set(shape(1, everything_shapes()), "ks", ks_anim());
        a["masksProperties"] = json!([mask(path_anim(true)), mask(st(curve(true))), mask(path_old_style())]);
        let mut b = set(inst(2, "pc"), "ks", ks_split());
        b["masksProperties"] = json!([mask(path_anim(false))]);
        let mut no_path = mask(st(curve(true)));
        no_path.as_object_mut().unwrap().remove("pt");
        let mut c = marked(3, 5);
        c["masksProperties"] = json!([no_path, mask(st(curve(false)))]);
        c["parent"] = json!(1);
        doc(vec![a, b, c], vec![asset("pc", vec![set(marked(1, 1), "ks", ks_anim()), marked(2, 2)])])
    });
    // precompositions: nested, shared, shifted, stretched, matted inside
    add("precomps", {
        let mut i1 = set(inst(1, "a"), "ks", ks_anim());
        i1["st"] = json!(5);
        i1["sr"] = json!(2);
        let mut i2 = set(inst(2, "a"), "parent", json!(1));
        i2["st"] = json!(-3.5);
        i2["sr"] = json!(0.5);
        let mut i3 = inst(3, "b");
        i3["tt"] = json!(2);
        i3["tp"] = json!(4);
        let mut m = marked(4, 8);
        m["td"] = json!(1);
        let mut n1 = set(inst(1, "b"), "ks", ks_split());
        n1["st"] = json!(2);
        let mut n2 = set(marked(2, 3), "parent", json!(1));
        n2["ip"] = json!(4);
        n2["op"] = json!(22);
        let mut b1 = set(marked(1, 5), "td", json!(1));
        b1["ks"] = ks_at(2.0, 2.0);
        let b2 = set(set(marked(2, 6), "tt", json!(1)), "ks", ks_anim());
        let b3 = set(set(null(3), "ks", ks_anim()), "parent", json!(2));
        doc(
            vec![i1, i2, i3, m, inst(5, "missing")],
            vec![asset("a", vec![n1, n2, marked(3, 4)]), asset("b", vec![b1, b2, b3])],
        )
    });
    add("hidden", {
        let mut l = vec![];
        for i in 1..=6u64 {
            let mut y = set(marked(i, i as usize), "ks", ks_anim());
            if i % 2 == 0 {
                y["hd"] = json!(true);
            }
            if i == 2 || i == 4 {
                y["td"] = json!(1);
            }
            if i == 3 || i == 5 {
                y["tt"] = json!(1);
            }
            if i > 1 {
                y["parent"] = json!(i - 1);
            }
            l.push(y);
        }
        doc(l, vec![])
    });
    // gradients, static and animated, with uniform opacity stops
    add("gradients", {
        let mut v = vec![];
        let mut s = grad().as_array().unwrap().clone();
        v.push(rect(0.0, 0.0, 9.0, 9.0));
        v.push(gfill(true, 3, json!(s)));
        s.extend([json!(0.0), json!(0.5), json!(1.0), json!(0.5)]);
        v.push(gfill(false, 3, json!(s)));
        let mut g = gstroke(false, 2, json!([]));
        g["g"]["k"] = grad_anim();
        g["lc"] = json!(3);
        g["lj"] = json!(1);
        g["ml"] = json!(7);
        v.push(g);
        v.push(group(vec![ell(1.0, 2.0, 8.0, 9.0), gstroke(true, 3, grad()), set(tr(), "o", k1(70.0, 20.0))]));
        doc(vec![shape(1, v)], vec![])
    });
    add("groups", {
        let f = |k: f64| fill(k, 1.0 - k, 0.3);
        let v = vec![
            group(vec![rect(1.0, 1.0, 2.0, 2.0), group(vec![rect(2.0, 1.0, 2.0, 2.0), f(0.1), tr_at(1.0, 0.0)]), f(0.2), tr()]),
            rect(3.0, 1.0, 2.0, 2.0),
            group(vec![rect(4.0, 1.0, 2.0, 2.0), f(0.3)]),
            group(vec![group(vec![rect(5.0, 1.0, 2.0, 2.0)]), f(0.4), group(vec![f(0.5)]), rect(6.0, 1.0, 2.0, 2.0)]),
            f(0.6),
            f(0.7),
            rect(7.0, 1.0, 2.0, 2.0),
        ];
        doc(vec![shape(1, v)], vec![])
    });
    add("trims", {
        let two = group(vec![path(curve(false)), path(poly(&TRI2, true)), trimp(10.0, 60.0, 300.0), stroke(0.1, 0.2, 0.3, 1.0)]);
        let v = vec![
            path(curve(true)),
            group(vec![rect(0.0, 0.0, 10.0, 20.0), trimp(75.0, 25.0, 90.0), fill(0.1, 0.1, 0.1), rect(4.0, 4.0, 2.0, 2.0), stroke(1.0, 0.0, 0.0, 1.0)]),
            two,
            trimp(0.0, 50.0, 0.0),
            stroke(0.7, 0.2, 0.3, 1.0),
            path(poly(&TRI, false)),
            fill(0.3, 0.3, 0.3),
        ];
        doc(vec![shape(1, v)], vec![])
    });
    add("mixed kinds", {
        let mut d = doc(
            vec![solid(1), image(2), set(null(3), "ks", ks_anim()), set(marked(4, 1), "parent", json!(3)), inst(5, "p")],
            vec![
                json!({"id": "img", "w": 10, "h": 10, "p": "x.png", "u": "images/", "e": 0}),
                asset("p", vec![solid(1), set(marked(2, 2), "parent", json!(1))]),
            ],
        );
        d["layers"][3]["bm"] = json!(1);
        d["layers"][4]["bm"] = json!(16);
        d["markers"] = json!([{"cm": "m", "tm": 1, "dr": 2}]);
        d["meta"] = json!({"g": "x", "a": "me", "k": "a", "d": "d", "tc": "#fff"});
        d["metadata"] = json!({"filename": "f"});
        d["ddd"] = json!(0);
        d
    });
    add("deep precomps", {
        let mut assets = vec![];
        for i in 0..6 {
            let mut y = set(inst(1, &format!("d{}", i + 1)), "ks", set(ks_at(1.0, 2.0), "o", st(json!(90))));
            y["st"] = json!(i);
            assets.push(asset(&format!("d{i}"), vec![y, marked(2, i)]));
        }
        assets.push(asset("d6", vec![set(marked(1, 7), "ks", ks_anim())]));
        doc(vec![inst(1, "d0")], assets)
    });
    add("many layers", {
        let l = (0..40u64)
            .map(|i| {
                let mut y = marked(i + 1, i as usize);
                if i > 0 && i % 3 == 0 {
                    y["parent"] = json!(i - 1);
                }
                if i % 10 == 4 {
                    y["td"] = json!(1);
                }
                if i % 10 == 5 {
                    y["tt"] = json!(1);
                }
                y["ks"] = set(ks_at(i as f64, 0.5), "r", st(json!(i)));
                y
            })
            .collect();
        doc(l, vec![])
    });
    add("many keys", {
        let n = 40;
        let keys: Vec<(f64, Value)> = (0..n).map(|i| (i as f64 * 2.5, json!([(i * 7 % 11) as f64, (i * 5 % 13) as f64]))).collect();
        let mut pos = kf(&keys);
        for (i, k) in pos["k"].as_array_mut().unwrap().iter_mut().enumerate() {
            if i % 5 == 3 {
                k["h"] = json!(1);
            } else if i % 2 == 0 {
                k["o"] = json!({"x": 0.3, "y": 0.6});
                k["i"] = json!({"x": [0.5], "y": [0.2]});
            }
        }
        doc(vec![set(shape(1, mark(1)), "ks", set(ks(), "p", pos))], vec![])
    });
    add("many shapes", {
        let mut v = vec![];
        for i in 0..30 {
            let k = i as f64;
            v.push(match i % 5 {
                0 => rect(k, 1.0, 3.0, 2.0),
                1 => group(vec![ell(k, 2.0, 3.0, 2.0), fill(k / 30.0, 0.0, 0.0), tr_at(k, 0.0)]),
                2 => fill(0.0, k / 30.0, 0.0),
                3 => path(poly(&[[k, 0.0], [k + 2.0, 1.0], [k, 5.0]], true)),
                _ => stroke(0.0, 0.0, k / 30.0, 1.0 + k),
            });
        }
        doc(vec![shape(1, v)], vec![])
    });
    // every join, cap, miter limit and layout of opacity stops, still and moving
    add("paints", {
        let mut v = vec![];
        for i in 0..9u32 {
            let k = i as f64;
            let mut s = stroke(k / 9.0, 0.5, 0.1, 1.0 + k);
            s["lc"] = json!(i % 3 + 1);
            s["lj"] = json!(i / 3 + 1);
            s["ml"] = json!([0.5, 4.0, 11.0][(i % 3) as usize]);
            if i % 2 == 0 {
                s["w"] = k1(1.0 + k, 20.0 - k);
            }
            let mut g = gstroke(i % 2 == 1, 2, json!([]));
            g["ml"] = json!([60.0, 1.0, 9.5][(i / 3) as usize]);
            g["lj"] = json!(1);
            g["w"] = k1(2.0, 3.0 + k);
            let mut stops = vec![0.1 * k, 1.0, 0.0, 0.5, 1.0, 0.2, 0.6, 0.1];
            (0..k as usize).for_each(|j| stops.extend([j as f64 / k, 0.25 + k / 16.0]));
            g["g"]["k"] = if i % 3 == 0 {
                st(json!(stops))
            } else {
                let mut to = stops.clone();
                to[1] = 0.25;
                to[6] = 0.75;
                kf(&[(0.0, json!(stops)), (20.0, json!(to)), (30.0, json!(stops))])
            };
            v.push(group(vec![path(curve(i % 2 == 0)), s, path(poly(&[[k, 0.0], [k, 9.0], [3.0, 4.0]], true)), g]));
        }
        doc(vec![shape(1, v)], vec![])
    });
    for n in ["everything", "parents", "masks", "precomps", "groups", "paints"] {
        let mut d = out.iter().find(|d| d.0 == n).unwrap().1.clone();
        enrich(&mut d);
        out.push((format!("{n}, all members"), d));
    }
    out
}

/// Gives members that are left out values that are not the default ones.
fn enrich(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(enrich),
        Value::Object(o) => {
            o.values_mut().for_each(enrich);
            let ty = o.get("ty").and_then(Value::as_str).unwrap_or_default().to_string();
            let mut add = |n: &str, x: Value| {
                o.entry(n).or_insert(x);
            };
            match ty.as_str() {
                "st" | "gs" => {
                    add("ml", json!(12.5));
                    add("lj", json!(1));
                    add("lc", json!(2));
                }
                "sr" => {
                    add("os", st(json!(15)));
                    add("is", st(json!(-20)));
                }
                _ => {}
            }
            for place in ["ks", "tr"] {
                let t = if place == "tr" && ty == "tr" { Some(&mut *o) } else { o.get_mut(place).and_then(Value::as_object_mut) };
                if let Some(t) = t
                    && t.contains_key("p")
                {
                    t.entry("a").or_insert(st(json!([1.5, -2.5])));
                    t.entry("r").or_insert(st(json!(25)));
                    t.entry("o").or_insert(st(json!(85)));
                    // those of the builders are zero
                    for (n, x) in [("sk", 7.0), ("sa", 30.0)] {
                        let e = t.entry(n).or_insert(st(json!(0)));
                        if e["k"] == json!(0) || e["k"] == json!(0.0) {
                            *e = st(json!(x));
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

/// The repository's own sample animations.
pub fn assets() -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut dirs = vec![std::path::PathBuf::from("/repo/examples/assets")];
    while let Some(d) = dirs.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|e| e == "json")
                && let Ok(t) = std::fs::read_to_string(&p)
                && let Ok(v) = serde_json::from_str::<Value>(&t)
            {
                out.push((p.file_name().unwrap().to_string_lossy().into_owned(), v));
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}
