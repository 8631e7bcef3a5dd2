//! Value sweeps: every slot of a document through every value of a list, alone
//! (static and animated) and in pairs.
use crate::check::*;
use crate::doc::*;
use crate::run::*;

pub type Slot = (String, Vec<Value>);

pub fn nums(v: &[f64]) -> Vec<Value> {
    v.iter().map(|n| json!(n)).collect()
}
pub fn pairs(v: &[f64]) -> Vec<Value> {
    v.iter().flat_map(|a| v.iter().map(move |b| json!([a, b]))).collect()
}
pub fn slot(p: &str, v: Vec<Value>) -> Slot {
    (p.to_string(), v)
}
/// The transform members under `at`.
pub fn ks_slots(at: &str) -> Vec<Slot> {
    vec![
        slot(&format!("{at}/a"), pairs(&[-7.5, 0.0, 40.0])),
        slot(&format!("{at}/p"), pairs(&[-20.25, 0.0, 33.0])),
        slot(&format!("{at}/s"), pairs(&[-100.0, 0.0, 33.3, 100.0, 250.0])),
        slot(&format!("{at}/r"), nums(&[-725.0, -90.0, -0.5, 0.0, 15.0, 90.0, 180.0, 270.0, 359.5, 360.0, 405.0])),
        slot(&format!("{at}/sk"), nums(&[-75.0, -20.0, 0.0, 0.5, 45.0, 60.0])),
        slot(&format!("{at}/sa"), nums(&[-135.0, -30.0, 0.0, 45.0, 90.0, 200.0])),
    ]
}
/// A transform that holds every member, none of them neutral.
pub fn full_ks() -> Value {
    json!({"a": st(json!([2, 3])), "p": st(json!([11, 7])), "s": st(json!([120, 90])), "r": st(json!(25)), "sk": st(json!(10)),
        "sa": st(json!(20)), "o": st(json!(80))})
}

pub fn sweep(x: &mut X, name: &str, base: &Value, slots: &[Slot]) {
    let put_at = |d: &mut Value, p: &str, v: Value| put(d, p, v);
    let was = |p: &str| base.pointer(&format!("/{p}")).unwrap_or_else(|| panic!("no slot {p}"))["k"].clone();
    x.family(&format!("{name}: every value of every slot"));
    x.sample(|| json!({"doc": base, "slots": slots.iter().map(|s| &s.0).collect::<Vec<_>>()}));
    for (p, vs) in slots {
        for v in vs {
            x.case(|k| {
                let mut d = base.clone();
                put_at(&mut d, p, st(v.clone()));
                conform(k, &d, &[0.0])?;
                put_at(&mut d, p, kf(&[(0.0, was(p)), (16.0, v.clone())]));
                conform(k, &d, &[0.0, 4.0, 16.0, 17.0])?;
                put_at(&mut d, p, kfe(&[(-3.0, v.clone()), (5.0, was(p)), (9.0, v.clone())], (0.3, 0.0), (0.6, 1.0)));
                conform(k, &d, &[-4.0, 0.0, 5.0, 7.5, 9.0])
            });
        }
    }
    x.family(&format!("{name}: every pair of slots"));
    let quick = !x.tier_thorough;
    for (i, (p, vs)) in slots.iter().enumerate() {
        for (q, ws) in &slots[i + 1..] {
            // two-dimensional values: a diagonal band suffices for pairs in the quick tier
            let thin = |l: &[Value]| -> Vec<Value> {
                let n = l.len();
                if quick && n > 8 { l.iter().step_by(n.div_ceil(7)).cloned().collect() } else { l.to_vec() }
            };
            for v in thin(vs) {
                x.case(|k| {
                    for w in thin(ws) {
                        let mut d = base.clone();
                        put_at(&mut d, p, st(v.clone()));
                        put_at(&mut d, q, st(w.clone()));
                        conform(k, &d, &[1.0])?;
                        put_at(&mut d, q, kf(&[(0.0, was(q)), (16.0, w.clone())]));
                        conform(k, &d, &[5.0])?;
                    }
                    Ok(())
                });
            }
        }
    }
}

fn inside(items: Vec<Value>) -> Value {
    doc(vec![set(shape(1, items), "ks", super::layers::odd_ks(1))], vec![])
}

pub fn transforms(x: &mut X) {
    let g = {
        let mut t = full_ks();
        t["ty"] = json!("tr");
        let mut v = mark(3);
        v.push(t);
        group(v)
    };
    let child = set(set(shape(1, vec![g]), "ks", full_ks()), "parent", json!(2));
    let base = doc(vec![child, set(null(2), "ks", full_ks())], vec![]);
    let mut slots = ks_slots("layers/0/ks");
    slots.extend(ks_slots("layers/1/ks"));
    slots.extend(ks_slots("layers/0/shapes/0/it/2"));
    sweep(x, "transform values", &base, &slots);
    let i = set(set(inst(1, "a"), "ks", full_ks()), "parent", json!(2));
    let leaf = set(set(marked(1, 1), "ks", full_ks()), "parent", json!(2));
    let base = doc(
        vec![i, set(marked(2, 2), "ks", super::layers::odd_ks(2))],
        vec![asset("a", vec![leaf, set(null(2), "ks", super::layers::odd_ks(3))])],
    );
    let mut slots = ks_slots("layers/0/ks");
    slots.extend(ks_slots("assets/0/layers/0/ks"));
    sweep(x, "transform values of instances", &base, &slots);
}

pub fn groups(x: &mut X) {
    let t = || {
        let mut t = full_ks();
        t["ty"] = json!("tr");
        t
    };
    let base = inside(vec![
        rect(1.0, 2.0, 9.0, 8.0),
        group(vec![
            ell(3.0, 3.0, 4.0, 6.0),
            group(vec![rect(0.0, 0.0, 5.0, 2.0), stroke(0.3, 0.6, 0.9, 1.5), t()]),
            path(poly(&[[1.0, 1.0], [5.0, 2.0], [2.0, 7.0]], true)),
            fill(0.5, 0.1, 0.2),
            t(),
        ]),
        fill(0.9, 0.8, 0.7),
    ]);
    let o = nums(&[0.0, 0.5, 50.0, 100.0]);
    let mut slots = ks_slots("layers/0/shapes/1/it/4");
    slots.push(slot("layers/0/shapes/1/it/4/o", o.clone()));
    slots.extend(ks_slots("layers/0/shapes/1/it/1/it/2"));
    slots.push(slot("layers/0/shapes/1/it/1/it/2/o", o));
    sweep(x, "group transform values", &base, &slots);
}

pub fn geometry(x: &mut X) {
    let f = || fill(0.1, 0.2, 0.3);
    let at = |m: &str| format!("layers/0/shapes/0/{m}");
    let pos = || slot(&at("p"), pairs(&[-30.5, 0.0, 12.0, 1e4]));
    let size = || slot(&at("s"), pairs(&[0.0, 0.25, 7.0, 40.0, 1e4]));
    let mut rc = rect(5.0, 6.0, 20.0, 14.0);
    rc["r"] = st(json!(3));
    sweep(x, "rectangle", &inside(vec![rc, f()]), &[pos(), size(), slot(&at("r"), nums(&[0.0, 0.25, 1.0, 3.5, 7.0, 20.0, 1e4]))]);
    sweep(x, "ellipse", &inside(vec![ell(5.0, 6.0, 20.0, 14.0), f()]), &[pos(), size()]);
    for sy in [1, 2] {
        let mut s = star(sy, 5.0);
        s["os"] = st(json!(10));
        s["is"] = st(json!(20));
        let angle = [-400.0, -90.0, 0.0, 33.0, 90.0, 180.0, 720.0];
        let round = [-120.0, -33.0, 0.0, 1.0, 50.0, 100.0, 200.0];
        let radius = [0.0, 0.25, 7.0, 30.0, 500.0];
        sweep(
            x,
            if sy == 1 { "star" } else { "polygon" },
            &inside(vec![s, f()]),
            &[
                slot(&at("p"), pairs(&[-30.5, 0.0, 12.0])),
                slot(&at("r"), nums(&angle)),
                slot(&at("pt"), nums(&[4.0, 5.0, 6.0, 8.0, 9.0, 12.0, 25.0])),
                slot(&at("or"), nums(&radius)),
                slot(&at("ir"), nums(&radius)),
                slot(&at("os"), nums(&round)),
                slot(&at("is"), nums(&round)),
            ],
        );
    }
    x.family("path coordinates: every value of every coordinate");
    let vals = [-100.25, -1.0, 0.0, 1e-4, 3.0, 1e4];
    let b = crate::corpus::curve(true);
    let n = b["v"].as_array().unwrap().len();
    for part in ["v", "i", "o"] {
        for i in 0..n {
            product(&[vals.len(), vals.len(), 2], |c| {
                x.case(|k| {
                    let mut e = b.clone();
                    e[part][i] = json!([vals[c[0]], vals[c[1]]]);
                    e["c"] = json!(c[2] == 1);
                    conform(k, &inside(vec![path(e.clone()), f()]), &[0.0])?;
                    let p = json!({"ty": "sh", "ks": path_kf(&[(0.0, b.clone()), (16.0, e)])});
                    conform(k, &inside(vec![p, f()]), &[0.0, 5.0, 16.0])
                });
            });
        }
    }
}

pub fn trims(x: &mut X) {
    let pct = nums(&[0.0, 0.5, 10.0, 25.0, 50.0, 75.0, 90.0, 99.5, 100.0]);
    let off = nums(&[-1080.0, -361.0, -90.0, 0.0, 7.2, 90.0, 180.0, 324.0, 360.0, 450.0, 3600.0]);
    let tm = |at: &str| {
        vec![slot(&format!("{at}/s"), pct.clone()), slot(&format!("{at}/e"), pct.clone()), slot(&format!("{at}/o"), off.clone())]
    };
    let base = inside(vec![
        rect(1.0, 2.0, 30.0, 20.0),
        group(vec![path(poly(&[[0.0, 0.0], [50.0, 0.0], [50.0, 35.0]], false)), trimp(10.0, 80.0, 20.0), stroke(0.1, 0.2, 0.3, 1.0)]),
        trimp(20.0, 70.0, -40.0),
        fill(0.1, 0.2, 0.3),
    ]);
    let mut slots = tm("layers/0/shapes/1/it/1");
    slots.extend(tm("layers/0/shapes/2"));
    sweep(x, "trims within trims", &base, &slots);
}

pub fn paints(x: &mut X) {
    let stops = || json!([0.0, 1.0, 0.25, 0.0, 0.5, 0.1, 0.6, 0.3, 1.0, 0.0, 0.5, 1.0]);
    let base = inside(vec![
        rect(0.0, 0.0, 9.0, 9.0),
        stroke(0.1, 0.2, 0.3, 2.0),
        gfill(false, 3, stops()),
        gfill(true, 3, stops()),
        gstroke(false, 3, stops()),
        gstroke(true, 3, stops()),
    ]);
    let mut slots = vec![slot("layers/0/shapes/1/w", nums(&[0.0, 0.25, 1.0, 3.0, 100.0]))];
    slots.push(slot(
        "layers/0/shapes/1/c",
        [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 1.0], [0.2, 0.9, 0.4, 1.0], [1.0, 0.0, 0.5, 1.0]].iter().map(|c| json!(c)).collect(),
    ));
    for i in 2..6 {
        let grid = pairs(&[-7.0, 0.0, 5.5, 12.0]);
        slots.push(slot(&format!("layers/0/shapes/{i}/s"), grid.clone()));
        slots.push(slot(&format!("layers/0/shapes/{i}/e"), grid));
    }
    for i in 4..6 {
        slots.push(slot(&format!("layers/0/shapes/{i}/w"), nums(&[0.0, 0.25, 1.0, 100.0])));
    }
    sweep(x, "paint values", &base, &slots);
    x.family("gradient end points");
    let lv = [-7.0, 0.0, 5.5, 12.0, 300.0];
    product(&[2, 2, 5, 5, 5, 5], |c| {
        x.case(|k| {
            let mut g = if c[0] == 0 { gfill(c[1] == 1, 3, stops()) } else { gstroke(c[1] == 1, 3, stops()) };
            let (s, e) = (json!([lv[c[2]], lv[c[3]]]), json!([lv[c[4]], lv[c[5]]]));
            g["s"] = st(s.clone());
            g["e"] = st(e.clone());
            let one = |g: &Value| inside(vec![rect(0.0, 0.0, 9.0, 9.0), g.clone()]);
            conform(k, &one(&g), &[0.0])?;
            g["e"] = kf(&[(0.0, json!([3, 4])), (16.0, e)]);
            conform(k, &one(&g), &[4.0, 16.0])?;
            g["s"] = kf(&[(0.0, json!([1, -2])), (16.0, s)]);
            conform(k, &one(&g), &[4.0, 16.0])
        });
    });
    x.family("stop values");
    let lv = [0.0, 0.1, 0.5, 1.0];
    for n in 1..=3usize {
        for at in 0..n {
            product(&[4, 4, 4, 4, 2], |c| {
                x.case(|k| {
                    let mut l: Vec<f64> = (0..n)
                        .flat_map(|i| [i as f64 / n as f64, 0.2 + 0.1 * i as f64, 0.9 - 0.2 * i as f64, 0.4])
                        .collect();
                    // offsets stay in order
                    let lo = at as f64 / n as f64;
                    l[at * 4] = lo + lv[c[0]] / n as f64;
                    for j in 1..4 {
                        l[at * 4 + j] = lv[c[j]];
                    }
                    let mut g = gfill(c[4] == 1, n, json!(l));
                    let one = |g: &Value| inside(vec![rect(0.0, 0.0, 9.0, 9.0), g.clone()]);
                    conform(k, &one(&g), &[0.0])?;
                    let first: Vec<f64> = (0..n).flat_map(|i| [i as f64 / n as f64, 0.5, 0.25, 0.75]).collect();
                    g["g"]["k"] = kf(&[(0.0, json!(first)), (16.0, json!(l))]);
                    conform(k, &one(&g), &[0.0, 5.0, 16.0])
                });
            });
        }
    }
}

pub fn opacities(x: &mut X) {
    let g2 = json!([0, 1, 0, 0, 1, 0, 1, 0]);
    let ga = json!([0, 1, 0, 0, 1, 0, 1, 0, 0, 0.6, 1, 0.6]);
    let mut fl = set(fill(0.2, 0.4, 0.6), "o", st(json!(90)));
    fl["c"] = st(json!([0.2, 0.4, 0.6, 1]));
    let o = |v: Value, n: f64| set(v, "o", st(json!(n)));
    let shapes = vec![
        group(vec![
            rect(1.0, 1.0, 3.0, 3.0),
            fl,
            o(gfill(false, 2, ga.clone()), 70.0),
            group(vec![ell(1.0, 1.0, 3.0, 3.0), o(stroke(0.2, 0.4, 0.6, 2.0), 60.0), o(gstroke(true, 2, g2), 85.0), o(tr_at(1.0, 1.0), 75.0)]),
            o(tr_at(2.0, 2.0), 95.0),
        ]),
    ];
    let src = set(set(marked(4, 2), "td", json!(1)), "ks", o(ks(), 65.0));
    let y = set(set(shape(2, shapes), "ks", o(ks(), 88.0)), "tt", json!(1));
    let base = doc(
        vec![set(inst(1, "a"), "ks", o(ks(), 77.0))],
        vec![asset("a", vec![src, y, set(inst(3, "b"), "ks", o(ks(), 55.0))]), asset("b", vec![set(marked(1, 5), "ks", o(ks(), 45.0))])],
    );
    let s = "assets/0/layers/1/shapes/0/it";
    let slots: Vec<Slot> = [
        "layers/0/ks/o".to_string(),
        "assets/0/layers/0/ks/o".into(),
        "assets/0/layers/1/ks/o".into(),
        "assets/0/layers/2/ks/o".into(),
        "assets/1/layers/0/ks/o".into(),
        format!("{s}/1/o"),
        format!("{s}/2/o"),
        format!("{s}/3/it/1/o"),
        format!("{s}/3/it/2/o"),
        format!("{s}/3/it/3/o"),
        format!("{s}/4/o"),
    ]
    .into_iter()
    .map(|p| (p, nums(&[0.0, 0.5, 1.0, 12.5, 50.0, 99.0, 99.75, 100.0])))
    .collect();
    sweep(x, "opacity values", &base, &slots);
}

pub fn masks(x: &mut X) {
    let m = |k: f64| mask(st(poly(&[[k, 0.0], [9.0, k], [9.0, 9.0]], true)));
    let mut y = set(set(marked(1, 1), "ks", full_ks()), "parent", json!(2));
    y["masksProperties"] = json!([m(0.0), m(2.0)]);
    let base = doc(vec![y, set(null(2), "ks", full_ks())], vec![]);
    let mut slots = ks_slots("layers/0/ks");
    slots.extend(ks_slots("layers/1/ks"));
    sweep(x, "masked layer transforms", &base, &slots);
    let mut i = set(inst(1, "a"), "ks", super::layers::odd_ks(2));
    i["masksProperties"] = json!([m(1.0)]);
    i["st"] = json!(2);
    let leaf = set(set(marked(1, 1), "ks", full_ks()), "masksProperties", json!([m(0.0), mask(crate::corpus::path_anim(true))]));
    let base = doc(vec![i], vec![asset("a", vec![leaf])]);
    sweep(x, "masked layer of an instance", &base, &ks_slots("assets/0/layers/0/ks"));
}

pub fn mattes(x: &mut X) {
    let src = set(set(set(marked(1, 1), "td", json!(1)), "ks", full_ks()), "parent", json!(3));
    let usr = set(set(set(marked(2, 2), "tt", json!(2)), "ks", full_ks()), "parent", json!(3));
    let base = doc(vec![src, usr, set(null(3), "ks", full_ks())], vec![]);
    let mut slots = ks_slots("layers/0/ks");
    slots.extend(ks_slots("layers/1/ks"));
    slots.extend(ks_slots("layers/2/ks"));
    let o = nums(&[0.0, 0.5, 50.0, 100.0]);
    for i in 0..3 {
        slots.push(slot(&format!("layers/{i}/ks/o"), o.clone()));
    }
    sweep(x, "matte and matted transforms", &base, &slots);
}

pub fn times(x: &mut X) {
    x.family("start time x stretch x frame");
    let sts = [-100.0, -10.5, -1.0, 0.0, 0.25, 3.0, 7.25, 64.0, 1000.0];
    let srs = [-4.0, -1.0, -0.5, 0.125, 0.25, 0.5, 1.0, 2.0, 3.0, 4.0, 10.0];
    let frames = [-200.0, -7.0, -0.5, 0.0, 0.75, 5.0, 9.0, 23.5, 60.0, 99.0, 250.0, 1024.0];
    product(&[sts.len(), srs.len(), 2], |c| {
        x.case(|k| {
            let mut leaf = set(marked(1, 1), "ks", super::layers::anim_ks(1));
            leaf["ip"] = json!(-1e7);
            leaf["op"] = json!(1e7);
            leaf["masksProperties"] = json!([mask(crate::corpus::path_anim(true))]);
            let mut i = set(inst(1, "a"), "ks", super::layers::anim_ks(2));
            i["st"] = json!(sts[c[0]]);
            i["sr"] = json!(srs[c[1]]);
            i["ip"] = json!(-1e7);
            i["op"] = json!(1e7);
            let d = if c[2] == 0 {
                doc(vec![i], vec![asset("a", vec![leaf])])
            } else {
                let mut o = i.clone();
                o["refId"] = json!("b");
                o["st"] = json!(5);
                o["sr"] = json!(2);
                doc(vec![o], vec![asset("b", vec![i]), asset("a", vec![leaf])])
            };
            conform(k, &d, &frames)
        });
    });
}
