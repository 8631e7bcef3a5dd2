use crate::check::*;
use crate::corpus;
use crate::doc::*;
use crate::rec::*;
use crate::run::*;
use kurbo::Affine;

/// A transform no two of which commute.
pub fn odd_ks(n: usize) -> Value {
    let k = n as f64;
    let mut v = ks_at(3.0 * k + 1.0, 5.0 - 2.0 * k);
    v["r"] = st(json!(10.0 * k + 5.0));
    v["s"] = st(json!([100.0 + 10.0 * k, 80.0 - 5.0 * k]));
    v["a"] = st(json!([k, 1.0]));
    v
}
pub fn anim_ks(n: usize) -> Value {
    let k = n as f64;
    let mut v = odd_ks(n);
    v["p"] = kf(&[(0.0, json!([k, 1.0])), (16.0, json!([9.0 - k, 7.0]))]);
    v["o"] = kf(&[(0.0, json!(100)), (16.0, json!(20.0 + k))]);
    v
}
const WIN: [f64; 5] = [-2.5, 0.0, 3.0, 3.5, 10.0];

fn around(ts: &[f64]) -> Vec<f64> {
    let mut v: Vec<f64> = ts.iter().flat_map(|t| {
        let ulp = t.abs().max(1.0) * f64::EPSILON;
        [t - 0.25, *t, t + 0.25, t + 1.0 / 1024.0, t - 1.0 / 1024.0, t - 1e-6, t + 1e-6, t - ulp, t + ulp]
    }).collect();
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}

pub fn c09(x: &mut X) {
    super::corpus_conform(x);
    let frames = around(&WIN);
    x.family("top-level window x kind x role");
    for kind in 0..7 {
        for ip in WIN {
            for op in WIN {
                let make = || {
                    let mut l = match kind {
                        0 => marked(1, 1),
                        1 => null(1),
                        2 => inst(1, "a"),
                        3 => solid(1),
                        4 => set(marked(1, 1), "hd", json!(true)),
                        5 => set(marked(1, 1), "td", json!(1)),
                        _ => set(inst(1, "a"), "td", json!(1)),
                    };
                    l["ip"] = json!(ip);
                    l["op"] = json!(op);
                    l["ks"] = odd_ks(1);
                    let user = set(set(marked(2, 2), "parent", json!(1)), "tt", json!(1));
                    let mut child = set(marked(3, 3), "parent", json!(1));
                    child["ip"] = json!(-100);
                    doc(vec![l, user, child, marked(4, 4)], vec![asset("a", vec![marked(1, 5), marked(2, 6)])])
                };
                x.sample(|| json!({"doc": make(), "frames": frames}));
                x.case(|k| conform_both(k, &make(), &frames));
            }
        }
    }
    x.family("window on instance time");
    for start in [-3.0, 0.0, 2.5] {
        for sr in [0.5, 1.0, 2.0, -1.0, 4.0] {
            for ip in WIN {
                for op in WIN {
                    let make = || {
                        let mut c = set(marked(1, 1), "ks", odd_ks(1));
                        c["ip"] = json!(ip);
                        c["op"] = json!(op);
                        let ch = set(set(marked(2, 2), "parent", json!(1)), "ip", json!(-100));
                        let m = set(c.clone(), "td", json!(1));
                        let m = set(m, "ind", json!(3));
                        let u = set(set(marked(4, 3), "tt", json!(2)), "ip", json!(-100));
                        let mut i = inst(1, "a");
                        i["ip"] = json!(-100);
                        i["st"] = json!(start);
                        i["sr"] = json!(sr);
                        doc(vec![i], vec![asset("a", vec![c, ch, m, u])])
                    };
                    // rendered frames that put the local time around the window
                    let fr: Vec<f64> = frames.iter().map(|l| l * sr + start).collect();
                    x.case(|k| conform(k, &make(), &fr));
                }
            }
        }
    }
    x.family("window two instances deep");
    for (s1, r1) in [(0.0, 1.0), (2.0, 2.0), (-1.5, 0.5)] {
        for (s2, r2) in [(0.0, 1.0), (4.0, 0.5), (-2.0, -1.0)] {
            for (wi, wo) in [(0.0, 10.0), (-2.5, 3.0), (3.0, 3.5)] {
                for (mi, mo) in [(-100.0, 100.0), (0.0, 8.0), (3.0, 3.5)] {
                    let make = || {
                        let mut leaf = marked(1, 1);
                        leaf["ip"] = json!(wi);
                        leaf["op"] = json!(wo);
                        let mut mid = inst(1, "b");
                        mid["st"] = json!(s2);
                        mid["sr"] = json!(r2);
                        mid["ip"] = json!(mi);
                        mid["op"] = json!(mo);
                        let mut top = inst(1, "a");
                        top["st"] = json!(s1);
                        top["sr"] = json!(r1);
                        top["ip"] = json!(-100);
                        doc(vec![top], vec![asset("a", vec![mid, marked(2, 2)]), asset("b", vec![leaf])])
                    };
                    let mut fr = vec![];
                    for l in around(&[wi, wo, mi, mo]) {
                        fr.push((l * r2 + s2) * r1 + s1);
                        fr.push(l * r1 + s1);
                        fr.push(l);
                    }
                    x.case(|k| conform(k, &make(), &fr));
                }
            }
        }
    }
    x.family("staggered layers");
    for n in x.sizes(1, 48, 160, 513) {
        let make = || {
            let l = (0..n)
                .map(|i| {
                    let mut y = marked(i + 1, i as usize % 20);
                    y["ip"] = json!(i as f64 * 0.5);
                    y["op"] = json!(i as f64 * 0.5 + 3.0);
                    y
                })
                .collect();
            doc(l, vec![])
        };
        let fr: Vec<f64> = (0..n + 8).map(|f| f as f64 * 0.5 - 0.5).collect();
        x.case(|k| conform_both(k, &make(), &fr));
    }
    x.family("large and fractional window edges");
    for b in [0.1, 1e3 + 0.1, 65536.5, 16777217.0, 1e9 + 0.5, -1e6 - 0.75] {
        for w in [0.25, 1.0, 1e5] {
            let make = || {
                let mut y = marked(1, 1);
                y["ip"] = json!(b);
                y["op"] = json!(b + w);
                let mut i = inst(2, "a");
                i["ip"] = json!(-1e12);
                i["op"] = json!(1e12);
                doc(vec![y.clone(), i], vec![asset("a", vec![y])])
            };
            let e = 1.0 / 128.0;
            let fr = [b - 1.0, b - e, b, b + e, b + w - e, b + w, b + w + e, b + w + 1.0];
            x.case(|k| conform(k, &make(), &fr));
        }
    }
    super::ladder::ladder(x, "C09");
}

/// Values for each member of a transform; `None` omits it.
pub fn member_values() -> Vec<(&'static str, Vec<Option<Value>>)> {
    let an2 = |a: [f64; 2], b: [f64; 2]| kf(&[(0.0, json!(a)), (16.0, json!(b))]);
    let an = |a: f64, b: f64| kf(&[(0.0, json!(a)), (16.0, json!(b))]);
    vec![
        ("a", vec![None, Some(st(json!([0, 0]))), Some(st(json!([5, -3]))), Some(an2([1.0, 2.0], [3.0, -4.0]))]),
        (
            "p",
            vec![
                Some(st(json!([0, 0]))),
                Some(st(json!([10, 4]))),
                Some(json!({"s": true, "x": st(json!(7)), "y": st(json!(-2))})),
                Some(json!({"s": true, "x": an(0.0, 8.0), "y": st(json!(3))})),
                Some(json!({"s": true, "x": st(json!(2)), "y": an(5.0, 1.0), "z": st(json!(0))})),
                Some(an2([1.0, 1.0], [9.0, -5.0])),
            ],
        ),
        (
            "s",
            vec![
                None,
                Some(st(json!([100, 100, 100]))),
                Some(st(json!([50, 200]))),
                Some(st(json!([-100, 30]))),
                Some(an2([100.0, 100.0], [20.0, 180.0])),
            ],
        ),
        (
            "r",
            vec![
                None,
                Some(st(json!(0))),
                Some(st(json!(90))),
                Some(st(json!(-403.5))),
                Some(an(0.0, 123.0)),
                Some(json!({"x": st(json!(0)), "y": st(json!(0)), "z": st(json!(33)), "or": st(json!([0, 0, 0]))})),
            ],
        ),
        ("sk", vec![None, Some(st(json!(0))), Some(st(json!(20))), Some(an(-10.0, 30.0))]),
        ("sa", vec![None, Some(st(json!(0))), Some(st(json!(45))), Some(an(0.0, 90.0))]),
    ]
}

fn acyclic(next: &[Option<usize>]) -> bool {
    (0..next.len()).all(|s| {
        let mut at = Some(s);
        for _ in 0..=next.len() {
            match at {
                None => return true,
                Some(a) => at = next[a],
            }
        }
        false
    })
}
fn only_balanced(k: &mut Cov, d: &Value, frames: &[f64]) -> R {
    let c = parse(d)?;
    for &f in frames {
        let ops = render(&c, f);
        k.step(ops.len());
        k.state(&(d.to_string(), f.to_bits()));
        balanced(&ops, c.width as f64, c.height as f64, Affine::IDENTITY)
            .map_err(|e| differ(e, d, f, &ops, &[]))?;
    }
    Ok(())
}

pub fn c10(x: &mut X) {
    super::corpus_conform(x);
    let inds = [5u64, 1, 9, 2];
    for n in 1..=x.pick(4, 4usize) {
        x.family(&format!("parent functions over {n} layers"));
        let perms = permutations(n);
        let thorough = x.tier_thorough;
        for p in perms.iter().enumerate().filter(|(i, _)| n < 4 || thorough || i % 6 == 0).map(|p| p.1) {
            // parent choice: 0 none, 1..=n layer, n+1 missing
            product(&vec![n + 2; n], |c| {
                let parent = |i: usize| match c[i] {
                    0 => None,
                    j if j <= n => Some(j - 1),
                    _ => None,
                };
                let make = || {
                    let l = (0..n)
                        .map(|i| {
                            let mut y = set(marked(inds[p[i]], i), "ks", if i % 2 == 0 { odd_ks(i) } else { anim_ks(i) });
                            if c[i] != 0 {
                                y["parent"] = json!(if c[i] <= n { inds[p[c[i] - 1]] } else { 77 });
                            }
                            y
                        })
                        .collect();
                    doc(l, vec![])
                };
                let next: Vec<_> = (0..n).map(parent).collect();
                x.sample(|| json!({"doc": make(), "frame": 5}));
                x.case(|k| {
                    if acyclic(&next) {
                        conform_both(k, &make(), &[5.0])
                    } else {
                        only_balanced(k, &make(), &[5.0])
                    }
                });
            });
        }
    }
    x.family("parent kind x window x hidden x role");
    product(&[6, 2, 3, 2, 2, 2], |c| {
        let make = || {
            let mut p = match c[0] {
                0 => marked(7, 1),
                1 => null(7),
                2 => inst(7, "a"),
                3 => solid(7),
                4 => image(7),
                _ => shape(7, vec![]),
            };
            p["ks"] = set(anim_ks(1), "o", st(json!(10)));
            if c[1] == 1 {
                p["hd"] = json!(true);
            }
            if c[2] > 0 {
                p["ip"] = json!(if c[2] == 1 { 50 } else { -9 });
                p["op"] = json!(if c[2] == 1 { 60 } else { -5 });
            }
            if c[3] == 1 {
                p["td"] = json!(1);
            }
            if c[4] == 1 {
                p["masksProperties"] = json!([mask(st(poly(&[[0.0, 0.0], [9.0, 0.0], [9.0, 9.0]], true)))]);
            }
            let mid = set(set(null(3), "ks", odd_ks(2)), "parent", json!(7));
            let mut ch = set(set(marked(4, 4), "ks", odd_ks(3)), "parent", json!(if c[5] == 1 { 3 } else { 7 }));
            ch["bm"] = json!(0);
            let mut a = vec![ch, p, mid];
            if c[5] == 1 {
                a.reverse();
            }
            doc(a, vec![asset("a", vec![marked(1, 6)])])
        };
        x.case(|k| conform_both(k, &make(), &[0.0, 7.0, 52.0]));
    });
    x.family("transform members");
    let mv = member_values();
    let sizes: Vec<usize> = mv.iter().map(|m| m.1.len()).collect();
    product(&sizes, |c| {
        for place in 0..3 {
            // the full product on layers, a diagonal slice elsewhere
            if place > 0 && !x.tier_thorough && (c.iter().sum::<usize>() + place) % 3 != 0 {
                continue;
            }
            let make = || {
                let mut t = json!({});
                for (i, (name, vals)) in mv.iter().enumerate() {
                    if let Some(v) = &vals[c[i]] {
                        t[*name] = v.clone();
                    }
                }
                match place {
                    0 => doc(vec![set(marked(1, 1), "ks", t)], vec![]),
                    1 => {
                        t["ty"] = json!("tr");
                        let mut items = mark(1);
                        items.push(t);
                        doc(vec![set(shape(1, vec![group(items)]), "ks", odd_ks(1))], vec![])
                    }
                    _ => doc(vec![set(marked(1, 1), "parent", json!(2)), set(set(null(2), "ks", t), "ip", json!(90))], vec![]),
                }
            };
            x.case(|k| conform(k, &make(), &[-1.0, 4.0, 16.0]));
        }
    });
    x.family("chains");
    for n in x.sizes(1, 48, 128, 301) {
        for rev in [false, true] {
            let make = || {
                let mut l: Vec<Value> = (0..n)
                    .map(|i| {
                        let mut k = ks_at(0.5, 0.25);
                        k["r"] = st(json!(3.0));
                        let mut y = if i % 4 == 3 { null(i + 1) } else { marked(i + 1, i as usize % 9) };
                        y["ks"] = k;
                        if i > 0 {
                            y["parent"] = json!(i);
                        }
                        y
                    })
                    .collect();
                if rev {
                    l.reverse();
                }
                doc(l, vec![])
            };
            x.case(|k| conform_both(k, &make(), &[0.0]));
        }
    }
    x.family("indices resolve inside the containing list");
    product(&[3, 3, 3, 2], |c| {
        let make = || {
            let inds = [1u64, 2, 1000000];
            let a1 = set(marked(inds[c[0]], 1), "ks", odd_ks(1));
            let mut a2 = set(marked(3, 2), "ks", odd_ks(2));
            a2["parent"] = json!(inds[c[1]]);
            let r1 = set(marked(inds[c[2]], 3), "ks", odd_ks(3));
            let mut i = set(inst(50, "a"), "ks", odd_ks(4));
            i["parent"] = json!(inds[c[2]]);
            let mut ls = vec![i, r1];
            if c[3] == 1 {
                ls.reverse();
            }
            doc(ls, vec![asset("a", vec![a1, a2]), asset("b", vec![])])
        };
        x.case(|k| conform_both(k, &make(), &[0.0]));
    });
    x.family("index zero");
    for order in permutations(3) {
        let make = || {
            let l = [
                set(marked(0, 1), "ks", odd_ks(1)),
                set(set(marked(4, 2), "ks", odd_ks(2)), "parent", json!(0)),
                set(set(marked(2, 3), "ks", odd_ks(3)), "parent", json!(4)),
            ];
            doc(order.iter().map(|i| l[*i].clone()).collect(), vec![])
        };
        x.case(|k| conform_both(k, &make(), &[0.0]));
    }
    super::sweep::transforms(x);
    super::ladder::ladder(x, "C10");
}

pub fn c11(x: &mut X) {
    super::corpus_conform(x);
    let kinds = 8;
    for n in 1..=x.pick(4, 5usize) {
        x.family(&format!("layer lists of length {n}"));
        product(&vec![kinds; n], |c| {
            let make = || {
                let l = (0..n)
                    .map(|i| {
                        let ind = (10 - i) as u64;
                        match c[i] {
                            0 => marked(ind, i),
                            1 => null(ind),
                            2 => set(marked(ind, i), "hd", json!(true)),
                            3 => inst(ind, "a"),
                            4 => set(marked(ind, i), "td", json!(1)),
                            5 => del(marked(ind, i), "nm"),
                            6 => set(set(marked(ind, i), "tt", json!(1)), "nm", json!("same")),
                            _ => set(marked(ind, i), "ip", json!(50)),
                        }
                    })
                    .collect();
                let sub = vec![
                    marked(1, 7),
                    set(marked(2, 8), "td", json!(1)),
                    set(set(inst(3, "b"), "tt", json!(2)), "nm", json!("")),
                    del(null(4), "nm"),
                ];
                doc(l, vec![asset("a", sub), asset("b", vec![marked(3, 9), null(1), marked(2, 10)])])
            };
            x.sample(|| json!({"doc": make(), "frame": 1}));
            x.case(|k| conform_both(k, &make(), &[1.0]));
        });
    }
    x.family("long lists");
    for n in x.sizes(1, 40, 150, 2001) {
        x.case(|k| {
            let l: Vec<Value> = (0..n).map(|i| set(marked(i + 1, i as usize % 30), "nm", json!(format!("é{i}")))).collect();
            conform(k, &doc(vec![inst(1, "a"), marked(2, 2)], vec![asset("a", l.clone())]), &[0.0])?;
            conform(k, &doc(l, vec![]), &[0.0])
        });
    }
    super::shapes::trees(x, x.pick(5, 6), x.pick(3, 4));
    x.family("long style lists");
    for n in x.sizes(1, 40, 120, 1025).into_iter().map(|n| n as usize) {
        for nest in [1, 3, 7] {
            x.case(|k| {
                let mut v = vec![rect(1.0, 1.0, 2.0, 2.0)];
                for i in 0..n {
                    let f = i as f64 / n as f64;
                    let s = if i % 3 == 0 { stroke(f, 0.0, 0.0, 1.0) } else { fill(f, 0.0, 1.0) };
                    if i % nest == nest - 1 {
                        v.push(group(vec![rect(i as f64, 0.0, 1.0, 1.0), s]));
                    } else {
                        v.push(s);
                    }
                }
                conform(k, &doc(vec![shape(1, v)], vec![]), &[0.0])
            });
        }
    }
    super::ladder::ladder(x, "C11");
}

/// Matte roles for a list of n layers.
fn roles(n: usize) -> Vec<Value> {
    let mut r = vec![
        json!({}),
        json!({"td": 1}),
        json!({"td": 1, "hd": true}),
        json!({"td": 1, "ip": 50}),
        json!({"td": 1, "tt": 1}),
        json!({"hd": true, "tt": 2}),
        json!({"tt": 1}),
        json!({"tt": 2}),
        json!({"tt": 3}),
        json!({"tt": 4}),
        json!({"tt": 2, "tp": 77}),
    ];
    for i in 0..n {
        r.push(json!({"tt": 1 + i % 4, "tp": MATTE_IND[i]}));
    }
    r
}
const MATTE_IND: [u64; 5] = [4, 2, 9, 1, 30];

fn matte_cycle(c: &[usize], n: usize, rs: &[Value]) -> bool {
    // explicit references only: implicit sources always come earlier
    let mut open = None;
    let mut next = vec![None; n];
    for i in 0..n {
        let r = &rs[c[i]];
        if r.get("tt").is_some() {
            next[i] = match r.get("tp").and_then(Value::as_u64) {
                Some(p) => MATTE_IND[..n].iter().position(|q| *q == p),
                None => open,
            };
        }
        if r.get("td").is_some() && r.get("hd").is_none() {
            open = Some(i);
        } else if r.get("tt").is_some() {
            open = None;
        }
    }
    !acyclic(&next)
}

pub fn c12(x: &mut X) {
    super::corpus_conform(x);
    for n in 1..=x.pick(4, 5usize) {
        let rs = roles(n);
        for nested in [false, true] {
            if nested && n > x.pick(3, 4) {
                continue;
            }
            x.family(&format!("matte roles over {n} layers{}", if nested { " of a precomposition" } else { "" }));
            product(&vec![rs.len(); n], |c| {
                let make = || {
                    let l: Vec<Value> = (0..n)
                        .map(|i| {
                            let mut y = match i {
                                2 => inst(MATTE_IND[i], "b"),
                                _ => marked(MATTE_IND[i], i),
                            };
                            y["ks"] = set(odd_ks(i), "o", st(json!(90 - 10 * i)));
                            for (key, v) in rs[c[i]].as_object().unwrap() {
                                y[key] = v.clone();
                            }
                            y
                        })
                        .collect();
                    let b = asset("b", vec![marked(1, 11)]);
                    if nested {
                        let i = set(inst(4, "a"), "ks", set(odd_ks(9), "o", st(json!(50))));
                        doc(vec![set(marked(4, 8), "td", json!(1)), i], vec![asset("a", l), b])
                    } else {
                        doc(l, vec![b])
                    }
                };
                x.sample(|| json!({"doc": make(), "frame": 1}));
                let cyc = matte_cycle(c, n, &rs);
                x.case(|k| {
                    if cyc {
                        only_balanced(k, &make(), &[1.0])
                    } else {
                        conform_both(k, &make(), &[1.0])
                    }
                });
            });
        }
    }
    x.family("source and user kinds, transforms and masks");
    product(&[5, 5, 4, 2, 2], |c| {
        let kind = |w: usize, ind: u64, m: usize| match w {
            0 => marked(ind, m),
            1 => inst(ind, "a"),
            2 => null(ind),
            3 => solid(ind),
            _ => shape(ind, vec![]),
        };
        let make = || {
            let mut s = set(kind(c[0], 3, 1), "ks", anim_ks(1));
            s["td"] = json!(1);
            s["ip"] = json!(2);
            s["op"] = json!(12);
            s["parent"] = json!(9);
            let mut u = set(kind(c[1], 4, 2), "ks", anim_ks(2));
            u["tt"] = json!(c[2] + 1);
            if c[3] == 1 {
                u["masksProperties"] = json!([mask(corpus::path_anim(true))]);
                s["masksProperties"] = json!([mask(corpus::path_anim(false))]);
            }
            if c[4] == 1 {
                u["parent"] = json!(3);
            }
            doc(vec![s, u, set(null(9), "ks", odd_ks(5))], vec![asset("a", vec![marked(1, 5), marked(2, 6)])])
        };
        x.case(|k| {
            conform_both(k, &make(), &[1.0, 2.0, 8.0, 12.0])?;
            conform_at(k, &make(), &[3.0], Affine::new([2.0, 0.5, -1.0, 3.0, 7.0, -9.0]), 0.5)
        });
    });
    x.family("one source shared by many, long lists");
    for n in x.sizes(1, 30, 100, 257) {
        for variant in 0..3 {
            x.case(|k| {
                let mut l = vec![set(marked(1, 0), "td", json!(1))];
                for i in 0..n {
                    let mut y = marked(i + 2, i as usize % 20);
                    match variant {
                        0 => {
                            y["tt"] = json!(1 + i % 4);
                            y["tp"] = json!(1);
                        }
                        1 => {
                            if i % 2 == 0 {
                                y["tt"] = json!(1 + i % 4);
                            } else {
                                y["td"] = json!(1);
                            }
                        }
                        // each matte source is itself matted by the one before
                        _ => {
                            y["td"] = json!(if i + 1 == n { 0 } else { 1 });
                            y["tt"] = json!(1 + i % 4);
                            y["tp"] = json!(i + 1);
                        }
                    }
                    l.push(y);
                }
                conform_both(k, &doc(l, vec![]), &[0.0])
            });
        }
    }
    super::sweep::mattes(x);
    super::ladder::ladder(x, "C12");
}

pub fn c13(x: &mut X) {
    super::corpus_conform(x);
    let outlines: Vec<Option<Value>> = vec![
        None,
        Some(st(poly(&[[0.0, 0.0], [9.0, 0.0], [9.0, 9.0]], true))),
        Some(st(poly(&[[1.0, 2.0], [9.0, 0.0]], false))),
        Some(corpus::path_anim(true)),
    ];
    let n = outlines.len();
    for count in 0..=x.pick(3, 4usize) {
        x.family(&format!("{count} masks"));
        let mut sizes = vec![n; count];
        sizes.extend([4, 3, 2, 2]);
        product(&sizes, |c| {
            let rest = &c[count..];
            let make = || {
                let mut y = match rest[0] {
                    0 => marked(2, 1),
                    1 => inst(2, "a"),
                    2 => null(2),
                    _ => set(marked(2, 1), "hd", json!(true)),
                };
                y["ks"] = anim_ks(2);
                let ms: Vec<Value> = (0..count)
                    .map(|i| match &outlines[c[i]] {
                        Some(o) => mask(o.clone()),
                        None => del(mask(Value::Null), "pt"),
                    })
                    .collect();
                y["masksProperties"] = json!(ms);
                y["hasMask"] = json!(true);
                if rest[1] > 0 {
                    y["parent"] = json!(5);
                }
                let mut l = vec![];
                if rest[2] == 1 {
                    l.push(set(set(marked(1, 9), "td", json!(1)), "ks", anim_ks(4)));
                    y["tt"] = json!(2);
                }
                l.push(y);
                let mut p = set(null(5), "ks", anim_ks(3));
                if rest[1] == 2 {
                    p["masksProperties"] = json!([mask(corpus::path_anim(false))]);
                }
                l.push(p);
                l.push(marked(6, 6));
                let inner = set(marked(1, 3), "masksProperties", json!([mask(corpus::path_anim(true))]));
                let assets = vec![asset("a", vec![inner, marked(2, 4)]), asset("o", l.clone())];
                if rest[3] == 1 {
                    let mut i = set(inst(1, "o"), "ks", odd_ks(6));
                    i["st"] = json!(1);
                    i["sr"] = json!(2);
                    doc(vec![i], assets)
                } else {
                    doc(l, assets)
                }
            };
            x.sample(|| json!({"doc": make(), "frame": 7}));
            x.case(|k| conform_both(k, &make(), &[0.0, 7.0, 12.0, 33.0]));
        });
    }
    x.family("many masks");
    for n in x.sizes(1, 24, 64, 1001).into_iter().map(|n| n as usize) {
        x.case(|k| {
            let ms: Vec<Value> = (0..n)
                .map(|i| mask(st(poly(&[[i as f64, 0.0], [9.0, i as f64], [3.0, 9.0]], i % 2 == 0))))
                .collect();
            let y = set(set(marked(1, 1), "masksProperties", json!(ms)), "ks", odd_ks(1));
            conform(k, &doc(vec![y, marked(2, 2)], vec![]), &[0.0])
        });
    }
    super::sweep::masks(x);
    super::ladder::ladder(x, "C13");
}

pub fn c14(x: &mut X) {
    super::corpus_conform(x);
    let times: [(Option<f64>, Option<f64>); 6] = [
        (None, None),
        (Some(0.0), Some(1.0)),
        (Some(3.0), Some(1.0)),
        (Some(-2.5), Some(2.0)),
        (Some(4.0), Some(0.5)),
        (Some(8.0), Some(-1.0)),
    ];
    let timed = |mut y: Value, t: &(Option<f64>, Option<f64>)| {
        y = del(del(y, "st"), "sr");
        // the start time of an instance is not optional
        y["st"] = json!(t.0.unwrap_or(0.0));
        if let Some(s) = t.1 {
            y["sr"] = json!(s);
        }
        y
    };
    let frames = [0.0, 1.5, 4.0, 7.25, 12.0, 24.0];
    x.family("time mapping, three deep");
    product(&[6, 6, 6, 2], |c| {
        let make = || {
            let leaf = set(marked(1, 1), "ks", anim_ks(1));
            let l2 = set(set(marked(2, 2), "parent", json!(1)), "op", json!(9));
            let i3 = set(timed(inst(3, "c"), &times[c[2]]), "ks", anim_ks(3));
            let i2 = set(timed(inst(4, "b"), &times[c[1]]), "ks", anim_ks(2));
            let mut i1 = set(timed(inst(1, "a"), &times[c[0]]), "ks", anim_ks(4));
            i1["ip"] = json!(-50);
            let mut l = vec![i1];
            if c[3] == 1 {
                l.push(set(timed(inst(2, "a"), &times[(c[0] + 1) % 6]), "ks", odd_ks(7)));
                l.push(timed(inst(3, "c"), &times[c[1]]));
            }
            doc(
                l,
                vec![asset("c", vec![leaf, l2]), asset("b", vec![i3, marked(9, 3)]), asset("a", vec![marked(7, 4), i2])],
            )
        };
        x.sample(|| json!({"doc": make(), "frames": frames}));
        x.case(|k| conform(k, &make(), &frames));
    });
    x.family("references resolve inside the asset");
    product(&[4, 4, 3, 3], |c| {
        let make = || {
            // the same indices mean different layers inside and outside
            let inside = vec![
                set(set(marked(2, 1), "ks", odd_ks(1)), "td", json!(1)),
                {
                    let mut y = set(marked(1, 2), "ks", odd_ks(2));
                    if c[0] > 0 {
                        y["parent"] = json!(c[0]);
                    }
                    y["tt"] = json!(1);
                    if c[2] > 0 {
                        y["tp"] = json!(c[2]);
                    }
                    y
                },
                set(marked(3, 3), "ks", odd_ks(3)),
            ];
            let outside = vec![
                set(set(marked(1, 4), "ks", odd_ks(4)), "td", json!(1)),
                {
                    let mut y = set(inst(3, if c[3] == 2 { "none" } else { "a" }), "ks", odd_ks(5));
                    if c[1] > 0 && c[1] != 3 {
                        y["parent"] = json!(c[1]);
                    }
                    if c[3] > 0 {
                        y["tt"] = json!(2);
                    }
                    y
                },
                set(marked(2, 6), "ks", odd_ks(6)),
            ];
            doc(outside, vec![asset("a", inside)])
        };
        // self-parenting and self-matting combinations are left to C02
        if c[0] == 1 || c[2] == 1 {
            return;
        }
        x.case(|k| conform_both(k, &make(), &[0.0, 5.0]));
    });
    x.family("inlining");
    for (name, d) in corpus::docs() {
        let layers = d["layers"].as_array().unwrap().clone();
        let wrapped = {
            let mut w = d.clone();
            let mut i = inst(1, "wrapped asset");
            i["ip"] = json!(-1e9);
            i["op"] = json!(1e9);
            w["layers"] = json!([i]);
            let mut a = w["assets"].as_array().unwrap().clone();
            a.push(asset("wrapped asset", layers));
            w["assets"] = json!(a);
            w
        };
        for f in corpus::frames() {
            x.case(|k| {
                conform(k, &wrapped, &[f])?;
                let (a, b) = (parse(&d)?, parse(&wrapped)?);
                let (ra, rb) = (render(&a, f), render(&b, f));
                k.trace();
                // the wrapper contributes one layer group around everything
                let mut inner = vec![rb[0].clone()];
                inner.extend_from_slice(&rb[2..rb.len() - 2]);
                inner.push(rb[rb.len() - 1].clone());
                match trace_eq(&inner, &ra) {
                    Ok(()) => Ok(()),
                    Err(e) => fail(format!("[{name}] instance differs from inline: {e}"), json!({"doc": d, "frame": f, "observed": dump(&inner), "expected": dump(&ra)})),
                }
            });
        }
    }
    x.family("depth and repetition");
    for depth in (1..x.pick(24, 60usize)).chain([63, 64, 65, 66, 100, 128, 130]).chain(x.pick(vec![], vec![200, 255, 256, 257, 300])) {
        x.case(|k| {
            let mut assets = vec![];
            for i in 0..depth {
                let mut y = set(inst(1, &format!("d{}", i + 1)), "ks", set(ks_at(0.5, 0.25), "o", st(json!(97))));
                y["st"] = json!(if i % 2 == 0 { 0.5 } else { -0.25 });
                assets.push(asset(&format!("d{i}"), vec![y, marked(2, i % 9)]));
            }
            assets.push(asset(&format!("d{depth}"), vec![set(marked(1, 7), "ks", anim_ks(1))]));
            conform(k, &doc(vec![inst(1, "d0")], assets), &[0.0, 9.0])
        });
        x.case(|k| {
            let l = (0..depth)
                .map(|i| {
                    let mut y = inst(i as u64 + 1, "a");
                    y["st"] = json!(i);
                    y["ks"] = ks_at(i as f64, 0.0);
                    y
                })
                .collect();
            let a = asset("a", vec![set(marked(1, 1), "ks", anim_ks(1)), set(null(2), "parent", json!(1))]);
            conform(k, &doc(l, vec![a]), &[0.0, 9.0])
        });
    }
    super::sweep::times(x);
    super::ladder::ladder(x, "C14");
}

pub fn c17(x: &mut X) {
    super::corpus_conform(x);
    let an = |a: f64, b: f64| kf(&[(0.0, json!(a)), (16.0, json!(b))]);
    let val: Vec<Option<Value>> = vec![None, Some(st(json!(50))), Some(st(json!(0))), Some(an(100.0, 30.0))];
    x.family("opacity at every level");
    product(&[3, 4, 4, 4, 4, 3, 4], |c| {
        // side branches rotate along with the product
        let side = c.iter().sum::<usize>() % 4;
        let make = || {
            let put_o = |mut v: Value, o: &Option<Value>| {
                match o {
                    Some(o) => v["o"] = o.clone(),
                    None => v = del(v, "o"),
                }
                v
            };
            let style = match c[6] {
                0 => fill(0.2, 0.4, 0.6),
                1 => stroke(0.2, 0.4, 0.6, 2.0),
                2 => gfill(false, 2, json!([0, 1, 0, 0, 1, 0, 1, 0])),
                _ => gstroke(true, 2, json!([0, 1, 0, 0, 1, 0, 1, 0, 0, 0.5, 1, 0.5])),
            };
            let style = set(style, "o", [st(json!(100)), st(json!(30)), an(0.0, 80.0)][c[5]].clone());
            let g2 = group(vec![ell(1.0, 1.0, 3.0, 3.0), style.clone(), put_o(tr(), &val[c[4]])]);
            let g1 = group(vec![rect(1.0, 1.0, 3.0, 3.0), g2, style.clone(), group(vec![put_o(tr(), &val[1]), ell(0.0, 0.0, 1.0, 1.0)]), put_o(tr(), &val[c[3]])]);
            let mut l = set(shape(2, vec![g1, rect(0.0, 0.0, 9.0, 9.0), style]), "ks", put_o(ks_at(1.0, 1.0), &val[c[2]]));
            l["parent"] = json!(5);
            let mut i = set(inst(1, "a"), "ks", put_o(ks_at(2.0, 1.0), &val[c[1]]));
            i["st"] = json!(2);
            let p = set(null(5), "ks", set(ks_at(3.0, 3.0), "o", st(json!(10))));
            let mut ls = vec![];
            if side % 2 == 1 {
                ls.push(set(set(marked(7, 3), "td", json!(1)), "ks", set(ks(), "o", an(20.0, 70.0))));
                i["tt"] = json!(1);
            }
            if side > 1 {
                i["parent"] = json!(8);
            }
            ls.push(i);
            ls.push(set(null(8), "ks", set(ks_at(3.0, 0.0), "o", st(json!(25)))));
            doc(ls, vec![asset("a", vec![p, l])])
        };
        x.sample(|| json!({"doc": make(), "alpha": ([1.0, 0.5, 0.0][c[0]])}));
        x.case(|k| conform_at(k, &make(), &[5.0, 12.0], Affine::IDENTITY, [1.0, 0.5, 0.0][c[0]]));
    });
    x.family("faint");
    // however little is left of something, it is painted
    product(&[7, 7, 7], |c| {
        x.case(|k| {
            let v = [100.0, 50.0, 1.0, 0.1, 0.01, 1e-6, 0.0];
            let o = |n: usize| st(json!(v[c[n]]));
            let l = |i: u64| set(shape(i, vec![group(vec![rect(1.0, 1.0, 2.0, 2.0), set(fill(0.1, 0.2, 0.3), "o", o(2)), set(stroke(0.3, 0.2, 0.1, 1.0), "o", o(0)), set(tr(), "o", o(1))])]), "ks/o", o(0));
            let d = doc(vec![l(1), set(inst(2, "a"), "ks/o", o(1)), marked(3, 1)], vec![asset("a", vec![l(1), marked(2, 2)])]);
            for a in [1.0, 0.5, 1.0 / 512.0, 1e-3, 1e-9, 0.0] {
                conform_at(k, &d, &[0.0], Affine::IDENTITY, a)?;
            }
            Ok(())
        });
    });
    x.family("opacity chains");
    for n in (1..x.pick(24, 64usize)).chain([65, 100, 130]) {
        for place in 0..2 {
            x.case(|k| {
                let o = |i: usize| st(json!(99.0 - (i % 7) as f64));
                let d = if place == 0 {
                    let mut g = vec![rect(1.0, 1.0, 2.0, 2.0), fill(0.1, 0.2, 0.3), stroke(0.3, 0.2, 0.1, 1.0)];
                    for i in 0..n.min(54) {
                        g.push(set(tr(), "o", o(i)));
                        g = vec![group(g), fill(0.5, 0.5, 0.5)];
                    }
                    doc(vec![shape(1, g)], vec![])
                } else {
                    let mut assets = vec![asset("x0", vec![marked(1, 1)])];
                    for i in 0..n {
                        let y = set(inst(1, &format!("x{i}")), "ks", set(ks(), "o", o(i)));
                        assets.push(asset(&format!("x{}", i + 1), vec![y, marked(2, 2)]));
                    }
                    doc(vec![inst(1, &format!("x{n}"))], assets)
                };
                conform_at(k, &d, &[0.0], Affine::IDENTITY, 0.75)
            });
        }
    }
    super::sweep::opacities(x);
    super::ladder::ladder(x, "C17");
}

pub fn c24(x: &mut X) {
    super::corpus_conform(x);
    x.family("hide one layer of a rich document");
    // (where, list) pairs of all layer lists
    for (name, d) in corpus::docs() {
        let mut lists = vec![("/layers".to_string(), d["layers"].as_array().unwrap().len())];
        for (i, a) in d["assets"].as_array().unwrap().iter().enumerate() {
            if let Some(l) = a["layers"].as_array() {
                lists.push((format!("/assets/{i}/layers"), l.len()));
            }
        }
        for (list, n) in lists {
            for i in 0..n {
                x.case(|k| {
                    let at = format!("{list}/{i}");
                    let mut hidden = d.clone();
                    hidden.pointer_mut(&at).unwrap()["hd"] = json!(true);
                    let mut empty = d.clone();
                    {
                        let y = empty.pointer_mut(&at).unwrap();
                        let mut e = json!({"ty": 3});
                        for key in ["ind", "nm", "ip", "op", "st", "sr", "ks", "parent", "tt", "tp", "masksProperties"] {
                            if let Some(v) = y.get(key) {
                                e[key] = v.clone();
                            }
                        }
                        *y = e;
                    }
                    let fr = corpus::few_frames();
                    conform(k, &hidden, &fr).map_err(|mut e| {
                        e.msg = format!("[{name} {at}] {}", e.msg);
                        e
                    })?;
                    same_render(k, &hidden, &empty, &fr, "hidden layer is not like an empty one")
                });
            }
        }
    }
    for n in 1..=x.pick(3, 4usize) {
        x.family(&format!("hidden subsets of {n} layers"));
        let mut sizes = vec![6; n];
        sizes.push(1 << n);
        product(&sizes, |c| {
            let make = |as_null: bool| {
                let l = (0..n)
                    .map(|i| {
                        let ind = MATTE_IND[i];
                        let mut y = match c[i] {
                            0 => marked(ind, i),
                            1 => set(marked(ind, i), "td", json!(1)),
                            2 => set(marked(ind, i), "tt", json!(1)),
                            3 => inst(ind, "a"),
                            4 => set(set(inst(ind, "a"), "tt", json!(2)), "tp", json!(MATTE_IND[0])),
                            _ => null(ind),
                        };
                        y["ks"] = odd_ks(i);
                        if i > 0 {
                            y["parent"] = json!(MATTE_IND[i - 1]);
                        }
                        if c[n] >> i & 1 == 1 {
                            if as_null {
                                y["ty"] = json!(3);
                                y = del(y, "td");
                            } else {
                                y["hd"] = json!(true);
                            }
                        }
                        y
                    })
                    .collect();
                let sub = vec![marked(1, 5), set(marked(2, 6), "hd", json!(true)), set(marked(3, 7), "parent", json!(2))];
                doc(l, vec![asset("a", sub)])
            };
            let self_matte = c[0] == 4;
            if self_matte {
                return;
            }
            x.sample(|| json!({"doc": make(false)}));
            x.case(|k| {
                conform_both(k, &make(false), &[0.0])?;
                same_render(k, &make(false), &make(true), &[0.0], "hidden layer is not like an empty one")
            });
        });
    }
    x.family("hidden flag false or absent");
    for kind in 0..4 {
        x.case(|k| {
            let y = match kind {
                0 => marked(1, 1),
                1 => inst(1, "a"),
                2 => set(marked(1, 1), "td", json!(1)),
                _ => null(1),
            };
            let d = |y: Value| doc(vec![y, set(marked(2, 2), "tt", json!(1))], vec![asset("a", vec![marked(1, 3)])]);
            same_render(k, &d(set(y.clone(), "hd", json!(false))), &d(y), &[0.0], "hd false differs from no hd")
        });
    }
    super::ladder::ladder(x, "C24");
}
