//! The public model reports the document's metadata (C26).
use crate::check::*;
use crate::corpus::{self, curve, frames, path_anim};
use crate::doc::*;
use crate::run::*;
use crate::spec::{layer_set, prop};
use peniko::{BlendMode, Compose, Mix};
use std::collections::BTreeMap;
use velato::model::{Content, Layer};

fn blend(n: i64) -> Option<BlendMode> {
    Some(match n {
        1 => Mix::Multiply.into(),
        2 => Mix::Screen.into(),
        3 => Mix::Overlay.into(),
        4 => Mix::Darken.into(),
        5 => Mix::Lighten.into(),
        6 => Mix::ColorDodge.into(),
        7 => Mix::ColorBurn.into(),
        8 => Mix::HardLight.into(),
        9 => Mix::SoftLight.into(),
        10 => Mix::Difference.into(),
        11 => Mix::Exclusion.into(),
        12 => Mix::Hue.into(),
        13 => Mix::Saturation.into(),
        14 => Mix::Color.into(),
        15 => Mix::Luminosity.into(),
        16 => Compose::Plus.into(),
        _ => return None,
    })
}

fn scalar_eq(at: &str, doc_value: &serde_json::Value, default: f64, get: impl Fn(f64) -> f64) -> Result<(), String> {
    for f in frames() {
        let want = if doc_value.is_null() { default } else { prop(doc_value, f)[0] };
        let got = get(f);
        if (got - want).abs() > 1e-6 * (1.0 + want.abs()) {
            return Err(format!("{at} at frame {f}: {got}, document says {want}"));
        }
    }
    Ok(())
}

fn layers_eq(at: &str, got: &[Layer], list: &[serde_json::Value]) -> Result<(), String> {
    if got.len() != list.len() {
        return Err(format!("{at}: {} layers, document has {}", got.len(), list.len()));
    }
    for (i, (g, l)) in got.iter().zip(layer_set(list)).enumerate() {
        let at = format!("{at} layer {i}");
        let v = l.v;
        let n = |k: &str, d: f64| v[k].as_f64().unwrap_or(d);
        let same = |what: &str, a: String, b: String| if a == b { Ok(()) } else { Err(format!("{at}: {what} is {a}, document says {b}")) };
        same("name", format!("{:?}", g.name), format!("{:?}", v["nm"].as_str().unwrap_or("")))?;
        same("visible range", format!("{:?}", g.frames), format!("{:?}", n("ip", f64::NAN)..n("op", f64::NAN)))?;
        same("start", format!("{:?}", g.start_frame), format!("{:?}", n("st", 0.0)))?;
        same("stretch", format!("{:?}", g.stretch), format!("{:?}", n("sr", 1.0)))?;
        same("parent", format!("{:?}", g.parent), format!("{:?}", l.parent))?;
        same("matte source flag", format!("{:?}", g.is_mask), format!("{:?}", l.source))?;
        if v["tt"].as_i64() != Some(0) {
            same("matte", format!("{:?}", g.mask_layer), format!("{:?}", l.matte))?;
        }
        same("blend mode", format!("{:?}", g.blend_mode), format!("{:?}", blend(n("bm", 0.0) as i64)))?;
        let none = vec![];
        let masks: Vec<_> = v["masksProperties"].as_array().unwrap_or(&none).iter().filter(|m| m.get("pt").is_some()).collect();
        same("mask count", g.masks.len().to_string(), masks.len().to_string())?;
        for (j, (m, d)) in g.masks.iter().zip(masks).enumerate() {
            scalar_eq(&format!("{at} mask {j} opacity"), &d["o"], 100.0, |f| m.opacity.evaluate(f))?;
        }
        scalar_eq(&format!("{at} opacity"), &v["ks"]["o"], 100.0, |f| g.opacity.evaluate(f))?;
        match (v["ty"].as_i64(), l.hidden) {
            (Some(0), hidden) => {
                same("width", format!("{:?}", g.width), format!("{:?}", n("w", f64::NAN)))?;
                same("height", format!("{:?}", g.height), format!("{:?}", n("h", f64::NAN)))?;
                match &g.content {
                    Content::Instance { name, time_remap } if !hidden => {
                        same("referenced asset", format!("{name:?}"), format!("{:?}", v["refId"].as_str().unwrap()))?;
                        same("time remap", time_remap.is_some().to_string(), v.get("tm").is_some().to_string())?;
                        if let Some(tm) = time_remap {
                            scalar_eq(&format!("{at} time remap"), &v["tm"], 0.0, |f| tm.evaluate(f))?;
                        }
                    }
                    Content::None if hidden => {}
                    c => return Err(format!("{at}: content {c:?}")),
                }
            }
            (Some(4), false) => {
                if !matches!(g.content, Content::Shape(_)) {
                    return Err(format!("{at}: content {:?}", g.content));
                }
            }
            _ => {
                if !matches!(&g.content, Content::None) {
                    return Err(format!("{at}: content {:?}", g.content));
                }
            }
        }
    }
    Ok(())
}

fn faithful(k: &mut Cov, doc: &serde_json::Value) -> R {
    let c = parse(doc)?;
    let check = || -> Result<usize, String> {
        let n = |f: &str| doc[f].as_f64().unwrap();
        if c.frames != (n("ip")..n("op")) {
            return Err(format!("frame range {:?}", c.frames));
        }
        if c.frame_rate != n("fr") {
            return Err(format!("frame rate {}", c.frame_rate));
        }
        if (c.width as f64, c.height as f64) != (n("w"), n("h")) {
            return Err(format!("size {} x {}", c.width, c.height));
        }
        layers_eq("the top-level list:", &c.layers, doc["layers"].as_array().unwrap())?;
        let none = vec![];
        let want: BTreeMap<&str, &serde_json::Value> = doc["assets"]
            .as_array()
            .unwrap_or(&none)
            .iter()
            .filter(|a| a.get("layers").is_some())
            .map(|a| (a["id"].as_str().unwrap(), &a["layers"]))
            .collect();
        let mut got: Vec<&str> = c.assets.keys().map(String::as_str).collect();
        got.sort();
        let ids: Vec<&str> = want.keys().copied().collect();
        if got != ids {
            return Err(format!("assets {got:?}, document has {ids:?}"));
        }
        for (id, l) in want {
            layers_eq(&format!("asset {id:?}:"), &c.assets[id], l.as_array().unwrap())?;
        }
        Ok(c.layers.len() + c.assets.values().map(Vec::len).sum::<usize>())
    };
    let n = check().map_err(|e| Fail { msg: e, data: json!({"doc": doc}) })?;
    k.state(&doc.to_string());
    k.step(n + 1);
    k.trace();
    Ok(())
}
fn both(k: &mut Cov, d: &serde_json::Value) -> R {
    faithful(k, d)?;
    faithful(k, &nest(d))
}

fn kind(n: usize, ind: u64) -> serde_json::Value {
    match n {
        0 => marked(ind, 1),
        1 => null(ind),
        2 => inst(ind, "a"),
        3 => solid(ind),
        _ => image(ind),
    }
}

pub fn c26(x: &mut X) {
    x.family("corpus");
    for (name, d) in corpus::docs().into_iter().chain(corpus::assets()) {
        x.case(|k| faithful(k, &d).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
    }
    for (_, d) in corpus::docs() {
        x.case(|k| both(k, &d));
    }
    x.family("document header");
    let ts = [-3.0, 0.0, 0.5, 59.0, 1e6];
    for fr in [1.0, 23.976, 30.0, 60.0, 120.0] {
        for ip in ts {
            for op in ts {
                x.case(|k| {
                    for w in [0, 1, 512, 4096, 1_000_000] {
                        for h in [0, 1, 512, 4096, 1_000_000] {
                            let mut d = doc(vec![marked(1, 1)], vec![]);
                            (d["fr"], d["ip"], d["op"], d["w"], d["h"]) = (json!(fr), json!(ip), json!(op), json!(w), json!(h));
                            faithful(k, &d)?;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("timing of a layer");
    for kn in 0..5 {
        for hidden in [None, Some(false), Some(true)] {
            x.case(|k| {
                let mut res = Ok(());
                product(&[6, 6, 6, 6, 2], |c| {
                    let v = [json!(-7), json!(0), json!(0.25), json!(3), json!(1e5), json!(null)];
                    let mut l = kind(kn, 1);
                    for (i, f) in ["ip", "op", "st", "sr"].into_iter().enumerate() {
                        let x = v[c[i]].clone();
                        if !x.is_null() {
                            l[f] = x;
                        } else if i >= 2 && !(kn == 2 && f == "st") {
                            l = del(l, f);
                        }
                    }
                    if let Some(h) = hidden {
                        l["hd"] = json!(h);
                    }
                    if c[4] == 1 {
                        l["parent"] = json!(2);
                        l["ddd"] = json!(0);
                    }
                    if res.is_ok() {
                        res = faithful(k, &doc(vec![l, null(2)], vec![asset("a", vec![marked(1, 5)])]));
                    }
                });
                res
            });
        }
    }
    x.family("blend modes, sizes, names, masks");
    for kn in 0..5 {
        for bm in -1..17 {
            x.case(|k| {
                let mut res = Ok(());
                product(&[5, 4, 5, 3, 2], |c| {
                    let mut l = kind(kn, 3);
                    if bm >= 0 {
                        l["bm"] = json!(bm);
                    }
                    let name = [json!("a name"), json!(""), json!("\u{1F600} \"quoted\"\n"), json!("L3"), json!(null)][c[0]].clone();
                    if name.is_null() {
                        l = del(l, "nm");
                    } else {
                        l["nm"] = name;
                    }
                    if kn == 2 {
                        (l["w"], l["h"]) = [(json!(1), json!(2)), (json!(0), json!(0.5)), (json!(1920), json!(1080)), (json!(80), json!(100))][c[1]].clone();
                        l["refId"] = json!(["a", "missing", "", "a "][c[1]]);
                        if c[4] == 1 {
                            l["tm"] = kf(&[(0.0, json!(1)), (20.0, json!(5))]);
                        }
                    }
                    let mut m = mask(st(curve(true)));
                    m["o"] = kf(&[(0.0, json!(10)), (20.0, json!(60))]);
                    let no_path = del(mask(st(curve(true))), "pt");
                    let ms = match c[2] {
                        0 => None,
                        1 => Some(vec![]),
                        2 => Some(vec![mask(path_anim(false))]),
                        3 => Some(vec![no_path.clone(), m.clone(), no_path]),
                        _ => Some(vec![del(m.clone(), "o"), mask(st(curve(false))), m]),
                    };
                    if let Some(ms) = ms {
                        l["masksProperties"] = json!(ms);
                        l["hasMask"] = json!(true);
                    }
                    match c[3] {
                        0 => {}
                        1 => l["hd"] = json!(true),
                        _ => l["ks"]["o"] = kf(&[(0.0, json!(70)), (30.0, json!(20))]),
                    }
                    if res.is_ok() {
                        res = faithful(k, &doc(vec![marked(1, 1), l], vec![asset("a", vec![marked(1, 5)])]));
                    }
                });
                res
            });
        }
    }
    x.family("parents and mattes by position");
    let inds: Vec<[u64; 4]> = vec![[1, 2, 3, 4], [4, 2, 9, 1], [7, 0, 3, 100]];
    for ind in inds {
        // parent: none, each of the four, one that does not exist
        product(&[6, 6, 6, 6], |p| {
            x.case(|k| {
                let mut res = Ok(());
                product(&[3, 3, 3, 3], |roles| {
                    let l = (0..4)
                        .map(|i| {
                            let mut l = kind((i + roles[i]) % 5, ind[i]);
                            l["nm"] = json!(format!("at {i}"));
                            if p[i] > 0 {
                                l["parent"] = json!(if p[i] == 5 { 55 } else { ind[p[i] - 1] });
                            }
                            match roles[i] {
                                0 => {}
                                1 => l["td"] = json!(1),
                                _ => {
                                    l["tt"] = json!(1 + (i + p[i]) % 4);
                                    if p[i] % 2 == 1 {
                                        l["tp"] = json!(ind[(i + p[i]) % 4]);
                                    }
                                }
                            }
                            if p[(i + 1) % 4] == 3 {
                                l["hd"] = json!(true);
                            }
                            l
                        })
                        .collect();
                    if res.is_ok() {
                        let d = doc(l, vec![asset("a", vec![marked(1, 5)])]);
                        res = if p[0] == 0 { both(k, &d) } else { faithful(k, &d) };
                    }
                });
                res
            });
        });
    }
    x.family("asset lists");
    for n in 0..=4usize {
        product(&vec![5; n], |c| {
            x.case(|k| {
                let a = c
                    .iter()
                    .enumerate()
                    .map(|(i, kind)| {
                        let id = format!("id{}", n - i);
                        match kind {
                            0 => asset(&id, vec![]),
                            1 => asset(&id, vec![marked(i as u64 + 1, i), set(marked(9, 8), "parent", json!(i + 1))]),
                            2 => json!({"id": id, "w": 10, "h": 10, "p": "x.png", "u": "images/", "e": 0}),
                            3 => {
                                let mut a = asset(&id, vec![inst(4, &format!("id{i}")), set(marked(1, 1), "td", json!(1)), set(marked(2, 1), "tt", json!(1))]);
                                a["fr"] = json!(25);
                                del(a, "nm")
                            }
                            _ => asset(&format!("{id} \u{e9}\""), vec![set(null(3), "nm", json!(id))]),
                        }
                    })
                    .collect();
                faithful(k, &doc((0..n).map(|i| inst(i as u64 + 1, &format!("id{i}"))).collect(), a))
            });
        });
    }
    x.family("long lists and long names");
    for n in x.sizes(5, 30, 120, 1025) {
        x.case(|k| {
            let a = (0..n).map(|i| asset(&format!("id{}", i * 7 % n), vec![marked(i + 1, 1)])).collect();
            let l = (0..n)
                .map(|i| {
                    let mut y = inst(i + 1, &format!("id{i}"));
                    y["parent"] = json!(i * 5 % n + 1);
                    y["nm"] = json!("é".repeat(i as usize % 300));
                    y
                })
                .collect();
            faithful(k, &doc(l, a))
        });
    }
    x.family("no asset list");
    x.case(|k| faithful(k, &del(doc(vec![marked(1, 1)], vec![]), "assets")));
}
