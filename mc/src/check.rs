//! Conformance of the implementation to the reference model.
use crate::rec::*;
use crate::run::*;
use crate::spec::Spec;
use kurbo::Affine;
use serde_json::{Map, Value, json};
use std::str::FromStr;
use velato::Composition;

pub fn parse(doc: &Value) -> Result<Composition, Fail> {
    let text = doc.to_string();
    match Composition::from_str(&text) {
        Ok(c) => Ok(c),
        Err(e) => fail(format!("valid document rejected: {e}"), json!({"doc": doc})),
    }
}

pub fn differ(e: String, doc: &Value, frame: f64, got: &[Op], want: &[Op]) -> Fail {
    Fail {
        msg: format!("frame {frame}: {e}"),
        data: json!({"doc": doc, "frame": frame, "observed": dump(got), "expected": dump(want)}),
    }
}

/// Steps the model and the implementation through `frames` and compares every
/// sink call.
pub fn conform_at(k: &mut Cov, doc: &Value, frames: &[f64], t: Affine, alpha: f64) -> R {
    conform_plain(k, doc, frames, t, alpha)?;
    conform_plain(k, &dress(doc), frames, t, alpha).map_err(|mut e| {
        e.msg = format!("with members that mean nothing here: {}", e.msg);
        e
    })
}

/// The document with every member that must not matter to its rendering given a
/// telling value, its layers renumbered (from zero, out of order, with gaps)
/// and its names and asset ids changed to ones that are easily mixed up.
pub fn dress(doc: &Value) -> Value {
    use crate::grammar::*;
    let mut d = doc.clone();
    for s in sites(doc) {
        let Some(kind) = &s.kind else { continue };
        let o = d.pointer_mut(&s.ptr()).and_then(Value::as_object_mut).unwrap();
        let (sort, ty) = kind.split_once(':').unwrap_or((kind, ""));
        let own = fields(kind);
        let add = |o: &mut Map<String, Value>, key: &str, v: Value| {
            if own.iter().any(|f| f.key == key) {
                o.entry(key).or_insert(v);
            }
        };
        match sort {
            "doc" => {
                add(o, "ver", json!(50900));
                add(o, "ddd", json!(1));
                add(o, "markers", json!([{"cm": "a", "tm": 3, "dr": 2}]));
                add(o, "meta", json!({"a": "x", "g": "y", "k": "z"}));
                add(o, "mn", json!("ADBE"));
                for (key, v) in [("ip", json!(7)), ("op", json!(23)), ("fr", json!(12.5)), ("nm", json!("dup")), ("v", json!("4.0.0"))] {
                    o.insert(key.into(), v);
                }
            }
            "as" => {
                add(o, "fr", json!(12.5));
                add(o, "xt", json!(1));
                add(o, "nm", json!("dup"));
                add(o, "mn", json!("ADBE"));
            }
            "ly" => {
                for key in ["ddd", "ao", "ct"] {
                    add(o, key, json!(1));
                }
                add(o, "bm", json!(0));
                let unmasked = !o.contains_key("masksProperties");
                add(o, "hasMask", json!(unmasked));
                add(o, "mb", json!(true));
                add(o, "hd", json!(false));
                for key in ["mn", "cl", "ln", "tg", "cp"] {
                    add(o, key, json!("dup"));
                }
                if o.contains_key("nm") {
                    o.insert("nm".into(), json!("dup é"));
                }
                if ty == "0" {
                    o.insert("w".into(), json!(7));
                    o.insert("h".into(), json!(3));
                } else {
                    o.insert("st".into(), json!(13.5));
                    o.insert("sr".into(), json!(3));
                }
            }
            "sh" => {
                for key in ["nm", "mn", "cl", "ln"] {
                    o.insert(key.into(), json!("dup"));
                }
                o.insert("ix".into(), json!(4));
                o.insert("ind".into(), json!(2));
                o.insert("bm".into(), json!(0));
                let more: Vec<(&str, Value)> = match ty {
                    "gr" => vec![("np", json!(9)), ("cix", json!(2))],
                    "rc" | "el" | "sr" | "sh" => vec![("d", json!(1))],
                    "fl" | "gf" => vec![("r", json!(1))],
                    "tm" => vec![("m", json!(1))],
                    _ => vec![],
                };
                for (key, v) in more {
                    add(o, key, v);
                }
                o.entry("hd").or_insert(json!(false));
            }
            "mask" => {
                o.insert("nm".into(), json!("dup"));
                add(o, "mn", json!("dup"));
            }
            "ks" => {
                if !o.contains_key("sk") {
                    add(o, "sa", json!({"a": 0, "k": 33}));
                }
            }
            "float" | "color" | "multi" | "pos" | "path" => {
                add(o, "ix", json!(2));
                add(o, "l", json!(2));
                add(o, "x", json!("value"));
                add(o, "sid", json!("slot"));
                let anim = o.get("k").is_some_and(crate::spec::is_keys);
                add(o, "a", json!(anim as u8));
            }
            "kf" | "poskf" | "pathkf" => add(o, "h", json!(0)),
            _ => {}
        }
    }
    // asset ids that are prefixes, paddings and other cases of one another
    let ids: Vec<String> = doc["assets"].as_array().iter().flat_map(|a| a.iter()).filter_map(|a| a["id"].as_str().map(String::from)).collect();
    let to = |id: &str| -> Option<String> {
        let n = ids.iter().position(|i| i == id)?;
        Some(match n {
            0 => "x".into(),
            1 => "X".into(),
            2 => "".into(),
            3 => "x ".into(),
            n => "x".repeat(n),
        })
    };
    let lists = std::iter::once("/layers".to_string()).chain((0..ids.len().max(doc["assets"].as_array().map_or(0, Vec::len))).map(|n| format!("/assets/{n}/layers")));
    for at in lists {
        let Some(list) = d.pointer_mut(&at).and_then(Value::as_array_mut) else { continue };
        for l in list.iter_mut() {
            if let Some(id) = l["refId"].as_str().map(String::from) {
                l["refId"] = json!(to(&id).unwrap_or(format!("{id} none")));
            }
        }
        let inds: Vec<u64> = list.iter().filter_map(|l| l["ind"].as_u64()).collect();
        let distinct: std::collections::HashSet<_> = inds.iter().collect();
        if inds.len() != list.len() || distinct.len() != inds.len() {
            continue;
        }
        let to = |i: u64| -> u64 {
            match inds.iter().position(|x| *x == i) {
                Some(0) => 4,
                Some(1) => 0,
                Some(2) => 4_000_000_007,
                Some(3) => 1,
                Some(n) => n as u64 * 7 + 2,
                None => 999_999,
            }
        };
        for l in list.iter_mut() {
            for key in ["ind", "parent", "tp"] {
                if let Some(i) = l[key].as_f64() {
                    l[key] = json!(to(i as u64));
                }
            }
        }
    }
    if let Some(list) = d["assets"].as_array_mut() {
        for a in list {
            if let Some(id) = a["id"].as_str().and_then(&to) {
                a["id"] = json!(id);
            }
        }
    }
    d
}
fn conform_plain(k: &mut Cov, doc: &Value, frames: &[f64], t: Affine, alpha: f64) -> R {
    let c = parse(doc)?;
    let spec = Spec::new(doc);
    let text = doc.to_string();
    let mut r = velato::Renderer::new();
    for &f in frames {
        let got = render_at(&mut r, &c, f, t, alpha);
        let want = spec.render(f, t, alpha);
        k.state(&(&text, f.to_bits(), alpha.to_bits(), t.as_coeffs().map(f64::to_bits)));
        k.step(want.len());
        k.trace();
        if let Err(e) = trace_eq(&got, &want) {
            return Err(differ(e, doc, f, &got, &want));
        }
        balanced(&got, c.width as f64, c.height as f64, t).map_err(|e| differ(e, doc, f, &got, &want))?;
    }
    Ok(())
}
pub fn conform(k: &mut Cov, doc: &Value, frames: &[f64]) -> R {
    conform_at(k, doc, frames, Affine::IDENTITY, 1.0)
}

/// The layers of a document moved into a precomposition, which is shown twice:
/// as it is, and shifted and stretched, between other layers.
pub fn nest(d: &Value) -> Value {
    use crate::doc::*;
    let mut w = d.clone();
    let wide = |mut y: Value| {
        y["ip"] = json!(-1e9);
        y["op"] = json!(1e9);
        y
    };
    let mut later = wide(set(inst(4, "the list"), "ks", ks_at(7.0, -2.0)));
    later["st"] = json!(-1);
    later["sr"] = json!(2);
    later["parent"] = json!(2);
    w["layers"] = json!([marked(1, 30), later, wide(set(null(2), "ks", ks_at(1.0, 3.0))), wide(inst(9, "the list")), marked(3, 31)]);
    let mut a = d["assets"].as_array().cloned().unwrap_or_default();
    a.insert(0, asset("the list", d["layers"].as_array().unwrap().clone()));
    w["assets"] = json!(a);
    w
}
/// The document and its layer list as a precomposition.
pub fn conform_both(k: &mut Cov, doc: &Value, frames: &[f64]) -> R {
    conform(k, doc, frames)?;
    let mut fr = frames.to_vec();
    fr.extend(frames.iter().map(|f| 2.0 * f - 1.0));
    conform(k, &nest(doc), &fr).map_err(|mut e| {
        e.msg = format!("as a precomposition: {}", e.msg);
        e
    })
}

/// Two documents that must render alike.
pub fn same_render(k: &mut Cov, a: &Value, b: &Value, frames: &[f64], why: &str) -> R {
    let (ca, cb) = (parse(a)?, parse(b)?);
    let texts = (a.to_string(), b.to_string());
    for &f in frames {
        let (x, y) = (render(&ca, f), render(&cb, f));
        k.state(&(&texts, f.to_bits()));
        k.step(x.len());
        k.trace();
        if let Err(e) = trace_eq(&x, &y) {
            return fail(
                format!("{why}: frame {f}: {e}"),
                json!({"doc": a, "other": b, "frame": f, "observed": dump(&x), "expected": dump(&y)}),
            );
        }
    }
    Ok(())
}

/// All ways to choose one element per position.
pub fn product(sizes: &[usize], mut f: impl FnMut(&[usize])) {
    let mut ix = vec![0; sizes.len()];
    if sizes.contains(&0) {
        return;
    }
    loop {
        f(&ix);
        let mut p = sizes.len();
        loop {
            if p == 0 {
                return;
            }
            p -= 1;
            ix[p] += 1;
            if ix[p] < sizes[p] {
                break;
            }
            ix[p] = 0;
        }
    }
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}
