//! Time moved and stretched (C29), and values keyframed without changing (C30).
use super::keys::{elements, find_slots};
use crate::check::*;
use crate::corpus;
use crate::doc::*;
use crate::run::*;

fn num(v: &mut Value, f: impl Fn(f64) -> f64) {
    if let Some(x) = v.as_f64() {
        *v = json!(f(x));
    }
}
/// The times of a list of layers mapped: windows, start times and keyframes.
fn retime(list: &mut Value, f: impl Fn(f64) -> f64 + Copy) {
    let mut keyed = vec![];
    find_slots(list, String::new(), &mut keyed);
    for p in keyed {
        for k in list.pointer_mut(&format!("{p}/k")).unwrap().as_array_mut().unwrap() {
            num(&mut k["t"], f);
        }
    }
    for l in list.as_array_mut().unwrap() {
        for key in ["ip", "op"] {
            num(&mut l[key], f);
        }
        if l.get("st").is_some() {
            num(&mut l["st"], f);
        }
    }
}
fn assets_of(d: &mut Value) -> Vec<&mut Value> {
    d["assets"].as_array_mut().into_iter().flatten().filter(|a| a.get("layers").is_some()).collect()
}
/// Visits the instances of every list of a document.
fn instances(d: &mut Value, mut f: impl FnMut(Option<&str>, &mut Value)) {
    for l in d["layers"].as_array_mut().unwrap() {
        if l["ty"] == 0 {
            f(None, l);
        }
    }
    for a in assets_of(d) {
        let id = a["id"].as_str().unwrap().to_string();
        for l in a["layers"].as_array_mut().unwrap() {
            if l["ty"] == 0 {
                f(Some(&id), l);
            }
        }
    }
}

fn mapped(k: &mut Cov, name: &str, d: &Value, e: &Value, frames: &[f64], f: impl Fn(f64) -> f64, what: &str) -> R {
    let (a, b) = (parse(d)?, parse(e)?);
    for &x in frames {
        let (y, want, got) = (f(x), crate::rec::render(&a, x), crate::rec::render(&b, f(x)));
        k.state(&(name, what, x.to_bits()));
        k.step(want.len());
        k.trace();
        if let Err(m) = crate::rec::trace_eq(&got, &want) {
            return fail(
                format!("[{name}] {what}: frame {y} is not what frame {x} was: {m}"),
                json!({"doc": d, "other": e, "frame": x, "other_frame": y, "observed": crate::rec::dump(&got), "expected": crate::rec::dump(&want)}),
            );
        }
    }
    Ok(())
}

fn documents() -> Vec<(String, Value)> {
    corpus::docs().into_iter().chain(corpus::assets()).chain([("opacity stops".to_string(), super::keys::opacity_stops())]).chain(elements().into_iter().map(|(n, d)| (n.to_string(), d))).collect()
}
/// The documents, and each as a precomposition shown twice.
fn nested() -> Vec<(String, Value)> {
    let mut out = documents();
    let more: Vec<_> = out.iter().map(|(n, d)| (format!("{n}, nested"), nest(d))).collect();
    out.extend(more);
    out
}

pub fn c29(x: &mut X) {
    // exactly representable, and so are their images under the maps below
    let frames: Vec<f64> = {
        let mut f = vec![-4.0, 0.0, 0.5, 3.0, 7.25, 9.0, 10.0, 12.0, 15.0, 19.875, 20.0, 25.0, 30.0, 33.25, 35.0, 40.0, 60.0, 99.9375, 100.0];
        if x.tier_thorough {
            f.extend((0..200).map(|i| i as f64 * 0.5 + 0.25));
        }
        f
    };
    for (name, d) in nested() {
        x.family("the whole timeline shifted");
        for by in [16.0, 0.5, -64.0, -1000.25, 1048576.0, -1073741824.75] {
            x.case(|k| {
                let mut e = d.clone();
                retime(&mut e["layers"], |t| t + by);
                num(&mut e["ip"], |t| t + by);
                num(&mut e["op"], |t| t + by);
                mapped(k, &name, &d, &e, &frames, |t| t + by, &format!("shifted by {by}"))
            });
        }
        x.family("the whole timeline stretched");
        for by in [2.0, 0.5, 8.0, 1.0 / 1024.0, 1048576.0] {
            x.case(|k| {
                let mut e = d.clone();
                retime(&mut e["layers"], |t| t * by);
                for a in assets_of(&mut e) {
                    retime(&mut a["layers"], |t| t * by);
                }
                mapped(k, &name, &d, &e, &frames, |t| t * by, &format!("stretched by {by}"))
            });
            x.case(|k| {
                // the stretch of the instances instead of what they show
                let mut e = d.clone();
                retime(&mut e["layers"], |t| t * by);
                instances(&mut e, |list, l| {
                    if list.is_none() {
                        l["sr"] = json!(l["sr"].as_f64().unwrap_or(1.0) * by);
                    }
                });
                mapped(k, &name, &d, &e, &frames, |t| t * by, &format!("stretched by {by}, instances too"))
            });
        }
        x.family("an asset's own time shifted");
        let ids: Vec<String> = assets_of(&mut d.clone()).iter().map(|a| a["id"].as_str().unwrap().to_string()).collect();
        for id in &ids {
            for by in [32.0, -8.5, 65536.0] {
                x.case(|k| {
                    let mut e = d.clone();
                    for a in assets_of(&mut e) {
                        if a["id"] == **id {
                            retime(&mut a["layers"], |t| t + by);
                        }
                    }
                    instances(&mut e, |_, l| {
                        if l["refId"] == **id {
                            let sr = l["sr"].as_f64().unwrap_or(1.0);
                            num(&mut l["st"], |t| t - by * sr);
                        }
                    });
                    mapped(k, &name, &d, &e, &frames, |t| t, &format!("asset {id} shifted by {by} and its instances back"))
                });
            }
            for by in [2.0, 0.25] {
                x.case(|k| {
                    let mut e = d.clone();
                    for a in assets_of(&mut e) {
                        if a["id"] == **id {
                            retime(&mut a["layers"], |t| t * by);
                            for l in a["layers"].as_array_mut().unwrap() {
                                if l["ty"] == 0 {
                                    l["sr"] = json!(l["sr"].as_f64().unwrap_or(1.0) * by);
                                }
                            }
                        }
                    }
                    instances(&mut e, |_, l| {
                        if l["refId"] == **id {
                            l["sr"] = json!(l["sr"].as_f64().unwrap_or(1.0) / by);
                        }
                    });
                    mapped(k, &name, &d, &e, &frames, |t| t, &format!("asset {id} stretched by {by} and its instances squeezed"))
                });
            }
        }
    }
    // every window, start and stretch of a small set, shifted
    x.family("windows and instances shifted");
    let t = [-6.0, 0.0, 2.5, 8.0];
    for ip in t {
        for op in t {
            for st in t {
                for sr in [0.5, 1.0, 2.0, 4.0, -1.0] {
                    x.case(|k| {
                        let mut i = inst(1, "a");
                        (i["ip"], i["op"], i["st"], i["sr"]) = (json!(-10), json!(30), json!(st), json!(sr));
                        let mut l = marked(1, 1);
                        (l["ip"], l["op"]) = (json!(ip), json!(op));
                        l["ks"]["p"] = kf(&[(ip, json!([0, 1])), (10.0, json!([64, 9]))]);
                        let d = doc(vec![i, set(marked(2, 2), "ip", json!(ip))], vec![asset("a", vec![l, marked(2, 3)])]);
                        let fr: Vec<f64> = (-24..64).map(|i| i as f64 / 2.0).collect();
                        for by in [128.0, -0.25, 1e9] {
                            let mut e = d.clone();
                            retime(&mut e["layers"], |t| t + by);
                            mapped(k, "windows", &d, &e, &fr, |t| t + by, &format!("shifted by {by}"))?;
                            let mut e = d.clone();
                            for a in assets_of(&mut e) {
                                retime(&mut a["layers"], |t| t + by);
                            }
                            e["layers"][0]["st"] = json!(st - by * sr);
                            mapped(k, "windows", &d, &e, &fr, |t| t, &format!("asset shifted by {by}"))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

// ------------------------------------------------------------------------ C30

/// Pointers of all static properties of a document.
fn find_static(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            let plain = |k: &Value| k.is_number() || k.get("v").is_some() || k.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(Value::is_number));
            if o.get("k").is_some_and(plain) {
                out.push(at);
                return;
            }
            for (k, w) in o {
                find_static(w, format!("{at}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, w) in a.iter().enumerate() {
                find_static(w, format!("{at}/{i}"), out);
            }
        }
        _ => {}
    }
}
const FORMS: usize = 8;
/// Keyframes that hold the static value `p` throughout.
fn keyed(p: &Value, form: usize) -> Value {
    let v = &p["k"];
    let path = v.is_object();
    let s = if v.is_array() { v.clone() } else { json!([v]) };
    let ease = |mut k: Value, o: (f64, f64), i: (f64, f64), wrap: bool| {
        let n = |x: f64| if wrap { json!([x]) } else { json!(x) };
        k["o"] = json!({"x": n(o.0), "y": n(o.1)});
        k["i"] = json!({"x": n(i.0), "y": n(i.1)});
        k
    };
    let key = |t: f64| json!({"t": t, "s": s});
    let keys = match form {
        0 => vec![key(7.0)],
        1 => vec![key(0.0), key(20.0)],
        2 => vec![ease(key(-3.5), (0.4, 0.1), (0.6, 0.9), true), ease(key(25.0), (0.8, -0.3), (0.2, 1.3), false), key(30.0)],
        3 => vec![set(key(3.0), "h", json!(1)), key(12.0), key(15.0)],
        4 => vec![key(1e6)],
        5 => (0..60).map(|i| if i % 3 == 0 { ease(key(i as f64 * 0.75), (0.5, 0.0), (0.5, 1.0), i % 2 == 0) } else { key(i as f64 * 0.75) }).collect(),
        6 => vec![ease(key(-100.0), (0.0, 1.0), (1.0, 0.0), true), ease(set(key(10.0), "h", json!(1)), (0.3, 0.0), (0.7, 1.0), true), key(11.0)],
        // older documents tell the end of a span, and leave the last key empty
        _ if path => vec![set(key(0.0), "e", s.clone()), set(key(18.0), "e", s.clone()), key(30.0)],
        _ => vec![key(-1.0), key(0.0), key(1.0), key(40.0), key(100.0)],
    };
    let mut out = p.clone();
    out["a"] = json!(1);
    out["k"] = json!(keys);
    out
}

pub fn c30(x: &mut X) {
    let frames = [-4.0, 0.0, 7.25, 12.0, 20.0, 29.5, 41.0];
    let full = x.tier_thorough;
    for (name, d) in nested() {
        let mut all = vec![];
        find_static(&d, String::new(), &mut all);
        let thaw = |which: &[usize], form: &dyn Fn(usize) -> usize| -> Value {
            let mut e = d.clone();
            for i in which {
                let p = e.pointer_mut(&all[*i]).unwrap();
                *p = keyed(p, form(*i));
            }
            e
        };
        x.family("one static value keyframed");
        let is_nested = name.ends_with(", nested");
        for i in 0..all.len() {
            if is_nested && !x.tier_thorough {
                break;
            }
            x.case(|k| {
                for form in 0..FORMS {
                    // quick: half of the forms for each value
                    if !full && (i + form) % 2 == 1 {
                        continue;
                    }
                    let e = thaw(&[i], &|_| form);
                    same_render(k, &e, &d, if full { &frames } else { &frames[1..5] }, &format!("[{name}] {} keyframed without changing, form {form}", all[i]))?;
                }
                Ok(())
            });
        }
        x.family("all static values keyframed");
        let every: Vec<usize> = (0..all.len()).collect();
        for form in 0..FORMS {
            x.case(|k| same_render(k, &thaw(&every, &|_| form), &d, &corpus::frames(), &format!("[{name}] all values keyframed without changing, form {form}")));
            x.case(|k| same_render(k, &thaw(&every, &|i| (i * 5 + form) % FORMS), &d, &corpus::frames(), &format!("[{name}] all values keyframed without changing, mixed forms from {form}")));
        }
        x.family("all but one static value keyframed");
        for i in 0..all.len() {
            if is_nested && !x.tier_thorough {
                break;
            }
            x.case(|k| {
                let but: Vec<usize> = every.iter().copied().filter(|j| *j != i).collect();
                same_render(k, &thaw(&but, &|j| (j + i) % FORMS), &d, &frames, &format!("[{name}] all values but {} keyframed without changing", all[i]))
            });
        }
        x.family("two static values keyframed");
        if x.tier_thorough || all.len() < 20 {
            for i in 0..all.len() {
                x.case(|k| {
                    for j in 0..i {
                        let e = thaw(&[i, j], &|n| (n + i + j) % FORMS);
                        same_render(k, &e, &d, &frames[2..4], &format!("[{name}] {} and {} keyframed without changing", all[i], all[j]))?;
                    }
                    Ok(())
                });
            }
        }
    }
}
