//! The parsing side: C01, C06, C07, C08, C25 (documents as text and values)
//! and C02 (whatever parses must render safely).
use crate::check::*;
use crate::corpus;
use crate::doc::*;
use crate::grammar::{self, Gen, Site, Ty};
use crate::rec::*;
use crate::run::*;
use kurbo::Affine;
use std::str::FromStr;
use velato::Composition;
use velato::schema::Animation;

// ------------------------------------------------------------------ documents

/// Small documents, one per layer kind, shape kind and asset kind, in all
/// alternatives, with every member or only the required ones.
pub fn pieces() -> Vec<(String, Value)> {
    let mut out = vec![];
    for full in [true, false] {
        for alt in 0..2 {
            let mut g = Gen { n: 0, alt };
            let tag = format!("{} {alt}", if full { "full" } else { "min" });
            let top = |layers: Vec<Value>, assets: Vec<Value>| doc(layers, assets);
            for t in 0..=4u64 {
                let y = g.layer(t, full);
                out.push((format!("layer {t} {tag}"), top(vec![y], vec![asset("pc", vec![marked(1, 1)])])));
            }
            for k in grammar::SHAPE_KINDS {
                let s = g.shape(k, full);
                let painted = match *k {
                    "gr" => vec![set(s, "it", json!([rect(0.0, 0.0, 9.0, 9.0), tr_at(1.0, 2.0)])), fill(0.1, 0.2, 0.3)],
                    "tr" => vec![group(vec![rect(0.0, 0.0, 9.0, 9.0), s]), fill(0.1, 0.2, 0.3)],
                    "fl" | "st" | "gf" | "gs" => vec![rect(0.0, 0.0, 9.0, 9.0), s],
                    "rc" | "el" | "sr" | "sh" => vec![s, fill(0.1, 0.2, 0.3)],
                    _ => vec![ell(0.0, 0.0, 9.0, 9.0), path(curve()), s, fill(0.1, 0.2, 0.3)],
                };
                out.push((format!("shape {k} {tag}"), top(vec![shape(1, painted)], vec![])));
            }
            let mut c = g.object("as:comp", full);
            c["layers"] = json!([marked(1, 1)]);
            let im = g.object("as:image", full);
            out.push((format!("assets {tag}"), top(vec![inst(1, "pc"), image(2)], vec![c, im])));
            let mut d = g.object("doc", full);
            d["layers"] = json!([marked(1, 2)]);
            d["w"] = json!(64);
            if full {
                d["assets"] = json!([]);
            }
            out.push((format!("document {tag}"), d));
        }
    }
    for (n, d) in &out {
        assert!(grammar::is_doc(d), "{n} is not a document: {d}");
    }
    out
}
fn curve() -> Value {
    corpus::curve(true)
}
/// Matted, masked, nested documents for the safety checks.
fn rich() -> Vec<(String, Value)> {
    corpus::docs().into_iter().filter(|(n, _)| n != "everything" && !n.contains(", all members")).collect()
}

fn replace(d: &Value, s: &Site, v: Value) -> Value {
    let mut d = d.clone();
    match d.pointer_mut(&s.ptr()) {
        Some(x) => *x = v,
        None => panic!("no site {}", s.ptr()),
    }
    d
}
fn remove(d: &Value, s: &Site, key: &str) -> Value {
    let mut d = d.clone();
    d.pointer_mut(&s.ptr()).unwrap().as_object_mut().unwrap().remove(key);
    d
}

/// One value of every JSON kind and of every troublesome magnitude.
fn atoms() -> Vec<Value> {
    vec![
        json!(null),
        json!(true),
        json!(false),
        json!(""),
        json!("x"),
        json!(0),
        json!(1),
        json!(-1),
        json!(2),
        json!(0.5),
        json!(101),
        json!(65536),
        json!(4294967296u64),
        json!(u64::MAX),
        json!(i64::MIN),
        json!(1e15),
        json!(1e308),
        json!(-1e308),
        json!(5e-324),
        json!([]),
        json!({}),
        json!([null]),
        json!([[]]),
        json!([{}]),
        json!([0]),
        json!([1, 2, 3]),
        json!([1e308, -1e308, 1e308, 1e308]),
        json!({"k": []}),
        json!({"k": 1e308}),
        json!({"k": [1e300, 1]}),
        json!({"a": 1, "k": [{"t": 0, "s": [0]}]}),
        json!({"a": 1, "k": [{"t": 0, "s": []}]}),
        json!({"a": 1, "k": [{"t": 5, "s": [0]}, {"t": 5, "s": [1e308]}, {"t": -5, "s": [3, 4]}]}),
        json!({"a": 1, "k": [{"t": 0, "s": [1, 2], "i": {"x": [], "y": []}, "o": {"x": [9], "y": 1e308}}, {"t": 1e308, "s": [3, 4]}]}),
        json!({"k": {"v": [], "i": [], "o": []}}),
        json!({"k": {"v": [[0, 0], [1e308, 1]], "i": [], "o": [[1, 1]], "c": true}}),
        json!({"k": [{"t": 0, "s": []}]}),
        json!({"k": [{"t": 0, "s": [{"v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]}]}, {"t": 3}]}),
        json!({"k": [{"t": 0, "s": [{"v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]]}]}, {"t": 9, "s": [{"v": [[0, 0], [4, 5], [6, 7]], "i": [[0, 0], [1, 1], [2, 2]], "o": [[0, 0], [1, 1], [2, 2]]}]}]}),
    ]
}
fn few_atoms() -> Vec<Value> {
    vec![
        json!(0),
        json!(-1),
        json!(1e308),
        json!([]),
        json!([1e308, 1]),
        json!({"k": []}),
        json!({"k": 1e308}),
        json!({"a": 1, "k": [{"t": 5, "s": [0]}, {"t": 5, "s": [1e308]}, {"t": -5, "s": [3, 4]}]}),
    ]
}

// ----------------------------------------------------------------------- C01

/// Hands `text` to every entry point; whatever comes back is fine as long as
/// something does, within a memory budget.
fn survive(k: &mut Cov, text: &[u8]) -> R {
    k.state(&text);
    crate::alloc::reset_peak();
    let before = crate::alloc::current();
    let mut calls = 2;
    let _ = Composition::from_slice(text);
    let parsed = Animation::from_slice(text);
    if let Ok(s) = std::str::from_utf8(text) {
        let _ = Composition::from_str(s);
        let _ = Animation::from_str(s);
        calls += 2;
    }
    if let Ok(v) = serde_json::from_slice::<Value>(text) {
        let _ = Composition::from_json(v.clone());
        let _ = Animation::from_json(v);
        calls += 2;
    }
    if let Ok(a) = parsed {
        let _ = a.to_string();
        calls += 1;
    }
    k.step(calls);
    k.trace();
    let used = crate::alloc::peak().saturating_sub(before);
    let budget = (16 << 20) + 20_000 * text.len();
    if used > budget {
        return fail(
            format!("parsing {} bytes took {used} bytes of memory", text.len()),
            json!({"text": String::from_utf8_lossy(text)}),
        );
    }
    Ok(())
}

/// Texts of several lengths in scripts of one to four bytes a letter, in every
/// alignment.
fn long_texts() -> Vec<String> {
    let mut v = vec![];
    for unit in ["q", "é", "名", "\u{1F600}", "e\u{301}"] {
        for n in [3usize, 11, 45, 1000] {
            for pad in 0..2 {
                v.push(format!("{}{}", &"xy"[..pad], unit.repeat(n)));
            }
        }
    }
    v
}
/// An asset that is rejected, called `id`, in every way there is.
fn broken_assets(id: &str) -> Vec<Value> {
    let mut v: Vec<Value> = [
        json!({"p": "a.mp3", "u": "", "e": 0}),
        json!({"p": id, "u": id, "t": 3}),
        json!({}),
        json!({"nm": id}),
        json!({"layers": 3}),
        json!({"layers": id}),
        json!({"layers": [{"ty": 4}]}),
        json!({"layers": [{"ty": 99, "nm": id}]}),
        json!({"layers": [{"ty": id}]}),
        json!({"layers": [{}]}),
    ]
    .to_vec();
    for a in v.iter_mut() {
        a["id"] = json!(id);
    }
    let good = asset(id, vec![set(marked(1, 1), "nm", json!(id)), inst(2, id)]);
    v.push(set(good.clone(), "layers/0/ip", json!(id)));
    v.push(set(good.clone(), "layers/0/shapes/0/ty", json!(id)));
    v.push(set(good.clone(), "layers/1/refId", json!(true)));
    v.push(set(good, "layers/1/ks", json!(id)));
    v
}

pub fn c01(x: &mut X) {
    let deep = x.tier_thorough;
    x.family("all byte strings of up to two bytes");
    x.case(|k| survive(k, b""));
    for a in 0..=255u8 {
        x.case(|k| {
            survive(k, &[a])?;
            for b in 0..=255u8 {
                survive(k, &[a, b])?;
            }
            Ok(())
        });
    }
    x.family("all short strings over the JSON alphabet");
    let alphabet = b"{}[]\",:0-1e.tn\\u \xff";
    let len = x.pick(3, 4);
    for a in alphabet {
        for b in alphabet {
            x.case(|k| {
                for n in 0..=(len - 2) {
                    product(&vec![alphabet.len(); n], |ix| {
                        let mut t = vec![*a, *b];
                        t.extend(ix.iter().map(|i| alphabet[*i]));
                        survive(k, &t).unwrap();
                    });
                }
                Ok(())
            });
        }
    }
    x.family("every prefix of a document");
    let mut texts: Vec<String> = vec![];
    for (_, d) in pieces() {
        texts.push(d.to_string());
    }
    for t in &texts {
        let step = 64;
        for lo in (0..=t.len()).step_by(step) {
            x.case(|k| {
                for n in lo..(lo + step).min(t.len() + 1) {
                    survive(k, &t.as_bytes()[..n])?;
                }
                Ok(())
            });
        }
    }
    x.family("every suffix and every one-byte deletion of a document");
    for t in texts.iter().skip(texts.len() / 2) {
        for lo in (0..t.len()).step_by(64) {
            x.case(|k| {
                for n in lo..(lo + 64).min(t.len()) {
                    survive(k, &t.as_bytes()[n..])?;
                    let mut b = t.clone().into_bytes();
                    b.remove(n);
                    survive(k, &b)?;
                }
                Ok(())
            });
        }
    }
    x.family("every one-byte substitution in a document");
    let subs: &[u8] = if x.tier_thorough { b"{}[]\",:0-9eE.tfn\\u \0\x80\xff" } else { b"{}[]\",:-9e\xff" };
    for t in &texts[if x.tier_thorough { 0 } else { texts.len() / 2 }..] {
        for lo in (0..t.len()).step_by(16) {
            x.case(|k| {
                for n in lo..(lo + 16).min(t.len()) {
                    for s in subs {
                        let mut b = t.clone().into_bytes();
                        b[n] = *s;
                        survive(k, &b)?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("every site of a document replaced by every atom");
    x.sample(|| json!({"documents": pieces().len(), "atoms": atoms()}));
    for (_, d) in pieces() {
        for s in grammar::sites(&d) {
            x.case(|k| {
                for a in atoms() {
                    survive(k, replace(&d, &s, a).to_string().as_bytes())?;
                }
                if let Some(kind) = &s.kind {
                    for f in grammar::fields(kind) {
                        survive(k, remove(&d, &s, f.key).to_string().as_bytes())?;
                    }
                    let mut e = d.clone();
                    e.pointer_mut(&s.ptr()).unwrap().as_object_mut().unwrap().remove("ty");
                    survive(k, e.to_string().as_bytes())?;
                }
                Ok(())
            });
        }
    }
    x.family("every number written in every unusual form");
    for (_, d) in pieces().into_iter().filter(|(n, _)| deep || n.contains("min")) {
        for s in grammar::sites(&d) {
            if !matches!(s.ty, Ty::Num | Ty::UInt | Ty::Int(_)) {
                continue;
            }
            x.case(|k| {
                let t = replace(&d, &s, json!("@@")).to_string();
                for n in [
                    "1e309", "-1e309", "1e-400", "123456789012345678901234567890", "-0", "1E+2", "01", "+1", ".5", "1.", "NaN",
                    "Infinity", "0x10", "1e", "--1", "1e99999999999999999999", "0.00000000000000000000000000001", "18446744073709551616",
                ] {
                    survive(k, t.replace("\"@@\"", n).as_bytes())?;
                }
                Ok(())
            });
        }
    }
    x.family("long texts in every script");
    for t in long_texts() {
        x.case(|k| {
            for a in broken_assets(&t) {
                survive(k, doc(vec![], vec![a]).to_string().as_bytes())?;
            }
            Ok(())
        });
    }
    for (_, d) in pieces() {
        let wide: Vec<String> = long_texts().into_iter().filter(|t| t.len() > 100 && t.len() < 300 || t.len() < 40 && !t.is_ascii()).collect();
        for s in grammar::sites(&d) {
            // a text where one belongs may matter anywhere; elsewhere it is an error
            let own = matches!(s.ty, Ty::Str | Ty::Name(_));
            x.case(|k| {
                for t in wide.iter().skip(if own { 0 } else { wide.len() - 3 }) {
                    survive(k, replace(&d, &s, json!(t)).to_string().as_bytes())?;
                }
                Ok(())
            });
        }
    }
    x.family("every pair of sites of one object replaced by atoms");
    for (_, d) in pieces() {
        if !x.tier_thorough {
            continue;
        }
        let all = grammar::sites(&d);
        for s in &all {
            if s.kind.is_none() {
                continue;
            }
            let kids: Vec<&Site> = all.iter().filter(|c| c.path.len() == s.path.len() + 1 && c.path.starts_with(&s.path)).collect();
            for i in 0..kids.len() {
                for j in 0..i {
                    x.case(|k| {
                        for a in few_atoms() {
                            for b in few_atoms() {
                                let e = replace(&replace(&d, kids[i], a.clone()), kids[j], b);
                                survive(k, e.to_string().as_bytes())?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    x.family("nesting up to the parser's limit");
    type Nest = (&'static str, fn(usize) -> String);
    let nests: [Nest; 8] = [
        ("arrays", |n| "[".repeat(n) + &"]".repeat(n)),
        ("open arrays", |n| "[".repeat(n)),
        ("groups", |n| {
            let mut s = String::from("{\"ty\":\"gr\",\"it\":[]}");
            for _ in 0..n {
                s = format!("{{\"ty\":\"gr\",\"it\":[{s}]}}");
            }
            doc(vec![shape(1, vec![json!("@@")])], vec![]).to_string().replace("\"@@\"", &s)
        }),
        ("groups of an asset", |n| {
            let mut s = String::from("{\"ty\":\"fl\"}");
            for _ in 0..n {
                s = format!("{{\"it\":[{s}],\"ty\":\"gr\"}}");
            }
            doc(vec![], vec![asset("a", vec![shape(1, vec![json!("@@")])])]).to_string().replace("\"@@\"", &s)
        }),
        ("metadata", |n| {
            let mut d = doc(vec![], vec![]);
            d["metadata"] = json!("@@");
            d.to_string().replace("\"@@\"", &("{\"a\":".repeat(n) + "1" + &"}".repeat(n)))
        }),
        ("unknown member", |n| {
            let mut d = doc(vec![marked(1, 1)], vec![]);
            d["layers"][0]["shapes"][0]["zz"] = json!("@@");
            d.to_string().replace("\"@@\"", &("[{\"a\":".repeat(n) + "1" + &"}]".repeat(n)))
        }),
        ("keyframe value", |n| {
            let mut d = doc(vec![marked(1, 1)], vec![]);
            d["layers"][0]["ks"]["p"]["k"] = json!("@@");
            d.to_string().replace("\"@@\"", &("[".repeat(n) + "1" + &"]".repeat(n)))
        }),
        ("precompositions inside assets", |n| {
            let mut s = String::from("{}");
            for _ in 0..n {
                s = format!("{{\"id\":\"a\",\"layers\":[{s}]}}");
            }
            doc(vec![], vec![json!("@@")]).to_string().replace("\"@@\"", &s)
        }),
    ];
    for (_, f) in nests {
        for n in 0..=130 {
            x.case(|k| {
                let t = f(n);
                // on a thread with the default stack of a Rust thread
                let r = std::thread::scope(|sc| {
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(sc, || {
                            let mut inner = Cov::default();
                            survive(&mut inner, t.as_bytes())
                        })
                        .unwrap()
                        .join()
                });
                k.state(&t);
                k.step(6);
                k.trace();
                match r {
                    Ok(r) => r,
                    Err(p) => fail(format!("panic: {}", panic_text(&p)), json!({"text": t})),
                }
            });
        }
    }
    x.family("long lists");
    for n in [100usize, 1000, 4000] {
        x.case(|k| survive(k, doc((0..n as u64).map(null).collect(), vec![]).to_string().as_bytes()));
        x.case(|k| survive(k, doc(vec![shape(1, vec![rect(0.0, 0.0, 1.0, 1.0); n])], vec![]).to_string().as_bytes()));
        x.case(|k| {
            let keys: Vec<(f64, Value)> = (0..n).map(|i| (i as f64, json!(i))).collect();
            survive(k, doc(vec![set(null(1), "ks/o", kf(&keys))], vec![]).to_string().as_bytes())
        });
    }
    x.family("files of the repository");
    for (_, d) in corpus::assets() {
        let t = d.to_string();
        x.case(|k| survive(k, t.as_bytes()));
        let cuts = x.pick(40, 400);
        for i in 0..cuts {
            let t = &t;
            x.case(move |k| survive(k, &t.as_bytes()[..t.len() * i / cuts]));
        }
    }
}

// ----------------------------------------------------------------------- C02

fn wild_frames() -> Vec<f64> {
    vec![
        0.0, 0.5, -1.0, 3.75, 12.0, 24.0, 99.999, -1e9, 1e9, 1e18, 1e308, -1e308, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY,
    ]
}
fn safe(k: &mut Cov, d: &Value, frames: &[f64]) -> R {
    let Ok(c) = Composition::from_str(&d.to_string()) else {
        return Ok(());
    };
    let id = d.to_string();
    let mut r = velato::Renderer::new();
    for &f in frames {
        let mut rec = Rec::new(());
        rec.limit = 2_000_000;
        r.append(&c, f, Affine::IDENTITY, 1.0, &mut rec);
        k.state(&(&id, f.to_bits()));
        k.step(rec.ops.len());
        k.trace();
        balanced(&rec.ops, c.width as f64, c.height as f64, Affine::IDENTITY)
            .map_err(|e| Fail { msg: format!("frame {f}: {e}"), data: json!({"doc": d, "frame": f, "observed": dump(&rec.ops)}) })?;
    }
    Ok(())
}

pub fn c02(x: &mut X) {
    x.family("every site of a document replaced by every atom, then rendered");
    x.sample(|| json!({"frames": wild_frames().iter().map(|f| f.to_string()).collect::<Vec<_>>()}));
    let frames = if x.tier_thorough { wild_frames() } else { vec![0.0, 3.75, 12.0, -1e9, 1e308, f64::NAN, f64::INFINITY] };
    for (_, d) in pieces() {
        for s in grammar::sites(&d) {
            x.case(|k| {
                for a in atoms() {
                    safe(k, &replace(&d, &s, a), &frames)?;
                }
                if let Some(kind) = &s.kind {
                    for f in grammar::fields(kind) {
                        safe(k, &remove(&d, &s, f.key), &frames)?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("rich documents at every frame");
    for (_, d) in rich() {
        x.case(|k| safe(k, &d, &wild_frames()));
        for s in grammar::sites(&d) {
            if !matches!(s.ty, Ty::Num | Ty::UInt | Ty::Int(_) | Ty::Nums | Ty::Vec2) {
                continue;
            }
            let some = [json!(-1), json!(0), json!(7), json!(1e308), json!([]), json!([1e308, 1e-308]), json!([1])];
            x.case(|k| {
                for a in &some {
                    safe(k, &replace(&d, &s, a.clone()), &[0.0, 12.0, 20.0, f64::NAN])?;
                }
                Ok(())
            });
        }
    }
    x.family("every placement of trims with extreme values");
    let extremes = [-1e308, -100.0, -1.0, 0.0, 1e-300, 33.3, 100.0, 100.0000001, 250.0, 1e300];
    product(&[extremes.len(), extremes.len(), extremes.len()], |ix| {
        let (a, b, c) = (extremes[ix[0]], extremes[ix[1]], extremes[ix[2]]);
        x.case(|k| {
            for geo in [
                rect(0.0, 0.0, 10.0, 5.0),
                ell(0.0, 0.0, 0.0, 0.0),
                path(curve()),
                path(poly(&[], true)),
                path(poly(&[[1.0, 1.0]], true)),
                path(poly(&[[1e308, 0.0], [-1e308, 0.0], [0.0, 1e308]], true)),
                path(bez(&[[1e300, 0.0], [5.0, 0.0]], &[[0.0, 1e300], [3.0, 1e308]], &[[1.0, 1.0], [1e300, 1.0]], false)),
                star(1, 3.0),
            ] {
                let d = doc(vec![shape(1, vec![geo, trimp(a, b, c), fill(0.1, 0.2, 0.3)])], vec![]);
                safe(k, &d, &[0.0])?;
            }
            Ok(())
        });
    });
    x.family("all precomposition reference graphs");
    // three assets and the main list, each holding two instances of anything
    let names = ["a", "b", "c", "none"];
    let total = x.pick(3, 4);
    product(&vec![names.len(); total * 2], |ix| {
        x.case(|k| {
            let two = |i: usize| vec![inst(1, names[ix[2 * i]]), marked(2, i), inst(3, names[ix[2 * i + 1]])];
            let mut ids = vec![];
            for (i, n) in names.iter().enumerate().take(total - 1) {
                ids.push(asset(n, two(i + 1)));
            }
            safe(k, &doc(two(0), ids), &[0.0, 150.0])
        });
    });
    x.family("all matte and parent reference graphs");
    let n = 3usize;
    let refs: Vec<Value> = vec![json!(null), json!(1), json!(2), json!(3), json!(9)];
    let modes = [0, 1, 2];
    // per layer: matte reference x matte mode/target x parent
    let per = refs.len() * modes.len() * 2;
    product(&vec![per; n], |ix| {
        x.case(|k| {
            let parents: Vec<Vec<usize>> = if x_small(ix) { vec![vec![0, 0, 0], vec![2, 3, 1]] } else { vec![vec![0, 1, 1]] };
            for p in parents {
                let mut layers = vec![];
                for (i, c) in ix.iter().enumerate() {
                    let (tp, m, td) = (&refs[c % refs.len()], modes[c / refs.len() % modes.len()], c / (refs.len() * modes.len()));
                    let mut y = if i == 1 { inst(i as u64 + 1, "a") } else { marked(i as u64 + 1, i) };
                    if !tp.is_null() {
                        y["tp"] = tp.clone();
                    }
                    if m != 0 {
                        y["tt"] = json!(m);
                    }
                    y["td"] = json!(td);
                    if p[i] != 0 {
                        y["parent"] = json!(p[i]);
                    }
                    layers.push(y);
                }
                let inside = layers.clone();
                safe(k, &doc(layers, vec![asset("a", inside)]), &[0.0])?;
            }
            Ok(())
        });
    });
    x.family("all parent graphs");
    let m = x.pick(4usize, 5);
    product(&vec![m + 2; m], |ix| {
        x.case(|k| {
            let l = ix
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let mut y = marked(i as u64 + 1, i);
                    if *p > 0 {
                        y["parent"] = json!(p);
                    }
                    y
                })
                .collect();
            safe(k, &doc(l, vec![]), &[0.0])
        });
    });
    x.family("deep chains");
    for n in [10usize, 60, 200, 1000] {
        x.case(|k| {
            let l = (1..=n as u64).map(|i| set(marked(i, 1), "parent", json!(i + 1))).collect();
            safe(k, &doc(l, vec![]), &[0.0])
        });
        x.case(|k| {
            // a ring of parents
            let l = (1..=n as u64).map(|i| set(marked(i, 1), "parent", json!(i % n as u64 + 1))).collect();
            safe(k, &doc(l, vec![]), &[0.0])
        });
    }
    for n in [10usize, 60, 200] {
        x.case(|k| {
            let l = (0..n).map(|i| asset(&format!("n{i}"), vec![inst(1, &format!("n{}", i + 1))])).collect();
            safe(k, &doc(vec![inst(1, "n0")], l), &[0.0])
        });
        x.case(|k| {
            let l = (0..n).map(|i| asset(&format!("n{i}"), vec![inst(1, &format!("n{}", (i + 1) % n))])).collect();
            safe(k, &doc(vec![inst(1, "n0")], l), &[0.0])
        });
        x.case(|k| {
            // each layer is the matte of the next and matted itself
            let l = (1..=n as u64)
                .map(|i| {
                    let mut y = marked(i, 1);
                    y["td"] = json!(1);
                    y["tt"] = json!(1);
                    y["tp"] = json!(i - 1);
                    y
                })
                .collect();
            safe(k, &doc(l, vec![]), &[0.0])
        });
    }
    for n in 0..58 {
        x.case(|k| {
            let mut s = rect(0.0, 0.0, 4.0, 4.0);
            for _ in 0..n {
                s = group(vec![s, fill(0.1, 0.2, 0.3), tr()]);
            }
            safe(k, &doc(vec![shape(1, vec![s])], vec![]), &[0.0])
        });
    }
    x.family("files of the repository");
    for (_, d) in corpus::assets() {
        for f in wild_frames() {
            x.case(|k| safe(k, &d, &[f]));
        }
    }
}
fn x_small(ix: &[usize]) -> bool {
    ix.iter().all(|i| i % 2 == 0)
}

// ----------------------------------------------------------------- comparison

fn same_comp(k: &mut Cov, a: &Composition, b: &Composition, why: &str, data: &Value) -> R {
    let bad = |what: &str| fail(format!("{why}: {what} differ"), data.clone());
    if a.frames != b.frames || a.frame_rate != b.frame_rate || a.width != b.width || a.height != b.height {
        return bad("metadata");
    }
    let (mut ka, mut kb): (Vec<_>, Vec<_>) = (a.assets.keys().collect(), b.assets.keys().collect());
    ka.sort();
    kb.sort();
    if ka != kb {
        return bad("asset names");
    }
    if ka.iter().any(|n| a.assets[*n].len() != b.assets[*n].len()) || a.layers.len() != b.layers.len() {
        return bad("layer counts");
    }
    // equal to the last bit in everything they print: they render alike
    fn alike<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
        format!("{a:?}") == format!("{b:?}")
    }
    if alike(&a.layers, &b.layers) && ka.iter().all(|n| alike(&a.assets[*n], &b.assets[*n])) {
        k.step(a.layers.len());
        k.trace();
        return Ok(());
    }
    for f in [-4.0, 0.0, 7.5, 20.0] {
        let (x, y) = (render(a, f), render(b, f));
        k.step(x.len());
        if let Err(e) = trace_eq(&x, &y) {
            return fail(format!("{why}: frame {f}: {e}"), json!({"data": data, "observed": dump(&x), "expected": dump(&y)}));
        }
    }
    k.trace();
    Ok(())
}

// ----------------------------------------------------------------------- C06

fn agree(k: &mut Cov, text: &[u8]) -> R {
    k.state(&text);
    let data = json!({"text": String::from_utf8_lossy(text)});
    let value = serde_json::from_slice::<Value>(text).ok();
    let mut got: Vec<(&str, Option<Composition>)> = vec![("bytes", Composition::from_slice(text).ok())];
    let mut model: Vec<(&str, Option<Animation>)> = vec![("bytes", Animation::from_slice(text).ok())];
    if let Ok(s) = std::str::from_utf8(text) {
        got.push(("string", Composition::from_str(s).ok()));
        got.push(("string via parse()", s.parse::<Composition>().ok()));
        model.push(("string", Animation::from_str(s).ok()));
    }
    if let Some(v) = value {
        got.push(("value", Composition::from_json(v.clone()).ok()));
        model.push(("value", Animation::from_json(v).ok()));
    }
    k.step(got.len() + model.len());
    let first = got[0].1.is_some();
    for (n, g) in &got {
        if g.is_some() != first {
            return fail(format!("composition: bytes {} but {n} {}", okay(first), okay(g.is_some())), data);
        }
    }
    for (n, g) in &model {
        if g.is_some() != first {
            return fail(format!("composition from bytes {} but document from {n} {}", okay(first), okay(g.is_some())), data);
        }
        if g != &model[0].1 {
            return fail(format!("the document from bytes and the one from {n} differ"), data);
        }
    }
    if first {
        let (a, rest) = got.split_first().unwrap();
        for (n, b) in rest {
            same_comp(k, b.as_ref().unwrap(), a.1.as_ref().unwrap(), &format!("{n} against bytes"), &data)?;
        }
    } else {
        k.trace();
    }
    Ok(())
}
fn okay(b: bool) -> &'static str {
    if b { "succeeds" } else { "fails" }
}

pub fn c06(x: &mut X) {
    let deep = x.tier_thorough;
    x.family("documents");
    for (_, d) in grammar::docs().into_iter().chain(pieces()).chain(rich()) {
        let t = d.to_string();
        x.case(|k| agree(k, t.as_bytes()));
        x.case(|k| agree(k, serde_json::to_string_pretty(&d).unwrap().as_bytes()));
        for (pre, post) in [(" \n\t\r", ""), ("", " \n"), ("\u{feff}", ""), ("", "x"), ("", "\0"), ("[", "]"), ("", "{}"), ("//c\n", "")] {
            x.case(|k| agree(k, format!("{pre}{t}{post}").as_bytes()));
        }
        // every non-ASCII or escapable character written as an escape
        x.case(|k| agree(k, t.replace("\"nm\"", "\"\\u006em\"").as_bytes()));
        x.case(|k| agree(k, t.replace("\"k\"", "\"\\u006b\"").replace("\"ty\"", "\"t\\u0079\"").as_bytes()));
    }
    x.family("every site replaced by every atom, every member removed");
    x.sample(|| json!({"atoms": atoms()}));
    for (_, d) in pieces() {
        for s in grammar::sites(&d) {
            x.case(|k| {
                for a in atoms() {
                    agree(k, replace(&d, &s, a).to_string().as_bytes())?;
                }
                if let Some(kind) = &s.kind {
                    for f in grammar::fields(kind) {
                        agree(k, remove(&d, &s, f.key).to_string().as_bytes())?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("every number in every legal form");
    for (_, d) in pieces().into_iter().filter(|(n, _)| deep || n.contains("min")) {
        for s in grammar::sites(&d) {
            if !matches!(s.ty, Ty::Num | Ty::UInt | Ty::Int(_)) {
                continue;
            }
            x.case(|k| {
                let t = replace(&d, &s, json!("@@")).to_string();
                for n in ["1", "1.0", "10e-1", "1E0", "-0", "-0.0", "3e0", "18446744073709551616", "0.1", "1e22", "9007199254740993"] {
                    agree(k, t.replace("\"@@\"", n).as_bytes())?;
                }
                Ok(())
            });
        }
    }
    x.family("truncations");
    for (_, d) in pieces().into_iter().filter(|(n, _)| n.contains("min")) {
        let t = d.to_string();
        for lo in (0..t.len()).step_by(32) {
            x.case(|k| {
                for n in lo..(lo + 32).min(t.len()) {
                    agree(k, &t.as_bytes()[..n])?;
                }
                Ok(())
            });
        }
    }
    x.family("every letter before, after and between");
    let odd: Vec<char> = (0..0x700u32).chain([0x1680, 0x180e, 0x3000, 0xfeff, 0xfffd, 0xffff]).chain(0x2000..0x2080).chain([0x1F600, 0xE0001, 0x10FFFF]).filter_map(char::from_u32).collect();
    for part in odd.chunks(64) {
        x.case(|k| {
            let t = r#"{"v":"5","ip":0,"op":9,"fr":30,"w":1,"h":1,"layers":[]}"#;
            for c in part {
                agree(k, format!("{c}{t}").as_bytes())?;
                agree(k, format!("{t}{c}").as_bytes())?;
                agree(k, t.replace("\"v\"", &format!("{c}\"v\"")).as_bytes())?;
                agree(k, t.replace("\"5\"", &format!("\"{c}\"")).as_bytes())?;
                agree(k, t.replace("9,", &format!("9{c},")).as_bytes())?;
            }
            Ok(())
        });
    }
    x.family("names in every script");
    for s in ["", "é", "名前", "\u{1F600}", "a\"b", "back\\slash", "line\nfeed", "\u{0}", "\u{7f}", "\u{2028}"] {
        let mut d = doc(vec![inst(1, s), marked(2, 1)], vec![asset(s, vec![marked(1, 2)])]);
        d["layers"][1]["nm"] = json!(s);
        d["nm"] = json!(s);
        x.case(|k| agree(k, d.to_string().as_bytes()));
        let ascii: String = d
            .to_string()
            .chars()
            .map(|c| {
                if c.is_ascii() { c.to_string() } else {
                    let mut b = [0u16; 2];
                    c.encode_utf16(&mut b).iter().map(|u| format!("\\u{u:04x}")).collect()
                }
            })
            .collect();
        x.case(|k| {
            agree(k, ascii.as_bytes())?;
            let (a, b) = (parse(&d)?, Composition::from_str(&ascii).map_err(|e| e.to_string())?);
            same_comp(k, &a, &b, "escaped spelling", &d)
        });
    }
    x.family("files of the repository");
    for (_, d) in corpus::assets() {
        let t = d.to_string();
        x.case(|k| agree(k, t.as_bytes()));
        let b = std::cell::OnceCell::new();
        for site in grammar::sites(&d).into_iter().filter(|s| s.kind.is_some()).step_by(x.pick(29, 3)) {
            let d = b.get_or_init(|| d.clone());
            x.case(move |k| {
                let key = site.kind.as_deref().and_then(|n| grammar::fields(n).into_iter().find(|f| f.req)).map(|f| f.key);
                match key {
                    Some(key) => agree(k, remove(d, &site, key).to_string().as_bytes()),
                    None => Ok(()),
                }
            });
        }
    }
}

// ----------------------------------------------------------------------- C07

/// Null members dropped, members the format does not define dropped, every
/// number as a double.
fn normal(ty: Ty, v: &Value) -> Value {
    fn plain(v: &Value) -> Value {
        match v {
            Value::Number(n) => json!(n.as_f64()),
            Value::Array(a) => a.iter().map(plain).collect(),
            Value::Object(m) => m.iter().map(|(k, v)| (k.clone(), plain(v))).collect::<serde_json::Map<_, _>>().into(),
            v => v.clone(),
        }
    }
    match (ty, v) {
        (Ty::Any, v) => plain(v),
        (_, Value::Object(m)) => {
            let Some(kind) = grammar::kind_of(ty, v) else {
                return plain(v);
            };
            let mut out = serde_json::Map::new();
            for f in grammar::fields(&kind) {
                if let Some(x) = m.get(f.key).filter(|x| !x.is_null()) {
                    out.insert(f.key.into(), normal(f.ty, x));
                }
            }
            if let Some(t) = m.get("ty") {
                out.insert("ty".into(), plain(t));
            }
            Value::Object(out)
        }
        (_, Value::Array(a)) => {
            let inner = match ty {
                Ty::List(t) => *t,
                Ty::OneOf(ts) => ts
                    .iter()
                    .find_map(|t| match t {
                        Ty::List(i) if a.iter().all(Value::is_object) => Some(**i),
                        _ => None,
                    })
                    .unwrap_or(Ty::Num),
                _ => Ty::Num,
            };
            a.iter().map(|x| normal(inner, x)).collect()
        }
        (_, v) => plain(v),
    }
}
/// Where two normal forms differ; numbers may differ by one rounding.
fn value_diff(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            let ok = x == y || (x - y).abs() <= 4.0 * f64::EPSILON * x.abs().max(y.abs());
            (!ok).then(|| format!("{at}: {x} vs {y}"))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| value_diff(p, q, &format!("{at}/{i}")))
        }
        (Value::Object(x), Value::Object(y)) => {
            if let Some(k) = x.keys().find(|k| !y.contains_key(*k)) {
                return Some(format!("{at}/{k} is missing after writing"));
            }
            if let Some(k) = y.keys().find(|k| !x.contains_key(*k)) {
                return Some(format!("{at}/{k} appears after writing"));
            }
            x.iter().find_map(|(k, p)| value_diff(p, &y[k], &format!("{at}/{k}")))
        }
        _ => (a != b).then(|| format!("{at}: {} vs {}", clip(&a.to_string(), 80), clip(&b.to_string(), 80))),
    }
}

/// `exact`: every number of the document is read back exactly.
fn round_trip(k: &mut Cov, d: &Value, exact: bool) -> R {
    let text = d.to_string();
    k.state(&text);
    let Ok(a) = Animation::from_str(&text) else {
        return Ok(());
    };
    let data = json!({"doc": d});
    let whole = normal(Ty::Obj("doc"), d);
    let writers: [(&str, String); 3] = [
        ("Display", a.to_string()),
        ("pretty text", serde_json::to_string_pretty(&a).map_err(|e| e.to_string())?),
        ("value", serde_json::to_value(&a).map_err(|e| e.to_string())?.to_string()),
    ];
    let original = Composition::from_str(&text).map_err(|e| Fail { msg: format!("document parses but composition does not: {e}"), data: data.clone() })?;
    for (n, out) in writers {
        k.step(1);
        let back: Value = match serde_json::from_str(&out) {
            Ok(v) => v,
            Err(e) => return fail(format!("{n} wrote invalid JSON: {e}"), data),
        };
        if let Some(e) = value_diff(&whole, &normal(Ty::Obj("doc"), &back), "") {
            return fail(format!("{n}: {e}"), json!({"doc": d, "written": back}));
        }
        match Animation::from_str(&out) {
            Err(e) => return fail(format!("{n}: the written document does not parse: {e}"), json!({"doc": d, "written": back})),
            Ok(b) if exact && b != a => return fail(format!("{n}: the document read back is not equal"), json!({"doc": d, "written": back})),
            Ok(_) => {}
        }
        let again = Composition::from_str(&out).map_err(|e| Fail { msg: format!("{n}: {e}"), data: data.clone() })?;
        same_comp(k, &again, &original, &format!("{n}: read back"), &data)?;
    }
    Ok(())
}

pub fn c07(x: &mut X) {
    x.family("documents");
    for (_, d) in grammar::docs().into_iter().chain(pieces()).chain(corpus::docs()) {
        x.case(|k| round_trip(k, &d, true));
    }
    x.family("every member alone, absent, and in every alternative");
    x.sample(|| json!({"documents": pieces().iter().map(|p| p.0.clone()).collect::<Vec<_>>()}));
    for (_, d) in pieces() {
        let all = grammar::sites(&d);
        for s in &all {
            let Some(kind) = &s.kind else { continue };
            for f in grammar::fields(kind) {
                x.case(|k| {
                    round_trip(k, &remove(&d, s, f.key), true)?;
                    for alt in 0..18 {
                        for full in [false, true] {
                            let mut g = Gen { n: 500, alt };
                            let v = g.field(kind, &f, full);
                            let mut e = d.clone();
                            e.pointer_mut(&s.ptr()).unwrap()[f.key] = v;
                            round_trip(k, &e, true)?;
                        }
                        if alt > 1 && !matches!(f.ty, Ty::Int(_) | Ty::Name(_)) {
                            break;
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("every pair of members of one object");
    for kind in ALL_KINDS {
        let fs = grammar::fields(kind);
        let opt: Vec<_> = fs.iter().filter(|f| !f.req).collect();
        for i in 0..opt.len() {
            for j in 0..i {
                for alt in 0..2 {
                    x.case(|k| {
                        let mut g = Gen { n: 0, alt };
                        let mut m = g.object(kind, false);
                        m[opt[i].key] = g.field(kind, opt[i], true);
                        m[opt[j].key] = g.field(kind, opt[j], true);
                        match wrap(kind, m) {
                            Some(d) => round_trip(k, &d, true),
                            None => Ok(()),
                        }
                    });
                }
            }
        }
    }
    if x.tier_thorough {
        x.family("every subset of the members of small objects");
        for kind in ALL_KINDS {
            let fs = grammar::fields(kind);
            let opt: Vec<_> = fs.iter().filter(|f| !f.req).collect();
            if opt.len() > 12 {
                continue;
            }
            for bits in 0u32..1 << opt.len() {
                x.case(|k| {
                    let mut g = Gen { n: 0, alt: bits as usize };
                    let mut m = g.object(kind, false);
                    for (i, f) in opt.iter().enumerate() {
                        if bits >> i & 1 == 1 {
                            m[f.key] = g.field(kind, f, true);
                        }
                    }
                    match wrap(kind, m) {
                        Some(d) => round_trip(k, &d, true),
                        None => Ok(()),
                    }
                });
            }
        }
    }
    x.family("values of every size and script");
    for v in [0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 1.5e-7, 123456.789, 1e15, 1e16, 1e21, 1e22, 4503599627370497.5, -2.5e-10] {
        x.case(|k| round_trip(k, &doc(vec![set(marked(1, 1), "ks/p", st(json!([v, -v])))], vec![]), true));
        x.case(|k| round_trip(k, &doc(vec![set(marked(1, 1), "ip", json!(v))], vec![]), true));
    }
    for v in [f64::MAX, f64::MIN_POSITIVE, 5e-324, 1.0 / 3.0, std::f64::consts::PI, 1e-300, 0.1 + 0.2] {
        x.case(|k| round_trip(k, &doc(vec![set(marked(1, 1), "ks/p", st(json!([v, -v])))], vec![]), false));
    }
    for s in ["", "é", "名前", "\u{1F600}", "a\"b", "back\\slash", "line\nfeed", "\u{0}", "\u{7f}", "\u{2028}", "</script>"] {
        let mut d = doc(vec![inst(1, s), set(marked(2, 1), "nm", json!(s))], vec![asset(s, vec![marked(1, 2)])]);
        d["metadata"] = json!({s: [s, {s: s}]});
        d["meta"] = json!({"a": s, "k": [s, "x"]});
        x.case(|k| round_trip(k, &d, true));
    }
    x.family("lists of every length");
    for n in 0..=4usize {
        for (_, p) in pieces().into_iter().filter(|(n, _)| n.starts_with("full") || n.contains("full")) {
            for s in grammar::sites(&p) {
                let Some(Value::Array(a)) = p.pointer(&s.ptr()) else { continue };
                if a.is_empty() {
                    continue;
                }
                let b: Vec<Value> = (0..n).map(|i| a[i % a.len()].clone()).collect();
                x.case(|k| round_trip(k, &replace(&p, &s, json!(b)), true));
            }
        }
    }
    x.family("files of the repository");
    for (_, d) in corpus::assets() {
        x.case(|k| round_trip(k, &d, false));
    }
}
const ALL_KINDS: &[&str] = &[
    "doc", "marker", "meta", "mask", "ks", "split", "rot3", "float", "color", "multi", "pos", "path", "kf", "poskf", "pathkf", "handle",
    "bezier", "stops", "dash", "reptr", "as:comp", "as:image", "ly:0", "ly:1", "ly:2", "ly:3", "ly:4", "sh:gr", "sh:rc", "sh:el", "sh:sr",
    "sh:sh", "sh:tr", "sh:fl", "sh:st", "sh:gf", "sh:gs", "sh:tm", "sh:rp", "sh:mm", "sh:pb", "sh:op", "sh:tw", "sh:rd",
];
/// A document around one object of a kind.
fn wrap(kind: &str, m: Value) -> Option<Value> {
    let shapes = |s: Vec<Value>| Some(doc(vec![shape(1, s)], vec![asset("pc", vec![marked(1, 1)])]));
    let on_ks = |ks: Value| Some(doc(vec![set(marked(1, 1), "ks", ks)], vec![]));
    if kind.starts_with("ly:") {
        return Some(doc(vec![m], vec![asset("pc", vec![marked(1, 1)])]));
    }
    if kind.starts_with("as:") {
        return Some(doc(vec![inst(1, "pc")], vec![m]));
    }
    let f = fill(0.1, 0.2, 0.3);
    match kind {
        "doc" => Some(m),
        "marker" => Some(set(doc(vec![], vec![]), "markers", json!([m]))),
        "meta" => Some(set(doc(vec![], vec![]), "meta", m)),
        "mask" => Some(doc(vec![set(marked(1, 1), "masksProperties", json!([m]))], vec![])),
        "ks" => on_ks(m),
        "split" => on_ks(set(ks(), "p", m)),
        "rot3" | "float" => on_ks(set(ks(), "r", m)),
        "color" => shapes(vec![rect(0.0, 0.0, 3.0, 3.0), set(f, "c", m)]),
        "multi" => on_ks(set(ks(), "s", m)),
        "pos" => on_ks(set(ks(), "a", m)),
        "path" => shapes(vec![json!({"ty": "sh", "ks": m}), f]),
        "kf" => on_ks(set(ks(), "s", json!({"a": 1, "k": [m]}))),
        "poskf" => on_ks(set(ks(), "p", json!({"a": 1, "k": [m, {"t": 40, "s": [3, 4]}]}))),
        "pathkf" => {
            let mut first = m.clone();
            if first.get("s").is_none() {
                first["s"] = json!([curve()]);
            }
            first["t"] = json!(-5);
            shapes(vec![json!({"ty": "sh", "ks": {"a": 1, "k": [first, m]}}), f])
        }
        "handle" => on_ks(set(ks(), "s", json!({"a": 1, "k": [{"t": 0, "s": [1, 2], "i": m, "o": {"x": 0, "y": 0}}, {"t": 9, "s": [1, 5]}]}))),
        "bezier" => shapes(vec![path(m), f]),
        "stops" => shapes(vec![rect(0.0, 0.0, 3.0, 3.0), set(gfill(false, 2, json!([])), "g", m)]),
        "dash" => shapes(vec![rect(0.0, 0.0, 3.0, 3.0), {
            let mut s = stroke(0.1, 0.2, 0.3, 2.0);
            s["d"] = json!([m]);
            s
        }]),
        "reptr" => shapes(vec![rect(0.0, 0.0, 3.0, 3.0), f, json!({"ty": "rp", "c": st(json!(2)), "tr": m})]),
        "sh:tr" => shapes(vec![group(vec![rect(0.0, 0.0, 3.0, 3.0), f, m])]),
        k if k.starts_with("sh:") => shapes(vec![rect(0.0, 0.0, 3.0, 3.0), m, f]),
        _ => None,
    }
}

// ----------------------------------------------------------------------- C08

type Tweak<'a> = dyn Fn(&[String], &mut Vec<(String, Value)>) + 'a;
/// Writes a value with the members of each object as `tweak` leaves them.
fn write(v: &Value, path: &mut Vec<String>, tweak: &Tweak, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut list: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            tweak(path, &mut list);
            out.push('{');
            for (i, (k, v)) in list.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&Value::from(k.as_str()).to_string());
                out.push(':');
                path.push(k.clone());
                write(v, path, tweak, out);
                path.pop();
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                path.push(i.to_string());
                write(v, path, tweak, out);
                path.pop();
            }
            out.push(']');
        }
        v => out.push_str(&v.to_string()),
    }
}
fn spelled(v: &Value, tweak: &Tweak) -> String {
    let mut s = String::new();
    write(v, &mut vec![], tweak, &mut s);
    s
}

struct Base {
    doc: Animation,
    comp: Composition,
}
fn base(d: &Value) -> Result<Base, Fail> {
    let t = d.to_string();
    let doc = Animation::from_str(&t).map_err(|e| Fail { msg: format!("valid document rejected: {e}"), data: json!({"doc": d}) })?;
    Ok(Base { doc, comp: parse(d)? })
}
fn unmoved(k: &mut Cov, b: &Base, text: &str) -> R {
    k.state(&text);
    let data = json!({"text": text});
    match Animation::from_str(text) {
        Err(e) => return fail(format!("rejected: {e}"), data),
        Ok(a) if a != b.doc => return fail("parses to a different document", data),
        Ok(_) => {}
    }
    let v: Value = serde_json::from_str(text).unwrap();
    match Animation::from_json(v.clone()) {
        Err(e) => return fail(format!("rejected as a value: {e}"), data),
        Ok(a) if a != b.doc => return fail("parses to a different document from a value", data),
        Ok(_) => {}
    }
    for c in [Composition::from_str(text), Composition::from_slice(text.as_bytes()), Composition::from_json(v)] {
        k.step(1);
        match c {
            Ok(c) => same_comp(k, &c, &b.comp, "spelled differently", &data)?,
            Err(e) => return fail(format!("rejected: {e}"), data),
        }
    }
    Ok(())
}

/// Names that look like members of the format: long forms, and words of other
/// formats, in three spellings.
const WORDS: &str = "align amount anchor_point angle animated animated_property asset assets author base base_stroke blend_mode choke_spread closed color colors comment composite composition copies count css_class dashes description dir direction distance duration embedded end end_opacity end_point end_value_deprecated expand expression extra file_asset file_name fill_rule frame_rate generator gradient gradient_type graphic_element has_mask height hidden highlight_angle highlight_length hold id in_point in_tangent in_tangents index inner_radius inner_roundness invert inverted jitter keyframe keywords layer layer_style layer_type layers length line_cap line_join markers masks_properties match_name matte_layer_index matte_mode matte_target merge_mode meta metadata miter_limit miter_limit_anim mode modifier motion_blur multiple name noise num_properties offset opacity out_point out_tangent out_tangents outer_radius outer_roundness parent_index points position property_index radius range ref_id reverse rotate_to_match_anim_pos_path rotation rounded_corner_radius scale sequence shape shape_property shape_style shapes size skew skew_axis slot_id slottable_object smoothness split star_type start start_opacity start_point start_time stroke_color style_type tag_name theme_color three_dimensional time time_remap time_stretch tranform_before_mask_deprecated transform transform_before_mask value value_in_tangent value_out_tangent ver version vertices visual_layer visual_object width x_coordinate xml_id y_coordinate type kind class title label visible enabled locked solo guide alpha fill stroke text font color_space fps frames start end from to in out delay time_range delta ease easing interpolation tangent spatial anchor rot pos layer_index parent_id ref_name source src path url uri data_url mask masks matte track effects ef slots rootslots chars fonts props properties keyframes keys values items children it shapes_list closed_path vertex in_handle out_handle stops gradients dash dashes cap join miter";

fn foreign(own: &[&str]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for w in WORDS.split(' ') {
        let camel: String = w.split('_').enumerate().map(|(i, p)| if i == 0 { p.to_string() } else { p[..1].to_uppercase() + &p[1..] }).collect();
        let title = camel[..1].to_uppercase() + &camel[1..];
        out.extend([w.to_string(), camel, title]);
    }
    let mut kinds: Vec<String> = grammar::SHAPE_KINDS.iter().map(|k| format!("sh:{k}")).collect();
    kinds.extend((0..=4).map(|t| format!("ly:{t}")));
    kinds.extend(
        "doc marker meta mask ks split rot3 float color multi pos path kf poskf pathkf handle bezier stops dash reptr as:comp as:image"
            .split(' ')
            .map(String::from),
    );
    for kind in kinds {
        for f in grammar::fields(&kind) {
            out.extend([f.key.to_string(), f.key.to_uppercase(), format!("{}_", f.key), format!(" {}", f.key)]);
        }
    }
    out.sort();
    out.dedup();
    out.retain(|n| !own.contains(&n.as_str()) && n != "ty");
    out
}
/// The members that any reading of an object at this site may have.
fn members_at(ty: Ty, v: &Value) -> Vec<&'static str> {
    let keys = |k: &str| grammar::fields(k).into_iter().map(|f| f.key).collect::<Vec<_>>();
    match ty {
        Ty::OneOf(ts) => ts.iter().flat_map(|t| members_at(*t, v)).collect(),
        Ty::Obj(k) => keys(k),
        Ty::Asset => [keys("as:comp"), keys("as:image")].concat(),
        _ => grammar::kind_of(ty, v).map(|k| keys(&k)).unwrap_or_default(),
    }
}

pub fn c08(x: &mut X) {
    let extras: Vec<Value> = vec![
        json!(null),
        json!(true),
        json!(7),
        json!(-1.5e300),
        json!("s"),
        json!([]),
        json!({}),
        json!([1, [2, {"k": 3}]]),
        json!({"k": 1, "ty": 99, "layers": [{}]}),
    ];
    let keys = ["zzz", "", "é", "visual_object", "__proto__", "TY", "0"];
    x.family("one unknown member in every object");
    x.sample(|| json!({"keys": keys, "values": extras}));
    for (_, d) in pieces() {
        for s in grammar::sites(&d).into_iter().filter(|s| s.kind.is_some()) {
            x.case(|k| {
                let b = base(&d)?;
                for (i, key) in keys.iter().enumerate() {
                    for (j, v) in extras.iter().enumerate() {
                        // every value with the first key, every key with two values
                        if i > 0 && j != 1 && j != 8 {
                            continue;
                        }
                        for front in [true, false] {
                            let t = spelled(&d, &|p, l| {
                                if p == s.path {
                                    l.insert(if front { 0 } else { l.len() }, (key.to_string(), v.clone()));
                                }
                            });
                            unmoved(k, &b, &t)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    x.family("members of other objects and long names in every object");
    let odd = [json!(null), json!(true), json!(0), json!(1.5), json!("s"), json!([]), json!([1, 2]), json!({}), json!({"a": 0, "k": 5}), json!([[1, 2]])];
    let mut seen = std::collections::HashSet::new();
    for (_, d) in pieces() {
        for s in grammar::sites(&d).into_iter().filter(|s| s.kind.is_some()) {
            let here = d.pointer(&s.ptr()).unwrap();
            let names = foreign(&members_at(s.ty, here));
            // one name at a time, once per object kind and form
            let form: Vec<String> = here.as_object().unwrap().iter().map(|(k, v)| format!("{k}{}", v.is_array() as u8 + 2 * v.is_object() as u8)).collect();
            let first = seen.insert((s.kind.clone(), form));
            x.case(|k| {
                let b = base(&d)?;
                for (i, v) in odd.iter().enumerate() {
                    let t = spelled(&d, &|p, l| {
                        if p == s.path {
                            let at = i % (l.len() + 1);
                            l.splice(at..at, names.iter().map(|n| (n.clone(), v.clone())));
                        }
                    });
                    unmoved(k, &b, &t)?;
                }
                if first {
                    for n in &names {
                        for v in [&odd[1], &odd[3], &odd[8]] {
                            let t = spelled(&d, &|p, l| {
                                if p == s.path {
                                    l.push((n.clone(), v.clone()));
                                }
                            });
                            unmoved(k, &b, &t)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    x.family("unknown members in every object at once");
    for (_, d) in grammar::docs().into_iter().chain(pieces()).chain(corpus::docs()) {
        for (i, v) in extras.iter().enumerate() {
            x.case(|k| {
                let b = base(&d)?;
                let own: Vec<Vec<String>> = grammar::sites(&d).into_iter().filter(|s| s.kind.is_some()).map(|s| s.path).collect();
                let t = spelled(&d, &|p, l| {
                    if own.iter().any(|o| o == p) {
                        l.insert(i % (l.len() + 1), ("zz".into(), v.clone()));
                        l.push(("yy".into(), v.clone()));
                    }
                });
                unmoved(k, &b, &t)
            });
        }
    }
    x.family("member order of every object at once");
    for (_, d) in grammar::docs().into_iter().chain(pieces()).chain(corpus::docs()) {
        for how in 0..8usize {
            x.case(|k| {
                let b = base(&d)?;
                let t = spelled(&d, &|p, l| match how {
                    0 => l.reverse(),
                    1..=5 => {
                        let n = l.len().max(1);
                        l.rotate_left(how % n)
                    }
                    6 => l.sort_by_key(|(k, _)| (k.len(), k.chars().rev().collect::<String>())),
                    _ => {
                        let n = l.len().max(1);
                        l.rotate_left(p.len() % n);
                        l.reverse()
                    }
                });
                unmoved(k, &b, &t)
            });
        }
    }
    x.family("every member order of one object");
    let most = x.pick(4, 6);
    for (_, d) in pieces() {
        for s in grammar::sites(&d).into_iter().filter(|s| s.kind.is_some()) {
            let n = d.pointer(&s.ptr()).unwrap().as_object().unwrap().len();
            x.case(|k| {
                let b = base(&d)?;
                let orders: Vec<Vec<usize>> = if n <= most {
                    permutations(n)
                } else {
                    // each member first, each member last, each adjacent pair swapped
                    let id: Vec<usize> = (0..n).collect();
                    let mut o = vec![];
                    for i in 0..n {
                        let mut a = id.clone();
                        let e = a.remove(i);
                        let mut z = a.clone();
                        a.insert(0, e);
                        z.push(e);
                        o.extend([a, z]);
                        if i + 1 < n {
                            let mut w = id.clone();
                            w.swap(i, i + 1);
                            o.push(w);
                        }
                    }
                    o
                };
                for o in orders {
                    let t = spelled(&d, &|p, l| {
                        if p == s.path {
                            let old = l.clone();
                            *l = o.iter().map(|i| old[*i].clone()).collect();
                        }
                    });
                    unmoved(k, &b, &t)?;
                }
                Ok(())
            });
        }
    }
    x.family("files of the repository");
    for (_, d) in corpus::assets() {
        for how in 0..4usize {
            x.case(|k| {
                let b = base(&d)?;
                let t = spelled(&d, &|p, l| {
                    if how % 2 == 0 {
                        l.reverse();
                    }
                    if how >= 2 && !p.iter().any(|s| s == "meta" || s == "metadata" || s == "zz") {
                        l.insert(0, ("zz".into(), json!({"k": [1]})));
                    }
                });
                unmoved(k, &b, &t)
            });
        }
    }
}

// ----------------------------------------------------------------------- C25

fn verdict(k: &mut Cov, d: &Value, names: &[String]) -> R {
    let text = d.to_string();
    k.state(&text);
    k.step(2);
    k.trace();
    let want = grammar::is_doc(d);
    let got: [Result<(), String>; 2] = [
        Composition::from_str(&text).map(|_| ()).map_err(|e| e.to_string()),
        Animation::from_json(d.clone()).map(|_| ()).map_err(|e| e.to_string()),
    ];
    for g in got {
        match (want, g) {
            (true, Err(e)) => return fail(format!("valid document rejected: {e}"), json!({"doc": d})),
            (false, Ok(())) => return fail(format!("invalid document accepted: {}", why(d)), json!({"doc": d})),
            (false, Err(e)) => {
                for n in names {
                    // as it is, or quoted the way Rust quotes texts
                    let quoted = format!("{n:?}");
                    if !e.contains(n.as_str()) && !e.contains(&quoted[1..quoted.len() - 1]) {
                        return fail(format!("the error does not name {n:?}: {e}"), json!({"doc": d}));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// The innermost invalid site.
fn why(d: &Value) -> String {
    let mut at = "document".to_string();
    for s in grammar::sites(d) {
        let v = d.pointer(&s.ptr()).unwrap();
        if !grammar::valid(s.ty, v) {
            at = match (v, s.ty) {
                (Value::Array(a), Ty::OneOf(l)) if l.iter().any(|t| matches!(t, Ty::Obj(_))) && !a.iter().all(Value::is_object) => {
                    let kinds: Vec<&str> = l.iter().filter_map(|t| if let Ty::Obj(k) = t { Some(*k) } else { None }).collect();
                    format!("array in place of {} object at {}", kinds.join("/"), s.ptr())
                }
                (Value::Array(_), Ty::Obj(k)) => format!("array in place of {k} object at {}", s.ptr()),
                _ => format!("{} is not {:?}: {}", s.ptr(), s.ty, clip(&v.to_string(), 120)),
            };
        }
    }
    at
}
/// One non-null value of every JSON kind.
fn kinds() -> Vec<Value> {
    vec![
        json!(true), json!("x"), json!(1), json!(0), json!(-1), json!(1.5), json!([]), json!({}), json!([true]), json!([null]),
        json!(["x"]), json!([1, 2]), json!([1, 2, 3]), json!([[]]), json!([{}]), json!({"k": "x"}), json!({"k": [true]}), json!({"k": {}}),
        json!({"k": [{}]}), json!({"k": [{"t": 0}]}), json!({"k": [{"t": 0}, {"t": 1}]}), json!({"a": 1}), json!({"s": true, "x": {"k": 1}}),
        json!({"x": {"k": 1}, "y": {"k": 1}}),
    ]
}
/// The asset a site lies in, by the id its error must name.
fn asset_of(d: &Value, s: &Site) -> Vec<String> {
    if s.path.len() >= 3 && s.path[0] == "assets" {
        if let Some(id) = d["assets"][s.path[1].parse::<usize>().unwrap()]["id"].as_str() {
            return vec![id.to_string()];
        }
    }
    vec![]
}

pub fn c25(x: &mut X) {
    x.family("valid documents");
    for (_, d) in grammar::docs().into_iter().chain(pieces()).chain(corpus::docs()).chain(corpus::assets()) {
        x.case(|k| {
            if !grammar::is_doc(&d) {
                return fail(format!("not a document of the grammar: {}", why(&d)), json!(null));
            }
            verdict(k, &d, &[])
        });
    }
    x.family("every member of every object removed");
    for (_, d) in pieces().into_iter().chain(grammar::docs()) {
        let sites = grammar::sites(&d);
        for s in sites.into_iter().filter(|s| s.kind.is_some()) {
            x.case(|k| {
                for f in grammar::fields(s.kind.as_ref().unwrap()) {
                    let e = remove(&d, &s, f.key);
                    let mut names = asset_of(&e, &s);
                    if s.path.len() == 2 && s.path[0] == "assets" && f.key != "id" {
                        names = vec![d.pointer(&s.ptr()).unwrap()["id"].as_str().unwrap().to_string()];
                    }
                    verdict(k, &e, &names)?;
                    if f.req {
                        let mut e = d.clone();
                        e.pointer_mut(&s.ptr()).unwrap()[f.key] = json!(null);
                        verdict(k, &e, &names)?;
                    }
                }
                if matches!(s.ty, Ty::Layer | Ty::Shape) {
                    verdict(k, &remove(&d, &s, "ty"), &asset_of(&d, &s))?;
                }
                Ok(())
            });
        }
    }
    x.family("every site replaced by a value of every kind");
    x.sample(|| json!({"kinds": kinds()}));
    for (_, d) in pieces() {
        for s in grammar::sites(&d) {
            x.case(|k| {
                let names = asset_of(&d, &s);
                let names = if s.path.len() == 3 && s.path[2] == "id" { vec![] } else { names };
                let mut soft = Ok(());
                for v in kinds() {
                    match verdict(k, &replace(&d, &s, v), &names) {
                        // look at the other values before reporting this
                        Err(e) if e.msg.contains("array in place of") => soft = Err(e),
                        r => r?,
                    }
                }
                soft
            });
        }
    }
    x.family("arrays in place of objects");
    for kind in ALL_KINDS {
        for alt in 0..2 {
            for full in [false, true] {
                let mut g = Gen { n: 0, alt };
                let m = g.object(kind, full);
                let list: Vec<Value> =
                    grammar::fields(kind).iter().map(|f| m.get(f.key).cloned().unwrap_or(Value::Null)).collect();
                for list in [list.clone(), list.iter().filter(|v| !v.is_null()).cloned().collect(), vec![]] {
                    if *kind == "pathkf" || *kind == "doc" {
                        continue;
                    }
                    if let Some(d) = wrap(kind, json!("@@")) {
                        let t = d.to_string().replace("\"@@\"", &json!(list).to_string());
                        x.case(|k| verdict(k, &serde_json::from_str(&t).unwrap(), &[]));
                    }
                }
            }
        }
    }
    x.family("layer types");
    for t in (0..=20u64).chain([99, 255, 256, 4294967296, u64::MAX]) {
        for (name, base) in (0..=4u64).map(|b| (b, Gen { n: 0, alt: 0 }.layer(b, true))) {
            if t <= 4 && t != name {
                continue;
            }
            let y = set(base, "ty", json!(t));
            x.case(|k| {
                let bad = if t > 4 { vec![t.to_string()] } else { vec![] };
                verdict(k, &doc(vec![marked(1, 1), y.clone()], vec![]), &bad)?;
                let mut both = bad.clone();
                if t > 4 {
                    both.push("the asset".into());
                }
                verdict(k, &doc(vec![], vec![asset("the asset", vec![y.clone(), marked(7, 7)])]), &both)
            });
        }
    }
    x.family("asset kinds");
    for id in ["snd", "", "a b", "x\"y"] {
        let shown = |s: &str| if s.contains('"') { vec![] } else { vec![s.to_string()] };
        for (d, ok) in [
            (json!({"id": id, "p": "a.mp3", "u": "", "e": 0}), false),
            (json!({"id": id, "p": "a.json", "t": 3}), false),
            (json!({"id": id, "p": "a.png", "w": 3, "t": 3}), false),
            (json!({"id": id}), false),
            (json!({"id": id, "w": 3}), false),
            (json!({"id": id, "layers": 3}), false),
            (json!({"id": id, "layers": {}}), false),
            (json!({"id": id, "layers": [{"ty": 4}]}), false),
            (json!({"id": id, "p": "a.png", "h": 3}), true),
            (json!({"id": id, "p": "a.png", "w": 3, "h": 3, "t": "seq"}), true),
            (json!({"id": id, "layers": []}), true),
        ] {
            let whole = doc(vec![], vec![asset("good", vec![]), d.clone(), asset("other", vec![])]);
            x.case(|k| {
                assert_eq!(grammar::is_doc(&whole), ok, "{d}");
                verdict(k, &whole, &shown(id))
            });
        }
    }
    x.family("long ids in every script");
    for t in long_texts() {
        x.case(|k| {
            verdict(k, &doc(vec![inst(1, &t)], vec![asset(&t, vec![marked(1, 1)])]), &[])?;
            for a in broken_assets(&t) {
                verdict(k, &doc(vec![], vec![asset("good", vec![]), a]), std::slice::from_ref(&t))?;
            }
            Ok(())
        });
    }
    x.family("path keyframes with and without values");
    let max = x.pick(4usize, 6);
    for n in 1..=max {
        product(&vec![2; n], |ix| {
            x.case(|k| {
                let keys: Vec<Value> = ix
                    .iter()
                    .enumerate()
                    .map(|(i, has)| {
                        let mut q = json!({"t": i * 5});
                        if *has == 1 {
                            q["s"] = json!([curve()]);
                            q["e"] = json!([curve()]);
                        }
                        q
                    })
                    .collect();
                let p = json!({"a": 1, "k": keys});
                verdict(k, &doc(vec![shape(1, vec![json!({"ty": "sh", "ks": p}), fill(0.1, 0.2, 0.3)])], vec![]), &[])?;
                verdict(k, &doc(vec![set(marked(1, 1), "masksProperties", json!([mask(p.clone())]))], vec![]), &[])?;
                verdict(k, &doc(vec![], vec![asset("as1", vec![shape(1, vec![json!({"ty": "sh", "ks": p})])])]), &["as1".to_string()])
            });
        });
    }
    x.family("optional members one by one and in pairs");
    for kind in ALL_KINDS {
        let fs = grammar::fields(kind);
        for alt in 0..2 {
            for i in 0..fs.len() {
                for j in 0..=i {
                    if fs[i].req && fs[j].req && i != j {
                        continue;
                    }
                    x.case(|k| {
                        let mut g = Gen { n: 0, alt };
                        let mut m = g.object(kind, false);
                        m[fs[i].key] = g.field(kind, &fs[i], true);
                        m[fs[j].key] = g.field(kind, &fs[j], true);
                        match wrap(kind, m) {
                            Some(d) => verdict(k, &d, &[]),
                            None => Ok(()),
                        }
                    });
                }
            }
        }
    }
    x.family("every enumerated value");
    for kind in ALL_KINDS {
        for f in grammar::fields(kind) {
            let vals: Vec<Value> = match f.ty {
                Ty::Int(l) => (0..=20).chain([255]).map(|n| json!(n)).chain(l.iter().map(|n| json!(n))).collect(),
                Ty::Name(l) => ["", "q", "A"].iter().map(|n| json!(n)).chain(l.iter().map(|n| json!(n))).collect(),
                _ => continue,
            };
            for v in vals {
                // any text is taken for the image sequence marker
                if *kind == "as:image" && f.key == "t" && v != json!("seq") {
                    continue;
                }
                x.case(|k| {
                    let mut m = Gen { n: 0, alt: 0 }.object(kind, true);
                    m[f.key] = v.clone();
                    match wrap(kind, m) {
                        Some(d) => verdict(k, &d, &[]),
                        None => Ok(()),
                    }
                });
            }
        }
    }
}
