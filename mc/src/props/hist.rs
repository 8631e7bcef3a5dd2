//! Histories of calls on renderers (C03), interleavings and nestings of
//! renderers (C04), placement (C05).
use crate::check::*;
use std::collections::HashMap;
use crate::corpus::{self, curve, few_frames, frames, ks_anim, path_anim};
use crate::doc::*;
use crate::rec::*;
use crate::run::*;
use crate::spec::Spec;
use kurbo::Affine;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::str::FromStr;
use std::sync::mpsc::{Receiver, SyncSender, sync_channel};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use velato::{Composition, Renderer};

/// Small documents that share layer names, indices and asset ids but differ in
/// their content, so that anything remembered from one shows in another.
pub fn small() -> Vec<(&'static str, Value)> {
    let trimmed = |x: f64, e: f64| {
        vec![
            rect(x, 0.0, 10.0, 20.0),
            trimp(0.0, e, 10.0),
            stroke(0.2, x / 100.0, 0.1, 2.0),
            rect(x, 5.0, 2.0, 2.0),
        ]
    };
    let masked = |pt: Value, id: usize| {
        let mut l = set(marked(1, id), "ks", ks_anim());
        l["masksProperties"] = json!([mask(pt.clone()), mask(st(curve(true)))]);
        l
    };
    let matted = |a: usize, b: usize, tt: u64| vec![set(marked(1, a), "td", json!(1)), set(marked(2, b), "tt", json!(tt))];
    let graded = |x: f64| {
        let mut g = gfill(x > 2.0, 2, json!([0, 1, x / 9.0, 0, 1, 0, 1, 0]));
        g["s"] = st(json!([x, 2]));
        let mut g2 = gstroke(x < 2.0, 2, json!([]));
        g2["g"]["k"] = corpus::grad_anim();
        vec![rect(1.0, 1.0, x, x), g, ell(x, x, 2.0, 2.0), g2]
    };
    let mut half = marked(2, 6);
    half["ks"]["o"] = st(json!(50));
    half["parent"] = json!(1);
    let mut early = set(inst(2, "pc"), "st", json!(5));
    early["sr"] = json!(2);
    vec![
        (
            "geometry without a style, then a group",
            doc(
                vec![shape(
                    1,
                    vec![rect(1.0, 2.0, 3.0, 4.0), group(vec![rect(5.0, 5.0, 5.0, 5.0), fill(0.5, 0.1, 0.2), tr_at(3.0, 3.0)]), path(path_anim(true)["k"][0]["s"][0].clone())],
                )],
                vec![],
            ),
        ),
        ("trim", doc(vec![shape(1, trimmed(3.0, 50.0))], vec![])),
        ("trim to nothing", doc(vec![shape(1, trimmed(30.0, 0.0)), marked(2, 4)], vec![])),
        ("masks", doc(vec![masked(path_anim(true), 2)], vec![])),
        ("other masks", set(doc(vec![masked(st(curve(false)), 3), marked(2, 5)], vec![]), "w", json!(55))),
        ("matte", doc(matted(1, 2, 1), vec![])),
        ("other matte", doc(matted(3, 1, 2), vec![])),
        ("instance", doc(vec![inst(1, "pc"), marked(2, 7)], vec![asset("pc", vec![set(marked(1, 3), "ks", ks_anim())])])),
        ("other instance", doc(vec![early, marked(1, 2)], vec![asset("pc", vec![marked(1, 6), set(marked(2, 1), "ip", json!(4))])])),
        ("gradients", doc(vec![shape(1, graded(1.0))], vec![])),
        ("other gradients", doc(vec![shape(1, graded(5.0))], vec![])),
        ("parent and opacity", doc(vec![set(shape(1, trimmed(8.0, 100.0)), "ks", ks_anim()), half], vec![])),
        ("nothing", doc(vec![], vec![])),
    ]
}

fn exact(a: &[Op], b: &[Op]) -> bool {
    // NaN compares unequal to itself; the text of two identical traces does not
    a == b || format!("{a:?}") == format!("{b:?}")
}

struct Doc {
    name: String,
    json: Value,
    text: String,
    comp: Composition,
    debug: (String, Vec<(String, String)>),
}
fn debug_of(c: &Composition) -> (String, Vec<(String, String)>) {
    let mut a: Vec<_> = c.assets.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect();
    a.sort();
    (format!("{:?} {:?} {} {} {:?}", c.frames, c.frame_rate, c.width, c.height, c.layers), a)
}
fn load(v: Vec<(String, Value)>) -> Vec<Doc> {
    v.into_iter()
        .map(|(name, json)| {
            let text = json.to_string();
            let comp = Composition::from_str(&text).unwrap_or_else(|e| panic!("{name}: {e}"));
            let debug = debug_of(&comp);
            Doc { name, json, text, comp, debug }
        })
        .collect()
}
fn load_small() -> Vec<Doc> {
    load(small().into_iter().map(|(n, d)| (n.to_string(), d)).collect())
}

const PLACES: [([f64; 6], f64); 3] = [
    ([1.0, 0.0, 0.0, 1.0, 0.0, 0.0], 1.0),
    ([0.0, 2.0, -1.0, 0.5, 10.0, -3.0], 0.5),
    ([-1.0, 0.0, 0.25, 3.0, 0.0, 7.0], 0.0),
];
fn place(p: usize) -> (Affine, f64) {
    (Affine::new(PLACES[p].0), PLACES[p].1)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// render document, frame, place
    Render(usize, usize, usize),
    /// the sink panics at the given call
    Abort(usize, usize, usize),
    /// replace the composition in the slot (same address) and render it
    Slot(usize, usize),
    /// shorten the composition in the slot in place, and render it
    Edit(usize),
    /// parse a document again (it must come out the same)
    Parse(usize),
    /// parse something that is not a document
    Reject(usize),
}
const BAD: [&str; 3] = ["{\"v\": \"5\", \"layers\": [{\"ty\": 4, \"ks\": {}}]", "", "{\"layers\": 3}"];

struct Ref {
    ops: Vec<Op>,
}
type Refs = std::collections::HashMap<(usize, usize, usize), Ref>;

struct World<'a> {
    docs: &'a [Doc],
    fr: &'a [f64],
    refs: &'a Refs,
}

fn cut(n: usize) -> impl FnMut(usize, &Op) {
    move |i, _: &Op| {
        if i == n {
            std::panic::panic_any("the sink gave up");
        }
    }
}

impl World<'_> {
    fn step(&self, k: &mut Cov, r: &mut Renderer, slot: &mut Box<Composition>, act: Act, hist: &[Act]) -> R {
        let said = |what: String, got: &[Op], want: &[Op]| -> R {
            fail(
                format!("after {:?}: {what}", hist),
                json!({"history": format!("{hist:?}"), "documents": self.docs.iter().map(|d| &d.name).collect::<Vec<_>>(), "observed": dump(got), "expected": dump(want)}),
            )
        };
        match act {
            Act::Render(d, f, p) => {
                let (t, a) = place(p);
                let got = render_at(r, &self.docs[d].comp, self.fr[f], t, a);
                let want = &self.refs[&(d, f, p)].ops;
                k.step(got.len());
                if !exact(&got, want) {
                    let e = trace_eq(&got, want).err().unwrap_or("calls differ in the last digits".into());
                    return said(e, &got, want);
                }
            }
            Act::Abort(d, f, n) => {
                let mut rec = Rec::new(cut(n));
                let res = catch_unwind(AssertUnwindSafe(|| {
                    r.append(&self.docs[d].comp, self.fr[f], Affine::IDENTITY, 1.0, &mut rec);
                }));
                let got = std::mem::take(&mut rec.ops);
                k.step(got.len());
                let want = &self.refs[&(d, f, 0)].ops[..=n];
                if res.is_ok() || !exact(&got, want) {
                    return said("the abandoned render did not reach the call it was to be abandoned at".into(), &got, want);
                }
            }
            Act::Slot(d, f) => {
                **slot = Composition::from_str(&self.docs[d].text).unwrap();
                let got = render_at(r, slot, self.fr[f], Affine::IDENTITY, 1.0);
                let want = &self.refs[&(d, f, 0)].ops;
                k.step(got.len());
                if !exact(&got, want) {
                    let e = trace_eq(&got, want).err().unwrap_or("calls differ in the last digits".into());
                    return said(e, &got, want);
                }
            }
            Act::Edit(f) => {
                slot.layers.pop();
                if let Some(l) = slot.layers.first_mut() {
                    l.frames.end = 50.0;
                    l.masks.pop();
                }
                slot.width += 1;
                slot.assets.values_mut().for_each(|a| {
                    a.pop();
                });
                let got = render_at(r, slot, self.fr[f], Affine::IDENTITY, 1.0);
                let want = render(&Composition::clone(slot), self.fr[f]);
                k.step(got.len());
                if !exact(&got, &want) {
                    return said("an edited composition renders differently from a copy of it".into(), &got, &want);
                }
            }
            Act::Parse(d) => {
                let c = Composition::from_str(&self.docs[d].text).map_err(|e| Fail::from(format!("after {hist:?}: parsing again fails: {e}")))?;
                if debug_of(&c) != self.docs[d].debug {
                    return fail(
                        format!("after {hist:?}: parsing {} again gives a different composition", self.docs[d].name),
                        json!({"doc": self.docs[d].json, "first": self.docs[d].debug.0, "now": debug_of(&c).0}),
                    );
                }
            }
            Act::Reject(b) => {
                if Composition::from_str(BAD[b]).is_ok() {
                    return fail("accepted", json!({"text": BAD[b]}));
                }
            }
        }
        Ok(())
    }
    fn history(&self, k: &mut Cov, h: &[Act]) -> R {
        let mut r = Renderer::new();
        let mut slot = Box::new(Composition::default());
        for (i, a) in h.iter().enumerate() {
            self.step(k, &mut r, &mut slot, *a, &h[..=i])?;
        }
        k.state(&format!("{h:?}"));
        k.trace();
        Ok(())
    }
    fn unchanged(&self) -> R {
        for d in self.docs {
            if debug_of(&d.comp) != d.debug {
                return fail(format!("rendering changed the composition {}", d.name), json!({"doc": d.json}));
            }
        }
        Ok(())
    }
}

/// `n` threads, each stopped half-way through its render before the next one
/// starts, then finished in the order they began.
fn many_threads(k: &mut Cov, docs: &[Doc], fr: &[f64], refs: &Refs, a: usize, n: usize) -> R {
    let pick = |i: usize| if i % 2 == 0 { a } else { (a + i) % docs.len() };
    let tasks: Vec<Task> = (0..n).map(|i| Task { text: None, comp: &docs[pick(i)].comp, frame: fr[0], place: 0 }).collect();
    let want: Vec<Vec<Op>> = (0..n).map(|i| refs[&(pick(i), 0, 0)].ops.clone()).collect();
    let mut sched = vec![];
    for (i, w) in want.iter().enumerate() {
        sched.extend(vec![i; w.len() / 2 + 1]);
    }
    for (i, w) in want.iter().enumerate() {
        sched.extend(vec![i; w.len() + 1 - (w.len() / 2 + 1)]);
    }
    k.state(&("many", a, n));
    run_schedule(k, &tasks, &want, &sched)
}

fn refs_of(docs: &[Doc], fr: &[f64]) -> Refs {
    refs(docs, fr)
}
fn refs(docs: &[Doc], fr: &[f64]) -> Refs {
    let mut m = Refs::new();
    for (d, doc) in docs.iter().enumerate() {
        for (f, frame) in fr.iter().enumerate() {
            for p in 0..PLACES.len() {
                let (t, a) = place(p);
                m.insert((d, f, p), Ref { ops: render_at(&mut Renderer::new(), &doc.comp, *frame, t, a) });
            }
        }
    }
    m
}

fn several_assets() -> Value {
    let trimmed = vec![rect(1.0, 1.0, 9.0, 9.0), trimp(0.0, 60.0, 0.0), stroke(0.5, 0.25, 0.5, 2.0)];
    let mut m = marked(3, 3);
    m["masksProperties"] = json!([mask(st(curve(true)))]);
    doc(
        vec![set(inst(1, "a"), "st", json!(1)), set(inst(2, "b"), "parent", json!(1)), marked(3, 5)],
        vec![asset("a", vec![shape(1, trimmed), inst(2, "b")]), asset("b", vec![set(marked(1, 2), "td", json!(1)), set(m, "tt", json!(1))])],
    )
}
/// All documents that differ from `d` in one number, flag, name or list entry.
fn variants(d: &Value) -> Vec<Value> {
    variants_at(d, "")
}
fn variants_at(d: &Value, within: &str) -> Vec<Value> {
    let mut out = vec![];
    for s in crate::grammar::sites(d) {
        let at = s.ptr();
        if !at.starts_with(within) {
            continue;
        }
        let with = |v: Value| {
            let mut w = d.clone();
            *w.pointer_mut(&at).unwrap() = v;
            w
        };
        match d.pointer(&at).unwrap() {
            Value::Number(n) => {
                let n = n.as_f64().unwrap();
                out.push(with(if n.fract() == 0.0 && n >= 0.0 { json!(n as u64 + 1) } else { json!(n + 1.0) }));
            }
            Value::Bool(b) => out.push(with(json!(!b))),
            Value::String(t) => out.push(with(json!(format!("{t}'")))),
            Value::Array(a) if !a.is_empty() && !a[0].is_number() => out.push(with(json!(a[1..]))),
            _ => {}
        }
    }
    out
}
/// What a process that handles only this text makes of it.
fn fingerprint(text: &str, fr: &[f64]) -> String {
    let Ok(c) = Composition::from_str(text) else { return "rejected".into() };
    let mut s = format!("{:?}", debug_of(&c));
    for f in fr {
        s += &format!("{:?}", render(&c, *f));
    }
    s
}
fn digest(s: &str) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
/// `mc pristine`: frames on the first line of the input, then the text.
pub fn pristine() -> i32 {
    let mut input = String::new();
    if std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).is_err() {
        return 2;
    }
    let (fr, text) = input.split_once('\n').unwrap();
    let fr: Vec<f64> = fr.split(' ').map(|f| f.parse().unwrap()).collect();
    println!("{}", digest(&fingerprint(text, &fr)));
    0
}
fn alone(text: &str, fr: &[f64]) -> Result<u64, Fail> {
    use std::process::{Command, Stdio};
    let run = || -> std::io::Result<String> {
        let mut c = Command::new(std::env::current_exe()?).arg("pristine").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let head: Vec<String> = fr.iter().map(|f| f.to_string()).collect();
        std::io::Write::write_all(&mut c.stdin.take().unwrap(), format!("{}\n{text}", head.join(" ")).as_bytes())?;
        Ok(String::from_utf8_lossy(&c.wait_with_output()?.stdout).into_owned())
    };
    let out = run().map_err(|e| e.to_string())?;
    out.trim().parse().map_err(|_| Fail { msg: "a new process handling only this document died".into(), data: json!({"text": text}) })
}
fn in_sequence(k: &mut Cov, name: &str, d: &Value, vs: &[Value], fr: &[f64]) -> R {
    let mut r = Renderer::new();
    // the document itself again between any two of its variants
    let base = d.to_string();
    let mut texts = vec![base.clone()];
    for v in vs {
        texts.extend([v.to_string(), base.clone()]);
    }
    let mut known = HashMap::new();
    for (i, t) in texts.iter().enumerate() {
        let here = fingerprint(t, fr);
        k.state(t);
        k.step(1);
        k.trace();
        if !known.contains_key(t) {
            known.insert(t, alone(t, fr)?);
        }
        if known[t] != digest(&here) {
            return fail(
                format!("[{name}] variant {i}: not what a new process makes of the same document"),
                json!({"text": t, "handled_before": &texts[..i], "here": &here[..here.len().min(4000)]}),
            );
        }
        // and with one renderer for all of them
        let Ok(c) = Composition::from_str(t) else { continue };
        for f in fr {
            let (a, b) = (render_at(&mut r, &c, *f, Affine::IDENTITY, 1.0), render(&c, *f));
            if !exact(&a, &b) {
                return fail(format!("[{name}] variant {i}: used and fresh renderer differ at frame {f}"), json!({"text": t, "observed": dump(&a), "expected": dump(&b)}));
            }
        }
    }
    Ok(())
}

pub fn c03(x: &mut X) {
    let docs = load_small();
    let fr = [3.0, 12.5];
    let refs = refs(&docs, &fr);
    let w = World { docs: &docs, fr: &fr, refs: &refs };
    // what "a fresh renderer" sends is what the model says, in the first use
    // of the library by this process and ever after
    x.family("fresh renders against the model");
    for d in &docs {
        x.case(|k| conform(k, &d.json, &fr));
    }
    let mut all = vec![];
    let mut few = vec![];
    let mut mid = vec![];
    for d in 0..docs.len() {
        for f in 0..fr.len() {
            for p in 0..PLACES.len() {
                all.push(Act::Render(d, f, p));
            }
            let n = refs[&(d, f, 0)].ops.len();
            for j in 0..n {
                all.push(Act::Abort(d, f, j));
                if f == 0 && (j == n / 2 || j + 1 == n) {
                    mid.push(Act::Abort(d, f, j));
                }
            }
            if f == 0 {
                few.push(Act::Abort(d, f, n / 2));
            }
            all.push(Act::Slot(d, f));
        }
        few.push(Act::Render(d, 0, 0));
        mid.extend([Act::Render(d, 0, 0), Act::Render(d, 1, 1), Act::Slot(d, 0)]);
        few.push(Act::Slot(d, 1));
        all.push(Act::Parse(d));
    }
    all.extend([Act::Edit(0), Act::Edit(1), Act::Reject(0), Act::Reject(1), Act::Reject(2)]);
    mid.extend([Act::Edit(0), Act::Reject(0), Act::Parse(3)]);
    few.push(Act::Edit(1));
    let probes: Vec<Act> = all.iter().copied().filter(|a| !matches!(a, Act::Abort(..))).collect();

    // Every document and its one-leaf variants, parsed and rendered one after
    // the other in this process, against a process that does nothing else.
    x.family("variants one after the other, against a new process each");
    let mut bases: Vec<(String, Value)> = small().into_iter().map(|(n, d)| (n.to_string(), d)).collect();
    bases.push(("assets".into(), several_assets()));
    if x.tier_thorough {
        bases.extend(corpus::docs().into_iter().filter(|d| d.1.to_string().len() < 6000));
    }
    for (name, d) in &bases {
        let vs = variants(d);
        x.sample(|| json!({"document": name, "variants": vs.len()}));
        for part in vs.chunks(x.pick(12, 40)) {
            x.case(|k| in_sequence(k, name, d, part, &fr));
        }
    }
    // one animated value and nothing else that moves, at a single frame
    x.family("variants of every animated property, against a new process each");
    for d in super::keys::single_slots(x.tier_thorough) {
        x.case(|k| {
            let at = format!("{}/", { let mut p = vec![]; super::keys::find_slots(&d, String::new(), &mut p); p.remove(0) });
            let vs: Vec<Value> = variants_at(&d, &at);
            in_sequence(k, &at, &d, &vs, &[4.0])
        });
    }
    x.family("two actions, whole alphabet");
    for a in &all {
        x.sample(|| json!(format!("{a:?} then each of {} actions", all.len())));
        x.case(|k| {
            for b in &all {
                w.history(k, &[*a, *b])?;
            }
            w.unchanged()
        });
    }
    x.family("three actions");
    let (first, second) = x.pick((&mid, &few), (&all, &mid));
    for a in first {
        for b in second {
            x.sample(|| json!(format!("{a:?}, {b:?}, then each of {} renders", probes.len())));
            x.case(|k| {
                for c in &probes {
                    w.history(k, &[*a, *b, *c])?;
                }
                w.unchanged()
            });
        }
    }
    x.family("four actions");
    let reach = x.pick(&few[..18], &few[..]);
    for a in reach {
        for b in reach {
            x.case(|k| {
                for c in reach {
                    for d in reach {
                        w.history(k, &[*a, *b, *c, *d])?;
                    }
                }
                w.unchanged()
            });
        }
    }
    // the whole corpus: the composition is not changed by rendering, one
    // renderer used for everything behaves like fresh ones, in both orders
    x.family("one renderer for the corpus");
    let big = load(corpus::docs());
    let fr = frames();
    for i in 0..big.len() {
        for j in 0..big.len() {
            x.case(|k| {
                let mut r = Renderer::new();
                for d in [i, j] {
                    for &f in &fr {
                        let got = render_at(&mut r, &big[d].comp, f, Affine::IDENTITY, 1.0);
                        let want = render(&big[d].comp, f);
                        k.state(&(i, j, d, f.to_bits()));
                        k.step(got.len());
                        k.trace();
                        if !exact(&got, &want) {
                            return Err(differ(format!("after {}: a used renderer differs from a fresh one", big[i].name), &big[d].json, f, &got, &want));
                        }
                    }
                    if debug_of(&big[d].comp) != big[d].debug {
                        return fail(format!("rendering changed the composition {}", big[d].name), json!({"doc": big[d].json}));
                    }
                    let again = Composition::from_str(&big[d].text).unwrap();
                    if debug_of(&again) != big[d].debug {
                        return fail(format!("parsing {} again gives a different composition", big[d].name), json!({"doc": big[d].json}));
                    }
                }
                Ok(())
            });
        }
    }
    // frames in any order: every ordered pair of frames of every document
    x.family("frames in any order");
    for d in &big {
        x.case(|k| {
            let want: Vec<Vec<Op>> = fr.iter().map(|f| render(&d.comp, *f)).collect();
            let mut r = Renderer::new();
            for i in 0..fr.len() {
                for j in 0..fr.len() {
                    for n in [i, j] {
                        let got = render_at(&mut r, &d.comp, fr[n], Affine::IDENTITY, 1.0);
                        k.step(got.len());
                        if !exact(&got, &want[n]) {
                            return Err(differ(format!("after frame {}: differs from a fresh renderer", fr[i]), &d.json, fr[n], &got, &want[n]));
                        }
                    }
                    k.state(&(&d.name, i, j));
                    k.trace();
                }
            }
            Ok(())
        });
    }
    x.family("abandoned at every call");
    for d in &big {
        for f in few_frames() {
            x.case(|k| {
                let want = render(&d.comp, f);
                let mut r = Renderer::new();
                for n in 0..want.len() {
                    let mut rec = Rec::new(cut(n));
                    let done = catch_unwind(AssertUnwindSafe(|| r.append(&d.comp, f, Affine::IDENTITY, 1.0, &mut rec))).is_ok();
                    if done || !exact(&rec.ops, &want[..=n]) {
                        return Err(differ(format!("render abandoned at call {n}"), &d.json, f, &rec.ops, &want));
                    }
                    let got = render_at(&mut r, &d.comp, f, Affine::IDENTITY, 1.0);
                    k.state(&(&d.name, f.to_bits(), n));
                    k.step(got.len() + n);
                    k.trace();
                    if !exact(&got, &want) {
                        return Err(differ(format!("after a render abandoned at call {n}"), &d.json, f, &got, &want));
                    }
                }
                Ok(())
            });
        }
    }
}

// ------------------------------------------------------------------- threads

/// A composition handed to a controlled thread. Only one thread runs at a
/// time, and every hand-over synchronizes.
struct Lent(*const Composition);
unsafe impl Send for Lent {}
impl Lent {
    fn get(&self) -> &Composition {
        unsafe { &*self.0 }
    }
}

/// One controlled thread: waits for a turn, runs up to its next sink call.
struct Actor {
    go: SyncSender<()>,
    back: Receiver<bool>,
    out: Arc<Mutex<Vec<Op>>>,
    handle: Option<std::thread::JoinHandle<()>>,
}
#[derive(Clone)]
struct Task {
    text: Option<String>,
    comp: *const Composition,
    frame: f64,
    place: usize,
}
impl Actor {
    fn start(t: Task) -> Actor {
        let (go, wait) = sync_channel::<()>(1);
        let (tell, back) = sync_channel::<bool>(1);
        let out = Arc::new(Mutex::new(vec![]));
        let o = out.clone();
        let lent = Lent(t.comp);
        let (frame, place_of, text) = (t.frame, t.place, t.text);
        let handle = std::thread::spawn(move || {
            let lent = lent;
            if wait.recv().is_err() {
                return;
            }
            let own;
            let comp = match text {
                Some(t) => {
                    own = Composition::from_str(&t).unwrap();
                    let _ = tell.send(false);
                    if wait.recv().is_err() {
                        return;
                    }
                    &own
                }
                None => lent.get(),
            };
            let (t, a) = place(place_of);
            let mut rec = Rec::new(|_: usize, _: &Op| {
                let _ = tell.send(false);
                // the controller may have gone (failure elsewhere)
                let _ = wait.recv();
            });
            Renderer::new().append(comp, frame, t, a, &mut rec);
            *o.lock().unwrap() = std::mem::take(&mut rec.ops);
            drop(rec);
            let _ = tell.send(true);
        });
        Actor { go, back, out, handle: Some(handle) }
    }
    /// Runs to the next sink call; true when the task has ended.
    fn turn(&self) -> Result<bool, Fail> {
        self.go.send(()).map_err(|_| Fail::from("the rendering thread has died"))?;
        match self.back.recv_timeout(Duration::from_secs(20)) {
            Ok(b) => Ok(b),
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => fail("a render panicked", json!({"at": last_panic()})),
            Err(_) => {
                eprintln!("a renderer waits for another one that is inside a sink call");
                std::process::abort();
            }
        }
    }
}
fn run_schedule(k: &mut Cov, tasks: &[Task], want: &[Vec<Op>], sched: &[usize]) -> R {
    let mut actors: Vec<Actor> = tasks.iter().map(|t| Actor::start(t.clone())).collect();
    let mut ended = vec![false; tasks.len()];
    for &s in sched {
        ended[s] = actors[s].turn()?;
        k.step(1);
    }
    k.trace();
    for (i, a) in actors.iter_mut().enumerate() {
        if !ended[i] {
            return fail(format!("schedule {sched:?}: renderer {i} makes more calls than alone"), json!({}));
        }
        a.handle.take().unwrap().join().ok();
        let got = a.out.lock().unwrap();
        if !exact(&got, &want[i]) {
            let e = trace_eq(&got, &want[i]).err().unwrap_or("calls differ in the last digits".into());
            return fail(
                format!("schedule {sched:?}: renderer {i}: {e}"),
                json!({"schedule": sched, "observed": dump(&got), "expected": dump(&want[i])}),
            );
        }
    }
    Ok(())
}

/// All interleavings of `left[i]` steps of each task with at most `switches`
/// changes of task before a task has ended.
fn schedules(left: &mut Vec<usize>, cur: Option<usize>, switches: usize, at: &mut Vec<usize>, f: &mut impl FnMut(&[usize])) {
    if left.iter().all(|n| *n == 0) {
        f(at);
        return;
    }
    for i in 0..left.len() {
        if left[i] == 0 {
            continue;
        }
        let cost = cur.is_some_and(|c| c != i && left[c] > 0) as usize;
        if cost > switches {
            continue;
        }
        left[i] -= 1;
        at.push(i);
        schedules(left, Some(i), switches - cost, at, f);
        at.pop();
        left[i] += 1;
    }
}

pub fn c04(x: &mut X) {
    let docs = load_small();
    let fr = [3.0, 12.5];
    let refs = refs(&docs, &fr);
    let want = |d: usize, f: usize, p: usize| refs[&(d, f, p)].ops.clone();
    let short_docs: Vec<usize> = (0..docs.len()).filter(|d| refs[&(*d, 0, 0)].ops.len() <= 8).collect();

    x.family("two threads, every interleaving of their sink calls");
    for (n, &a) in short_docs.iter().enumerate() {
        for &b in &short_docs[n..] {
            let len = |d: usize, f: usize| refs[&(d, f, 0)].ops.len() + 1;
            // quick: bound the number of interleavings explored exhaustively
            let sw = x.pick(4, 99);
            let mut list = vec![];
            schedules(&mut vec![len(a, 0), len(b, 1)], None, sw, &mut vec![], &mut |s| list.push(s.to_vec()));
            for part in list.chunks(200) {
                x.sample(|| json!({"documents": [&docs[a].name, &docs[b].name], "schedule": part[0]}));
                x.case(|k| {
                    for s in part {
                        let t = |d: usize, f: usize, p| Task { text: None, comp: &docs[d].comp, frame: fr[f], place: p };
                        k.state(&(a, b, s));
                        run_schedule(k, &[t(a, 0, 0), t(b, 1, 1)], &[want(a, 0, 0), want(b, 1, 1)], s)
                            .map_err(|mut e| { e.msg = format!("[{}] and [{}]: {}", docs[a].name, docs[b].name, e.msg); e })?;
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("two threads that parse and render");
    for a in 0..docs.len() {
        for b in 0..docs.len() {
            let len = |d: usize, f: usize| refs[&(d, f, 0)].ops.len() + 2;
            let mut list = vec![];
            schedules(&mut vec![len(a, 0), len(b, 1)], None, x.pick(1, 3), &mut vec![], &mut |s| list.push(s.to_vec()));
            for part in list.chunks(200) {
                x.case(|k| {
                    for s in part {
                        let t = |d: usize, f: usize| Task { text: Some(docs[d].text.clone()), comp: &docs[d].comp, frame: fr[f], place: 0 };
                        k.state(&("parse", a, b, s));
                        run_schedule(k, &[t(a, 0), t(b, 1)], &[want(a, 0, 0), want(b, 1, 0)], s)
                            .map_err(|mut e| { e.msg = format!("[{}] and [{}]: {}", docs[a].name, docs[b].name, e.msg); e })?;
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("three threads on one composition");
    for &a in &short_docs {
        let n = refs[&(a, 0, 0)].ops.len() + 1;
        let m = refs[&(a, 1, 0)].ops.len() + 1;
        let mut list = vec![];
        schedules(&mut vec![n, m, n], None, x.pick(1, 3), &mut vec![], &mut |s| list.push(s.to_vec()));
        for part in list.chunks(100) {
            x.case(|k| {
                for s in part {
                    let t = |f: usize, p| Task { text: None, comp: &docs[a].comp, frame: fr[f], place: p };
                    k.state(&("three", a, s));
                    run_schedule(k, &[t(0, 0), t(1, 1), t(0, 1)], &[want(a, 0, 0), want(a, 1, 1), want(a, 0, 1)], s)
                        .map_err(|mut e| { e.msg = format!("[{}] three times: {}", docs[a].name, e.msg); e })?;
                }
                Ok(())
            });
        }
    }
    // nested in the sink callbacks of one thread
    x.family("nested in a sink callback");
    for a in 0..docs.len() {
        for b in 0..docs.len() {
            x.case(|k| {
                for (fa, fb) in [(0, 0), (0, 1), (1, 0)] {
                    let outer = want(a, fa, 0);
                    for n in 0..outer.len() {
                        nested(k, &docs, &fr, &refs, &[(a, fa, 0, n), (b, fb, 1, 0)])?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("nested twice");
    for a in 0..docs.len() {
        for b in 0..docs.len() {
            let third: Vec<usize> = if x.tier_thorough { (0..docs.len()).collect() } else { vec![a, b] };
            x.case(|k| {
                for &c in &third {
                    for n in 0..refs[&(a, 0, 0)].ops.len() {
                        for m in 0..refs[&(b, 1, 1)].ops.len() {
                            nested(k, &docs, &fr, &refs, &[(a, 0, 0, n), (b, 1, 1, m), (c, 0, 0, 0)])?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // many renders at once, as deep and as wide as they come
    x.family("many renders under way");
    let chain = |n: usize| {
        let assets = (0..n).map(|i| asset(&format!("p{i}"), if i + 1 < n { vec![inst(1, &format!("p{}", i + 1)), marked(2, i % 7)] } else { vec![marked(1, 8)] })).collect();
        doc(vec![inst(1, "p0")], assets)
    };
    let many: Vec<(String, Value)> = vec![
        ("chain of 2".into(), chain(2)),
        ("chain of 20".into(), chain(20)),
        ("chain of 60".into(), chain(60)),
        ("60 layers".into(), doc((0..60).map(|i| marked(i + 1, i as usize % 9)).collect(), vec![])),
    ];
    let deep = load(many.into_iter().chain(small().into_iter().map(|(n, d)| (n.to_string(), d))).collect());
    let deep_refs = refs_of(&deep, &fr);
    for a in 0..deep.len() {
        for b in 0..deep.len() {
            x.case(|k| {
                let n = |d: usize, f: usize| deep_refs[&(d, f, 0)].ops.len();
                for levels in [2usize, 3, 8, 40, 150] {
                    if levels > 8 && (a < 4) != (b < 4) {
                        continue;
                    }
                    // the next render starts where the most is open
                    for part in [3, 2, 4] {
                        let l: Vec<Level> = (0..levels)
                            .map(|i| if i % 2 == 0 { (a, 0, 0, n(a, 0) * 2 / part.max(3)) } else { (b, 1, 0, n(b, 1) / part) })
                            .collect();
                        nested(k, &deep, &fr, &deep_refs, &l)?;
                    }
                }
                Ok(())
            });
        }
    }
    for n in x.pick(vec![16, 64], vec![5, 16, 64, 200]) {
        for a in 0..deep.len() {
            x.case(|k| many_threads(k, &deep, &fr, &deep_refs, a, n));
        }
    }
    x.family("nested at every call");
    for a in 0..docs.len() {
        x.case(|k| {
            for b in 0..docs.len() {
                let outer = &refs[&(a, 0, 0)].ops;
                let mut bad = None;
                let mut rec = Rec::new(|_: usize, _: &Op| {
                    let again = Composition::from_str(&docs[b].text).unwrap();
                    let got = render_at(&mut Renderer::new(), &again, fr[1], Affine::IDENTITY, 1.0);
                    if !exact(&got, &refs[&(b, 1, 0)].ops) || debug_of(&again) != docs[b].debug {
                        bad.get_or_insert(got);
                    }
                });
                Renderer::new().append(&docs[a].comp, fr[0], Affine::IDENTITY, 1.0, &mut rec);
                let got = std::mem::take(&mut rec.ops);
                drop(rec);
                k.state(&("each", a, b));
                k.step(got.len());
                k.trace();
                if let Some(bad) = bad {
                    return Err(differ(format!("inside a render of [{}]", docs[a].name), &docs[b].json, fr[1], &bad, &refs[&(b, 1, 0)].ops));
                }
                if !exact(&got, outer) {
                    return Err(differ(format!("with renders of [{}] inside", docs[b].name), &docs[a].json, fr[0], &got, outer));
                }
            }
            Ok(())
        });
    }
    x.family("results against the model");
    for d in &docs {
        x.case(|k| conform(k, &d.json, &fr));
    }
}

/// (document, frame, place, call at which the next one runs)
type Level = (usize, usize, usize, usize);
fn nested(k: &mut Cov, docs: &[Doc], fr: &[f64], refs: &Refs, levels: &[Level]) -> R {
    let (d, f, p, at) = levels[0];
    let (t, a) = place(p);
    let mut inner: R = Ok(());
    let mut rec = Rec::new(|n: usize, _: &Op| {
        if n == at && levels.len() > 1 && inner.is_ok() {
            inner = nested(k, docs, fr, refs, &levels[1..]);
        }
    });
    Renderer::new().append(&docs[d].comp, fr[f], t, a, &mut rec);
    let got = std::mem::take(&mut rec.ops);
    drop(rec);
    inner?;
    k.state(&levels);
    k.step(got.len());
    k.trace();
    let want = &refs[&(d, f, p)].ops;
    if !exact(&got, want) {
        let e = trace_eq(&got, want).err().unwrap_or("calls differ in the last digits".into());
        return Err(differ(format!("(document, frame, place, call of the next) {levels:?}: {e}"), &docs[d].json, fr[f], &got, want));
    }
    Ok(())
}

// ----------------------------------------------------------------- placement

fn placed(ops: &[Op], t: Affine, a: f64) -> Vec<Op> {
    let mut out = ops.to_vec();
    for o in &mut out {
        match o {
            Op::Layer { t: u, .. } | Op::Clip { t: u, .. } => *u = t * *u,
            Op::Draw { t: u, brush, .. } => {
                *u = t * *u;
                if a != 1.0 {
                    *brush = brush.clone().multiply_alpha(a as f32);
                }
            }
            _ => {}
        }
    }
    out
}

pub fn c05(x: &mut X) {
    let mut ts: Vec<Affine> = vec![
        Affine::IDENTITY,
        Affine::translate((13.0, -7.5)),
        Affine::scale(3.0),
        Affine::scale_non_uniform(-1.0, 1.0),
        Affine::scale_non_uniform(0.25, -8.0),
        Affine::rotate(0.7),
        Affine::new([0.0, 1.0, -1.0, 0.0, 4.0, 5.0]),
        Affine::skew(0.5, 0.0),
        Affine::new([2.0, 0.5, -1.5, 0.75, -100.0, 1000.0]),
        Affine::scale(1e-3),
        Affine::scale(1e4),
        Affine::scale(1e-6),
        Affine::new([1e-9, 0.0, 0.0, -1e-9, 1.0, 2.0]),
        Affine::scale_non_uniform(1e-7, 3.0),
        Affine::scale(1e9),
        Affine::translate((1e6, -3e7)),
    ];
    let alphas = x.pick(vec![1.0, 0.5, 1e-3, 1e-7, 0.0], vec![1.0, 0.999, 0.75, 0.5, 0.25, 1.0 / 256.0, 1e-3, 1e-7, f64::MIN_POSITIVE, 0.0]);
    // every matrix of a grid of coefficients that is invertible
    let mut grid = vec![];
    product(&[4, 3, 3, 4, 2, 2], |c| {
        let g = [1.0, -0.5, 0.0, 2.0];
        let h = [0.0, 0.5, -1.0];
        let m = Affine::new([g[c[0]], h[c[1]], h[c[2]], g[c[3]], [0.0, 9.0][c[4]], [0.0, -31.5][c[5]]]);
        if m.determinant().abs() > 1e-3 {
            grid.push(m);
        }
    });
    let mut all = corpus::docs();
    all.extend(small().into_iter().map(|(n, d)| (n.to_string(), d)));
    all.extend(all.clone().into_iter().filter(|(n, _)| n != "deep precomps").map(|(n, d)| (format!("{n} as precomposition"), nest(&d))));
    let one = |k: &mut Cov, name: &str, d: &Value, c: &Composition, f: f64, t: Affine, a: f64, base: &[Op]| -> R {
        let got = render_at(&mut Renderer::new(), c, f, t, a);
        let want = placed(base, t, a);
        k.state(&(name, f.to_bits(), t.as_coeffs().map(f64::to_bits), a.to_bits()));
        k.step(got.len());
        k.trace();
        if let Err(e) = trace_eq_strict(&got, &want) {
            return Err(differ(format!("[{name}] placed by {:?} with opacity {a}: {e}", t.as_coeffs()), d, f, &got, &want));
        }
        Ok(())
    };
    x.family("corpus under placements");
    let fr = x.pick(few_frames(), frames());
    for (name, d) in &all {
        x.sample(|| json!({"document": name, "placements": ts.len(), "opacities": alphas}));
        for &f in &fr {
            x.case(|k| {
                let c = parse(d)?;
                let base = render(&c, f);
                for &t in &ts {
                    for &a in &alphas {
                        one(k, name, d, &c, f, t, a, &base)?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("small documents under a grid of matrices");
    for (name, d) in small() {
        for f in [3.0, 12.5] {
            x.case(|k| {
                let c = parse(&d)?;
                let base = render(&c, f);
                for &t in &grid {
                    for &a in &alphas {
                        one(k, name, &d, &c, f, t, a, &base)?;
                    }
                }
                Ok(())
            });
        }
    }
    x.family("every shape tree under placements");
    ts.retain(|t| *t != Affine::IDENTITY);
    {
        use super::shapes::{T, forests, items};
        let place = [ts[3], ts[7], ts[8]];
        forests(&[T::Rect, T::Poly, T::Fill, T::Stroke, T::Trim], &[0, 1], x.pick(5, 6), &mut |tree| {
            if !tree.iter().any(|t| matches!(t, T::Fill | T::Stroke)) || !tree.iter().any(|t| matches!(t, T::Rect | T::Poly)) {
                return;
            }
            x.case(|k| {
                let d = doc(vec![set(shape(1, items(tree)), "ks", super::layers::odd_ks(1))], vec![]);
                let c = parse(&d)?;
                let base = render(&c, 3.0);
                for t in place {
                    one(k, &format!("{tree:?}"), &d, &c, 3.0, t, 0.5, &base)?;
                }
                Ok(())
            });
        });
    }
    x.family("placed renders against the model");
    for (name, d) in corpus::docs() {
        for &t in &ts {
            x.case(|k| conform_at(k, &d, &few_frames(), t, 0.5).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
        }
    }
    let _ = Spec::new(&doc(vec![], vec![]));
}
