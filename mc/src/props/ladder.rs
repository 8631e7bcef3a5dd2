//! Edits of whole documents: every number of every corpus document through a
//! ladder of values, every flag, enumerated value and optional member in every
//! state, every list with elements left out, swapped, moved and repeated. Each
//! edit belongs to the property that says what the edited site means.
use crate::check::*;
use crate::corpus;
use crate::doc::*;
use crate::grammar::{self, Ty};
use crate::run::*;
use crate::spec;

const FRAMES: [f64; 9] = [-4.0, 0.0, 0.5, 3.0, 7.25, 12.0, 20.0, 30.0, 41.0];

/// A site with the kinds of the objects around it.
struct Place {
    ptr: String,
    path: Vec<String>,
    ty: Ty,
    /// (depth, kind) of every enclosing object, outermost first
    around: Vec<(usize, String)>,
}

fn places(d: &Value) -> Vec<Place> {
    let sites = grammar::sites(d);
    let mut open: Vec<(usize, String)> = vec![];
    let mut out = vec![];
    for s in sites {
        open.retain(|(n, _)| *n < s.path.len());
        out.push(Place { ptr: s.ptr(), path: s.path.clone(), ty: s.ty, around: open.clone() });
        if let Some(k) = s.kind {
            open.push((s.path.len(), k));
        }
    }
    out
}

/// The property that owns a member, and the member's name within its owner
/// (for example `ks/p`).
fn owner(p: &Place) -> Option<(&'static str, String, String)> {
    let (last, kind) = p.around.last()?;
    let key = p.path.get(*last)?;
    if kind == "handle" || (kind.ends_with("kf") && matches!(key.as_str(), "t" | "h" | "i" | "o")) {
        let at = p.around.iter().rev().find(|(_, k)| k.starts_with("sh:") || k.starts_with("ly:") || k == "mask").unwrap();
        return Some(("C15", kind.clone(), format!("{}/{}", at.1, p.path[at.0])));
    }
    let (n, kind) = p.around.iter().rev().find(|(_, k)| k.starts_with("sh:") || k.starts_with("ly:") || k.starts_with("as:") || k == "mask" || k == "doc")?;
    let m = p.path.get(*n)?.clone();
    let full = if m == "ks" && kind.starts_with("ly:") { format!("ks/{}", p.path.get(n + 1).cloned().unwrap_or_default()) } else { m.clone() };
    let prop = match kind.as_str() {
        "mask" => "C13",
        "sh:tr" if m == "o" => "C17",
        "sh:tr" => "C18",
        "sh:fl" | "sh:st" | "sh:gf" | "sh:gs" if m == "o" => "C17",
        "sh:fl" | "sh:st" | "sh:gf" | "sh:gs" => "C21",
        "sh:tm" => "C20",
        "sh:rc" | "sh:el" | "sh:sr" | "sh:sh" => "C19",
        "sh:gr" => "C18",
        k if k.starts_with("ly:") => match m.as_str() {
            "ip" | "op" => "C09",
            "ind" | "parent" => "C10",
            "nm" => "C11",
            "tt" | "td" | "tp" => "C12",
            "masksProperties" => "C13",
            "st" | "sr" | "refId" => "C14",
            "hd" => "C24",
            "shapes" => "C18",
            "ks" if full == "ks/o" => "C17",
            "ks" => "C10",
            _ => return None,
        },
        "doc" | "as:comp" if m == "layers" => "C11",
        "doc" if m == "assets" => "C14",
        _ => return None,
    };
    Some((prop, kind.clone(), full))
}

const COORD: &[f64] = &[-1e4, -7.5, -1.0, 0.0, 1e-3, 0.5, 64.0, 360.0, 1000.0, 1e5];
// how much of a path is trimmed is measured in proportion to the whole path
const VERTEX: &[f64] = &[-1000.0, -7.5, -1.0, 0.0, 1e-3, 0.5, 64.0, 360.0, 1000.0];
const SIZE: &[f64] = &[0.0, 1e-3, 0.5, 1.0, 100.0, 255.5, 1000.0, 1e4];
const SCALE: &[f64] = &[-250.0, -100.0, -1.0, 0.0, 0.5, 50.0, 100.0, 101.0, 400.0, 1000.0];
const ANGLE: &[f64] = &[-3600.5, -360.0, -180.0, -90.0, -0.5, 0.0, 1.0, 45.0, 90.0, 180.0, 270.0, 360.0, 361.0, 720.25];
const SKEW: &[f64] = &[-75.0, -45.0, 0.0, 1.0, 30.0, 60.0, 80.0];
const PART: &[f64] = &[0.0, 1e-3, 0.4, 1.0, 25.0, 50.0, 99.0, 99.9, 100.0];
const ROUND: &[f64] = &[-100.0, -20.0, 0.0, 1e-3, 1.0, 50.0, 150.0];
const UNIT: &[f64] = &[0.0, 1e-3, 0.25, 0.5, 1.0];
const EDGE: &[f64] = &[-1e5, -4.0, -1.0, 0.0, 0.5, 3.0, 7.25, 12.0, 20.0, 30.0, 41.0, 100.0, 1e6];

fn values(d: &Value, p: &Place, prop: &str, kind: &str, member: &str) -> Vec<Value> {
    let now = d.pointer(&p.ptr).unwrap();
    let key = p.path.iter().rev().find(|k| k.parse::<usize>().is_err()).unwrap().as_str();
    let list = |v: &[f64]| v.iter().map(|n| json!(n)).collect::<Vec<Value>>();
    match p.ty {
        // split positions always say so
        Ty::Bool if p.around.last().is_some_and(|(_, k)| k == "split") => return vec![],
        Ty::Bool => return vec![json!(true), json!(false)],
        Ty::Int(l) => return l.iter().map(|n| json!(n)).collect(),
        _ => {}
    }
    if !now.is_number() || p.path.iter().any(|k| k == "z" || k == "ml2") {
        return vec![];
    }
    let inds = || -> Vec<Value> {
        let mut l: Vec<u64> = vec![0, 1, 2, 77, 100_000];
        let at = &p.ptr[..p.ptr.rfind("/layers/").unwrap() + 7];
        l.extend(d.pointer(at).and_then(Value::as_array).iter().flat_map(|a| a.iter()).filter_map(|y| y["ind"].as_u64()));
        l.sort();
        l.dedup();
        l.truncate(12);
        l.into_iter().map(|n| json!(n)).collect()
    };
    if prop == "C15" {
        let t = now.as_f64().unwrap();
        return match key {
            "t" => [-1000.0, -2.25, -1.0, -0.5, 0.5, 1.0, 2.25, 1000.0].iter().map(|e| json!(t + e)).collect(),
            // only the first component of a handle is specified
            _ if p.path.last().is_some_and(|k| k.parse::<usize>().is_ok_and(|n| n > 0)) => vec![],
            "x" => list(&[0.0, 0.05, 0.3, 0.7, 1.0]),
            "y" if member.starts_with("sh:tm") || member == "sh:sr/pt" => list(&[0.0, 0.2, 0.5, 1.0]),
            "y" => list(&[-0.8, 0.0, 0.2, 0.5, 1.0, 1.7]),
            _ => vec![],
        };
    }
    // end values are only used by paths
    if key == "e" && p.around.last().is_some_and(|(n, k)| (k == "kf" || k == "poskf") && p.path[*n] == "e") {
        return vec![];
    }
    let index = p.path.last().and_then(|k| k.parse::<usize>().ok());
    let ks = |m: &str| match m {
        "a" | "p" => list(COORD),
        "s" => list(SCALE),
        "r" | "sa" => list(ANGLE),
        "sk" => list(SKEW),
        "o" => list(PART),
        _ => vec![],
    };
    if p.around.last().is_some_and(|(n, k)| matches!(k.as_str(), "float" | "color" | "multi" | "pos" | "path") && p.path[*n] != "k") {
        return vec![];
    }
    match (kind, member) {
        ("mask", "pt") => list(COORD),
        ("sh:tr", m) => ks(m),
        (_, m) if m.starts_with("ks/") => ks(&m[3..]),
        ("sh:tm", "s" | "e") => list(PART),
        ("sh:tm", "o") => list(ANGLE),
        ("sh:rc" | "sh:el" | "sh:sr", "p") => list(COORD),
        ("sh:rc" | "sh:el", "s") => list(SIZE),
        ("sh:rc", "r") => list(SIZE),
        ("sh:sr", "pt") => list(&[3.0, 4.0, 5.0, 6.0, 7.0, 11.0, 17.0, 33.0]),
        ("sh:sr", "or" | "ir") => list(SIZE),
        ("sh:sr", "os" | "is") => list(ROUND),
        ("sh:sr", "r") => list(ANGLE),
        ("sh:sh", "ks") => list(VERTEX),
        ("sh:fl" | "sh:st" | "sh:gf" | "sh:gs", "o") => list(PART),
        ("sh:fl" | "sh:st", "c") => list(UNIT),
        ("sh:st" | "sh:gs", "w") => list(SIZE),
        ("sh:st" | "sh:gs", "ml") => list(&[0.0, 0.5, 1.0, 3.0, 4.0, 10.0, 100.0]),
        ("sh:gf" | "sh:gs", "s" | "e") => list(COORD),
        ("sh:gf" | "sh:gs", "g") => {
            let n = p.path.iter().rposition(|k| k == "g").map(|g| format!("/{}/p", p.path[..=g].join("/"))).and_then(|q| d.pointer(&q)).and_then(Value::as_u64);
            match (index, n) {
                (Some(i), Some(n)) if i < 4 * n as usize => list(UNIT),
                _ => vec![],
            }
        }
        (_, "ip" | "op") => list(EDGE),
        (_, "st") => list(&[-100.0, -3.5, 0.0, 0.25, 5.0, 20.0, 64.0]),
        (_, "sr") => list(&[-1.0, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0]),
        (_, "ind" | "parent" | "tp") => inds(),
        _ => vec![],
    }
}

/// Is the meaning of this document specified?
fn sane(d: &Value) -> bool {
    if !grammar::is_doc(d) {
        return false;
    }
    for s in grammar::sites(d) {
        let v = d.pointer(&s.ptr()).unwrap();
        if let Some(keys) = v.get("k").filter(|k| spec::is_keys(k)).and_then(Value::as_array) {
            let t: Vec<f64> = keys.iter().filter_map(|k| k["t"].as_f64()).collect();
            if t.windows(2).any(|w| w[0] >= w[1]) {
                return false;
            }
            for k in keys {
                let x = |n: &str| k[n]["x"].as_f64().or(k[n]["x"][0].as_f64());
                // one-sided handles and vertical easing are not specified
                if x("o").is_some() != x("i").is_some() || matches!((x("o"), x("i")), (Some(o), Some(i)) if o - i > 0.9) {
                    return false;
                }
            }
        }
        if v.get("tt").and_then(Value::as_u64) == Some(0) {
            return false;
        }
        // the vertex lists of a path go together
        if s.kind.as_deref() == Some("bezier") {
            let n = |k: &str| v[k].as_array().map_or(0, Vec::len);
            if n("v") != n("i") || n("v") != n("o") {
                return false;
            }
        }
    }
    let none = vec![];
    let mut lists: Vec<(Option<&str>, &Vec<Value>)> = vec![(None, d["layers"].as_array().unwrap_or(&none))];
    for a in d["assets"].as_array().unwrap_or(&none) {
        if let Some(l) = a["layers"].as_array() {
            lists.push((a["id"].as_str(), l));
        }
    }
    for (_, l) in &lists {
        let mut inds: Vec<u64> = l.iter().map(|y| y["ind"].as_u64().unwrap_or(0)).collect();
        inds.sort();
        if inds.windows(2).any(|w| w[0] == w[1]) {
            return false;
        }
        let set = spec::layer_set(l);
        for i in 0..set.len() {
            let (mut p, mut m) = (set[i].parent, set[i].matte.map(|m| m.1));
            for _ in 0..=set.len() {
                p = p.and_then(|p| set[p].parent);
                m = m.and_then(|m| set[m].matte.map(|m| m.1));
            }
            if p.is_some() || m.is_some() {
                return false;
            }
        }
    }
    // precompositions contain one another to a finite depth
    let mut level: Vec<&str> = vec![];
    for depth in 0..=lists.len() {
        let from: Vec<&Vec<Value>> = if depth == 0 { vec![lists[0].1] } else { lists.iter().filter(|(id, _)| id.is_some_and(|id| level.contains(&id))).map(|l| l.1).collect() };
        level = from.iter().flat_map(|l| l.iter()).filter(|y| y["ty"] == 0).filter_map(|y| y["refId"].as_str()).collect();
        level.sort();
        level.dedup();
    }
    !lists.iter().any(|(id, _)| id.is_some_and(|id| level.contains(&id)))
}

/// One edit: the site and what to put there (nothing: leave the member out).
struct Edit {
    what: String,
    ptr: String,
    to: Option<Value>,
}
impl Edit {
    fn apply(&self, d: &Value) -> Value {
        match &self.to {
            None => del(d.clone(), &self.ptr[1..]),
            Some(v) => {
                let mut w = d.clone();
                *w.pointer_mut(&self.ptr).unwrap() = v.clone();
                w
            }
        }
    }
}

fn edits(d: &Value, want: &str) -> Vec<Edit> {
    let mut out: Vec<Edit> = vec![];
    for p in places(d) {
        let Some((prop, kind, member)) = owner(&p) else { continue };
        let now = d.pointer(&p.ptr).unwrap();
        let mut add = |what: String, to: Value| {
            if to != *now {
                out.push(Edit { what, ptr: p.ptr.clone(), to: Some(to) });
            }
        };
        // lists of objects: what they mean belongs to the kind of their elements
        let of = match (p.ty, now.as_array()) {
            (Ty::List(Ty::Layer), Some(_)) => Some("C11"),
            (Ty::List(Ty::Shape), Some(_)) => Some("C18"),
            (Ty::List(Ty::Asset), Some(_)) => Some("C14"),
            (Ty::List(Ty::Obj("mask")), Some(_)) => Some("C13"),
            (_, Some(a)) if p.path.last().is_some_and(|k| k == "k") && a.first().is_some_and(Value::is_object) => Some("C15"),
            _ => None,
        };
        if of == Some(want) {
            let a = now.as_array().unwrap();
            for i in 0..a.len() {
                if want == "C15" && a.len() == 1 {
                    continue;
                }
                let mut b = a.clone();
                let e = b.remove(i);
                add(format!("{} without {i}", p.ptr), json!(b));
                if want == "C15" {
                    continue;
                }
                let mut c = b.clone();
                c.insert(0, e.clone());
                add(format!("{} with {i} first", p.ptr), json!(c));
                let mut c = b.clone();
                c.push(e.clone());
                add(format!("{} with {i} last", p.ptr), json!(c));
                if i + 1 < a.len() {
                    let mut c = a.clone();
                    c.swap(i, i + 1);
                    add(format!("{} with {i} and the next swapped", p.ptr), json!(c));
                }
                if want != "C11" && want != "C14" {
                    let mut c = a.clone();
                    c.insert(i, e.clone());
                    add(format!("{} with {i} twice", p.ptr), json!(c));
                    c.push(e);
                    add(format!("{} with {i} three times", p.ptr), json!(c));
                }
            }
            if want != "C15" {
                add(format!("{} empty", p.ptr), json!([]));
                let mut c = a.clone();
                c.reverse();
                add(format!("{} reversed", p.ptr), json!(c));
            }
        }
        if prop != want {
            continue;
        }
        for v in values(d, &p, prop, &kind, &member) {
            add(format!("{} = {v}", p.ptr), v.clone());
        }
        // optional members left out
        if let Some((n, k)) = p.around.last()
            && *n + 1 == p.path.len()
            && grammar::fields(k).iter().any(|f| f.key == p.path[*n] && !f.req)
            && !matches!((k.as_str(), p.path[*n].as_str()), ("handle", _) | ("ly:0", "st"))
        {
            out.push(Edit { what: format!("{} left out", p.ptr), ptr: p.ptr.clone(), to: None });
        }
    }
    if want == "C15" {
        for p in places(d) {
            let now = d.pointer(&p.ptr).unwrap();
            if !grammar::kind_of(p.ty, now).is_some_and(|k| k.ends_with("kf")) {
                continue;
            }
            let mut held = now.clone();
            held["h"] = json!(if now["h"] == 1 { 0 } else { 1 });
            let mut eased = now.clone();
            let o = eased.as_object_mut().unwrap();
            if !(o.remove("o").is_some() | o.remove("i").is_some()) {
                o.insert("o".into(), json!({"x": [0.6], "y": 0.1}));
                o.insert("i".into(), json!({"x": 0.9, "y": [0.4]}));
            }
            for (what, to) in [("hold", held), ("easing", eased)] {
                out.push(Edit { what: format!("{} {what} toggled", p.ptr), ptr: p.ptr.clone(), to: Some(to) });
            }
        }
    }
    out
}

pub fn ladder(x: &mut X, prop: &str) {
    x.family("edits of whole documents");
    let big = x.pick(40_000, usize::MAX);

    for (name, d) in corpus::docs() {
        if d.to_string().len() > big || !sane(&d) {
            continue;
        }
        let list = edits(&d, prop);
        x.sample(|| json!({"document": name, "edits": list.len(), "first": list.first().map(|e| &e.what)}));
        for part in list.chunks(8) {
            x.case(|k| {
                for e in part {
                    let w = e.apply(&d);
                    if sane(&w) {
                        conform(k, &w, &FRAMES).map_err(|mut f| {
                            f.msg = format!("[{name}] {}: {}", e.what, f.msg);
                            f
                        })?;
                    }
                }
                Ok(())
            });
        }
    }
}
