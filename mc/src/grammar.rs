//! The document format as a grammar: every object kind with its members, which
//! of them are required, and their types. Generates documents, decides whether
//! a value is a document of the format, and walks a document's sites.
use serde_json::{Map, Value, json};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    Num,
    UInt,
    Str,
    Bool,
    /// one of these integers
    Int(&'static [u64]),
    /// one of these strings
    Name(&'static [&'static str]),
    Any,
    Vec2,
    Nums,
    List(&'static Ty),
    Obj(&'static str),
    /// shape variants, by `ty`
    Shape,
    /// layer variants, by `ty`
    Layer,
    Asset,
    OneOf(&'static [Ty]),
}
use Ty::*;

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub key: &'static str,
    pub req: bool,
    pub ty: Ty,
}
const fn r(key: &'static str, ty: Ty) -> Field {
    Field { key, req: true, ty }
}
const fn o(key: &'static str, ty: Ty) -> Field {
    Field { key, req: false, ty }
}
const B01: Ty = Int(&[0, 1]);
const BM: Ty = Int(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
const FLOAT: Ty = Obj("float");
const MULTI: Ty = Obj("multi");
const POS: Ty = Obj("pos");
const SHAPES: Ty = List(&Shape);
const LAYERS: Ty = List(&Layer);

const DOC: &[Field] = &[
    o("nm", Str), o("mn", Str), r("layers", LAYERS), o("v", Str), o("ver", UInt), r("fr", Num), r("ip", Num), r("op", Num),
    r("w", UInt), r("h", UInt), o("ddd", B01), o("assets", List(&Asset)), o("markers", List(&Obj("marker"))),
    o("meta", Obj("meta")), o("metadata", Any),
];
const MARKER: &[Field] = &[o("cm", Str), o("tm", Num), o("dr", Num)];
const META: &[Field] = &[o("a", Str), o("d", Str), o("tc", Str), o("g", Str), o("k", Any)];
const LAYER: &[Field] = &[
    o("nm", Str), o("mn", Str), o("ddd", B01), o("hd", Bool), o("ind", UInt), o("parent", UInt), o("sr", Num), r("ip", Num), r("op", Num),
    o("tt", Int(&[0, 1, 2, 3, 4])), o("td", B01), o("masksProperties", List(&Obj("mask"))), r("ks", Obj("ks")), o("ao", B01),
    o("tp", Num), o("hasMask", Bool), o("mb", Bool), o("bm", BM), o("cl", Str), o("ln", Str), o("tg", Str), o("cp", Str), o("ct", B01),
];
const MASK: &[Field] = &[
    o("nm", Str), o("mn", Str), o("inv", Bool), o("pt", Obj("path")), o("o", FLOAT),
    o("mode", Name(&["n", "a", "s", "i", "l", "d", "f"])), o("x", FLOAT),
];
const KS: &[Field] = &[
    o("a", POS), r("p", OneOf(&[POS, Obj("split")])), o("s", MULTI), o("r", OneOf(&[FLOAT, Obj("rot3")])), o("sk", FLOAT),
    o("sa", FLOAT), o("o", FLOAT),
];
const SPLIT: &[Field] = &[r("s", Bool), r("x", FLOAT), r("y", FLOAT), o("z", FLOAT)];
const ROT3: &[Field] = &[r("x", FLOAT), r("y", FLOAT), r("z", FLOAT), r("or", MULTI)];
const PROP: &[Field] = &[o("ix", Num), o("a", B01), o("x", Str), o("sid", Str)];
const KEY: &[Field] = &[r("t", Num), o("h", B01), o("i", Obj("handle")), o("o", Obj("handle"))];
const HANDLE: &[Field] = &[r("x", OneOf(&[Num, Nums])), r("y", OneOf(&[Num, Nums]))];
const BEZIER: &[Field] = &[o("c", Bool), r("v", List(&Vec2)), r("i", List(&Vec2)), r("o", List(&Vec2))];
const GELEM: &[Field] = &[o("nm", Str), o("mn", Str), o("hd", Bool), o("bm", BM), o("ix", Num), o("cl", Str), o("ln", Str), o("ind", Num)];
const DIR: Field = o("d", Int(&[1, 3]));
const STROKE: &[Field] = &[
    o("lc", Int(&[1, 2, 3])), o("lj", Int(&[1, 2, 3])), o("ml", Num), o("ml2", FLOAT), r("w", FLOAT), o("d", List(&Obj("dash"))),
];
const GRAD: &[Field] = &[r("g", Obj("stops")), r("s", MULTI), r("e", MULTI), o("t", Int(&[1, 2])), o("h", FLOAT), o("a", FLOAT)];
const DASH: &[Field] = &[o("nm", Str), o("mn", Str), o("n", Name(&["d", "g", "o"])), o("v", FLOAT)];

/// The members of an object kind. Shapes are `sh:TY`, layers `ly:TY`.
pub fn fields(kind: &str) -> Vec<Field> {
    let cat = |parts: &[&[Field]]| parts.concat();
    match kind {
        "doc" => DOC.to_vec(),
        "marker" => MARKER.to_vec(),
        "meta" => META.to_vec(),
        "mask" => MASK.to_vec(),
        "ks" => KS.to_vec(),
        "split" => SPLIT.to_vec(),
        "rot3" => ROT3.to_vec(),
        "float" => cat(&[PROP, &[r("k", OneOf(&[Num, List(&Obj("kf"))]))]]),
        "color" => cat(&[PROP, &[r("k", OneOf(&[Nums, List(&Obj("kf"))]))]]),
        "multi" => cat(&[PROP, &[o("l", Num), r("k", OneOf(&[Nums, List(&Obj("kf"))]))]]),
        "pos" => cat(&[&PROP[..3], &[o("l", Num), r("k", OneOf(&[Nums, List(&Obj("poskf"))]))]]),
        "path" => cat(&[&PROP[..3], &[r("k", OneOf(&[Obj("bezier"), List(&Obj("pathkf"))]))]]),
        "kf" => cat(&[KEY, &[r("s", Nums), o("e", Nums)]]),
        "poskf" => cat(&[KEY, &[r("s", Nums), o("e", Nums), o("ti", Nums), o("to", Nums)]]),
        "pathkf" => cat(&[KEY, &[o("s", List(&Obj("bezier"))), o("e", List(&Obj("bezier")))]]),
        "handle" => HANDLE.to_vec(),
        "bezier" => BEZIER.to_vec(),
        "stops" => vec![r("k", MULTI), r("p", UInt)],
        "dash" => DASH.to_vec(),
        "reptr" => cat(&[GELEM, KS, &[o("so", FLOAT), o("eo", FLOAT)]]),
        "as:comp" => vec![r("id", Str), o("nm", Str), o("mn", Str), r("layers", LAYERS), o("fr", Num), o("xt", B01)],
        "as:image" => vec![
            r("id", Str), o("nm", Str), o("mn", Str), o("u", Str), r("p", Str), o("e", B01), o("sid", Str), o("w", Num), o("h", Num),
            o("t", Name(&["seq"])),
        ],
        "ly:0" => cat(&[LAYER, &[r("st", Num), r("refId", Str), r("w", Num), r("h", Num), o("tm", FLOAT)]]),
        "ly:1" => cat(&[LAYER, &[o("st", Num), r("sw", Num), r("sh", Num), r("sc", Str)]]),
        "ly:2" => cat(&[LAYER, &[o("st", Num), r("refId", Str)]]),
        "ly:3" => cat(&[LAYER, &[o("st", Num)]]),
        "ly:4" => cat(&[LAYER, &[o("st", Num), r("shapes", SHAPES)]]),
        "sh:gr" => cat(&[GELEM, &[o("np", Num), r("it", SHAPES), o("cix", UInt)]]),
        "sh:rc" => cat(&[GELEM, &[DIR, r("p", POS), r("s", MULTI), r("r", FLOAT)]]),
        "sh:el" => cat(&[GELEM, &[DIR, r("p", POS), r("s", MULTI)]]),
        "sh:sr" => cat(&[
            GELEM,
            &[DIR, r("p", POS), r("or", FLOAT), r("os", FLOAT), r("r", FLOAT), r("pt", FLOAT), r("sy", Int(&[1, 2])), o("ir", FLOAT), o("is", FLOAT)],
        ]),
        "sh:sh" => cat(&[GELEM, &[DIR, r("ks", Obj("path"))]]),
        "sh:tr" => cat(&[GELEM, KS]),
        "sh:fl" => cat(&[GELEM, &[r("o", FLOAT), r("c", Obj("color")), o("r", Int(&[1, 2]))]]),
        "sh:st" => cat(&[GELEM, &[r("o", FLOAT), r("c", Obj("color"))], STROKE]),
        "sh:gf" => cat(&[GELEM, &[r("o", FLOAT), o("r", Int(&[1, 2]))], GRAD]),
        "sh:gs" => cat(&[GELEM, &[r("o", FLOAT)], STROKE, GRAD]),
        "sh:tm" => cat(&[GELEM, &[r("s", FLOAT), r("e", FLOAT), r("o", FLOAT), o("m", Int(&[1, 2]))]]),
        "sh:rp" => cat(&[GELEM, &[r("c", FLOAT), o("o", FLOAT), o("m", Int(&[1, 2])), r("tr", Obj("reptr"))]]),
        "sh:mm" => cat(&[GELEM, &[o("mm", Int(&[1, 2, 3, 4, 5]))]]),
        "sh:pb" => cat(&[GELEM, &[o("a", FLOAT)]]),
        "sh:op" => cat(&[GELEM, &[o("a", FLOAT), o("lj", Int(&[1, 2, 3])), o("ml", FLOAT)]]),
        "sh:tw" => cat(&[GELEM, &[r("a", FLOAT), r("p", POS)]]),
        "sh:rd" => cat(&[GELEM, &[r("r", FLOAT)]]),
        _ => panic!("{kind}"),
    }
}
pub const SHAPE_KINDS: &[&str] =
    &["gr", "rc", "el", "sr", "sh", "tr", "fl", "st", "gf", "gs", "tm", "rp", "mm", "pb", "op", "tw", "rd"];

/// The object kind of a value at a type, where it has one.
pub fn kind_of(ty: Ty, v: &Value) -> Option<String> {
    let m = v.as_object()?;
    match ty {
        Obj(k) => Some(k.into()),
        Shape => {
            let t = m.get("ty")?.as_str()?;
            SHAPE_KINDS.contains(&t).then(|| format!("sh:{t}"))
        }
        Layer => {
            let t = m.get("ty")?.as_u64()?;
            (t <= 4).then(|| format!("ly:{t}"))
        }
        Asset => {
            if m.contains_key("layers") {
                Some("as:comp".into())
            } else if m.get("t").and_then(Value::as_u64) == Some(3) {
                None
            } else if m.contains_key("w") || m.contains_key("h") {
                Some("as:image".into())
            } else {
                None
            }
        }
        OneOf(ts) => ts.iter().filter_map(|t| kind_of(*t, v)).find(|k| match k.as_str() {
            "pos" | "float" => m.contains_key("k"),
            _ => true,
        }),
        _ => None,
    }
}

/// Is `v` a value of type `ty`? Members that the format does not define are
/// ignored; an optional member may be null.
pub fn valid(ty: Ty, v: &Value) -> bool {
    match ty {
        Num => v.is_number(),
        UInt => v.as_u64().is_some_and(|n| n < 1 << 32),
        Str => v.is_string(),
        Bool => v.is_boolean(),
        Int(l) => v.as_u64().is_some_and(|n| l.contains(&n)),
        Name(l) => v.as_str().is_some_and(|s| l.contains(&s)),
        Any => true,
        Vec2 => v.as_array().is_some_and(|a| a.len() == 2 && a.iter().all(Value::is_number)),
        Nums => v.as_array().is_some_and(|a| a.iter().all(Value::is_number)),
        List(t) => v.as_array().is_some_and(|a| a.iter().all(|x| valid(*t, x)) && (*t != Obj("pathkf") || path_keys(a))),
        OneOf(ts) => ts.iter().any(|t| valid(*t, v)),
        Obj(_) | Shape | Layer | Asset => {
            let (Some(k), Some(m)) = (kind_of(ty, v), v.as_object()) else {
                return false;
            };
            fields(&k).iter().all(|f| match m.get(f.key) {
                None => !f.req,
                Some(Value::Null) if !f.req => f.key != "t" || k != "as:image",
                // any string is taken; only one has a meaning
                Some(x) if f.key == "t" && k == "as:image" => x.is_string(),
                Some(x) => valid(f.ty, x) && (f.key != "cix" || x.as_u64().is_some_and(|n| n < 256)),
            })
        }
    }
}
/// Only the last of at least two path keyframes may omit its value.
fn path_keys(a: &[Value]) -> bool {
    let has = |v: &Value| v.get("s").is_some_and(|s| !s.is_null());
    match a {
        [] => true,
        [only] => has(only),
        [init @ .., _] => init.iter().all(has),
    }
}

/// Calls `f(path, type, value)` for every site of a document, parents first.
pub fn visit(ty: Ty, v: &Value, path: &mut Vec<String>, f: &mut impl FnMut(&[String], Ty, &Value)) {
    f(path, ty, v);
    match v {
        Value::Array(a) => {
            let inner = match ty {
                List(t) => Some(*t),
                Vec2 | Nums => Some(Num),
                OneOf(ts) => ts.iter().find_map(|t| match t {
                    List(i) if a.iter().all(Value::is_object) => Some(**i),
                    Nums if a.iter().all(Value::is_number) => Some(Num),
                    _ => None,
                }),
                _ => None,
            };
            if let Some(t) = inner {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    visit(t, x, path, f);
                    path.pop();
                }
            }
        }
        Value::Object(m) => {
            if let Some(k) = kind_of(ty, v) {
                for fd in fields(&k) {
                    if let Some(x) = m.get(fd.key) {
                        path.push(fd.key.into());
                        visit(fd.ty, x, path, f);
                        path.pop();
                    }
                }
            }
        }
        _ => {}
    }
}
#[derive(Clone, Debug)]
pub struct Site {
    pub path: Vec<String>,
    pub ty: Ty,
    pub kind: Option<String>,
}
impl Site {
    pub fn ptr(&self) -> String {
        self.path.iter().map(|p| format!("/{p}")).collect()
    }
}
pub fn sites(doc: &Value) -> Vec<Site> {
    let mut out = vec![];
    visit(Obj("doc"), doc, &mut vec![], &mut |p, ty, v| {
        out.push(Site { path: p.to_vec(), ty, kind: kind_of(ty, v) })
    });
    out
}
pub fn is_doc(v: &Value) -> bool {
    valid(Obj("doc"), v)
}

// ------------------------------------------------------------------ generation

/// Generates values; numbers and strings are numbered so that no two members
/// of a document hold the same value.
pub struct Gen {
    pub n: u64,
    /// take the n-th alternative of every choice
    pub alt: usize,
}
impl Gen {
    fn num(&mut self) -> Value {
        self.n += 1;
        if self.n % 3 == 0 { json!(self.n) } else { json!(self.n as f64 + 0.5) }
    }
    pub fn value(&mut self, ty: Ty, full: bool) -> Value {
        match ty {
            Num => self.num(),
            UInt => {
                self.n += 1;
                json!(self.n % 200)
            }
            Str => {
                self.n += 1;
                json!(format!("s{}", self.n))
            }
            Bool => json!(self.alt % 2 == 0),
            Int(l) => json!(l[(self.alt + 1) % l.len()]),
            Name(l) => json!(l[self.alt % l.len()]),
            Any => json!({"a": [1, "x", null], "b": {"c": true}}),
            Vec2 => json!([self.num(), self.num()]),
            Nums => json!([self.num(), self.num()]),
            List(Obj("pathkf")) => {
                let mut a = self.object("pathkf", true);
                let mut b = self.object("pathkf", full);
                b["s"] = json!([self.object("bezier", full)]);
                a["t"] = json!(0);
                b["t"] = json!(10);
                let mut c = json!({"t": 20});
                if self.alt % 2 == 1 {
                    c["s"] = json!([self.object("bezier", full)]);
                }
                json!([a, b, c])
            }
            List(t @ (Obj("kf") | Obj("poskf"))) => {
                let mut l = vec![self.value(*t, full), self.value(*t, false)];
                for (i, k) in l.iter_mut().enumerate() {
                    k["t"] = json!(i * 12);
                }
                json!(l)
            }
            List(t) => json!([self.value(*t, full)]),
            Obj(k) => self.object(k, full),
            OneOf(ts) => self.value(ts[self.alt % ts.len()], full),
            Shape => self.shape("rc", full),
            Layer => self.layer(3, full),
            Asset => self.object("as:image", full),
        }
    }
    pub fn object(&mut self, kind: &str, full: bool) -> Value {
        let mut m = Map::new();
        if let Some(t) = kind.strip_prefix("sh:") {
            m.insert("ty".into(), json!(t));
        }
        if let Some(t) = kind.strip_prefix("ly:") {
            m.insert("ty".into(), json!(t.parse::<u64>().unwrap()));
        }
        for f in fields(kind) {
            if f.req || full {
                let v = self.field(kind, &f, full);
                m.insert(f.key.into(), v);
            }
        }
        if kind == "as:image" && !full {
            m.insert("w".into(), json!(3));
        }
        if kind == "stops" {
            m["p"] = json!(1);
            if m["k"]["k"][0].is_number() {
                m["k"]["k"] = json!([0.5, 0.25, 0.125, 0.75]);
            } else {
                for k in m["k"]["k"].as_array_mut().unwrap() {
                    k["s"] = json!([0.5, 0.25, 0.125, 0.75]);
                }
            }
        }
        Value::Object(m)
    }
    pub fn field(&mut self, kind: &str, f: &Field, full: bool) -> Value {
        match (kind, f.key) {
            // a scalar keyframe has one value; make documents renderable
            ("float", "k") if self.alt % 2 == 1 => {
                let mut v = self.value(List(&Obj("kf")), full);
                for k in v.as_array_mut().unwrap() {
                    k["s"] = json!([self.num()]);
                }
                v
            }
            ("color", "k") if self.alt % 2 == 0 => json!([0.25, 0.5, 0.75, 1]),
            ("handle", "x") => if self.alt % 2 == 0 { json!(0.25) } else { json!([0.25]) },
            ("handle", "y") => if self.alt % 2 == 0 { json!(0.5) } else { json!([0.5]) },
            (_, "ip") => json!(-10),
            (_, "op") => json!(100),
            (_, "ind") if kind.starts_with("ly") => json!(self.n + 1000),
            (_, "parent") => json!(1),
            (_, "sr") => json!(2),
            (_, "hd") if kind.starts_with("ly") => json!(false),
            (_, "refId") => json!("pc"),
            (_, "tp") => json!(1),
            ("sh:sr", "pt") => json!({"a": 0, "k": 5}),
            ("sh:rp", "c") => json!({"a": 0, "k": 2}),
            ("as:comp", "id") => json!("pc"),
            _ => self.value(f.ty, full),
        }
    }
    pub fn shape(&mut self, ty: &str, full: bool) -> Value {
        self.object(&format!("sh:{ty}"), full)
    }
    pub fn layer(&mut self, ty: u64, full: bool) -> Value {
        self.object(&format!("ly:{ty}"), full)
    }
    /// A document that holds every object kind.
    pub fn doc(&mut self, full: bool) -> Value {
        let mut d = self.object("doc", full);
        let mut shapes: Vec<Value> = vec![];
        for k in SHAPE_KINDS {
            shapes.push(self.shape(k, full));
        }
        let all = shapes.clone();
        shapes[0]["it"] = json!(all[1..]);
        let mut ls: Vec<Value> = (0..=4).map(|t| self.layer(t, full)).collect();
        ls[4]["shapes"] = json!(shapes);
        d["layers"] = json!(ls);
        if full {
            d["assets"] = json!([self.object("as:comp", true), self.object("as:image", true)]);
            d["w"] = json!(300);
        }
        d
    }
}
/// Documents that together use every member and every alternative.
pub fn docs() -> Vec<(String, Value)> {
    let mut out = vec![];
    for full in [false, true] {
        for alt in 0..2 {
            let d = Gen { n: 0, alt }.doc(full);
            assert!(is_doc(&d), "generated document is not valid: {d}");
            out.push((format!("{} alternative {alt}", if full { "full" } else { "minimal" }), d));
        }
    }
    out
}
