//! Builders for documents.
pub use serde_json::{Value, json};

pub fn st(v: Value) -> Value {
    json!({"a": 0, "k": v})
}
/// linear keyframes
pub fn kf(keys: &[(f64, Value)]) -> Value {
    let k: Vec<Value> = keys
        .iter()
        .map(|(t, v)| {
            let s = if v.is_array() { v.clone() } else { json!([v]) };
            json!({"t": t, "s": s})
        })
        .collect();
    json!({"a": 1, "k": k})
}
/// keyframes with one easing for all spans
pub fn kfe(keys: &[(f64, Value)], o: (f64, f64), i: (f64, f64)) -> Value {
    let mut p = kf(keys);
    for k in p["k"].as_array_mut().unwrap() {
        k["o"] = json!({"x": [o.0], "y": [o.1]});
        k["i"] = json!({"x": [i.0], "y": [i.1]});
    }
    p
}
pub fn set(mut v: Value, path: &str, x: Value) -> Value {
    put(&mut v, path, x);
    v
}
pub fn put(v: &mut Value, path: &str, x: Value) {
    let mut cur = v;
    for p in path.split('/') {
        cur = match p.parse::<usize>() {
            Ok(n) if cur.is_array() => &mut cur[n],
            _ => &mut cur[p],
        };
    }
    *cur = x;
}
pub fn del(mut v: Value, path: &str) -> Value {
    let (head, last) = path.rsplit_once('/').unwrap_or(("", path));
    let p = if head.is_empty() { "".to_string() } else { format!("/{head}") };
    if let Some(Value::Object(o)) = v.pointer_mut(&p) {
        o.remove(last);
    }
    v
}

pub fn ks() -> Value {
    json!({"a": st(json!([0, 0])), "p": st(json!([0, 0])), "s": st(json!([100, 100])), "r": st(json!(0)), "o": st(json!(100))})
}
pub fn ks_at(x: f64, y: f64) -> Value {
    set(ks(), "p", st(json!([x, y])))
}
pub fn doc(layers: Vec<Value>, assets: Vec<Value>) -> Value {
    json!({"v": "5.5.2", "nm": "doc", "fr": 30, "ip": 0, "op": 100, "w": 100, "h": 80, "layers": layers, "assets": assets})
}
pub fn asset(id: &str, layers: Vec<Value>) -> Value {
    json!({"id": id, "nm": id, "layers": layers})
}
fn base(ty: u64, ind: u64) -> Value {
    json!({"ty": ty, "ind": ind, "nm": format!("L{ind}"), "ip": 0, "op": 100, "st": 0, "sr": 1, "ks": ks()})
}
pub fn null(ind: u64) -> Value {
    base(3, ind)
}
pub fn solid(ind: u64) -> Value {
    let mut v = base(1, ind);
    v["sc"] = json!("#ff0000");
    v["sw"] = json!(10);
    v["sh"] = json!(10);
    v
}
pub fn image(ind: u64) -> Value {
    let mut v = base(2, ind);
    v["refId"] = json!("img");
    v
}
pub fn shape(ind: u64, shapes: Vec<Value>) -> Value {
    let mut v = base(4, ind);
    v["shapes"] = json!(shapes);
    v
}
pub fn inst(ind: u64, id: &str) -> Value {
    let mut v = base(0, ind);
    v["refId"] = json!(id);
    v["w"] = json!(100);
    v["h"] = json!(80);
    v
}

pub fn rect(x: f64, y: f64, w: f64, h: f64) -> Value {
    json!({"ty": "rc", "nm": "r", "p": st(json!([x, y])), "s": st(json!([w, h])), "r": st(json!(0))})
}
pub fn ell(x: f64, y: f64, w: f64, h: f64) -> Value {
    json!({"ty": "el", "nm": "e", "p": st(json!([x, y])), "s": st(json!([w, h]))})
}
pub fn bez(v: &[[f64; 2]], i: &[[f64; 2]], o: &[[f64; 2]], c: bool) -> Value {
    json!({"c": c, "v": v, "i": i, "o": o})
}
pub fn poly(v: &[[f64; 2]], c: bool) -> Value {
    let z = vec![[0.0, 0.0]; v.len()];
    bez(v, &z, &z, c)
}
pub fn path(b: Value) -> Value {
    json!({"ty": "sh", "nm": "p", "ks": st(b)})
}
pub fn path_kf(keys: &[(f64, Value)]) -> Value {
    let k: Vec<Value> = keys.iter().map(|(t, b)| json!({"t": t, "s": [b]})).collect();
    json!({"a": 1, "k": k})
}
pub fn star(sy: u64, n: f64) -> Value {
    json!({"ty": "sr", "nm": "s", "sy": sy, "p": st(json!([10, 5])), "r": st(json!(15)), "pt": st(json!(n)),
        "or": st(json!(30)), "os": st(json!(0)), "ir": st(json!(12)), "is": st(json!(0))})
}
pub fn fill(r: f64, g: f64, b: f64) -> Value {
    json!({"ty": "fl", "nm": "f", "c": st(json!([r, g, b, 1])), "o": st(json!(100))})
}
pub fn stroke(r: f64, g: f64, b: f64, w: f64) -> Value {
    json!({"ty": "st", "nm": "k", "c": st(json!([r, g, b, 1])), "o": st(json!(100)), "w": st(json!(w)), "lc": 2, "lj": 2, "ml": 5})
}
pub fn gfill(radial: bool, n: usize, stops: Value) -> Value {
    json!({"ty": "gf", "nm": "g", "t": if radial {2} else {1}, "s": st(json!([1, 2])), "e": st(json!([11, 22])),
        "g": {"p": n, "k": st(stops)}, "o": st(json!(100))})
}
pub fn gstroke(radial: bool, n: usize, stops: Value) -> Value {
    let mut v = gfill(radial, n, stops);
    v["ty"] = json!("gs");
    v["w"] = st(json!(3));
    v
}
pub fn tr() -> Value {
    let mut v = ks();
    v["ty"] = json!("tr");
    v
}
pub fn tr_at(x: f64, y: f64) -> Value {
    set(tr(), "p", st(json!([x, y])))
}
pub fn group(items: Vec<Value>) -> Value {
    json!({"ty": "gr", "nm": "G", "it": items})
}
pub fn trimp(s: f64, e: f64, o: f64) -> Value {
    json!({"ty": "tm", "nm": "t", "s": st(json!(s)), "e": st(json!(e)), "o": st(json!(o)), "m": 1})
}
pub fn mask(pt: Value) -> Value {
    json!({"nm": "m", "inv": false, "mode": "a", "pt": pt, "o": st(json!(100)), "x": st(json!(0))})
}
/// A painted rectangle that can be told apart from those with other ids.
pub fn mark(id: usize) -> Vec<Value> {
    let k = id as f64;
    vec![
        rect(3.0 * k + 1.0, 2.0 * k + 2.0, 5.0 + k, 4.0 + k),
        fill((k * 0.13) % 1.0, (k * 0.29) % 1.0, 0.5),
    ]
}
pub fn marked(ind: u64, id: usize) -> Value {
    shape(ind, mark(id))
}
