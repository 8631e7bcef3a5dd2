//! X01: gestures.
use crate::multi_touch::TouchState;
use crate::run::*;
use kurbo::{Point, Vec2};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use winit::event::{Touch, TouchPhase};

#[derive(Clone, Copy, Debug)]
enum Act {
    Down(u64, Point),
    Move(u64, Point),
    Up(u64),
    Cancel(u64),
    Frame,
}
use Act::*;

fn event(phase: TouchPhase, id: u64, p: Point) -> Touch {
    Touch {
        // SAFETY: never given back to winit
        device_id: unsafe { winit::event::DeviceId::dummy() },
        phase,
        location: (p.x, p.y).into(),
        force: None,
        id,
    }
}

/// What the statement says, with whole snapshots of the fingers.
#[derive(Clone, Default)]
struct Model {
    now: BTreeMap<u64, Point>,
    before: BTreeMap<u64, Point>,
    changed: bool,
    /// a touch that was not down has ended since the last frame
    stray: bool,
}
fn centre(f: &BTreeMap<u64, Point>) -> Point {
    let n = f.len() as f64;
    Point::new(f.values().map(|p| p.x).sum::<f64>() / n, f.values().map(|p| p.y).sum::<f64>() / n)
}
fn spread(f: &BTreeMap<u64, Point>) -> f64 {
    let c = centre(f);
    f.values().map(|p| p.distance(c)).sum::<f64>() / f.len() as f64
}
impl Model {
    fn act(&mut self, a: Act) {
        match a {
            Down(i, p) => {
                self.now.insert(i, p);
                self.changed = true;
            }
            Move(i, p) => {
                self.now.entry(i).and_modify(|q| *q = p);
            }
            Up(i) | Cancel(i) => match self.now.remove(&i) {
                Some(_) => self.changed = true,
                None => self.stray = true,
            },
            Frame => {}
        }
    }
    /// Are fingers in one place, seen along some axis or altogether?
    fn meets(&self) -> bool {
        [&self.now, &self.before].iter().any(|f| {
            let c = centre(f);
            let n = f.len() as f64;
            let (x, y) = (f.values().map(|p| (p.x - c.x).abs()).sum::<f64>() / n, f.values().map(|p| (p.y - c.y).abs()).sum::<f64>() / n);
            f.len() > 1 && x.min(y) <= 1e-9
        })
    }
    /// Ends a frame: fingers, centre, translation, (rotation, if defined), (zoom, if defined).
    fn frame(&mut self) -> Option<(usize, Point, Vec2, Option<f64>, Option<f64>)> {
        let still = self.changed || self.now == self.before;
        let r = (!self.now.is_empty()).then(|| {
            let n = self.now.len();
            let c = centre(&self.now);
            if still {
                return (n, c, Vec2::ZERO, Some(0.0), Some(1.0));
            }
            let b = centre(&self.before);
            // the first finger seen from the centre
            let first = *self.now.keys().next().unwrap();
            let (v, w) = (self.now[&first] - c, self.before[&first] - b);
            let turn = if n == 1 {
                Some(0.0)
            } else {
                // rounding decides the direction of a finger on the centre
                (v.hypot() > 1e-9 && w.hypot() > 1e-9).then(|| v.atan2() - w.atan2())
            };
            let (s, t) = (spread(&self.now), spread(&self.before));
            let zoom = if n == 1 {
                Some(1.0)
            } else {
                (s > 1e-9 && t > 1e-9).then(|| s / t)
            };
            (n, c, c - b, turn, zoom)
        });
        self.before = self.now.clone();
        self.changed = false;
        self.stray = false;
        r
    }
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

type Frames = (usize, Point, Vec2, Option<f64>, Option<f64>);
/// Is this what is expected? Whether both zooms are finite is told apart.
fn matches(g: &crate::multi_touch::MultiTouchInfo, w: &Frames) -> (bool, bool) {
    let (n, c, t, turn, zoom) = *w;
    let full = std::f64::consts::TAU;
    let size = 1.0 + c.to_vec2().hypot();
    let ok = g.num_touches == n
        && g.zoom_centre.distance(c) < 1e-9 * size
        && (g.translation_delta - t).hypot() < 1e-9 * size
        && turn.is_none_or(|w| {
            let d = (g.rotation_delta - w).rem_euclid(full);
            d.min(full - d) < 1e-7
        })
        && zoom.is_none_or(|z| near(g.zoom_delta, z) || (z == 1.0 && !g.zoom_delta.is_finite()))
        && g.rotation_delta.is_finite()
        && (zoom != Some(1.0) || turn != Some(0.0) || t != Vec2::ZERO || n > 1 || g.zoom_delta_2d == Vec2::new(1.0, 1.0));
    (ok, g.zoom_delta.is_finite() && g.zoom_delta_2d.is_finite())
}

fn step(k: &mut Cov, real: &mut TouchState, m: &mut Model, a: Act) -> Result<(), String> {
    m.act(a);
    match a {
        Down(i, p) => real.add_event(&event(TouchPhase::Started, i, p)),
        Move(i, p) => real.add_event(&event(TouchPhase::Moved, i, p)),
        // the position of a finger that leaves does not matter
        Up(i) => real.add_event(&event(TouchPhase::Ended, i, Point::new(-77.0, 55.0))),
        Cancel(i) => real.add_event(&event(TouchPhase::Cancelled, i, Point::new(99.0, -1.0))),
        Frame => {
            real.end_frame();
            // what the recorded findings make of it
            let meets = m.meets();
            let stray = m.stray.then(|| Model { changed: true, ..m.clone() }.frame()).flatten();
            let want = m.frame();
            for again in [false, true] {
                let got = real.info();
                let Some(w) = want else {
                    if got.is_some() {
                        return Err(format!("a gesture is reported without fingers: {got:?}"));
                    }
                    continue;
                };
                let Some(g) = got else { return Err("no gesture is reported".into()) };
                let text = || format!("reported{} {g:?}, expected (fingers, centre, translation, rotation, zoom) {w:?}", if again { " (asked twice)" } else { "" });
                let (mut ok, finite) = matches(&g, &w);
                if !ok && stray.as_ref().is_some_and(|w| matches(&g, w).0) {
                    k.as_found("a touch that is not down ends", &text(), Value::Null).map_err(|e| e.msg)?;
                    ok = true;
                }
                if ok && !finite && meets {
                    k.as_found("touches meet in one place", &text(), Value::Null).map_err(|e| e.msg)?;
                } else if !ok || !finite {
                    return Err(text());
                }
            }
        }
    }
    Ok(())
}

fn walk(k: &mut Cov, real: &TouchState, m: &Model, alpha: &[Act], depth: usize, path: &mut Vec<Act>) -> R {
    for a in alpha {
        let (mut r, mut n) = (real.clone(), m.clone());
        path.push(*a);
        k.step(1);
        if let Err(e) = step(k, &mut r, &mut n, *a) {
            return fail(e, json!({"history": path.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()}));
        }
        if depth > 1 {
            walk(k, &r, &n, alpha, depth - 1, path)?;
        } else {
            k.trace();
            k.state(&format!("{:?}{:?}{}", n.now, n.before, n.changed));
        }
        path.pop();
    }
    Ok(())
}

fn history(k: &mut Cov, h: &[Act]) -> R {
    let (mut r, mut m) = (TouchState::new(), Model::default());
    for (i, a) in h.iter().enumerate() {
        k.step(1);
        step(k, &mut r, &mut m, *a).map_err(|e| Fail { msg: format!("step {i}: {e}"), data: Value::Array(h.iter().map(|a| json!(format!("{a:?}"))).collect()) })?;
    }
    k.trace();
    k.state(&format!("{h:?}"));
    Ok(())
}

fn all(x: &mut X, name: &str, alpha: Vec<Act>, depth: usize) {
    x.family(name);
    for a in 0..alpha.len() {
        for b in 0..alpha.len() {
            let alpha = &alpha;
            x.case(|k| {
                let (mut r, mut m) = (TouchState::new(), Model::default());
                let mut path = vec![alpha[a], alpha[b]];
                for s in path.clone() {
                    step(k, &mut r, &mut m, s)?;
                }
                walk(k, &r, &m, alpha, depth - 2, &mut path)
            });
        }
    }
    x.sample(|| json!(format!("{alpha:?} to depth {depth}")));
}

pub fn x01(x: &mut X) {
    let p = |x: f64, y: f64| Point::new(x, y);
    let mut one = vec![Frame];
    for i in [1, 2] {
        one.extend([Down(i, p(10.0 * i as f64, 3.0)), Move(i, p(-4.0, 7.0 * i as f64)), Move(i, p(2.0, -1.0)), Up(i)]);
    }
    all(x, "two fingers", one, x.pick(7, 8));
    let mut three = vec![Frame];
    for i in [1, 2, 7] {
        three.extend([Down(i, p(i as f64, -(i as f64))), Move(i, p(5.0 * i as f64, 2.0)), Cancel(i)]);
    }
    all(x, "three fingers", three, x.pick(7, 8));
    let mut many = vec![Frame];
    for i in [1, 2, 3] {
        for q in [p(0.0, 0.0), p(10.0, 0.0), p(-3.0, 8.0)] {
            many.extend([Down(i, q), Move(i, q)]);
        }
        many.extend([Up(i), Cancel(i)]);
    }
    all(x, "all events", many, x.pick(4, 5));
    // two fingers that move between every two of a set of points
    x.family("moves of two and three fingers");
    let at: Vec<Point> = [(0.0, 0.0), (10.0, 0.0), (0.0, 10.0), (-10.0, 0.5), (-10.0, -0.5), (1e-3, 1e-3), (4000.0, 3000.0), (0.0, 1e6)].iter().map(|(a, b)| p(*a, *b)).collect();
    for a in &at {
        for b in &at {
            x.case(|k| {
                for c in &at {
                    for d in &at {
                        for extra in [None, Some(p(3.0, 3.0))] {
                            let mut h = vec![Down(1, *a), Down(2, *b)];
                            h.extend(extra.map(|e| Down(3, e)));
                            h.extend([Frame, Frame, Move(1, *c), Frame, Move(2, *d), Frame, Move(1, *a), Move(2, *b), Frame, Frame]);
                            history(k, &h)?;
                            // within one frame
                            h.extend([Move(1, *d), Move(2, *c), Move(1, *c), Frame, Up(1), Move(2, *a), Frame, Move(2, *d), Frame, Up(2), Frame, Frame]);
                            history(k, &h)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    x.family("many fingers, identifiers of all sizes");
    for n in [1_u64, 2, 3, 5, 10, 40] {
        for top in [0, 1 << 32, u64::MAX - 40] {
            x.case(|k| {
                let mut h = vec![];
                let place = |i: u64, t: f64| p((i * i) as f64 + t * i as f64, 100.0 - i as f64 * 7.0 - t);
                for i in 0..n {
                    h.push(Down(top + i, place(i, 0.0)));
                    h.push(Frame);
                }
                for t in 1..30 {
                    for i in 0..n {
                        if (i + t) % 3 != 0 {
                            h.push(Move(top + i, place(i, t as f64)));
                        }
                    }
                    h.push(Frame);
                }
                for i in (0..n).rev() {
                    h.extend([Frame, Up(top + i), Frame]);
                }
                history(k, &h)
            });
        }
    }
}
