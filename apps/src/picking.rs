//! X03: picking.
use crate::run::*;
use crate::{corpus, doc};
use kurbo::{Affine, BezPath, Point, Rect, Shape, Vec2};
use peniko::{BlendMode, Brush, Color, Fill};
use scenes::picking_probe::{Hits, Picker, to_scene};
use serde_json::json;
use velato::{Composition, RenderSink, Renderer, model::fixed};
use vello::Scene;

#[derive(Clone, Debug)]
enum Ev {
    Begin(String, usize),
    End,
    Draw(Option<fixed::Stroke>, Affine, fixed::Brush, BezPath),
    Layer(BlendMode, f32, Affine, BezPath),
    Clip(Affine, BezPath),
    Pop,
}
use Ev::*;

/// Records the events of a renderer.
#[derive(Default)]
struct Tape(Vec<Ev>);
impl RenderSink for Tape {
    fn push_layer(&mut self, b: impl Into<BlendMode>, a: f32, t: Affine, s: &impl Shape) {
        self.0.push(Layer(b.into(), a, t, s.to_path(0.1)));
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl Shape) {
        self.0.push(Clip(t, s.to_path(0.1)));
    }
    fn pop_layer(&mut self) {
        self.0.push(Pop);
    }
    fn draw(&mut self, k: Option<&fixed::Stroke>, t: Affine, b: &fixed::Brush, s: &impl Shape) {
        self.0.push(Draw(k.cloned(), t, b.clone(), s.to_path(0.1)));
    }
    fn begin_layer_group(&mut self, n: &str, i: usize) {
        self.0.push(Begin(n.into(), i));
    }
    fn end_layer_group(&mut self) {
        self.0.push(End);
    }
}
fn play(evs: &[Ev], s: &mut impl RenderSink) {
    for e in evs {
        match e {
            Begin(n, i) => s.begin_layer_group(n, *i),
            End => s.end_layer_group(),
            Draw(k, t, b, p) => s.draw(k.as_ref(), *t, b, p),
            Layer(b, a, t, p) => s.push_layer(*b, *a, *t, p),
            Clip(t, p) => s.push_clip_layer(*t, p),
            Pop => s.pop_layer(),
        }
    }
}
/// What vello's own interface makes of the events.
fn scene_of(evs: &[Ev]) -> Scene {
    let mut s = Scene::new();
    for e in evs {
        match e {
            Begin(..) | End => {}
            Draw(Some(k), t, b, p) => s.stroke(k, *t, b, None, p),
            Draw(None, t, b, p) => s.fill(Fill::NonZero, *t, b, None, p),
            Layer(b, a, t, p) => s.push_layer(Fill::NonZero, *b, *a, *t, p),
            Clip(t, p) => s.push_clip_layer(Fill::NonZero, *t, p),
            Pop => s.pop_layer(),
        }
    }
    s
}
fn same_scene(a: &Scene, b: &Scene) -> bool {
    let (a, b) = (a.encoding(), b.encoding());
    a.path_tags == b.path_tags && a.path_data == b.path_data && a.draw_tags == b.draw_tags && a.draw_data == b.draw_data && a.transforms == b.transforms && a.styles == b.styles && a.resources.color_stops == b.resources.color_stops
}

/// The boxes by the statement: for each outermost interactive layer that drew
/// something its name, the tight box of what was drawn in it and the box of
/// the transformed boxes.
fn model(evs: &[Ev], names: &[&str]) -> Vec<(String, Rect, Rect)> {
    let mut open: Vec<bool> = vec![]; // does this group track?
    let mut out = vec![];
    let mut now: Option<(String, Option<(Rect, Rect)>)> = None;
    for e in evs {
        match e {
            Begin(n, _) => {
                let start = now.is_none() && names.contains(&n.as_str());
                open.push(start);
                if start {
                    now = Some((n.clone(), None));
                }
            }
            End => {
                if open.pop().unwrap()
                    && let Some((n, Some((a, b)))) = now.take()
                {
                    out.push((n, a, b));
                }
            }
            Draw(_, t, _, p) => {
                if let Some((_, area)) = &mut now {
                    let tight = (*t * p).bounding_box();
                    let loose = t.transform_rect_bbox(p.bounding_box());
                    *area = Some(match area {
                        Some((a, b)) => (a.union(tight), b.union(loose)),
                        None => (tight, loose),
                    });
                }
            }
            _ => {}
        }
    }
    out
}

fn within(a: Rect, b: Rect) -> bool {
    let e = 1e-6 * (1.0 + b.x0.abs().max(b.y0.abs()).max(b.x1.abs()).max(b.y1.abs()));
    a.x0 >= b.x0 - e && a.y0 >= b.y0 - e && a.x1 <= b.x1 + e && a.y1 <= b.y1 + e
}

fn judge(k: &mut Cov, evs: &[Ev], names: &[&str], hits: &Hits, scene: &Scene) -> Result<(), String> {
    let want = model(evs, names);
    let got = hits.list();
    k.step(evs.len());
    k.trace();
    if got.len() != want.len() {
        return Err(format!("{} layers reported ({got:?}), expected {want:?}", got.len()));
    }
    for ((n, r), (m, tight, loose)) in got.iter().zip(&want) {
        if n != m || !within(*tight, *r) || !within(*r, *loose) {
            return Err(format!("layer {n:?} has the box {r:?}, expected {m:?} and a box between {tight:?} and {loose:?}"));
        }
    }
    if !same_scene(scene, &scene_of(evs)) {
        return Err("what was drawn is not what was forwarded".into());
    }
    // every box's inside, edges' neighbourhoods and outside
    let mut probes = vec![Point::new(-1e7, 3.0)];
    for (_, r) in &got {
        for fx in [-0.01, 0.01, 0.37, 0.99, 1.01] {
            for fy in [-0.01, 0.01, 0.51, 0.99, 1.01] {
                probes.push(Point::new(r.x0 + r.width() * fx, r.y0 + r.height() * fy));
            }
        }
    }
    for p in probes {
        let want = (0..got.len()).rev().find(|i| {
            let r = got[*i].1;
            r.x0 <= p.x && p.x < r.x1 && r.y0 <= p.y && p.y < r.y1
        });
        if hits.pick(p) != want {
            return Err(format!("at {p:?} layer {:?} is picked, expected {want:?} of {got:?}", hits.pick(p)));
        }
    }
    Ok(())
}

fn bracketed(n: usize, alpha: &[Ev], depth: usize, at: &mut Vec<Ev>, f: &mut impl FnMut(&[Ev]) -> R) -> R {
    if n < depth {
        return Ok(());
    }
    if n == 0 {
        return f(at);
    }
    for a in alpha {
        let d = match a {
            Begin(..) => depth + 1,
            End if depth == 0 => continue,
            End => depth - 1,
            _ => depth,
        };
        at.push(a.clone());
        bracketed(n - 1, alpha, d, at, f)?;
        at.pop();
    }
    Ok(())
}

fn feed(k: &mut Cov, evs: &[Ev], names: &[&str]) -> R {
    let mut scene = Scene::new();
    let mut p = Picker::new(&mut scene, names);
    play(evs, p.sink());
    let hits = p.finish();
    k.state(&format!("{evs:?}{names:?}"));
    judge(k, evs, names, &hits, &scene).map_err(|e| Fail { msg: e, data: json!({"events": evs.iter().map(|e| clip(&format!("{e:?}"), 200)).collect::<Vec<_>>(), "interactive": names}) })
}

pub fn x03(x: &mut X) {
    let red = || Brush::Solid(Color::from_rgb8(200, 10, 20));
    let draws = vec![
        Draw(None, Affine::translate((10.0, 0.0)), red(), Rect::new(0.0, 0.0, 8.0, 6.0).to_path(0.1)),
        Draw(Some(fixed::Stroke::new(2.0)), Affine::rotate(0.6) * Affine::scale(3.0), red(), Rect::new(1.0, 2.0, 5.0, 3.0).to_path(0.1)),
        Draw(None, Affine::translate((3.0, 2.0)), red(), kurbo::Circle::new((5.0, 5.0), 4.0).to_path(0.01)),
    ];
    let begins: Vec<Ev> = ["a", "b", "z"].iter().map(|n| Begin(n.to_string(), 0)).collect();
    x.family("all bracketed event sequences");
    let mut alpha = begins.clone();
    alpha.push(End);
    alpha.extend(draws.clone());
    for n in 0..=x.pick(6, 7) {
        for first in 0..alpha.len() {
            x.case(|k| {
                if n == 0 {
                    return Ok(());
                }
                let mut at = vec![alpha[first].clone()];
                let d = match at[0] {
                    Begin(..) => 1,
                    End => return Ok(()),
                    _ => 0,
                };
                bracketed(n - 1, &alpha, d, &mut at, &mut |e| {
                    feed(k, e, &["a", "b"])?;
                    if n < 5 {
                        for names in [&[] as &[&str], &["z"], &["a"], &["a", "b", "z", ""]] {
                            feed(k, e, names)?;
                        }
                    }
                    Ok(())
                })
            });
        }
    }
    x.family("deeper nesting, one layer name and one drawing");
    let small = vec![begins[0].clone(), begins[2].clone(), End, draws[0].clone(), draws[2].clone()];
    for n in 7..=x.pick(8, 10) {
        for first in 0..small.len() {
            x.case(|k| {
                let mut at = vec![small[first].clone()];
                let d = match at[0] {
                    Begin(..) => 1,
                    End => return Ok(()),
                    _ => 0,
                };
                bracketed(n - 1, &small, d, &mut at, &mut |e| feed(k, e, &["a"]))
            });
        }
    }
    x.family("layers and clips between drawings");
    let r = Rect::new(-50.0, -50.0, 900.0, 900.0).to_path(0.1);
    let pushes = [Layer(peniko::Mix::Multiply.into(), 0.5, Affine::scale(2.0), r.clone()), Clip(Affine::translate((1.0, 1.0)), r.clone()), Layer(peniko::Compose::SrcIn.into(), 1.0, Affine::IDENTITY, r)];
    for a in 0..3 {
        for b in 0..3 {
            for at in 0..6 {
                x.case(|k| {
                    let mut e = vec![begins[0].clone(), draws[0].clone(), begins[1].clone(), draws[1].clone(), End, End, draws[2].clone()];
                    e.insert(at, pushes[a].clone());
                    e.insert(at + 1, pushes[b].clone());
                    e.insert(e.len() - a, Pop);
                    e.push(Pop);
                    feed(k, &e, &["a", "b"])
                });
            }
        }
    }
    x.family("many layers");
    for n in [5_usize, 100, 1500, x.pick(3000, 20_000)] {
        for nest in [false, true] {
            x.case(|k| {
                let mut e = vec![];
                for i in 0..n {
                    e.push(Begin(if i % 3 == 0 { "z" } else { "a" }.into(), i));
                    e.push(Draw(None, Affine::translate((i as f64, 0.0)), red(), Rect::new(0.0, 0.0, 2.5, 2.0).to_path(0.1)));
                    if !nest {
                        e.push(End);
                    }
                }
                if nest {
                    e.extend(vec![End; n]);
                }
                feed(k, &e, &["a"])
            });
        }
    }
    x.family("documents played by the renderer");
    for (name, d) in corpus::docs() {
        x.case(|k| {
            let c: Composition = d.to_string().parse().map_err(|e| format!("{e:?}"))?;
            let top: Vec<String> = c.layers.iter().map(|l| l.name.clone()).collect();
            let inner: Vec<String> = c.assets.values().flatten().map(|l| l.name.clone()).collect();
            let sets: Vec<Vec<&str>> = vec![
                top.iter().map(String::as_str).collect(),
                inner.iter().map(String::as_str).collect(),
                top.iter().step_by(2).chain(inner.iter().step_by(2)).map(String::as_str).collect(),
            ];
            for f in corpus::few_frames() {
                let mut tape = Tape::default();
                Renderer::new().append(&c, f, Affine::IDENTITY, 1.0, &mut tape);
                // (comparing boxes of not quite numbers is idle)
                for names in &sets {
                    let mut scene = Scene::new();
                    let mut p = Picker::new(&mut scene, names);
                    Renderer::new().append(&c, f, Affine::IDENTITY, 1.0, p.sink());
                    let hits = p.finish();
                    k.state(&(name.clone(), f.to_bits(), names));
                    judge(k, &tape.0, names, &hits, &scene).map_err(|e| Fail { msg: format!("[{name}] at frame {f}: {e}"), data: json!({"document": d, "interactive": names}) })?;
                }
            }
            Ok(())
        });
    }
    let _ = doc::st;
    x.family("from the window to the scene");
    let cameras = [Affine::IDENTITY, Affine::translate((30.0, -20.0)), Affine::scale(0.25), Affine::rotate(1.0), Affine::translate((5.0, 6.0)) * Affine::rotate(-2.0) * Affine::scale(7.0)];
    for viewport in [(1044.0, 800.0), (800.0, 1044.0), (1.0, 3000.0), (512.0, 512.0)] {
        for resolution in [(512.0, 512.0), (100.0, 80.0), (1.0, 4000.0)] {
            for camera in cameras {
                x.case(|k| {
                    // how the viewer shows a fragment of that size
                    let show = camera * Affine::scale(f64::min(viewport.0 / resolution.0, viewport.1 / resolution.1));
                    for p in [(0.0, 0.0), (3.0, 77.0), (-20.0, 400.0), (512.0, 1.5)] {
                        let at = show * Point::new(p.0, p.1);
                        let q = to_scene(at.to_vec2(), viewport.into(), resolution.into(), camera);
                        k.step(1);
                        k.state(&format!("{viewport:?}{resolution:?}{camera:?}{p:?}"));
                        if q.distance(p.into()) > 1e-6 * (1.0 + Vec2::from(p).hypot()) {
                            return Err(format!("the scene's point {p:?} is shown at {at:?}, which is taken for {q:?}").into());
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
