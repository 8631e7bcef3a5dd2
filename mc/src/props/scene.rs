//! The vello back end (C23).
use crate::check::*;
use crate::corpus::{self, few_frames};
use crate::doc::*;
use crate::rec::*;
use crate::run::*;
use kurbo::{Affine, Rect};
use peniko::{Color, Fill, Mix};
use vello::Scene;
use velato::{Composition, Renderer};

/// Issues the recorded calls through vello's own interface.
fn replay(ops: &[Op], s: &mut Scene) {
    for o in ops {
        match o {
            Op::Layer { blend, alpha, t, path } => s.push_layer(Fill::NonZero, *blend, *alpha, *t, &path.as_slice()),
            Op::Clip { t, path, .. } => s.push_clip_layer(Fill::NonZero, *t, &path.as_slice()),
            Op::Pop => s.pop_layer(),
            Op::Draw { stroke: None, t, brush, path, .. } => s.fill(Fill::NonZero, *t, brush, None, &path.as_slice()),
            Op::Draw { stroke: Some(k), t, brush, path, .. } => s.stroke(k, *t, brush, None, &path.as_slice()),
            Op::Begin(..) | Op::End => {}
        }
    }
}

fn same(a: &Scene, b: &Scene) -> Result<usize, String> {
    let (a, b) = (a.encoding(), b.encoding());
    let first = |what: &str, x: Vec<String>, y: Vec<String>| -> Result<(), String> {
        if x == y {
            return Ok(());
        }
        let i = (0..x.len().min(y.len())).find(|i| x[*i] != y[*i]).unwrap_or(x.len().min(y.len()));
        Err(format!("{what} {i} of {}: {:?}, expected {:?} of {}", x.len(), x.get(i), y.get(i), y.len()))
    };
    macro_rules! stream {
        ($($f:ident).+) => {
            stream!($($f).+ => |v| format!("{v:?}"))
        };
        ($($f:ident).+ => $show:expr) => {
            first(stringify!($($f).+), a.$($f).+.iter().map($show).collect(), b.$($f).+.iter().map($show).collect())?
        };
    }
    if a.draw_tags != b.draw_tags {
        stream!(draw_tags => |v| format!("{:#x}", v.0));
    }
    if a.path_tags != b.path_tags {
        stream!(path_tags => |v| format!("{:#x}", v.0));
    }
    if a.path_data != b.path_data {
        stream!(path_data);
    }
    if a.draw_data != b.draw_data {
        stream!(draw_data);
    }
    if a.transforms != b.transforms {
        stream!(transforms);
    }
    if a.styles != b.styles {
        stream!(styles);
    }
    if a.resources.color_stops != b.resources.color_stops {
        stream!(resources.color_stops);
    }
    let patches = |e: &vello_encoding::Encoding| -> Vec<String> {
        e.resources
            .patches
            .iter()
            .map(|p| match p {
                vello_encoding::Patch::Ramp { draw_data_offset, stops, extend } => format!("ramp {draw_data_offset} {stops:?} {extend:?}"),
                vello_encoding::Patch::GlyphRun { index } => format!("glyphs {index}"),
                vello_encoding::Patch::Image { draw_data_offset, .. } => format!("image {draw_data_offset}"),
            })
            .collect()
    };
    first("patch", patches(a), patches(b))?;
    let rest = |e: &vello_encoding::Encoding| vec![e.n_paths, e.n_path_segments, e.n_clips, e.n_open_clips, e.flags, e.resources.glyphs.len() as u32, e.resources.glyph_runs.len() as u32].iter().map(u32::to_string).collect::<Vec<_>>();
    first("counter", rest(a), rest(b))?;
    Ok(a.draw_tags.len() + a.path_tags.len())
}

/// What the scene may hold before rendering is appended to it.
fn before(n: usize) -> Scene {
    let mut s = Scene::new();
    match n {
        0 => {}
        1 => {
            s.fill(Fill::EvenOdd, Affine::translate((3.0, 4.0)), Color::from_rgb8(9, 8, 7), None, &Rect::new(0.0, 0.0, 5.0, 6.0));
            s.stroke(&kurbo::Stroke::new(3.0), Affine::scale(2.0), Color::from_rgb8(1, 2, 3), None, &Rect::new(1.0, 1.0, 2.0, 2.0));
        }
        _ => {
            s.push_layer(Fill::EvenOdd, Mix::Multiply, 0.25, Affine::rotate(0.5), &Rect::new(0.0, 0.0, 50.0, 60.0));
            s.fill(Fill::NonZero, Affine::IDENTITY, Color::from_rgb8(9, 8, 7), None, &Rect::new(0.0, 0.0, 5.0, 6.0));
        }
    }
    s
}
fn after(n: usize, s: &mut Scene) {
    if n == 2 {
        s.pop_layer();
    }
    if n > 0 {
        s.fill(Fill::NonZero, Affine::IDENTITY, Color::from_rgb8(7, 7, 7), None, &Rect::new(0.0, 0.0, 1.0, 2.0));
    }
}

fn encodes(k: &mut Cov, d: &Value, c: &Composition, r: &mut Renderer, f: f64, t: Affine, a: f64) -> R {
    let ops = render_at(&mut Renderer::new(), c, f, t, a);
    let bad = |what: &str, e: String| -> R {
        fail(format!("frame {f}: {what}: {e}"), json!({"doc": d, "frame": f, "transform": t.as_coeffs(), "opacity": a, "calls": dump(&ops)}))
    };
    let mut want = Scene::new();
    replay(&ops, &mut want);
    match same(&r.render_to_vello_scene(c, f, t, a), &want) {
        Ok(n) => k.step(n),
        Err(e) => return bad("new scene", e),
    }
    for n in 0..3 {
        let (mut got, mut want) = (before(n), before(n));
        r.append(c, f, t, a, &mut got);
        replay(&ops, &mut want);
        after(n, &mut got);
        after(n, &mut want);
        match same(&got, &want) {
            Ok(n) => k.step(n),
            Err(e) => return bad(&format!("appended to a scene ({n})"), e),
        }
    }
    // two renders in one scene
    let (mut got, mut want) = (Scene::new(), Scene::new());
    for _ in 0..2 {
        r.append(c, f, t, a, &mut got);
        replay(&ops, &mut want);
    }
    if let Err(e) = same(&got, &want) {
        return bad("rendered twice into one scene", e);
    }
    k.state(&(d.to_string(), f.to_bits(), a.to_bits(), t.as_coeffs().map(f64::to_bits)));
    k.trace();
    Ok(())
}
fn encodes_doc(k: &mut Cov, d: &Value, frames: &[f64], places: &[(Affine, f64)]) -> R {
    let c = parse(d)?;
    let mut r = Renderer::new();
    for &f in frames {
        for &(t, a) in places {
            encodes(k, d, &c, &mut r, f, t, a)?;
        }
    }
    Ok(())
}

pub fn c23(x: &mut X) {
    let places = vec![
        (Affine::IDENTITY, 1.0),
        (Affine::new([0.0, 2.0, -1.0, 0.5, 10.0, -3.0]), 0.5),
        (Affine::new([-1.0, 0.0, 0.25, 3.0, 0.0, 7.0]), 0.0),
        (Affine::scale(0.0), 0.999),
    ];
    x.family("corpus");
    let mut all = corpus::docs();
    all.extend(super::hist::small().into_iter().map(|(n, d)| (n.to_string(), d)));
    for (name, d) in &all {
        for f in x.pick(few_frames(), corpus::frames()) {
            x.sample(|| json!({"document": name, "frame": f}));
            x.case(|k| encodes_doc(k, d, &[f], &places).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
            x.case(|k| encodes_doc(k, &nest(d), &[f], &places[..2]).map_err(|mut e| { e.msg = format!("[{name} nested] {}", e.msg); e }));
        }
    }
    x.family("sample animations");
    for (name, d) in corpus::assets() {
        for f in few_frames() {
            x.case(|k| encodes_doc(k, &d, &[f], &places[1..2]).map_err(|mut e| { e.msg = format!("[{name}] {}", e.msg); e }));
        }
    }
    x.family("every shape tree");
    {
        use super::shapes::{T, forests, items};
        forests(&[T::Rect, T::Poly, T::Fill, T::Stroke, T::Trim], &[0, 1], x.pick(5, 6), &mut |tree| {
            x.case(|k| encodes_doc(k, &doc(vec![set(shape(1, items(tree)), "ks", super::layers::odd_ks(1))], vec![]), &[3.0], &places[..2]));
        });
    }
    x.family("paints");
    let stops = json!([0, 1, 0, 0, 0.5, 0, 1, 0, 1, 0, 0, 1]);
    product(&[6, 3, 3, 4, 3], |c| {
        let make = || {
            let mut p = match c[0] {
                0 => fill(0.25, 0.5, 0.75),
                1 => stroke(0.25, 0.5, 0.75, 3.0),
                2 => gfill(false, 3, stops.clone()),
                3 => gfill(true, 3, stops.clone()),
                4 => gstroke(false, 3, stops.clone()),
                _ => gstroke(true, 3, stops.clone()),
            };
            if matches!(c[0], 1 | 4 | 5) {
                p["lc"] = json!(c[1] + 1);
                p["lj"] = json!(c[2] + 1);
                p["ml"] = json!([1.0, 4.0, 7.5, 0.0][c[3]]);
                p["w"] = st(json!([0.0, 1.0, 2.5, 100.0][c[3]]));
            }
            p["o"] = st(json!([100.0, 50.0, 0.0, 12.5][c[3]]));
            let g = match c[4] {
                0 => vec![rect(1.0, 2.0, 10.0, 20.0), p],
                1 => vec![path(corpus::curve(false)), ell(1.0, 2.0, 3.0, 4.0), p],
                _ => vec![rect(0.0, 0.0, 0.0, 0.0), path(poly(&[], true)), p, rect(5.0, 5.0, 5.0, 5.0)],
            };
            doc(vec![shape(1, g)], vec![])
        };
        x.sample(|| json!(make()));
        x.case(|k| encodes_doc(k, &make(), &[0.0], &places));
    });
    x.family("mattes and masks");
    product(&[5, 5, 3, 3, 2], |c| {
        let make = || {
            let mut ls = vec![set(marked(1, 1), "td", json!(1)), marked(2, 2), set(marked(3, 3), "td", json!(1)), inst(4, "a")];
            ls[0]["ks"] = corpus::ks_anim();
            for (i, tt) in [(1, c[0]), (3, c[1])] {
                if tt > 0 {
                    ls[i]["tt"] = json!(tt);
                }
            }
            for (i, n) in [(0, c[2]), (3, c[3])] {
                if n > 0 {
                    ls[i]["masksProperties"] = json!([mask(corpus::path_anim(true)), mask(st(poly(&[], true)))][..n].to_vec());
                }
            }
            if c[4] == 1 {
                ls[2]["hd"] = json!(true);
                ls[1]["hd"] = json!(true);
            }
            doc(ls, vec![asset("a", vec![marked(1, 5), set(marked(2, 4), "tt", json!(2))])])
        };
        x.case(|k| encodes_doc(k, &make(), &[7.0], &places[..2]));
    });
}
