//! X02: frame statistics.
use crate::run::*;
use crate::stats::{Sample, Stats};
use serde_json::json;
use vello::{AaConfig, Scene};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Add(u64),
    Reset,
}
use Act::*;

#[derive(Default)]
struct Model {
    all: Vec<u64>,
    since: usize,
}

fn compare(s: &Stats, m: &Model) -> Result<(), String> {
    let window = &m.all[m.all.len().saturating_sub(100)..];
    let got: Vec<u64> = s.samples().copied().collect();
    if got != window {
        return Err(format!("samples {:?}, expected {:?}", clip(&format!("{got:?}"), 200), clip(&format!("{window:?}"), 200)));
    }
    let snap = s.snapshot();
    let same = |what: &str, a: f64, b: f64| if (a - b).abs() <= 1e-9 * b.abs() || a == b { Ok(()) } else { Err(format!("{what} is {a}, expected {b}")) };
    if !window.is_empty() {
        let mean = window.iter().map(|v| *v as f64).sum::<f64>() / window.len() as f64 / 1000.0;
        same("mean", snap.frame_time_ms, mean)?;
        same("frame rate", snap.fps, 1000.0 / mean)?;
    }
    let recent = &m.all[m.since..];
    if let (Some(lo), Some(hi)) = (recent.iter().min(), recent.iter().max()) {
        same("minimum", snap.frame_time_min_ms, *lo as f64 / 1000.0)?;
        same("maximum", snap.frame_time_max_ms, *hi as f64 / 1000.0)?;
    }
    Ok(())
}

/// The overlay can be drawn, with finite coordinates.
fn draw(k: &mut Cov, s: &Stats, m: &Model, text: &mut scenes::RobotoText, w: f64, h: f64) -> Result<(), String> {
    let mut scene = Scene::new();
    let window = &m.all[m.all.len().saturating_sub(100)..];
    let mean = window.iter().map(|v| *v as f64).sum::<f64>() / window.len() as f64 / 1000.0;
    let peak = m.all[m.since..].iter().max().map_or(0.0, |v| *v as f64 / 1000.0);
    let drawn = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.snapshot().draw_layer(&mut scene, text, w, h, s.samples(), None, true, AaConfig::Area)));
    if let Err(p) = drawn {
        let t = format!("drawing panics: {} at {}", panic_text(&p), last_panic());
        // the scale is rounded up from less than a millisecond
        if peak > 3.0 * mean && 1.33334 * mean < 1.0 && last_panic().contains("stats.rs") {
            return k.as_found("all frames but a spike under a millisecond", &t, json!(window)).map_err(|e| e.msg);
        }
        return Err(t);
    }
    let e = scene.encoding();
    let n = s.samples().count() as u32;
    if e.n_paths < n {
        return Err(format!("{n} samples, {} paths", e.n_paths));
    }
    for t in &e.transforms {
        if t.matrix.iter().chain(&t.translation).any(|v| !v.is_finite()) {
            let t = format!("the overlay has a transform that is not finite: {t:?}");
            if peak == 0.0 {
                return k.as_found("nothing recorded since the reset", &t, json!(window)).map_err(|e| e.msg);
            }
            return Err(t);
        }
    }
    Ok(())
}

fn run(k: &mut Cov, h: impl Iterator<Item = Act>, from: usize, text: Option<&mut scenes::RobotoText>) -> R {
    let (mut s, mut m) = (Stats::new(), Model::default());
    let mut path = vec![];
    let mut text = text;
    for (i, a) in h.enumerate() {
        path.push(a);
        match a {
            Add(v) => {
                s.add_sample(Sample { frame_time_us: v });
                m.all.push(v);
            }
            Reset => {
                s.clear_min_and_max();
                m.since = m.all.len();
            }
        }
        if i >= from {
            k.step(1);
            let r = compare(&s, &m).and_then(|()| match &mut text {
                Some(t) => draw(k, &s, &m, t, 800.0, 600.0),
                None => Ok(()),
            });
            if let Err(e) = r {
                return fail(format!("after {} steps: {e}", i + 1), json!({"history": path.iter().rev().take(400).rev().map(|a| format!("{a:?}")).collect::<Vec<_>>()}));
            }
        }
    }
    k.state(&format!("{path:?}"));
    k.trace();
    Ok(())
}

/// All sequences of exactly `n` actions.
fn sequences(alpha: &[Act], n: usize) -> impl Iterator<Item = Vec<Act>> + '_ {
    (0..alpha.len().pow(n as u32)).map(move |mut i| {
        (0..n)
            .map(|_| {
                let a = alpha[i % alpha.len()];
                i /= alpha.len();
                a
            })
            .collect()
    })
}

pub fn x02(x: &mut X) {
    let alpha = [Add(1), Add(700), Add(16_667), Add(40_000_000), Reset];
    x.family("all short histories");
    for n in 0..=x.pick(6, 8) {
        for first in 0..alpha.len() {
            x.case(|k| {
                for mut h in sequences(&alpha, n) {
                    h.insert(0, alpha[first]);
                    run(k, h.into_iter(), 0, None)?;
                }
                Ok(())
            });
        }
    }
    x.family("every number of samples, then all short histories");
    for n in 0..=x.pick(230_usize, 460) {
        for kind in 0..3_u64 {
            x.case(|k| {
                for h in sequences(&alpha, x_len(kind)) {
                    let prefix = (0..n).map(|i| match kind {
                        0 => Add((i as u64 * 7919) % 50_000 + 1),
                        1 => Add(1_000_000_000 >> (i % 30)),
                        _ if i % 17 == 16 => Reset,
                        _ => Add(100 + i as u64),
                    });
                    run(k, prefix.chain(h), n.saturating_sub(1), None)?;
                }
                Ok(())
            });
        }
    }
    x.family("long histories, compared throughout");
    for period in [1_u64, 2, 3, 7, 99, 100, 101, 250] {
        for every in [0_usize, 1, 2, 50, 100, 101, 333] {
            x.case(|k| {
                let h = (0..2000).map(|i| if every > 0 && i % (every + 1) == every { Reset } else { Add((i as u64 % period) * 1234 + 1) });
                run(k, h, 0, None)
            });
        }
    }
    x.family("the overlay");
    for n in 0..=x.pick(4, 5) {
        for first in [Add(0), Add(1), Add(300), Add(16_667), Add(900_000), Reset] {
            x.case(|k| {
                let mut text = scenes::RobotoText::new();
                for mut h in sequences(&[Add(0), Add(1), Add(300), Add(16_667), Add(900_000), Reset], n) {
                    h.insert(0, first);
                    let from = h.len() - 1;
                    run(k, h.into_iter(), from, Some(&mut text))?;
                }
                Ok(())
            });
        }
    }
    for (w, h) in [(0.0, 0.0), (1.0, 1.0), (200.0, 100.0), (800.0, 600.0), (10_000.0, 1.0)] {
        for n in [0, 1, 99, 100, 101, 300] {
            x.case(|k| {
                let (mut s, mut m) = (Stats::new(), Model::default());
                for i in 0..n {
                    s.add_sample(Sample { frame_time_us: i * 97 % 40_000 + 1 });
                    m.all.push(i * 97 % 40_000 + 1);
                }
                k.step(1);
                k.state(&format!("{w} {h} {n}"));
                Ok(draw(k, &s, &m, &mut scenes::RobotoText::new(), w, h)?)
            });
        }
    }
}
fn x_len(kind: u64) -> usize {
    if kind == 0 { 3 } else { 2 }
}
