//! X05: the list of scenes.
use crate::Scratch;
use crate::run::*;
use clap::{CommandFactory, Parser};
use kurbo::Affine;
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind};
use std::path::Path;

#[derive(Parser)]
struct Cli {
    #[command(flatten)]
    args: scenes::Arguments,
}

/// A document that can be told by its width.
fn document(w: usize) -> String {
    crate::doc::set(crate::doc::doc(vec![], vec![]), "w", json!(w)).to_string()
}

fn list(paths: &[String]) -> Result<Vec<(String, f64)>, String> {
    let mut a = vec!["x".to_string()];
    a.extend(paths.iter().cloned());
    let cli = Cli::try_parse_from(&a).map_err(|e| format!("arguments: {e}"))?;
    let set = cli.args.select_scene_set(Cli::command).map_err(|e| format!("{e:#}"))?.ok_or("no scenes")?;
    let mut text = scenes::RobotoText::new();
    Ok(set
        .scenes
        .into_iter()
        .map(|mut s| {
            let mut p = scenes::SceneParams {
                time: 0.0,
                interactive: false,
                text: &mut text,
                resolution: None,
                base_color: None,
                complexity: 0,
                cursor_position: None,
                viewport_size: None,
                camera_transform: Affine::IDENTITY,
            };
            s.function.render(&mut vello::Scene::new(), &mut p);
            (s.config.name, p.resolution.map_or(f64::NAN, |r| r.x))
        })
        .collect())
}

/// What may lie in a directory: (name, is a directory, label if listed).
const POOL: [(&str, bool, Option<&str>); 12] = [
    ("b.json", false, Some("b")),
    ("A.json", false, Some("A")),
    ("a2.json", false, Some("a2")),
    ("a10.json", false, Some("a10")),
    ("C.v1.json", false, Some("C.v1")),
    (".hidden.json", false, Some(".hidden")),
    ("\u{c9}t\u{e9}.json", false, Some("\u{c9}t\u{e9}")),
    ("x.JSON", false, None),
    ("notes.txt", false, None),
    (".json", false, None),
    ("json", false, None),
    ("sub.json", true, None),
];

fn fill(dir: &Path, subset: usize, order: bool, base: usize) -> Vec<(String, f64)> {
    std::fs::create_dir_all(dir).unwrap();
    let mut want = BTreeMap::new();
    let mut idx: Vec<usize> = (0..POOL.len()).collect();
    if order {
        idx.reverse();
    }
    for i in idx {
        if subset >> i & 1 == 0 {
            continue;
        }
        let (name, is_dir, label) = POOL[i];
        if is_dir {
            std::fs::create_dir(dir.join(name)).unwrap();
            std::fs::write(dir.join(name).join("inner.json"), document(1)).unwrap();
        } else {
            std::fs::write(dir.join(name), if label.is_some() { document(base + i) } else { "none of ours".into() }).unwrap();
        }
        if let Some(l) = label {
            want.insert(l.to_lowercase(), (l.to_string(), (base + i) as f64));
        }
    }
    want.into_values().collect()
}

fn judge(k: &mut Cov, what: &str, paths: &[String], want: &[(String, f64)]) -> R {
    // a directory inside a listed one that is named like a file
    let sub = paths.iter().find(|p| Path::new(p).join("sub.json").is_dir());
    let got = match catch_unwind(|| list(paths)) {
        Ok(g) => g,
        Err(e) => match sub {
            Some(p) if panic_text(&e).contains(&format!("{:?}: Is a directory", Path::new(p).join("sub.json"))) => {
                return k.as_found("a directory named like a file", &panic_text(&e), json!({"case": what}));
            }
            _ => resume_unwind(e),
        },
    };
    k.state(&what);
    k.trace();
    k.step(want.len());
    match got {
        Ok(g) if g == want => Ok(()),
        g => fail(format!("the list is {g:?}, expected {want:?}"), json!({"case": what})),
    }
}

pub fn x05(x: &mut X) {
    x.family("every content of a directory");
    let all = 1 << POOL.len();
    for chunk in 0..all / 16 {
        x.case(|k| {
            for subset in chunk * 16..chunk * 16 + 16 {
                let d = Scratch::new("ls");
                let p = d.0.join("d");
                let want = fill(&p, subset, subset % 2 == 1, 100);
                judge(k, &format!("{subset:#b}"), &[p.display().to_string()], &want)?;
            }
            Ok(())
        });
    }
    x.family("every list of paths");
    // two files, two directories, an empty one
    for n in 1..=x.pick(3_u32, 4) {
        for code in 0..6_usize.pow(n) {
            x.case(|k| {
                let d = Scratch::new("ls");
                let at = |s: &str| d.0.join(s).display().to_string();
                let one = fill(&d.0.join("one"), 0b1111_1111_1111, false, 100);
                let two = fill(&d.0.join("two.json"), 0b0000_1000_1101, true, 200);
                std::fs::create_dir(d.0.join("empty")).unwrap();
                std::fs::write(d.0.join("zebra.json"), document(300)).unwrap();
                std::fs::write(d.0.join("Ape"), document(301)).unwrap();
                std::fs::write(d.0.join("v1.2.lottie"), document(302)).unwrap();
                let (mut paths, mut want) = (vec![], vec![]);
                for i in 0..n {
                    match code / 6_usize.pow(i) % 6 {
                        0 => {
                            paths.push(at("zebra.json"));
                            want.push(("zebra".into(), 300.0));
                        }
                        1 => {
                            paths.push(at("Ape"));
                            want.push(("Ape".into(), 301.0));
                        }
                        2 => {
                            paths.push(at("v1.2.lottie"));
                            want.push(("v1.2".into(), 302.0));
                        }
                        3 => {
                            paths.push(at("one"));
                            want.extend(one.clone());
                        }
                        4 => {
                            paths.push(at("two.json"));
                            want.extend(two.clone());
                        }
                        _ => paths.push(at("empty")),
                    }
                }
                judge(k, &format!("{n} {code}"), &paths, &want)
            });
        }
    }
    x.family("many files");
    for n in [50, x.pick(300, 2000)] {
        x.case(|k| {
            let d = Scratch::new("ls");
            let mut want = vec![];
            for i in 0..n {
                let name = format!("{}{:04}", if i % 2 == 0 { "f" } else { "F" }, (i * 37) % 10_000);
                std::fs::write(d.0.join(format!("{name}.json")), document(i + 1)).unwrap();
                want.push((name, (i + 1) as f64));
            }
            want.sort_by_key(|w| w.0.to_lowercase());
            judge(k, &format!("{n} files"), &[d.0.display().to_string()], &want)
        });
    }
    x.family("a directory that is not there");
    x.case(|k| {
        let d = Scratch::new("ls");
        k.trace();
        let none = d.0.join("none").display().to_string();
        // there is no scene to list: an error or the end of the program, but no list
        match std::panic::catch_unwind(|| list(&[none])) {
            Ok(Ok(l)) => Err(format!("a list {l:?}").into()),
            _ => Ok(()),
        }
    });
}
