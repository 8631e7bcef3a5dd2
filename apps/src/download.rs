//! X04: downloads.
use crate::Scratch;
use crate::run::*;
use clap::{CommandFactory, Parser};
use serde_json::json;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Parser)]
struct Cli {
    #[command(flatten)]
    args: scenes::Arguments,
}

/// What the server does with one request for a body.
#[derive(Clone, Debug)]
struct Reply {
    status: u16,
    /// announced size; `None`: ends with the connection
    announced: Option<usize>,
    chunked: bool,
    body: Vec<u8>,
    /// chunked bodies: is the last chunk sent?
    ended: bool,
}
impl Reply {
    /// The body HTTP says was served, if it was served completely.
    fn served(&self) -> Option<&[u8]> {
        if self.status != 200 {
            return None;
        }
        if self.chunked {
            return self.ended.then_some(&self.body);
        }
        match self.announced {
            None => Some(&self.body),
            Some(n) if n <= self.body.len() => Some(&self.body[..n]),
            Some(_) => None,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut h = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", self.status).into_bytes();
        if self.chunked {
            h.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in self.body.chunks(3) {
                h.extend(format!("{:x}\r\n", c.len()).as_bytes());
                h.extend(c);
                h.extend(b"\r\n");
            }
            if self.ended {
                h.extend(b"0\r\n\r\n");
            }
        } else {
            if let Some(n) = self.announced {
                h.extend(format!("Content-Length: {n}\r\n").as_bytes());
            }
            h.extend(b"\r\n");
            h.extend(&self.body);
        }
        h
    }
}

/// Answers requests: `head` to HEAD, the n-th of `replies` (round) to GET.
struct Server {
    port: u16,
    stop: Arc<Mutex<bool>>,
    asked: Arc<Mutex<Vec<String>>>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Server {
    fn start(head: Option<usize>, replies: Vec<Reply>) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let stop = Arc::new(Mutex::new(false));
        let asked = Arc::new(Mutex::new(vec![]));
        let (stop2, asked2) = (stop.clone(), asked.clone());
        let thread = std::thread::spawn(move || {
            let mut served = 0;
            for s in l.incoming() {
                if *stop2.lock().unwrap() {
                    return;
                }
                let Ok(mut s) = s else { continue };
                let mut req = vec![];
                let mut b = [0; 1024];
                while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                    match s.read(&mut b) {
                        Ok(n) if n > 0 => req.extend(&b[..n]),
                        _ => break,
                    }
                }
                let line = String::from_utf8_lossy(&req).lines().next().unwrap_or("").to_string();
                let is_head = line.starts_with("HEAD");
                asked2.lock().unwrap().push(line);
                if is_head {
                    let n = head.map(|n| format!("Content-Length: {n}\r\n")).unwrap_or_default();
                    let _ = s.write_all(format!("HTTP/1.1 200 X\r\nConnection: close\r\n{n}\r\n").as_bytes());
                } else {
                    let r = &replies[served % replies.len()];
                    served += 1;
                    let _ = s.write_all(&r.bytes());
                }
                let _ = s.shutdown(std::net::Shutdown::Write);
                // let the other side take everything before the connection goes
                let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(20)));
                while matches!(s.read(&mut b), Ok(n) if n > 0) {}
            }
        });
        Server { port, stop, asked, thread: Some(thread) }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        *self.stop.lock().unwrap() = true;
        let _ = std::net::TcpStream::connect(("127.0.0.1", self.port));
        let _ = self.thread.take().unwrap().join();
    }
}

fn files(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(d)
        .unwrap()
        .map(|e| {
            let p = e.unwrap().path();
            (p.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default())
        })
        .collect();
    v.sort();
    v
}

fn run(dir: &Path, limit: usize, specs: &[String]) -> Result<(), String> {
    let mut a = vec!["x".to_string(), "download".into(), "--auto".into(), "--directory".into(), dir.display().to_string(), "--size-limit".into(), format!("{limit} B")];
    a.extend(specs.iter().cloned());
    let cli = Cli::try_parse_from(&a).map_err(|e| format!("arguments: {e}"))?;
    match cli.args.select_scene_set(Cli::command) {
        Ok(None) => Ok(()),
        Ok(Some(_)) => Err("scenes instead of downloads".into()),
        Err(e) => Err(format!("{e:#}")),
    }
}

fn bytes(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i * 7 + salt as usize) % 26) as u8).collect()
}

/// What the recorded findings may make of a download.
#[derive(Clone, Copy)]
enum Found<'a> {
    Nothing,
    /// this file may hold a part of these bytes after a failure
    Left(&'a str, &'a [u8]),
    /// the file may have this name instead
    Named(&'a str, &'a str),
}

/// Compares outcome and directory. `cut`: the bytes that came before a response
/// broke off exactly at the limit, if it did.
fn judge(k: &mut Cov, what: &str, got: Result<(), String>, dir: &Path, ok: bool, want: Vec<(String, Vec<u8>)>, found: Found, cut: Option<&[u8]>) -> R {
    let mut want = want;
    want.sort();
    k.state(&what);
    k.trace();
    let now = files(dir);
    let show = |v: &[(String, Vec<u8>)]| v.iter().map(|(n, b)| format!("{n} ({} bytes: {})", b.len(), clip(&String::from_utf8_lossy(b), 30))).collect::<Vec<_>>();
    match found {
        Found::Left(name, body) if got.is_err() && !ok && !want.iter().any(|w| w.0 == name) => {
            if let Some(i) = now.iter().position(|f| f.0 == name && body.starts_with(&f.1)) {
                let mut rest = now.clone();
                rest.remove(i);
                if rest == want {
                    return k.as_found("a failed download leaves a file", &format!("{:?} (outcome {got:?})", show(&now)), json!({"case": what}));
                }
            }
        }
        Found::Left(name, _) if got.is_ok() && !ok && !want.iter().any(|w| w.0 == name) => {
            if let Some(cut) = cut {
                want.push((name.to_string(), cut.to_vec()));
                want.sort();
                if now == want {
                    return k.as_found("a response breaks off at the limit", &format!("{:?}", show(&now)), json!({"case": what}));
                }
            }
        }
        Found::Named(name, other) if got.is_ok() && ok && name != other => {
            let mut alt = want.clone();
            for w in alt.iter_mut().filter(|w| w.0 == name) {
                w.0 = other.to_string();
            }
            alt.sort();
            if now == alt {
                return k.as_found("a name with a dot", &format!("{:?}", show(&now)), json!({"case": what}));
            }
        }
        _ => {}
    }
    if got.is_ok() != ok {
        return fail(format!("the outcome is {got:?}, expected {}", if ok { "success" } else { "an error" }), json!({"case": what, "directory": show(&now)}));
    }
    if now != want {
        return fail(format!("the directory holds {:?}, expected {:?} (outcome {got:?})", show(&now), show(&want)), json!({"case": what}));
    }
    Ok(())
}

fn single(k: &mut Cov, limit: usize, exact: Option<(usize, Option<usize>)>, r: &Reply, before: Option<&[u8]>) -> R {
    let d = Scratch::new("dl");
    let mut want = vec![("other.json".to_string(), b"other".to_vec())];
    std::fs::write(d.0.join("other.json"), b"other").unwrap();
    if let Some(b) = before {
        std::fs::write(d.0.join("it.json"), b).unwrap();
        want.push(("it.json".into(), b.to_vec()));
    }
    let s = Server::start(exact.and_then(|e| e.1), vec![r.clone()]);
    let url = format!("http://127.0.0.1:{}/it.json", s.port);
    let bound = exact.map_or(limit, |e| e.0);
    let got = match exact {
        None => run(&d.0, limit, &[url]),
        Some((size, _)) => scenes::download::probe::builtin("it", &url, size as u64, &d.0, limit as u64).map_err(|e| format!("{e:#}")),
    };
    k.step(s.asked.lock().unwrap().len());
    drop(s);
    let ok = before.is_none() && exact.is_none_or(|(size, head)| head.is_none_or(|h| h == size)) && r.served().is_some_and(|b| b.len() <= bound && exact.is_none_or(|e| b.len() == e.0));
    if ok {
        want.push(("it.json".into(), r.served().unwrap().to_vec()));
    }
    let cut = (r.status == 200 && r.served().is_none() && r.body.len() == bound).then_some(&r.body[..]);
    judge(k, &format!("limit {limit}, exact {exact:?}, before {before:?}, reply {r:?}"), got, &d.0, ok, want, Found::Left("it.json", &r.body[..r.body.len().min(bound)]), cut)
}

pub fn x04(x: &mut X) {
    let mut replies = vec![];
    let limit = 10;
    for n in 0..=limit + 3 {
        let body = bytes(n, 0);
        replies.push(Reply { status: 200, announced: None, chunked: false, body: body.clone(), ended: true });
        for ended in [true, false] {
            replies.push(Reply { status: 200, announced: None, chunked: true, body: body.clone(), ended });
        }
        for a in 0..=limit + 4 {
            replies.push(Reply { status: 200, announced: Some(a), chunked: false, body: body.clone(), ended: true });
        }
    }
    for status in [400, 404, 500] {
        replies.push(Reply { status, announced: Some(4), chunked: false, body: bytes(4, 1), ended: true });
    }
    x.family("every announced and served size around the limit");
    for r in &replies {
        x.case(|k| {
            single(k, limit, None, r, None)?;
            single(k, limit, None, r, Some(b"old"))
        });
    }
    x.family("a size known in advance");
    let full = x.tier_thorough;
    for r in replies.iter().filter(|r| full || r.body.len() >= 8 || r.body.len() < 2) {
        x.case(|k| {
            for head in [None, Some(limit), Some(limit - 1), Some(limit + 1)] {
                single(k, 3, Some((limit, head)), r, None)?;
            }
            single(k, 1000, Some((limit, Some(limit))), r, Some(b""))
        });
    }
    x.family("large bodies");
    for n in [8191, 8192, 8193, 65_536, 300_000] {
        for limit in [n - 1, n, n + 1, 10 * n] {
            for short in [0, 1, n / 2] {
                x.case(|k| {
                    for (chunked, announced) in [(true, None), (false, Some(n)), (false, None)] {
                        let r = Reply { status: 200, announced, chunked, body: bytes(n - short, 3), ended: short == 0 };
                        single(k, limit, None, &r, None)?;
                    }
                    Ok(())
                });
            }
        }
    }
    x.family("names");
    let good = Reply { status: 200, announced: Some(5), chunked: false, body: bytes(5, 9), ended: true };
    // (specification after the address, file)
    let names: Vec<(String, &str)> = vec![
        ("PRE/cat.json".into(), "cat.json"),
        ("PRE/cat".into(), "cat.json"),
        ("PRE/a/b/cat.json".into(), "cat.json"),
        ("PRE/v1.2.json".into(), "v1.2.json"),
        ("PRE/UP.json".into(), "UP.json"),
        ("dog@PRE/cat.json".into(), "dog.json"),
        ("dog@PRE/cat".into(), "dog.json"),
        ("dog@PRE/a/cat.json".into(), "dog.json"),
        ("two words@PRE/cat.json".into(), "two words.json"),
        ("h\u{e9}@PRE/cat.json".into(), "h\u{e9}.json"),
        ("v1.2@PRE/cat.json".into(), "v1.2.json"),
        ("a.b.c@PRE/cat.json".into(), "a.b.c.json"),
        ("Paw Prints@PRE/x@y.json".into(), "Paw Prints.json"),
    ];
    for (spec, file) in &names {
        x.case(|k| {
            let d = Scratch::new("dl");
            let s = Server::start(None, vec![good.clone()]);
            let got = run(&d.0, 10, &[spec.replace("PRE", &format!("http://127.0.0.1:{}", s.port))]);
            let path = spec.rsplit_once("PRE").unwrap().1;
            let asked = s.asked.lock().unwrap().clone();
            k.step(asked.len());
            if asked.iter().any(|a| !a.starts_with(&format!("GET {path} "))) {
                return Err(format!("asked for {asked:?}, expected {path}").into());
            }
            let other = Path::new(file.strip_suffix(".json").unwrap()).with_extension("json").display().to_string();
            judge(k, spec, got, &d.0, true, vec![(file.to_string(), good.body.clone())], Found::Named(file, &other), None)
        });
    }
    x.family("several downloads");
    let bad = Reply { body: bytes(4, 5), ..good.clone() };
    let over = Reply { announced: None, body: bytes(11, 5), ..good.clone() };
    let kinds = [good.clone(), bad, over];
    for n in 1..=3_u32 {
        for code in 0..3_usize.pow(n) {
            for taken in 0..(1 << n) {
                x.case(|k| {
                    let d = Scratch::new("dl");
                    let mut want = vec![];
                    for i in 0..n {
                        if taken >> i & 1 == 1 {
                            std::fs::write(d.0.join(format!("f{i}.json")), b"old").unwrap();
                            want.push((format!("f{i}.json"), b"old".to_vec()));
                        }
                    }
                    let pick: Vec<&Reply> = (0..n).map(|i| &kinds[code / 3_usize.pow(i) % 3]).collect();
                    // (no request is made for a file that is there)
                    let first = (0..n as usize).find(|i| taken >> i & 1 == 1 || pick[*i].served().is_none_or(|b| b.len() > 10));
                    let s = Server::start(None, pick.iter().copied().cloned().collect());
                    let specs: Vec<String> = (0..n).map(|i| format!("f{i}@http://127.0.0.1:{}/z", s.port)).collect();
                    let got = run(&d.0, 10, &specs);
                    k.step(s.asked.lock().unwrap().len());
                    for i in 0..first.unwrap_or(n as usize) {
                        want.push((format!("f{i}.json"), pick[i].body.clone()));
                    }
                    let name = format!("f{}.json", first.unwrap_or(9));
                    let found = match first {
                        Some(i) => Found::Left(&name, &pick[i].body[..pick[i].body.len().min(10)]),
                        None => Found::Nothing,
                    };
                    judge(k, &format!("{n} {code} {taken}"), got, &d.0, first.is_none(), want, found, None)
                });
            }
        }
    }
    x.family("nobody answers, nowhere to write");
    x.case(|k| {
        let d = Scratch::new("dl");
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let got = run(&d.0, 10, &[format!("http://127.0.0.1:{port}/a.json")]);
        judge(k, "refused", got, &d.0, false, vec![], Found::Left("a.json", b""), None)
    });
    x.case(|k| {
        let d = Scratch::new("dl");
        let s = Server::start(None, vec![good.clone()]);
        let got = run(&d.0.join("missing"), 10, &[format!("http://127.0.0.1:{}/a.json", s.port)]);
        judge(k, "no directory", got, &d.0, false, vec![], Found::Nothing, None)
    });
}
