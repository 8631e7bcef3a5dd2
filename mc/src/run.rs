//! The exploration driver. A property is a function that walks a finite space
//! of cases in a fixed order; eight worker processes each execute the cases of
//! one residue class, so that a crash, hang or memory blow-up of the code under
//! test is observed from outside and attributed to one case.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub struct Fail {
    pub msg: String,
    pub data: Value,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, data: Value::Null }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        msg.to_string().into()
    }
}
pub type R = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>, data: Value) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), data })
}

/// What one worker has covered.
#[derive(Default)]
pub struct Cov {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub counts: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Value>,
    /// keys of the recorded findings
    known: Vec<String>,
    /// findings met again by the current case
    met: Vec<(String, Fail)>,
}
impl Cov {
    /// Something went wrong just the way a finding says: the walk goes on if
    /// that finding is recorded.
    #[allow(dead_code)]
    pub fn as_found(&mut self, key: &str, msg: &str, data: Value) -> R {
        let tag = format!("[{key}]");
        let f = Fail { msg: format!("{tag} {msg}"), data };
        if !self.known.contains(&tag) {
            return Err(f);
        }
        if !self.met.iter().any(|m| m.0 == tag) {
            self.met.push((tag, f));
        }
        Ok(())
    }
    pub fn state(&mut self, h: &impl Hash) {
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish());
    }
    pub fn step(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
}

pub struct X {
    pub tier_thorough: bool,
    shard: u64,
    of: u64,
    from: u64,
    only: Option<u64>,
    idx: u64,
    executed: u64,
    dir: PathBuf,
    progress: Option<std::fs::File>,
    pub cov: Cov,
    fails: Vec<(u64, String, Fail)>,
    family: String,
    known: Vec<String>,
    listed: HashMap<String, (u64, String, Fail)>,
    excused: u64,
}

/// The value, as text if it nests deeper than can be read back.
fn shallow(v: &Value) -> Value {
    match serde_json::from_str::<Value>(&format!("{}{v}{}", "[".repeat(8), "]".repeat(8))) {
        Ok(_) => v.clone(),
        Err(_) => json!(v.to_string()),
    }
}
/// Keys of the findings recorded for a property.
fn known_keys(root: &Path, id: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(root.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let r = l.strip_prefix(&format!("finding: property={id} "))?;
            let (k, text) = r.split_once(" :: ")?;
            (!k.is_empty()).then(|| (k.to_string(), text.to_string()))
        })
        .collect()
}

impl X {
    /// Starts a named family of cases (for the coverage report).
    pub fn family(&mut self, name: &str) {
        self.family = name.to_string();
    }
    /// Every size up to a bound, then sizes around round numbers up to `cap`.
    pub fn sizes(&self, from: u64, quick: u64, thorough: u64, cap: u64) -> Vec<u64> {
        let end = self.pick(quick, thorough);
        let cap = self.pick(cap, cap * 4);
        let mut v: Vec<u64> = (from..end).collect();
        for n in [32, 64, 100, 128, 200, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 40000, 65536, 70000] {
            v.extend([n - 1, n, n + 1].iter().filter(|m| **m >= end && **m <= cap));
        }
        v
    }
    /// Picks by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.tier_thorough { thorough } else { quick }
    }
    /// One case of the walk; runs only in the worker that owns it.
    pub fn case(&mut self, f: impl FnOnce(&mut Cov) -> R) {
        let i = self.idx;
        self.idx += 1;
        match self.only {
            Some(o) if o != i => return,
            None if i % self.of != self.shard || i < self.from || self.fails.len() >= 5 => return,
            _ => {}
        }
        if let Some(p) = &self.progress {
            use std::os::unix::fs::FileExt;
            let _ = p.write_all_at(&i.to_le_bytes(), 0);
        }
        let cov = &mut self.cov;
        let r = catch_unwind(AssertUnwindSafe(|| f(cov)));
        self.executed += 1;
        for (tag, e) in self.cov.met.drain(..) {
            self.excused += 1;
            self.listed.entry(tag).or_insert((i, self.family.clone(), e));
        }
        *self.cov.counts.entry(self.family.clone()).or_default() += 1;
        let e = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => Fail {
                msg: format!("panic: {}", panic_text(&p)),
                data: json!({"at": last_panic()}),
            },
        };
        if let Some(k) = self.known.iter().find(|k| e.msg.contains(k.as_str())) {
            self.excused += 1;
            let fam = self.family.clone();
            self.listed.entry(k.clone()).or_insert((i, fam, e));
            return;
        }
        self.fails.push((i, self.family.clone(), e));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.cov.samples.len() < 40 && !self.cov.samples.contains_key(&self.family) {
            self.cov.samples.insert(self.family.clone(), v());
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

thread_local!(static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let t = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = t);
    }));
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit {
        rlim_cur: bytes,
        rlim_max: bytes,
    };
    unsafe {
        // threads must not reserve address space of their own
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

pub type Prop = fn(&mut X);

pub fn child(id: &str, tier: &str, shard: u64, of: u64, from: u64, only: Option<u64>, dir: &Path, prop: Prop) -> i32 {
    limit_memory(3 << 30);
    quiet_panics();
    let name = match only {
        Some(o) => format!("one{o}"),
        None => format!("s{shard}"),
    };
    let mut x = X {
        tier_thorough: tier == "thorough",
        shard,
        of,
        from,
        only,
        idx: 0,
        executed: 0,
        dir: dir.to_path_buf(),
        progress: std::fs::File::create(dir.join(format!("{name}.pos"))).ok(),
        cov: Cov::default(),
        fails: vec![],
        family: "all".into(),
        known: known_keys(Path::new(&std::env::var("VERIF_ROOT").unwrap_or("/verif".into())), id)
            .into_iter()
            .map(|k| k.0)
            .collect(),
        listed: HashMap::new(),
        excused: 0,
    };
    x.cov.known = x.known.clone();
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| prop(&mut x))) {
        eprintln!("outside a case, after {}: panic: {} at {}", x.idx, panic_text(&p), last_panic());
        return 101;
    }
    if x.only.is_some_and(|o| o >= x.idx) {
        eprintln!("no case {}", x.only.unwrap());
    }
    let fails: Vec<Value> = x
        .fails
        .iter()
        .chain(x.listed.values())
        .map(|(i, fam, f)| json!({"property": id, "tier": tier, "case": i, "family": fam, "what": f.msg, "data": shallow(&f.data)}))
        .collect();
    let mut bytes = Vec::with_capacity(x.cov.states.len() * 8);
    for s in &x.cov.states {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(x.dir.join(format!("{name}.states")), bytes).unwrap();
    let out = json!({
        "cases": x.idx, "executed": x.executed, "transitions": x.cov.transitions, "traces": x.cov.traces,
        "counts": x.cov.counts, "samples": x.cov.samples, "fails": fails, "excused": x.excused,
    });
    std::fs::write(x.dir.join(format!("{name}.json")), serde_json::to_vec(&out).unwrap()).unwrap();
    0
}

struct Worker {
    shard: u64,
    child: Child,
    last: u64,
    since: Instant,
    restarts: u32,
}

fn pos(dir: &Path, name: &str) -> u64 {
    std::fs::read(dir.join(format!("{name}.pos")))
        .ok()
        .and_then(|b| b.try_into().ok().map(u64::from_le_bytes))
        .unwrap_or(u64::MAX)
}

pub fn parent(id: &str, tier: &str, root: &Path, level_note: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let of = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 8) as u64;
    let hang = Duration::from_secs(40);
    let spawn = |shard: u64, from: u64| -> Child {
        Command::new(&exe)
            .args(["child", id, tier, &shard.to_string(), &of.to_string(), &from.to_string()])
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.join(format!("s{shard}.err"))).map_or(Stdio::null(), Stdio::from))
            .spawn()
            .expect("spawn worker")
    };
    let mut live: Vec<Worker> = (0..of)
        .map(|s| Worker {
            shard: s,
            child: spawn(s, 0),
            last: u64::MAX,
            since: Instant::now(),
            restarts: 0,
        })
        .collect();
    let mut fails: Vec<Value> = vec![];
    let mut broken: Option<String> = None;
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut i = 0;
        while i < live.len() {
            let w = &mut live[i];
            let name = format!("s{}", w.shard);
            let at = pos(&dir, &name);
            if at != w.last {
                w.last = at;
                w.since = Instant::now();
            }
            let status = w.child.try_wait().expect("wait");
            let hung = status.is_none() && w.since.elapsed() > hang;
            if hung {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            match status {
                Some(s) if s.success() => {
                    live.swap_remove(i);
                    continue;
                }
                None if !hung => {
                    i += 1;
                    continue;
                }
                _ => {}
            }
            // A worker died or stopped making progress: replay that one case.
            let err = std::fs::read_to_string(dir.join(format!("{name}.err"))).unwrap_or_default();
            let err = err.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").trim().to_string();
            let how = match &status {
                Some(s) => format!("process ended abnormally ({s}) {}", clip(&err, 300)),
                None => "no answer".to_string(),
            };
            let mut confirmed = false;
            if at != u64::MAX {
                let mut c = Command::new(&exe)
                    .args(["one", id, tier, &at.to_string()])
                    .arg(&dir)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                let start = Instant::now();
                loop {
                    match c.try_wait().unwrap() {
                        Some(s) => {
                            confirmed = !s.success();
                            break;
                        }
                        None if start.elapsed() > hang => {
                            let _ = c.kill();
                            let _ = c.wait();
                            confirmed = true;
                            break;
                        }
                        None => std::thread::sleep(Duration::from_millis(20)),
                    }
                }
            }
            if confirmed {
                fails.push(json!({"property": id, "tier": tier, "case": at, "family": "crash",
                    "what": format!("{how}, reproduced on its own"), "data": null}));
                live.swap_remove(i);
                continue;
            }
            if w.restarts >= 2 {
                broken = Some(format!("worker {} at case {at}: {how}, not reproducible", w.shard));
                live.swap_remove(i);
                continue;
            }
            let (shard, restarts) = (w.shard, w.restarts + 1);
            live[i] = Worker {
                shard,
                child: spawn(shard, if at == u64::MAX { 0 } else { at }),
                last: u64::MAX,
                since: Instant::now(),
                restarts,
            };
            i += 1;
        }
        if !fails.is_empty() {
            for w in &mut live {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            live.clear();
        }
    }
    // merge
    let mut states: HashSet<u64> = HashSet::new();
    let (mut cases, mut executed, mut transitions, mut traces, mut excused) = (0, 0, 0, 0, 0);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, Value> = BTreeMap::new();
    for s in 0..of {
        if let Ok(b) = std::fs::read(dir.join(format!("s{s}.states"))) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let Ok(b) = std::fs::read(dir.join(format!("s{s}.json"))) else {
            continue;
        };
        let v: Value = serde_json::from_slice(&b).unwrap();
        cases = cases.max(v["cases"].as_u64().unwrap());
        executed += v["executed"].as_u64().unwrap();
        transitions += v["transitions"].as_u64().unwrap();
        traces += v["traces"].as_u64().unwrap();
        excused += v["excused"].as_u64().unwrap();
        for (k, n) in v["counts"].as_object().unwrap() {
            *counts.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        for (k, n) in v["samples"].as_object().unwrap() {
            samples.entry(k.clone()).or_insert(n.clone());
        }
        fails.extend(v["fails"].as_array().unwrap().iter().cloned());
    }
    let _ = std::fs::remove_dir_all(&dir);
    fails.sort_by_key(|f| f["case"].as_u64());
    // findings recorded but not repaired
    let known = known_keys(root, id);
    let mut violations = 0;
    let replays = root.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let mut said: HashSet<String> = HashSet::new();
    for f in &fails {
        let what = f["what"].as_str().unwrap_or("");
        if let Some((_, text)) = known.iter().find(|(k, _)| what.contains(k.as_str())) {
            if said.insert(text.clone()) {
                println!("KNOWN-FINDING: property={id} {text}");
            }
            continue;
        }
        violations += 1;
        if violations <= 3 {
            let p = replays.join(format!("{id}-{}.json", f["case"]));
            let mut file = std::fs::File::create(&p).unwrap();
            let _ = file.write_all(&serde_json::to_vec_pretty(f).unwrap());
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  case {} ({}): {}", f["case"], f["family"].as_str().unwrap_or(""), clip(what, 600));
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let complete = violations == 0 && broken.is_none() && executed == cases;
    let evidence = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states.len(), "transitions": transitions, "traces_validated_against_impl": traces,
            "evaluations": executed, "cases_per_family": counts, "cases_with_known_findings": excused,
            "samples": samples.into_iter().map(|(k, v)| json!({"family": k, "case": v})).collect::<Vec<_>>(),
            "exhaustive": complete,
            "explanation": level_note,
        },
        "violations": violations,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{id}.json")), serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    println!(
        "{id} {tier}: {executed}/{cases} cases, {} states, {transitions} transitions, {traces} traces, {violations} violations, {:.1} s",
        states.len(),
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        return 1;
    }
    if let Some(b) = broken {
        println!("check could not be completed: {b}");
        return 2;
    }
    if !complete {
        println!("check did not cover its space: {executed} of {cases}");
        return 2;
    }
    0
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}
