//! Checks of the example programs (X01-X05).
#[path = "../../mc/src/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../../mc/src/doc.rs"]
#[allow(dead_code)]
mod doc;
mod download;
mod files;
#[path = "../gen/examples/with_winit/src/multi_touch.rs"]
#[allow(dead_code)]
mod multi_touch;
mod picking;
#[path = "../../mc/src/run.rs"]
#[allow(dead_code)]
mod run;
#[path = "../gen/examples/with_winit/src/stats.rs"]
#[allow(dead_code)]
mod stats;
mod statistics;
mod touch;

const STEP: &str = "Every case is a set of histories of one real object, enumerated completely over a fixed alphabet of actions up to the stated length; an executable model is stepped along and what the object reports is compared with the model's after every step. States are distinct model states, transitions steps compared, traces histories replayed against the implementation.";
const WEB: &str = "Every case is one pair of server behaviour and initial directory of a bounded space, enumerated completely; the real program downloads over a loopback connection from a scripted server into a scratch directory, and outcome and directory are compared with the model. States are distinct cases, transitions requests served, traces downloads.";
const DISK: &str = "Every case is one list of paths over one directory content of a bounded space, enumerated completely in a scratch directory; the real program builds its scene list, which is compared with the model entry by entry (label and document). States are distinct cases, transitions entries compared, traces scene lists built.";

fn find(id: &str) -> (run::Prop, &'static str) {
    match id {
        "X01" => (touch::x01, STEP),
        "X02" => (statistics::x02, STEP),
        "X03" => (picking::x03, STEP),
        "X04" => (download::x04, WEB),
        "X05" => (files::x05, DISK),
        _ => panic!("unknown property {id}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let code = match a.get(1).map(String::as_str) {
        Some("run") => run::parent(&a[2], &a[3], &root, find(&a[2]).1),
        Some("child") => run::child(&a[2], &a[3], n(4), n(5), n(6), None, a[7].as_ref(), find(&a[2]).0),
        Some("one") => run::child(&a[2], &a[3], 0, 1, 0, Some(n(4)), a[5].as_ref(), find(&a[2]).0),
        _ => {
            eprintln!("usage: apps run ID quick|thorough");
            2
        }
    };
    std::process::exit(code);
}

/// A directory of our own, removed at the end.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(what: &str) -> Self {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("apps-{what}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
