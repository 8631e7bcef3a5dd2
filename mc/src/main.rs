mod alloc;
mod check;
mod corpus;
mod doc;
mod grammar;
mod props;
mod rec;
mod run;
mod spec;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let code = match a.get(1).map(String::as_str) {
        Some("run") => {
            let (_, note) = props::find(&a[2]);
            run::parent(&a[2], &a[3], &root, note)
        }
        Some("child") => run::child(&a[2], &a[3], n(4), n(5), n(6), None, a[7].as_ref(), props::find(&a[2]).0),
        Some("pristine") => props::hist::pristine(),
        Some("one") => run::child(&a[2], &a[3], 0, 1, 0, Some(n(4)), a[5].as_ref(), props::find(&a[2]).0),
        _ => {
            eprintln!("usage: mc run ID quick|thorough");
            2
        }
    };
    std::process::exit(code);
}
