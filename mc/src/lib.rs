pub mod bfs;
pub use mccore::{ck, elems, mon, point, rep, step, vio};
pub mod vc;
pub mod vd;

/// Command line of a worker: `<bin> --list` | `<bin> --job NAME [--note FILE] [--only CASE]`.
pub struct Args {
    pub list: bool,
    pub job: String,
    pub only: Option<String>,
    pub thorough: bool,
}
pub fn args() -> Args {
    let mut a = Args { list: false, job: String::new(), only: None, thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--list" => a.list = true,
            "--job" => a.job = it.next().unwrap(),
            "--only" => a.only = Some(it.next().unwrap()),
            "--note" => rep::note_init(&it.next().unwrap()),
            o => panic!("bad argument {}", o),
        }
    }
    // The buffers of the standard streams outlive every execution.
    let _ = (std::io::stdout(), std::io::stdin());
    rep::install_hook();
    a
}
