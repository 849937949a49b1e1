#[path = "../../common/vutil.rs"]
mod vutil;
mod at;
mod outcome;
mod pager;
mod places;
mod refs;
mod run;

use vutil::{Report, Tier};

fn main() {
    // What the programs inherit must not depend on who started the check (Python ignores SIGXFSZ, for one).
    unsafe {
        for s in (1..32).filter(|&s| ![libc::SIGPIPE, libc::SIGKILL, libc::SIGSTOP, libc::SIGSEGV, libc::SIGBUS].contains(&s)) {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut none: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
        libc::umask(0o022);
    }
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = if a.get(2).map(|x| x == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    std::panic::set_hook(Box::new(|i| {
        eprintln!("the checker failed: {}", i);
        run::cleanup();
        std::process::exit(2);
    }));
    unsafe { git2::opts::set_verify_owner_validation(false).unwrap() };
    let rep = Report::new(&id, tier, "exploration");
    match id.as_str() {
        "C22" => at::c22(&rep),
        "C23" => at::c23(&rep),
        "C24" => at::c24(&rep),
        "C25" => refs::c25(&rep),
        "C26" => refs::c26(&rep),
        "C30" => outcome::c30(&rep),
        "C28" => pager::c28(&rep),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    let rc = rep.finish();
    run::cleanup();
    std::process::exit(rc);
}
