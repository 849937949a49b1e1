#[path = "../../common/vutil.rs"]
mod vutil;
mod conc;
mod ends;
mod explore;
mod fault;
mod link;
mod many;
mod model;
mod place;
mod proto;
mod seq;
mod seq2;
mod tracer;
mod world;

use vutil::{Report, Tier};

fn main() {
    // What the programs inherit must not depend on who started the check (Python ignores SIGXFSZ, for one).
    unsafe {
        for s in (1..32).filter(|&s| ![libc::SIGPIPE, libc::SIGKILL, libc::SIGSTOP, libc::SIGSEGV, libc::SIGBUS].contains(&s)) {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut none: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
        libc::umask(0o022);
    }
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = if a.get(2).map(|x| x == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    let level = match id.as_str() {
        "C09" | "C12" | "C13" | "C16" | "C17" | "C20" => "model_checking",
        "C14" => "fault_enumeration",
        _ => "exploration",
    };
    // A fault of the checker itself means no answer; it must not leave threads waiting for each other.
    std::panic::set_hook(Box::new(|i| {
        eprintln!("the checker failed: {}", i);
        world::cleanup();
        std::process::exit(2);
    }));
    let rep = Report::new(&id, tier, level);
    match id.as_str() {
        "C04" => seq::c04(&rep),
        "C05" => seq::c05(&rep),
        "C06" => seq::c06(&rep),
        "C07" => seq::c07(&rep),
        "C08" => seq::c08(&rep),
        "C09" => seq::c09(&rep),
        "C10" => seq::c10(&rep),
        "C11" => seq::c11(&rep),
        "C12" => conc::c12(&rep),
        "C13" => conc::c13(&rep),
        "C14" => fault::c14(&rep),
        "C16" => conc::c16(&rep),
        "C17" => conc::c17(&rep),
        "C20" => conc::c20(&rep),
        "C15" => seq::c15(&rep),
        "C18" => seq2::c18(&rep),
        "C19" => seq2::c19(&rep),
        "C21" => seq2::c21(&rep),
        "C29" => place::c29(&rep),
        "C31" => ends::c31(&rep),
        "C32" => many::c32(&rep),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
    let ev = world::EVALS.load(std::sync::atomic::Ordering::Relaxed);
    // the model-checking and fault runs count for themselves
    if ev > 0 && level == "exploration" {
        rep.uncount("sessions");
        rep.count("evaluations", ev);
        rep.count("distinct_nontrivial", world::DISTINCT.lock().unwrap().len() as u64);
        rep.text("rule", "one evaluation is one session of the real git-lfs-transfer judged request by request against the model; it is non-trivial when it has input, and distinct by operation, user, umask, clock, input and the contents of the store before it");
    }
    let rc = rep.finish();
    world::cleanup();
    std::process::exit(rc);
}
