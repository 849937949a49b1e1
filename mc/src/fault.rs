//! C14: every file-system operation of a session fails in every plausible way.
//!
//! A session is run once without faults; then once for every operation it makes and every way that
//! operation can fail or be cut short, and, up to a bound, once for every further operation made after
//! an earlier fault.  The answers, the exit and the store are judged after every run, and later
//! sessions without faults must work normally on what the run left behind.
use crate::explore::{look, recovery_session, TIME0};
use crate::model::*;
use crate::proto::*;
use crate::seq::{bytes_of, lock_content, tcfg};
use crate::tracer::*;
use crate::vutil::{show, Report};
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

struct History {
    name: &'static str,
    mode: Mode,
    shared: Option<&'static str>,
    fresh: bool,
    objects: Vec<&'static [u8]>,
    locks: Vec<(&'static [u8], u32)>,
    reqs: Vec<Request>,
    budget: usize,
}

/// How one operation goes wrong.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
    Once(Do),
    /// from here on everything that needs space fails
    Full,
    /// from here on every operation that changes something fails
    ReadOnly,
}

fn benign(d: Do) -> bool {
    matches!(d, Do::Fail(libc::EINTR) | Do::Short(_) | Do::Run)
}

fn is_read(n: &str) -> bool {
    matches!(n, "read" | "pread64" | "readv")
}
fn is_write(n: &str) -> bool {
    matches!(n, "write" | "pwrite64" | "writev")
}

fn needs_space(op: &FsOp) -> bool {
    is_write(op.name)
        || (op.name.starts_with("open") && op.flags as i32 & libc::O_CREAT != 0)
        || op.name.starts_with("mkdir")
        || op.name.starts_with("link")
        || op.name.starts_with("symlink")
        || op.name.starts_with("rename")
        || matches!(op.name, "ftruncate" | "fallocate")
}

/// All plausible failures of an operation.
fn options(op: &FsOp) -> Vec<Do> {
    use libc::*;
    let n = op.name;
    let creat = n.starts_with("open") && op.flags as i32 & O_CREAT != 0;
    let mut v = vec![];
    if n.starts_with("open") || n == "creat" {
        v.extend([EIO, EACCES, EMFILE, ENOMEM].map(Do::Fail));
        // opendir is not interrupted
        if op.flags as i32 & O_DIRECTORY == 0 {
            v.push(Do::Fail(EINTR));
        }
        if creat {
            v.extend([ENOSPC, EROFS, EDQUOT].map(Do::Fail));
        }
    } else if is_read(n) {
        v.extend([EIO, EINTR].map(Do::Fail));
        if n != "readv" {
            for c in [1, op.len / 2, op.len.saturating_sub(1)] {
                if c > 0 && c < op.len {
                    v.push(Do::Short(c));
                }
            }
        }
    } else if is_write(n) {
        v.extend([ENOSPC, EIO, EDQUOT, EFBIG, EINTR].map(Do::Fail));
        if n != "writev" {
            for c in [1, op.len / 2, op.len.saturating_sub(1)] {
                if c > 0 && c < op.len {
                    v.push(Do::Short(c));
                }
            }
        }
    } else if n.starts_with("getdents") {
        v.extend([EIO].map(Do::Fail));
    } else if n.contains("stat") || n.starts_with("access") || n.starts_with("faccess") || n.starts_with("readlink") {
        v.extend([EIO, EACCES, ENOMEM].map(Do::Fail));
    } else if n.starts_with("rename") || n.starts_with("link") || n.starts_with("symlink") {
        v.extend([EIO, EACCES, EPERM, EROFS, ENOSPC, EDQUOT].map(Do::Fail));
        if n.starts_with("link") {
            v.push(Do::Fail(EMLINK));
        }
    } else if n.starts_with("mkdir") {
        v.extend([EIO, EACCES, EROFS, ENOSPC, EMLINK].map(Do::Fail));
    } else if n.starts_with("unlink") || n == "rmdir" {
        v.extend([EIO, EACCES, EPERM, EROFS, EBUSY].map(Do::Fail));
    } else if n.contains("chmod") || n.contains("chown") || n.contains("utime") {
        v.extend([EIO, EPERM, EROFS].map(Do::Fail));
    } else if matches!(n, "fsync" | "fdatasync" | "ftruncate" | "truncate" | "fallocate") {
        v.extend([EIO, ENOSPC].map(Do::Fail));
    } else if n == "flock" || n == "fcntl" {
        v.extend([ENOLCK].map(Do::Fail));
    } else if matches!(n, "copy_file_range" | "sendfile" | "lseek" | "splice") {
        v.extend([EIO].map(Do::Fail));
    }
    v.dedup();
    v
}

type Plan = Vec<(usize, Fault)>;

fn show_plan(p: &Plan) -> String {
    p.iter().map(|(s, f)| format!("{}:{:?}", s, f)).collect::<Vec<_>>().join(" ")
}

struct Run {
    /// for every operation: the faults it could have had
    opts: Vec<Vec<Fault>>,
    hist: (u64, u64),
    injected: usize,
    requests: u64,
    fs: u128,
    models: Vec<Model>,
}

fn policy(shared: Option<&str>) -> u32 {
    match shared {
        None => 0o644,
        Some("group") => 0o660,
        Some("all") => 0o664,
        Some(s) => u32::from_str_radix(s, 8).unwrap() & 0o666,
    }
}

fn execute(h: &History, w: &World, plan: &Plan, detail: &mut String) -> Result<Run, String> {
    w.wipe();
    w.set_shared(h.shared);
    if !h.fresh {
        w.mk_lfs(0o777);
    }
    let mut m0 = Model::default();
    for d in &h.objects {
        let o = m0.add_object(d);
        w.add_object(&o, d);
    }
    for (i, (p, uid)) in h.locks.iter().enumerate() {
        let t = 1_000_000_000 + i as i64;
        w.add_lock_file(&lock_id(p), &lock_content(t, p), *uid);
        m0.locks.insert(lock_id(p), LockRec { path: p.to_vec(), time: t, owner: user_name(*uid) });
    }
    let mut models = vec![m0.clone()];
    let mut names = Names::default();
    let salt = hash64(format!("{:?}{}", h.shared, h.name).as_bytes());
    let mut cfg = tcfg(w, h.mode.arg(), h.reqs.iter().map(|r| r.bytes.clone()).collect(), w.uid, TIME0);
    cfg.sched_startup = h.fresh;
    cfg.max_steps = 3000;
    let mut p = Proc::spawn_cached(cfg, &mut names, salt);
    p.keep_trace = true;
    let user = user_name(w.uid);
    let mut run = Run { opts: vec![], hist: (0, 0), injected: 0, requests: 0, fs: 0, models: vec![] };
    let mut sent = 0usize;
    let mut judged = 0usize;
    let mut hit = false; // the request in progress was affected
    let mut hit_startup = false;
    let mut hit_dir = false; // ... by a failure to read a directory
    let mut hit_locks: Vec<String> = vec![]; // names of lock files whose use failed
    let mut sticky: Option<Fault> = None;
    let mut step = 0usize;
    let res = (|| -> Result<(), String> {
        loop {
            if p.spin {
                return Err("the session makes no end of file-system calls".into());
            }
            if !p.escapes.is_empty() {
                return Err(format!("tried to change something outside the repository: {:?}", p.escapes));
            }
            if p.hung {
                return Err("the session hangs".into());
            }
            match p.stop.clone() {
                Stop::Fs(op) => {
                    let mut o: Vec<Fault> = options(&op).into_iter().map(Fault::Once).collect();
                    if needs_space(&op) {
                        o.push(Fault::Full);
                    }
                    if op.mutating {
                        o.push(Fault::ReadOnly);
                    }
                    if sticky.is_some() {
                        o.clear();
                    }
                    run.opts.push(o);
                    let mut how = Do::Run;
                    if let Some((_, f)) = plan.iter().find(|x| x.0 == step) {
                        match f {
                            Fault::Once(d) => how = *d,
                            s => sticky = Some(*s),
                        }
                    }
                    match sticky {
                        Some(Fault::Full) if needs_space(&op) && !op.name.starts_with("rename") => how = Do::Fail(libc::ENOSPC),
                        Some(Fault::ReadOnly) if op.mutating => how = Do::Fail(libc::EROFS),
                        _ => {}
                    }
                    if how != Do::Run {
                        run.injected += 1;
                    }
                    if !benign(how) {
                        if sent == 0 {
                            hit_startup = true;
                        }
                        hit = true;
                        let dir = op.name.starts_with("getdents") || op.paths.iter().all(|x| x == "locks" || x.is_empty());
                        hit_dir |= dir;
                        for x in &op.paths {
                            if let Some(n) = x.strip_prefix("locks/") {
                                hit_locks.push(n.to_string());
                            }
                        }
                    }
                    let changes = op.mutating;
                    p.step(how, &mut names);
                    step += 1;
                    if changes {
                        look(&tree(&w.lfs), &|_| None)?;
                    }
                }
                st => {
                    // the answers so far
                    let (r, rest) = parse_prefix(&p.stdout())?;
                    let ended = match st {
                        Stop::Done(s) => Some(s),
                        _ => None,
                    };
                    if let Some(s) = ended {
                        if libc::WIFSIGNALED(s) {
                            return Err(format!("the session was ended by signal {}", libc::WTERMSIG(s)));
                        }
                        if libc::WEXITSTATUS(s) == 101 {
                            return Err(format!("the session panicked: {}", show(&p.stderr())));
                        }
                    }
                    if ended.is_none() || (r.len() == sent && sent > 0) {
                        if let Some(x) = &rest {
                            return Err(format!("an answer is left unfinished: {}", x));
                        }
                    }
                    if r.len() > sent {
                        return Err(format!("{} answers to {} requests", r.len(), sent));
                    }
                    if r.len() < sent {
                        if ended.is_none() {
                            return Err(format!("{} answers to {} requests, and the next one is awaited", r.len(), sent));
                        }
                        if !(hit || hit_startup) {
                            return Err(format!("the session ends without answering request {} ({}), which met no failure", sent - 1, h.reqs[sent - 1].name));
                        }
                        if libc::WEXITSTATUS(ended.unwrap()) == 0 {
                            return Err(format!("the session ends without an answer to request {} ({}) and reports success", sent - 1, h.reqs[sent - 1].name));
                        }
                    }
                    if r.len() > judged {
                        let k = judged;
                        judged += 1;
                        run.requests += 1;
                        let affected = hit || hit_startup || sticky.is_some();
                        judge(h, w, k, &r[k], affected, hit_dir, &hit_locks, &user, &mut models).map_err(|e| {
                            format!("request {} ({}){}: {}", k, h.reqs[k].name, if affected { ", which met the failure" } else { "" }, e)
                        })?;
                    } else if sent > judged {
                        // never answered
                        maybe(h, sent - 1, &user, &mut models);
                    }
                    if let Some(s) = ended {
                        if sent == 0 && !hit_startup && !h.reqs.is_empty() {
                            return Err("the session ends before the first request".into());
                        }
                        if sent == 0 && hit_startup && libc::WEXITSTATUS(s) == 0 {
                            return Err("the session ends before the first request and reports success".into());
                        }
                        if judged == h.reqs.len() && !affected_end(hit, hit_startup, sticky) && libc::WEXITSTATUS(s) != 0 {
                            return Err(format!("the session answers everything but ends with status {}: {}", libc::WEXITSTATUS(s), show(&p.stderr())));
                        }
                        if sent < h.reqs.len() && judged == sent && !affected_end(hit, hit_startup, sticky) {
                            return Err(format!("the session ends after {} of {} requests", sent, h.reqs.len()));
                        }
                        if sent < h.reqs.len() && libc::WEXITSTATUS(s) == 0 {
                            return Err(format!("the session ends after {} of {} requests and reports success", sent, h.reqs.len()));
                        }
                        return Ok(());
                    }
                    hit = false;
                    hit_dir = false;
                    hit_locks.clear();
                    if sent < h.reqs.len() {
                        sent += 1;
                    }
                    p.step(Do::Run, &mut names);
                }
            }
        }
    })();
    run.hist = p.hist();
    *detail = format!(
        "history: {} ({} session, sharedRepository {:?})\nrequests: {}\nfaults (operation number: fault): {}\n\nwrote: {}\nstderr: {}\nfile operations:\n{}\n",
        h.name,
        h.mode.arg(),
        h.shared,
        h.reqs.iter().map(|r| r.name.as_str()).collect::<Vec<_>>().join("; "),
        show_plan(plan),
        show(&p.stdout()),
        show(&p.stderr()),
        p.trace.iter().enumerate().map(|(i, l)| format!("  {:3} {}", i, l)).collect::<Vec<_>>().join("\n")
    );
    drop(p);
    res?;
    // what is really there
    let es = tree(&w.lfs);
    let d = look(&es, &|_| None)?;
    models.retain(|m| m.locks == d.locks && m.objects.len() == d.objects.len() && m.objects.iter().all(|(k, v)| d.objects.get(k).map(|x| x.0 == **v).unwrap_or(false)));
    if models.is_empty() {
        return Err(format!("the store does not agree with the answers: objects {:?}, locks {:?}", d.objects.keys().map(|x| &x[..8]).collect::<Vec<_>>(), d.locks));
    }
    models.truncate(1);
    let mut hh = H128::new();
    for e in &es {
        hh.add(names.canon(&e.path).as_bytes());
        hh.add(&e.mode.to_le_bytes());
        hh.add(&e.data);
    }
    run.fs = hh.get();
    run.models = models;
    Ok(run)
}

fn affected_end(hit: bool, hit_startup: bool, sticky: Option<Fault>) -> bool {
    hit || hit_startup || sticky.is_some()
}

/// The request may or may not have had its effect.
fn maybe(h: &History, k: usize, user: &str, models: &mut Vec<Model>) {
    if h.mode == Mode::Down {
        return;
    }
    let mut add = vec![];
    for m in models.iter() {
        let mut m2 = m.clone();
        match &h.reqs[k].op {
            Op::Put { oid, size, data } if valid_oid(oid) && *size == data.len() as u64 && oid_of(data) == *oid => {
                m2.objects.insert(oid.clone(), data.clone());
            }
            Op::Lock { path } => {
                let id = lock_id(path);
                if !m2.locks.contains_key(&id) {
                    for t in TIME0..TIME0 + 3 {
                        let mut m3 = m.clone();
                        m3.locks.insert(id.clone(), LockRec { path: path.clone(), time: t, owner: user.into() });
                        add.push(m3);
                    }
                }
                continue;
            }
            Op::Unlock { id } => {
                m2.locks.remove(&String::from_utf8_lossy(id).to_string());
            }
            _ => continue,
        }
        if m2 != *m {
            add.push(m2);
        }
    }
    for a in add {
        if !models.contains(&a) {
            models.push(a);
        }
    }
}

fn judge(h: &History, w: &World, k: usize, r: &Resp, affected: bool, hit_dir: bool, hit_locks: &[String], user: &str, models: &mut Vec<Model>) -> Result<(), String> {
    let op = &h.reqs[k].op;
    let window = (TIME0, TIME0 + 1000);
    let mut ok = vec![];
    let mut err = String::new();
    for m in models.iter() {
        let mut m2 = m.clone();
        match m2.judge(op, h.mode, user, r, window) {
            Ok(()) => {
                if !ok.contains(&m2) {
                    ok.push(m2);
                }
            }
            Err(e) => err = e,
        }
    }
    if !ok.is_empty() {
        *models = ok;
        // acknowledged: it must really be so, and readable by those who may
        if r.code == 200 && h.mode == Mode::Up {
            if let Op::Put { oid, .. } = op {
                let md = std::fs::metadata(w.object_path(oid)).map_err(|_| format!("object {} was acknowledged but is not there", &oid[..8]))?;
                use std::os::unix::fs::PermissionsExt;
                if !h.objects.iter().any(|d| oid_of(d) == *oid) && md.permissions().mode() & 0o666 != policy(h.shared) {
                    return Err(format!("the object was acknowledged with mode {:o} instead of {:o}", md.permissions().mode() & 0o777, policy(h.shared)));
                }
            }
        }
        return Ok(());
    }
    if !affected {
        return Err(err);
    }
    if r.code == 200 || r.code == 201 || r.code < 400 {
        if let (Op::List { path, .. }, 200) = (op, r.code) {
            // Lock files that cannot be read are left out like damaged ones; nothing else may be.
            let (got, next) = lock_list(r)?;
            for m in models.iter() {
                let mut m2 = m.clone();
                let ids: Vec<&String> = got.iter().map(|s| &s.id).collect();
                m2.locks.retain(|id, _| ids.contains(&id) || next.as_ref() == Some(id) || !hit_locks.contains(id));
                if !hit_dir && path.is_none() && m2.judge(op, h.mode, user, r, window).is_ok() {
                    return Ok(());
                }
            }
        }
        return Err(format!("success is reported although it is not so: {}", err));
    }
    // A refusal.  One that claims a fact must be right.
    if !r.refused() {
        return Err(err);
    }
    if matches!(r.code, 404 | 409) && !matches!(op, Op::Put { .. }) {
        return Err(format!("the failure is reported as something that is not so: {}", err));
    }
    maybe(h, k, user, models);
    Ok(())
}

const A: &[u8] = b"object a";
const B: &[u8] = b"the second object";

fn histories(quick: bool) -> Vec<History> {
    let (oa, ob) = (oid_of(A), oid_of(B));
    let big: &'static [u8] = Box::leak(bytes_of(100_000, 1).into_boxed_slice());
    let obig = oid_of(big);
    let absent = oid_of(b"absent");
    let al = A.len() as u64;
    let h = |name, mode, objects: &[&'static [u8]], locks: &[(&'static [u8], u32)], reqs: Vec<Request>| History {
        name,
        mode,
        shared: None,
        fresh: false,
        objects: objects.to_vec(),
        locks: locks.to_vec(),
        reqs,
        budget: 1,
    };
    let up = Mode::Up;
    let down = Mode::Down;
    let l = || list(None, None, None);
    let u2 = UIDS[1].0;
    let mut v = vec![];
    let mut add = |x: History, b: usize| v.push(History { budget: b, ..x });
    let two = if quick { 2 } else { 3 };
    add(h("put; verify", up, &[], &[], vec![put(A), verify(&oa, al)]), two);
    add(h("put of a present object; put", up, &[A], &[], vec![put(A), put(B)]), 2);
    add(h("put in packets; wrong put; put", up, &[], &[], vec![put_as(&oa, al, A, 3), put_as(&ob, 3, b"xyz", 2), put(A), batch(&[(&oa, 1), (&ob, 5)])]), 2);
    add(h("large put", up, &[], &[], vec![put_as(&obig, 100_000, big, 65516), verify(&obig, 100_000)]), 2);
    let big2: &'static [u8] = Box::leak(bytes_of(70_000, 9).into_boxed_slice());
    add(h("large put; another one", up, &[], &[], vec![put_as(&obig, 100_000, big, 65516), put_as(&oid_of(big2), 70_000, big2, 65516), put(A)]), 1);
    add(h("lock; list; unlock", up, &[], &[], vec![lock(b"p"), l(), unlock(b"p")]), 2);
    add(h("lock; lock again; unlock; unlock again", up, &[], &[], vec![lock(b"p"), lock(b"p"), unlock(b"p"), unlock(b"p")]), 2);
    add(h("held locks", up, &[], &[(b"p", UID), (b"q", u2)], vec![lock(b"p"), unlock(b"q"), l(), unlock(b"p"), lock(b"q"), list(None, None, Some(b"q"))]), if quick { 1 } else { 2 });
    add(h("verify and batch", up, &[A, B], &[], vec![verify(&oa, al), verify(&oa, 3), verify(&absent, 1), batch(&[(&oa, 1), (&ob, 5), (&absent, 7)])]), 2);
    add(h("downloads", down, &[A, big], &[], vec![batch(&[(&oa, 1), (&absent, 7)]), get(&oa), get(&absent), get(&obig), get(&oa)]), 2);
    add(h("listings", down, &[], &[(b"p", UID), (b"q", u2), (b"r", UID)], vec![l(), list(None, None, Some(b"q")), list(Some(1), None, None), list(None, None, Some(b"z"))]), if quick { 1 } else { 2 });
    add(History { fresh: true, ..h("fresh repository: put; lock; list", up, &[], &[], vec![put(A), lock(b"p"), l()]) }, 2);
    add(History { fresh: true, ..h("fresh repository: batch; get; list", down, &[], &[], vec![batch(&[(&oa, 1)]), get(&oa), l()]) }, 2);
    add(History { shared: Some("group"), ..h("shared with the group", up, &[], &[], vec![put(A), lock(b"p"), unlock(b"p")]) }, 2);
    add(History { shared: Some("0640"), ..h("mode 0640", up, &[], &[], vec![put(A), lock(b"p")]) }, 2);
    add(History { shared: Some("all"), fresh: true, ..h("fresh repository shared with all", up, &[], &[], vec![put(A), lock(b"p")]) }, 1 + !quick as usize);
    add(h("everything", up, &[B], &[(b"q", u2)], vec![version(), batch(&[(&oa, 1), (&ob, 2)]), put(A), verify(&oa, al), lock(b"q"), lock(b"p"), l(), unlock(b"q"), unlock(b"p"), put_as(&oid_of(b"c"), 1, b"d", 1), put(b""), l()]), 1 + !quick as usize);
    v
}

fn afterwards(w: &World, m: &mut Model) -> Result<u64, String> {
    let (oa, ob) = (oid_of(A), oid_of(B));
    let l = || list(None, None, None);
    let mut n = 0;
    n += recovery_session(w, m, Mode::Down, w.uid, &[batch(&[(&oa, 1), (&ob, 2)]), get(&oa), get(&ob), l()])?;
    n += recovery_session(w, m, Mode::Up, w.uid, &[put(A), verify(&oa, A.len() as u64), put(B), lock(b"p"), lock(b"q"), l(), unlock(b"p"), unlock(b"q"), lock(b"p"), unlock(b"r")])?;
    n += recovery_session(w, m, Mode::Down, w.uid, &[get(&oa), get(&ob), l()])?;
    Ok(n)
}

/// Reads from the client and writes to it are cut short, interrupted or fail.
fn streams(rep: &Report) {
    let q = rep.quick();
    let (oa, ob) = (oid_of(A), oid_of(B));
    let big: &'static [u8] = Box::leak(bytes_of(20_000, 5).into_boxed_slice());
    let obig = oid_of(big);
    let l = || list(None, None, None);
    let hs: Vec<(Mode, Vec<Request>)> = vec![
        (Mode::Up, vec![version(), put_as(&oa, A.len() as u64, A, 3), put_as(&ob, 3, b"xyz", 2), verify(&oa, 3), lock(b"p"), lock(b"q"), l(), unlock(b"p")]),
        (Mode::Up, vec![put_as(&oid_of(big), 20_000, big, 20_000), put(b""), bad("nothing", Req::cmd("").flush()), batch(&[(&oa, 1), (&obig, 5)])]),
        (Mode::Down, vec![batch(&[(&oa, 1), (&obig, 5)]), get(&obig), get(&oa), l(), get(&obig), quit()]),
    ];
    for (hi, (mode, reqs)) in hs.iter().enumerate() {
        let prepare = |w: &World| {
            w.wipe();
            w.mk_lfs(0o755);
            let mut m = Model::default();
            if *mode == Mode::Down {
                for d in [A, big] {
                    let o = m.add_object(d);
                    w.add_object(&o, d);
                }
            }
            let id = lock_id(b"q");
            w.add_lock_file(&id, &lock_content(5, b"q"), w.uid);
            m.locks.insert(id, LockRec { path: b"q".to_vec(), time: 5, owner: user_name(w.uid) });
            m
        };
        let refs: Vec<&Request> = reqs.iter().collect();
        let go = |w: &World, sp: StreamPlan| {
            let m = prepare(w);
            let mut cfg = tcfg(w, mode.arg(), reqs.iter().map(|r| r.bytes.clone()).collect(), w.uid, TIME0);
            cfg.stream = sp;
            cfg.max_steps = 100_000;
            let mut nm = Names::default();
            let mut p = Proc::spawn_streams(cfg, &mut nm);
            while !p.done() {
                p.step(Do::Run, &mut nm);
            }
            let st = p.status().unwrap();
            let o = Outcome {
                out: p.stdout(),
                err: p.stderr(),
                code: if libc::WIFEXITED(st) { Some(libc::WEXITSTATUS(st)) } else { None },
                signal: if libc::WIFSIGNALED(st) { Some(libc::WTERMSIG(st)) } else { None },
                timeout: p.hung,
                t0: TIME0,
                t1: TIME0 + 100,
            };
            rep.count("sessions", 1);
            (m, o, p.stream_calls.clone(), p.fed)
        };
        let w = World::new(UID, None);
        let (m0, plain, calls, _) = go(&w, StreamPlan::default());
        let user = user_name(w.uid);
        let mut m = m0.clone();
        if let Err(e) = judge_session(&mut m, &refs, *mode, &user, &plain).and_then(|_| m.compare_store(&w)) {
            rep.violation(&format!("streams {}", hi), &format!("without any fault: {}", e), &show(&plain.out));
            continue;
        }
        // the states after each request
        let answers = parse_session(&plain.out).unwrap();
        let mut states = vec![m0.clone()];
        let mut m = m0;
        for (r, a) in refs.iter().zip(&answers) {
            let _ = m.judge(&r.op, *mode, &user, a, (TIME0 - 1, TIME0 + 101));
            states.push(m.clone());
        }
        let mut plans: Vec<StreamPlan> = vec![];
        for (a, b) in [(true, false), (false, true), (true, true)] {
            plans.push(StreamPlan { one: vec![], all_short: a, interrupt: b });
        }
        for (i, (input, n)) in calls.iter().enumerate() {
            let mut ds = vec![Do::Fail(libc::EINTR), Do::Fail(libc::EIO)];
            if !*input {
                ds.extend([Do::Fail(libc::EPIPE), Do::Fail(libc::ENOSPC)]);
            }
            for c in [1, 2, 3, 4, 5, n / 2, n.saturating_sub(1)] {
                if c > 0 && c < *n && !ds.contains(&Do::Short(c)) {
                    ds.push(Do::Short(c));
                }
            }
            for d in &ds {
                plans.push(StreamPlan { one: vec![(i, *d)], ..Default::default() });
                if !q && benign(*d) {
                    for e in &ds {
                        plans.push(StreamPlan { one: vec![(i, *d), (i + 1, *e)], ..Default::default() });
                    }
                }
            }
        }
        crate::vutil::pool(plans.len(), || World::new(UID, None), |w, i| {
            let sp = &plans[i];
            let (_, o, _, fed) = go(w, sp.clone());
            let hard = sp.one.iter().any(|x| !benign(x.1));
            let judge = || -> Result<(), String> {
                if o.timeout {
                    return Err("the session hangs".into());
                }
                if o.signal.is_some() || o.code == Some(101) {
                    return Err(format!("crashed: status {:?} signal {:?}", o.code, o.signal));
                }
                if !hard {
                    let mut m = states[0].clone();
                    judge_session(&mut m, &refs, *mode, &user, &o).and_then(|_| m.compare_store(w))?;
                    if o.code != plain.code {
                        return Err(format!("the session ends with status {:?} instead of {:?}", o.code, plain.code));
                    }
                    return Ok(());
                }
                if !plain.out.starts_with(&o.out) {
                    // a request that could not be read may have been refused
                    let (got, rest) = parse_prefix(&o.out)?;
                    let n = got.len();
                    if !calls[sp.one[0].0].0 || rest.is_some() || n == 0 || !got[n - 1].refused() || got[..n - 1].iter().zip(&answers).any(|(a, b)| a.show() != b.show()) {
                        return Err("what was written is not the beginning of what should be".into());
                    }
                    if o.code == Some(0) {
                        return Err("a request could not be read, but the session reports success".into());
                    }
                }
                if o.out.len() < plain.out.len() && o.code == Some(0) {
                    return Err("the answers are not complete, but the session reports success".into());
                }
                let done = parse_prefix(&o.out).map(|x| x.0.len()).unwrap_or(0) - !plain.out.starts_with(&o.out) as usize;
                if !(done..=fed).any(|k| k < states.len() && states[k].compare_store(w).is_ok()) {
                    return Err(format!("the store is not that after any of the requests {} to {}", done, fed));
                }
                Ok(())
            };
            if let Err(e) = judge() {
                let k = format!("streams {}: {:?}", hi, sp);
                rep.violation(&k, &format!("{} session with {:?} on its standard streams: {}", mode.arg(), sp, e), &format!("{}\n\noutput: {}\nstderr: {}", e, show(&o.out), show(&o.err)));
            }
        });
        rep.scope(&format!("{} session: every failure, interruption and short count of reads from and writes to the client", mode.arg()), plans.len() as u64);
    }
}

pub fn c14(rep: &Report) {
    streams(rep);
    let only = std::env::var("MC_ONLY").ok();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for h in histories(rep.quick()) {
        if only.as_ref().map(|o| !h.name.contains(o.as_str())).unwrap_or(false) {
            continue;
        }
        let queue: Mutex<(Vec<Plan>, usize)> = Mutex::new((vec![vec![]], 0));
        let cv = Condvar::new();
        let stop = AtomicBool::new(false);
        let (runs, injected) = (AtomicU64::new(0), AtomicU64::new(0));
        let after: Mutex<HashSet<u128>> = Default::default();
        let seen: Mutex<HashSet<(u64, u64)>> = Default::default();
        let kk: Mutex<BTreeMap<String, u64>> = Default::default();
        std::thread::scope(|s| {
            for _ in 0..crate::vutil::jobs() {
                s.spawn(|| {
                    let w = World::new(UID, None);
                    loop {
                        let plan = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    cv.notify_all();
                                    return;
                                }
                                if let Some(x) = q.0.pop() {
                                    q.1 += 1;
                                    break x;
                                }
                                if q.1 == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                q = cv.wait(q).unwrap();
                            }
                        };
                        let mut detail = String::new();
                        let r = execute(&h, &w, &plan, &mut detail);
                        runs.fetch_add(1, Ordering::Relaxed);
                        let mut more = vec![];
                        let fail = |e: &str| {
                            let kind: String = e.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect();
                            rep.violation(&format!("{}: {}", h.name, kind), &format!("{} with faults {}: {}", h.name, show_plan(&plan), e), &format!("{}\n\n{}", e, detail));
                            if rep.nviol() > 60 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        };
                        match r {
                            Err(e) => fail(&e),
                            Ok(mut run) => {
                                injected.fetch_add(run.injected as u64, Ordering::Relaxed);
                                rep.count("requests", run.requests);
                                let new = seen.lock().unwrap().insert(run.hist) && run.injected > 0;
                                if new {
                                    rep.count("distinct_nontrivial", 1);
                                    if plan.len() == 1 && plan[0].0 % 17 == 3 {
                                        rep.sample(format!("{}: faults {}", h.name, show_plan(&plan)));
                                    }
                                }
                                if after.lock().unwrap().insert(run.fs) {
                                    match afterwards(&w, &mut run.models[0]) {
                                        Ok(n) => rep.count("later_sessions", n),
                                        Err(e) => fail(&format!("afterwards: {}", e)),
                                    }
                                }
                                if plan.len() < h.budget {
                                    let from = plan.last().map(|x| x.0 + 1).unwrap_or(0);
                                    for (i, os) in run.opts.iter().enumerate().skip(from) {
                                        for o in os {
                                            let mut p = plan.clone();
                                            p.push((i, *o));
                                            more.push(p);
                                        }
                                    }
                                }
                                if let Some(l) = plan.last() {
                                    *kk.lock().unwrap().entry(format!("{:?}", l.1)).or_insert(0) += 1;
                                }
                            }
                        }
                        let mut q = queue.lock().unwrap();
                        q.0.append(&mut more);
                        q.1 -= 1;
                        cv.notify_all();
                    }
                });
            }
        });
        let n = runs.load(Ordering::Relaxed);
        rep.count("evaluations", n);
        rep.count("faults_injected", injected.load(Ordering::Relaxed));
        rep.scope(&format!("{}: every fault of every operation, up to {} faults in one session", h.name, h.budget), n);
        for (k, v) in kk.into_inner().unwrap() {
            *kinds.entry(k).or_insert(0) += v;
        }
        if stop.load(Ordering::Relaxed) {
            break;
        }
    }
    rep.text("rule", "one run is one session of the real git-lfs-transfer with a chosen set of its file-system calls failing or cut short; it is non-trivial when a fault was injected, and distinct by everything the process saw and did");
    rep.text("fault kinds", &kinds.iter().map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>().join(", "));
    rep.assume("failing calls have no effect; short ones have exactly their shorter effect");
    rep.assume("faults are the errno values listed under 'fault kinds'; ENOENT and EEXIST are not injected, because they would be lies about the store");
}
