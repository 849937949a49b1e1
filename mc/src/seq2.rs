//! Sequential checks about locks: paging (C18), records (C19), damaged files (C21).
use crate::model::*;
use crate::proto::*;
use crate::seq::*;
use crate::tracer;
use crate::vutil::*;
use crate::world::*;
use std::collections::BTreeSet;

fn world() -> World {
    World::new(UID, None)
}

fn add_locks(w: &World, m: &mut Model, n: usize, uid: u32) {
    for i in 0..n {
        let p = format!("dir {}/file {}", i % 3, i).into_bytes();
        let t = T_HELD + i as i64;
        w.add_lock_file(&lock_id(&p), &lock_content(t, &p), uid);
        m.locks.insert(lock_id(&p), LockRec { path: p, time: t, owner: user_name(uid) });
    }
}

pub fn succ(s: &str, up: bool) -> String {
    // the neighbouring 64-digit hexadecimal number
    let mut b: Vec<u8> = s.bytes().map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
    for d in b.iter_mut().rev() {
        if up {
            if *d < 15 {
                *d += 1;
                break;
            }
            *d = 0;
        } else {
            if *d > 0 {
                *d -= 1;
                break;
            }
            *d = 15;
        }
    }
    b.iter().map(|d| std::char::from_digit(*d as u32, 16).unwrap()).collect()
}

fn run_judged(rep: &Report, w: &World, m: &mut Model, mode: Mode, reqs: &[&Request], ctx: &str) -> Option<Outcome> {
    let input = join(reqs);
    let o = Sess::new(w, mode.arg()).run(&input);
    rep.count("sessions", 1);
    rep.count("requests", reqs.len() as u64);
    let r = judge_session(m, reqs, mode, &user_name(w.uid), &o).and_then(|_| m.compare_store(w));
    match r {
        Ok(()) => Some(o),
        Err(e) => {
            let n = names(reqs);
            let short = if n.len() > 300 { format!("{}...", n.chars().take(300).collect::<String>()) } else { n.clone() };
            rep.violation(&format!("{} {} {}", ctx, mode.arg(), short), &format!("{}: {}", ctx, e), &detail(mode.arg(), &n, &input, &o, &e));
            None
        }
    }
}

pub fn c18(rep: &Report) {
    let q = rep.quick();
    let modes = [Mode::Up, Mode::Down];
    let nmax = if q { 6 } else { 9 };
    pool((nmax + 1) * 2, world, |w, i| {
        let (n, mode) = (i / 2, modes[i % 2]);
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        add_locks(w, &mut m, n, w.uid);
        // files that are no locks do not count
        w.add_lock_file("0000.lock", b"junk", w.uid);
        let ids: Vec<String> = m.locks.keys().cloned().collect();
        let mut cursors: Vec<Option<Vec<u8>>> = vec![None];
        let mut add = |c: &[u8]| cursors.push(Some(c.to_vec()));
        for c in [&b""[..], b"0", b"f", b"g", b"~", b"\xff\xff", b"8", b"A", b" ", b"../x", b"\n"] {
            add(c);
        }
        for id in &ids {
            add(id.as_bytes());
            add(succ(id, true).as_bytes());
            add(succ(id, false).as_bytes());
            add(&id.as_bytes()[..63]);
            add(&id.as_bytes()[..3]);
            add(format!("{}0", id).as_bytes());
            add(id.to_uppercase().as_bytes());
        }
        let mut reqs = vec![];
        let mut limits: Vec<Option<u64>> = vec![None];
        limits.extend((1..=n as u64 + 2).map(Some));
        limits.extend([99, 100, 101, 1000, 4_294_967_297, u64::MAX - 1, u64::MAX].map(Some));
        for l in &limits {
            for c in &cursors {
                reqs.push(list(*l, c.as_deref(), None));
            }
        }
        for l in [None, Some(1), Some(2)] {
            for c in &cursors {
                for p in m.locks.values().map(|r| r.path.clone()).chain([b"absent".to_vec(), b"".to_vec(), b"dir 0".to_vec(), b"dir 0/file 0/".to_vec(), b"dir 0/file".to_vec()]) {
                    reqs.push(list(l, c.as_deref(), Some(&p)));
                }
            }
        }
        for l in ["0", "00", "-1", "x", "", "1x", " 1", "1 ", "0x1", "1.5", "18446744073709551616", "\u{ff11}", "1,2", "-0"] {
            for tail in ["", "cursor=0"] {
                let mut r = Req::cmd("list-lock\n").arg(&format!("limit={}", l));
                if !tail.is_empty() {
                    r = r.arg(tail);
                }
                reqs.push(bad(&format!("list-lock limit={:?} {}", l, tail), r.flush()));
            }
        }
        if n <= 2 {
            for (t, v) in number_texts(if q { 3 } else { 4 }) {
                let r = Req::cmd("list-lock\n").argb("limit", &t).flush();
                let name = format!("list-lock limit={}", show(&t));
                reqs.push(match v.filter(|v| *v > 0) {
                    Some(v) => Request { op: list(Some(v), None, None).op, bytes: r, name },
                    None => bad(&name, r),
                });
            }
        }
        for ch in reqs.chunks(64) {
            run_judged(rep, w, &mut m, mode, &ch.iter().collect::<Vec<_>>(), &format!("{} locks", n));
        }
        if n == 3 {
            rep.sample(format!("{} locks: {} combinations of limit, cursor and path", n, reqs.len()));
        }
    });
    rep.scope("up to n locks x limits x cursors x path filters, both modes", rep.get("requests"));
    // following the cursors, with locks really taken through the server
    let sizes: Vec<usize> = if q { vec![0, 1, 2, 3, 5, 8, 13, 99, 100, 101, 102, 150, 199, 200, 201, 205] } else { (0..=40).chain(95..=105).chain(195..=205).chain([300, 301, 512, 1000]).collect() };
    pool(sizes.len(), world, |w, i| {
        let n = sizes[i];
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        let locks: Vec<Request> = (0..n).map(|k| lock(format!("path/{}", k).as_bytes())).collect();
        for ch in locks.chunks(100) {
            if run_judged(rep, w, &mut m, Mode::Up, &ch.iter().collect::<Vec<_>>(), "taking locks").is_none() {
                return;
            }
        }
        let mut limits: Vec<Option<u64>> = vec![None];
        limits.extend([1u64, 2, 3, 7, 50, 99, 100, 101, 102, 200, 1000].map(Some));
        for mode in modes {
            for &l in &limits {
                if l.map(|x| n as u64 / x > 60).unwrap_or(false) {
                    continue;
                }
                let mut cur: Option<Vec<u8>> = None;
                let mut got: Vec<String> = vec![];
                let eff = l.unwrap_or(100).min(100) as usize;
                let ctx = format!("{} locks, limit {:?}, following the cursors", n, l);
                for step in 0.. {
                    let r = list(l, cur.as_deref(), None);
                    let o = match run_judged(rep, w, &mut m, mode, &[&r], &ctx) {
                        Some(o) => o,
                        None => return,
                    };
                    let (v, next) = lock_list(&parse_session(&o.out).unwrap()[0]).unwrap();
                    if v.len() > eff || step > n + 2 {
                        rep.violation(&ctx, &format!("{}: page of {} locks, page number {}", ctx, v.len(), step), "");
                        return;
                    }
                    got.extend(v.into_iter().map(|x| x.id));
                    match next {
                        Some(x) => cur = Some(x.into_bytes()),
                        None => break,
                    }
                }
                let want: Vec<String> = m.locks.keys().cloned().collect();
                rep.count("chains", 1);
                if got != want {
                    rep.violation(&ctx, &format!("{}: the pages together have {} locks instead of {}", ctx, got.len(), want.len()), &format!("{:?}", got));
                }
            }
        }
    });
    rep.scope("chains of pages", rep.get("chains"));
}

// ------------------------------------------------------------------------------------------
// C19

/// Run a traced session with a controlled clock; the clock ticks before its `tick`th reading.
fn clocked(w: &World, op: &str, reqs: &[&Request], uid: u32, time0: i64, tick: Option<usize>) -> Outcome {
    w.note_case(op, uid, (1u64 << 40).wrapping_add(tick.map(|x| x as u64 + 1).unwrap_or(0)).wrapping_add((time0 as u64).wrapping_mul(1000)), &join(reqs));
    let mut cfg = tcfg(w, op, vec![join(reqs)], uid, time0);
    cfg.umask = 0;
    let mut nm = tracer::Names::default();
    let mut p = tracer::Proc::spawn(cfg, &mut nm);
    p.tick_at = tick;
    while !p.done() {
        p.step(tracer::Do::Run, &mut nm);
    }
    let st = p.status().unwrap();
    Outcome {
        out: p.stdout(),
        err: p.stderr(),
        code: if libc::WIFEXITED(st) { Some(libc::WEXITSTATUS(st)) } else { None },
        signal: if libc::WIFSIGNALED(st) { Some(libc::WTERMSIG(st)) } else { None },
        timeout: p.hung,
        t0: time0,
        t1: time0 + 10,
    }
}

pub fn c19(rep: &Report) {
    let q = rep.quick();
    let mut paths: Vec<Vec<u8>> = vec![vec![]];
    for c in 0..=255u8 {
        paths.push(vec![c]);
        paths.push(vec![b'a', c]);
        paths.push(vec![c, b'a']);
    }
    let special = b"\n\r\0 :=/.\\\xff\xc3\xa9v1a\"%";
    for &x in special {
        for &y in special {
            paths.push(vec![x, y]);
            if !q {
                for &z in special {
                    paths.push(vec![x, y, z]);
                }
            } else {
                paths.push(vec![x, y, b'q']);
            }
        }
    }
    for n in [3usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4000, 4091, 4092, 4093, 4094, 4095, 4096] {
        paths.push(bytes_of(n, 1));
        paths.push(vec![b'x'; n]);
        paths.push(vec![b'/'; n]);
        paths.push(vec![b'\n'; n]);
        paths.push(vec![b':'; n]);
    }
    // longer ones may be refused, but not granted and then reported in another way
    for n in [4097usize, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 60000, 65400, 65500].into_iter().chain(65430..65450).chain(65505..65510) {
        paths.push(bytes_of(n, 1));
        paths.push(vec![b'x'; n]);
    }
    if !q {
        for n in 2..4096 {
            if n % 3 == 0 {
                paths.push(bytes_of(n, 2));
            }
        }
    }
    for p in ["foo", "foo/", "/foo", "foo/bar", "FOO", "f\u{f6}\u{f6}", "fo\u{308}o", "v1:1:foo", "a:b:c", "path=foo", "lock foo", "../foo", "foo\nowner x ours", "id=0", " lead", "trail ", "size=5", "0000", "refname=x", "1:2", ":", "::", "-1:x"] {
        paths.push(p.as_bytes().to_vec());
        paths.push(lock_id(p.as_bytes()).into_bytes());
    }
    paths.sort();
    paths.dedup();
    let ids: BTreeSet<String> = paths.iter().map(|p| lock_id(p)).collect();
    assert_eq!(ids.len(), paths.len());
    let (u1, u2, u3) = (UIDS[0].0, UIDS[1].0, UIDS[2].0);
    let users = [(u1, u2), (u2, u1), (u2, u3), (u3, u3), (u1, u1)];
    pool(paths.len(), world, |w, i| {
        let p = &paths[i];
        let (owner, other) = users[i % users.len()];
        w.wipe();
        w.mk_lfs(0o777);
        let mut m = Model::default();
        let id = lock_id(p);
        let mut go = |op: &str, uid: u32, reqs: &[Request]| -> bool {
            let refs: Vec<&Request> = reqs.iter().collect();
            let o = Sess::new(w, op).user(uid).umask(0).run(&join(&refs));
            rep.count("sessions", 1);
            rep.count("requests", refs.len() as u64);
            let mode = if op == "upload" { Mode::Up } else { Mode::Down };
            let r = judge_session(&mut m, &refs, mode, &user_name(uid), &o).and_then(|_| m.compare_store(w));
            if let Err(e) = r {
                rep.violation(&format!("path of {} bytes: {}", p.len(), show(&p[..p.len().min(80)])), &format!("path of {} bytes: {}: {}", p.len(), show(&p[..p.len().min(40)]), e.chars().take(300).collect::<String>()), &detail(op, &names(&refs), &join(&refs), &o, &e));
                return false;
            }
            true
        };
        let _ = go("upload", owner, &[lock(p), lock(p), list(None, None, None), list(None, None, Some(p))])
            && go("upload", other, &[lock(p), list(None, None, None), list(None, None, Some(p)), list(Some(1), Some(id.as_bytes()), None)])
            && go("download", other, &[list(None, None, None), list(None, None, Some(p))])
            && go("upload", other, &[unlock(p), lock(p), list(None, None, Some(p))])
            && go("upload", owner, &[list(None, None, None), unlock(p), unlock(p), list(None, None, None)]);
        if i % 211 == 0 {
            rep.sample(format!("path {} owner {} other {}", show(&p[..p.len().min(60)]), owner, other));
        }
    });
    rep.scope("paths x responses x users", paths.len() as u64);
    // several locks at once, several owners, both kinds of marks in one listing
    let w = world();
    w.wipe();
    w.mk_lfs(0o777);
    let mut m = Model::default();
    for round in 0..if q { 3 } else { 12 } {
        for (uid, nm) in UIDS {
            let reqs: Vec<Request> = (0..6).map(|k| lock(format!("{}-{}-{}", nm, k, round % 4).as_bytes())).chain([list(None, None, None)]).collect();
            let refs: Vec<&Request> = reqs.iter().collect();
            let o = Sess::new(&w, "upload").user(*uid).umask(0).run(&join(&refs));
            rep.count("sessions", 1);
            if let Err(e) = judge_session(&mut m, &refs, Mode::Up, &user_name(*uid), &o) {
                rep.violation("several owners", &format!("several owners: {}", e), &detail("upload", &names(&refs), &join(&refs), &o, &e));
            }
        }
    }
    rep.scope("listings with locks of several owners", UIDS.len() as u64);
    // each of many users looks at the locks of all of them: names which are almost those of others
    let owners: Vec<u32> = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 33, 38, 42, 65534, 61, 610, 6100, 61000, 61001, 610010, 61009, 16100, 1, 11001, 4_294_967_294, 2_147_483_648].into_iter().collect::<BTreeSet<u32>>().into_iter().collect();
    w.wipe();
    w.mk_lfs(0o777);
    let mut m = Model::default();
    for u in &owners {
        let p = format!("of {}", u);
        let id = lock_id(p.as_bytes());
        w.add_lock_file(&id, &lock_content(T_HELD, p.as_bytes()), *u);
        m.locks.insert(id, LockRec { path: p.into_bytes(), time: T_HELD, owner: user_name(*u) });
    }
    for u in &owners {
        for (op, mode) in [("upload", Mode::Up), ("download", Mode::Down)] {
            let mut reqs = vec![list(None, None, None)];
            reqs.extend(owners.iter().step_by(5).map(|x| list(None, None, Some(format!("of {}", x).as_bytes()))));
            let refs: Vec<&Request> = reqs.iter().collect();
            let o = Sess::new(&w, op).user(*u).umask(0).run(&join(&refs));
            rep.count("sessions", 1);
            if let Err(e) = judge_session(&mut m, &refs, mode, &user_name(*u), &o) {
                rep.violation(&format!("locks of {} seen by {}", owners.len(), u), &format!("user {} looks at the locks of all: {}", u, e), &detail(op, &names(&refs), &join(&refs), &o, &e));
            }
        }
    }
    rep.scope("users looking at the locks of all users", owners.len() as u64 * 2);
    // what the environment and the configuration say about users and times
    let mut envs: Vec<(&str, String)> = vec![];
    for k in ["USER", "LOGNAME", "USERNAME", "SUDO_USER", "REMOTE_USER", "GIT_COMMITTER_NAME", "GIT_AUTHOR_NAME", "GIT_COMMITTER_EMAIL", "EMAIL", "GL_USER", "GITOSIS_USER", "SSH_USER"] {
        for v in ["", "root", "somebody else", &user_name(u1), &user_name(u2), &user_name(u3)] {
            envs.push((k, v.into()));
        }
    }
    for k in ["SUDO_UID", "UID", "EUID"] {
        for v in ["0".to_string(), u1.to_string(), u2.to_string()] {
            envs.push((k, v));
        }
    }
    for (k, v) in [
        ("TZ", "Asia/Kathmandu"), ("TZ", "XYZ-14:30"), ("TZ", "nonsense"), ("LC_ALL", "tr_TR.UTF-8"), ("LC_TIME", "de_DE"), ("LANG", "C.UTF-8"), ("HOSTNAME", "elsewhere"), ("SOURCE_DATE_EPOCH", "1000000000"),
        ("GIT_COMMITTER_DATE", "1000000000 +0000"), ("GIT_AUTHOR_DATE", "1000000000 +0000"), ("GIT_TEST_DATE_NOW", "1000000000"), ("FAKETIME", "2000-01-01 00:00:00"), ("SSH_CONNECTION", "10.0.0.1 1 10.0.0.2 22"), ("SSH_ORIGINAL_COMMAND", "git-lfs-transfer r download"),
        ("user.name", "somebody else"), ("user.email", "root@localhost"), ("lfs.locksverify", "false"), ("lfs.transfer.enablehrefrewrite", "true"), ("gitlab.user", "root"), ("author.name", "root"), ("committer.name", "root"), ("core.ignorecase", "true"), ("core.precomposeunicode", "true"),
    ] {
        envs.push((k, v.into()));
    }
    pool(envs.len() * 2, world, |w, i| {
        let (k, v) = &envs[i / 2];
        let (owner, other) = if i % 2 == 0 { (u1, u2) } else { (u3, u1) };
        w.wipe();
        w.mk_lfs(0o777);
        let mut m = Model::default();
        let config = w.repo.join("config");
        let saved = std::fs::read(&config).unwrap();
        let mut extra = vec![];
        if let Some(dot) = k.find('.').filter(|_| k.chars().any(|c| c.is_ascii_lowercase())) {
            let (sect, key) = (&k[..dot], k.rsplit('.').next().unwrap());
            std::fs::write(&config, [&saved[..], format!("[{}]\n\t{} = {}\n", sect, key, v).as_bytes()].concat()).unwrap();
        } else {
            extra.push((*k, Some(v.clone())));
        }
        // paths of which some are the same but for case and composition
        let (p, p2, p3) = (&b"F\xc3\xb6\xc3\xb6"[..], &b"f\xc3\xb6\xc3\xb6"[..], &b"Fo\xcc\x88o\xcc\x88"[..]);
        for (op, uid, changed, reqs) in [
            ("upload", owner, true, vec![lock(p), lock(p2), lock(p), list(None, None, None)]),
            ("upload", owner, false, vec![list(None, None, None), list(None, None, Some(p))]),
            ("upload", other, true, vec![lock(p), lock(p3), list(None, None, None), list(None, None, Some(p))]),
            ("upload", other, false, vec![list(None, None, None)]),
            ("download", other, true, vec![list(None, None, None), list(None, None, Some(p3))]),
            ("upload", owner, true, vec![list(None, None, None), unlock(p), lock(p), unlock(p2), list(None, None, None)]),
        ] {
            let refs: Vec<&Request> = reqs.iter().collect();
            let input = join(&refs);
            w.note_case(op, uid, i as u64, &input);
            let args = [w.repo.as_os_str(), std::ffi::OsStr::new(op)];
            let o = run_program_in(&bin("git-lfs-transfer"), &args, w, uid, 0, &input, 30, &w.dir, if changed { &extra } else { &[] });
            rep.count("sessions", 1);
            let mode = if op == "upload" { Mode::Up } else { Mode::Down };
            if let Err(e) = judge_session(&mut m, &refs, mode, &user_name(uid), &o).and_then(|_| m.compare_store(w)) {
                let key = format!("{} set to {}, users {} and {}", k, v, owner, other);
                rep.violation(&key, &format!("{}: {}", key, e.lines().next().unwrap_or("")), &detail(op, &names(&refs), &input, &o, &e));
                break;
            }
        }
        std::fs::write(&config, &saved).unwrap();
    });
    rep.scope("environments and configurations about users and times x users", envs.len() as u64 * 2);
    // the clock: any time, and a tick between any two readings of it
    let times: Vec<i64> = vec![-1, -2, -86_400, -86_401, -2_147_483_649, -3_155_673_600, 0, 1, 59, 86_399, 86_400, 951_782_399, 951_782_400, 1_000_000_000, 1_700_000_000, 2_147_483_646, 2_147_483_647, 2_147_483_648, 4_102_444_800, 4_294_967_295, 4_294_967_296, 253_402_300_799, 253_402_300_800, 1_709_164_800, 1_709_251_199, 1_735_689_599];
    let reqs: Vec<Request> = vec![lock(b"clock"), lock(b"clock"), list(None, None, None), list(None, None, Some(b"clock")), unlock(b"clock"), lock(b"clock"), list(None, None, None)];
    let ticks: Vec<Option<usize>> = std::iter::once(None).chain((0..24).map(Some)).collect();
    pool(times.len() * ticks.len(), world, |w, i| {
        let (t, tick) = (times[i / ticks.len()], ticks[i % ticks.len()]);
        w.wipe();
        w.mk_lfs(0o777);
        let mut m = Model::default();
        let refs: Vec<&Request> = reqs.iter().collect();
        let o = clocked(w, "upload", &refs, w.uid, t, tick);
        rep.count("sessions", 1);
        if let Err(e) = judge_session(&mut m, &refs, Mode::Up, &user_name(w.uid), &o).and_then(|_| m.compare_store(w)) {
            let k = format!("clock {} ticking before reading {:?}", t, tick);
            rep.violation(&k, &format!("{}: {}", k, e), &detail("upload", &names(&refs), &join(&refs), &o, &e));
            return;
        }
        // and much later
        let refs2 = [&reqs[3], &reqs[2], &reqs[0], &reqs[4]];
        let o = clocked(w, "upload", &refs2, w.uid, t + 1_000_000, None);
        if let Err(e) = judge_session(&mut m, &refs2, Mode::Up, &user_name(w.uid), &o) {
            let k = format!("lock taken at {} looked at later", t);
            rep.violation(&k, &format!("{}: {}", k, e), &detail("upload", &names(&refs2), &join(&refs2), &o, &e));
        }
    });
    rep.scope("times of day x a clock tick before any reading of the clock", (times.len() * ticks.len()) as u64);
    rep.assume("times are those of a real clock (1870 to 9999); owners are users with and without a passwd entry");
}

// ------------------------------------------------------------------------------------------
// C21

#[derive(Clone)]
enum Damage {
    /// the lock file of a path holds this
    Content(Vec<u8>),
    NoPermission,
    Directory(bool),
    Symlink(&'static str),
    /// a file of another name
    Foreign(Vec<u8>, Vec<u8>),
    ForeignDir(Vec<u8>),
    ForeignLink(Vec<u8>, &'static str),
}

pub fn c21(rep: &Report) {
    use std::os::unix::ffi::OsStrExt;
    let q = rep.quick();
    let victim: &[u8] = b"victim";
    let vid = lock_id(victim);
    let good = lock_content(T_HELD, victim);
    let mut dmg: Vec<(String, Damage)> = vec![];
    let content = |v: &mut Vec<(String, Damage)>, c: Vec<u8>| v.push((format!("content {}", show(&c[..c.len().min(100)])), Damage::Content(c)));
    for n in 0..good.len() {
        content(&mut dmg, good[..n].to_vec());
    }
    let subs: Vec<u8> = if q { b"\0\n:x0 \xffv9-".to_vec() } else { (0..=255).collect() };
    for i in 0..good.len() {
        for &c in &subs {
            let mut g = good.clone();
            g[i] = c;
            content(&mut dmg, g);
        }
        let mut g = good.clone();
        g.remove(i);
        content(&mut dmg, g.clone());
        for &c in if q { &b":\n\0v"[..] } else { &subs[..] } {
            let mut g = good.clone();
            g.insert(i, c);
            content(&mut dmg, g);
        }
    }
    for t in [
        "", " ", "x", "0", "-1", "-0", "1e3", "1.5", "0x10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999",
        "8000000000000", "-8000000000000", "9000000000000", "-9000000000000", "1000000000000000", "-1000000000000000", "253402300800", "-62135596801", "-62167219200", "-99999999999", "1234567890 ", " 1234567890", "1234567890\n", "\u{ff11}",
        "0000000000000000000000000000001",
    ] {
        content(&mut dmg, format!("v1:{}:victim", t).into_bytes());
        content(&mut dmg, format!("v1:{}:other", t).into_bytes());
    }
    for p in ["held", "other/held", "victim ", " victim", "victi", "victim2", "VICTIM", "", "victim\n", "victim\0", "../victim", "free"] {
        content(&mut dmg, lock_content(T_HELD, p.as_bytes()));
    }
    for v in ["v0", "v2", "V1", "v10", "v", "1", "", "v1 ", " v1", "v1\n"] {
        content(&mut dmg, format!("{}:5:victim", v).into_bytes());
    }
    for g in [&b"\xff\xfe\xfd"[..], b"::", b":::", b"v1::", b"v1:5:", b"v1:\xff:victim", b"v1:5", b"v1", b"v1:5:vic:tim", b"\0\0\0\0\0\0\0\0\0\0\0\0", b"v1:1234567890:victimv1:1234567890:victim"] {
        content(&mut dmg, g.to_vec());
    }
    content(&mut dmg, vec![b'x'; 100_000]);
    content(&mut dmg, lock_content(5, &vec![b'p'; 100_000]));
    content(&mut dmg, vec![b':'; 5000]);
    dmg.push(("no permission".into(), Damage::NoPermission));
    dmg.push(("empty directory".into(), Damage::Directory(false)));
    dmg.push(("directory with a file".into(), Damage::Directory(true)));
    for l in ["nowhere", "loop", "/nonexistent/x", ".", "..", "/dev/null", "../../config", "0000"] {
        dmg.push((format!("symlink to {}", l), Damage::Symlink(l)));
    }
    let hid = lock_id(HELD);
    let mut fnames: Vec<Vec<u8>> = vec![b"foo".to_vec(), b".hidden".to_vec(), b"0".to_vec(), b"zzz".to_vec(), b"~".to_vec(), b"a b".to_vec(), b"new\nline".to_vec(), b"\xff\xfe".to_vec(), b"lost+found".to_vec(), b".nfs0001".to_vec(), b"README".to_vec()];
    for v in [vid.clone(), hid.clone()] {
        fnames.push(v.to_uppercase().into_bytes());
        fnames.push(v.as_bytes()[..63].to_vec());
        fnames.push(format!("{}0", v).into_bytes());
        fnames.push(format!("{}.lock", v).into_bytes());
        fnames.push(format!("{}.1-0.lock", v).into_bytes());
        fnames.push(format!("{}~", v).into_bytes());
        fnames.push(format!("{}.tmp", v).into_bytes());
        fnames.push(format!(".{}", v).into_bytes());
        fnames.push(format!("{}g", &v[..63]).into_bytes());
        fnames.push(format!("{} ", v).into_bytes());
        fnames.push([v.as_bytes()[..62].to_vec(), b"\xc3\xa9".to_vec()].concat());
    }
    for f in &fnames {
        for c in [good.clone(), lock_content(5, HELD), b"junk".to_vec(), vec![], lock_content(9_000_000_000_000_000, victim)] {
            dmg.push((format!("foreign file {} holding {}", show(f), show(&c)), Damage::Foreign(f.clone(), c)));
        }
        dmg.push((format!("foreign directory {}", show(f)), Damage::ForeignDir(f.clone())));
        dmg.push((format!("foreign symlink {}", show(f)), Damage::ForeignLink(f.clone(), "nowhere")));
        dmg.push((format!("foreign symlink {} to a lock", show(f)), Damage::ForeignLink(f.clone(), "HELD")));
    }
    for z in ["0".repeat(64), "f".repeat(64), lock_id(b"nobody")] {
        for c in [good.clone(), b"junk".to_vec(), vec![], lock_content(5, b"somebody")] {
            dmg.push((format!("file {} holding {}", z, show(&c)), Damage::Foreign(z.clone().into_bytes(), c)));
        }
    }
    dmg.sort_by(|a, b| a.0.cmp(&b.0));
    dmg.dedup_by(|a, b| a.0 == b.0);
    let other: &[u8] = b"free";
    let is_valid = |c: &[u8]| -> Option<Option<i64>> {
        // Some(Some(t)): certainly a valid lock; Some(None): certainly not; None: either is fine
        let (t, p) = match parse_lock_file(c) {
            Some(x) => x,
            None => return Some(None),
        };
        if p != victim {
            return Some(None);
        }
        let ts = &c[3..3 + c[3..].iter().position(|&x| x == b':').unwrap()];
        if ts != t.to_string().as_bytes() {
            return None; // "+5", leading zeros
        }
        if (-8_200_000_000_000..=8_200_000_000_000).contains(&t) {
            Some(Some(t))
        } else if t.abs_diff(0) > 8_400_000_000_000 {
            Some(None)
        } else {
            None
        }
    };
    let b = Base::new();
    pool(dmg.len() * 2, world, |w, i| {
        let (name, d) = &dmg[i / 2];
        let mode = if i % 2 == 0 { Mode::Up } else { Mode::Down };
        let mut m = b.setup(w);
        let locks = w.lfs.join("locks");
        let vf = locks.join(&vid);
        let own = |p: &std::path::Path| chown(p, w.uid);
        let mut names_victim = true; // does something sit at the victim's name
        let mut either = false;
        match d {
            Damage::Content(c) => {
                w.add_lock_file(&vid, c, w.uid);
                match is_valid(c) {
                    Some(Some(t)) => {
                        m.locks.insert(vid.clone(), LockRec { path: victim.to_vec(), time: t, owner: user_name(w.uid) });
                    }
                    Some(None) => {}
                    None => either = true,
                }
            }
            Damage::NoPermission => {
                w.add_lock_file(&vid, &good, 0);
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&vf, std::fs::Permissions::from_mode(0)).unwrap();
            }
            Damage::Directory(f) => {
                std::fs::create_dir(&vf).unwrap();
                own(&vf);
                if *f {
                    std::fs::write(vf.join("x"), &good).unwrap();
                }
            }
            Damage::Symlink(t) => {
                let t: &str = match *t {
                    "loop" => &vid,
                    x => x,
                };
                std::os::unix::fs::symlink(t, &vf).unwrap();
            }
            Damage::Foreign(n, c) => {
                names_victim = false;
                let f = locks.join(std::ffi::OsStr::from_bytes(n));
                std::fs::write(&f, c).unwrap();
                own(&f);
            }
            Damage::ForeignDir(n) => {
                names_victim = false;
                let f = locks.join(std::ffi::OsStr::from_bytes(n));
                std::fs::create_dir(&f).unwrap();
                own(&f);
            }
            Damage::ForeignLink(n, t) => {
                names_victim = false;
                let t = if *t == "HELD" { hid.as_str() } else { t };
                std::os::unix::fs::symlink(t, locks.join(std::ffi::OsStr::from_bytes(n))).unwrap();
            }
        }
        if either {
            return;
        }
        let valid = m.locks.contains_key(&vid);
        let damaged = names_victim && !valid;
        // What is asked about the damaged lock must be refused; nothing may be invented.
        let mk = |mut r: Request| -> Request {
            if damaged {
                r.op = Op::Bad;
            }
            r
        };
        let mut reqs: Vec<Request> = vec![list(None, None, None), list(Some(1), None, None), list(Some(2), None, None), list(None, Some(vid.as_bytes()), None), list(None, Some(succ(&vid, true).as_bytes()), None), list(None, None, Some(HELD)), list(None, None, Some(b"never"))];
        if let Damage::Foreign(n, _) | Damage::ForeignDir(n) | Damage::ForeignLink(n, _) = d {
            if !n.contains(&b' ') && !n.ends_with(b"\n") {
                let mut r = unlock_id(n);
                r.op = Op::Bad;
                reqs.push(r);
            }
            reqs.push(list(None, Some(n), None));
        }
        let mut lp = list(None, None, Some(victim));
        if damaged {
            lp.op = Op::Bad;
        }
        reqs.push(lp);
        reqs.push(mk(lock(victim)));
        reqs.push(mk(unlock(victim)));
        reqs.push(list(None, None, None));
        reqs.push(lock(other));
        reqs.push(lock(HELD));
        reqs.push(unlock(HELD2));
        reqs.push(list(None, None, None));
        reqs.push(unlock(other));
        let refs: Vec<&Request> = reqs.iter().collect();
        let input = join(&refs);
        let o = Sess::new(w, mode.arg()).run(&input);
        rep.count("sessions", 1);
        rep.count("requests", refs.len() as u64);
        let r = (|| -> Result<(), String> {
            judge_session(&mut m, &refs, mode, &user_name(w.uid), &o)?;
            for (k, x) in parse_session(&o.out)?.iter().enumerate() {
                if refs[k].op == Op::Bad && !x.args.is_empty() && damaged && (x.arg("path").is_some() || x.arg("id").is_some()) {
                    return Err(format!("request {} ({}) shows invented data: {}", k, refs[k].name, x.show()));
                }
            }
            // the other locks are as the model says
            for (id, rec) in &m.locks {
                let c = std::fs::read(locks.join(id)).map_err(|e| format!("lock {} is gone: {}", show(&rec.path), e))?;
                if parse_lock_file(&c) != Some((rec.time, rec.path.clone())) {
                    return Err(format!("lock file of {} changed to {}", show(&rec.path), show(&c)));
                }
            }
            for e in std::fs::read_dir(&locks).map_err(|e| e.to_string())?.flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if valid_oid(&n) && !m.locks.contains_key(&n) && !(damaged && n == vid) && !matches!(d, Damage::Foreign(f, _) if *f == n.as_bytes()) {
                    return Err(format!("lock {} appeared or was not removed", n));
                }
            }
            Ok(())
        })();
        if i % 173 == 0 {
            rep.sample(format!("{} session with {}", mode.arg(), name));
        }
        if let Err(e) = r {
            rep.violation(&format!("{} {}", mode.arg(), name), &format!("{} ({}): {}", name, mode.arg(), e), &detail(mode.arg(), &names(&refs), &input, &o, &e));
        }
    });
    rep.scope("kinds of damage x both modes, each with all requests about the damaged and about other locks", dmg.len() as u64 * 2);
    // two damaged files at once
    let kinds: Vec<usize> = (0..dmg.len()).step_by((dmg.len() / if q { 40 } else { 150 }).max(1)).filter(|&i| matches!(dmg[i].1, Damage::Content(_) | Damage::Foreign(..))).collect();
    let n = kinds.len();
    pool(n * n, world, |w, i| {
        let mut m = b.setup(w);
        let v2 = lock_id(b"second");
        let (x, y) = (&dmg[kinds[i / n]], &dmg[kinds[i % n]]);
        for (k, d) in [&x.1, &y.1].iter().enumerate() {
            match d {
                Damage::Content(c) => {
                    // not valid under the other name, whatever it holds
                    if k == 0 && is_valid(c) != Some(None) {
                        return;
                    }
                    w.add_lock_file(if k == 0 { &vid } else { &v2 }, c, w.uid);
                }
                Damage::Foreign(n, c) => {
                    let f = w.lfs.join("locks").join(std::ffi::OsStr::from_bytes(n));
                    std::fs::write(&f, c).unwrap();
                    chown(&f, w.uid);
                }
                _ => {}
            }
        }
        let reqs = [list(None, None, None), list(Some(1), None, None), lock(other), unlock(HELD), list(None, None, None)];
        let refs: Vec<&Request> = reqs.iter().collect();
        let o = Sess::new(w, "upload").run(&join(&refs));
        rep.count("sessions", 1);
        if let Err(e) = judge_session(&mut m, &refs, Mode::Up, &user_name(w.uid), &o) {
            rep.violation(&format!("pair {} + {}", x.0, y.0), &format!("{} and {}: {}", x.0, y.0, e), &detail("upload", &names(&refs), &join(&refs), &o, &e));
        }
    });
    rep.scope("pairs of damaged or foreign files", (n * n) as u64);
    rep.assume("FIFOs and devices in the locks directory are not covered; times within 2% of the largest representable date may be accepted or refused");
}
