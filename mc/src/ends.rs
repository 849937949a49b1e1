//! How a session ends: its exit status and the message on standard error.
use crate::model::*;
use crate::proto::*;
use crate::seq::*;
use crate::vutil::*;
use crate::world::*;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// an orderly end
    Zero,
    /// another status than 0, and a message
    Fail,
    /// as above, or killed by the signal which the system sends for that
    FailOrSignal,
    /// either, but by itself
    Any,
}

#[derive(Default)]
pub struct Io {
    pub stdin: Option<fs::File>,
    pub stdout: Option<fs::File>,
    /// the largest size a file may get, and whether the signal is ignored
    pub fsize: Option<(u64, bool)>,
    /// the number of open files and of bytes of memory the program may have
    pub room: Option<(u64, u64)>,
    /// seconds, if not 30
    pub patience: Option<u64>,
}

pub fn go(w: &World, args: &[OsString], input: &[u8], io: Io) -> Outcome {
    w.note_case(&format!("{:?} {:?} {:?}", args, io.fsize, io.room), w.uid, io.stdout.is_some() as u64 + 2 * io.stdin.is_some() as u64, input);
    let fin = io.stdin.unwrap_or_else(|| memfile(input));
    let fout = memfile(b"");
    // a pipe, which no limit on the size of files concerns
    let mut ep = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(ep.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
    let (mut ferr, errw) = unsafe { (fs::File::from_raw_fd(ep[0]), fs::File::from_raw_fd(ep[1])) };
    let mut c = Command::new(bin("git-lfs-transfer"));
    c.args(args).env_clear().current_dir(&w.dir);
    for (k, v) in w.env() {
        c.env(k, v);
    }
    c.stdin(Stdio::from(fin));
    c.stdout(Stdio::from(io.stdout.unwrap_or_else(|| fout.try_clone().unwrap())));
    c.stderr(Stdio::from(errw));
    let (uid, fsize, room) = (w.uid, io.fsize, io.room);
    let patience = Duration::from_secs(io.patience.unwrap_or(30));
    unsafe {
        c.pre_exec(move || {
            libc::umask(0o022);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
            if let Some((n, ignore)) = fsize {
                let lim = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
                if ignore {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
            }
            if libc::setgroups(0, std::ptr::null()) != 0 || libc::setresgid(uid, uid, uid) != 0 || libc::setresuid(uid, uid, uid) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            if let Some((files, bytes)) = room {
                let lim = libc::rlimit { rlim_cur: files, rlim_max: files };
                libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
                let lim = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
            }
            Ok(())
        });
    }
    let t0 = unix_now();
    let mut child = match c.spawn() {
        Ok(x) => x,
        // no room even to start
        Err(e) if room.is_some() => return Outcome { out: vec![], err: e.to_string().into_bytes(), code: Some(127), signal: None, timeout: false, t0, t1: t0 },
        Err(e) => panic!("cannot start git-lfs-transfer: {}", e),
    };
    drop(c);
    let start = Instant::now();
    let mut timeout = false;
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > patience {
            timeout = true;
            child.kill().unwrap();
            break child.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let mut err = vec![];
    ferr.read_to_end(&mut err).unwrap();
    Outcome { out: contents(&fout), err, code: st.code(), signal: if timeout { None } else { st.signal() }, timeout, t0, t1: unix_now() }
}

fn judge(o: &Outcome, want: Want) -> Result<(), String> {
    if want == Want::FailOrSignal && matches!(o.signal, Some(libc::SIGPIPE | libc::SIGXFSZ)) {
        return Ok(());
    }
    if let Some(c) = o.crashed() {
        return Err(c);
    }
    match (want, o.code) {
        (Want::Any, _) | (Want::Zero, Some(0)) => Ok(()),
        (Want::Zero, c) => Err(format!("an orderly session ended with status {:?} and the message {}", c, show(&o.err))),
        (_, Some(0)) => Err("it reported success".into()),
        _ if o.err.is_empty() => Err("it failed without a message".into()),
        _ => Ok(()),
    }
}

/// Nothing but whole answers and, where one may be cut, the start of one.
fn protocol_only(o: &Outcome, started: bool) -> Result<(), String> {
    if o.out.is_empty() && !started {
        return Ok(());
    }
    parse_session(&o.out).map(|_| ()).map_err(|e| format!("standard output is not made of answers: {}", e))
}

fn usual(w: &World, op: &str) -> Vec<OsString> {
    vec![w.repo.clone().into_os_string(), op.into()]
}

fn pipe_without_reader() -> fs::File {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        libc::close(p[0]);
        fs::File::from_raw_fd(p[1])
    }
}

/// A connection over which all this arrives before it is reset.
pub fn reset_after(input: &[u8]) -> fs::File {
    use std::io::Write;
    let mut p = [0i32; 2];
    let (a, mut b) = unsafe {
        assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0);
        (fs::File::from_raw_fd(p[0]), fs::File::from_raw_fd(p[1]))
    };
    b.write_all(input).unwrap();
    // what the other side leaves unread makes its end of the connection a reset
    (&a).write_all(b"x").unwrap();
    a
}

pub fn c31(rep: &Report) {
    let q = rep.quick();
    let b = Base::new();
    let world = || World::new(UID, None);
    let alarm = |key: String, text: String, mode: &str, input: &[u8], o: &Outcome, e: &str| {
        rep.violation(&key, &format!("{}: {}", text, e), &detail(mode, &text, input, o, e));
    };
    // 1. orderly sessions, whatever becomes of their requests
    let menu = menu(&b);
    let n = menu.len();
    let step = if q { 13 } else { 3 };
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).filter(move |j| (i + j) % step == 0).map(move |j| (i, j))).collect();
    pool((n + pairs.len()) * 2, world, |w, x| {
        let op = ["upload", "download"][x % 2];
        let reqs: Vec<&Request> = if x / 2 < n { vec![&menu[x / 2]] } else { let (i, j) = pairs[x / 2 - n]; vec![&menu[i], &menu[j]] };
        b.setup(w);
        let input = join(&reqs);
        let o = go(w, &usual(w, op), &input, Io::default());
        if let Err(e) = judge(&o, Want::Zero).and_then(|_| protocol_only(&o, true)) {
            alarm(format!("orderly {} {}", op, names(&reqs)), format!("{} session [{}]", op, names(&reqs)), op, &input, &o, &e);
        }
    });
    rep.scope("orderly sessions of one or two requests, served or refused, both modes", (n + pairs.len()) as u64 * 2);
    // 2. sessions cut at every byte, and with illegal headers at every packet
    let big = vec![b'z'; 300];
    let sessions: Vec<(&str, Vec<Request>)> = vec![
        ("upload", vec![version(), put(b"abc123"), lock(b"p"), list(None, None, None)]),
        ("upload", vec![put_as(&oid_of(b"hello world"), 11, b"hello world", 4), unlock(HELD), verify(&b.a, DATA_A.len() as u64), lock(HELD)]),
        ("upload", vec![batch(&[(&b.a, 1), (&b.absent, 2)]), put_as(&oid_of(b"x"), 1, b"yy", 1), put(&big), quit()]),
        ("upload", vec![bad_put(), bad("unknown", Req::cmd("nope\n").arg("a=b").flush()), unlock(HELD2)]),
        ("download", vec![version(), batch(&[(&b.a, 1), (&b.absent, 2)]), get(&b.a), get(&b.absent), list(Some(1), None, None), quit()]),
        ("download", vec![put(b"refused"), lock(b"refused"), verify(&b.a, 1), get("zz")]),
    ];
    let mut cases: Vec<(&str, Vec<u8>, Want, String)> = vec![];
    let mut resets: Vec<(&str, Vec<u8>, Want, String)> = vec![];
    for (si, (op, reqs)) in sessions.iter().enumerate() {
        let refs: Vec<&Request> = reqs.iter().collect();
        let full = join(&refs);
        let mut at = 0;
        for r in reqs {
            let first = at + usize::from_str_radix(std::str::from_utf8(&r.bytes[..4]).unwrap(), 16).unwrap();
            let end = at + r.bytes.len();
            let quits = r.op == Op::Quit;
            for cut in at..end {
                let want = match cut {
                    _ if cut == at => Want::Zero,
                    // whether a request has begun is a matter of taste here
                    _ if cut < first || quits => Want::Any,
                    _ => Want::Fail,
                };
                cases.push((op, full[..cut].to_vec(), want, format!("session {} cut at byte {}", si, cut)));
                resets.push((op, full[..cut].to_vec(), if quits && cut > at { Want::Any } else { Want::Fail }, format!("session {} reset at byte {}", si, cut)));
            }
            let mut p = at;
            while p < end {
                for h in [&b"zzzz"[..], b"0002", b"0003", b"fff1", b"ffff", b"00:0", b"000G", b"    ", b"\0\0\0\0", b"+005", b"\xff\xff\xff\xff"] {
                    for tail in [&full[p..], b""] {
                        let input = [&full[..p], h, tail].concat();
                        let want = if quits && p > at { Want::Any } else { Want::Fail };
                        cases.push((op, input, want, format!("session {} with header {} at byte {} followed by {} bytes", si, show(h), p, tail.len())));
                    }
                }
                let l = usize::from_str_radix(std::str::from_utf8(&full[p..p + 4]).unwrap(), 16).unwrap();
                p += l.max(4);
            }
            at = end;
        }
        cases.push((op, full.clone(), Want::Zero, format!("session {} in full", si)));
        if reqs.last().unwrap().op == Op::Quit {
            for more in [&b"0000"[..], b"zzzz", b"00", b"000equit\n\n\n\n\n\n", b"0009quit\n0000"] {
                cases.push((op, [&full, more].concat(), Want::Zero, format!("session {} with {} after its quit", si, show(more))));
            }
        }
    }
    let cuts = cases.len();
    cases.extend(resets);
    pool(cases.len(), world, |w, i| {
        let (op, input, want, name) = &cases[i];
        b.setup(w);
        let o = go(w, &usual(w, op), input, Io { stdin: if i < cuts { None } else { Some(reset_after(input)) }, ..Io::default() });
        if let Err(e) = judge(&o, *want).and_then(|_| protocol_only(&o, true)) {
            alarm(format!("cut {}", name), name.clone(), op, input, &o, &e);
        }
        if i % 499 == 0 {
            rep.sample(format!("{}: {:?}", name, want));
        }
    });
    rep.scope("sessions cut or reset at every byte, or with an illegal header at every packet", cases.len() as u64);
    // 3. answers that cannot be written, or not completely
    let readers: Vec<(&str, Vec<Request>)> = vec![
        ("download", vec![]),
        ("download", vec![version()]),
        ("download", vec![get(&b.a), get(&b.absent), list(None, None, None)]),
        ("download", vec![batch(&[(&b.a, 1), (&b.absent, 2)]), quit()]),
        ("upload", vec![verify(&b.a, 1), verify(&b.a, DATA_A.len() as u64), lock(HELD)]),
        ("upload", vec![batch(&[(&b.a, 1), (&b.absent, 2)]), list(None, None, None), bad("unknown", Req::cmd("nope\n").arg("a=b").flush())]),
        ("upload", vec![quit()]),
    ];
    let k = std::sync::atomic::AtomicU64::new(0);
    pool(readers.len(), world, |w, i| {
        let (op, reqs) = &readers[i];
        let refs: Vec<&Request> = reqs.iter().collect();
        let input = join(&refs);
        b.setup(w);
        let whole = go(w, &usual(w, op), &input, Io::default());
        let total = whole.out.len();
        let p = w.dir.join("answers");
        let try_one = |what: String, io: Io, want: Want| {
            b.setup(w);
            let o = go(w, &usual(w, op), &input, io);
            k.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let mut r = judge(&o, want);
            if r.is_ok() && p.exists() {
                let got = fs::read(&p).unwrap();
                if !whole.out.starts_with(&got) && want != Want::Zero {
                    r = Err("something else than the start of the answers was written".into());
                }
                fs::remove_file(&p).unwrap();
            }
            if let Err(e) = r {
                alarm(format!("output {} {}", what, i), format!("{} session [{}] with {}", op, names(&refs), what), op, &input, &o, &e);
            }
        };
        try_one("a full disk".into(), Io { stdout: Some(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()), ..Io::default() }, Want::Fail);
        try_one("a closed pipe".into(), Io { stdout: Some(pipe_without_reader()), ..Io::default() }, Want::FailOrSignal);
        for s in (0..total + 2).step_by(if q && total > 100 { 3 } else { 1 }).chain([total - 1, total]) {
            for ignore in [false, true] {
                let f = fs::File::create(&p).unwrap();
                chown(&p, w.uid);
                let want = if s >= total { Want::Zero } else { Want::FailOrSignal };
                try_one(format!("room for {} of {} bytes{}", s, total, if ignore { ", signal ignored" } else { "" }), Io { stdout: Some(f), fsize: Some((s as u64, ignore)), ..Io::default() }, want);
            }
        }
        // an input that cannot be read
        try_one("a directory for its input".into(), Io { stdin: Some(fs::File::open(&w.dir).unwrap()), ..Io::default() }, Want::Fail);
    });
    rep.scope("sessions x outputs that cannot be written, or not completely, and inputs that cannot be read", k.into_inner());
    // 4. ill-formed command lines, unknown operations, paths that lead to no repository
    let w = World::new(UID, None);
    let repo = w.repo.clone().into_os_string();
    let mut lines: Vec<(String, Vec<OsString>)> = vec![];
    let os = |s: &str| OsString::from(s);
    for (n, l) in [
        ("nothing", vec![]),
        ("a path only", vec![repo.clone()]),
        ("an operation only", vec![os("upload")]),
        ("one argument too many", vec![repo.clone(), os("upload"), os("more")]),
        ("an option", vec![os("--nope"), repo.clone(), os("upload")]),
        ("an option at the end", vec![repo.clone(), os("upload"), os("--nope")]),
        ("a short option", vec![os("-x"), repo.clone(), os("upload")]),
        ("nothing after --", vec![os("--")]),
        ("the operation first", vec![os("upload"), repo.clone()]),
    ] {
        lines.push((n.to_string(), l));
    }
    for op in [&b"Upload"[..], b"UPLOAD", b"uploads", b"upload ", b" upload", b"up", b"", b"download\n", b"Download", b"both", b"transfer", b"lock", b"0", b"\xff", b"upload\xff", b"\xc3\xbcpload"] {
        lines.push((format!("operation {}", show(op)), vec![repo.clone(), OsStr::from_bytes(op).to_owned()]));
    }
    // an option there is not, anywhere on the command line
    let not_text = OsStr::from_bytes(b"/nowhere/\xff").to_owned();
    for odd in [&b"--nope"[..], b"--nope=1", b"--nope=\xff", b"--n\xffpe", b"--\xff", b"--\xff=x", b"---", b"-x", b"-\xff", b"-x\xff", b"--help\xff", b"--operation=upload"] {
        let odd = OsStr::from_bytes(odd).to_owned();
        for path in [&repo, &not_text] {
            for op in [os("upload"), OsStr::from_bytes(b"\xff").to_owned()] {
                for l in [vec![odd.clone()], vec![odd.clone(), odd.clone()], vec![odd.clone(), path.clone()], vec![path.clone(), odd.clone()], vec![odd.clone(), path.clone(), op.clone()], vec![path.clone(), odd.clone(), op.clone()], vec![path.clone(), op.clone(), odd.clone()], vec![odd.clone(), os("--"), path.clone(), op.clone()]] {
                    lines.push((format!("unknown option {:?}", l.iter().map(|x| show(x.as_bytes()).replace(w.dir.to_str().unwrap(), "")).collect::<Vec<_>>()), l));
                }
            }
        }
    }
    let plain = w.dir.join("plain");
    fs::create_dir(&plain).unwrap();
    fs::write(w.dir.join("file"), b"gitdir: nowhere\n").unwrap();
    std::os::unix::fs::symlink(w.dir.join("nowhere"), w.dir.join("dangling")).unwrap();
    std::os::unix::fs::symlink(w.dir.join("loop"), w.dir.join("loop")).unwrap();
    fs::create_dir(w.dir.join("locked")).unwrap();
    fs::set_permissions(w.dir.join("locked"), fs::Permissions::from_mode(0o000)).unwrap();
    for p in ["plain", "file", "nowhere", "dangling", "loop", "locked", "locked/r.git", "r.git/objects", "r.git/HEAD", "r.git/HEAD/x", "r.git/refs/heads", "", "."] {
        for op in ["upload", "download", "nope"] {
            let p = if p.is_empty() { OsString::new() } else { w.dir.join(p).into_os_string() };
            lines.push((format!("path {} for {}", p.to_string_lossy().rsplit('/').next().unwrap(), op), vec![p, os(op)]));
        }
    }
    lines.push(("a path that is not UTF-8".into(), vec![OsStr::from_bytes(b"/nowhere/\xff").to_owned(), os("upload")]));
    let good = [version(), put(b"new"), lock(b"new"), list(None, None, None), quit()];
    let refs: Vec<&Request> = good.iter().collect();
    for (name, args) in &lines {
        for input in [vec![], join(&refs)] {
            let o = go(&w, args, &input, Io::default());
            let r = judge(&o, Want::Fail).and_then(|_| protocol_only(&o, false)).and_then(|_| match parse_session(&o.out) {
                Ok(v) if !v.is_empty() => Err("a request was answered".to_string()),
                _ => Ok(()),
            });
            if let Err(e) = r {
                alarm(format!("command line {}", name), format!("git-lfs-transfer {:?} ({})", args, name), "-", &input, &o, &e);
            }
        }
    }
    fs::set_permissions(w.dir.join("locked"), fs::Permissions::from_mode(0o755)).unwrap();
    rep.scope("ill-formed command lines, unknown operations and paths that lead nowhere, with and without input", lines.len() as u64 * 2);
    w.remove();
    // 5. stores that cannot be prepared
    type Spoil = (&'static str, fn(&Path));
    let spoils: Vec<Spoil> = vec![
        ("lfs is a file", |r| fs::write(r.join("lfs"), b"").unwrap()),
        ("lfs leads nowhere", |r| std::os::unix::fs::symlink("nowhere", r.join("lfs")).unwrap()),
        ("lfs leads to itself", |r| std::os::unix::fs::symlink("lfs", r.join("lfs")).unwrap()),
        ("objects is a file", |r| { fs::create_dir(r.join("lfs")).unwrap(); fs::write(r.join("lfs/objects"), b"").unwrap() }),
        ("incomplete is a file", |r| { fs::create_dir(r.join("lfs")).unwrap(); fs::write(r.join("lfs/incomplete"), b"").unwrap() }),
        ("tmp is a file", |r| { fs::create_dir(r.join("lfs")).unwrap(); fs::write(r.join("lfs/tmp"), b"").unwrap() }),
        ("locks is a file", |r| { fs::create_dir(r.join("lfs")).unwrap(); fs::write(r.join("lfs/locks"), b"").unwrap() }),
        ("locks leads nowhere", |r| { fs::create_dir(r.join("lfs")).unwrap(); std::os::unix::fs::symlink("nowhere", r.join("lfs/locks")).unwrap() }),
        ("the repository cannot be written", |r| fs::set_permissions(r, fs::Permissions::from_mode(0o555)).unwrap()),
        ("the repository cannot be searched", |r| fs::set_permissions(r, fs::Permissions::from_mode(0o444)).unwrap()),
        ("lfs cannot be written", |r| { fs::create_dir(r.join("lfs")).unwrap(); fs::set_permissions(r.join("lfs"), fs::Permissions::from_mode(0o555)).unwrap() }),
        ("the configuration is damaged", |r| fs::write(r.join("config"), b"[core\n").unwrap()),
        ("the configuration has a bad key", |r| fs::write(r.join("config"), b"[core]\n\tbare = true\n\t= 1\n").unwrap()),
        ("HEAD is missing", |r| fs::remove_file(r.join("HEAD")).unwrap()),
        ("refs is missing", |r| fs::remove_dir_all(r.join("refs")).unwrap()),
        ("objects of the repository is missing", |r| fs::remove_dir_all(r.join("objects")).unwrap()),
        ("a format of the future", |r| fs::write(r.join("config"), b"[core]\n\trepositoryformatversion = 99\n\tbare = true\n").unwrap()),
    ];
    for (name, f) in &spoils {
        for op in ["upload", "download"] {
            for input in [vec![], join(&refs)] {
                let w = World::new(UID, None);
                f(&w.repo);
                for e in ["lfs", "lfs/objects", "lfs/incomplete", "lfs/tmp", "lfs/locks"] {
                    if fs::symlink_metadata(w.repo.join(e)).is_ok() {
                        chown(&w.repo.join(e), w.uid);
                    }
                }
                let o = go(&w, &usual(&w, op), &input, Io::default());
                let r = judge(&o, Want::Fail).and_then(|_| protocol_only(&o, false)).and_then(|_| match parse_session(&o.out) {
                    Ok(v) if !v.is_empty() => Err("a request was answered".to_string()),
                    _ => Ok(()),
                });
                if let Err(e) = r {
                    alarm(format!("spoiled {}", name), format!("{} session where {}", op, name), op, &input, &o, &e);
                }
                let _ = fs::set_permissions(&w.repo, fs::Permissions::from_mode(0o755));
                w.remove();
            }
        }
    }
    rep.scope("stores that cannot be prepared x operations, with and without input", spoils.len() as u64 * 4);
}

fn bad_put() -> Request {
    bad("bad-put", Req::cmd("put-object zz\n").arg("size=4").delim().data(b"quit").flush())
}
