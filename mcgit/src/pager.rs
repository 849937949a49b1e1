//! The pager of git-recent-refs: C28.
use crate::run::*;
use crate::vutil::*;
use std::ffi::OsString;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct TtyOut {
    /// had the pager made its mark when the program ended
    marked: bool,
    /// everything the terminal got
    all: Vec<u8>,
    err: Vec<u8>,
    code: Option<i32>,
    signal: Option<i32>,
    timeout: bool,
}

impl TtyOut {
    fn show(&self) -> String {
        let cut = |v: &[u8]| format!("{} bytes \"{}\"", v.len(), show(&v[..v.len().min(300)]));
        format!("status {:?}, signal {:?}, timeout {}, mark of the pager's end {}, terminal: {}, stderr: {}", self.code, self.signal, self.timeout, self.marked, cut(&self.all), cut(&self.err))
    }
}

/// Run git-recent-refs on a terminal.
fn on_terminal(r: &Repo, args: &[&str], env: &[(OsString, OsString)]) -> TtyOut {
    RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let done = r.git.join("pager-done");
    let _ = fs::remove_file(&done);
    let (m, s) = pty();
    let ferr = memfile();
    let mut c = Command::new(bin("git-recent-refs"));
    c.args(args).env_clear().current_dir(&r.git);
    for (k, v) in r.env() {
        c.env(k, v);
    }
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::null()).stdout(Stdio::from(s)).stderr(Stdio::from(ferr.try_clone().unwrap()));
    limit(&mut c);
    let mut child = c.spawn().expect("cannot start git-recent-refs");
    drop(c); // and with it this side's descriptor of the terminal
    let start = Instant::now();
    let mut all = vec![];
    let mut timeout = false;
    let st = loop {
        let pfd = m.as_raw_fd();
        let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, 2) };
        all.extend(drain(&m));
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if p.revents & libc::POLLHUP != 0 {
            std::thread::sleep(Duration::from_millis(1));
        }
        if start.elapsed() > Duration::from_secs(60) {
            timeout = true;
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    let marked = done.exists();
    // the pager may go on; wait until nobody has the terminal any more
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(20) {
        let mut p = libc::pollfd { fd: m.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut p, 1, 100) };
        all.extend(drain(&m));
        if p.revents & libc::POLLHUP != 0 && p.revents & libc::POLLIN == 0 {
            break;
        }
    }
    TtyOut { marked, all, err: contents(&ferr), code: st.code(), signal: st.signal(), timeout }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// nothing between the program and the terminal
    None,
    /// passes everything on, marked with this
    Filter(&'static str),
    /// the same, but takes its time after the end of its input, and then creates a file
    Slow(&'static str),
    /// does not read, or not everything
    Early,
}

struct Pg {
    cmd: &'static str,
    kind: Kind,
}

const fn pg(cmd: &'static str, kind: Kind) -> Pg {
    Pg { cmd, kind }
}

/// `less` stands for a program of that name on the PATH.
const LESS: Pg = pg("less", Kind::Filter("LESS:"));

fn expect(lines: &[u8], mark: &str) -> Vec<u8> {
    let mut v = vec![];
    for l in lines.split_inclusive(|&c| c == b'\n') {
        v.extend(mark.bytes());
        v.extend(l);
    }
    v
}

fn judge(o: &TtyOut, pgr: &Pg, lines: &[u8]) -> Result<(), String> {
    if o.timeout {
        return Err("the program does not end".into());
    }
    if o.code == Some(101) || o.signal.map(|s| s != libc::SIGPIPE).unwrap_or(false) {
        return Err("the program crashes".into());
    }
    let want = match pgr.kind {
        Kind::None => lines.to_vec(),
        Kind::Filter(m) => expect(lines, m),
        Kind::Slow(m) => [expect(lines, m), b"END\n".to_vec()].concat(),
        Kind::Early => return Ok(()),
    };
    if o.code != Some(0) {
        return Err("the program does not end with status 0".into());
    }
    if o.all != want {
        return Err(match pgr.kind {
            Kind::None => "the terminal did not get exactly the lines".into(),
            _ => format!("the terminal did not get exactly the lines as passed on by the pager ({})", pgr.cmd),
        });
    }
    if let (Kind::Slow(_), false) = (pgr.kind, o.marked) {
        return Err("the program ended before its pager".into());
    }
    Ok(())
}

fn setup(n: usize) -> (Repo, Vec<u8>) {
    let r = Repo::new();
    let g = r.open();
    let sig = git2::Signature::new("A", "a@example.com", &git2::Time::new(1_000_000_000, 0)).unwrap();
    let tree = g.find_tree(g.treebuilder(None).unwrap().write().unwrap()).unwrap();
    let c = g.commit(None, &sig, &sig, "x", &tree, &[]).unwrap();
    let mut b = b"# pack-refs with: peeled fully-peeled sorted \n".to_vec();
    for i in 0..n {
        b.extend(format!("{} refs/heads/a-branch-with-a-long-name-{:06}\n", c, i).bytes());
    }
    r.write("packed-refs", &b);
    if n > 0 {
        r.write("HEAD", b"ref: refs/heads/a-branch-with-a-long-name-000000\n");
    }
    let d = r.dir.join("bin");
    fs::create_dir(&d).unwrap();
    fs::set_permissions(&d, fs::Permissions::from_mode(0o755)).unwrap();
    for (name, text) in [("less", "#!/bin/sh\nexec sed s/^/LESS:/\n"), ("my pager", "#!/bin/sh\nexec sed s/^/MINE:/\n")] {
        fs::write(d.join(name), text).unwrap();
        fs::set_permissions(d.join(name), fs::Permissions::from_mode(0o755)).unwrap();
    }
    let o = run(&r, "git-recent-refs", &[b"--sort=committerdate"]);
    assert!(o.code == Some(0), "{}", o.show());
    assert_eq!(o.out.split(|&c| c == b'\n').count(), n + 1, "{}", o.show());
    (r, o.out)
}

fn env_of(r: &Repo, v: &[(&str, &str)]) -> Vec<(OsString, OsString)> {
    let mut path = r.dir.join("bin").into_os_string();
    path.push(":/usr/bin:/bin");
    let mut e: Vec<(OsString, OsString)> = vec![("PATH".into(), path)];
    for (k, x) in v {
        e.push((k.into(), x.into()));
    }
    e
}

fn config(r: &Repo, pager: Option<&str>) {
    let mut c = "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = true\n".to_string();
    if let Some(p) = pager {
        c += &format!("\tpager = \"{}\"\n", p.replace('\\', "\\\\").replace('"', "\\\""));
    }
    r.write("config", c.as_bytes());
}

pub fn c28(rep: &Report) {
    let quick = rep.quick();
    // 1. every combination of settings
    let gp = [None, Some(pg("", Kind::None)), Some(pg("cat", Kind::None)), Some(pg("sed s/^/G:/", Kind::Filter("G:"))), Some(pg("sed s/^/GS:/; sleep 0.2; echo END; : > pager-done", Kind::Slow("GS:")))];
    let cp = [None, Some(pg("", Kind::None)), Some(pg("cat", Kind::None)), Some(pg("sed 's/^/C:/' | sed s/^//", Kind::Filter("C:"))), Some(pg("sed s/^/CS:/; sleep 0.2; echo END; : > pager-done", Kind::Slow("CS:")))];
    let pp = [None, Some(pg("", Kind::None)), Some(pg("cat", Kind::None)), Some(pg("sed s/^/P:/", Kind::Filter("P:"))), Some(pg("sed s/^/PS:/; sleep 0.2; echo END; : > pager-done", Kind::Slow("PS:")))];
    let sorts: &[&str] = &["--sort=committerdate", "--sort=authordate"];
    let n1 = gp.len() * cp.len() * pp.len() * sorts.len();
    pool(n1, || setup(3), |(r, lines), i| {
        let s = sorts[i % 2];
        let (g, c, p) = (&gp[i / 2 % 5], &cp[i / 10 % 5], &pp[i / 50]);
        config(r, c.as_ref().map(|x| x.cmd));
        let mut v = vec![];
        if let Some(g) = g {
            v.push(("GIT_PAGER", g.cmd));
        }
        if let Some(p) = p {
            v.push(("PAGER", p.cmd));
        }
        let eff = g.as_ref().or(c.as_ref()).or(p.as_ref()).unwrap_or(&LESS);
        let env = env_of(r, &v);
        let name = format!("GIT_PAGER {:?}, core.pager {:?}, PAGER {:?}, {}", g.as_ref().map(|x| x.cmd), c.as_ref().map(|x| x.cmd), p.as_ref().map(|x| x.cmd), s);
        let o = on_terminal(r, &[s], &env);
        if let Err(e) = judge(&o, eff, lines) {
            rep.violation(&format!("settings {}", name), &format!("{}: {}", name, e), &o.show());
        }
        // no terminal, no pager
        let o = run_with(r, "git-recent-refs", &[s.as_bytes()], Opts { env, ..Default::default() });
        if o.code != Some(0) || o.out != *lines {
            rep.violation(&format!("no terminal, {}", name), &format!("output to a file, {}: not exactly the lines", name), &o.show());
        }
    });
    rep.scope("settings of GIT_PAGER x core.pager x PAGER x kinds of date, on a terminal and not", n1 as u64 * 2);
    // what else the environment and the configuration say makes no difference
    let mut others: Vec<(&str, &str)> = vec![];
    for (k, vs) in [
        ("TERM", &["dumb", "", "unknown", "xterm-256color", "linux", "emacs"][..]),
        ("NO_COLOR", &["1"]), ("CLICOLOR", &["0"]), ("CLICOLOR_FORCE", &["1"]), ("CI", &["true"]), ("DEBIAN_FRONTEND", &["noninteractive"]), ("EMACS", &["t"]), ("INSIDE_EMACS", &["1"]),
        ("COLUMNS", &["1", "0", "x"]), ("LINES", &["1", "100000"]), ("LESS", &["-F", ""]), ("LV", &["-c"]), ("MORE", &["x"]), ("LESSOPEN", &["|cat"]), ("LESSSECURE", &["1"]),
        ("SHELL", &["/bin/false", "/missing", ""]), ("EDITOR", &["false"]), ("VISUAL", &["false"]), ("GIT_EDITOR", &["false"]), ("MANPAGER", &["sed s/^/X:/"]), ("SYSTEMD_PAGER", &["sed s/^/X:/"]), ("DELTA_PAGER", &["sed s/^/X:/"]), ("BAT_PAGER", &["sed s/^/X:/"]), ("pager", &["sed s/^/X:/"]), ("GIT_PAGER_IN_USE", &["false", "0", ""]),
        ("LC_ALL", &["tr_TR.UTF-8", "C"]), ("LANG", &["nonsense"]), ("TZ", &["nonsense"]), ("GIT_TERMINAL_PROMPT", &["0"]), ("GIT_OPTIONAL_LOCKS", &["0"]), ("SSH_TTY", &["/dev/null"]), ("TMUX", &["x"]), ("POSIXLY_CORRECT", &["1"]), ("ENV", &["/missing"]), ("BASH_ENV", &["/missing"]),
        ("color.ui", &["false", "always"]), ("color.pager", &["false"]), ("core.editor", &["false"]), ("core.askpass", &["false"]), ("pager.log", &["false"]), ("interactive.difffilter", &["sed s/^/X:/"]), ("core.pagers", &["sed s/^/X:/"]), ("pagers.core", &["sed s/^/X:/"]),
    ] {
        others.extend(vs.iter().map(|v| (k, *v)));
    }
    let ways: [&[(&str, &str)]; 5] = [&[("GIT_PAGER", "sed s/^/G:/")], &[("core", "sed s/^/C:/")], &[("PAGER", "sed s/^/P:/")], &[], &[("GIT_PAGER", "cat"), ("PAGER", "sed s/^/P:/")]];
    let n1b = others.len() * ways.len();
    pool(n1b, || setup(3), |(r, lines), i| {
        let ((k, x), way) = (others[i / ways.len()], ways[i % ways.len()]);
        let mut v: Vec<(&str, &str)> = way.iter().filter(|x| x.0 != "core").cloned().collect();
        config(r, way.iter().find(|x| x.0 == "core").map(|x| x.1));
        match k.split_once('.') {
            Some((sect, key)) => {
                let mut c = fs::read(r.git.join("config")).unwrap();
                c.extend(format!("[{}]\n\t{} = \"{}\"\n", sect, key, x).bytes());
                r.write("config", &c);
            }
            None => v.push((k, x)),
        }
        let eff = match i % ways.len() {
            0 => pg("sed s/^/G:/", Kind::Filter("G:")),
            1 => pg("sed s/^/C:/", Kind::Filter("C:")),
            2 => pg("sed s/^/P:/", Kind::Filter("P:")),
            3 => LESS,
            _ => pg("cat", Kind::None),
        };
        let o = on_terminal(r, &["--sort=committerdate"], &env_of(r, &v));
        if let Err(e) = judge(&o, &eff, lines) {
            let name = format!("{} set to {:?}, pager from {:?}", k, x, way);
            rep.violation(&name, &format!("{}: {}", name, e), &o.show());
        }
    });
    rep.scope("other settings in the environment and the configuration x where the pager is set", n1b as u64);
    // 2. pagers of all kinds x amounts of output
    let kinds = [
        pg("sed s/^/F:/", Kind::Filter("F:")),
        pg("cat | cat", Kind::Filter("")),
        pg("\"my pager\"", Kind::Filter("MINE:")),
        pg("'my pager'", Kind::Filter("MINE:")),
        pg("my\\ pager", Kind::Filter("MINE:")),
        pg("sleep 0.2; sed s/^/L:/", Kind::Filter("L:")),
        pg("sed s/^/S:/; sleep 0.3; echo END; : > pager-done", Kind::Slow("S:")),
        pg("while read x; do echo \"R:$x\"; done; sleep 0.2; echo END; : > pager-done", Kind::Slow("R:")),
        pg("(sleep 0.2; sed s/^/W:/) & wait; exit 3", Kind::Early), // its input is /dev/null
        pg("exec sed s/^/X:/", Kind::Filter("X:")),
        pg("sed s/^/E:/; exit 7", Kind::Filter("E:")),
        pg("sed s/^/K:/; kill -9 $$", Kind::Filter("K:")),
        pg("true", Kind::Early),
        pg("exit 1", Kind::Early),
        pg("head -n 1", Kind::Early),
        pg("kill -9 $$", Kind::Early),
        pg("no-such-command-anywhere", Kind::Early),
        pg("if (", Kind::Early),
        pg("exec 0<&-; sleep 0.1", Kind::Early),
        pg("cat", Kind::None),
        pg("", Kind::None),
    ];
    let sizes: Vec<usize> = if quick { vec![0, 1, 2, 1500, 5000] } else { vec![0, 1, 2, 3, 90, 1000, 1490, 1500, 1510, 3000, 5000, 20000] };
    let cases: Vec<(usize, usize, usize)> = sizes.iter().enumerate().flat_map(|(a, _)| (0..kinds.len()).flat_map(move |k| (0..3).map(move |w| (a, k, w)))).collect();
    let per = kinds.len() * 3;
    // one worker per size keeps its repository
    pool(sizes.len(), || (), |_, si| {
        let (r, lines) = setup(sizes[si]);
        for &(a, k, wh) in &cases[si * per..(si + 1) * per] {
            let p = &kinds[k];
            config(&r, if wh == 1 { Some(p.cmd) } else { None });
            let env = env_of(&r, &match wh {
                0 => vec![("GIT_PAGER", p.cmd)],
                1 => vec![],
                _ => vec![("PAGER", p.cmd)],
            });
            let o = on_terminal(&r, &["--sort=committerdate"], &env);
            let name = format!("pager \"{}\" from {}, {} lines", p.cmd, ["GIT_PAGER", "core.pager", "PAGER"][wh], sizes[a]);
            if let Err(e) = judge(&o, p, &lines) {
                rep.violation(&name, &format!("{}: {}", name, e), &o.show());
            }
            if k % 5 == 0 {
                rep.sample(name);
            }
        }
    });
    rep.scope("behaviours of pagers x where they are set x amounts of output (up to several pipe buffers)", cases.len() as u64);
    // 3. a home-relative core.pager, the configuration of the user, and the default order of sorting
    pool(1, || (), |_, _| {
        let (r, lines) = setup(2);
        let home = r.dir.join("home");
        fs::copy(r.dir.join("bin/my pager"), home.join("hp")).unwrap();
        fs::write(home.join(".gitconfig"), "[core]\n\tpager = sed s/^/U:/\n").unwrap();
        let o = on_terminal(&r, &["--sort=committerdate"], &env_of(&r, &[("PAGER", "sed s/^/P:/")]));
        if let Err(e) = judge(&o, &pg("sed s/^/U:/", Kind::Filter("U:")), &lines) {
            rep.violation("core.pager of the user", &e, &o.show());
        }
        config(&r, Some("sed s/^/C:/"));
        let o = on_terminal(&r, &["--sort=committerdate"], &env_of(&r, &[("PAGER", "sed s/^/P:/")]));
        if let Err(e) = judge(&o, &pg("sed s/^/C:/", Kind::Filter("C:")), &lines) {
            rep.violation("core.pager of the repository and of the user", &e, &o.show());
        }
        let head = b"refs/heads/a-branch-with-a-long-name-000000\n";
        let o = on_terminal(&r, &[], &env_of(&r, &[("GIT_PAGER", "sed s/^/S:/; sleep 0.2; echo END; : > pager-done")]));
        if let Err(e) = judge(&o, &pg("sed", Kind::Slow("S:")), head) {
            rep.violation("visitdate on a terminal", &e, &o.show());
        }
        // commands that are not UTF-8
        use std::os::unix::ffi::OsStringExt;
        let cmd = b"printf '\xff\\n'; sed s/^/B:/";
        let want = [b"\xff\n".to_vec(), expect(&lines, "B:")].concat();
        for wh in 0..3 {
            config(&r, None);
            let mut env = env_of(&r, &[]);
            let c = OsString::from_vec(cmd.to_vec());
            match wh {
                0 => env.push(("GIT_PAGER".into(), c)),
                1 => env.push(("PAGER".into(), c)),
                _ => r.write("config", &[b"[core]\n\trepositoryformatversion = 0\n\tbare = true\n\tpager = \"".to_vec(), b"printf '\xff\\n'; sed s/^/B:/".to_vec().iter().flat_map(|&b| if b == b'\\' { vec![b, b] } else { vec![b] }).collect(), b"\"\n".to_vec()].concat()),
            }
            if wh < 2 {
                fs::write(home.join(".gitconfig"), "").unwrap();
            }
            let o = on_terminal(&r, &["--sort=committerdate"], &env);
            if o.timeout || o.code != Some(0) || o.all != want {
                rep.violation(&format!("not UTF-8 {}", wh), "a pager command that is not UTF-8 did not get the lines", &o.show());
            }
        }
        rep.scope("user configuration, visit order, commands that are not UTF-8", 6);
    });
    rep.assume("a pager that stops reading before the end may be left behind; TERM and LESS are not judged");
    rep.count("evaluations", RUNS.load(std::sync::atomic::Ordering::Relaxed));
    rep.count("distinct_nontrivial", n1 as u64 * 2 - 4 + cases.len() as u64);
    rep.text("rule", "one evaluation is one run of the real git-recent-refs, on a pseudo-terminal or not, with one combination of settings or one kind of pager and amount of output, all distinct; trivial are those without any setting");
}
