//! C29: the ways a repository can be named, the environment, and what isn't a repository.
use crate::model::*;
use crate::proto::*;
use crate::vutil::*;
use crate::world::*;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::Command;

/// One way to name the repository: the directory the program is started in and its argument.
#[derive(Clone, Debug)]
pub struct Name {
    what: String,
    cwd: PathBuf,
    arg: OsString,
}

struct Site {
    w: World,
    /// the store the names below lead to
    names: Vec<Name>,
    odd: Vec<Name>,
    not: Vec<Name>,
}

fn git(w: &World, dir: &Path, args: &[&str]) {
    let mut c = Command::new("git");
    c.args(args).current_dir(dir).env_clear().envs(w.env());
    for k in ["AUTHOR", "COMMITTER"] {
        c.env(format!("GIT_{}_NAME", k), "A").env(format!("GIT_{}_EMAIL", k), "a@example.com").env(format!("GIT_{}_DATE", k), "1600000000 +0000");
    }
    let o = c.output().unwrap();
    if !o.status.success() {
        panic!("git {:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
    }
}

fn give(p: &Path, uid: u32) {
    chown(p, uid);
    if p.symlink_metadata().map(|m| m.is_dir()).unwrap_or(false) {
        for e in std::fs::read_dir(p).unwrap() {
            give(&e.unwrap().path(), uid);
        }
    }
}

const KINDS: [&str; 4] = ["bare", "worktree", "separate git directory", "submodule"];

/// A repository of the given kind, made by git, with another one next to it that isn't used.
fn site(kind: &str) -> Site {
    let mut w = World::new(UID, None);
    let _ = std::fs::remove_dir_all(&w.repo);
    let d = w.dir.clone();
    let j = |s: &str| d.join(s);
    let commit = |dir: &str| git(&w, &j(dir), &["commit", "-q", "--allow-empty", "-m", "x"]);
    // tops: directories with a worktree or a bare repository; gits: the git directory
    let (mut tops, gitdir): (Vec<&str>, &str) = match kind {
        "bare" => {
            git(&w, &d, &["init", "-q", "--template=", "-b", "main", "tmp"]);
            commit("tmp");
            git(&w, &d, &["clone", "-q", "--template=", "--bare", "tmp", "repo.git"]);
            (vec![], "repo.git")
        }
        "worktree" => {
            git(&w, &d, &["init", "-q", "--template=", "-b", "main", "repo"]);
            commit("repo");
            (vec!["repo"], "repo/.git")
        }
        "separate git directory" => {
            git(&w, &d, &["init", "-q", "--template=", "-b", "main", "--separate-git-dir", "elsewhere", "repo"]);
            commit("repo");
            (vec!["repo"], "elsewhere")
        }
        _ => {
            git(&w, &d, &["init", "-q", "--template=", "-b", "main", "tmp"]);
            commit("tmp");
            git(&w, &d, &["init", "-q", "--template=", "-b", "main", "super"]);
            git(&w, &j("super"), &["-c", "protocol.file.allow=always", "submodule", "-q", "add", j("tmp").to_str().unwrap(), "sub"]);
            (vec!["super/sub"], "super/.git/modules/sub")
        }
    };
    if kind != "submodule" {
        git(&w, &j(gitdir), &["worktree", "add", "-q", "-b", "side", j("linked").to_str().unwrap()]);
        tops.push("linked");
    }
    git(&w, &d, &["init", "-q", "--template=", "-b", "main", "other"]);
    std::os::unix::fs::symlink(j(gitdir), j("link to git")).unwrap();
    for p in ["d", "d/e", "empty"] {
        std::fs::create_dir(j(p)).unwrap();
    }
    std::fs::write(j("file"), b"text\n").unwrap();
    std::fs::create_dir(j("gitfile")).unwrap();
    std::fs::write(j("gitfile/.git"), format!("gitdir: {}\n", j(gitdir).display())).unwrap();
    let mut names = vec![];
    let mut name = |what: &str, cwd: PathBuf, arg: String| names.push(Name { what: what.into(), cwd, arg: arg.into() });
    let abs = |s: &str| j(s).to_str().unwrap().to_string();
    let mut all: Vec<(String, &str)> = tops.iter().map(|t| (if *t == "linked" { "a linked worktree".to_string() } else { "the worktree".into() }, *t)).collect();
    all.push(("the git directory".into(), gitdir));
    for (what, p) in &all {
        name(what, d.clone(), abs(p));
        name(&format!("{}, relative", what), d.clone(), p.to_string());
        name(&format!("{}, with a slash", what), d.clone(), abs(p) + "/");
        name(&format!("{}, with slashes and dots", what), d.clone(), abs(p) + "//.//");
        name(&format!("{}, by way of another directory", what), d.join("d/e"), format!("../../d/e/../../{}", p));
        name(&format!("{}, as .", what), j(p), ".".into());
    }
    for t in &tops {
        name("the .git of a worktree", d.clone(), abs(t) + "/.git");
        name("the .git of a worktree, relative", j(t), ".git".into());
    }
    name("a symbolic link", d.clone(), abs("link to git"));
    name("a symbolic link, relative", d.clone(), "link to git".into());
    name("a symbolic link, as .", j("link to git"), ".".into());
    name("a directory with a .git file", d.clone(), abs("gitfile"));
    // unusual names
    for (i, x) in [&b"not UTF-8 \xff\xfe"[..], b"line\nbreak", b"quote\"'\\", b"\xc3\xa9t\xc3\xa9", b"$HOME", b"~", b"a:b", b"%41*?[x]", &[b'n'; 255]].iter().enumerate() {
        let x = OsStr::from_bytes(x);
        std::os::unix::fs::symlink(j(gitdir), d.join(x)).unwrap();
        let arg = if i % 2 == 0 { x.to_os_string() } else { d.join(x).into_os_string() };
        names.push(Name { what: format!("a symbolic link {:?}", x), cwd: d.clone(), arg });
    }
    // names that mean something else elsewhere; what they would mean there is made below
    let mut odd = vec![];
    let home = |s: &str| w.home.join(s).to_str().unwrap()[1..].to_string();
    for (x, elsewhere) in [
        ("~/r.git", home("r.git")), ("~", home("")), ("~/", home("")), ("~root/r.git", home("r2.git")), ("~61001/r.git", home("r3.git")), ("$HOME/r.git", home("r4.git")), ("${HOME}/r.git", home("r5.git")), ("%HOME%/r.git", home("r6.git")),
        ("'quoted'", "quoted".into()), ("\"quoted\"", "quoted".into()), ("'half", "half".into()), (" lead", "lead".into()), ("trail ", "trail".into()), ("\ttab", "tab".into()), ("newline\n", "newline".into()), ("return\r", "return".into()),
        ("file:/r1.git", "r1.git".into()), ("file:///r2.git", "r2.git".into()), ("ssh://host/r3.git", "r3.git".into()), ("host:r4.git", "r4.git".into()), ("git@host:r5.git", "r5.git".into()), ("host:/r6.git", "r6.git".into()), ("https://host/r7.git", "r7.git".into()),
        ("p%41.git", "pA.git".into()), ("p%2Fq.git", "p/q.git".into()), ("p+q.git", "p q.git".into()), ("p?q=r", "p".into()), ("p2#q", "p2".into()), ("p3;q", "p3".into()), ("p4&q", "p4".into()), ("p5|q", "p5".into()), ("p6,q", "p6".into()),
        ("*", "sole".into()), ("s?", "s1".into()), ("[t]", "t".into()), ("\\u", "u".into()), ("v\\w", "v/w".into()), ("v2\\ w", "v2 w".into()), ("C:\\x", "C/x".into()), ("C:/y", "y".into()), ("@x", "x".into()), ("=x2", "x2".into()), (":x3", "x3".into()), ("...", "..../x".into()), (".../x4", "x4".into()),
        ("Fo\u{308}", "F\u{f6}".into()), ("\u{feff}bom", "bom".into()), ("\u{ff0f}full", "full".into()), ("nbsp\u{a0}", "nbsp".into()), ("UPPER.GIT", "upper.git".into()), ("lower.git", "LOWER.GIT".into()), ("y.git.git", "y.git".into()), ("z.git/.git/", "z.git/z".into()), ("0", "1".into()), ("upload", "download".into()), ("--x/../y2", "y2/y".into()), ("HEAD", "head".into()),
    ] {
        let lit = j(x.trim_end_matches('/'));
        if lit.symlink_metadata().is_err() {
            if x.starts_with("--") {
                // an option, unless it follows others
                continue;
            }
            std::fs::create_dir_all(lit.parent().unwrap()).unwrap();
            std::os::unix::fs::symlink(j(gitdir), &lit).unwrap();
        }
        if !std::fs::canonicalize(&lit).map(|p| p == std::fs::canonicalize(j(gitdir)).unwrap()).unwrap_or(false) {
            // here it is a directory with another of these in it
            continue;
        }
        odd.push((Name { what: format!("{:?}", x), cwd: d.clone(), arg: x.into() }, elsewhere));
    }
    // what isn't a repository
    let mut not = vec![];
    let mut no = |what: &str, cwd: PathBuf, arg: String| not.push(Name { what: what.into(), cwd, arg: arg.into() });
    for t in &tops {
        std::fs::create_dir_all(j(t).join("in/side")).unwrap();
        no("a directory of a worktree", d.clone(), abs(t) + "/in/side");
        no("a directory of a worktree, as .", j(t).join("in"), ".".into());
    }
    no("a directory of the git directory", d.clone(), abs(gitdir) + "/refs");
    no("nothing", d.clone(), abs("missing"));
    no("nothing, relative", d.clone(), "missing/there".into());
    no("the empty string in a repository", j(gitdir), "".into());
    no("a file", d.clone(), abs("file"));
    no("an empty directory", d.clone(), abs("empty"));
    no("an empty directory, as .", j("empty"), ".".into());
    std::fs::create_dir(j("badfile")).unwrap();
    std::fs::write(j("badfile/.git"), b"nothing of use\n").unwrap();
    no("a directory with a damaged .git file", d.clone(), abs("badfile"));
    std::fs::create_dir(j("lostfile")).unwrap();
    std::fs::write(j("lostfile/.git"), b"gitdir: ../gone\n").unwrap();
    no("a directory with a .git file that leads nowhere", d.clone(), abs("lostfile"));
    std::os::unix::fs::symlink(j("gone"), j("dangling")).unwrap();
    no("a symbolic link that leads nowhere", d.clone(), abs("dangling"));
    std::os::unix::fs::symlink(j("round"), j("round")).unwrap();
    no("a symbolic link to itself", d.clone(), abs("round"));
    no("a name that is too long", d.clone(), format!("{}/{}", d.display(), "x".repeat(5000)));
    no("a name that is not that of the repository", d.clone(), abs(gitdir) + "x");
    no("a name to which .git has to be added", d.clone(), abs("decoy"));
    no("a name to which .git has to be added, relative", d.clone(), "decoy".into());
    // other repositories with almost the same names
    git(&w, &d, &["init", "-q", "-b", "main", "--template=", "--bare", "decoy.git"]);
    let mut near: Vec<String> = vec![];
    for p in tops.iter().cloned().chain([gitdir, "link to git", "gitfile", "linked"]) {
        near.extend([".git", ".bundle", " ", ".", "~", "\n"].iter().map(|x| format!("{}{}", p, x)));
        near.extend(p.strip_suffix(".git").filter(|x| !x.ends_with('/')).map(|x| x.to_string()));
        near.push(p.to_uppercase());
        near.push(p.trim_end_matches("t").to_string());
    }
    for n in near {
        if j(&n).symlink_metadata().is_err() && j(&n).parent().unwrap().is_dir() {
            assert!(std::process::Command::new("cp").arg("-r").arg(j("decoy.git")).arg(j(&n)).status().unwrap().success());
        }
    }
    for (_, e) in &odd {
        for at in [PathBuf::from("/").join(e), j(e)] {
            if at.starts_with(&d) && at.symlink_metadata().is_err() {
                std::fs::create_dir_all(at.parent().unwrap()).unwrap();
                assert!(std::process::Command::new("cp").arg("-r").arg(j("decoy.git")).arg(&at).status().unwrap().success());
            }
        }
    }
    let odd = odd.into_iter().map(|x| x.0).collect();
    give(&d, UID);
    w.repo = j(gitdir);
    w.lfs = w.repo.join("lfs");
    Site { w, names, odd, not }
}

/// Everything outside the store.
fn outside(s: &Site) -> Vec<Entry> {
    let pre = s.w.lfs.strip_prefix(&s.w.dir).unwrap().to_str().unwrap().to_string();
    let inner = format!("{}/", pre);
    let mut v: Vec<Entry> = tree(&s.w.dir).into_iter().filter(|e| e.path != pre && !e.path.starts_with(&inner)).collect();
    // the directory that holds the store has one link more
    v.iter_mut().filter(|e| e.kind == 'd').for_each(|e| e.nlink = 0);
    v
}

fn differ(a: &[Entry], b: &[Entry]) -> String {
    let x: Vec<&Entry> = a.iter().filter(|e| !b.contains(e)).collect();
    let y: Vec<&Entry> = b.iter().filter(|e| !a.contains(e)).collect();
    format!("gone or changed: {:?}; new: {:?}", x.iter().map(|e| &e.path).collect::<Vec<_>>(), y.iter().map(|e| &e.path).collect::<Vec<_>>())
}

type Env = Vec<(&'static str, Option<String>)>;

fn environments(s: &Site) -> Vec<(String, Env)> {
    let d = s.w.dir.to_str().unwrap();
    let other = format!("{}/other/.git", d);
    let mut v: Vec<(String, Env)> = vec![("plain".into(), vec![])];
    for (k, vals) in [
        ("TMPDIR", vec![Some(format!("{}/empty", d)), Some(format!("{}/missing", d)), Some("".into()), None]),
        ("HOME", vec![Some(format!("{}/missing", d)), Some("".into()), None]),
        ("XDG_CONFIG_HOME", vec![Some(format!("{}/missing", d))]),
        ("GIT_DIR", vec![Some(other.clone()), Some(format!("{}/missing", d))]),
        ("GIT_COMMON_DIR", vec![Some(other.clone())]),
        ("GIT_WORK_TREE", vec![Some(format!("{}/other", d))]),
        ("GIT_OBJECT_DIRECTORY", vec![Some(format!("{}/objects", other))]),
        ("GIT_INDEX_FILE", vec![Some(format!("{}/index", other))]),
        ("GIT_NAMESPACE", vec![Some("ns".into())]),
        ("GIT_CEILING_DIRECTORIES", vec![Some(d.into())]),
        ("GIT_QUARANTINE_PATH", vec![Some(format!("{}/empty", d))]),
        ("PWD", vec![Some(format!("{}/other", d)), None]),
        ("OLDPWD", vec![Some(format!("{}/other", d))]),
        ("PATH", vec![Some("".into()), None]),
        ("USER", vec![Some("root".into())]),
        ("LOGNAME", vec![Some("root".into())]),
        ("USERNAME", vec![Some("root".into())]),
        ("SUDO_USER", vec![Some("daemon".into())]),
        ("TZ", vec![Some("Asia/Kathmandu".into()), Some("XYZ-14:30".into()), Some("nonsense".into())]),
        ("LC_ALL", vec![Some("C.UTF-8".into()), Some("tr_TR.UTF-8".into()), None]),
        ("RUST_BACKTRACE", vec![Some("1".into())]),
        ("RUST_LOG", vec![Some("trace".into())]),
        ("GIT_TRACE", vec![Some("1".into())]),
        ("GIT_LFS_PATH", vec![Some(format!("{}/empty", d))]),
        ("SSH_ORIGINAL_COMMAND", vec![Some(format!("git-lfs-transfer {}/other download", d))]),
    ] {
        for x in vals {
            v.push((format!("{} {}", k, x.as_deref().map(|x| if x.is_empty() { "empty" } else { x.rsplit('/').next().unwrap() }).unwrap_or("unset")), vec![(k, x)]));
        }
    }
    v
}

fn start(s: &Site, n: &Name, env: &Env, op: &str, input: &[u8]) -> Outcome {
    s.w.note_case(op, UID, 0, &[n.arg.as_os_str().as_bytes(), format!("{:?}", env).as_bytes(), input].concat());
    run_program_in(&bin("git-lfs-transfer"), &[n.arg.as_os_str(), OsStr::new(op)], &s.w, UID, 0o022, input, 30, &n.cwd, env)
}

/// A session through `n` whose requests the model judges.
fn served(s: &Site, m: &mut Model, n: &Name, env: &Env, mode: Mode, reqs: &[Request]) -> Result<(), String> {
    let mut input = vec![];
    for r in reqs {
        input.extend(&r.bytes);
    }
    let o = start(s, n, env, mode.arg(), &input);
    let all: Vec<&Request> = reqs.iter().collect();
    judge_session(m, &all, mode, &user_name(UID), &o).map_err(|e| format!("{} session by way of {:?}: {}; it said: {}", mode.arg(), n.what, e, show(&o.err)))?;
    if o.code != Some(0) {
        return Err(format!("{} session by way of {:?} ends with status {:?}: {}", mode.arg(), n.what, o.code, show(&o.err)));
    }
    m.compare_store(&s.w).map_err(|e| format!("store after the {} session by way of {:?}: {}", mode.arg(), n.what, e))
}

/// Writes by way of `a`, reads by way of `b`, and the other way round.
fn round(s: &Site, a: &Name, b: &Name, ea: &Env, eb: &Env) -> Result<(), String> {
    let _ = std::fs::remove_dir_all(&s.w.lfs);
    let before = outside(s);
    let mut m = Model::default();
    let (x, y): (&[u8], &[u8]) = (b"first object", b"the second object");
    let (ox, oy) = (oid_of(x), oid_of(y));
    let items = [(ox.as_str(), 12u64), (oy.as_str(), 17)];
    served(s, &mut m, a, ea, Mode::Up, &[batch(&items), put(x), lock(b"p"), verify(&ox, 12)])?;
    served(s, &mut m, b, eb, Mode::Down, &[batch(&items), get(&ox), get(&oy), list(None, None, None)])?;
    served(s, &mut m, b, eb, Mode::Up, &[verify(&ox, 12), lock(b"p"), put(y), unlock(b"p"), lock(b"q"), list(None, None, None)])?;
    served(s, &mut m, a, ea, Mode::Down, &[batch(&items), get(&ox), get(&oy), list(None, None, None)])?;
    let after = outside(s);
    if before != after {
        return Err(format!("something outside the repository's store changed: {}", differ(&before, &after)));
    }
    Ok(())
}

pub fn c29(rep: &Report) {
    let q = rep.quick();
    // pairs of names
    for kind in KINDS {
        let n = site(kind).names.len();
        pool(n, || site(kind), |s, i| {
            for j in 0..n {
                let (a, b) = (&s.names[i], &s.names[j]);
                rep.count("histories", 1);
                if let Err(e) = round(s, a, b, &vec![], &vec![]) {
                    rep.violation(&format!("{}: {} and {}", kind, a.what, b.what), &format!("repository ({}) named in two ways ({}; {}): {}", kind, a.what, b.what, e), &format!("{:?}\n{:?}\n{}", a, b, e));
                }
            }
        });
        rep.scope(&format!("pairs of ways to name a repository ({})", kind), (n * n) as u64);
    }
    // names that mean something else elsewhere
    for kind in KINDS {
        let n = site(kind).odd.len();
        pool(n, || site(kind), |s, i| {
            let (a, b) = (&s.odd[i], &s.names[0]);
            for (a, b) in [(a, b), (b, a), (a, a)] {
                rep.count("histories", 1);
                if let Err(e) = round(s, a, b, &vec![], &vec![]) {
                    rep.violation(&format!("{}: {} and {}", kind, a.what, b.what), &format!("repository ({}) named in two ways ({}; {}): {}", kind, a.what, b.what, e), &format!("{:?}\n{:?}\n{}", a, b, e));
                }
            }
        });
        rep.scope(&format!("names that mean something else elsewhere ({})", kind), n as u64);
    }
    // environments
    for kind in KINDS {
        let envs = environments(&site(kind)).len();
        pool(envs, || site(kind), |s, i| {
            let (what, env) = environments(s).swap_remove(i);
            for n in s.names.iter().step_by(if q { 5 } else { 1 }) {
                for (ea, eb) in [(&env, &vec![]), (&vec![], &env), (&env, &env)] {
                    rep.count("histories", 1);
                    if let Err(e) = round(s, n, n, ea, eb) {
                        rep.violation(&format!("environment {} {} {}", what, kind, n.what), &format!("environment ({}), repository ({}) named as {}: {}", what, kind, n.what, e), &format!("{:?}\n{:?}\n{}", env, n, e));
                    }
                }
            }
        });
        rep.scope(&format!("environments ({})", kind), envs as u64);
    }
    // what isn't a repository
    for kind in KINDS {
        let n = site(kind).not.len();
        pool(n, || site(kind), |s, i| {
            let p = &s.not[i];
            for (what, env) in environments(s).into_iter() {
                if q && i % 4 != 0 && !["plain", "GIT_DIR .git"].contains(&what.as_str()) {
                    continue;
                }
                for op in ["upload", "download"] {
                    let before = tree(&s.w.dir);
                    let o = start(s, p, &env, op, &[put(b"x"), lock(b"p")].iter().flat_map(|r| r.bytes.clone()).collect::<Vec<_>>());
                    let after = tree(&s.w.dir);
                    rep.count("refused names", 1);
                    let e = if let Some(c) = o.crashed() {
                        c
                    } else if o.code == Some(0) {
                        "the session ends with success".into()
                    } else if !o.out.is_empty() {
                        format!("the session is served: {}", show(&o.out))
                    } else if o.err.is_empty() {
                        "there is no message".into()
                    } else if before != after {
                        format!("files changed: {}", differ(&before, &after))
                    } else {
                        continue;
                    };
                    rep.violation(&format!("not a repository: {} {} {} {}", kind, p.what, what, op), &format!("{} in place of a repository (environment: {}): {}", p.what, what, e), &format!("{:?}\n{:?}\n{}", p, env, e));
                }
            }
        });
        rep.scope(&format!("names of what isn't a repository ({})", kind), n as u64);
    }
    // ill-formed command lines
    let n = std::sync::atomic::AtomicU64::new(0);
    pool(KINDS.len(), || (), |_, i| {
        let s = site(KINDS[i]);
        for p in s.names.iter().step_by(if q { 7 } else { 1 }) {
            let p_: &OsStr = &p.arg;
            let o = OsStr::new;
            let lines: Vec<Vec<&OsStr>> = vec![
                vec![], vec![p_], vec![p_, o("upload"), o("more")], vec![p_, o("upload"), o("")], vec![p_, o("upload"), p_], vec![p_, o("upload"), o("download")], vec![o("--nope"), p_, o("upload")],
                vec![p_, o("upload"), o("--nope")], vec![p_, o("--upload")], vec![p_, o("-x"), o("upload")], vec![o("--"), p_], vec![o("upload")], vec![p_, o("upload"), o("--nope=1")],
                vec![p_, OsStr::from_bytes(b"up\xff")], vec![p_, OsStr::from_bytes(b"\xff\xfe")], vec![p_, OsStr::from_bytes(b"upload\xff")],
            ];
            for l in lines {
                let _ = std::fs::remove_dir_all(&s.w.lfs);
                let before = tree(&s.w.dir);
                let input: Vec<u8> = [put(b"x"), lock(b"p")].iter().flat_map(|r| r.bytes.clone()).collect();
                s.w.note_case("", UID, 1, &[format!("{:?}", l).as_bytes(), &input].concat());
                let o = run_program_in(&bin("git-lfs-transfer"), &l, &s.w, UID, 0o022, &input, 30, &p.cwd, &[]);
                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                // an operation that doesn't exist is found out about later (C10)
                let operation = l.len() == 2 && l[1].to_str().is_none();
                let e = if let Some(c) = o.crashed() {
                    c
                } else if o.code == Some(0) {
                    "it reports success".into()
                } else if o.err.is_empty() {
                    "there is no message".into()
                } else if operation {
                    match parse_session(&o.out) {
                        Ok(r) if !r.is_empty() => "a request is answered".into(),
                        _ => continue,
                    }
                } else if !o.out.is_empty() {
                    format!("it is served: {}", show(&o.out))
                } else if before != tree(&s.w.dir) {
                    "files changed".into()
                } else {
                    continue;
                };
                rep.violation(&format!("usage {} {:?}", KINDS[i], l), &format!("git-lfs-transfer {:?}: {}", l, e), &format!("{:?}\n{}\n{}", p, e, show(&o.err)));
            }
        }
    });
    rep.scope("ill-formed command lines", n.into_inner());
    rep.assume("linked worktrees, submodules and separate git directories are those git itself makes");
}
