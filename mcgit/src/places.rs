//! Repositories made by git itself, in every layout and seen from every place they can be used from.
use crate::at::git_cmd;
use crate::run::*;
use crate::vutil::*;
use std::path::{Path, PathBuf};

/// One place a program can be run from, and which of the worktrees is used there.
struct Place {
    name: &'static str,
    dir: PathBuf,
    linked: bool,
}

struct Made {
    r: Repo,
    places: Vec<Place>,
    /// name and ID of the commits in the order of their commit dates
    commits: Vec<(String, String)>,
    wd: PathBuf,
    linked: PathBuf,
}

fn chown_all(p: &Path) {
    give(p, UID);
}

fn give(p: &Path, uid: u32) {
    chown(p, uid);
    if p.symlink_metadata().map(|m| m.is_dir()).unwrap_or(false) {
        for e in std::fs::read_dir(p).unwrap() {
            give(&e.unwrap().path(), uid);
        }
    }
}

const LAYOUTS: [&str; 7] = ["loose", "packed references", "gc", "commit-graph and bitmaps", "multi-pack index", "alternates", "unpacked after gc"];

fn make(layout: &str) -> Made {
    let r = Repo::new();
    let wd = r.dir.join("wd");
    let linked = r.dir.join("linked");
    std::fs::create_dir(&wd).unwrap();
    let mut clock = 1_600_000_000i64;
    let mut g = |dir: &Path, args: &[&str]| -> String {
        clock += 60;
        let mut c = git_cmd(&r, dir, args);
        // the author dates run backwards
        for (k, t) in [("AUTHOR", 3_200_000_000 - clock), ("COMMITTER", clock)] {
            c.env(format!("GIT_{}_NAME", k), "A").env(format!("GIT_{}_EMAIL", k), "a@example.com").env(format!("GIT_{}_DATE", k), format!("{} +0300", t));
        }
        let o = c.output().unwrap();
        if !o.status.success() {
            eprintln!("git {:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
            cleanup();
            std::process::exit(2);
        }
        String::from_utf8_lossy(&o.stdout).trim_end().to_string()
    };
    let mut commits = vec![];
    g(&wd, &["init", "-q", "-b", "main", "."]);
    g(&wd, &["config", "gc.reflogExpire", "never"]);
    g(&wd, &["config", "gc.reflogExpireUnreachable", "never"]);
    let mut commit = |g: &mut dyn FnMut(&Path, &[&str]) -> String, dir: &Path, msg: &str| {
        g(dir, &["commit", "-q", "--allow-empty", "-m", msg]);
        let id = g(dir, &["rev-parse", "HEAD"]);
        commits.push((msg.to_string(), id));
    };
    commit(&mut g, &wd, "one a");
    g(&wd, &["checkout", "-q", "-b", "dev"]);
    commit(&mut g, &wd, "two b");
    g(&wd, &["tag", "light"]);
    g(&wd, &["checkout", "-q", "main"]);
    commit(&mut g, &wd, "three b");
    g(&wd, &["tag", "-a", "-m", "x", "annotated"]);
    g(&wd, &["tag", "-a", "-m", "y", "twice", "annotated"]);
    g(&wd, &["merge", "-q", "--no-ff", "-m", "four merge", "dev"]);
    let m = g(&wd, &["rev-parse", "HEAD"]);
    g(&wd, &["update-ref", "refs/remotes/origin/main", "HEAD"]);
    g(&wd, &["symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/main"]);
    g(&wd, &["checkout", "-q", "annotated"]);
    g(&wd, &["checkout", "-q", "-b", "topic/deep/er"]);
    let mut late = vec![("four merge".to_string(), m)];
    g(&wd, &["worktree", "add", "-q", "-b", "side", linked.to_str().unwrap(), "dev"]);
    g(&linked, &["commit", "-q", "--allow-empty", "-m", "five c"]);
    late.push(("five c".into(), g(&linked, &["rev-parse", "HEAD"])));
    g(&linked, &["checkout", "-q", "-b", "side2"]);
    g(&linked, &["checkout", "-q", "--detach", "light"]);
    g(&linked, &["checkout", "-q", "side"]);
    g(&wd, &["checkout", "-q", "dev"]);
    g(&wd, &["checkout", "-q", "main"]);
    g(&wd, &["commit", "-q", "--allow-empty", "-m", "six a"]);
    late.push(("six a".into(), g(&wd, &["rev-parse", "HEAD"])));
    commits.extend(late);
    match layout {
        "packed references" => {
            g(&wd, &["pack-refs", "--all"]);
        }
        "gc" => {
            g(&wd, &["gc", "-q"]);
        }
        "commit-graph and bitmaps" => {
            g(&wd, &["repack", "-q", "-a", "-d", "-b"]);
            g(&wd, &["commit-graph", "write", "--reachable"]);
        }
        "multi-pack index" => {
            g(&wd, &["repack", "-q"]);
            g(&wd, &["multi-pack-index", "write"]);
        }
        "alternates" => {
            let other = r.dir.join("other.git");
            g(&r.dir, &["clone", "-q", "--bare", "--mirror", wd.to_str().unwrap(), other.to_str().unwrap()]);
            std::fs::write(wd.join(".git/objects/info/alternates"), format!("{}\n", other.join("objects").display())).unwrap();
            g(&wd, &["repack", "-q", "-a", "-d", "-l"]);
            g(&wd, &["prune-packed", "-q"]);
        }
        "unpacked after gc" => {
            g(&wd, &["gc", "-q"]);
            g(&wd, &["commit", "-q", "--allow-empty", "-m", "seven b"]);
            let id = g(&wd, &["rev-parse", "HEAD"]);
            commits.push(("seven b".into(), id));
            g(&wd, &["branch", "-f", "topic/deep/er", "HEAD~1"]);
        }
        _ => (),
    }
    // places
    std::fs::create_dir_all(wd.join("some/where/deep")).unwrap();
    std::fs::create_dir_all(linked.join("under")).unwrap();
    std::os::unix::fs::symlink(wd.join("some"), r.dir.join("link")).unwrap();
    let file = r.dir.join("file");
    std::fs::create_dir(&file).unwrap();
    std::fs::write(file.join(".git"), format!("gitdir: {}\n", wd.join(".git").display())).unwrap();
    for d in ["wd", "linked", "link", "file", "other.git"] {
        let p = r.dir.join(d);
        if p.symlink_metadata().is_ok() {
            chown_all(&p);
        }
    }
    let p = |name, dir: PathBuf, linked| Place { name, dir, linked };
    let places = vec![
        p("the worktree", wd.clone(), false),
        p("a directory of the worktree", wd.join("some/where/deep"), false),
        p("the git directory", wd.join(".git"), false),
        p("a directory of the git directory", wd.join(".git/refs/heads"), false),
        p("a symbolic link into the worktree", r.dir.join("link"), false),
        p("a directory with a .git file", file, false),
        p("a linked worktree", linked.clone(), true),
        p("a directory of a linked worktree", linked.join("under"), true),
    ];
    Made { r, places, commits, wd, linked }
}

fn lines(b: &[u8]) -> Vec<String> {
    String::from_utf8_lossy(b).lines().map(|l| l.to_string()).collect()
}

/// Calls `f` with every layout and place, and a way to ask git there.
fn each(rep: &Report, f: &(dyn Fn(&Made, &Place, &str, &dyn Fn(&[&str]) -> Vec<String>) -> u64 + Sync)) {
    let n = std::sync::atomic::AtomicU64::new(0);
    pool(LAYOUTS.len(), || (), |_, i| {
        let m = make(LAYOUTS[i]);
        for p in &m.places {
            let git = |args: &[&str]| -> Vec<String> {
                let dir = if p.linked { &m.linked } else { &m.wd };
                let o = git_cmd(&m.r, dir, args).output().unwrap();
                if !o.status.success() {
                    eprintln!("git {:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
                    cleanup();
                    std::process::exit(2);
                }
                lines(&o.stdout)
            };
            n.fetch_add(f(&m, p, LAYOUTS[i], &git), std::sync::atomic::Ordering::Relaxed);
        }
        let _ = std::fs::remove_dir_all(&m.r.dir);
    });
    rep.scope("repositories made by git: layouts x places x cases", n.into_inner());
}

fn at(m: &Made, p: &Place, prog: &str, args: &[&[u8]]) -> Out {
    run_with(&m.r, prog, args, Opts { cwd: Some(&p.dir), ..Opts::default() })
}

pub fn find(rep: &Report) {
    each(rep, &|m, p, layout, git| {
        let mut n = 0;
        for start in [None, Some("HEAD"), Some("main"), Some("dev"), Some("light"), Some("annotated"), Some("twice"), Some("side"), Some("refs/heads/side2"), Some("topic/deep/er"), Some("origin/main"), Some("main~1"), Some("HEAD^"), Some("main^{/three}"), Some("@")] {
            let seen: Vec<String> = git(&["rev-list", start.unwrap_or("HEAD")]);
            for pat in ["", "a$", "b$", "c$", "merge", "^one", "^(three|two|five)", "none"] {
                let re = |msg: &str| match pat {
                    "" => true,
                    "merge" => msg.contains("merge"),
                    "^one" => msg.starts_with("one"),
                    "none" => false,
                    "^(three|two|five)" => ["three", "two", "five"].iter().any(|x| msg.starts_with(x)),
                    p => msg.ends_with(&p[..1]),
                };
                let want = m.commits.iter().rev().find(|(msg, id)| seen.contains(id) && re(msg)).map(|c| c.1.clone());
                let mut args: Vec<&[u8]> = vec![];
                args.extend(start.map(|s| s.as_bytes()));
                args.push(pat.as_bytes());
                let o = at(m, p, "git-at", &args);
                n += 1;
                let ok = match &want {
                    Some(id) => o.code == Some(0) && o.out == format!("{}\n", id).as_bytes(),
                    None => o.code == Some(1) && o.out.is_empty(),
                };
                if !ok {
                    rep.violation(&format!("place {} {}", layout, p.name), &format!("git-at {:?} \"{}\" in {} ({}): expected {:?}: {}", start, pat, p.name, layout, want, o.show()), &o.show());
                }
            }
        }
        n
    });
}

pub fn dates(rep: &Report) {
    each(rep, &|m, p, layout, git| {
        let mut n = 0;
        for (sort, key) in [("committerdate", "committerdate"), ("authordate", "authordate")] {
            // name, kind, dates of the commit itself or of what a tag leads to; git peels once
            let mut refs: Vec<(String, i64)> = vec![];
            for l in git(&["for-each-ref", "--format=%(symref)|%(refname)"]) {
                let (sym, name) = l.split_once('|').unwrap();
                if sym.is_empty() {
                    let d = git(&["log", "-1", &format!("--format=%{}", if key == "committerdate" { "ct" } else { "at" }), name]);
                    refs.push((name.to_string(), d[0].parse().unwrap()));
                }
            }
            let o = at(m, p, "git-recent-refs", &[format!("--sort={}", sort).as_bytes()]);
            n += 1;
            let got = lines(&o.out);
            let mut a = got.clone();
            a.sort();
            let mut b: Vec<String> = refs.iter().map(|r| r.0.clone()).collect();
            b.sort();
            let date = |n: &String| refs.iter().find(|r| r.0 == *n).map(|r| r.1);
            let e = if o.code != Some(0) {
                Some("failed")
            } else if a != b {
                Some("lists other references than there are")
            } else if got.windows(2).any(|w| date(&w[0]) < date(&w[1])) {
                Some("is out of order")
            } else {
                None
            };
            if let Some(e) = e {
                rep.violation(&format!("place {} {}", layout, p.name), &format!("git-recent-refs --sort={} in {} ({}) {}: {}", sort, p.name, layout, e, o.show()), &format!("{:?}\n{}", refs, o.show()));
            }
        }
        n
    });
}

pub fn visits(rep: &Report) {
    each(rep, &|m, p, layout, git| {
        let id = |rev: &str| git(&["rev-parse", &format!("{}^{{commit}}", rev)])[0].clone();
        let want: Vec<String> = if p.linked {
            vec!["refs/heads/side".into(), id("light"), "refs/heads/side2".into(), "refs/heads/side".into()]
        } else {
            vec!["refs/heads/main".into(), "refs/heads/dev".into(), "refs/heads/topic/deep/er".into(), id("annotated"), "refs/heads/main".into(), "refs/heads/dev".into(), "refs/heads/main".into()]
        };
        for args in [vec![], vec![&b"--sort=visitdate"[..]]] {
            let o = at(m, p, "git-recent-refs", &args);
            let got = lines(&o.out);
            if o.code != Some(0) || got != want {
                rep.violation(&format!("place {} {}", layout, p.name), &format!("git-recent-refs in {} ({}): expected {:?}: {}", p.name, layout, want, o.show()), &o.show());
            }
        }
        2
    });
}

/// A clone without the older history: what git lists there is what there is to find.
pub fn shallow(rep: &Report) {
    let m = make("loose");
    let dir = m.r.dir.join("shallow");
    let run = |d: &Path, args: &[&str]| -> Vec<String> {
        let o = git_cmd(&m.r, d, args).output().unwrap();
        if !o.status.success() {
            eprintln!("git {:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
            cleanup();
            std::process::exit(2);
        }
        lines(&o.stdout)
    };
    // git clones only from a repository of its own user
    give(&m.wd, unsafe { libc::geteuid() });
    run(&m.r.dir, &["clone", "-q", "--depth", "2", "-b", "main", &format!("file://{}", m.wd.display()), dir.to_str().unwrap()]);
    chown_all(&dir);
    let there = run(&dir, &["rev-list", "HEAD"]);
    let mut n = 0;
    for pat in ["a$", "b$", "merge", "none"] {
        let want = m.commits.iter().rev().find(|(msg, id)| there.contains(id) && if pat == "merge" { msg.contains("merge") } else { pat.len() == 2 && msg.ends_with(&pat[..1]) }).map(|c| c.1.clone());
        let o = run_with(&m.r, "git-at", &[pat.as_bytes()], Opts { cwd: Some(&dir), ..Opts::default() });
        n += 1;
        let ok = match &want {
            Some(id) => o.code == Some(0) && o.out == format!("{}\n", id).as_bytes(),
            None => o.code == Some(1) && o.out.is_empty(),
        };
        if !ok {
            let key = if o.code == Some(2) && o.out.is_empty() { "shallow-clone" } else { "shallow-clone and more" };
            rep.violation(key, &format!("git-at \"{}\" in a shallow clone: expected {:?}: {}", pat, want, o.show()), &o.show());
        }
    }
    let _ = std::fs::remove_dir_all(&m.r.dir);
    rep.scope("shallow clones: cases", n);
}
