//! C30: how git-recent-refs reports what became of it.
use crate::at::{commit_as, git_cmd};
use crate::run::*;
use crate::vutil::*;
use std::sync::atomic::{AtomicU64, Ordering};

const SORTS: [&[&str]; 5] = [&[], &["--sort=visitdate"], &["--sort", "committerdate"], &["--sort=committerdate"], &["--sort=authordate"]];

struct Case {
    name: String,
    r: Repo,
    cwd: std::path::PathBuf,
    /// the lists by check-out, committer and author date; nothing if there can be none
    want: Option<[Vec<String>; 3]>,
}

fn which(sort: &[&str]) -> usize {
    let s = sort.concat();
    if s.contains("committer") {
        1
    } else if s.contains("author") {
        2
    } else {
        0
    }
}

/// `n` branches, the first `n` checkouts recorded, dates of the two kinds in opposite orders.
fn sample(n: usize) -> (Repo, [Vec<String>; 3]) {
    let r = Repo::new();
    let g = r.open();
    crate::at::put_tree(&g);
    let mut log = String::new();
    let mut names = vec![];
    for i in 0..n {
        let t = 1_600_000_000 + i as i64;
        let id = commit_as(&g, &[], (3_200_000_000 - t, 0), (t, 0), format!("{}\n", i).as_bytes());
        let b = if i == 0 { "main".to_string() } else { format!("b{:04}", i) };
        r.set_ref(&format!("refs/heads/{}", b), &id);
        if i > 0 {
            log += &format!("{} {} A <a@example.com> {} +0000\tcheckout: moving from {} to main\n", id, id, t, b);
        }
        names.push(format!("refs/heads/{}", b));
    }
    r.write("logs/HEAD", log.as_bytes());
    let newest: Vec<String> = names.iter().rev().cloned().collect();
    let mut visited: Vec<String> = names.iter().take(1).cloned().collect();
    visited.extend(newest.iter().take(n.saturating_sub(1)).cloned());
    (r, [visited, newest, names])
}

/// commit_as takes the author date first, so the newest by author date is the first branch.
fn text(v: &[String]) -> Vec<u8> {
    v.iter().map(|l| format!("{}\n", l)).collect::<String>().into_bytes()
}

fn failed(o: &Out) -> Option<String> {
    if o.timeout {
        Some("it does not end".into())
    } else if o.code == Some(0) {
        Some("it reports success".into())
    } else if o.code.is_none() {
        Some("it is ended by a signal".into())
    } else if o.code == Some(101) || String::from_utf8_lossy(&o.err).contains("panicked") {
        Some("it panics".into())
    } else if o.err.is_empty() {
        Some("there is no message".into())
    } else if !o.out.is_empty() {
        Some("it prints something all the same".into())
    } else {
        None
    }
}

pub fn c30(rep: &Report) {
    let q = rep.quick();
    let mut cases: Vec<Case> = vec![];
    let mut add = |name: &str, r: Repo, sub: &str, want: Option<[Vec<String>; 3]>| {
        let cwd = if sub.starts_with('/') { r.dir.join(&sub[1..]) } else { r.git.join(sub) };
        cases.push(Case { name: name.into(), r, cwd, want });
    };
    for n in [1, 2, 3, 40, 3000] {
        let (r, w) = sample(n);
        add(&format!("{} branches", n), r, "", Some(w));
    }
    let (r, w) = sample(3);
    add("a directory of the repository", r, "refs/heads", Some(w));
    // a repository without commits
    add("a repository without commits", sample(0).0, "", Some([vec![], vec![], vec![]]));
    let (r, w) = sample(4);
    r.write("HEAD", b"ref: refs/heads/unborn\n");
    add("an unborn branch", r, "", Some([w[0][1..].to_vec(), w[1].clone(), w[2].clone()]));
    let (r, w) = sample(4);
    std::fs::remove_file(r.git.join("logs/HEAD")).unwrap();
    add("no history", r, "", Some([vec![w[0][0].clone()], w[1].clone(), w[2].clone()]));
    // none
    add("no repository", Repo::new(), "/home", None);
    let broken: Vec<(&str, &str, &[u8])> = vec![
        ("a damaged configuration", "config", b"[core\n"),
        ("a later format", "config", b"[core]\n\trepositoryformatversion = 99\n"),
        ("an unknown extension", "config", b"[core]\n\trepositoryformatversion = 1\n[extensions]\n\tnonesuch = 1\n"),
    ];
    for (name, f, c) in broken {
        let (r, _) = sample(3);
        r.write(f, c);
        add(name, r, "", None);
    }
    let (r, _) = sample(3);
    std::fs::remove_file(r.git.join("HEAD")).unwrap();
    add("no HEAD", r, "", None);
    let (r, _) = sample(3);
    std::fs::remove_dir_all(r.git.join("refs")).unwrap();
    add("no references directory", r, "", None);
    // the sample and git agree on what there is
    for c in cases.iter().filter(|c| c.want.is_some()) {
        let o = git_cmd(&c.r, &c.r.git, &["-c", "safe.directory=*", "for-each-ref", "--sort=-committerdate", "--format=%(refname)"]).output().unwrap();
        assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
        assert_eq!(o.stdout, text(&c.want.as_ref().unwrap()[1]), "{}", c.name);
    }
    let mut bad_usage: Vec<Vec<&[u8]>> = vec![
        vec![b"main"], vec![b""], vec![b"a", b"b"], vec![b"--", b"main"], vec![b"--sort"], vec![b"--sort="], vec![b"--sort", b""], vec![b"--sort=x"], vec![b"--sort=visit"], vec![b"--sort=VISITDATE"],
        vec![b"--sort=visitdate,authordate"], vec![b"--sort=visitdate", b"--sort=authordate"], vec![b"--sort", b"authordate", b"x"], vec![b"--sort=\xff"], vec![b"--sort=-committerdate"],
        vec![b"-s"], vec![b"-x"], vec![b"--nope"], vec![b"--nope=1"], vec![b"\xff\xfe"], vec![b"--sorted=visitdate"], vec![b"--sort=committerdate "],
    ];
    let plain = bad_usage.len();
    bad_usage.extend(crate::at::odd_lines(&[b"main", b"\xff", b"--sort"], 2));
    let n = AtomicU64::new(0);
    let bad = |key: String, what: String, o: &Out| {
        rep.violation(&key, &format!("{} ({})", what, o.show().chars().take(400).collect::<String>()), &o.show());
    };
    let args = |s: &[&'static str]| -> Vec<&'static [u8]> { s.iter().map(|x| x.as_bytes()).collect() };
    // repositories x kinds of lists, and ill-formed command lines there
    pool(cases.len(), || (), |_, i| {
        let c = &cases[i];
        for sort in SORTS {
            let o = run_with(&c.r, "git-recent-refs", &args(sort), Opts { cwd: Some(&c.cwd), ..Opts::default() });
            n.fetch_add(1, Ordering::Relaxed);
            let e = match &c.want {
                Some(w) => {
                    let w = text(&w[which(sort)]);
                    if o.code == Some(0) && o.err.is_empty() && o.out == w {
                        None
                    } else {
                        Some("it does not print the list and succeed".into())
                    }
                }
                None => failed(&o),
            };
            if let Some(e) = e {
                bad(format!("{} {:?}", c.name, sort), format!("git-recent-refs {} with {}: {}", sort.join(" "), c.name, e), &o);
            }
        }
        for u in bad_usage.iter().take(if i == 0 || !rep.quick() { bad_usage.len() } else { plain }) {
            let o = run_with(&c.r, "git-recent-refs", u, Opts { cwd: Some(&c.cwd), ..Opts::default() });
            n.fetch_add(1, Ordering::Relaxed);
            let line: Vec<String> = u.iter().map(|a| show(a)).collect();
            if let Some(e) = failed(&o) {
                bad(format!("usage {:?}", line), format!("git-recent-refs {:?} with {}: {}", line, c.name, e), &o);
            }
        }
    });
    rep.scope("repositories x kinds of lists and ill-formed command lines", n.load(Ordering::Relaxed));
    // the references cannot be listed
    let m = AtomicU64::new(0);
    let packed: Vec<(&str, Vec<u8>)> = vec![
        ("garbage", b"garbage\n".to_vec()),
        ("a short ID", b"1234 refs/heads/x\n".to_vec()),
        ("no name", format!("{}\n", "1".repeat(40)).into_bytes()),
        ("a peeled ID by itself", format!("^{}\n", "1".repeat(40)).into_bytes()),
        ("a truncated line", format!("{} refs/he", "1".repeat(39)).into_bytes()),
    ];
    pool(packed.len(), || (), |_, i| {
        let (name, c) = &packed[i];
        let (r, w) = sample(3);
        r.write("packed-refs", &[b"# pack-refs with: peeled fully-peeled sorted \n", &c[..]].concat());
        for sort in SORTS {
            let o = run_with(&r, "git-recent-refs", &args(sort), Opts::default());
            m.fetch_add(1, Ordering::Relaxed);
            let whole = o.code == Some(0) && o.out == text(&w[which(sort)]);
            if let (false, Some(e)) = (whole && which(sort) == 0, failed(&o)) {
                bad(format!("packed {} {:?}", name, sort), format!("git-recent-refs {} with damaged packed references ({}): {}", sort.join(" "), name, e), &o);
            }
        }
    });
    rep.scope("damaged packed references", m.load(Ordering::Relaxed));
    // the output cannot be written
    let k = AtomicU64::new(0);
    let lists: Vec<&Case> = cases.iter().filter(|c| c.want.is_some()).collect();
    pool(lists.len(), || (), |_, i| {
        let c = lists[i];
        for sort in SORTS {
            let w = text(&c.want.as_ref().unwrap()[which(sort)]);
            let judge = |what: &str, o: &Out, fits: bool| {
                k.fetch_add(1, Ordering::Relaxed);
                let e = if o.timeout {
                    "it does not end"
                } else if fits && (o.code != Some(0) || o.err != b"") {
                    "it does not succeed"
                } else if !fits && o.code == Some(0) {
                    "it reports success"
                } else if !fits && o.code.is_some() && o.err.is_empty() {
                    "it fails without a message"
                } else {
                    return;
                };
                bad(format!("{} {} {:?}", what, c.name, sort), format!("git-recent-refs {} with {} and {}: {}", sort.join(" "), c.name, what, e), o);
            };
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
            judge("a full disk", &run_with(&c.r, "git-recent-refs", &args(sort), Opts { cwd: Some(&c.cwd), stdout: Some(f), ..Opts::default() }), w.is_empty());
            // a pipe nobody reads from any more
            let (rd, wr) = pipe();
            drop(rd);
            judge("a closed pipe", &run_with(&c.r, "git-recent-refs", &args(sort), Opts { cwd: Some(&c.cwd), stdout: Some(wr), ..Opts::default() }), w.is_empty());
            // a file opened for reading only
            let f = std::fs::File::open("/dev/null").unwrap();
            if !w.is_empty() {
                let o = run_with(&c.r, "git-recent-refs", &args(sort), Opts { cwd: Some(&c.cwd), stdout: Some(f), ..Opts::default() });
                // the standard library takes EBADF on standard output for a closed one
                if o.timeout || o.code.is_none() {
                    bad(format!("read-only {} {:?}", c.name, sort), format!("git-recent-refs {} with {} and a read-only standard output", sort.join(" "), c.name), &o);
                }
                k.fetch_add(1, Ordering::Relaxed);
            }
            // a file that may not grow beyond a size
            let sizes: Vec<usize> = if w.len() < 100 { (0..w.len() + 2).step_by(if q { 3 } else { 1 }).chain([w.len(), w.len().saturating_sub(1)]).collect() } else { vec![0, 1, 1023, 1024, 4096, 8191, 8192, w.len() / 2, w.len() - 1, w.len(), w.len() + 1] };
            for (s, ignore) in sizes.into_iter().flat_map(|s| [(s, false), (s, true)]) {
                if s > w.len() + 1 {
                    continue;
                }
                let p = c.r.dir.join(format!("out{}", which(sort)));
                let f = std::fs::File::create(&p).unwrap();
                let o = run_with(&c.r, "git-recent-refs", &args(sort), Opts { cwd: Some(&c.cwd), stdout: Some(f), fsize: Some((s as u64, ignore)), ..Opts::default() });
                let got = std::fs::read(&p).unwrap();
                std::fs::remove_file(&p).unwrap();
                judge(&format!("room for {} of {} bytes{}", s, w.len(), if ignore { ", signal ignored" } else { "" }), &o, s >= w.len());
                if !w.starts_with(&got) || (o.code == Some(0) && got != w) {
                    bad(format!("limited {} {:?} {}", c.name, sort, s), format!("git-recent-refs {} with {} and room for {} bytes writes something else than the start of the list", sort.join(" "), c.name, s), &o);
                }
            }
        }
    });
    rep.scope("lists x outputs that cannot be written, or not completely", k.load(Ordering::Relaxed));
    rep.count("evaluations", RUNS.load(Ordering::Relaxed));
    rep.count("distinct_nontrivial", n.into_inner() + m.into_inner() + k.into_inner());
    for c in &cases {
        let _ = std::fs::remove_dir_all(&c.r.dir);
    }
}
