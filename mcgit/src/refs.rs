//! git-recent-refs: C25, C26.
use crate::at::{commit_as, git, put_tree, tag, EMPTY_TREE};
use crate::run::*;
use crate::vutil::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// What a reference can point at.
#[derive(Clone, Debug)]
struct Target {
    name: &'static str,
    /// contents of the loose reference
    value: String,
    /// for packed-refs: the ID it peels to
    peeled: Option<String>,
    /// author and committer date of the commit it leads to
    dates: Option<(i64, i64)>,
    /// can be in packed-refs
    packable: bool,
}

const MISSING: &str = "00000000000000000000000000000000000000bb";

fn targets(r: &Repo, g: &git2::Repository) -> Vec<Target> {
    let mut v: Vec<Target> = vec![];
    let mut c = |name: &'static str, a: (i64, i32), d: (i64, i32)| {
        let id = commit_as(g, &[], a, d, format!("{}\n", name).as_bytes());
        v.push(Target { name, value: id.clone(), peeled: None, dates: Some((a.0, d.0)), packable: true });
        id
    };
    const T: i64 = 1_600_000_000;
    let ca = c("commit, author 1 committer 4", (T + 100, 0), (T + 400, 0));
    let cb = c("commit, author 2 committer 3", (T + 200, 0), (T + 300, 0));
    c("commit, author 3 committer 2", (T + 300, 0), (T + 200, 0));
    c("commit, author 2 committer 3 again", (T + 200, 0), (T + 300, 0));
    // the local times of these two are ordered the other way round
    c("commit, author 2.5 in the far east, committer 3.5 in the far west", (T + 250, 840), (T + 350, -720));
    c("commit, author 2.6 in the far west, committer 3.4 in the far east", (T + 260, -720), (T + 340, 840));
    c("commit of the future by author", (20_000_000_000, 0), (999_999_999, 0));
    c("commit of the future by committer", (0, 0), (9_999_999_999, 0));
    let ct = c("commit for tags", (T + 150, 0), (T + 330, 0));
    let blob = g.odb().unwrap().write(git2::ObjectType::Blob, b"hello\n").unwrap().to_string();
    let t1 = tag(g, &ct, "commit", "one");
    let t2 = tag(g, &t1, "tag", "two");
    let ttree = tag(g, EMPTY_TREE, "tree", "tree");
    let tmiss = tag(g, MISSING, "commit", "missing");
    let d = v.last().unwrap().dates;
    v.pop();
    for (name, value, peeled, dates, packable) in [
        ("annotated tag", t1, Some(ct.clone()), d, true),
        ("tag of a tag", t2, Some(ct), d, true),
        ("tag of a tree", ttree, Some(EMPTY_TREE.to_string()), None, true),
        ("tag of a missing commit", tmiss, None, None, false),
        ("tree", EMPTY_TREE.to_string(), None, None, true),
        ("blob", blob, None, None, true),
        ("missing object", MISSING.to_string(), None, None, false),
        ("garbage", "what is this".to_string(), None, None, false),
        ("empty file", "".to_string(), None, None, false),
        ("symbolic to a branch", "ref: refs/heads/zz-fixed".to_string(), None, None, false),
        ("symbolic to nothing", "ref: refs/heads/nothing".to_string(), None, None, false),
    ] {
        v.push(Target { name, value, peeled, dates, packable });
    }
    let _ = (r, ca, cb);
    v
}

const NAMES: &[&str] = &["refs/heads/a", "refs/heads/x/y", "refs/tags/a", "refs/tags/v1.0", "refs/remotes/origin/m", "refs/notes/commits", "refs/stash", "refs/heads/\u{e4}-\u{2192}"];

/// The layout of the references on disk.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Layout {
    Loose,
    Packed,
    /// packed-refs has an outdated value for every reference
    Stale,
}

fn place(r: &Repo, refs: &[(&[u8], &Target)], lay: Layout, stale: &Target) {
    r.clear_refs();
    let mut packed: BTreeMap<Vec<u8>, (String, Option<String>)> = BTreeMap::new();
    for (n, t) in refs {
        let loose = match lay {
            Layout::Loose => true,
            Layout::Packed => !t.packable,
            // (what an unreadable file in front of a packed value means is another matter)
            Layout::Stale if t.value.len() != 40 => true,
            Layout::Stale => {
                packed.insert(n.to_vec(), (stale.value.clone(), stale.peeled.clone()));
                true
            }
        };
        if loose {
            let mut d = t.value.clone().into_bytes();
            if !d.is_empty() {
                d.push(b'\n');
            }
            r.write_os(Path::new(std::ffi::OsStr::from_bytes(n)), &d);
        } else {
            packed.insert(n.to_vec(), (t.value.clone(), t.peeled.clone()));
        }
    }
    if !packed.is_empty() {
        let mut b = b"# pack-refs with: peeled fully-peeled sorted \n".to_vec();
        for (n, (v, p)) in packed {
            b.extend(v.bytes());
            b.push(b' ');
            b.extend(n);
            b.push(b'\n');
            if let Some(p) = p {
                b.extend(format!("^{}\n", p).bytes());
            }
        }
        r.write("packed-refs", &b);
    }
}

fn judge_dates(o: &Out, refs: &[(&[u8], &Target)], author: bool) -> Result<(), String> {
    if o.code != Some(0) {
        return Err(format!("expected status 0: {}", o.show()));
    }
    if !o.out.is_empty() && !o.out.ends_with(b"\n") {
        return Err("the last line has no end".into());
    }
    let date = |t: &Target| t.dates.map(|d| if author { d.0 } else { d.1 });
    let mut lines: Vec<&[u8]> = o.out.split(|&c| c == b'\n').collect();
    lines.pop();
    let mut last = i64::MAX;
    let mut seen = HashSet::new();
    let by_name: std::collections::HashMap<&[u8], &Target> = refs.iter().copied().collect();
    for l in &lines {
        let (n, t) = match by_name.get_key_value(l) {
            Some((n, t)) => (n, *t),
            None => return Err(format!("\"{}\" is listed but is no reference", show(l))),
        };
        let d = match date(t) {
            Some(d) => d,
            None => return Err(format!("{} is listed but is a {}", show(n), t.name)),
        };
        if !seen.insert(*n) {
            return Err(format!("{} is listed twice", show(n)));
        }
        if d > last {
            return Err(format!("{} ({}) comes after an older one", show(n), t.name));
        }
        last = d;
    }
    for (n, t) in refs {
        if date(t).is_some() && !seen.contains(n) {
            return Err(format!("{} ({}) is not listed", show(n), t.name));
        }
    }
    Ok(())
}

fn sort_arg(author: bool, form: usize) -> Vec<&'static [u8]> {
    match (author, form % 2) {
        (true, 0) => vec![b"--sort=authordate"],
        (true, _) => vec![b"--sort", b"authordate"],
        (false, 0) => vec![b"--sort=committerdate"],
        (false, _) => vec![b"--sort", b"committerdate"],
    }
}

fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).collect()
}

pub fn c25(rep: &Report) {
    let q = rep.quick();
    let runs = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let build = || {
        let r = Repo::new();
        let g = r.open();
        put_tree(&g);
        let t = targets(&r, &g);
        (r, t)
    };
    let (proto, menu) = build();
    let nt = menu.len();
    // the fixed branch that symbolic references point at
    let fixed: &[u8] = b"refs/heads/zz-fixed";
    let go = |r: &Repo, t: &[Target], what: &[(&'static str, usize)], lay: Layout, author: bool, form: usize| {
        let mut refs: Vec<(&[u8], &Target)> = what.iter().map(|(n, i)| (n.as_bytes(), &t[*i])).collect();
        if what.iter().any(|(_, i)| t[*i].name.starts_with("symbolic")) {
            refs.push((fixed, &t[0]));
        }
        place(r, &refs, lay, &t[2]);
        let o = run(r, "git-recent-refs", &sort_arg(author, form));
        runs.fetch_add(1, Relaxed);
        if refs.len() > 1 {
            nontrivial.fetch_add(1, Relaxed);
        }
        if let Err(e) = judge_dates(&o, &refs, author) {
            let s = refs.iter().map(|(n, t)| format!("{} = {}", show(n), t.name)).collect::<Vec<_>>().join("; ");
            rep.violation(
                &strip(&format!("{} {:?}", e.split(" is ").last().unwrap().split(" (").last().unwrap(), lay)),
                &format!("git-recent-refs --sort={} with {} ({:?}): {}", if author { "authordate" } else { "committerdate" }, s, lay, e),
                &format!("{}\n{}", s, o.show()),
            );
        }
    };
    // pairs, and single ones by way of two equal names
    let names = NAMES.len();
    let lays = [Layout::Loose, Layout::Packed, Layout::Stale];
    pool(names * names, build, |(r, t), x| {
        let (n1, n2) = (x / names, x % names);
        if n2 < n1 || (q && (n1 + n2) % 3 != 0 && n1 != n2) {
            return;
        }
        for i in 0..nt {
            if n1 == n2 {
                for l in lays {
                    for a in [false, true] {
                        go(r, t, &[(NAMES[n1], i)], l, a, i);
                    }
                }
                continue;
            }
            for j in 0..nt {
                for (k, l) in lays.into_iter().enumerate() {
                    for a in [false, true] {
                        if !q || k == (i + j + a as usize) % 3 {
                            go(r, t, &[(NAMES[n1], i), (NAMES[n2], j)], l, a, i + j);
                        }
                    }
                }
            }
        }
    });
    rep.scope(&format!("one or two references ({} names) x {} kinds of targets x layouts x kinds of date", names, nt), runs.swap(0, Relaxed));
    // triples: the names rotate
    pool(nt * nt, build, |(r, t), x| {
        let (i, j) = (x / nt, x % nt);
        for k in 0..nt {
            let s = i * 7 + j * 3 + k;
            let n = [NAMES[s % names], NAMES[(s + 1 + j % 3) % names], NAMES[(s + 4 + k % 3) % names]];
            for a in [false, true] {
                if !q || (i + j + k + a as usize) % 2 == 0 {
                    go(r, t, &[(n[0], i), (n[1], j), (n[2], k)], lays[(i + j + k) % 3], a, k);
                }
            }
        }
    });
    rep.scope(&format!("three references x {} kinds of targets each", nt), runs.swap(0, Relaxed));
    if !q {
        // four references to things that matter for the order
        let m: Vec<usize> = (0..12).collect();
        pool(m.len().pow(2), build, |(r, t), x| {
            let (i, j) = (m[x / m.len()], m[x % m.len()]);
            for &k in &m {
                for &l in &m {
                    let s = i + j * 3 + k * 5 + l * 2;
                    let n: Vec<&str> = (0..4).map(|z| NAMES[(s + z * 3) % names]).collect();
                    for a in [false, true] {
                        go(r, t, &[(n[0], i), (n[1], j), (n[2], k), (n[3], l)], lays[s % 3], a, l);
                    }
                }
            }
        });
        rep.scope("four references x 12 kinds of targets each", runs.swap(0, Relaxed));
    }
    // many references: every kind of target for every name in one repository, in many orders
    let big = if q { 40 } else { 400 };
    let sizes = if q { [60usize, 700] } else { [60, 5000] };
    pool(big + 8, build, |(r, t), x| {
        let mut refs: Vec<(Vec<u8>, Target)> = vec![];
        let g = r.open();
        let size = sizes[(x >= big) as usize];
        for i in 0..size {
            let (a, c) = ((i * [1, 7, 59, 23, 37][x % 5] + x) % size, (i * [7, 11, 1, 53, 29][x / 5 % 5] + x / 25) % size);
            let (a, c) = (1_000_000_000 + a as i64 * 1000, 1_000_000_000 + c as i64 * 1000);
            let id = commit_as(&g, &[], (a, (i as i32 * 97) % 1440 - 720), (c, (i as i32 * 59) % 1440 - 720), b"x\n");
            let name = format!("refs/{}/n{}", ["heads", "tags", "remotes/o", "heads/deep/er"][i % 4], (i * 17 + x) % 60 + i * 100);
            refs.push((name.into_bytes(), Target { name: "commit", value: id, peeled: None, dates: Some((a, c)), packable: i % 3 != 0 }));
        }
        for (i, t) in t.iter().enumerate().filter(|(_, t)| t.dates.is_none() && !t.name.starts_with("symbolic")) {
            refs.push((format!("refs/heads/bad{}", i).into_bytes(), t.clone()));
        }
        let list: Vec<(&[u8], &Target)> = refs.iter().map(|(n, t)| (&n[..], t)).collect();
        for lay in lays {
            place(r, &list, lay, &t[2]);
            for a in [false, true] {
                let o = run(r, "git-recent-refs", &sort_arg(a, x));
                runs.fetch_add(1, Relaxed);
                nontrivial.fetch_add(1, Relaxed);
                if let Err(e) = judge_dates(&o, &list, a) {
                    rep.violation("many references", &format!("git-recent-refs {:?} with {} references in {:?} layout, number {}: {}", a, size, lay, x, e), &o.show());
                }
            }
        }
    });
    rep.scope("60 or 700 (thorough 5000) references with permuted dates among broken ones", runs.swap(0, Relaxed));
    // very many of them, loose or not, with few dates
    let counts = if q { vec![1023usize, 1024, 1025, 4097, 20_000, 70_000] } else { vec![1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 10_001, 20_000, 65_535, 65_536, 65_537, 200_000] };
    pool(counts.len() * 2, build, |(r, t), x| {
        let n = counts[counts.len() - 1 - x / 2];
        let g = r.open();
        let ids: Vec<(String, (i64, i64))> = (0..300i64)
            .map(|i| {
                let (a, c) = (1_000_000_000 + (i * 7 % 300) * 1000, 1_000_000_000 + (i * 11 % 300) * 1000);
                (commit_as(&g, &[], (a, 0), (c, 0), b"x\n"), (a, c))
            })
            .collect();
        let refs: Vec<(Vec<u8>, Target)> = (0..n)
            .map(|i| {
                let (id, d) = &ids[(i * 13 + x) % 300];
                let name = format!("refs/{}/n{}", ["heads", "tags", "remotes/o", "heads/deep/er"][i % 4], i);
                (name.into_bytes(), Target { name: "commit", value: id.clone(), peeled: None, dates: Some(*d), packable: true })
            })
            .collect();
        let list: Vec<(&[u8], &Target)> = refs.iter().map(|(n, t)| (&n[..], t)).collect();
        place(r, &list, if n > 5000 || x % 2 == 0 { Layout::Packed } else { Layout::Loose }, &t[2]);
        for a in [false, true] {
            if n < 50_000 || a == (x % 2 == 0) {
                let o = run(r, "git-recent-refs", &sort_arg(a, x));
                runs.fetch_add(1, Relaxed);
                nontrivial.fetch_add(1, Relaxed);
                if let Err(e) = judge_dates(&o, &list, a) {
                    rep.violation("very many references", &format!("git-recent-refs with {} references, by {} date: {}", n, if a { "author" } else { "committer" }, e.chars().take(500).collect::<String>()), &e);
                }
            }
        }
    });
    rep.scope("up to 70 000 (thorough 200 000) references", runs.swap(0, Relaxed));
    crate::places::dates(rep);
    // nothing at all, and names that are no UTF-8
    proto.clear_refs();
    let o = run(&proto, "git-recent-refs", &[b"--sort=committerdate"]);
    if o.code != Some(0) || !o.out.is_empty() {
        rep.violation("no references", &format!("git-recent-refs without references: {}", o.show()), &o.show());
    }
    for a in [false, true] {
        let refs: Vec<(&[u8], &Target)> = vec![(b"refs/heads/\xff\xfe", &menu[0]), (b"refs/heads/ok", &menu[1])];
        place(&proto, &refs, Layout::Loose, &menu[2]);
        let o = run(&proto, "git-recent-refs", &sort_arg(a, 0));
        if let Err(e) = judge_dates(&o, &refs, a) {
            // the rest must be right all the same
            let rest = judge_dates(&o, &refs[1..], a);
            let key = if rest.is_ok() { "non-utf8-name" } else { "non-utf8-name and more" };
            rep.violation(key, &format!("git-recent-refs with a branch whose name is not UTF-8: {}", e), &o.show());
        }
    }
    // the menu is what git makes of it
    let mut same = 0;
    for t in &menu {
        let refs: Vec<(&[u8], &Target)> = vec![(b"refs/heads/zz-fixed", &menu[0]), (b"refs/tags/t", t)];
        place(&proto, &refs, Layout::Loose, &menu[2]);
        let direct = !t.name.starts_with("symbolic");
        let got = if t.value.len() == 40 && t.value != MISSING && !t.name.contains("missing") { git(&proto, &["for-each-ref", "--format=%(objecttype) %(*objecttype) %(symref)", "refs/tags/t"]) } else { String::new() };
        let to_commit = direct && !got.is_empty() && git_ok(&proto, &["rev-parse", "-q", "--verify", "refs/tags/t^{commit}"]);
        let d = t.dates.map(|d| format!("{} {}", d.0, d.1));
        let real = if to_commit { Some(git(&proto, &["log", "-1", "--format=%at %ct", "refs/tags/t"]).trim().to_string()) } else { None };
        if d != real {
            eprintln!("the model takes {} for {:?}, git for {:?}", t.name, d, real);
            cleanup();
            std::process::exit(2);
        }
        same += 1;
    }
    rep.count("targets_validated_against_git", same);
    rep.count("evaluations", RUNS.load(Relaxed));
    rep.count("distinct_nontrivial", nontrivial.into_inner());
    rep.text("rule", "one evaluation is one run of the real git-recent-refs on one assignment of targets to references, all distinct; non-trivial are those with at least two references");
    rep.text("targets", &menu.iter().map(|t| t.name).collect::<Vec<_>>().join("; "));
    rep.sample("refs/heads/a = commit, refs/tags/v1.0 = tag of a missing commit, refs/stash = symbolic to a branch; packed; by author date".into());
    rep.assume("references with equal dates may come in any order; symbolic references are not direct ones and may not be listed");
}

fn git_ok(r: &Repo, args: &[&str]) -> bool {
    crate::at::git_cmd(r, &r.git, args).output().unwrap().status.success()
}

// ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Checkout(usize),
    /// create a branch and check it out
    New(usize),
    /// detach at the current commit
    Detach,
    /// detach at the first commit
    DetachRoot,
    Commit,
    /// a commit whose message looks like a checkout
    Tricky,
    Reset,
    Delete(usize),
    /// rename the current branch
    Rename(usize),
    /// the current branch goes away and HEAD stays (as on another machine, or update-ref -d)
    DropCurrent,
    /// an object that a detached HEAD was at is pruned
    Prune,
}
use Op::*;

const BR: &[&str] = &["main", "dev", "topic/x-y"];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Pos {
    Branch(usize),
    At(usize),
}

/// The history as the user sees it; commits are numbers.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Hist {
    head: Pos,
    /// the commit of each branch
    br: [Option<usize>; 3],
    ncommits: usize,
    parent: Vec<Option<usize>>,
    gone: Vec<usize>,
    /// positions that were left, oldest first
    left: Vec<Pos>,
    /// reflog of HEAD: (from, to, message), with @n@ for commit IDs
    log: Vec<(Option<usize>, Option<usize>, String)>,
}

impl Hist {
    fn new() -> Hist {
        Hist { head: Pos::Branch(0), br: [Some(0), Some(0), None], ncommits: 1, parent: vec![None], gone: vec![], left: vec![], log: vec![(None, Some(0), "commit (initial): m".into())] }
    }
    fn cur(&self) -> Option<usize> {
        match self.head {
            Pos::Branch(b) => self.br[b],
            Pos::At(c) => Some(c),
        }
    }
    fn name(p: Pos) -> String {
        match p {
            Pos::Branch(b) => BR[b].to_string(),
            Pos::At(c) => format!("@{}@", c),
        }
    }
    /// Git takes the ID of the commit for the name of a branch that is not there.
    fn go(&mut self, to: Pos, typed: String) {
        let from = self.cur();
        self.left.push(self.head);
        let f = Hist::name(self.head);
        self.head = to;
        let t = self.cur();
        self.log.push((from, t, format!("checkout: moving from {} to {}", f, typed)));
    }
    fn new_commit(&mut self, msg: &str) {
        let from = self.cur();
        let c = self.ncommits;
        self.ncommits += 1;
        self.parent.push(from);
        match self.head {
            Pos::Branch(b) => self.br[b] = Some(c),
            Pos::At(_) => self.head = Pos::At(c),
        }
        self.log.push((from, Some(c), format!("commit: {}", msg)));
    }
    /// Apply an operation, if it is possible.
    fn apply(&mut self, op: Op) -> bool {
        let cur = match self.cur() {
            Some(c) => c,
            // on a branch without commits only leaving is modelled
            None => match op {
                Checkout(b) if self.br[b].is_some() => 0,
                _ => return false,
            },
        };
        match op {
            Checkout(b) => {
                if self.br[b].is_none() || self.cur().is_none() && self.head == Pos::Branch(b) {
                    return false;
                }
                self.go(Pos::Branch(b), BR[b].into());
            }
            New(b) => {
                if self.br[b].is_some() {
                    return false;
                }
                self.br[b] = Some(cur);
                self.go(Pos::Branch(b), BR[b].into());
            }
            // git records no movement from a detached position to the same one
            Detach if self.head == Pos::At(cur) => return false,
            DetachRoot if self.head == Pos::At(0) => return false,
            Detach => self.go(Pos::At(cur), format!("@{}@", cur)),
            DetachRoot => self.go(Pos::At(0), "@0@".into()),
            Commit => self.new_commit("more"),
            Tricky => self.new_commit("checkout: moving from dev to main"),
            Reset => self.log.push((Some(cur), Some(cur), "reset: moving to HEAD".into())),
            Delete(b) => {
                if self.br[b].is_none() || self.head == Pos::Branch(b) {
                    return false;
                }
                self.br[b] = None;
            }
            Rename(to) => {
                let f = match self.head {
                    Pos::Branch(f) if self.br[to].is_none() => f,
                    _ => return false,
                };
                self.br[to] = self.br[f].take();
                self.head = Pos::Branch(to);
                let m = format!("Branch: renamed refs/heads/{} to refs/heads/{}", BR[f], BR[to]);
                self.log.push((Some(cur), None, m.clone()));
                self.log.push((None, Some(cur), m));
            }
            DropCurrent => match self.head {
                Pos::Branch(b) => self.br[b] = None,
                _ => return false,
            },
            Prune => {
                // the newest commit that nothing reaches
                let mut live: HashSet<usize> = HashSet::from([0]);
                for c in self.br.iter().flatten().copied().chain(self.cur()) {
                    let mut c = Some(c);
                    while let Some(x) = c {
                        live.insert(x);
                        c = self.parent[x];
                    }
                }
                match (0..self.ncommits).rev().find(|c| !live.contains(c) && !self.gone.contains(c)) {
                    Some(c) => self.gone.push(c),
                    None => return false,
                }
            }
        }
        true
    }
    /// What must be printed; the first line may have several forms.
    fn expect(&self, ids: &[String]) -> (Vec<String>, Vec<String>) {
        let there = |p: Pos| match p {
            Pos::Branch(b) => self.br[b].map(|_| format!("refs/heads/{}", BR[b])),
            Pos::At(c) => {
                if self.gone.contains(&c) {
                    None
                } else {
                    Some(ids[c].clone())
                }
            }
        };
        let first = match self.head {
            Pos::Branch(_) => there(self.head).into_iter().collect(),
            Pos::At(c) => vec!["HEAD".to_string(), ids[c].clone()],
        };
        (first, self.left.iter().rev().filter_map(|&p| there(p)).collect())
    }
    fn subst(s: &str, ids: &[String]) -> String {
        let mut o = String::new();
        for (i, p) in s.split('@').enumerate() {
            if i % 2 == 1 {
                o.push_str(&ids[p.parse::<usize>().unwrap()]);
            } else {
                o.push_str(p);
            }
        }
        o
    }
    fn messages(&self, ids: &[String]) -> Vec<String> {
        self.log.iter().map(|l| Hist::subst(&l.2, ids)).collect()
    }
    fn place(&self, r: &Repo, ids: &[String], variant: usize) {
        r.clear_refs();
        let zero = "0".repeat(40);
        let mut packed = String::from("# pack-refs with: peeled fully-peeled sorted \n");
        let mut any = false;
        let mut order: Vec<usize> = (0..3).collect();
        order.sort_by_key(|&b| BR[b]);
        for b in order {
            if let Some(c) = self.br[b] {
                if (b + variant) % 2 == 0 {
                    r.set_ref(&format!("refs/heads/{}", BR[b]), &ids[c]);
                } else {
                    packed.push_str(&format!("{} refs/heads/{}\n", ids[c], BR[b]));
                    any = true;
                }
            }
        }
        if any {
            r.write("packed-refs", packed.as_bytes());
        }
        match self.head {
            Pos::Branch(b) => r.write("HEAD", format!("ref: refs/heads/{}\n", BR[b]).as_bytes()),
            Pos::At(c) => r.write("HEAD", format!("{}\n", ids[c]).as_bytes()),
        }
        let mut log = String::new();
        for (i, (f, t, m)) in self.log.iter().enumerate() {
            let id = |x: &Option<usize>| x.map(|c| ids[c].clone()).unwrap_or(zero.clone());
            log.push_str(&format!("{} {} C O Mitter <c@example.com> {} +0000\t{}\n", id(f), id(t), 1_600_000_000 + i, Hist::subst(m, ids)));
        }
        r.write("logs/HEAD", log.as_bytes());
    }
}

fn judge_visits(o: &Out, first: &[String], rest: &[String]) -> Result<(), String> {
    if o.code != Some(0) {
        return Err(format!("expected status 0: {}", o.show()));
    }
    let text = String::from_utf8_lossy(&o.out).to_string();
    let mut lines: Vec<&str> = text.lines().collect();
    if !first.is_empty() {
        if lines.is_empty() || !first.iter().any(|f| f == lines[0]) {
            return Err(format!("the current position ({}) does not come first", first.last().unwrap()));
        }
        lines.remove(0);
    }
    if lines != rest.iter().map(|s| &s[..]).collect::<Vec<_>>() || (!text.is_empty() && !text.ends_with('\n')) {
        let what = if lines.len() < rest.len() {
            "positions are missing"
        } else if lines.len() > rest.len() {
            "there are too many positions"
        } else {
            "wrong positions"
        };
        return Err(format!("{}: expected {:?}, got {:?}", what, rest, lines));
    }
    Ok(())
}

const ALPHABET: &[Op] = &[Checkout(0), Checkout(1), Checkout(2), New(2), New(1), Detach, DetachRoot, Commit, Tricky, Reset, Delete(1), Delete(2), Delete(0), Rename(2), DropCurrent, Prune];

fn sequences(depth: usize, ops: &[Op], out: &mut Vec<Vec<Op>>) {
    fn go(h: &Hist, pre: &mut Vec<Op>, left: usize, ops: &[Op], out: &mut Vec<Vec<Op>>) {
        out.push(pre.clone());
        if left == 0 {
            return;
        }
        for &o in ops {
            let mut n = h.clone();
            if n.apply(o) {
                pre.push(o);
                go(&n, pre, left - 1, ops, out);
                pre.pop();
            }
        }
    }
    go(&Hist::new(), &mut vec![], depth, ops, out);
}

struct Light {
    r: Repo,
    ids: Vec<String>,
    /// the same without the last few commits, for pruned ones
    files: Vec<std::path::PathBuf>,
}

fn light() -> Light {
    let r = Repo::new();
    let g = r.open();
    put_tree(&g);
    let mut ids: Vec<String> = vec![];
    for i in 0..24i64 {
        // unrelated commits: only their presence matters here
        ids.push(commit_as(&g, &[], (1_600_000_000 + i, 0), (1_600_000_000 + i, 0), b"x\n"));
    }
    let files = ids.iter().map(|i| r.git.join("objects").join(&i[..2]).join(&i[2..])).collect();
    Light { r, ids, files }
}

fn ops_text(s: &[Op]) -> String {
    s.iter()
        .map(|o| match o {
            Checkout(b) => format!("checkout {}", BR[*b]),
            New(b) => format!("checkout -b {}", BR[*b]),
            Detach => "checkout --detach".into(),
            DetachRoot => "checkout <root>".into(),
            Commit => "commit".into(),
            Tricky => "commit -m 'checkout: moving from dev to main'".into(),
            Reset => "reset HEAD".into(),
            Delete(b) => format!("branch -D {}", BR[*b]),
            Rename(b) => format!("branch -m {}", BR[*b]),
            DropCurrent => "update-ref -d <current branch>".into(),
            Prune => "prune the newest unreachable commit".into(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn c26(rep: &Report) {
    let q = rep.quick();
    let nontrivial = AtomicU64::new(0);
    let mut plans: Vec<(&str, usize, Vec<Op>)> = vec![("all operations", if q { 4 } else { 5 }, ALPHABET.to_vec())];
    plans.push(("checkouts, detaching, deleting", if q { 6 } else { 8 }, vec![Checkout(0), Checkout(1), DetachRoot, Delete(1), New(1)]));
    plans.push(("detached work and pruning", if q { 6 } else { 7 }, vec![Checkout(0), Detach, DetachRoot, Commit, Prune, Tricky]));
    let mut all: HashSet<Hist> = HashSet::new();
    for (name, depth, ops) in plans {
        let mut seqs = vec![];
        sequences(depth, &ops, &mut seqs);
        // distinct resulting histories only
        let work: Vec<(Vec<Op>, Hist)> = seqs
            .into_iter()
            .filter_map(|s| {
                let mut h = Hist::new();
                for &o in &s {
                    h.apply(o);
                }
                if all.insert(h.clone()) {
                    Some((s, h))
                } else {
                    None
                }
            })
            .collect();
        let limit = if q { 40_000 } else { 700_000 };
        assert!(work.len() <= limit, "{} histories", work.len());
        pool(work.len(), light, |l, x| {
            let (s, h) = &work[x];
            h.place(&l.r, &l.ids, x);
            for &c in &h.gone {
                let _ = std::fs::rename(&l.files[c], l.r.dir.join(format!("gone{}", c)));
            }
            let args: Vec<&[u8]> = match x % 3 {
                0 => vec![],
                1 => vec![b"--sort=visitdate"],
                _ => vec![b"--sort", b"visitdate"],
            };
            let o = run(&l.r, "git-recent-refs", &args);
            for &c in &h.gone {
                let _ = std::fs::rename(l.r.dir.join(format!("gone{}", c)), &l.files[c]);
            }
            if h.left.len() > 1 {
                nontrivial.fetch_add(1, Relaxed);
            }
            let (first, rest) = h.expect(&l.ids);
            if let Err(e) = judge_visits(&o, &first, &rest) {
                rep.violation(&strip(e.split(':').next().unwrap()).replace(|c: char| c.is_ascii_hexdigit(), ""), &format!("after {}: {}", ops_text(s), e), &format!("{:#?}\n{}", h, o.show()));
            }
        });
        rep.scope(&format!("histories of up to {} operations: {}", depth, name), work.len() as u64);
    }
    // long histories
    let l = light();
    let mut n = 0;
    for len in if q { [50usize, 300, 12_000] } else { [50, 12_000, 70_000] } {
        for k in 0..6usize {
            let mut h = Hist::new();
            h.br[2] = Some(0);
            h.log.push((Some(0), Some(0), "reset: moving to HEAD".into()));
            for i in 0..len {
                let op = match (i * (k + 1) + i / 3) % 7 {
                    0 | 3 => Checkout(0),
                    1 => Checkout(1),
                    2 | 5 => Checkout(2),
                    4 => DetachRoot,
                    _ if k % 2 == 0 => Detach,
                    _ => Reset,
                };
                h.apply(op);
            }
            for gone in 0..4 {
                let mut h = h.clone();
                if gone < 3 {
                    if h.head == Pos::Branch(gone) {
                        continue;
                    }
                    h.br[gone] = None;
                }
                h.place(&l.r, &l.ids, k);
                let o = run(&l.r, "git-recent-refs", &[]);
                n += 1;
                let (first, rest) = h.expect(&l.ids);
                if let Err(e) = judge_visits(&o, &first, &rest) {
                    rep.violation("long", &format!("after {} movements (kind {}), branch {} deleted: {}", len, k, gone, e.chars().take(400).collect::<String>()), &o.show());
                }
            }
        }
    }
    nontrivial.fetch_add(n, Relaxed);
    rep.scope("long histories", n);
    // entries that are nearly checkouts, at every position among real ones
    let real_entry = "checkout: moving from dev to main";
    let prefix = "checkout: moving from ";
    let mut near: BTreeSet<String> = Default::default();
    for i in 0..prefix.len() {
        near.insert(prefix[..i].into());
        near.insert(format!("{}{}", &real_entry[..i], &real_entry[i + 1..]));
        near.insert(format!("{}x{}", &real_entry[..i], &real_entry[i..]));
        near.insert(format!("{}_{}", &real_entry[..i], &real_entry[i + 1..]));
        let c = real_entry[i..].chars().next().unwrap();
        if c.is_ascii_lowercase() {
            near.insert(format!("{}{}{}", &real_entry[..i], c.to_ascii_uppercase(), &real_entry[i + 1..]));
        }
    }
    for t in ["checkout: returning from dev to main", "checkout: updating HEAD", "checkout: ", "checkout: moving to dev", "checkout: dev", "checkout dev", "commit: checkout: moving from dev to main", "switch: moving from dev to main", "rebase (start): checkout dev", "rebase (finish): returning to refs/heads/dev", "rebase -i (start): checkout: moving from dev to main", "pull: checkout: moving from dev to main", "clone: from dev", "Branch: renamed refs/heads/dev to refs/heads/main", "reset: moving to dev", "merge dev: Fast-forward", "cherry-pick: moving from dev to main", "\"checkout: moving from dev to main\"", "checkout:  moving from dev to main", "checkout: moving  from dev to main", "checkout : moving from dev to main", "dev", ""] {
        near.insert(t.into());
    }
    near.remove(real_entry);
    let mut n = 0;
    for t in &near {
        for at in 0..3usize {
            let mut h = Hist::new();
            h.br[2] = Some(0);
            for (i, b) in [1usize, 2, 0].into_iter().enumerate() {
                if i == at {
                    h.log.push((Some(0), Some(0), t.clone()));
                }
                h.apply(Checkout(b));
            }
            h.place(&l.r, &l.ids, at);
            let o = run(&l.r, "git-recent-refs", &[]);
            n += 1;
            let (first, rest) = h.expect(&l.ids);
            if let Err(e) = judge_visits(&o, &first, &rest) {
                rep.violation(&format!("near {}", t), &format!("with the entry \"{}\" in the reflog: {}", t, e), &o.show());
            }
        }
    }
    nontrivial.fetch_add(n, Relaxed);
    rep.scope("entries that are nearly checkouts x places", n);
    // branches whose names look like those of other references, there or not, with and without those
    let mut n = 0;
    let names = ["refs/foo", "refs/heads/foo", "foo", "heads/foo", "tags/foo", "refs/tags/foo", "origin/foo", "remotes/origin/foo", "refs", "heads", "HEAD/x", "to", "from", "moving", "a-to-b", "FETCH_HEAD", "feed", "0", "-x", "x@y", "x{y", "deadbeef", "1234567890", "caf\u{e9}"];
    for b in names.iter() {
        for there in [true, false] {
            for others in [false, true] {
                for packed in [false, true] {
                    Hist::new().place(&l.r, &l.ids, 0);
                    let mut list = vec![];
                    if there {
                        list.push(format!("refs/heads/{}", b));
                    }
                    if others {
                        for k in ["refs/tags/", "refs/remotes/", "refs/remotes/origin/", "refs/", ""] {
                            // a reference outside the branches, and no conflict of names with them
                            let full = format!("{}{}", k, b);
                            if full.starts_with("refs/") && (!full.starts_with("refs/heads/") || *b == "refs/heads/foo") && *b != "heads" && *b != "refs" && *b != "heads/foo" {
                                list.push(full);
                            }
                        }
                    }
                    list.sort();
                    let mut text = String::from("# pack-refs with: peeled fully-peeled sorted \n");
                    for f in &list {
                        if packed {
                            text.push_str(&format!("{} {}\n", l.ids[1], f));
                        } else {
                            l.r.set_ref(f, &l.ids[1]);
                        }
                    }
                    if packed {
                        // main and dev are loose or packed already
                        for m in ["dev", "main"] {
                            l.r.set_ref(&format!("refs/heads/{}", m), &l.ids[0]);
                        }
                        l.r.write("packed-refs", text.as_bytes());
                    }
                    let mut log = String::new();
                    for (f, t) in [("main", *b), (*b, "dev"), ("dev", *b), (*b, "main")] {
                        log.push_str(&format!("{} {} C <c@example.com> 1600000000 +0000\tcheckout: moving from {} to {}\n", l.ids[0], l.ids[0], f, t));
                    }
                    l.r.write("logs/HEAD", log.as_bytes());
                    let full = format!("refs/heads/{}", b);
                    let rest: Vec<String> = if there { vec![full.clone(), "refs/heads/dev".into(), full, "refs/heads/main".into()] } else { vec!["refs/heads/dev".into(), "refs/heads/main".into()] };
                    let o = run(&l.r, "git-recent-refs", &[]);
                    n += 1;
                    if let Err(e) = judge_visits(&o, &["refs/heads/main".to_string()], &rest) {
                        rep.violation(&format!("name {}", b), &format!("with the branch \"{}\" {}, {} references of that name: {}", b, if there { "there" } else { "deleted" }, if others { "and other" } else { "without other" }, e), &format!("{:?}\n{}\n{}", list, log, o.show()));
                    }
                }
            }
        }
    }
    nontrivial.fetch_add(n, Relaxed);
    rep.scope("names of branches that look like other names x there or not x other references", n);
    crate::places::visits(rep);
    // no reflog at all; only a reflog
    let mut n = 0;
    for p in [Pos::Branch(0), Pos::At(3), Pos::Branch(1)] {
        let mut h = Hist::new();
        h.head = p;
        if p == Pos::Branch(1) {
            h.br = [None, None, Some(1)];
        }
        h.place(&l.r, &l.ids, 0);
        for log in [None, Some("")] {
            match log {
                None => std::fs::remove_dir_all(l.r.git.join("logs")).unwrap(),
                Some(t) => l.r.write("logs/HEAD", t.as_bytes()),
            }
            let o = run(&l.r, "git-recent-refs", &[]);
            n += 1;
            let (first, _) = h.expect(&l.ids);
            if let Err(e) = judge_visits(&o, &first, &[]) {
                rep.violation("no reflog", &format!("without a reflog, HEAD at {:?}: {}", p, e), &o.show());
            }
        }
    }
    rep.scope("no history", n);
    // a name that is no UTF-8 may be missing, but may not hide anything
    let mut h = Hist::new();
    h.go(Pos::Branch(1), "dev".into());
    h.go(Pos::Branch(0), "main".into());
    h.place(&l.r, &l.ids, 0);
    let mut log = std::fs::read(l.r.git.join("logs/HEAD")).unwrap();
    for (f, t) in [(&b"main"[..], &b"b\xff"[..]), (b"b\xff", b"main")] {
        log.extend(format!("{} {} C <c@e> 1600000100 +0000\t", l.ids[0], l.ids[0]).bytes());
        log.extend([b"checkout: moving from ", f, b" to ", t, b"\n"].concat());
    }
    l.r.write("logs/HEAD", &log);
    l.r.write_os(Path::new(std::ffi::OsStr::from_bytes(b"refs/heads/b\xff")), format!("{}\n", l.ids[0]).as_bytes());
    let o = run(&l.r, "git-recent-refs", &[]);
    if o.out != b"refs/heads/main\nrefs/heads/b\xff\nrefs/heads/main\nrefs/heads/dev\nrefs/heads/main\n" {
        let key = if o.out == b"refs/heads/main\nrefs/heads/main\nrefs/heads/dev\nrefs/heads/main\n" { "non-utf8-name" } else { "non-utf8-name and more" };
        rep.violation(key, "a visited branch whose name is not UTF-8 is missing from the list", &o.show());
    }
    // the model is what git does: the same operations with real git
    let conf = Mutex::new((0u64, 0u64));
    let mut seqs = vec![];
    sequences(if q { 2 } else { 3 }, ALPHABET, &mut seqs);
    if q {
        let mut s3 = vec![];
        sequences(3, ALPHABET, &mut s3);
        seqs.extend(s3.into_iter().filter(|s| s.len() == 3).step_by(17));
    }
    par(seqs.len(), |x| {
        let n = real(rep, &seqs[x]);
        let mut c = conf.lock().unwrap();
        c.0 += 1;
        c.1 += n;
    });
    let c = conf.into_inner().unwrap();
    rep.scope("histories made by git itself", c.0);
    rep.count("traces_validated_against_git", c.0);
    rep.count("git_commands", c.1);
    rep.count("evaluations", RUNS.load(Relaxed));
    rep.count("distinct_nontrivial", nontrivial.into_inner());
    rep.text("rule", "one evaluation is one run of the real git-recent-refs on one history; histories are distinct by construction; non-trivial are those with at least two earlier positions");
    rep.text("operations", &ops_text(ALPHABET));
    rep.sample("checkout dev, checkout -b topic/x-y, branch -D dev, checkout main: refs/heads/main, refs/heads/topic/x-y, refs/heads/main".into());
    rep.assume("while HEAD is detached the current position may be shown as HEAD or as a commit ID; no branch has the name of a tag, and no name looks like a commit ID");
}

/// Run the operations with git, compare the reflog with the model's, and judge the program's output.
fn real(rep: &Report, s: &[Op]) -> u64 {
    let r = Repo::new();
    let wd = r.dir.join("wd");
    std::fs::create_dir(&wd).unwrap();
    let mut n = 0;
    let mut g = |args: &[&str]| -> String {
        n += 1;
        let mut c = crate::at::git_cmd(&r, &wd, args);
        for k in ["AUTHOR", "COMMITTER"] {
            c.env(format!("GIT_{}_NAME", k), "A").env(format!("GIT_{}_EMAIL", k), "a@example.com").env(format!("GIT_{}_DATE", k), format!("{} +0000", 1_600_000_000 + n));
        }
        let o = c.output().unwrap();
        if !o.status.success() {
            eprintln!("git {:?} failed after {}: {}", args, ops_text(s), String::from_utf8_lossy(&o.stderr));
            cleanup();
            std::process::exit(2);
        }
        String::from_utf8_lossy(&o.stdout).trim_end().to_string()
    };
    g(&["init", "-q", "-b", "main", "."]);
    g(&["config", "core.logAllRefUpdates", "true"]);
    g(&["commit", "-q", "--allow-empty", "-m", "m"]);
    g(&["branch", "dev"]);
    let mut ids = vec![g(&["rev-parse", "HEAD"])];
    let mut h = Hist::new();
    for &op in s {
        let before = h.clone();
        h.apply(op);
        match op {
            Checkout(b) => {
                g(&["checkout", "-q", BR[b]]);
            }
            New(b) => {
                g(&["checkout", "-q", "-b", BR[b]]);
            }
            Detach => {
                let id = ids[before.cur().unwrap()].clone();
                g(&["checkout", "-q", &id]);
            }
            DetachRoot => {
                let id = ids[0].clone();
                g(&["checkout", "-q", &id]);
            }
            Commit | Tricky => {
                g(&["commit", "-q", "--allow-empty", "-m", if op == Commit { "more" } else { "checkout: moving from dev to main" }]);
                ids.push(g(&["rev-parse", "HEAD"]));
            }
            Reset => {
                g(&["reset", "-q", "--soft", "HEAD"]);
            }
            Delete(b) => {
                g(&["branch", "-q", "-D", BR[b]]);
            }
            Rename(b) => {
                g(&["branch", "-m", BR[b]]);
            }
            DropCurrent => {
                if let Pos::Branch(b) = before.head {
                    g(&["update-ref", "-d", &format!("refs/heads/{}", BR[b])]);
                }
            }
            Prune => {
                let c = *h.gone.last().unwrap();
                std::fs::remove_file(wd.join(".git/objects").join(&ids[c][..2]).join(&ids[c][2..])).unwrap();
            }
        }
    }
    // what git recorded, oldest first
    let log = std::fs::read_to_string(wd.join(".git/logs/HEAD")).unwrap();
    let got: Vec<String> = log.lines().map(|l| l.split_once('\t').map(|x| x.1.to_string()).unwrap_or_default()).collect();
    let msgs = h.messages(&ids);
    // deleting or renaming the current branch leaves entries that are no checkouts in various ways
    let keep = |v: &[String]| v.iter().filter(|m| m.starts_with("checkout: ") || m.starts_with("commit")).cloned().collect::<Vec<_>>();
    if keep(&got) != keep(&msgs) {
        eprintln!("after {} the model's reflog is {:?}, git's {:?}", ops_text(s), msgs, got);
        cleanup();
        std::process::exit(2);
    }
    for d in [wd.clone(), wd.join(".git")] {
        chown(&d, UID);
    }
    let sub = wd.join("sub");
    std::fs::create_dir(&sub).unwrap();
    let o = run_with(&r, "git-recent-refs", &[], Opts { cwd: Some(if s.len() % 2 == 0 { &wd } else { &sub }), ..Opts::default() });
    let (first, rest) = h.expect(&ids);
    if let Err(e) = judge_visits(&o, &first, &rest) {
        rep.violation(&format!("real {}", strip(e.split(':').next().unwrap()).replace(|c: char| c.is_ascii_hexdigit(), "")), &format!("after (with git) {}: {}", ops_text(s), e), &format!("reflog of git: {:#?}\n{}", got, o.show()));
    }
    let _ = std::fs::remove_dir_all(&r.dir);
    n as u64
}
