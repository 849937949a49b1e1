//! git-at: C22, C23, C24.
use crate::run::*;
use crate::vutil::*;
use git2::Repository;
use pcre2::bytes::Regex;
use std::collections::{BTreeSet, HashSet};
use std::os::unix::fs::PermissionsExt;
use std::sync::Mutex;

pub const EMPTY_TREE: &str = "4b825dc642cb6eb9a060e54bf8d69288fbee4904";

pub fn put_tree(r: &Repository) {
    r.odb().unwrap().write(git2::ObjectType::Tree, b"").unwrap();
}

/// Write a commit; dates are (seconds, zone in minutes).
pub fn commit_as(r: &Repository, parents: &[String], adate: (i64, i32), cdate: (i64, i32), msg: &[u8]) -> String {
    let z = |t: (i64, i32)| format!("{} {}{:02}{:02}", t.0, if t.1 < 0 { '-' } else { '+' }, t.1.abs() / 60, t.1.abs() % 60);
    let mut b = format!("tree {}\n", EMPTY_TREE).into_bytes();
    for p in parents {
        b.extend(format!("parent {}\n", p).bytes());
    }
    b.extend(format!("author A U Thor <author@example.com> {}\ncommitter C O Mitter <committer@example.com> {}\n\n", z(adate), z(cdate)).bytes());
    b.extend_from_slice(msg);
    r.odb().unwrap().write(git2::ObjectType::Commit, &b).unwrap().to_string()
}

pub fn tag(r: &Repository, target: &str, kind: &str, name: &str) -> String {
    let b = format!("object {}\ntype {}\ntag {}\ntagger T <t@example.com> 1600000000 +0000\n\nx\n", target, kind, name);
    r.odb().unwrap().write(git2::ObjectType::Tag, b.as_bytes()).unwrap().to_string()
}

/// A history: parents (indices of earlier commits) and commit dates.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Dag {
    parents: Vec<Vec<usize>>,
    dates: Vec<i64>,
}

impl Dag {
    fn reachable(&self, start: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([start]);
        let mut todo = vec![start];
        while let Some(c) = todo.pop() {
            for &p in &self.parents[c] {
                if seen.insert(p) {
                    todo.push(p);
                }
            }
        }
        seen
    }
    /// The matching commits reachable with the most recent date.
    fn firsts(&self, start: usize, matches: &dyn Fn(usize) -> bool) -> BTreeSet<Option<usize>> {
        let all: Vec<usize> = self.reachable(start).into_iter().filter(|&c| matches(c)).collect();
        match all.iter().map(|&c| self.dates[c]).max() {
            None => BTreeSet::from([None]),
            Some(d) => all.into_iter().filter(|&c| self.dates[c] == d).map(Some).collect(),
        }
    }
    /// Children are more recent than their parents.
    fn proper(&self) -> bool {
        (0..self.parents.len()).all(|c| self.parents[c].iter().all(|&p| self.dates[p] < self.dates[c]))
    }
    fn build(&self, r: &Repository, t0: i64) -> Vec<String> {
        let mut ids: Vec<String> = vec![];
        for i in 0..self.parents.len() {
            let ps: Vec<String> = self.parents[i].iter().map(|&p| ids[p].clone()).collect();
            // author dates run the other way round
            let t = t0 + self.dates[i] * 100;
            ids.push(commit_as(r, &ps, (2 * t0 - t, 0), (t, [0, 120, -300][i % 3]), format!("c{}\n", i).as_bytes()));
        }
        ids
    }
    fn show(&self) -> String {
        (0..self.parents.len()).map(|i| format!("c{}(date {}, parents {:?})", i, self.dates[i], self.parents[i])).collect::<Vec<_>>().join(" ")
    }
}

/// All histories of n commits: every subset of the earlier commits as parents.
fn shapes(n: usize, maxp: u32) -> Vec<Vec<Vec<usize>>> {
    let mut v = vec![vec![]];
    for i in 0..n {
        let mut w = vec![];
        for s in &v {
            for m in 0..1u32 << i {
                if m.count_ones() <= maxp {
                    let mut s: Vec<Vec<usize>> = Vec::clone(s);
                    s.push((0..i).filter(|b| m & (1 << b) != 0).collect());
                    w.push(s);
                }
            }
        }
        v = w;
    }
    v
}

/// All weak orders (or strict ones) of n dates.
fn orders(n: usize, ties: bool) -> Vec<Vec<i64>> {
    let mut v = vec![];
    let tot = n.pow(n as u32);
    for x in 0..tot {
        let mut d = vec![];
        let mut y = x;
        for _ in 0..n {
            d.push((y % n) as i64);
            y /= n;
        }
        let s: BTreeSet<i64> = d.iter().copied().collect();
        // dense ranks only
        if s.iter().copied().eq(0..s.len() as i64) && (ties || s.len() == n) {
            v.push(d);
        }
    }
    v
}

fn expect(o: &Out, want: &BTreeSet<Option<usize>>, ids: &[String]) -> Result<(), String> {
    for w in want {
        let ok = match w {
            Some(c) => o.code == Some(0) && o.out == format!("{}\n", ids[*c]).as_bytes(),
            None => o.code == Some(1) && o.out.is_empty(),
        };
        if ok {
            return Ok(());
        }
    }
    let text = String::from_utf8_lossy(&o.out).trim_end().to_string();
    let got = ids.iter().position(|i| *i == text).map(|i| format!("c{}", i)).unwrap_or(o.show());
    Err(format!(
        "expected {}, got {}",
        want.iter().map(|w| w.map(|c| format!("c{}", c)).unwrap_or("no match".into())).collect::<Vec<_>>().join(" or "),
        got
    ))
}

pub fn c22(rep: &Report) {
    let q = rep.quick();
    let states: Mutex<HashSet<(Dag, u64)>> = Default::default();
    // 1. all small histories
    let mut spaces: Vec<(usize, u32, bool)> = vec![(1, 9, true), (2, 9, true), (3, 9, true), (4, 9, !q)];
    if !q {
        spaces.push((5, 2, false));
    }
    for (n, maxp, ties) in spaces {
        let sh = shapes(n, maxp);
        let mut ds = orders(n, ties);
        if n == 4 && q {
            // all strict orders and those with two classes
            ds.extend(orders(4, true).into_iter().filter(|d| d.iter().max() == Some(&1)));
        }
        let count = std::sync::atomic::AtomicU64::new(0);
        // every match set for up to four commits, at most two matching ones beyond
        let masks: Vec<u32> = (0..1u32 << n).filter(|m| n <= 4 || (m.count_ones() <= 2 && *m > 0)).collect();
        pool(
            sh.len(),
            || {
                let r = Repo::new();
                put_tree(&r.open());
                r
            },
            |r, i| {
                let g = r.open();
                for (k, d) in ds.iter().enumerate() {
                    let dag = Dag { parents: sh[i].clone(), dates: d.clone() };
                    let ids = dag.build(&g, 1_600_000_000);
                    // alternate between ways of naming the start
                    let start = n - 1;
                    let rev: Option<&str> = match (i + k) % 4 {
                        0 => {
                            r.write("HEAD", b"ref: refs/heads/main\n");
                            r.set_ref("refs/heads/main", &ids[start]);
                            None
                        }
                        1 => {
                            r.write("HEAD", format!("{}\n", ids[start]).as_bytes());
                            None
                        }
                        2 => {
                            r.write("HEAD", format!("{}\n", ids[0]).as_bytes());
                            r.set_ref("refs/heads/side", &ids[start]);
                            Some("side")
                        }
                        _ => {
                            r.write("HEAD", format!("{}\n", ids[0]).as_bytes());
                            r.set_ref("refs/tags/t", &tag(&g, &ids[start], "commit", "t"));
                            Some("t")
                        }
                    };
                    for &m in &masks {
                        let pat = if m == 0 { "nothing".to_string() } else { format!("c[{}]", (0..n).filter(|b| m & (1 << b) != 0).map(|b| b.to_string()).collect::<String>()) };
                        let mut args: Vec<&[u8]> = vec![];
                        if let Some(x) = rev {
                            args.push(x.as_bytes());
                        }
                        args.push(pat.as_bytes());
                        let o = run(r, "git-at", &args);
                        count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let want = dag.firsts(start, &|c| m & (1 << c) != 0);
                        if let Err(e) = expect(&o, &want, &ids) {
                            rep.violation(&format!("history {}", e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()), &format!("git-at {} {}: {}", rev.unwrap_or(""), pat, e), &format!("history: {}\nstart: c{}\n{}", dag.show(), start, o.show()));
                        }
                        states.lock().unwrap().insert((dag.clone(), m as u64));
                    }
                }
                // keep the object store small
                let _ = std::fs::remove_dir_all(r.git.join("objects"));
                for d in ["objects", "objects/info", "objects/pack"] {
                    std::fs::create_dir(r.git.join(d)).unwrap();
                }
                put_tree(&r.open());
            },
        );
        rep.scope(&format!("all histories of {} commits (at most {} parents each) x {} orders of dates{} x match sets", n, maxp.min(n as u32 - 1), ds.len(), if ties { " (ties included)" } else { "" }), count.into_inner());
        if rep.nviol() > 100 {
            break;
        }
    }
    // 2. ways to name the start, loose and packed
    let r = Repo::new();
    let g = r.open();
    put_tree(&g);
    //      0 - 1 - 3 - 4
    //       \- 2 -/
    let dag = Dag { parents: vec![vec![], vec![0], vec![0], vec![1, 2], vec![3]], dates: vec![0, 3, 1, 2, 4] };
    let ids = dag.build(&g, 1_600_000_000);
    let other = commit_as(&g, &[], (1_700_000_000, 0), (1_700_000_000, 0), b"c0 c1 c2 c3 c4\n");
    r.set_ref("refs/heads/unrelated", &other);
    r.set_ref("refs/heads/main", &ids[4]);
    r.set_ref("refs/heads/topic/x", &ids[3]);
    r.set_ref("refs/heads/old", &ids[1]);
    r.set_ref("refs/tags/light", &ids[3]);
    let t1 = tag(&g, &ids[3], "commit", "annotated");
    let t2 = tag(&g, &t1, "tag", "nested");
    r.set_ref("refs/tags/annotated", &t1);
    r.set_ref("refs/tags/nested", &t2);
    r.set_ref("refs/remotes/origin/main", &ids[2]);
    r.write("refs/remotes/origin/HEAD", b"ref: refs/remotes/origin/main\n");
    r.write("refs/heads/sym", b"ref: refs/heads/old\n");
    let short = &ids[2][..12];
    let tagfull = t2.clone();
    let starts: Vec<(String, usize)> = vec![
        ("HEAD".into(), 4),
        ("@".into(), 4),
        ("main".into(), 4),
        ("refs/heads/main".into(), 4),
        ("heads/main".into(), 4),
        ("topic/x".into(), 3),
        ("light".into(), 3),
        ("annotated".into(), 3),
        ("tags/annotated".into(), 3),
        ("nested".into(), 3),
        ("nested^{}".into(), 3),
        ("annotated^{commit}".into(), 3),
        ("annotated~1".into(), 1),
        ("annotated^2".into(), 2),
        ("annotated^2~1".into(), 0),
        ("main~1".into(), 3),
        ("main~1^2".into(), 2),
        ("main~3".into(), 0),
        ("origin".into(), 2),
        ("origin/main".into(), 2),
        ("sym".into(), 1),
        (ids[1].clone(), 1),
        (short.into(), 2),
        (tagfull, 3),
        (":/^c2".into(), 2),
        ("HEAD^{/c1}".into(), 1),
    ];
    let masks: Vec<u32> = (0..32).collect();
    for packed in [false, true] {
        if packed {
            pack(&g, &r, &[&ids[..], &[other.clone(), t1.clone(), t2.clone()]].concat());
        }
        par(starts.len() * masks.len(), |x| {
            let (s, c) = &starts[x / masks.len()];
            let m = masks[x % masks.len()];
            let pat = if m == 0 { "c[9]".to_string() } else { format!("^c[{}]$", (0..5).filter(|b| m & (1 << b) != 0).map(|b| b.to_string()).collect::<String>()) };
            let o = run(&r, "git-at", &[s.as_bytes(), pat.as_bytes()]);
            let want = dag.firsts(*c, &|c| m & (1 << c) != 0);
            if let Err(e) = expect(&o, &want, &ids) {
                rep.violation(&format!("start {}", s), &format!("git-at {} {}{}: {}", s, pat, if packed { " (packed)" } else { "" }, e), &format!("history: {}\n{}", dag.show(), o.show()));
            }
        });
        rep.scope(&format!("ways to name the start x match sets{}", if packed { ", packed objects" } else { "" }), (starts.len() * masks.len()) as u64);
    }
    // the same with dates of all magnitudes and in all time zones
    let palettes: Vec<[(i64, i32); 3]> = vec![
        [(0, 0), (1, 0), (2, 0)],
        [(1, 840), (86_400, -720), (86_401, 0)],
        [((1 << 31) - 1, 0), (1 << 31, 0), ((1 << 31) + 1, 0)],
        [((1 << 32) - 1, 0), (1 << 32, 0), ((1 << 32) + 1, 0)],
        [(5, 0), ((1 << 31) + 4, 0), ((1 << 32) + 3, 0)],
        [(1_600_000_000, 840), (1_600_000_001, -720), (1_600_000_002, 330)],
        [(1_600_000_000, 0), (1_600_003_599, -60), (1_600_003_600, 60)],
        [(999_999_999, 0), (1_000_000_000, 0), (9_999_999_999, 0)],
        [(253_402_300_799, 0), (253_402_300_800, 0), (1 << 40, 0)],
    ];
    let sh = shapes(3, 9);
    let ds = orders(3, true);
    let count = std::sync::atomic::AtomicU64::new(0);
    pool(
        sh.len() * palettes.len(),
        || {
            let r = Repo::new();
            put_tree(&r.open());
            r
        },
        |r, x| {
            let (shape, pal) = (&sh[x / palettes.len()], &palettes[x % palettes.len()]);
            let g = r.open();
            for d in &ds {
                let dag = Dag { parents: shape.clone(), dates: d.clone() };
                let mut ids: Vec<String> = vec![];
                for i in 0..3 {
                    let ps: Vec<String> = dag.parents[i].iter().map(|&p| ids[p].clone()).collect();
                    ids.push(commit_as(&g, &ps, (1_500_000_000 - 100 * d[i], 0), pal[d[i] as usize], format!("c{}\n", i).as_bytes()));
                }
                for m in 1..8u32 {
                    let pat = format!("c[{}]", (0..3).filter(|b| m & (1 << b) != 0).map(|b| b.to_string()).collect::<String>());
                    let o = run(r, "git-at", &[ids[2].as_bytes(), pat.as_bytes()]);
                    count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if let Err(e) = expect(&o, &dag.firsts(2, &|c| m & (1 << c) != 0), &ids) {
                        let w: Vec<_> = d.iter().map(|&r| pal[r as usize]).collect();
                        rep.violation(&format!("dates {:?}", pal), &format!("git-at {} with committer dates (and zones in minutes) {:?}, parents {:?}: {}", pat, w, dag.parents, e), &o.show());
                    }
                }
            }
        },
    );
    rep.scope("all histories of 3 commits x dates of all magnitudes and time zones x match sets", count.into_inner());
    // 3. long chains, wide merges, large dates
    let g2 = Repo::new();
    let gg = g2.open();
    put_tree(&gg);
    let mut n = 0;
    for len in if q { [300i64, 3000] } else { [2000, 20_000] } {
    let patterns: Vec<(&str, Box<dyn Fn(i64) -> i64>)> = vec![
        ("rising", Box::new(|i| i)),
        ("falling (parents newer than children)", Box::new(move |i| len - i)),
        ("constant", Box::new(|_| 7)),
        ("zigzag", Box::new(|i| if i % 2 == 0 { i } else { -i })),
        ("far apart", Box::new(|i| i * 900_000)),
    ];
    for (k, (name, f)) in patterns.iter().enumerate() {
        if len > 2000 && k % 3 != 0 {
            continue;
        }
        let mut ids = vec![];
        let mut p: Vec<String> = vec![];
        for i in 0..len {
            let t = 1_000_000_000 + f(i);
            let c = commit_as(&gg, &p, (t, 0), (t, 0), format!("n{}.\n", i).as_bytes());
            p = vec![c.clone()];
            ids.push(c);
        }
        g2.set_ref("refs/heads/main", ids.last().unwrap());
        for i in [0, 1, 2, len / 2, len - 2, len - 1] {
            for pair in [None, Some(0), Some(len / 3)] {
                let pat = match pair {
                    None => format!("n{}\\.", i),
                    Some(j) => format!("n(?:{}|{})\\.", i, j),
                };
                let j = pair.unwrap_or(i);
                let top = f(i).max(f(j));
                let good: Vec<i64> = [i, j].into_iter().filter(|&k| f(k) == top).collect();
                let o = run(&g2, "git-at", &[pat.as_bytes()]);
                n += 1;
                if o.code != Some(0) || !good.iter().any(|&k| o.out == format!("{}\n", ids[k as usize]).as_bytes()) {
                    rep.violation(&format!("chain {}", name), &format!("git-at {} in a chain of {} commits with {} dates: expected number {:?}", pat, len, name, good), &o.show());
                }
            }
        }
    }
    }
    // very long ones: whatever counts commits must count far
    let len = if q { 70_100i64 } else { 300_000 };
    for rising in [true, false] {
        let g3 = Repo::new();
        put_tree(&g3.open());
        let marks = g3.git.join("marks");
        let mut text = Vec::new();
        use std::io::Write;
        for i in 0..len {
            let t = 1_000_000_000 + if rising { i } else { len - i };
            let m = format!("n{}.\n", i);
            write!(text, "commit refs/heads/main\nmark :{}\ncommitter C <c@example.com> {} +0000\ndata {}\n{}\n", i + 1, t, m.len(), m).unwrap();
        }
        let mut c = git_cmd(&g3, &g3.git, &["fast-import", "--quiet", &format!("--export-marks={}", marks.display())]).stdin(std::process::Stdio::piped()).spawn().unwrap();
        c.stdin.take().unwrap().write_all(&text).unwrap();
        assert!(c.wait().unwrap().success(), "git fast-import failed");
        let ids: std::collections::HashMap<i64, String> = std::fs::read_to_string(&marks).unwrap().lines().map(|l| l.split_once(' ').unwrap()).map(|(m, i)| (m[1..].parse::<i64>().unwrap() - 1, i.to_string())).collect();
        std::fs::remove_file(&marks).unwrap();
        for e in std::fs::read_dir(g3.git.join("objects/pack")).unwrap().flatten() {
            std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(0o644)).unwrap();
        }
        for (i, j) in [(0, 0), (1, 1), (1, 0), (len / 2, 2), (len - 65_537, len - 65_537), (len - 32_770, 5), (len - 1, len - 1), (-1, -1)] {
            let pat = format!("n(?:{}|{})\\.", i, j);
            let want = if i < 0 { String::new() } else { format!("{}\n", ids[&if rising { i.max(j) } else { i.min(j) }]) };
            let o = run(&g3, "git-at", &[pat.as_bytes()]);
            n += 1;
            if o.code != Some((i < 0) as i32) || o.out != want.as_bytes() {
                rep.violation("very long chain", &format!("git-at {} in a chain of {} commits with {} dates", pat, len, if rising { "rising" } else { "falling" }), &o.show());
            }
        }
    }
    rep.scope("long chains", n);
    // an octopus of many branches, each with a date of its own
    let w = 60usize;
    let mut n = 0;
    for perm in 0..4usize {
        let dates: Vec<i64> = (0..w).map(|i| ((i * [1, 7, 59, 23][perm] + perm) % w) as i64).collect();
        let mut dag = Dag { parents: vec![vec![]; w], dates };
        dag.parents.push((0..w).collect());
        dag.dates.push(1000);
        let ids = {
            let mut v: Vec<String> = vec![];
            for i in 0..=w {
                let ps: Vec<String> = dag.parents[i].iter().map(|&p| v[p].clone()).collect();
                let t = 1_500_000_000 + dag.dates[i];
                v.push(commit_as(&gg, &ps, (0, 0), (t, 0), format!("n{}.\n", i).as_bytes()));
            }
            v
        };
        g2.set_ref("refs/heads/wide", &ids[w]);
        for i in 0..w {
            let j = (i * 13 + 5) % w;
            let pat = format!("n(?:{}|{})\\.", i, j);
            let best = if dag.dates[i] >= dag.dates[j] { i } else { j };
            let o = run(&g2, "git-at", &[b"wide", pat.as_bytes()]);
            n += 1;
            if o.code != Some(0) || o.out != format!("{}\n", ids[best]).as_bytes() {
                rep.violation("octopus", &format!("git-at wide {} in a merge of {} branches: expected number {}", pat, w, best), &o.show());
            }
        }
    }
    rep.scope("a merge of 60 branches", n);
    // messages of all bytes
    let g4 = Repo::new();
    let o4 = g4.open();
    put_tree(&o4);
    let mut msgs: Vec<Vec<u8>> = (1..=255u8).filter(|&b| b != b'\n').map(|b| [b"a", &[b][..], b"b\n"].concat()).collect();
    for t in [
        &b"caf\xc3\xa9 is composed\n"[..], b"cafe\xcc\x81 is decomposed\n", b"caf\xe9 is latin\n", b"\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e\n", b"\xf0\x9f\xa6\x80 crab\n", b"\xc3\x28 two\n", b"\xed\xa0\x80 surrogate\n", b"\xf4\x90\x80\x80 beyond\n", b"\xe6\x97",
        b"cut \xe6\x97\n", b"\xef\xbb\xbfmark\n", b"\xff\xfeU\n", b"x\xc2\xa0y\n", b"x\xc2\x85y\n", b"x\xe2\x80\xa8y\n", b"\xc3\x89TAGE\n", b"\xc3\xa9tage\n", b"tab\tcr\rff\x0cvt\x0besc\x1b[31m\n", b"replacement \xef\xbf\xbd\n", b"crlf\r\nlines\r\n", b"no end", b"blanks  \n\n\n",
    ] {
        msgs.push(t.to_vec());
    }
    for len in [4095usize, 65_535, 70_000, 1 << 20] {
        msgs.push([&vec![b'x'; len][..], format!("end{}\n", len).as_bytes()].concat());
        msgs.push([&b"l\n".repeat(len / 2)[..], format!("last{}\n", len).as_bytes()].concat());
    }
    let ids: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for (i, m) in msgs.iter().enumerate() {
            let ps: Vec<String> = v.last().cloned().into_iter().collect();
            v.push(commit_as(&o4, &ps, (0, 0), (1_600_000_000 + i as i64, 0), m));
        }
        v
    };
    g4.set_ref("refs/heads/main", ids.last().unwrap());
    let mut pats: Vec<String> = (1..=255u8).map(|b| format!("a\\x{:02x}b", b)).collect();
    pats.extend((1..=255u8).step_by(4).map(|b| format!("(?i)A\\x{:02X}B", b)));
    for t in [
        "a.b", "a..b", "a...b", "a[^\\x00-\\x7f]b", "a[\\x80-\\xff]b", "\\Aa\\W?b", "a\\w", "a\\sb", "a\\Wb", "^a.b$", "ab", "a\\Rb", "a\\Nb", "caf\\xc3\\xa9", "caf\\xe9", "caf. is", "caf.. is", "caf... is", "^.{9}$", "^.{3}$", "^\\xe6\\x97$", "^\\xe6\\x97\\z", "\\xe6\\x97\\n", "\\xed\\xa0", "\\xef\\xbf\\xbd", "\\xef\\xbb\\xbfmark",
        "^mark", "x..y", "x.y", "x...y", "\\A\\xc3\\x89", "(?i)TAGE", "\\xc3\\x28", "\\x1b\\[", "cr\\rff", "end\\z", "blanks  $", "blanks$", "\\n\\n\\n\\z", "crlf$", "crlf.$", "^lines", "(?m)^lines", "(?m)crlf.$", "\\xff", "\\xff\\xfe", "end4095", "end65535", "end70000", "end1048576", "last4095", "last65535", "last70000", "last1048576\\n\\z", "(?m)^last70000$",
        // the same in UTF-8 on the command line
        "caf\u{e9} is", "\u{e9}", "\u{e9} is composed", "\u{65e5}\u{672c}", "\u{1f980}", "e\u{301}", "\u{fffd}", "\u{a0}", "[\u{e9}]", "(?i)\u{c9}tage",
    ] {
        pats.push(t.to_string());
    }
    let n = Mutex::new(0u64);
    par(pats.len(), |x| {
        let re = Regex::new(&pats[x]).unwrap();
        for start in [msgs.len() - 1, 276, 254, 253, 150, 126, 60] {
            let want: Option<usize> = (0..=start).rev().find(|&i| re.is_match(&msgs[i]).unwrap());
            let want = want.map(|i| format!("{}\n", ids[i])).unwrap_or_default();
            let o = run(&g4, "git-at", &[ids[start].as_bytes(), pats[x].as_bytes()]);
            *n.lock().unwrap() += 1;
            if o.code != Some(want.is_empty() as i32) || o.out != want.as_bytes() {
                let i = ids.iter().position(|i| want.trim_end() == i);
                rep.violation(&format!("bytes {}", pats[x]), &format!("git-at {} from message {}: expected {}", pats[x].escape_default(), start, i.map(|i| show(&msgs[i][..msgs[i].len().min(60)])).unwrap_or("no match".into())), &o.show());
            }
        }
    });
    rep.scope(&format!("{} messages with every byte, invalid UTF-8 and great length x patterns", msgs.len()), n.into_inner().unwrap());
    crate::places::find(rep);
    crate::places::shallow(rep);
    // 4. the order is the one of git itself
    let mut same = 0;
    for s in shapes(4, 9).iter().step_by(if q { 7 } else { 1 }) {
        for d in orders(4, false).iter().step_by(5) {
            let dag = Dag { parents: s.clone(), dates: d.clone() };
            let ids = dag.build(&gg, 1_600_000_000);
            let o = git(&g2, &["rev-list", &ids[3]]);
            let mut order: Vec<usize> = o.lines().map(|l| ids.iter().position(|i| i == l).unwrap()).collect();
            // the model's order: repeatedly the first among the commits not yet seen
            let mut mine = vec![];
            loop {
                let w = dag.firsts(3, &|c| !mine.contains(&c));
                match w.into_iter().next().unwrap() {
                    Some(c) => mine.push(c),
                    None => break,
                }
            }
            // with clock skew git looks at children before their parents: only the set counts
            if !dag.proper() {
                mine.sort();
                order.sort();
            }
            if mine != order {
                eprintln!("the model orders {} as {:?}, git as {:?}", dag.show(), mine, order);
                cleanup();
                std::process::exit(2);
            }
            same += 1;
        }
    }
    rep.count("orders_validated_against_git", same);
    rep.count("distinct_nontrivial", states.lock().unwrap().iter().filter(|(d, m)| d.parents.len() > 1 && *m != 0).count() as u64);
    rep.count("evaluations", RUNS.load(std::sync::atomic::Ordering::Relaxed));
    rep.text("rule", "one evaluation is one run of the real git-at; distinct and non-trivial are the pairs of a history of at least two commits and a non-empty set of matching commits");
    rep.sample("0 <- 1, 0 <- 2, {1,2} <- 3 with dates 0 3 1 2: every set of matching commits, started from HEAD, a branch, an annotated tag".into());
    rep.assume("among commits with equal dates any is accepted; with clock skew the commit date alone decides");
}

pub fn git_cmd(r: &Repo, dir: &std::path::Path, args: &[&str]) -> std::process::Command {
    let mut c = std::process::Command::new("/usr/bin/git");
    c.args(args).current_dir(dir).env_clear();
    for (k, v) in r.env() {
        c.env(k, v);
    }
    // git is trusted, and wants to open /dev/null, which others may not do here
    c.env("GIT_CONFIG_COUNT", "1").env("GIT_CONFIG_KEY_0", "safe.directory").env("GIT_CONFIG_VALUE_0", "*");
    c
}

pub fn git(r: &Repo, args: &[&str]) -> String {
    let o = git_cmd(r, &r.git, args).output().unwrap();
    if !o.status.success() {
        eprintln!("git {:?} failed: {}", args, String::from_utf8_lossy(&o.stderr));
        cleanup();
        std::process::exit(2);
    }
    String::from_utf8_lossy(&o.stdout).to_string()
}

/// Move all objects to a pack.
fn pack(g: &Repository, r: &Repo, ids: &[String]) {
    let mut b = g.packbuilder().unwrap();
    for i in ids {
        b.insert_object(git2::Oid::from_str(i).unwrap(), None).unwrap();
    }
    b.insert_object(git2::Oid::from_str(EMPTY_TREE).unwrap(), None).unwrap();
    let mut buf = git2::Buf::new();
    b.write_buf(&mut buf).unwrap();
    let odb = g.odb().unwrap();
    let mut w = odb.packwriter().unwrap();
    std::io::Write::write_all(&mut w, &buf).unwrap();
    w.commit().unwrap();
    for e in std::fs::read_dir(r.git.join("objects")).unwrap().flatten() {
        if e.file_name().len() == 2 {
            std::fs::remove_dir_all(e.path()).unwrap();
        }
    }
    for e in std::fs::read_dir(r.git.join("objects/pack")).unwrap().flatten() {
        std::fs::set_permissions(e.path(), std::fs::Permissions::from_mode(0o644)).unwrap();
    }
}

// ------------------------------------------------------------------------------------------

const MESSAGES: &[&[u8]] = &[
    b"add foo\n",
    b"add foo\n\nbody bar\n",
    b"bar\n\nadd foo\n",
    b"fixup! add foo\n",
    b"squash! add foo\n\nbar\n",
    b"fixup add foo\n",
    b"not a fixup! of foo\n",
    b"x\n\nfixup! foo\n",
    b"x\nfixup! bar\nfoo\n",
    b"amend! foo\n",
    b"foo",
    b"",
    b"foo bar\nsecond line of foo\n",
    b"Fixup! foo bar\n",
    b"\xff\xfe foo \xc3\xa9\n",
    b"fixup!foo\n",
    b"fixup!\n\nfoo\n",
    b"squash!\n",
    b"foo\n\nsquash! bar\n",
    b"bar foo\n\nfoo\n",
    b"xfoo\nbar",
];

const PATTERNS: &[&str] = &[
    "foo", "^foo", "foo$", "^add foo$", "bar|foo", "foo|bar", "^bar|^foo", "^x|bar$", "(?m)^foo$", "(?m)^bar", "\\Afoo", "foo\\Z", "foo\\z", "^$", "", "a.*r", "add\\s+foo", "foo\\s+body", "foo\\s", "(?s)foo.*bar",
    "(?s).+bar", "[^x]*bar", "(?i)FOO", "fixup!", "^fixup!", "squash!|add", "\\bfoo\\b", "foo\\n", "\\n", "^(?!fixup)", "(?!.*foo)x", "foo(?=.*bar)", "(?<=add )foo", "^.{3}$", "(?x) f o o # comment", "(foo)|(bar)", "bar\\z|second",
    "\\xff", "^.*$", "second line", "body", "(?<!add )foo",
];

fn starts_fixup(m: &[u8]) -> bool {
    m.starts_with(b"fixup!") || m.starts_with(b"squash!")
}

pub fn c23(rep: &Report) {
    let q = rep.quick();
    let regs: Vec<Regex> = PATTERNS.iter().map(|p| Regex::new(p).unwrap()).collect();
    let hit = |m: &[u8], p: usize, summary: bool| -> bool {
        let t = if summary { m.split(|&c| c == b'\n').next().unwrap() } else { m };
        regs[p].is_match(t).unwrap()
    };
    let depth = if q { 2 } else { 3 };
    let nm = MESSAGES.len();
    let nontrivial = std::sync::atomic::AtomicU64::new(0);
    for d in 1..=depth {
        // for three commits, a selection of messages and patterns
        let msgs: Vec<usize> = if d < 3 { (0..nm).collect() } else { (0..nm).step_by(2).collect() };
        let pats: Vec<usize> = if d < 3 { (0..PATTERNS.len()).collect() } else { (0..PATTERNS.len()).step_by(4).collect() };
        let tot = msgs.len().pow(d as u32);
        let n = std::sync::atomic::AtomicU64::new(0);
        pool(
            tot,
            || {
                let r = Repo::new();
                put_tree(&r.open());
                r
            },
            |r, x| {
                let g = r.open();
                let mut y = x;
                let mut seq = vec![];
                for _ in 0..d {
                    seq.push(msgs[y % msgs.len()]);
                    y /= msgs.len();
                }
                let mut ids: Vec<String> = vec![];
                for (i, &m) in seq.iter().enumerate() {
                    let p: Vec<String> = ids.last().cloned().into_iter().collect();
                    let t = 1_600_000_000 + i as i64;
                    ids.push(commit_as(&g, &p, (t, 0), (t, 0), MESSAGES[m]));
                }
                r.set_ref("refs/heads/main", ids.last().unwrap());
                for &p in &pats {
                    for o in 0..4 {
                        let (summary, nofix) = (o & 1 != 0, o & 2 != 0);
                        let want = (0..d).rev().find(|&i| !(nofix && starts_fixup(MESSAGES[seq[i]])) && hit(MESSAGES[seq[i]], p, summary));
                        let mut args: Vec<&[u8]> = vec![];
                        match (summary, x % 2) {
                            (true, 0) => args.push(b"--summary"),
                            (true, _) => args.push(b"-s"),
                            _ => {}
                        }
                        if nofix {
                            args.push(b"--no-fixup");
                        }
                        args.push(b"--");
                        args.push(PATTERNS[p].as_bytes());
                        let out = run(r, "git-at", &args);
                        n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if want.is_some() || o > 0 {
                            nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        }
                        let ok = match want {
                            Some(i) => out.code == Some(0) && out.out == format!("{}\n", ids[i]).as_bytes(),
                            None => out.code == Some(1) && out.out.is_empty(),
                        };
                        if !ok {
                            let text = String::from_utf8_lossy(&out.out).trim_end().to_string();
                            let got = match ids.iter().position(|i| *i == text) {
                                Some(i) => format!("the commit \"{}\"", show(MESSAGES[seq[i]])),
                                None => out.show(),
                            };
                            rep.violation(
                                &format!("{}{} {}", if summary { "summary " } else { "" }, if nofix { "no-fixup" } else { "" }, PATTERNS[p]),
                                &format!(
                                    "git-at{}{} '{}' on messages (oldest first) {:?}: expected {}, got {}",
                                    if summary { " --summary" } else { "" },
                                    if nofix { " --no-fixup" } else { "" },
                                    PATTERNS[p],
                                    seq.iter().map(|&m| show(MESSAGES[m])).collect::<Vec<_>>(),
                                    want.map(|i| format!("\"{}\"", show(MESSAGES[seq[i]]))).unwrap_or("no match".into()),
                                    got
                                ),
                                &out.show(),
                            );
                        }
                    }
                }
                if x % 16 == 15 {
                    let _ = std::fs::remove_dir_all(r.git.join("objects"));
                    for d in ["objects", "objects/info", "objects/pack"] {
                        std::fs::create_dir(r.git.join(d)).unwrap();
                    }
                    put_tree(&r.open());
                }
            },
        );
        rep.scope(&format!("all sequences of {} of {} messages x {} patterns x options", d, msgs.len(), pats.len()), n.into_inner());
        if rep.nviol() > 200 {
            break;
        }
    }
    // line ends of all kinds, in single commits
    let tokens: [&[u8]; 7] = [b"foo", b"fixup! ", b"\n", b"\r\n", b"\r", b" ", b"\xe2\x80\xa8"];
    let ends: Vec<&str> = vec![
        "foo$", "foo.", "foo\\s$", "^foo\\s*$", "(?m)foo$", "foo\\r", "o\\R", "foo.+foo", "foo\\z", "(?m)^foo", "\\Afoo\\Z", "^fixup! foo$", ".\\n", "\\s$", "(?m)^$", "foo\\h", "^[^\\r]*$", "(?m)^\\r?$", "^.$", "\\xe2\\x80",
        "^.{4,9}$", "\\Ffoo", "foo\n", "foo\r$",
    ]
    .into_iter()
    .filter(|p| Regex::new(p).is_ok())
    .collect();
    let eregs: Vec<Regex> = ends.iter().map(|p| Regex::new(p).unwrap()).collect();
    let mut texts: Vec<Vec<u8>> = vec![];
    let mut last: Vec<Vec<u8>> = tokens[..2].iter().map(|t| t.to_vec()).collect();
    for _ in 0..if q { 3 } else { 5 } {
        texts.extend(last.clone());
        last = last.iter().flat_map(|m| tokens.iter().map(move |t| [&m[..], *t].concat())).collect();
    }
    let n = std::sync::atomic::AtomicU64::new(0);
    pool(
        texts.len(),
        || {
            let r = Repo::new();
            put_tree(&r.open());
            r
        },
        |r, x| {
            let m = &texts[x];
            let id = commit_as(&r.open(), &[], (1_600_000_000, 0), (1_600_000_000, 0), m);
            for (p, re) in ends.iter().zip(&eregs) {
                for o in 0..4 {
                    let (summary, nofix) = (o & 1 != 0, o & 2 != 0);
                    let t = if summary { m.split(|&c| c == b'\n').next().unwrap() } else { &m[..] };
                    let want = !(nofix && starts_fixup(m)) && re.is_match(t).unwrap();
                    let mut args: Vec<&[u8]> = [(summary, &b"--summary"[..]), (nofix, b"--no-fixup")].iter().filter(|x| x.0).map(|x| x.1).collect();
                    args.extend([id.as_bytes(), p.as_bytes()]);
                    let out = run(r, "git-at", &args);
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let ok = if want { out.code == Some(0) && out.out == format!("{}\n", id).as_bytes() } else { out.code == Some(1) && out.out.is_empty() };
                    if !ok {
                        rep.violation(
                            &format!("line ends {:?} {} {}", show(m), p, o),
                            &format!("git-at{}{} '{}' on the message {:?}: expected {}, got {}", if summary { " --summary" } else { "" }, if nofix { " --no-fixup" } else { "" }, p, show(m), if want { "a match" } else { "none" }, out.show()),
                            &out.show(),
                        );
                    }
                }
            }
        },
    );
    rep.scope(&format!("{} messages with line ends of all kinds x {} patterns x options", texts.len(), ends.len()), n.into_inner());
    c23_commits(rep, &nontrivial);
    rep.count("evaluations", RUNS.load(std::sync::atomic::Ordering::Relaxed));
    rep.count("distinct_nontrivial", nontrivial.into_inner());
    rep.text("rule", "one evaluation is one run of the real git-at on one history of listed messages with one pattern and option set, all distinct by construction; it is non-trivial when an option is given or something matches; the verdict comes from PCRE2 applied to the message or to its first line");
    rep.text("messages", &MESSAGES.iter().map(|m| show(m)).collect::<Vec<_>>().join(" | "));
    rep.text("patterns", &PATTERNS.join("  "));
    rep.sample("messages \"bar\\n\\nadd foo\\n\" with --summary and 'bar|foo': matches by its first line only".into());
    rep.assume("PCRE2 itself is trusted; messages starting with blanks, a blank line or a carriage return are not judged");
}

// ------------------------------------------------------------------------------------------

/// What an outcome must look like.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    Found,
    NotFound,
    Failure,
    /// not found or any other failure
    Either,
    /// found, or a failure: the history beyond is damaged
    FoundOrFailure,
}

fn outcome(o: &Out, w: Want, quiet: bool, id: &str) -> Result<(), String> {
    if o.timeout || o.signal.is_some() {
        return Err("does not end by itself".into());
    }
    let c = o.code.unwrap();
    if c == 101 || String::from_utf8_lossy(&o.err).contains("panicked at") {
        return Err("panics".into());
    }
    let w = match w {
        Want::FoundOrFailure if c == 0 => Want::Found,
        Want::FoundOrFailure => Want::Failure,
        w => w,
    };
    match w {
        Want::Found => {
            if c != 0 || o.out != format!("{}\n", id).as_bytes() {
                return Err(format!("expected {} and status 0", id));
            }
        }
        _ => {
            if !o.out.is_empty() {
                return Err("nothing may be printed on standard output".into());
            }
            match (w, c) {
                (_, 0) => return Err("status 0 although no commit was found".into()),
                (Want::NotFound, 1) | (Want::Either, 1) => {
                    if quiet && !o.err.is_empty() {
                        return Err("--quiet is not quiet".into());
                    }
                    if !quiet && o.err.is_empty() {
                        return Err("no message".into());
                    }
                }
                (Want::NotFound, _) => return Err("expected status 1".into()),
                (Want::Failure, 1) => return Err("expected a status of 2 or more".into()),
                (_, _) => {
                    if o.err.is_empty() {
                        return Err("no message about the failure".into());
                    }
                }
            }
        }
    }
    Ok(())
}

/// Command lines of up to n words with an option there is not at one place, and these words at others.
pub fn odd_lines(words: &[&'static [u8]], n: usize) -> Vec<Vec<&'static [u8]>> {
    let odd: Vec<&[u8]> = vec![b"--nope", b"--nope=1", b"--nope=\xff", b"--n\xffpe", b"--\xff", b"--\xff=x", b"---", b"-x", b"-\xff", b"-x\xff", b"--quie", b"--QUIET", b"--sor", b"--help\xff"];
    let all: Vec<&[u8]> = words.iter().copied().chain(odd.iter().copied()).collect();
    let mut v: Vec<Vec<&[u8]>> = vec![vec![]];
    let mut r = vec![];
    for _ in 0..n {
        v = v.iter().flat_map(|l| all.iter().map(move |w| l.iter().copied().chain([*w]).collect())).collect();
        r.extend(v.iter().filter(|l| unknown_option(l)).cloned());
    }
    r
}
/// Whether some word is none of the options any of the programs has.
pub fn unknown_option(line: &[&[u8]]) -> bool {
    line.iter().take_while(|&&w| w != b"--").any(|w| {
        let known: [&[u8]; 8] = [b"-s", b"--summary", b"--show", b"-q", b"--quiet", b"--no-fixup", b"--sort", b"--help"];
        w.len() > 1 && w[0] == b'-' && !known.contains(w) && !w.starts_with(b"--sort=")
    })
}

pub fn c24(rep: &Report) {
    let r = Repo::new();
    let g = r.open();
    put_tree(&g);
    let t = |i: i64| (1_600_000_000 + i, 0);
    let blob = g.odb().unwrap().write(git2::ObjectType::Blob, b"hello\n").unwrap().to_string();
    let c0 = commit_as(&g, &[], t(0), t(0), b"root foo\n");
    let many = format!("{}b bar\n", "a".repeat(60));
    let c1 = commit_as(&g, &[c0.clone()], t(1), t(1), many.as_bytes());
    let c2 = commit_as(&g, &[c1.clone()], t(2), t(2), b"fixup! top\n");
    r.set_ref("refs/heads/main", &c2);
    r.set_ref("refs/heads/side", &c0);
    r.set_ref("refs/tags/blob", &blob);
    r.set_ref("refs/tags/tree", EMPTY_TREE);
    r.set_ref("refs/tags/tagged-tree", &tag(&g, EMPTY_TREE, "tree", "tagged-tree"));
    r.set_ref("refs/heads/dangling", "1234567890123456789012345678901234567890");
    // damaged histories
    let miss = "00000000000000000000000000000000000000aa".to_string();
    let m1 = commit_as(&g, &[miss.clone()], t(3), t(3), b"missing parent foo\n");
    r.set_ref("refs/heads/missing", &m1);
    let m2 = commit_as(&g, &[m1.clone(), c0.clone()], t(5), t(5), b"merge of missing\n");
    r.set_ref("refs/heads/missing-deep", &m2);
    // a parent that is no commit
    let m3 = commit_as(&g, &[blob.clone()], t(3), t(3), b"blob parent\n");
    r.set_ref("refs/heads/blob-parent", &m3);
    // a damaged parent
    let bad = commit_as(&g, &[], t(0), t(0), b"will be damaged\n");
    let m4 = commit_as(&g, &[bad.clone()], t(3), t(3), b"damaged parent\n");
    r.set_ref("refs/heads/damaged", &m4);
    let p = r.git.join("objects").join(&bad[..2]).join(&bad[2..]);
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644)).unwrap();
    std::fs::write(&p, b"this is no object").unwrap();
    let empty = Repo::new();
    put_tree(&empty.open());
    let nowhere = r.dir.join("home");

    use Want::*;
    struct Case<'a> {
        repo: &'a Repo,
        cwd: Option<&'a std::path::Path>,
        rev: Option<&'a str>,
        pat: &'a str,
        want: Want,
        id: &'a str,
    }
    let case = |rev: Option<&'static str>, pat: &'static str, want: Want| Case { repo: &r, cwd: None, rev, pat, want, id: "" };
    let mut v: Vec<Case> = vec![];
    for (rev, pat, id) in [(None, "foo", &c0), (Some("main"), "bar", &c1), (Some("side"), "", &c0), (Some("HEAD~1"), "a+b", &c1)] {
        v.push(Case { id, ..case(rev, pat, Found) });
    }
    for (rev, pat, id) in [("missing", "missing parent", &m1), ("damaged", "^damaged", &m4), ("missing-deep", "^missing parent", &m1), ("missing-deep", "merge", &m2), ("blob-parent", "blob", &m3)] {
        v.push(Case { id, ..case(Some(rev), pat, FoundOrFailure) });
    }
    for (rev, pat) in [(None, "nothing"), (Some("main"), "^zzz$"), (Some("side"), "bar"), (Some("HEAD~2"), "bar"), (None, "fixup! nothing"), (Some("main"), "\\d{9}")] {
        v.push(case(rev, pat, NotFound));
    }
    for rev in ["nope", "refs/heads/nope", "no/such/branch", "HEAD~9", "HEAD^2", "main^3~1", "0000000000000000000000000000000000000001", "deadbeefdeadbeef", "side@{5}", ":/no such message", "main:nofile", "tags/main", "blob^{commit}0", "MAIN", "refs/heads/Main", "mai", "m", "HEADS", "ORIG_HEAD", "@{-1}", "main^{/no such message}", "main^^^^"] {
        for pat in ["foo", "", "zzz"] {
            v.push(case(Some(rev), pat, if rev.starts_with("side@") || rev.contains("}0") { Either } else { NotFound }));
        }
    }
    for pat in ["(", "[a", "*", "\\", "a(?<", "(?P<n>a", "a)", "(?z)", "[[:nope:]]", "a{3,2}"] {
        for rev in [None, Some("main")] {
            v.push(case(rev, pat, Failure));
        }
    }
    // matching gives up
    v.push(case(None, "^(?:a+)+$", Failure));
    v.push(case(Some("main"), "(?:a|aa)+$", Failure));
    // histories that cannot be walked
    for (rev, pat) in [("missing", "zzz"), ("missing-deep", "zzz"), ("damaged", "zzz"), ("blob-parent", "zzz")] {
        v.push(case(Some(rev), pat, Failure));
    }
    // objects and expressions that are no starting points
    for rev in ["blob", "tree", "tagged-tree", "main^{tree}", "main..side", "^main", "", "main^{blob}", "HEAD^{", "@{", "dangling", " HEAD", "HEAD ", "main\n", "\tHEAD", "main\r", "\u{a0}main", "main ~1", "main~ 1", "/main", "main/", "refs/heads/main/", "./main", "main.lock", "*", "ma*", "main?", "ma[i]n", "~", "^", "'main'", "\"main\"", "main,side", "main side"] {
        v.push(case(Some(rev), "foo", Either));
    }
    v.push(Case { repo: &empty, ..case(None, "foo", NotFound) });
    v.push(Case { repo: &empty, ..case(Some("HEAD"), "", NotFound) });
    v.push(Case { cwd: Some(&nowhere), ..case(None, "foo", Failure) });
    v.push(Case { cwd: Some(&nowhere), ..case(Some("HEAD"), "(", Failure) });
    let combos: Vec<Vec<&str>> = {
        let o = [vec![""], vec!["--summary", "-s"], vec!["--quiet", "-q"], vec!["--no-fixup"]];
        let mut c: Vec<Vec<&str>> = vec![vec![]];
        for s in &o[1..] {
            let mut d = c.clone();
            for x in s {
                for y in &c {
                    let mut z = y.clone();
                    z.push(x);
                    d.push(z);
                }
            }
            c = d;
        }
        c
    };
    let nontrivial = std::sync::atomic::AtomicU64::new(0);
    par(v.len() * combos.len(), |x| {
        let c = &v[x / combos.len()];
        let opts = &combos[x % combos.len()];
        let quiet = opts.iter().any(|o| o.contains('q'));
        let mut args: Vec<&[u8]> = opts.iter().map(|o| o.as_bytes()).collect();
        match c.rev {
            Some(r) => args.push(r.as_bytes()),
            None if x % 2 == 0 => args.push(b"--"),
            None => {}
        }
        args.push(c.pat.as_bytes());
        let o = run_with(c.repo, "git-at", &args, Opts { cwd: c.cwd, ..Opts::default() });
        nontrivial.fetch_add((c.want != Found) as u64, std::sync::atomic::Ordering::Relaxed);
        if let Err(e) = outcome(&o, c.want, quiet, c.id) {
            rep.violation(
                &format!("{:?} {} {}: {}", c.want, c.rev.unwrap_or("-"), c.pat, e.chars().filter(|x| !x.is_ascii_hexdigit()).take(30).collect::<String>()),
                &format!("git-at {} {} '{}': {} ({})", opts.join(" "), c.rev.unwrap_or(""), c.pat, e, o.show()),
                &format!("working directory: {:?}\nwanted: {:?}\n{}", c.cwd, c.want, o.show()),
            );
        }
    });
    rep.scope("outcomes x all combinations of options", (v.len() * combos.len()) as u64);
    // ill-formed command lines
    let mut usage: Vec<Vec<&[u8]>> = vec![vec![], vec![b"--nope", b"foo"], vec![b"a", b"b", b"c"], vec![b"--summary"], vec![b"-q"], vec![b"-x", b"foo"], vec![b"\xff\xfe"], vec![b"\xff", b"foo"], vec![b"main", b"\xff"], vec![b"\xff", b"\xff"], vec![b"a\xffb", b"foo", b"x"], vec![b"--", b"\xff"], vec![b"--"]];
    usage.extend(odd_lines(&[b"foo", b"main", b"\xff"], if rep.quick() { 2 } else { 3 }));
    for u in &usage {
        for pre in [&[][..], &[&b"-q"[..]], &[&b"--no-fixup"[..], b"-s"]] {
            let args: Vec<&[u8]> = pre.iter().copied().chain(u.iter().copied()).collect();
            let o = run(&r, "git-at", &args);
            nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            // bytes that are no UTF-8 may well be a pattern that matches nothing
            let w = if !unknown_option(u) && u.iter().any(|x| x.contains(&0xff)) { Either } else { Failure };
            if let Err(e) = outcome(&o, w, false, "") {
                rep.violation(&format!("usage {:?}", args.iter().map(|a| show(a)).collect::<Vec<_>>()), &format!("git-at {:?}: {} ({})", args.iter().map(|a| show(a)).collect::<Vec<_>>(), e, o.show()), &o.show());
            }
        }
    }
    rep.scope("ill-formed command lines", usage.len() as u64 * 3);
    // the output cannot be written
    for (rev, pat) in [("main", "foo"), ("side", "root")] {
        for q in [&b"--no-fixup"[..], b"-q"] {
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
            let o = run_with(&r, "git-at", &[q, rev.as_bytes(), pat.as_bytes()], Opts { stdout: Some(f), ..Opts::default() });
            if o.code.map(|c| c < 2).unwrap_or(true) || o.err.is_empty() {
                rep.violation("full", &format!("git-at {} {} with a full disk: {}", rev, pat, o.show()), &o.show());
            }
        }
    }
    // --show runs git for exactly the commit found and passes its status on
    let bindir = r.dir.join("bin");
    std::fs::create_dir(&bindir).unwrap();
    let mut n = 0;
    for (script, want) in [("exit 0", Some(0)), ("exit 1", Some(1)), ("exit 7", Some(7)), ("exit 128", Some(128)), ("kill -9 $$", None)] {
        let f = bindir.join("git");
        std::fs::write(&f, format!("#!/bin/sh\nprintf '%s\\n' \"$#\" \"$@\"\n{}\n", script)).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
        let env = || vec![("PATH".into(), format!("{}:/usr/bin:/bin", bindir.display()).into())];
        for (args, id) in [(vec![&b"--show"[..], b"foo"], Some(&c0)), (vec![b"--show", b"main", b"bar"], Some(&c1)), (vec![b"--show", b"-q", b"zzz"], None), (vec![b"--show", b"zzz"], None), (vec![b"--show", b"--no-fixup", b"-s", b"a"], Some(&c1))] {
            let o = run_with(&r, "git-at", &args, Opts { env: env(), ..Opts::default() });
            n += 1;
            let res = match id {
                None => outcome(&o, NotFound, args.contains(&&b"-q"[..]), ""),
                Some(id) => {
                    if o.out != format!("2\nshow\n{}\n", id).as_bytes() {
                        Err(format!("git is not run as 'git show {}'", id))
                    } else if want.map(|w| o.code != Some(w)).unwrap_or(o.code.map(|c| c < 2).unwrap_or(true)) {
                        Err(format!("expected status {:?}", want))
                    } else {
                        Ok(())
                    }
                }
            };
            if let Err(e) = res {
                rep.violation(&format!("show {}", script), &format!("git-at {:?} with a git that does '{}': {} ({})", args.iter().map(|a| show(a)).collect::<Vec<_>>(), script, e, o.show()), &o.show());
            }
        }
    }
    rep.scope("--show: outcomes of git x outcomes of the search", n);
    rep.count("evaluations", RUNS.load(std::sync::atomic::Ordering::Relaxed));
    rep.count("distinct_nontrivial", nontrivial.into_inner() + n);
    rep.text("rule", "one evaluation is one run of the real git-at: every outcome class x every combination of options; non-trivial are those that do not simply find a commit, and those with --show");
    rep.sample("git-at -q -- missing zzz, where the history of 'missing' lacks a commit: status 2 or more and a message".into());
}

/// Whatever kind of commit it is that has a message: roots, merges, commits with other headers, authors, dates.
fn c23_commits(rep: &Report, nontrivial: &std::sync::atomic::AtomicU64) {
    use std::sync::atomic::{AtomicU64, Ordering};
    let q = rep.quick();
    // histories: a set of parents for each commit but the first, the last one being the start
    let mut shapes: Vec<Vec<u32>> = vec![];
    for n in 1..=4usize {
        let mut all: Vec<Vec<u32>> = vec![vec![0]];
        for i in 1..n {
            all = all.into_iter().flat_map(|v| (0..1u32 << i).map(move |p| [&v[..], &[p]].concat())).collect();
        }
        // for the largest ones, only those in which all is reachable
        all.retain(|v| reach(v).len() == n);
        shapes.extend(all);
    }
    let words: [&[u8]; 4] = [b"needle\n", b"fixup! needle\n", b"squash! a\n\nneedle\n", b"hay\n"];
    let mut cases: Vec<(Vec<u32>, Vec<usize>)> = vec![];
    for s in &shapes {
        let k: usize = match (s.len(), q) {
            (4, true) => 2,
            (4, false) | (3, true) => 3,
            _ => 4,
        };
        for x in 0..k.pow(s.len() as u32) {
            cases.push((s.clone(), (0..s.len()).map(|i| x / k.pow(i as u32) % k).collect()));
        }
    }
    let n = AtomicU64::new(0);
    let fresh = || {
        let r = Repo::new();
        put_tree(&r.open());
        r
    };
    let ask = |r: &Repo, ids: &[String], texts: &[&[u8]], order: &[usize], name: &str| {
        for o in 0..4 {
            let (summary, nofix) = (o & 1 != 0, o & 2 != 0);
            let want = order.iter().find(|&&i| {
                let t = if summary { texts[i].split(|&c| c == b'\n').next().unwrap() } else { texts[i] };
                !(nofix && starts_fixup(texts[i])) && t.windows(6).any(|w| w == b"needle")
            });
            let mut args: Vec<&[u8]> = [(summary, &b"--summary"[..]), (nofix, b"--no-fixup")].iter().filter(|x| x.0).map(|x| x.1).collect();
            args.extend([ids.last().unwrap().as_bytes(), b"needle"]);
            let out = run(r, "git-at", &args);
            n.fetch_add(1, Ordering::Relaxed);
            nontrivial.fetch_add(1, Ordering::Relaxed);
            let ok = match want {
                Some(&i) => out.code == Some(0) && out.out == format!("{}\n", ids[i]).as_bytes(),
                None => out.code == Some(1) && out.out.is_empty(),
            };
            if !ok {
                let text = format!(
                    "git-at{}{} needle, {}: expected {}, got {}",
                    if summary { " --summary" } else { "" },
                    if nofix { " --no-fixup" } else { "" },
                    name,
                    want.map(|&i| format!("commit {} ({})", i, ids[i])).unwrap_or("no match".into()),
                    out.show()
                );
                rep.violation(&format!("commits {} {}", name, o), &text, &text);
            }
        }
    };
    pool(cases.len(), fresh, |r, x| {
        let (shape, msgs) = &cases[x];
        let g = r.open();
        let mut ids: Vec<String> = vec![];
        for (i, (&ps, &m)) in shape.iter().zip(msgs).enumerate() {
            let p: Vec<String> = (0..i).filter(|&j| ps >> j & 1 != 0).map(|j| ids[j].clone()).collect();
            // the dates make the order of the walk that of the indices
            let t = (1_600_000_000 + i as i64, 0);
            ids.push(commit_as(&g, &p, t, t, words[m]));
        }
        let texts: Vec<&[u8]> = msgs.iter().map(|&m| words[m]).collect();
        let order: Vec<usize> = (0..shape.len()).rev().collect();
        ask(r, &ids, &texts, &order, &format!("history {:?} (sets of parents as bits) with the messages {:?}", shape, texts.iter().map(|t| show(t)).collect::<Vec<_>>()));
    });
    rep.scope("all histories of up to 4 commits (roots, side branches, merges of up to 3) x fixups and others x options", n.swap(0, Ordering::Relaxed));
    // headers, authors and dates of all kinds
    let heads: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![
        ("plain", b"A U Thor <a@example.com> 1600000000 +0000".to_vec(), vec![]),
        ("an author called fixup!", b"fixup! needle <a@example.com> 1600000000 +0000".to_vec(), vec![]),
        ("an author without a name", b" <a@example.com> 1600000000 +0000".to_vec(), vec![]),
        ("an author in another encoding", b"\xc4\xd6 <a@example.com> 1600000000 +0000".to_vec(), vec![]),
        ("an old author date", b"A <a@example.com> 0 +0000".to_vec(), vec![]),
        ("an author date after the commit's", b"A <a@example.com> 1700000000 +1400".to_vec(), vec![]),
        ("an encoding", b"A <a@example.com> 1600000000 +0000".to_vec(), b"encoding ISO-8859-1\n".to_vec()),
        ("an unknown encoding", b"A <a@example.com> 1600000000 +0000".to_vec(), b"encoding needle\n".to_vec()),
        ("a signature", b"A <a@example.com> 1600000000 +0000".to_vec(), b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n needle\n fixup! needle\n -----END PGP SIGNATURE-----\n".to_vec()),
        ("a merged tag", b"A <a@example.com> 1600000000 +0000".to_vec(), format!("mergetag object {}\n type commit\n tag needle\n tagger A <a@example.com> 1600000000 +0000\n \n needle\n", "1".repeat(40)).into_bytes()),
        ("an unknown header", b"A <a@example.com> 1600000000 +0000".to_vec(), b"fixup! needle\nneedle needle\n".to_vec()),
    ];
    let texts: Vec<&[u8]> = vec![b"needle\n", b"fixup! needle\n", b"squash! needle", b"hay\n\nneedle\n", b"hay\n\nfixup! needle\n", b"hay\n", b"\xfc needle\n", b"fixup!\n\nneedle", b"fixup needle", b"Fixup! needle", b"amend! needle\n", b"fix!\nneedle", b"gpgsig needle\n"];
    pool(heads.len() * texts.len(), fresh, |r, x| {
        let (name, author, more) = &heads[x / texts.len()];
        let text = texts[x % texts.len()];
        let g = r.open();
        let odb = g.odb().unwrap();
        let first = commit_as(&g, &[], (1_500_000_000, 0), (1_500_000_000, 0), b"needle\n");
        let mut b = format!("tree {}\nparent {}\nauthor ", EMPTY_TREE, first).into_bytes();
        b.extend_from_slice(author);
        b.extend_from_slice(b"\ncommitter C <c@example.com> 1600000000 +0000\n");
        b.extend_from_slice(more);
        b.push(b'\n');
        b.extend_from_slice(text);
        let id = odb.write(git2::ObjectType::Commit, &b).unwrap().to_string();
        ask(r, &[first, id], &[b"needle\n", text], &[1, 0], &format!("a commit with {} and the message {:?}", name, show(text)));
    });
    rep.scope("commits with headers, authors and dates of all kinds x messages x options", n.into_inner());
}

/// The commits reachable from the last one.
fn reach(shape: &[u32]) -> BTreeSet<usize> {
    let mut seen = BTreeSet::from([shape.len() - 1]);
    for i in (0..shape.len()).rev() {
        if seen.contains(&i) {
            seen.extend((0..i).filter(|&j| shape[i] >> j & 1 != 0));
        }
    }
    seen
}
