//! Explicit-state exploration of several real server processes under a controlled scheduler.
//!
//! Every file-system call of every process is a step; the explorer enumerates all orders of the
//! steps (optionally with a bounded number of preemptions), and, with a kill budget, all points at
//! which processes can be killed, including in the middle of a write.  An execution is replayed from
//! its beginning for every branch; states are told apart by what each process has seen so far, what
//! the file system holds, and what the oracles remember, so that converging schedules are merged.

use crate::model::*;
use crate::proto::*;
use crate::seq::tcfg;
use crate::tracer::*;
use crate::vutil::{show, Report};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone)]
pub struct PSpec {
    pub mode: Mode,
    pub uid: u32,
    pub umask: u32,
    pub reqs: Vec<Request>,
}

pub fn up(reqs: Vec<Request>) -> PSpec {
    PSpec { mode: Mode::Up, uid: UID, umask: 0o022, reqs }
}
pub fn down(reqs: Vec<Request>) -> PSpec {
    PSpec { mode: Mode::Down, uid: UID, umask: 0o022, reqs }
}
impl PSpec {
    pub fn user(mut self, uid: u32) -> PSpec {
        self.uid = uid;
        self
    }
}

type Setup = Box<dyn Fn(&World) -> Model + Sync + Send>;
type Recover = Box<dyn Fn(&World, &mut Model) -> Result<u64, String> + Sync + Send>;

pub struct Scenario {
    pub name: String,
    pub shared: Option<&'static str>,
    pub setup: Setup,
    pub procs: Vec<PSpec>,
    pub kills: u32,
    pub torn: bool,
    /// the lfs directory does not exist; creating it is part of what is scheduled
    pub fresh: bool,
    pub preempt: Option<u32>,
    /// the processes see the same process ID, as when the IDs wrap around
    pub same_pid: bool,
    pub recover: Option<Recover>,
    pub max_states: usize,
}

impl Scenario {
    pub fn new(name: &str, setup: impl Fn(&World) -> Model + Sync + Send + 'static, procs: Vec<PSpec>) -> Scenario {
        Scenario { name: name.into(), shared: None, setup: Box::new(setup), procs, kills: 0, torn: false, fresh: false, preempt: None, same_pid: false, recover: None, max_states: 400_000 }
    }
    pub fn kills(mut self, n: u32) -> Self {
        self.kills = n;
        self.torn = true;
        self
    }
    pub fn same_pid(mut self) -> Self {
        self.same_pid = true;
        self
    }
    pub fn fresh(mut self) -> Self {
        self.fresh = true;
        self
    }
    pub fn preempt(mut self, n: u32) -> Self {
        self.preempt = Some(n);
        self
    }
    pub fn shared(mut self, s: &'static str) -> Self {
        self.shared = Some(s);
        self
    }
    pub fn recover(mut self, f: impl Fn(&World, &mut Model) -> Result<u64, String> + Sync + Send + 'static) -> Self {
        self.recover = Some(Box::new(f));
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Act {
    pub p: u8,
    pub how: Do,
}

impl Act {
    fn show(&self) -> String {
        match self.how {
            Do::Run => format!("{}", self.p),
            Do::Kill => format!("{}K", self.p),
            Do::TornKill(n) => format!("{}T{}", self.p, n),
            x => format!("{}{:?}", self.p, x),
        }
    }
}

/// The locks and objects really on disk.
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
pub struct Disk {
    pub objects: BTreeMap<String, (Vec<u8>, u32)>,
    pub locks: BTreeMap<String, LockRec>,
}

/// Take the disk state; fails if something visible is wrong.
pub fn look(entries: &[Entry], bits: &dyn Fn(&str) -> Option<u32>) -> Result<Disk, String> {
    let mut d = Disk::default();
    for e in entries {
        if let Some(rest) = e.path.strip_prefix("objects/") {
            if e.kind == 'd' {
                continue;
            }
            let name = rest.rsplit('/').next().unwrap();
            if !valid_oid(name) || rest != format!("{}/{}/{}", &name[..2], &name[2..4], name) {
                return Err(format!("stray file objects/{}", rest));
            }
            if oid_of(&e.data) != name {
                return Err(format!("object {} is visible with wrong content ({} bytes: {})", &name[..8], e.data.len(), show(&e.data[..e.data.len().min(60)])));
            }
            if let Some(b) = bits(name) {
                if e.mode & 0o666 != b {
                    return Err(format!("object {} is visible with mode {:o}, its final read and write bits are {:o}", &name[..8], e.mode, b));
                }
            }
            d.objects.insert(name.into(), (e.data.clone(), e.mode));
        }
        if let Some(n) = e.path.strip_prefix("locks/") {
            if valid_oid(n) {
                match parse_lock_file(&e.data) {
                    Some((t, p)) if lock_id(&p) == n => {
                        d.locks.insert(n.into(), LockRec { path: p, time: t, owner: user_name(e.uid) });
                    }
                    _ => return Err(format!("the lock file {} is visible half-written: {}", &n[..8], show(&e.data))),
                }
            }
        }
    }
    Ok(d)
}

#[derive(Clone)]
struct Rec {
    /// requests completed by each process when this one was sent
    prec: Vec<usize>,
    resp: Option<Resp>,
    time: i64,
    /// for reads: locks held at some time, locks held all the time, objects present at the start
    any: BTreeSet<(String, LockRec)>,
    all: BTreeSet<(String, LockRec)>,
    had: BTreeSet<String>,
}

struct Exec<'a> {
    sc: &'a Scenario,
    w: &'a World,
    procs: Vec<Proc>,
    names: Names,
    recs: Vec<Vec<Rec>>,
    judged: Vec<usize>,
    killed: Vec<bool>,
    kills: u32,
    disk: Disk,
    entries: Vec<Entry>,
    order: Vec<String>,
    last: Option<usize>,
    preempts: u32,
    acts: Vec<Act>,
    blocked: Vec<bool>,
    pre: BTreeSet<String>,
}

pub const TIME0: i64 = 1_700_000_000;

fn final_bits(sc: &Scenario) -> Option<u32> {
    // all uploaders have the same policy
    let um = sc.procs.iter().find(|p| p.mode == Mode::Up).map(|p| p.umask).unwrap_or(0o022);
    match sc.shared {
        None => Some(0o666 & !um),
        Some("group") => Some(0o660),
        Some("all") => Some(0o664),
        Some(s) => u32::from_str_radix(s, 8).ok().map(|x| x & 0o666),
    }
}

impl<'a> Exec<'a> {
    fn start(sc: &'a Scenario, w: &'a World) -> Result<Exec<'a>, String> {
        w.wipe();
        w.set_shared(sc.shared);
        if !sc.fresh {
            w.mk_lfs(0o777);
        }
        let m = (sc.setup)(w);
        let salt = hash64(format!("{:?}{:?}", sc.shared, sc.name).as_bytes());
        let mut names = Names::default();
        let mut procs = vec![];
        for (i, s) in sc.procs.iter().enumerate() {
            let mut cfg = tcfg(w, s.mode.arg(), s.reqs.iter().map(|r| r.bytes.clone()).collect(), s.uid, TIME0 + 100 * i as i64);
            cfg.umask = s.umask;
            cfg.id = i;
            cfg.pid = 12340 + if sc.same_pid { 0 } else { i as i64 };
            cfg.sched_startup = sc.fresh;
            cfg.max_steps = 2000;
            procs.push(Proc::spawn_cached(cfg, &mut names, salt));
        }
        let n = procs.len();
        let mut e = Exec {
            sc,
            w,
            procs,
            names,
            recs: vec![vec![]; n],
            judged: vec![0; n],
            killed: vec![false; n],
            kills: 0,
            disk: Disk::default(),
            entries: vec![],
            order: vec![],
            last: None,
            preempts: 0,
            acts: vec![],
            blocked: vec![false; n],
            pre: m.objects.keys().cloned().collect(),
        };
        e.snapshot()?;
        Ok(e)
    }

    fn snapshot(&mut self) -> Result<(), String> {
        self.entries = tree(&self.w.lfs);
        self.order.clear();
        for d in ["locks", "incomplete", "tmp"] {
            if let Ok(r) = std::fs::read_dir(self.w.lfs.join(d)) {
                for e in r.flatten() {
                    self.order.push(self.names.canon(&e.file_name().to_string_lossy()));
                }
            }
        }
        let b = final_bits(self.sc);
        let pre = &self.pre;
        self.disk = look(&self.entries, &|n| if pre.contains(n) { None } else { b })?;
        Ok(())
    }

    fn enabled(&self) -> Vec<Act> {
        let mut v = vec![];
        let live = |i: usize| !self.procs[i].done() && !self.blocked[i];
        // first the process that ran last, so that the first schedule has no preemptions
        let mut idx: Vec<usize> = (0..self.procs.len()).filter(|&i| live(i)).collect();
        if let Some(l) = self.last {
            if let Some(p) = idx.iter().position(|&x| x == l) {
                idx.remove(p);
                idx.insert(0, l);
                if let Some(b) = self.sc.preempt {
                    // switching away from a process in the middle of a request costs one
                    if self.preempts >= b && matches!(self.procs[l].stop, Stop::Fs(_)) {
                        idx.truncate(1);
                    }
                }
            }
        }
        for &i in &idx {
            v.push(Act { p: i as u8, how: Do::Run });
        }
        if self.kills < self.sc.kills {
            for &i in &idx {
                if let Some(op) = self.procs[i].pending() {
                    v.push(Act { p: i as u8, how: Do::Kill });
                    if self.sc.torn && matches!(op.name, "write" | "pwrite64") && op.len > 1 {
                        let mut cuts = vec![1, op.len / 2, op.len - 1];
                        cuts.dedup();
                        cuts.retain(|&c| c > 0 && c < op.len);
                        for c in cuts {
                            v.push(Act { p: i as u8, how: Do::TornKill(c) });
                        }
                    }
                }
            }
        }
        v
    }

    /// Perform one action and everything the oracles say about it.
    fn act(&mut self, a: Act) -> Result<(), String> {
        let i = a.p as usize;
        self.acts.push(a);
        if let Some(l) = self.last {
            if l != i && matches!(self.procs[l].stop, Stop::Fs(_)) {
                self.preempts += 1;
            }
        }
        self.last = Some(i);
        let invoke = matches!(self.procs[i].stop, Stop::Input) && a.how == Do::Run;
        if invoke {
            let prec: Vec<usize> = (0..self.procs.len()).map(|j| self.judged[j]).collect();
            let locks: BTreeSet<(String, LockRec)> = self.disk.locks.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            self.recs[i].push(Rec {
                prec,
                resp: None,
                time: 0,
                any: locks.clone(),
                all: locks,
                had: self.disk.objects.keys().cloned().collect(),
            });
        }
        // Only calls that can change the file system make a new look at it necessary.
        let mutates = match self.procs[i].pending() {
            Some(op) => op.mutating && a.how != Do::Kill,
            None => false,
        };
        self.procs[i].blocked = false;
        for b in self.blocked.iter_mut() {
            *b = false;
        }
        self.procs[i].step(a.how, &mut self.names);
        if self.procs[i].blocked {
            self.blocked[i] = true;
        }
        if invoke {
            let t = self.procs[i].now();
            self.recs[i].last_mut().unwrap().time = t;
        }
        if matches!(a.how, Do::Kill | Do::TornKill(_) | Do::RunKill) {
            self.killed[i] = true;
            self.kills += 1;
        }
        if mutates {
            self.snapshot()?;
        }
        // locks seen during the requests in progress
        let locks: BTreeSet<(String, LockRec)> = self.disk.locks.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for rs in self.recs.iter_mut() {
            if let Some(r) = rs.last_mut() {
                if r.resp.is_none() {
                    r.all = r.all.intersection(&locks).cloned().collect();
                    r.any.extend(locks.iter().cloned());
                }
            }
        }
        self.check_proc(i)?;
        // acknowledged uploads are there
        for (j, rs) in self.recs.iter().enumerate() {
            for (k, r) in rs.iter().enumerate() {
                if let (Some(rr), Op::Put { oid, .. }) = (&r.resp, &self.sc.procs[j].reqs[k].op) {
                    if rr.code == 200 && !self.disk.objects.contains_key(oid) {
                        return Err(format!("object {} was acknowledged to process {} but is not there", &oid[..8], j));
                    }
                }
            }
        }
        Ok(())
    }

    fn check_proc(&mut self, i: usize) -> Result<(), String> {
        let p = &self.procs[i];
        if p.spin {
            return Err(format!("process {} makes more than {} file-system calls: it does not terminate", i, p.cfg.max_steps));
        }
        if !p.escapes.is_empty() {
            return Err(format!("process {} tried to change something outside its repository: {:?}", i, p.escapes));
        }
        if p.hung {
            return Err(format!("process {} hangs", i));
        }
        if !matches!(p.stop, Stop::Input | Stop::Done(_)) {
            return Ok(());
        }
        if let Stop::Done(st) = p.stop {
            if !self.killed[i] {
                if libc::WIFSIGNALED(st) {
                    return Err(format!("process {} was ended by signal {}", i, libc::WTERMSIG(st)));
                }
                if libc::WEXITSTATUS(st) == 101 {
                    return Err(format!("process {} panicked: {}", i, show(&p.stderr())));
                }
            }
        }
        let (r, rest) = parse_prefix(&p.stdout()).map_err(|e| format!("process {}: {}", i, e))?;
        if self.killed[i] {
            // A killed process may have answered the request in progress without having been seen
            // waiting for the next one: the answer is buffered in the pipe all the same.
            let n = self.recs[i].len();
            if r.len() > n {
                return Err(format!("process {} gave {} answers to {} requests", i, r.len(), n));
            }
        } else {
            if let Some(x) = rest {
                return Err(format!("process {} leaves an answer unfinished: {}", i, x));
            }
            if r.len() != self.recs[i].len() {
                return Err(format!("process {} gave {} answers to {} requests", i, r.len(), self.recs[i].len()));
            }
        }
        while self.judged[i] < r.len() {
            let k = self.judged[i];
            self.judged[i] += 1;
            self.recs[i][k].resp = Some(r[k].clone());
            self.judge_one(i, k).map_err(|e| format!("process {} request {} ({}): {}", i, k, self.sc.procs[i].reqs[k].name, e))?;
        }
        Ok(())
    }

    /// Judge a single answer, apart from lock and unlock, whose order is judged at the end.
    fn judge_one(&self, i: usize, k: usize) -> Result<(), String> {
        let sp = &self.sc.procs[i];
        let rec = &self.recs[i][k];
        let resp = rec.resp.as_ref().unwrap();
        let user = user_name(sp.uid);
        match &sp.reqs[k].op {
            Op::Lock { .. } | Op::Unlock { .. } => {
                if sp.mode == Mode::Down && !resp.refused() {
                    return Err(format!("expected a refusal, got: {}", resp.show()));
                }
                Ok(())
            }
            Op::List { limit, cursor, path } => self.judge_list(rec, sp, (*limit, cursor.as_deref(), path.as_deref()), resp, &user),
            op => {
                // Objects only ever appear: whatever was there at the start must be seen, whatever
                // is not there at the end must not.
                let now: BTreeSet<String> = self.disk.objects.keys().cloned().collect();
                let unsure: Vec<String> = now.difference(&rec.had).cloned().collect();
                let mut err = String::new();
                for mask in 0..(1u32 << unsure.len()) {
                    let mut m = Model::default();
                    for (o, (d, _)) in &self.disk.objects {
                        let opt = unsure.iter().position(|x| x == o);
                        if opt.map(|b| mask & (1 << b) != 0).unwrap_or(true) {
                            m.objects.insert(o.clone(), std::sync::Arc::new(d.clone()));
                        }
                    }
                    match m.judge(op, sp.mode, &user, resp, (0, i64::MAX)) {
                        Ok(()) => return Ok(()),
                        Err(e) => err = e,
                    }
                }
                Err(err)
            }
        }
    }

    fn judge_list(&self, rec: &Rec, sp: &PSpec, (limit, cursor, path): (Option<u64>, Option<&[u8]>, Option<&[u8]>), resp: &Resp, user: &str) -> Result<(), String> {
        let sel = |id: &str| path.map(|p| lock_id(p) == id).unwrap_or(true) && cursor.map(|c| id.as_bytes() >= c).unwrap_or(true);
        let mut must: Vec<&(String, LockRec)> = rec.all.iter().filter(|x| sel(&x.0)).collect();
        if resp.code == 404 && path.is_some() {
            return match must.first() {
                None => Ok(()),
                Some(l) => Err(format!("the lock on {} was held all the time but is answered as not found", show(&l.1.path))),
            };
        }
        if resp.code != 200 {
            return Err(format!("expected status 200, got: {}", resp.show()));
        }
        let (got, next) = lock_list(resp)?;
        let most = limit.unwrap_or(100).min(100) as usize;
        if got.len() > most {
            return Err(format!("{} locks with a limit of {}", got.len(), most));
        }
        // What comes after a full page is shown by the next one, which starts at the cursor.
        match &next {
            Some(n) if got.len() < most => return Err(format!("next-cursor {} for {} locks", n, got.len())),
            Some(n) if got.last().map(|l| l.id >= *n).unwrap_or(false) => return Err(format!("next-cursor {} does not lead on", n)),
            Some(n) if path.is_some() => return Err(format!("next-cursor {} for one path", n)),
            Some(n) => must.retain(|l| l.0 < *n),
            None => (),
        }
        for w in got.windows(2) {
            if w[0].id >= w[1].id {
                return Err(format!("locks repeated or out of order: {}", resp.show()));
            }
        }
        for s in &got {
            let r = LockRec { path: s.path.clone(), time: s.time, owner: s.owner.clone() };
            if !sel(&s.id) || !rec.any.contains(&(s.id.clone(), r)) {
                return Err(format!("shows a lock that was never held during the request: {} time {} owner {}", show(&s.path), s.time, s.owner));
            }
            let exp = match sp.mode {
                Mode::Down => None,
                Mode::Up if s.owner == user => Some("ours"),
                Mode::Up => Some("theirs"),
            };
            if s.who.as_deref() != exp {
                return Err(format!("lock of {} marked {:?} for {}", s.owner, s.who, user));
            }
        }
        for l in must {
            if !got.iter().any(|s| s.id == l.0) {
                return Err(format!("the lock on {} was held all the time but is not listed", show(&l.1.path)));
            }
        }
        Ok(())
    }

    fn key(&self) -> u128 {
        let mut h = H128::new();
        let mut inos: BTreeMap<u64, u64> = BTreeMap::new();
        // names first, masked and sorted, so that numbering does not depend on process IDs
        let mut es: Vec<(String, &Entry)> = self.entries.iter().map(|e| (self.names.canon(&e.path), e)).collect();
        es.sort_by(|a, b| a.0.cmp(&b.0));
        for (n, e) in &es {
            h.add(n.as_bytes());
            h.add(&[e.kind as u8]);
            h.add(&e.mode.to_le_bytes());
            h.add(&e.uid.to_le_bytes());
            h.add(&e.data);
            if e.kind == 'f' {
                let l = inos.len() as u64;
                let c = *inos.entry(e.ino).or_insert(l);
                h.add(&c.to_le_bytes());
            }
        }
        for o in &self.order {
            h.add(o.as_bytes());
        }
        for (i, p) in self.procs.iter().enumerate() {
            let (a, b) = p.hist();
            h.add(&a.to_le_bytes());
            h.add(&b.to_le_bytes());
            h.add(&[p.fed as u8, p.done() as u8, self.killed[i] as u8, self.judged[i] as u8, self.blocked[i] as u8]);
            if !p.done() {
                for (fd, _, ino, c) in p.fds() {
                    h.add(&fd.to_le_bytes());
                    match (inos.get(&ino), c) {
                        (Some(x), _) => h.add(&x.to_le_bytes()),
                        (None, Some(c)) => h.add(&c),
                        _ => h.add(b"dir"),
                    }
                }
            }
            for r in &self.recs[i] {
                for x in &r.prec {
                    h.add(&[*x as u8]);
                }
                h.add(&[r.resp.is_some() as u8]);
                if r.resp.is_none() {
                    h.add(format!("{:?}{:?}{:?}", r.any, r.all, r.had).as_bytes());
                }
            }
        }
        h.add(&self.kills.to_le_bytes());
        if self.sc.preempt.is_some() {
            h.add(&[self.preempts as u8, self.last.map(|x| x as u8 + 1).unwrap_or(0)]);
        }
        h.get()
    }

    fn finished(&self) -> bool {
        self.procs.iter().all(|p| p.done())
    }

    /// All lock and unlock requests, in some order compatible with what happened before what, give
    /// exactly the answers seen and the locks now on disk.
    fn linearize(&self, init: &Model) -> Result<(), String> {
        struct L<'b> {
            p: usize,
            k: usize,
            op: &'b Op,
            rec: &'b Rec,
        }
        let mut ops = vec![];
        for (p, rs) in self.recs.iter().enumerate() {
            if self.sc.procs[p].mode == Mode::Down {
                continue;
            }
            for (k, r) in rs.iter().enumerate() {
                let op = &self.sc.procs[p].reqs[k].op;
                if matches!(op, Op::Lock { .. } | Op::Unlock { .. }) {
                    ops.push(L { p, k, op, rec: r });
                }
            }
        }
        fn go(me: &Exec, ops: &[L], used: u32, m: &Model, seen: &mut HashSet<(u32, Vec<(String, LockRec)>)>, best: &mut (usize, String)) -> bool {
            let key: Vec<(String, LockRec)> = m.locks.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            if !seen.insert((used, key)) {
                return false;
            }
            let n = used.count_ones() as usize;
            // finished when every answered request has its place
            if (0..ops.len()).all(|i| used & (1 << i) != 0 || ops[i].rec.resp.is_none()) {
                if m.locks == me.disk.locks {
                    return true;
                }
                if n >= best.0 {
                    *best = (n, format!("the locks on disk are {:?}, the answers imply {:?}", me.disk.locks, m.locks));
                }
            }
            for (i, o) in ops.iter().enumerate() {
                if used & (1 << i) != 0 {
                    continue;
                }
                // everything answered before this was sent must come first
                if ops.iter().enumerate().any(|(j, x)| used & (1 << j) == 0 && j != i && x.rec.resp.is_some() && (if x.p == o.p { x.k < o.k } else { x.k < o.rec.prec[x.p] })) {
                    continue;
                }
                let mut m2 = m.clone();
                let user = user_name(me.sc.procs[o.p].uid);
                match &o.rec.resp {
                    Some(r) => match m2.judge(o.op, Mode::Up, &user, r, (o.rec.time, o.rec.time)) {
                        Ok(()) => {}
                        Err(e) => {
                            if n >= best.0 {
                                *best = (n, format!("after {} of the requests in some order, process {} ({}): {}", n, o.p, me.sc.procs[o.p].reqs[o.k].name, e));
                            }
                            continue;
                        }
                    },
                    None => match o.op {
                        Op::Lock { path } => {
                            let id = lock_id(path);
                            m2.locks.entry(id).or_insert(LockRec { path: path.clone(), time: o.rec.time, owner: user });
                        }
                        Op::Unlock { id } => {
                            m2.locks.remove(&String::from_utf8_lossy(id).to_string());
                        }
                        _ => {}
                    },
                }
                if go(me, ops, used | (1 << i), &m2, seen, best) {
                    return true;
                }
            }
            false
        }
        let mut best = (0, String::new());
        if go(self, &ops, 0, init, &mut HashSet::new(), &mut best) {
            return Ok(());
        }
        let mut s = String::from("no order of the lock and unlock requests explains the answers:");
        for o in &ops {
            s += &format!(" [process {} {}: {}]", o.p, self.sc.procs[o.p].reqs[o.k].name, o.rec.resp.as_ref().map(|r| r.show()).unwrap_or("killed".into()));
        }
        Err(format!("{}; {}", s, best.1))
    }

    fn describe(&self) -> String {
        let mut s = format!("scenario: {}\n", self.sc.name);
        for (i, p) in self.sc.procs.iter().enumerate() {
            s += &format!("process {} ({} session, uid {}, clock {}): {}\n", i, p.mode.arg(), p.uid, TIME0 + 100 * i as i64, p.reqs.iter().map(|r| r.name.as_str()).collect::<Vec<_>>().join("; "));
        }
        s += &format!("\nschedule (process number per step; K kill, T torn write): {}\n", self.acts.iter().map(|a| a.show()).collect::<Vec<_>>().join(" "));
        s
    }
}

struct Shared {
    visited: Vec<Mutex<HashSet<u128>>>,
    queue: Mutex<(Vec<(Vec<Act>, u128)>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    states: AtomicU64,
    transitions: AtomicU64,
    execs: AtomicU64,
    terminals: AtomicU64,
    recoveries: AtomicU64,
    diverged: AtomicU64,
    recovered: Mutex<HashSet<u128>>,
    maxdepth: AtomicU64,
    kills: AtomicU64,
}

pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub complete: bool,
}

/// Explore one scenario completely.
pub fn explore(rep: &Report, sc: &Scenario) -> Stats {
    let sh = Shared {
        visited: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        queue: Mutex::new((vec![(vec![], 0)], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        execs: AtomicU64::new(0),
        terminals: AtomicU64::new(0),
        recoveries: AtomicU64::new(0),
        diverged: AtomicU64::new(0),
        recovered: Mutex::new(HashSet::new()),
        maxdepth: AtomicU64::new(0),
        kills: AtomicU64::new(0),
    };
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        for _ in 0..crate::vutil::jobs() {
            s.spawn(|| {
                let w = World::new(UID, None);
                loop {
                    let item = {
                        let mut q = sh.queue.lock().unwrap();
                        loop {
                            if sh.stop.load(Ordering::Relaxed) {
                                sh.cv.notify_all();
                                return;
                            }
                            if let Some(x) = q.0.pop() {
                                q.1 += 1;
                                break x;
                            }
                            if q.1 == 0 {
                                sh.cv.notify_all();
                                return;
                            }
                            q = sh.cv.wait(q).unwrap();
                        }
                    };
                    run(rep, sc, &sh, &w, item.0, item.1);
                    let mut q = sh.queue.lock().unwrap();
                    q.1 -= 1;
                    sh.cv.notify_all();
                }
            });
        }
    });
    if sh.diverged.load(Ordering::Relaxed) > 0 {
        // The execution was not reproducible: no verdict can be given.
        eprintln!("scenario {}: {} executions could not be reproduced", sc.name, sh.diverged.load(Ordering::Relaxed));
        crate::world::cleanup();
        std::process::exit(2);
    }
    let st = Stats {
        states: sh.states.load(Ordering::Relaxed),
        transitions: sh.transitions.load(Ordering::Relaxed),
        execs: sh.execs.load(Ordering::Relaxed),
        complete: !sh.stop.load(Ordering::Relaxed),
    };
    rep.count("states", st.states);
    rep.count("transitions", st.transitions);
    rep.count("terminal_states", sh.terminals.load(Ordering::Relaxed));
    rep.count("kills", sh.kills.load(Ordering::Relaxed));
    rep.count("recovery_sessions", sh.recoveries.load(Ordering::Relaxed));
    rep.count("traces_validated_against_impl", st.execs);
    rep.scope(
        &format!("{}: {} transitions, {} executions, {} ends, longest {} steps, {:.1} s{}", sc.name, st.transitions, st.execs, sh.terminals.load(Ordering::Relaxed), sh.maxdepth.load(Ordering::Relaxed), t0.elapsed().as_secs_f64(), if st.complete { "" } else { ", STOPPED" }),
        st.states,
    );
    st
}

fn report(rep: &Report, e: &Exec, err: &str, sh: &Shared) {
    // one replay for each kind of failure; the schedule is in the detail
    let kind: String = err.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect();
    let mut det = format!("{}\n\n{}", err, e.describe());
    for (i, p) in e.procs.iter().enumerate() {
        det += &format!("\nprocess {} wrote: {}\nstderr: {}\nfile operations:\n", i, show(&p.stdout()), show(&p.stderr()));
        for l in &p.trace {
            det += &format!("  {}\n", l);
        }
        if let Some(o) = p.pending() {
            det += &format!("  (about to do {})\n", o.label());
        }
    }
    rep.violation(&format!("{}: {}", e.sc.name, kind), &format!("{}: {}", e.sc.name, err), &det);
    if rep.nviol() > 40 {
        sh.stop.store(true, Ordering::Relaxed);
    }
}

fn run(rep: &Report, sc: &Scenario, sh: &Shared, w: &World, prefix: Vec<Act>, parent: u128) {
    sh.execs.fetch_add(1, Ordering::Relaxed);
    let mut e = match Exec::start(sc, w) {
        Ok(e) => e,
        Err(x) => {
            rep.violation(&format!("{}: start", sc.name), &format!("{}: {}", sc.name, x), "");
            sh.stop.store(true, Ordering::Relaxed);
            return;
        }
    };
    for p in e.procs.iter_mut() {
        p.keep_trace = true;
    }
    // what the model starts from
    let mut init = Model::default();
    init.locks = e.disk.locks.clone();
    let n = prefix.len();
    for (i, a) in prefix.iter().enumerate() {
        if i + 1 == n {
            let k = e.key();
            if k != parent {
                if std::env::var("MC_DEBUG").is_ok() {
                    eprintln!("{:?}\n{:?}", e.order, e.procs.iter().map(|p| (p.hist(), p.fds(), p.trace.clone())).collect::<Vec<_>>());
                    eprintln!("divergence in {} after {:?}", sc.name, prefix.iter().map(|a| a.show()).collect::<Vec<_>>());
                }
                sh.diverged.fetch_add(1, Ordering::Relaxed);
                sh.stop.store(true, Ordering::Relaxed);
                return;
            }
        }
        if e.procs[a.p as usize].done() {
            sh.diverged.fetch_add(1, Ordering::Relaxed);
            sh.stop.store(true, Ordering::Relaxed);
            return;
        }
        let r = e.act(*a);
        if i + 1 == n {
            sh.transitions.fetch_add(1, Ordering::Relaxed);
            if a.how != Do::Run {
                sh.kills.fetch_add(1, Ordering::Relaxed);
            }
            if let Err(x) = r {
                report(rep, &e, &x, sh);
                return;
            }
        }
    }
    loop {
        if sh.stop.load(Ordering::Relaxed) {
            return;
        }
        let k = e.key();
        if !sh.visited[(k % 64) as usize].lock().unwrap().insert(k) {
            return;
        }
        let ns = sh.states.fetch_add(1, Ordering::Relaxed) + 1;
        if ns as usize > sc.max_states {
            sh.stop.store(true, Ordering::Relaxed);
            return;
        }
        sh.maxdepth.fetch_max(e.acts.len() as u64, Ordering::Relaxed);
        if e.finished() {
            sh.terminals.fetch_add(1, Ordering::Relaxed);
            if let Err(x) = e.linearize(&init) {
                report(rep, &e, &x, sh);
                return;
            }
            if sh.terminals.load(Ordering::Relaxed) % 97 == 1 {
                rep.sample(format!("{}: schedule {}", sc.name, e.acts.iter().map(|a| a.show()).collect::<Vec<_>>().join(" ")));
            }
            if let Some(f) = &sc.recover {
                let mut h = H128::new();
                for en in &e.entries {
                    h.add(e.names.canon(&en.path).as_bytes());
                    h.add(&en.mode.to_le_bytes());
                    h.add(&en.data);
                }
                if sh.recovered.lock().unwrap().insert(h.get()) {
                    let mut m = Model::default();
                    m.locks = e.disk.locks.clone();
                    for (o, (d, _)) in &e.disk.objects {
                        m.objects.insert(o.clone(), std::sync::Arc::new(d.clone()));
                    }
                    match f(w, &mut m) {
                        Ok(n) => {
                            sh.recoveries.fetch_add(n, Ordering::Relaxed);
                        }
                        Err(x) => report(rep, &e, &format!("afterwards: {}", x), sh),
                    }
                }
            }
            return;
        }
        let en = e.enabled();
        if en.is_empty() {
            report(rep, &e, "all processes wait for each other for ever", sh);
            return;
        }
        if en.len() > 1 {
            let mut q = sh.queue.lock().unwrap();
            for a in &en[1..] {
                let mut p = e.acts.clone();
                p.push(*a);
                q.0.push((p, k));
            }
            drop(q);
            sh.cv.notify_all();
        }
        sh.transitions.fetch_add(1, Ordering::Relaxed);
        if let Err(x) = e.act(en[0]) {
            report(rep, &e, &x, sh);
            return;
        }
    }
}

/// Sessions after a crash: every request must work as the model says.
pub fn recovery_session(w: &World, m: &mut Model, mode: Mode, uid: u32, reqs: &[Request]) -> Result<u64, String> {
    let refs: Vec<&Request> = reqs.iter().collect();
    let o = Sess::new(w, mode.arg()).user(uid).run(&join(&refs));
    judge_session(m, &refs, mode, &user_name(uid), &o).map_err(|e| format!("recovery session of uid {}: {}", uid, e))?;
    m.compare_store(w).map_err(|e| format!("after a recovery session: {}", e))?;
    Ok(1)
}
