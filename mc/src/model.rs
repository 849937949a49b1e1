//! The sequential model: a map from object IDs to bytes and a set of locks.
use crate::proto::*;
use crate::vutil::show;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Up,
    Down,
}
impl Mode {
    pub fn arg(self) -> &'static str {
        match self {
            Mode::Up => "upload",
            Mode::Down => "download",
        }
    }
}

/// What a request means.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Version,
    Batch(Vec<(String, u64)>),
    Put { oid: String, size: u64, data: Arc<Vec<u8>> },
    Verify { oid: String, size: u64 },
    Get { oid: String },
    Lock { path: Vec<u8> },
    Unlock { id: Vec<u8> },
    List { limit: Option<u64>, cursor: Option<Vec<u8>>, path: Option<Vec<u8>> },
    /// must be refused and have no effect
    Bad,
    /// must get one response of any kind and have no effect
    Any,
    Quit,
}

#[derive(Clone, Debug)]
pub struct Request {
    pub op: Op,
    pub bytes: Vec<u8>,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LockRec {
    pub path: Vec<u8>,
    pub time: i64,
    pub owner: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub objects: BTreeMap<String, Arc<Vec<u8>>>,
    pub locks: BTreeMap<String, LockRec>,
}

pub fn valid_oid(s: &str) -> bool {
    s.len() == 64 && s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c))
}

impl Model {
    pub fn add_object(&mut self, data: &[u8]) -> String {
        let o = oid_of(data);
        self.objects.insert(o.clone(), Arc::new(data.to_vec()));
        o
    }

    fn same_lock(&self, s: &ShownLock, id: &str, rec: &LockRec) -> Result<(), String> {
        if s.id != id || s.path != rec.path || s.time != rec.time || s.owner != rec.owner {
            return Err(format!(
                "shows lock id={} path={} locked-at={} owner={}, expected id={} path={} locked-at={} owner={}",
                s.id, show(&s.path), s.time, s.owner, id, show(&rec.path), rec.time, rec.owner
            ));
        }
        Ok(())
    }

    pub fn selected(&self, limit: Option<u64>, cursor: &Option<Vec<u8>>) -> (Vec<&String>, Option<&String>) {
        let lim = limit.unwrap_or(100).min(100) as usize;
        let mut v: Vec<&String> = self
            .locks
            .keys()
            .filter(|k| cursor.as_ref().map(|c| k.as_bytes() >= &c[..]).unwrap_or(true))
            .collect();
        let next = v.get(lim).copied();
        v.truncate(lim);
        (v, next)
    }

    /// Judge the response to one request and update the model.
    /// `window` bounds the time a new lock may carry.
    pub fn judge(&mut self, op: &Op, mode: Mode, user: &str, r: &Resp, window: (i64, i64)) -> Result<(), String> {
        let want = |c: u32| -> Result<(), String> {
            if r.code == c {
                Ok(())
            } else {
                Err(format!("expected status {}, got: {}", c, r.show()))
            }
        };
        let refused = || -> Result<(), String> {
            if r.refused() {
                Ok(())
            } else {
                Err(format!("expected a refusal, got: {}", r.show()))
            }
        };
        let plain = || -> Result<(), String> {
            if r.args.is_empty() && r.bytes().is_empty() {
                Ok(())
            } else {
                Err(format!("unexpected content: {}", r.show()))
            }
        };
        let allowed = match op {
            Op::Put { .. } | Op::Verify { .. } | Op::Lock { .. } | Op::Unlock { .. } => mode == Mode::Up,
            Op::Get { .. } => mode == Mode::Down,
            _ => true,
        };
        if !allowed {
            return refused();
        }
        match op {
            Op::Version | Op::Quit => want(200).and_then(|_| plain()),
            Op::Bad => refused(),
            Op::Any => Ok(()),
            Op::Batch(items) => {
                want(200)?;
                let mut exp: Vec<Vec<u8>> = vec![];
                for (oid, size) in items {
                    let present = self.objects.get(oid);
                    let size = present.map(|d| d.len() as u64).unwrap_or(*size);
                    let act = match (mode, present.is_some()) {
                        (Mode::Up, true) | (Mode::Down, false) => "noop",
                        (Mode::Up, false) => "upload",
                        (Mode::Down, true) => "download",
                    };
                    exp.push(format!("{} {} {}\n", oid, size, act).into_bytes());
                }
                if r.data.clone().unwrap_or_default() != exp {
                    return Err(format!(
                        "expected lines [{}], got: {}",
                        exp.iter().map(|x| show(x)).collect::<Vec<_>>().join(" | "),
                        r.show()
                    ));
                }
                Ok(())
            }
            Op::Put { oid, size, data } => {
                if valid_oid(oid) && *size == data.len() as u64 && oid_of(data) == *oid {
                    want(200)?;
                    plain()?;
                    self.objects.insert(oid.clone(), data.clone());
                    Ok(())
                } else {
                    refused()
                }
            }
            Op::Verify { oid, size } => {
                if !valid_oid(oid) {
                    return refused();
                }
                match self.objects.get(oid) {
                    None => want(404),
                    Some(d) if d.len() as u64 != *size => want(409),
                    Some(_) => want(200).and_then(|_| plain()),
                }
            }
            Op::Get { oid } => {
                if !valid_oid(oid) {
                    return refused();
                }
                match self.objects.get(oid) {
                    None => want(404),
                    Some(d) => {
                        want(200)?;
                        if r.arg("size") != Some(d.len().to_string().as_bytes()) {
                            return Err(format!("expected size={}, got: {}", d.len(), r.show()));
                        }
                        if r.data.is_none() {
                            return Err("no data section".into());
                        }
                        if r.bytes() != **d {
                            return Err(format!("the data differ from the object ({} bytes instead of {})", r.bytes().len(), d.len()));
                        }
                        Ok(())
                    }
                }
            }
            Op::Lock { path } => {
                let id = lock_id(path);
                match self.locks.get(&id) {
                    Some(rec) => {
                        want(409)?;
                        self.same_lock(&lock_args(r)?, &id, rec)
                    }
                    // a path that is longer than any file name can be may be refused
                    None if path.len() > 4096 && r.refused() => Ok(()),
                    None => {
                        want(201)?;
                        let s = lock_args(r)?;
                        let rec = LockRec { path: path.clone(), time: s.time, owner: user.into() };
                        self.same_lock(&s, &id, &rec)?;
                        if s.time < window.0 || s.time > window.1 {
                            return Err(format!("locked-at {} is not the current time ({}..{})", s.time, window.0, window.1));
                        }
                        self.locks.insert(id, rec);
                        Ok(())
                    }
                }
            }
            Op::Unlock { id } => {
                let ids = String::from_utf8_lossy(id).to_string();
                match self.locks.get(&ids).cloned() {
                    Some(rec) => {
                        want(200)?;
                        self.same_lock(&lock_args(r)?, &ids, &rec)?;
                        self.locks.remove(&ids);
                        Ok(())
                    }
                    // an ID of a lock that does not exist; one that is no ID at all may be
                    // answered as malformed
                    None if valid_oid(&ids) => want(404),
                    None => refused(),
                }
            }
            Op::List { limit, cursor, path } => {
                if *limit == Some(0) {
                    return refused();
                }
                if let Some(p) = path {
                    let id = lock_id(p);
                    let hit = self.locks.get(&id).filter(|_| cursor.as_ref().map(|c| id.as_bytes() >= &c[..]).unwrap_or(true));
                    return match hit {
                        None if r.code == 404 => Ok(()),
                        None => {
                            want(200)?;
                            let (v, n) = lock_list(r)?;
                            if !v.is_empty() || n.is_some() {
                                return Err(format!("lists a lock that is not there: {}", r.show()));
                            }
                            Ok(())
                        }
                        Some(rec) => {
                            want(200)?;
                            let (v, n) = lock_list(r)?;
                            if v.len() != 1 || n.is_some() {
                                return Err(format!("expected exactly the lock on {}: {}", show(p), r.show()));
                            }
                            self.same_lock(&v[0], &id, rec)?;
                            who(&v[0], mode, user)
                        }
                    };
                }
                want(200)?;
                let (got, next) = lock_list(r)?;
                let (exp, enext) = self.selected(*limit, cursor);
                let gids: Vec<&String> = got.iter().map(|s| &s.id).collect();
                if gids != exp {
                    return Err(format!(
                        "expected locks {:?}, got {:?}",
                        exp.iter().map(|s| &s[..8]).collect::<Vec<_>>(),
                        gids.iter().map(|s| s.get(..8).unwrap_or(s)).collect::<Vec<_>>()
                    ));
                }
                for s in &got {
                    self.same_lock(s, &s.id, &self.locks[&s.id])?;
                    who(s, mode, user)?;
                }
                if next.as_ref() != enext {
                    return Err(format!("expected next-cursor {:?}, got {:?}", enext, next));
                }
                Ok(())
            }
        }
    }

    /// Compare with the files in the repository.
    pub fn compare_store(&self, w: &World) -> Result<(), String> {
        let mut objs = BTreeMap::new();
        for e in tree(&w.lfs.join("objects")) {
            if e.kind == 'd' {
                continue;
            }
            let name = e.path.rsplit('/').next().unwrap().to_string();
            if !valid_oid(&name) || e.path != format!("{}/{}/{}", &name[..2], &name[2..4], name) || e.kind != 'f' {
                return Err(format!("stray file {} among the objects", e.path));
            }
            objs.insert(name, e.data);
        }
        for (k, v) in &objs {
            match self.objects.get(k) {
                None => return Err(format!("object {} exists although it was never stored", k)),
                Some(d) if **d != *v => return Err(format!("object {} has wrong content: {}", k, show(v))),
                _ => (),
            }
        }
        for k in self.objects.keys() {
            if !objs.contains_key(k) {
                return Err(format!("object {} is gone", k));
            }
        }
        let mut locks = BTreeMap::new();
        for e in tree(&w.lfs.join("locks")) {
            if !valid_oid(&e.path) {
                continue;
            }
            match parse_lock_file(&e.data) {
                Some((t, p)) if lock_id(&p) == e.path => {
                    locks.insert(e.path, LockRec { path: p, time: t, owner: user_name(e.uid) });
                }
                _ => return Err(format!("lock file {} is damaged: {}", e.path, show(&e.data))),
            }
        }
        if locks != self.locks {
            return Err(format!("locks on disk {:?} differ from the model's {:?}", locks, self.locks));
        }
        Ok(())
    }
}

fn who(s: &ShownLock, mode: Mode, user: &str) -> Result<(), String> {
    let exp = match mode {
        Mode::Down => None,
        Mode::Up if s.owner == user => Some("ours"),
        Mode::Up => Some("theirs"),
    };
    if s.who.as_deref() != exp {
        return Err(format!("lock {} of {} is marked {:?} for {}, expected {:?}", s.id, s.owner, s.who, user, exp));
    }
    Ok(())
}

pub fn parse_lock_file(b: &[u8]) -> Option<(i64, Vec<u8>)> {
    let b = b.strip_prefix(b"v1:")?;
    let p = b.iter().position(|&c| c == b':')?;
    let t = std::str::from_utf8(&b[..p]).ok()?.parse().ok()?;
    Some((t, b[p + 1..].to_vec()))
}

pub fn leftovers(w: &World) -> Vec<String> {
    let mut v = vec![];
    for d in ["incomplete", "tmp"] {
        for e in tree(&w.lfs.join(d)) {
            v.push(format!("{}/{}", d, e.path));
        }
    }
    v
}

/// Judge a whole session. Returns the number of requests answered.
pub fn judge_session(m: &mut Model, reqs: &[&Request], mode: Mode, user: &str, o: &Outcome) -> Result<usize, String> {
    if let Some(c) = o.crashed() {
        return Err(c);
    }
    let resp = parse_session(&o.out)?;
    let mut n = 0;
    for (i, q) in reqs.iter().enumerate() {
        let r = match resp.get(i) {
            Some(r) => r,
            None => return Err(format!("request {} ({}) got no response ({} responses in all)", i, q.name, resp.len())),
        };
        m.judge(&q.op, mode, user, r, (o.t0 - 1, o.t1 + 1)).map_err(|e| format!("request {} ({}): {}", i, q.name, e))?;
        n += 1;
        if q.op == Op::Quit {
            break;
        }
    }
    if resp.len() != n {
        return Err(format!("{} responses to {} requests; the first extra one is: {}", resp.len(), n, resp[n].show()));
    }
    Ok(n)
}

// ------------------------------------------------------------------------------------------
// Request builders

pub fn version() -> Request {
    Request { op: Op::Version, bytes: Req::cmd("version 1\n").flush(), name: "version 1".into() }
}
pub fn batch(items: &[(&str, u64)]) -> Request {
    let mut r = Req::cmd("batch\n").arg("transfer=ssh").arg("refname=refs/heads/main").delim();
    for (o, s) in items {
        r = r.data(format!("{} {}\n", o, s).as_bytes());
    }
    Request {
        op: Op::Batch(items.iter().map(|x| (x.0.to_string(), x.1)).collect()),
        bytes: r.flush(),
        name: format!("batch {}", items.iter().map(|(o, s)| format!("{}:{}", &o[..6], s)).collect::<Vec<_>>().join(",")),
    }
}
pub fn put_as(oid: &str, size: u64, data: &[u8], chunk: usize) -> Request {
    Request {
        op: Op::Put { oid: oid.into(), size, data: Arc::new(data.to_vec()) },
        bytes: Req::cmd(&format!("put-object {}\n", oid)).arg(&format!("size={}", size)).delim().payload(data, chunk).flush(),
        name: format!("put-object {} size={} ({} bytes)", oid.get(..8).unwrap_or(oid), size, data.len()),
    }
}
pub fn put(data: &[u8]) -> Request {
    put_as(&oid_of(data), data.len() as u64, data, 65516)
}
pub fn verify(oid: &str, size: u64) -> Request {
    Request {
        op: Op::Verify { oid: oid.into(), size },
        bytes: Req::cmd(&format!("verify-object {}\n", oid)).arg(&format!("size={}", size)).flush(),
        name: format!("verify-object {} size={}", oid.get(..8).unwrap_or(oid), size),
    }
}
pub fn get(oid: &str) -> Request {
    Request {
        op: Op::Get { oid: oid.into() },
        bytes: Req::cmd(&format!("get-object {}\n", oid)).flush(),
        name: format!("get-object {}", oid.get(..8).unwrap_or(oid)),
    }
}
pub fn lock(path: &[u8]) -> Request {
    Request {
        op: Op::Lock { path: path.to_vec() },
        bytes: Req::cmd("lock\n").argb("path", path).arg("refname=refs/heads/main").flush(),
        name: format!("lock {}", show(&path[..path.len().min(30)])),
    }
}
pub fn unlock_id(id: &[u8]) -> Request {
    let mut c = b"unlock ".to_vec();
    c.extend_from_slice(id);
    c.push(b'\n');
    Request {
        op: Op::Unlock { id: id.to_vec() },
        bytes: Req::default().data(&c).flush(),
        name: format!("unlock {}", show(&id[..id.len().min(70)])),
    }
}
pub fn unlock(path: &[u8]) -> Request {
    let mut r = unlock_id(lock_id(path).as_bytes());
    r.name = format!("unlock (lock on {})", show(&path[..path.len().min(30)]));
    r
}
pub fn list(limit: Option<u64>, cursor: Option<&[u8]>, path: Option<&[u8]>) -> Request {
    let mut r = Req::cmd("list-lock\n");
    let mut name = "list-lock".to_string();
    if let Some(l) = limit {
        r = r.arg(&format!("limit={}", l));
        name += &format!(" limit={}", l);
    }
    if let Some(c) = cursor {
        r = r.argb("cursor", c);
        name += &format!(" cursor={}", show(&c[..c.len().min(16)]));
    }
    if let Some(p) = path {
        r = r.argb("path", p);
        name += &format!(" path={}", show(&p[..p.len().min(30)]));
    }
    Request { op: Op::List { limit, cursor: cursor.map(|x| x.to_vec()), path: path.map(|x| x.to_vec()) }, bytes: r.flush(), name }
}
pub fn quit() -> Request {
    Request { op: Op::Quit, bytes: Req::cmd("quit\n").flush(), name: "quit".into() }
}
pub fn bad(name: &str, bytes: Vec<u8>) -> Request {
    Request { op: Op::Bad, bytes, name: name.into() }
}
pub fn any(name: &str, bytes: Vec<u8>) -> Request {
    Request { op: Op::Any, bytes, name: name.into() }
}
pub fn join(reqs: &[&Request]) -> Vec<u8> {
    let mut v = vec![];
    for r in reqs {
        v.extend_from_slice(&r.bytes);
    }
    v
}
