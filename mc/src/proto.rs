//! The client side of the transfer protocol: building requests, strictly parsing responses.
use sha2::{Digest, Sha256};

pub const FLUSH: &[u8] = b"0000";
pub const DELIM: &[u8] = b"0001";

pub fn pkt(data: &[u8]) -> Vec<u8> {
    assert!(data.len() <= 65516);
    let mut v = format!("{:04x}", data.len() + 4).into_bytes();
    v.extend_from_slice(data);
    v
}

pub fn oid_of(data: &[u8]) -> String {
    hex::encode(Sha256::digest(data))
}

/// The data of another object whose ID has its first `digits` digits in common with that of `data`, so
/// that both are stored below the same first (2 digits) or second (4 digits) directory.
pub fn mate(data: &[u8], digits: usize) -> Vec<u8> {
    let o = oid_of(data);
    for i in 0u64.. {
        let d = format!("mate {}", i).into_bytes();
        let x = oid_of(&d);
        if x[..digits] == o[..digits] && x[digits..digits + 2] != o[digits..digits + 2] {
            return d;
        }
    }
    unreachable!()
}

pub fn lock_id(path: &[u8]) -> String {
    let mut h = Sha256::new();
    h.update(b"v1:");
    h.update(path);
    hex::encode(h.finalize())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    Flush,
    Delim,
    Data(Vec<u8>),
}

/// Builds one request from its packets; the final flush is added.
#[derive(Clone, Debug, Default)]
pub struct Req {
    pub bytes: Vec<u8>,
}

impl Req {
    pub fn cmd(s: &str) -> Req {
        Req { bytes: pkt(s.as_bytes()) }
    }
    pub fn raw(mut self, b: &[u8]) -> Req {
        self.bytes.extend_from_slice(b);
        self
    }
    pub fn data(mut self, b: &[u8]) -> Req {
        self.bytes.extend(pkt(b));
        self
    }
    pub fn arg(self, s: &str) -> Req {
        self.data(format!("{}\n", s).as_bytes())
    }
    pub fn argb(self, k: &str, v: &[u8]) -> Req {
        let mut b = k.as_bytes().to_vec();
        b.push(b'=');
        b.extend_from_slice(v);
        b.push(b'\n');
        self.data(&b)
    }
    pub fn delim(self) -> Req {
        self.raw(DELIM)
    }
    /// payload split into packets of at most n bytes
    pub fn payload(mut self, b: &[u8], n: usize) -> Req {
        for c in b.chunks(n) {
            self.bytes.extend(pkt(c));
        }
        self
    }
    pub fn flush(self) -> Vec<u8> {
        self.raw(FLUSH).bytes
    }
}

pub fn decode_all(mut b: &[u8]) -> Result<Vec<P>, String> {
    let mut v = vec![];
    let total = b.len();
    while !b.is_empty() {
        let at = total - b.len();
        if b.len() < 4 {
            return Err(format!("incomplete packet header at byte {}", at));
        }
        let mut n = 0usize;
        for &c in &b[..4] {
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                _ => return Err(format!("illegal packet header at byte {}", at)),
            };
            n = n * 16 + d as usize;
        }
        match n {
            0 => {
                v.push(P::Flush);
                b = &b[4..];
            }
            1 => {
                v.push(P::Delim);
                b = &b[4..];
            }
            4..=65520 => {
                if b.len() < n {
                    return Err(format!("incomplete packet at byte {}", at));
                }
                v.push(P::Data(b[4..n].to_vec()));
                b = &b[n..];
            }
            _ => return Err(format!("illegal packet length at byte {}", at)),
        }
    }
    Ok(v)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Resp {
    pub code: u32,
    pub args: Vec<Vec<u8>>,
    /// packets after the delimiter
    pub data: Option<Vec<Vec<u8>>>,
}

impl Resp {
    pub fn arg(&self, k: &str) -> Option<&[u8]> {
        let pre = format!("{}=", k);
        self.args.iter().find(|a| a.starts_with(pre.as_bytes())).map(|a| &a[pre.len()..a.len() - 1])
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.data.clone().unwrap_or_default().concat()
    }
    pub fn refused(&self) -> bool {
        self.code >= 400
    }
    pub fn show(&self) -> String {
        let mut s = format!("status {}", self.code);
        for a in &self.args {
            s += &format!(" | {}", crate::vutil::show(a));
        }
        if let Some(d) = &self.data {
            s += " || ";
            s += &d.iter().take(40).map(|x| crate::vutil::show(x)).collect::<Vec<_>>().join(" | ");
        }
        if s.len() > 1500 {
            let mut i = 1500;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.truncate(i);
            s += "...";
        }
        s
    }
}

/// Parse everything a session wrote: the capability advertisement and the responses.
/// A response cut off at the end is returned as the rest.
pub fn parse_session(out: &[u8]) -> Result<Vec<Resp>, String> {
    let (v, rest) = parse_prefix(out)?;
    if let Some(r) = rest {
        return Err(format!("output ends inside a response: {}", r));
    }
    Ok(v)
}

/// As `parse_session`, but also accepts output that stops in the middle (a killed session).
pub fn parse_prefix(out: &[u8]) -> Result<(Vec<Resp>, Option<String>), String> {
    // cut an incomplete final packet
    let mut end = 0;
    let mut cut = None;
    {
        let mut b = out;
        while !b.is_empty() {
            if b.len() < 4 {
                cut = Some(format!("incomplete packet header at byte {}", end));
                break;
            }
            let h = std::str::from_utf8(&b[..4]).ok().filter(|s| s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c))).and_then(|s| usize::from_str_radix(s, 16).ok());
            let n = match h {
                Some(0) | Some(1) => 4,
                Some(n @ 4..=65520) => n,
                _ => return Err(format!("illegal packet header {:?} at byte {} of the output", crate::vutil::show(&b[..4]), end)),
            };
            if b.len() < n {
                cut = Some(format!("incomplete packet at byte {}", end));
                break;
            }
            b = &b[n..];
            end += n;
        }
    }
    let pk = decode_all(&out[..end])?;
    let mut it = pk.into_iter().peekable();
    // capability advertisement: lines up to a flush, among them version=1
    let mut caps = vec![];
    loop {
        match it.next() {
            Some(P::Data(d)) => caps.push(d),
            Some(P::Flush) => break,
            Some(P::Delim) => return Err("delimiter in the capability advertisement".into()),
            None => return Ok((vec![], Some(cut.unwrap_or("no capability advertisement".into())))),
        }
    }
    if !caps.iter().any(|c| c == b"version=1\n") {
        return Err(format!("capability advertisement lacks version=1: {:?}", caps));
    }
    let mut v = vec![];
    while it.peek().is_some() {
        let mut r = Resp { code: 0, args: vec![], data: None };
        match it.next() {
            Some(P::Data(d)) if d.len() == 11 && d.starts_with(b"status ") && d[10] == b'\n' && d[7..10].iter().all(|c| c.is_ascii_digit()) => {
                r.code = std::str::from_utf8(&d[7..10]).unwrap().parse().unwrap();
            }
            x => return Err(format!("response {} does not begin with a status line but with {:?}", v.len(), x)),
        }
        loop {
            match it.next() {
                Some(P::Flush) => break,
                Some(P::Delim) if r.data.is_none() => r.data = Some(vec![]),
                Some(P::Delim) => return Err(format!("response {} has two delimiters", v.len())),
                Some(P::Data(d)) => match &mut r.data {
                    Some(x) => x.push(d),
                    None => {
                        if !d.ends_with(b"\n") || !d.contains(&b'=') {
                            return Err(format!("response {} has a malformed argument {:?}", v.len(), crate::vutil::show(&d)));
                        }
                        r.args.push(d)
                    }
                },
                None => {
                    return Ok((v, Some(cut.unwrap_or(format!("response unfinished: {}", r.show())))));
                }
            }
        }
        if !(200..=599).contains(&r.code) {
            return Err(format!("response {} has status {}", v.len(), r.code));
        }
        v.push(r);
    }
    Ok((v, cut))
}

/// A lock as shown in a response.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ShownLock {
    pub id: String,
    pub path: Vec<u8>,
    pub time: i64,
    pub owner: String,
    pub who: Option<String>,
}

/// Parse an RFC 3339 date in UTC to seconds since the epoch.
pub fn parse_time(b: &[u8]) -> Option<i64> {
    let s = std::str::from_utf8(b).ok()?;
    let (main, rest) = s.split_at(s.find('T').map(|p| p + 9).filter(|&p| p <= s.len())?);
    let rest = match rest.strip_prefix('.') {
        Some(f) => f.trim_start_matches(|c: char| c.is_ascii_digit()),
        None => rest,
    };
    if rest != "+00:00" && rest != "Z" {
        return None;
    }
    let (date, time) = main.split_once('T')?;
    let (neg, date) = match date.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, date.strip_prefix('+').unwrap_or(date)),
    };
    let mut d = date.split('-');
    let y: i64 = d.next()?.parse().ok()?;
    let y = if neg { -y } else { y };
    let m: i64 = d.next()?.parse().ok()?;
    let dd: i64 = d.next()?.parse().ok()?;
    let mut t = time.split(':');
    let h: i64 = t.next()?.parse().ok()?;
    let mi: i64 = t.next()?.parse().ok()?;
    let s: i64 = t.next()?.parse().ok()?;
    // days from civil
    let yy = if m <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    Some((era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s)
}

/// The lock shown in the arguments of a lock or unlock response.
pub fn lock_args(r: &Resp) -> Result<ShownLock, String> {
    let mut keys: Vec<&[u8]> = r.args.iter().map(|a| &a[..a.iter().position(|&c| c == b'=').unwrap()]).collect();
    keys.sort();
    if keys != [&b"id"[..], b"locked-at", b"ownername", b"path"] {
        return Err(format!("lock arguments are not id, path, locked-at, ownername: {}", r.show()));
    }
    let t = r.arg("locked-at").unwrap();
    Ok(ShownLock {
        id: String::from_utf8_lossy(r.arg("id").unwrap()).into(),
        path: r.arg("path").unwrap().to_vec(),
        time: parse_time(t).ok_or_else(|| format!("unreadable locked-at {:?}", crate::vutil::show(t)))?,
        owner: String::from_utf8_lossy(r.arg("ownername").unwrap()).into(),
        who: None,
    })
}

/// The locks and next-cursor of a list-lock response.
pub fn lock_list(r: &Resp) -> Result<(Vec<ShownLock>, Option<String>), String> {
    let mut v: Vec<(ShownLock, u8)> = vec![];
    for line in r.data.as_ref().map(|x| &x[..]).unwrap_or(&[]) {
        let e = || format!("malformed list-lock line {:?}", crate::vutil::show(line));
        if line.last() != Some(&b'\n') {
            return Err(e());
        }
        let l = &line[..line.len() - 1];
        let sp = l.iter().position(|&c| c == b' ').ok_or_else(e)?;
        let (key, rest) = (&l[..sp], &l[sp + 1..]);
        if key == b"lock" {
            v.push((ShownLock { id: String::from_utf8_lossy(rest).into(), path: vec![], time: i64::MIN, owner: String::new(), who: None }, 0));
            continue;
        }
        let sp = rest.iter().position(|&c| c == b' ').ok_or_else(e)?;
        let (id, val) = (&rest[..sp], &rest[sp + 1..]);
        let (cur, seen) = v.last_mut().ok_or_else(e)?;
        if id != cur.id.as_bytes() {
            return Err(format!("line for lock {} inside the entry of lock {}", crate::vutil::show(id), cur.id));
        }
        let bit = match key {
            b"path" => {
                cur.path = val.to_vec();
                1
            }
            b"locked-at" => {
                cur.time = parse_time(val).ok_or_else(e)?;
                2
            }
            b"ownername" => {
                cur.owner = String::from_utf8_lossy(val).into();
                4
            }
            b"owner" => {
                cur.who = Some(String::from_utf8_lossy(val).into());
                8
            }
            _ => return Err(e()),
        };
        if *seen & bit != 0 {
            return Err(format!("repeated {} for lock {}", crate::vutil::show(key), cur.id));
        }
        *seen |= bit;
    }
    if let Some(x) = v.iter().find(|x| x.1 & 7 != 7) {
        return Err(format!("incomplete entry for lock {}", x.0.id));
    }
    for a in &r.args {
        if !a.starts_with(b"next-cursor=") {
            return Err(format!("unexpected argument {:?} in a list-lock response", crate::vutil::show(a)));
        }
    }
    if r.args.len() > 1 {
        return Err("several next-cursors".into());
    }
    Ok((v.into_iter().map(|x| x.0).collect(), r.arg("next-cursor").map(|x| String::from_utf8_lossy(x).into())))
}
