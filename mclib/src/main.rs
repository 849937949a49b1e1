//! Exhaustive exploration of scutiger-core's packet codec and error conversions.
#[path = "../../common/vutil.rs"]
mod vutil;

use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use vutil::*;

const MAXP: usize = 65516;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Pk {
    Flush,
    Delim,
    Data(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    /// the stream ends between packets
    Clean,
    /// the stream ends inside a packet
    Cut,
    /// an illegal header
    Bad,
}

fn hexval(c: u8) -> Option<usize> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as usize),
        b'a'..=b'f' => Some((c - b'a') as usize + 10),
        _ => None,
    }
}

/// The pkt-line format, written down independently.
fn header(h: &[u8]) -> Option<usize> {
    let mut n = 0;
    for &c in h {
        n = n * 16 + hexval(c)?;
    }
    match n {
        0 | 1 => Some(n),
        4..=65520 => Some(n),
        _ => None,
    }
}

fn decode(mut b: &[u8]) -> (Vec<Pk>, End) {
    let mut v = vec![];
    loop {
        if b.is_empty() {
            return (v, End::Clean);
        }
        if b.len() < 4 {
            return (v, End::Cut);
        }
        match header(&b[..4]) {
            None => return (v, End::Bad),
            Some(0) => {
                v.push(Pk::Flush);
                b = &b[4..]
            }
            Some(1) => {
                v.push(Pk::Delim);
                b = &b[4..]
            }
            Some(n) => {
                if b.len() < n {
                    return (v, End::Cut);
                }
                v.push(Pk::Data(b[4..n].to_vec()));
                b = &b[n..];
            }
        }
    }
}

fn encode(p: &Pk) -> Vec<u8> {
    match p {
        Pk::Flush => b"0000".to_vec(),
        Pk::Delim => b"0001".to_vec(),
        Pk::Data(d) => {
            let mut v = format!("{:04x}", d.len() + 4).into_bytes();
            v.extend_from_slice(d);
            v
        }
    }
}

fn from_packet(p: &Packet) -> Result<Pk, String> {
    match (p.packet_type(), p.data()) {
        (PacketType::Flush, None) => Ok(Pk::Flush),
        (PacketType::Delim, None) => Ok(Pk::Delim),
        (PacketType::Data(n), Some(d)) if d.len() == n => Ok(Pk::Data(d.to_vec())),
        (t, d) => Err(format!("inconsistent packet {:?} with {:?} payload bytes", t, d.map(|x| x.len()))),
    }
}

/// A transport that hands out its bytes according to a script: the i-th call returns at most
/// cuts[i % len] bytes, where 0 stands for an interrupted call.
#[derive(Clone)]
struct Transport<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: &'a [usize],
    call: usize,
}

impl<'a> Transport<'a> {
    fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Transport { data, pos: 0, cuts, call: 0 }
    }
}

impl<'a> Read for Transport<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.cuts[self.call % self.cuts.len()];
        self.call += 1;
        if c == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = c.min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const ALL: usize = usize::MAX;
/// Basic transports: everything at once, byte by byte, odd sizes, with interruptions.
const CUTS: &[&[usize]] =
    &[&[ALL], &[1], &[0, 1], &[3], &[ALL, 0], &[0, 0, 2, 1], &[5, 1, 0], &[4], &[7, 0, 2]];

/// All ways of cutting a stream of n bytes into consecutive reads (one cut sequence per bit mask).
fn composition(n: usize, mask: u64, intr: bool) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = 1;
    for i in 0..n.saturating_sub(1) {
        if mask >> i & 1 == 1 {
            if intr {
                v.push(0);
            }
            v.push(cur);
            cur = 1;
        } else {
            cur += 1;
        }
    }
    if intr {
        v.push(0);
    }
    v.push(cur);
    v
}

/// A transport that fails after so many bytes (with one further kind: it just ends), once or for good.
struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    max: usize,
    kind: io::ErrorKind,
    failed: bool,
    once: bool,
}
impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let end = if self.failed && self.once { self.data.len() } else { self.at };
        if self.pos == end && !(self.failed && self.once) {
            self.failed = true;
            return Err(self.kind.into());
        }
        let n = self.max.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// The failures a pipe, a file or a socket may report.
const FAILURES: [io::ErrorKind; 5] = [io::ErrorKind::Other, io::ErrorKind::ConnectionReset, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock];

/// Streams of very many packets.
fn long_streams() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let n = 70_000;
    v.push(("packets of one byte", (0..n).flat_map(|i| [b'0', b'0', b'0', b'5', (i % 251) as u8]).chain(*b"0000").collect()));
    v.push(("empty packets", b"0004".repeat(n).into_iter().chain(*b"0005x0000").collect()));
    v.push(("flushes", b"0000".repeat(n)));
    v.push(("delimiters", b"0001".repeat(n)));
    v.push(("packet and flush", (0..n).flat_map(|i| [b'0', b'0', b'0', b'5', (i % 251) as u8, b'0', b'0', b'0', b'0']).collect()));
    let pat = pattern(65516 + 256);
    v.push(("largest packets", (0..1100).flat_map(|i| encode(&Pk::Data(pat[i % 256..i % 256 + 65516].to_vec()))).chain(*b"0001").collect()));
    v
}

fn short_desc(b: &[u8]) -> String {
    if b.len() > 64 {
        format!("{}...({} bytes)", show(&b[..64]), b.len())
    } else {
        show(b)
    }
}

// ---------------------------------------------------------------------------------------------
// C01

/// Decode a whole stream through one of the packet interfaces and compare with the format.
/// Cases that are not trivial, by the rule given in the evidence.
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
fn nontrivial(n: u64) {
    NONTRIVIAL.fetch_add(n, Ordering::Relaxed);
}

fn check_stream(rep: &Report, stream: &[u8], cuts: &[usize], iface: usize, exp: &(Vec<Pk>, End)) {
    if stream.len() > 4 {
        nontrivial(1);
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut rdr = Reader::new(Transport::new(stream, cuts));
        let mut got: Vec<Pk> = vec![];
        let mut ended = None;
        if iface == 0 {
            for _ in 0..exp.0.len() + 1 {
                match rdr.read_packet() {
                    Ok(p) => got.push(from_packet(&p)?),
                    Err(e) => {
                        ended = Some(Some(e));
                        break;
                    }
                }
            }
        } else {
            let mut it = rdr.iter();
            for _ in 0..exp.0.len() + 1 {
                match it.next() {
                    Some(Ok(p)) => got.push(from_packet(&p)?),
                    Some(Err(e)) => {
                        ended = Some(Some(e));
                        break;
                    }
                    None => {
                        ended = Some(None);
                        break;
                    }
                }
            }
        }
        if got != exp.0 {
            let i = got.iter().zip(&exp.0).position(|(a, b)| a != b).unwrap_or(exp.0.len().min(got.len()));
            return Err(format!("packet {} differs: delivered {} packets, the format defines {}", i, got.len(), exp.0.len()));
        }
        match (exp.1, ended) {
            (_, None) => Err("the reader went on after the last packet".into()),
            (End::Bad, Some(None)) => Err("an illegal header was taken for the end of the input".into()),
            (End::Clean, Some(Some(_))) if iface == 1 => Err("the iterator reported an error at the end of the input".into()),
            (End::Clean | End::Cut, Some(Some(e))) if iface == 0 && e.io_kind() != io::ErrorKind::UnexpectedEof => {
                Err(format!("end of input reported as {:?}", e.io_kind()))
            }
            (End::Bad, Some(Some(e))) if e.io_kind() == io::ErrorKind::UnexpectedEof => {
                Err("an illegal header was reported as end of input".into())
            }
            _ => Ok(()),
        }
    }));
    let msg = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(_) => "the reader panicked".into(),
    };
    let iname = ["read_packet", "iter"][iface];
    rep.violation(
        &format!("stream:{}", if exp.1 == End::Bad { "illegal" } else { "legal" }),
        &format!("{} on {}: {}", iname, short_desc(stream), msg),
        &format!("stream: {}\nread sizes (0 = EINTR): {:?}\ninterface: {}\nexpected: {:?} packets then {:?}\n{}", show(stream), &cuts[..cuts.len().min(40)], iname, exp.0.len(), exp.1, msg),
    );
}

struct Feed {
    hdr: [u8; 4],
    pos: usize,
    payload: usize,
}
/// Serves one header at a time, then a payload of arbitrary length taken from a fixed pattern.
#[derive(Clone)]
struct HdrTransport(Rc<RefCell<Feed>>, &'static [u8]);
impl Read for HdrTransport {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut f = self.0.borrow_mut();
        if f.pos < 4 {
            let n = buf.len().min(4 - f.pos);
            let p = f.pos;
            buf[..n].copy_from_slice(&f.hdr[p..p + n]);
            f.pos += n;
            return Ok(n);
        }
        let o = f.pos - 4;
        let n = buf.len().min(f.payload.saturating_sub(o));
        buf[..n].copy_from_slice(&self.1[o..o + n]);
        f.pos += n;
        Ok(n)
    }
}

fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|x| (x + (x >> 8) * 3 + (x >> 16) * 7) as u8).collect()
}

fn check_header(rep: &Report, h: [u8; 4], feed: &Rc<RefCell<Feed>>, rdr: &mut Reader<HdrTransport>, iface: usize, big: &mut [u8], pat: &'static [u8]) {
    let exp = header(&h);
    {
        let mut f = feed.borrow_mut();
        f.hdr = h;
        f.pos = 0;
        // an illegal header is followed by plenty of bytes, a legal one by exactly its payload
        f.payload = match exp {
            Some(0) | Some(1) => 0,
            Some(n) => n - 4,
            None => 70000,
        };
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        match iface {
            0 | 1 => {
                let p = if iface == 0 { Some(rdr.read_packet()) } else { rdr.iter().next() };
                match (exp, p) {
                    (None, Some(Err(e))) if e.io_kind() != io::ErrorKind::UnexpectedEof => Ok(()),
                    (None, Some(Err(_))) => Err("reported as end of input".into()),
                    (None, None) => Err("taken for the end of the input".into()),
                    (None, Some(Ok(p))) => Err(format!("delivered as {:?}", p.packet_type())),
                    (Some(0), Some(Ok(p))) if p.packet_type() == PacketType::Flush && p.data().is_none() => Ok(()),
                    (Some(1), Some(Ok(p))) if p.packet_type() == PacketType::Delim && p.data().is_none() => Ok(()),
                    (Some(n), Some(Ok(p))) if n >= 4 && p.packet_type() == PacketType::Data(n - 4) && p.data() == Some(&pat[..n - 4]) => Ok(()),
                    (Some(_), Some(Ok(p))) => Err(format!("delivered as {:?} (or with a wrong payload)", p.packet_type())),
                    (Some(_), Some(Err(e))) => Err(format!("legal packet refused: {}", e)),
                    (Some(_), None) => Err("legal packet dropped".into()),
                }
            }
            _ => {
                let want = if iface == 2 { 65535 } else { 40 };
                if exp == Some(4) {
                    // an empty data packet is skipped; the transport then ends
                    return match rdr.read(&mut big[..want]) {
                        Err(_) => Ok(()),
                        Ok(n) => Err(format!("{} bytes (or end-of-file) for an empty packet at the end of input", n)),
                    };
                }
                match (exp, rdr.read(&mut big[..want])) {
                    (None, Err(_)) => Ok(()),
                    (None, Ok(n)) => Err(format!("byte reader returned {} bytes", n)),
                    (Some(0 | 1), Ok(0)) => Ok(()),
                    (Some(n), Ok(m)) if n > 4 && m >= 1 && m <= want && m <= n - 4 && big[..m] == pat[..m] => {
                        // drain the rest
                        let mut got = m;
                        while got < n - 4 {
                            match rdr.read(big) {
                                Ok(k) if k > 0 && got + k <= n - 4 && big[..k] == pat[got..got + k] => got += k,
                                x => return Err(format!("byte reader: {:?} at offset {} of {}", x.map_err(|e| e.to_string()), got, n - 4)),
                            }
                        }
                        Ok(())
                    }
                    (Some(n), x) => Err(format!("byte reader: {:?} for a packet of total length {}", x.map_err(|e| e.to_string()), n)),
                }
            }
        }
    }));
    let msg = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(_) => "panicked".into(),
    };
    *rdr = Reader::new(HdrTransport(feed.clone(), pat));
    let iname = ["read_packet", "iter().next", "read (large buffer)", "read (small buffer)"][iface];
    rep.violation(
        &format!("header:{}", match exp { None => "illegal", Some(_) => "legal" }),
        &format!("{} with header {:?}: {}", iname, show(&h), msg),
        &format!("header bytes: {:?}\nthe format says: {}\n{}: {}", h, match exp { None => "illegal".into(), Some(n) => format!("legal, {}", n) }, iname, msg),
    );
}

fn c01(rep: &Report) {
    let pat: &'static [u8] = Box::leak(pattern(80000).into_boxed_slice());
    // Space 1: headers.
    let bytes: Vec<u8> = (0..=255).collect();
    // every class of byte, and both neighbours of each class boundary
    let alpha: Vec<u8> = {
        let mut v: Vec<u8> = vec![];
        for r in [(b'0' - 3)..=(b'9' + 4), (b'a' - 2)..=(b'h'), (b'A' - 2)..=(b'G')] {
            v.extend(r);
        }
        v.extend([0, 1, 9, b'\n', b'\r', b' ', b'+', b'-', b'x', b'z', 0x7f, 0x80, 0xc2, 0xff]);
        v.sort();
        v.dedup();
        v
    };
    let n = AtomicU64::new(0);
    let mut known = [false; 256];
    for &b in &alpha {
        known[b as usize] = true;
    }
    let run = |space: usize, a: &[u8], b: &[u8], c: &[u8], d: &[u8], ifaces: std::ops::Range<usize>| {
        let jobs: Vec<(u8, u8)> = a.iter().flat_map(|&x| b.iter().map(move |&y| (x, y))).collect();
        par(jobs.len(), |i| {
            let feed = Rc::new(RefCell::new(Feed { hdr: [0; 4], pos: 0, payload: 0 }));
            let mut rdr = Reader::new(HdrTransport(feed.clone(), pat));
            let mut big = vec![0u8; 70000];
            let (x, y) = jobs[i];
            let mut nt = 0;
            for &z in c {
                for &w in d {
                    let h = [x, y, z, w];
                    let odd = h.iter().filter(|&&b| !known[b as usize]).count();
                    if space <= 3 && (odd == 0) == (space == 1) && (odd <= 1) == (space <= 2) && h.iter().filter(|&&b| b.is_ascii_hexdigit()).count() >= 2 {
                        nt += 1;
                    }
                    for f in ifaces.clone() {
                        check_header(rep, [x, y, z, w], &feed, &mut rdr, f, &mut big, pat);
                    }
                }
            }
            nontrivial(nt);
            n.fetch_add((c.len() * d.len() * ifaces.len()) as u64, Ordering::Relaxed);
        });
    };
    run(1, &alpha, &alpha, &alpha, &alpha, 0..4);
    rep.scope("headers over every byte class and class boundary, 4 read interfaces", n.load(Ordering::Relaxed));
    let hex = b"0123456789abcdef";
    for pos in 0..4 {
        let s: Vec<&[u8]> = (0..4).map(|p| if p == pos { &bytes[..] } else { &hex[..] }).collect();
        run(2, s[0], s[1], s[2], s[3], 0..if rep.quick() { 2 } else { 4 });
    }
    rep.scope("…plus headers with one arbitrary byte and three hexadecimal digits", n.load(Ordering::Relaxed));
    if !rep.quick() {
        run(3, &bytes, &bytes, &bytes, &bytes, 0..1);
        run(9, &bytes, &bytes, &bytes, &bytes, 3..4);
        rep.scope("…plus all 2^32 headers through read_packet and the byte reader", n.load(Ordering::Relaxed));
    }
    // Space 2: short streams, every truncation, every way of cutting the transport.
    let menu: Vec<Vec<u8>> = vec![
        b"0000".to_vec(),
        b"0001".to_vec(),
        b"0004".to_vec(),
        b"0005a".to_vec(),
        b"00080000".to_vec(),
        b"0003".to_vec(),
        b"0002".to_vec(),
        b"00:0".to_vec(),
        b"000g".to_vec(),
        b"000A".to_vec(),
        b"fff1".to_vec(),
        b"ffff".to_vec(),
        b"\xff\xff\xff\xff".to_vec(),
    ];
    let depth = 4;
    let mut streams: Vec<Vec<u8>> = vec![vec![]];
    let mut frontier = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &frontier {
            for m in &menu {
                let mut t: Vec<u8> = s.clone();
                t.extend(m);
                next.push(t);
            }
        }
        streams.extend(next.iter().cloned());
        frontier = next;
    }
    let m = AtomicU64::new(0);
    let quick = rep.quick();
    par(streams.len(), |i| {
        let s = &streams[i];
        for cut in 0..=s.len() {
            let s = &s[..cut];
            let exp = decode(s);
            for c in CUTS {
                for f in 0..2 {
                    check_stream(rep, s, c, f, &exp);
                }
            }
            m.fetch_add(2 * CUTS.len() as u64, Ordering::Relaxed);
        }
        let lim = if quick { 10 } else { 12 };
        if s.len() <= lim {
            let exp = decode(s);
            for mask in 0..(1u64 << s.len().saturating_sub(1)) {
                for intr in [false, true] {
                    let c = composition(s.len(), mask, intr);
                    check_stream(rep, s, &c, 0, &exp);
                    m.fetch_add(1, Ordering::Relaxed);
                }
            }
        }
    });
    rep.scope("packet streams x truncations x transports", m.load(Ordering::Relaxed));
    rep.sample("header \"00:0\" must be refused by read_packet, iter and read".into());
    rep.sample("stream \"0005a0001\" cut after byte 7, delivered byte by byte with EINTR before each".into());
    // Space 3: large packets around the limits, in the middle of a stream, each cut near its edges.
    let k = AtomicU64::new(0);
    let sizes: Vec<usize> = vec![0, 1, 2, 1000, 4095, 4096, 8192, 65511, 65514, 65515, 65516];
    let big: &[&[usize]] = &[&[ALL], &[4096], &[65520], &[65519, 1], &[0, 8192, 3], &[60000]];
    par(sizes.len() * sizes.len(), |i| {
        let (a, b) = (sizes[i / sizes.len()], sizes[i % sizes.len()]);
        let mut s = encode(&Pk::Data(pat[..a].to_vec()));
        s.extend(encode(&Pk::Data(pat[7..7 + b].to_vec())));
        s.extend(b"0000");
        let cuts: Vec<usize> = [0, 1, 3, 4, 5, a + 3, a + 4, a + 5, a + 8, a + b + 7, a + b + 8, s.len()].iter().copied().filter(|&x| x <= s.len()).collect();
        for cut in cuts {
            let exp = decode(&s[..cut]);
            for c in big {
                for f in 0..2 {
                    check_stream(rep, &s[..cut], c, f, &exp);
                    k.fetch_add(1, Ordering::Relaxed);
                }
            }
        }
    });
    rep.scope("large packets x truncations x transports", k.load(Ordering::Relaxed));
    // very many packets in a row
    let long = long_streams();
    let l = AtomicU64::new(0);
    par(long.len() * 4, |i| {
        let (s, f) = (&long[i / 4].1, i % 2);
        let exp = decode(s);
        check_stream(rep, s, if i / 2 % 2 == 0 { &[ALL] } else { &[65536, 0, 3] }, f, &exp);
        l.fetch_add(1, Ordering::Relaxed);
    });
    rep.scope("streams of 70 000 packets, of 70 MB", l.load(Ordering::Relaxed));
    // transports that fail
    let fail: Vec<Vec<u8>> = vec![
        b"0005a0000".to_vec(),
        b"00000001".to_vec(),
        b"00040006bc0001".to_vec(),
        [encode(&Pk::Data(pat[..70].to_vec())), b"0000".to_vec()].concat(),
    ];
    let fl = AtomicU64::new(0);
    par(fail.len(), |i| {
        let s = &fail[i];
        for at in 0..=s.len() {
            for kind in FAILURES {
                for max in [ALL, 1, 3] {
                    for once in [false, true] {
                        for iface in 0..2 {
                            fl.fetch_add(1, Ordering::Relaxed);
                            nontrivial((at > 0) as u64);
                            let exp = decode(&s[..at]).0;
                            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                                let mut rdr = Reader::new(Failing { data: s, pos: 0, at, max, kind, failed: false, once });
                                for p in exp.iter().map(Some).chain([None]) {
                                    let q = if iface == 0 { rdr.read_packet() } else { rdr.iter().next().ok_or("the iterator ended although the transport failed")? };
                                    match (p, q) {
                                        (Some(p), Ok(q)) if from_packet(&q)? == *p => (),
                                        (None, Err(e)) if e.io_kind() == kind => (),
                                        (_, Ok(q)) => return Err(format!("delivered {:?}, expected {:?}", from_packet(&q)?, p)),
                                        (_, Err(e)) => return Err(format!("reported {:?} (expected {:?}, then {:?})", e.io_kind(), p, kind)),
                                    }
                                }
                                Ok(())
                            }));
                            let e = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(e)) => e,
                                Err(_) => "panic".into(),
                            };
                            rep.violation("failing transport", &format!("{} failing with {:?} after {} bytes: {}", short_desc(s), kind, at, e), &format!("stream {} failing after {} bytes, reads of {}: {}", show(s), at, max, e));
                        }
                    }
                }
            }
        }
    });
    rep.scope("streams x places and kinds of failures of the transport", fl.load(Ordering::Relaxed));
    let tot = n.load(Ordering::Relaxed) + m.load(Ordering::Relaxed) + k.load(Ordering::Relaxed) + l.load(Ordering::Relaxed) + fl.load(Ordering::Relaxed);
    rep.count("evaluations", tot);
    rep.count("distinct_nontrivial", NONTRIVIAL.load(Ordering::Relaxed));
    rep.text("rule", "every enumerated (stream, truncation, transport script, interface) tuple is distinct by construction; each is decoded by the real reader and compared with an independent decoder; a header counts as non-trivial, once for all interfaces, when at least two of its digits are hexadecimal, any other stream when it is longer than a header");
}

// ---------------------------------------------------------------------------------------------
// C02

#[allow(clippy::too_many_arguments)]
fn check_bytes(rep: &Report, stream: &[u8], exp: &(Vec<Pk>, End), cuts: &[usize], bufs: &[usize], mixed: bool, scratch: &mut [u8]) {
    if exp.0.iter().any(|p| matches!(p, Pk::Data(d) if !d.is_empty())) {
        nontrivial(1);
    }
    // sections: payload up to each flush/delim
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut rdr = Reader::new(Transport::new(stream, cuts));
        let mut pk = exp.0.iter();
        let mut call = 0;
        let mut section = 0;
        loop {
            // gather the next section
            if mixed && section % 2 == 1 {
                // read this section through read_packet instead
                loop {
                    match (pk.next(), rdr.read_packet()) {
                        (Some(p), Ok(q)) => {
                            if from_packet(&q)? != *p {
                                return Err(format!("section {}: read_packet after end-of-file does not continue behind the terminating packet", section));
                            }
                            if !matches!(p, Pk::Data(_)) {
                                break;
                            }
                        }
                        (None, Err(_)) => return Ok(()),
                        (None, Ok(_)) => return Err("read_packet delivered a packet that is not there".into()),
                        (Some(_), Err(e)) => return Err(format!("section {}: read_packet failed: {}", section, e)),
                    }
                }
                section += 1;
                continue;
            }
            let mut want: Vec<u8> = vec![];
            let mut term = None;
            for p in pk.by_ref() {
                match p {
                    Pk::Data(d) => want.extend_from_slice(d),
                    x => {
                        term = Some(x);
                        break;
                    }
                }
            }
            let mut off = 0;
            loop {
                let b = bufs[call % bufs.len()];
                call += 1;
                for x in scratch[..b].iter_mut() {
                    *x = 0xEE
                }
                let r = rdr.read(&mut scratch[..b]);
                if b == 0 {
                    match r {
                        Ok(0) => continue,
                        Ok(n) => return Err(format!("{} bytes into an empty buffer", n)),
                        Err(e) if term.is_none() => {
                            let _ = e;
                            return Ok(());
                        }
                        Err(e) => return Err(format!("error on an empty buffer: {}", e)),
                    }
                }
                match r {
                    Ok(0) => {
                        if off < want.len() {
                            return Err(format!("section {}: end-of-file after {} of {} bytes", section, off, want.len()));
                        }
                        if term.is_none() {
                            return Err(format!("section {}: {:?} surfaced as end-of-file", section, exp.1));
                        }
                        break;
                    }
                    Ok(n) => {
                        if n > b || off + n > want.len() || scratch[..n] != want[off..off + n] {
                            return Err(format!("section {}: wrong bytes at offset {} (got {} of {} remaining)", section, off, n, want.len() - off));
                        }
                        off += n;
                    }
                    Err(e) => {
                        if term.is_some() || off < want.len() {
                            return Err(format!("section {}: error {:?} after {} of {} bytes", section, e.to_string(), off, want.len()));
                        }
                        return Ok(());
                    }
                }
            }
            section += 1;
        }
    }));
    let msg = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(_) => "the reader panicked".into(),
    };
    rep.violation(
        if bufs.contains(&0) { "empty-buffer" } else { "bytes" },
        &format!("reading {} with buffers {:?}: {}", short_desc(stream), bufs, msg),
        &format!("stream: {}\nread sizes of the transport (0 = EINTR): {:?}\ncaller buffer sizes (repeating): {:?}\nodd sections through read_packet: {}\n{}", show(stream), &cuts[..cuts.len().min(40)], bufs, mixed, msg),
    );
}

fn seqs<T: Clone>(menu: &[T], depth: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![];
    let mut fr: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..depth {
        let mut nx = vec![];
        for s in &fr {
            for m in menu {
                let mut t = s.clone();
                t.push(m.clone());
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        fr = nx;
    }
    out
}

fn c02(rep: &Report) {
    let pat = pattern(200000);
    let bufseqs: Vec<Vec<usize>> = seqs(&[1usize, 2, 3, 7, 65516], if rep.quick() { 2 } else { 3 });
    let mut bufseqs0 = seqs(&[0usize, 1, 2, 70000], 3);
    bufseqs0.retain(|v| v.contains(&0) && v.iter().any(|&x| x > 0));
    let menu: Vec<i64> = vec![-1, -2, 0, 1, 2, 5];
    let depth = if rep.quick() { 5 } else { 6 };
    let all = seqs(&menu, depth);
    let build = |s: &[i64]| -> Vec<u8> {
        let mut v = vec![];
        let mut o = 0;
        for &x in s {
            match x {
                -1 => v.extend(b"0000"),
                -2 => v.extend(b"0001"),
                n => {
                    v.extend(encode(&Pk::Data(pat[o..o + n as usize].to_vec())));
                    o += n as usize;
                }
            }
        }
        v
    };
    let n = AtomicU64::new(0);
    let quick = rep.quick();
    let ncuts = if quick { 6 } else { CUTS.len() };
    par(all.len(), |i| {
        let s = build(&all[i]);
        let exp = decode(&s);
        let mut sc = vec![0u8; 70000];
        let long = all[i].len() > 4;
        for (j, b) in bufseqs.iter().chain(bufseqs0.iter()).enumerate() {
            if long && j % 7 != i % 7 {
                continue;
            }
            for c in &CUTS[..ncuts] {
                check_bytes(rep, &s, &exp, c, b, false, &mut sc);
                n.fetch_add(1, Ordering::Relaxed);
            }
            check_bytes(rep, &s, &exp, CUTS[1], b, true, &mut sc);
            n.fetch_add(1, Ordering::Relaxed);
        }
    });
    rep.scope("short packet sequences x buffer sequences x transports (sequences longer than 4: every 7th buffer sequence)", n.load(Ordering::Relaxed));
    // truncations and malformed headers at every place
    let d2 = if quick { 3 } else { 4 };
    let all2 = seqs(&menu, d2);
    let tails: &[&[u8]] = &[b"", b"0", b"000", b"0003", b"fff1", b"00:0", b"0006a", b"0005"];
    let m = AtomicU64::new(0);
    par(all2.len(), |i| {
        let base = build(&all2[i]);
        let mut sc = vec![0u8; 70000];
        for t in tails {
            let mut s = base.clone();
            s.extend_from_slice(t);
            let exp = decode(&s);
            for b in &[vec![1usize], vec![2], vec![65516], vec![3, 70000]] {
                for c in &CUTS[..3] {
                    check_bytes(rep, &s, &exp, c, b, false, &mut sc);
                    m.fetch_add(1, Ordering::Relaxed);
                }
            }
        }
    });
    // every way of cutting the transport, for short streams
    let all3 = seqs(&menu, 2);
    par(all3.len(), |i| {
        let s = build(&all3[i]);
        let exp = decode(&s);
        let mut sc = vec![0u8; 70000];
        if s.len() <= if quick { 10 } else { 16 } {
            for mask in 0..(1u64 << (s.len() - 1)) {
                for intr in [false, true] {
                    let c = composition(s.len(), mask, intr);
                    for b in &[vec![1usize], vec![2, 65516], vec![65516]] {
                        check_bytes(rep, &s, &exp, &c, b, false, &mut sc);
                        m.fetch_add(1, Ordering::Relaxed);
                    }
                }
            }
        }
    });
    rep.scope("truncated and malformed streams; all cuts of short streams", m.load(Ordering::Relaxed));
    // large packets
    let k = AtomicU64::new(0);
    let lmenu: Vec<i64> = vec![-1, 0, 1, 4096, 65515, 65516];
    let lall = seqs(&lmenu, 3);
    let lb: Vec<Vec<usize>> = vec![
        vec![65515], vec![65516], vec![65517], vec![70000], vec![8192], vec![4096, 65516], vec![65516, 1], vec![1, 65516], vec![1, 2, 70000], vec![32768, 65515, 5],
    ];
    par(lall.len(), |i| {
        let mut s = build(&lall[i]);
        if lall[i].last() != Some(&-1) {
            s.extend(b"0001");
        }
        let exp = decode(&s);
        let mut sc = vec![0u8; 70000];
        for b in &lb {
            for c in [&[ALL][..], &[65536][..], &[8192, 0][..], &[65519, 1][..]] {
                check_bytes(rep, &s, &exp, c, b, false, &mut sc);
                k.fetch_add(1, Ordering::Relaxed);
            }
        }
    });
    // every packet size, followed by a one-byte packet
    par(MAXP + 1, |n| {
        let mut s = build(&[n as i64, 1]);
        s.extend(b"0000");
        let exp = decode(&s);
        let mut sc = vec![0u8; 70000];
        for b in [&[65515][..], &[65516], &[4096, 65536], &[32768]] {
            check_bytes(rep, &s, &exp, &[65536], b, false, &mut sc);
            k.fetch_add(1, Ordering::Relaxed);
        }
    });
    rep.scope("large packets (and every single packet size) x buffer sequences x transports", k.load(Ordering::Relaxed));
    let long = long_streams();
    let l = AtomicU64::new(0);
    let bl: [&[usize]; 4] = [&[1], &[65515], &[65516], &[70_000]];
    par(long.len() * 8, |i| {
        let s = &long[i / 8].1;
        let mut sc = vec![0u8; 70000];
        if s.len() < 10_000_000 || i % 8 != 0 {
            check_bytes(rep, s, &decode(s), &[65536], bl[i % 4], i / 4 % 2 == 1, &mut sc);
            l.fetch_add(1, Ordering::Relaxed);
        }
    });
    rep.scope("streams of 70 000 packets, of 70 MB", l.load(Ordering::Relaxed));
    // transports that fail
    let fail: Vec<Vec<u8>> = vec![
        b"0005a0000".to_vec(),
        b"00000001".to_vec(),
        b"00040006bc0001".to_vec(),
        [encode(&Pk::Data(pat[..70].to_vec())), encode(&Pk::Data(pat[..9].to_vec())), b"0000".to_vec()].concat(),
    ];
    let fl = AtomicU64::new(0);
    par(fail.len(), |i| {
        let s = &fail[i];
        for at in 0..=s.len() {
            for kind in FAILURES {
                for max in [ALL, 1, 3] {
                    for once in [false, true] {
                        for size in [1usize, 2, 30, 65515, 65516, 70_000] {
                            fl.fetch_add(1, Ordering::Relaxed);
                            nontrivial((at > 0) as u64);
                            let exp = decode(&s[..at]).0;
                            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
                                let mut rdr = Reader::new(Failing { data: s, pos: 0, at, max, kind, failed: false, once });
                                let mut buf = vec![0u8; size];
                                let mut left = &exp[..];
                                loop {
                                    let n = left.iter().position(|p| !matches!(p, Pk::Data(_)));
                                    let want: Vec<u8> = left[..n.unwrap_or(left.len())].iter().flat_map(|p| if let Pk::Data(d) = p { &d[..] } else { &[] }).copied().collect();
                                    let mut got = vec![];
                                    let end = loop {
                                        match rdr.read(&mut buf) {
                                            Ok(0) => break None,
                                            Ok(k) => got.extend_from_slice(&buf[..k]),
                                            Err(e) => break Some(e),
                                        }
                                    };
                                    if got != want {
                                        return Err(format!("got {} bytes {}, expected {}", got.len(), show(&got), show(&want)));
                                    }
                                    match (end, n) {
                                        (None, Some(n)) => left = &left[n + 1..],
                                        (Some(e), None) if e.kind() == kind => return Ok(()),
                                        (None, None) => return Err("the failure surfaced as end-of-file".into()),
                                        (Some(e), _) => return Err(format!("reported {:?}", e.kind())),
                                    }
                                }
                            }));
                            let e = match r {
                                Ok(Ok(())) => continue,
                                Ok(Err(e)) => e,
                                Err(_) => "panic".into(),
                            };
                            rep.violation("failing transport", &format!("{} failing with {:?} after {} bytes, buffers of {}: {}", short_desc(s), kind, at, size, e), &format!("stream {} failing after {} bytes, reads of {}, buffers of {}: {}", show(s), at, max, size, e));
                        }
                    }
                }
            }
        }
    });
    rep.scope("streams x places and kinds of failures of the transport x buffers", fl.load(Ordering::Relaxed));
    let tot = n.load(Ordering::Relaxed) + m.load(Ordering::Relaxed) + k.load(Ordering::Relaxed) + l.load(Ordering::Relaxed) + fl.load(Ordering::Relaxed);
    rep.count("evaluations", tot);
    rep.count("distinct_nontrivial", NONTRIVIAL.load(Ordering::Relaxed));
    rep.text("rule", "every enumerated (packet sequence, tail, buffer-size sequence, transport script) tuple is distinct by construction and read to its end with the real reader, compared byte by byte with an independent decoder; it is non-trivial when there is payload to deliver");
    rep.sample("packets [2, 0, flush, 5] read with buffers 3,1,3,1,... over a byte-by-byte transport with EINTR".into());
    rep.sample("packets [65516, 1] + delim read with buffers 1,65516,... ".into());
}

// ---------------------------------------------------------------------------------------------
// C03

/// Accepts at most caps[i % len] bytes per call; 0 stands for an interrupted call.
struct Sink<'a> {
    out: Vec<u8>,
    caps: &'a [usize],
    call: usize,
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = self.caps[self.call % self.caps.len()];
        self.call += 1;
        if c == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = c.min(buf.len());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum W {
    /// byte-stream write of so many bytes
    Bytes(usize),
    /// one packet
    Pkt(Pk0),
    Flush,
}
#[derive(Clone, Debug)]
enum Pk0 {
    Flush,
    Delim,
    Data(usize),
}

fn check_write(rep: &Report, ops: &[W], caps: &[usize], pat: &[u8]) {
    if ops.iter().any(|o| !matches!(o, W::Flush | W::Bytes(0))) {
        nontrivial(1);
    }
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        let mut sink = Sink { out: vec![], caps, call: 0 };
        // expected: groups of either exact packets or byte runs
        let mut exp: Vec<Pk> = vec![];
        let mut o = 0;
        {
            let mut w = Writer::new(&mut sink);
            for (i, op) in ops.iter().enumerate() {
                match op {
                    W::Bytes(n) => {
                        let d = &pat[o..o + n];
                        let mut off = 0;
                        let mut rounds = 0;
                        while off < *n {
                            match w.write(&d[off..]) {
                                Ok(0) => return Err(format!("op {}: write returned 0", i)),
                                Ok(k) if off + k <= *n => off += k,
                                Ok(k) => return Err(format!("op {}: write of {} returned {}", i, n - off, k)),
                                Err(e) => return Err(format!("op {}: write failed: {}", i, e)),
                            }
                            rounds += 1;
                            if rounds > n + 2 {
                                return Err("no progress".into());
                            }
                        }
                        if *n == 0 {
                            w.write_all(b"").map_err(|e| e.to_string())?;
                        }
                        exp.push(Pk::Data(d.to_vec()));
                        o += n;
                    }
                    W::Flush => w.flush().map_err(|e| e.to_string())?,
                    W::Pkt(p) => {
                        let (pkt, want) = match p {
                            Pk0::Flush => (Packet::new(PacketType::Flush, b""), Some(Pk::Flush)),
                            Pk0::Delim => (Packet::new(PacketType::Delim, b""), Some(Pk::Delim)),
                            Pk0::Data(n) => {
                                let d = pat[o..o + n].to_vec();
                                o += n;
                                (Packet::new(PacketType::Data(*n), &d), if *n <= MAXP { Some(Pk::Data(d)) } else { None })
                            }
                        };
                        match (w.write_packet(&pkt), want) {
                            (Ok(_), Some(p)) => exp.push(p),
                            (Err(_), None) => (),
                            (Ok(_), None) => return Err(format!("op {}: a packet without legal encoding was not refused", i)),
                            (Err(e), Some(_)) => return Err(format!("op {}: legal packet refused: {}", i, e)),
                        }
                    }
                }
            }
        }
        let (got, end) = decode(&sink.out);
        if end != End::Clean {
            return Err(format!("the output is not a sequence of legal packets ({:?} after {} packets)", end, got.len()));
        }
        // Byte-stream writes may be split into packets at any place, explicit packets may not.
        let mut gi = 0;
        let mut oi = 0;
        for (i, op) in ops.iter().enumerate() {
            match op {
                W::Flush => (),
                W::Bytes(n) => {
                    let want = match &exp[oi] {
                        Pk::Data(d) => d,
                        _ => unreachable!(),
                    };
                    oi += 1;
                    let mut have: Vec<u8> = vec![];
                    while have.len() < *n {
                        match got.get(gi) {
                            Some(Pk::Data(d)) => have.extend_from_slice(d),
                            x => return Err(format!("op {}: expected payload, found {:?}", i, x.map(|_| "another packet"))),
                        }
                        gi += 1;
                    }
                    if have != *want {
                        return Err(format!("op {}: payload differs from the bytes written", i));
                    }
                }
                W::Pkt(Pk0::Data(n)) if *n > MAXP => (),
                W::Pkt(_) => {
                    // empty packets produced by byte writes would be harmless to a byte reader
                    if got.get(gi) != Some(&exp[oi]) {
                        return Err(format!("op {}: packet not reproduced", i));
                    }
                    oi += 1;
                    gi += 1;
                }
            }
        }
        if gi != got.len() {
            return Err("extra packets at the end".into());
        }
        // and the real reader returns the same packets
        let mut rdr = Reader::new(&sink.out[..]);
        for p in &got {
            let q = rdr.read_packet().map_err(|e| format!("reader refuses the output: {}", e))?;
            if from_packet(&q)? != *p {
                return Err("reader returns a different packet".into());
            }
        }
        if rdr.read_packet().is_ok() {
            return Err("reader returns an extra packet".into());
        }
        Ok(())
    }));
    let msg = match r {
        Ok(Ok(())) => return,
        Ok(Err(m)) => m,
        Err(_) => "the writer panicked".into(),
    };
    let over = ops.iter().any(|o| matches!(o, W::Pkt(Pk0::Data(n)) if *n > MAXP));
    rep.violation(
        if over { "oversized-packet" } else { "write" },
        &format!("writing {:?}: {}", ops, msg),
        &format!("operations: {:?}\nbytes accepted per call by the underlying writer (0 = EINTR): {:?}\n{}", ops, caps, msg),
    );
}

/// The underlying writer takes `at` bytes, then nothing (failing with a kind, or taking 0 bytes), for
/// ever or only once.
struct FailSink {
    once: bool,
    out: Vec<u8>,
    at: usize,
    max: usize,
    kind: Option<io::ErrorKind>,
    failed: bool,
}
impl Write for FailSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let room = if self.once && self.failed { ALL } else { self.at - self.out.len() };
        let n = self.max.min(buf.len()).min(room);
        if n == 0 && !buf.is_empty() {
            self.failed = true;
            return match self.kind {
                Some(k) => Err(k.into()),
                None => Ok(0),
            };
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// What is reported as written is there, what is there is what was to be written, and a failure is
/// reported as what it is.
fn failing_write(ops: &[W], at: usize, kind: Option<io::ErrorKind>, max: usize, once: bool, pat: &[u8]) -> Result<(), String> {
    const FLUSH: u16 = 256;
    const DELIM: u16 = 257;
    let mut sink = FailSink { once, out: vec![], at, max, kind, failed: false };
    let mut exp: Vec<u16> = vec![];
    let mut acked = 0;
    let mut error: Option<io::ErrorKind> = None;
    let mut o = 0;
    {
        let mut w = Writer::new(&mut sink);
        for op in ops {
            if error.is_some() {
                break;
            }
            match op {
                W::Bytes(n) => {
                    let d = &pat[o..o + n];
                    o += n;
                    exp.extend(d.iter().map(|&b| b as u16));
                    let mut off = 0;
                    while off < *n && error.is_none() {
                        match w.write(&d[off..]) {
                            Ok(0) => return Err("write returned 0".into()),
                            Ok(k) => {
                                off += k;
                                acked += k;
                            }
                            Err(e) => error = Some(e.kind()),
                        }
                    }
                }
                W::Flush => w.flush().map_err(|e| e.to_string())?,
                W::Pkt(p) => {
                    let (pkt, ev): (Packet, Vec<u16>) = match p {
                        Pk0::Flush => (Packet::new(PacketType::Flush, b""), vec![FLUSH]),
                        Pk0::Delim => (Packet::new(PacketType::Delim, b""), vec![DELIM]),
                        Pk0::Data(n) => {
                            let d = &pat[o..o + n];
                            o += n;
                            (Packet::new(PacketType::Data(*n), d), d.iter().map(|&b| b as u16).collect())
                        }
                    };
                    exp.extend(&ev);
                    match w.write_packet(&pkt) {
                        Ok(_) => acked += ev.len(),
                        Err(e) => error = Some(e.io_kind()),
                    }
                }
            }
        }
    }
    let (got, end) = decode(&sink.out);
    if end == End::Bad {
        return Err("the output is not made of legal packets".into());
    }
    let got: Vec<u16> = got
        .iter()
        .flat_map(|p| match p {
            Pk::Flush => vec![FLUSH],
            Pk::Delim => vec![DELIM],
            Pk::Data(d) => d.iter().map(|&b| b as u16).collect(),
        })
        .collect();
    if got.len() > exp.len() || got[..] != exp[..got.len()] {
        return Err("the output differs from what was written".into());
    }
    if acked > got.len() {
        return Err(format!("{} bytes and packets were reported as written, the output has {}", acked, got.len()));
    }
    match (sink.failed, error) {
        (false, None) if got.len() == exp.len() && end == End::Clean => Ok(()),
        (true, Some(k)) if Some(k) == sink.kind || sink.kind.is_none() => Ok(()),
        // whoever gets everything across in spite of a failure need not report it
        (true, None) if once && got.len() == exp.len() && end == End::Clean => Ok(()),
        (f, e) => Err(format!("the underlying writer failed: {}, reported {:?}", f, e)),
    }
}

fn c03(rep: &Report) {
    let pat = pattern(1_300_000);
    let n = AtomicU64::new(0);
    // every length of one byte-stream write
    let maxlen = if rep.quick() { 12000 } else { 140000 };
    let mut lens: Vec<usize> = (0..maxlen).collect();
    if rep.quick() {
        lens.extend(64000..67000);
    }
    for k in 1..=3 {
        for d in 0..=40 {
            lens.push((k * MAXP + d).saturating_sub(20));
        }
    }
    lens.extend([65520, 65535, 65536, 65537, 70000, 131072, 200000]);
    par(lens.len(), |i| {
        check_write(rep, &[W::Bytes(lens[i])], &[ALL], &pat);
        n.fetch_add(1, Ordering::Relaxed);
        if lens[i] < 3000 || lens[i] % 97 == 0 {
            for caps in [&[1usize][..], &[0, 3], &[4], &[5, 0, 0, 1]] {
                check_write(rep, &[W::Bytes(lens[i])], caps, &pat);
                n.fetch_add(1, Ordering::Relaxed);
            }
        }
        for caps in [&[65520usize][..], &[65519, 1], &[0, 8192]] {
            check_write(rep, &[W::Bytes(lens[i])], caps, &pat);
            n.fetch_add(1, Ordering::Relaxed);
        }
    });
    rep.scope("byte-stream writes of every length", n.load(Ordering::Relaxed));
    // every packet size, legal and not
    let top = 70000;
    let step = if rep.quick() { 13 } else { 1 };
    let mut sizes: Vec<usize> = (0..top).step_by(step).collect();
    sizes.extend(65400..65700);
    sizes.extend([131072, 131068, 1 << 20, 65536 * 2 + 5]);
    let m = AtomicU64::new(0);
    par(sizes.len(), |i| {
        check_write(rep, &[W::Pkt(Pk0::Data(sizes[i]))], &[ALL], &pat);
        check_write(rep, &[W::Pkt(Pk0::Delim), W::Pkt(Pk0::Data(sizes[i])), W::Pkt(Pk0::Data(3)), W::Pkt(Pk0::Flush)], &[0, 4096], &pat);
        m.fetch_add(2, Ordering::Relaxed);
    });
    rep.scope("single packets of every size up to 70000", m.load(Ordering::Relaxed));
    // mixed operation sequences
    let menu = vec![W::Bytes(0), W::Bytes(1), W::Bytes(5), W::Bytes(65517), W::Flush, W::Pkt(Pk0::Flush), W::Pkt(Pk0::Delim), W::Pkt(Pk0::Data(0)), W::Pkt(Pk0::Data(2)), W::Pkt(Pk0::Data(65516)), W::Pkt(Pk0::Data(65517))];
    let all = seqs(&menu, if rep.quick() { 3 } else { 4 });
    let k = AtomicU64::new(0);
    par(all.len(), |i| {
        for caps in [&[ALL][..], &[1000, 0], &[0, 65519, 2]] {
            check_write(rep, &all[i], caps, &pat);
            k.fetch_add(1, Ordering::Relaxed);
        }
        let big = all[i].iter().any(|o| matches!(o, W::Bytes(n) | W::Pkt(Pk0::Data(n)) if *n > 100));
        if !big {
            for caps in [&[1usize][..], &[0, 1], &[3, 0, 2]] {
                check_write(rep, &all[i], caps, &pat);
                k.fetch_add(1, Ordering::Relaxed);
            }
        }
    });
    rep.scope("operation sequences x underlying-writer behaviours", k.load(Ordering::Relaxed));
    // very many operations
    let l = AtomicU64::new(0);
    let many: Vec<Vec<W>> = vec![(0..70_000).map(|_| W::Bytes(1)).collect(), (0..70_000).map(|_| W::Pkt(Pk0::Data(1))).collect(), (0..70_000).map(|_| W::Pkt(Pk0::Flush)).collect(), (0..70_000).map(|i| if i % 2 == 0 { W::Bytes(3) } else { W::Pkt(Pk0::Delim) }).collect(), vec![W::Bytes(1_200_000)]];
    par(many.len(), |i| {
        check_write(rep, &many[i], &[ALL], &pat);
        l.fetch_add(1, Ordering::Relaxed);
    });
    rep.scope("70 000 operations in a row", l.load(Ordering::Relaxed));
    // underlying writers that fail
    let small: Vec<W> = vec![W::Bytes(1), W::Bytes(30), W::Flush, W::Pkt(Pk0::Flush), W::Pkt(Pk0::Delim), W::Pkt(Pk0::Data(0)), W::Pkt(Pk0::Data(2))];
    let mut fops = seqs(&small, 3);
    fops.extend([vec![W::Bytes(140_000)], vec![W::Bytes(65_517), W::Bytes(3)], vec![W::Pkt(Pk0::Data(65_516)), W::Bytes(1)]]);
    let fl = AtomicU64::new(0);
    par(fops.len(), |i| {
        let total: usize = fops[i].iter().map(|o| match o { W::Bytes(n) => n + 4 * n.div_ceil(MAXP), W::Flush => 0, W::Pkt(Pk0::Data(n)) => n + 4, W::Pkt(_) => 4 }).sum();
        let places: Vec<usize> = if total < 200 { (0..=total + 1).collect() } else { (0..6).chain(65_515..65_530).chain(131_035..131_045).chain(total - 2..total + 2).collect() };
        for at in places {
            for kind in FAILURES.iter().map(|&k| Some(k)).chain([None]) {
                for (max, once) in [(ALL, false), (1, false), (3, false), (ALL, true), (3, true)] {
                    fl.fetch_add(1, Ordering::Relaxed);
                    nontrivial(1);
                    let e = match catch_unwind(AssertUnwindSafe(|| failing_write(&fops[i], at, kind, max.max(total / 1000), once, &pat))) {
                        Ok(Ok(())) => continue,
                        Ok(Err(e)) => e,
                        Err(_) => "panic".into(),
                    };
                    rep.violation("failing writer", &format!("writing {:?}, failing with {:?} after {} bytes: {}", fops[i], kind, at, e), &format!("operations {:?}, the underlying writer takes {} bytes at a time and fails with {:?} (None: takes nothing) after {}{}: {}", fops[i], max, kind, at, if once { ", once" } else { "" }, e));
                }
            }
        }
    });
    rep.scope("operation sequences x places and kinds of failures of the underlying writer", fl.load(Ordering::Relaxed));
    let tot = n.load(Ordering::Relaxed) + m.load(Ordering::Relaxed) + k.load(Ordering::Relaxed) + l.load(Ordering::Relaxed) + fl.load(Ordering::Relaxed);
    rep.count("evaluations", tot);
    rep.count("distinct_nontrivial", NONTRIVIAL.load(Ordering::Relaxed));
    rep.text("rule", "every enumerated (operation sequence, underlying-writer script) pair is distinct by construction; output of the real writer is decoded by an independent decoder and by the real reader; it is non-trivial when something has to be encoded");
    rep.sample("write_packet(Data of 65517 bytes) must be refused without output, then Data(3), Flush follow normally".into());
    rep.sample("write of 65517 bytes over a sink taking 65519 and 2 bytes alternately with EINTR".into());
}

// ---------------------------------------------------------------------------------------------
// C27

fn io_kinds() -> Vec<io::ErrorKind> {
    use io::ErrorKind::*;
    vec![
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::NoSuchRevision, ErrorKind::Conflict, ErrorKind::GitError, ErrorKind::PCREError, ErrorKind::IOError,
    ErrorKind::BadPktlineHeader, ErrorKind::InvalidPacket, ErrorKind::UnexpectedPacket, ErrorKind::InvalidLFSOid,
    ErrorKind::InvalidInteger, ErrorKind::ParseError, ErrorKind::UnknownCommand, ErrorKind::MissingData,
    ErrorKind::ExtraData, ErrorKind::CorruptData, ErrorKind::NotAllowed, ErrorKind::InvalidPath, ErrorKind::DowncastError,
];

/// A reader that fails once with the given error.
struct FailRead(Option<io::Error>);
impl Read for FailRead {
    fn read(&mut self, _b: &mut [u8]) -> io::Result<usize> {
        match self.0.take() {
            Some(e) => Err(e),
            None => Ok(0),
        }
    }
}
struct FailWrite(Option<io::Error>);
impl Write for FailWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match self.0.take() {
            Some(e) => Err(e),
            None => Ok(b.len()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Forward an I/O error through one layer. Each layer may forward or convert, not reinterpret.
fn layer(l: usize, e: io::Error) -> Option<io::Error> {
    let k = e.kind();
    match l {
        // convert to the crate's error and back
        0 => Some(io::Error::from(Error::from(e))),
        // through the packet reader, as packets
        1 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e); // retried by the reader by contract
            }
            Reader::new(FailRead(Some(e))).read_packet().err().map(|e| e.into())
        }
        // through the packet reader, as bytes
        2 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e);
            }
            let mut b = [0u8; 10];
            Reader::new(FailRead(Some(e))).read(&mut b).err()
        }
        // through the packet writer
        3 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e);
            }
            Writer::new(FailWrite(Some(e))).write(b"abc").err()
        }
        4 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e);
            }
            Writer::new(FailWrite(Some(e))).write_packet(&Packet::new(PacketType::Flush, b"")).err().map(|e| e.into())
        }
        // through a standard adapter
        5 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e);
            }
            let mut v = vec![];
            io::BufReader::new(FailRead(Some(e))).read_to_end(&mut v).err()
        }
        // wrapped explicitly as the cause
        6 => Some(Error::new(ErrorKind::IOError, Some(e)).into()),
        // through the packet reader with a large buffer
        7 => {
            if k == io::ErrorKind::Interrupted {
                return Some(e);
            }
            let mut b = vec![0u8; 70000];
            Reader::new(FailRead(Some(e))).read(&mut b).err()
        }
        _ => unreachable!(),
    }
}
const NLAYERS: usize = 8;

fn c27(rep: &Report) {
    let n = AtomicU64::new(0);
    let bad = |key: &str, what: String| rep.violation(key, &what, &what);
    // severity
    for &k in KINDS {
        let variants: Vec<Error> = vec![
            Error::new_simple(k),
            Error::from_message(k, "x"),
            Error::new(k, Some(io::Error::from(io::ErrorKind::NotFound))),
            Error::new(k, Some("text")),
        ];
        for e in variants {
            n.fetch_add(1, Ordering::Relaxed);
            let want = !matches!(k, ErrorKind::NoSuchRevision | ErrorKind::Conflict);
            let fatal = e.fatal();
            let st = e.exit_status();
            if fatal != (st as i32 == 2) || fatal != want {
                bad("severity", format!("{:?}: fatal() = {}, exit status {:?}, expected fatal = {}", k, fatal, st, want));
            }
            if !want && st != ExitStatus::NonFatal {
                bad("severity", format!("{:?}: exit status {:?}", k, st));
            }
            if e.kind() != k {
                bad("kind", format!("{:?} became {:?}", k, e.kind()));
            }
        }
    }
    // git errors keep their severity
    for (c, k) in [(git2::ErrorCode::NotFound, ErrorKind::NoSuchRevision), (git2::ErrorCode::Conflict, ErrorKind::Conflict), (git2::ErrorCode::GenericError, ErrorKind::GitError), (git2::ErrorCode::Exists, ErrorKind::GitError), (git2::ErrorCode::Ambiguous, ErrorKind::GitError), (git2::ErrorCode::InvalidSpec, ErrorKind::GitError), (git2::ErrorCode::Locked, ErrorKind::GitError)] {
        for cl in [git2::ErrorClass::Reference, git2::ErrorClass::Os, git2::ErrorClass::Odb, git2::ErrorClass::None] {
            n.fetch_add(1, Ordering::Relaxed);
            let e: Error = git2::Error::new(c, cl, "x").into();
            if e.kind() != k {
                bad("git", format!("git error {:?} became {:?}, expected {:?}", c, e.kind(), k));
            }
        }
    }
    // chains of layers
    let depth = if rep.quick() { 4 } else { 6 };
    let mut sources: Vec<(String, Box<dyn Fn() -> io::Error + Sync>)> = vec![];
    for k in io_kinds() {
        sources.push((format!("{:?}", k), Box::new(move || io::Error::from(k))));
        sources.push((format!("{:?} with message", k), Box::new(move || io::Error::new(k, "message"))));
    }
    for errno in 1..134 {
        sources.push((format!("errno {}", errno), Box::new(move || io::Error::from_raw_os_error(errno))));
    }
    for &k in KINDS {
        sources.push((format!("crate error {:?}", k), Box::new(move || Error::new_simple(k).into())));
    }
    let chains: Vec<Vec<usize>> = {
        let m: Vec<usize> = (0..NLAYERS).collect();
        seqs(&m, depth)
    };
    par(sources.len(), |i| {
        let (name, src) = &sources[i];
        let want = src().kind();
        for ch in &chains {
            n.fetch_add(1, Ordering::Relaxed);
            if !ch.is_empty() {
                nontrivial(1);
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut e = src();
                for &l in ch {
                    e = match layer(l, e) {
                        Some(e) => e,
                        None => return Err("the error was swallowed".to_string()),
                    };
                    if e.kind() != want {
                        return Err(format!("kind became {:?}", e.kind()));
                    }
                    let _ = e.to_string();
                }
                let e = Error::from(e);
                if e.io_kind() != want {
                    return Err(format!("io_kind() is {:?}", e.io_kind()));
                }
                Ok(())
            }));
            match r {
                Ok(Ok(())) => (),
                Ok(Err(m)) => bad("conversion", format!("{} through layers {:?}: {} instead of {:?}", name, ch, m, want)),
                Err(_) => bad("conversion", format!("{} through layers {:?}: panic", name, ch)),
            }
        }
    });
    rep.scope("error sources x chains of conversions and forwarding layers", n.load(Ordering::Relaxed));
    rep.count("evaluations", n.load(Ordering::Relaxed));
    rep.count("distinct_nontrivial", NONTRIVIAL.load(Ordering::Relaxed));
    rep.text("rule", "all crate error kinds x construction variants for severity; all standard I/O kinds, errno values 1..133 and crate kinds x all sequences of conversion/forwarding layers up to the depth; each is distinct by construction; a case is non-trivial when the error passes at least one layer");
    rep.sample("errno 2 (ENOENT) -> Error -> io::Error -> packet byte reader -> Error::io_kind() must be NotFound".into());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if a.get(2).map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { Tier::Quick };
    std::panic::set_hook(Box::new(|_| {}));
    let rep = Report::new(&a[1], tier, "exploration");
    match a[1].as_str() {
        "C01" => c01(&rep),
        "C02" => c02(&rep),
        "C03" => c03(&rep),
        "C27" => c27(&rep),
        x => {
            eprintln!("unknown check {}", x);
            std::process::exit(2);
        }
    }
    std::process::exit(rep.finish());
}
