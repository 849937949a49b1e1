//! Checks on single sessions and histories of sessions, run one after another: the input space is
//! enumerated within bounds and every answer and every store is compared with the model.
use crate::model::*;
use crate::proto::*;
use crate::tracer;
use crate::vutil::*;
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::Arc;

pub fn names(reqs: &[&Request]) -> String {
    reqs.iter().map(|r| r.name.as_str()).collect::<Vec<_>>().join("; ")
}

pub fn detail(mode: &str, reqs: &str, input: &[u8], o: &Outcome, err: &str) -> String {
    format!(
        "session: git-lfs-transfer r.git {}\nrequests: {}\n\ninput ({} bytes):\n{}\n\noutput ({} bytes):\n{}\n\nstderr:\n{}\nexit: {:?} signal: {:?} timeout: {}\n\n{}",
        mode, reqs, input.len(), show(input), o.out.len(), show(&o.out), show(&o.err), o.code, o.signal, o.timeout, err
    )
}

/// A prepared store: two objects, two held locks.
pub struct Base {
    pub a: String,
    pub b: String,
    pub absent: String,
}
pub const DATA_A: &[u8] = b"content of A: @@SECRET-A@@\n";
pub const DATA_B: &[u8] = b"@@SECRET-B@@";
pub const HELD: &[u8] = b"held";
pub const HELD2: &[u8] = b"other/held";
pub const T_HELD: i64 = 1_234_567_890;

pub fn lock_content(t: i64, path: &[u8]) -> Vec<u8> {
    let mut v = format!("v1:{}:", t).into_bytes();
    v.extend_from_slice(path);
    v
}

impl Base {
    pub fn new() -> Base {
        Base { a: oid_of(DATA_A), b: oid_of(DATA_B), absent: oid_of(b"absent") }
    }
    pub fn setup(&self, w: &World) -> Model {
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        for d in [DATA_A, DATA_B] {
            let o = m.add_object(d);
            w.add_object(&o, d);
        }
        for (i, p) in [HELD, HELD2].iter().enumerate() {
            let t = T_HELD + i as i64;
            let id = lock_id(p);
            w.add_lock_file(&id, &lock_content(t, p), w.uid);
            m.locks.insert(id, LockRec { path: p.to_vec(), time: t, owner: user_name(w.uid) });
        }
        m
    }
}

fn world() -> World {
    World::new(UID, None)
}

/// Run one session on a prepared store, judge it, compare the store.
fn session_case(rep: &Report, w: &World, m: &mut Model, mode: Mode, reqs: &[&Request], temp: bool) -> bool {
    let input = join(reqs);
    let o = Sess::new(w, mode.arg()).run(&input);
    rep.count("sessions", 1);
    rep.count("requests", reqs.len() as u64);
    let mut r = judge_session(m, reqs, mode, &user_name(w.uid), &o).map(|_| ());
    if r.is_ok() {
        r = m.compare_store(w);
    }
    if r.is_ok() && temp {
        let l = leftovers(w);
        if !l.is_empty() {
            r = Err(format!("temporary files left behind: {:?}", l));
        }
    }
    if let Err(e) = r {
        let n = names(reqs);
        rep.violation(&format!("{} {}", mode.arg(), n), &format!("{} session [{}]: {}", mode.arg(), n, e), &detail(mode.arg(), &n, &input, &o, &e));
        return false;
    }
    true
}

// ------------------------------------------------------------------------------------------
// C04

fn raw(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend(pkt(p));
    }
    v
}

/// Packets which would do something, or be answered, if they were taken for requests.
fn poison() -> Vec<(&'static str, Vec<u8>)> {
    let evil = b"evil";
    vec![
        ("unlock", pkt(format!("unlock {}\n", lock_id(HELD)).as_bytes())),
        ("quit", pkt(b"quit\n")),
        ("put", [pkt(format!("put-object {}\n", oid_of(evil)).as_bytes()), pkt(b"size=4\n")].concat()),
        ("lock", raw(&[b"lock\n", b"path=evil\n", b"refname=r\n"])),
        ("version", pkt(b"version 1\n")),
    ]
}

/// The menu of requests: valid ones, refused ones, malformed ones, each kind with poisonous content.
pub fn menu(b: &Base) -> Vec<Request> {
    let mut v: Vec<Request> = vec![
        version(),
        batch(&[]),
        batch(&[(&b.a, 1), (&b.absent, 77)]),
        put(b"new object"),
        put(b""),
        put(DATA_A),
        verify(&b.a, DATA_A.len() as u64),
        verify(&b.a, 3),
        verify(&b.absent, 3),
        get(&b.a),
        get(&b.absent),
        lock(b"free"),
        lock(HELD),
        unlock(HELD2),
        unlock(b"never"),
        list(None, None, None),
        list(Some(1), None, None),
        list(None, None, Some(HELD)),
        quit(),
    ];
    let oid = &b.a;
    let new = oid_of(b"poisoned");
    let mut push = |kind: fn(&str, Vec<u8>) -> Request, name: String, bytes: Vec<u8>| v.push(kind(&name, bytes));
    // the same store is used for poison of every kind
    for (pn, p) in poison() {
        let n = |s: &str| format!("{} + poison {}", s, pn);
        // data that look like requests
        let whole: Vec<u8> = match decode_all(&p) {
            Ok(x) => x.iter().map(|q| if let P::Data(d) = q { d.clone() } else { vec![] }).collect::<Vec<_>>().concat(),
            Err(_) => vec![],
        };
        let sz = whole.len();
        push(bad, n("put-object wrong hash"), Req::cmd(&format!("put-object {}\n", new)).arg(&format!("size={}", sz)).delim().raw(&p).flush());
        push(bad, n("put-object short size"), Req::cmd(&format!("put-object {}\n", oid_of(&whole))).arg("size=1").delim().raw(&p).flush());
        push(bad, n("put-object bad oid"), Req::cmd("put-object xyz\n").arg(&format!("size={}", sz)).delim().raw(&p).flush());
        push(bad, n("put-object bad size"), Req::cmd(&format!("put-object {}\n", oid_of(&whole))).arg("size=x").delim().raw(&p).flush());
        push(bad, n("put-object no size"), Req::cmd(&format!("put-object {}\n", oid_of(&whole))).delim().raw(&p).flush());
        push(bad, n("put-object malformed argument"), Req::cmd(&format!("put-object {}\n", oid_of(&whole))).data(b"size\n").delim().raw(&p).flush());
        push(bad, n("put-object no delimiter"), Req::cmd(&format!("put-object {}\n", oid)).raw(&p).flush());
        push(bad, n("put-object two delimiters"), Req::cmd(&format!("put-object {}\n", new)).arg("size=3").delim().delim().raw(&p).flush());
        push(bad, n("put-object delimiter in data"), Req::cmd(&format!("put-object {}\n", new)).arg("size=8").delim().data(b"poisoned").delim().raw(&p).flush());
        push(bad, n("put-object without ID"), Req::cmd("put-object\n").arg("size=3").delim().raw(&p).flush());
        push(bad, n("batch line"), Req::cmd("batch\n").delim().data(format!("{} 5\n", b.absent).as_bytes()).raw(&p).flush());
        push(bad, n("batch first line"), Req::cmd("batch\n").delim().raw(&p).data(format!("{} 5\n", b.absent).as_bytes()).flush());
        push(bad, n("batch malformed argument"), Req::cmd("batch\n").data(b"zzz\n").delim().raw(&p).flush());
        push(bad, n("batch no delimiter"), Req::cmd("batch\n").raw(&p).flush());
        push(bad, n("batch hash-algo"), Req::cmd("batch\n").arg("hash-algo=sha512").delim().raw(&p).flush());
        push(any, n("batch second delimiter"), Req::cmd("batch\n").delim().delim().raw(&p).flush());
        push(bad, n("unknown command"), Req::cmd("frobnicate\n").raw(&p).flush());
        push(bad, n("unknown command with delimiter"), Req::cmd("frobnicate\n").delim().raw(&p).flush());
        push(bad, n("unknown version"), Req::cmd("version 2\n").raw(&p).flush());
        push(any, n("version with arguments"), Req::cmd("version 1\n").raw(&p).flush());
        push(any, n("version with delimiter"), Req::cmd("version 1\n").delim().raw(&p).flush());
        push(bad, n("empty command"), Req::default().data(b"").raw(&p).flush());
        push(bad, n("leading delimiter"), Req::default().delim().raw(&p).flush());
        push(any, n("verify-object arguments"), Req::cmd(&format!("verify-object {}\n", oid)).raw(&p).flush());
        push(bad, n("verify-object bad oid"), Req::cmd("verify-object abc\n").raw(&p).flush());
        push(any, n("get-object arguments"), Req::cmd(&format!("get-object {}\n", oid)).delim().raw(&p).flush());
        push(bad, n("get-object bad oid"), Req::cmd("get-object abc\n").raw(&p).flush());
        push(bad, n("lock without path"), Req::cmd("lock\n").arg("refname=r").delim().raw(&p).flush());
        push(bad, n("lock with junk"), Req::cmd("lock\n").arg("path=junk").arg("refname=r").delim().raw(&p).flush());
        push(bad, n("unlock without ID"), Req::cmd("unlock\n").raw(&p).flush());
        push(any, n("list-lock delimiter"), Req::cmd("list-lock\n").delim().raw(&p).flush());
        push(bad, n("list-lock bad limit"), Req::cmd("list-lock\n").arg("limit=0").delim().raw(&p).flush());
    }
    push(bad, "flush only".into(), FLUSH.to_vec());
    push(bad, "delimiter only".into(), Req::default().delim().flush());
    push(bad, "empty packet only".into(), Req::default().data(b"").flush());
    push(bad, "newline command".into(), Req::cmd("\n").flush());
    push(bad, "space command".into(), Req::cmd(" \n").flush());
    push(bad, "batch without delimiter".into(), Req::cmd("batch\n").flush());
    push(bad, "batch x".into(), Req::cmd("batch x\n").delim().flush());
    push(bad, "batch empty line".into(), Req::cmd("batch\n").delim().data(b"").flush());
    push(bad, "batch line without size".into(), Req::cmd("batch\n").delim().data(format!("{}\n", oid).as_bytes()).flush());
    push(bad, "batch line bad size".into(), Req::cmd("batch\n").delim().data(format!("{} x\n", oid).as_bytes()).flush());
    push(bad, "batch line without newline".into(), Req::cmd("batch\n").delim().data(format!("{} 5", oid).as_bytes()).flush());
    push(bad, "batch duplicate argument".into(), Req::cmd("batch\n").arg("transfer=ssh").arg("transfer=ssh").delim().flush());
    push(bad, "put-object alone".into(), Req::cmd(&format!("put-object {}\n", new)).flush());
    push(bad, "put-object without delimiter".into(), Req::cmd(&format!("put-object {}\n", oid_of(b""))).arg("size=0").flush());
    push(bad, "put-object duplicate size".into(), Req::cmd(&format!("put-object {}\n", new)).arg("size=8").arg("size=8").delim().data(b"poisoned").flush());
    push(bad, "verify-object without size".into(), Req::cmd(&format!("verify-object {}\n", oid)).flush());
    push(bad, "verify-object without ID".into(), Req::cmd("verify-object\n").arg("size=3").flush());
    push(bad, "get-object without ID".into(), Req::cmd("get-object\n").flush());
    push(bad, "lock without arguments".into(), Req::cmd("lock\n").flush());
    push(bad, "lock without refname".into(), Req::cmd("lock\n").arg("path=x").flush());
    push(bad, "lock duplicate path".into(), Req::cmd("lock\n").arg("path=x").arg("path=x").arg("refname=r").flush());
    push(bad, "unlock invalid UTF-8".into(), Req::default().data(b"unlock \xff\xfe\n").flush());
    push(bad, "list-lock limit=x".into(), Req::cmd("list-lock\n").arg("limit=x").flush());
    push(bad, "list-lock malformed argument".into(), Req::cmd("list-lock\n").data(b"limit\n").flush());
    push(any, "list-lock argument without newline".into(), Req::cmd("list-lock\n").data(b"limit=5").flush());
    push(bad, "64 KiB of unknown command".into(), Req::default().data(&vec![b'x'; 65516]).flush());
    push(bad, "unknown command with much content".into(), {
        let mut r = Req::cmd("nonsense\n");
        for _ in 0..4 {
            r = r.data(&vec![b'y'; 65516]);
        }
        r.flush()
    });
    // requests the mode does not allow, with a body
    push(any, "verify-object extra word".into(), Req::cmd(&format!("verify-object {} x\n", oid)).arg("size=1").flush());
    v
}

pub fn c04(rep: &Report) {
    let b = Base::new();
    let menu = menu(&b);
    rep.text("menu", &menu.iter().map(|m| m.name.clone()).collect::<Vec<_>>().join(" | "));
    let n = menu.len();
    let modes = [Mode::Up, Mode::Down];
    pool(n * 2, world, |w, i| {
        let mut m = b.setup(w);
        session_case(rep, w, &mut m, modes[i % 2], &[&menu[i / 2]], false);
    });
    rep.scope("single requests, both modes", n as u64 * 2);
    pool(n * n * 2, world, |w, i| {
        let mode = modes[i % 2];
        let (x, y) = (&menu[i / 2 / n], &menu[i / 2 % n]);
        let mut m = b.setup(w);
        session_case(rep, w, &mut m, mode, &[x, y], false);
        if i % 1009 == 0 {
            rep.sample(format!("{}: {}; {}", mode.arg(), x.name, y.name));
        }
    });
    rep.scope("ordered pairs of requests, both modes", (n * n * 2) as u64);
    // Every shape of command line, each followed by requests that must be answered as such.
    let shapes = shapes(&b);
    rep.text("command lines", &format!("{} command lines and bodies, e.g. {}", shapes.len(), shapes.iter().step_by(97).map(|x| x.0.clone()).collect::<Vec<_>>().join(" | ")));
    pool(shapes.len() * 2, world, |w, i| {
        shape_case(rep, w, &b, modes[i % 2], &shapes[i / 2]);
    });
    rep.scope("shapes of the command line with bodies, both modes", shapes.len() as u64 * 2);
    let shapes = argument_shapes(&b);
    pool(shapes.len() * 2, world, |w, i| {
        shape_case(rep, w, &b, modes[i % 2], &shapes[i / 2]);
    });
    rep.scope("commands x argument lines x positions, both modes", shapes.len() as u64 * 2);
    // triples: malformed in the middle of good ones, or all triples of a reduced menu
    let small: Vec<&Request> = if rep.quick() {
        menu.iter().filter(|r| ["put-object wrong hash + poison unlock", "put-object bad oid + poison put", "batch line + poison quit", "version 1", "unknown command + poison lock", "lock free", "empty command + poison unlock", "put-object no delimiter + poison unlock", "list-lock"].contains(&r.name.as_str()) || matches!(r.op, Op::Put { .. })).collect()
    } else {
        menu.iter().enumerate().filter(|(i, r)| !matches!(r.op, Op::Bad | Op::Any) || i % 4 == 0).map(|x| x.1).collect()
    };
    let k = small.len();
    pool(k * k * k * 2, world, |w, i| {
        let mode = modes[i % 2];
        let j = i / 2;
        let mut m = b.setup(w);
        session_case(rep, w, &mut m, mode, &[small[j / k / k], small[j / k % k], small[j % k]], false);
    });
    rep.scope("ordered triples of a reduced menu, both modes", (k * k * k * 2) as u64);
    // Very long sessions.
    let long = if rep.quick() { 4000usize } else { 70_000 };
    let strides = [1usize, 7, 31, 101];
    pool(strides.len() * 2, world, |w, i| {
        let mut m = b.setup(w);
        let st = strides[i / 2];
        let reqs: Vec<&Request> = (0..long).map(|k| &menu[(k * st + k / n) % n]).filter(|r| r.op != Op::Quit && r.bytes.len() < 50_000).collect();
        session_case(rep, w, &mut m, modes[i % 2], &reqs, false);
    });
    rep.scope("sessions of thousands of requests", strides.len() as u64 * 2);
    // The same, one request at a time: the answer must be there before the next request is sent.
    let v = version();
    pool(n * 2, world, |w, i| {
        let mode = modes[i % 2];
        let mut m = b.setup(w);
        let reqs = [&menu[i / 2], &v, &menu[i / 2], &v];
        interactive(rep, w, &mut m, mode, &reqs, false);
    });
    rep.scope("interactive sessions (each answer awaited before the next request)", n as u64 * 2);
    rep.assume("requests are drawn from the listed menu; the client waits for answers only in the interactive sessions");
}

/// A command line with a body, and everything it may be taken for (any of these is right).
type Shape = (String, Vec<u8>, Vec<Op>);

fn shapes(b: &Base) -> Vec<Shape> {
    let new = oid_of(b"poisoned");
    let words: [&[u8]; 9] = [b"version", b"batch", b"put-object", b"verify-object", b"get-object", b"lock", b"list-lock", b"unlock", b"quit"];
    let bodies: Vec<(&str, Vec<u8>)> = vec![
        ("nothing", vec![]),
        ("lock arguments", raw(&[b"path=shape\n", b"refname=r\n"])),
        ("size", raw(&[b"size=8\n"])),
        ("object", [raw(&[b"size=8\n"]), DELIM.to_vec(), raw(&[b"poisoned"])].concat()),
        ("batch lines", [raw(&[b"transfer=ssh\n"]), DELIM.to_vec(), raw(&[format!("{} 5\n", b.absent).as_bytes()])].concat()),
        ("a request", raw(&[format!("unlock {}\n", lock_id(HELD)).as_bytes()])),
    ];
    let mut lines: Vec<(Vec<u8>, bool)> = vec![]; // the line; whether it must be refused
    for w in words {
        let takes_arg = [&b"version"[..], b"put-object", b"verify-object", b"get-object", b"unlock"].contains(&w);
        let cat = |x: &[&[u8]]| x.concat();
        // tolerated either way: line ends and spacing
        for t in [&b""[..], b"\n", b" \n", b"\n\n", b"\r\n", b" "] {
            lines.push((cat(&[w, t]), false));
        }
        lines.push((cat(&[b" ", w, b"\n"]), false));
        // arguments that the command takes, or does not take
        for a in [&b"1"[..], b"x", new.as_bytes(), lock_id(HELD2).as_bytes(), b"=", b"-", b"0"] {
            for (pre, post) in [(&b" "[..], &b"\n"[..]), (b" ", b""), (b" ", b" x\n")] {
                lines.push((cat(&[w, pre, a, post]), !takes_arg));
            }
            lines.push((cat(&[w, b"  ", a, b"\n"]), true));
            lines.push((cat(&[w, b"\t", a, b"\n"]), true));
            lines.push((cat(&[w, b"\n", a, b"\n"]), true));
            lines.push((cat(&[w, b" ", a, b"\njunk"]), true));
            lines.push((cat(&[w, b" ", a, b"\njunk\n"]), true));
        }
        // words that are not quite the command
        for (pre, post) in [(&b""[..], &b"x\n"[..]), (b"x", b"\n"), (b"", b"\0\n"), (b"\0", b"\n"), (b"", b"-\n"), (b"\n", b"\n"), (b"", b"\xff\n")] {
            lines.push((cat(&[pre, w, post]), true));
        }
        lines.push((cat(&[&w[..w.len() - 1], b"\n"]), true));
        lines.push((cat(&[&w[1..], b"\n"]), true));
        lines.push((cat(&[&w.to_ascii_uppercase(), b"\n"]), true));
        lines.push((cat(&[&w.to_ascii_uppercase(), b" 1\n"]), true));
    }
    let mut v = vec![];
    for (line, refuse) in &lines {
        for (bn, body) in &bodies {
            let req = Req::default().data(line).raw(body).flush();
            let mut ops = vec![Op::Bad];
            if !refuse {
                // What the request would mean if it is taken leniently.
                let t: Vec<&[u8]> = line.split(|c| b" \r\n".contains(c)).filter(|x| !x.is_empty()).collect();
                let arg = t.get(1).map(|x| String::from_utf8_lossy(x).to_string());
                let strict = line.ends_with(b"\n") && !line.ends_with(b" \n") && !line.ends_with(b"\n\n") && !line.ends_with(b"\r\n") && !line.starts_with(b" ") && t.len() <= 2;
                let meaning = match (t[0], &arg, *bn) {
                    (b"version", Some(a), "nothing") if a == "1" => Some(Op::Version),
                    (b"version", Some(a), _) if a == "1" => Some(Op::Any),
                    (b"version", _, _) => None,
                    (b"quit", None, "nothing") => Some(Op::Quit),
                    (b"lock", None, "lock arguments") => Some(Op::Lock { path: b"shape".to_vec() }),
                    (b"list-lock", None, "nothing") => Some(Op::List { limit: None, cursor: None, path: None }),
                    (b"list-lock", None, _) => Some(Op::Any),
                    (b"batch", None, "batch lines") => Some(Op::Batch(vec![(b.absent.clone(), 5)])),
                    (b"put-object", Some(a), "object") => Some(Op::Put { oid: a.clone(), size: 8, data: Arc::new(b"poisoned".to_vec()) }),
                    (b"verify-object", Some(a), "size") => Some(Op::Verify { oid: a.clone(), size: 8 }),
                    (b"get-object", Some(a), "nothing") => Some(Op::Get { oid: a.clone() }),
                    (b"get-object", Some(_), _) => Some(Op::Any),
                    (b"unlock", Some(a), "nothing") => Some(Op::Unlock { id: a.clone().into_bytes() }),
                    (b"unlock", Some(a), _) => {
                        ops.push(Op::Unlock { id: a.clone().into_bytes() });
                        Some(Op::Any)
                    }
                    // quit does not wait for the end of its request
                    (b"quit", None, _) => Some(Op::Quit),
                    _ => None,
                };
                match meaning {
                    Some(m) if strict && m != Op::Any => ops = vec![m],
                    Some(m) => ops.push(m),
                    None => (),
                }
            }
            v.push((format!("{} with {}", show(line), bn), req, ops));
        }
    }
    v
}

/// Requests with further or odd argument lines, each with what it may be taken for: as if the line were
/// not there, as refused, or (where the line has a meaning for the command) as anything harmless.
fn argument_shapes(b: &Base) -> Vec<Shape> {
    let data = b"argument object";
    let oid = oid_of(data);
    let c = |s: &str| pkt(format!("{}\n", s).as_bytes());
    let lines_of = |v: &[String]| -> Vec<u8> { v.iter().flat_map(|l| pkt(l.as_bytes())).collect() };
    // command line, arguments, what follows them, meaning
    let reqs: Vec<(&str, Vec<u8>, Vec<Vec<u8>>, Vec<u8>, Op)> = vec![
        ("put-object", c(&format!("put-object {}", oid)), vec![pkt(b"size=15\n")], [DELIM.to_vec(), pkt(data)].concat(), Op::Put { oid: oid.clone(), size: 15, data: Arc::new(data.to_vec()) }),
        ("verify-object", c(&format!("verify-object {}", b.a)), vec![pkt(format!("size={}\n", DATA_A.len()).as_bytes())], vec![], Op::Verify { oid: b.a.clone(), size: DATA_A.len() as u64 }),
        ("get-object", c(&format!("get-object {}", b.a)), vec![], vec![], Op::Get { oid: b.a.clone() }),
        ("batch", c("batch"), vec![pkt(b"transfer=ssh\n")], [DELIM.to_vec(), pkt(format!("{} 5\n", b.a).as_bytes())].concat(), Op::Batch(vec![(b.a.clone(), 5)])),
        ("lock", c("lock"), vec![pkt(b"path=arg\n"), pkt(b"refname=r\n")], vec![], Op::Lock { path: b"arg".to_vec() }),
        ("list-lock", c("list-lock"), vec![], vec![], Op::List { limit: None, cursor: None, path: None }),
        ("unlock", c(&format!("unlock {}", lock_id(HELD))), vec![], vec![], Op::Unlock { id: lock_id(HELD).into_bytes() }),
        ("version", c("version 1"), vec![], vec![], Op::Version),
    ];
    let mut extra: Vec<(String, Vec<u8>)> = vec![];
    let un = format!("unlock {}\n", lock_id(HELD2));
    let put = format!("put-object {}\n", oid_of(b"poisoned"));
    for l in [
        &b"x=y\n"[..], b"x=y", b"x=\n", b"x\n", b"x", b"=\n", b"=x\n", b"==\n", b"x=y=z\n", b"\n", b"", b"x=y\r\n", b"x=y\n\n", b"a\nb=c\n", b"x=a\nsize=3\n", b" x = y \n", b"\xff=\xfe\n", b"\0=\0\n",
        b"\xff\n", b"X=\xc3\xa9\n", un.as_bytes(), put.as_bytes(), b"quit\n", b"quit", b"lock\n", b"list-lock\n", b"version 1\n", b"batch\n", b"path=evil\n", b"path=\n", b"refname=evil\n", b"size=1\n", b"size=\n",
        b"size=999999999999999999999999\n", b"limit=1\n", b"limit=\n", b"limit=-1\n", b"cursor=zz\n", b"id=x\n", b"transfer=ssh\n", b"transfer=basic\n", b"transfer=\n", b"hash-algo=sha256\n", b"hash-algo=sha512\n",
        b"operation=upload\n", b"operation=download\n", b"0000", b"0001", b"0009x=y\n", b"ERR x\n", b"status 200\n", b"Size=1\n", b"SIZE=1\n", b" size=1\n", b"size =1\n",
    ] {
        extra.push((show(l), pkt(l)));
        extra.push((format!("{} twice", show(l)), [pkt(l), pkt(l)].concat()));
    }
    for n in [65510usize, 65511, 65512, 65513] {
        extra.push((format!("a line of {} bytes", n + 3), pkt(&[&b"x="[..], &vec![b'y'; n], b"\n"].concat())));
        extra.push((format!("a key of {} bytes", n), pkt(&[&vec![b'k'; n], &b"=y\n"[..]].concat())));
    }
    for n in [10, 100, 1000, 5000] {
        extra.push((format!("{} lines", n), lines_of(&(0..n).map(|i| format!("k{}=v{}\n", i, i)).collect::<Vec<_>>())));
        extra.push((format!("{} lines without an equals sign", n), lines_of(&(0..n).map(|i| format!("k{}\n", i)).collect::<Vec<_>>())));
    }
    let mut v = vec![];
    for (name, cmd, args, tail, op) in &reqs {
        for (xn, x) in &extra {
            for pos in 0..=args.len().min(1) {
                let mut r = cmd.clone();
                if pos == 0 {
                    r.extend_from_slice(x);
                }
                r.extend(args.concat());
                if pos == 1 {
                    r.extend_from_slice(x);
                }
                r.extend_from_slice(tail);
                r.extend_from_slice(FLUSH);
                let mut ops = vec![op.clone(), Op::Bad];
                if *name == "list-lock" {
                    ops.push(Op::Any);
                }
                if *name == "lock" && xn.contains("path=evil") {
                    ops.push(Op::Lock { path: b"evil".to_vec() });
                }
                v.push((format!("{} with {} {} its arguments", name, xn, if pos == 0 { "before" } else { "after" }), r, ops));
            }
        }
    }
    v
}

/// The session `<shape> version version` must be right for one reading of the shape.
fn shape_case(rep: &Report, w: &World, b: &Base, mode: Mode, s: &Shape) {
    let v = version();
    let base = b.setup(w);
    let input = [&s.1[..], &v.bytes, &v.bytes].concat();
    let o = Sess::new(w, mode.arg()).run(&input);
    rep.count("sessions", 1);
    rep.count("requests", 3);
    let mut first = None;
    for op in &s.2 {
        let mut m = base.clone();
        let r = Request { op: op.clone(), bytes: s.1.clone(), name: s.0.clone() };
        match judge_session(&mut m, &[&r, &v, &v], mode, &user_name(w.uid), &o).and_then(|_| m.compare_store(w)) {
            Ok(()) => return,
            Err(e) => first = first.or(Some(e)),
        }
    }
    let e = first.unwrap_or_default();
    let n = format!("{}; version 1; version 1", s.0);
    rep.violation(&format!("shape {} {}", mode.arg(), n), &format!("{} session [{}]: {}", mode.arg(), n, e), &detail(mode.arg(), &n, &input, &o, &e));
}

/// Send requests one by one, each only when the server asks for more input.
fn interactive(rep: &Report, w: &World, m: &mut Model, mode: Mode, reqs: &[&Request], temp: bool) {
    let t0 = 1_700_000_000;
    w.note_case(mode.arg(), w.uid, 1 << 20, &join(reqs));
    let cfg = tcfg(w, mode.arg(), reqs.iter().map(|r| r.bytes.clone()).collect(), w.uid, t0);
    let mut nm = tracer::Names::default();
    let mut p = tracer::Proc::spawn(cfg, &mut nm);
    let res = (|| -> Result<(), String> {
        let mut judged = 0;
        loop {
            match &p.stop {
                tracer::Stop::Input | tracer::Stop::Done(_) => {
                    let (r, rest) = parse_prefix(&p.stdout())?;
                    let want = p.fed.min(reqs.iter().position(|q| q.op == Op::Quit).map(|x| x + 1).unwrap_or(usize::MAX));
                    if let Some(x) = rest {
                        return Err(format!("while waiting for request {}, the previous answer is unfinished: {}", p.fed, x));
                    }
                    if r.len() != want {
                        return Err(format!("after {} requests there are {} answers when the server waits for more input", p.fed, r.len()));
                    }
                    while judged < r.len() {
                        m.judge(&reqs[judged].op, mode, &user_name(w.uid), &r[judged], (t0, t0 + 1000)).map_err(|e| format!("request {} ({}): {}", judged, reqs[judged].name, e))?;
                        judged += 1;
                    }
                    if temp && judged > 0 && !leftovers(w).is_empty() {
                        return Err(format!("temporary files exist after request {} was answered: {:?}", judged - 1, leftovers(w)));
                    }
                    m.compare_store(w)?;
                    if let tracer::Stop::Done(st) = p.stop {
                        if libc::WIFSIGNALED(st) || libc::WEXITSTATUS(st) == 101 {
                            return Err(format!("the session crashed (wait status {})", st));
                        }
                        return Ok(());
                    }
                }
                _ => {}
            }
            p.step(tracer::Do::Run, &mut nm);
        }
    })();
    rep.count("sessions", 1);
    rep.count("requests", reqs.len() as u64);
    if let Err(e) = res {
        let n = names(reqs);
        rep.violation(
            &format!("interactive {} {}", mode.arg(), n),
            &format!("interactive {} session [{}]: {}", mode.arg(), n, e),
            &format!("{}\noutput so far: {}\nstderr: {}", e, show(&p.stdout()), show(&p.stderr())),
        );
    }
}

pub fn tcfg(w: &World, op: &str, chunks: Vec<Vec<u8>>, uid: u32, time0: i64) -> tracer::Config {
    tracer::Config {
        exe: bin("git-lfs-transfer"),
        args: vec![w.repo.to_str().unwrap().into(), op.into()],
        cwd: w.dir.clone(),
        env: w.env(),
        umask: 0o022,
        uid,
        scratch: w.dir.clone(),
        root: w.lfs.clone(),
        sched_startup: false,
        chunks,
        time0,
        id: 0,
        pid: 12340,
        max_steps: 5000,
        stream: Default::default(),
    }
}

// ------------------------------------------------------------------------------------------
// C05

pub fn c05(rep: &Report) {
    let b = Base::new();
    let big = vec![b'z'; 300];
    let mut sessions: Vec<(Mode, Vec<Request>)> = vec![
        (Mode::Up, vec![version(), put(b"abc123"), lock(b"p"), list(None, None, None)]),
        (Mode::Up, vec![put_as(&oid_of(b"hello world"), 11, b"hello world", 4), unlock(HELD), verify(&b.a, DATA_A.len() as u64)]),
        (Mode::Up, vec![batch(&[(&b.a, 1), (&b.absent, 2)]), lock(HELD), unlock(b"nolock"), put_as(&oid_of(b"x"), 1, b"yy", 1), put(b"")]),
        (Mode::Up, vec![put(&big), lock(b"q"), unlock(b"q"), quit()]),
        (Mode::Up, vec![bad("bad-put", Req::cmd("put-object zz\n").arg("size=4").delim().data(b"quit").flush()), lock(b"after"), bad("unknown", Req::cmd("nope\n").arg("a=b").flush()), unlock(HELD2)]),
        (Mode::Down, vec![version(), batch(&[(&b.a, 1), (&b.absent, 2)]), get(&b.a), get(&b.absent), list(Some(1), None, None), quit()]),
    ];
    // each request of the menu, in both modes; the first ones are broken at every byte
    let chosen = sessions.len();
    let menu = menu(&b);
    for mode in [Mode::Up, Mode::Down] {
        for (i, r) in menu.iter().enumerate() {
            if !rep.quick() || !r.name.contains(" + poison ") || i % 5 == 0 {
                sessions.push((mode, vec![r.clone()]));
            }
        }
    }
    let badh: Vec<&[u8]> = vec![b"zzzz", b"0002", b"0003", b"fff1", b"ffff", b"00:0", b"000G", b"    ", b"\0\0\0\0", b"-001", b"+005", b"0x05", b"000", b"ERR ", b"001"];
    struct Case {
        s: usize,
        reset: bool,
        input: Vec<u8>,
        complete: usize,
        name: String,
        quit_ok: bool,
    }
    let mut cases = vec![];
    for (si, (_, reqs)) in sessions.iter().enumerate() {
        let refs: Vec<&Request> = reqs.iter().collect();
        let full = join(&refs);
        let mut ends = vec![];
        let mut o = 0;
        for r in reqs {
            o += r.bytes.len();
            ends.push(o);
        }
        // packet boundaries
        let mut bounds = vec![0];
        let mut at = 0;
        while at < full.len() {
            let n = usize::from_str_radix(std::str::from_utf8(&full[at..at + 4]).unwrap(), 16).unwrap();
            at += n.max(4);
            bounds.push(at);
        }
        // has the quit packet itself arrived completely?
        let quit_at = reqs.iter().position(|r| r.op == Op::Quit).map(|i| ends[i] - 4);
        let which = |what: &str, at: usize| if si < chosen { format!("session {} {} at byte {}", si, what, at) } else { format!("{} session [{}] {} at byte {}", sessions[si].0.arg(), names(&refs), what, at) };
        for cut in 0..=full.len() {
            let near = || bounds.iter().any(|&x| cut + 1 >= x && cut <= x + 5);
            if full.len() > if rep.quick() && si >= chosen { 150 } else { 1000 } && !near() {
                continue;
            }
            let complete = ends.iter().filter(|&&e| e <= cut).count();
            let quit_ok = quit_at.map(|q| cut >= q).unwrap_or(false);
            cases.push(Case { s: si, reset: false, input: full[..cut].to_vec(), complete, name: which("cut", cut), quit_ok });
            if full.len() < 100_000 && (si < chosen || cut % 3 == 0 || !rep.quick()) {
                cases.push(Case { s: si, reset: true, input: full[..cut].to_vec(), complete, name: which("reset", cut), quit_ok });
            }
        }
        for &bd in &bounds {
            let complete = ends.iter().filter(|&&e| e <= bd).count();
            let quit_ok = quit_at.map(|q| bd >= q).unwrap_or(false);
            for h in badh.iter().skip(if rep.quick() && si >= chosen { bd % 3 } else { 0 }).step_by(if rep.quick() && si >= chosen { 3 } else { 1 }) {
                let tails: Vec<&[u8]> = if rep.quick() { vec![&full[bd..]] } else { vec![&full[bd..], b"", b"0000", b"00000009quit\n0000"] };
                for t in tails {
                    // A short header glues to what follows; that may become a legal packet only if
                    // it begins a legal header, which the listed ones never do with these sessions.
                    let mut input = full[..bd].to_vec();
                    input.extend_from_slice(h);
                    input.extend_from_slice(t);
                    if h.len() < 4 {
                        // keep only cases whose four bytes are an illegal header
                        let got: Vec<u8> = input[bd..].iter().take(4).copied().collect();
                        let legal = got.len() == 4 && decode_len(&got).is_some();
                        if legal {
                            continue;
                        }
                    }
                    cases.push(Case { s: si, reset: false, input, complete, name: which(&format!("with header {:?} before {} bytes", show(h), t.len()), bd), quit_ok });
                }
            }
        }
    }
    pool(cases.len(), world, |w, i| {
        let c = &cases[i];
        let (mode, reqs) = &sessions[c.s];
        let mut m = b.setup(w);
        let o = if c.reset {
            let args = [w.repo.clone().into_os_string(), mode.arg().into()];
            crate::ends::go(w, &args, &c.input, crate::ends::Io { stdin: Some(crate::ends::reset_after(&c.input)), ..Default::default() })
        } else {
            let mut sess = Sess::new(w, mode.arg());
            sess.timeout = 20;
            sess.run(&c.input)
        };
        rep.count("sessions", 1);
        let r = (|| -> Result<(), String> {
            if let Some(x) = o.crashed() {
                return Err(x);
            }
            let resp = parse_session(&o.out)?;
            if resp.len() < c.complete {
                return Err(format!("{} complete requests but only {} answers", c.complete, resp.len()));
            }
            for k in 0..c.complete {
                m.judge(&reqs[k].op, *mode, &user_name(w.uid), &resp[k], (o.t0 - 1, o.t1 + 1)).map_err(|e| format!("request {} ({}): {}", k, reqs[k].name, e))?;
            }
            let extra = &resp[c.complete..];
            let quit_done = c.complete > 0 && reqs[c.complete - 1].op == Op::Quit;
            if extra.len() > if quit_done { 0 } else { 1 } {
                return Err(format!("{} answers after the break; the last is: {}", extra.len(), extra[extra.len() - 1].show()));
            }
            if let Some(e) = extra.first() {
                if !e.refused() && !(c.quit_ok && e.code == 200) {
                    return Err(format!("the incomplete request was answered with success: {}", e.show()));
                }
            }
            m.compare_store(w)
        })();
        if i % 997 == 0 {
            rep.sample(format!("{} ({} complete requests)", c.name, c.complete));
        }
        if let Err(e) = r {
            rep.violation(&c.name, &format!("{}: {}", c.name, e), &detail(mode.arg(), &names(&reqs.iter().collect::<Vec<_>>()), &c.input, &o, &e));
        }
    });
    rep.scope("broken sessions (every byte as the end or where the connection is reset, every illegal header at every packet boundary)", cases.len() as u64);
}

fn decode_len(h: &[u8]) -> Option<usize> {
    let mut n = 0;
    for &c in h {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => return None,
        };
        n = n * 16 + d as usize;
    }
    match n {
        0 | 1 | 4..=65520 => Some(n),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------
// C06

/// A put-object request with everything given literally.
fn put_raw(oid: &[u8], size: Option<&[u8]>, pk: &[&[u8]]) -> Request {
    let mut c = b"put-object ".to_vec();
    c.extend_from_slice(oid);
    c.push(b'\n');
    let mut r = Req::default().data(&c);
    if let Some(s) = size {
        r = r.argb("size", s);
    }
    r = r.delim();
    for p in pk {
        r = r.data(p);
    }
    let data = pk.concat();
    let os = String::from_utf8_lossy(oid).to_string();
    let sz = size.and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| s.parse::<u64>().ok());
    let op = match sz {
        Some(sz) => Op::Put { oid: os.clone(), size: sz, data: Arc::new(data.clone()) },
        None => Op::Bad,
    };
    Request {
        op,
        bytes: r.flush(),
        name: format!("put-object {} size={} in {} packets, {} bytes", os.chars().take(70).collect::<String>(), show(size.unwrap_or(b"(none)")), pk.len(), data.len()),
    }
}

pub fn bytes_of(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(167).wrapping_add((i as u32 / 251) * 31).wrapping_add(seed as u32) as u8).collect()
}

/// Every single byte replaced by every other one, and what [`oid_variants_few`] has.
pub fn oid_variants(oid: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..64 {
        for c in 0..=255u8 {
            if oid.as_bytes()[i] != c {
                let mut o = oid.as_bytes().to_vec();
                o[i] = c;
                v.push(o);
            }
        }
    }
    // additional or replaced bytes at the ends and in the middle
    for c in b"\t\r\x0b\x0c\0+-_/.'\"x\\" {
        for i in [0, 1, 2, 4, 16, 31, 32, 33, 48, 62, 63, 64] {
            let mut o = oid.as_bytes().to_vec();
            o.insert(i, *c);
            v.push(o.clone());
            o.pop();
            v.push(o.clone());
            o.insert(0, *c);
            v.push(o.clone());
            o.push(*c);
            v.push(o);
        }
    }
    v.extend(oid_variants_few(oid));
    v
}

/// All texts of at most `n` tokens which a careless reader of numbers may take for one, with the
/// number if it is one.  Left out is what can be read either way (a plus sign, leading zeros).
pub fn number_texts(n: usize) -> Vec<(Vec<u8>, Option<u64>)> {
    let tokens: &[&[u8]] = &[b"5", b"0", b"1", b" ", b"-", b"+", b"\t", b".", b"x", b"e", b"_", b"\r", b"\0", b"=", b":", b"/", b"\xff", b"\xef\xbc\x91"];
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|p| tokens.iter().map(move |t| [&p[..], t].concat())).collect();
        all.extend(last.iter().cloned());
    }
    let digits = |t: &[u8]| !t.is_empty() && t.iter().all(|x| x.is_ascii_digit());
    all.into_iter()
        .filter(|t| !(t.starts_with(b"+") && digits(&t[1..])) && !(t.len() > 1 && t[0] == b'0' && digits(t)))
        .map(|t| {
            let v = if digits(&t) { std::str::from_utf8(&t).unwrap().parse().ok() } else { None };
            (t, v)
        })
        .collect()
}

pub fn oid_variants_few(oid: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for i in 0..64 {
        for c in b"0123456789abcdef" {
            let mut o = oid.as_bytes().to_vec();
            if o[i] != *c {
                o[i] = *c;
                v.push(o);
            }
        }
        for c in b"AFGgz/.:-_ \n\0\xff%" {
            let mut o = oid.as_bytes().to_vec();
            o[i] = *c;
            v.push(o);
        }
    }
    for n in [0, 1, 2, 3, 4, 5, 32, 62, 63] {
        v.push(oid.as_bytes()[..n].to_vec());
    }
    v.push(format!("{}0", oid).into_bytes());
    v.push(format!("{}{}", oid, oid).into_bytes());
    v.push(oid.to_uppercase().into_bytes());
    v.push(b"0".repeat(64));
    v.push(b"f".repeat(64));
    v.push(format!("sha256:{}", oid).into_bytes());
    v.push(format!("./{}", &oid[..62]).into_bytes());
    v.push("é".repeat(32).into_bytes());
    v.push([b"\xc3\xa9".to_vec(), oid.as_bytes()[..62].to_vec()].concat());
    v
}

fn history(rep: &Report, w: &World, m: &mut Model, mode: Mode, reqs: &[Request]) {
    for ch in reqs.chunks(200) {
        let r: Vec<&Request> = ch.iter().collect();
        if !session_case(rep, w, m, mode, &r, true) {
            return;
        }
    }
}

pub fn c06(rep: &Report) {
    let q = rep.quick();
    let mut groups: Vec<(String, Vec<Request>)> = vec![];
    // small universe: every content, every claimed size, every claimed ID
    let mut words: Vec<Vec<u8>> = vec![vec![]];
    let depth = if q { 2 } else { 3 };
    let mut last = words.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|w| [b'a', b'b', 0u8].iter().map(move |c| [w.clone(), vec![*c]].concat())).collect();
        words.extend(last.clone());
    }
    let mut small = vec![];
    for d in &words {
        for claim in &words {
            for size in 0..=(depth + 1) {
                small.push(put_raw(oid_of(claim).as_bytes(), Some(size.to_string().as_bytes()), &[d]));
            }
        }
    }
    // in a few orders, so that each put happens both before and after the others
    for part in small.chunks(small.len().div_ceil(24)) {
        groups.push(("content x claimed size x claimed ID".into(), part.to_vec()));
        let mut r = part.to_vec();
        r.reverse();
        groups.push(("content x claimed size x claimed ID, reversed".into(), r));
    }
    // objects which share directories: every order, wrong uploads before, between and after
    let fam: Vec<Vec<u8>> = vec![b"keep me".to_vec(), mate(b"keep me", 2), mate(b"keep me", 4), b"far away".to_vec(), mate(b"far away", 4)];
    let mut famreq: Vec<Request> = fam.iter().map(|d| put(d)).collect();
    famreq.push(put_as(&oid_of(&fam[2]), fam[1].len() as u64, &fam[1], 99));
    famreq.push(put_as(&oid_of(&fam[4]), fam[4].len() as u64 + 1, &fam[4], 99));
    for i in 0..famreq.len().pow(3) {
        let n = famreq.len();
        groups.push(("objects in shared directories".into(), vec![famreq[i % n].clone(), famreq[i / n % n].clone(), famreq[i / n / n].clone()]));
    }
    // packetizations
    let d = b"packets!";
    let mut pk = vec![];
    for mask in 0u32..(1 << (d.len() - 1)) {
        let mut parts: Vec<&[u8]> = vec![];
        let mut s = 0;
        for i in 1..=d.len() {
            if i == d.len() || mask & (1 << (i - 1)) != 0 {
                parts.push(&d[s..i]);
                s = i;
            }
        }
        for size in [7u64, 8, 9] {
            pk.push(put_raw(oid_of(d).as_bytes(), Some(size.to_string().as_bytes()), &parts));
        }
        let mut withempty: Vec<&[u8]> = vec![b""];
        for p in &parts {
            withempty.push(p);
            withempty.push(b"");
        }
        pk.push(put_raw(oid_of(d).as_bytes(), Some(b"8"), &withempty));
    }
    groups.push(("packetizations of one object".into(), pk));
    // object IDs
    let mut ids = vec![];
    for v in oid_variants(&oid_of(b"the content")) {
        if v.contains(&b' ') || v.ends_with(b"\n") {
            continue; // would be a request with more arguments, or another spelling of the line end
        }
        ids.push(put_raw(&v, Some(b"11"), &[b"the content"]));
    }
    for v in [b"\xff\xfe".to_vec(), b"../../../etc/passwd".to_vec()] {
        ids.push(put_raw(&v, Some(b"11"), &[b"the content"]));
    }
    for ids in ids.chunks(1000) {
        groups.push(("object IDs differing from the right one".into(), ids.to_vec()));
        let mut seeded = vec![put(b"the content")];
        seeded.extend(ids.to_vec());
        groups.push(("the same with the object present".into(), seeded));
    }
    // size arguments
    let mut sz: Vec<Request> = vec![];
    for s in ["-1", "x", "", " 11", "11 ", "0x0b", "11.0", "1e1", "11\n", "11\0", "18446744073709551615", "18446744073709551616", "18446744073709551627", "4294967307", "99999999999999999999999", "1", "10", "12", "110"] {
        sz.push(put_raw(oid_of(b"the content").as_bytes(), Some(s.as_bytes()), &[b"the content"]));
    }
    sz.push(put_raw(oid_of(b"the content").as_bytes(), None, &[b"the content"]));
    sz.push(put_raw(oid_of(b"the content").as_bytes(), Some(b"\xff\xfe"), &[b"the content"]));
    groups.push(("size arguments".into(), sz));
    for part in number_texts(if q { 2 } else { 3 }).chunks(100) {
        let d: &[u8] = b"five!";
        groups.push(("size arguments".into(), part.iter().map(|(t, v)| {
            let bytes = Req::cmd(&format!("put-object {}\n", oid_of(d))).argb("size", t).delim().data(d).flush();
            let name = format!("put-object size={}", show(t));
            match v {
                Some(v) => Request { op: Op::Put { oid: oid_of(d), size: *v, data: Arc::new(d.to_vec()) }, bytes, name },
                None => bad(&name, bytes),
            }
        }).collect()));
    }
    // sizes
    let mut bigs = vec![];
    let edge = [65515usize, 65516, 65517, 131031, 131032, 131033, 8191, 8192, 8193, 16384, 4095, 4096, 4097, 200_000];
    let mut lens: Vec<usize> = (0..if q { 40 } else { 600 }).collect();
    lens.extend(edge);
    lens.extend([1 << 20, (1 << 20) + 1]);
    if !q {
        lens.extend([(1 << 20) - 1, 5_000_000, (1 << 24) + 1]);
    }
    for n in lens {
        let d = bytes_of(n, 3);
        let o = oid_of(&d);
        for chunk in [65516usize, 65515, 1000, 8192, 1] {
            if chunk == 1 && n > 300 || chunk == 1000 && n > 300_000 || n > 300_000 && chunk != 65516 && (q || chunk != 8192) {
                continue;
            }
            let parts: Vec<&[u8]> = d.chunks(chunk).collect();
            bigs.push(put_raw(o.as_bytes(), Some((n + 1).to_string().as_bytes()), &parts));
            if n > 0 {
                bigs.push(put_raw(o.as_bytes(), Some((n - 1).to_string().as_bytes()), &parts));
                let mut d2 = d.clone();
                d2[n - 1] ^= 1;
                bigs.push(put_raw(o.as_bytes(), Some(n.to_string().as_bytes()), &d2.chunks(chunk).collect::<Vec<_>>()));
                let mut d3 = d.clone();
                d3[0] ^= 0x80;
                bigs.push(put_raw(o.as_bytes(), Some(n.to_string().as_bytes()), &d3.chunks(chunk).collect::<Vec<_>>()));
            }
            bigs.push(put_raw(o.as_bytes(), Some(n.to_string().as_bytes()), &parts));
        }
    }
    let mut parts: Vec<Vec<Request>> = vec![vec![]];
    let mut load = 0;
    for b in bigs {
        if load + b.bytes.len() > 30_000_000 || parts.last().unwrap().len() >= 100 {
            parts.push(vec![]);
            load = 0;
        }
        load += b.bytes.len();
        parts.last_mut().unwrap().push(b);
    }
    for part in parts {
        groups.push(("sizes around packet and buffer boundaries".into(), part));
    }
    // other arguments
    let o = oid_of(b"args");
    groups.push((
        "further arguments".into(),
        vec![
            bad("duplicate size", Req::cmd(&format!("put-object {}\n", o)).arg("size=4").arg("size=4").delim().data(b"args").flush()),
            bad("no newline", Req::cmd(&format!("put-object {}\n", o)).data(b"size=4").delim().data(b"args").flush()),
            bad("no equals", Req::cmd(&format!("put-object {}\n", o)).arg("size=4").arg("foo").delim().data(b"args").flush()),
            bad("flush instead of delimiter", Req::cmd(&format!("put-object {}\n", o)).arg("size=4").flush()),
            {
                let mut r = put(b"args");
                r.bytes = Req::cmd(&format!("put-object {}\n", o)).arg("transfer=ssh").arg("size=4").arg("x=y=z").delim().data(b"args").flush();
                r
            },
        ],
    ));
    pool(groups.len(), world, |w, i| {
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        // an object which must survive everything
        let keep = m.add_object(b"keep me");
        w.add_object(&keep, b"keep me");
        let (name, reqs) = &groups[i];
        if i % 7 == 0 {
            rep.sample(format!("{}: {} ...", name, reqs[0].name));
        }
        history(rep, w, &mut m, Mode::Up, reqs);
        // everything stored can be downloaded
        let gets: Vec<Request> = m.objects.keys().map(|k| get(k)).collect();
        history(rep, w, &mut m, Mode::Down, &gets);
    });
    rep.scope("histories of put-object requests", groups.len() as u64);
    // each request alone, watching for temporary files when it has been answered
    let mut singles: Vec<Request> = groups.iter().flat_map(|g| g.1.iter().step_by(if q { 97 } else { 11 }).cloned()).collect();
    singles.retain(|r| r.bytes.len() < 100_000);
    let after = list(None, None, None);
    pool(singles.len(), world, |w, i| {
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        interactive(rep, w, &mut m, Mode::Up, &[&singles[i], &after], true);
    });
    rep.scope("single uploads with the store inspected at the moment of the answer", singles.len() as u64);
    crate::link::linked(rep, "stored");
}

// ------------------------------------------------------------------------------------------
// C07

pub fn c07(rep: &Report) {
    let q = rep.quick();
    let mut lens: Vec<usize> = (0..if q { 300 } else { 2000 }).collect();
    for base in [4096usize, 8192, 16384, 32768, 65516, 65520, 65536, 131032, 131072, 262144] {
        for d in -4i64..=4 {
            lens.push((base as i64 + d) as usize);
        }
    }
    lens.extend([1_000_000, 3 * 65516, 5 * 65516 + 1]);
    if !q {
        lens.extend([10_000_000, 16 * 65516]);
        lens.extend((60_000..70_000).step_by(37));
    }
    lens.sort();
    lens.dedup();
    let groups: Vec<Vec<usize>> = lens.chunks(24).map(|c| c.to_vec()).collect();
    pool(groups.len(), world, |w, i| {
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        let mut reqs = vec![];
        for (k, &n) in groups[i].iter().enumerate() {
            let mut variants = vec![bytes_of(n, k as u8)];
            if n > 3 && n < 5000 {
                variants.push(vec![0; n]);
                variants.push(b"0000".iter().cycle().take(n).copied().collect());
                variants.push(b"0001".iter().cycle().take(n).copied().collect());
                variants.push(b"\n".iter().cycle().take(n).copied().collect());
            }
            for d in variants {
                let o = m.add_object(&d);
                w.add_object(&o, &d);
                reqs.push(get(&o));
                reqs.push(get(&oid_of(format!("absent {} {}", i, k).as_bytes())));
            }
        }
        let before = tree(&w.lfs);
        for ch in reqs.chunks(16) {
            session_case(rep, w, &mut m, Mode::Down, &ch.iter().collect::<Vec<_>>(), true);
        }
        if tree(&w.lfs) != before {
            rep.violation("store changed", "downloading changed the store", &format!("{:?}", groups[i]));
        }
        rep.count("objects", reqs.len() as u64 / 2);
    });
    rep.scope("object sizes (each with several contents)", lens.len() as u64);
    // a single-byte object for every byte
    let w = world();
    w.wipe();
    w.mk_lfs(0o755);
    let mut m = Model::default();
    let mut reqs = vec![];
    for c in 0..=255u8 {
        let o = m.add_object(&[c]);
        w.add_object(&o, &[c]);
        reqs.push(get(&o));
    }
    history(rep, &w, &mut m, Mode::Down, &reqs);
    rep.scope("one-byte objects", 256);
    // malformed and near-miss IDs, and extra arguments
    let b = Base::new();
    let mut vars: Vec<Request> = vec![];
    for v in oid_variants(&b.a) {
        if v.contains(&b' ') || v.ends_with(b"\n") {
            continue;
        }
        let mut c = b"get-object ".to_vec();
        c.extend_from_slice(&v);
        c.push(b'\n');
        let s = String::from_utf8_lossy(&v).to_string();
        let op = if valid_oid(&s) { Op::Get { oid: s.clone() } } else { Op::Bad };
        vars.push(Request { op, bytes: Req::default().data(&c).flush(), name: format!("get-object {}", show(&v)) });
    }
    let mut g = get(&b.a);
    g.bytes = Req::cmd(&format!("get-object {}\n", b.a)).arg("transfer=ssh").arg("foo=bar").flush();
    vars.push(g);
    vars.push(bad("malformed argument", Req::cmd(&format!("get-object {}\n", b.a)).data(b"foo\n").flush()));
    let ga = get(&b.a);
    let chunks: Vec<&[Request]> = vars.chunks(10).collect();
    pool(chunks.len(), world, |w, i| {
        let mut m = b.setup(w);
        let before = tree(&w.lfs);
        let reqs: Vec<&Request> = chunks[i].iter().flat_map(|v| [v, &ga]).collect();
        session_case(rep, w, &mut m, Mode::Down, &reqs, true);
        if tree(&w.lfs) != before {
            rep.violation(&format!("store changed {}", chunks[i][0].name), "downloading changed the store", &names(&reqs));
        }
    });
    rep.scope("absent and malformed object IDs", vars.len() as u64);
    // objects that came in through an upload
    let w = world();
    w.wipe();
    w.mk_lfs(0o755);
    let mut m = Model::default();
    let up: Vec<Request> = [0usize, 1, 65515, 65516, 65517, 200_000].iter().map(|&n| put(&bytes_of(n, 9))).collect();
    history(rep, &w, &mut m, Mode::Up, &up);
    let down: Vec<Request> = m.objects.keys().rev().map(|k| get(k)).collect();
    history(rep, &w, &mut m, Mode::Down, &down);
    rep.scope("objects uploaded before", 6);
    // sizes that need more than 32 bits; one of them to the end
    pool(HUGE.len(), world, |w, i| {
        let (o, n) = huge(w)[i].clone();
        huge_download(rep, w, &o, n, if n == (1 << 32) + 5 || n == (1 << 33) && !q { n + 1 } else { 3_000_000 });
    });
    rep.scope("huge objects", HUGE.len() as u64);
    crate::link::linked(rep, "read");
}

/// Stored objects too large to hold in memory: holes, which the server has no reason to doubt.
const HUGE: [u64; 9] = [(1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 33, (1 << 40) + 3, 1 << 42];

fn huge(w: &World) -> Vec<(String, u64)> {
    w.wipe();
    w.mk_lfs(0o755);
    HUGE.iter()
        .map(|&n| {
            let o = oid_of(format!("huge {}", n).as_bytes());
            w.add_object(&o, b"");
            std::fs::OpenOptions::new().write(true).open(w.object_path(&o)).unwrap().set_len(n).unwrap();
            (o, n)
        })
        .collect()
}

/// Download a huge object, and look at the response up to `upto` bytes of content.
fn huge_download(rep: &Report, w: &World, oid: &str, size: u64, upto: u64) {
    use std::io::{Read, Write};
    crate::world::EVALS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut c = std::process::Command::new(bin("git-lfs-transfer"));
    c.args([w.repo.to_str().unwrap(), "download"]).env_clear().current_dir(&w.dir).envs(w.env());
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    let uid = w.uid;
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(move || {
            let lim = libc::rlimit { rlim_cur: 1 << 30, rlim_max: 1 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 300, rlim_max: 300 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            if uid != 0 && (libc::setgroups(0, std::ptr::null()) != 0 || libc::setresgid(uid, uid, uid) != 0 || libc::setresuid(uid, uid, uid) != 0) {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = c.spawn().expect("cannot start git-lfs-transfer");
    let rq = get(oid);
    child.stdin.take().unwrap().write_all(&rq.bytes).unwrap();
    let mut out = std::io::BufReader::with_capacity(1 << 17, child.stdout.take().unwrap());
    let mut packet = |want: &str| -> Result<Option<Vec<u8>>, String> {
        let mut h = [0u8; 4];
        out.read_exact(&mut h).map_err(|e| format!("{}: {}", want, e))?;
        let n = decode_len(&h).ok_or(format!("{}: illegal packet header {:?}", want, show(&h)))?;
        if n < 4 {
            return Ok(None);
        }
        let mut d = vec![0; n - 4];
        out.read_exact(&mut d).map_err(|e| format!("{}: {}", want, e))?;
        Ok(Some(d))
    };
    let mut go = || -> Result<(), String> {
        packet("version")?;
        packet("flush")?;
        let mut head = vec![];
        while let Some(d) = packet("status and arguments")? {
            head.push(d);
        }
        let want = vec![b"status 200\n".to_vec(), format!("size={}\n", size).into_bytes()];
        if head != want {
            return Err(format!("the response is {:?}", head.iter().map(|x| show(x)).collect::<Vec<_>>()));
        }
        let mut got = 0u64;
        while got < upto {
            match packet("content")? {
                Some(d) if d.iter().all(|&b| b == 0) => got += d.len() as u64,
                Some(_) => return Err(format!("other bytes than stored after {}", got)),
                None => break,
            }
        }
        if upto < size && got < upto || upto >= size && got != size {
            return Err(format!("the content ends after {} bytes", got));
        }
        if upto > size && packet("end").is_ok() {
            return Err("more output after the end".into());
        }
        Ok(())
    };
    if let Err(e) = go() {
        rep.violation(&format!("huge object {}", size), &format!("download of an object of {} bytes: {}", size, e), &rq.name);
    }
    let _ = child.kill();
    let _ = child.wait();
}

// ------------------------------------------------------------------------------------------
// C08

pub fn c08(rep: &Report) {
    let q = rep.quick();
    let objs: Vec<Vec<u8>> = vec![vec![], b"12345".to_vec(), bytes_of(70_000, 1)];
    let setup = |w: &World| -> Model {
        w.wipe();
        w.mk_lfs(0o755);
        let mut m = Model::default();
        for d in &objs {
            let o = m.add_object(d);
            w.add_object(&o, d);
        }
        m
    };
    let absent = [oid_of(b"absent1"), oid_of(b"absent2")];
    let mut items: Vec<(String, u64)> = vec![];
    for d in &objs {
        for s in [d.len() as u64, 0, 77, u64::MAX] {
            items.push((oid_of(d), s));
        }
    }
    for a in &absent {
        for s in [0, 1, 4_294_967_296, u64::MAX] {
            items.push((a.clone(), s));
        }
    }
    items.sort();
    items.dedup();
    let modes = [Mode::Up, Mode::Down];
    // all lists of up to two items, lists of three over a reduced set
    let mut lists: Vec<Vec<(String, u64)>> = vec![vec![]];
    for x in &items {
        lists.push(vec![x.clone()]);
        for y in &items {
            lists.push(vec![x.clone(), y.clone()]);
        }
    }
    let red: Vec<&(String, u64)> = if q { items.iter().step_by(3).collect() } else { items.iter().collect() };
    for x in &red {
        for y in &red {
            for z in &red {
                lists.push(vec![(*x).clone(), (*y).clone(), (*z).clone()]);
            }
        }
    }
    let reqs: Vec<Request> = lists.iter().map(|l| batch(&l.iter().map(|x| (x.0.as_str(), x.1)).collect::<Vec<_>>())).collect();
    let chunks: Vec<&[Request]> = reqs.chunks(50).collect();
    pool(chunks.len() * 2, world, |w, i| {
        let mut m = setup(w);
        let r: Vec<&Request> = chunks[i / 2].iter().collect();
        session_case(rep, w, &mut m, modes[i % 2], &r, true);
        if i % 19 == 0 {
            rep.sample(format!("{}: {}", modes[i % 2].arg(), r[0].name));
        }
    });
    rep.scope("batch requests by list of items, both modes", reqs.len() as u64 * 2);
    // malformed lines at every position, arguments
    let good = format!("{} 5\n", absent[0]);
    let o = oid_of(&objs[1]);
    let badlines: Vec<Vec<u8>> = vec![
        b"".to_vec(), b"\n".to_vec(), b" \n".to_vec(), format!("{}\n", o).into_bytes(), format!("{} 5", o).into_bytes(),
        format!("{} \n", o).into_bytes(), format!("{} x\n", o).into_bytes(), format!("{} -1\n", o).into_bytes(),
        format!("{}  5\n", o).into_bytes(), format!(" {} 5\n", o).into_bytes(), format!("{} 5 \n", o).into_bytes(),
        format!("{} 5 6\n", o).into_bytes(), format!("{}\t5\n", o).into_bytes(), format!("{} 5.0\n", o).into_bytes(),
        format!("{} 18446744073709551616\n", o).into_bytes(), format!("{} 5\n", o.to_uppercase()).into_bytes(),
        format!("{} 5\n", &o[1..]).into_bytes(), format!("{}0 5\n", o).into_bytes(), format!("g{} 5\n", &o[1..]).into_bytes(),
        format!("../../{} 5\n", &o[6..]).into_bytes(), format!("/{} 5\n", &o[1..]).into_bytes(), b" 5\n".to_vec(), b"5\n".to_vec(),
        b"\xff\xfe 5\n".to_vec(), [o.as_bytes(), b" \xff5\n"].concat(), format!("5 {}\n", o).into_bytes(), format!("{} 5\n{} 5\n", o, o).into_bytes(),
        format!("{} 5\r\n", o).into_bytes(),
    ];
    let mut reqs: Vec<Request> = vec![];
    for (bi, l) in badlines.iter().enumerate() {
        for total in 1..=3usize {
            for pos in 0..total {
                let mut r = Req::cmd("batch\n").arg("transfer=ssh").arg("refname=refs/heads/main").delim();
                for k in 0..total {
                    r = if k == pos { r.data(l) } else { r.data(good.as_bytes()) };
                }
                reqs.push(bad(&format!("batch with malformed line {} ({}) at {} of {}", bi, show(l), pos, total), r.flush()));
            }
        }
    }
    let variants: Vec<Vec<u8>> = oid_variants(&o).into_iter().filter(|v| !v.contains(&b' ') && !v.contains(&b'\n')).collect();
    for v in &variants {
        let line = [&v[..], b" 5\n"].concat();
        let bytes = Req::cmd("batch\n").arg("transfer=ssh").delim().data(good.as_bytes()).data(&line).flush();
        let name = format!("batch with {}", show(&line));
        let s = String::from_utf8_lossy(v).to_string();
        reqs.push(if valid_oid(&s) { Request { op: batch(&[(&absent[0], 5), (&s, 5)]).op, bytes, name } } else { bad(&name, bytes) });
    }
    // what follows the ID
    for (t, v) in number_texts(if q { 3 } else { 4 }) {
        let line = [o.as_bytes(), b" ", &t, b"\n"].concat();
        let bytes = Req::cmd("batch\n").arg("transfer=ssh").delim().data(good.as_bytes()).data(&line).flush();
        let name = format!("batch with {}", show(&line));
        reqs.push(match v {
            Some(v) => Request { op: batch(&[(&absent[0], 5), (&o, v)]).op, bytes, name },
            None => bad(&name, bytes),
        });
    }
    for k in ["transfer", "refname", "hash-algo", "x", ""] {
        for (a, b) in [("sha256", "sha256"), ("sha256", "sha1"), ("ssh", "ssh"), ("", "")] {
            let r = Req::cmd("batch\n").arg(&format!("{}={}", k, a)).arg(&format!("{}={}", k, b)).delim().data(good.as_bytes()).flush();
            reqs.push(bad(&format!("batch {}={} {}={}", k, a, k, b), r));
        }
    }
    for h in ["sha1", "sha512", "", "sha2", "sha2567", "md5", "sha256,sha1", "x"] {
        reqs.push(bad(&format!("batch hash-algo={}", h), Req::cmd("batch\n").arg(&format!("hash-algo={}", h)).delim().data(good.as_bytes()).flush()));
        reqs.push(bad(&format!("empty batch hash-algo={}", h), Req::cmd("batch\n").arg("transfer=ssh").arg(&format!("hash-algo={}", h)).delim().flush()));
    }
    for (n, a) in [("no equals", &b"transfer\n"[..]), ("no newline", b"transfer=ssh"), ("empty", b"")] {
        reqs.push(bad(&format!("batch argument: {}", n), Req::cmd("batch\n").data(a).delim().data(good.as_bytes()).flush()));
    }
    reqs.push(bad("batch duplicate argument", Req::cmd("batch\n").arg("a=b").arg("a=c").delim().data(good.as_bytes()).flush()));
    let mut ok = batch(&[(&o, 9), (&absent[0], 8)]);
    ok.bytes = Req::cmd("batch\n").arg("hash-algo=sha256").delim().data(format!("{} 9\n", o).as_bytes()).data(format!("{} 8\n", absent[0]).as_bytes()).flush();
    ok.name += " hash-algo=sha256";
    reqs.push(ok.clone());
    let chunks: Vec<&[Request]> = reqs.chunks(20).collect();
    pool(chunks.len() * 2, world, |w, i| {
        let mut m = setup(w);
        let rs: Vec<&Request> = chunks[i / 2].iter().flat_map(|r| [r, &ok]).collect();
        session_case(rep, w, &mut m, modes[i % 2], &rs, true);
    });
    rep.scope("batch requests with other lines and arguments, both modes", reqs.len() as u64 * 2);
    // verify-object
    let mut reqs: Vec<Request> = vec![];
    for d in objs.iter().map(|d| oid_of(d)).chain(absent.iter().cloned()) {
        let real = objs.iter().find(|x| oid_of(x) == d).map(|x| x.len() as u64).unwrap_or(5);
        for s in [0, 1, 4, 5, 6, 69_999, 70_000, 70_001, real + (1 << 32), real.wrapping_sub(1), u64::MAX, real + (1 << 63)] {
            reqs.push(verify(&d, s));
        }
        for s in ["", "x", "-1", "5x", " 5", "5 ", "18446744073709551616", "18446744073709551621"] {
            reqs.push(bad(&format!("verify-object {} size={}", &d[..8], s), Req::cmd(&format!("verify-object {}\n", d)).arg(&format!("size={}", s)).flush()));
        }
        reqs.push(bad("verify-object without size", Req::cmd(&format!("verify-object {}\n", d)).flush()));
        reqs.push(bad("verify-object without size", Req::cmd(&format!("verify-object {}\n", d)).arg("sized=5").flush()));
        reqs.push(bad("verify-object malformed", Req::cmd(&format!("verify-object {}\n", d)).arg("size=5").data(b"x\n").flush()));
        reqs.push(bad("verify-object duplicate", Req::cmd(&format!("verify-object {}\n", d)).arg("size=5").arg("size=5").flush()));
    }
    for (t, v) in number_texts(if q { 3 } else { 4 }) {
        let bytes = Req::cmd(&format!("verify-object {}\n", o)).argb("size", &t).flush();
        let name = format!("verify-object size={}", show(&t));
        reqs.push(match v {
            Some(v) => Request { op: verify(&o, v).op, bytes, name },
            None => bad(&name, bytes),
        });
    }
    for v in oid_variants(&o) {
        if v.contains(&b' ') || v.ends_with(b"\n") {
            continue;
        }
        let s = String::from_utf8_lossy(&v).to_string();
        let mut c = b"verify-object ".to_vec();
        c.extend_from_slice(&v);
        c.push(b'\n');
        let op = if valid_oid(&s) { Op::Verify { oid: s, size: 5 } } else { Op::Bad };
        reqs.push(Request { op, bytes: Req::default().data(&c).arg("size=5").flush(), name: format!("verify-object {} size=5", show(&v)) });
    }
    let chunks: Vec<&[Request]> = reqs.chunks(100).collect();
    pool(chunks.len(), world, |w, i| {
        let mut m = setup(w);
        session_case(rep, w, &mut m, Mode::Up, &chunks[i].iter().collect::<Vec<_>>(), true);
    });
    rep.scope("verify-object requests", reqs.len() as u64);
    // pairs of a batch or verify with an upload before or after
    let w = world();
    let mut m = setup(&w);
    let n = b"arrives between";
    let on = oid_of(n);
    let r = [batch(&[(&on, 3)]), verify(&on, 15), put(n), batch(&[(&on, 3), (&absent[0], 1), (&on, 4)]), verify(&on, 15), verify(&on, 14)];
    session_case(rep, &w, &mut m, Mode::Up, &r.iter().collect::<Vec<_>>(), true);
    // long batches
    let many: Vec<(String, u64)> = (0..if q { 3000 } else { 30_000 }).map(|i| (oid_of(format!("m{}", i).as_bytes()), i as u64)).chain(objs.iter().map(|d| (oid_of(d), 1))).collect();
    let rq = batch(&many.iter().map(|x| (x.0.as_str(), x.1)).collect::<Vec<_>>());
    for mode in modes {
        session_case(rep, &w, &mut m, mode, &[&rq], true);
    }
    rep.scope("long batches", 2);
    // sizes that need more than 32 bits
    let hs = huge(&w);
    for mode in modes {
        let rq = batch(&hs.iter().map(|x| (x.0.as_str(), 7)).collect::<Vec<_>>());
        let o = crate::world::run_program(&bin("git-lfs-transfer"), &[w.repo.to_str().unwrap(), mode.arg()], &w, w.uid, 0o022, &rq.bytes, 30);
        let want: Vec<Vec<u8>> = hs.iter().map(|(o, n)| format!("{} {} {}\n", o, n, if matches!(mode, Mode::Up) { "noop" } else { "download" }).into_bytes()).collect();
        let got = parse_session(&o.out).unwrap_or_default();
        if got.len() != 1 || got[0].code != 200 || got[0].data.as_ref() != Some(&want) {
            rep.violation(&format!("huge batch {}", mode.arg()), "batch does not report the sizes of huge objects", &detail(mode.arg(), &rq.name, &rq.bytes, &o, ""));
        }
    }
    let cases: Vec<(String, u64, u64)> = hs.iter().flat_map(|(o, n)| [*n, n - 1, n + 1, n ^ (1 << 31), n ^ (1 << 32), n & 0xffff_ffff, n & 0x7fff_ffff, n | (1 << 63)].map(|c| (o.clone(), *n, c))).collect();
    let input: Vec<u8> = cases.iter().flat_map(|(o, _, c)| verify(o, *c).bytes).collect();
    let o = crate::world::run_program(&bin("git-lfs-transfer"), &[w.repo.to_str().unwrap(), "upload"], &w, w.uid, 0o022, &input, 30);
    let got: Vec<u32> = parse_session(&o.out).unwrap_or_default().iter().map(|r| r.code).collect();
    let want: Vec<u32> = cases.iter().map(|(_, n, c)| if n == c { 200 } else { 409 }).collect();
    if got != want {
        rep.violation("huge verify", &format!("verify-object of huge objects answers {:?}, expected {:?}", got, want), &detail("upload", "verify-object", &input, &o, ""));
    }
    rep.scope("requests about huge objects", cases.len() as u64 + 2);
    crate::link::linked(rep, "told");
}

// ------------------------------------------------------------------------------------------
// C09

#[derive(Clone)]
struct HStep {
    req: Request,
    mode: Mode,
    uid: u32,
}

/// Run steps, starting a new session whenever the user or mode changes or `split` says so.
fn run_history(rep: &Report, w: &World, m: &mut Model, steps: &[HStep], split: u32) -> Result<(), String> {
    let mut i = 0;
    while i < steps.len() {
        let mut j = i + 1;
        while j < steps.len() && steps[j].mode == steps[i].mode && steps[j].uid == steps[i].uid && split & (1 << j) == 0 {
            j += 1;
        }
        let reqs: Vec<&Request> = steps[i..j].iter().map(|s| &s.req).collect();
        let o = Sess::new(w, steps[i].mode.arg()).user(steps[i].uid).umask(0).run(&join(&reqs));
        rep.count("sessions", 1);
        rep.count("requests", reqs.len() as u64);
        judge_session(m, &reqs, steps[i].mode, &user_name(steps[i].uid), &o).map_err(|e| {
            format!("{}\nsteps {}..{}: {}", e, i, j, detail(steps[i].mode.arg(), &names(&reqs), &join(&reqs), &o, ""))
        })?;
        i = j;
    }
    m.compare_store(w)
}

pub fn c09(rep: &Report) {
    let q = rep.quick();
    let (da, db) = (b"A".to_vec(), b"object B".to_vec());
    let (oa, ob) = (oid_of(&da), oid_of(&db));
    let p: &[u8] = b"p";
    let qp: &[u8] = b"q";
    let up = |r: Request, uid: u32| HStep { req: r, mode: Mode::Up, uid };
    let down = |r: Request, uid: u32| HStep { req: r, mode: Mode::Down, uid };
    let (u1, u2) = (UIDS[0].0, UIDS[1].0);
    let ops: Vec<Request> = vec![
        put(&da),
        put(&db),
        put_as(&oa, 1, b"x", 10),
        put_as(&ob, 7, &db, 10),
        lock(p),
        lock(qp),
        unlock(p),
        unlock(qp),
        unlock_id(b"nonsense"),
        list(None, None, None),
        list(Some(1), None, None),
        list(None, Some(lock_id(p).as_bytes()), None),
        list(None, None, Some(p)),
        list(None, None, Some(qp)),
        batch(&[(&oa, 9), (&ob, 9)]),
        batch(&[(&ob, 1), (&oa, 1), (&ob, 2)]),
        verify(&oa, 1),
        verify(&ob, 1),
        get(&oa),
        get(&ob),
        version(),
    ];
    let fresh = |w: &World| {
        w.wipe();
        w.mk_lfs(0o777);
    };
    // 1. explicit-state exploration: every reachable model state x every operation, mode and user
    type Key = (Vec<String>, Vec<(String, String)>);
    let key = |m: &Model| -> Key {
        (m.objects.keys().cloned().collect(), m.locks.iter().map(|(k, v)| (k.clone(), v.owner.clone())).collect())
    };
    let mut trans: Vec<HStep> = vec![];
    for o in &ops {
        for uid in [u1, u2] {
            trans.push(up(o.clone(), uid));
            trans.push(down(o.clone(), uid));
        }
    }
    let mut states: Vec<(Key, Vec<HStep>)> = vec![(key(&Model::default()), vec![])];
    let mut seen: BTreeSet<Key> = states.iter().map(|x| x.0.clone()).collect();
    let mut done = 0;
    while done < states.len() {
        let layer: Vec<(Key, Vec<HStep>)> = states[done..].to_vec();
        let found = std::sync::Mutex::new(vec![]);
        pool(layer.len() * trans.len(), || World::new(UID, None), |w, i| {
            let (_, path) = &layer[i / trans.len()];
            let t = &trans[i % trans.len()];
            fresh(w);
            let mut m = Model::default();
            let mut steps = path.clone();
            steps.push(t.clone());
            // then look at everything, in other sessions
            let n = steps.len();
            steps.push(down(list(None, None, None), u1));
            steps.push(down(batch(&[(&oa, 3), (&ob, 4)]), u1));
            steps.push(down(get(&oa), u1));
            steps.push(down(get(&ob), u1));
            steps.push(up(list(None, None, None), u2));
            steps.push(up(verify(&oa, 1), u2));
            let mut mm = Model::default();
            let r = run_history(rep, w, &mut mm, &steps[..n], 1 << (n - 1)).and_then(|_| {
                m = mm.clone();
                run_history(rep, w, &mut m, &steps[n..], 0)
            });
            rep.count("transitions", 1);
            match r {
                Ok(()) => found.lock().unwrap().push((i, key(&mm), steps[..n].to_vec())),
                Err(e) => {
                    let n: Vec<String> = steps[..n].iter().map(|s| format!("{}/{}/{}", s.mode.arg(), s.uid, s.req.name)).collect();
                    rep.violation(&n.join("; "), &format!("history [{}]: {}", n.join("; "), e.lines().next().unwrap_or("")), &e);
                }
            }
        });
        done = states.len();
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| x.0);
        for (_, k, path) in f {
            if seen.insert(k.clone()) {
                states.push((k, path));
            }
        }
        if rep.violated() {
            break;
        }
    }
    rep.count("states", states.len() as u64);
    rep.scope("reachable states (2 objects, 2 paths, 2 users) x operations x modes x users", (states.len() * trans.len()) as u64);
    // 2. all histories up to a depth, with every split into sessions
    let hops: Vec<HStep> = vec![
        up(put(&da), u1), up(put(&db), u1), up(put_as(&oa, 8, &db, 3), u1), up(lock(p), u1), up(lock(qp), u2), up(lock(p), u2),
        up(unlock(p), u1), up(unlock(qp), u1), up(list(None, None, None), u1), up(batch(&[(&oa, 2), (&ob, 2)]), u1), up(verify(&oa, 1), u1),
        down(get(&oa), u1), down(batch(&[(&ob, 2), (&oa, 2)]), u2), down(list(None, None, None), u2),
    ];
    // the same with objects whose directories are shared
    let near = mate(&da, 4);
    let (on, side) = (oid_of(&near), mate(&da, 2));
    let hops2: Vec<HStep> = vec![
        up(put(&da), u1), up(put(&near), u1), up(put(&side), u2), up(put_as(&on, near.len() as u64, &side, 3), u1), up(put_as(&oa, 8, &near, 3), u2), up(lock(p), u1),
        up(unlock(p), u1), up(batch(&[(&oa, 2), (&on, 2), (&oid_of(&side), 3)]), u1), up(verify(&on, near.len() as u64), u1),
        down(get(&on), u1), down(get(&oid_of(&side)), u2), down(batch(&[(&on, 2), (&oa, 2)]), u2),
    ];
    let depth = if q { 3 } else { 4 };
    for (d, hops) in (2..=depth).flat_map(|d| [(d, &hops), (d, &hops2)]) {
        let k = hops.len();
        let n = k.pow(d as u32);
        pool(n, world, |w, i| {
            let mut steps = vec![];
            let mut x = i;
            for _ in 0..d {
                steps.push(hops[x % k].clone());
                x /= k;
            }
            // all in as few sessions as possible, and each in its own
            for split in [0u32, u32::MAX] {
                fresh(w);
                let mut m = Model::default();
                if let Err(e) = run_history(rep, w, &mut m, &steps, split) {
                    let n: Vec<String> = steps.iter().map(|s| format!("{}/{}/{}", s.mode.arg(), s.uid, s.req.name)).collect();
                    rep.violation(&n.join("; "), &format!("history [{}]: {}", n.join("; "), e.lines().next().unwrap_or("")), &e);
                }
            }
            if i % 1777 == 0 {
                rep.sample(steps.iter().map(|s| format!("{}: {}", s.mode.arg(), s.req.name)).collect::<Vec<_>>().join("; "));
            }
        });
        rep.scope(&format!("all histories of {} operations, joined and split into sessions", d), 2 * n as u64);
    }
    // within one session: longer histories over fewer operations, from an empty and from a filled store
    let on = oid_of(&near);
    let nl = near.len() as u64;
    let uops: Vec<Request> = vec![put(&da), batch(&[(&oa, 2), (&on, 2)]), verify(&oa, 1), put_as(&oa, 1, b"x", 9), lock(p), unlock(p), list(None, None, None), lock(qp), list(None, None, Some(p)), put(&near), verify(&on, nl), unlock(qp)];
    let take: Vec<(usize, usize)> = if q { vec![(4, 9), (5, 6), (3, 12)] } else { vec![(4, 12), (5, 9), (6, 6)] };
    for (d, k) in take {
        let n = k.pow(d as u32);
        pool(2 * n, world, |w, i| {
            let mut x = i / 2;
            let mut steps = vec![];
            for _ in 0..d {
                // the reduced menu is spread over the whole
                let o = if k == 6 { [0, 1, 4, 5, 6, 8][x % k] } else { x % k };
                steps.push(up(uops[o].clone(), u1));
                x /= k;
            }
            fresh(w);
            let mut m = Model::default();
            let mut before = vec![];
            if i % 2 == 1 {
                before = vec![up(put(&da), u1), up(lock(p), u2), up(lock(qp), u1)];
            }
            let r = run_history(rep, w, &mut m, &before, 0).and_then(|_| run_history(rep, w, &mut m, &steps, 0));
            if let Err(e) = r {
                let n: Vec<String> = before.iter().chain(&steps).map(|s| format!("{}/{}/{}", s.mode.arg(), s.uid, s.req.name)).collect();
                rep.violation(&n.join("; "), &format!("history [{}]: {}", n.join("; "), e.lines().next().unwrap_or("")), &e);
            }
        });
        rep.scope(&format!("sessions of {} requests out of {}, on an empty and on a filled store", d, k), 2 * n as u64);
    }
    // the same for downloads from a filled store
    let dops: Vec<Request> = vec![get(&oa), get(&on), batch(&[(&oa, 2), (&on, 2)]), list(None, None, None), list(None, None, Some(p)), list(Some(1), None, None), lock(p), get("nonsense")];
    let (d, k) = (if q { 4usize } else { 5 }, dops.len());
    pool(k.pow(d as u32), world, |w, i| {
        let mut x = i;
        let mut steps = vec![];
        for _ in 0..d {
            steps.push(down(dops[x % k].clone(), u1));
            x /= k;
        }
        fresh(w);
        let mut m = Model::default();
        w.add_object(&m.add_object(&da), &da);
        w.add_lock_file(&lock_id(qp), &lock_content(1_000_000, qp), u2);
        m.locks.insert(lock_id(qp), LockRec { path: qp.to_vec(), time: 1_000_000, owner: user_name(u2) });
        w.add_lock_file(&lock_id(b"r"), &lock_content(1_000_001, b"r"), u1);
        m.locks.insert(lock_id(b"r"), LockRec { path: b"r".to_vec(), time: 1_000_001, owner: user_name(u1) });
        if let Err(e) = run_history(rep, w, &mut m, &steps, 0) {
            let n: Vec<String> = steps.iter().map(|s| s.req.name.clone()).collect();
            rep.violation(&n.join("; "), &format!("download session [{}]: {}", n.join("; "), e.lines().next().unwrap_or("")), &e);
        }
    });
    rep.scope(&format!("download sessions of {} requests out of {}", d, k), k.pow(d as u32) as u64);
    // names that are nearly those of objects and locks name nothing
    let near_ids = |id: &str| -> Vec<Vec<u8>> {
        let b = id.as_bytes();
        let mut v: Vec<Vec<u8>> = vec![];
        for n in 0..b.len() {
            v.push(b[..n].to_vec());
            v.push(b[b.len() - n..].to_vec());
            v.push([&b[..n], b"*"].concat());
            for c in [b'0', b'f', b'G', b'/', b'?', b'.', 0, 0xff, b[n].to_ascii_uppercase()] {
                let mut x = b.to_vec();
                x[n] = c;
                v.push(x);
            }
            let mut x = b.to_vec();
            x.remove(n);
            v.push(x);
            v.push([&b[..n], b"-", &b[n..]].concat());
        }
        for (pre, post) in [("", "0"), ("0", ""), ("", "/"), ("./", ""), ("/", ""), ("../locks/", ""), ("", ".lock"), ("", "\0"), ("", "\r"), ("\t", ""), ("", "\t"), ("0x", ""), ("sha256:", ""), ("id=", ""), ("\"", "\""), ("+", ""), ("-", "")] {
            v.push(format!("{}{}{}", pre, id, post).into_bytes());
        }
        v.push(id.to_uppercase().into_bytes());
        v.push([b, b].concat());
        v.retain(|x| x != b && !x.contains(&b' ') && x.last() != Some(&b'\n'));
        v.sort();
        v.dedup();
        v
    };
    let pid = lock_id(p);
    let cases: Vec<Vec<u8>> = near_ids(&pid);
    let chunks: Vec<&[Vec<u8>]> = cases.chunks(24).collect();
    pool(chunks.len(), world, |w, i| {
        fresh(w);
        let mut m = Model::default();
        let mut steps = vec![up(lock(p), u1), up(lock(qp), u2)];
        // by the owner and by somebody else; the lock is there all the time
        for (k, id) in chunks[i].iter().enumerate() {
            steps.push(up(unlock_id(id), if k % 2 == 0 { u1 } else { u2 }));
        }
        steps.push(down(list(None, None, None), u1));
        steps.push(up(unlock(p), u1));
        steps.push(up(list(None, None, None), u1));
        if let Err(e) = run_history(rep, w, &mut m, &steps, 0) {
            let key = format!("names that are nearly that of a lock, from {}", show(&chunks[i][0]));
            rep.violation(&key, &format!("{}: {}", key, e.lines().next().unwrap_or("")), &e);
        }
    });
    rep.scope("names that are nearly that of a lock", cases.len() as u64);
    // 3. one session with many requests on many objects and paths
    let w = world();
    fresh(&w);
    let mut m = Model::default();
    let mut reqs = vec![];
    for i in 0..if q { 400 } else { 4000 } {
        reqs.push(put(format!("object {}", i).as_bytes()));
        reqs.push(lock(format!("dir/file{}", i).as_bytes()));
        if i % 3 == 0 {
            reqs.push(unlock(format!("dir/file{}", i / 2).as_bytes()));
        }
        reqs.push(list(Some(7), None, None));
    }
    history(rep, &w, &mut m, Mode::Up, &reqs);
    rep.count("traces_validated_against_impl", rep.get("sessions"));
    rep.uncount("sessions");
}

// ------------------------------------------------------------------------------------------
// C10

pub fn c10(rep: &Report) {
    let b = Base::new();
    let mut menu = menu(&b);
    // every request of the protocol that could matter in the wrong mode, in several spellings
    for o in [&b.a, &b.b] {
        menu.push(get(o));
        menu.push(any("get-object without newline", Req::default().data(format!("get-object {}", o).as_bytes()).flush()));
        menu.push(any("get-object with arguments", Req::cmd(&format!("get-object {}\n", o)).arg("transfer=ssh").flush()));
        menu.push(any("get-object two words", Req::cmd(&format!("get-object {} {}\n", o, o)).flush()));
        menu.push(any("get-object double space", Req::cmd(&format!("get-object  {}\n", o)).flush()));
        menu.push(any("GET-OBJECT", Req::cmd(&format!("GET-OBJECT {}\n", o)).flush()));
        menu.push(any("batch download", Req::cmd("batch\n").arg("operation=download").delim().data(format!("{} 5\n", o).as_bytes()).flush()));
    }
    let secrets: [&[u8]; 2] = [b"@@SECRET-A@@", b"@@SECRET-B@@"];
    let n = menu.len();
    // download: nothing changes
    let unchanged = |w: &World, before: &[Entry], reqs: &[&Request], op: &str, o: &Outcome| {
        let after = tree(&w.lfs);
        if after != *before {
            let d: Vec<String> = after.iter().filter(|e| !before.contains(e)).map(|e| format!("+{} {:o} {}", e.path, e.mode, show(&e.data))).chain(before.iter().filter(|e| !after.contains(e)).map(|e| format!("-{} {:o}", e.path, e.mode))).collect();
            let nm = names(reqs);
            rep.violation(&format!("{} {}", op, nm), &format!("a {} session [{}] changed the store: {}", op, nm, d.join(", ")), &detail(op, &nm, &join(reqs), o, ""));
        }
    };
    pool(n * n + n, world, |w, i| {
        let reqs: Vec<&Request> = if i < n { vec![&menu[i]] } else { vec![&menu[(i - n) / n], &menu[(i - n) % n]] };
        if i >= n && rep.quick() && (i - n) / n % 3 != 0 && (i - n) % n % 3 != 0 {
            return;
        }
        b.setup(w);
        let before = tree(&w.lfs);
        let o = Sess::new(w, "download").run(&join(&reqs));
        rep.count("sessions", 1);
        unchanged(w, &before, &reqs, "download", &o);
        if let Some(c) = o.crashed() {
            rep.violation(&format!("download {}", names(&reqs)), &c, &detail("download", &names(&reqs), &join(&reqs), &o, ""));
        }
        // refused: every put, verify, lock, unlock
        if let Ok(r) = parse_session(&o.out) {
            for (k, q) in reqs.iter().enumerate() {
                if matches!(q.op, Op::Put { .. } | Op::Verify { .. } | Op::Lock { .. } | Op::Unlock { .. }) && r.get(k).map(|x| !x.refused()).unwrap_or(false) {
                    rep.violation(&format!("download {}", names(&reqs)), &format!("{} was served in a download session: {}", q.name, r[k].show()), &detail("download", &names(&reqs), &join(&reqs), &o, ""));
                }
                if q.op == Op::Quit {
                    break;
                }
            }
        }
        let o = Sess::new(w, "upload").run(&join(&reqs));
        rep.count("sessions", 1);
        if secrets.iter().any(|s| o.out.windows(s.len()).any(|x| x == *s)) {
            rep.violation(&format!("upload {}", names(&reqs)), &format!("an upload session [{}] returned object content", names(&reqs)), &detail("upload", &names(&reqs), &join(&reqs), &o, ""));
        }
    });
    rep.scope("requests and pairs of requests in download sessions (store compared) and upload sessions (output searched)", rep.get("sessions"));
    // every shape of the command line and of arguments, as a request that could do harm
    let mut forms = shapes(&b);
    forms.extend(argument_shapes(&b));
    let new = oid_of(b"poisoned");
    let v = version();
    pool(forms.len(), world, |w, i| {
        let (name, bytes, _) = &forms[i];
        let r = any(name, bytes.clone());
        b.setup(w);
        let before = tree(&w.lfs);
        let o = Sess::new(w, "download").run(&join(&[&r, &v]));
        rep.count("sessions", 1);
        unchanged(w, &before, &[&r, &v], "download", &o);
        // the same with the ID of a stored object
        let mut bytes = bytes.clone();
        let at: Vec<usize> = (0..bytes.len().saturating_sub(63)).filter(|k| &bytes[*k..k + 64] == new.as_bytes()).collect();
        for k in &at {
            bytes[*k..k + 64].copy_from_slice(b.a.as_bytes());
        }
        if at.is_empty() && !name.starts_with("get-object") {
            return;
        }
        let r = any(name, bytes);
        b.setup(w);
        let o = Sess::new(w, "upload").run(&join(&[&r, &v]));
        rep.count("sessions", 1);
        if secrets.iter().any(|s| o.out.windows(s.len()).any(|x| x == *s)) {
            rep.violation(&format!("upload {}", name), &format!("an upload session [{}] returned object content", name), &detail("upload", name, &join(&[&r, &v]), &o, ""));
        }
    });
    rep.scope("shapes of command lines and arguments in download sessions (store compared) and upload sessions (output searched)", forms.len() as u64);
    // other operations
    let ops: Vec<&str> = vec!["Upload", "UPLOAD", "uploads", "upload ", " upload", "up", "u", "", "download\n", "Download", "downloads", "down", "both", "transfer", "uploaddownload", "upload download", "upload,download", "read", "write", "0", "1", "true", "lock", "git-lfs-transfer", "*", "\u{fc}pload", "uplo\u{430}d"];
    let good = [version(), put(b"new"), lock(b"new"), unlock(HELD), get(&b.a), list(None, None, None), batch(&[(&b.a, 1)]), quit()];
    let refs: Vec<&Request> = good.iter().collect();
    pool(ops.len() * (refs.len() + 2), world, |w, i| {
        let op = ops[i / (refs.len() + 2)];
        let k = i % (refs.len() + 2);
        let reqs: Vec<&Request> = if k < refs.len() { vec![refs[k]] } else if k == refs.len() { refs.clone() } else { vec![] };
        b.setup(w);
        let before = tree(&w.lfs);
        let o = Sess::new(w, op).run(&join(&reqs));
        rep.count("sessions", 1);
        unchanged(w, &before, &reqs, op, &o);
        let e = if let Some(c) = o.crashed() {
            Some(c)
        } else if o.code == Some(0) {
            Some("ended successfully".into())
        } else {
            match if o.out.is_empty() { Ok(vec![]) } else { parse_session(&o.out) } {
                Ok(v) if v.is_empty() => None,
                Ok(v) => Some(format!("served requests: {}", v[0].show())),
                Err(e) => Some(e),
            }
        };
        if let Some(e) = e {
            rep.violation(&format!("operation {:?}", op), &format!("a session with operation {:?} {}", op, e), &detail(op, &names(&reqs), &join(&reqs), &o, &e));
        }
    });
    rep.scope("sessions with other operation names", (ops.len() * (refs.len() + 2)) as u64);
}

// ------------------------------------------------------------------------------------------
// C11

pub struct Traced {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub outside: BTreeSet<String>,
    pub escapes: Vec<String>,
    pub ops: Vec<tracer::FsOp>,
    pub status: i32,
    pub trace: Vec<String>,
}

pub fn traced(w: &World, op: &str, reqs: &[&Request], uid: u32, startup: bool) -> Traced {
    w.note_case(op, uid, 1 << 20, &join(reqs));
    let mut cfg = tcfg(w, op, reqs.iter().map(|r| r.bytes.clone()).collect(), uid, 1_700_000_000);
    cfg.sched_startup = startup;
    let mut nm = tracer::Names::default();
    let mut p = tracer::Proc::spawn(cfg, &mut nm);
    p.keep_trace = true;
    let mut ops = vec![];
    while !p.done() {
        if let Some(o) = p.pending() {
            ops.push(o.clone());
        }
        p.step(tracer::Do::Run, &mut nm);
    }
    Traced {
        out: p.stdout(),
        err: p.stderr(),
        outside: p.outside.iter().map(|x| x.0.clone()).collect(),
        escapes: p.escapes.clone(),
        ops,
        status: p.status().unwrap(),
        trace: p.trace.clone(),
    }
}

pub fn c11(rep: &Report) {
    let b = Base::new();
    const CANARY: &[u8] = b"@@CANARY@@";
    let held = lock_id(HELD);
    // Everything a hostile request might hit, inside and outside the lfs directory. Each canary is a
    // well-formed lock record or object too, so that following the wrong name discloses it.
    let setup = |w: &World| -> Model {
        let m = b.setup(w);
        let rec = lock_content(77, CANARY);
        let o = UID;
        for p in [
            w.dir.join("outside"), w.repo.join("secret"), w.lfs.join("secret"), w.lfs.join("locks").join("plain"),
            w.lfs.join("locks").join(format!("{}.lock", held)), w.lfs.join("locks").join(held.to_uppercase()),
            w.lfs.join("locks").join(&held[..63]), w.lfs.join("incomplete").join("part"), w.lfs.join("tmp").join("t"),
            w.lfs.join("objects").join("loose"), w.lfs.join(lock_id(CANARY)), w.repo.join(lock_id(CANARY)), w.dir.join(lock_id(CANARY)),
            w.lfs.join("locks").join(format!("{}x", held)), w.lfs.join("locks").join(format!(" {}", held)),
        ] {
            std::fs::write(&p, &rec).unwrap();
            chown(&p, o);
        }
        // left behind when the lock was taken: a copy of it
        for n in [".77-0.lock", ".77.unlock", ".tmp", "0"] {
            let p = w.lfs.join("locks").join(format!("{}{}", held, n));
            std::fs::write(&p, lock_content(T_HELD, HELD)).unwrap();
            chown(&p, o);
        }
        for d in [w.lfs.join("locks").join("sub"), w.lfs.join("locks").join("ab"), w.lfs.join("objects").join("..a")] {
            std::fs::create_dir(&d).unwrap();
            chown(&d, o);
            let f = d.join(lock_id(CANARY));
            std::fs::write(&f, &rec).unwrap();
            chown(&f, o);
            let f = d.join("plain");
            std::fs::write(&f, &rec).unwrap();
            chown(&f, o);
        }
        m
    };
    let w0 = world();
    setup(&w0);
    // what benign sessions touch outside the lfs directory
    let mut base: BTreeSet<String> = BTreeSet::new();
    let norm = |w: &World, s: &str| {
        let s = s.replace(w.dir.to_str().unwrap(), "$W");
        match s.strip_prefix("/proc/").map(|r| r.trim_start_matches(|c: char| c.is_ascii_digit())) {
            Some(r) if r.starts_with('/') => format!("/proc/self{}", r),
            _ => s,
        }
    };
    for (op, reqs) in [
        ("upload", vec![version(), put(b"benign"), put_as(&oid_of(b"x"), 1, b"y", 9), lock(b"benign"), lock(HELD), list(None, None, None), list(None, None, Some(HELD)), unlock(HELD), unlock(b"nope"), batch(&[(&b.a, 3), (&b.absent, 4)]), verify(&b.a, 3), verify(&b.absent, 3), get(&b.a), bad("x", Req::cmd("nope\n").flush())]),
        ("download", vec![version(), get(&b.a), get(&b.absent), list(None, None, None), batch(&[(&b.a, 3)]), lock(b"z")]),
    ] {
        setup(&w0);
        let t = traced(&w0, op, &reqs.iter().collect::<Vec<_>>(), UID, true);
        base.extend(t.outside.iter().map(|s| norm(&w0, s)));
    }
    rep.text("paths outside the lfs directory touched by benign sessions", &base.iter().cloned().collect::<Vec<_>>().join(" "));
    let mut hostile: Vec<Vec<u8>> = vec![];
    let up = ["../", "../../", "../../../", "./", "/", "//", "sub/", "ab/", "../locks/", "../objects/", "../incomplete/", "../tmp/", "../../lfs/locks/", "sub/../", "....//", "..\\", "~/", "%2e%2e/", "..%2f", "locks/"];
    let leaf: Vec<String> = vec!["secret".into(), "outside".into(), "plain".into(), "part".into(), "t".into(), "config".into(), "HEAD".into(), lock_id(CANARY), held.clone(), format!("{}.lock", held), "".into(), ".".into(), "..".into(), b.a.clone(), "loose".into(), "etc/passwd".into()];
    for u in up {
        for l in &leaf {
            hostile.push(format!("{}{}", u, l).into_bytes());
        }
    }
    for l in &leaf {
        hostile.push(l.clone().into_bytes());
        hostile.push(format!("{}/", l).into_bytes());
        hostile.push(format!("{}/.", l).into_bytes());
        hostile.push(format!("{}/..", l).into_bytes());
        hostile.push(format!("{}\0", l).into_bytes());
        hostile.push(format!("{}\n", l).into_bytes());
        hostile.push(format!("{}x", l).into_bytes());
        hostile.push(l.to_uppercase().into_bytes());
        if l.len() > 3 {
            hostile.push(l.as_bytes()[..l.len() - 1].to_vec());
        }
    }
    let esc64 = |s: &str| -> Vec<u8> {
        // padded to exactly 64 bytes with ./ so that only the length looks right
        let mut p = String::new();
        while p.len() + s.len() + 2 <= 64 {
            p += "./";
        }
        if p.len() + s.len() == 63 {
            p += "/";
        }
        format!("{}{}", p, s).into_bytes()
    };
    for s in ["../secret", "../../secret", "../../../outside", "plain", "sub/plain", "../incomplete/part", "../objects/loose", "../../config"] {
        hostile.push(esc64(s));
        hostile.push(esc64(s).iter().rev().copied().collect());
    }
    for n in [".77-0.lock", ".77.unlock", ".tmp", "0"] {
        hostile.push(format!("{}{}", held, n).into_bytes());
    }
    hostile.push(b"/".repeat(64));
    hostile.push(b".".repeat(64));
    hostile.push(b"../".iter().cycle().take(64).copied().collect());
    hostile.push(b"\xff".repeat(64));
    hostile.push(vec![]);
    hostile.push(b"a".repeat(300));
    hostile.push(b"a/".repeat(3000));
    hostile.push(format!("{}/..", w0.dir.display()).into_bytes());
    hostile.extend(oid_variants_few(&held).into_iter().step_by(if rep.quick() { 13 } else { 1 }));
    hostile.extend(oid_variants_few(&b.a).into_iter().step_by(if rep.quick() { 17 } else { 1 }));
    hostile.sort();
    hostile.dedup();
    // object and lock paths through absolute names of this world are added per world
    let abs = ["$W/outside", "$W/r.git/secret", "$W/r.git/lfs/secret", "$W/r.git/config", "$W/r.git/lfs/locks/plain"];
    let nh = hostile.len() + abs.len();
    let kinds = 12;
    pool(nh * kinds, world, |w, i| {
        let k = i % kinds;
        let id: Vec<u8> = if i / kinds < hostile.len() { hostile[i / kinds].clone() } else { abs[i / kinds - hostile.len()].replace("$W", w.dir.to_str().unwrap()).into_bytes() };
        let ids = String::from_utf8_lossy(&id).to_string();
        let cmd = |c: &[u8]| Req::default().data(&[c, b" ", &id[..], b"\n"].concat());
        let spaced = id.contains(&b' ') || id.contains(&b'\n');
        let canon = valid_oid(&ids);
        let (op, mut q): (&str, Request) = match k {
            0 => ("download", Request { op: if canon { Op::Get { oid: ids.clone() } } else { Op::Bad }, bytes: cmd(b"get-object").flush(), name: "get-object".into() }),
            1 => ("upload", Request { op: if canon { Op::Verify { oid: ids.clone(), size: 5 } } else { Op::Bad }, bytes: cmd(b"verify-object").arg("size=5").flush(), name: "verify-object".into() }),
            2 => ("upload", Request { op: if canon { Op::Put { oid: ids.clone(), size: 7, data: Arc::new(b"hostile".to_vec()) } } else { Op::Bad }, bytes: cmd(b"put-object").arg("size=7").delim().data(b"hostile").flush(), name: "put-object".into() }),
            3 => ("upload", unlock_id(&id)),
            4 => ("upload", lock(&id)),
            5 => ("upload", list(None, Some(&id), None)),
            6 => ("upload", list(None, None, Some(&id))),
            7 => ("download", list(None, None, Some(&id))),
            8 | 9 => (if k == 8 { "upload" } else { "download" }, Request { op: if canon { Op::Batch(vec![(ids.clone(), 5)]) } else { Op::Bad }, bytes: Req::cmd("batch\n").delim().data(&[&id[..], b" 5\n"].concat()).flush(), name: "batch".into() }),
            10 => ("download", unlock_id(&id)),
            _ => ("upload", Request { op: Op::Any, bytes: Req::cmd("lock\n").arg("path=hostile-ref").argb("refname", &id).flush(), name: "lock with refname".into() }),
        };
        if k < 4 && spaced || k == 10 && spaced {
            // more than one word, or another line: only containment is judged
            q.op = Op::Any;
        }
        if matches!(k, 8 | 9) && spaced {
            q.op = Op::Any;
        }
        q.name = format!("{} {}", q.name, show(&id[..id.len().min(90)]));
        let mut m = setup(w);
        let before = tree(&w.dir);
        let after_q = version();
        let reqs = [&q, &after_q];
        let t = traced(w, op, &reqs, UID, false);
        rep.count("sessions", 1);
        rep.count("operations_observed", t.ops.len() as u64);
        let mut errs = vec![];
        if !t.escapes.is_empty() {
            errs.push(format!("tried to change something outside: {:?}", t.escapes));
        }
        let extra: Vec<String> = t.outside.iter().map(|s| norm(w, s)).filter(|s| !base.contains(s)).collect();
        if !extra.is_empty() {
            errs.push(format!("touched outside the lfs directory: {:?}", extra));
        }
        if libc::WIFSIGNALED(t.status) || libc::WEXITSTATUS(t.status) == 101 {
            errs.push(format!("crashed: {}", show(&t.err)));
        }
        if t.out.windows(CANARY.len()).any(|x| x == CANARY) {
            errs.push("disclosed a foreign file".into());
        }
        // all files that are neither objects nor locks are as before
        let after = tree(&w.dir);
        let foreign = |v: &[Entry]| -> Vec<(String, Vec<u8>, u32, char)> {
            v.iter()
                .filter(|e| {
                    let leafn = e.path.rsplit('/').next().unwrap();
                    !(e.path.starts_with("r.git/lfs/objects/") && e.path.split('/').count() >= 4 && e.path.split('/').nth(3).map(|x| x.len() == 2).unwrap_or(false)) && !(e.path == format!("r.git/lfs/locks/{}", leafn) && valid_oid(leafn))
                })
                .map(|e| (e.path.clone(), e.data.clone(), e.mode, e.kind))
                .collect()
        };
        let (fa, fb) = (foreign(&after), foreign(&before));
        if fa != fb {
            let d: Vec<_> = fa.iter().filter(|x| !fb.contains(x)).map(|x| format!("+{}", x.0)).chain(fb.iter().filter(|x| !fa.contains(x)).map(|x| format!("-{}", x.0))).collect();
            errs.push(format!("changed other files: {:?}", d));
        }
        // the answer, and the objects and locks themselves
        match parse_session(&t.out) {
            Err(e) => errs.push(e),
            Ok(r) if r.len() != 2 => errs.push(format!("{} answers", r.len())),
            Ok(r) => {
                let mode = if op == "upload" { Mode::Up } else { Mode::Down };
                if k == 11 {
                    let l = lock(b"hostile-ref");
                    if let Err(e) = m.judge(&l.op, mode, &user_name(UID), &r[0], (0, i64::MAX)) {
                        errs.push(e);
                    }
                } else if let Err(e) = m.judge(&q.op, mode, &user_name(UID), &r[0], (0, i64::MAX)) {
                    errs.push(e);
                }
                if errs.is_empty() {
                    // the canaries among the objects would be reported as stray: look at real objects only
                    let objs: BTreeSet<String> = after.iter().filter(|e| e.kind == 'f' && e.path.starts_with("r.git/lfs/objects/") && valid_oid(e.path.rsplit('/').next().unwrap()) && e.path.split('/').nth(3).unwrap().len() == 2).map(|e| e.path.rsplit('/').next().unwrap().to_string()).collect();
                    if objs != m.objects.keys().cloned().collect() {
                        errs.push(format!("objects are now {:?}", objs));
                    }
                    let locks: BTreeSet<String> = after.iter().filter(|e| e.path.starts_with("r.git/lfs/locks/")).filter_map(|e| e.path.strip_prefix("r.git/lfs/locks/")).filter(|x| valid_oid(x)).map(|x| x.to_string()).collect();
                    if locks != m.locks.keys().cloned().collect() {
                        errs.push(format!("locks are now {:?}", locks));
                    }
                }
            }
        }
        if i % 1501 == 0 {
            rep.sample(format!("{}: {}", op, q.name));
        }
        if let Some(e) = errs.first() {
            rep.violation(&format!("{} {}", op, q.name), &format!("{} session, {}: {}", op, q.name, e), &format!("{}\n\ninput: {}\noutput: {}\n\nfile operations:\n{}", errs.join("\n"), show(&q.bytes), show(&t.out), t.trace.join("\n")));
        }
    });
    rep.scope("hostile names x kinds of request, every system call observed", (nh * kinds) as u64);
    rep.assume("paths the process touches through calls outside the traced list (none known for file access) are not seen");
}

// ------------------------------------------------------------------------------------------
// C15

fn expect_bits(shared: Option<&str>, umask: u32) -> u32 {
    match shared {
        _ if plain_perm(shared) => 0o666 & !umask,
        None | Some("group") | Some("<novalue>") => 0o660,
        Some("all") | Some("world") | Some("everybody") => 0o664,
        Some(s) => match u32::from_str_radix(s, 8) {
            Ok(1) => 0o660,
            Ok(2) => 0o664,
            Ok(n) => n & 0o666,
            // another true value, a number with a unit or not an octal one among them
            Err(_) => 0o660,
        },
    }
}

/// Whether permissions follow the umask.
fn plain_perm(shared: Option<&str>) -> bool {
    match shared {
        None => true,
        Some(s) => matches!(s.to_ascii_lowercase().as_str(), "false" | "no" | "off" | "0k") || s == "umask" || u32::from_str_radix(s, 8) == Ok(0) || s.is_empty(),
    }
}

pub fn c15(rep: &Report) {
    let mut vals: Vec<Option<String>> = vec![None];
    for s in ["<novalue>", "false", "true", "umask", "group", "all", "world", "everybody", "yes", "on", "no", "off"] {
        vals.push(Some(s.into()));
    }
    // as Git takes them: numbers are octal permissions, but for 0, 1 and 2; what is no octal number is a boolean
    for s in ["0", "1", "2", "00", "01", "02", "000", "0001", "0002", "664", "0755", "0777", "0711", "00640", "8", "9", "1k", "0k", "TRUE", "True", "FALSE", "Yes", "NO", "On", "oFF"] {
        vals.push(Some(s.into()));
    }
    for g in [0, 2, 4, 6] {
        for o in [0, 2, 4, 6] {
            vals.push(Some(format!("06{}{}", g, o)));
        }
    }
    let masks: Vec<u32> = if rep.quick() { vec![0, 0o002, 0o007, 0o022, 0o027, 0o077, 0o020, 0o070, 0o004, 0o066, 0o011, 0o033] } else { (0..64).collect() };
    let data: [&[u8]; 3] = [b"one", b"", b"two two"];
    const KINDS: usize = 6;
    let cases = vals.len() * masks.len() * KINDS;
    pool(cases, world, |w, i| {
        let kind = i % KINDS;
        let val = vals[i / KINDS / masks.len()].as_deref();
        let um = masks[i / KINDS % masks.len()];
        w.set_shared(val);
        let mut op = Mode::Up;
        // the value may come from the user's configuration, but the repository's has precedence
        let line = |v: &str| if v == "<novalue>" { "[core]\n\tsharedrepository\n".to_string() } else { format!("[core]\n\tsharedrepository = {}\n", v) };
        match (kind, val) {
            (4, Some(v)) => {
                w.set_shared(None);
                w.user_config(&line(v));
            }
            (5, Some(_)) => w.user_config(&(line("0666") + &line("world"))),
            (5, None) => w.user_config("[core]\n\tsharedRepositoryX = world\n[other]\n\tsharedRepository = 0666\n[core \"x\"]\n\tsharedRepository = 0666\n"),
            _ => w.user_config(""),
        }
        w.wipe();
        let bits = expect_bits(val, um);
        let mut m = Model::default();
        let mut reqs: Vec<Request> = vec![];
        match kind {
            0 => {
                for d in data {
                    reqs.push(put(d));
                    reqs.push(lock(d));
                }
                reqs.push(put(data[0]));
            }
            1 => {
                // a lock that is refused, removed and taken again; a refused upload first
                reqs.push(put_as(&oid_of(b"one"), 3, b"two", 9));
                reqs.push(put(b"one"));
                reqs.push(lock(b"p"));
                reqs.push(lock(b"p"));
                reqs.push(unlock(b"p"));
                reqs.push(lock(b"p"));
            }
            3 => {
                // a download session creates directories, too
                op = Mode::Down;
                reqs.push(get(&oid_of(b"one")));
                reqs.push(list(None, None, None));
            }
            4 => {
                reqs.push(put(b"one"));
                reqs.push(lock(b"p"));
                reqs.push(put_as(&oid_of(b"two"), 3, b"tow", 9));
                reqs.push(lock(b"a much longer path than the others/with directories"));
            }
            5 => {
                reqs.push(put(&mate(b"one", 4)));
                reqs.push(put(b"one"));
                reqs.push(lock(b"p"));
            }
            _ => {
                // an existing object with other permissions is replaced; directories exist in part
                w.mk_lfs(0o700);
                w.add_object(&oid_of(b"one"), b"one");
                m.add_object(b"one");
                reqs.push(put(b"one"));
                reqs.push(put(b"two two"));
                reqs.push(lock(b"p"));
            }
        }
        let pre: BTreeSet<String> = tree(&w.lfs).into_iter().map(|e| e.path).chain(if w.lfs.exists() { Some(String::new()) } else { None }).collect();
        let refs: Vec<&Request> = reqs.iter().collect();
        let input = join(&refs);
        let o = Sess::new(w, op.arg()).umask(um).run(&input);
        rep.count("sessions", 1);
        let r = (|| -> Result<(), String> {
            judge_session(&mut m, &refs, op, &user_name(UID), &o)?;
            let mut t = tree(&w.lfs);
            let dm = std::fs::symlink_metadata(&w.lfs).map_err(|e| e.to_string())?;
            use std::os::unix::fs::MetadataExt;
            t.push(Entry { path: "".into(), kind: 'd', mode: dm.mode() & 0o7777, uid: 0, data: vec![], ino: 0, nlink: 0 });
            for e in &t {
                if pre.contains(&e.path) {
                    continue;
                }
                rep.count("files_checked", 1);
                let rw = e.mode & 0o666;
                if rw != bits {
                    return Err(format!("{} has mode {:o}: read and write bits {:o} instead of {:o}", e.path, e.mode, rw, bits));
                }
                if e.kind == 'd' {
                    // searchable exactly by those who may read (under a plain umask that is the umask's business)
                    let want = (bits & 0o444) >> 2;
                    let plain = plain_perm(val);
                    let want = if plain { 0o111 & !um } else { want };
                    if e.mode & 0o111 != want {
                        return Err(format!("directory {} has mode {:o}: search bits {:o} instead of {:o}", e.path, e.mode, e.mode & 0o111, want));
                    }
                }
            }
            m.compare_store(w)
        })();
        if i % 203 == 0 {
            rep.sample(format!("core.sharedRepository {:?}, umask {:03o}: files {:03o}", val, um, bits));
        }
        if let Err(e) = r {
            let key = format!("sharedRepository={} umask={:03o} case {}", val.unwrap_or("unset"), um, kind);
            rep.violation(&key, &format!("{}: {}", key, e), &detail(op.arg(), &names(&refs), &input, &o, &e));
        }
    });
    rep.scope("values of core.sharedRepository x umasks x scenarios", cases as u64);
    rep.assume("sessions run as one unprivileged owner; set-group-ID bits of directories are not judged; other umasks than those leaving the owner read, write and search are out of scope");
}
