//! What a session needs in open files and memory, however much passes through it.
use crate::ends::*;
use crate::model::*;
use crate::proto::*;
use crate::seq::*;
use crate::vutil::*;
use crate::world::*;
use std::ffi::OsString;
use std::sync::atomic::{AtomicU64, Ordering};

const MB: u64 = 1 << 20;
/// Memory which may come and go with the state of the allocator.
const SLACK: u64 = 8 * MB;
/// The most a session may ask for in the search for what it needs.
const MOST: (u64, u64) = (1024, 4096 * MB);

fn run(w: &World, mode: Mode, reqs: &[&Request], room: Option<(u64, u64)>) -> Outcome {
    let args = vec![w.repo.clone().into_os_string(), OsString::from(mode.arg())];
    go(w, &args, &join(reqs), Io { room, patience: Some(150), ..Io::default() })
}

fn served(w: &World, mut m: Model, mode: Mode, reqs: &[&Request], o: &Outcome) -> Result<(), String> {
    if let (Some(s), _) | (None, Some(s)) = (o.code.filter(|&c| c != 0), o.signal) {
        let _ = s;
        return Err(format!("it ended with status {:?}, signal {:?} and the message {}", o.code, o.signal, show(&o.err[..o.err.len().min(200)])));
    }
    judge_session(&mut m, reqs, mode, &user_name(w.uid), o)?;
    m.compare_store(w)
}

/// The least n in (lo, hi] for which f holds, given that it holds for hi.
fn least(mut lo: u64, mut hi: u64, f: impl Fn(u64) -> bool) -> u64 {
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if f(m) {
            hi = m;
        } else {
            lo = m;
        }
    }
    hi
}

/// Sessions which are alike but for how much passes through them.
struct Family {
    name: String,
    mode: Mode,
    /// the small session tells what is needed, the large one must get along with it
    make: Box<dyn Fn(bool) -> Vec<Request> + Sync + Send>,
    /// further objects in the store, the small or the large ones
    store: Box<dyn Fn(bool) -> Vec<Vec<u8>> + Sync + Send>,
}

fn family(name: String, mode: Mode, make: impl Fn(bool) -> Vec<Request> + Sync + Send + 'static) -> Family {
    Family { name, mode, make: Box::new(make), store: Box::new(|_| vec![]) }
}

fn judge_family(rep: &Report, w: &World, b: &Base, f: &Family, most: &AtomicU64) {
    let mode = f.mode;
    let setup = |large: bool| {
        let mut m = b.setup(w);
        for d in (f.store)(large) {
            let o = m.add_object(&d);
            w.add_object(&o, &d);
        }
        m
    };
    let small = (f.make)(false);
    let few: Vec<&Request> = small.iter().collect();
    let ok = |room: Option<(u64, u64)>| {
        let m = setup(false);
        let o = run(w, mode, &few, room);
        served(w, m, mode, &few, &o).is_ok()
    };
    // whether it is served at all is for the other checks
    if !ok(None) || !ok(Some(MOST)) {
        rep.count("families not served even when small", 1);
        return;
    }
    let files = least(3, 64, |n| ok(Some((n, MOST.1))));
    let bytes = MB * least(0, 256, |n| ok(Some((files, n * MB))));
    if !ok(Some((files, bytes))) {
        rep.count("families which need much even when small", 1);
        return;
    }
    most.fetch_max(bytes / MB * 1000 + files, Ordering::Relaxed);
    let large = (f.make)(true);
    let many: Vec<&Request> = large.iter().collect();
    let m = setup(true);
    let o = run(w, mode, &many, Some((files, bytes + SLACK)));
    rep.count("requests in the large sessions", many.len() as u64);
    if let Err(e) = served(w, m, mode, &many, &o) {
        let text = format!("{} session of {} ({} requests, {} bytes) with what suffices for {} requests and {} bytes, {} open files and {} MiB, and {} MiB more", mode.arg(), f.name, many.len(), join(&many).len(), few.len(), join(&few).len(), files, bytes / MB, SLACK / MB);
        let input = join(&many);
        let mut short = o.clone();
        short.out = o.out[o.out.len().saturating_sub(2000)..].to_vec();
        let e = &e[..e.char_indices().nth(600).map(|x| x.0).unwrap_or(e.len())];
        rep.violation(&format!("{} {}", mode.arg(), f.name), &format!("{}: {}", text, e), &detail(mode.arg(), &f.name, &input[..input.len().min(4000)], &short, e));
    }
}

pub fn c32(rep: &Report) {
    let q = rep.quick();
    let b = Base::new();
    let world = || World::new(UID, None);
    let most = AtomicU64::new(0);
    let modes = [Mode::Up, Mode::Down];
    let (count, volume) = if q { (1500, 24 * MB as usize) } else { (12_000, 160 * MB as usize) };
    // 1. every kind of request, alone and with its neighbour, again and again
    let mut fams: Vec<Family> = vec![];
    let menu: Vec<Request> = menu(&b).into_iter().filter(|r| r.op != Op::Quit).collect();
    let n = menu.len();
    for mode in modes {
        for i in 0..n {
            let group = |k: usize| -> Vec<Request> { (0..k).map(|d| menu[(i + d * 7) % n].clone()).collect() };
            for g in if i % 4 == 0 || !q { vec![group(1), group(2)] } else { vec![group(1)] } {
                let name = format!("[{}] repeated", g.iter().map(|r| r.name.clone()).collect::<Vec<_>>().join("; "));
                fams.push(family(name, mode, move |large| {
                    let size: usize = g.iter().map(|r| r.bytes.len()).sum();
                    let k = if large { (count / g.len()).min(volume / size).max(4) } else { 3 };
                    (0..k).flat_map(|_| g.iter().cloned()).collect()
                }));
            }
        }
    }
    // 2. requests which differ from one another
    let (a, bb) = (b.a.clone(), b.b.clone());
    type Make = Box<dyn Fn(usize) -> Vec<Request> + Sync + Send>;
    let kinds: Vec<(&str, Mode, Make)> = vec![
        ("uploads of different objects", Mode::Up, Box::new(|i| vec![put(format!("object {}", i).as_bytes())])),
        ("empty and small uploads with a wrong hash", Mode::Up, Box::new(|i| vec![put_as(&oid_of(&i.to_le_bytes()), (i % 2) as u64, &b"x"[..i % 2], 1)])),
        ("uploads of a wrong size", Mode::Up, Box::new(|i| vec![put_as(&oid_of(&i.to_le_bytes()), 9, &i.to_le_bytes(), 3)])),
        ("uploads and verifications", Mode::Up, Box::new(|i| { let d = format!("object {}", i).into_bytes(); vec![put(&d), verify(&oid_of(&d), d.len() as u64), verify(&oid_of(&d), 1)] })),
        ("locks", Mode::Up, Box::new(|i| vec![lock(format!("path {}", i).as_bytes())])),
        ("locks held already", Mode::Up, Box::new(|i| vec![lock(format!("path {}", i / 2).as_bytes())])),
        ("locks taken and released", Mode::Up, Box::new(|i| vec![lock(format!("path {}", i).as_bytes()), unlock(format!("path {}", i).as_bytes())])),
        ("one lock taken and released", Mode::Up, Box::new(|_| vec![lock(b"path"), unlock(b"path")])),
        ("locks which do not exist released", Mode::Up, Box::new(|i| vec![unlock(format!("path {}", i).as_bytes())])),
        ("locks taken, listed and released", Mode::Up, Box::new(|i| { let p = format!("path {}", i).into_bytes(); vec![lock(&p), list(None, None, None), list(Some(1), None, None), list(None, None, Some(&p)), unlock(&p)] })),
        ("locks looked for", Mode::Up, Box::new(|i| vec![list(None, None, Some(format!("path {}", i).as_bytes()))])),
        ("different downloads", Mode::Down, Box::new(move |i| vec![get([&a, &bb][i % 2]), get(&oid_of(&i.to_le_bytes()))])),
        ("different batches", Mode::Down, Box::new(|i| { let o = oid_of(&i.to_le_bytes()); vec![batch(&[(&o, i as u64)])] })),
        ("different batches", Mode::Up, Box::new(|i| { let o = oid_of(&i.to_le_bytes()); vec![batch(&[(&o, i as u64)])] })),
        ("unknown commands", Mode::Up, Box::new(|i| vec![bad("unknown", Req::cmd(&format!("nope-{}\n", i)).arg(&format!("a={}", i)).flush())])),
    ];
    for (name, mode, f) in kinds {
        fams.push(family(name.into(), mode, move |large| (0..if large { count } else { 3 }).flat_map(&f).collect()));
    }
    // 3. objects of any size
    let sizes: Vec<usize> = if q { vec![48 << 20] } else { vec![48 << 20, (160 << 20) + 1] };
    let small = 200_000usize;
    for &size in &sizes {
        let body = move |large: bool| -> Vec<u8> { let n = if large { size } else { small }; (0..n).map(|i| (i ^ (i >> 8) ^ (i >> 16)) as u8).collect() };
        let mb = size >> 20;
        for mode in modes {
            for (what, chunk) in [("in large packets", 65516usize), ("in small packets", 1000)] {
                if chunk == 1000 && q && mode == Mode::Down {
                    continue;
                }
                fams.push(family(format!("one object of {} MiB sent {}", mb, what), mode, move |l| { let d = body(l); vec![put_as(&oid_of(&d), d.len() as u64, &d, chunk), version()] }));
            }
            fams.push(family(format!("one object of {} MiB sent with the wrong hash", mb), mode, move |l| { let d = body(l); vec![put_as(&oid_of(b"other"), d.len() as u64, &d, 65516), version()] }));
            fams.push(family(format!("one object of {} MiB sent with too small a size", mb), mode, move |l| { let d = body(l); vec![put_as(&oid_of(&d), 5, &d, 65516), version()] }));
            fams.push(family(format!("{} MiB sent for an invalid object ID", mb), mode, move |l| { let d = body(l); vec![bad("put", Req::cmd("put-object zz\n").arg("size=5").delim().payload(&d, 65516).flush()), version()] }));
            fams.push(family(format!("{} MiB sent after a delimiter that does not belong there", mb), mode, move |l| { let d = body(l); vec![bad("put", Req::cmd(&format!("put-object {}\n", oid_of(&d))).arg("size=5").delim().delim().payload(&d, 65516).flush()), version()] }));
            fams.push(family(format!("an unknown command with {} MiB of data", mb), mode, move |l| { let d = body(l); vec![bad("unknown", Req::cmd("nope\n").arg("a=b").delim().payload(&d, 65516).flush()), version()] }));
            let mut f = family(format!("one object of {} MiB fetched", mb), mode, move |l| { let d = body(l); let o = oid_of(&d); vec![get(&o), version()] });
            f.store = Box::new(move |l| vec![body(l)]);
            fams.push(f);
            let mut f = family(format!("one object of {} MiB verified and listed in a batch", mb), mode, move |l| { let d = body(l); let o = oid_of(&d); vec![verify(&o, d.len() as u64), verify(&o, 1), batch(&[(&o, d.len() as u64)]), version()] });
            f.store = Box::new(move |l| vec![body(l)]);
            fams.push(f);
            let mut f = family(format!("one object of {} MiB sent once more", mb), mode, move |l| { let d = body(l); let o = oid_of(&d); vec![put_as(&o, d.len() as u64, &d, 65516), version()] });
            f.store = Box::new(move |l| vec![body(l)]);
            fams.push(f);
        }
    }
    // the large ones first
    fams.reverse();
    pool(fams.len(), world, |w, i| {
        judge_family(rep, w, &b, &fams[i], &most);
        if i % 61 == 0 {
            rep.sample(format!("{} session: {}", fams[i].mode.arg(), fams[i].name));
        }
    });
    let m = most.into_inner();
    rep.scope("families of sessions, a small one for the measure and a large one within it", fams.len() as u64);
    rep.text("needs", &format!("the family that needs most: {} MiB and {} open files; slack {} MiB; {} requests, or {} MiB, in a long session", m / 1000, m % 1000, SLACK / MB, count, volume >> 20));
}
