//! Scenarios for the concurrent and crash properties.
use crate::explore::*;
use crate::model::*;
use crate::proto::*;
use crate::seq::lock_content;
use crate::vutil::*;
use crate::world::*;

fn nothing(_: &World) -> Model {
    Model::default()
}

fn with(objects: &'static [&'static [u8]], locks: &'static [(&'static [u8], u32)]) -> impl Fn(&World) -> Model + Sync + Send + 'static {
    move |w: &World| {
        let mut m = Model::default();
        for d in objects {
            let o = m.add_object(d);
            w.add_object(&o, d);
        }
        for (i, (p, uid)) in locks.iter().enumerate() {
            let t = 1_000_000_000 + i as i64;
            w.add_lock_file(&lock_id(p), &lock_content(t, p), *uid);
            m.locks.insert(lock_id(p), LockRec { path: p.to_vec(), time: t, owner: user_name(*uid) });
        }
        m
    }
}

fn all(rep: &Report, mut v: Vec<Scenario>) {
    // for debugging: scenarios by name
    let only = std::env::var("MC_ONLY").ok();
    for sc in &mut v {
        if only.as_ref().map(|o| !sc.name.contains(o.as_str())).unwrap_or(false) {
            continue;
        }
        let mut st = explore(rep, sc);
        // too many states: all of them within fewer preemptions then
        let name = sc.name.to_string();
        for bound in [6, 4, 3, 2, 1] {
            if !st.complete && !rep.violated() && sc.preempt.map(|p| bound < p).unwrap_or(true) {
                sc.name = format!("{}, up to {} preemptions", name, bound);
                sc.preempt = Some(bound);
                st = explore(rep, sc);
            }
        }
        if !st.complete && !rep.violated() {
            // a scenario that does not fit its bound is a fault of the check
            eprintln!("scenario {} has more than {} states", sc.name, sc.max_states);
            cleanup();
            std::process::exit(2);
        }
        if rep.nviol() > 40 {
            break;
        }
    }
}

const U1: u32 = UIDS[0].0;
const U2: u32 = UIDS[1].0;
const A: &[u8] = b"object a";
const B: &[u8] = b"the second object";

pub fn c16(rep: &Report) {
    let q = rep.quick();
    
    let mut v = vec![
        Scenario::new("lock p | lock p", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")])]),
        Scenario::new("lock p | lock p by another user, fresh repository", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]).user(U1)]).fresh(),
        Scenario::new("lock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]), up(vec![unlock(b"p")])]),
        Scenario::new("unlock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![unlock(b"p")]), up(vec![unlock(b"p")])]),
        Scenario::new("lock p; unlock p | lock p; unlock p", nothing, vec![up(vec![lock(b"p"), unlock(b"p")]), up(vec![lock(b"p"), unlock(b"p")]).user(U2)]),
        Scenario::new("unlock p; lock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![unlock(b"p"), lock(b"p")]), up(vec![unlock(b"p")])]),
        Scenario::new("unlock p; lock p | lock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![unlock(b"p"), lock(b"p")]), up(vec![lock(b"p")])]),
        Scenario::new("lock p; unlock q | lock q; unlock p", nothing, vec![up(vec![lock(b"p"), unlock(b"q")]), up(vec![lock(b"q"), unlock(b"p")])]),
        Scenario::new("lock p | lock p | lock p", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]).user(U2), up(vec![lock(b"p")])]),
        Scenario::new("lock p | unlock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]), up(vec![unlock(b"p")]), up(vec![unlock(b"p")])]),
        // a session must not go by what it learned in an earlier request
        Scenario::new("lock p; lock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p"), lock(b"p")]), up(vec![unlock(b"p")])]),
        Scenario::new("unlock p; unlock p | lock p", nothing, vec![up(vec![unlock(b"p"), unlock(b"p")]), up(vec![lock(b"p")])]),
        Scenario::new("lock p; unlock p; unlock p | lock p", nothing, vec![up(vec![lock(b"p"), unlock(b"p"), unlock(b"p")]), up(vec![lock(b"p")]).user(U2)]),
        Scenario::new("list; lock p; list | lock p; unlock p", nothing, vec![up(vec![list(None, None, None), lock(b"p"), list(None, None, None)]), up(vec![lock(b"p"), unlock(b"p")])]).preempt(if q { 2 } else { 99 }),
        Scenario::new("lock p; lock q | unlock p; unlock q (held)", with(&[], &[(b"p", UID), (b"q", UID)]), vec![up(vec![lock(b"p"), lock(b"q")]), up(vec![unlock(b"p"), unlock(b"q")])]),
        Scenario::new("lock p | unlock p | list p", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]).user(U2), up(vec![unlock(b"p")]), up(vec![list(None, None, Some(b"p"))])]),
    ];
    if !q {
        v.push(Scenario::new("lock p; unlock p; lock p | lock p; unlock p; lock p", nothing, vec![up(vec![lock(b"p"), unlock(b"p"), lock(b"p")]), up(vec![lock(b"p"), unlock(b"p"), lock(b"p")]).user(U2)]));
        v.push(Scenario::new("lock p; unlock p | lock p | lock p; unlock p", nothing, vec![up(vec![lock(b"p"), unlock(b"p")]), up(vec![lock(b"p")]), up(vec![lock(b"p"), unlock(b"p")])]).preempt(3));
        v.push(Scenario::new("lock p | lock p | unlock p (held)", with(&[], &[(b"p", UID), (b"q", U2)]), vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]), up(vec![unlock(b"p")])]));
        v.push(Scenario::new("unlock p; lock p | unlock p; lock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![unlock(b"p"), lock(b"p")]), up(vec![unlock(b"p"), lock(b"p")]), up(vec![unlock(b"p")])]).preempt(2));
        v.push(Scenario::new("lock p | lock p | lock p | unlock p (held)", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]), up(vec![lock(b"p")]), up(vec![unlock(b"p")])]).preempt(2));
        v.push(Scenario::new("lock p | lock p | lock p, fresh repository", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]).user(U2), up(vec![lock(b"p")])]).fresh().preempt(2));
    }
    all(rep, v);
}

pub fn c17(rep: &Report) {
    let q = rep.quick();

    let l = || list(None, None, None);
    let mut v = vec![
        Scenario::new("list | lock p (empty)", nothing, vec![up(vec![l()]), up(vec![lock(b"p")])]),
        Scenario::new("list | lock p (q held)", with(&[], &[(b"q", UID)]), vec![down(vec![l()]), up(vec![lock(b"p")])]),
        Scenario::new("list | unlock p (p, q held)", with(&[], &[(b"p", UID), (b"q", U2)]), vec![up(vec![l()]), up(vec![unlock(b"p")])]),
        Scenario::new("list | unlock p; lock p (p, q, r held)", with(&[], &[(b"p", UID), (b"q", U2), (b"r", UID)]), vec![up(vec![l()]), up(vec![unlock(b"p"), lock(b"p")])]),
        Scenario::new("list | lock p; unlock p (q held)", with(&[], &[(b"q", U2)]), vec![down(vec![l()]), up(vec![lock(b"p"), unlock(b"p")])]),
        Scenario::new("list; list | lock p", with(&[], &[(b"q", U2)]), vec![up(vec![l(), l()]), up(vec![lock(b"p")]).user(U2)]),
        Scenario::new("list; list | unlock p (p, q held)", with(&[], &[(b"p", UID), (b"q", U2)]), vec![up(vec![l(), l()]), up(vec![unlock(b"p")])]),
        Scenario::new("list p; list p | lock p; unlock p", nothing, vec![down(vec![list(None, None, Some(b"p")), list(None, None, Some(b"p"))]), up(vec![lock(b"p"), unlock(b"p")])]),
        Scenario::new("two pages | lock p; unlock q (q, r, s held)", with(&[], &[(b"q", UID), (b"r", U2), (b"s", UID)]), vec![up(vec![list(Some(2), None, None), list(Some(2), Some(lock_id(b"q").as_bytes()), None)]), up(vec![lock(b"p"), unlock(b"q")])]).preempt(if q { 3 } else { 99 }),
        Scenario::new("one lock per page | unlock q; unlock r (q, r, s held)", with(&[], &[(b"q", UID), (b"r", U2), (b"s", UID)]), vec![down(vec![list(Some(1), None, None)]), up(vec![unlock(b"q"), unlock(b"r")])]),
        Scenario::new("lock p; list | unlock p; lock q", nothing, vec![up(vec![lock(b"p"), l()]), up(vec![unlock(b"p"), lock(b"q")])]),
        Scenario::new("list p | lock p; unlock p", nothing, vec![up(vec![list(None, None, Some(b"p"))]), up(vec![lock(b"p"), unlock(b"p")])]),
        Scenario::new("list from a cursor | lock p | (q held)", with(&[], &[(b"q", U2)]), vec![up(vec![list(None, Some(b"0"), None)]), up(vec![lock(b"p")])]),
        Scenario::new("list | lock p | unlock q", with(&[], &[(b"q", UID), (b"r", UID)]), vec![up(vec![l()]), up(vec![lock(b"p")]), up(vec![unlock(b"q")])]),
        Scenario::new("list | lock p, killed at any point", with(&[], &[(b"q", UID)]), vec![down(vec![l()]), up(vec![lock(b"p")])]).kills(1),
        Scenario::new("list | refused lock q; lock p", with(&[], &[(b"q", UID)]), vec![up(vec![l()]), up(vec![lock(b"q"), lock(b"p")]).user(U2)]),
    ];
    if !q {
        v.push(Scenario::new("list; list | lock p; unlock p | unlock q; lock q", with(&[], &[(b"q", UID), (b"r", UID)]), vec![up(vec![l(), l()]), up(vec![lock(b"p"), unlock(b"p")]), up(vec![unlock(b"q"), lock(b"q")])]).preempt(3));
        v.push(Scenario::new("list | list | lock p; unlock q", with(&[], &[(b"q", UID), (b"r", UID)]), vec![up(vec![l()]), down(vec![l()]), up(vec![lock(b"p"), unlock(b"q")])]).preempt(3));
        v.push(Scenario::new("list | lock p | lock p, one killed at any point", with(&[], &[(b"q", UID)]), vec![down(vec![l()]), up(vec![lock(b"p")]), up(vec![lock(b"p")])]).kills(1).preempt(2));
    }
    all(rep, v);
}

pub fn c13(rep: &Report) {
    let q = rep.quick();
    let (oa, ob) = (oid_of(A), oid_of(B));
    let al = A.len() as u64;
    // objects of the same two directories, and of the same first directory
    let (near, side) = (mate(A, 4), mate(A, 2));
    let on = oid_of(&near);
    let mut v = vec![
        Scenario::new("put a | put n of the same directories, fresh repository", nothing, vec![up(vec![put(A)]), up(vec![put(&near)])]).fresh().preempt(if q { 3 } else { 99 }),
        Scenario::new("put a | put n of the same directories", nothing, vec![up(vec![put(A)]), up(vec![put(&near)])]),
        Scenario::new("put a | put s of the same first directory", nothing, vec![up(vec![put(A)]), up(vec![put(&side)])]),
        Scenario::new("put a; put n | put n; put a", nothing, vec![up(vec![put(A), put(&near)]), up(vec![put(&near), put(A)])]).preempt(if q { 3 } else { 6 }),
        Scenario::new("wrong put n | put a | get n", nothing, vec![up(vec![put_as(&on, near.len() as u64, A, 9)]), up(vec![put(A)]), down(vec![get(&on)])]).preempt(2),
        Scenario::new("put a | put a", nothing, vec![up(vec![put(A)]), up(vec![put(A)])]),
        Scenario::new("put a | put b", nothing, vec![up(vec![put(A)]), up(vec![put(B)])]),
        Scenario::new("put a; lock p | lock p; put a", nothing, vec![up(vec![put(A), lock(b"p")]), up(vec![lock(b"p"), put(A)])]).preempt(if q { 4 } else { 99 }),
        Scenario::new("put a; unlock p | list; get a", with(&[], &[(b"p", UID)]), vec![up(vec![put(A), unlock(b"p")]), down(vec![list(None, None, None), get(&oa)])]),
        Scenario::new("put a | put a, fresh repository", nothing, vec![up(vec![put(A)]), up(vec![put(A)])]).fresh(),
        Scenario::new("put a | get a", nothing, vec![up(vec![put(A)]), down(vec![get(&oa)])]),
        Scenario::new("put a | get a; get a (a present)", with(&[A], &[]), vec![up(vec![put(A)]), down(vec![get(&oa), get(&oa)])]),
        Scenario::new("put a | get a; get a", nothing, vec![up(vec![put(A)]), down(vec![get(&oa), get(&oa)])]),
        Scenario::new("put a | verify a; put a; batch a", nothing, vec![up(vec![put(A)]), up(vec![verify(&oa, al), put(A), batch(&[(&oa, 3)])])]),
        Scenario::new("put a; put b | get b; get a", nothing, vec![up(vec![put(A), put(B)]), down(vec![get(&ob), get(&oa)])]),
        Scenario::new("put a | verify a; verify a", nothing, vec![up(vec![put(A)]), up(vec![verify(&oa, al), verify(&oa, al)])]),
        Scenario::new("put a; put b | batch a b; batch b a", nothing, vec![up(vec![put(A), put(B)]), down(vec![batch(&[(&oa, 1), (&ob, 2)]), batch(&[(&ob, 2), (&oa, 1)])])]),
        Scenario::new("put a | wrong put a | get a", nothing, vec![up(vec![put(A)]), up(vec![put_as(&oa, al, b"object X", 8)]), down(vec![get(&oa)])]).preempt(2),
        Scenario::new("put a | put a | verify a", nothing, vec![up(vec![put(A)]), up(vec![put(A)]), up(vec![verify(&oa, al)])]).preempt(if q { 2 } else { 4 }),
        Scenario::new("put a in packets | get a, shared with the group", nothing, vec![up(vec![put_as(&oa, al, A, 3)]), down(vec![get(&oa)])]).shared("group"),
        Scenario::new("put a | get a, mode 0640", nothing, vec![up(vec![put(A)]), down(vec![get(&oa)])]).shared("0640"),
    ];
    if !q {
        v.push(Scenario::new("put a; put b | put b; put a", nothing, vec![up(vec![put(A), put(B)]), up(vec![put(B), put(A)])]));
        v.push(Scenario::new("put a | put a | get a; verify", nothing, vec![up(vec![put(A)]), up(vec![put(A)]), down(vec![get(&oa)])]));
        v.push(Scenario::new("put a | put b | put a, fresh repository", nothing, vec![up(vec![put(A)]), up(vec![put(B)]), up(vec![put(A)])]).fresh().preempt(2));
        v.push(Scenario::new("put a | put a | put b | batch a b", nothing, vec![up(vec![put(A)]), up(vec![put(A)]), up(vec![put(B)]), down(vec![batch(&[(&oa, 1), (&ob, 2)])])]).preempt(2));
        v.push(Scenario::new("put a | put a, one killed | get a", nothing, vec![up(vec![put(A)]), up(vec![put(A)]), down(vec![get(&oa)])]).kills(1).preempt(2));
    }
    all(rep, v);
}

fn recover_objects(w: &World, m: &mut Model) -> Result<u64, String> {
    let (oa, ob) = (oid_of(A), oid_of(B));
    let mut n = 0;
    n += recovery_session(w, m, Mode::Down, w.uid, &[batch(&[(&oa, 1), (&ob, 2)]), get(&oa), get(&ob)])?;
    n += recovery_session(w, m, Mode::Up, w.uid, &[verify(&oa, A.len() as u64), put(A), verify(&oa, A.len() as u64), put(B), verify(&ob, B.len() as u64), batch(&[(&oa, 1), (&ob, 2)]), put_as(&oa, 8, b"object X", 8), lock(b"p"), unlock(b"p")])?;
    n += recovery_session(w, m, Mode::Down, w.uid, &[get(&ob), get(&oa), list(None, None, None)])?;
    Ok(n)
}

pub fn c12(rep: &Report) {
    let q = rep.quick();
    let oa = oid_of(A);
    let al = A.len() as u64;
    let big: &'static [u8] = Box::leak(crate::seq::bytes_of(20_000, 1).into_boxed_slice());
    let ob = oid_of(big);
    let near: &'static [u8] = Box::leak(mate(A, 4).into_boxed_slice());
    let mut v = vec![
        Scenario::new("put a; put n of the same directories, killed", nothing, vec![up(vec![put(A), put(near)])]).kills(1).recover(recover_objects),
        Scenario::new("put n, killed | put a, fresh", nothing, vec![up(vec![put(near)]), up(vec![put(A)])]).kills(1).fresh().preempt(1).recover(recover_objects),
        Scenario::new("put a, killed", nothing, vec![up(vec![put(A)])]).kills(1).recover(recover_objects),
        Scenario::new("put a in packets, killed", nothing, vec![up(vec![put_as(&oa, al, A, 3)])]).kills(1).recover(recover_objects),
        Scenario::new("put a, fresh repository, killed", nothing, vec![up(vec![put(A)])]).kills(1).fresh().recover(recover_objects),
        Scenario::new("put a; put b, killed", nothing, vec![up(vec![put(A), put(B)])]).kills(1).recover(recover_objects),
        Scenario::new("put a (present); wrong put b; put b, killed", with(&[A], &[]), vec![up(vec![put(A), put_as(&oid_of(B), 3, b"xyz", 2), put(B)])]).kills(1).recover(recover_objects),
        Scenario::new("put of 20000 bytes, killed", nothing, vec![up(vec![put_as(&ob, 20_000, big, 7000), verify(&ob, 20_000)])]).kills(1).recover(recover_objects),
        Scenario::new("put a shared with the group, killed", nothing, vec![up(vec![put(A)])]).kills(1).shared("group").recover(recover_objects),
        Scenario::new("put a mode 0640, killed", nothing, vec![up(vec![put(A)])]).kills(1).shared("0640").recover(recover_objects),
        Scenario::new("put a | put a, either or both killed", nothing, vec![up(vec![put(A)]), up(vec![put(A)])]).kills(if q { 1 } else { 2 }).recover(recover_objects),
        Scenario::new("put a | put b, one killed", nothing, vec![up(vec![put(A)]), up(vec![put(B)])]).kills(1).recover(recover_objects),
        Scenario::new("put a; get a (not allowed); batch, killed", nothing, vec![up(vec![put(A), get(&oa), batch(&[(&oa, 3)])])]).kills(1).recover(recover_objects),
    ];
    // killed, started again, killed again
    if !q {
        v.push(Scenario::new("put a | put b | put a, two killed", nothing, vec![up(vec![put(A)]), up(vec![put(B)]), up(vec![put(A)])]).kills(2).preempt(1).recover(recover_objects));
        v.push(Scenario::new("put a | get a | put b; fresh, one killed", nothing, vec![up(vec![put(A)]), down(vec![get(&oa)]), up(vec![put(B)])]).kills(1).fresh().preempt(1).recover(recover_objects));
    }
    all(rep, v);
}

fn recover_locks(w: &World, m: &mut Model) -> Result<u64, String> {
    let mut n = 0;
    let l = || list(None, None, None);
    n += recovery_session(w, m, Mode::Down, w.uid, &[l(), list(None, None, Some(b"p"))])?;
    n += recovery_session(w, m, Mode::Up, w.uid, &[l(), lock(b"p"), lock(b"q"), l(), unlock(b"p"), lock(b"p"), unlock(b"q"), unlock(b"r"), l()])?;
    n += recovery_session(w, m, Mode::Up, w.uid, &[unlock(b"p"), unlock(b"p"), lock(b"q"), unlock(b"q"), put(A), l()])?;
    Ok(n)
}

pub fn c20(rep: &Report) {
    let q = rep.quick();

    let mut v = vec![
        Scenario::new("lock p, killed", nothing, vec![up(vec![lock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("lock p, fresh repository, killed", nothing, vec![up(vec![lock(b"p")])]).kills(1).fresh().recover(recover_locks),
        Scenario::new("lock p (held), killed", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("unlock p, killed", with(&[], &[(b"p", UID), (b"r", UID)]), vec![up(vec![unlock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("lock p; unlock p; lock q, killed", nothing, vec![up(vec![lock(b"p"), unlock(b"p"), lock(b"q")])]).kills(1).recover(recover_locks),
        Scenario::new("unlock p; lock p, killed", with(&[], &[(b"p", UID), (b"r", UID)]), vec![up(vec![unlock(b"p"), lock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("lock p | lock p, either or both killed", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")])]).kills(if q { 1 } else { 2 }).recover(recover_locks),
        Scenario::new("lock p | unlock p, one killed", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]), up(vec![unlock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("unlock p | unlock p, one killed", with(&[], &[(b"p", UID), (b"r", UID)]), vec![up(vec![unlock(b"p")]), up(vec![unlock(b"p")])]).kills(1).recover(recover_locks),
        Scenario::new("lock p | list | unlock q, one killed", with(&[], &[(b"q", UID)]), vec![up(vec![lock(b"p")]), up(vec![list(None, None, None)]), up(vec![unlock(b"q")])]).kills(1).preempt(1).recover(recover_locks),
        // another process with the same ID as the killed one may come along
        Scenario::new("lock p killed, then lock p again and again", nothing, vec![up(vec![lock(b"p"), lock(b"q")]), up(vec![lock(b"p"), lock(b"q"), unlock(b"p")])]).kills(1).preempt(0).same_pid().recover(recover_locks),
        Scenario::new("lock p killed twice, then lock p; unlock p", nothing, vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]), up(vec![lock(b"p"), unlock(b"p")])]).kills(2).preempt(0).same_pid().recover(recover_locks),
        Scenario::new("unlock p killed twice, then lock p; unlock p", with(&[], &[(b"p", UID), (b"r", UID)]), vec![up(vec![unlock(b"p")]), up(vec![lock(b"p"), unlock(b"p")]), up(vec![lock(b"p"), unlock(b"p")])]).kills(2).preempt(0).same_pid().recover(recover_locks),
    ];
    if !q {
        v.push(Scenario::new("lock p; unlock p | lock p; unlock p, one killed", nothing, vec![up(vec![lock(b"p"), unlock(b"p")]), up(vec![lock(b"p"), unlock(b"p")])]).kills(1).recover(recover_locks));
        v.push(Scenario::new("lock p | lock p | unlock p, two killed", with(&[], &[(b"p", UID)]), vec![up(vec![lock(b"p")]), up(vec![lock(b"p")]), up(vec![unlock(b"p")])]).kills(2).preempt(1).recover(recover_locks));
        v.push(Scenario::new("unlock p; lock p | unlock p, one killed", with(&[], &[(b"p", U2)]), vec![up(vec![unlock(b"p"), lock(b"p")]), up(vec![unlock(b"p")])]).kills(1).recover(recover_locks));
    }
    all(rep, v);
}
