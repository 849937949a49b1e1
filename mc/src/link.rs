//! Stores whose files and directories are links: what a name leads to counts, however it leads there.
use crate::model::*;
use crate::proto::*;
use crate::seq::{bytes_of, detail, names};
use crate::vutil::*;
use crate::world::*;
use std::fs;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

/// How the file of an object is there.
const FILES: [&str; 7] = ["file", "absolute link", "relative link", "link to a link", "hard link", "read-only file", "private file"];
/// What in the store is a link to somewhere else.
const DIRS: [&str; 9] = ["nothing", "fan-out 1", "fan-out 2", "objects", "locks", "tmp", "incomplete", "all four", "lfs"];

fn own(w: &World, p: &Path) {
    let mut v = vec![p.to_path_buf()];
    while let Some(p) = v.pop() {
        chown(&p, w.uid);
        if fs::symlink_metadata(&p).unwrap().is_dir() {
            v.extend(fs::read_dir(&p).unwrap().map(|e| e.unwrap().path()));
        }
    }
}

/// Move a directory away and put a link in its place.
fn away(w: &World, p: &Path, to: &Path, relative: bool) {
    fs::rename(p, to).unwrap();
    let target = if relative {
        let mut t = PathBuf::new();
        for _ in p.parent().unwrap().strip_prefix(&w.dir).unwrap().components() {
            t.push("..");
        }
        t.join(to.strip_prefix(&w.dir).unwrap())
    } else {
        to.to_path_buf()
    };
    symlink(&target, p).unwrap();
    chown(p, w.uid);
}

fn arrange(w: &World, file: &str, dir: &str, relative: bool, data: &[Vec<u8>]) -> Model {
    // the link itself or the directory, whichever is there
    let _ = fs::remove_file(&w.lfs);
    w.wipe();
    let out = w.dir.join("elsewhere");
    let _ = fs::remove_dir_all(&out);
    fs::create_dir(&out).unwrap();
    w.mk_lfs(0o755);
    let mut m = Model::default();
    for (i, d) in data.iter().enumerate() {
        let o = m.add_object(d);
        w.add_object(&o, d);
        let p = w.object_path(&o);
        let q = out.join(format!("file{}", i));
        match file {
            "absolute link" | "relative link" => away(w, &p, &q, file == "relative link" && dir == "nothing"),
            "link to a link" => {
                away(w, &p, &q, dir == "nothing");
                away(w, &q, &out.join(format!("second{}", i)), false);
            }
            "hard link" => fs::hard_link(&p, &q).unwrap(),
            "read-only file" => fs::set_permissions(&p, fs::Permissions::from_mode(0o444)).unwrap(),
            "private file" => fs::set_permissions(&p, fs::Permissions::from_mode(0o400)).unwrap(),
            _ => (),
        }
        let two = p.parent().unwrap();
        match dir {
            "fan-out 2" => away(w, two, &out.join(format!("two{}", i)), relative),
            "fan-out 1" => away(w, two.parent().unwrap(), &out.join(format!("one{}", i)), relative),
            _ => (),
        }
    }
    // names that lead nowhere are no objects
    let gone = w.object_path(&oid_of(b"gone"));
    fs::create_dir_all(gone.parent().unwrap()).unwrap();
    symlink(out.join("nowhere"), &gone).unwrap();
    for (i, p) in [b"held".as_ref(), b"other"].iter().enumerate() {
        let t = 1_234_567_890 + i as i64;
        let id = lock_id(p);
        w.add_lock_file(&id, &crate::seq::lock_content(t, p), w.uid);
        m.locks.insert(id, LockRec { path: p.to_vec(), time: t, owner: user_name(w.uid) });
    }
    own(w, &out);
    own(w, &w.lfs);
    for d in ["objects", "locks", "tmp", "incomplete"] {
        if dir == d || dir == "all four" {
            away(w, &w.lfs.join(d), &out.join(d), relative);
        }
    }
    if dir == "lfs" {
        away(w, &w.lfs, &out.join("lfs"), relative);
    }
    chown(&out, w.uid);
    m
}

pub fn linked(rep: &Report, what: &str) {
    let data: Vec<Vec<u8>> = vec![vec![], b"12345".to_vec(), bytes_of(70_000, 1)];
    let ids: Vec<String> = data.iter().map(|d| oid_of(d)).collect();
    let gone = oid_of(b"gone");
    let mut reqs: Vec<Vec<Request>> = vec![];
    let sizes = |d: &Vec<u8>| [d.len() as u64, d.len() as u64 + 1, 77, 0];
    match what {
        // the answers that tell what is there
        "told" => {
            let mut v = vec![];
            for (d, i) in data.iter().zip(&ids) {
                for s in sizes(d) {
                    v.push(batch(&[(i, s)]));
                    v.push(verify(i, s));
                }
            }
            v.push(batch(&[(&ids[0], 0), (&gone, 4), (&ids[1], 5), (&oid_of(b"never"), 5), (&ids[2], 70_000)]));
            v.push(batch(&[(&gone, 4)]));
            v.push(verify(&gone, 4));
            reqs.push(v);
        }
        "read" => {
            reqs.push(ids.iter().map(|i| get(i)).chain([get(&gone)]).collect());
            reqs.push(ids.iter().rev().map(|i| get(i)).chain([get(&oid_of(b"never")), get(&ids[1])]).collect());
        }
        _ => {
            let new = bytes_of(70_000, 2);
            let mut v = vec![];
            for d in [&data[1], &new, &b"gone".to_vec(), &vec![], &data[2]] {
                let o = oid_of(d);
                v.push(put_as(&o, d.len() as u64 + 1, d, 65516));
                v.push(put(d));
                v.push(verify(&o, d.len() as u64));
                v.push(get(&o));
                v.push(batch(&[(&o, d.len() as u64)]));
            }
            v.extend([lock(b"held"), lock(b"new"), list(None, None, None), unlock(b"held"), list(None, None, None), unlock(b"new")]);
            reqs.push(v);
        }
    }
    let mut cases = vec![];
    for f in FILES {
        for d in DIRS {
            for relative in [false, true] {
                for op in ["upload", "download"] {
                    if !(what == "stored" && op == "download") && !(d == "nothing" && relative) {
                        cases.push((f, d, relative, op));
                    }
                }
            }
        }
    }
    pool(cases.len(), || World::new(UID, None), |w, i| {
        let (f, d, relative, op) = cases[i];
        let mode = if op == "upload" { Mode::Up } else { Mode::Down };
        for list in &reqs {
            // what a mode refuses is no matter of the store
            let refs: Vec<&Request> = list.iter().filter(|r| mode == Mode::Up || !matches!(r.op, Op::Verify { .. } | Op::Put { .. })).collect();
            let mut m = arrange(w, f, d, relative, &data);
            let input = join(&refs);
            let o = Sess::new(w, op).run(&input);
            rep.count("sessions", 1);
            rep.count("requests", refs.len() as u64);
            let r = judge_session(&mut m, &refs, mode, &user_name(w.uid), &o).map(|_| ()).and_then(|_| {
                for (k, v) in &m.objects {
                    match fs::read(w.object_path(k)) {
                        Ok(x) if x == **v => (),
                        Ok(_) => return Err(format!("object {} has wrong content", k)),
                        Err(e) => return Err(format!("object {} is gone: {}", k, e)),
                    }
                }
                if !m.objects.contains_key(&gone) && w.object_path(&gone).exists() {
                    return Err("an object exists that was never stored".into());
                }
                Ok(())
            });
            if let Err(e) = r {
                let n = format!("objects as: {}; linked: {}{}", f, d, if relative { ", relatively" } else { "" });
                rep.violation(&format!("{} {}", op, n), &format!("{} session, {}: {}", op, n, e), &detail(op, &format!("{}\n{}", n, names(&refs)), &input, &o, &e));
            }
        }
        let _ = fs::remove_file(&w.lfs);
    });
    rep.scope("stores with links x sessions", cases.len() as u64 * reqs.len() as u64);
}
