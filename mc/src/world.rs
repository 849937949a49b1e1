//! Scratch directories, repositories, users, plain (untraced) sessions.
use std::ffi::CString;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::collections::BTreeSet;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// The unprivileged users sessions run as. The first has no passwd entry, the others do.
pub const UID: u32 = 61001;
pub const UIDS: &[(u32, &str)] = &[(61001, "uid 61001"), (1, "daemon"), (2, "bin")];

pub fn user_name(uid: u32) -> String {
    static NAMES: OnceLock<Vec<(u32, String)>> = OnceLock::new();
    let names = NAMES.get_or_init(|| {
        let text = fs::read("/etc/passwd").unwrap_or_default();
        let text = String::from_utf8_lossy(&text).to_string();
        text.lines().filter_map(|l| { let mut f = l.split(':'); Some((f.next()?.to_string(), f.nth(1)?.parse().ok()?)) }).map(|(n, u): (String, u32)| (u, n)).collect()
    });
    names.iter().find(|x| x.0 == uid).map(|x| x.1.clone()).unwrap_or(format!("uid {}", uid))
}

pub static EVALS: AtomicU64 = AtomicU64::new(0);
pub static DISTINCT: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
static NEXT: AtomicU64 = AtomicU64::new(0);
static BASE: OnceLock<PathBuf> = OnceLock::new();

pub fn base() -> &'static Path {
    BASE.get_or_init(|| {
        for top in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(format!("{}/vmc.{}", top, std::process::id()));
            if fs::create_dir(&p).is_ok() {
                fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
                return p;
            }
        }
        panic!("no place for scratch files");
    })
}

pub fn cleanup() {
    if let Some(b) = BASE.get() {
        let s = b.to_string_lossy();
        assert!(s.contains("/vmc."));
        let _ = fs::remove_dir_all(b);
    }
}

pub fn bin(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("VERIF_BIN").expect("VERIF_BIN not set")).join(name)
}

pub fn chown(p: &Path, uid: u32) {
    use std::os::unix::ffi::OsStrExt;
    let c = CString::new(p.as_os_str().as_bytes()).unwrap();
    let r = unsafe { libc::lchown(c.as_ptr(), uid, uid) };
    assert_eq!(r, 0, "chown {}", p.display());
}

/// A scratch directory holding one bare repository `r.git` (owned by `uid`) and a HOME.
pub struct World {
    pub dir: PathBuf,
    pub repo: PathBuf,
    pub lfs: PathBuf,
    pub home: PathBuf,
    pub uid: u32,
}

fn mkdir(p: &Path, mode: u32, uid: u32) {
    fs::create_dir(p).unwrap_or_else(|e| panic!("mkdir {}: {}", p.display(), e));
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
    chown(p, uid);
}

fn put(p: &Path, data: &[u8], mode: u32, uid: u32) {
    fs::write(p, data).unwrap_or_else(|e| panic!("write {}: {}", p.display(), e));
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).unwrap();
    chown(p, uid);
}

impl World {
    pub fn new(uid: u32, shared: Option<&str>) -> World {
        let dir = base().join(format!("w{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        mkdir(&dir, 0o755, uid);
        let w = World {
            repo: dir.join("r.git"),
            lfs: dir.join("r.git/lfs"),
            home: dir.join("home"),
            dir,
            uid,
        };
        mkdir(&w.home, 0o755, uid);
        let conf = format!("[safe]\n\tdirectory = {}\n", w.repo.display());
        put(&w.home.join(".gitconfig"), conf.as_bytes(), 0o644, uid);
        w.make_repo(shared);
        w
    }
    fn make_repo(&self, shared: Option<&str>) {
        let r = &self.repo;
        let uid = self.uid;
        mkdir(r, 0o777, uid);
        for d in ["objects", "objects/info", "objects/pack", "refs", "refs/heads", "refs/tags"] {
            mkdir(&r.join(d), 0o777, uid);
        }
        put(&r.join("HEAD"), b"ref: refs/heads/main\n", 0o666, uid);
        let mut cfg = "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = true\n".to_string();
        if let Some(s) = shared {
            if s == "<novalue>" {
                cfg += "\tsharedRepository\n";
            } else {
                cfg += &format!("\tsharedRepository = {}\n", s);
            }
        }
        put(&r.join("config"), cfg.as_bytes(), 0o666, uid);
    }
    pub fn set_shared(&self, shared: Option<&str>) {
        let mut cfg = "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = true\n".to_string();
        if let Some(s) = shared {
            cfg += &if s == "<novalue>" { "\tsharedRepository\n".to_string() } else { format!("\tsharedRepository = {}\n", s) };
        }
        put(&self.repo.join("config"), cfg.as_bytes(), 0o666, self.uid);
    }
    /// Further lines for the user's own configuration.
    pub fn user_config(&self, more: &str) {
        let conf = format!("[safe]\n\tdirectory = {}\n{}", self.repo.display(), more);
        put(&self.home.join(".gitconfig"), conf.as_bytes(), 0o644, self.uid);
    }
    /// Remove everything below the lfs directory and the directory itself.
    pub fn wipe(&self) {
        let _ = fs::remove_dir_all(&self.lfs);
    }
    /// Create the directories the server creates at startup, as a given user and mode.
    pub fn mk_lfs(&self, mode: u32) {
        mkdir(&self.lfs, mode, self.uid);
        for d in ["objects", "incomplete", "tmp", "locks"] {
            mkdir(&self.lfs.join(d), mode, self.uid);
        }
    }
    pub fn object_path(&self, oid: &str) -> PathBuf {
        self.lfs.join("objects").join(&oid[..2]).join(&oid[2..4]).join(oid)
    }
    pub fn add_object(&self, oid: &str, data: &[u8]) {
        for p in [self.lfs.join("objects").join(&oid[..2]), self.lfs.join("objects").join(&oid[..2]).join(&oid[2..4])] {
            if !p.exists() {
                mkdir(&p, 0o755, self.uid);
            }
        }
        put(&self.object_path(oid), data, 0o755, self.uid);
    }
    pub fn add_lock_file(&self, name: &str, data: &[u8], uid: u32) {
        put(&self.lfs.join("locks").join(name), data, 0o644, uid);
    }
    /// Count one evaluation and remember it, told apart by session parameters, input and store.
    pub fn note_case(&self, op: &str, uid: u32, salt: u64, input: &[u8]) {
        use std::hash::{Hash, Hasher};
        EVALS.fetch_add(1, Ordering::Relaxed);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (op, uid, salt, input).hash(&mut h);
        fs::read(self.repo.join("config")).unwrap_or_default().hash(&mut h);
        for e in tree(&self.lfs) {
            (e.path, e.kind, e.mode, e.uid).hash(&mut h);
            e.data[..e.data.len().min(200)].hash(&mut h);
        }
        if !input.is_empty() {
            DISTINCT.lock().unwrap().insert(h.finish());
        }
    }
    pub fn remove(&self) {
        assert!(self.dir.starts_with(base()));
        let _ = fs::remove_dir_all(&self.dir);
    }
    pub fn env(&self) -> Vec<(String, String)> {
        vec![
            ("HOME".into(), self.home.to_str().unwrap().into()),
            ("PATH".into(), "/usr/bin:/bin".into()),
            ("TMPDIR".into(), self.home.to_str().unwrap().into()),
            ("GIT_CONFIG_NOSYSTEM".into(), "1".into()),
            ("LC_ALL".into(), "C".into()),
        ]
    }
}

impl Drop for World {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.remove();
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// wait status
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub t0: i64,
    pub t1: i64,
}

impl Outcome {
    pub fn crashed(&self) -> Option<String> {
        if self.timeout {
            return Some("the session did not end (hang)".into());
        }
        if let Some(s) = self.signal {
            return Some(format!("the session was ended by signal {}", s));
        }
        if self.code == Some(101) || String::from_utf8_lossy(&self.err).contains("panicked at") {
            return Some(format!(
                "the session panicked: {}",
                String::from_utf8_lossy(&self.err).lines().next().unwrap_or("")
            ));
        }
        None
    }
}

pub fn memfile(data: &[u8]) -> fs::File {
    let c = CString::new("m").unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0);
    let mut f = unsafe { fs::File::from_raw_fd(fd) };
    f.write_all(data).unwrap();
    unsafe { libc::lseek(fd, 0, libc::SEEK_SET) };
    f
}

pub fn contents(f: &fs::File) -> Vec<u8> {
    let mut v = vec![0u8; f.metadata().unwrap().len() as usize];
    let mut o = 0;
    while o < v.len() {
        let n = unsafe {
            libc::pread(f.as_raw_fd(), v[o..].as_mut_ptr() as *mut libc::c_void, v.len() - o, o as i64)
        };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
    v.truncate(o);
    v
}

pub fn unix_now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

/// How one plain session is started.
#[derive(Clone)]
pub struct Sess<'a> {
    pub world: &'a World,
    pub op: &'a str,
    pub uid: u32,
    pub umask: u32,
    pub timeout: u64,
}

impl<'a> Sess<'a> {
    pub fn new(world: &'a World, op: &'a str) -> Sess<'a> {
        Sess { world, op, uid: world.uid, umask: 0o022, timeout: 30 }
    }
    pub fn user(mut self, uid: u32) -> Self {
        self.uid = uid;
        self
    }
    pub fn umask(mut self, m: u32) -> Self {
        self.umask = m;
        self
    }
    pub fn run(&self, input: &[u8]) -> Outcome {
        self.world.note_case(self.op, self.uid, self.umask as u64, input);
        run_program(
            &bin("git-lfs-transfer"),
            &[self.world.repo.to_str().unwrap(), self.op],
            self.world,
            self.uid,
            self.umask,
            input,
            self.timeout,
        )
    }
}

pub fn run_program(exe: &Path, args: &[&str], w: &World, uid: u32, umask: u32, input: &[u8], timeout: u64) -> Outcome {
    let args: Vec<&std::ffi::OsStr> = args.iter().map(std::ffi::OsStr::new).collect();
    run_program_in(exe, &args, w, uid, umask, input, timeout, &w.dir, &[])
}

/// As above, in a directory of one's choice and with changes to the environment (`None` removes a variable).
#[allow(clippy::too_many_arguments)]
pub fn run_program_in(exe: &Path, args: &[&std::ffi::OsStr], w: &World, uid: u32, umask: u32, input: &[u8], timeout: u64, cwd: &Path, env: &[(&str, Option<String>)]) -> Outcome {
    let fin = memfile(input);
    let fout = memfile(b"");
    let ferr = memfile(b"");
    let mut c = Command::new(exe);
    c.args(args).env_clear().current_dir(cwd);
    for (k, v) in w.env() {
        c.env(k, v);
    }
    for (k, v) in env {
        match v {
            Some(v) => c.env(k, v),
            None => c.env_remove(k),
        };
    }
    c.stdin(Stdio::from(fin));
    c.stdout(Stdio::from(fout.try_clone().unwrap()));
    c.stderr(Stdio::from(ferr.try_clone().unwrap()));
    unsafe {
        c.pre_exec(move || {
            libc::umask(umask);
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            if uid != 0 {
                if libc::setgroups(0, std::ptr::null()) != 0
                    || libc::setresgid(uid, uid, uid) != 0
                    || libc::setresuid(uid, uid, uid) != 0
                {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let t0 = unix_now();
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", exe.display(), e));
    let start = Instant::now();
    let mut timed = false;
    let pid = child.id() as i32;
    // Wait without polling: use a pidfd with poll(2).
    let st = unsafe {
        let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            loop {
                let left = (timeout * 1000).saturating_sub(start.elapsed().as_millis() as u64);
                let r = libc::poll(&mut p, 1, left as i32);
                if r > 0 {
                    break;
                }
                if r == 0 {
                    timed = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
            }
            libc::close(pfd);
        } else {
            while child.try_wait().unwrap().is_none() {
                if start.elapsed() > Duration::from_secs(timeout) {
                    timed = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        child.wait().unwrap()
    };
    use std::os::unix::process::ExitStatusExt;
    Outcome {
        out: contents(&fout),
        err: contents(&ferr),
        code: st.code(),
        signal: if timed { None } else { st.signal() },
        timeout: timed,
        t0,
        t1: unix_now(),
    }
}

// ------------------------------------------------------------------------------------------
// Observing the store

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Entry {
    pub path: String,
    /// 'd', 'f', 'l', '?'
    pub kind: char,
    pub mode: u32,
    pub uid: u32,
    pub data: Vec<u8>,
    pub ino: u64,
    pub nlink: u64,
}

/// Everything below a directory, sorted by path.
pub fn tree(root: &Path) -> Vec<Entry> {
    fn walk(root: &Path, p: &Path, out: &mut Vec<Entry>) {
        let mut v: Vec<_> = match fs::read_dir(p) {
            Ok(r) => r.flatten().map(|e| e.path()).collect(),
            Err(_) => return,
        };
        v.sort();
        for e in v {
            let m = match fs::symlink_metadata(&e) {
                Ok(m) => m,
                Err(_) => continue,
            };
            let kind = if m.is_dir() {
                'd'
            } else if m.is_file() {
                'f'
            } else if m.file_type().is_symlink() {
                'l'
            } else {
                '?'
            };
            out.push(Entry {
                path: e.strip_prefix(root).unwrap().to_string_lossy().into(),
                kind,
                mode: m.mode() & 0o7777,
                uid: m.uid(),
                data: if kind == 'f' { fs::read(&e).unwrap_or_default() } else { vec![] },
                ino: m.ino(),
                nlink: m.nlink(),
            });
            if kind == 'd' {
                walk(root, &e, out);
            }
        }
    }
    let mut out = vec![];
    walk(root, root, &mut out);
    out
}
