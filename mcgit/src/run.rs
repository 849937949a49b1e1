//! Scratch repositories and running the programs.
use std::ffi::OsString;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub const UID: u32 = 61001;
pub static RUNS: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(0);
static BASE: OnceLock<PathBuf> = OnceLock::new();

pub fn base() -> &'static Path {
    BASE.get_or_init(|| {
        for top in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(format!("{}/vmg.{}", top, std::process::id()));
            if fs::create_dir(&p).is_ok() {
                fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
                return p;
            }
        }
        panic!("no place for scratch files");
    })
}

pub fn cleanup() {
    if let Some(b) = BASE.get() {
        assert!(b.to_string_lossy().contains("/vmg."));
        let _ = fs::remove_dir_all(b);
    }
}

pub fn bin(name: &str) -> PathBuf {
    PathBuf::from(std::env::var("VERIF_BIN").expect("VERIF_BIN not set")).join(name)
}

pub fn chown(p: &Path, uid: u32) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    assert_eq!(unsafe { libc::lchown(c.as_ptr(), uid, uid) }, 0);
}

/// A bare-bones repository `r.git` and a HOME, both the unprivileged user's.
pub struct Repo {
    pub dir: PathBuf,
    pub git: PathBuf,
}

impl Repo {
    pub fn new() -> Repo {
        let dir = base().join(format!("g{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        let git = dir.join("r.git");
        for d in ["", "home", "r.git", "r.git/objects", "r.git/objects/info", "r.git/objects/pack", "r.git/refs", "r.git/refs/heads", "r.git/refs/tags"] {
            let p = dir.join(d);
            fs::create_dir(&p).unwrap();
            chown(&p, UID);
        }
        let r = Repo { dir, git };
        r.write("config", b"[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = true\n");
        r.write("HEAD", b"ref: refs/heads/main\n");
        r
    }
    pub fn write(&self, name: &str, data: &[u8]) {
        self.write_os(Path::new(name), data)
    }
    pub fn write_os(&self, name: &Path, data: &[u8]) {
        let p = self.git.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, data).unwrap();
        let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o644));
    }
    pub fn set_ref(&self, name: &str, target: &str) {
        self.write(name, format!("{}\n", target).as_bytes());
    }
    /// Remove all references and reflogs.
    pub fn clear_refs(&self) {
        for d in ["refs", "logs"] {
            let _ = fs::remove_dir_all(self.git.join(d));
        }
        let _ = fs::remove_file(self.git.join("packed-refs"));
        fs::create_dir_all(self.git.join("refs/heads")).unwrap();
        fs::create_dir_all(self.git.join("refs/tags")).unwrap();
    }
    pub fn open(&self) -> git2::Repository {
        git2::Repository::open(&self.git).unwrap()
    }
    pub fn env(&self) -> Vec<(OsString, OsString)> {
        let mut v: Vec<(OsString, OsString)> = vec![];
        for (k, x) in [
            ("HOME", self.dir.join("home").into_os_string()),
            ("PATH", "/usr/bin:/bin".into()),
            ("GIT_CONFIG_NOSYSTEM", "1".into()),
            ("LC_ALL", "C".into()),
            ("TZ", "UTC".into()),
            ("RUST_BACKTRACE", "0".into()),
        ] {
            v.push((k.into(), x));
        }
        v
    }
}

pub struct Out {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
}

impl Out {
    pub fn show(&self) -> String {
        format!(
            "status {}{}{}, stdout \"{}\", stderr \"{}\"",
            self.code.map(|c| c.to_string()).unwrap_or("none".into()),
            self.signal.map(|c| format!(", signal {}", c)).unwrap_or_default(),
            if self.timeout { ", does not end" } else { "" },
            crate::vutil::show(&self.out),
            crate::vutil::show(&self.err)
        )
    }
}

pub fn memfile() -> fs::File {
    unsafe {
        let fd = libc::memfd_create(b"o\0".as_ptr() as *const libc::c_char, libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        fs::File::from_raw_fd(fd)
    }
}

pub fn contents(f: &fs::File) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    let n = f.metadata().unwrap().len() as usize;
    let mut v = vec![0; n];
    f.read_exact_at(&mut v, 0).unwrap();
    v
}

pub fn limit(c: &mut Command) {
    unsafe {
        c.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::umask(0o022);
            if libc::setgroups(0, std::ptr::null()) != 0 || libc::setresgid(UID, UID, UID) != 0 || libc::setresuid(UID, UID, UID) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
}

pub fn wait(child: &mut std::process::Child, timeout: u64) -> (std::process::ExitStatus, bool) {
    let pid = child.id() as i32;
    let start = Instant::now();
    let mut timed = false;
    unsafe {
        let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            loop {
                let left = (timeout * 1000).saturating_sub(start.elapsed().as_millis() as u64);
                let r = libc::poll(&mut p, 1, left as i32);
                if r > 0 {
                    break;
                }
                if r == 0 {
                    timed = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
            }
            libc::close(pfd);
        } else {
            while child.try_wait().unwrap().is_none() {
                if start.elapsed() > Duration::from_secs(timeout) {
                    timed = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    (child.wait().unwrap(), timed)
}

pub struct Opts<'a> {
    pub env: Vec<(OsString, OsString)>,
    pub stdout: Option<fs::File>,
    pub cwd: Option<&'a Path>,
    /// how long a file may become, and whether to ignore the signal for trying more
    pub fsize: Option<(u64, bool)>,
}
impl Default for Opts<'_> {
    fn default() -> Self {
        Opts { env: vec![], stdout: None, cwd: None, fsize: None }
    }
}

pub fn run(r: &Repo, prog: &str, args: &[&[u8]]) -> Out {
    run_with(r, prog, args, Opts::default())
}

pub fn run_with(r: &Repo, prog: &str, args: &[&[u8]], o: Opts) -> Out {
    use std::os::unix::ffi::OsStrExt;
    RUNS.fetch_add(1, Ordering::Relaxed);
    let (fout, ferr) = (memfile(), memfile());
    let mut c = Command::new(bin(prog));
    for a in args {
        c.arg(std::ffi::OsStr::from_bytes(a));
    }
    c.env_clear().current_dir(o.cwd.unwrap_or(&r.git));
    for (k, v) in r.env() {
        c.env(k, v);
    }
    for (k, v) in o.env {
        c.env(k, v);
    }
    c.stdin(Stdio::null());
    match o.stdout {
        Some(f) => c.stdout(Stdio::from(f)),
        None => c.stdout(Stdio::from(fout.try_clone().unwrap())),
    };
    // The limit is for all files, so messages go through a pipe then.
    let mut messages = None;
    if o.fsize.is_some() {
        let (rd, wr) = pipe();
        messages = Some(rd);
        c.stderr(Stdio::from(wr));
    } else {
        c.stderr(Stdio::from(ferr.try_clone().unwrap()));
    }
    if let Some((n, ignore)) = o.fsize {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, if ignore { libc::SIG_IGN } else { libc::SIG_DFL });
                let lim = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
                Ok(())
            });
        }
    }
    limit(&mut c);
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", prog, e));
    drop(c);
    let (st, timed) = wait(&mut child, 60);
    let err = match messages {
        Some(mut rd) => {
            let mut v = vec![];
            std::io::Read::read_to_end(&mut rd, &mut v).unwrap();
            v
        }
        None => contents(&ferr),
    };
    Out { out: contents(&fout), err, code: st.code(), signal: if timed { None } else { st.signal() }, timeout: timed }
}

/// A pipe: the end to read from and the end to write to.
pub fn pipe() -> (fs::File, fs::File) {
    unsafe {
        let mut p = [0; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (fs::File::from_raw_fd(p[0]), fs::File::from_raw_fd(p[1]))
    }
}

pub fn pty() -> (fs::File, fs::File) {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0, "no pseudo-terminal");
        assert_eq!(libc::grantpt(m), 0);
        assert_eq!(libc::unlockpt(m), 0);
        let mut name = [0 as libc::c_char; 64];
        assert_eq!(libc::ptsname_r(m, name.as_mut_ptr(), 64), 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0, "cannot open the terminal");
        // no translation of output
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(s, &mut t);
        t.c_oflag &= !libc::OPOST;
        libc::tcsetattr(s, libc::TCSANOW, &t);
        libc::fchmod(s, 0o666);
        (fs::File::from_raw_fd(m), fs::File::from_raw_fd(s))
    }
}

/// What has been written to the terminal and is not read yet.
pub fn drain(m: &fs::File) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let mut p = libc::pollfd { fd: m.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 0) } <= 0 || p.revents & libc::POLLIN == 0 {
            return v;
        }
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(m.as_raw_fd(), b.as_mut_ptr() as *mut _, b.len()) };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..n as usize]);
    }
}
