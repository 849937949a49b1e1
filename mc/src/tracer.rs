//! Controlled execution of real, unmodified processes.
//!
//! A `Proc` is a real program started under ptrace with a seccomp filter that stops it at the entry
//! of every file-system related system call.  The harness therefore owns every interaction of the
//! program with the file system, with its standard input, with the clock and with the kernel's
//! random numbers: it decides when each step runs, whether it fails, is shortened, or whether the
//! process is killed just before or after it.
//!
//! Safety: a mutating call whose target lies outside the execution's scratch directory is never
//! let through; it is recorded as an escape and answered with EPERM.

use libc::{c_int, c_void, pid_t};
use std::collections::HashMap;
use std::ffi::CString;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

pub const SYSCALLS: &[(i64, &str)] = &[
    (0, "read"), (1, "write"), (2, "open"), (4, "stat"), (5, "fstat"), (6, "lstat"),
    (17, "pread64"), (18, "pwrite64"), (19, "readv"), (20, "writev"), (21, "access"),
    (35, "nanosleep"), (39, "getpid"), (40, "sendfile"), (73, "flock"), (74, "fsync"), (75, "fdatasync"),
    (76, "truncate"), (77, "ftruncate"), (78, "getdents"), (82, "rename"), (83, "mkdir"),
    (84, "rmdir"), (85, "creat"), (86, "link"), (87, "unlink"), (88, "symlink"), (89, "readlink"),
    (90, "chmod"), (91, "fchmod"), (92, "chown"), (93, "fchown"), (94, "lchown"),
    (96, "gettimeofday"), (132, "utime"), (133, "mknod"), (201, "time"), (217, "getdents64"),
    (228, "clock_gettime"), (230, "clock_nanosleep"), (235, "utimes"), (257, "openat"),
    (258, "mkdirat"), (259, "mknodat"), (260, "fchownat"), (261, "futimesat"),
    (262, "newfstatat"), (263, "unlinkat"), (264, "renameat"), (265, "linkat"),
    (266, "symlinkat"), (267, "readlinkat"), (268, "fchmodat"), (269, "faccessat"),
    (280, "utimensat"), (285, "fallocate"), (295, "preadv"), (296, "pwritev"),
    (316, "renameat2"), (318, "getrandom"), (326, "copy_file_range"), (327, "preadv2"),
    (328, "pwritev2"), (332, "statx"), (437, "openat2"), (439, "faccessat2"), (452, "fchmodat2"),
    (275, "splice"), (61, "wait4"),
];

pub fn sysname(nr: i64) -> &'static str {
    SYSCALLS.iter().find(|x| x.0 == nr).map(|x| x.1).unwrap_or("?")
}

/// One file-system operation a process is about to perform.
#[derive(Clone, Debug)]
pub struct FsOp {
    pub nr: i64,
    pub name: &'static str,
    /// canonical (masked) paths, relative to the lfs directory
    pub paths: Vec<String>,
    /// real absolute paths
    pub real: Vec<PathBuf>,
    pub fd: Option<i32>,
    pub flags: u64,
    pub len: usize,
    pub mutating: bool,
}

impl FsOp {
    pub fn label(&self) -> String {
        let mut s = format!("{}({}", self.name, self.paths.join(" -> "));
        if matches!(self.name, "openat" | "open") && self.flags != 0 {
            s += &format!(", {}", open_flags(self.flags));
        }
        if matches!(self.name, "write" | "pwrite64" | "writev") {
            s += &format!(", {} bytes", self.len);
        }
        s + ")"
    }
}

fn open_flags(f: u64) -> String {
    let f = f as i32;
    let mut v = vec![match f & 3 {
        0 => "RDONLY",
        1 => "WRONLY",
        _ => "RDWR",
    }];
    for (b, n) in [
        (libc::O_CREAT, "CREAT"),
        (libc::O_EXCL, "EXCL"),
        (libc::O_TRUNC, "TRUNC"),
        (libc::O_APPEND, "APPEND"),
    ] {
        if f & b != 0 {
            v.push(n)
        }
    }
    v.join("|")
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// About to perform a scheduled file-system operation.
    Fs(FsOp),
    /// Everything given so far has been read; waiting for the next request.
    Input,
    /// Finished: wait status.
    Done(i32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Do {
    Run,
    /// Do not perform the call; return this errno.
    Fail(i32),
    /// Perform a read/write with this (smaller) length.
    Short(usize),
    /// Kill the process instead of performing the call.
    Kill,
    /// Perform a write with this smaller length, then kill the process.
    TornKill(usize),
    /// Perform the call, then kill the process.
    RunKill,
}

#[derive(Clone)]
pub struct Config {
    pub exe: PathBuf,
    pub args: Vec<String>,
    pub cwd: PathBuf,
    pub env: Vec<(String, String)>,
    pub umask: u32,
    pub uid: u32,
    /// Everything below this directory may be modified.
    pub scratch: PathBuf,
    /// Calls on paths below this directory are scheduling points.
    pub root: PathBuf,
    /// Stop at scheduling points from the very start (otherwise only from the first read of stdin).
    pub sched_startup: bool,
    /// Feed stdin chunk by chunk, each only when the process asks for more.
    pub chunks: Vec<Vec<u8>>,
    pub time0: i64,
    pub id: usize,
    /// the process ID the program sees
    pub pid: i64,
    pub max_steps: usize,
    /// what happens to calls on (emulated) standard input and output, by their number from 0
    pub stream: StreamPlan,
}

#[derive(Clone, Default, Debug)]
pub struct StreamPlan {
    pub one: Vec<(usize, Do)>,
    /// applied to every call that may go that way
    pub all_short: bool,
    /// every other call is interrupted
    pub interrupt: bool,
}

pub struct Proc {
    pub cfg: Config,
    pub pid: pid_t,
    stdin_r: c_int,
    stdin_w: c_int,
    stdout: c_int,
    stderr: c_int,
    pub fed: usize,
    started: bool,
    pub stop: Stop,
    hist: (u64, u64),
    pub steps: usize,
    created: usize,
    fd_names: HashMap<i32, String>,
    /// paths outside the scheduling root that were touched, with the syscall name
    pub outside: Vec<(String, &'static str)>,
    pub escapes: Vec<String>,
    /// completed commands = chunks asked beyond
    pub completed: usize,
    pub clock_reads: usize,
    /// clock value added to time0 for realtime reads
    pub clock_add: i64,
    pub tick_at: Option<usize>,
    pub trace: Vec<String>,
    pub keep_trace: bool,
    pub spin: bool,
    pub blocked: bool,
    pub clock_other: bool,
    reaped: bool,
    pub waiting_input: bool,
    sig_pending: c_int,
    /// the watchdog had to end the process
    pub hung: bool,
    /// the standard streams are emulated
    emu: bool,
    eof: bool,
    inbuf: Vec<u8>,
    /// calls on emulated standard input and output so far: (input?, bytes)
    pub stream_calls: Vec<(bool, usize)>,
    out: Vec<u8>,
    err: Vec<u8>,
}

static WATCHED: Mutex<Option<HashMap<pid_t, (Instant, bool)>>> = Mutex::new(None);

/// Processes that do not finish within a minute are ended (they hang in a system call).
fn watch(pid: pid_t) {
    let mut g = WATCHED.lock().unwrap();
    if g.is_none() {
        *g = Some(HashMap::new());
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some(m) = WATCHED.lock().unwrap().as_mut() {
                for (pid, v) in m.iter_mut() {
                    if !v.1 && v.0.elapsed().as_secs() > 60 {
                        v.1 = true;
                        unsafe { libc::kill(*pid, libc::SIGKILL) };
                    }
                }
            }
        });
    }
    g.as_mut().unwrap().insert(pid, (Instant::now(), false));
}

fn unwatch(pid: pid_t) -> bool {
    let mut g = WATCHED.lock().unwrap();
    g.as_mut().and_then(|m| m.remove(&pid)).map(|v| v.1).unwrap_or(false)
}

fn mix(h: &mut (u64, u64), data: &[u8]) {
    // two independent FNV-like streams finished by a multiply-xorshift
    for &b in data {
        h.0 = (h.0 ^ b as u64).wrapping_mul(0x100000001b3);
        h.1 = (h.1.rotate_left(5) ^ b as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    h.0 ^= 0xff;
    h.0 = h.0.wrapping_mul(0x100000001b3);
    h.1 ^= h.1 >> 29;
    h.1 = h.1.wrapping_mul(0xBF58476D1CE4E5B9);
}

/// Names created during one execution, mapped to schedule-independent names.
#[derive(Default, Clone)]
pub struct Names {
    pub map: HashMap<String, String>,
}

fn is_known(c: &str) -> bool {
    matches!(c, "objects" | "incomplete" | "tmp" | "locks" | "")
        || (c.len() == 2 && c.bytes().all(|b| b.is_ascii_hexdigit()))
        || (c.len() == 64 && c.bytes().all(|b| b.is_ascii_hexdigit()))
        || (c.len() == 69 && c.ends_with(".lock"))
}

impl Names {
    pub fn canon(&self, rel: &str) -> String {
        rel.split('/')
            .map(|c| match self.map.get(c) {
                Some(m) => m.as_str(),
                None => c,
            })
            .collect::<Vec<_>>()
            .join("/")
    }
}

unsafe fn filter_prog() -> Vec<libc::sock_filter> {
    let mut v = vec![];
    let st = |code: u16, k: u32| libc::sock_filter { code, jt: 0, jf: 0, k };
    v.push(st((libc::BPF_LD | libc::BPF_W | libc::BPF_ABS) as u16, 0));
    let n = SYSCALLS.len();
    for (i, (nr, _)) in SYSCALLS.iter().enumerate() {
        v.push(libc::sock_filter {
            code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16,
            jt: (n - i) as u8,
            jf: 0,
            k: *nr as u32,
        });
    }
    v.push(st((libc::BPF_RET | libc::BPF_K) as u16, libc::SECCOMP_RET_ALLOW));
    v.push(st((libc::BPF_RET | libc::BPF_K) as u16, libc::SECCOMP_RET_TRACE));
    v
}

const OPTS: c_int = libc::PTRACE_O_TRACESECCOMP | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACEEXEC | libc::PTRACE_O_TRACESYSGOOD;

fn null() -> c_int {
    let fd = unsafe { libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDWR | libc::O_CLOEXEC) };
    assert!(fd >= 0);
    fd
}

fn memfd(name: &str) -> c_int {
    let c = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create failed");
    fd
}

fn read_fd_all(fd: c_int) -> Vec<u8> {
    let mut out = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        let n = unsafe {
            libc::pread(fd, buf.as_mut_ptr() as *mut c_void, buf.len(), out.len() as i64)
        };
        if n <= 0 {
            return out;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

/// Keep a worker thread and the programs it traces on one processor: handing over between them is
/// far cheaper that way.
fn pin() {
    thread_local!(static PINNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    static CPUS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if PINNED.with(|p| p.replace(true)) || unsafe { libc::gettid() == libc::getpid() } {
        return;
    }
    unsafe {
        let cpus = CPUS.get_or_init(|| {
            let mut m: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(libc::getpid(), std::mem::size_of_val(&m), &mut m) != 0 {
                return vec![];
            }
            (0..libc::CPU_SETSIZE as usize).filter(|&i| libc::CPU_ISSET(i, &m)).collect()
        });
        if cpus.is_empty() {
            return;
        }
        let c = cpus[NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % cpus.len()];
        let mut m: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut m);
        libc::sched_setaffinity(0, std::mem::size_of_val(&m), &m);
    }
}

/// While this exists, the thread has the real (and, if asked for, the file-system) user and group ID of
/// the traced process, which the kernel wants for looking into it where CAP_SYS_PTRACE is missing.
struct As(u32, bool);
impl As {
    fn new(uid: u32, fs: bool) -> As {
        As::set(uid, fs);
        As(uid, fs)
    }
    fn set(uid: u32, fs: bool) {
        // system calls, because the library functions would change all threads
        unsafe {
            // Back to root the file-system IDs come first: that gives back what they took away.
            if fs && uid == 0 {
                libc::setfsuid(uid);
                libc::setfsgid(uid);
            }
            libc::syscall(libc::SYS_setresgid, uid, -1, -1);
            libc::syscall(libc::SYS_setresuid, uid, -1, -1);
            if fs && uid != 0 {
                libc::setfsgid(uid);
                libc::setfsuid(uid);
            }
        }
    }
}
impl Drop for As {
    fn drop(&mut self) {
        if self.0 != 0 {
            As::set(0, self.1);
        }
    }
}

fn refused() {
    if std::io::Error::last_os_error().raw_os_error() == Some(libc::EPERM) {
        eprintln!("cannot look into a traced process");
        crate::world::cleanup();
        std::process::exit(2);
    }
}

impl Proc {
    pub fn spawn(cfg: Config, names: &mut Names) -> Proc {
        Proc::spawn_as(cfg, names, false)
    }

    /// As [`Proc::spawn`], with the standard streams emulated, so that they can fail.
    pub fn spawn_streams(cfg: Config, names: &mut Names) -> Proc {
        Proc::spawn_as(cfg, names, true)
    }

    /// What becomes of the next call on standard input or output; `None`: it is done as asked.
    fn stream_fault(&mut self, input: bool, len: usize) -> Option<Do> {
        let n = self.stream_calls.len();
        self.stream_calls.push((input, len));
        let p = &self.cfg.stream;
        if let Some((_, d)) = p.one.iter().find(|x| x.0 == n) {
            return Some(*d);
        }
        if p.interrupt && n % 2 == 0 {
            return Some(Do::Fail(libc::EINTR));
        }
        if p.all_short && len > 1 {
            return Some(Do::Short(1));
        }
        None
    }

    /// Start a process whose standard streams exist only here if `emu` is set: such a process can be
    /// duplicated.
    fn spawn_as(cfg: Config, names: &mut Names, emu: bool) -> Proc {
        pin();
        let exe = CString::new(cfg.exe.to_str().unwrap()).unwrap();
        let mut argv_c = vec![exe.clone()];
        for a in &cfg.args {
            argv_c.push(CString::new(a.as_str()).unwrap());
        }
        let mut argv: Vec<_> = argv_c.iter().map(|x| x.as_ptr()).collect();
        argv.push(std::ptr::null());
        let env_c: Vec<_> = cfg
            .env
            .iter()
            .map(|(k, v)| CString::new(format!("{}={}", k, v)).unwrap())
            .collect();
        let mut envp: Vec<_> = env_c.iter().map(|x| x.as_ptr()).collect();
        envp.push(std::ptr::null());
        let cwd = CString::new(cfg.cwd.to_str().unwrap()).unwrap();
        let filter = unsafe { filter_prog() };
        let mut prog = libc::sock_fprog {
            len: filter.len() as u16,
            filter: filter.as_ptr() as *mut _,
        };
        let mut p = [0 as c_int; 2];
        assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0);
        unsafe { libc::fcntl(p[1], libc::F_SETPIPE_SZ, 1 << 20) };
        let (so, se) = if emu { (null(), null()) } else { (memfd("out"), memfd("err")) };
        let umask = cfg.umask;
        let uid = cfg.uid;
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::dup2(p[0], 0);
                libc::dup2(so, 1);
                libc::dup2(se, 2);
                libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
                // nothing else is inherited
                libc::syscall(libc::SYS_close_range, 3, libc::c_uint::MAX, 4);
                libc::chdir(cwd.as_ptr());
                libc::umask(umask);
                let lim = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                if uid != 0
                    && (libc::setgroups(0, std::ptr::null()) != 0
                        || libc::setresgid(uid, uid, uid) != 0
                        || libc::setresuid(uid, uid, uid) != 0)
                {
                    libc::_exit(124);
                }
                libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0);
                libc::raise(libc::SIGSTOP);
                libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
                if libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &mut prog) != 0 {
                    libc::_exit(125);
                }
                libc::execve(exe.as_ptr(), argv.as_ptr(), envp.as_ptr());
                libc::_exit(126);
            }
        }
        let mut me = Proc {
            cfg,
            pid,
            stdin_r: p[0],
            stdin_w: p[1],
            stdout: so,
            stderr: se,
            fed: 0,
            started: false,
            stop: Stop::Done(0),
            hist: (0xcbf29ce484222325, 0x1234567),
            steps: 0,
            created: 0,
            fd_names: HashMap::new(),
            outside: vec![],
            escapes: vec![],
            completed: 0,
            clock_reads: 0,
            clock_add: 0,
            tick_at: None,
            trace: vec![],
            keep_trace: false,
            spin: false,
            blocked: false,
            clock_other: false,
            reaped: false,
            waiting_input: false,
            sig_pending: 0,
            hung: false,
            emu: false,
            eof: false,
            inbuf: vec![],
            stream_calls: vec![],
            out: vec![],
            err: vec![],
        };
        me.emu = emu;
        watch(pid);
        let st = me.wait();
        if !libc::WIFSTOPPED(st) {
            panic!("tracee did not stop");
        }
        let opts = OPTS | if emu { libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACECLONE } else { 0 };
        unsafe { libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opts as usize) };
        me.started = me.cfg.sched_startup;
        me.proceed(names);
        me
    }

    /// Like `spawn`, but duplicates a process started before in the same way, at the point where it
    /// stopped first, when there is one.  `salt` stands for everything outside the configuration that
    /// the start of the program could depend on.
    pub fn spawn_cached(cfg: Config, names: &mut Names, salt: u64) -> Proc {
        thread_local!(static TEMPLATES: std::cell::RefCell<HashMap<u64, Option<Proc>>> = Default::default());
        let key = hash64(format!("{:?}", (&cfg.exe, &cfg.args, &cfg.cwd, &cfg.env, cfg.umask, cfg.uid, &cfg.root, cfg.sched_startup, cfg.time0, cfg.id, cfg.pid, salt)).as_bytes());
        TEMPLATES.with(|ts| {
            let mut ts = ts.borrow_mut();
            if !ts.contains_key(&key) {
                if ts.len() >= 16 {
                    ts.clear();
                }
                let before = crate::world::tree(&cfg.root);
                let mut own = Names::default();
                let t = Proc::spawn_as(cfg.clone(), &mut own, true);
                unwatch(t.pid);
                let tasks = std::fs::read_dir(format!("/proc/{}/task", t.pid)).map(|x| x.count()).unwrap_or(0);
                let _as = As::new(t.cfg.uid, true);
                let files = std::fs::read_dir(format!("/proc/{}/fd", t.pid)).map(|x| x.count()).unwrap_or(9);
                // Only a start without effects and without state outside the process can be shared.
                drop(_as);
                let ok = !t.done() && tasks == 1 && files <= 3 && t.steps == 0 && t.escapes.is_empty() && before == crate::world::tree(&cfg.root);
                if !ok && std::env::var("MC_DEBUG").is_ok() {
                    eprintln!("no template: done {} tasks {} files {} steps {} {:?}", t.done(), tasks, files, t.steps, std::fs::read_dir(format!("/proc/{}/fd", t.pid)).map(|x| x.flatten().map(|e| std::fs::read_link(e.path())).collect::<Vec<_>>()));
                }
                ts.insert(key, if ok { Some(t) } else { None });
            }
            match ts.get_mut(&key).unwrap() {
                Some(t) => t.duplicate(cfg, names),
                None => Proc::spawn(cfg, names),
            }
        })
    }

    /// A copy of this process, which has just stopped for the first time.
    fn duplicate(&mut self, cfg: Config, names: &mut Names) -> Proc {
        let orig = self.regs();
        let nr = orig.orig_rax;
        let mut r = orig;
        r.orig_rax = libc::SYS_clone as u64;
        r.rdi = (libc::CLONE_PARENT | libc::SIGCHLD) as u64;
        r.rsi = 0;
        r.rdx = 0;
        r.r10 = 0;
        r.r8 = 0;
        self.set_regs(&r);
        let mut child: libc::c_ulong = 0;
        loop {
            unsafe { libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, 0) };
            let st = self.wait();
            assert!(!self.reaped, "template died");
            let ev = st >> 16;
            if ev == libc::PTRACE_EVENT_FORK || ev == libc::PTRACE_EVENT_CLONE {
                unsafe { libc::ptrace(libc::PTRACE_GETEVENTMSG, self.pid, 0, &mut child) };
            } else if libc::WSTOPSIG(st) == libc::SIGTRAP | 0x80 {
                break;
            }
        }
        assert!(child > 0, "the template could not be duplicated");
        // Both execute the interrupted system call again.
        let mut r = orig;
        r.rip -= 2;
        r.rax = nr;
        r.orig_rax = u64::MAX;
        self.set_regs(&r);
        unsafe { libc::ptrace(libc::PTRACE_CONT, self.pid, 0, 0) };
        let st = self.wait();
        assert!(st >> 16 == libc::PTRACE_EVENT_SECCOMP, "the template did not come back");
        let mut me = Proc {
            cfg,
            pid: child as pid_t,
            stdin_r: -1,
            stdin_w: -1,
            stdout: -1,
            stderr: -1,
            outside: self.outside.clone(),
            escapes: vec![],
            trace: vec![],
            fd_names: HashMap::new(),
            out: self.out.clone(),
            err: self.err.clone(),
            inbuf: vec![],
            stream_calls: self.stream_calls.clone(),
            stop: Stop::Done(0),
            ..*self
        };
        // when it stopped, the template had counted its pending call already
        me.created = 0;
        watch(me.pid);
        let st = me.wait();
        assert!(libc::WIFSTOPPED(st), "the duplicate did not stop");
        unsafe { libc::ptrace(libc::PTRACE_SETOPTIONS, me.pid, 0, OPTS as usize) };
        me.set_regs(&r);
        me.proceed(names);
        me
    }

    fn wait(&mut self) -> c_int {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::__WALL) };
            if r == self.pid {
                if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                    self.reaped = true;
                    self.hung = unwatch(self.pid);
                }
                return st;
            }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                panic!("waitpid failed");
            }
        }
    }

    fn regs(&self) -> libc::user_regs_struct {
        let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        let rc = unsafe { libc::ptrace(libc::PTRACE_GETREGS, self.pid, 0, &mut r) };
        assert!(rc >= 0, "GETREGS failed");
        r
    }

    fn set_regs(&self, r: &libc::user_regs_struct) {
        let rc = unsafe { libc::ptrace(libc::PTRACE_SETREGS, self.pid, 0, r) };
        assert!(rc >= 0, "SETREGS failed");
    }

    pub fn peek(&self, addr: u64, len: usize) -> Vec<u8> {
        let mut buf = vec![0u8; len];
        let l = libc::iovec { iov_base: buf.as_mut_ptr() as *mut c_void, iov_len: len };
        let r = libc::iovec { iov_base: addr as *mut c_void, iov_len: len };
        let _as = As::new(self.cfg.uid, false);
        let n = unsafe { libc::process_vm_readv(self.pid, &l, 1, &r, 1, 0) };
        if n < 0 {
            refused();
        }
        buf.truncate(if n < 0 { 0 } else { n as usize });
        buf
    }

    fn poke(&self, addr: u64, data: &[u8]) {
        let l = libc::iovec { iov_base: data.as_ptr() as *mut c_void, iov_len: data.len() };
        let r = libc::iovec { iov_base: addr as *mut c_void, iov_len: data.len() };
        let _as = As::new(self.cfg.uid, false);
        if unsafe { libc::process_vm_writev(self.pid, &l, 1, &r, 1, 0) } < 0 {
            refused();
        }
    }

    fn cstr(&self, addr: u64) -> String {
        if addr == 0 {
            return String::new();
        }
        let mut out: Vec<u8> = vec![];
        let mut a = addr;
        loop {
            let n = 4096 - (a as usize % 4096);
            let n = n.min(256);
            let b = self.peek(a, n);
            if b.is_empty() {
                break;
            }
            if let Some(p) = b.iter().position(|&x| x == 0) {
                out.extend_from_slice(&b[..p]);
                break;
            }
            out.extend_from_slice(&b);
            a += b.len() as u64;
            if out.len() > 70000 {
                break;
            }
        }
        String::from_utf8_lossy(&out).into()
    }

    fn fd_path(&self, fd: i32) -> Option<PathBuf> {
        let _as = As::new(self.cfg.uid, true);
        std::fs::read_link(format!("/proc/{}/fd/{}", self.pid, fd)).ok()
    }

    fn resolve(&self, dirfd: i32, s: &str) -> PathBuf {
        let p = Path::new(s);
        let base = if p.is_absolute() {
            PathBuf::new()
        } else if dirfd == libc::AT_FDCWD {
            self.cfg.cwd.clone()
        } else {
            self.fd_path(dirfd).unwrap_or_default()
        };
        let mut out = PathBuf::from("/");
        for c in base.join(p).components() {
            match c {
                std::path::Component::ParentDir => {
                    out.pop();
                }
                std::path::Component::Normal(x) => out.push(x),
                _ => {}
            }
        }
        out
    }

    /// Decode a call at its entry: the paths it names and whether it may change anything.
    fn decode(&self, r: &libc::user_regs_struct) -> (Vec<PathBuf>, Option<i32>, u64, usize, bool) {
        let nr = r.orig_rax as i64;
        let (a, b, c, d, e) = (r.rdi, r.rsi, r.rdx, r.r10, r.r8);
        let cwd = libc::AT_FDCWD;
        let p1 = |x: u64| vec![self.resolve(cwd, &self.cstr(x))];
        let pat = |fd: u64, x: u64| vec![self.resolve(fd as i32, &self.cstr(x))];
        let wr = |f: u64| (f as i32 & 3) != 0 || f as i32 & (libc::O_CREAT | libc::O_TRUNC) != 0;
        match sysname(nr) {
            "open" => (p1(a), None, b, 0, wr(b)),
            "creat" => (p1(a), None, 0o1101, 0, true),
            "openat" => (pat(a, b), None, c, 0, wr(c)),
            "openat2" => {
                let how = self.peek(c, 8);
                let f = u64::from_le_bytes(how.try_into().unwrap_or([0; 8]));
                (pat(a, b), None, f, 0, wr(f))
            }
            "stat" | "lstat" | "access" | "readlink" => (p1(a), None, 0, 0, false),
            "newfstatat" | "statx" => {
                let s = self.cstr(b);
                let fl = if nr == 332 { c } else { d };
                if s.is_empty() && fl as i32 & libc::AT_EMPTY_PATH != 0 {
                    (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, 0, false)
                } else {
                    (vec![self.resolve(a as i32, &s)], None, 0, 0, false)
                }
            }
            "readlinkat" | "faccessat" | "faccessat2" => (pat(a, b), None, 0, 0, false),
            "truncate" | "mkdir" | "rmdir" | "unlink" | "chmod" | "chown" | "lchown" | "utime"
            | "utimes" | "mknod" => (p1(a), None, b, 0, true),
            "rename" | "link" => {
                let mut v = p1(a);
                v.extend(p1(b));
                (v, None, 0, 0, true)
            }
            "symlink" => (p1(b), None, 0, 0, true),
            "mkdirat" | "mknodat" | "fchownat" | "futimesat" | "unlinkat" | "fchmodat"
            | "fchmodat2" => (pat(a, b), None, c, 0, true),
            "utimensat" => {
                if b == 0 {
                    (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, 0, true)
                } else {
                    (pat(a, b), None, 0, 0, true)
                }
            }
            "renameat" | "renameat2" | "linkat" => {
                let s = self.cstr(b);
                let mut v = if s.is_empty() {
                    self.fd_path(a as i32).into_iter().collect()
                } else {
                    vec![self.resolve(a as i32, &s)]
                };
                v.extend(pat(c, d));
                (v, None, e, 0, true)
            }
            "symlinkat" => (pat(b, c), None, 0, 0, true),
            "read" | "pread64" | "getdents" | "getdents64" => {
                (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, c as usize, false)
            }
            "readv" | "preadv" | "preadv2" | "fstat" => {
                (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, 0, false)
            }
            "write" | "pwrite64" => {
                (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, c as usize, true)
            }
            "writev" | "pwritev" | "pwritev2" => {
                let mut n = 0;
                let iov = self.peek(b, (c as usize).min(64) * 16);
                for ch in iov.chunks_exact(16) {
                    n += u64::from_le_bytes(ch[8..16].try_into().unwrap()) as usize;
                }
                (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), 0, n, true)
            }
            "ftruncate" | "fchmod" | "fchown" | "fallocate" | "fsync" | "fdatasync" | "flock" => {
                (self.fd_path(a as i32).into_iter().collect(), Some(a as i32), b, 0, true)
            }
            "sendfile" => {
                let mut v: Vec<_> = self.fd_path(b as i32).into_iter().collect();
                v.extend(self.fd_path(a as i32));
                (v, Some(a as i32), 0, d as usize, true)
            }
            "copy_file_range" | "splice" => {
                let mut v: Vec<_> = self.fd_path(a as i32).into_iter().collect();
                v.extend(self.fd_path(c as i32));
                (v, Some(c as i32), 0, e as usize, true)
            }
            _ => (vec![], None, 0, 0, false),
        }
    }

    fn rel<'a>(&self, p: &'a Path) -> Option<&'a str> {
        p.strip_prefix(&self.cfg.root).ok().and_then(|x| x.to_str())
    }

    fn unread_input(&self) -> i32 {
        if self.emu {
            return self.inbuf.len() as i32;
        }
        let mut n: c_int = 0;
        unsafe { libc::ioctl(self.stdin_r, libc::FIONREAD, &mut n) };
        n
    }

    fn feed(&mut self) {
        if self.emu {
            if self.fed < self.cfg.chunks.len() {
                self.inbuf.extend_from_slice(&self.cfg.chunks[self.fed]);
                self.fed += 1;
            } else {
                self.eof = true;
            }
            return;
        }
        if self.fed < self.cfg.chunks.len() {
            let ch = self.cfg.chunks[self.fed].clone();
            let mut off = 0;
            while off < ch.len() {
                let n = unsafe {
                    libc::write(self.stdin_w, ch[off..].as_ptr() as *const c_void, ch.len() - off)
                };
                assert!(n > 0, "pipe write failed");
                off += n as usize;
            }
            self.fed += 1;
        } else if self.stdin_w >= 0 {
            unsafe { libc::close(self.stdin_w) };
            self.stdin_w = -1;
        }
    }

    /// Skip the call (entry stop): make it return `val`.
    fn skip(&mut self, val: i64) -> bool {
        let mut r = self.regs();
        r.orig_rax = u64::MAX;
        r.rax = val as u64;
        self.set_regs(&r);
        // With seccomp, a skipped call returns the value placed in rax at the entry stop.
        true
    }

    fn cont(&mut self) {
        let s = self.sig_pending;
        self.sig_pending = 0;
        unsafe { libc::ptrace(libc::PTRACE_CONT, self.pid, 0, s as usize) };
    }

    /// Run until the next scheduling point.
    pub fn proceed(&mut self, names: &mut Names) {
        loop {
            self.cont();
            let st = self.wait();
            if self.reaped {
                self.finish(st);
                return;
            }
            if !libc::WIFSTOPPED(st) {
                continue;
            }
            let sig = libc::WSTOPSIG(st);
            let ev = st >> 16;
            if ev == libc::PTRACE_EVENT_EXEC {
                self.strip_vdso();
                continue;
            }
            if ev != libc::PTRACE_EVENT_SECCOMP {
                if sig != libc::SIGTRAP && sig != (libc::SIGTRAP | 0x80) {
                    self.sig_pending = sig;
                }
                continue;
            }
            let r = self.regs();
            let nr = r.orig_rax as i64;
            match nr {
                228 => {
                    self.clock_gettime(&r);
                    continue;
                }
                96 | 201 => {
                    // gettimeofday/time: not used by the code; answer deterministically
                    let t = self.now();
                    if nr == 96 && r.rdi != 0 {
                        let mut b = t.to_le_bytes().to_vec();
                        b.extend_from_slice(&0i64.to_le_bytes());
                        self.poke(r.rdi, &b);
                    }
                    if nr == 201 && r.rdi != 0 {
                        self.poke(r.rdi, &t.to_le_bytes());
                    }
                    self.skip(if nr == 96 { 0 } else { t });
                    continue;
                }
                318 => {
                    let n = (r.rsi as usize).min(4096);
                    let b: Vec<u8> = (0..n).map(|i| (i * 37 + self.cfg.id * 11 + 5) as u8).collect();
                    self.poke(r.rdi, &b);
                    self.skip(n as i64);
                    continue;
                }
                39 => {
                    self.skip(self.cfg.pid);
                    continue;
                }
                35 | 230 => {
                    self.skip(0);
                    continue;
                }
                61 => continue,
                0 if r.rdi == 0 => {
                    if !self.started {
                        self.started = true;
                    }
                    if (if self.emu { !self.eof } else { self.stdin_w >= 0 }) && self.unread_input() == 0 {
                        self.completed = self.fed;
                        if self.fed < self.cfg.chunks.len() {
                            self.stop = Stop::Input;
                            return;
                        }
                        self.feed();
                    }
                    self.emu_read();
                    continue;
                }
                _ => {}
            }
            if self.emu && self.stream(&r) {
                continue;
            }
            let (real, fd, flags, len, mutating) = self.decode(&r);
            if let Some(f) = fd {
                if f <= 2 && nr != 40 && nr != 326 && nr != 275 {
                    continue;
                }
            }
            let inroot = real.iter().any(|p| p.starts_with(&self.cfg.root));
            if mutating {
                let bad: Vec<_> = real
                    .iter()
                    .filter(|p| p.is_absolute() && !p.starts_with(&self.cfg.scratch))
                    .filter(|p| !p.starts_with("/dev/null") && !p.to_string_lossy().starts_with("/memfd:"))
                    .collect();
                if !bad.is_empty() {
                    self.escapes.push(format!("{}({:?})", sysname(nr), real));
                    self.skip(-(libc::EPERM as i64));
                    continue;
                }
            }
            for p in &real {
                if !p.starts_with(&self.cfg.root) && p.is_absolute() {
                    self.outside.push((p.to_string_lossy().into(), sysname(nr)));
                }
            }
            if !inroot || !self.started {
                continue;
            }
            // Names created by this call get a canonical name: creator and ordinal.
            let creating = matches!(
                sysname(nr),
                "rename" | "renameat" | "renameat2" | "link" | "linkat" | "mkdir" | "mkdirat" | "symlink" | "symlinkat"
            ) || flags as i32 & libc::O_CREAT != 0;
            if creating {
                if let Some(c) = real.last().and_then(|p| p.file_name()).and_then(|c| c.to_str()) {
                    if !is_known(c) && !names.map.contains_key(c) {
                        let n = format!("~{}.{}", self.cfg.id, self.created);
                        self.created += 1;
                        names.map.insert(c.to_string(), n);
                    }
                }
            }
            // A descriptor goes by the name it was opened with, whatever happened to that name since.
            let opened = fd.and_then(|f| self.fd_names.get(&f)).filter(|_| real.len() == 1);
            let paths = match opened {
                Some(n) => vec![n.clone()],
                None => real
                    .iter()
                    .map(|p| match self.rel(p) {
                        Some(x) => names.canon(x.strip_suffix(" (deleted)").unwrap_or(x)),
                        None => p.to_string_lossy().into(),
                    })
                    .collect(),
            };
            if self.steps >= self.cfg.max_steps {
                self.spin = true;
                self.kill();
                return;
            }
            self.stop = Stop::Fs(FsOp { nr, name: sysname(nr), paths, real, fd, flags, len, mutating });
            return;
        }
    }

    pub fn now(&self) -> i64 {
        self.cfg.time0 + self.clock_add + self.fed as i64
    }

    fn clock_gettime(&mut self, r: &libc::user_regs_struct) {
        let clk = r.rdi as i32;
        let (s, ns) = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            if let Some(t) = self.tick_at {
                if self.clock_reads == t {
                    self.clock_add += 1;
                }
            }
            if self.started {
                self.clock_reads += 1;
            }
            (self.now(), 0i64)
        } else {
            (1000 + self.cfg.id as i64, 0)
        };
        let mut b = s.to_le_bytes().to_vec();
        b.extend_from_slice(&ns.to_le_bytes());
        self.poke(r.rsi, &b);
        self.skip(0);
    }

    fn strip_vdso(&mut self) {
        // Remove AT_SYSINFO_EHDR so that clock reads become system calls we can answer.
        let r = self.regs();
        let mut a = r.rsp;
        let word = |x: u64, me: &Proc| -> u64 {
            u64::from_le_bytes(me.peek(x, 8).try_into().unwrap_or([0; 8]))
        };
        let argc = word(a, self);
        a += 8 * (argc + 2);
        while word(a, self) != 0 {
            a += 8;
        }
        a += 8;
        loop {
            let t = word(a, self);
            if t == 0 {
                break;
            }
            if t == 33 {
                self.poke(a, &1u64.to_le_bytes());
            }
            a += 16;
        }
    }

    fn finish(&mut self, st: i32) {
        self.stop = Stop::Done(st);
        self.completed = self.fed;
        let tag = format!("done {}", st);
        mix(&mut self.hist, tag.as_bytes());
    }

    pub fn kill(&mut self) {
        if self.reaped {
            return;
        }
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        loop {
            let st = self.wait();
            if self.reaped {
                self.stop = Stop::Done(st);
                mix(&mut self.hist, b"killed");
                return;
            }
        }
    }

    /// Perform the pending operation in the given way and run to the next scheduling point.
    /// Returns the call's result (negative errno on failure).
    pub fn step(&mut self, how: Do, names: &mut Names) -> i64 {
        let op = match &self.stop {
            Stop::Fs(op) => op.clone(),
            Stop::Input => {
                if how == Do::Kill {
                    self.kill();
                    return 0;
                }
                assert_eq!(how, Do::Run);
                self.feed();
                self.emu_read();
                mix(&mut self.hist, b"input");
                self.proceed(names);
                return 0;
            }
            Stop::Done(_) => panic!("step on finished process"),
        };
        self.steps += 1;
        let how_s = format!("{:?}", how);
        match how {
            Do::Kill => {
                if self.keep_trace {
                    self.trace.push(format!("KILL before {}", op.label()));
                }
                self.kill();
                return 0;
            }
            Do::Fail(e) => {
                self.skip(-(e as i64));
                mix(&mut self.hist, op.label().as_bytes());
                mix(&mut self.hist, how_s.as_bytes());
                if self.keep_trace {
                    self.trace.push(format!("{} = injected errno {}", op.label(), e));
                }
                self.proceed(names);
                return -(e as i64);
            }
            Do::Short(n) | Do::TornKill(n) => {
                let mut r = self.regs();
                r.rdx = n as u64;
                self.set_regs(&r);
            }
            Do::Run | Do::RunKill => {}
        }
        let before = self.regs();
        // Blocking locks become visible waits: try without blocking, retry later.
        let mut blocking_flock = false;
        if op.nr == 73 && before.rsi as i32 & libc::LOCK_NB == 0 {
            let mut r = before;
            r.rsi |= libc::LOCK_NB as u64;
            self.set_regs(&r);
            blocking_flock = true;
        }
        unsafe { libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, 0) };
        let st = self.wait();
        if self.reaped {
            self.finish(st);
            return 0;
        }
        // This should be the exit stop of the call.
        let r = self.regs();
        let res = r.rax as i64;
        if blocking_flock && res == -(libc::EWOULDBLOCK as i64) {
            let mut r2 = r;
            r2.rip -= 2;
            r2.rax = 73;
            r2.rsi = before.rsi;
            self.set_regs(&r2);
            self.blocked = true;
            self.steps -= 1;
            self.proceed(names);
            return res;
        }
        mix(&mut self.hist, op.label().as_bytes());
        mix(&mut self.hist, how_s.as_bytes());
        let plain = op.name.starts_with("open") || op.name.starts_with("getdents");
        mix(&mut self.hist, &(if plain && res >= 0 { (res > 0 && !op.name.starts_with("open")) as i64 } else { res }).to_le_bytes());
        if op.name.starts_with("open") && res >= 0 {
            self.fd_names.insert(res as i32, op.paths.last().cloned().unwrap_or_default());
        }
        // Results the program can see become part of its history.
        if res >= 0 {
            match op.name {
                "read" | "pread64" if res > 0 => {
                    let b = self.peek(before.rsi, res as usize);
                    mix(&mut self.hist, &b);
                }
                "write" | "pwrite64" if res > 0 => {
                    let b = self.peek(before.rsi, res as usize);
                    mix(&mut self.hist, &b);
                }
                "getdents64" if res > 0 => {
                    let b = self.peek(before.rsi, res as usize);
                    let mut o = 0;
                    while o + 19 <= b.len() {
                        let l = u16::from_le_bytes([b[o + 16], b[o + 17]]) as usize;
                        let nm = &b[o + 19..o + l];
                        let e = nm.iter().position(|&x| x == 0).unwrap_or(nm.len());
                        let s = String::from_utf8_lossy(&nm[..e]).to_string();
                        mix(&mut self.hist, names.canon(&s).as_bytes());
                        o += l.max(19);
                    }
                }
                "statx" => {
                    let b = self.peek(before.r8, 64);
                    if b.len() == 64 {
                        let mut v = b[16..30].to_vec(); // nlink uid gid mode
                        v.extend_from_slice(&b[40..48]); // size
                        if b[29] as u32 & 0o170 == 0o40 {
                            v.truncate(0); // directories: link counts and sizes carry no information
                        }
                        mix(&mut self.hist, &v);
                    }
                }
                "fstat" | "newfstatat" | "stat" | "lstat" => {
                    let at = if op.name == "newfstatat" { before.rdx } else { before.rsi };
                    let b = self.peek(at, 144);
                    if b.len() == 144 {
                        let mut v = b[16..36].to_vec();
                        v.extend_from_slice(&b[48..56]);
                        mix(&mut self.hist, &v);
                    }
                }
                _ => {}
            }
        }
        if self.keep_trace {
            let rs = if res < 0 {
                format!("errno {}", -res)
            } else {
                format!("{}", res)
            };
            self.trace.push(match how {
                Do::Run => format!("{} = {}", op.label(), rs),
                _ => format!("{} [{}] = {}", op.label(), how_s, rs),
            });
        }
        match how {
            Do::TornKill(_) | Do::RunKill => {
                self.kill();
            }
            _ => self.proceed(names),
        }
        res
    }

    pub fn mix_hist(&mut self, b: &[u8]) {
        mix(&mut self.hist, b);
    }

    pub fn hist(&self) -> (u64, u64) {
        self.hist
    }

    pub fn done(&self) -> bool {
        matches!(self.stop, Stop::Done(_))
    }

    pub fn status(&self) -> Option<i32> {
        match self.stop {
            Stop::Done(s) => Some(s),
            _ => None,
        }
    }

    pub fn pending(&self) -> Option<&FsOp> {
        match &self.stop {
            Stop::Fs(op) => Some(op),
            _ => None,
        }
    }

    /// Answer the pending read of an emulated standard input.
    fn emu_read(&mut self) {
        if !self.emu {
            return;
        }
        let r = self.regs();
        let mut n = self.inbuf.len().min(r.rdx as usize);
        match self.stream_fault(true, n) {
            Some(Do::Fail(e)) => {
                self.skip(-(e as i64));
                return;
            }
            Some(Do::Short(l)) => n = n.min(l),
            _ => {}
        }
        let b: Vec<u8> = self.inbuf.drain(..n).collect();
        self.poke(r.rsi, &b);
        self.skip(n as i64);
    }

    /// Answer a call on an emulated standard stream.
    fn stream(&mut self, r: &libc::user_regs_struct) -> bool {
        let n = match (sysname(r.orig_rax as i64), r.rdi) {
            ("write", 1 | 2) => {
                let mut b = self.peek(r.rsi, r.rdx as usize);
                if r.rdi == 1 {
                    match self.stream_fault(false, b.len()) {
                        Some(Do::Fail(e)) => {
                            self.skip(-(e as i64));
                            return true;
                        }
                        Some(Do::Short(l)) => b.truncate(l),
                        _ => {}
                    }
                }
                if r.rdi == 1 { &mut self.out } else { &mut self.err }.extend_from_slice(&b);
                b.len() as i64
            }
            ("writev", 1 | 2) => {
                let mut n = 0;
                for ch in self.peek(r.rsi, (r.rdx as usize).min(1024) * 16).chunks_exact(16) {
                    let (a, l) = (u64::from_le_bytes(ch[..8].try_into().unwrap()), u64::from_le_bytes(ch[8..].try_into().unwrap()));
                    let b = self.peek(a, l as usize);
                    n += b.len() as i64;
                    if r.rdi == 1 { &mut self.out } else { &mut self.err }.extend_from_slice(&b);
                }
                n
            }
            // these fall back on reading and writing
            ("sendfile", 0..=2) => -(libc::EINVAL as i64),
            ("copy_file_range" | "splice", a) if a <= 2 || r.rdx <= 2 => -(libc::EINVAL as i64),
            // a stream, not a file
            ("readv" | "pread64" | "preadv" | "pwrite64" | "pwritev", 0..=2) => -(libc::ESPIPE as i64),
            _ => return false,
        };
        self.skip(n);
        true
    }

    pub fn stdout(&self) -> Vec<u8> {
        if self.emu {
            return self.out.clone();
        }
        read_fd_all(self.stdout)
    }

    pub fn stderr(&self) -> Vec<u8> {
        if self.emu {
            return self.err.clone();
        }
        read_fd_all(self.stderr)
    }

    /// Open descriptors below the scheduling root: (fd, device, inode, content if unlinked).
    pub fn fds(&self) -> Vec<(i32, u64, u64, Option<Vec<u8>>)> {
        let mut v = vec![];
        if self.reaped {
            return v;
        }
        let _as = As::new(self.cfg.uid, true);
        if let Ok(rd) = std::fs::read_dir(format!("/proc/{}/fd", self.pid)) {
            for e in rd.flatten() {
                let n: i32 = match e.file_name().to_str().and_then(|x| x.parse().ok()) {
                    Some(n) => n,
                    None => continue,
                };
                if n <= 2 {
                    continue;
                }
                if let Ok(t) = std::fs::read_link(e.path()) {
                    if t.starts_with(&self.cfg.root) {
                        use std::os::unix::fs::MetadataExt;
                        if let Ok(m) = std::fs::metadata(e.path()) {
                            let c = if m.nlink() == 0 && m.is_file() {
                                std::fs::read(e.path()).ok()
                            } else {
                                None
                            };
                            v.push((n, m.dev(), m.ino(), c));
                        }
                    }
                }
            }
        }
        v.sort();
        v
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if !self.reaped {
            self.kill();
        }
        unsafe {
            for fd in [self.stdin_r, self.stdin_w, self.stdout, self.stderr] {
                if fd >= 0 {
                    libc::close(fd);
                }
            }
        }
    }
}

pub struct H128(pub (u64, u64));
impl H128 {
    pub fn new() -> Self {
        H128((0xcbf29ce484222325, 0x9876543))
    }
    pub fn add(&mut self, b: &[u8]) {
        mix(&mut self.0, b);
    }
    pub fn get(&self) -> u128 {
        ((self.0 .0 as u128) << 64) | self.0 .1 as u128
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
