//! Shared reporting: tiers, violations with replay files, known findings, evidence files.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn jobs() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).max(1)
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

/// Printable form of arbitrary bytes.
pub fn show(b: &[u8]) -> String {
    let mut o = String::new();
    let cut = b.len() > 4000;
    for &c in b.iter().take(4000) {
        match c {
            b'\n' => o += "\\n",
            b'\\' => o += "\\\\",
            0x20..=0x7e => o.push(c as char),
            _ => {
                let _ = write!(o, "\\x{:02x}", c);
            }
        }
    }
    if cut {
        let _ = write!(o, "...({} bytes)", b.len());
    }
    o
}

pub struct Violation {
    /// Identifies the failing input, call site or history.
    pub key: String,
    pub what: String,
    pub detail: String,
}

pub struct Report {
    pub id: String,
    pub tier: Tier,
    pub level: &'static str,
    start: Instant,
    viol: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
    counters: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<String>>,
    strings: Mutex<BTreeMap<&'static str, String>>,
    assumptions: Mutex<Vec<String>>,
    scopes: Mutex<Vec<(String, u64)>>,
    pub exhaustive: bool,
}

impl Report {
    pub fn new(id: &str, tier: Tier, level: &'static str) -> Report {
        Report {
            id: id.into(),
            tier,
            level,
            start: Instant::now(),
            viol: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            counters: Default::default(),
            samples: Default::default(),
            strings: Default::default(),
            assumptions: Default::default(),
            scopes: Default::default(),
            exhaustive: true,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn count(&self, k: &'static str, n: u64) {
        *self.counters.lock().unwrap().entry(k).or_insert(0) += n;
    }
    pub fn uncount(&self, k: &'static str) {
        self.counters.lock().unwrap().remove(k);
    }
    pub fn get(&self, k: &'static str) -> u64 {
        *self.counters.lock().unwrap().get(k).unwrap_or(&0)
    }
    pub fn text(&self, k: &'static str, s: &str) {
        self.strings.lock().unwrap().insert(k, s.into());
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s);
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// Name one enumerated space and how many cases it had.
    pub fn scope(&self, name: &str, n: u64) {
        eprintln!("[{}] {:>8.2}s {}: {}", self.id, self.elapsed(), name, n);
        self.scopes.lock().unwrap().push((name.into(), n));
    }
    pub fn violation(&self, key: &str, what: &str, detail: &str) {
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut v = self.viol.lock().unwrap();
        if v.len() < 400 && (v.iter().filter(|x| x.key == key).count() < 1) {
            v.push(Violation { key: key.into(), what: what.into(), detail: detail.into() });
        }
    }
    pub fn violated(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) > 0
    }
    pub fn nviol(&self) -> u64 {
        self.nviol.load(Ordering::Relaxed)
    }

    /// Write the evidence and the replay files, print the verdict, and give the exit code.
    pub fn finish(&self) -> i32 {
        let dir = verif_dir();
        let known: Vec<(String, String)> = std::fs::read_to_string(dir.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (id, rest) = l.split_once(' ')?;
                let rest = rest.strip_prefix("key=")?;
                let (key, _) = rest.split_once(' ').unwrap_or((rest, ""));
                if id == self.id {
                    Some((key.to_string(), rest.to_string()))
                } else {
                    None
                }
            })
            .collect();
        let viol = self.viol.lock().unwrap();
        let mut new = 0;
        let mut lines = vec![];
        for (i, v) in viol.iter().enumerate() {
            if let Some(k) = known.iter().find(|k| k.0 == v.key) {
                lines.push(format!("KNOWN-FINDING: property={} {}", self.id, k.1));
                continue;
            }
            new += 1;
            if new > 20 {
                continue;
            }
            let rd = dir.join("replays");
            let _ = std::fs::create_dir_all(&rd);
            let f = rd.join(format!("{}-{}.txt", self.id, i));
            let _ = std::fs::write(
                &f,
                format!("property: {}\nkey: {}\nwhat: {}\n\n{}\n", self.id, v.key, v.what, v.detail),
            );
            lines.push(format!("VIOLATION property={} replay={}", self.id, f.display()));
            lines.push(format!("  [{}] {}", v.key, v.what));
        }
        let mut cov = vec![];
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.push(format!("\"{}\": {}", k, v));
        }
        for (k, v) in self.strings.lock().unwrap().iter() {
            cov.push(format!("\"{}\": \"{}\"", k, esc(v)));
        }
        let sc: Vec<String> = self
            .scopes
            .lock()
            .unwrap()
            .iter()
            .map(|(n, c)| format!("{{\"space\": \"{}\", \"cases\": {}}}", esc(n), c))
            .collect();
        cov.push(format!("\"spaces\": [{}]", sc.join(", ")));
        let sm: Vec<String> =
            self.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        cov.push(format!("\"samples\": [{}]", sm.join(", ")));
        cov.push(format!("\"exhaustive\": {}", self.exhaustive));
        let asm: Vec<String> =
            self.assumptions.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let ev = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.id,
            if self.quick() { "quick" } else { "thorough" },
            seed(),
            self.level,
            cov.join(",\n  "),
            asm.join(", "),
            self.elapsed(),
            new
        );
        let ed = dir.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        std::fs::write(ed.join(format!("{}.json", self.id)), ev).expect("cannot write evidence");
        lines.dedup();
        for l in lines {
            println!("{}", l);
        }
        if new > 0 {
            1
        } else {
            println!("{}: held on everything explored ({:.1} s)", self.id, self.elapsed());
            0
        }
    }
}

/// Run `f` over 0..n on all cores.
pub fn par<F: Fn(usize) + Sync>(n: usize, f: F) {
    par_jobs(n, jobs(), f)
}

pub fn par_jobs<F: Fn(usize) + Sync>(n: usize, jobs: usize, f: F) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..jobs.min(n.max(1)) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                if i >= n {
                    return;
                }
                f(i);
            });
        }
    });
}

/// Run `f` over 0..n on all cores, each worker with a state of its own.
pub fn pool<S, I: Fn() -> S + Sync, F: Fn(&mut S, usize) + Sync>(n: usize, init: I, f: F) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..jobs().min(n.max(1)) {
            s.spawn(|| {
                let mut st = init();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= n {
                        return;
                    }
                    f(&mut st, i);
                }
            });
        }
    });
}
