//! Exhaustive driver: every family is an index range, every index is one execution, all of them are run.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Recorder of one execution.
pub struct T {
    pub desc: String,
    pub fails: Vec<(String, String)>,
    pub states: Vec<u64>,
    pub steps: u64,
    pub outcome: String,
    pub verbose: bool,
}
impl T {
    pub fn new() -> Self {
        T { desc: String::new(), fails: vec![], states: vec![], steps: 0, outcome: String::new(), verbose: false }
    }
    /// `key` identifies the failing input or site for the known-findings file; `detail` is for people.
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        self.fails.push((key.into(), detail.into()));
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) {
        if !ok {
            self.fail(key, detail());
        }
    }
    pub fn step(&mut self, s: u64) {
        self.steps += 1;
        self.states.push(s);
    }
    pub fn out(&mut self, s: impl AsRef<str>) {
        if !self.outcome.is_empty() {
            self.outcome.push('|');
        }
        self.outcome.push_str(s.as_ref());
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("    {}", f());
        }
    }
}

pub struct Violation {
    pub key: String,
    pub case: String,
    pub desc: String,
    pub detail: String,
}
#[derive(Default)]
pub struct FamStat {
    pub n: u64,
    pub steps: u64,
    pub outcomes: BTreeMap<String, u64>,
}
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub fam_filter: Option<String>,
    pub viol: Mutex<Vec<Violation>>,
    pub seen_keys: Mutex<BTreeMap<String, u64>>,
    pub fams: Mutex<BTreeMap<String, FamStat>>,
    pub states: Mutex<HashSet<u64>>,
    pub transitions: AtomicU64,
    pub execs: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub caps: Mutex<Vec<String>>,
    pub start: Instant,
    pub curdir: String,
    pub threads: usize,
    pub stop: AtomicBool,
    pub deadline: f64,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or("?"), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{} at {}", msg, loc));
            }
        });
        if std::env::var("MC_PANIC").is_ok() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
    }));
}
/// Runs `f`; a panic becomes Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}
/// the part of a panic message that identifies the site, without line numbers
pub fn panic_site(m: &str) -> String {
    let loc = m.rsplit(" at ").next().unwrap_or("?");
    let file = loc.split(':').next().unwrap_or("?");
    file.rsplit("src/").next().unwrap_or(file).to_string()
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<X>(&self, q: X, t: X) -> X {
        if self.quick() {
            q
        } else {
            t
        }
    }
    /// Run every index 0..n of the family, in parallel, each in a fresh environment.
    pub fn par<F: Fn(usize, &mut T) + Sync>(&self, fam: &str, n: usize, f: F) {
        let mut lo = 0usize;
        let mut hi = n;
        if let Some(o) = &self.only {
            let (a, b) = o.rsplit_once('#').unwrap_or((o, ""));
            if a != fam {
                return;
            }
            if let Ok(i) = b.parse::<usize>() {
                lo = i;
                hi = i + 1;
            }
        }
        if let Some(ff) = &self.fam_filter {
            if !fam.starts_with(ff.as_str()) {
                return;
            }
        }
        if self.stop.load(Ordering::Relaxed) {
            self.caps.lock().unwrap().push(format!("{fam}: not run (stopped after violations or time cap)"));
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(lo);
        let nthreads = self.threads.min((hi - lo).max(1));
        let cur: Vec<(AtomicUsize, AtomicU64)> = (0..nthreads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect();
        let done = AtomicUsize::new(0);
        let chunk = if hi - lo > 20000 { 16 } else { 1 };
        std::thread::scope(|s| {
            for w in 0..nthreads {
                let next = &next;
                let f = &f;
                let cur = &cur;
                let done = &done;
                std::thread::Builder::new()
                    .stack_size(192 << 20)
                    .spawn_scoped(s, move || {
                        let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/cur.{}", self.curdir, w)).ok();
                        let mut stat = FamStat::default();
                        let mut states: HashSet<u64> = HashSet::new();
                        'outer: loop {
                            let base = next.fetch_add(chunk, Ordering::Relaxed);
                            for i in base..base + chunk {
                                if i >= hi || self.stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                if self.start.elapsed().as_secs_f64() > self.deadline {
                                    if !self.stop.swap(true, Ordering::Relaxed) {
                                        self.caps.lock().unwrap().push(format!("{fam}: stopped at case {i} of {hi} by the time cap"));
                                    }
                                    break 'outer;
                                }
                                cur[w].0.store(i, Ordering::Relaxed);
                                cur[w].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                if let Some(fl) = &file {
                                    use std::os::unix::fs::FileExt;
                                    let _ = fl.write_all_at(format!("{fam}#{i}\n          ").as_bytes(), 0);
                                }
                                let mut t = T::new();
                                t.verbose = self.only.is_some();
                                crate::world::reset_thread();
                                let r = guarded(|| f(i, &mut t));
                                if let Err(m) = r {
                                    t.fail(format!("panic/{}", panic_site(&m)), format!("panic: {m}"));
                                    t.out("PANIC");
                                }
                                crate::world::reset_thread();
                                if t.verbose {
                                    println!("case {fam}#{i} {} -> {}", t.desc, t.outcome);
                                    for (k, d) in &t.fails {
                                        println!("  FAIL {k}: {d}");
                                    }
                                }
                                stat.n += 1;
                                stat.steps += t.steps;
                                if stat.outcomes.len() < 400 {
                                    *stat.outcomes.entry(t.outcome.clone()).or_insert(0) += 1;
                                } else if let Some(x) = stat.outcomes.get_mut(&t.outcome) {
                                    *x += 1;
                                }
                                states.extend(t.states.drain(..));
                                if (i == lo || i == hi - 1) && !t.desc.is_empty() {
                                    self.samples.lock().unwrap().push(format!("{fam}#{i}: {} -> {}", t.desc, t.outcome));
                                }
                                for (key, detail) in t.fails.drain(..) {
                                    let mut sk = self.seen_keys.lock().unwrap();
                                    let c = sk.entry(key.clone()).or_insert(0);
                                    *c += 1;
                                    if *c <= 3 {
                                        self.viol.lock().unwrap().push(Violation { key, case: format!("{fam}#{i}"), desc: t.desc.clone(), detail });
                                    }
                                }
                                done.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        cur[w].0.store(usize::MAX, Ordering::Relaxed);
                        if let Some(fl) = &file {
                            use std::os::unix::fs::FileExt;
                            let _ = fl.write_all_at(b"-\n                                                            ", 0);
                        }
                        self.execs.fetch_add(stat.n, Ordering::Relaxed);
                        self.transitions.fetch_add(stat.steps, Ordering::Relaxed);
                        let mut fams = self.fams.lock().unwrap();
                        let e = fams.entry(fam.to_string()).or_default();
                        e.n += stat.n;
                        e.steps += stat.steps;
                        for (k, v) in stat.outcomes {
                            *e.outcomes.entry(k).or_insert(0) += v;
                        }
                        self.states.lock().unwrap().extend(states);
                    })
                    .unwrap();
            }
            // watchdog
            let cur = &cur;
            let next = &next;
            s.spawn(move || loop {
                let idle = (0..nthreads).all(|w| cur[w].0.load(Ordering::Relaxed) == usize::MAX);
                if idle && (next.load(Ordering::Relaxed) >= hi || self.stop.load(Ordering::Relaxed)) {
                    break;
                }
                let now = t0.elapsed().as_millis() as u64;
                for w in 0..nthreads {
                    let c = cur[w].0.load(Ordering::Relaxed);
                    let st = cur[w].1.load(Ordering::Relaxed);
                    if c != usize::MAX && now.saturating_sub(st) > 40_000 {
                        // The execution never ends: an unbounded loop inside the library.
                        println!("HANG {fam}#{c}");
                        let _ = std::io::stdout().flush();
                        std::process::exit(7);
                    }
                }
                std::thread::sleep(Duration::from_millis(5));
            });
        });
        let k = self.viol.lock().unwrap().len();
        if k > 400 {
            self.stop.store(true, Ordering::Relaxed);
        }
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("[{}] {fam}: {} cases {:.1}s", self.prop, hi - lo, t0.elapsed().as_secs_f64());
        }
    }
}

/// mixed-radix digits of i, least significant first
pub fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}
/// The i-th sequence (shortest first) over an alphabet of k letters.
pub fn nth_seq(mut i: usize, k: usize, max: usize) -> Vec<usize> {
    let mut len = 0;
    let mut c = 1usize;
    while len < max && i >= c {
        i -= c;
        c *= k;
        len += 1;
    }
    let mut v = vec![0; len];
    for x in v.iter_mut().rev() {
        *x = i % k;
        i /= k;
    }
    v
}
pub fn count_seqs(k: usize, max: usize) -> usize {
    (0..=max).map(|l| k.pow(l as u32)).sum()
}
pub fn hash64(parts: &[&[u8]]) -> u64 {
    u64::from_le_bytes(crate::fake::h(0x4650, parts, 8).try_into().unwrap())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// the command line: run one property and write what was covered and found
pub fn cli(run: impl Fn(&str, &Ctx) -> bool) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let curdir = get("--cur").unwrap_or_else(|| "/tmp".into());
    let c = Ctx {
        prop: prop.clone(),
        tier,
        only: get("--only"),
        fam_filter: get("--fam"),
        viol: Mutex::new(vec![]),
        seen_keys: Default::default(),
        fams: Default::default(),
        states: Default::default(),
        transitions: Default::default(),
        execs: Default::default(),
        samples: Default::default(),
        caps: Default::default(),
        start: std::time::Instant::now(),
        curdir,
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
        stop: Default::default(),
        deadline: get("--deadline").and_then(|x| x.parse().ok()).unwrap_or(1e9),
    };
    if !run(&prop, &c) {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    }
    let mut o = String::from("{");
    o += &format!("\"states\":{},\"transitions\":{},\"execs\":{},\"wall_s\":{:.2},", c.states.lock().unwrap().len(), c.transitions.into_inner(), c.execs.into_inner(), c.start.elapsed().as_secs_f64());
    o += "\"families\":{";
    let fams = c.fams.into_inner().unwrap();
    o += &fams
        .iter()
        .map(|(k, f)| {
            let mut top: Vec<_> = f.outcomes.iter().collect();
            top.sort_by(|a, b| b.1.cmp(a.1));
            let outs = top.iter().take(12).map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
            format!("{}:{{\"cases\":{},\"steps\":{},\"distinct_outcomes\":{},\"outcomes\":{{{}}}}}", json_str(k), f.n, f.steps, f.outcomes.len(), outs)
        })
        .collect::<Vec<_>>()
        .join(",");
    o += "},\"samples\":[";
    o += &c.samples.into_inner().unwrap().iter().take(60).map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"caps\":[";
    o += &c.caps.into_inner().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"keys\":{";
    o += &c.seen_keys.into_inner().unwrap().iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"violations\":[";
    let mut v = c.viol.into_inner().unwrap();
    v.sort_by(|a, b| (&a.key, &a.case).cmp(&(&b.key, &b.case)));
    o += &v.iter().map(|v| format!("{{\"key\":{},\"case\":{},\"desc\":{},\"detail\":{}}}", json_str(&v.key), json_str(&v.case), json_str(&v.desc), json_str(&v.detail))).collect::<Vec<_>>().join(",");
    o += "]}";
    if let Some(p) = get("--out") {
        std::fs::write(p, o).unwrap();
    } else {
        println!("{}", o);
    }
}
