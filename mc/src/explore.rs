//! Stateless exhaustive exploration of choice trees.
//!
//! A *unit* is a deterministic function of the answers its `Ctx` gives to `choose`/`dev`. The
//! explorer runs it once for every complete sequence of answers (depth-first, lexicographic, in
//! parallel by splitting subtrees), so the set of executions is exactly the set of leaves of the
//! choice tree. `dev` marks a departure from the default answer; units that use it are explored
//! with 0, 1, 2 ... departures in turn (iterated deviation bounding).
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type UnitFn = Arc<dyn Fn(&mut Ctx) -> R + Send + Sync>;

#[derive(Clone)]
pub struct Unit {
    pub name: String,
    /// highest deviation bound to explore (0 when the unit has no `dev` points)
    pub bound: usize,
    pub f: UnitFn,
}

pub fn unit(
    name: impl Into<String>,
    bound: usize,
    f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static,
) -> Unit {
    Unit {
        name: name.into(),
        bound,
        f: Arc::new(f),
    }
}

#[derive(Clone, Copy)]
struct Pt {
    val: u32,
    lim: u32,
    n: u32,
}

// ---------------------------------------------------------------- flight recorder

/// Shared (file backed) record of what every worker is executing, so that the supervising process
/// can name the execution that killed the worker process.
pub const SLOT_WORDS: usize = 4096;
pub const NSLOTS: usize = 64;
static REC: AtomicUsize = AtomicUsize::new(0);

pub fn map_recorder(path: &str) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .open(path)
        .expect("recorder file");
    let len = SLOT_WORDS * 4 * NSLOTS;
    f.set_len(len as u64).expect("recorder size");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        panic!("mmap failed");
    }
    REC.store(p as usize, SeqCst);
}

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CUR: RefCell<(String, Vec<u32>, usize)> = RefCell::new((String::new(), Vec::new(), 0));
    static PANIC_INFO: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

// slot layout (u32 words): 0 = active, 1 = unit index, 2 = deviation bound, 3 = number of choices, 4.. = choices
#[inline]
fn rec_write(word: usize, v: u32) {
    let base = REC.load(Relaxed);
    if base != 0 && word < SLOT_WORDS {
        let s = SLOT.with(|s| s.get());
        if s < NSLOTS {
            unsafe { *((base as *mut u32).add(s * SLOT_WORDS + word)) = v }
        }
    }
}

pub fn read_recorder(path: &str) -> Vec<(usize, usize, Vec<u32>)> {
    let mut out = vec![];
    if let Ok(b) = std::fs::read(path) {
        let w: Vec<u32> = b
            .chunks_exact(4)
            .map(|c| u32::from_ne_bytes([c[0], c[1], c[2], c[3]]))
            .collect();
        for s in w.chunks(SLOT_WORDS) {
            if s.len() == SLOT_WORDS && s[0] == 1 {
                let n = (s[3] as usize).min(SLOT_WORDS - 4);
                out.push((s[1] as usize, s[2] as usize, s[4..4 + n].to_vec()));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    pts: Vec<Pt>,
    pos: usize,
    pub devs: usize,
    pub bound: usize,
    replay: bool,
    trace: Vec<String>,
    st: Stats,
    want_sample: bool,
    diverged: bool,
    nobs: u32,
}

/// What another build of the library did in the same executions.
pub enum Obs {
    /// remember what this build does
    Record(Mutex<Vec<(u64, u64)>>),
    /// sorted
    Compare(Vec<(u64, u64)>),
}
pub static OBS: std::sync::OnceLock<Obs> = std::sync::OnceLock::new();

#[derive(Default)]
pub struct Stats {
    pub traces: u64,
    pub transitions: u64,
    pub counted_states: u64,
    pub seen: Vec<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub obs: Vec<(u64, u64)>,
}

impl Ctx {
    /// Something this execution shows about the library, to be the same in the other build.
    /// Err(what this build does) when it is not.
    pub fn observe(&mut self, unit: &str, text: &str) -> Result<(), String> {
        self.nobs += 1;
        let mut h = Fx(17);
        unit.hash(&mut h);
        (self.bound, self.nobs).hash(&mut h);
        for p in &self.pts[..self.pos] {
            h.write_u32(p.val);
        }
        let key = h.finish();
        let mut h = Fx(99);
        text.hash(&mut h);
        let val = h.finish();
        if self.replay {
            self.trace.push(format!("observed: {}", text));
        }
        match OBS.get() {
            None => Ok(()),
            Some(Obs::Record(_)) => {
                self.st.obs.push((key, val));
                Ok(())
            }
            Some(Obs::Compare(v)) => match v.binary_search_by_key(&key, |x| x.0) {
                Ok(i) if v[i].1 == val => Ok(()),
                _ => Err(text.to_string()),
            },
        }
    }
    pub fn path(&self) -> (usize, Vec<u32>) {
        (self.bound, self.pts[..self.pos].iter().map(|p| p.val).collect())
    }
    /// An unconditional choice among `n` answers.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u32::MAX as usize, "harness: bad choice arity");
        let i = self.pos;
        if i < self.pts.len() {
            let p = self.pts[i];
            if p.n != n as u32 {
                if p.n == 0 {
                    // replayed from a file: arity unknown
                    if p.val as usize >= n {
                        self.diverged = true;
                        panic!("harness: replayed choice out of range");
                    }
                    self.pts[i].n = n as u32;
                    self.pts[i].lim = p.val + 1;
                } else {
                    self.diverged = true;
                    panic!("harness: nondeterministic unit (arity {} became {})", p.n, n);
                }
            }
        } else {
            self.pts.push(Pt {
                val: 0,
                lim: n as u32,
                n: n as u32,
            });
            self.st.transitions += 1;
        }
        self.pos += 1;
        let v = self.pts[i].val;
        rec_write(4 + i, v);
        rec_write(3, i as u32 + 1);
        v as usize
    }
    /// A choice whose non-zero answers cost one deviation.
    #[inline]
    pub fn dev(&mut self, n: usize) -> usize {
        if self.devs >= self.bound || n == 1 {
            return 0;
        }
        let v = self.choose(n);
        if v > 0 {
            self.devs += 1;
        }
        v
    }
    #[inline]
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn pick_dev<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.dev(xs.len());
        &xs[i]
    }
    /// Record a canonical state reached by this execution.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fx(0xcbf2_9ce4_8422_2325);
        t.hash(&mut h);
        self.st.seen.push(h.finish());
    }
    /// Record `n` states that are distinct by construction (enumerated by an inner loop).
    #[inline]
    pub fn states(&mut self, n: u64) {
        self.st.counted_states += n;
    }
    /// Record `n` further executions compared with the model inside this unit execution.
    #[inline]
    pub fn traces(&mut self, n: u64) {
        self.st.traces += n;
        self.st.transitions += n;
    }
    pub fn outcome(&mut self, s: &str) {
        self.outcome_n(s, 1)
    }
    pub fn outcome_n(&mut self, s: &str, n: u64) {
        if let Some(c) = self.st.outcomes.get_mut(s) {
            *c += n
        } else {
            self.st.outcomes.insert(s.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let s = f();
            self.st.samples.push(clip(&s, 600));
            self.want_sample = false;
        }
        
    }
    /// Explain a step; only kept while a failure is being replayed.
    #[inline]
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.replay {
            let s = f();
            self.trace.push(clip(&s, 2000));
        }
    }
    pub fn is_replay(&self) -> bool {
        self.replay
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        h
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w) ^ ((c.len() as u64) << 56))
        }
    }
    fn write_u64(&mut self, v: u64) {
        let x = (self.0.rotate_left(23) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 = x ^ (x >> 31);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(u64::from(v) | 0x100)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(u64::from(v))
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

// ---------------------------------------------------------------- one execution

pub enum Out {
    Ok,
    Violation(String),
    Engine(String),
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Message and place of the panic just caught on this thread.
pub fn last_panic() -> (String, String) {
    PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Panics raised by the code of this crate are errors of the harness, never verdicts.
pub fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("mc/src/") || loc.contains("/verif/mc/src/")
}

fn run_once(u: &Unit, c: &mut Ctx) -> Out {
    c.pos = 0;
    c.devs = 0;
    c.nobs = 0;
    rec_write(3, 0);
    crate::alloc::arm(true);
    let r = catch_unwind(AssertUnwindSafe(|| (u.f)(c)));
    crate::alloc::arm(false);
    match r {
        Ok(Ok(())) => {
            if c.pos < c.pts.len() {
                return Out::Engine(format!(
                    "unit {}: nondeterministic (execution used {} of {} choices)",
                    u.name,
                    c.pos,
                    c.pts.len()
                ));
            }
            Out::Ok
        }
        Ok(Err(m)) => Out::Violation(m),
        Err(_) => {
            let (m, l) = PANIC_INFO
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if c.diverged || harness_location(&l) {
                Out::Engine(format!("unit {}: panic in the harness: {} at {}", u.name, m, l))
            } else {
                Out::Violation(format!("panic: {} at {}", m, l))
            }
        }
    }
}

// ---------------------------------------------------------------- parallel search

#[derive(Clone)]
struct Item {
    prefix: Vec<(u32, u32)>, // (val, n)
    lo: u32,
    hi: u32, // alternatives at position prefix.len(); hi==0: the whole tree
    n: u32,
}

struct Shared {
    q: Mutex<Vec<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    busy: AtomicUsize,
    stop: AtomicBool,
    nwork: usize,
    viol: Mutex<Vec<(Vec<u32>, String)>>,
    engine: Mutex<Option<String>>,
    started: Vec<AtomicI64>,
}

pub struct Found {
    pub unit: usize,
    pub bound: usize,
    pub choices: Vec<u32>,
    pub detail: String,
}

pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub units: Vec<(String, usize, u64, u64)>, // name, bound completed, executions, states
    pub capped: bool,
    pub found: Option<Found>,
    pub engine: Option<String>,
}

static CUR_UNIT: AtomicUsize = AtomicUsize::new(0);
static CUR_BOUND: AtomicUsize = AtomicUsize::new(0);
/// where to report when a worker cannot return (set by main)
pub static REPORTER: Mutex<Option<Box<dyn Fn(usize, usize, Vec<u32>, String) + Send>>> =
    Mutex::new(None);

fn slot_choices(slot: usize) -> Vec<u32> {
    let base = REC.load(Relaxed);
    if base == 0 {
        return vec![];
    }
    unsafe {
        let p = (base as *const u32).add(slot * SLOT_WORDS);
        let n = (*p.add(3) as usize).min(SLOT_WORDS - 4);
        (0..n).map(|i| *p.add(4 + i)).collect()
    }
}

/// Called when an execution cannot be allowed to continue (runaway allocation).
pub fn emergency(msg: &str) -> ! {
    let s = SLOT.with(|s| s.get());
    let ch = if s < NSLOTS { slot_choices(s) } else { vec![] };
    if let Ok(g) = REPORTER.try_lock() {
        if let Some(f) = g.as_ref() {
            f(CUR_UNIT.load(SeqCst), CUR_BOUND.load(SeqCst), ch, msg.to_string());
        }
    }
    unsafe { libc::_exit(1) }
}

pub struct Cfg {
    pub threads: usize,
    pub deadline: Instant,
    pub exec_limit: Duration,
}

struct SeenSet(Vec<Mutex<HashSet<u64, BuildId>>>);
#[derive(Clone, Default)]
struct BuildId;
struct IdHasher(u64);
impl std::hash::BuildHasher for BuildId {
    type Hasher = IdHasher;
    fn build_hasher(&self) -> IdHasher {
        IdHasher(0)
    }
}
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
impl SeenSet {
    fn new() -> Self {
        SeenSet((0..256).map(|_| Mutex::new(HashSet::default())).collect())
    }
    fn add(&self, xs: &mut Vec<u64>) {
        xs.sort_unstable_by_key(|x| *x >> 56);
        let mut i = 0;
        while i < xs.len() {
            let sh = (xs[i] >> 56) as usize;
            let mut g = self.0[sh].lock().unwrap();
            while i < xs.len() && (xs[i] >> 56) as usize == sh {
                g.insert(xs[i]);
                i += 1;
            }
        }
        xs.clear();
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|m| m.lock().unwrap().len() as u64).sum()
    }
}

pub fn run_all(units: &[Unit], cfg: &Cfg) -> Report {
    let mut rep = Report {
        states: 0,
        transitions: 0,
        traces: 0,
        outcomes: BTreeMap::new(),
        samples: vec![],
        units: vec![],
        capped: false,
        found: None,
        engine: None,
    };
    for (ui, u) in units.iter().enumerate() {
        let seen = SeenSet::new();
        let counted = AtomicU64::new(0);
        let (mut ex, mut completed) = (0u64, 0usize);
        for b in 0..=u.bound {
            if Instant::now() >= cfg.deadline {
                rep.capped = true;
                break;
            }
            CUR_UNIT.store(ui, SeqCst);
            CUR_BOUND.store(b, SeqCst);
            let (stats, viol, engine, capped) = explore(u, ui, b, cfg, &seen, &counted);
            rep.transitions += stats.transitions;
            rep.traces += stats.traces;
            ex += stats.traces;
            for (k, v) in stats.outcomes {
                *rep.outcomes.entry(k).or_insert(0) += v;
            }
            for s in stats.samples {
                rep.samples.push(format!("{}: {}", u.name, s));
            }
            if capped {
                rep.capped = true;
            } else {
                completed = b;
            }
            if let Some(e) = engine {
                rep.engine = Some(e);
            }
            if let Some((choices, detail)) = viol {
                rep.found = Some(Found {
                    unit: ui,
                    bound: b,
                    choices,
                    detail,
                });
            }
            if rep.found.is_some() || rep.engine.is_some() || capped {
                break;
            }
        }
        let st = seen.len() + counted.load(SeqCst);
        rep.states += st;
        rep.units.push((u.name.clone(), completed, ex, st));
        if rep.found.is_some() || rep.engine.is_some() {
            break;
        }
    }
    rep
}

fn now_ms(t0: Instant) -> i64 {
    t0.elapsed().as_millis() as i64 + 1
}

fn explore(
    u: &Unit,
    ui: usize,
    bound: usize,
    cfg: &Cfg,
    seen: &SeenSet,
    counted: &AtomicU64,
) -> (Stats, Option<(Vec<u32>, String)>, Option<String>, bool) {
    let nw = cfg.threads;
    let sh = Shared {
        q: Mutex::new(vec![Item {
            prefix: vec![],
            lo: 0,
            hi: 0,
            n: 0,
        }]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        busy: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        nwork: nw,
        viol: Mutex::new(vec![]),
        engine: Mutex::new(None),
        started: (0..nw).map(|_| AtomicI64::new(0)).collect(),
    };
    let capped = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let t0 = Instant::now();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..nw {
            let (sh, total, capped) = (&sh, &total, &capped);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|c| c.set(w));
                        rec_write(1, ui as u32);
                        rec_write(2, bound as u32);
                        worker(u, bound, cfg, sh, seen, counted, total, capped, w, t0);
                        rec_write(0, 0);
                    })
                    .expect("spawn"),
            );
        }
        // watchdog: an execution that does not come back is a verdict, not a timeout of the check
        let (sh2, done2) = (&sh, &done);
        s.spawn(move || {
            while !done2.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 50 }));
                for w in 0..sh2.nwork {
                    let st = sh2.started[w].load(SeqCst);
                    if st > 0 && now_ms(t0) - st > cfg.exec_limit.as_millis() as i64 {
                        let ch = slot_choices(w);
                        if let Some(f) = REPORTER.lock().unwrap().as_ref() {
                            f(
                                CUR_UNIT.load(SeqCst),
                                CUR_BOUND.load(SeqCst),
                                ch,
                                format!(
                                    "one execution did not finish within {} s",
                                    cfg.exec_limit.as_secs()
                                ),
                            );
                        }
                        unsafe { libc::_exit(1) }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });
    let viol = {
        let mut v = sh.viol.into_inner().unwrap();
        v.sort_by_key(|a| (a.0.len(), a.0.clone()));
        v.into_iter().next()
    };
    (
        total.into_inner().unwrap(),
        viol,
        sh.engine.into_inner().unwrap(),
        capped.load(SeqCst),
    )
}

#[allow(clippy::too_many_arguments)]
fn worker(
    u: &Unit,
    bound: usize,
    cfg: &Cfg,
    sh: &Shared,
    seen: &SeenSet,
    counted: &AtomicU64,
    total: &Mutex<Stats>,
    capped: &AtomicBool,
    w: usize,
    t0: Instant,
) {
    let mut c = Ctx {
        pts: vec![],
        pos: 0,
        devs: 0,
        bound,
        replay: false,
        trace: vec![],
        st: Stats::default(),
        want_sample: false,
        diverged: false,
        nobs: 0,
    };
    let mut execs = 0u64;
    'items: loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) {
                    break 'items;
                }
                if let Some(i) = g.pop() {
                    sh.busy.fetch_add(1, SeqCst);
                    break i;
                }
                if sh.busy.load(SeqCst) == 0 {
                    sh.cv.notify_all();
                    break 'items;
                }
                sh.idle.fetch_add(1, SeqCst);
                g = sh
                    .cv
                    .wait_timeout(g, Duration::from_millis(20))
                    .unwrap()
                    .0;
                sh.idle.fetch_sub(1, SeqCst);
            }
        };
        c.pts.clear();
        for (v, n) in &item.prefix {
            c.pts.push(Pt {
                val: *v,
                lim: *v + 1,
                n: *n,
            });
        }
        let base = if item.hi > 0 {
            c.pts.push(Pt {
                val: item.lo,
                lim: item.hi,
                n: item.n,
            });
            c.st.transitions += 1;
            item.prefix.len()
        } else {
            0
        };
        loop {
            let tr0 = c.st.traces;
            c.want_sample = w == 0 && (execs == 0 || (execs.is_power_of_two() && execs >= 64));
            sh.started[w].store(now_ms(t0), SeqCst);
            rec_write(0, 1);
            let out = run_once(u, &mut c);
            rec_write(0, 0);
            sh.started[w].store(0, SeqCst);
            execs += 1;
            match out {
                Out::Ok => {}
                Out::Violation(m) => {
                    let ch = c.pts[..c.pos].iter().map(|p| p.val).collect();
                    sh.viol.lock().unwrap().push((ch, m));
                    sh.stop.store(true, SeqCst);
                }
                Out::Engine(m) => {
                    *sh.engine.lock().unwrap() = Some(m);
                    sh.stop.store(true, SeqCst);
                }
            }
            if c.st.obs.len() > 65_536 {
                if let Some(Obs::Record(r)) = OBS.get() {
                    r.lock().unwrap().append(&mut c.st.obs);
                }
            }
            // executions with fewer deviations were already counted by a smaller bound
            if c.devs == bound {
                c.st.traces += 1;
            } else {
                c.st.traces = tr0;
            }
            if c.st.seen.len() > 8192 {
                seen.add(&mut c.st.seen);
            }
            if sh.stop.load(Relaxed) {
                break;
            }
            if execs % 64 == 0 && Instant::now() >= cfg.deadline {
                capped.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
                break;
            }
            // give half of our shallowest open alternatives to an idle worker
            if sh.idle.load(Relaxed) > 0 {
                if let Ok(mut g) = sh.q.try_lock() {
                    if g.len() < sh.nwork {
                        for p in base..c.pts.len() {
                            let q = c.pts[p];
                            if q.val + 1 < q.lim {
                                let lo = q.val + 1 + (q.lim - q.val - 1) / 2;
                                let lo = if lo >= q.lim { q.val + 1 } else { lo };
                                g.push(Item {
                                    prefix: c.pts[..p].iter().map(|x| (x.val, x.n)).collect(),
                                    lo,
                                    hi: q.lim,
                                    n: q.n,
                                });
                                c.pts[p].lim = lo;
                                sh.cv.notify_one();
                                break;
                            }
                        }
                    }
                }
            }
            // next leaf
            let mut advanced = false;
            while c.pts.len() > base {
                let l = c.pts.len() - 1;
                if c.pts[l].val + 1 < c.pts[l].lim {
                    c.pts[l].val += 1;
                    c.st.transitions += 1;
                    advanced = true;
                    break;
                }
                c.pts.pop();
            }
            if !advanced {
                break;
            }
        }
        sh.busy.fetch_sub(1, SeqCst);
        sh.cv.notify_all();
    }
    if let Some(Obs::Record(r)) = OBS.get() {
        r.lock().unwrap().append(&mut c.st.obs);
    }
    seen.add(&mut c.st.seen);
    counted.fetch_add(c.st.counted_states, SeqCst);
    let mut t = total.lock().unwrap();
    t.traces += c.st.traces;
    t.transitions += c.st.transitions;
    for (k, v) in std::mem::take(&mut c.st.outcomes) {
        *t.outcomes.entry(k).or_insert(0) += v;
    }
    t.samples.append(&mut c.st.samples);
    sh.cv.notify_all();
}

// ---------------------------------------------------------------- histories of executions

/// Explore one unit on this thread alone, in lexicographic order, until a violation. Returns the
/// number of executions made, the paths of the last of them (the violating one included), and
/// what it reports. The order depends on nothing but the code, so a fault that needs what earlier
/// executions left behind in the process comes back in every such run.
pub fn explore_alone(u: &Unit, bound: usize, deadline: Instant, keep: usize) -> Result<Option<(u64, Vec<Vec<u32>>, String)>, String> {
    let mut c = blank(bound, false);
    let mut last: std::collections::VecDeque<Vec<u32>> = Default::default();
    let mut n = 0u64;
    SLOT.with(|s| s.set(0));
    loop {
        let out = run_once(u, &mut c);
        n += 1;
        if last.len() == keep {
            last.pop_front();
        }
        last.push_back(c.pts[..c.pos.min(c.pts.len())].iter().map(|p| p.val).collect());
        match out {
            Out::Ok => {}
            Out::Violation(m) => return Ok(Some((n, last.into_iter().collect(), m))),
            Out::Engine(m) => return Err(m),
        }
        c.st.seen.clear();
        c.st.obs.clear();
        if n % 64 == 0 && Instant::now() >= deadline {
            return Err("out of time".into());
        }
        loop {
            match c.pts.last_mut() {
                None => return Ok(None),
                Some(p) if p.val + 1 < p.lim => {
                    p.val += 1;
                    break;
                }
                Some(_) => {
                    c.pts.pop();
                }
            }
        }
    }
}

/// Run executions one after another on this thread; what the last one gives.
pub fn sequence(u: &Unit, bound: usize, paths: &[Vec<u32>]) -> (Out, Vec<String>) {
    for p in &paths[..paths.len().saturating_sub(1)] {
        let _ = replay_quiet(u, bound, p);
    }
    match paths.last() {
        Some(p) => {
            let (o, s, _) = replay(u, bound, p);
            (o, s)
        }
        None => (Out::Ok, vec![]),
    }
}

fn blank(bound: usize, replay: bool) -> Ctx {
    Ctx {
        pts: vec![],
        pos: 0,
        devs: 0,
        bound,
        replay,
        trace: vec![],
        st: Stats::default(),
        want_sample: false,
        diverged: false,
        nobs: 0,
    }
}

fn replay_quiet(u: &Unit, bound: usize, choices: &[u32]) -> Out {
    let mut c = blank(bound, false);
    c.pts = choices.iter().map(|v| Pt { val: *v, lim: *v + 1, n: 0 }).collect();
    SLOT.with(|s| s.set(0));
    run_once(u, &mut c)
}

/// Re-execute one recorded execution; returns its outcome and the explained steps.
pub fn replay(u: &Unit, bound: usize, choices: &[u32]) -> (Out, Vec<String>, Vec<u32>) {
    let mut c = Ctx {
        pts: choices
            .iter()
            .map(|v| Pt {
                val: *v,
                lim: *v + 1,
                n: 0,
            })
            .collect(),
        pos: 0,
        devs: 0,
        bound,
        replay: true,
        trace: vec![],
        st: Stats::default(),
        want_sample: false,
        diverged: false,
        nobs: 0,
    };
    SLOT.with(|s| s.set(0));
    let o = run_once(u, &mut c);
    let ch = c.pts[..c.pos.min(c.pts.len())].iter().map(|p| p.val).collect();
    (o, c.trace, ch)
}

#[allow(dead_code)]
fn unused() {
    CUR.with(|_| ());
}
