//! Runner, observation record, guarded calls into kuba, verdicts, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in [a, b].
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn f64(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * ((self.u64() >> 11) as f64 / (1u64 << 53) as f64)
    }
    pub fn f32(&mut self, a: f32, b: f32) -> f32 {
        self.f64(a as f64, b as f64) as f32
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// A resolution: common ones, exactly representable ones (exact ties happen), odd ones.
    pub fn res(&mut self) -> f32 {
        match self.below(4) {
            0 => *self.pick(&[0.1f32, 0.2, 0.05, 0.3, 0.7]),
            1 => *self.pick(&[0.125f32, 0.25, 0.5, 1.0, 2.0, 4.0]),
            2 => 0.1,
            _ => (10f64).powf(self.f64(-2.0, 1.0)) as f32,
        }
    }
    /// A resolution anywhere in the stated domain.
    pub fn res_wide(&mut self) -> f32 {
        if self.chance(1, 4) { 10f64.powf(self.f64(-3.0, 2.0)) as f32 } else { self.res() }
    }
    /// A sub-cell phase (0 = cell centre, +-0.5 = border), biased to the special ones.
    pub fn phase(&mut self) -> f64 {
        match self.below(12) {
            0 | 1 => 0.0,
            2 => 0.5,
            3 => -0.5,
            4 => 0.5 - self.f64(0.0, 1e-5),
            5 => -0.5 + self.f64(0.0, 1e-5),
            6 => *self.pick(&[0.25, -0.25, 0.1, -0.1, 0.4, -0.4]),
            7 => self.f64(-1e-5, 1e-5),
            _ => self.f64(-0.5, 0.5),
        }
    }
    /// A magnitude-varied integer in [-max, max].
    pub fn mag(&mut self, max: i64) -> i64 {
        let top = (max as f64).log10();
        let m = 10f64.powf(self.f64(0.0, top)).min(max as f64) as i64;
        self.int(-m, m)
    }
}

// ---------------------------------------------------------------- observations

pub struct Obs {
    pub counters: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, f64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub digest: u64,
}
impl Obs {
    pub fn new() -> Obs {
        Obs { counters: BTreeMap::new(), maxes: BTreeMap::new(), sigs: HashSet::new(), samples: vec![], digest: 0 }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, v: f64) {
        let e = self.maxes.entry(k).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v;
        }
    }
    /// Marks this observation as non-trivial; `sig` identifies it among all observations of the run.
    pub fn sig(&mut self, sig: u64) {
        if self.sigs.len() < 4_000_000 {
            self.sigs.insert(sig);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxes {
            self.max(k, v);
        }
        for s in o.sigs {
            self.sig(s);
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.digest = self.digest.wrapping_add(o.digest);
    }
}

pub struct Hash64(pub u64);
impl Hash64 {
    pub fn new() -> Self {
        Hash64(0x1234_5678_9abc_def1)
    }
    pub fn add(&mut self, v: u64) -> &mut Self {
        self.0 = mix(self.0 ^ v);
        self
    }
    pub fn addf(&mut self, v: &[f32]) -> &mut Self {
        for x in v {
            self.add(x.to_bits() as u64);
        }
        self
    }
    pub fn addi(&mut self, v: &[isize]) -> &mut Self {
        for x in v {
            self.add(*x as u64);
        }
        self
    }
}

pub type Verdict = Result<(), String>;

pub struct Case<'a> {
    pub rng: Rng,
    pub obs: &'a mut Obs,
    /// 0.0 for the first cases of a run, growing to 1.0: smaller cases first.
    pub size: f64,
    pub thorough: bool,
    /// Position of this case among the run's planned cases (for exhaustive sweeps).
    pub index: u64,
    pub total: u64,
}
impl Case<'_> {
    /// An upper bound for a dimension of the case, ramped by the case's size.
    pub fn upto(&self, lo: i64, hi: i64) -> i64 {
        lo + ((hi - lo) as f64 * self.size) as i64
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(&mut Case) -> Verdict,
    pub min_sigs: u64,
    /// Kinds of observation without which a complete run gives no answer.
    pub need: &'static [&'static str],
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}
/// Guarded call into kuba: a panic inside becomes a violation ("must return").
#[macro_export]
macro_rules! kc {
    ($what:expr, $e:expr) => {
        match $crate::core::call($crate::core::DEFAULT_GAS, || $e) {
            Ok(v) => v,
            Err(p) => return Err(format!("{} panicked: {}", $what, p)),
        }
    };
    ($what:expr, gas $g:expr, $e:expr) => {
        match $crate::core::call($g, || $e) {
            Ok(v) => v,
            Err(p) => return Err(format!("{} panicked: {}", $what, p)),
        }
    };
}

// ---------------------------------------------------------------- guarded calls

pub const DEFAULT_GAS: u64 = 3_000_000_000;
/// A single allocation request above this inside a kuba call is reported (workloads need a few MB).
pub const ALLOC_LIMIT: usize = 6 << 30;

thread_local! {
    static IN_KUBA: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CURRENT: Cell<(u64, u64, u64, u64)> = const { Cell::new((0, 0, 0, 0)) }; // (case seed, size bits, index, total)
    static LAST_GAS: Cell<u64> = const { Cell::new(0) };
}

pub struct LimitAlloc;
thread_local! {
    /// Bytes asked for, bytes held, most bytes held at once: since the beginning of the current call into the library.
    static MEM: Cell<(u64, i64, i64)> = const { Cell::new((0, 0, 0)) };
}
#[inline]
fn ledger(more: usize, less: usize) {
    if !IN_KUBA.try_with(|c| c.get()).unwrap_or(false) {
        return;
    }
    if more > ALLOC_LIMIT {
        fatal_violation("unbounded memory demand: one allocation of more than 6 GiB requested");
    }
    let _ = MEM.try_with(|m| {
        let (total, held, peak) = m.get();
        let now = held + more as i64 - less as i64;
        // a reallocation may hold both at once
        m.set((total + more as u64, now, peak.max(now)));
    });
}
/// Blocks of the monitored build lie at odd multiples of the alignment they were asked for, so that no code gets more
/// alignment than it is entitled to (malloc would hand out 16 bytes). The sanitizers keep the blocks where they put them.
#[inline]
fn displaced(l: std::alloc::Layout) -> (usize, std::alloc::Layout) {
    if cfg!(feature = "gas") {
        (l.align(), unsafe { std::alloc::Layout::from_size_align_unchecked(l.size() + l.align(), 2 * l.align()) })
    } else {
        (0, l)
    }
}
#[inline]
unsafe fn moved(p: *mut u8, by: usize) -> *mut u8 {
    if p.is_null() {
        p
    } else {
        p.add(by)
    }
}
unsafe impl std::alloc::GlobalAlloc for LimitAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ledger(l.size(), 0);
        let (by, l) = displaced(l);
        moved(std::alloc::System.alloc(l), by)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        ledger(0, l.size());
        let (by, l) = displaced(l);
        std::alloc::System.dealloc(p.sub(by), l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        ledger(l.size(), 0);
        let (by, l) = displaced(l);
        moved(std::alloc::System.alloc_zeroed(l), by)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        ledger(n, l.size());
        let (by, l) = displaced(l);
        moved(std::alloc::System.realloc(p.sub(by), l, n + by), by)
    }
}

/// What the last call into the library cost: edges executed, bytes asked for, most bytes held at once, bytes still held.
#[derive(Clone, Copy, Debug)]
pub struct Cost {
    pub steps: u64,
    pub asked: u64,
    pub peak: u64,
    pub kept: i64,
}
pub fn last_cost() -> Cost {
    let (asked, kept, peak) = MEM.with(|m| m.get());
    Cost { steps: last_gas(), asked, peak: peak.max(0) as u64, kept }
}

#[cfg(feature = "gas")]
extern "C" {
    fn kmon_gas_begin(limit: u64);
    fn kmon_gas_end() -> u64;
    fn kmon_edges_seen() -> u64;
}
#[cfg(not(feature = "gas"))]
unsafe fn kmon_gas_begin(_l: u64) {}
#[cfg(not(feature = "gas"))]
unsafe fn kmon_gas_end() -> u64 {
    0
}
#[cfg(not(feature = "gas"))]
unsafe fn kmon_edges_seen() -> u64 {
    0
}

#[no_mangle]
pub extern "C" fn kmon_gas_exhausted() {
    fatal_violation("step budget exhausted: the call did not return within its bound of executed edges");
}

pub fn last_gas() -> u64 {
    LAST_GAS.with(|g| g.get())
}

/// Leaves kuba mode temporarily (for monitor code that kuba calls back into, e.g. a monitored map).
pub fn call<T>(gas: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    MEM.with(|m| m.set((0, 0, 0)));
    IN_KUBA.with(|c| c.set(true));
    unsafe { kmon_gas_begin(gas) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let used = unsafe { kmon_gas_end() };
    LAST_GAS.with(|g| g.set(used));
    IN_KUBA.with(|c| c.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// True if the call panicked (expected rejection).
pub fn rejects<T>(f: impl FnOnce() -> T) -> bool {
    call(DEFAULT_GAS, f).is_err()
}

pub fn install_hooks() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_KUBA.with(|c| c.get()) {
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            default(info);
        }
    }));
    #[cfg(all(not(miri), target_os = "linux"))]
    if std::env::var_os("KMON_NO_SIGNALS").is_none() {
        extern "C" {
            fn signal(sig: i32, h: usize) -> usize;
        }
        extern "C" fn on_signal(sig: i32) {
            if IN_KUBA.with(|c| c.get()) {
                fatal_violation(&format!("fatal signal {sig} inside the library"));
            }
            eprintln!("kmon: signal {sig} outside the library: harness error");
            std::process::exit(3);
        }
        for s in [4, 6, 7, 8, 11] {
            unsafe { signal(s, on_signal as *const () as usize) };
        }
    }
}

// ---------------------------------------------------------------- running

pub struct Config {
    pub prop: &'static str,
    pub tier_thorough: bool,
    pub seed: u64,
    pub out_dir: String,
    pub scale: f64,
    pub wall_cap_s: f64,
    pub threads: usize,
    /// Sanitizer runs: functional verdicts are ignored, only the sanitizer's reports count.
    pub ignore_verdicts: bool,
    /// Overrides the number of cases.
    pub cases: Option<u64>,
    /// Caps the size of cases (slow interpreters).
    pub max_size: f64,
}

static CONFIG: Mutex<Option<(String, bool, u64, String, bool)>> = Mutex::new(None);

pub fn set_global(cfg: &Config) {
    *CONFIG.lock().unwrap() =
        Some((cfg.prop.to_string(), cfg.tier_thorough, cfg.seed, cfg.out_dir.clone(), cfg.ignore_verdicts));
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(out: &str, prop: &str, (seed, size, index, total): (u64, u64, u64, u64), thorough: bool, msg: &str) -> String {
    let dir = format!("{out}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed:016x}.txt");
    let _ = std::fs::write(
        &path,
        format!("property={prop}\ncase_seed={seed}\nsize_bits={size}\nindex={index}\ntotal={total}\nthorough={}\nwitness={msg}\n", thorough as u32),
    );
    path
}

/// Reports a violation that cannot be unwound from (no return from the library, crash) and exits.
pub fn fatal_violation(msg: &str) -> ! {
    IN_KUBA.with(|c| c.set(false));
    let at = CURRENT.with(|c| c.get());
    let cfg = CONFIG.lock().map(|c| c.clone()).ok().flatten();
    if let Some((prop, thorough, vseed, out, ignore)) = cfg {
        if ignore {
            eprintln!("kmon: {msg} (ignored in this mode)");
            std::process::exit(0);
        }
        let path = write_replay(&out, &prop, at, thorough, msg);
        let ev = format!(
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"run ended by a violation that prevents the call from returning\",\"samples\":[{}]}},\"wall_s\":0.0,\"violations\":1}}\n",
            json_str(&prop), if thorough { "thorough" } else { "quick" }, vseed, json_str(msg)
        );
        let _ = std::fs::write(format!("{out}/{prop}.json"), ev);
        println!("witness: {msg}");
        println!("VIOLATION property={prop} replay={path}");
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(1) }
}

/// Called by AddressSanitizer (if linked) when it reports an error: names the case.
#[cfg(not(miri))]
#[no_mangle]
pub extern "C" fn __asan_on_error() {
    let (seed, size, index, total) = CURRENT.with(|c| c.get());
    let prop = CONFIG.try_lock().ok().and_then(|c| c.clone()).map(|c| c.0).unwrap_or_default();
    eprintln!("kmon: while running property={prop} case_seed={seed} size_bits={size} index={index} total={total}");
}

pub fn run_case(p: &Prop, obs: &mut Obs, seed: u64, size: f64, thorough: bool, index: u64, total: u64) -> Verdict {
    CURRENT.with(|c| c.set((seed, size.to_bits(), index, total)));
    let mut case = Case { rng: Rng::new(seed), obs, size, thorough, index, total };
    // The monitors are deterministic and total on everything a healthy library returns, so a panic in a monitor means
    // that the library returned something no healthy library returns.
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut case))) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.contains("scratch") {
                return Err(format!("HARNESS {m}"));
            }
            Err(format!("the monitor cannot interpret what the library returned: {m}"))
        }
    }
}

/// Runs a property's workload; returns the process exit code.
pub fn run_prop(p: &Prop, cfg: &Config) -> i32 {
    set_global(cfg);
    let start = std::time::Instant::now();
    let total = (((if cfg.tier_thorough { p.thorough } else { p.quick }) as f64 * cfg.scale) as u64).max(4);
    let total = cfg.cases.unwrap_or(total);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let best: Mutex<Option<(u64, u64, f64, String)>> = Mutex::new(None);
    let merged = Mutex::new(Obs::new());
    let master = mix(cfg.seed ^ {
        let mut h = 0u64;
        for b in p.id.bytes() {
            h = mix(h ^ b as u64);
        }
        h
    });
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| {
                let mut obs = Obs::new();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    if start.elapsed().as_secs_f64() > cfg.wall_cap_s {
                        break;
                    }
                    let seed = mix(master.wrapping_add(i));
                    // sizes ramp up over the first quarter of the run, then stay mixed
                    let by_count = 4.0 * i as f64 / total as f64;
                    // (a sanitizer's run is cut by its time budget: there the ramp follows the clock)
                    let by_clock = if cfg.ignore_verdicts { 4.0 * start.elapsed().as_secs_f64() / cfg.wall_cap_s } else { 0.0 };
                    let frac = by_count.max(by_clock).min(1.0);
                    let size = if frac < 1.0 { frac } else { (mix(seed) >> 11) as f64 / (1u64 << 53) as f64 };
                    let v = run_case(p, &mut obs, seed, size.min(cfg.max_size), cfg.tier_thorough, i, total);
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Err(msg) = v {
                        if cfg.ignore_verdicts {
                            obs.count("functional_verdicts_ignored", 1);
                            continue;
                        }
                        let mut b = best.lock().unwrap();
                        if b.as_ref().map_or(true, |x| i < x.0) {
                            *b = Some((i, seed, size.min(cfg.max_size), msg));
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                merged.lock().unwrap().merge(obs);
            });
        }
    });
    let mut obs = merged.into_inner().unwrap();
    let mut best = best.into_inner().unwrap();
    if p.id == "C17" && !cfg.ignore_verdicts && best.is_none() {
        let n = if cfg.tier_thorough { 4000 } else { 250 };
        let (x, y) = (mix(master), n);
        match digests_in_processes(x, y) {
            Err(e) => best = Some((0, x, 0.0, e)),
            Ok(d) => {
                obs.count("processes_compared", d.len() as u64);
                obs.count("histories_per_process", n);
                obs.samples.push(format!("digests of {n} histories in separate processes: {d:?}"));
                if d.iter().any(|v| v.1 != d[0].1) || d[0].1 == "none" {
                    best = Some((u64::MAX, x, 0.0, format!("the same {n} histories (seed {x}) give different maps, bounds or change sets in different processes: digests {d:?} (`kmon digest {x} {n} forwards|backwards`)")));
                }
            }
        }
    }
    let evals = done.load(Ordering::Relaxed);
    let wall = start.elapsed().as_secs_f64();
    let mut cov = format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"planned_cases\":{},\"threads\":{}",
        evals,
        obs.sigs.len(),
        json_str(p.rule),
        obs.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        total,
        cfg.threads,
    );
    if cfg!(feature = "gas") {
        cov.push_str(&format!(",\"distinct_edges_executed_inside_library_calls\":{}", unsafe { kmon_edges_seen() }));
    }
    cov.push_str(",\"observed\":{");
    let mut items: Vec<String> = obs.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    items.extend(obs.maxes.iter().filter(|(_, v)| v.is_finite()).map(|(k, v)| format!("{}:{}", json_str(&format!("max_{k}")), v)));
    cov.push_str(&items.join(","));
    cov.push('}');
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[\"held on the executions listed, nothing more\",\"domain as stated in the property's quantifier\"],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(p.id),
        if cfg.tier_thorough { "thorough" } else { "quick" },
        cfg.seed,
        cov,
        wall,
        best.is_some() as u32
    );
    let _ = std::fs::create_dir_all(&cfg.out_dir);
    if !cfg.ignore_verdicts {
        std::fs::write(format!("{}/{}.json", cfg.out_dir, p.id), ev).expect("write evidence");
    }
    println!(
        "{}: {} of {} cases, {} distinct non-trivial observations, {:.1} s{}",
        p.id,
        evals,
        total,
        obs.sigs.len(),
        wall,
        obs.counters.iter().map(|(k, v)| format!(", {k}={v}")).collect::<String>()
    );
    if let Some((_, _, _, msg)) = best.as_ref().filter(|b| b.3.starts_with("HARNESS")) {
        println!("INCONCLUSIVE property={}: {msg}", p.id);
        return 2;
    }
    if let Some((i, seed, size, msg)) = best {
        let path = write_replay(&cfg.out_dir, p.id, (seed, size.to_bits(), i, total), cfg.tier_thorough, &msg);
        println!("case {i} witness: {msg}");
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !cfg.ignore_verdicts && cfg.scale >= 1.0 && (obs.sigs.len() as u64) < p.min_sigs {
        println!(
            "INCONCLUSIVE property={}: only {} non-trivial observations (need {})",
            p.id,
            obs.sigs.len(),
            p.min_sigs
        );
        return 2;
    }
    if !cfg.ignore_verdicts && cfg.scale >= 1.0 {
        if let Some(k) = p.need.iter().find(|k| obs.counters.get(*k).map_or(true, |n| *n == 0)) {
            println!("INCONCLUSIVE property={}: no observation of the kind {k}", p.id);
            return 2;
        }
    }
    0
}

/// Order-independent digest of what the library produced on `n` cases, run forwards or backwards.
pub fn digest_prop(p: &Prop, seed: u64, n: u64, backwards: bool) -> u64 {
    let mut obs = Obs::new();
    for k in 0..n {
        let i = if backwards { n - 1 - k } else { k };
        let s = mix(seed.wrapping_add(i));
        let _ = run_case(p, &mut obs, s, i as f64 / n as f64, false, i, n);
    }
    obs.digest
}

/// Digests of the same histories computed by separate processes, under different environments and case orders.
pub fn digests_in_processes(seed: u64, n: u64) -> Result<Vec<(String, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS {e}"))?;
    // what a process may find different: the order of its work, its environment, its processors, its working directory
    let kids: Vec<_> = [
        ("forwards", "KMON_JUNK", "1"),
        ("backwards", "KMON_JUNK", "a somewhat longer environment, so that the stack starts elsewhere"),
        ("forwards", "KMON_ONE_CPU", "1"),
        ("backwards", "LC_ALL", "de_DE.UTF-8"),
        ("forwards", "TZ", "Pacific/Chatham"),
        ("forwards", "RUST_LOG", "trace"),
        ("backwards", "", ""),
    ]
        .iter()
        .map(|(order, name, value)| {
            let mut c = std::process::Command::new(&exe);
            c.args(["digest", &seed.to_string(), &n.to_string(), order]).stdout(std::process::Stdio::piped());
            if name.is_empty() {
                c.env_clear().current_dir("/");
            } else {
                c.env(name, value);
            }
            (order.to_string(), c.spawn())
        })
        .collect();
    let mut out = vec![];
    for (order, c) in kids {
        let o = c.and_then(|c| c.wait_with_output()).map_err(|e| format!("HARNESS {e}"))?;
        let text = String::from_utf8_lossy(&o.stdout);
        let d = text.lines().find_map(|l| l.strip_prefix("digest ")).unwrap_or("none").to_string();
        out.push((format!("{order}{}", if o.status.success() { "" } else { " (failed)" }), d));
    }
    Ok(out)
}

// ---------------------------------------------------------------- isolation of separate objects

/// Runs cases alone, then the same cases from 8 threads at once, each thread on its own objects: a case whose verdict
/// depends on what else is going on shows that separate objects share mutable state. Returns the number of findings.
pub fn isolation(props: &[&Prop], hot: &[(&'static str, fn(&mut Rng, &mut Hash64))], seed: u64, seconds: f64) -> u64 {
    let seconds = seconds * 0.6;
    let hot_seconds = seconds / 0.6 * 0.4;
    type Job = (usize, u64, f64, u64, u64, bool);
    let mut jobs: Vec<Job> = vec![];
    let mut findings = 0u64;
    let total = 1000u64;
    for (k, p) in props.iter().enumerate() {
        set_global(&Config { prop: p.id, tier_thorough: false, seed, out_dir: String::new(), scale: 1.0, wall_cap_s: 0.0, threads: 1, ignore_verdicts: true, cases: None, max_size: 1.0 });
        let start = std::time::Instant::now();
        let mut fresh = 0;
        for i in 0..total {
            if start.elapsed().as_secs_f64() > seconds * 0.3 / props.len() as f64 {
                break;
            }
            let s = mix(seed ^ mix((k as u64) << 32 | i));
            let size = 0.02 + 0.3 * (i % 16) as f64 / 16.0;
            let v = run_case(p, &mut Obs::new(), s, size, false, i, total);
            if let Err(m) = &v {
                if m.starts_with("HARNESS") {
                    continue;
                }
                // alone in a process of its own?
                if fresh < 3 {
                    fresh += 1;
                    if let Ok(true) = alone(p.id, s, size, i, total) {
                        println!("ISOLATION property={} case_seed={s} size={size}: holds in a process of its own, fails after other maps and clouds were used: {m}", p.id);
                        findings += 1;
                    }
                }
            }
            jobs.push((k, s, size, i, total, v.is_ok()));
        }
    }
    println!("BASELINE-DONE {} cases", jobs.len());
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let ran = AtomicU64::new(0);
    let phases = props.len() + 1;
    for phase in 0..phases {
        // one property's cases at a time, then all mixed
        let list: Vec<&Job> = jobs.iter().filter(|j| phase == props.len() || j.0 == phase).collect();
        if list.is_empty() {
            continue;
        }
        let limit = seconds * 0.7 * if phase == props.len() { 0.3 } else { 0.7 / props.len() as f64 };
        let start = std::time::Instant::now();
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let (list, bad, ran) = (&list, &bad, &ran);
                s.spawn(move || {
                    let mut r = Rng::new(mix(seed ^ mix(phase as u64 * 8 + t)));
                    let mut first = true;
                    while first || start.elapsed().as_secs_f64() < limit {
                        first = false;
                        let j = *r.pick(list);
                        let p = props[j.0];
                        let v = run_case(p, &mut Obs::new(), j.1, j.2, false, j.3, j.4);
                        ran.fetch_add(1, Ordering::Relaxed);
                        if let Err(m) = v {
                            if j.5 && !m.starts_with("HARNESS") {
                                bad.lock().unwrap().push(format!("ISOLATION property={} case_seed={} size={}: holds alone, fails while other threads use other maps and clouds: {m}", p.id, j.1, j.2));
                                return;
                            }
                        }
                    }
                });
            }
        });
        if bad.lock().unwrap().len() > 3 {
            break;
        }
    }
    for b in bad.lock().unwrap().iter().take(4) {
        println!("{b}");
        findings += 1;
    }
    let (calls, hot_findings) = hammer(hot, seed, hot_seconds);
    findings += hot_findings;
    println!("ISOLATION-DONE alone={} concurrent={} calls={calls} findings={findings}", jobs.len(), ran.load(Ordering::Relaxed));
    findings
}

fn digest(f: fn(&mut Rng, &mut Hash64), seed: u64) -> u64 {
    let mut h = Hash64::new();
    match call(DEFAULT_GAS, || f(&mut Rng::new(seed), &mut h)) {
        Ok(()) => h.0,
        Err(_) => 0,
    }
}

/// Single calls: alone, alone again in another order, and from several threads that repeat a few calls of the same kind at
/// full speed, each with arguments of its own. What a call returns must depend on its arguments alone.
fn hammer(hot: &[(&'static str, fn(&mut Rng, &mut Hash64))], seed: u64, seconds: f64) -> (u64, u64) {
    let inputs = 64u64;
    let mut table: Vec<(usize, u64, u64)> = vec![];
    for k in 0..hot.len() {
        for i in 0..inputs {
            let s = mix(seed ^ mix(0x407 ^ (k as u64) << 32 | i));
            table.push((k, s, digest(hot[k].1, s)));
        }
    }
    let mut findings = 0;
    let mut mixed = table.clone();
    Rng::new(seed).shuffle(&mut mixed);
    for (k, s, want) in &mixed {
        let got = digest(hot[*k].1, *s);
        if got != *want && findings < 3 {
            println!("ISOLATION property=C23 call={} seed={s}: returns something else after other calls ({want:016x}, then {got:016x})", hot[*k].0);
            findings += 1;
        }
    }
    let calls = AtomicU64::new(0);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    for (k, (name, f)) in hot.iter().enumerate() {
        if findings > 0 {
            break;
        }
        let start = std::time::Instant::now();
        let limit = seconds / hot.len() as f64;
        let rounds = 4u64;
        for round in 0..rounds {
            std::thread::scope(|sc| {
                for t in 0..8u64 {
                    let (table, bad, calls) = (&table, &bad, &calls);
                    sc.spawn(move || {
                        // one to three calls, repeated: the fewer, the more often a stale value of another thread is met
                        let mine = &table[k * inputs as usize + (t * 8) as usize..][..1 + round as usize % 3];
                        let mut i = 0usize;
                        let until = limit * (round + 1) as f64 / rounds as f64;
                        loop {
                            let (_, s, want) = mine[i % mine.len()];
                            let got = digest(*f, s);
                            i += 1;
                            if got != want {
                                bad.lock().unwrap().push(format!("ISOLATION property=C23 call={name} seed={s}: returns something else while other threads call the same ({want:016x}, {got:016x})"));
                                break;
                            }
                            if i % 16 == 0 && start.elapsed().as_secs_f64() > until {
                                break;
                            }
                        }
                        calls.fetch_add(i as u64, Ordering::Relaxed);
                    });
                }
            });
        }
    }
    for b in bad.lock().unwrap().iter().take(4) {
        println!("{b}");
        findings += 1;
    }
    (calls.load(Ordering::Relaxed), findings)
}

/// The verdict of one case in a fresh process.
fn alone(id: &str, seed: u64, size: f64, index: u64, total: u64) -> Result<bool, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe)
        .args(["one", id, &seed.to_string(), &size.to_bits().to_string(), &index.to_string(), &total.to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o.stdout).contains("ONE-HELD"))
}
