//! Cases, random numbers, panics, and the driver that searches for a failing case.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// What a run of a machine checks.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// every observer agrees with the model
    Content,
    /// no other value changes
    Persist,
    /// iteration agrees with element access
    Iter,
    /// equality agrees with element access
    Eq,
    /// order and hash agree with element access
    OrdHash,
    /// nothing panics
    Panic,
    /// search paths are logarithmic
    Balance,
    /// range queries
    Range,
    /// set algebra
    Algebra,
    /// serde
    Serde,
    /// bulk construction
    Bulk,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static CHECKS: Cell<u64> = Cell::new(0);
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| format!("panic: {}", l.borrow())))
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    CHECKS.with(|c| c.set(c.get() + 1));
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
}

/// A scenario: interprets a configuration and a list of operation codes.
pub struct Scenario {
    pub name: &'static str,
    pub run: fn(Mode, u32, &[u32]) -> R,
    /// configurations
    pub cfgs: Vec<u32>,
    /// codes enumerated exhaustively
    pub alphabet: Vec<u32>,
    pub exhaustive_len: usize,
    /// random code
    pub random: fn(&mut Rng, u32) -> u32,
    pub random_len: usize,
    pub weight: u32,
}

static CASE_START: AtomicU64 = AtomicU64::new(0);

pub struct Driver {
    pub mode: Mode,
    pub prop: String,
    pub out: String,
    cur: std::fs::File,
    pub cases: u64,
    pub ops: u64,
    pub samples: Vec<String>,
    pub per: BTreeMap<String, u64>,
    t0: Instant,
}

pub fn case_text(prop: &str, mode: Mode, sc: &str, cfg: u32, ops: &[u32]) -> String {
    let o: Vec<String> = ops.iter().map(|x| x.to_string()).collect();
    format!("property {prop}\nmode {mode:?}\nscenario {sc}\ncfg {cfg}\nops {}\n", o.join(" "))
}

impl Driver {
    pub fn new(prop: &str, mode: Mode, out: &str) -> Driver {
        std::fs::create_dir_all(out).unwrap();
        let cur = std::fs::File::create(format!("{out}/{prop}.current")).unwrap();
        let t0 = Instant::now();
        let (p, o) = (prop.to_string(), out.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = CASE_START.load(AO::Relaxed);
            let now = t0.elapsed().as_millis() as u64;
            if s != 0 && now > s && now - s > 60_000 {
                let mut t = std::fs::read_to_string(format!("{o}/{p}.current")).unwrap_or_default();
                if let Some(i) = t.find("END\n") { t.truncate(i); }
                finish_violation(&p, &o, &t, "the operation does not terminate (60 s)");
            }
        });
        Driver { mode, prop: prop.into(), out: out.into(), cur, cases: 0, ops: 0, samples: vec![], per: Default::default(), t0 }
    }

    pub fn one(&mut self, sc: &Scenario, cfg: u32, ops: &[u32]) {
        self.cases += 1;
        self.ops += ops.len() as u64;
        *self.per.entry(sc.name.to_string()).or_default() += 1;
        let text = case_text(&self.prop, self.mode, sc.name, cfg, ops);
        self.cur.seek(SeekFrom::Start(0)).unwrap();
        self.cur.write_all(text.as_bytes()).unwrap();
        self.cur.write_all(b"END\n").unwrap();
        if self.samples.len() < 3 && self.cases % 97 == 5 { self.samples.push(text.replace('\n', "; ")); }
        CASE_START.store(self.t0.elapsed().as_millis() as u64 + 1, AO::Relaxed);
        let r = run_case(sc, self.mode, cfg, ops);
        CASE_START.store(0, AO::Relaxed);
        if let Err(e) = r {
            let (ops, e) = shrink(sc, self.mode, cfg, ops.to_vec(), e);
            finish_violation(&self.prop, &self.out, &case_text(&self.prop, self.mode, sc.name, cfg, &ops), &e);
        }
    }

    pub fn exhaustive(&mut self, sc: &Scenario, budget: Duration) -> bool {
        let t = Instant::now();
        if sc.alphabet.is_empty() { return true; }
        for len in 0..=sc.exhaustive_len {
            for &cfg in &sc.cfgs {
                let mut idx = vec![0usize; len];
                loop {
                    let ops: Vec<u32> = idx.iter().map(|&i| sc.alphabet[i]).collect();
                    self.one(sc, cfg, &ops);
                    if t.elapsed() > budget { return false; }
                    let mut k = 0;
                    while k < len {
                        idx[k] += 1;
                        if idx[k] < sc.alphabet.len() { break; }
                        idx[k] = 0;
                        k += 1;
                    }
                    if k == len { break; }
                }
            }
        }
        true
    }

    pub fn random(&mut self, sc: &Scenario, rng: &mut Rng, budget: Duration) {
        let t = Instant::now();
        let mut n = 0u64;
        loop {
            // at least one case per configuration, whatever the time
            if n >= sc.cfgs.len() as u64 && t.elapsed() > budget { return; }
            let cfg = sc.cfgs[(n % sc.cfgs.len() as u64) as usize];
            n += 1;
            let max = match rng.below(8) { 0..=3 => 12, 4..=6 => sc.random_len / 4 + 1, _ => sc.random_len };
            let len = 1 + rng.below(max as u64) as usize;
            let ops: Vec<u32> = (0..len).map(|_| (sc.random)(rng, cfg)).collect();
            self.one(sc, cfg, &ops);
        }
    }
}

pub fn run_case(sc: &Scenario, mode: Mode, cfg: u32, ops: &[u32]) -> R {
    match guard(|| (sc.run)(mode, cfg, ops)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn shrink(sc: &Scenario, mode: Mode, cfg: u32, mut ops: Vec<u32>, mut err: String) -> (Vec<u32>, String) {
    let t = Instant::now();
    let mut chunk = (ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < ops.len() {
            if t.elapsed() > Duration::from_secs(15) { return (ops, err); }
            let mut o = ops.clone();
            let end = (i + chunk).min(o.len());
            o.drain(i..end);
            if let Err(e) = run_case(sc, mode, cfg, &o) {
                ops = o;
                err = e;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any { return (ops, err); }
        if !any { chunk = (chunk / 2).max(1); }
    }
}

pub fn finish_violation(prop: &str, out: &str, text: &str, e: &str) -> ! {
    let path = format!("{out}/{prop}.replay");
    let mut f = std::fs::File::create(&path).unwrap();
    write!(f, "{text}failure {}\n", e.replace('\n', " ")).unwrap();
    println!("FOUND {path}");
    println!("WHY {}", e.replace('\n', " "));
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}
