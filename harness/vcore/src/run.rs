//! The search engine: proptest strategies or exhaustive enumerations, shrinking, replay
//! files, and the counters that become the evidence.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Outcome of one passing case
pub struct Info {
    pub nontrivial: bool,
    pub label: &'static str,
}

pub fn ok(nontrivial: bool) -> Result<Info, String> {
    Ok(Info { nontrivial, label: "" })
}
pub fn ok_as(label: &'static str, nontrivial: bool) -> Result<Info, String> {
    Ok(Info { nontrivial, label })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => {
        if !$c {
            return Err(format!($($m)*));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err(format!("{}: got {:?}, want {:?}", format!($($m)*), a, b));
                }
            }
        }
    };
}

/// FNV-1a; stable across processes
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct SubStat {
    evaluations: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    exhaustive: bool,
    seconds: f64,
}

pub struct Ctx {
    pub property: String,
    pub config: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    out: Option<String>,
    replay_dir: String,
    replay: Option<Value>,
    replayed: bool,
    stats: BTreeMap<String, SubStat>,
    hashes: HashSet<u64>,
    violations: Vec<Value>,
    current: Rc<Current>,
    start: std::time::Instant,
    /// only name the sub-checks that can be guided
    listing: bool,
    /// seconds per sub-check of guided search, which replaces the other searches
    guided: Option<f64>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run `f`, turning a panic into an error message
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

const MAX_HASHES: usize = 3_000_000;

/// The case being checked, in a shared mapping that outlives this process: when a case
/// hangs or kills the process, the driver reads it from there and makes the replay file.
struct Current {
    map: *mut u8,
}
const CURRENT_SIZE: usize = 1 << 16;
impl Current {
    fn none() -> Current {
        Current { map: std::ptr::null_mut() }
    }
    fn open(path: &str) -> Current {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .unwrap();
        f.set_len(CURRENT_SIZE as u64).unwrap();
        let map = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                CURRENT_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(map != libc::MAP_FAILED);
        Current { map: map.cast() }
    }
    /// layout: sequence number (8 bytes), length (8 bytes), JSON
    fn set<C: Serialize>(&self, sub: &str, case: &C) {
        if self.map.is_null() {
            return;
        }
        let mut buf = Vec::with_capacity(256);
        buf.extend_from_slice(sub.as_bytes());
        buf.push(b'\n');
        serde_json::to_writer(&mut buf, case).unwrap();
        let n = buf.len().min(CURRENT_SIZE - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(buf.as_ptr(), self.map.add(16), n);
            *(self.map as *mut u64).add(1) = if n == buf.len() { n as u64 } else { 0 };
            *(self.map as *mut u64) += 1;
        }
    }
}

impl Ctx {
    /// `bin PROPERTY CONFIG SHARD SHARDS OUT REPLAYDIR` or `bin PROPERTY CONFIG --replay FILE`
    pub fn from_args() -> Ctx {
        quiet_panics();
        let a: Vec<String> = std::env::args().skip(1).collect();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let mut c = Ctx {
            property: a[0].clone(),
            config: a[1].clone(),
            seed,
            thorough,
            shard: 0,
            shards: 1,
            out: None,
            replay_dir: String::new(),
            replay: None,
            replayed: false,
            stats: BTreeMap::new(),
            hashes: HashSet::new(),
            violations: Vec::new(),
            current: Rc::new(Current::none()),
            start: std::time::Instant::now(),
            listing: a[2] == "--list",
            guided: std::env::var("VERIF_GUIDED_S").ok().and_then(|s| s.parse().ok()),
        };
        if c.listing {
            return c;
        }
        if a[2] == "--replay" {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
            c.shard = v["shard"].as_u64().unwrap_or(0);
            c.seed = v["seed"].as_u64().unwrap_or(1);
            c.replay = Some(v);
        } else {
            c.shard = a[2].parse().unwrap();
            c.shards = a[3].parse().unwrap();
            c.out = Some(a[4].clone());
            c.replay_dir = a[5].clone();
            c.current = Rc::new(Current::open(&format!("{}.current", a[4])));
        }
        c
    }

    fn rng(&self, sub: &str) -> TestRng {
        let mut bytes = [0u8; 32];
        for (i, ch) in bytes.chunks_mut(8).enumerate() {
            let h = hash_of(&(
                self.seed,
                &self.property,
                &self.config,
                self.shard,
                sub,
                i as u64,
            ));
            ch.copy_from_slice(&h.to_le_bytes());
        }
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
    }

    /// One violation is reported at once when looking for more would take long
    fn enough(&self) -> bool {
        !self.violations.is_empty() && self.start.elapsed().as_secs() > 60
    }

    fn replaying<C: DeserializeOwned + Debug>(
        &mut self,
        sub: &str,
        check: &dyn Fn(&C) -> Result<Info, String>,
    ) -> bool {
        let Some(r) = &self.replay else { return false };
        if r["sub"] == sub {
            let case: C = serde_json::from_value(r["case"].clone()).expect("replay case");
            self.replayed = true;
            match guarded(|| check(&case)) {
                Ok(_) => println!("REPLAY {sub}: holds for {case:?}"),
                Err(e) => {
                    println!("REPLAY {sub}: FAILS for {case:?}: {e}");
                    self.violations.push(json!({"sub": sub}));
                }
            }
        }
        true
    }

    fn violation<C: Serialize + Debug>(&mut self, sub: &str, case: &C, msg: &str) {
        let path = format!(
            "{}/{}-{}-{}-{}.json",
            self.replay_dir, self.property, sub, self.config, self.shard
        );
        let v = json!({
            "property": self.property, "sub": sub, "config": self.config, "seed": self.seed,
            "shard": self.shard, "message": msg, "case": case, "case_debug": format!("{case:?}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        eprintln!("{} {} [{}]: {}\n    case {:?}", self.property, sub, self.config, msg, case);
        self.violations.push(json!({"sub": sub, "message": msg, "replay": path}));
    }

    /// Search `quick` (or `thorough`) generated cases in total, over all shards.
    pub fn prop<C, S>(
        &mut self,
        sub: &str,
        quick: u64,
        thorough: u64,
        strategy: S,
        check: impl Fn(&C) -> Result<Info, String>,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash + 'static,
        S: Strategy<Value = C>,
    {
        if self.listing {
            println!("{sub}");
            return;
        }
        if self.replaying(sub, &check) || self.enough() {
            return;
        }
        if self.guided.is_some() {
            return self.guided(sub, strategy, check);
        }
        let total = if self.thorough { thorough } else { quick };
        let n = (total / self.shards).max(1);
        let cfg = Config {
            cases: n as u32,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 40_000,
            max_global_rejects: 1 << 30,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, self.rng(sub));
        struct Acc {
            st: SubStat,
            new: Vec<u64>,
            failing: bool,
        }
        let acc = Rc::new(RefCell::new(Acc {
            st: SubStat::default(),
            new: Vec::new(),
            failing: false,
        }));
        let a2 = acc.clone();
        let sub_h = hash_of(&(sub, &self.config));
        let current = self.current.clone();
        let t0 = std::time::Instant::now();
        let res = runner.run(&strategy, |case| {
            current.set(sub, &case);
            match guarded(|| check(&case)) {
                Ok(info) => {
                    let mut a = a2.borrow_mut();
                    if !a.failing {
                        a.st.evaluations += 1;
                        *a.st.labels.entry(info.label).or_default() += 1;
                        if info.nontrivial {
                            a.st.nontrivial += 1;
                            a.new.push(hash_of(&(sub_h, &case)));
                            let k = a.st.nontrivial;
                            if k == 1 || k == 97 || k == 1009 {
                                let v = serde_json::to_value(&case).unwrap();
                                a.st.samples.push(v);
                            }
                        }
                    }
                    Ok(())
                }
                Err(e) => {
                    let mut a = a2.borrow_mut();
                    if !a.failing {
                        a.failing = true;
                        a.st.evaluations += 1;
                    }
                    Err(TestCaseError::fail(e))
                }
            }
        });
        let a = std::mem::replace(
            &mut *acc.borrow_mut(),
            Acc { st: SubStat::default(), new: Vec::new(), failing: false },
        );
        for h in a.new {
            if self.hashes.len() < MAX_HASHES {
                self.hashes.insert(h);
            }
        }
        self.stats.insert(sub.to_string(), SubStat { seconds: t0.elapsed().as_secs_f64(), ..a.st });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                self.violation(sub, &case, reason.message());
            }
            Err(TestError::Abort(r)) => panic!("{sub}: generator gave up: {r}"),
        }
    }

    #[cfg(not(feature = "guided"))]
    fn guided<C, S>(&mut self, _: &str, _: S, _: impl Fn(&C) -> Result<Info, String>) {
        panic!("not built for guided search");
    }

    /// Coverage-guided search over the same cases: what is mutated is the stream of random
    /// numbers the strategy draws from, so every case is one the strategy can generate.
    #[cfg(feature = "guided")]
    fn guided<C, S>(&mut self, sub: &str, strategy: S, check: impl Fn(&C) -> Result<Info, String>)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash + 'static,
        S: Strategy<Value = C>,
    {
        let seconds = self.guided.unwrap();
        let cfg = Config {
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 20_000,
            max_local_rejects: 1000,
            ..Config::default()
        };
        let mut g = crate::guided::Guide::new(hash_of(&(self.seed, &self.property, self.shard, sub)));
        let t0 = std::time::Instant::now();
        let mut st = SubStat::default();
        let sub_h = hash_of(&(sub, &self.config));
        let tree_of = |bytes: &[u8]| {
            let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
            let mut runner = TestRunner::new_with_rng(cfg.clone(), rng);
            strategy.new_tree(&mut runner).ok().map(|t| (t, runner))
        };
        while t0.elapsed().as_secs_f64() < seconds {
            let bytes = g.propose();
            let Some((tree, mut runner)) = tree_of(&bytes) else { continue };
            let case = tree.current();
            self.current.set(sub, &case);
            g.start();
            let res = guarded(|| check(&case));
            let new = g.stop();
            st.evaluations += 1;
            match res {
                Ok(info) => {
                    *st.labels.entry(info.label).or_default() += 1;
                    let h = hash_of(&(sub_h, &case));
                    if info.nontrivial {
                        st.nontrivial += 1;
                        if self.hashes.len() < MAX_HASHES {
                            self.hashes.insert(h);
                        }
                    }
                    if new > 0 {
                        if st.samples.len() < 3 && info.nontrivial {
                            st.samples.push(serde_json::to_value(&case).unwrap());
                        }
                        // keep the part of the stream that was drawn from
                        let (mut lo, mut hi) = (0, bytes.len());
                        while lo < hi {
                            let mid = (lo + hi) / 2;
                            let same = tree_of(&bytes[..mid]).is_some_and(|(t, _)| hash_of(&(sub_h, &t.current())) == h);
                            if same {
                                hi = mid;
                            } else {
                                lo = mid + 1;
                            }
                        }
                        g.keep(bytes[..hi].to_vec(), new);
                    }
                }
                Err(e) => {
                    let shrunk = runner.run_one(tree, |case| {
                        self.current.set(sub, &case);
                        guarded(|| check(&case)).map(|_| ()).map_err(TestCaseError::fail)
                    });
                    match shrunk {
                        Err(TestError::Fail(reason, case)) => self.violation(sub, &case, reason.message()),
                        _ => self.violation(sub, &case, &e),
                    }
                    break;
                }
            }
        }
        *st.labels.entry("(kept for what they reached)").or_default() += g.kept();
        *st.labels.entry("(edges taken, summed over processes)").or_default() += g.edges_seen();
        st.seconds = t0.elapsed().as_secs_f64();
        self.stats.insert(format!("{sub} (guided)"), st);
    }

    pub fn replaying_any(&self) -> bool {
        self.replay.is_some()
    }

    /// Check every case of an enumeration (this shard's part of it); stops at the first
    /// violation, which is the smallest in enumeration order.
    pub fn exhaustive<C>(
        &mut self,
        sub: &str,
        cases: impl Iterator<Item = C>,
        check: impl Fn(&C) -> Result<Info, String>,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash,
    {
        self.enumeration(sub, cases, true, check)
    }

    /// The same for cases that are this shard's own already
    pub fn exhaustive_own<C>(
        &mut self,
        sub: &str,
        cases: impl Iterator<Item = C>,
        check: impl Fn(&C) -> Result<Info, String>,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash,
    {
        self.enumeration(sub, cases, false, check)
    }

    fn enumeration<C>(
        &mut self,
        sub: &str,
        cases: impl Iterator<Item = C>,
        split: bool,
        check: impl Fn(&C) -> Result<Info, String>,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash,
    {
        if self.listing || self.replaying(sub, &check) || self.guided.is_some() || self.enough() {
            return;
        }
        let t0 = std::time::Instant::now();
        let mut st = SubStat { exhaustive: split, ..SubStat::default() };
        let sub_h = hash_of(&(sub, &self.config));
        let mut bad = None;
        for (i, case) in cases.enumerate() {
            if split && i as u64 % self.shards != self.shard {
                continue;
            }
            st.evaluations += 1;
            self.current.set(sub, &case);
            match guarded(|| check(&case)) {
                Ok(info) => {
                    *st.labels.entry(info.label).or_default() += 1;
                    if info.nontrivial {
                        st.nontrivial += 1;
                        let k = st.nontrivial;
                        if self.hashes.len() < MAX_HASHES {
                            self.hashes.insert(hash_of(&(sub_h, &case)));
                        }
                        if k == 1 || k == 97 || k == 1009 {
                            st.samples.push(serde_json::to_value(&case).unwrap());
                        }
                    }
                }
                Err(e) => {
                    bad = Some((case, e));
                    break;
                }
            }
        }
        st.seconds = t0.elapsed().as_secs_f64();
        self.stats.insert(sub.to_string(), st);
        if let Some((case, e)) = bad {
            self.violation(sub, &case, &e);
        }
    }

    /// Cases that do not depend on the configuration; the driver compares the outputs of
    /// all configurations line by line.
    pub fn corpus<C, S>(&mut self, sub: &str, n: u64, strategy: S, f: impl Fn(&C) -> String)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Hash + 'static,
        S: Strategy<Value = C>,
    {
        if self.listing || self.guided.is_some() {
            return;
        }
        if let Some(r) = &self.replay {
            if r["sub"] == sub {
                self.replayed = true;
                let case: C = serde_json::from_value(r["case"].clone()).expect("replay case");
                println!("CORPUS {}", serde_json::to_string(&f(&case)).unwrap());
            }
            return;
        }
        if self.shard != 0 {
            return;
        }
        let mut seed = [7u8; 32];
        seed[..8].copy_from_slice(&hash_of(&(self.seed, &self.property, sub)).to_le_bytes());
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
        );
        let n = if self.thorough { n * 10 } else { n };
        let mut out = String::new();
        for _ in 0..n {
            let case = strategy.new_tree(&mut runner).unwrap().current();
            self.current.set(sub, &case);
            out.push_str(&json!({"sub": sub, "case": case, "out": f(&case)}).to_string());
            out.push('\n');
        }
        std::fs::write(format!("{}.corpus", self.out.as_ref().unwrap()), out).unwrap();
        self.stats.insert(sub.to_string(), SubStat { evaluations: n, ..SubStat::default() });
    }

    pub fn finish(mut self) -> ! {
        if self.listing {
            std::process::exit(0);
        }
        if self.replay.is_some() {
            if !self.replayed {
                println!("REPLAY: no such sub-check in this binary");
                std::process::exit(3);
            }
            std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
        }
        let subs: BTreeMap<_, _> = self
            .stats
            .iter()
            .map(|(k, s)| {
                (
                    k.clone(),
                    json!({
                        "evaluations": s.evaluations, "nontrivial": s.nontrivial,
                        "labels": s.labels, "samples": s.samples, "exhaustive": s.exhaustive, "seconds": s.seconds,
                    }),
                )
            })
            .collect();
        let out = self.out.take().unwrap();
        let mut hs: Vec<u8> = Vec::with_capacity(self.hashes.len() * 8);
        for h in &self.hashes {
            hs.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{out}.hashes"), hs).unwrap();
        std::fs::write(
            &out,
            json!({"config": self.config, "shard": self.shard, "subs": subs, "violations": self.violations})
                .to_string(),
        )
        .unwrap();
        std::process::exit(0)
    }
}
