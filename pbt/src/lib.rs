//! Driver shared by the harness crates: seeded generation with proptest, shrinking,
//! replay files, evidence files, known findings.
//!
//! A property is a set of sub-checks. A sub-check is a proptest strategy plus a
//! function from a generated case to an observation: a list of failures (each with a
//! signature), whether the case was non-trivial, and the classes it falls into.
//! Everything a run does is a function of the code under test, the tier and VERIF_SEED.

use proptest::{
    strategy::{Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub use proptest;
pub use serde_json;

// The C library behind the code under test reports domain errors on standard output. The
// driver keeps the real standard output to itself and points descriptor 1 at /dev/null, so
// that its own lines stay whole.
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// An allocation that grows without bound ends the process instead of the machine's memory.
fn limit_memory() {
    const AS: i32 = 9;
    let limit = [8u64 << 30; 2];
    unsafe {
        setrlimit(AS, &limit);
    }
}

static OUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();

/// Keeps the standard output for `say`.
pub fn keep_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            let fd = dup(1);
            if fd >= 0 && dup2(null.as_raw_fd(), 1) >= 0 {
                let _ = OUT.set(Mutex::new(std::fs::File::from_raw_fd(fd)));
            }
        }
    }
}

#[doc(hidden)]
pub fn say(s: String) {
    match OUT.get() {
        Some(f) => {
            let _ = writeln!(f.lock().unwrap(), "{}", s);
        },
        None => println!("{}", s),
    }
}

macro_rules! say {
    ($($t:tt)*) => { say(format!($($t)*)) };
}

// ------------------------------------------------------------------------------------------
// Cases that can be written to and read back from a replay file
// ------------------------------------------------------------------------------------------
pub trait Rep: Clone + std::fmt::Debug + Send + 'static {
    fn enc(&self) -> Value;
    fn dec(v: &Value) -> Option<Self>;
}

impl Rep for f64 {
    fn enc(&self) -> Value { Value::String(format!("{:?}", self)) }

    fn dec(v: &Value) -> Option<f64> { v.as_str()?.parse().ok() }
}

macro_rules! rep_int {
    ($($t:ty),*) => {$(
        impl Rep for $t {
            fn enc(&self) -> Value { Value::String(self.to_string()) }

            fn dec(v: &Value) -> Option<$t> { v.as_str()?.parse().ok() }
        }
    )*};
}
rep_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, char);

impl Rep for String {
    fn enc(&self) -> Value { Value::String(self.clone()) }

    fn dec(v: &Value) -> Option<String> { v.as_str().map(|s| s.to_string()) }
}

impl Rep for () {
    fn enc(&self) -> Value { Value::Null }

    fn dec(_: &Value) -> Option<()> { Some(()) }
}

impl<T: Rep> Rep for Vec<T> {
    fn enc(&self) -> Value { Value::Array(self.iter().map(|x| x.enc()).collect()) }

    fn dec(v: &Value) -> Option<Vec<T>> { v.as_array()?.iter().map(T::dec).collect() }
}

impl<T: Rep> Rep for Option<T> {
    fn enc(&self) -> Value {
        match self {
            None => Value::Null,
            Some(x) => Value::Array(vec![x.enc()]),
        }
    }

    fn dec(v: &Value) -> Option<Option<T>> {
        match v {
            Value::Null => Some(None),
            Value::Array(a) if a.len() == 1 => Some(Some(T::dec(&a[0])?)),
            _ => None,
        }
    }
}

impl<T: Rep, const N: usize> Rep for [T; N] {
    fn enc(&self) -> Value { Value::Array(self.iter().map(|x| x.enc()).collect()) }

    fn dec(v: &Value) -> Option<[T; N]> {
        let xs: Vec<T> = Vec::<T>::dec(v)?;
        xs.try_into().ok()
    }
}

macro_rules! rep_tuple {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<$($t: Rep),+> Rep for ($($t,)+) {
            fn enc(&self) -> Value { Value::Array(vec![$(self.$i.enc()),+]) }

            fn dec(v: &Value) -> Option<Self> {
                let a = v.as_array()?;
                Some(($($t::dec(a.get($i)?)?,)+))
            }
        }
    )*};
}
rep_tuple!((A 0)(A 0, B 1)(A 0, B 1, C 2)(A 0, B 1, C 2, D 3)(A 0, B 1, C 2, D 3, E 4)(A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6));

// ------------------------------------------------------------------------------------------
// Observations
// ------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub fails: Vec<Fail>,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub sample: Option<String>,
}

impl Obs {
    pub fn new() -> Obs { Obs::default() }

    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        self.fails.push(Fail { sig: sig.into(), msg: msg.into() });
    }

    pub fn check(&mut self, ok: bool, sig: &str, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(sig, msg());
        }
    }

    pub fn class(&mut self, c: impl Into<String>) { self.classes.push(c.into()); }

    pub fn nontrivial(&mut self, yes: bool) { self.nontrivial |= yes; }

    pub fn note(&mut self, s: impl Into<String>) { self.sample = Some(s.into()); }
}

// ------------------------------------------------------------------------------------------
// Cases that never return, and cases that take the process down
// ------------------------------------------------------------------------------------------
/// A case normally takes milliseconds.
const HANG: Duration = Duration::from_secs(100);

struct Slot {
    since: Instant,
    check: String,
    case: Value,
}

static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(vec![]);

thread_local! {
    static SLOT: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

/// Remembers which case a thread is busy with. With PBT_TRACE=<directory>, also on disk, so
/// that the parent process can tell after a crash.
struct Running(usize);

impl Running {
    fn start(name: &str, case: impl FnOnce() -> Value) -> Running {
        let case = case();
        let i = SLOT.with(|s| match s.get() {
            Some(i) => i,
            None => {
                let mut v = SLOTS.lock().unwrap();
                v.push(None);
                s.set(Some(v.len() - 1));
                v.len() - 1
            },
        });
        if let Some(dir) = trace_dir() {
            let body = json!({"check": name, "case": case}).to_string();
            let _ = std::fs::write(dir.join(format!("{}.json", i)), body);
        }
        SLOTS.lock().unwrap()[i] = Some(Slot { since: Instant::now(), check: name.to_string(), case });
        Running(i)
    }
}

impl Drop for Running {
    fn drop(&mut self) {
        if let Ok(mut v) = SLOTS.lock() {
            v[self.0] = None;
        }
    }
}

fn trace_dir() -> Option<&'static PathBuf> {
    static DIR: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    DIR.get_or_init(|| std::env::var("PBT_TRACE").ok().map(PathBuf::from)).as_ref()
}

/// Reports a case that does not come back.
fn watch_for_hangs(property: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let stuck = {
            let v = SLOTS.lock().unwrap();
            v.iter().flatten().find(|s| s.since.elapsed() > HANG).map(|s| (s.check.clone(), s.case.clone()))
        };
        if let Some((check, case)) = stuck {
            let msg = format!("no answer within {} s", HANG.as_secs());
            report(&property, &check, &format!("{}/hang", check), &msg, &case, 0);
            std::process::exit(1)
        }
    });
}

/// Writes the replay file of a violation and the line that names it.
fn report(property: &str, check: &str, sig: &str, msg: &str, case: &Value, steps: usize) {
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let clean: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = rdir.join(format!("{}-{}.json", property, clean));
    let (seed, tier) = (std::env::var("VERIF_SEED").unwrap_or_default(), std::env::var("VERIF_TIER").unwrap_or_default());
    let body = json!({
        "property": property, "check": check, "signature": sig, "message": msg,
        "case": case, "shrink_steps": steps, "seed": seed, "tier": tier,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    say!("  {}: {}\n    minimal case: {}", sig, msg, case);
    say!("VIOLATION property={} replay={}", property, path.display());
}

fn died(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    // Illegal instruction, abort, bus error, arithmetic fault, segmentation fault. Not a kill
    // from outside.
    st.signal().filter(|s| [4, 6, 7, 8, 11].contains(s))
}

/// Runs the check in a child process. A child that dies of a fault is run again, leaving a
/// trace of what it is busy with; the case that kills a process of its own is the violation.
fn supervise(id: &str) -> ! {
    let me = std::env::current_exe().expect("own path");
    let run = |args: &[&str], trace: Option<&PathBuf>, quiet: bool| {
        let mut c = std::process::Command::new(&me);
        c.args(args).env("PBT_CHILD", "1");
        if let Some(t) = trace {
            c.env("PBT_TRACE", t);
        }
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("child")
    };
    let st = run(&["check", id], None, false);
    let Some(signal) = died(&st) else { std::process::exit(st.code().unwrap_or(2)) };
    let dir = verif_dir().join("target").join(format!("trace-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let again = run(&["check", id], Some(&dir), true);
    let mut found = false;
    if died(&again).is_some() {
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            let Ok(text) = std::fs::read_to_string(e.path()) else { continue };
            let Ok(v) = serde_json::from_str::<Value>(&text) else { continue };
            let file = dir.join("candidate");
            let body = json!({"property": id, "check": v["check"], "case": v["case"]});
            let _ = std::fs::write(&file, body.to_string());
            if let Some(s) = died(&run(&["replay", &file.to_string_lossy()], None, true)) {
                let check = v["check"].as_str().unwrap_or("");
                report(id, check, &format!("{}/crash", check), &format!("the process dies of signal {}", s), &v["case"], 0);
                found = true;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if !found {
        eprintln!("the check died of signal {}, and no single case does so", signal);
    }
    std::process::exit(if found { 1 } else { 2 })
}

// ------------------------------------------------------------------------------------------
// Sub-checks and properties
// ------------------------------------------------------------------------------------------
struct ShardOut {
    evaluations: u64,
    hashes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known_hits: BTreeMap<String, u64>,
    violation: Option<(Fail, Value, usize)>,
    error: Option<String>,
}

type Exec = dyn Fn(u64, usize, &HashSet<String>) -> ShardOut + Send + Sync;
type Replay = dyn Fn(&Value) -> Option<Obs> + Send + Sync;

pub struct Sub {
    pub name: String,
    quick: usize,
    thorough: usize,
    exec: Box<Exec>,
    pub replay: Box<Replay>,
    /// A case of its own from a seed.
    pub pick: Box<dyn Fn(u64) -> Option<Value> + Send + Sync>,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

fn hash_case(name: &str, v: &Value) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    name.hash(&mut h);
    v.to_string().hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64) -> [u8; 32] {
    // SplitMix64 expansion.
    let mut s = seed;
    let mut out = [0u8; 32];
    for i in 0..4 {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..(i + 1) * 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    }
}

fn observe<T: Rep, F: Fn(&T) -> Obs>(name: &str, f: &F, v: &T) -> Obs {
    let _running = Running::start(name, || v.enc());
    match catch_unwind(AssertUnwindSafe(|| f(v))) {
        Ok(o) => o,
        Err(e) => {
            let mut o = Obs::new();
            o.fail("panic", format!("panicked: {}", panic_text(e)));
            o
        },
    }
}

/// A sub-check: `quick` and `thorough` are numbers of generated cases.
pub fn sub<S, F>(
    name: impl Into<String>,
    quick: usize,
    thorough: usize,
    strat: impl Fn() -> S + Send + Sync + 'static,
    f: F,
) -> Sub
where
    S: Strategy,
    S::Value: Rep,
    F: Fn(&S::Value) -> Obs + Send + Sync + Clone + 'static,
{
    let strat = Arc::new(strat);
    let strat2 = strat.clone();
    let name: String = name.into();
    let (n1, n2, n3) = (name.clone(), name.clone(), name.clone());
    let f2 = f.clone();

    let exec = move |seed: u64, cases: usize, known: &HashSet<String>| -> ShardOut {
        let qualify = |sig: &str| format!("{}/{}", n1, sig);
        let strat = strat();
        let config = Config { failure_persistence: None, ..Config::default() };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let mut out = ShardOut {
            evaluations: 0,
            hashes: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            known_hits: BTreeMap::new(),
            violation: None,
            error: None,
        };

        for i in 0..cases {
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    out.error = Some(format!("generator of {} gave up: {}", n1, e));
                    return out;
                },
            };
            let value = tree.current();
            let obs = observe(&n1, &f, &value);

            out.evaluations += 1;
            for c in obs.classes.iter() {
                *out.classes.entry(format!("{}: {}", n1, c)).or_insert(0) += 1;
            }
            if obs.nontrivial {
                out.hashes.insert(hash_case(&n1, &value.enc()));
            }
            if i < 2 || (i == cases / 2) {
                out.samples.push(json!({
                    "check": n1,
                    "case": obs.sample.clone().unwrap_or_else(|| format!("{:?}", value)),
                    "nontrivial": obs.nontrivial,
                }));
            }

            let mut new = None;
            for fl in obs.fails.into_iter() {
                let q = qualify(&fl.sig);
                if known.contains(&q) {
                    *out.known_hits.entry(q).or_insert(0) += 1;
                } else if new.is_none() {
                    new = Some(fl);
                }
            }

            if let Some(first) = new {
                // Shrink, keeping the same failure signature.
                let want = first.sig.clone();
                let mut best = (first, value.clone());
                let mut steps = 0;
                let t0 = Instant::now();
                let still = |v: &S::Value| -> Option<Fail> {
                    observe(&n1, &f, v).fails.into_iter().find(|x| x.sig == want)
                };
                let mut more = tree.simplify();
                while more && steps < 1500 && t0.elapsed() < Duration::from_secs(40) {
                    steps += 1;
                    let cur = tree.current();
                    if let Some(fl) = still(&cur) {
                        best = (fl, cur);
                        more = tree.simplify();
                    } else {
                        more = tree.complicate();
                    }
                }
                let (fl, v) = best;
                out.violation = Some((Fail { sig: qualify(&fl.sig), msg: fl.msg }, v.enc(), steps));
                return out;
            }
        }

        out
    };

    Sub {
        name: n2,
        quick,
        thorough,
        exec: Box::new(exec),
        pick: Box::new(move |seed| {
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed));
            let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
            strat2().new_tree(&mut runner).ok().map(|t| t.current().enc())
        }),
        replay: Box::new(move |v| S::Value::dec(v).map(|x| observe(&n3, &f2, &x))),
    }
}

// ------------------------------------------------------------------------------------------
// Known findings
// ------------------------------------------------------------------------------------------
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

/// Lines `known: property=<id> sig=<signature> <what fails>`. Lines that start `fixed:` are
/// a record only; everything else is a comment.
pub fn load_known(path: &PathBuf) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut out = vec![];

    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let p = it.next().and_then(|s| s.strip_prefix("property="));
        let s = it.next().and_then(|s| s.strip_prefix("sig="));
        if let (Some(p), Some(s)) = (p, s) {
            out.push(Known {
                property: p.to_string(),
                sig: s.to_string(),
                what: it.next().unwrap_or("").to_string(),
            });
        }
    }
    out
}

// ------------------------------------------------------------------------------------------
// Entry point
// ------------------------------------------------------------------------------------------
fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn stable_hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Multiplies the number of cases of every sub-check.
pub fn scaled(mut props: Vec<Prop>, quick: usize, thorough: usize) -> Vec<Prop> {
    for s in props.iter_mut().flat_map(|p| p.subs.iter_mut()) {
        s.quick *= quick;
        s.thorough = (s.thorough * thorough).max(s.quick);
    }
    props
}

/// `<bin> check <id>`, `<bin> replay <file>`, `<bin> list`. Never returns.
pub fn run(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if let (Some("check"), Some(id), Err(_)) = (args.get(1).map(|s| s.as_str()), args.get(2), std::env::var("PBT_CHILD")) {
        supervise(id)
    }
    keep_stdout();
    let verbose = std::env::var("PBT_VERBOSE").is_ok();
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }

    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props.iter() {
                say!("{}", p.id);
                for s in p.subs.iter() {
                    say!("    {} quick={} thorough={}", s.name, s.quick, s.thorough);
                }
            }
            std::process::exit(0)
        },
        Some("replay") => replay(&props, args.get(2).expect("replay <file>")),
        Some("check") => {
            let id = args.get(2).expect("check <id>");
            let Some(p) = props.into_iter().find(|p| p.id == id) else {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            };
            limit_memory();
            watch_for_hangs(id.clone());
            check(p)
        },
        _ => {
            eprintln!("usage: check <id> | replay <file> | list");
            std::process::exit(2)
        },
    }
}

fn replay(props: &[Prop], file: &str) -> ! {
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("replay json");
    let id = v["property"].as_str().unwrap_or("");
    let check = v["check"].as_str().unwrap_or("");
    limit_memory();
    watch_for_hangs(id.to_string());
    let Some(s) = props.iter().filter(|p| p.id == id).flat_map(|p| p.subs.iter()).find(|s| s.name == check) else {
        eprintln!("no such check here: {} {}", id, check);
        std::process::exit(2)
    };
    let Some(obs) = (s.replay)(&v["case"]) else {
        eprintln!("the case cannot be decoded");
        std::process::exit(2)
    };
    if obs.fails.is_empty() {
        say!("property {} holds on this case", id);
        std::process::exit(0)
    }
    for f in obs.fails.iter() {
        say!("  {}/{}: {}", check, f.sig, f.msg);
    }
    say!("VIOLATION property={} replay={}", id, file);
    std::process::exit(1)
}

fn check(p: Prop) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let dir = verif_dir();
    let all_known = load_known(&dir.join("known_findings.txt"));
    let known: Arc<HashSet<String>> = Arc::new(
        all_known.iter().filter(|k| k.property == p.id).map(|k| k.sig.clone()).collect(),
    );

    // A hang is an error of the check, never a violation.
    let limit = std::env::var("PBT_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if tier == "quick" { 780u64 } else { 6 * 3600 },
    );
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("watchdog: the check did not finish in {} s", limit);
        std::process::exit(3)
    });

    // PBT_SHARD_OF only spreads work over threads; it does not change what is generated.
    const SHARDS: usize = 8;
    let only = std::env::var("PBT_ONLY").ok();
    let mut tasks: Vec<(usize, usize, usize)> = vec![];
    for (i, s) in p.subs.iter().enumerate() {
        if let Some(o) = only.as_ref() {
            if !s.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = if tier == "quick" { s.quick } else { s.thorough };
        let shards = SHARDS.min(n.max(1));
        for k in 0..shards {
            let cases = n / shards + if k < n % shards { 1 } else { 0 };
            if cases > 0 {
                tasks.push((i, k, cases));
            }
        }
    }

    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<((usize, usize), ShardOut, f64)>> = Mutex::new(vec![]);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);

    std::thread::scope(|scope| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, || loop {
                    let t = next.fetch_add(1, Ordering::SeqCst);
                    let Some(&(i, k, cases)) = tasks.get(t) else { break };
                    let s = &p.subs[i];
                    let sd = stable_hash(&format!("{}|{}|{}|{}|{}", p.id, s.name, tier, k, seed));
                    let t1 = Instant::now();
                    let out = (s.exec)(sd, cases, &known);
                    results.lock().unwrap().push(((i, k), out, t1.elapsed().as_secs_f64()));
                })
                .expect("spawn");
        }
    });

    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|(k, _, _)| *k);

    let mut evaluations = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: BTreeMap<String, (Fail, Value, usize, usize)> = BTreeMap::new();
    let mut errors = vec![];
    let mut per_sub: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();

    for ((i, k), out, secs) in results {
        let e = per_sub.entry(p.subs[i].name.clone()).or_insert((0, 0, 0.0));
        e.0 += out.evaluations;
        e.1 += out.hashes.len() as u64;
        e.2 += secs;
        evaluations += out.evaluations;
        hashes.extend(out.hashes);
        for (c, n) in out.classes {
            *classes.entry(c).or_insert(0) += n;
        }
        for (c, n) in out.known_hits {
            *known_hits.entry(c).or_insert(0) += n;
        }
        if k == 0 {
            samples.extend(out.samples);
        }
        if let Some(e) = out.error {
            errors.push(e);
        }
        if let Some((f, v, steps)) = out.violation {
            violations.entry(f.sig.clone()).or_insert((f, v, steps, i));
        }
    }

    // Keep the evidence file readable: samples spread over the sub-checks.
    if samples.len() > 40 {
        let step = samples.len() as f64 / 40.0;
        samples = (0..40).map(|j| samples[(j as f64 * step) as usize].clone()).collect();
    }

    let wall = t0.elapsed().as_secs_f64();
    let evidence = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": classes,
            "per_check": per_sub.iter().map(|(n, (e, h, s))| (n.clone(), json!({"evaluations": e, "nontrivial": h, "cpu_s": (s * 100.0).round() / 100.0}))).collect::<serde_json::Map<_, _>>(),
            "excluded_as_known_finding": known_hits,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let edir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let write = std::fs::File::create(edir.join(format!("{}.json", p.id)))
        .and_then(|mut f| f.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes()));
    if let Err(e) = write {
        errors.push(format!("evidence: {}", e));
    }

    for k in all_known.iter().filter(|k| k.property == p.id) {
        if known_hits.contains_key(&k.sig) {
            say!("KNOWN-FINDING: property={} {} [{}]", p.id, k.what, k.sig);
        }
    }

    say!(
        "property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall_s={:.1}",
        p.id, tier, seed, evaluations, hashes.len(), wall
    );

    if !violations.is_empty() {
        for (sig, (f, v, steps, i)) in violations.iter() {
            report(p.id, &p.subs[*i].name, sig, &f.msg, v, *steps);
        }
        std::process::exit(1)
    }
    for e in errors.iter() {
        eprintln!("error: {}", e);
    }
    std::process::exit(if errors.is_empty() { 0 } else { 2 })
}

// ------------------------------------------------------------------------------------------
// Generators of general use
// ------------------------------------------------------------------------------------------
pub mod gen {
    use proptest::{prelude::*, strategy::Union};

    /// Log-uniform over [lo, hi].
    pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
        let (a, b) = (lo.ln(), hi.ln());
        (0.0..=1.0f64).prop_map(move |u| (a + u * (b - a)).exp().clamp(lo, hi)).boxed()
    }

    /// A length: log-uniform, or within two of a power of two or ten.
    pub fn sizes(lo: usize, hi: usize) -> BoxedStrategy<usize> {
        let marks: Vec<usize> = (0..40).map(|k| 1usize << k).chain((1..12).map(|k| 10usize.pow(k))).filter(|x| *x + 2 >= lo && *x <= hi).collect();
        let free = logu(lo as f64, hi as f64).prop_map(|x| x as usize);
        if marks.is_empty() {
            return free.boxed();
        }
        let near = (proptest::sample::select(marks), 0usize..5).prop_map(move |(m, d)| (m + d).saturating_sub(2).clamp(lo, hi));
        Union::new_weighted(vec![(2, free.boxed()), (1, near.boxed())]).boxed()
    }

    /// A mixture of fixed values (one third of the weight) and a continuous range.
    pub fn mixed(specials: &[f64], s: BoxedStrategy<f64>) -> BoxedStrategy<f64> {
        let sp: Vec<f64> = specials.to_vec();
        Union::new_weighted(vec![(1, proptest::sample::select(sp).boxed()), (2, s)]).boxed()
    }

    pub fn probs() -> BoxedStrategy<f64> {
        Union::new_weighted(vec![
            (3, (0.0..=1.0f64).boxed()),
            (1, logu(1e-12, 0.5)),
            (1, logu(1e-12, 0.5).prop_map(|x| 1.0 - x).boxed()),
            (2, proptest::sample::select(vec![0.0, 0.25, 0.5, 0.75, 1.0, 0.1, 1e-300, f64::EPSILON, 1.0 - f64::EPSILON / 2.0]).boxed()),
        ])
        .boxed()
    }

    /// Any double, with the awkward ones common.
    pub fn any_f64() -> BoxedStrategy<f64> {
        Union::new_weighted(vec![
            (3, any::<f64>().boxed()),
            (2, (-10.0..10.0f64).boxed()),
            (2, (-4i32..=4).prop_map(|i| i as f64).boxed()),
            (3, proptest::sample::select(vec![
                0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE,
                -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1.0 + f64::EPSILON,
                1.0 - f64::EPSILON / 2.0, -1.0 - f64::EPSILON,
            ]).boxed()),
        ])
        .boxed()
    }

    pub fn any_i64() -> BoxedStrategy<i64> {
        Union::new_weighted(vec![
            (2, any::<i64>().boxed()),
            (3, (-4i64..=4).boxed()),
            (1, proptest::sample::select(vec![i64::MIN, i64::MAX, 0, 1, -1]).boxed()),
        ])
        .boxed()
    }
}
