//! Evaluation has no memory (C30): what a distribution answers does not depend on what was
//! asked before, of it or of another, nor on what other threads ask. Histories run in a process of
//! their own, and are compared, bit for bit, with the same questions in a fresh process.
use crate::{
    api::{taped, Api, Got, Path},
    mv::{self, MvApi},
    specs::{self, Spec},
    uv::{arg, pbt_catch},
};
use pbt::{
    proptest::{self, prelude::*, strategy::Union},
    sub, Obs, Prop, Rep, Sub,
};
use pbt::serde_json::{self, json, Value};
use std::{
    collections::BTreeSet,
    io::{Read, Write},
    process::{Command, Stdio},
    sync::{mpsc, OnceLock},
    time::{Duration, Instant},
};

// ------------------------------------------------------------------------------------------
// Processes of their own
// ------------------------------------------------------------------------------------------
/// What became of a question put to a process of its own.
#[derive(Debug)]
enum Told {
    Answers(Vec<String>),
    Died(String),
    Late,
}

const PATIENCE: Duration = Duration::from_secs(30);

/// Asked once more, with more time, before it counts as late.
fn ask(question: &Value) -> Told {
    match ask_within(question, PATIENCE) {
        Told::Late => ask_within(question, 3 * PATIENCE),
        told => told,
    }
}

fn ask_within(question: &Value, patience: Duration) -> Told {
    let child = Command::new("/proc/self/exe").arg("pure").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => panic!("the harness cannot start a process: {}", e),
    };
    let (tx, rx) = mpsc::channel();
    let mut out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    {
        let mut inp = child.stdin.take().unwrap();
        let _ = inp.write_all(question.to_string().as_bytes());
    }
    let text = rx.recv_timeout(patience);
    if text.is_err() {
        let _ = child.kill();
    }
    let st = child.wait();
    let _ = reader.join();
    match text {
        Err(_) => Told::Late,
        Ok(s) => match serde_json::from_str::<Vec<String>>(&s) {
            Ok(v) => Told::Answers(v),
            Err(_) => Told::Died(format!("{:?}", st)),
        },
    }
}

/// Answers one question from standard input.
pub fn child() -> ! {
    pbt::keep_stdout();
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    let v: Value = serde_json::from_str(&s).expect("question");
    let answers = match v["kind"].as_str() {
        Some("history") => history(&v),
        Some("threads") => threads(&v),
        Some("hammer") => hammer(&v),
        Some("once") => once(&v),
        Some("battery") => battery(&v),
        _ => vec![],
    };
    pbt::say(serde_json::to_string(&answers).unwrap());
    std::process::exit(0)
}

// ------------------------------------------------------------------------------------------
// Histories of questions to several distributions
// ------------------------------------------------------------------------------------------
fn table() -> &'static Vec<Spec> {
    static T: OnceLock<Vec<Spec>> = OnceLock::new();
    T.get_or_init(|| specs::all().into_iter().chain(specs::scaled()).collect())
}

/// Subject, question, argument, and whether the object is kept between questions.
type Op = (usize, u8, f64, bool);
/// Name and parameters.
type Subject = (String, Vec<f64>);

const ASKS: u8 = 18;

fn put(d: &dyn Api, what: u8, x: f64) -> String {
    let p = (x.abs().ln_1p() * 7.31).fract();
    let seed = x.to_bits() >> 40;
    match what {
        0 => format!("{:?}", d.cdf(x)),
        1 => format!("{:?}", d.ccdf(x)),
        2 => format!("{:?}", d.ln_cdf(x)),
        3 => format!("{:?}", d.ln_ccdf(x)),
        4 | 5 => format!("{:?}", d.dens(x)),
        6 => format!("{:?}", d.ln_dens(x)),
        7 => format!("{:?} {:?} {:?}", d.contains(x), d.into_contains(x), d.ends()),
        8 => format!("{:?} {:?}", d.mean(), d.skewness()),
        9 => format!("{:?} {:?}", d.variance(), d.sd()),
        10 => format!("{:?} {:?}", d.kurtosis(), d.excess()),
        11 => format!("{:?} {:?}", d.quantile(p), d.cquantile(p)),
        12 => format!("{:?}", d.quartiles()),
        13 => format!("{:?} {:?}", d.modes(), d.entropy()),
        14 => format!("{:?} {:?}", d.params(), d.into_params()),
        15 => format!("{:?}", d.draw(seed, 1 + (seed % 3) as usize, Path::Single)),
        16 => format!("{:?}", d.draw(seed, [1, 2, 5, 40][seed as usize % 4], Path::Bulk)),
        _ => match d.rebuild() {
            Got::Val(e) => format!("{:?} {:?} {:?}", e.dens(x), e.mean(), e.draw(seed, 1, Path::Iter)),
            other => format!("{:?}", other),
        },
    }
}

/// A distribution of either sort.
enum Made {
    Uv(Box<dyn Api>),
    Mv(Box<dyn MvApi>),
}

fn put_to(d: &Made, what: u8, x: f64) -> String {
    match d {
        Made::Uv(d) => put(&**d, what, x),
        Made::Mv(d) => put_mv(&**d, what, x),
    }
}

/// On the simplex for the laws without a covariance, else in the unit of the parameters.
fn mv_point(d: &dyn MvApi, n: usize, t: f64) -> Vec<f64> {
    let p = d.params();
    if p.len() == n {
        let w: Vec<f64> = (0..n).map(|i| 0.1 + ((i + 1) as f64 * t).sin().abs()).collect();
        let s: f64 = w.iter().sum();
        w.into_iter().map(|v| v / s).collect()
    } else {
        (0..n).map(|i| p[i] + p[p.len() - 1].abs().sqrt() * ((i + 1) as f64 * t).sin() * 2.0).collect()
    }
}

fn put_mv(d: &dyn MvApi, what: u8, t: f64) -> String {
    let n = d.dim();
    let x = mv_point(d, n, t);
    let seed = t.to_bits() >> 40;
    match what {
        0..=4 => format!("{:?} {:?}", x, d.dens(&x)),
        5 | 6 => format!("{:?} {:?}", x, d.ln_dens(&x)),
        7 => format!("{:?}", d.contains(&x)),
        8 => format!("{:?}", d.mean()),
        9 => format!("{:?}", d.variance()),
        10 => format!("{:?}", d.covariance()),
        11 => format!("{:?}", d.correlation()),
        12 => format!("{:?} {:?} {:?}", d.d2(&x), d.d(&x), d.q(&x)),
        13 => format!("{:?} {:?}", d.modes(), d.entropy()),
        14 => format!("{:?} {:?}", d.params(), d.into_params()),
        15 => format!("{:?}", d.draw(seed, 1 + (seed % 3) as usize, Path::Single)),
        16 => format!("{:?}", d.draw(seed, 40, Path::Bulk)),
        _ => match d.rebuild() {
            Got::Val(e) => format!("{:?} {:?} {:?}", e.dens(&x), e.mean(), e.draw(seed, 1, Path::Iter)),
            other => format!("{:?}", other),
        },
    }
}

fn make(s: &Subject) -> Option<Made> {
    if let Some(name) = s.0.strip_prefix("mv ") {
        let (kind, member) = name.split_once(": ")?;
        return mv::by_kind(kind, &s.1).into_iter().find(|m| m.0 == member)?.1.ok().map(Made::Mv);
    }
    let spec = table().iter().find(|t| t.label() == s.0)?;
    match pbt_catch(|| (spec.mk)(&s.1)) {
        Ok(Ok(d)) => Some(Made::Uv(d)),
        _ => None,
    }
}

fn asked(v: &Value) -> (Vec<Subject>, Vec<Op>) {
    (Rep::dec(&v["subjects"]).expect("subjects"), Rep::dec(&v["ops"]).expect("ops"))
}

fn history(v: &Value) -> Vec<String> {
    let (subjects, ops) = asked(v);
    let kept: Vec<Option<Made>> = subjects.iter().map(make).collect();
    ops.iter()
        .map(|(i, what, x, keep)| {
            let fresh;
            let d = if *keep { &kept[*i] } else { fresh = make(&subjects[*i]); &fresh };
            match d {
                None => "refused".to_string(),
                Some(d) => put_to(d, *what, *x),
            }
        })
        .collect()
}

/// Four threads put all the questions to the same objects, again and again, each starting at
/// a question of its own. All the different answers to a question, in order.
fn threads(v: &Value) -> Vec<String> {
    const THREADS: usize = 4;
    const ROUNDS: usize = 25;
    let (subjects, ops) = asked(v);
    let kept: Vec<Option<Made>> = subjects.iter().map(make).collect();
    let n = ops.len();
    let start = std::sync::Barrier::new(THREADS);
    let all: Vec<Vec<BTreeSet<String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let (ops, kept, start) = (&ops, &kept, &start);
                s.spawn(move || {
                    let mut got = vec![BTreeSet::new(); n];
                    start.wait();
                    let t0 = Instant::now();
                    for r in 0..ROUNDS * n {
                        let k = (r + t * n / THREADS) % n;
                        if r >= n && t0.elapsed() > Duration::from_secs(3) {
                            break;
                        }
                        let (i, what, x, _) = ops[k];
                        got[k].insert(match &kept[i] {
                            None => "refused".to_string(),
                            Some(d) => put_to(d, what, x),
                        });
                    }
                    got
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    (0..n)
        .map(|k| {
            let s: BTreeSet<&String> = all.iter().filter_map(|g| g.get(k)).flatten().collect();
            s.into_iter().cloned().collect::<Vec<_>>().join(" | ")
        })
        .collect()
}

/// A number that tells answers apart, at little cost.
fn brief(d: &Option<Made>, what: u8, x: f64) -> u64 {
    const START: u64 = 0xcbf29ce484222325;
    fn num(g: Got<f64>) -> u64 {
        match g {
            Got::Val(v) if v.is_nan() => 1,
            Got::Val(v) => v.to_bits(),
            Got::Panic(_) => 2,
            _ => 3,
        }
    }
    fn all(g: Got<Vec<f64>>) -> u64 {
        match g {
            Got::Val(v) => v.into_iter().fold(START, |h, x| (h ^ num(Got::Val(x))).wrapping_mul(0x100000001b3)),
            Got::Panic(_) => 2,
            _ => 3,
        }
    }
    match d {
        None => 0,
        Some(Made::Uv(d)) => {
            let p = (x.abs().ln_1p() * 7.31).fract();
            match what % BRIEF {
                0 => num(d.dens(x)),
                1 => num(d.cdf(x)),
                2 => num(d.ln_dens(x)),
                3 => num(d.ccdf(x)),
                4 => num(d.mean()) ^ num(d.variance()).rotate_left(13) ^ num(d.skewness()).rotate_left(26) ^ num(d.kurtosis()).rotate_left(39),
                5 => num(d.quantile(p)),
                6 => num(d.entropy()),
                _ => match d.draw(x.to_bits() >> 40, 3, Path::Single) {
                    Got::Val(v) => all(Got::Val(v.xs)),
                    Got::Panic(_) => 2,
                    _ => 3,
                },
            }
        },
        Some(Made::Mv(d)) => {
            let n = d.dim();
            let at = mv_point(&**d, n, x);
            match what % BRIEF {
                0 | 5 => num(d.dens(&at)),
                1 => num(d.d2(&at)) ^ num(d.q(&at)).rotate_left(13),
                2 => num(d.ln_dens(&at)),
                3 => all(d.mean()),
                4 => all(d.variance()),
                6 => num(d.entropy()),
                _ => match d.draw(x.to_bits() >> 40, 3, Path::Single) {
                    Got::Val(v) => all(Got::Val(v.xs.concat())),
                    Got::Panic(_) => 2,
                    _ => 3,
                },
            }
        },
    }
}

const BRIEF: u8 = 8;

/// The brief answers, one after the other.
fn once(v: &Value) -> Vec<String> {
    let (subjects, ops) = asked(v);
    ops.iter().map(|(i, what, x, _)| format!("{:x}", brief(&make(&subjects[*i]), *what, *x))).collect()
}

/// Eight threads put the questions as fast as they can, each sort of question for a while, so that
/// the steps of two evaluations mix.
fn hammer(v: &Value) -> Vec<String> {
    let (subjects, ops) = asked(v);
    let kept: Vec<Option<Made>> = subjects.iter().map(make).collect();
    let mut told = vec![String::new(); ops.len()];
    for what in 0..BRIEF {
        let mine: Vec<usize> = (0..ops.len()).filter(|k| ops[*k].1 % BRIEF == what).collect();
        if mine.is_empty() {
            continue;
        }
        let qs: Vec<Op> = mine.iter().map(|k| ops[*k]).collect();
        for (k, all) in mine.into_iter().zip(mingled(&subjects, &kept, &qs)) {
            told[k] = all.into_iter().map(|g| format!("{:x}", g)).collect::<Vec<_>>().join(" | ");
        }
    }
    told
}

fn mingled(subjects: &[Subject], kept: &[Option<Made>], ops: &[Op]) -> Vec<BTreeSet<u64>> {
    const THREADS: usize = 8;
    const ROUNDS: usize = 40_000;
    const TIME: Duration = Duration::from_millis(8);
    let n = ops.len();
    let start = std::sync::Barrier::new(THREADS);
    let all: Vec<Vec<Vec<u64>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let start = &start;
                s.spawn(move || {
                    let mut got = vec![vec![]; n];
                    start.wait();
                    let t0 = Instant::now();
                    for r in 0..ROUNDS {
                        let k = (r + t) % n;
                        let (i, what, x, keep) = ops[k];
                        let g = if keep { brief(&kept[i], what, x) } else { brief(&make(&subjects[i]), what, x) };
                        if !got[k].contains(&g) {
                            got[k].push(g);
                        }
                        if r % 16 == 0 && r > 4 * n && t0.elapsed() > TIME {
                            break;
                        }
                    }
                    got
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    (0..n).map(|k| all.iter().filter_map(|g| g.get(k)).flatten().copied().collect()).collect()
}

/// A few distributions of a family, and questions of two or three sorts for all.
fn hammer_case() -> BoxedStrategy<Case> {
    let asks = (2..BRIEF).prop_map(|other| vec![0, 1, other]);
    (Union::new_weighted(vec![(4, case()), (1, mv_case())]), asks, proptest::collection::vec((any::<u8>(), any::<u8>()), 1..4), 0u8..4)
        .prop_map(|((v, args, _), asks, more, keep)| {
            let mut ops = vec![];
            for what in asks {
                ops.extend((0..v.len() as u8).map(|i| (i, what, i, keep > 0)));
                ops.extend(more.iter().map(|(i, k)| (*i, what, *k, keep > 0)));
            }
            (v, args, ops)
        })
        .boxed()
}

/// Subjects, arguments, questions.
type Case = (Vec<Subject>, Vec<(u8, f64)>, Vec<(u8, u8, u8, bool)>);

fn case() -> BoxedStrategy<Case> {
    let n = table().len();
    let op = (any::<u8>(), 0..ASKS, any::<u8>(), any::<bool>());
    let arg = (0u8..10, -4.0..4.0f64);
    (0..n)
        .prop_flat_map(move |i| {
            let t = &table()[i];
            let sibling = ((t.gen)(), any::<u8>(), 0u8..7);
            let stranger = (0..n).prop_flat_map(|j| (Just(j), (table()[j].gen)()));
            (
                Just(i),
                (t.gen)(),
                proptest::collection::vec(sibling, 1..4),
                proptest::collection::vec(stranger, 0..2),
                proptest::collection::vec(arg.clone(), 1..4),
                Union::new_weighted(vec![(3, proptest::collection::vec(op.clone(), 3..24)), (1, proptest::collection::vec(op.clone(), 24..80))]),
            )
        })
        .prop_map(|(i, p, sibs, strangers, args, ops)| {
            let t = &table()[i];
            let mut v: Vec<Subject> = vec![(t.label(), p.clone())];
            for (q, pos, how) in sibs {
                let r = specs::sibling(t, &p, &q, pos as usize, how);
                v.push((t.label(), r));
            }
            for (j, q) in strangers {
                v.push((table()[j].label(), q));
            }
            (v, args, ops)
        })
        .boxed()
}

/// The same for multivariate laws.
fn mv_case() -> BoxedStrategy<Case> {
    let op = (any::<u8>(), 0..ASKS, any::<u8>(), any::<bool>());
    let arg = (0u8..10, -4.0..4.0f64);
    (
        mv::relatives(),
        any::<u8>(),
        proptest::collection::vec(arg, 1..4),
        Union::new_weighted(vec![(3, proptest::collection::vec(op.clone(), 3..24)), (1, proptest::collection::vec(op, 24..60))]),
    )
        .prop_map(|((kind, laws), m, args, ops)| {
            let names: Vec<&str> = mv::by_kind(&kind, &laws[0]).into_iter().map(|m| m.0).collect();
            // Most often the same member of the family.
            let v = laws.iter().enumerate().map(|(i, p)| (format!("mv {}: {}", kind, names[(m as usize + if m % 4 == 0 { i } else { 0 }) % names.len()]), p.clone())).collect();
            (v, args, ops)
        })
        .boxed()
}

fn questions(c: &Case) -> (Vec<Subject>, Vec<Op>) {
    let (subjects, args, ops) = c;
    let xs: Vec<f64> = match table().iter().find(|t| subjects.first().map(|s| &s.0) == Some(&t.label())) {
        Some(t) => {
            let l = (t.law)(&subjects[0].1);
            args.iter().map(|(k, x)| arg(&l, !t.suffix.is_empty(), *k, *x)).collect()
        },
        None => args.iter().map(|a| a.1).collect(),
    };
    let ops = if subjects.is_empty() || xs.is_empty() {
        vec![]
    } else {
        ops.iter().map(|(i, what, k, keep)| (*i as usize % subjects.len(), *what % ASKS, xs[*k as usize % xs.len()], *keep)).collect()
    };
    (subjects.clone(), ops)
}

/// What each question gets in a fresh process that is asked about one subject only, last question
/// first.
fn alone(subjects: &[Subject], ops: &[Op]) -> Option<Vec<String>> {
    let mut want = vec![String::new(); ops.len()];
    for i in 0..subjects.len() {
        let mine: Vec<usize> = (0..ops.len()).rev().filter(|k| ops[*k].0 == i).collect();
        if mine.is_empty() {
            continue;
        }
        let qs: Vec<Op> = mine.iter().map(|k| (0, ops[*k].1, ops[*k].2, false)).collect();
        match ask(&json!({"kind": "history", "subjects": vec![subjects[i].clone()].enc(), "ops": qs.enc()})) {
            Told::Answers(v) if v.len() == mine.len() => {
                for (k, a) in mine.into_iter().zip(v) {
                    want[k] = a;
                }
            },
            _ => return None,
        }
    }
    Some(want)
}

fn history_obs(kind: &'static str, c: &Case) -> Obs {
    let mut o = Obs::new();
    let (subjects, ops) = questions(c);
    if ops.is_empty() {
        return o;
    }
    o.note(format!("{:?}, {} questions", subjects, ops.len()));
    o.class(if ops.len() < 24 { "short" } else { "long" });
    let t0 = Instant::now();
    let want = if kind == "hammer" {
        match ask(&json!({"kind": "once", "subjects": subjects.enc(), "ops": ops.enc()})) {
            Told::Answers(v) => Some(v),
            _ => None,
        }
    } else {
        alone(&subjects, &ops)
    };
    let Some(want) = want else {
        o.class("no answer even alone");
        return o;
    };
    if t0.elapsed() > Duration::from_secs(5) {
        o.class("slow");
        return o;
    }
    o.nontrivial(ops.iter().map(|q| q.0).collect::<BTreeSet<_>>().len() > 1);
    match ask(&json!({"kind": kind, "subjects": subjects.enc(), "ops": ops.enc()})) {
        Told::Answers(got) => {
            for (k, (a, b)) in got.iter().zip(&want).enumerate() {
                o.check(a == b, "differs", || {
                    format!("question {} ({:?} of {:?}) is answered {} in this history, and {} apart from it", k, ops[k], subjects[ops[k].0], a, b)
                });
            }
            o.check(got.len() == want.len(), "lost", || format!("{} answers to {} questions", got.len(), want.len()));
        },
        Told::Died(st) => o.fail("dies", format!("{:?} {:?}: the process ends ({}) although each distribution alone answers", subjects, ops, st)),
        Told::Late => o.fail("late", format!("{:?} {:?}: no answer although each distribution alone answers at once", subjects, ops)),
    }
    o
}

// ------------------------------------------------------------------------------------------
// Sequences of cases of the other properties
// ------------------------------------------------------------------------------------------
type Registry = Vec<(String, Sub)>;

/// The sub-checks of each property: where they begin and end.
fn parts() -> &'static Vec<(u16, u16)> {
    static P: OnceLock<Vec<(u16, u16)>> = OnceLock::new();
    P.get_or_init(|| {
        let ids: Vec<&str> = registry().iter().map(|r| &r.0[..3]).collect();
        let firsts: Vec<usize> = (0..ids.len()).filter(|i| *i == 0 || ids[*i] != ids[*i - 1]).collect();
        firsts.iter().enumerate().map(|(k, i)| (*i as u16, *firsts.get(k + 1).unwrap_or(&ids.len()) as u16)).collect()
    })
}

fn registry() -> &'static Registry {
    static R: OnceLock<Registry> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = vec![];
        for p in crate::others() {
            // The costly ones; and C29 needs no distribution of the crate.
            if ["C13", "C14", "C15", "C17", "C18", "C29"].contains(&p.id) {
                continue;
            }
            for s in p.subs {
                if !s.name.contains("-law") && !s.name.contains("frequencies") {
                    v.push((format!("{}/{}", p.id, s.name), s));
                }
            }
        }
        v.sort_by(|a, b| a.0[..3].cmp(&b.0[..3]));
        v
    })
}

fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// One case with some of the values of another.
fn cross(a: &Value, b: &Value, mask: u64, at: &mut u64) -> Value {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => Value::Array(x.iter().zip(y).map(|(x, y)| cross(x, y, mask, at)).collect()),
        (Value::String(_), Value::String(_)) => {
            *at += 1;
            if mix64(mask.wrapping_add(at.wrapping_mul(0x9E3779B97F4A7C15))) % 4 == 0 { b.clone() } else { a.clone() }
        },
        _ => a.clone(),
    }
}

/// Name of a sub-check, and the case.
type Item = (String, String);

fn battery(v: &Value) -> Vec<String> {
    let items: Vec<Item> = Rep::dec(&v["items"]).expect("items");
    let reg = registry();
    items
        .iter()
        .map(|(name, case)| {
            let Some((_, s)) = reg.iter().find(|r| r.0 == *name) else { return "unknown".to_string() };
            let case: Value = serde_json::from_str(case).expect("case");
            let (o, tape) = taped(|| (s.replay)(&case));
            let said: Vec<String> = o.into_iter().flat_map(|o| o.fails).map(|f| format!("{}: {}", f.sig, f.msg)).collect();
            // The whole tape could be long.
            let head: Vec<&String> = tape.iter().take(6).collect();
            let h = tape.iter().flat_map(|s| s.bytes().chain(Some(0))).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            format!("{} answers, {:016x}, starting {:?}; {:?}", tape.len(), h, head, said)
        })
        .collect()
}

type Seeds = Vec<(u16, u64, u64, u64)>;

fn seeds() -> BoxedStrategy<Seeds> {
    let n = registry().len() as u16;
    (0..parts().len())
        .prop_flat_map(|k| parts()[k].0..parts()[k].1)
        .prop_flat_map(|i| (Just(i), any::<u64>()))
        .prop_flat_map(move |(i, seed)| {
            let same = (any::<u64>(), any::<u64>()).prop_map(move |(b, m)| (i, seed, b, m | 1)).boxed();
            let again = Just((i, seed, seed, 0)).boxed();
            let other = (0..n, any::<u64>()).prop_map(|(j, s)| (j, s, s, 0)).boxed();
            proptest::collection::vec(Union::new_weighted(vec![(4, same), (2, again), (1, other)]), 2..6)
        })
        .boxed()
}

fn battery_obs(c: &Seeds) -> Obs {
    let mut o = Obs::new();
    let reg = registry();
    let items: Vec<Item> = c
        .iter()
        .filter_map(|(i, s1, s2, mask)| {
            let (name, s) = &reg[*i as usize % reg.len()];
            let a = (s.pick)(*s1)?;
            let v = if *mask == 0 { a } else { cross(&a, &(s.pick)(*s2)?, *mask, &mut 0) };
            Some((name.clone(), v.to_string()))
        })
        .collect();
    if items.is_empty() {
        return o;
    }
    o.note(format!("{:?}", items.iter().map(|i| &i.0).collect::<Vec<_>>()));
    o.class(items[0].0.split('/').next().unwrap_or("").to_string());
    let t0 = Instant::now();
    let mut want: Vec<String> = vec![];
    for (k, it) in items.iter().enumerate() {
        // The same question once more gets the same answer.
        if let Some(j) = items[..k].iter().position(|e| e == it) {
            let w = want[j].clone();
            want.push(w);
            continue;
        }
        match ask(&json!({"kind": "battery", "items": vec![it.clone()].enc()})) {
            Told::Answers(mut v) if v.len() == 1 => want.append(&mut v),
            _ => {
                o.class("no answer even alone");
                return o;
            },
        }
    }
    if t0.elapsed() > Duration::from_secs(5) {
        o.class("slow");
        return o;
    }
    o.nontrivial(items.iter().collect::<BTreeSet<_>>().len() > 1);
    match ask(&json!({"kind": "battery", "items": items.enc()})) {
        Told::Answers(got) => {
            for (k, (a, b)) in got.iter().zip(&want).enumerate() {
                o.check(a == b, "differs", || format!("case {} of the sequence ({:?}) gives {} after the others, and {} alone", k, items[k], a, b));
            }
            o.check(got.len() == want.len(), "lost", || format!("{} answers to {} cases", got.len(), want.len()));
        },
        Told::Died(st) => o.fail("dies", format!("{:?}: the process ends ({}) although each case alone is answered", items, st)),
        Told::Late => o.fail("late", format!("{:?}: no answer although each case alone is answered at once", items)),
    }
    o
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "questions to more than one distribution in one history",
        assumptions: vec![
            "the order of questions, the distributions asked before and up to eight threads; not signals or forks",
            "answers as the public methods give them (bit for bit, up to the sign of NaN)",
        ],
        subs: vec![
            sub("history", 300, 3_000, case, |c| history_obs("history", c)),
            sub("mv-history", 150, 1_500, mv_case, |c| history_obs("history", c)),
            sub("mv-threads", 20, 200, mv_case, |c| history_obs("threads", c)),
            sub("threads", 60, 600, case, |c| history_obs("threads", c)),
            sub("hammer", 100, 1_000, hammer_case, |c| history_obs("hammer", c)),
            sub("battery", 150, 1_500, seeds, battery_obs),
        ],
    }]
}
