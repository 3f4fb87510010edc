//! Calls made in a fresh process, from several threads that take turns: the `uvh-sched` program
//! decides where one stops and which goes on, inside the code under test. It provides the hooks;
//! without them, the search is left to it.
use crate::engine::{rng_for, verif, Failure, Fuzzed, Outcome, Session, Tags};
use crate::gen;
use crate::model::{self, build, Q};
use crate::props::builder::{call, mutate, Call};
use crate::props::query::show;
use crate::props::sets::{probe, Ranked};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::Cell;
use std::collections::HashSet;
use std::marker::PhantomData;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use unicode_intervals::{Error, Interval, IntervalQuery, IntervalSet};

pub type Task<'a> = Box<dyn Fn() -> Outcome + Send + Sync + 'a>;
pub struct Hooks {
    /// Runs its argument in a process of its own, in which nothing has been called yet.
    pub fresh: fn(&dyn Fn() -> Outcome) -> Outcome,
    /// Runs each task in a thread of its own, taking turns as the seed says.
    pub take_turns: fn(u64, &[Task<'_>]) -> Outcome,
}
pub static HOOKS: OnceLock<Hooks> = OnceLock::new();

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
/// Whether this thread is in the code under test.
#[inline]
pub fn is_inside() -> bool {
    INSIDE.with(Cell::get)
}
struct Out;
impl Drop for Out {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(false));
    }
}
fn inside<T>(f: impl FnOnce() -> T) -> T {
    INSIDE.with(|i| i.set(true));
    let _out = Out;
    f()
}

/// Whether a type is `Sync`; what is not is not shared.
struct Can<T>(PhantomData<T>);
#[allow(dead_code)]
trait Cannot {
    const SHARE: bool = false;
}
impl<T> Cannot for Can<T> {}
#[allow(dead_code)]
impl<T: Sync> Can<T> {
    const SHARE: bool = true;
}
struct Shared<T>(T);
// Only used from several threads where `SHARE` says that `T` is `Sync`.
unsafe impl<T> Sync for Shared<T> {}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
pub struct Interleaved {
    pub pool: Vec<Call>,
    /// For each thread, the calls it makes.
    pub threads: Vec<Vec<u8>>,
    /// Builders and interval sets are made once, for all threads.
    pub shared: bool,
    pub seed: u32,
}

enum Want {
    Query(Result<Vec<Interval>, Error>),
    Set(Result<Ranked, Error>),
    Other,
}

type Sets<'a> = Vec<(IntervalSet, &'a Ranked, &'a Q)>;

fn sets<'a>(pool: &'a [Call], wants: &'a [Want]) -> Result<Sets<'a>, String> {
    let mut out = Vec::new();
    for (c, w) in pool.iter().zip(wants) {
        let (Call::Keep(q), Want::Set(want)) = (c, w) else { continue };
        let got = inside(|| build(q).interval_set());
        match (got, want) {
            (Ok(s), Ok(r)) => out.push((s, r, q)),
            (Err(e), Err(w)) if e == *w => {}
            (g, w) => return Err(format!("{}: interval_set() = {g:?}, expected {:?}", show(q), w.as_ref().map(|r| &r.items))),
        }
    }
    Ok(out)
}

fn run_thread(
    pool: &[Call],
    wants: &[Want],
    picks: &[u8],
    sets: &[(IntervalSet, &Ranked, &Q)],
    builders: &[Option<IntervalQuery<'_>>],
) -> Outcome {
    let mut iters: Vec<_> = sets.iter().map(|(s, r, _)| (s.iter(), 0u64, r.total)).collect();
    for (k, pick) in picks.iter().enumerate() {
        let n = *pick as usize % pool.len();
        let at = |m: String| format!("call {k} of a thread: {m}");
        match &pool[n] {
            Call::Query(q) => {
                let got = inside(|| match builders.get(n) {
                    Some(Some(b)) => b.intervals(),
                    _ => build(q).intervals(),
                });
                let Want::Query(want) = &wants[n] else { continue };
                if got != *want {
                    return Err(at(match (&got, want) {
                        (Ok(g), Ok(w)) => format!("{}: {}", show(q), model::describe_diff(g, w)),
                        (g, w) => format!("{}: got {g:?}, expected {w:?}", show(q)),
                    }));
                }
            }
            Call::Keep(q) => {
                let Want::Set(want) = &wants[n] else { continue };
                let got = inside(|| build(q).interval_set());
                let got = got.map(|s| s.len() as u64);
                let want = want.as_ref().map(|r| r.total);
                let got = got.as_ref().map(|n| *n);
                if got != want {
                    return Err(at(format!("{}: interval_set() has {got:?} members, expected {want:?}", show(q))));
                }
            }
            Call::Probe(i, c) => {
                let Some((s, r, q)) = sets.get(*i as usize % sets.len().max(1)) else { continue };
                // Something near the members, too.
                let k = (u64::from(*c) % (r.total + 2)) as u32;
                let member = r.select(u64::from(k)).unwrap_or(*c);
                for c in [*c, member] {
                    inside(|| probe(s, r, c)).map_err(|m| at(format!("{}: {m}", show(q))))?;
                }
                for k in [*c, k] {
                    let (got, want) = (inside(|| uvh_calls::codepoint_at(s, k)), r.select(u64::from(k)));
                    if got != want {
                        return Err(at(format!("{}: codepoint_at({k}) = {got:?}, expected {want:?}", show(q))));
                    }
                }
            }
            Call::Step(i, back, steps) => {
                let i = *i as usize % iters.len().max(1);
                let Some((it, lo, hi)) = iters.get_mut(i) else { continue };
                let (_, r, q) = &sets[i];
                for _ in 0..*steps {
                    let (got, want) = if *back {
                        let want = (*lo < *hi).then(|| r.select(*hi - 1)).flatten();
                        *hi = hi.saturating_sub(1).max(*lo);
                        (inside(|| uvh_calls::next_back(it)), want)
                    } else {
                        let want = (*lo < *hi).then(|| r.select(*lo)).flatten();
                        *lo = (*lo + 1).min(*hi);
                        (inside(|| uvh_calls::next(it)), want)
                    };
                    if got != want {
                        return Err(at(format!("{}: the iterator gives {got:?}, expected {want:?}", show(q))));
                    }
                }
            }
            other => inside(|| crate::props::builder::stateless(other)).map_err(at)?,
        }
    }
    Ok(())
}

/// How often the threads of one case are run in one process.
const ROUNDS: u64 = 4;

fn interleaved(c: &Interleaved, schedules: u64) -> Outcome {
    let Some(hooks) = HOOKS.get() else { return Err("this case is for uvh-sched".into()) };
    if c.pool.is_empty() || c.threads.is_empty() {
        return Ok(());
    }
    let wants: Vec<Want> = c
        .pool
        .iter()
        .map(|call| match call {
            Call::Query(q) => Want::Query(model::query(q)),
            Call::Keep(q) => Want::Set(model::query(q).map(Ranked::new)),
            _ => Want::Other,
        })
        .collect();
    for k in 0..schedules {
        (hooks.fresh)(&|| {
            let all = Shared(if c.shared && Can::<IntervalSet>::SHARE { sets(&c.pool, &wants)? } else { Vec::new() });
            let builders = Shared(if c.shared && Can::<IntervalQuery<'_>>::SHARE {
                c.pool.iter().map(|call| if let Call::Query(q) = call { Some(build(q)) } else { None }).collect()
            } else {
                Vec::new()
            });
            let (all, builders, wants) = (&all, &builders, &wants);
            let tasks: Vec<Task<'_>> = c
                .threads
                .iter()
                .map(|picks| -> Task<'_> {
                    Box::new(move || {
                        if c.shared && Can::<IntervalSet>::SHARE {
                            let (all, builders) = (all, builders);
                            return run_thread(&c.pool, wants, picks, &all.0, &builders.0);
                        }
                        let own = sets(&c.pool, wants)?;
                        let builders = builders;
                        run_thread(&c.pool, wants, picks, &own, &builders.0)
                    })
                })
                .collect();
            // Fresh, and then with what the first calls left behind.
            for round in 0..ROUNDS {
                (hooks.take_turns)((u64::from(c.seed) << 16) + k * ROUNDS + round, &tasks)
                    .map_err(|m| format!("round {round}: {m}"))?;
            }
            Ok(())
        })
        .map_err(|m| format!("schedule {k}: {m}"))?;
    }
    Ok(())
}

fn cases() -> impl Strategy<Value = Interleaved> {
    let query = prop_oneof![2 => gen::query(), 2 => gen::plain_query(), 3 => gen::low_query()];
    let kin = (query, vec((0u8..13, any::<u32>(), gen::query()), 0..4), any::<bool>()).prop_map(|(base, steps, keep)| {
        let mut qs = vec![base];
        for (kind, a, other) in steps {
            let q = mutate(&qs[a as usize % qs.len()], kind, a, &other);
            qs.push(q);
        }
        qs.into_iter().map(|q| if keep { Call::Keep(q) } else { Call::Query(q) }).collect::<Vec<_>>()
    });
    let calls = prop_oneof![
        3 => (kin.clone(), vec(call(), 0..3)).prop_map(|(mut a, b)| { a.extend(b); a }),
        2 => vec(call(), 1..7),
        // More than a small memory holds.
        2 => vec(prop_oneof![gen::plain_query(), gen::low_query()], 4..12)
            .prop_map(|qs| qs.into_iter().map(Call::Query).collect()),
        2 => (kin, vec((any::<u8>(), gen::any_u32(), any::<bool>(), 1u8..6), 1..7)).prop_map(|(a, b)| {
            let mut calls: Vec<Call> = a.into_iter().take(2).map(|c| match c { Call::Query(q) => Call::Keep(q), c => c }).collect();
            calls.extend(b.into_iter().map(|(i, c, back, n)| if n < 4 { Call::Probe(i, c) } else { Call::Step(i, back, n) }));
            calls
        }),
    ];
    let threads = prop_oneof![
        1 => vec(vec(any::<u8>(), 1..12), 1..2),
        4 => vec(vec(any::<u8>(), 1..6), 2..3),
        2 => vec(vec(any::<u8>(), 1..5), 3..5),
        2 => vec(vec(any::<u8>(), 6..24), 2..3),
        // The same calls in all of them.
        3 => (vec(any::<u8>(), 1..5), 2usize..5).prop_map(|(picks, n)| vec![picks; n]),
    ];
    (calls, threads, any::<bool>(), any::<u32>())
        .prop_map(|(pool, threads, shared, seed)| Interleaved { pool, threads, shared, seed })
}

fn tags(c: &Interleaved) -> Tags {
    Tags::new(c.threads.len() > 1).tag(c.shared, "shared sets").tag(c.threads.len() > 2, "three threads or more")
}

pub const NAME: &str = "interleavings";

/// Part of C06: registers the search, or hands a saved case over.
pub fn campaign(s: &mut Session) {
    let schedules = if s.replaying() { 60 } else { 3 };
    if HOOKS.get().is_some() {
        s.campaign(NAME, 10_000, cases, tags, |c: &Interleaved| interleaved(c, schedules));
    } else {
        s.elsewhere(NAME, || {
            let Some(bin) = std::env::var_os("UVH_SCHED") else { return Err("uvh-sched is not there".into()) };
            let file = std::env::args().nth(2).unwrap_or_default();
            let out = Command::new(bin).arg("replay").arg(file).output().map_err(|e| e.to_string())?;
            match out.status.code() {
                Some(0) => Ok(()),
                _ => Err(String::from_utf8_lossy(&out.stdout).trim().to_string()),
            }
        });
    }
}

/// Several processes with seeds of their own, for about `seconds`.
pub fn stage(s: &mut Session, seconds: u64) {
    const PROCESSES: usize = 8;
    let Some(bin) = std::env::var_os("UVH_SCHED").map(PathBuf::from) else { return };
    if !s.failures.is_empty() || seconds == 0 || std::env::var_os("UVH_TRACE").is_some() {
        return;
    }
    let dir = verif().join("build/scratch").join(format!("sched-{}-{}", s.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let running: Vec<_> = (0..PROCESSES)
        .map(|i| {
            let out = dir.join(format!("{i}.json"));
            let seed = rng_for(s.seed, s.id, NAME, 2000 + i).next_u32();
            let mut c = Command::new(&bin);
            c.args(["run", NAME]).arg(&out).args([seed.to_string(), seconds.to_string(), i.to_string()]);
            crate::watch::limit_memory(&mut c, 3);
            (out, c.stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("uvh-sched"))
        })
        .collect();
    let (mut evaluations, mut seen) = (0, HashSet::new());
    let mut best: Option<(usize, Failure)> = None;
    for (i, (out, mut child)) in running.into_iter().enumerate() {
        let status = child.wait().expect("uvh-sched");
        if !matches!(status.code(), Some(0 | 10)) {
            eprintln!("uvh-sched ended with {status}");
        }
        let Some(did) = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Fuzzed>(&b).ok()) else { continue };
        evaluations += did.evaluations;
        seen.extend(did.nontrivial);
        if let (true, Some(sample)) = (i < 2, did.sample) {
            s.stats.samples.insert(0, json!({"test": NAME, "case": sample}));
        }
        if let Some((case, message, first)) = did.failure {
            let size = case.to_string().len();
            if best.as_ref().is_none_or(|b| size < b.0) {
                best = Some((size, Failure { test: NAME.into(), case, message, first: Some(first) }));
            }
        }
    }
    s.failures.extend(best.map(|b| b.1));
    s.stats.evaluations += evaluations;
    s.stats.nontrivial += seen.len() as u64;
    s.stats.campaigns.push(json!({
        "test": NAME, "kind": "schedules", "evaluations": evaluations, "distinct_nontrivial": seen.len(),
        "schedules_each": 3 * ROUNDS, "wall_s": seconds,
    }));
    let _ = std::fs::remove_dir_all(&dir);
}
