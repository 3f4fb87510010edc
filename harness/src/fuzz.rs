//! Coverage-guided search: each campaign again, with libFuzzer making its random choices. The
//! fuzzing processes run the `uvh-fuzz` program, in which the code under test is instrumented.
use crate::engine::{rng_for, verif, Failure, Fuzzed, Session};
use crate::watch::limit_memory;
use proptest::prelude::Rng as _;
use serde_json::{json, Value};
use std::collections::{HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Instant;

const WORKERS: usize = 8;
/// Longest one case may take, shrinking it included, in seconds.
const LIMIT: u32 = 75;

struct Job {
    name: String,
    number: usize,
    seconds: u64,
}
struct Result_ {
    name: String,
    number: usize,
    seconds: f64,
    did: Option<Fuzzed>,
    /// How it ended, and the input it was working on, when it did not end by itself.
    died: Option<(String, Option<PathBuf>)>,
}

fn corpus(dir: &Path, s: &Session, job: &Job) {
    std::fs::create_dir_all(dir).expect("corpus directory");
    let mut rng = rng_for(s.seed, s.id, &format!("fuzz {}", job.name), job.number);
    for (i, size) in [16usize, 64, 200, 700].into_iter().cycle().take(40).enumerate() {
        let mut bytes = vec![0u8; size];
        rng.fill_bytes(&mut bytes);
        std::fs::write(dir.join(format!("{i:02}")), bytes).expect("corpus file");
    }
}

fn run(bin: &Path, dir: &Path, s: &Session, job: &Job) -> Result_ {
    let home = dir.join(job.number.to_string());
    let inputs = home.join("corpus");
    corpus(&inputs, s, job);
    let out = home.join("out.json");
    let seed = rng_for(s.seed, s.id, &job.name, 1000 + job.number).next_u32() >> 1 | 1;
    let log = std::fs::File::create(home.join("log")).expect("log file");
    let started = Instant::now();
    let mut fuzzer = Command::new(bin);
    limit_memory(&mut fuzzer, 3);
    let status = fuzzer
        .args(["run", s.id, &job.name])
        .arg(&out)
        .args([
            format!("-seed={seed}"),
            format!("-max_total_time={}", job.seconds),
            format!("-timeout={LIMIT}"),
            format!("-artifact_prefix={}/", home.display()),
            format!("-use_value_profile={}", job.number % 2),
            "-max_len=4096".into(),
            "-len_control=0".into(),
            "-rss_limit_mb=0".into(),
            "-reload=0".into(),
            "-verbosity=0".into(),
        ])
        .arg(&inputs)
        .stdin(Stdio::null())
        .stdout(log.try_clone().expect("log file"))
        .stderr(log)
        .status()
        .expect("fuzzer");
    let did = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let died = (!matches!(status.code(), Some(0 | 10))).then(|| {
        let mut left: Vec<PathBuf> = std::fs::read_dir(&home).expect("directory").flatten().map(|e| e.path()).collect();
        left.sort();
        let input = left.into_iter().find(|p| {
            let name = p.file_name().unwrap_or_default().to_string_lossy().into_owned();
            name.starts_with("crash-") || name.starts_with("timeout-")
        });
        (status.to_string(), input)
    });
    Result_ { name: job.name.clone(), number: job.number, seconds: started.elapsed().as_secs_f64(), did, died }
}

/// A dead fuzzer is only a violation if the case kills or hangs the ordinary program too.
fn confirm(bin: &Path, dir: &Path, id: &str, r: &Result_) -> Option<Failure> {
    let (how, input) = r.died.as_ref()?;
    let out = Command::new(bin).args(["decode", id, &r.name]).arg(input.as_ref()?).output().ok()?;
    let case: Value = serde_json::from_slice(&out.stdout).ok()?;
    let path = dir.join(format!("candidate-{}.json", r.number));
    std::fs::write(&path, json!({"property": id, "test": r.name, "case": case}).to_string()).ok()?;
    let again = Command::new(std::env::current_exe().ok()?)
        .arg("replay")
        .arg(&path)
        .env_remove("UVH_CHILD")
        .env_remove("UVH_TRACE")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    let message = format!("the process died: {how}");
    (again.code() == Some(1)).then(|| Failure { test: r.name.clone(), case, message, first: None })
}

/// Fuzzes every campaign of a property for about `seconds` altogether.
pub fn stage(s: &mut Session, seconds: u64) {
    let Some(bin) = std::env::var_os("UVH_FUZZ").map(PathBuf::from) else { return };
    if !s.failures.is_empty() || seconds == 0 || std::env::var_os("UVH_TRACE").is_some() {
        return;
    }
    let list = Command::new(&bin).args(["list", s.id]).output().expect("fuzzer");
    let list: Vec<(String, u64)> = serde_json::from_slice(&list.stdout).expect("list of campaigns");
    if list.is_empty() {
        return;
    }
    let rounds = WORKERS.div_ceil(list.len()).max(2);
    let total = rounds * list.len();
    let each = (seconds * WORKERS as u64 / total as u64).max(2);
    let mut jobs: VecDeque<Job> = VecDeque::new();
    for _ in 0..rounds {
        for (name, _) in &list {
            // Odd and even numbers for each: with and without the value profile.
            jobs.push_back(Job { name: name.clone(), number: 0, seconds: each });
        }
    }
    for (i, j) in jobs.iter_mut().enumerate() {
        j.number = (i / list.len()) + rounds.next_multiple_of(2) * (i % list.len());
    }
    let dir = verif().join("build/scratch").join(format!("fuzz-{}-{}", s.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let queue = Mutex::new(jobs);
    let mut results: Vec<Result_> = std::thread::scope(|sc| {
        let (queue, dir, bin, s) = (&queue, &dir, &bin, &*s);
        let workers: Vec<_> = (0..WORKERS)
            .map(|_| {
                sc.spawn(move || {
                    let mut done = Vec::new();
                    loop {
                        let job = queue.lock().expect("queue").pop_front();
                        let Some(job) = job else { return done };
                        let result = run(bin, dir, s, &job);
                        if result.died.is_some() || result.did.as_ref().is_some_and(|d| d.failure.is_some()) {
                            queue.lock().expect("queue").clear();
                        }
                        done.push(result);
                    }
                })
            })
            .collect();
        workers.into_iter().flat_map(|w| w.join().expect("worker")).collect()
    });
    results.sort_by_key(|r| r.number);
    let mut confirmed = false;
    for (name, _) in &list {
        let (mut evaluations, mut seen, mut wall) = (0, HashSet::new(), 0.0f64);
        let mut best: Option<(usize, Failure)> = None;
        let mut consider = |f: Failure| {
            let size = f.case.to_string().len();
            if best.as_ref().is_none_or(|b| size < b.0) {
                best = Some((size, f));
            }
        };
        for r in results.iter_mut().filter(|r| r.name == *name) {
            wall += r.seconds;
            if let Some((how, _)) = &r.died {
                match if confirmed { None } else { confirm(&bin, &dir, s.id, r) } {
                    Some(f) => {
                        confirmed = true;
                        consider(f);
                    }
                    None => eprintln!("{}/{name}: a fuzzing process ended with {how}", s.id),
                }
            }
            let Some(did) = &mut r.did else { continue };
            evaluations += did.evaluations;
            seen.extend(did.nontrivial.iter().copied());
            if let Some(sample) = did.sample.take() {
                if r.number % 4 == 1 && s.stats.samples.len() < 12 {
                    s.stats.samples.push(json!({"test": name, "fuzzed": sample}));
                }
            }
            if let Some((case, message, first)) = did.failure.take() {
                consider(Failure { test: name.clone(), case, message, first: Some(first) });
            }
        }
        s.failures.extend(best.map(|b| b.1));
        s.stats.evaluations += evaluations;
        s.stats.nontrivial += seen.len() as u64;
        s.stats.campaigns.push(json!({
            "test": name, "kind": "coverage-guided", "evaluations": evaluations, "distinct_nontrivial": seen.len(),
            "cpu_s": wall,
        }));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
