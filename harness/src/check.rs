//! The orchestrator of one property's check: runs jobs in worker processes, collects what their
//! monitors report, writes the evidence file and the verdict.
use crate::jobs::Outcome;
use crate::plan::{self, Plan};
use crate::rng::mix;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
    done: usize,
}
impl Worker {
    fn start() -> Self {
        let me = std::env::current_exe().unwrap();
        let mut child = Command::new(me)
            .arg("worker")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start a worker");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, lines) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    return;
                }
            }
        });
        Worker {
            child,
            stdin,
            lines,
            done: 0,
        }
    }
    fn stop(mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
pub enum Ran {
    Done(Box<Outcome>),
    Hang,
    Died,
}
/// Run one job in a worker process, which is replaced when it dies or does not answer.
fn run(slot: &mut Option<Worker>, name: &str, seed: u64, trace: bool, limit: Duration) -> Ran {
    let mut w = slot.take().unwrap_or_else(Worker::start);
    if writeln!(w.stdin, "{name} {seed} {}", trace as u8)
        .and_then(|_| w.stdin.flush())
        .is_err()
    {
        w.stop();
        return Ran::Died;
    }
    match w.lines.recv_timeout(limit) {
        Ok(l) => match serde_json::from_str::<Outcome>(&l) {
            Ok(o) => {
                w.done += 1;
                if w.done >= 40 {
                    w.stop();
                } else {
                    *slot = Some(w);
                }
                Ran::Done(Box::new(o))
            }
            Err(_) => {
                w.stop();
                Ran::Died
            }
        },
        Err(RecvTimeoutError::Timeout) => {
            w.stop();
            Ran::Hang
        }
        Err(RecvTimeoutError::Disconnected) => {
            w.stop();
            Ran::Died
        }
    }
}

#[derive(Default)]
struct Agg {
    runs: u64,
    by_name: BTreeMap<String, u64>,
    fps: BTreeSet<u64>,
    stats: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    hits: Vec<Outcome>,
    other: BTreeMap<String, Vec<String>>,
    hangs: Vec<(String, u64)>,
    deaths: Vec<(String, u64, String)>,
    known: BTreeSet<String>,
    virtual_ms: u64,
    skipped: u64,
}

/// Verdicts that depend on how fast things go.
pub fn timely(sig: &str) -> bool {
    sig.starts_with("no-")
        || matches!(
            sig,
            "unanswered"
                | "refused"
                | "rpc-storm"
                | "leader-silent"
                | "membership-lost"
                | "removal-refused"
                | "removed-leader-heartbeats"
        )
}
fn out_dir() -> std::path::PathBuf {
    std::env::var("VERIF_OUT")
        .unwrap_or("/verif/evidence".into())
        .into()
}
pub fn main(prop: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        "thorough"
    } else {
        "quick"
    };
    let Some(p) = plan::plan(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    let t0 = Instant::now();
    let k: u64 = match std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
    {
        Some(k) => k,
        None => {
            if tier == "thorough" {
                12
            } else {
                1
            }
        }
    };
    // Jobs of the same name get different seeds; the mix of names is interleaved.
    let mut jobs: Vec<(String, u64)> = vec![];
    let mut top = 0;
    for (_, n) in &p.jobs {
        top = top.max(n * k);
    }
    for j in 0..top {
        for (name, n) in &p.jobs {
            // spread n*k runs over the rounds
            let n = n * k;
            if (j * n) / top != ((j + 1) * n) / top {
                jobs.push((
                    name.to_string(),
                    mix(mix(seed, crate::rng::hash(name.as_bytes())), j) >> 16,
                ));
            }
        }
    }
    let total = jobs.len();
    let queue = Arc::new(Mutex::new(jobs.into_iter().collect::<VecDeque<_>>()));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let soft = Duration::from_secs(if tier == "thorough" { 5400 } else { 330 });
    let n = std::thread::available_parallelism()
        .map(|x| x.get())
        .unwrap_or(4)
        .clamp(2, 16);
    let mut hs = vec![];
    for _ in 0..n {
        let (queue, agg, p, prop) = (queue.clone(), agg.clone(), p.clone(), prop.to_string());
        hs.push(std::thread::spawn(move || {
            let mut slot = None;
            loop {
                let Some((name, seed)) = queue.lock().unwrap().pop_front() else {
                    break;
                };
                {
                    let mut a = agg.lock().unwrap();
                    if t0.elapsed() > soft || a.hits.len() >= 6 || a.hangs.len() >= 16 {
                        a.skipped += 1;
                        continue;
                    }
                }
                let r = run(&mut slot, &name, seed, false, Duration::from_secs(60));
                let mut a = agg.lock().unwrap();
                match r {
                    Ran::Done(o) => a.add(&p, &prop, *o),
                    Ran::Hang => a.hangs.push((name, seed)),
                    Ran::Died => a.deaths.push((name, seed, "worker died".into())),
                }
            }
            if let Some(w) = slot {
                w.stop();
            }
        }));
    }
    for h in hs {
        h.join().ok();
    }
    let mut a = std::mem::take(&mut *agg.lock().unwrap());
    // What a run on the real clock says about timeliness is only believed when it says so again
    // with the machine to itself.
    a.hits.retain_mut(|o| {
        let mine = |o: &Outcome| o.viols.iter().any(|v| v.props.iter().any(|x| x == prop));
        if !o.profile.starts_with("mt_")
            || o.viols
                .iter()
                .any(|v| v.props.iter().any(|x| x == prop) && !timely(&v.sig))
        {
            return true;
        }
        for _ in 0..3 {
            let mut slot = None;
            let r = run(
                &mut slot,
                &o.profile,
                o.seed,
                false,
                Duration::from_secs(90),
            );
            if let Some(w) = slot {
                w.stop();
            }
            if matches!(&r, Ran::Done(n) if mine(n)) {
                return true;
            }
        }
        println!(
            "note: not confirmed: {} (job {} seed {})",
            o.viols[0].msg, o.profile, o.seed
        );
        false
    });
    // A run that does not end is only believed when it happens again with plenty of time.
    let mut stuck = vec![];
    if prop == "C12" && a.hits.is_empty() {
        for (name, seed) in a.hangs.iter().take(2) {
            let mut slot = None;
            if let Ran::Hang = run(&mut slot, name, *seed, false, Duration::from_secs(150)) {
                stuck.push((name.clone(), *seed));
            }
            if let Some(w) = slot {
                w.stop();
            }
        }
    }
    let dir = out_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let mut lines = vec![];
    let mut seen = BTreeSet::new();
    for o in &a.hits {
        let v = o
            .viols
            .iter()
            .find(|v| v.props.iter().any(|x| x == prop))
            .unwrap();
        if !seen.insert(v.sig.clone()) {
            continue;
        }
        let path = dir.join(format!("{prop}-{}-{}.json", v.sig, o.seed));
        let mut slot = None;
        let trace = match run(
            &mut slot,
            &o.profile,
            o.seed,
            true,
            Duration::from_secs(120),
        ) {
            Ran::Done(t) => t.trace.clone(),
            _ => vec![],
        };
        if let Some(w) = slot {
            w.stop();
        }
        let doc = serde_json::json!({
            "property": prop, "job": o.profile, "seed": o.seed,
            "violations": o.viols, "trace": trace,
            "replay": format!("/verif/harness/target/debug/harness replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
        lines.push(format!(
            "VIOLATION property={prop} replay={}",
            path.display()
        ));
        println!("{}: {} (job {} seed {})", v.sig, v.msg, o.profile, o.seed);
    }
    for (name, seed) in &stuck {
        let path = dir.join(format!("{prop}-hang-{seed}.json"));
        let doc = serde_json::json!({"property": prop, "job": name, "seed": seed, "violations": [{"sig": "hang", "msg": "the run makes no progress"}]});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).ok();
        println!("hang: job {name} seed {seed} makes no progress in simulated time");
        lines.push(format!(
            "VIOLATION property={prop} replay={}",
            path.display()
        ));
    }
    let known_file: Vec<String> = plan::known_findings(prop);
    for k in &a.known {
        // Identified by its history; the file says which ones are known.
        if known_file
            .iter()
            .any(|l| !l.starts_with("fixed:") && l.contains(k.as_str()))
        {
            println!("KNOWN-FINDING: {k}");
        } else {
            let path = dir.join(format!("{prop}-unlisted.json"));
            std::fs::write(&path, serde_json::json!({"property": prop, "violations": [{"sig": "unlisted", "msg": k}]}).to_string()).ok();
            println!("not listed in known-findings.txt: {k}");
            lines.push(format!(
                "VIOLATION property={prop} replay={}",
                path.display()
            ));
        }
    }
    let observed: BTreeMap<&str, u64> = p
        .relevant
        .iter()
        .map(|r| (*r, a.stats.get(*r).copied().unwrap_or(0)))
        .collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.fps.len(),
            "rule": p.rule,
            "samples": a.samples,
            "planned_jobs": total,
            "jobs_skipped": a.skipped,
            "runs_by_job": a.by_name,
            "virtual_ms": a.virtual_ms,
            "events_observed": observed,
            "all_events": a.stats,
            "inconclusive": { "no_answer": a.hangs, "errors": a.deaths },
            "violations_of_other_properties": a.other,
            "known_findings_listed": known_file,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": lines.len(),
    });
    std::fs::write(
        out_dir().join(format!("{prop}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .ok();
    println!(
        "{prop}: {} runs ({} distinct and non-trivial), {} skipped, {} inconclusive, {:.1} s; observed {:?}",
        a.runs, a.fps.len(), a.skipped, a.hangs.len() + a.deaths.len(), t0.elapsed().as_secs_f64(), observed
    );
    for (k, v) in a.other.iter() {
        println!(
            "note: {} runs also violate {k}: {:?}",
            v.len(),
            v.iter().take(3).collect::<Vec<_>>()
        );
    }
    if !lines.is_empty() {
        for l in lines {
            println!("{l}");
        }
        return 1;
    }
    if a.deaths.len() as u64 > a.runs {
        println!("the harness itself fails: {:?}", a.deaths.first());
        return 2;
    }
    0
}
impl Agg {
    fn add(&mut self, p: &Plan, prop: &str, o: Outcome) {
        if let Some(m) = &o.panic {
            self.deaths.push((o.profile.clone(), o.seed, m.clone()));
            return;
        }
        self.runs += 1;
        *self.by_name.entry(o.profile.clone()).or_default() += 1;
        self.virtual_ms += o.virtual_ms;
        for (k, v) in &o.stats {
            if k.starts_with("max_") {
                let e = self.stats.entry(k.clone()).or_default();
                *e = (*e).max(*v);
            } else {
                *self.stats.entry(k.clone()).or_default() += v;
            }
        }
        for k in &o.known {
            if k.starts_with(&format!("property={prop} ")) {
                self.known.insert(k.clone());
            }
        }
        let nontrivial = p.nontrivial.iter().all(|alt| {
            alt.iter()
                .any(|r| o.stats.get(*r).copied().unwrap_or(0) > 0)
        });
        if nontrivial
            && self.fps.insert(mix(o.fingerprint, o.digest))
            && self.samples.len() < 5
            && !self.samples.iter().any(|s| s["job"] == o.profile.as_str())
        {
            self.samples.push(serde_json::json!({"job": o.profile, "seed": o.seed, "virtual_ms": o.virtual_ms, "events": o.stats}));
        }
        if o.viols.iter().any(|v| v.props.iter().any(|x| x == prop)) {
            self.hits.push(o);
        } else {
            let mut s = BTreeSet::new();
            for v in &o.viols {
                for x in &v.props {
                    s.insert(format!("{x} ({})", v.sig));
                }
            }
            for x in s {
                self.other
                    .entry(x)
                    .or_default()
                    .push(format!("{} {}", o.profile, o.seed));
            }
        }
    }
}
/// Run the job of a replay file again and show what its monitors report.
pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        return 2;
    };
    let Ok(d) = serde_json::from_str::<serde_json::Value>(&s) else {
        return 2;
    };
    let (Some(j), Some(n)) = (d["job"].as_str(), d["seed"].as_u64()) else {
        return 2;
    };
    let o = crate::jobs::run_job(j, n, true);
    for l in &o.trace {
        println!("{l}");
    }
    for v in &o.viols {
        println!("{:?} {}: {}", v.props, v.sig, v.msg);
    }
    o.viols.iter().any(|v| {
        v.props
            .iter()
            .any(|x| Some(x.as_str()) == d["property"].as_str())
    }) as i32
}
