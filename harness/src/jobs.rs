//! One simulated run per job.
use crate::cluster::Cluster;
use crate::rng::Rng;
use crate::run::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    pub profile: String,
    pub seed: u64,
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub fingerprint: u64,
    pub digest: u64,
    pub virtual_ms: u64,
    pub trace: Vec<String>,
    pub panic: Option<String>,
    pub wall_ms: u64,
    pub known: Vec<String>,
}

pub fn all_faults(p: &mut Profile) {
    p.w_crash = 2;
    p.w_partition = 2;
    p.w_isolate_leader = 3;
    p.w_reset = 1;
    p.w_loss = 2;
    p.w_slow = 1;
    p.w_timeout_now = 2;
    p.w_crash_all = 1;
    p.w_oneway = 1;
    p.w_delay = 1;
}
/// Different proportions of what takes long, and many requests at a time.
fn busy(p: &mut Profile, rng: &mut Rng) {
    if rng.p(0.6) {
        p.think_ms = rng.below(30);
        p.clients = rng.range(4, 10) as usize;
    }
    if rng.p(0.6) {
        p.cfg.store_p = 0.8;
        p.cfg.store_max_ms = rng.range(5, 60);
    }
    if rng.p(0.5) {
        p.cfg.link_ms = rng.below(2);
        p.cfg.rpc_max_ms = 2;
    }
}
pub fn profile(name: &str, rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    match name {
        "calm" => {
            p.start_members = rng.range(1, 5) as usize;
            p.cfg.nodes = p.start_members;
            p.duration_ms = 15_000;
            // Nothing may fail here: every request gets long enough.
            p.op_timeout = 20_000;
            p.no_short = true;
            p.patient = true;
            p.calm = true;
            busy(&mut p, rng);
        }
        "chaos" => {
            p.cfg.nodes = rng.range(3, 5) as usize;
            p.start_members = p.cfg.nodes;
            all_faults(&mut p);
        }
        // Elections in quick succession: short partitions, forced elections, lost replies.
        "elect" => {
            p.cfg.nodes = *rng.pick(&[3, 3, 4, 5]);
            p.start_members = p.cfg.nodes;
            p.gap_ms = 500;
            p.duration_ms = 30_000;
            p.w_timeout_now = 6;
            p.w_isolate_leader = 4;
            p.w_loss = 2;
            p.w_delay = 2;
            p.w_crash = 3;
            p.w_slow = 2;
            p.w_oneway = 1;
            p.down_ms = 1500;
            p.part_ms = 3000;
        }
        "snaps" => {
            p.cfg.nodes = rng.range(3, 4) as usize;
            p.start_members = p.cfg.nodes;
            p.cfg.snap_every = rng.range(3, 25);
            all_faults(&mut p);
            p.retry_p = if rng.p(0.3) { 0.2 } else { 0.0 };
            p.think_ms = 80;
        }
        // One replica at a time stays away for long enough to need a snapshot.
        "lag" => {
            p.cfg.nodes = 3;
            p.cfg.snap_every = rng.range(3, 12);
            p.retry_p = 0.0;
            p.think_ms = 60;
            p.gap_ms = 2500;
            p.w_crash = 4;
            p.w_isolate_leader = 1;
            p.w_partition = 2;
            p.w_crash_all = 1;
            p.w_delay = 1;
            p.down_ms = 9000;
        }
        "member" => {
            p.cfg.nodes = rng.range(4, 5) as usize;
            p.start_members = rng.range(2, 3) as usize;
            p.w_member = 8;
            p.w_crash = 2;
            p.w_isolate_leader = 2;
            p.w_partition = 1;
            p.w_loss = 1;
            p.w_timeout_now = 1;
            p.w_delay = 1;
            p.w_crash_all = 1;
            p.gap_ms = 900;
        }
        "member_calm" => {
            p.cfg.nodes = rng.range(3, 5) as usize;
            p.start_members = rng.range(1, 3) as usize;
            p.w_member = 8;
            p.w_timeout_now = 1;
            p.gap_ms = 700;
        }
        "member_snap" => {
            p.cfg.nodes = rng.range(4, 5) as usize;
            p.start_members = rng.range(2, 3) as usize;
            p.cfg.snap_every = rng.range(3, 15);
            p.retry_p = 0.0;
            p.w_member = 8;
            p.w_crash = 2;
            p.w_isolate_leader = 1;
            p.w_partition = 1;
            p.w_crash_all = 1;
            p.gap_ms = 1200;
        }
        "multi" => {
            p.cfg.nodes = 3;
            p.cfg.shards = (0..rng.range(2, 5) as u32).map(|k| k * 7).collect();
            p.clients = 6;
            p.think_ms = 60;
            all_faults(&mut p);
            p.w_stall = 3;
            p.duration_ms = 30_000;
        }
        // Dozens of shards, so that whatever nodes send for all of them at once gets big.
        "many" => {
            p.cfg.nodes = 3;
            let k = *rng.pick(&[17, 24, 33, 40]);
            p.cfg.shards = (0..k).map(|k| k * 3 + 1).collect();
            p.clients = 6;
            p.think_ms = 100;
            p.w_crash = 2;
            p.w_isolate_leader = 2;
            p.w_partition = 1;
            p.w_stall = 1;
            p.gap_ms = 3000;
            p.duration_ms = 9_000;
        }
        "multi_snap" => {
            p.cfg.nodes = 3;
            p.cfg.shards = (0..rng.range(2, 4) as u32).collect();
            p.cfg.snap_every = rng.range(3, 15);
            p.retry_p = 0.0;
            p.clients = 6;
            p.think_ms = 60;
            p.w_crash = 3;
            p.w_crash_all = 1;
            p.w_partition = 2;
            p.w_member = 2;
            p.duration_ms = 30_000;
        }
        "redb" => {
            p.cfg.nodes = 3;
            p.cfg.redb = true;
            if rng.p(0.5) {
                p.cfg.shards = vec![0, 3];
            }
            if rng.p(0.4) {
                p.cfg.snap_every = rng.range(4, 20);
                p.retry_p = 0.0;
            }
            all_faults(&mut p);
            p.w_err = 0;
            p.duration_ms = 20_000;
        }
        "dups" => {
            p.cfg.nodes = rng.range(3, 4) as usize;
            p.start_members = p.cfg.nodes;
            all_faults(&mut p);
            p.retry_p = 0.95;
            p.dup_p = 0.4;
            p.late_retry_p = 0.2;
            p.op_timeout = 1500;
            p.read_frac = 0.1;
        }
        "errs" => {
            p.cfg.nodes = 3;
            all_faults(&mut p);
            p.w_err = 8;
            if rng.p(0.4) {
                p.cfg.snap_every = rng.range(4, 20);
                p.retry_p = 0.0;
            }
        }
        "slow" => {
            p.cfg.nodes = 3;
            p.cfg.store_p = 0.9;
            p.cfg.store_max_ms = rng.range(10, 60);
            p.cfg.read_p = 0.2;
            p.cfg.app_p = 0.6;
            p.cfg.link_ms = rng.range(3, 40);
            all_faults(&mut p);
        }
        "reads" => {
            p.cfg.nodes = rng.range(3, 5) as usize;
            p.start_members = p.cfg.nodes;
            p.read_frac = 0.6;
            p.clients = 6;
            p.think_ms = 60;
            p.w_isolate_leader = 6;
            p.w_timeout_now = 3;
            p.w_slow = 2;
            p.w_oneway = 2;
            p.w_delay = 2;
            p.w_crash = 1;
            p.gap_ms = 900;
            p.cfg.read_p = 0.1;
            // The application lags behind the commits, so that reads wait for different indices.
            if rng.p(0.4) {
                p.cfg.app_p = 0.9;
                p.cfg.app_max_ms = rng.range(20, 150);
                if rng.p(0.7) {
                    p.cfg.app_slow = (0..p.cfg.nodes).filter(|_| rng.p(0.4)).collect();
                }
                p.clients = rng.range(5, 16) as usize;
                p.read_frac = 0.5;
                p.think_ms = 20;
                p.duration_ms = 20_000;
            }
        }
        // Clients that wait: a request must be answered, if only with an error, once all is well.
        "patient" => {
            p.cfg.nodes = rng.range(3, 5) as usize;
            p.start_members = p.cfg.nodes;
            all_faults(&mut p);
            if rng.p(0.3) {
                p.w_member = 4;
            }
            if rng.p(0.3) {
                p.w_err = 3;
            }
            p.gap_ms = 900;
            p.duration_ms = 20_000;
            p.clients = 8;
            p.op_timeout = 150_000;
            p.no_short = true;
            p.patient = true;
            p.retry_p = 0.2;
            if rng.p(0.4) {
                p.cfg.snap_every = rng.range(3, 20);
                p.retry_p = 0.0;
            } else if rng.p(0.5) {
                p.dup_p = 0.3;
                p.late_retry_p = 0.2;
                p.retry_p = 0.8;
            }
            busy(&mut p, rng);
        }
        _ => panic!("unknown profile {name}"),
    }
    // Stores and applications fail in these as well.
    if matches!(
        name,
        "snaps" | "lag" | "member_snap" | "multi_snap" | "reads" | "member"
    ) && rng.p(0.25)
    {
        p.w_err = 3;
    }
    // The store of one node hangs for a while.
    if matches!(name, "chaos" | "slow" | "member") && rng.p(0.25) {
        p.w_stall = 3;
    }
    if p.cfg.snap_every > 0 && rng.p(0.4) {
        p.cfg.snap_err_p = 0.3;
        p.cfg.chunk_ms = *rng.pick(&[10, 80, 400]);
    }
    p.cfg.live = match name {
        "member" | "member_calm" => vec!["C07"],
        "member_snap" => vec!["C07", "C08"],
        "snaps" | "lag" => vec!["C08"],
        "multi" | "many" => vec!["C09"],
        "multi_snap" => vec!["C08", "C09"],
        "redb" => vec!["C10"],
        "dups" => vec!["C04"],
        _ => vec![],
    };
    p
}

thread_local! {
    static PANICS: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(vec![]) };
}
/// Panics of this thread so far: (location, message).
pub fn panics() -> Vec<(String, String)> {
    PANICS.with(|p| p.borrow().clone())
}

pub fn run_job(name: &str, seed: u64, tracing: bool) -> Outcome {
    let name2 = name.to_string();
    let t = std::time::Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            if let Some(f) = crate::direct::find(&name2) {
                let mut o = Outcome {
                    profile: name2.clone(),
                    seed,
                    ..Default::default()
                };
                f(seed, &mut o);
                return o;
            }
            if name2.starts_with("mt_") {
                return crate::mt::run(&name2, seed, tracing);
            }
            crate::shim::enter(seed);
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
                .build()
                .unwrap();
            let mut rng = Rng::new(seed ^ crate::rng::hash(name2.as_bytes()));
            let out = rt.block_on(async {
                crate::shim::started();
                let sc = crate::scenario::find(&name2);
                let p = match &sc {
                    Some(s) => (s.setup)(&mut rng),
                    None => profile(&name2, &mut rng),
                };
                let w = World::new(p.cfg.clone(), rng.next(), tracing);
                WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
                let c = Cluster::new(w.clone());
                let r = rng.next();
                match &sc {
                    Some(s) => (s.run)(c.clone(), p, Rng::new(r)).await,
                    None => random_run(c.clone(), p, r).await,
                }
                let mut i = w.lock();
                for (at, msg) in panics() {
                    crate::tr!(i, "panic at {at}: {msg}");
                    i.stat("panics");
                    if at.contains("sorock/src/") {
                        i.viol(
                            &["C14", "C12"],
                            "panic",
                            format!("the node panics at {at}: {msg}"),
                        );
                    }
                }
                Outcome {
                    profile: name2.clone(),
                    seed,
                    viols: std::mem::take(&mut i.viols),
                    stats: i.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
                    fingerprint: i.fingerprint,
                    digest: i.digest,
                    virtual_ms: now_ms(),
                    known: i.known.iter().cloned().collect(),
                    trace: std::mem::take(&mut i.trace),
                    ..Default::default()
                }
            });
            WORLD.with(|x| *x.borrow_mut() = None);
            // Objects of the run are leaked with the runtime rather than torn down.
            std::mem::forget(rt);
            crate::shim::leave();
            out
        })
        .unwrap();
    let mut o = match h.join() {
        Ok(o) => o,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Outcome {
                profile: name.into(),
                seed,
                panic: Some(m),
                ..Default::default()
            }
        }
    };
    o.wall_ms = t.elapsed().as_millis() as u64;
    o
}

pub fn init() {
    // Backtraces of errors are costly and nobody reads them here.
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    sorock::verif::set_connector(Box::new(crate::net::connector));
    let show = std::env::var("PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if show {
            eprintln!("panic at {at}: {m}");
        }
        crate::mt::note_panic(&at, &m);
        PANICS.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.len() < 20 {
                    p.push((at, m));
                }
            }
        });
    }));
}
/// Jobs on stdin ("name seed trace"), outcomes on stdout, one line each.
fn worker() {
    use std::io::{BufRead, Write};
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let mut f = l.split_whitespace();
        let (Some(n), Some(s), t) = (f.next(), f.next(), f.next()) else {
            return;
        };
        let o = run_job(n, s.parse().unwrap(), t == Some("1"));
        let mut out = std::io::stdout().lock();
        writeln!(out, "{}", serde_json::to_string(&o).unwrap()).ok();
        out.flush().ok();
    }
}
pub fn main() {
    init();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("worker") => return worker(),
        Some("check") => std::process::exit(crate::check::main(&a[2])),
        Some("replay") => std::process::exit(crate::check::replay(&a[2])),
        Some("list") => {
            for s in crate::scenario::all() {
                println!("{}", s.name);
            }
            return;
        }
        Some(_) if a.len() > 3 => {}
        _ => {
            eprintln!("usage: harness check ID | replay FILE | NAME FROM TO");
            std::process::exit(2);
        }
    }
    let name = &a[1];
    let from: u64 = a[2].parse().unwrap();
    let to: u64 = a[3].parse().unwrap();
    let tracing = std::env::var("TRACE").is_ok();
    for s in from..to {
        let t = std::time::Instant::now();
        let o = run_job(name, s, tracing);
        println!(
            "seed {s} wall {:?} virt {} fp {:x} dg {:x} panic {:?}",
            t.elapsed(),
            o.virtual_ms,
            o.fingerprint,
            o.digest,
            o.panic
        );
        for v in &o.viols {
            println!("  {:?} {} @{} {}", v.props, v.sig, v.t_ms, v.msg);
        }
        if tracing {
            for l in &o.trace {
                println!("{l}");
            }
        }
        if std::env::var("STATS").is_ok() {
            println!("  {:?}", o.stats);
        }
    }
}
