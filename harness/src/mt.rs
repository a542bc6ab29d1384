//! Runs on several threads and the real clock: the same cluster, workload and monitors, with
//! interleavings between await points. Delays are injected at allocations, i.e. anywhere.
use crate::cluster::Cluster;
use crate::jobs::Outcome;
use crate::rng::Rng;
use crate::run::*;
use crate::world::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static ON: AtomicBool = AtomicBool::new(false);
static DELAYS: AtomicU64 = AtomicU64::new(0);
/// One allocation in so many is delayed.
static RARE: AtomicU64 = AtomicU64::new(1024);
static T0: Mutex<Option<Instant>> = Mutex::new(None);
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
thread_local! {
    static X: Cell<u64> = const { Cell::new(0) };
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Ordering::Relaxed) {
            delay(p as u64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
fn delay(salt: u64) {
    let Ok(x) = X.try_with(|c| {
        let mut x = c.get();
        if x == 0 {
            x = salt | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        x
    }) else {
        return;
    };
    let rare = RARE.load(Ordering::Relaxed);
    if (x >> 20) % rare == 0 {
        DELAYS.fetch_add(1, Ordering::Relaxed);
        pause(x >> 40);
    }
}
fn pause(x: u64) {
    match x % 4 {
        0 => unsafe {
            libc::sched_yield();
        },
        1 | 2 => {
            let ts = libc::timespec {
                tv_sec: 0,
                tv_nsec: ((x >> 4) % 300_000) as i64,
            };
            unsafe {
                libc::nanosleep(&ts, std::ptr::null_mut());
            }
        }
        _ => {
            let ts = libc::timespec {
                tv_sec: 0,
                tv_nsec: ((x >> 4) % 3_000_000) as i64,
            };
            unsafe {
                libc::nanosleep(&ts, std::ptr::null_mut());
            }
        }
    }
}
/// A short pause of the thread now and then.
pub fn jitter() {
    if ON.load(Ordering::Relaxed) {
        delay(7);
    }
}
pub fn real_ms() -> u64 {
    T0.lock()
        .unwrap()
        .map(|t| t.elapsed().as_millis() as u64)
        .unwrap_or(0)
}
pub fn note_panic(at: &str, m: &str) {
    if ON.load(Ordering::Relaxed) {
        let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if p.len() < 20 {
            p.push((at.into(), m.into()));
        }
    }
}
fn profile(name: &str, rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    // Real time: no artificial latency beyond what is needed for variety.
    p.cfg.store_p = if rng.p(0.5) { 0.0 } else { 0.1 };
    p.cfg.store_max_ms = 3;
    p.cfg.read_p = 0.0;
    p.cfg.rpc_p = if rng.p(0.5) { 0.0 } else { 0.1 };
    p.cfg.rpc_max_ms = 5;
    p.cfg.link_ms = 0;
    p.cfg.app_p = if rng.p(0.5) { 0.0 } else { 0.05 };
    p.clients = rng.range(4, 16) as usize;
    p.think_ms = rng.below(8);
    p.duration_ms = 3500;
    p.settle_ms = 45_000;
    p.patient = true;
    p.no_short = true;
    p.op_timeout = 25_000;
    match name {
        "mt_calm" => {
            p.start_members = rng.range(1, 3) as usize;
            p.cfg.nodes = p.start_members;
            p.duration_ms = 6000;
            p.calm = true;
            if rng.p(0.3) {
                p.cfg.snap_every = rng.range(20, 200);
                p.retry_p = 0.0;
            }
            if rng.p(0.3) {
                p.dup_p = 0.3;
            }
        }
        "mt_chaos" => {
            p.patient = false;
            p.op_timeout = 2000;
            p.cfg.nodes = 3;
            p.gap_ms = 250;
            p.w_crash = 2;
            p.w_timeout_now = 6;
            p.w_isolate_leader = 1;
            p.w_reset = 2;
            p.w_loss = 1;
            p.down_ms = 500;
            p.part_ms = 1200;
            p.duration_ms = 6000;
            if rng.p(0.3) {
                p.cfg.snap_every = rng.range(20, 100);
                p.retry_p = 0.0;
            }
        }
        "mt_multi" => {
            p.cfg.nodes = 3;
            p.cfg.shards = (0..rng.range(2, 3) as u32).map(|k| k * 7).collect();
            p.clients = 12;
            p.duration_ms = 6000;
            p.calm = true;
        }
        "mt_member" => {
            p.patient = false;
            p.op_timeout = 2000;
            p.cfg.nodes = rng.range(3, 4) as usize;
            p.start_members = rng.range(1, 3) as usize;
            p.w_member = 8;
            p.w_timeout_now = 2;
            p.gap_ms = 200;
            p.duration_ms = 5000;
        }
        _ => panic!("unknown profile {name}"),
    }
    p
}
pub fn run(name: &str, seed: u64, tracing: bool) -> Outcome {
    let mut rng = Rng::new(seed ^ crate::rng::hash(name.as_bytes()));
    let p = profile(name, &mut rng);
    let threads = *rng.pick(&[2, 3, 4, 8]);
    RARE.store(*rng.pick(&[100, 400, 2000, 10_000]), Ordering::Relaxed);
    DELAYS.store(0, Ordering::Relaxed);
    PANICS.lock().unwrap().clear();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .enable_time()
        .build()
        .unwrap();
    let w = World::new(p.cfg.clone(), rng.next(), tracing);
    *SHARED.lock().unwrap() = Some(w.clone());
    *T0.lock().unwrap() = Some(Instant::now());
    let c = Cluster::new(w.clone());
    let r = rng.next();
    ON.store(true, Ordering::SeqCst);
    let c2 = c.clone();
    // How late this machine wakes threads up.
    let watch = std::thread::spawn(|| {
        let mut worst = 0;
        while ON.load(Ordering::SeqCst) {
            let t = Instant::now();
            std::thread::sleep(Duration::from_millis(20));
            worst = worst.max(t.elapsed().as_millis() as u64);
        }
        worst
    });
    rt.block_on(async move {
        tokio::spawn(random_run(c2, p, r))
            .await
            .expect("the run itself fails")
    });
    ON.store(false, Ordering::SeqCst);
    let stall = watch.join().unwrap_or(0);
    let out = {
        let mut i = w.lock();
        for (at, msg) in PANICS.lock().unwrap().drain(..) {
            i.stat("panics");
            if at.contains("sorock/src/") {
                i.viol(
                    &["C14", "C12"],
                    "panic",
                    format!("the node panics at {at}: {msg}"),
                );
            }
        }
        if stall > 1000 {
            let n = i.viols.len();
            i.viols.retain(|v| !crate::check::timely(&v.sig));
            if i.viols.len() < n {
                i.stat("too_slow_to_judge");
            }
        }
        let mut stats: std::collections::BTreeMap<String, u64> =
            i.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        stats.insert("thread_delays".into(), DELAYS.load(Ordering::Relaxed));
        stats.insert("max_stall_ms".into(), stall);
        Outcome {
            profile: name.into(),
            seed,
            viols: std::mem::take(&mut i.viols),
            stats,
            fingerprint: i.fingerprint,
            digest: i.digest,
            virtual_ms: now_ms(),
            known: i.known.iter().cloned().collect(),
            trace: std::mem::take(&mut i.trace),
            ..Default::default()
        }
    };
    *SHARED.lock().unwrap() = None;
    drop(c);
    rt.shutdown_timeout(Duration::from_millis(200));
    out
}
