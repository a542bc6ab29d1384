//! Checks of the redb backend, outside the simulation: real threads, real group commits, and a
//! storage under the database that records every write and sync, fails on demand and can be cut
//! off at any point.
use crate::jobs::Outcome;
use crate::rng::{hash, mix, Rng};
use crate::world::Viol;
use bytes::Bytes;
use sorock::backends::redb::Backend;
use sorock::process::*;
use sorock::NodeId;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

pub type Direct = fn(u64, &mut Outcome);
pub fn all() -> Vec<(&'static str, Direct)> {
    vec![
        ("redb_model", redb_model as Direct),
        ("redb_crash", redb_crash as Direct),
        ("redb_fail", redb_fail as Direct),
        ("redb_drop", redb_drop as Direct),
    ]
}
pub fn find(name: &str) -> Option<Direct> {
    all().into_iter().find(|x| x.0 == name).map(|x| x.1)
}

// ---------- storage ----------
#[derive(Debug, Clone)]
enum Io {
    Write(u64, Vec<u8>),
    Len(u64),
    Sync(bool),
}
#[derive(Debug, Default)]
struct Store {
    bytes: Vec<u8>,
    rec: Option<Vec<Io>>,
    n_io: u64,
    fail_from: u64,
    fail_to: u64,
    failed: u64,
    released: bool,
    slow: bool,
}
#[derive(Debug, Clone)]
struct Media(Arc<Mutex<Store>>);
impl Media {
    fn new(bytes: Vec<u8>) -> Self {
        Media(Arc::new(Mutex::new(Store {
            bytes,
            ..Default::default()
        })))
    }
    fn open(&self) -> Result<Backend, String> {
        self.0.lock().unwrap().released = false;
        let db = redb::Database::builder()
            .create_with_backend(Disk(self.clone()))
            .map_err(|e| format!("{e}"))?;
        Ok(Backend::new(db))
    }
    fn wait_released(&self) -> bool {
        for _ in 0..2000 {
            if self.0.lock().unwrap().released {
                return true;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        false
    }
}
/// The database's end of the storage; dropped together with the database.
#[derive(Debug)]
struct Disk(Media);
impl Drop for Disk {
    fn drop(&mut self) {
        self.0 .0.lock().unwrap().released = true;
    }
}
impl Disk {
    fn io(&self, sync: bool) -> std::io::Result<std::sync::MutexGuard<'_, Store>> {
        let slow = self.0 .0.lock().unwrap().slow;
        if slow && sync {
            std::thread::sleep(Duration::from_micros(300));
        }
        let mut g = self.0 .0.lock().unwrap();
        g.n_io += 1;
        if g.n_io > g.fail_from && g.n_io <= g.fail_to {
            g.failed += 1;
            return Err(std::io::Error::other("injected I/O failure"));
        }
        Ok(g)
    }
}
impl redb::StorageBackend for Disk {
    fn len(&self) -> std::io::Result<u64> {
        Ok(self.0 .0.lock().unwrap().bytes.len() as u64)
    }
    fn read(&self, offset: u64, len: usize) -> std::io::Result<Vec<u8>> {
        let g = self.io(false)?;
        let o = offset as usize;
        g.bytes
            .get(o..o + len)
            .map(|x| x.to_vec())
            .ok_or_else(|| std::io::Error::other("read beyond the end"))
    }
    fn set_len(&self, len: u64) -> std::io::Result<()> {
        let mut g = self.io(false)?;
        g.bytes.resize(len as usize, 0);
        if let Some(r) = &mut g.rec {
            r.push(Io::Len(len));
        }
        Ok(())
    }
    fn sync_data(&self, eventual: bool) -> std::io::Result<()> {
        let mut g = self.io(true)?;
        if let Some(r) = &mut g.rec {
            r.push(Io::Sync(eventual));
        }
        Ok(())
    }
    fn write(&self, offset: u64, data: &[u8]) -> std::io::Result<()> {
        let mut g = self.io(false)?;
        let o = offset as usize;
        if g.bytes.len() < o + data.len() {
            g.bytes.resize(o + data.len(), 0);
        }
        g.bytes[o..o + data.len()].copy_from_slice(data);
        if let Some(r) = &mut g.rec {
            r.push(Io::Write(offset, data.to_vec()));
        }
        Ok(())
    }
}
fn apply(b: &mut Vec<u8>, io: &Io, part: Option<(usize, usize)>) {
    match io {
        Io::Write(o, d) => {
            let (x, y) = part.unwrap_or((0, d.len()));
            let o = *o as usize;
            if b.len() < o + d.len() {
                b.resize(o + d.len(), 0);
            }
            b[o + x..o + y].copy_from_slice(&d[x..y]);
        }
        Io::Len(n) => b.resize(*n as usize, 0),
        Io::Sync(_) => {}
    }
}

// ---------- model ----------
#[derive(Clone, PartialEq, Debug)]
struct Ent {
    prev: (u64, u64),
    this: (u64, u64),
    cmd: Bytes,
}
impl Ent {
    fn entry(&self) -> Entry {
        Entry {
            prev_clock: Clock {
                term: self.prev.0,
                index: self.prev.1,
            },
            this_clock: Clock {
                term: self.this.0,
                index: self.this.1,
            },
            command: self.cmd.clone(),
        }
    }
    fn of(e: &Entry) -> Self {
        Ent {
            prev: (e.prev_clock.term, e.prev_clock.index),
            this: (e.this_clock.term, e.this_clock.index),
            cmd: e.command.clone(),
        }
    }
    fn short(&self) -> String {
        format!(
            "prev {:?} this {:?} {} bytes ({:x})",
            self.prev,
            self.this,
            self.cmd.len(),
            hash(&self.cmd)
        )
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
struct State {
    log: BTreeMap<u64, Ent>,
    ballot: (u64, Option<String>),
}
impl State {
    fn head(&self) -> u64 {
        self.log.keys().next().copied().unwrap_or(0)
    }
    fn last(&self) -> u64 {
        self.log.keys().next_back().copied().unwrap_or(0)
    }
}
#[derive(Clone, Debug)]
enum Op {
    Insert(u64, Ent),
    Before(u64),
    After(u64),
    Save((u64, Option<String>)),
}
impl Op {
    fn apply(&self, s: &mut State) {
        match self {
            Op::Insert(i, e) => {
                s.log.insert(*i, e.clone());
            }
            Op::Before(i) => s.log = s.log.split_off(i),
            Op::After(i) => s.log.retain(|k, _| k <= i),
            Op::Save(b) => s.ballot = b.clone(),
        }
    }
    fn short(&self) -> String {
        match self {
            Op::Insert(i, e) => format!("insert {i} {}", e.short()),
            x => format!("{x:?}"),
        }
    }
}
fn ballot(b: &(u64, Option<String>)) -> Ballot {
    Ballot {
        cur_term: b.0,
        voted_for: b.1.as_ref().map(|x| x.parse::<NodeId>().unwrap()),
    }
}
fn unballot(b: &Ballot) -> (u64, Option<String>) {
    (b.cur_term, b.voted_for.as_ref().map(|x| x.to_string()))
}
fn term(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => rng.below(4),
        1 => rng.below(1000),
        2 => (1 << 32) + rng.below(5),
        _ => rng.next() >> 1,
    }
}
fn command(rng: &mut Rng) -> Bytes {
    let n = match rng.below(10) {
        0 => 0,
        1..=4 => rng.below(40),
        5..=7 => rng.below(5000),
        8 => 4096 * rng.range(1, 3) - 20 + rng.below(40),
        _ => 60_000 + rng.below(80_000),
    };
    let mut r = Rng::new(rng.next());
    (0..n).map(|_| r.next() as u8).collect::<Vec<u8>>().into()
}
fn node_id(rng: &mut Rng) -> Option<String> {
    let s = match rng.below(5) {
        0 => return None,
        1 => format!("http://n{}:1/", rng.below(5)),
        2 => format!(
            "https://host-{}.example.org:{}/",
            rng.below(9),
            rng.range(1, 65535)
        ),
        3 => format!("http://[::{:x}]:50051/", rng.below(65536)),
        _ => format!(
            "http://10.0.{}.{}:5000/raft/{}?zone={}",
            rng.below(256),
            rng.below(256),
            rng.below(9),
            rng.below(9)
        ),
    };
    Some(s.parse::<NodeId>().unwrap().to_string())
}
/// A sequence of operations of one shard: groups, where a group is one operation or a burst of
/// insertions issued together.
fn workload(rng: &mut Rng, groups: usize, base: u64) -> Vec<Vec<Op>> {
    let mut s = State::default();
    let mut out = vec![];
    // Some logs get long.
    let long = rng.p(0.3);
    let ent = |rng: &mut Rng, i: u64| {
        let t = term(rng);
        Ent {
            prev: (if i == 1 { 0 } else { term(rng) }, i - 1),
            this: (t, i),
            cmd: command(rng),
        }
    };
    for _ in 0..groups {
        let last = s.last();
        let g: Vec<Op> = match rng.below(20) {
            0..=7 => vec![{
                let i = last.max(base) + 1;
                Op::Insert(i, ent(rng, i))
            }],
            8..=10 => {
                let from = last.max(base) + 1;
                let n = if long && rng.p(0.4) {
                    rng.range(30, 150)
                } else {
                    rng.range(2, 8)
                };
                (0..n)
                    .map(|k| Op::Insert(from + k, ent(rng, from + k)))
                    .collect()
            }
            11 => vec![{
                let i = if s.log.is_empty() {
                    base + 1
                } else {
                    *rng.pick(&s.log.keys().copied().collect::<Vec<_>>())
                };
                Op::Insert(i, ent(rng, i))
            }],
            12 => vec![{
                let i = last.max(base) + rng.range(1, 5);
                Op::Insert(i, ent(rng, i))
            }],
            13 | 14 => vec![Op::Before(
                s.head() + rng.below((s.log.len() as u64).min(6) + 2),
            )],
            15 => vec![Op::After((last + 1).saturating_sub(rng.below(5)))],
            16 if rng.p(0.3) => vec![if rng.p(0.5) {
                Op::Before(u64::MAX)
            } else {
                Op::After(0)
            }],
            _ => vec![Op::Save((term(rng), node_id(rng)))],
        };
        for o in &g {
            o.apply(&mut s);
        }
        out.push(g);
    }
    out
}
fn shards(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut pool = vec![
        0,
        1,
        2,
        10,
        11,
        12,
        100,
        111,
        7,
        70,
        u32::MAX,
        u32::MAX - 1,
        1 << 16,
        255,
        256,
        65_537,
    ];
    if rng.p(0.5) {
        // Ids that fall together under a power of two, a power of ten, a cut or a collation.
        let b = *rng.pick(&[0u32, 1, 5, 12, 300, 70_000, 123_456]);
        pool = vec![b];
        for d in [
            1u32,
            10,
            16,
            64,
            100,
            128,
            256,
            1000,
            1024,
            4096,
            10_000,
            32_768,
            65_536,
            1 << 20,
            1 << 24,
            1_000_000,
            1 << 30,
            1 << 31,
        ] {
            pool.push(b.wrapping_add(d));
        }
        let mut out = vec![b];
        pool.remove(0);
        for _ in 1..n {
            out.push(pool.swap_remove(rng.below(pool.len() as u64) as usize));
        }
        return out;
    }
    let mut out = vec![];
    for _ in 0..n {
        out.push(pool.swap_remove(rng.below(pool.len() as u64) as usize));
    }
    out
}
struct Pair {
    log: Box<dyn RaftLogStore>,
    bal: Box<dyn RaftBallotStore>,
}
fn pair(b: &Backend, s: u32) -> anyhow::Result<Pair> {
    let (l, v) = b.get(s)?;
    Ok(Pair {
        log: Box::new(l),
        bal: Box::new(v),
    })
}
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .build()
        .unwrap()
}
const LONG: Duration = Duration::from_secs(20);
/// None when the operation never ended.
async fn run_op(p: &Pair, o: &Op) -> Option<anyhow::Result<()>> {
    let f = async {
        match o {
            Op::Insert(i, e) => p.log.insert_entry(*i, e.entry()).await,
            Op::Before(i) => p.log.delete_entries_before(*i).await,
            Op::After(i) => p.log.delete_entries_after(*i).await,
            Op::Save(b) => p.bal.save_ballot(ballot(b)).await,
        }
    };
    tokio::time::timeout(LONG, f).await.ok()
}
/// The database itself panics in some places after a failed I/O; that counts as an error.
async fn caught<T>(f: impl std::future::Future<Output = anyhow::Result<T>>) -> anyhow::Result<T> {
    use futures::FutureExt;
    match std::panic::AssertUnwindSafe(f).catch_unwind().await {
        Ok(r) => r,
        Err(_) => Err(anyhow::anyhow!("panic")),
    }
}
async fn run_op_caught(p: &Pair, o: &Op) -> Option<anyhow::Result<()>> {
    match caught(async { Ok(run_op(p, o).await) }).await {
        Ok(r) => r,
        Err(e) => Some(Err(e)),
    }
}
async fn read_state(p: &Pair, upto: &[u64]) -> anyhow::Result<(State, u64, u64)> {
    let mut s = State::default();
    for i in upto {
        if let Some(e) = p.log.get_entry(*i).await? {
            s.log.insert(*i, Ent::of(&e));
        }
    }
    s.ballot = unballot(&p.bal.load_ballot().await?);
    Ok((
        s,
        p.log.get_head_index().await?,
        p.log.get_last_index().await?,
    ))
}
fn diff(got: &State, want: &State) -> Option<String> {
    if got.ballot != want.ballot {
        return Some(format!(
            "ballot {:?}, expected {:?}",
            got.ballot, want.ballot
        ));
    }
    for i in got.log.keys().chain(want.log.keys()) {
        let (a, b) = (got.log.get(i), want.log.get(i));
        if a != b {
            return Some(format!(
                "index {i}: {:?}, expected {:?}",
                a.map(|x| x.short()),
                b.map(|x| x.short())
            ));
        }
    }
    None
}

// ---------- reporting ----------
#[derive(Clone, Default)]
struct Rep(Arc<Mutex<(Vec<Viol>, BTreeMap<String, u64>, u64)>>);
impl Rep {
    fn viol(&self, props: &[&str], sig: &str, msg: String) {
        let mut g = self.0.lock().unwrap();
        if g.0.len() < 20 {
            g.0.push(Viol {
                props: props.iter().map(|x| x.to_string()).collect(),
                sig: sig.into(),
                msg,
                t_ms: 0,
            });
        }
    }
    fn bad(&self) -> bool {
        !self.0.lock().unwrap().0.is_empty()
    }
    fn stat(&self, k: &str, n: u64) {
        *self.0.lock().unwrap().1.entry(k.into()).or_default() += n;
    }
    fn shape(&self, x: u64) {
        let mut g = self.0.lock().unwrap();
        g.2 = mix(g.2, x);
    }
    fn give(&self, o: &mut Outcome) {
        let g = self.0.lock().unwrap();
        o.viols = g.0.clone();
        o.stats = g.1.clone();
        o.fingerprint = g.2;
    }
}
/// Wait for threads; a thread that does not end means that a store operation blocks for ever.
fn join(rep: &Rep, props: &[&str], hs: Vec<std::thread::JoinHandle<()>>) -> bool {
    let t = std::time::Instant::now();
    for h in hs {
        while !h.is_finished() {
            if t.elapsed() > Duration::from_secs(40) {
                rep.viol(
                    props,
                    "store-stuck",
                    "a store operation does not return within 40 s".into(),
                );
                return false;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if let Err(e) = h.join() {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            rep.viol(
                props,
                "store-panic",
                format!("a store operation panics: {m}"),
            );
        }
    }
    true
}

// ---------- C10: differential model under concurrency ----------
/// Every shard has one writer and readers, on handles of their own; a read must return what the
/// model holds in one of the versions that were current during the read.
fn redb_model(seed: u64, out: &mut Outcome) {
    let mut rng = Rng::new(seed);
    let rep = Rep::default();
    let media = Media::new(vec![]);
    media.0.lock().unwrap().slow = rng.p(0.5);
    let n = rng.range(1, 5) as usize;
    let ids = shards(&mut rng, n);
    let mut finals: BTreeMap<u32, (State, Vec<u64>)> = BTreeMap::new();
    for phase in 0..2 {
        let be = match media.open() {
            Ok(b) => b,
            Err(e) => {
                rep.viol(
                    &["C11", "C10"],
                    "reopen",
                    format!("the database does not open again: {e}"),
                );
                break;
            }
        };
        let mut hs = vec![];
        let results: Arc<Mutex<BTreeMap<u32, (State, Vec<u64>)>>> = Default::default();
        let mut readers_stop = vec![];
        for s in &ids {
            let s = *s;
            let base = match rng.below(4) {
                0 => 0,
                1 => rng.below(200),
                2 => (1 << 32) - 3,
                _ => rng.next() >> 2,
            };
            let (start, seen) = finals.get(&s).cloned().unwrap_or_default();
            let base = if phase == 0 { base } else { start.last() };
            let ops = workload(&mut rng, 30, base);
            for g in &ops {
                for o in g {
                    rep.shape(hash(o.short().as_bytes()));
                }
            }
            let (w, r1, r2) = match (pair(&be, s), pair(&be, s), pair(&be, s)) {
                (Ok(a), Ok(b), Ok(c)) => (a, b, c),
                _ => {
                    rep.viol(
                        &["C10"],
                        "open-shard",
                        format!("the stores of shard {s} cannot be opened"),
                    );
                    continue;
                }
            };
            // versions[k] = state after k groups; a burst adds one version per insertion subset,
            // so readers treat indices of a running burst as either old or new.
            let versions: Arc<RwLock<Vec<State>>> = Arc::new(RwLock::new(vec![start.clone()]));
            let started = Arc::new(AtomicU64::new(0));
            let done = Arc::new(AtomicU64::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            readers_stop.push(stop.clone());
            {
                let (rep, versions, started, done, results) = (
                    rep.clone(),
                    versions.clone(),
                    started.clone(),
                    done.clone(),
                    results.clone(),
                );
                let ids_seen = seen.clone();
                let mut rng = Rng::new(rng.next());
                let stop = stop.clone();
                hs.push(std::thread::spawn(move || {
                    let rt = rt();
                    let mut st = start;
                    let mut touched: Vec<u64> = ids_seen;
                    rt.block_on(async {
                        for g in &ops {
                            let mut nx = st.clone();
                            for o in g {
                                if let Op::Insert(i, _) = o {
                                    if !touched.contains(i) {
                                        touched.push(*i);
                                    }
                                }
                                o.apply(&mut nx);
                            }
                            versions.write().unwrap().push(nx.clone());
                            started.fetch_add(1, Ordering::SeqCst);
                            let rs =
                                futures::future::join_all(g.iter().map(|o| run_op(&w, o))).await;
                            for (o, r) in g.iter().zip(rs) {
                                match r {
                                    None => rep.viol(
                                        &["C10"],
                                        "store-stuck",
                                        format!("shard {s}: no answer to: {}", o.short()),
                                    ),
                                    Some(Err(e)) => rep.viol(
                                        &["C10"],
                                        "store-error",
                                        format!(
                                            "shard {s}: {} fails without a fault: {e}",
                                            o.short()
                                        ),
                                    ),
                                    Some(Ok(())) => {}
                                }
                            }
                            done.fetch_add(1, Ordering::SeqCst);
                            st = nx;
                            rep.stat("store_ops", g.len() as u64);
                            if rng.p(0.4) {
                                match read_state(&w, &touched).await {
                                    Ok((got, h, l)) => {
                                        rep.stat("full_comparisons", 1);
                                        if let Some(d) = diff(&got, &st) {
                                            rep.viol(
                                                &["C10"],
                                                "store-content",
                                                format!(
                                                    "shard {s} after {}: {d}",
                                                    g.last().unwrap().short()
                                                ),
                                            );
                                        }
                                        if (h, l) != (st.head(), st.last()) {
                                            rep.viol(
                                                &["C10"],
                                                "store-ends",
                                                format!(
                                                    "shard {s}: head {h} last {l}, expected {} {}",
                                                    st.head(),
                                                    st.last()
                                                ),
                                            );
                                        }
                                    }
                                    Err(e) => rep.viol(
                                        &["C10"],
                                        "store-error",
                                        format!("shard {s}: reading fails without a fault: {e}"),
                                    ),
                                }
                            }
                            if rep.bad() {
                                break;
                            }
                        }
                    });
                    stop.store(true, Ordering::SeqCst);
                    results.lock().unwrap().insert(s, (st, touched));
                }));
            }
            for rd in [r1, r2] {
                let (rep, versions, started, done, stop) = (
                    rep.clone(),
                    versions.clone(),
                    started.clone(),
                    done.clone(),
                    stop.clone(),
                );
                let mut rng = Rng::new(rng.next());
                hs.push(std::thread::spawn(move || {
                    let rt = rt();
                    rt.block_on(async {
                        while !stop.load(Ordering::SeqCst) {
                            let lo = done.load(Ordering::SeqCst) as usize;
                            let what = rng.below(4);
                            let idx = {
                                let v = versions.read().unwrap();
                                let x = &v[(v.len() - 1).min(lo + 1)];
                                match x.log.keys().copied().collect::<Vec<_>>() {
                                    k if k.is_empty() => 1,
                                    k => *rng.pick(&k),
                                }
                            };
                            let (mut e, mut b, mut n) = (None, None, 0);
                            let r = match what {
                                0 => rd.log.get_entry(idx).await.map(|x| e = x.as_ref().map(Ent::of)),
                                1 => rd.bal.load_ballot().await.map(|x| b = Some(unballot(&x))),
                                2 => rd.log.get_head_index().await.map(|x| n = x),
                                _ => rd.log.get_last_index().await.map(|x| n = x),
                            };
                            let hi = started.load(Ordering::SeqCst) as usize;
                            if let Err(x) = r {
                                rep.viol(&["C10"], "store-error", format!("shard {s}: reading fails without a fault: {x}"));
                                return;
                            }
                            let v = versions.read().unwrap();
                            let win = &v[lo..=hi];
                            let ok = match what {
                                0 => win.iter().any(|x| x.log.get(&idx) == e.as_ref()),
                                1 => win.iter().any(|x| Some(&x.ballot) == b.as_ref()),
                                // While a burst runs, the ends lie between those of the versions.
                                2 => { let a = win.iter().map(|x| x.head()); n >= a.clone().min().unwrap() && n <= a.max().unwrap() || lo != hi && win.iter().any(|x| x.log.contains_key(&n)) }
                                _ => { let a = win.iter().map(|x| x.last()); n >= a.clone().min().unwrap() && n <= a.max().unwrap() }
                            };
                            rep.stat("concurrent_reads", 1);
                            if hi > lo {
                                rep.stat("reads_during_writes", 1);
                            }
                            if !ok {
                                rep.viol(&["C10"], "store-read", format!("shard {s}: a read (kind {what}, index {idx}) returned {:?} {b:?} {n}, which is in none of the versions {lo}..={hi}", e.map(|x| x.short())));
                                return;
                            }
                        }
                    });
                }));
            }
        }
        let ok = join(&rep, &["C10"], hs);
        if !ok || rep.bad() {
            break;
        }
        finals = std::mem::take(&mut *results.lock().unwrap());
        // All shards side by side, at rest.
        rt().block_on(async {
            for (s, (st, touched)) in &finals {
                let Ok(p) = pair(&be, *s) else { continue };
                if let Ok((got, h, l)) = read_state(&p, touched).await {
                    rep.stat("full_comparisons", 1);
                    if let Some(d) = diff(&got, st) {
                        rep.viol(
                            &["C10", "C09"],
                            "store-content",
                            format!("shard {s} at rest: {d}"),
                        );
                    }
                    if (h, l) != (st.head(), st.last()) {
                        rep.viol(
                            &["C10", "C09"],
                            "store-ends",
                            format!(
                                "shard {s} at rest: head {h} last {l}, expected {} {}",
                                st.head(),
                                st.last()
                            ),
                        );
                    }
                }
            }
        });
        drop(be);
        if !media.wait_released() {
            rep.viol(
                &["C15"],
                "backend-kept",
                "the database stays open 10 s after the backend and all stores were dropped".into(),
            );
            break;
        }
        rep.stat("reopens", 1);
    }
    rep.give(out);
}

// ---------- C11: crash points ----------
#[derive(Clone)]
struct Done {
    /// Position in the I/O trace before the call and after the answer of each operation of the group.
    from: usize,
    acks: Vec<Option<usize>>,
}
fn redb_crash(seed: u64, out: &mut Outcome) {
    let mut rng = Rng::new(seed);
    let rep = Rep::default();
    let media = Media::new(vec![]);
    let n = rng.range(1, 4) as usize;
    let ids = shards(&mut rng, n);
    // Databases with a past: some start from what an earlier session left behind.
    let mut starts: BTreeMap<u32, State> = ids.iter().map(|s| (*s, State::default())).collect();
    let mut touched: BTreeMap<u32, Vec<u64>> = ids.iter().map(|s| (*s, vec![])).collect();
    let Ok(be) = media.open() else {
        rep.viol(
            &["C11"],
            "open",
            "an empty database cannot be opened".into(),
        );
        return rep.give(out);
    };
    if rng.p(0.5) {
        for s in &ids {
            let ops = workload(&mut rng, 10, 0);
            let Ok(p) = pair(&be, *s) else { continue };
            rt().block_on(async {
                for o in ops.iter().flatten() {
                    if matches!(run_op(&p, o).await, Some(Ok(()))) {
                        o.apply(starts.get_mut(s).unwrap());
                        if let Op::Insert(i, _) = o {
                            touched.get_mut(s).unwrap().push(*i);
                        }
                    }
                }
            });
        }
    }
    let open_in_trace = rng.p(0.3);
    let base_img = {
        let mut g = media.0.lock().unwrap();
        g.rec = Some(vec![]);
        g.slow = true;
        g.bytes.clone()
    };
    let pos = |m: &Media| m.0.lock().unwrap().rec.as_ref().unwrap().len();
    let mut pairs: BTreeMap<u32, Pair> = BTreeMap::new();
    for s in &ids {
        if let Ok(p) = pair(&be, *s) {
            pairs.insert(*s, p);
        }
    }
    if !open_in_trace {
        // Stores exist before the recording starts.
        let mut g = media.0.lock().unwrap();
        g.rec = Some(vec![]);
    }
    let base_img = if open_in_trace {
        base_img
    } else {
        media.0.lock().unwrap().bytes.clone()
    };
    let mut work: BTreeMap<u32, Vec<Vec<Op>>> = BTreeMap::new();
    let logs: Arc<Mutex<BTreeMap<u32, Vec<Done>>>> = Default::default();
    let mut hs = vec![];
    for s in ids.iter().copied() {
        let Some(p) = pairs.remove(&s) else { continue };
        let ops = workload(&mut rng, 12, starts[&s].last());
        work.insert(s, ops.clone());
        let (media, logs, rep) = (media.clone(), logs.clone(), rep.clone());
        hs.push(std::thread::spawn(move || {
            rt().block_on(async {
                let mut v = vec![];
                for g in &ops {
                    let from = pos(&media);
                    let acks = futures::future::join_all(g.iter().map(|o| async {
                        match run_op(&p, o).await {
                            Some(Ok(())) => Some(pos(&media)),
                            Some(Err(e)) => {
                                rep.viol(
                                    &["C10"],
                                    "store-error",
                                    format!("shard {s}: {} fails without a fault: {e}", o.short()),
                                );
                                None
                            }
                            None => {
                                rep.viol(
                                    &["C10"],
                                    "store-stuck",
                                    format!("shard {s}: no answer to: {}", o.short()),
                                );
                                None
                            }
                        }
                    }))
                    .await;
                    v.push(Done { from, acks });
                }
                logs.lock().unwrap().insert(s, v);
            });
        }));
    }
    if !join(&rep, &["C11", "C10"], hs) || rep.bad() {
        return rep.give(out);
    }
    let end_img = media.0.lock().unwrap().bytes.clone();
    let trace = media.0.lock().unwrap().rec.take().unwrap();
    rep.stat("io_operations", trace.len() as u64);
    for s in &ids {
        if let Some(w) = work.get(s) {
            for o in w.iter().flatten() {
                rep.shape(hash(o.short().as_bytes()));
                if let Op::Insert(i, _) = o {
                    touched.get_mut(s).unwrap().push(*i);
                }
            }
        }
    }
    drop(be);
    let logs = logs.lock().unwrap().clone();
    // Crash points: after every sync and ack, and a sample of the rest.
    let mut points: Vec<usize> = (0..60)
        .map(|_| rng.below(trace.len() as u64 + 1) as usize)
        .collect();
    for d in logs.values().flatten() {
        for a in d.acks.iter().flatten() {
            points.push(*a);
        }
    }
    points.sort();
    points.dedup();
    while points.len() > 90 {
        points.remove(rng.below(points.len() as u64) as usize);
    }
    points.push(usize::MAX);
    for k in points {
        let (img, kind) = if k == usize::MAX {
            (end_img.clone(), "process killed, nothing lost".to_string())
        } else {
            crash_image(&base_img, &trace[..k], &mut rng)
        };
        rep.stat("crash_points", 1);
        let k = k.min(trace.len());
        let m = Media::new(img);
        let be = match m.open() {
            Ok(b) => b,
            Err(e) => {
                rep.viol(
                    &["C11"],
                    "reopen",
                    format!("crash after I/O {k} ({kind}): the database does not open again: {e}"),
                );
                break;
            }
        };
        rt().block_on(async {
            for s in &ids {
                let (Some(w), Some(l)) = (work.get(s), logs.get(s)) else { continue };
                let p = match pair(&be, *s) {
                    Ok(p) => p,
                    Err(e) => {
                        rep.viol(&["C11"], "reopen", format!("crash after I/O {k} ({kind}): stores of shard {s} do not open: {e}"));
                        return;
                    }
                };
                let (got, h, last) = match read_state(&p, &touched[s]).await {
                    Ok(x) => x,
                    Err(e) => {
                        rep.viol(&["C11"], "reopen", format!("crash after I/O {k} ({kind}): shard {s} cannot be read: {e}"));
                        return;
                    }
                };
                if (h, last) != (got.head(), got.last()) {
                    rep.viol(&["C11", "C10"], "store-ends", format!("crash after I/O {k} ({kind}): shard {s} head {h} last {last}, entries {:?}", got.log.keys().collect::<Vec<_>>()));
                }
                // Groups answered completely before the crash took effect; the next one may have, in part.
                let mut st = starts[s].clone();
                let mut g = 0;
                while g < w.len() && l[g].acks.iter().all(|a| a.map(|a| a <= k).unwrap_or(false)) {
                    for o in &w[g] {
                        o.apply(&mut st);
                    }
                    g += 1;
                }
                let lower = st.clone();
                let mut ok = false;
                let running = g < w.len() && l[g].from <= k;
                let subsets: u32 = if running { 1 << w[g].len() } else { 1 };
                for sub in 0..subsets {
                    let mut x = lower.clone();
                    let mut valid = true;
                    if running {
                        for (j, o) in w[g].iter().enumerate() {
                            if sub >> j & 1 == 1 {
                                o.apply(&mut x);
                            } else if l[g].acks[j].map(|a| a <= k).unwrap_or(false) {
                                valid = false;
                            }
                        }
                    }
                    if valid && diff(&got, &x).is_none() {
                        ok = true;
                        break;
                    }
                }
                rep.stat("recovered_states", 1);
                if running {
                    rep.stat("crashes_during_an_operation", 1);
                }
                if !ok {
                    let mut up = lower.clone();
                    if running {
                        for o in &w[g] {
                            o.apply(&mut up);
                        }
                    }
                    rep.viol(&["C11"], "recovered-state", format!(
                        "crash after I/O {k} of {} ({kind}): shard {s} has neither the state of its {g} completed groups ({}) nor the one with the running group {:?} ({})",
                        trace.len(), diff(&got, &lower).unwrap_or_default(), w.get(g).map(|x| x.iter().map(|o| o.short()).collect::<Vec<_>>()), diff(&got, &up).unwrap_or_default()));
                    return;
                }
                // It goes on working.
                if rng.p(0.2) {
                    let i = got.last() + 1;
                    let e = Ent { prev: (3, i - 1), this: (4, i), cmd: Bytes::from_static(b"after") };
                    let b = (got.ballot.0 / 2 + 1, None);
                    let r1 = run_op(&p, &Op::Insert(i, e.clone())).await;
                    let r2 = run_op(&p, &Op::Save(b.clone())).await;
                    let back = p.log.get_entry(i).await.ok().flatten().map(|x| Ent::of(&x));
                    let bb = p.bal.load_ballot().await.ok().map(|x| unballot(&x));
                    if !matches!(r1, Some(Ok(()))) || !matches!(r2, Some(Ok(()))) || back != Some(e) || bb != Some(b) {
                        rep.viol(&["C11"], "not-usable", format!("crash after I/O {k} ({kind}): shard {s} does not work after reopening"));
                    }
                    rep.stat("writes_after_recovery", 1);
                }
            }
        });
        if rep.bad() {
            break;
        }
    }
    rep.give(out);
}
/// What the medium may hold when the power goes after the given operations: all that was synced,
/// and of the rest nothing, everything, a prefix, any subset, or a prefix with a torn write.
fn crash_image(base: &[u8], ops: &[Io], rng: &mut Rng) -> (Vec<u8>, String) {
    let mut b = base.to_vec();
    let hard = ops
        .iter()
        .rposition(|o| matches!(o, Io::Sync(false)))
        .map(|x| x + 1)
        .unwrap_or(0);
    for o in &ops[..hard] {
        apply(&mut b, o, None);
    }
    // Of the barriers after the last full sync, a prefix is on the medium.
    let mut segs: Vec<Vec<&Io>> = vec![vec![]];
    for o in &ops[hard..] {
        if matches!(o, Io::Sync(true)) {
            segs.push(vec![]);
        } else {
            segs.last_mut().unwrap().push(o);
        }
    }
    let upto = rng.below(segs.len() as u64) as usize;
    for s in &segs[..upto] {
        for o in s {
            apply(&mut b, o, None);
        }
    }
    let rest = &segs[upto];
    let kind = *rng.pick(&["lost", "kept", "prefix", "subset", "torn"]);
    match kind {
        "lost" => {}
        "kept" => rest.iter().for_each(|o| apply(&mut b, o, None)),
        "prefix" | "torn" => {
            let n = rng.below(rest.len() as u64 + 1) as usize;
            rest[..n].iter().for_each(|o| apply(&mut b, o, None));
            if kind == "torn" {
                if let Some(Io::Write(_, d)) = rest.get(n) {
                    let c = (rng.below(d.len() as u64 / 512 + 1) * 512) as usize;
                    let part = if rng.p(0.5) { (0, c) } else { (c, d.len()) };
                    apply(&mut b, rest[n], Some(part));
                }
            }
        }
        _ => {
            for o in rest {
                // Lengths change in order, data in any.
                if matches!(o, Io::Len(_)) || rng.p(0.5) {
                    apply(&mut b, o, None);
                }
            }
        }
    }
    (b, format!("{kind}, {} unsynced", ops.len() - hard))
}

// ---------- C11: failing I/O ----------
fn redb_fail(seed: u64, out: &mut Outcome) {
    let mut rng = Rng::new(seed);
    let rep = Rep::default();
    let media = Media::new(vec![]);
    let n = rng.range(1, 3) as usize;
    let ids = shards(&mut rng, n);
    let Ok(be) = media.open() else {
        return rep.give(out);
    };
    let mut pairs = vec![];
    for s in &ids {
        match pair(&be, *s) {
            Ok(p) => pairs.push((*s, p)),
            Err(_) => return rep.give(out),
        }
    }
    {
        let mut g = media.0.lock().unwrap();
        g.slow = rng.p(0.5);
        g.fail_from = g.n_io + rng.below(220);
        g.fail_to = g.fail_from + if rng.p(0.6) { 1 } else { rng.range(1, 40) };
    }
    type May = BTreeMap<u64, Vec<Option<Ent>>>;
    let results: Arc<Mutex<BTreeMap<u32, (May, Vec<(u64, Option<String>)>)>>> = Default::default();
    let mut hs = vec![];
    for (s, p) in pairs {
        let ops = workload(&mut rng, 25, 0);
        for o in ops.iter().flatten() {
            rep.shape(hash(o.short().as_bytes()));
        }
        let (rep, results, media) = (rep.clone(), results.clone(), media.clone());
        hs.push(std::thread::spawn(move || {
            rt().block_on(async {
                let mut may: May = BTreeMap::new();
                let mut bals: Vec<(u64, Option<String>)> = vec![(0, None)];
                for g in &ops {
                    for o in g {
                        if let Op::Insert(i, _) = o {
                            may.entry(*i).or_insert_with(|| vec![None]);
                        }
                    }
                    let rs =
                        futures::future::join_all(g.iter().map(|o| run_op_caught(&p, o))).await;
                    for (o, r) in g.iter().zip(rs) {
                        let ok = match r {
                            None => {
                                rep.viol(
                                    &["C11"],
                                    "store-stuck",
                                    format!(
                                        "shard {s}: no answer after an I/O failure to: {}",
                                        o.short()
                                    ),
                                );
                                return;
                            }
                            Some(Ok(())) => true,
                            Some(Err(_)) => {
                                if media.0.lock().unwrap().failed == 0 {
                                    rep.viol(
                                        &["C10"],
                                        "store-error",
                                        format!(
                                            "shard {s}: {} fails before any I/O failure",
                                            o.short()
                                        ),
                                    );
                                }
                                rep.stat("failed_operations", 1);
                                false
                            }
                        };
                        rep.stat("store_ops", 1);
                        let mut set = |m: &mut May, i: u64, v: Option<Ent>| {
                            let e = m.entry(i).or_insert_with(|| vec![None]);
                            if ok {
                                *e = vec![v];
                            } else {
                                e.push(v);
                            }
                        };
                        match o {
                            Op::Insert(i, e) => set(&mut may, *i, Some(e.clone())),
                            Op::Before(x) => {
                                let ks: Vec<u64> = may.range(..*x).map(|k| *k.0).collect();
                                ks.into_iter().for_each(|k| set(&mut may, k, None));
                            }
                            Op::After(x) => {
                                let ks: Vec<u64> = may.keys().copied().filter(|k| k > x).collect();
                                ks.into_iter().for_each(|k| set(&mut may, k, None));
                            }
                            Op::Save(b) => {
                                if ok {
                                    bals = vec![b.clone()];
                                } else {
                                    bals.push(b.clone());
                                }
                            }
                        }
                    }
                    // Reads that succeed must be right even now.
                    for (i, v) in &may {
                        if let Ok(x) = caught(p.log.get_entry(*i)).await {
                            let x = x.as_ref().map(Ent::of);
                            if !v.contains(&x) {
                                rep.viol(
                                    &["C11", "C10"],
                                    "read-after-failure",
                                    format!(
                                        "shard {s}: index {i} reads {:?} after {}",
                                        x.map(|x| x.short()),
                                        g.last().unwrap().short()
                                    ),
                                );
                                return;
                            }
                        }
                    }
                    if let Ok(b) = caught(p.bal.load_ballot()).await {
                        if !bals.contains(&unballot(&b)) {
                            rep.viol(
                                &["C11", "C10"],
                                "read-after-failure",
                                format!("shard {s}: ballot reads {b:?}, expected one of {bals:?}"),
                            );
                            return;
                        }
                    }
                }
                results.lock().unwrap().insert(s, (may, bals));
            });
        }));
    }
    if !join(&rep, &["C11"], hs) || rep.bad() {
        return rep.give(out);
    }
    rep.stat("io_failures", media.0.lock().unwrap().failed);
    let crash_now = rng.p(0.5);
    let img = if crash_now {
        media.0.lock().unwrap().bytes.clone()
    } else {
        drop(be);
        if !media.wait_released() {
            rep.viol(&["C15", "C11"], "backend-kept", "the database stays open 10 s after the backend and all stores were dropped (after an I/O failure)".into());
            return rep.give(out);
        }
        media.0.lock().unwrap().bytes.clone()
    };
    let m = Media::new(img);
    match m.open() {
        Err(e) => rep.viol(
            &["C11"],
            "reopen",
            format!("after an I/O failure the database does not open again: {e}"),
        ),
        Ok(be) => rt().block_on(async {
            for (s, (may, bals)) in results.lock().unwrap().iter() {
                let Ok(p) = pair(&be, *s) else {
                    rep.viol(
                        &["C11"],
                        "reopen",
                        format!("after an I/O failure the stores of shard {s} do not open again"),
                    );
                    continue;
                };
                rep.stat("recovered_states", 1);
                for (i, v) in may {
                    let x = p
                        .log
                        .get_entry(*i)
                        .await
                        .ok()
                        .flatten()
                        .as_ref()
                        .map(Ent::of);
                    if !v.contains(&x) {
                        rep.viol(
                            &["C11"],
                            "failed-write-state",
                            format!(
                                "shard {s}: index {i} holds {:?} after reopening, possible {:?}",
                                x.map(|x| x.short()),
                                v.iter()
                                    .map(|x| x.as_ref().map(|x| x.short()))
                                    .collect::<Vec<_>>()
                            ),
                        );
                    }
                }
                let b = p.bal.load_ballot().await.map(|x| unballot(&x)).ok();
                if !b.as_ref().map(|b| bals.contains(b)).unwrap_or(false) {
                    rep.viol(
                        &["C11"],
                        "failed-write-state",
                        format!("shard {s}: ballot {b:?} after reopening, possible {bals:?}"),
                    );
                }
                let i = p.log.get_last_index().await.unwrap_or(0) + 1;
                let e = Ent {
                    prev: (3, i - 1),
                    this: (4, i),
                    cmd: Bytes::from_static(b"after"),
                };
                if !matches!(run_op(&p, &Op::Insert(i, e.clone())).await, Some(Ok(())))
                    || p.log.get_entry(i).await.ok().flatten().map(|x| Ent::of(&x)) != Some(e)
                {
                    rep.viol(
                        &["C11"],
                        "not-usable",
                        format!(
                            "shard {s}: the store does not work after an I/O failure and reopening"
                        ),
                    );
                }
            }
        }),
    }
    rep.give(out);
}

// ---------- C15: releasing the backend ----------
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task")
        .map(|d| d.count())
        .unwrap_or(0)
}
fn redb_drop(seed: u64, out: &mut Outcome) {
    let mut rng = Rng::new(seed);
    let rep = Rep::default();
    let media = Media::new(vec![]);
    let before = threads();
    for round in 0..6 {
        let Ok(be) = media.open() else {
            rep.viol(
                &["C15"],
                "reopen",
                format!(
                    "round {round}: the database does not open again after its backend was dropped"
                ),
            );
            break;
        };
        let n = rng.below(4) as usize;
        let ids = shards(&mut rng, n);
        rep.shape(mix(n as u64, round));
        let mut ps = vec![];
        for s in &ids {
            if let Ok(p) = pair(&be, *s) {
                ps.push(p);
            }
        }
        let mode = rng.below(4);
        rep.shape(mode);
        let rtm = rt();
        rtm.block_on(async {
            for p in &ps {
                let i = p.log.get_last_index().await.unwrap_or(0) + 1;
                let e = Ent {
                    prev: (1, i - 1),
                    this: (1, i),
                    cmd: Bytes::from_static(b"x"),
                };
                if mode == 1 {
                    // Abandon an insertion half-way.
                    tokio::time::timeout(
                        Duration::from_micros(rng.below(300)),
                        p.log.insert_entry(i, e.entry()),
                    )
                    .await
                    .ok();
                } else if mode == 2 {
                    run_op(p, &Op::Insert(i, e)).await;
                }
            }
        });
        let mut be = Some(be);
        if rng.p(0.5) {
            be = None;
            // The stores work on without the backend.
            if let Some(p) = ps.first() {
                rtm.block_on(async {
                    let i = p.log.get_last_index().await.unwrap_or(0) + 1;
                    let e = Ent {
                        prev: (1, i - 1),
                        this: (1, i),
                        cmd: Bytes::from_static(b"y"),
                    };
                    if !matches!(run_op(p, &Op::Insert(i, e)).await, Some(Ok(()))) {
                        rep.viol(
                            &["C15", "C10"],
                            "store-after-backend",
                            "a store stops working when the backend object is dropped".into(),
                        );
                    }
                });
            }
        }
        drop(ps);
        drop(be);
        rep.stat("backend_drops", 1);
        if !media.wait_released() {
            rep.viol(&["C15"], "backend-kept", format!("the database stays open 10 s after the backend and all stores were dropped (mode {mode}, {n} shards)"));
            break;
        }
    }
    if !rep.bad() {
        let mut left = threads();
        for _ in 0..1000 {
            if left <= before {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            left = threads();
        }
        if left > before {
            rep.viol(
                &["C15"],
                "worker-kept",
                format!(
                    "{} worker threads remain 5 s after all backends were dropped",
                    left - before
                ),
            );
        }
    }
    rep.give(out);
}
