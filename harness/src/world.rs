//! Simulated world: persistent node storage, links, faults, and the online monitors.
use crate::rng::{mix, Rng};
use crate::wire::{self, Cmd};
use bytes::Bytes;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex, MutexGuard};

thread_local! {
    pub static WORLD: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
}
/// The world of a run on several threads.
pub static SHARED: Mutex<Option<Arc<World>>> = Mutex::new(None);
pub fn current() -> Option<Arc<World>> {
    WORLD
        .with(|w| w.borrow().clone())
        .or_else(|| SHARED.lock().unwrap_or_else(|e| e.into_inner()).clone())
}

#[derive(Clone)]
pub struct LEntry {
    pub prev: (u64, u64), // (term, index)
    pub this: (u64, u64),
    pub raw: Bytes,
    pub cmd: Cmd,
    pub digest: u64,
}
#[derive(Clone, Default)]
pub struct SnapState {
    pub list: Vec<u64>,
    pub hash: u64,
    pub last: u64,
}
impl SnapState {
    pub fn ser(&self) -> Vec<u8> {
        let mut b = bincode::serialize(&(&self.list, self.hash, self.last)).unwrap();
        let h = crate::rng::hash(&b);
        b.extend_from_slice(&h.to_le_bytes());
        b
    }
    pub fn de(b: &[u8]) -> Option<Self> {
        if b.len() < 8 {
            return None;
        }
        let (body, h) = b.split_at(b.len() - 8);
        if crate::rng::hash(body).to_le_bytes() != h {
            return None;
        }
        let (list, hash, last) = bincode::deserialize(body).ok()?;
        Some(SnapState { list, hash, last })
    }
}
#[derive(Default)]
pub struct Disk {
    pub log: BTreeMap<u64, LEntry>,
    pub term: u64,
    pub vote: Option<String>,
    pub snaps: BTreeMap<u64, SnapState>,
    pub version: u64,
    /// Configurations ever stored in this log, oldest first.
    pub configs: Vec<BTreeSet<String>>,
    /// The process generation allowed to use this disk (see C15).
    pub gen: u64,
    pub detached_at: Option<u64>,
}
impl Disk {
    pub fn last(&self) -> u64 {
        self.log.keys().next_back().copied().unwrap_or(0)
    }
    pub fn last_clock(&self) -> (u64, u64) {
        self.log
            .values()
            .next_back()
            .map(|e| e.this)
            .unwrap_or((0, 0))
    }
    pub fn newest_config(&self) -> Option<(u64, BTreeSet<String>)> {
        self.log
            .iter()
            .rev()
            .find_map(|(i, e)| e.cmd.config().map(|c| (*i, c.clone())))
    }
    pub fn config_upto(&self, i: u64) -> Option<(u64, BTreeSet<String>)> {
        self.log
            .range(..=i)
            .rev()
            .find_map(|(i, e)| e.cmd.config().map(|c| (*i, c.clone())))
    }
    pub fn snapshot_index(&self) -> Option<u64> {
        self.log
            .iter()
            .rev()
            .find(|(_, e)| e.cmd.is_snapshot())
            .map(|(i, _)| *i)
    }
    /// Is the entry with this clock stored here (possibly inside a snapshot)?
    pub fn stores(&self, idx: u64, term: u64) -> bool {
        // What lies below a snapshot is covered by it, even if older entries are still there.
        if self.snapshot_index().map(|s| s > idx).unwrap_or(false) {
            return true;
        }
        self.log
            .get(&idx)
            .map(|e| e.this.0 == term || e.cmd.is_snapshot())
            .unwrap_or(false)
    }
}
#[derive(Clone, Default, Debug)]
pub struct AppView {
    pub last: u64,
    pub count: u64,
    pub hash: u64,
    pub inc: u64,
    /// The snapshot this state was started from.
    pub base: u64,
}
pub struct Node {
    pub up: bool,
    pub inc: u64,
    pub disks: BTreeMap<u32, Disk>,
    pub views: BTreeMap<u32, AppView>,
    pub incoming: Option<tokio::sync::mpsc::UnboundedSender<crate::net::SimIo>>,
    /// The application of this node takes up to so long, at every step.
    pub app_slow_ms: u64,
    pub slow_ms: u64,
    pub err_p: f64,
    pub stalled: HashSet<u32>,
    /// Shards this node does not host.
    pub absent: HashSet<u32>,
    /// Its `RaftNode` has been dropped (see C15).
    pub dropped: bool,
    pub db: Option<Arc<Mutex<Vec<u8>>>>,
}
pub struct ConnHandle {
    pub src: usize,
    pub dst: usize,
    pub kill: tokio::sync::watch::Sender<bool>,
}
#[derive(Clone)]
pub struct Applied {
    pub op: u64,
    pub count: u64,
    pub hash: u64,
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub op: u64,
    pub write: bool,
    pub call: u64,
    pub ret: Option<u64>,
    pub count: u64,
    pub hash: u64,
    pub idx: u64,
    pub node: usize,
    pub t_call: u64,
    pub t_ret: u64,
}
#[derive(Clone, Debug)]
pub struct MemRec {
    pub add: bool,
    pub server: usize,
    pub call: u64,
    pub ret: Option<u64>,
    pub ok: bool,
}
#[derive(Default)]
pub struct ShardMon {
    pub clocks: HashMap<(u64, u64), (u64, bool, u64)>,
    /// Committed entries: the term of the entry and the lowest term by which it was committed,
    /// as far as seen (an upper bound).
    pub committed: BTreeMap<u64, (u64, u64)>,
    pub canon: BTreeMap<u64, Applied>,
    pub by_count: BTreeMap<u64, (u64, u64)>,
    pub op_idx: HashMap<u64, u64>,
    pub leaders: BTreeMap<u64, usize>,
    pub grants: HashMap<u64, BTreeMap<usize, String>>,
    pub all_configs: Vec<(u64, BTreeSet<String>)>,
    pub hist: BTreeMap<u64, OpRec>,
    pub mems: Vec<MemRec>,
    pub last_hb: HashMap<usize, (u64, u64)>,
    /// When the newest leader was seen for the first time.
    pub leader_at: u64,
    /// A request that failed in an undisturbed cluster.
    pub refused: Option<String>,
    /// Entries removed from a log (node, term, index), and the term the node was at.
    pub removed: HashMap<(usize, u64, u64), u64>,
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    pub sig: String,
    pub msg: String,
    pub t_ms: u64,
}
#[derive(Clone)]
pub struct Cfg {
    pub nodes: usize,
    pub shards: Vec<u32>,
    /// Probability that a store operation takes time, and the longest it takes.
    pub store_p: f64,
    pub store_max_ms: u64,
    pub read_p: f64,
    pub read_max_ms: u64,
    pub rpc_p: f64,
    pub rpc_max_ms: u64,
    pub link_ms: u64,
    pub snap_every: u64,
    pub app_p: f64,
    pub app_max_ms: u64,
    /// The applications of only these nodes are slow (empty: of all).
    pub app_slow: Vec<usize>,
    /// Probability that reading a snapshot fails half-way, and the longest time between chunks.
    pub snap_err_p: f64,
    pub chunk_ms: u64,
    pub redb: bool,
    /// Panics, terms etc. that are allowed to differ are controlled by the scenario.
    pub unbounded_time: bool,
    /// Further properties that a shard which does not come back breaks in this run.
    pub live: Vec<&'static str>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            nodes: 3,
            shards: vec![0],
            store_p: 0.3,
            store_max_ms: 10,
            read_p: 0.02,
            read_max_ms: 2,
            rpc_p: 0.3,
            rpc_max_ms: 30,
            link_ms: 3,
            snap_every: 0,
            app_p: 0.1,
            app_max_ms: 8,
            app_slow: vec![],
            snap_err_p: 0.0,
            chunk_ms: 10,
            redb: false,
            unbounded_time: false,
            live: vec![],
        }
    }
}
#[derive(Default, Clone)]
pub struct RpcFault {
    pub err_before: f64,
    pub err_after: f64,
    /// Only these (src, dst) pairs; None = all node-to-node pairs.
    pub only: Option<HashSet<(usize, usize)>>,
    /// Only RPCs with these names.
    pub kinds: Option<HashSet<&'static str>>,
    /// Extra delay before handling.
    pub delay_p: f64,
    pub delay_ms: u64,
}
pub type Blocker = Box<dyn Fn(&RpcInfo) -> Action + Send>;
pub struct RpcInfo<'a> {
    pub src: usize,
    pub dst: usize,
    pub kind: &'static str,
    pub msg: &'a [u8],
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Action {
    Pass,
    Fail,
    FailAfter,
    Delay(u64),
    DelayAfter(u64),
    Hang,
}
pub struct Inner {
    pub rng: Rng,
    pub nodes: Vec<Node>,
    pub cut: HashSet<(usize, usize)>,
    pub dial_fast_fail: bool,
    pub conns: Vec<ConnHandle>,
    pub shards: BTreeMap<u32, ShardMon>,
    pub viols: Vec<Viol>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub fingerprint: u64,
    pub seq: u64,
    pub rpc_fault: RpcFault,
    pub blocker: Option<Blocker>,
    /// When false the random delays are off (settle phase keeps small ones).
    pub chaos: bool,
    pub livelock: bool,
    /// A known finding has shown itself; what follows from it is not judged.
    pub tainted: bool,
    pub known: BTreeSet<String>,
    pub rpc_at: (u64, u64),
    pub uris: HashMap<String, usize>,
    pub digest: u64,
}
pub struct World {
    pub cfg: Cfg,
    pub inner: Mutex<Inner>,
    pub link_notify: tokio::sync::Notify,
}
impl World {
    pub fn new(cfg: Cfg, seed: u64, tracing: bool) -> Arc<Self> {
        let mut nodes = vec![];
        let mut uris = HashMap::new();
        for n in 0..cfg.nodes {
            let mut disks = BTreeMap::new();
            let mut views = BTreeMap::new();
            for s in &cfg.shards {
                disks.insert(*s, Disk::default());
                views.insert(*s, AppView::default());
            }
            uris.insert(wire::uri(n), n);
            nodes.push(Node {
                up: false,
                inc: 0,
                disks,
                views,
                incoming: None,
                absent: Default::default(),
                app_slow_ms: 0,
                slow_ms: 0,
                err_p: 0.0,
                stalled: HashSet::new(),
                dropped: false,
                db: None,
            });
        }
        let shards = cfg
            .shards
            .iter()
            .map(|s| (*s, ShardMon::default()))
            .collect();
        Arc::new(World {
            inner: Mutex::new(Inner {
                rng: Rng::new(seed),
                nodes,
                cut: HashSet::new(),
                dial_fast_fail: true,
                conns: vec![],
                shards,
                viols: vec![],
                tracing,
                trace: vec![],
                stats: BTreeMap::new(),
                fingerprint: 0,
                seq: 0,
                rpc_fault: RpcFault::default(),
                blocker: None,
                chaos: true,
                livelock: false,
                tainted: false,
                known: BTreeSet::new(),
                rpc_at: (0, 0),
                uris,
                digest: 0,
            }),
            cfg,
            link_notify: tokio::sync::Notify::new(),
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
}
/// Time of the run: simulated, or real in runs on several threads.
pub fn now_ms() -> u64 {
    if crate::shim::is_sim() {
        crate::shim::virtual_nanos() / 1_000_000
    } else {
        crate::mt::real_ms()
    }
}

#[macro_export]
macro_rules! tr {
    ($i:expr, $($a:tt)*) => {
        if $i.tracing { let s = format!("{:>8} {}", $crate::world::now_ms(), format!($($a)*)); $i.trace.push(s); }
    };
}

impl Inner {
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    /// An event that shapes the behaviour class of a run.
    pub fn shape(&mut self, k: &'static str, a: u64, b: u64) {
        self.stat(k);
        self.fingerprint = mix(
            mix(mix(self.fingerprint, crate::rng::hash(k.as_bytes())), a),
            b,
        );
    }
    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn viol(&mut self, props: &[&str], sig: &str, msg: String) {
        if self.tainted {
            return;
        }
        tr!(self, "VIOLATION {:?} {} {}", props, sig, msg);
        if self.viols.len() < 60 && self.viols.iter().filter(|v| v.sig == sig).count() < 5 {
            self.viols.push(Viol {
                props: props.iter().map(|s| s.to_string()).collect(),
                sig: sig.into(),
                msg,
                t_ms: now_ms(),
            });
        }
    }
    pub fn over(&self) -> bool {
        self.livelock || self.tainted
    }
    pub fn link_up(&self, a: usize, b: usize) -> bool {
        !self.cut.contains(&(a, b))
    }
    pub fn disk(&mut self, n: usize, s: u32) -> &mut Disk {
        self.nodes[n].disks.get_mut(&s).unwrap()
    }
    fn who(&self, id: &str) -> String {
        self.uris
            .get(id)
            .map(|n| format!("n{n}"))
            .unwrap_or(id.to_string())
    }

    // ---------- log monitors ----------
    pub fn on_insert(&mut self, n: usize, s: u32, i: u64, e: LEntry) {
        self.stat("log_inserts");
        let snap = e.cmd.is_snapshot();
        // Where the entry comes from is decided by its content: a clock nobody has stored yet is an
        // append by the node itself, and a snapshot at a clock the node has is its own compaction.
        let from_peer = if snap {
            self.disk(n, s).log.get(&i).map(|x| x.this) != Some(e.this) && i > 1
        } else {
            self.shards[&s].clocks.contains_key(&e.this)
        };
        let c = format!(
            "shard {s} n{n} index {i} clock {:?} {}",
            e.this,
            e.cmd.short()
        );
        tr!(
            self,
            "insert {c} prev={:?} {}",
            e.prev,
            if from_peer { "received" } else { "own" }
        );
        if e.this.1 != i {
            self.viol(
                &["C06"],
                "insert-index",
                format!("entry stored under another index: {c}"),
            );
        }
        if !snap && e.prev.1 + 1 != i {
            self.viol(
                &["C06"],
                "prev-index",
                format!("prev clock {:?} does not precede: {c}", e.prev),
            );
        }
        // One content per clock.
        let mut mismatch = None;
        {
            let m = self.shards.get_mut(&s).unwrap();
            match m.clocks.get(&e.this) {
                None => {
                    m.clocks.insert(e.this, (e.digest, snap, e.prev.0));
                }
                Some((d, sn, pt)) => {
                    if !*sn && !snap {
                        if *d != e.digest || *pt != e.prev.0 {
                            mismatch = Some((*d, *pt));
                        }
                    } else if *sn && !snap {
                        m.clocks.insert(e.this, (e.digest, snap, e.prev.0));
                    }
                }
            }
        }
        if mismatch.is_some() {
            self.viol(
                &["C06"],
                "clock-content",
                format!("two different entries with one clock: {c}"),
            );
        }
        let ballot_term = self.disk(n, s).term;
        if e.this.0 > ballot_term {
            self.viol(
                &["C06"],
                "term-ahead",
                format!(
                    "entry of a term the replica has not adopted (ballot term {ballot_term}): {c}"
                ),
            );
        }
        let (prev_clock, old, next_prev, last, head) = {
            let d = self.disk(n, s);
            (
                d.log.get(&(i.wrapping_sub(1))).map(|x| x.this),
                d.log.get(&i).map(|x| (x.this, x.cmd.is_snapshot())),
                d.log.get(&(i + 1)).map(|x| x.prev),
                d.last(),
                d.log.keys().next().copied().unwrap_or(0),
            )
        };
        if !snap {
            if i > last + 1 || last == 0 {
                self.viol(
                    &["C06"],
                    "gap",
                    format!("entry leaves a gap after {last}: {c}"),
                );
            }
            if let Some(p) = prev_clock {
                if p != e.prev {
                    self.viol(
                        &["C06"],
                        "prev-mismatch",
                        format!(
                            "previous entry has clock {p:?}, entry says {:?}: {c}",
                            e.prev
                        ),
                    );
                }
                if e.this.0 < p.0 {
                    self.viol(
                        &["C06"],
                        "term-decreases",
                        format!("term below the previous entry's {p:?}: {c}"),
                    );
                }
            } else if i >= head && last > 0 {
                self.viol(&["C06"], "no-prev", format!("no previous entry: {c}"));
            }
        }
        if let Some(np) = next_prev {
            if np != e.this {
                self.viol(
                    &["C06"],
                    "stale-tail",
                    format!("entry {} above it still follows {np:?}: {c}", i + 1),
                );
            }
        }
        if let Some((o, _)) = old {
            if o != e.this {
                self.shape("conflict_overwrites", n as u64, i);
                self.note_removed(n, s, &[o]);
                self.check_not_committed(n, s, i, o, &c);
            }
        }
        if from_peer {
            self.check_legit(n, s, e.this, &c);
        } else if !snap {
            // The node appends on its own behalf: it must be the leader of that term.
            let term = e.this.0;
            if let Cmd::Barrier(t) = e.cmd {
                if t == term {
                    self.learn_leader(n, s, term, "barrier");
                } else {
                    self.viol(
                        &["C06"],
                        "barrier-term",
                        format!("barrier for term {t}: {c}"),
                    );
                }
            } else {
                let l = self.shards[&s].leaders.get(&term).copied();
                if l != Some(n) {
                    self.viol(
                        &["C06"],
                        "foreign-append",
                        format!("n{n} appends in term {term}, whose leader is {l:?}: {c}"),
                    );
                }
            }
            if let Some(new) = e.cmd.config() {
                self.check_config_append(n, s, i, new.clone(), &c);
            }
        } else if let Some((o, _)) = old {
            if o != e.this {
                self.viol(
                    &["C06", "C08"],
                    "snapshot-clock",
                    format!("local snapshot entry replaces {o:?}: {c}"),
                );
            }
            let want = self.disk(n, s).config_upto(i).map(|x| x.1);
            if want.as_ref() != e.cmd.config() {
                self.viol(
                    &["C08", "C07"],
                    "snapshot-config",
                    format!("snapshot entry carries another membership than the log {want:?}: {c}"),
                );
            }
        }
        if snap && from_peer {
            self.shape("snapshot_entries_received", n as u64, i);
            // The membership of the snapshot must be the one in force at that index.
            if let Some((_, cfg)) = self.config_in_force(s, i) {
                if Some(&cfg) != e.cmd.config() {
                    self.viol(
                        &["C08", "C07"],
                        "snapshot-config",
                        format!(
                            "received snapshot entry carries another membership than {cfg:?}: {c}"
                        ),
                    );
                }
            }
        }
        if snap && !self.nodes[n].disks[&s].snaps.contains_key(&i) && i > 1 {
            self.viol(
                &["C08"],
                "snapshot-missing",
                format!("snapshot entry without a stored snapshot: {c}"),
            );
        }
        if let Some(cfg) = e.cmd.config() {
            let cfg = cfg.clone();
            if !snap {
                let m = self.shards.get_mut(&s).unwrap();
                if !m.all_configs.contains(&(i, cfg.clone())) {
                    m.all_configs.push((i, cfg.clone()));
                }
                self.shape("config_entries", n as u64, i);
            } else if i == 1 {
                self.shards
                    .get_mut(&s)
                    .unwrap()
                    .all_configs
                    .push((1, cfg.clone()));
            }
            let d = self.disk(n, s);
            if d.configs.last() != Some(&cfg) {
                d.configs.push(cfg);
            }
        }
        self.digest = mix(self.digest, mix(e.this.0, e.this.1 ^ ((n as u64) << 40)));
        let d = self.disk(n, s);
        d.version += 1;
        d.log.insert(i, e);
    }
    /// Newest configuration among committed entries up to i, if known for sure.
    fn config_in_force(&self, s: u32, i: u64) -> Option<(u64, BTreeSet<String>)> {
        let m = &self.shards[&s];
        if !m.committed.contains_key(&i) {
            return None;
        }
        // A node whose log holds i as a normal, committed entry and reaches down to a configuration.
        for nd in &self.nodes {
            let d = &nd.disks[&s];
            if let Some(e) = d.log.get(&i) {
                if Some(e.this.0) == m.committed.get(&i).map(|x| x.0) && !e.cmd.is_snapshot() {
                    if let Some(c) = d.config_upto(i) {
                        return Some(c);
                    }
                }
            }
        }
        None
    }
    fn check_not_committed(&mut self, n: usize, s: u32, i: u64, old: (u64, u64), c: &str) {
        // A leader that was deposed before the entry was committed may still overwrite it where its
        // successor is not known yet.
        let Some((t, by)) = self.shards[&s].committed.get(&i).copied() else {
            return;
        };
        let nd = &self.nodes[n];
        if t == old.0 && (nd.disks[&s].term >= by || nd.views[&s].last >= i) {
            self.viol(
                &["C02", "C06"],
                "committed-removed",
                format!("n{n} drops committed entry {old:?}: {c}"),
            );
        }
    }
    /// A replica at term t takes over entries only from the leader of t.
    fn check_legit(&mut self, n: usize, s: u32, clock: (u64, u64), c: &str) {
        let term = self.disk(n, s).term;
        let Some(l) = self.shards[&s].leaders.get(&term).copied() else {
            self.viol(
                &["C06"],
                "leaderless-insert",
                format!(
                    "n{n} is at term {term}, which nobody leads yet, and takes over an entry: {c}"
                ),
            );
            return;
        };
        let d = &self.nodes[l].disks[&s];
        let has = d
            .log
            .get(&clock.1)
            .map(|e| e.this == clock)
            .unwrap_or(false)
            || d.snapshot_index().map(|x| x >= clock.1).unwrap_or(false);
        let had = self.shards[&s]
            .removed
            .get(&(l, clock.0, clock.1))
            .map(|t| *t > term)
            .unwrap_or(false);
        if l == n {
            self.viol(
                &["C06"],
                "leader-log-replaced",
                format!("n{n} leads term {term} and takes over an entry: {c}"),
            );
        } else if !has && !had {
            self.viol(&["C06"], "illegitimate-entry", format!("n{n} (term {term}, leader n{l}) takes over an entry that its leader does not have: {c}"));
        }
    }
    pub fn on_truncate(&mut self, n: usize, s: u32, i: u64) {
        let gone: Vec<(u64, u64)> = self
            .disk(n, s)
            .log
            .range(i + 1..)
            .map(|(_, e)| e.this)
            .collect();
        tr!(
            self,
            "truncate shard {s} n{n} after {i} ({} entries)",
            gone.len()
        );
        if gone.is_empty() {
            return;
        }
        self.shape("truncations", n as u64, gone.len() as u64);
        for o in &gone {
            self.check_not_committed(n, s, o.1, *o, "truncation");
        }
        let term = self.disk(n, s).term;
        if self.shards[&s].leaders.get(&term) == Some(&n) {
            self.viol(
                &["C06"],
                "leader-truncates",
                format!(
                    "shard {s}: n{n} leads term {term} and removes entries after {i} of its log"
                ),
            );
        }
        self.note_removed(n, s, &gone);
        let d = self.disk(n, s);
        d.version += 1;
        d.log.split_off(&(i + 1));
    }
    fn note_removed(&mut self, n: usize, s: u32, gone: &[(u64, u64)]) {
        let term = self.disk(n, s).term;
        let m = self.shards.get_mut(&s).unwrap();
        for o in gone {
            m.removed.insert((n, o.0, o.1), term);
        }
    }
    pub fn on_delete_before(&mut self, n: usize, s: u32, i: u64) {
        let (snap, removed) = {
            let d = self.disk(n, s);
            (d.snapshot_index(), d.log.range(..i).count())
        };
        if removed > 0 {
            self.shape("compactions", n as u64, removed as u64);
            tr!(self, "compact shard {s} n{n} before {i}");
            if snap.map(|x| x < i).unwrap_or(true) {
                self.viol(&["C08"], "compacted-too-far", format!("shard {s} n{n}: entries before {i} deleted, newest snapshot entry {snap:?}"));
            }
        }
        let d = self.disk(n, s);
        d.log = d.log.split_off(&i);
    }
    pub fn on_delete_snaps(&mut self, n: usize, s: u32, i: u64) {
        let snap = self.disk(n, s).snapshot_index().unwrap_or(0);
        let removed: Vec<u64> = self.disk(n, s).snaps.range(..i).map(|x| *x.0).collect();
        if removed.iter().any(|r| *r >= snap) {
            self.viol(
                &["C08"],
                "snapshot-deleted",
                format!("shard {s} n{n}: snapshots before {i} deleted while {snap} is in use"),
            );
        }
        let d = self.disk(n, s);
        d.snaps = d.snaps.split_off(&i);
    }
    fn check_config_append(&mut self, n: usize, s: u32, i: u64, new: BTreeSet<String>, c: &str) {
        let Some((pi, prev)) = self.disk(n, s).config_upto(i - 1) else {
            return;
        };
        let diff = prev.symmetric_difference(&new).count();
        if diff > 1 {
            self.viol(
                &["C07"],
                "config-jump",
                format!("membership changes by {diff} servers at once (from {prev:?}): {c}"),
            );
        }
        let pt = self.disk(n, s).log[&pi].this.0;
        if !self.stored_majority(s, n, pi, pt) {
            self.viol(
                &["C07"],
                "config-overlap",
                format!("the membership at {pi} is not yet stored by a majority: {c}"),
            );
        }
    }
    /// Is (idx, term) stored by a majority of a configuration that may have been the newest one
    /// in a leader's log when it was committed?
    pub fn stored_majority(&self, s: u32, n: usize, idx: u64, term: u64) -> bool {
        let m = &self.shards[&s];
        let mut cfgs: Vec<&BTreeSet<String>> = vec![];
        let base = self.nodes[n].disks[&s].config_upto(idx);
        if let Some((_, c)) = &base {
            cfgs.push(c);
        }
        for (i, c) in &m.all_configs {
            if *i > idx {
                cfgs.push(c);
            }
        }
        if cfgs.is_empty() {
            return true;
        }
        cfgs.iter().any(|c| {
            let k = c
                .iter()
                .filter(|id| {
                    self.uris
                        .get(*id)
                        .map(|x| self.nodes[*x].disks[&s].stores(idx, term))
                        .unwrap_or(false)
                })
                .count();
            k * 2 > c.len()
        })
    }

    // ---------- election monitors ----------
    pub fn on_save_ballot(&mut self, n: usize, s: u32, term: u64, vote: Option<String>) {
        let (ot, ov) = {
            let d = self.disk(n, s);
            (d.term, d.vote.clone())
        };
        if (ot, &ov) != (term, &vote) {
            tr!(self, "ballot shard {s} n{n} {ot},{ov:?} -> {term},{vote:?}");
            self.digest = mix(self.digest, mix(term, n as u64));
        }
        if term < ot {
            self.viol(
                &["C05"],
                "term-back",
                format!("shard {s} n{n}: saved term goes back from {ot} to {term}"),
            );
        }
        if term == ot && ov.is_some() && vote.is_none() {
            self.viol(
                &["C05"],
                "vote-forgotten",
                format!("shard {s} n{n}: vote {ov:?} of term {term} erased"),
            );
        }
        if term == ot && ov.is_some() && vote != ov {
            // Legitimate only when the replica learns who leads the term.
            let v = vote.clone().unwrap_or_default();
            let leader = self.shards[&s].leaders.get(&term).copied();
            if self.uris.get(&v).copied() != leader {
                self.viol(&["C05"], "vote-changed", format!("shard {s} n{n}: vote of term {term} changes from {ov:?} to {v}, leader {leader:?}"));
            }
        }
        if term > ot {
            self.shape("term_adoptions", n as u64, term);
        }
        let d = self.disk(n, s);
        d.term = term;
        d.vote = vote.clone();
        // A vote for oneself counts as a grant.
        let me = wire::uri(n);
        if vote.as_deref() == Some(&me) && (term, ov.as_deref()) != (ot, Some(&me)) && term > ot {
            self.grant(n, s, term, me);
        }
    }
    fn grant(&mut self, voter: usize, s: u32, term: u64, cand: String) {
        let m = self.shards.get_mut(&s).unwrap();
        let g = m.grants.entry(term).or_default();
        match g.get(&voter) {
            None => {
                g.insert(voter, cand);
            }
            Some(o) if *o == cand => {}
            Some(o) => {
                let o = o.clone();
                let msg = format!(
                    "shard {s}: n{voter} votes for {} and {} in term {term}",
                    self.who(&o),
                    self.who(&cand)
                );
                self.viol(&["C05"], "double-vote", msg);
            }
        }
    }
    pub fn on_vote_answer(
        &mut self,
        voter: usize,
        before: VoteBefore,
        req: &wire::VoteRequest,
        granted: bool,
    ) {
        let s = req.shard_id;
        if !self.shards.contains_key(&s) {
            return;
        }
        self.shape(
            if req.pre_vote { "pre_votes" } else { "votes" },
            voter as u64,
            granted as u64,
        );
        tr!(
            self,
            "vote n{voter} for {} term {} pre={} force={} -> {granted}",
            req.candidate_id,
            req.vote_term,
            req.pre_vote,
            req.force_vote
        );
        if !granted || req.pre_vote {
            return;
        }
        let cand = req.candidate_id.clone();
        self.grant(voter, s, req.vote_term, cand.clone());
        let d = &self.nodes[voter].disks[&s];
        let (t, v, ver, lc) = (d.term, d.vote.clone(), d.version, d.last_clock());
        if before.term > req.vote_term {
            self.viol(
                &["C05"],
                "stale-vote",
                format!(
                    "shard {s}: n{voter} at term {} grants a vote for term {}",
                    before.term, req.vote_term
                ),
            );
        }
        let ok = t > req.vote_term
            || (t == req.vote_term
                && (v.as_deref() == Some(cand.as_str())
                    || v.as_ref().and_then(|x| self.uris.get(x))
                        == self.shards[&s].leaders.get(&t)));
        if !ok {
            self.viol(&["C05"], "vote-not-durable", format!("shard {s}: n{voter} granted term {} to {cand} but its saved ballot is {t},{v:?}", req.vote_term));
        }
        if let Some(cc) = &req.candidate_clock {
            let cc = (cc.term, cc.index);
            let behind = |l: (u64, u64)| cc.0 < l.0 || (cc.0 == l.0 && cc.1 < l.1);
            if ver == before.version && behind(lc) && behind(before.last) {
                self.viol(&["C05"], "outdated-candidate", format!("shard {s}: n{voter} with log end {lc:?} votes for {cand} with log end {cc:?}"));
            }
        }
    }
    pub fn learn_leader(&mut self, n: usize, s: u32, term: u64, how: &str) {
        let known = self.shards[&s].leaders.get(&term).copied();
        match known {
            Some(l) if l == n => {}
            Some(l) => {
                self.viol(
                    &["C05"],
                    "two-leaders",
                    format!("shard {s}: n{l} and n{n} both lead term {term} ({how})"),
                );
            }
            None => {
                self.shape("leaders", n as u64, term);
                tr!(self, "leader shard {s} term {term} = n{n} ({how})");
                let m = self.shards.get_mut(&s).unwrap();
                m.leaders.insert(term, n);
                m.leader_at = now_ms();
                // Majority of votes?
                let me = wire::uri(n);
                let voters: HashSet<String> = self.shards[&s]
                    .grants
                    .get(&term)
                    .map(|g| {
                        g.iter()
                            .filter(|(_, c)| **c == me)
                            .map(|(v, _)| wire::uri(*v))
                            .collect()
                    })
                    .unwrap_or_default();
                let d = &self.nodes[n].disks[&s];
                let mut cfgs: Vec<BTreeSet<String>> =
                    d.newest_config().map(|x| x.1).into_iter().collect();
                cfgs.extend(d.configs.iter().rev().take(2).cloned());
                let ok = cfgs.is_empty()
                    || cfgs
                        .iter()
                        .any(|c| c.iter().filter(|x| voters.contains(*x)).count() * 2 > c.len());
                // It has everything that was committed in earlier terms.
                let lost = self.shards[&s]
                    .committed
                    .iter()
                    .rev()
                    .filter(|(_, (_, by))| *by < term)
                    .take(100)
                    .find(|(i, (t, _))| !self.nodes[n].disks[&s].stores(**i, *t))
                    .map(|(i, (t, by))| (*i, *t, *by));
                if let Some((i, t, by)) = lost {
                    self.viol(&["C02", "C06"], "incomplete-leader", format!("shard {s}: n{n} leads term {term} ({how}) but does not store entry ({t},{i}), committed by term {by}"));
                }
                if !ok {
                    self.viol(&["C05"], "minority-leader", format!("shard {s}: n{n} leads term {term} ({how}) with votes of {voters:?} only; membership {:?}", cfgs.first()));
                }
            }
        }
    }
    /// A message for a shard from a node whose process of that shard is gone.
    pub fn detached_traffic(&mut self, src: usize, s: u32, kind: &'static str) {
        let Some(at) = self
            .nodes
            .get(src)
            .and_then(|n| n.disks.get(&s))
            .map(|d| d.detached_at)
        else {
            return;
        };
        self.stat("wire_messages_watched");
        let Some(at) = at else { return };
        // What was under way, and one batch of heartbeats, may still arrive.
        let late = now_ms().saturating_sub(at);
        if late > 2000 {
            self.viol(
                &["C15"],
                "detached-traffic",
                format!("shard {s}: n{src} sends {kind} {late} ms after its process was detached"),
            );
        }
    }
    pub fn on_heartbeat(&mut self, dst: usize, src: usize, hb: &wire::Heartbeat) {
        self.stat("heartbeats");
        let Some(l) = self.uris.get(&hb.leader_id).copied() else {
            return;
        };
        if l != src {
            self.viol(
                &["C09", "C05"],
                "heartbeat-identity",
                format!("n{src} sends heartbeats as n{l}"),
            );
        }
        for (s, st) in &hb.leader_commit_states {
            if !self.shards.contains_key(s) {
                continue;
            }
            self.stat("heartbeat_states");
            let (t, c) = (st.leader_term, st.leader_commit_index);
            tr!(
                self,
                "heartbeat shard {s} n{src}->n{dst} term {t} commit {c}"
            );
            self.learn_leader(l, *s, t, "heartbeat");
            let d = &self.nodes[l].disks[s];
            if d.term == t {
                if let Some(e) = d.log.get(&c) {
                    let et = e.this.0;
                    if !e.cmd.is_snapshot() && !self.stored_majority(*s, l, c, et) {
                        self.viol(&["C07", "C02"], "commit-minority", format!("shard {s}: n{l} (term {t}) announces commit {c} which no majority stores"));
                    }
                } else if c > d.last() && c > 0 {
                    self.viol(
                        &["C02", "C09"],
                        "commit-beyond",
                        format!(
                            "shard {s}: n{l} announces commit {c} beyond its log end {}",
                            d.last()
                        ),
                    );
                }
            }
            self.shards
                .get_mut(s)
                .unwrap()
                .last_hb
                .insert(l, (now_ms(), t));
        }
    }

    // ---------- application monitors ----------
    pub fn on_apply(
        &mut self,
        n: usize,
        s: u32,
        idx: u64,
        last: u64,
        msg: &[u8],
        dup: bool,
        st: (u64, u64),
        op: u64,
        tag: u32,
    ) {
        self.stat("applies");
        tr!(
            self,
            "apply shard {s} n{n} index {idx} op {op} count {}",
            st.0
        );
        let at = format!("shard {s} n{n} index {idx} op {op}");
        if tag != s {
            self.viol(
                &["C09"],
                "cross-shard-apply",
                format!("command of shard {tag} applied: {at}"),
            );
        }
        if idx <= last {
            self.viol(
                &["C01"],
                "apply-order",
                format!("applied after index {last}: {at}"),
            );
        }
        // The known finding: the replica's own first execution lies in the snapshot it was started from.
        let first = self.shards[&s].op_idx.get(&op).copied();
        if let Some(i2) = first {
            if i2 < idx && i2 <= self.nodes[n].views[&s].base {
                self.stat("reexecutions_after_snapshot");
                tr!(
                    self,
                    "known finding: {at} took effect at index {i2}, which the snapshot {} covers",
                    self.nodes[n].views[&s].base
                );
                for p in ["C04", "C01"] {
                    self.known
                        .insert(format!("property={p} {}", crate::plan::DEDUP_FINDING));
                }
                self.tainted = true;
                return;
            }
        }
        if dup {
            self.viol(
                &["C04", "C01"],
                "applied-twice",
                format!("op executed a second time: {at}"),
            );
        }
        // The log entry at that index must carry this very command.
        let ent = self.disk(n, s).log.get(&idx).cloned();
        match &ent {
            Some(e) => match &e.cmd {
                Cmd::Exec { message, .. } if message == msg => {}
                Cmd::Bad => {}
                other => {
                    let o = other.short();
                    self.viol(&["C01"], "apply-not-in-log", format!("log holds {o}: {at}"));
                }
            },
            None => {}
        }
        // Commands in between may be passed over only if they have taken effect earlier.
        if idx > last + 1 {
            let mut bad = None;
            for (j, e) in self.nodes[n].disks[&s].log.range(last + 1..idx) {
                if let Cmd::Exec {
                    message,
                    request_id,
                } = &e.cmd
                {
                    if let Some((_, o)) = crate::app::parse(message) {
                        if self.shards[&s]
                            .op_idx
                            .get(&o)
                            .map(|k| *k >= *j)
                            .unwrap_or(true)
                        {
                            bad = Some(format!(
                                "op {o} at index {j} (request id {:?}) is passed over: {at}",
                                request_id.chars().rev().take(12).collect::<String>()
                            ));
                            break;
                        }
                    }
                }
            }
            if let Some(b) = bad {
                self.viol(&["C01", "C04"], "passed-over", b);
            }
        }
        let known = self.shards[&s].canon.get(&idx).cloned();
        match known {
            Some(a) => {
                if a.op != op {
                    self.viol(
                        &["C01"],
                        "diverge-op",
                        format!("another replica applied op {} there: {at}", a.op),
                    );
                } else if (a.count, a.hash) != st {
                    self.viol(
                        &["C01"],
                        "diverge-state",
                        format!(
                            "state ({},{:x}) differs from ({},{:x}): {at}",
                            st.0, st.1, a.count, a.hash
                        ),
                    );
                }
            }
            None => {
                let other = self.shards[&s].by_count.get(&st.0).copied();
                if let Some((h, i2)) = other {
                    self.viol(
                        &["C01"],
                        "diverge-pos",
                        format!("position {} was index {i2} ({h:x}) elsewhere: {at}", st.0),
                    );
                }
                // Nobody may have applied past this index without it.
                let later = self.shards[&s]
                    .canon
                    .range(idx..)
                    .next()
                    .map(|(i, a)| (*i, a.op));
                if let Some((i2, o2)) = later {
                    self.viol(&["C01"], "skipped", format!("another replica applied index {i2} (op {o2}) without this command: {at}"));
                }
                if let Some(i2) = self.shards[&s].op_idx.get(&op).copied() {
                    self.viol(
                        &["C04"],
                        "applied-twice",
                        format!("op already took effect at index {i2}: {at}"),
                    );
                }
                let m = self.shards.get_mut(&s).unwrap();
                m.canon.insert(
                    idx,
                    Applied {
                        op,
                        count: st.0,
                        hash: st.1,
                    },
                );
                m.by_count.insert(st.0, (st.1, idx));
                m.op_idx.insert(op, idx);
                if let Some(e) = &ent {
                    if !self.stored_majority(s, n, idx, e.this.0) {
                        self.viol(
                            &["C02", "C07"],
                            "apply-minority",
                            format!("applied but not stored by a majority: {at}"),
                        );
                    }
                }
            }
        }
        self.mark_committed(n, s, idx);
        let inc = self.nodes[n].inc;
        let base = self.nodes[n].views[&s].base;
        self.nodes[n].views.insert(
            s,
            AppView {
                last: idx,
                count: st.0,
                hash: st.1,
                inc,
                base,
            },
        );
    }
    pub fn mark_committed(&mut self, n: usize, s: u32, idx: u64) {
        let mut found = vec![];
        let by = self.nodes[n].disks[&s].term;
        {
            let d = &self.nodes[n].disks[&s];
            let m = self.shards.get_mut(&s).unwrap();
            let mut i = idx;
            while let Some(e) = d.log.get(&i) {
                match m.committed.get_mut(&i) {
                    Some(t) if t.0 == e.this.0 && t.1 <= by => break,
                    Some(t) if t.0 == e.this.0 => t.1 = by,
                    _ => {}
                }
                found.push((i, e.this.0, e.cmd.is_snapshot()));
                if e.cmd.is_snapshot() || i == 0 {
                    break;
                }
                i -= 1;
            }
        }
        if let Some((i, t, _)) = found.first().copied() {
            self.check_commit_safe(s, n, i, t);
        }
        for (i, t, snap) in found {
            let known = self.shards[&s].committed.get(&i).copied();
            match known {
                None => {
                    self.shards
                        .get_mut(&s)
                        .unwrap()
                        .committed
                        .insert(i, (t, by));
                    // Nobody else may have committed another one; logs are compared when they apply.
                }
                Some((o, _)) if o != t && !snap => {
                    self.viol(&["C01", "C02"], "commit-diverge", format!("shard {s} n{n}: entry ({t},{i}) treated as committed, ({o},{i}) was committed before"));
                }
                _ => {}
            }
        }
    }
    /// A committed entry is in the log of every node that can be elected: no node which lacks it
    /// has a log that a majority of its own configuration would vote for.
    fn check_commit_safe(&mut self, s: u32, n: usize, idx: u64, term: u64) {
        self.stat("commits_checked");
        let mut bad = None;
        for (x, nd) in self.nodes.iter().enumerate() {
            let d = &nd.disks[&s];
            if d.stores(idx, term) {
                continue;
            }
            let Some((_, c)) = d.newest_config() else {
                continue;
            };
            if !c.contains(&wire::uri(x)) {
                continue;
            }
            let votes = c
                .iter()
                .filter_map(|id| self.uris.get(id))
                .filter(|v| self.nodes[**v].disks[&s].last_clock() <= d.last_clock())
                .count();
            if votes * 2 > c.len() {
                bad = Some((x, d.last_clock(), c.len(), votes));
            }
        }
        if let Some((x, l, m, k)) = bad {
            self.viol(&["C02"], "unsafe-commit", format!("shard {s} n{n}: entry ({term},{idx}) is treated as committed while n{x}, which lacks it, can be elected (its log ends at {l:?}, {k} of {m} members would vote for it)"));
        }
    }
    pub fn on_install(&mut self, n: usize, s: u32, idx: u64, snap: Option<&SnapState>) {
        self.shape("snapshot_installs", n as u64, idx);
        tr!(
            self,
            "install snapshot shard {s} n{n} index {idx} present={}",
            snap.is_some()
        );
        let Some(st) = snap else {
            self.viol(
                &["C08"],
                "install-missing",
                format!("shard {s} n{n}: snapshot {idx} to install is not in the store"),
            );
            return;
        };
        let canon = self.shards[&s]
            .canon
            .range(..=idx)
            .next_back()
            .map(|(_, a)| (a.count, a.hash));
        let want = canon.unwrap_or((0, 0));
        if (st.list.len() as u64, st.hash) != want {
            self.viol(&["C08", "C01"], "install-state", format!("shard {s} n{n}: snapshot {idx} holds ({},{:x}), applying the log gives ({},{:x})", st.list.len(), st.hash, want.0, want.1));
        }
        self.mark_committed(n, s, idx);
        let inc = self.nodes[n].inc;
        self.nodes[n].views.insert(
            s,
            AppView {
                last: idx,
                count: st.list.len() as u64,
                hash: st.hash,
                inc,
                base: idx,
            },
        );
    }

    // ---------- client history ----------
    pub fn op_call(&mut self, s: u32, op: u64, write: bool, node: usize) {
        let q = self.next_seq();
        self.stat(if write { "write_calls" } else { "read_calls" });
        tr!(
            self,
            "call shard {s} op {op} {} at n{node}",
            if write { "W" } else { "R" }
        );
        let m = self.shards.get_mut(&s).unwrap();
        m.hist.entry(op).or_insert(OpRec {
            op,
            write,
            call: q,
            ret: None,
            count: 0,
            hash: 0,
            idx: 0,
            node,
            t_call: now_ms(),
            t_ret: 0,
        });
    }
    pub fn write_ok(&mut self, s: u32, op: u64, r: Resp) {
        let q = self.next_seq();
        self.stat("write_oks");
        tr!(self, "ack shard {s} op {op} {r:?}");
        if r.op != op || r.shard != s {
            let p: &[&str] = if r.shard != s {
                &["C09", "C03"]
            } else {
                &["C03", "C04"]
            };
            self.viol(
                p,
                "wrong-response",
                format!(
                    "shard {s} op {op} answered with the response of op {} of shard {}",
                    r.op, r.shard
                ),
            );
            return;
        }
        let a = self.shards[&s].canon.get(&r.idx).cloned();
        match a {
            Some(a) if a.op == op && a.count == r.count && a.hash == r.hash => {}
            Some(a) => self.viol(&["C03", "C02"], "ack-mismatch", format!("shard {s} op {op} acknowledged as index {} count {}, there op {} was applied with count {}", r.idx, r.count, a.op, a.count)),
            None => self.viol(&["C03", "C02"], "ack-unapplied", format!("shard {s} op {op} acknowledged but no replica applied it")),
        }
        let rec = self.shards.get_mut(&s).unwrap().hist.get_mut(&op).unwrap();
        if rec.ret.is_some() {
            if (rec.idx, rec.count, rec.hash) != (r.idx, r.count, r.hash) {
                self.viol(
                    &["C04"],
                    "two-responses",
                    format!("shard {s} op {op} has two different successful responses"),
                );
            }
            return;
        }
        rec.ret = Some(q);
        rec.count = r.count;
        rec.hash = r.hash;
        rec.idx = r.idx;
        rec.t_ret = now_ms();
    }
    pub fn read_ok(&mut self, s: u32, op: u64, r: Resp) {
        let q = self.next_seq();
        self.stat("read_oks");
        tr!(self, "read shard {s} op {op} {r:?}");
        if r.shard != s || r.op != op {
            self.viol(
                &["C09", "C03"],
                "wrong-response",
                format!(
                    "read {op} of shard {s} answered by shard {} for read {}",
                    r.shard, r.op
                ),
            );
            return;
        }
        let rec = self.shards.get_mut(&s).unwrap().hist.get_mut(&op).unwrap();
        rec.ret = Some(q);
        rec.count = r.count;
        rec.hash = r.hash;
        rec.idx = r.idx;
        rec.t_ret = now_ms();
    }
    pub fn op_fail(&mut self, s: u32, op: u64, why: &str) {
        self.stat("op_errors");
        tr!(self, "fail shard {s} op {op} {why}");
    }
    /// Linearizability of the recorded history. Every write has one place in the order (the count
    /// the application gave it), every read names the prefix it saw.
    pub fn check_history(&mut self, s: u32) {
        let m = &self.shards[&s];
        let mut out: Vec<(&[&str], &str, String)> = vec![];
        // (seq, is_return, position, is_write, op)
        let mut evs: Vec<(u64, bool, u64, bool, u64)> = vec![];
        for r in m.hist.values() {
            let Some(ret) = r.ret else { continue };
            evs.push((r.call, false, r.count, r.write, r.op));
            evs.push((ret, true, r.count, r.write, r.op));
            if !r.write {
                if r.count > 0 {
                    match m.by_count.get(&r.count) {
                        Some((h, _)) if *h == r.hash => {}
                        _ => out.push((&["C03"], "read-state", format!("shard {s} read {} at n{} returned a state (count {}) that is no prefix of the log", r.op, r.node, r.count))),
                    }
                    // the last write it saw must have been called before the read returned
                    if let Some((_, idx)) = m.by_count.get(&r.count) {
                        let w = m.canon[idx].op;
                        if let Some(wr) = m.hist.get(&w) {
                            if wr.call > ret {
                                out.push((
                                    &["C03"],
                                    "read-future",
                                    format!(
                                        "shard {s} read {} saw write {w} before it was called",
                                        r.op
                                    ),
                                ));
                            }
                        }
                    }
                } else if r.hash != 0 {
                    out.push((
                        &["C03"],
                        "read-state",
                        format!("shard {s} read {} returned a broken initial state", r.op),
                    ));
                }
            }
        }
        evs.sort();
        let mut max_w = (0u64, 0u64); // highest position among returned ops (write position or read prefix)
        let mut at_call: HashMap<u64, (u64, u64)> = HashMap::new();
        for (_, is_ret, pos, w, op) in &evs {
            if !*is_ret {
                at_call.insert(*op, max_w);
            } else {
                let (need, by) = at_call[op];
                if *w && *pos <= need {
                    out.push((&["C03"], "write-order", format!("shard {s} write {op} (position {pos}) was called after op {by} had seen position {need}")));
                }
                if !*w && *pos < need {
                    out.push((&["C03"], "stale-read", format!("shard {s} read {op} saw position {pos}, op {by} had completed at position {need} before it was called")));
                }
                if *pos > max_w.0 {
                    max_w = (*pos, *op);
                }
            }
        }
        for (p, sig, msg) in out {
            self.viol(p, sig, msg);
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct VoteBefore {
    pub term: u64,
    pub last: (u64, u64),
    pub version: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Resp {
    pub shard: u32,
    pub op: u64,
    pub idx: u64,
    pub count: u64,
    pub hash: u64,
}
pub type SharedWorld = Arc<World>;
