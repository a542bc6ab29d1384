//! Log and ballot stores with latency, transient errors, stalls and crash fencing. Contents live in
//! `Disk`, which survives a crash. An operation takes effect at one instant within its latency.
use crate::wire::Cmd;
use crate::world::*;
use anyhow::{bail, Result};
use sorock::process::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Handle {
    pub w: Arc<World>,
    pub node: usize,
    pub shard: u32,
    pub inc: u64,
    pub gen: u64,
}
impl Handle {
    /// False once the node has crashed since this handle was made.
    pub fn alive(&self) -> bool {
        self.alive_in(&self.w.lock())
    }
    pub fn alive_in(&self, i: &Inner) -> bool {
        i.nodes[self.node].up && i.nodes[self.node].inc == self.inc
    }
    /// Run the effect of an operation unless the node has crashed; both at one instant.
    async fn effect<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        let mut f = Some(f);
        {
            let mut i = self.w.lock();
            if i.nodes[self.node].up && i.nodes[self.node].inc == self.inc {
                return (f.take().unwrap())(&mut i);
            }
        }
        futures::future::pending().await
    }
    async fn fence(&self) {
        if !self.alive() {
            futures::future::pending::<()>().await;
        }
    }
    async fn point_bg(&self) -> Result<()> {
        self.point_(true, true, false).await
    }
    async fn point(&self, write: bool, before: bool) -> Result<()> {
        self.point_(write, before, before).await
    }
    /// Latency, stall and error injection, before or after the effect.
    async fn point_(&self, write: bool, before: bool, touch: bool) -> Result<()> {
        self.fence().await;
        let (d, err) = {
            let mut i = self.w.lock();
            if touch {
                self.touch(&mut i, write);
            }
            let c = &self.w.cfg;
            let (p, max) = if write {
                (c.store_p, c.store_max_ms)
            } else {
                (c.read_p, c.read_max_ms)
            };
            let slow = i.nodes[self.node].slow_ms;
            let pp = if i.chaos { p } else { p * 0.2 };
            let mut d = if i.rng.p(pp) {
                1 + i.rng.below(max.max(1))
            } else {
                0
            };
            if slow > 0 && write {
                d += i.rng.below(slow);
            }
            let ep = i.nodes[self.node].err_p;
            let err = before && ep > 0.0 && i.rng.p(ep);
            (d, err)
        };
        crate::mt::jitter();
        if d > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(d)).await;
        } else if write {
            tokio::task::yield_now().await;
        }
        loop {
            let stalled = self.w.lock().nodes[self.node].stalled.contains(&self.shard);
            if !stalled {
                break;
            }
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        }
        self.fence().await;
        if err {
            let mut i = self.w.lock();
            i.stat("store_errors");
            crate::tr!(i, "store error shard {} n{}", self.shard, self.node);
            bail!("injected store error");
        }
        Ok(())
    }
    fn touch(&self, i: &mut Inner, write: bool) {
        let d = &i.nodes[self.node].disks[&self.shard];
        if d.gen != self.gen || d.detached_at.is_some() {
            let at = d.detached_at.unwrap_or(0);
            let late = now_ms().saturating_sub(at);
            let detached_by_gen = d.gen != self.gen;
            // Work already under way may finish; nothing may start again later.
            if detached_by_gen || late > 1500 {
                i.viol(&["C15"], if write { "detached-store-write" } else { "detached-store-read" },
                    format!("shard {} n{}: a detached process uses its store {late} ms after it was detached", self.shard, self.node));
            }
        }
    }
}
fn clk(c: Clock) -> (u64, u64) {
    (c.term, c.index)
}
fn to_l(e: &Entry) -> LEntry {
    let cmd = Cmd::parse(&e.command);
    let digest = cmd.digest(&e.command);
    LEntry {
        prev: clk(e.prev_clock),
        this: clk(e.this_clock),
        raw: e.command.clone(),
        cmd,
        digest,
    }
}
fn from_l(e: &LEntry) -> Entry {
    Entry {
        prev_clock: Clock {
            term: e.prev.0,
            index: e.prev.1,
        },
        this_clock: Clock {
            term: e.this.0,
            index: e.this.1,
        },
        command: e.raw.clone(),
    }
}
fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    futures::executor::block_on(f)
}
pub type DynLog = Box<dyn RaftLogStore>;
pub type DynBallot = Box<dyn RaftBallotStore>;

type Job = (Index, Entry, tokio::sync::oneshot::Sender<Result<()>>);
pub struct SimLog {
    h: Handle,
    inner: Option<Arc<DynLog>>,
    tx: tokio::sync::mpsc::UnboundedSender<Job>,
}
impl SimLog {
    /// Insertions run one after another in the background, as in the redb backend: one that has
    /// been handed over takes effect even if its caller goes away.
    pub fn new(h: Handle, inner: Option<DynLog>) -> Self {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Job>();
        let inner = inner.map(Arc::new);
        let (h2, inner2) = (h.clone(), inner.clone());
        tokio::spawn(async move {
            while let Some((i, e, done)) = rx.recv().await {
                let r = async {
                    h2.point_bg().await?;
                    if let Some(x) = &inner2 {
                        block(x.insert_entry(i, e.clone()))?;
                    }
                    h2.effect(|w| w.on_insert(h2.node, h2.shard, i, to_l(&e)))
                        .await;
                    h2.point(true, false).await
                };
                let r = r.await;
                done.send(r).ok();
            }
        });
        SimLog { h, inner, tx }
    }
}
pub struct SimBallot {
    pub h: Handle,
    pub inner: Option<DynBallot>,
}

#[async_trait::async_trait]
impl RaftLogStore for SimLog {
    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
        self.h.fence().await;
        {
            let mut g = self.h.w.lock();
            self.h.touch(&mut g, true);
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.tx.send((i, e, tx)).ok();
        match rx.await {
            Ok(r) => r,
            Err(_) => futures::future::pending().await,
        }
    }
    async fn delete_entries_before(&self, i: Index) -> Result<()> {
        self.h.point(true, true).await?;
        if let Some(x) = &self.inner {
            block(x.delete_entries_before(i))?;
        }
        self.h
            .effect(|w| w.on_delete_before(self.h.node, self.h.shard, i))
            .await;
        self.h.point(true, false).await
    }
    async fn delete_entries_after(&self, i: Index) -> Result<()> {
        self.h.point(true, true).await?;
        if let Some(x) = &self.inner {
            block(x.delete_entries_after(i))?;
        }
        self.h
            .effect(|w| w.on_truncate(self.h.node, self.h.shard, i))
            .await;
        self.h.point(true, false).await
    }
    async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
        self.h.point(false, true).await?;
        let sim = {
            self.h
                .w
                .lock()
                .disk(self.h.node, self.h.shard)
                .log
                .get(&i)
                .map(from_l)
        };
        let Some(x) = &self.inner else { return Ok(sim) };
        let got = block(x.get_entry(i))?;
        let same = match (&got, &sim) {
            (Some(a), Some(b)) => {
                a.prev_clock == b.prev_clock
                    && a.this_clock == b.this_clock
                    && a.command == b.command
            }
            (None, None) => true,
            _ => false,
        };
        if !same {
            self.h.w.lock().viol(
                &["C10", "C11"],
                "redb-entry",
                format!(
                    "shard {} n{}: entry {i} read back differs from what was stored",
                    self.h.shard, self.h.node
                ),
            );
        }
        Ok(got)
    }
    async fn get_head_index(&self) -> Result<Index> {
        self.h.point(false, true).await?;
        if let Some(x) = &self.inner {
            return block(x.get_head_index());
        }
        Ok(self
            .h
            .w
            .lock()
            .disk(self.h.node, self.h.shard)
            .log
            .keys()
            .next()
            .copied()
            .unwrap_or(0))
    }
    async fn get_last_index(&self) -> Result<Index> {
        self.h.point(false, true).await?;
        let sim = self.h.w.lock().disk(self.h.node, self.h.shard).last();
        let Some(x) = &self.inner else { return Ok(sim) };
        let got = block(x.get_last_index())?;
        if got != sim {
            self.h.w.lock().viol(
                &["C10", "C11"],
                "redb-last",
                format!(
                    "shard {} n{}: last index {got}, stored {sim}",
                    self.h.shard, self.h.node
                ),
            );
        }
        Ok(got)
    }
}
#[async_trait::async_trait]
impl RaftBallotStore for SimBallot {
    async fn save_ballot(&self, v: Ballot) -> Result<()> {
        self.h.point(true, true).await?;
        if let Some(x) = &self.inner {
            block(x.save_ballot(v.clone()))?;
        }
        self.h
            .effect(|w| {
                w.on_save_ballot(
                    self.h.node,
                    self.h.shard,
                    v.cur_term,
                    v.voted_for.map(|x| x.to_string()),
                )
            })
            .await;
        self.h.point(true, false).await
    }
    async fn load_ballot(&self) -> Result<Ballot> {
        self.h.point(false, true).await?;
        let (t, v) = {
            let mut g = self.h.w.lock();
            let d = g.disk(self.h.node, self.h.shard);
            (d.term, d.vote.clone())
        };
        let sim = Ballot {
            cur_term: t,
            voted_for: v.map(|x| x.parse().unwrap()),
        };
        let Some(x) = &self.inner else { return Ok(sim) };
        let got = block(x.load_ballot())?;
        if got != sim {
            self.h.w.lock().viol(
                &["C10", "C11"],
                "redb-ballot",
                format!(
                    "shard {} n{}: ballot {got:?}, saved {sim:?}",
                    self.h.shard, self.h.node
                ),
            );
        }
        Ok(got)
    }
}
