//! Monitored application: an append-only list of operation ids with a running hash.
use crate::rng::mix;
use crate::store::Handle;
use crate::world::*;
use anyhow::{bail, Result};
use bytes::Bytes;
use futures::StreamExt;
use sorock::process::*;
use std::collections::HashSet;
use std::sync::Mutex;

/// Message of a write or read: shard, operation id, padding.
pub fn message(shard: u32, op: u64, pad: usize) -> Bytes {
    let mut v = vec![];
    v.extend_from_slice(&shard.to_le_bytes());
    v.extend_from_slice(&op.to_le_bytes());
    v.resize(12 + pad, 0xab);
    v.into()
}
pub fn parse(m: &[u8]) -> Option<(u32, u64)> {
    if m.len() < 12 {
        return None;
    }
    Some((
        u32::from_le_bytes(m[0..4].try_into().unwrap()),
        u64::from_le_bytes(m[4..12].try_into().unwrap()),
    ))
}

#[derive(Default)]
struct State {
    st: SnapState,
    seen: HashSet<u64>,
    since_snap: u64,
}
pub struct MonApp {
    pub h: Handle,
    state: Mutex<State>,
}
impl MonApp {
    pub fn new(h: Handle) -> Self {
        {
            let mut i = h.w.lock();
            let inc = h.inc;
            i.nodes[h.node].views.insert(
                h.shard,
                AppView {
                    inc,
                    ..Default::default()
                },
            );
        }
        Self {
            h,
            state: Default::default(),
        }
    }
    /// The application fails now and then, before it has done anything.
    async fn point(&self) -> Result<()> {
        self.point_().await;
        let mut i = self.h.w.lock();
        let ep = i.nodes[self.h.node].err_p * 0.5;
        if ep > 0.0 && i.rng.p(ep) {
            i.stat("app_errors");
            crate::tr!(i, "app error shard {} n{}", self.h.shard, self.h.node);
            bail!("injected application error");
        }
        Ok(())
    }
    async fn point_(&self) {
        if !self.h.alive() {
            futures::future::pending::<()>().await;
        }
        let d = {
            let mut i = self.h.w.lock();
            let g = &self.h.w.cfg;
            let p = if g.app_slow.is_empty() || g.app_slow.contains(&self.h.node) {
                g.app_p
            } else {
                0.0
            };
            let a = i.nodes[self.h.node].app_slow_ms;
            if a > 0 {
                a / 2 + i.rng.below(a / 2 + 1)
            } else if i.chaos && i.rng.p(p) {
                1 + i.rng.below(g.app_max_ms)
            } else {
                0
            }
        };
        if d > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(d)).await;
            if !self.h.alive() {
                futures::future::pending::<()>().await;
            }
        }
    }
    fn late(&self, what: &str) {
        let mut i = self.h.w.lock();
        let d = &i.nodes[self.h.node].disks[&self.h.shard];
        let late = d
            .detached_at
            .map(|a| now_ms().saturating_sub(a))
            .unwrap_or(0);
        if d.gen != self.h.gen || late > 1500 {
            i.viol(
                &["C15"],
                "detached-app",
                format!(
                    "shard {} n{}: a detached process calls {what} of its application",
                    self.h.shard, self.h.node
                ),
            );
        }
    }
    fn resp(&self, op: u64, st: &SnapState) -> Bytes {
        let r = Resp {
            shard: self.h.shard,
            op,
            idx: st.last,
            count: st.list.len() as u64,
            hash: st.hash,
        };
        bincode::serialize(&r).unwrap().into()
    }
}
#[async_trait::async_trait]
impl RaftApp for MonApp {
    async fn process_read(&self, request: &[u8]) -> Result<Bytes> {
        self.point().await?;
        self.late("process_read");
        let Some((shard, op)) = parse(request) else {
            bail!("bad read")
        };
        if shard != self.h.shard {
            self.h.w.lock().viol(
                &["C09"],
                "cross-shard-read",
                format!(
                    "read of shard {shard} reached shard {} on n{}",
                    self.h.shard, self.h.node
                ),
            );
        }
        let g = self.state.lock().unwrap();
        Ok(self.resp(op, &g.st))
    }
    async fn process_write(&self, request: &[u8], index: Index) -> Result<Bytes> {
        self.point().await?;
        self.late("process_write");
        let Some((shard, op)) = parse(request) else {
            bail!("bad write")
        };
        let mut g = self.state.lock().unwrap();
        let mut i = self.h.w.lock();
        if !self.h.alive_in(&i) {
            bail!("crashed");
        }
        let last = g.st.last;
        let dup = !g.seen.insert(op);
        g.st.list.push(op);
        g.st.hash = mix(g.st.hash, op);
        g.st.last = index;
        g.since_snap += 1;
        i.on_apply(
            self.h.node,
            self.h.shard,
            index,
            last,
            request,
            dup,
            (g.st.list.len() as u64, g.st.hash),
            op,
            shard,
        );
        let k = self.h.w.cfg.snap_every;
        if k > 0 && g.since_snap >= k && i.rng.p(0.5) {
            g.since_snap = 0;
            i.shape("snapshots_made", self.h.node as u64, index);
            crate::tr!(
                i,
                "snapshot made shard {} n{} index {index}",
                self.h.shard,
                self.h.node
            );
            let st = g.st.clone();
            i.disk(self.h.node, self.h.shard).snaps.insert(index, st);
        }
        drop(i);
        Ok(self.resp(op, &g.st))
    }
    async fn install_snapshot(&self, idx: Index) -> Result<()> {
        self.point().await?;
        self.late("install_snapshot");
        let mut g = self.state.lock().unwrap();
        let mut i = self.h.w.lock();
        if !self.h.alive_in(&i) {
            bail!("crashed");
        }
        let snap = i.disk(self.h.node, self.h.shard).snaps.get(&idx).cloned();
        i.on_install(self.h.node, self.h.shard, idx, snap.as_ref());
        let Some(mut s) = snap else {
            bail!("no snapshot {idx}")
        };
        s.last = idx;
        g.seen = s.list.iter().copied().collect();
        g.st = s;
        g.since_snap = 0;
        Ok(())
    }
    async fn save_snapshot(&self, mut st: SnapshotStream, idx: Index) -> Result<()> {
        self.point().await?;
        self.late("save_snapshot");
        let mut b = vec![];
        while let Some(c) = st.next().await {
            b.extend_from_slice(&c?);
        }
        self.point().await?;
        let mut i = self.h.w.lock();
        let Some(s) = SnapState::de(&b) else {
            i.viol(
                &["C08"],
                "snapshot-corrupt",
                format!(
                    "shard {} n{}: received snapshot {idx} is incomplete or altered ({} bytes)",
                    self.h.shard,
                    self.h.node,
                    b.len()
                ),
            );
            bail!("corrupt snapshot");
        };
        if !self.h.alive_in(&i) {
            bail!("crashed");
        }
        i.shape("snapshots_fetched", self.h.node as u64, idx);
        i.disk(self.h.node, self.h.shard).snaps.insert(idx, s);
        Ok(())
    }
    async fn open_snapshot(&self, idx: Index) -> Result<SnapshotStream> {
        self.point().await?;
        self.late("open_snapshot");
        let mut i = self.h.w.lock();
        let Some(s) = i.disk(self.h.node, self.h.shard).snaps.get(&idx).cloned() else {
            i.viol(
                &["C08"],
                "open-missing",
                format!(
                    "shard {} n{}: snapshot {idx} in use is not in the store",
                    self.h.shard, self.h.node
                ),
            );
            bail!("no snapshot {idx}")
        };
        let b = s.ser();
        let mut chunks: Vec<Result<Bytes>> = b
            .chunks(64.max(b.len() / 5))
            .map(|c| Ok(Bytes::copy_from_slice(c)))
            .collect();
        if i.chaos && {
            let p = self.h.w.cfg.snap_err_p;
            i.rng.p(p)
        } {
            let k = i.rng.below(chunks.len() as u64) as usize;
            chunks.truncate(k);
            chunks.push(Err(anyhow::anyhow!("the snapshot cannot be read")));
            i.stat("snapshot_reads_failed");
        }
        let w = self.h.w.clone();
        let st = futures::stream::iter(chunks).then(move |c| {
            let d = {
                let mut i = w.lock();
                let m = w.cfg.chunk_ms;
                if i.rng.p(0.3) {
                    i.rng.below(m)
                } else {
                    0
                }
            };
            async move {
                if d > 0 {
                    tokio::time::sleep(std::time::Duration::from_millis(d)).await;
                }
                c
            }
        });
        Ok(Box::pin(st))
    }
    async fn delete_snapshots_before(&self, x: Index) -> Result<()> {
        self.point().await?;
        self.late("delete_snapshots_before");
        let mut i = self.h.w.lock();
        if !self.h.alive_in(&i) {
            bail!("crashed");
        }
        i.on_delete_snaps(self.h.node, self.h.shard, x);
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> Result<Index> {
        self.point().await?;
        self.late("get_latest_snapshot");
        Ok(self
            .h
            .w
            .lock()
            .disk(self.h.node, self.h.shard)
            .snaps
            .keys()
            .next_back()
            .copied()
            .unwrap_or(0))
    }
}
