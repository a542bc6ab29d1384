//! Directed scenarios.
use crate::cluster::*;
use crate::rng::Rng;
use crate::run::*;
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

mod badreq;
mod cancel;
mod dedup;
mod detach;
mod leader;
mod partial;
mod peers;
mod stale;

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    pub setup: fn(&mut Rng) -> Profile,
    pub run: fn(Arc<Cluster>, Profile, Rng) -> Fut,
}
pub fn all() -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(badreq::all());
    v.extend(cancel::all());
    v.extend(dedup::all());
    v.extend(detach::all());
    v.extend(leader::all());
    v.extend(partial::all());
    v.extend(peers::all());
    v.extend(stale::all());
    v
}
pub fn find(name: &str) -> Option<Scenario> {
    all().into_iter().find(|s| s.name == name)
}

/// Start all nodes and form every shard from the same members. False if that failed.
pub async fn boot(c: &Arc<Cluster>, members: &[usize]) -> bool {
    for v in 0..c.w.cfg.nodes {
        c.start(v).await;
    }
    for s in c.w.cfg.shards.clone() {
        if !c.form(s, members).await {
            c.w.lock().viol(
                &["C12"],
                "no-formation",
                format!("shard {s}: the cluster {members:?} could not be formed without faults"),
            );
            return false;
        }
    }
    true
}
pub fn shuffled(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        v.swap(k, rng.below(k as u64 + 1) as usize);
    }
    v
}
/// Clients in the background; the flag stops them.
pub fn clients(
    c: &Arc<Cluster>,
    p: &Profile,
    rng: &mut Rng,
) -> (Arc<AtomicBool>, Vec<tokio::task::JoinHandle<()>>) {
    let stop = Arc::new(AtomicBool::new(false));
    let hs = (0..p.clients)
        .map(|k| {
            tokio::spawn(client_loop(
                c.clone(),
                p.clone(),
                k + 1,
                rng.next(),
                stop.clone(),
            ))
        })
        .collect();
    (stop, hs)
}
pub async fn finish(
    c: &Arc<Cluster>,
    p: &Profile,
    cl: Option<(Arc<AtomicBool>, Vec<tokio::task::JoinHandle<()>>)>,
) {
    calm(c).await;
    if let Some((stop, hs)) = cl {
        stop.store(true, Ordering::SeqCst);
        for h in hs {
            h.await.ok();
        }
    }
    let mut all = true;
    for s in c.w.cfg.shards.clone() {
        match settle(c, s, p.settle_ms).await {
            Some(t) => {
                let mut i = c.w.lock();
                let e = i.stats.entry("max_recovery_ms").or_default();
                *e = (*e).max(t);
            }
            None => all = false,
        }
    }
    final_checks(c, all);
}
/// Wait until every member of every shard has applied all that is committed and nothing changes
/// any more. None after `bound` ms.
pub async fn quiet(c: &Arc<Cluster>, bound: u64) -> bool {
    let end = now_ms() + bound;
    let mut last = String::new();
    let mut since = now_ms();
    while now_ms() < end {
        let d = fingerprint(c, true);
        if d != last {
            last = d;
            since = now_ms();
        } else if now_ms() - since > 1500 {
            return true;
        }
        sleep(100).await;
    }
    false
}
/// Terms, votes, logs and application states of all nodes.
pub fn fingerprint(c: &Cluster, versions: bool) -> String {
    let i = c.w.lock();
    let mut s = String::new();
    for (n, nd) in i.nodes.iter().enumerate() {
        for (sh, d) in &nd.disks {
            let v = &nd.views[sh];
            s += &format!(
                "n{n}/{sh}: term {} vote {:?} log {:?}..{:?} app ({},{},{:x}) v{}; ",
                d.term,
                d.vote,
                d.log.keys().next(),
                d.last_clock(),
                v.last,
                v.count,
                v.hash,
                if versions { d.version } else { 0 }
            );
        }
    }
    s
}
/// Wait until one node leads and heartbeats in the highest term for `stable` ms.
pub async fn stable_leader(
    c: &Arc<Cluster>,
    s: u32,
    stable: u64,
    bound: u64,
) -> Option<(usize, u64)> {
    let end = now_ms() + bound;
    let mut cur = None;
    let mut since = now_ms();
    while now_ms() < end {
        let l = c.term_leader(s).filter(|l| {
            let i = c.w.lock();
            i.shards[&s]
                .last_hb
                .get(&l.0)
                .map(|(t, term)| *term == l.1 && now_ms() - t < 1500)
                .unwrap_or(false)
                || c.w.cfg.nodes == 1
                || i.nodes[l.0].disks[&s]
                    .newest_config()
                    .map(|x| x.1.len() <= 1)
                    .unwrap_or(false)
        });
        if l != cur {
            cur = l;
            since = now_ms();
        } else if cur.is_some() && now_ms() - since >= stable {
            return cur;
        }
        sleep(50).await;
    }
    None
}
