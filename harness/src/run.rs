//! Randomised runs: workload, faults, settling and end-of-run checks.
use crate::cluster::*;
use crate::rng::Rng;
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[derive(Clone)]
pub struct Profile {
    pub cfg: Cfg,
    pub start_members: usize,
    pub clients: usize,
    pub think_ms: u64,
    pub read_frac: f64,
    pub retry_p: f64,
    pub dup_p: f64,
    pub late_retry_p: f64,
    pub op_timeout: u64,
    pub duration_ms: u64,
    pub gap_ms: u64,
    pub w_crash: u64,
    pub w_crash_all: u64,
    pub w_partition: u64,
    pub w_isolate_leader: u64,
    pub w_oneway: u64,
    pub w_reset: u64,
    pub w_loss: u64,
    pub w_slow: u64,
    pub w_err: u64,
    pub w_timeout_now: u64,
    pub w_member: u64,
    pub w_delay: u64,
    pub down_ms: u64,
    pub settle_ms: u64,
    pub write_via_leader: f64,
    /// No client gives up early.
    pub no_short: bool,
    /// A request that is not answered within `op_timeout` is lost.
    pub patient: bool,
    /// Nothing disturbs the cluster: requests succeed.
    pub calm: bool,
    pub part_ms: u64,
    pub w_stall: u64,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            cfg: Cfg::default(),
            start_members: 3,
            clients: 4,
            think_ms: 150,
            read_frac: 0.3,
            retry_p: 0.5,
            dup_p: 0.0,
            late_retry_p: 0.0,
            op_timeout: 3000,
            duration_ms: 40_000,
            gap_ms: 1500,
            w_crash: 0,
            w_crash_all: 0,
            w_partition: 0,
            w_isolate_leader: 0,
            w_oneway: 0,
            w_reset: 0,
            w_loss: 0,
            w_slow: 0,
            w_err: 0,
            w_timeout_now: 0,
            w_member: 0,
            w_delay: 0,
            down_ms: 4000,
            settle_ms: 180_000,
            write_via_leader: 0.0,
            no_short: false,
            patient: false,
            calm: false,
            part_ms: 9000,
            w_stall: 0,
        }
    }
}

/// In runs whose clients are patient every request must be answered, and in calm runs, once
/// there is a leader, it must succeed.
fn answered(
    c: &Arc<Cluster>,
    p: &Profile,
    what: &str,
    shard: u32,
    node: usize,
    called: u64,
    first: bool,
    r: Result<Resp, String>,
) {
    if !p.patient {
        return;
    }
    let mut i = c.w.lock();
    if i.over() {
        return;
    }
    i.stat("patient_requests");
    if r == Err("timeout".into()) {
        i.viol(
            &["C12"],
            "unanswered",
            format!(
                "shard {shard}: a {what} sent to n{node} is not answered within {} ms",
                p.op_timeout
            ),
        );
    }
    let at = i.shards.get(&shard).map(|m| m.leader_at).unwrap_or(0);
    if p.calm && first && at > 0 && called > at + 4000 {
        i.stat("calm_requests");
        if let Err(e) = r {
            // Judged when the run is over, unless the shard got a new leader.
            let m = format!("shard {shard}: nothing disturbs the cluster and it has had a leader since {at} ms, yet a {what} sent to n{node} at {called} ms fails: {e}");
            if let Some(x) = i.shards.get_mut(&shard) {
                x.refused.get_or_insert(m);
            }
        }
    }
}
pub async fn client_loop(c: Arc<Cluster>, p: Profile, id: usize, seed: u64, stop: Arc<AtomicBool>) {
    let mut rng = Rng::new(seed);
    let shards = c.w.cfg.shards.clone();
    let n = c.w.cfg.nodes;
    let mut late: Vec<(u32, u64)> = vec![];
    while !stop.load(Ordering::SeqCst) {
        sleep(rng.below(p.think_ms + 1)).await;
        let shard = *rng.pick(&shards);
        let mut node = rng.below(n as u64) as usize;
        if rng.p(p.write_via_leader) {
            if let Some((l, _)) = c.term_leader(shard) {
                node = l;
            }
        }
        if rng.p(p.read_frac) {
            let t = now_ms();
            let r = c.read(id, node, shard, p.op_timeout).await;
            answered(&c, &p, "read", shard, node, t, true, r);
            continue;
        }
        if !late.is_empty() && rng.p(p.late_retry_p) {
            let k = rng.below(late.len() as u64) as usize;
            let (s, op) = late[k];
            c.w.lock().stat("late_retries");
            let t = now_ms();
            let r = c.write(id, node, s, op, p.op_timeout).await;
            answered(&c, &p, "retried write", s, node, t, false, r);
            continue;
        }
        let op = c.op_id();
        let dup = rng.p(p.dup_p);
        if dup {
            // The same request several times at once, through different replicas.
            let k = rng.range(2, 4);
            let mut fs = vec![];
            for _ in 0..k {
                let nd = rng.below(n as u64) as usize;
                let cl = id + 100 * rng.below(3) as usize;
                let d = if rng.p(0.5) { 0 } else { rng.below(400) };
                let (c, p) = (c.clone(), p.clone());
                fs.push(async move {
                    sleep(d).await;
                    let t = now_ms();
                    let r = c.write(cl, nd, shard, op, p.op_timeout).await;
                    answered(&c, &p, "repeated write", shard, nd, t, false, r);
                });
            }
            c.w.lock().stat("concurrent_duplicates");
            futures::future::join_all(fs).await;
        }
        let mut tries = 0;
        loop {
            let to = if rng.p(0.1) && !p.no_short {
                rng.range(20, 300)
            } else {
                p.op_timeout
            };
            let t = now_ms();
            let r = c.write(id, node, shard, op, to).await;
            if to == p.op_timeout {
                answered(
                    &c,
                    &p,
                    "write",
                    shard,
                    node,
                    t,
                    tries == 0 && !dup,
                    r.clone(),
                );
            }
            tries += 1;
            if r.is_ok() || tries > 6 || stop.load(Ordering::SeqCst) || !rng.p(p.retry_p) {
                break;
            }
            c.w.lock().stat("retries");
            sleep(rng.below(600)).await;
            node = rng.below(n as u64) as usize;
        }
        if p.late_retry_p > 0.0 {
            late.push((shard, op));
            if late.len() > 30 {
                late.remove(0);
            }
        }
    }
}

pub async fn nemesis(c: Arc<Cluster>, p: Profile, seed: u64, stop: Arc<AtomicBool>) {
    let mut rng = Rng::new(seed);
    let n = c.w.cfg.nodes;
    let acts: Vec<(u64, &'static str)> = vec![
        (p.w_crash, "crash"),
        (p.w_crash_all, "crash_all"),
        (p.w_partition, "partition"),
        (p.w_isolate_leader, "isolate_leader"),
        (p.w_oneway, "oneway"),
        (p.w_reset, "reset"),
        (p.w_loss, "loss"),
        (p.w_slow, "slow"),
        (p.w_err, "err"),
        (p.w_timeout_now, "timeout_now"),
        (p.w_member, "member"),
        (p.w_delay, "delay"),
        (p.w_stall, "stall"),
    ];
    let total: u64 = acts.iter().map(|a| a.0).sum();
    if total == 0 {
        return;
    }
    while !stop.load(Ordering::SeqCst) {
        sleep(rng.range(50, p.gap_ms.max(51) * 2)).await;
        if stop.load(Ordering::SeqCst) {
            break;
        }
        let mut x = rng.below(total);
        let mut what = "";
        for (w, a) in &acts {
            if x < *w {
                what = a;
                break;
            }
            x -= w;
        }
        let shard = *rng.pick(&c.w.cfg.shards);
        let leader = c.term_leader(shard).map(|x| x.0);
        {
            let mut i = c.w.lock();
            i.shape("faults", crate::rng::hash(what.as_bytes()), 0);
            crate::tr!(i, "fault {what}");
        }
        match what {
            "crash" => {
                let v = if rng.p(0.4) {
                    leader.unwrap_or(0)
                } else {
                    rng.below(n as u64) as usize
                };
                if c.is_up(v) {
                    c.crash(v);
                    let d = rng.below(p.down_ms);
                    let c2 = c.clone();
                    tokio::spawn(async move {
                        sleep(d).await;
                        if !c2.is_up(v) {
                            c2.start(v).await;
                        }
                    });
                }
            }
            "crash_all" => {
                let stagger = rng.p(0.5);
                for v in 0..n {
                    if c.is_up(v) {
                        c.crash(v);
                    }
                    if stagger {
                        sleep(rng.below(40)).await;
                    }
                }
                for v in 0..n {
                    let d = rng.below(p.down_ms);
                    let c2 = c.clone();
                    tokio::spawn(async move {
                        sleep(d).await;
                        if !c2.is_up(v) {
                            c2.start(v).await;
                        }
                    });
                }
            }
            "partition" | "isolate_leader" | "oneway" => {
                let mut side: BTreeSet<usize> = BTreeSet::new();
                if what == "isolate_leader" {
                    side.insert(leader.unwrap_or(0));
                    if n > 3 && rng.p(0.4) {
                        side.insert(rng.below(n as u64) as usize);
                    }
                } else {
                    for v in 0..n {
                        if rng.p(0.5) {
                            side.insert(v);
                        }
                    }
                }
                let fast = rng.p(0.5);
                c.w.lock().dial_fast_fail = fast;
                let only_out = rng.p(0.5);
                for a in 0..n {
                    for b in 0..n {
                        if side.contains(&a) && !side.contains(&b) {
                            if what == "oneway" {
                                if only_out {
                                    c.w.set_link(a, b, false)
                                } else {
                                    c.w.set_link(b, a, false)
                                }
                            } else {
                                c.w.set_link(a, b, false);
                                c.w.set_link(b, a, false);
                            }
                        }
                    }
                }
                // Sometimes the connections notice at once, sometimes bytes just stop.
                if rng.p(0.6) {
                    let s2 = side.clone();
                    c.w.reset_conns(|a, b| {
                        a < 1000 && b < 1000 && (s2.contains(&a) != s2.contains(&b))
                    });
                }
                let d = rng.range(200, p.part_ms);
                let c2 = c.clone();
                if rng.p(0.7) {
                    sleep(d).await;
                    c2.w.heal();
                } else {
                    tokio::spawn(async move {
                        sleep(d).await;
                        c2.w.heal();
                    });
                }
            }
            "reset" => {
                let v = rng.below(n as u64) as usize;
                let all = rng.p(0.3);
                c.w.reset_conns(|a, b| all || a == v || b == v);
            }
            "loss" => {
                let mut f = RpcFault {
                    err_before: 0.3 * (rng.below(100) as f64) / 100.0,
                    err_after: 0.3 * (rng.below(100) as f64) / 100.0,
                    ..Default::default()
                };
                if rng.p(0.3) {
                    f.err_after = 0.9;
                }
                c.w.lock().rpc_fault = f;
                let d = rng.range(200, 4000);
                let c2 = c.clone();
                tokio::spawn(async move {
                    sleep(d).await;
                    c2.w.lock().rpc_fault = RpcFault::default();
                });
            }
            "delay" => {
                c.w.lock().rpc_fault = RpcFault {
                    delay_p: 0.3,
                    delay_ms: rng.range(50, 2500),
                    ..Default::default()
                };
                let d = rng.range(500, 6000);
                let c2 = c.clone();
                tokio::spawn(async move {
                    sleep(d).await;
                    c2.w.lock().rpc_fault = RpcFault::default();
                });
            }
            "slow" => {
                let v = if rng.p(0.4) {
                    leader.unwrap_or(0)
                } else {
                    rng.below(n as u64) as usize
                };
                let m = rng.range(10, 400);
                c.w.lock().nodes[v].slow_ms = m;
                let d = rng.range(500, 5000);
                let c2 = c.clone();
                tokio::spawn(async move {
                    sleep(d).await;
                    c2.w.lock().nodes[v].slow_ms = 0;
                });
            }
            "err" => {
                let v = if rng.p(0.5) {
                    leader.unwrap_or(0)
                } else {
                    rng.below(n as u64) as usize
                };
                let e = 0.05 + 0.3 * (rng.below(100) as f64 / 100.0);
                c.w.lock().nodes[v].err_p = e;
                let d = rng.range(200, 3000);
                let c2 = c.clone();
                tokio::spawn(async move {
                    sleep(d).await;
                    c2.w.lock().nodes[v].err_p = 0.0;
                });
            }
            "stall" => {
                // The store of one shard stops answering on one node.
                let v = rng.below(n as u64) as usize;
                c.w.lock().nodes[v].stalled.insert(shard);
                let d = rng.range(500, 5000);
                let c2 = c.clone();
                tokio::spawn(async move {
                    sleep(d).await;
                    c2.w.lock().nodes[v].stalled.remove(&shard);
                });
            }
            "timeout_now" => {
                let v = rng.below(n as u64) as usize;
                let c2 = c.clone();
                let k = if rng.p(0.3) { 2 } else { 1 };
                for j in 0..k {
                    let c2 = c2.clone();
                    let v = (v + j) % n;
                    let to = if rng.p(0.4) { rng.range(1, 60) } else { 5000 };
                    tokio::spawn(async move {
                        c2.timeout_now_for(900 + j, v, shard, to).await.ok();
                    });
                }
            }
            "member" => {
                let k = if rng.p(0.3) { rng.range(2, 4) } else { 1 };
                for j in 0..k {
                    let server = rng.below(n as u64) as usize;
                    let add = rng.p(0.55);
                    let via = if rng.p(0.6) {
                        leader.unwrap_or(0)
                    } else {
                        rng.below(n as u64) as usize
                    };
                    // Never shrink below two members, and never address a node outside the membership
                    // as the only contact: an empty node asked to add itself would form a new cluster.
                    let cur = leader.map(|l| c.members(shard, l)).unwrap_or_default();
                    if cur.len() <= 2 && !add {
                        continue;
                    }
                    let via_has = {
                        let i = c.w.lock();
                        i.nodes[via].disks[&shard].newest_config().is_some()
                    };
                    if !via_has {
                        continue;
                    }
                    let c2 = c.clone();
                    // Some callers give up while the request is being worked on.
                    let to = if rng.p(0.3) { rng.range(1, 100) } else { 6000 };
                    let t = async move {
                        c2.change(800 + j as usize, via, shard, add, server, to)
                            .await
                            .ok();
                    };
                    if k > 1 || rng.p(0.3) {
                        tokio::spawn(t);
                    } else {
                        t.await;
                    }
                }
            }
            _ => {}
        }
    }
}

/// Everything heals; the shard must serve again within the bound. Returns the time needed.
pub async fn settle(c: &Arc<Cluster>, shard: u32, bound_ms: u64) -> Option<u64> {
    let t0 = now_ms();
    let deadline = t0 + bound_ms;
    let mut pending: Option<Vec<usize>> = None;
    let mut why = String::from("no leader");
    let mut passes = 0;
    while now_ms() < deadline && !c.w.lock().over() {
        let Some((l, term)) = c.term_leader(shard) else {
            why = "no leader".into();
            sleep(300).await;
            continue;
        };
        let members = c.members(shard, l);
        if !members.contains(&l) && members.len() >= 1 {
            why = format!("n{l} leads but is no member of {members:?}");
            sleep(300).await;
            continue;
        }
        let todo = pending.take().unwrap_or_else(|| members.clone());
        let mut left = vec![];
        for m in todo {
            if !members.contains(&m) {
                continue;
            }
            let op = c.op_id();
            match c.write(700, m, shard, op, 5000).await {
                Ok(_) => {}
                Err(e) => {
                    why = format!("write through n{m}: {e}");
                    left.push(m);
                    continue;
                }
            }
            if let Err(e) = c.read(700, m, shard, 5000).await {
                why = format!("read through n{m}: {e}");
                left.push(m);
            }
        }
        if !left.is_empty() {
            pending = Some(left);
            sleep(300).await;
            continue;
        }
        // Convergence of all live members.
        sleep(700).await;
        let (same, what) = {
            let i = c.w.lock();
            let v: Vec<_> = members
                .iter()
                .map(|m| (*m, i.nodes[*m].views[&shard].clone()))
                .collect();
            let same = v
                .windows(2)
                .all(|x| (x[0].1.count, x[0].1.hash) == (x[1].1.count, x[1].1.hash));
            (
                same,
                format!(
                    "{:?}",
                    v.iter()
                        .map(|x| (x.0, x.1.last, x.1.count))
                        .collect::<Vec<_>>()
                ),
            )
        };
        if !same {
            why = format!("replicas differ: {what}");
            passes += 1;
            if passes % 8 == 0 {
                pending = Some(vec![]);
            } else {
                pending = Some(vec![]);
            }
            continue;
        }
        let _ = term;
        return Some(now_ms() - t0);
    }
    let mut i = c.w.lock();
    if !i.over() {
        let props: Vec<&str> = ["C12"]
            .into_iter()
            .chain(c.w.cfg.live.iter().copied())
            .collect();
        i.viol(
            &props,
            "no-recovery",
            format!(
                "shard {shard}: service not restored {bound_ms} ms after the last fault: {why}"
            ),
        );
    }
    None
}

/// Whole-history checks at the end of a run, after settling.
pub fn final_checks(c: &Arc<Cluster>, settled: bool) {
    let mut i = c.w.lock();
    if i.tainted {
        return;
    }
    for s in c.w.cfg.shards.clone() {
        i.check_history(s);
        // Acknowledged writes are in the common history, and every live member got there.
        let acked: Vec<(u64, u64)> = i.shards[&s]
            .hist
            .values()
            .filter(|r| r.write && r.ret.is_some())
            .map(|r| (r.op, r.idx))
            .collect();
        for (op, idx) in &acked {
            if i.shards[&s].canon.get(idx).map(|a| a.op) != Some(*op) {
                i.viol(&["C02"], "ack-lost", format!("shard {s}: acknowledged op {op} (index {idx}) is not in the applied sequence"));
            }
        }
        let max_ack = acked.iter().map(|x| x.1).max().unwrap_or(0);
        if settled {
            let l = i.shards[&s].leaders.iter().next_back().map(|x| *x.1);
            if let Some(l) = l {
                let members: Vec<usize> = i.nodes[l].disks[&s]
                    .newest_config()
                    .map(|x| x.1)
                    .unwrap_or_default()
                    .iter()
                    .filter_map(|x| i.uris.get(x).copied())
                    .collect();
                for m in &members {
                    if !i.nodes[*m].up {
                        continue;
                    }
                    let v = i.nodes[*m].views[&s].clone();
                    if v.last < max_ack {
                        i.viol(&["C02"], "ack-missing", format!("shard {s} n{m}: state ends at index {}, writes up to {max_ack} were acknowledged", v.last));
                    }
                    let want = i.shards[&s]
                        .canon
                        .range(..=v.last)
                        .next_back()
                        .map(|(_, a)| (a.count, a.hash))
                        .unwrap_or((0, 0));
                    if (v.count, v.hash) != want {
                        i.viol(&["C01"], "final-state", format!("shard {s} n{m}: state ({},{:x}) at index {} differs from the common ({},{:x})", v.count, v.hash, v.last, want.0, want.1));
                    }
                }
                check_membership(&mut i, s, &members);
            }
        }
        // Stored logs are consecutive chains from the newest snapshot entry on.
        for n in 0..i.nodes.len() {
            let d = &i.nodes[n].disks[&s];
            let from = d.snapshot_index().unwrap_or(1);
            let mut prev: Option<((u64, u64), u64)> = None;
            let mut bad = None;
            for (k, e) in d.log.range(from..) {
                if let Some((pc, pk)) = prev {
                    if pk + 1 != *k || e.prev != pc {
                        bad = Some(format!(
                            "shard {s} n{n}: entry {k} (prev {:?}) follows entry {pk} {pc:?}",
                            e.prev
                        ));
                        break;
                    }
                }
                prev = Some((e.this, *k));
            }
            if let Some(b) = bad {
                i.viol(&["C06"], "broken-chain", b);
            }
        }
        // Pairwise log matching over everything still stored.
        for a in 0..i.nodes.len() {
            for b in a + 1..i.nodes.len() {
                let (da, db) = (&i.nodes[a].disks[&s], &i.nodes[b].disks[&s]);
                let top = da
                    .log
                    .keys()
                    .rev()
                    .find(|k| {
                        db.log
                            .get(k)
                            .map(|e| e.this == da.log[k].this)
                            .unwrap_or(false)
                    })
                    .copied();
                let Some(top) = top else { continue };
                let low = da
                    .snapshot_index()
                    .unwrap_or(1)
                    .max(db.snapshot_index().unwrap_or(1));
                let mut bad = None;
                for k in low..=top {
                    if let (Some(x), Some(y)) = (da.log.get(&k), db.log.get(&k)) {
                        if x.this != y.this
                            || (x.digest != y.digest
                                && !x.cmd.is_snapshot()
                                && !y.cmd.is_snapshot())
                        {
                            bad = Some(format!("shard {s}: n{a} and n{b} agree at {top} but hold {:?} and {:?} at {k}", x.this, y.this));
                        }
                    }
                }
                if let Some(m) = bad {
                    i.viol(&["C06"], "log-matching", m);
                }
            }
        }
    }
}
fn check_membership(i: &mut Inner, s: u32, members: &[usize]) {
    let mems = i.shards[&s].mems.clone();
    for n in 0..i.nodes.len() {
        // The last successful change of this server, with no other change of it that may come after.
        let of: Vec<&MemRec> = mems.iter().filter(|m| m.server == n).collect();
        let Some(last) = of.iter().filter(|m| m.ok).max_by_key(|m| m.call) else {
            continue;
        };
        let ambiguous = of
            .iter()
            .any(|m| m.add != last.add && m.ret.map(|r| r > last.call || !m.ok).unwrap_or(true));
        if ambiguous {
            continue;
        }
        i.stat("membership_outcomes_checked");
        if members.contains(&n) != last.add {
            i.viol(
                &["C07"],
                "membership-lost",
                format!(
                    "shard {s}: {} of n{n} was acknowledged but the membership is {members:?}",
                    if last.add {
                        "AddServer"
                    } else {
                        "RemoveServer"
                    }
                ),
            );
        }
    }
}

pub async fn calm(c: &Arc<Cluster>) {
    {
        let mut i = c.w.lock();
        i.rpc_fault = RpcFault::default();
        i.blocker = None;
        i.chaos = false;
        for n in i.nodes.iter_mut() {
            n.slow_ms = 0;
            n.app_slow_ms = 0;
            n.err_p = 0.0;
            n.stalled.clear();
        }
        i.dial_fast_fail = true;
        crate::tr!(i, "calm");
    }
    c.w.heal();
    for n in 0..c.w.cfg.nodes {
        if !c.is_up(n) {
            c.start(n).await;
        }
    }
}

pub async fn random_run(c: Arc<Cluster>, p: Profile, seed: u64) {
    let n = c.w.cfg.nodes;
    for v in 0..n {
        c.start(v).await;
    }
    let mut rng = Rng::new(seed ^ 0x77);
    for s in c.w.cfg.shards.clone() {
        let mut ms: Vec<usize> = (0..n).collect();
        for k in (1..n).rev() {
            ms.swap(k, rng.below(k as u64 + 1) as usize);
        }
        ms.truncate(p.start_members.min(n));
        if !c.form(s, &ms).await {
            c.w.lock().viol(
                &["C12"],
                "no-formation",
                format!("shard {s}: the cluster {ms:?} could not be formed without faults"),
            );
            return;
        }
    }
    let stop = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for k in 0..p.clients {
        hs.push(tokio::spawn(client_loop(
            c.clone(),
            p.clone(),
            k + 1,
            rng.next(),
            stop.clone(),
        )));
    }
    let nm = tokio::spawn(nemesis(c.clone(), p.clone(), rng.next(), stop.clone()));
    let end = now_ms() + p.duration_ms;
    while now_ms() < end {
        sleep(500).await;
        if c.w.lock().over() {
            break;
        }
    }
    stop.store(true, Ordering::SeqCst);
    nm.await.ok();
    calm(&c).await;
    // Late actions of the nemesis (restarts, resets of fault levels) run out here.
    for h in hs {
        h.await.ok();
    }
    if p.calm {
        let mut i = c.w.lock();
        let bad: Vec<String> = i
            .shards
            .values()
            .filter(|m| m.leaders.len() == 1)
            .filter_map(|m| m.refused.clone())
            .collect();
        for b in bad {
            i.viol(&["C12"], "refused", b);
        }
    }
    sleep(500).await;
    calm(&c).await;
    let mut all = true;
    for s in c.w.cfg.shards.clone() {
        match settle(&c, s, p.settle_ms).await {
            Some(t) => {
                let mut i = c.w.lock();
                let e = i.stats.entry("max_recovery_ms").or_default();
                *e = (*e).max(t);
            }
            None => all = false,
        }
    }
    final_checks(&c, all);
}
