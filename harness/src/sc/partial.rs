//! C09 and others: every shard lives on some of the nodes only, and its replicas move between
//! nodes (attach, AddServer, RemoveServer, detach) while clients and faults go on.
use super::*;

fn setup(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = rng.range(4, 6) as usize;
    p.cfg.shards = (0..rng.range(2, 5) as u32).map(|k| k * 11).collect();
    p.clients = 6;
    p.think_ms = 80;
    p.gap_ms = 2500;
    if rng.p(0.5) {
        p.cfg.snap_every = rng.range(3, 20);
        p.retry_p = 0.0;
    }
    if rng.p(0.7) {
        crate::jobs::all_faults(&mut p);
        p.w_crash_all = rng.below(2);
    }
    p.settle_ms = 180_000;
    p
}
fn hosts(c: &Cluster, s: u32) -> Vec<usize> {
    let i = c.w.lock();
    (0..c.w.cfg.nodes)
        .filter(|v| !i.nodes[*v].absent.contains(&s))
        .collect()
}
/// A replica of the shard moves from `from` to `to`.
async fn relocate(c: &Arc<Cluster>, s: u32, from: usize, to: usize, rng: &mut Rng) {
    crate::tr!(c.w.lock(), "move shard {s} n{from} to n{to}");
    if !c.is_up(to) || !c.is_up(from) {
        return;
    }
    c.w.lock().nodes[to].absent.remove(&s);
    let mut ok = false;
    for _ in 0..20 {
        if !c.is_up(to) {
            // It is attached when the node starts.
            ok = true;
            break;
        }
        if c.attach(to, s).await.is_ok() {
            ok = true;
            break;
        }
        sleep(100).await;
    }
    if !ok {
        c.w.lock().nodes[to].absent.insert(s);
        return;
    }
    let mut added = false;
    for _ in 0..rng.range(5, 40) {
        let via = c
            .term_leader(s)
            .map(|l| l.0)
            .filter(|_| rng.p(0.7))
            .unwrap_or(*rng.pick(&hosts(c, s)));
        // A node that has not heard of the shard would start one of its own.
        if via != to
            && c.is_up(via)
            && {
                let i = c.w.lock();
                i.nodes[via].disks[&s].newest_config().is_some()
            }
            && c.change(801, via, s, true, to, 5000).await.is_ok()
        {
            added = true;
            break;
        }
        sleep(300).await;
    }
    if !added {
        return;
    }
    sleep(rng.below(3000)).await;
    for _ in 0..rng.range(5, 40) {
        let via = c
            .term_leader(s)
            .map(|l| l.0)
            .filter(|_| rng.p(0.7))
            .unwrap_or(to);
        if c.is_up(via)
            && {
                let i = c.w.lock();
                i.nodes[via].disks[&s].newest_config().is_some()
            }
            && c.change(802, via, s, false, from, 5000).await.is_ok()
        {
            c.w.lock().shape("replicas_moved", from as u64, to as u64);
            sleep(rng.below(2000)).await;
            if rng.p(0.8) {
                c.w.lock().nodes[from].absent.insert(s);
                if c.is_up(from) {
                    c.detach(from, s);
                }
            }
            return;
        }
        sleep(300).await;
    }
}
fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let shards = c.w.cfg.shards.clone();
        let mut form = vec![];
        for s in &shards {
            let mut ms = shuffled(&mut rng, n);
            let k = *rng.pick(&[2, 3, 3, 3]);
            ms.truncate(k);
            for v in 0..n {
                if !ms.contains(&v) {
                    c.w.lock().nodes[v].absent.insert(*s);
                }
            }
            form.push((*s, ms));
        }
        for v in 0..n {
            c.start(v).await;
        }
        for (s, ms) in &form {
            if !c.form(*s, ms).await {
                c.w.lock().viol(
                    &["C12", "C09"],
                    "no-formation",
                    format!("shard {s}: the cluster {ms:?} could not be formed without faults"),
                );
                return;
            }
        }
        // Requests for a shard that the node does not host are refused, whatever else it hosts.
        for s in &shards {
            for v in 0..n {
                if hosts(&c, *s).contains(&v) {
                    continue;
                }
                let op = c.op_id();
                let (w, r) = (
                    c.write(7, v, *s, op, 5000).await,
                    c.read(7, v, *s, 5000).await,
                );
                for (what, r) in [("write", w), ("read", r)] {
                    match r {
                        Ok(_) => c.w.lock().viol(&["C09", "C14"], "foreign-served", format!("n{v} serves a {what} of shard {s}, which it does not host")),
                        Err(e) if e == "timeout" => c.w.lock().viol(&["C14", "C12"], "foreign-hangs", format!("a {what} of shard {s} sent to n{v}, which does not host it, is not answered")),
                        Err(_) => c.w.lock().stat("foreign_refused"),
                    }
                }
            }
        }
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        for k in 0..p.clients {
            hs.push(tokio::spawn(client_loop(
                c.clone(),
                p.clone(),
                k + 1,
                rng.next(),
                stop.clone(),
            )));
        }
        let nm = tokio::spawn(nemesis(c.clone(), p.clone(), rng.next(), stop.clone()));
        for _ in 0..rng.range(2, 7) {
            if c.w.lock().over() {
                return;
            }
            sleep(rng.below(4000)).await;
            let s = *rng.pick(&shards);
            let h = hosts(&c, s);
            let free: Vec<usize> = (0..n).filter(|v| !h.contains(v)).collect();
            if free.is_empty() {
                continue;
            }
            let members = c
                .term_leader(s)
                .map(|l| c.members(s, l.0))
                .unwrap_or_default();
            let from: Vec<usize> = h.iter().copied().filter(|v| members.contains(v)).collect();
            if from.is_empty() {
                continue;
            }
            relocate(&c, s, *rng.pick(&from), *rng.pick(&free), &mut rng).await;
        }
        stop.store(true, Ordering::SeqCst);
        nm.await.ok();
        calm(&c).await;
        for h in hs {
            h.await.ok();
        }
        sleep(500).await;
        finish(&c, &p, None).await;
    })
}
pub fn all() -> Vec<Scenario> {
    vec![Scenario {
        name: "partial",
        setup,
        run,
    }]
}
