//! Retried requests.
use super::*;

pub fn all() -> Vec<Scenario> {
    vec![
        Scenario {
            name: "dedup_snap",
            setup: setup_snap,
            run: |c, p, r| Box::pin(dedup_snap(c, p, r)),
        },
        Scenario {
            name: "dedup_window",
            setup: setup_window,
            run: |c, p, r| Box::pin(dedup_window(c, p, r)),
        },
        Scenario {
            name: "dedup_move",
            setup: setup_move,
            run: |c, p, r| Box::pin(dedup_move(c, p, r)),
        },
    ]
}
fn setup_snap(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[1, 3]);
    p.cfg.snap_every = 3;
    p
}
/// The known finding: all replicas start from a snapshot that covers the first execution.
async fn dedup_snap(c: Arc<Cluster>, _p: Profile, mut rng: Rng) {
    let n = c.w.cfg.nodes;
    let ms = shuffled(&mut rng, n);
    if !boot(&c, &ms).await {
        return;
    }
    let mut op = c.op_id();
    while c.write(1, ms[0], 0, op, 5000).await.is_err() {
        sleep(200).await;
        op = c.op_id();
    }
    for _ in 0..200 {
        let id = c.op_id();
        c.write(1, ms[0], 0, id, 5000).await.ok();
        let i = c.w.lock();
        let at = i.shards[&0].op_idx.get(&op).copied().unwrap_or(u64::MAX);
        if (0..n).all(|v| i.nodes[v].disks[&0].snapshot_index().unwrap_or(0) > at) {
            break;
        }
    }
    for v in 0..n {
        c.crash(v);
    }
    for v in 0..n {
        c.start(v).await;
    }
    stable_leader(&c, 0, 500, 60_000).await;
    c.w.lock().stat("retries");
    for _ in 0..30 {
        c.write(1, ms[0], 0, op, 3000).await.ok();
        if c.w.lock().over() {
            return;
        }
        sleep(300).await;
    }
}
fn setup_move(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[3, 3, 4, 5]);
    p.start_members = p.cfg.nodes;
    p
}
/// Requests whose answer is lost or late are retried at every replica, while leadership moves and
/// replicas restart, shortly and long after their execution.
async fn dedup_move(c: Arc<Cluster>, p: Profile, mut rng: Rng) {
    let n = c.w.cfg.nodes;
    let ms = shuffled(&mut rng, n);
    if !boot(&c, &ms).await {
        return;
    }
    let mut pool: Vec<u64> = vec![];
    for round in 0..rng.range(4, 9) {
        let mut fs = vec![];
        for k in 0..rng.range(1, 6) {
            let op = c.op_id();
            pool.push(op);
            // Abandoned before, during or after execution, or not at all.
            let to = *rng.pick(&[1, 5, 10, 20, 40, 80, 3000]);
            let at = rng.below(n as u64) as usize;
            let c = c.clone();
            fs.push(async move {
                sleep(k * 7).await;
                c.write(1 + k as usize, at, 0, op, to).await.ok();
            });
        }
        futures::future::join_all(fs).await;
        match rng.below(6) {
            0 => {
                let v = rng.below(n as u64) as usize;
                c.timeout_now(900, v, 0).await.ok();
            }
            1 => {
                if let Some((l, _)) = c.term_leader(0) {
                    c.crash(l);
                    sleep(rng.below(3000)).await;
                    c.start(l).await;
                }
            }
            2 => {
                for v in 0..n {
                    c.crash(v);
                }
                for v in 0..n {
                    c.start(v).await;
                }
            }
            3 => {
                // The leader cannot reach anybody for a while.
                if let Some((l, _)) = c.term_leader(0) {
                    for v in 0..n {
                        c.w.set_link(l, v, v == l);
                        c.w.set_link(v, l, v == l);
                    }
                    let op = c.op_id();
                    pool.push(op);
                    c.write(1, l, 0, op, 300).await.ok();
                    c.write(2, (l + 1) % n, 0, op, 2000).await.ok();
                    sleep(rng.below(6000)).await;
                    c.w.heal();
                }
            }
            4 => sleep(rng.below(20_000)).await,
            _ => {}
        }
        // Everything again, in any order, at several replicas at once.
        let mut fs = vec![];
        for op in pool.clone() {
            if !rng.p(0.6) {
                continue;
            }
            for _ in 0..rng.range(1, 3) {
                let at = rng.below(n as u64) as usize;
                let d = rng.below(60);
                let cl = 10 + rng.below(3) as usize;
                let to = *rng.pick(&[15, 100, 2500, 2500]);
                let c = c.clone();
                fs.push(async move {
                    sleep(d).await;
                    c.write(cl, at, 0, op, to).await.ok();
                });
            }
        }
        c.w.lock().stat("retries");
        if round > 0 {
            c.w.lock().stat("late_retries");
        }
        futures::future::join_all(fs).await;
    }
    finish(&c, &p, None).await;
}

fn setup_window(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[1, 1, 3]);
    p.start_members = p.cfg.nodes;
    p.cfg.link_ms = 0;
    p.cfg.store_p = 0.0;
    p
}
/// Requests are retried after thousands of others have completed.
async fn dedup_window(c: Arc<Cluster>, p: Profile, mut rng: Rng) {
    let n = c.w.cfg.nodes;
    let ms = shuffled(&mut rng, n);
    if !boot(&c, &ms).await {
        return;
    }
    let total = if n == 1 {
        *rng.pick(&[700, 1500, 3000, 5000, 9300])
    } else {
        *rng.pick(&[700, 1500])
    };
    let mut pool = vec![];
    let mut done = 0;
    while done < total && !c.w.lock().over() {
        let mut fs = vec![];
        for k in 0..50 {
            let (c2, at) = (c.clone(), *rng.pick(&ms));
            let op = c.op_id();
            if k < 2 {
                pool.push(op);
            }
            // A few answers get lost.
            let to = if rng.p(0.02) { 3 } else { 20_000 };
            fs.push(async move { c2.write(1 + k % 6, at, 0, op, to).await.is_ok() });
        }
        // An unanswered request is completed as well.
        done += fs.len();
        futures::future::join_all(fs).await;
        c.w.lock().stat("window_batches");
    }
    for op in pool {
        c.write(9, *rng.pick(&ms), 0, op, 3000).await.ok();
        c.w.lock().stat("late_retries");
        if c.w.lock().over() {
            return;
        }
    }
    finish(&c, &p, None).await;
}
