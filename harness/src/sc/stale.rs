//! C03: reads where an answer from an old state is most likely: at leaders that lag in applying, at
//! deposed leaders, right after a leader is gone, at restarted nodes.
use super::*;

fn setup(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[3, 3, 4, 5]);
    p.cfg.link_ms = rng.below(4);
    p.cfg.rpc_p = *rng.pick(&[0.0, 0.3]);
    p.cfg.rpc_max_ms = *rng.pick(&[10, 100]);
    p.cfg.store_p = *rng.pick(&[0.0, 0.3]);
    if rng.p(0.3) {
        p.cfg.snap_every = rng.range(3, 20);
    }
    p.start_members = p.cfg.nodes;
    p
}
/// Writes and reads in quick succession, each at one of `at`; they may take `timeout`.
async fn burst(
    c: &Arc<Cluster>,
    rng: &mut Rng,
    at: &[usize],
    n: u64,
    gap: u64,
    read: f64,
    timeout: u64,
    hs: &mut Vec<tokio::task::JoinHandle<()>>,
) {
    for k in 0..n {
        let (c2, v, r) = (c.clone(), *rng.pick(at), rng.p(read));
        let cl = 10 + (k % 8) as usize;
        hs.push(tokio::spawn(async move {
            if r {
                c2.read(cl, v, 0, timeout).await.ok();
            } else {
                let op = c2.op_id();
                c2.write(cl, v, 0, op, timeout).await.ok();
            }
        }));
        sleep(rng.below(gap + 1)).await;
    }
}
async fn leader_but(c: &Arc<Cluster>, l: usize, bound: u64) -> Option<usize> {
    let end = now_ms() + bound;
    while now_ms() < end {
        if let Some((x, _)) = c.term_leader(0) {
            if x != l {
                return Some(x);
            }
        }
        sleep(5).await;
    }
    None
}
fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let ms = shuffled(&mut rng, n);
        if !boot(&c, &ms).await {
            return;
        }
        let mut hs = vec![];
        for _ in 0..rng.range(3, 7) {
            if c.w.lock().over() {
                return;
            }
            let Some((l, _)) = stable_leader(&c, 0, 500, 30_000).await else {
                break;
            };
            let others: Vec<usize> = (0..n).filter(|v| *v != l).collect();
            let x = *rng.pick(&others);
            let all: Vec<usize> = (0..n).collect();
            let slow = *rng.pick(&[0, 10, 40, 150]);
            for v in &all {
                let s = if *v == x || rng.p(0.2) { slow } else { 0 };
                c.w.lock().nodes[*v].app_slow_ms = s;
            }
            let k = rng.range(1, 12);
            let gap = rng.range(1, 20);
            burst(&c, &mut rng, &[l], k, gap, 0.2, 10_000, &mut hs).await;
            if rng.p(0.8) {
                for h in hs.drain(..) {
                    h.await.ok();
                }
            }
            if rng.p(0.5) {
                // Acknowledged, but not everywhere applied.
                sleep(rng.below(80)).await;
            }
            let what = *rng.pick(&[
                "handover", "handover", "handover", "handover", "deposed", "deposed", "crash",
                "restart", "mute", "slow_rpc",
            ]);
            c.w.lock()
                .shape("stale_chances", crate::rng::hash(what.as_bytes()), 0);
            let gap = rng.range(1, 25);
            match what {
                "handover" => {
                    c.timeout_now(2, x, 0).await.ok();
                    let y = leader_but(&c, l, 3000).await.unwrap_or(x);
                    // Until it knows that it may answer.
                    for _ in 0..100 {
                        match c.read(3, y, 0, 6).await {
                            Err(e) if e != "timeout" => sleep(3).await,
                            _ => break,
                        }
                    }
                    let k = rng.range(6, 40);
                    burst(&c, &mut rng, &[y], k, gap, 0.5, 8000, &mut hs).await;
                    burst(&c, &mut rng, &all, k, gap, 0.7, 8000, &mut hs).await;
                }
                "deposed" | "mute" => {
                    // The leader is cut off with fewer than half; it is asked all the time.
                    let mut side = vec![l];
                    if n == 5 && rng.p(0.5) {
                        side.push(x);
                    }
                    for a in &side {
                        for b in 0..n {
                            if !side.contains(&b) {
                                c.w.set_link(*a, b, false);
                                if what == "deposed" {
                                    c.w.set_link(b, *a, false);
                                }
                            }
                        }
                    }
                    if rng.p(0.5) {
                        let s2 = side.clone();
                        c.w.reset_conns(|a, b| {
                            a < 1000 && b < 1000 && (s2.contains(&a) != s2.contains(&b))
                        });
                    }
                    let rest: Vec<usize> = (0..n).filter(|v| !side.contains(v)).collect();
                    let k = rng.range(2, 8);
                    burst(&c, &mut rng, &side, k, gap, 0.7, 6000, &mut hs).await;
                    if rng.p(0.7) {
                        c.timeout_now(2, *rng.pick(&rest), 0).await.ok();
                    }
                    if let Some(y) = leader_but(&c, l, 8000).await {
                        let k = rng.range(2, 10);
                        let healed = rng.below(k);
                        for j in 0..k {
                            burst(&c, &mut rng, &[y], 1, 0, 0.0, 6000, &mut hs).await;
                            let to = rng.range(1000, 8000);
                            burst(&c, &mut rng, &side, 2, gap, 0.9, to, &mut hs).await;
                            if j == healed {
                                c.w.heal();
                            }
                        }
                        burst(&c, &mut rng, &all, 8, gap, 0.8, 6000, &mut hs).await;
                    }
                    c.w.heal();
                }
                "crash" | "restart" => {
                    c.crash(l);
                    if what == "restart" {
                        c.start(l).await;
                    } else if rng.p(0.6) {
                        c.timeout_now(2, x, 0).await.ok();
                    }
                    let up: Vec<usize> = all.iter().copied().filter(|v| c.is_up(*v)).collect();
                    for _ in 0..rng.range(5, 30) {
                        burst(&c, &mut rng, &up, 2, gap, 0.7, 6000, &mut hs).await;
                        sleep(rng.below(100)).await;
                    }
                    if !c.is_up(l) {
                        c.start(l).await;
                    }
                }
                _ => {
                    // What the leader sends arrives late, while another takes over.
                    let only: std::collections::HashSet<(usize, usize)> =
                        others.iter().map(|v| (l, *v)).collect();
                    c.w.lock().rpc_fault = RpcFault {
                        only: Some(only),
                        delay_p: 0.8,
                        delay_ms: rng.range(50, 1500),
                        ..Default::default()
                    };
                    let k = rng.range(3, 10);
                    burst(&c, &mut rng, &[l], k, gap, 0.6, 6000, &mut hs).await;
                    c.timeout_now(2, x, 0).await.ok();
                    for _ in 0..rng.range(3, 15) {
                        burst(&c, &mut rng, &[x], 1, 3, 0.1, 6000, &mut hs).await;
                        burst(&c, &mut rng, &[l], 2, gap, 0.8, 6000, &mut hs).await;
                    }
                    c.w.lock().rpc_fault = RpcFault::default();
                }
            }
            if rng.p(0.5) {
                for h in hs.drain(..) {
                    h.await.ok();
                }
            }
        }
        for h in hs {
            h.await.ok();
        }
        finish(&c, &p, None).await;
    })
}
pub fn all() -> Vec<Scenario> {
    vec![Scenario {
        name: "stale",
        setup,
        run,
    }]
}
