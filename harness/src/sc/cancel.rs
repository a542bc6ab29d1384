//! Callers who give up: requests of every kind are abandoned at any moment of their execution,
//! on clusters so small that one node left in a wrong state is enough to stop the service.
use super::*;

fn setup(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = rng.range(1, 3) as usize;
    p.start_members = p.cfg.nodes;
    p.cfg.link_ms = rng.below(3);
    p.cfg.store_p = *rng.pick(&[0.3, 0.9]);
    p.cfg.store_max_ms = *rng.pick(&[5, 20, 60]);
    p.cfg.app_p = *rng.pick(&[0.0, 0.5]);
    if rng.p(0.4) {
        p.cfg.snap_every = rng.range(3, 12);
    }
    p
}
fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let all = shuffled(&mut rng, n);
        if !boot(&c, &all).await {
            return;
        }
        for _ in 0..rng.range(2, 6) {
            if c.w.lock().over() {
                return;
            }
            let back: Vec<usize> = if rng.p(0.5) {
                all.clone()
            } else {
                all.iter().copied().filter(|_| rng.p(0.6)).collect()
            };
            for v in &back {
                c.crash(*v);
            }
            for v in &back {
                c.start(*v).await;
            }
            let mut hs = vec![];
            let longest = *rng.pick(&[10, 40, 120]);
            for k in 0..rng.range(1, 30) {
                let gap = *rng.pick(&[3, 30, 300]);
                sleep(rng.below(gap)).await;
                let v = *rng.pick(&all);
                let x = *rng.pick(&all);
                let what = rng.below(8);
                let to = 1 + rng.below(longest);
                let c2 = c.clone();
                let cl = 20 + (k % 5) as usize;
                c.w.lock().stat("abandoned_requests");
                hs.push(tokio::spawn(async move {
                    match what {
                        0 | 1 => {
                            let op = c2.op_id();
                            c2.write(cl, v, 0, op, to).await.ok();
                        }
                        2 => {
                            c2.read(cl, v, 0, to).await.ok();
                        }
                        // Only servers that are members already, and not through a node that has not
                        // heard of the shard: it would start one of its own.
                        3 if {
                            let i = c2.w.lock();
                            i.nodes[v].disks[&0].newest_config().is_some()
                        } =>
                        {
                            c2.change(cl, v, 0, true, x, to).await.ok();
                        }
                        _ => {
                            c2.timeout_now_for(cl, v, 0, to).await.ok();
                        }
                    }
                }));
            }
            for h in hs {
                h.await.ok();
            }
            // Does it come back by itself?
            if rng.p(0.6) && settle(&c, 0, p.settle_ms).await.is_none() {
                return;
            }
        }
        finish(&c, &p, None).await;
    })
}
pub fn all() -> Vec<Scenario> {
    vec![Scenario {
        name: "cancel",
        setup,
        run,
    }]
}
