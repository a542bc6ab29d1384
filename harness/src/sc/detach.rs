//! C15: detached processes and dropped nodes.
use super::*;

fn setup(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = rng.range(3, 5) as usize;
    p.start_members = p.cfg.nodes;
    if rng.p(0.5) {
        p.cfg.shards = (0..rng.range(2, 4) as u32).collect();
    }
    if rng.p(0.4) {
        p.cfg.snap_every = rng.range(3, 10);
        p.retry_p = 0.0;
    }
    p.cfg.store_p = 0.5;
    p.clients = 4;
    p.think_ms = 80;
    p.op_timeout = 8000;
    p
}
/// What the detached process (or dropped node) may not do any more, watched at the others.
fn watch_wire(c: &Arc<Cluster>) {
    let w = Arc::downgrade(&c.w);
    let mut i = c.w.lock();
    i.blocker = Some(Box::new(move |r| {
        let Some(w) = w.upgrade() else {
            return Action::Pass;
        };
        let s = match r.kind {
            "RequestVote" => <crate::wire::VoteRequest as prost::Message>::decode(r.msg)
                .ok()
                .map(|v| vec![v.shard_id]),
            "SendHeartbeat" => <crate::wire::Heartbeat as prost::Message>::decode(r.msg)
                .ok()
                .map(|v| v.leader_commit_states.keys().copied().collect()),
            "GetSnapshot" => <crate::wire::GetSnapshotRequest as prost::Message>::decode(r.msg)
                .ok()
                .map(|v| vec![v.shard_id]),
            "ProcessKernRequest" => <crate::wire::KernRequest as prost::Message>::decode(r.msg)
                .ok()
                .map(|v| vec![v.shard_id]),
            _ => None,
        };
        let (src, kind) = (r.src, r.kind);
        // Called with the world locked; the check itself runs right after.
        for s in s.unwrap_or_default() {
            let w = w.clone();
            tokio::spawn(async move {
                w.lock().detached_traffic(src, s, kind);
            });
        }
        Action::Pass
    }));
}
fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let ms = shuffled(&mut rng, n);
        if !boot(&c, &ms).await {
            return;
        }
        watch_wire(&c);
        let cl = clients(&c, &p, &mut rng);
        let shards = c.w.cfg.shards.clone();
        for _ in 0..rng.range(1, 4) {
            sleep(rng.below(2500)).await;
            let s = *rng.pick(&shards);
            let drop_node = rng.p(0.3);
            // Sometimes in the middle of an election.
            let electing = rng.p(0.3);
            let Some((l, t)) = stable_leader(&c, s, 500, 60_000).await else {
                c.w.lock().viol(
                    &["C12"],
                    "no-leader",
                    format!("shard {s}: no leader for 60 s without faults"),
                );
                return;
            };
            let v = if rng.p(0.6) { l } else { *rng.pick(&ms) };
            // Requests that are waiting at the process when it goes.
            let mut waiting = vec![];
            for k in 0..rng.range(1, 6) {
                let c2 = c.clone();
                let op = c.op_id();
                let read = rng.p(0.3);
                let d = rng.below(40);
                let member = rng.p(0.1);
                waiting.push(tokio::spawn(async move {
                    sleep(d).await;
                    let cl = 400 + k as usize;
                    let r = if member {
                        c2.change(cl, v, s, true, v, 12_000).await
                    } else if read {
                        c2.read(cl, v, s, 12_000).await.map(|_| ())
                    } else {
                        c2.write(cl, v, s, op, 12_000).await.map(|_| ())
                    };
                    (r, read)
                }));
            }
            if electing {
                let c2 = c.clone();
                tokio::spawn(async move {
                    c2.timeout_now(5, v, s).await.ok();
                });
            }
            sleep(rng.below(60)).await;
            let t0 = now_ms();
            if drop_node {
                c.drop_node(v);
            } else {
                c.detach(v, s);
            }
            // The requests that were waiting there are answered, one way or the other.
            for h in waiting {
                if let Ok((Err(e), read)) = h.await {
                    if e == "timeout" {
                        c.w.lock().viol(&["C15", "C12"], "waiting-unanswered", format!("shard {s}: a {} sent to n{v} before its process was {} is never answered", if read { "read" } else { "request" }, if drop_node { "dropped" } else { "detached" }));
                    }
                }
            }
            if !drop_node {
                let op = c.op_id();
                if let Err(e) = c.write(6, v, s, op, 5000).await {
                    if e == "timeout" {
                        c.w.lock().viol(&["C15", "C14"], "detached-hangs", format!("shard {s}: a request to n{v}, where the shard is detached, gets no answer"));
                    }
                } else {
                    c.w.lock().viol(
                        &["C15"],
                        "detached-serves",
                        format!("shard {s}: n{v} serves a write for a shard that is detached"),
                    );
                }
            }
            // The others go on without it.
            let mut new = None;
            while now_ms() < t0 + 60_000 {
                let i = c.w.lock();
                let top = i.shards[&s]
                    .leaders
                    .iter()
                    .next_back()
                    .map(|(t, n)| (*n, *t))
                    .unwrap();
                let fresh = i.shards[&s]
                    .last_hb
                    .get(&top.0)
                    .map(|x| now_ms() - x.0 < 1000)
                    .unwrap_or(false);
                drop(i);
                if top.0 != v && fresh && (v != l || top.1 > t) {
                    new = Some(top);
                    break;
                }
                sleep(50).await;
            }
            match new {
                None => {
                    c.w.lock().viol(
                        &["C15", "C12"],
                        "no-successor",
                        format!(
                            "shard {s}: 60 s after the process of n{v} was {}, nobody else leads",
                            if drop_node { "dropped" } else { "detached" }
                        ),
                    );
                }
                Some((x, _)) => {
                    let mut i = c.w.lock();
                    let e = i.stats.entry("max_takeover_ms").or_default();
                    *e = (*e).max(now_ms() - t0);
                    drop(i);
                    let mut ok = false;
                    let t1 = now_ms();
                    while now_ms() < t1 + 60_000 {
                        let op = c.op_id();
                        if c.write(6, x, s, op, 3000).await.is_ok() {
                            ok = true;
                            break;
                        }
                        sleep(200).await;
                    }
                    if !ok {
                        c.w.lock().viol(&["C15", "C12"], "unserved", format!("shard {s}: the members left after n{v} went accept no write for 60 s"));
                    }
                }
            }
            sleep(rng.below(6000)).await;
            if drop_node {
                c.end_drop(v);
                c.start(v).await;
            } else {
                for _ in 0..50 {
                    if c.attach(v, s).await.is_ok() {
                        break;
                    }
                    sleep(100).await;
                }
                c.w.lock().stat("reattached");
            }
        }
        c.w.lock().blocker = None;
        c.w.lock().stat("detach_runs");
        finish(&c, &p, Some(cl)).await;
        // Long after, a process that is gone has still done nothing.
        sleep(5000).await;
    })
}
pub fn all() -> Vec<Scenario> {
    vec![Scenario {
        name: "detach",
        setup,
        run,
    }]
}
