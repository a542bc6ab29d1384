//! C13: a healthy leader is not disturbed, and hands over when asked.
use super::*;
use std::collections::BTreeMap;

fn quiet_profile(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.rpc_p = 0.2;
    p.cfg.rpc_max_ms = 20;
    p.cfg.link_ms = rng.range(0, 4);
    p.clients = 2;
    p.think_ms = 200;
    p.op_timeout = 20_000;
    p.no_short = true;
    p
}
fn setup_rejoin(rng: &mut Rng) -> Profile {
    let mut p = quiet_profile(rng);
    p.cfg.nodes = rng.range(3, 5) as usize;
    p.start_members = p.cfg.nodes;
    if rng.p(0.4) {
        p.cfg.shards = (0..rng.range(2, 4) as u32).collect();
    }
    if rng.p(0.3) {
        p.cfg.snap_every = rng.range(3, 10);
        p.retry_p = 0.0;
    }
    p
}
/// Leaders and terms of all shards.
fn leaders(c: &Cluster) -> BTreeMap<u32, (usize, u64)> {
    c.w.cfg
        .shards
        .iter()
        .filter_map(|s| c.term_leader(*s).map(|l| (*s, l)))
        .collect()
}
/// Every leader of `want` still leads in the same term and is heard.
fn undisturbed(
    c: &Cluster,
    want: &BTreeMap<u32, (usize, u64)>,
    what: &str,
    members: &BTreeMap<u32, Vec<usize>>,
) -> bool {
    let mut i = c.w.lock();
    let mut ok = true;
    for (s, (l, t)) in want {
        let top = i.shards[s]
            .leaders
            .iter()
            .next_back()
            .map(|(t, n)| (*n, *t));
        let term = i.nodes[*l].disks[s].term;
        let heard = i.shards[s]
            .last_hb
            .get(l)
            .map(|(at, _)| now_ms() - at)
            .unwrap_or(u64::MAX);
        i.stat("leadership_observations");
        if top != Some((*l, *t)) || term != *t {
            i.viol(&["C13"], "leader-disturbed", format!("shard {s}: n{l} led term {t} with a majority, but after {what} the leader is {top:?} (n{l} is in term {term})"));
            ok = false;
        } else if heard > 2500 && members[s].len() > 1 {
            i.viol(&["C13", "C12"], "leader-silent", format!("shard {s}: n{l} leads term {t} but has sent no heartbeat for {heard} ms ({what})"));
            ok = false;
        }
    }
    ok
}
fn run_rejoin(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let spare = n > 3 && rng.p(0.4);
        let mut ms = shuffled(&mut rng, n);
        if spare {
            ms.truncate(n - 1);
        }
        if !boot(&c, &ms).await {
            return;
        }
        // Spread the leaders over the nodes.
        for s in c.w.cfg.shards.clone() {
            if rng.p(0.5) {
                c.timeout_now(1, *rng.pick(&ms), s).await.ok();
                sleep(700).await;
            }
        }
        for s in c.w.cfg.shards.clone() {
            if stable_leader(&c, s, 3000, 60_000).await.is_none() {
                c.w.lock().viol(
                    &["C13", "C12"],
                    "no-stable-leader",
                    format!("shard {s}: no leader stays without faults"),
                );
                return;
            }
        }
        let cl = rng.p(0.7).then(|| clients(&c, &p, &mut rng));
        sleep(rng.below(3000)).await;
        let mut want = leaders(&c);
        let mut members: BTreeMap<u32, Vec<usize>> =
            want.iter().map(|(s, l)| (*s, c.members(*s, l.0))).collect();
        let rounds = rng.range(2, 5);
        'out: for _ in 0..rounds {
            let lead: Vec<usize> = want.values().map(|l| l.0).collect();
            // One that every shard can do without.
            let others: Vec<usize> = (0..n)
                .filter(|v| !lead.contains(v))
                .filter(|v| {
                    members
                        .values()
                        .all(|m| !m.contains(v) || (m.len() - 1) * 2 > m.len())
                })
                .collect();
            if others.is_empty() {
                break;
            }
            // A minority without leaders.
            let k = if n >= 5 && others.len() >= 2 && rng.p(0.4) {
                2
            } else {
                1
            };
            let k = if members.values().any(|m| m.len() < n || m.len() < 5) {
                1
            } else {
                k
            };
            let mut vs: Vec<usize> = others.clone();
            while vs.len() > k {
                let x = rng.below(vs.len() as u64) as usize;
                vs.remove(x);
            }
            let away = *rng.pick(&[200u64, 1500, 5000, 12_000, 40_000]);
            let away = away + rng.below(1000);
            let what = *rng.pick(&[
                "cut",
                "cut",
                "cut_reset",
                "restart",
                "restart",
                "deaf",
                "mute",
                "slow",
                "remove",
                "add",
                "nothing",
                "flap",
            ]);
            c.w.lock()
                .shape("disturbances", crate::rng::hash(what.as_bytes()), away);
            crate::tr!(c.w.lock(), "disturbance {what} {vs:?} for {away} ms");
            let desc = format!("{what} of {vs:?} for {away} ms");
            let cut = |out: bool, inn: bool, up: bool| {
                for v in &vs {
                    for o in 0..n {
                        if !vs.contains(&o) {
                            if out {
                                c.w.set_link(*v, o, up)
                            }
                            if inn {
                                c.w.set_link(o, *v, up)
                            }
                        }
                    }
                }
            };
            match what {
                "cut" | "cut_reset" => {
                    cut(true, true, false);
                    if what == "cut_reset" {
                        c.w.reset_conns(|a, b| vs.contains(&a) != vs.contains(&b));
                    }
                }
                "deaf" => cut(false, true, false),
                "mute" => cut(true, false, false),
                "restart" => vs.iter().for_each(|v| c.crash(*v)),
                "slow" => vs.iter().for_each(|v| c.w.lock().nodes[*v].slow_ms = 600),
                "remove" => {
                    for s in c.w.cfg.shards.clone() {
                        if members[&s].len() > 2 && members[&s].contains(&vs[0]) {
                            if c.change(2, want[&s].0, s, false, vs[0], 10_000)
                                .await
                                .is_ok()
                            {
                                members.get_mut(&s).unwrap().retain(|x| *x != vs[0]);
                            }
                        }
                    }
                }
                "add" => {
                    for s in c.w.cfg.shards.clone() {
                        for v in 0..n {
                            if !members[&s].contains(&v) && c.is_up(v) {
                                if c.change(2, want[&s].0, s, true, v, 10_000).await.is_ok() {
                                    members.get_mut(&s).unwrap().push(v);
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
            // Watch while it lasts and for a while after it is over.
            let end = now_ms() + away;
            while now_ms() < end {
                if what == "flap" {
                    cut(true, true, false);
                    sleep(rng.below(3000)).await;
                    cut(true, true, true);
                }
                sleep(250).await;
                if !undisturbed(&c, &want, &desc, &members) {
                    break 'out;
                }
            }
            c.w.heal();
            for v in &vs {
                if !c.is_up(*v) {
                    c.start(*v).await;
                }
                c.w.lock().nodes[*v].slow_ms = 0;
            }
            let end = now_ms() + rng.range(2000, 9000);
            while now_ms() < end {
                sleep(250).await;
                if !undisturbed(&c, &want, &format!("the return from {desc}"), &members) {
                    break 'out;
                }
            }
            want = leaders(&c);
        }
        c.w.lock().stat("rejoin_runs");
        finish(&c, &p, cl).await;
    })
}

// ---- hand-over ----
fn setup_handover(rng: &mut Rng) -> Profile {
    let mut p = quiet_profile(rng);
    p.cfg.nodes = rng.range(2, 5) as usize;
    p.start_members = p.cfg.nodes;
    if rng.p(0.3) {
        p.cfg.shards = (0..rng.range(2, 3) as u32).collect();
    }
    p
}
fn run_handover(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let ms = shuffled(&mut rng, n);
        if !boot(&c, &ms).await {
            return;
        }
        for _ in 0..rng.range(2, 6) {
            let s = *rng.pick(&c.w.cfg.shards.clone());
            let Some((l, t)) = stable_leader(&c, s, 2000, 60_000).await else {
                c.w.lock().viol(
                    &["C13", "C12"],
                    "no-stable-leader",
                    format!("shard {s}: no leader stays without faults"),
                );
                return;
            };
            for _ in 0..rng.below(4) {
                let op = c.op_id();
                c.write(1, l, s, op, 10_000).await.ok();
            }
            if !quiet(&c, 60_000).await {
                c.w.lock().stat("never_quiet");
                break;
            }
            if c.term_leader(s) != Some((l, t)) {
                continue;
            }
            // One member may be away: it must not prevent the hand-over.
            let members = c.members(s, l);
            let cand: Vec<usize> = members.iter().copied().filter(|m| *m != l).collect();
            if cand.is_empty() {
                break;
            }
            let m = *rng.pick(&cand);
            let away = (members.len() >= 3 && rng.p(0.4)).then(|| {
                *rng.pick(
                    &members
                        .iter()
                        .copied()
                        .filter(|x| *x != m && (members.len() > 3 || *x != l))
                        .collect::<Vec<_>>(),
                )
            });
            if let Some(a) = away {
                if rng.p(0.5) {
                    c.crash(a);
                } else {
                    for o in 0..n {
                        c.w.set_link(a, o, false);
                        c.w.set_link(o, a, false);
                    }
                    c.w.reset_conns(|x, y| x == a || y == a);
                }
            }
            let t0 = now_ms();
            c.w.lock().shape("handovers", m as u64, l as u64);
            let r = c.timeout_now(2, m, s).await;
            // Votes of unreachable members are given up after one second.
            let bound = 4000;
            let mut done = false;
            while now_ms() < t0 + bound {
                let i = c.w.lock();
                let top = i.shards[&s]
                    .leaders
                    .iter()
                    .next_back()
                    .map(|(t, n)| (*t, *n));
                let leads = top.map(|(tt, nn)| tt > t && nn == m).unwrap_or(false);
                drop(i);
                if leads {
                    done = true;
                    break;
                }
                sleep(20).await;
            }
            if !done {
                let top = c.term_leader(s);
                c.w.lock().viol(&["C13"], "no-handover", format!("shard {s}: TimeoutNow to the up-to-date member n{m} (answer {r:?}, n{away:?} away) has not made it leader within {bound} ms; leader {top:?}, before n{l} in term {t}"));
            } else {
                let mut i = c.w.lock();
                let d = now_ms() - t0;
                let e = i.stats.entry("max_handover_ms").or_default();
                *e = (*e).max(d);
            }
            // The new leader serves.
            let mut ok = false;
            let t1 = now_ms();
            while now_ms() < t1 + 10_000 {
                let op = c.op_id();
                if c.write(1, m, s, op, 3000).await.is_ok() {
                    ok = true;
                    break;
                }
                sleep(100).await;
            }
            if done && !ok {
                c.w.lock().viol(&["C13", "C12"], "handover-unserved", format!("shard {s}: n{m} became leader by TimeoutNow but accepts no writes for 10 s"));
            }
            c.w.heal();
            if let Some(a) = away {
                if !c.is_up(a) {
                    c.start(a).await;
                }
            }
        }
        finish(&c, &p, None).await;
    })
}

// ---- removal of the leader ----
fn setup_stepdown(rng: &mut Rng) -> Profile {
    let mut p = quiet_profile(rng);
    p.cfg.nodes = rng.range(3, 5) as usize;
    p.start_members = p.cfg.nodes;
    if rng.p(0.5) {
        p.cfg.snap_every = rng.range(2, 8);
        p.retry_p = 0.0;
    }
    // Under load the chosen successor may lag behind for a moment and lose its election.
    p.clients = if rng.p(0.6) {
        0
    } else {
        rng.range(1, 5) as usize
    };
    p
}
fn run_stepdown(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let n = c.w.cfg.nodes;
        let ms = shuffled(&mut rng, n);
        if !boot(&c, &ms).await {
            return;
        }
        let cl = clients(&c, &p, &mut rng);
        let s = c.w.cfg.shards[0];
        for _ in 0..rng.range(1, 3) {
            let Some((l, t)) = stable_leader(&c, s, 1500, 60_000).await else {
                c.w.lock().viol(
                    &["C13", "C12"],
                    "no-stable-leader",
                    format!("shard {s}: no leader stays without faults"),
                );
                return;
            };
            let members = c.members(s, l);
            if members.len() < 2 || (members.len() == 2 && rng.p(0.7)) {
                break;
            }
            if p.clients == 0 {
                for _ in 0..rng.below(10) {
                    let op = c.op_id();
                    c.write(1, l, s, op, 10_000).await.ok();
                }
                if !quiet(&c, 30_000).await {
                    break;
                }
            } else {
                sleep(rng.below(2000)).await;
            }
            if c.term_leader(s) != Some((l, t)) {
                continue;
            }
            let via = if rng.p(0.5) { l } else { *rng.pick(&members) };
            let mut ok = false;
            for _ in 0..20 {
                match c.change(3, via, s, false, l, 10_000).await {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(_) => {
                        // The answer may have been lost; the membership tells.
                        if !c.members(s, l).contains(&l) {
                            ok = true;
                            break;
                        }
                        sleep(200).await;
                    }
                }
            }
            if !ok {
                c.w.lock().viol(&["C07", "C12"], "removal-refused", format!("shard {s}: RemoveServer of the leader n{l} fails for 20 attempts without faults"));
                break;
            }
            let t0 = now_ms();
            c.w.lock().shape("stepdowns", l as u64, t);
            // Handed over, rather than found missing: well below what a failure detector needs.
            let bound = 1200;
            let mut new = None;
            while now_ms() < t0 + 30_000 {
                let i = c.w.lock();
                let top = i.shards[&s]
                    .leaders
                    .iter()
                    .next_back()
                    .map(|(t, n)| (*n, *t))
                    .unwrap();
                drop(i);
                if top.1 > t && top.0 != l {
                    new = Some(top);
                    break;
                }
                sleep(20).await;
            }
            let d = now_ms() - t0;
            let mut i = c.w.lock();
            let e = i
                .stats
                .entry(if p.clients == 0 {
                    "max_stepdown_ms"
                } else {
                    "max_busy_stepdown_ms"
                })
                .or_default();
            *e = (*e).max(d);
            match new {
                None => i.viol(&["C13", "C07"], "no-stepdown", format!("shard {s}: the removed leader n{l} has no successor after 30 s")),
                Some(x) if d > bound && p.clients == 0 => i.viol(&["C13"], "late-stepdown", format!("shard {s}: the removed leader n{l} did not hand over: n{} took over only after {d} ms", x.0)),
                _ => {}
            }
            // The removed node leads no more.
            drop(i);
            sleep(1500).await;
            let last = c.w.lock().shards[&s].last_hb.get(&l).copied();
            sleep(3000).await;
            let mut i = c.w.lock();
            if i.shards[&s].last_hb.get(&l).copied() != last {
                i.viol(
                    &["C13", "C07"],
                    "removed-leader-heartbeats",
                    format!("shard {s}: n{l} still sends heartbeats after its removal"),
                );
            }
        }
        c.w.lock().stat("stepdown_runs");
        finish(&c, &p, Some(cl)).await;
    })
}
pub fn all() -> Vec<Scenario> {
    vec![
        Scenario {
            name: "rejoin",
            setup: setup_rejoin,
            run: run_rejoin,
        },
        Scenario {
            name: "handover",
            setup: setup_handover,
            run: run_handover,
        },
        Scenario {
            name: "stepdown",
            setup: setup_stepdown,
            run: run_stepdown,
        },
    ]
}
