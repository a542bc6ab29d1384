//! One real node among model nodes. The model nodes follow the protocol, each step at one instant,
//! but in any order and at any pace: messages that are old, cut short, repeated or overtaken, votes
//! withheld, several leaders at a time. Their state lives in the same `World`, so that the monitors
//! judge them like real nodes.
use super::badreq::{call, enc, entry, header, Raw};
use super::*;
use crate::rng::mix;
use crate::wire::{self, Cmd, Elem};
use bytes::Bytes;
use futures::StreamExt;
use prost::Message;
use std::collections::HashMap;
use std::sync::Mutex;
use tonic::transport::Channel;
use tonic::Status;

const S: u32 = 0;
const V: usize = 0;

pub fn all() -> Vec<Scenario> {
    vec![
        Scenario {
            name: "peers",
            setup: |r| setup(r, false),
            run: |c, p, r| Box::pin(run(c, p, r, false)),
        },
        Scenario {
            name: "peers_snap",
            setup: |r| setup(r, true),
            run: |c, p, r| Box::pin(run(c, p, r, true)),
        },
        Scenario {
            name: "late_ack",
            setup: setup_late,
            run: |c, p, r| Box::pin(late_ack(c, p, r)),
        },
    ]
}
fn setup(rng: &mut Rng, snap: bool) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[3, 3, 4, 5]);
    p.cfg.link_ms = rng.below(4);
    p.cfg.rpc_p = *rng.pick(&[0.0, 0.3, 0.6]);
    p.cfg.rpc_max_ms = *rng.pick(&[10, 60, 400]);
    p.cfg.store_p = *rng.pick(&[0.0, 0.3, 0.9]);
    p.cfg.store_max_ms = *rng.pick(&[3, 10, 40]);
    p.cfg.read_p = *rng.pick(&[0.0, 0.1]);
    p.cfg.app_p = *rng.pick(&[0.0, 0.1, 0.6]);
    if snap && rng.p(0.7) {
        p.cfg.snap_every = rng.range(3, 20);
    }
    p.settle_ms = 60_000;
    p
}
#[derive(Default, Clone)]
struct M {
    lead: bool,
    cand: bool,
    commit: u64,
    applied: u64,
    st: SnapState,
    matched: HashMap<usize, u64>,
    next: HashMap<usize, u64>,
    barrier: u64,
    /// Writes of the model's own clients: (op, term) by index.
    pend: HashMap<u64, (u64, u64)>,
    heard: u64,
}
struct Peers {
    c: Arc<Cluster>,
    m: Mutex<Vec<M>>,
    chans: Vec<Option<Channel>>,
    /// Probability that a model node does not do what it may refuse to do.
    reluctant: Mutex<f64>,
    /// Highest index the node under test acknowledged, by leader term.
    acked: Mutex<HashMap<u64, u64>>,
    /// Model nodes whose answers to replication are kept back, and those that take no entries.
    hold: Mutex<std::collections::HashSet<usize>>,
    deaf: Mutex<std::collections::HashSet<usize>>,
    held: AtomicBool,
}
fn lentry(prev: (u64, u64), this: (u64, u64), raw: Bytes) -> LEntry {
    let cmd = Cmd::parse(&raw);
    let digest = cmd.digest(&raw);
    LEntry {
        prev,
        this,
        raw,
        cmd,
        digest,
    }
}
fn cfg_of(i: &Inner, k: usize) -> Vec<usize> {
    let c = i.nodes[k].disks[&S]
        .newest_config()
        .map(|x| x.1)
        .unwrap_or_default();
    c.iter().filter_map(|x| i.uris.get(x).copied()).collect()
}
type Ent = ((u64, u64), Bytes);
impl Peers {
    fn both<T>(&self, f: impl FnOnce(&mut Vec<M>, &mut Inner) -> T) -> T {
        let mut m = self.m.lock().unwrap();
        let mut i = self.c.w.lock();
        f(&mut m, &mut i)
    }
    fn reluctant(&self, i: &mut Inner) -> bool {
        let p = *self.reluctant.lock().unwrap();
        i.rng.p(p)
    }
    /// Move to a term (or learn who leads it). False if the node is further.
    fn adopt(m: &mut M, i: &mut Inner, k: usize, term: u64, vote: Option<String>) -> bool {
        let (t, v) = {
            let d = i.disk(k, S);
            (d.term, d.vote.clone())
        };
        if term < t {
            return false;
        }
        if term > t {
            i.on_save_ballot(k, S, term, vote);
            m.lead = false;
            m.cand = false;
        } else if vote.is_some() && vote != v {
            i.on_save_ballot(k, S, term, vote);
            m.cand = false;
        }
        true
    }
    fn vote(&self, m: &mut [M], i: &mut Inner, k: usize, q: &wire::VoteRequest) -> (bool, u64) {
        let refuse = self.reluctant(i);
        let (t, v, last) = {
            let d = i.disk(k, S);
            (d.term, d.vote.clone(), d.last_clock())
        };
        let cc = q.candidate_clock.clone().unwrap_or_default();
        let fresh = (cc.term, cc.index) >= last;
        if q.vote_term < t || refuse || (m[k].lead && q.pre_vote) {
            return (false, t);
        }
        if q.pre_vote {
            return (fresh, t);
        }
        if q.vote_term > t {
            Self::adopt(&mut m[k], i, k, q.vote_term, None);
        }
        let v = if q.vote_term > t { None } else { v };
        if !fresh || v.as_ref().map(|x| *x != q.candidate_id).unwrap_or(false) {
            return (false, q.vote_term);
        }
        if v.is_none() {
            i.on_save_ballot(k, S, q.vote_term, Some(q.candidate_id.clone()));
        }
        (true, q.vote_term)
    }
    /// One entry from the leader of term `t`. None: the node has moved on.
    fn take(
        m: &mut M,
        i: &mut Inner,
        k: usize,
        t: u64,
        prev: (u64, u64),
        e: &Ent,
        snap: Option<SnapState>,
    ) -> Option<bool> {
        let (this, raw) = e;
        let idx = this.1;
        let d = i.disk(k, S);
        if d.term != t {
            return None;
        }
        if d.snapshot_index().map(|x| x >= idx).unwrap_or(false)
            || d.log.get(&idx).map(|x| x.this) == Some(*this)
        {
            return Some(true);
        }
        let le = lentry(prev, *this, raw.clone());
        let last = d.last();
        if le.cmd.is_snapshot() {
            if idx > 1 {
                let Some(s) = snap.or(d.snaps.get(&idx).cloned()) else {
                    return Some(false);
                };
                d.snaps.insert(idx, s);
            }
            if last >= idx {
                i.on_truncate(k, S, idx - 1);
            }
            i.on_insert(k, S, idx, le);
            i.on_delete_before(k, S, idx);
            i.on_delete_snaps(k, S, idx);
            if idx > 1 {
                let s = i.disk(k, S).snaps[&idx].clone();
                i.on_install(k, S, idx, Some(&s));
                m.st = s;
                m.st.last = idx;
            }
            m.applied = idx;
            m.commit = m.commit.max(idx);
            return Some(true);
        }
        if d.log.get(&prev.1).map(|x| x.this) != Some(prev) {
            return Some(false);
        }
        if last >= idx {
            i.on_truncate(k, S, prev.1);
        }
        i.on_insert(k, S, idx, le);
        Some(true)
    }
    fn follow_commit(m: &mut M, i: &mut Inner, k: usize, t: u64, commit: u64) {
        let d = i.disk(k, S);
        if d.term == t && d.last_clock().0 == t {
            m.commit = m.commit.max(commit.min(d.last()));
        }
        Self::apply(m, i, k);
    }
    fn apply(m: &mut M, i: &mut Inner, k: usize) {
        while m.applied < m.commit {
            let idx = m.applied + 1;
            let Some(e) = i.disk(k, S).log.get(&idx).cloned() else {
                break;
            };
            m.applied = idx;
            let Cmd::Exec { message, .. } = &e.cmd else {
                continue;
            };
            let Some((_, op)) = crate::app::parse(message) else {
                continue;
            };
            let last = m.st.last;
            m.st.list.push(op);
            m.st.hash = mix(m.st.hash, op);
            m.st.last = idx;
            i.on_apply(
                k,
                S,
                idx,
                last,
                message,
                false,
                (m.st.list.len() as u64, m.st.hash),
                op,
                S,
            );
            if let Some((o, t)) = m.pend.remove(&idx) {
                if o == op && m.lead && i.disk(k, S).term == t {
                    let r = Resp {
                        shard: S,
                        op,
                        idx,
                        count: m.st.list.len() as u64,
                        hash: m.st.hash,
                    };
                    i.write_ok(S, op, r);
                    i.stat("model_writes");
                }
            }
        }
    }
    fn commit(m: &mut M, i: &mut Inner, k: usize) {
        if !m.lead {
            return;
        }
        let members = cfg_of(i, k);
        let d = &i.nodes[k].disks[&S];
        for n in (m.commit + 1..=d.last()).rev() {
            if d.log.get(&n).map(|e| e.this.0) != Some(d.term) {
                break;
            }
            let have = members
                .iter()
                .filter(|j| **j == k || m.matched.get(j).copied().unwrap_or(0) >= n)
                .count();
            if have * 2 > members.len() {
                m.commit = n;
                break;
            }
        }
        Self::apply(m, i, k);
    }
    fn append(m: &mut M, i: &mut Inner, k: usize, raw: Bytes) -> u64 {
        let d = i.disk(k, S);
        let (prev, t, idx) = (d.last_clock(), d.term, d.last() + 1);
        i.on_insert(k, S, idx, lentry(prev, (t, idx), raw));
        Self::commit(m, i, k);
        idx
    }
    /// Model leader k brings entries to model node j.
    fn replicate(&self, k: usize, j: usize, n: u64) {
        self.both(|m, i| {
            if !m[k].lead || k == j {
                return;
            }
            let t = i.disk(k, S).term;
            let tj = i.disk(j, S).term;
            if tj > t {
                Self::adopt(&mut m[k], i, k, tj, None);
                return;
            }
            Self::adopt(&mut m[j], i, j, t, Some(wire::uri(k)));
            m[j].heard = now_ms();
            let head = i.disk(k, S).log.keys().next().copied().unwrap_or(1);
            let next = m[k]
                .next
                .get(&j)
                .copied()
                .unwrap_or(i.disk(k, S).last())
                .max(head);
            let es: Vec<LEntry> = i
                .disk(k, S)
                .log
                .range(next..)
                .take(n as usize)
                .map(|x| x.1.clone())
                .collect();
            let mut done = None;
            let mut bad = false;
            for e in es {
                let snap = i.disk(k, S).snaps.get(&e.this.1).cloned();
                match Self::take(&mut m[j], i, j, t, e.prev, &(e.this, e.raw.clone()), snap) {
                    Some(true) => done = Some(e.this.1),
                    Some(false) => {
                        bad = true;
                        break;
                    }
                    None => break,
                }
            }
            if let Some(x) = done {
                let z = m[k].matched.entry(j).or_default();
                *z = (*z).max(x);
                m[k].next.insert(j, x + 1);
            } else if bad {
                let l = i.disk(j, S).last();
                m[k].next.insert(j, (next - 1).min(l + 1).max(head));
            }
            Self::commit(&mut m[k], i, k);
        });
    }
    fn heartbeat_model(&self, k: usize, j: usize) {
        self.both(|m, i| {
            if !m[k].lead || k == j {
                return;
            }
            let t = i.disk(k, S).term;
            if !Self::adopt(&mut m[j], i, j, t, Some(wire::uri(k))) {
                let tj = i.disk(j, S).term;
                Self::adopt(&mut m[k], i, k, tj, None);
                return;
            }
            m[j].heard = now_ms();
            let c = m[k].commit;
            Self::follow_commit(&mut m[j], i, j, t, c);
        });
    }
    async fn elect(self: Arc<Self>, k: usize, force: bool) {
        let Some((term, cc, others)) = self.both(|m, i| {
            let others = cfg_of(i, k);
            if m[k].lead || !others.contains(&k) {
                return None;
            }
            let term = i.disk(k, S).term + 1;
            i.on_save_ballot(k, S, term, Some(wire::uri(k)));
            m[k].cand = true;
            i.stat("model_candidates");
            Some((term, i.disk(k, S).last_clock(), others))
        }) else {
            return;
        };
        let q = wire::VoteRequest {
            shard_id: S,
            vote_term: term,
            candidate_id: wire::uri(k),
            candidate_clock: Some(wire::Clock {
                term: cc.0,
                index: cc.1,
            }),
            force_vote: force,
            pre_vote: false,
        };
        let need = others.len() / 2 + 1;
        let mut fs = futures::stream::FuturesUnordered::new();
        for j in others {
            if j == k {
                continue;
            }
            let (me, q) = (self.clone(), q.clone());
            let d = {
                let mut i = self.c.w.lock();
                if i.rng.p(0.5) {
                    0
                } else {
                    i.rng.below(60)
                }
            };
            fs.push(async move {
                sleep(d).await;
                if j == V {
                    let ch = me.chans[k].clone().unwrap();
                    let r =
                        tokio::time::timeout(ms(1500), call(ch, "RequestVote", vec![enc(&q)], 0))
                            .await;
                    let a = match r {
                        Ok(Ok(v)) => v
                            .first()
                            .and_then(|b| wire::VoteResponse::decode(&b[..]).ok()),
                        _ => None,
                    };
                    let a = a.unwrap_or_default();
                    if a.vote_granted {
                        me.c.w.lock().stat("votes_from_node");
                    }
                    (a.vote_granted, a.term)
                } else {
                    me.both(|m, i| {
                        let d = i.disk(j, S);
                        let b = VoteBefore {
                            term: d.term,
                            last: d.last_clock(),
                            version: d.version,
                        };
                        let (g, t) = me.vote(m, i, j, &q);
                        i.on_vote_answer(j, b, &q, g);
                        (g, t)
                    })
                }
            });
        }
        let mut got = 1;
        while got < need {
            match fs.next().await {
                Some((true, _)) => got += 1,
                Some((false, t)) => self.both(|m, i| {
                    if t > i.disk(k, S).term {
                        Self::adopt(&mut m[k], i, k, t, None);
                    }
                }),
                None => break,
            }
        }
        self.both(|m, i| {
            if got >= need && m[k].cand && i.disk(k, S).term == term {
                m[k].cand = false;
                m[k].lead = true;
                m[k].matched.clear();
                m[k].next.clear();
                m[k].pend.clear();
                i.stat("model_leaders");
                m[k].barrier = Self::append(&mut m[k], i, k, wire::barrier(term));
            }
        });
    }
    /// Model leader k sends a stream to the node under test; any part of its log.
    async fn send(self: Arc<Self>, k: usize, any: bool) {
        let Some((t, prev, es, pace)) = self.both(|m, i| {
            if !m[k].lead {
                return None;
            }
            let (r1, r2, r3) = (
                i.rng.next(),
                i.rng.range(1, 9),
                if i.rng.p(0.3) { i.rng.below(60) } else { 0 },
            );
            let d = i.disk(k, S);
            let head = d.log.keys().next().copied()?;
            let l = if any {
                head + r1 % (d.last() - head + 1)
            } else {
                m[k].next
                    .get(&V)
                    .copied()
                    .unwrap_or(d.last())
                    .clamp(head, d.last())
            };
            let es: Vec<LEntry> = d
                .log
                .range(l..)
                .take(r2 as usize)
                .map(|x| x.1.clone())
                .collect();
            let prev = es.first()?.prev;
            Some((d.term, prev, es, r3))
        }) else {
            return;
        };
        let mut msgs = vec![header(S, wire::uri(k), Some(prev), t)];
        for e in &es {
            msgs.push(entry(Some(e.this), e.raw.clone()));
        }
        let n = es.len() as u64;
        self.c.w.lock().stat("streams_to_node");
        let ch = self.chans[k].clone().unwrap();
        // Some streams are abandoned halfway.
        let to = self.both(|_, i| {
            if i.rng.p(0.15) {
                i.rng.range(1, 50)
            } else {
                4000
            }
        });
        let r = tokio::time::timeout(ms(to), call(ch, "SendReplicationStream", msgs, pace)).await;
        let Ok(Ok(b)) = r else { return };
        let Some(a) = b
            .first()
            .and_then(|b| wire::ReplicationStreamResponse::decode(&b[..]).ok())
        else {
            return;
        };
        self.both(|m, i| {
            crate::tr!(i, "stream answered n{k} term {t} prev {prev:?} n {n}: inserted {} last {} term {}", a.n_inserted, a.log_last_index, a.term);
            if a.n_inserted > n {
                i.viol(&["C06", "C02"], "false-ack", format!("the node acknowledges {} of {n} entries", a.n_inserted));
                return;
            }
            if a.term > t {
                if a.n_inserted > 0 {
                    i.viol(&["C06"], "false-ack", format!("the node, now at term {}, acknowledges {} entries to the leader of term {t}", a.term, a.n_inserted));
                }
                Self::adopt(&mut m[k], i, k, a.term, None);
                return;
            }
            if a.n_inserted > 0 {
                i.stat("streams_accepted");
                let top = es[a.n_inserted as usize - 1].this.1;
                let mut k2 = self.acked.lock().unwrap();
                let z = k2.entry(t).or_default();
                *z = (*z).max(top);
                drop(k2);
                // As long as the node is in that term, it has all of this.
                let d = &i.nodes[V].disks[&S];
                if d.term == t {
                    let bad = es[..a.n_inserted as usize].iter().find(|e| !d.stores(e.this.1, e.this.0)).map(|e| e.this);
                    if let Some(x) = bad {
                        i.viol(&["C06", "C02"], "false-ack", format!("the node acknowledges entry {x:?} to the leader of term {t} but does not store it"));
                    }
                }
            } else {
                i.stat("streams_rejected");
            }
            if m[k].lead && i.disk(k, S).term == t {
                let head = i.disk(k, S).log.keys().next().copied().unwrap_or(1);
                if a.n_inserted > 0 {
                    let top = es[a.n_inserted as usize - 1].this.1;
                    let z = m[k].matched.entry(V).or_default();
                    *z = (*z).max(top);
                    m[k].next.insert(V, top + 1);
                } else {
                    m[k].next.insert(V, prev.1.min(a.log_last_index + 1).max(head));
                }
                Self::commit(&mut m[k], i, k);
            }
        });
    }
    async fn heartbeat(self: Arc<Self>, k: usize) {
        let Some((t, c)) = self.both(|m, i| m[k].lead.then(|| (i.disk(k, S).term, m[k].commit)))
        else {
            return;
        };
        let mut h = wire::Heartbeat {
            leader_id: wire::uri(k),
            ..Default::default()
        };
        h.leader_commit_states.insert(
            S,
            wire::LeaderCommitState {
                leader_term: t,
                leader_commit_index: c,
            },
        );
        let ch = self.chans[k].clone().unwrap();
        tokio::time::timeout(ms(3000), call(ch, "SendHeartbeat", vec![enc(&h)], 0))
            .await
            .ok();
    }
    /// A model node turns the applied part of its log into a snapshot.
    fn compact(&self, k: usize) {
        self.both(|m, i| {
            let d = i.disk(k, S);
            let idx = m[k].applied;
            if idx <= d.snapshot_index().unwrap_or(0) {
                return;
            }
            let (Some(e), Some((_, cfg))) = (d.log.get(&idx).cloned(), d.config_upto(idx)) else {
                return;
            };
            d.snaps.insert(idx, m[k].st.clone());
            i.on_insert(
                k,
                S,
                idx,
                lentry(e.prev, e.this, wire::membership(&cfg, true)),
            );
            i.on_delete_before(k, S, idx);
            i.on_delete_snaps(k, S, idx);
            i.stat("model_compactions");
        });
    }
    /// A client of model leader k writes.
    fn write(&self, k: usize) {
        let op = self.c.op_id();
        self.both(|m, i| {
            if !m[k].lead {
                return;
            }
            let n = i.rng.below(20) as usize;
            i.op_call(S, op, true, k);
            let t = i.disk(k, S).term;
            let idx = i.disk(k, S).last() + 1;
            m[k].pend.insert(idx, (op, t));
            Self::append(
                &mut m[k],
                i,
                k,
                wire::exec(
                    &crate::app::message(S, op, n),
                    crate::cluster::request_id(op),
                ),
            );
        });
    }
    /// Model leader k adds or removes a model node.
    fn member(&self, k: usize) {
        self.both(|m, i| {
            let Some((at, mut cfg)) = i.disk(k, S).newest_config() else {
                return;
            };
            if !m[k].lead || m[k].commit < at || m[k].commit < m[k].barrier {
                return;
            }
            let n = self.c.w.cfg.nodes as u64;
            let j = 1 + i.rng.below(n - 1) as usize;
            if j == k {
                return;
            }
            if !cfg.remove(&wire::uri(j)) {
                cfg.insert(wire::uri(j));
            }
            if cfg.len() < 2 {
                return;
            }
            i.stat("model_config_changes");
            Self::append(&mut m[k], i, k, wire::membership(&cfg, false));
        });
    }
    async fn serve(
        self: Arc<Self>,
        k: usize,
        src: usize,
        kind: String,
        mut st: tonic::Streaming<Bytes>,
    ) -> Result<Vec<Bytes>, Status> {
        let first = st
            .message()
            .await?
            .ok_or_else(|| Status::invalid_argument("no message"))?;
        let bad = |_| Status::invalid_argument("bad message");
        match kind.as_str() {
            "RequestVote" => {
                let q = wire::VoteRequest::decode(first).map_err(bad)?;
                let (g, t) = self.both(|m, i| {
                    i.stat("votes_asked_by_node");
                    self.vote(m, i, k, &q)
                });
                Ok(vec![enc(&wire::VoteResponse {
                    vote_granted: g,
                    term: t,
                })])
            }
            "SendHeartbeat" => {
                let h = wire::Heartbeat::decode(first).map_err(bad)?;
                if let Some(s) = h.leader_commit_states.get(&S) {
                    self.both(|m, i| {
                        if Self::adopt(&mut m[k], i, k, s.leader_term, Some(h.leader_id.clone())) {
                            m[k].heard = now_ms();
                            Self::follow_commit(
                                &mut m[k],
                                i,
                                k,
                                s.leader_term,
                                s.leader_commit_index,
                            );
                        }
                    });
                }
                Ok(vec![enc(&wire::Empty {})])
            }
            "SendTimeoutNow" => {
                tokio::spawn(self.clone().elect(k, true));
                Ok(vec![enc(&wire::Empty {})])
            }
            "GetSnapshot" => {
                let q = wire::GetSnapshotRequest::decode(first).map_err(bad)?;
                let s = self.both(|_, i| {
                    let d = i.disk(k, S);
                    if d.snapshot_index() == Some(q.index) {
                        d.snaps.get(&q.index).cloned()
                    } else {
                        None
                    }
                });
                let b = s.ok_or_else(|| Status::unknown("no such snapshot"))?.ser();
                let mut out: Vec<Bytes> = b
                    .chunks(64.max(b.len() / 4))
                    .map(|x| {
                        enc(&wire::SnapshotChunk {
                            data: Bytes::copy_from_slice(x),
                        })
                    })
                    .collect();
                let cut = self.both(|_, i| self.reluctant(i));
                if cut {
                    // The transfer breaks.
                    self.c.w.lock().stat("snapshot_transfers_cut");
                    out.truncate(out.len() / 2);
                    out.push(Bytes::from_static(b"!cut"));
                }
                Ok(out)
            }
            "SendReplicationStream" => {
                let Some(Elem::Header(h)) = wire::ReplicationStreamChunk::decode(first)
                    .map_err(bad)?
                    .elem
                else {
                    return Err(Status::invalid_argument("no header"));
                };
                let mut prev = h.prev_clock.map(|c| (c.term, c.index)).unwrap_or_default();
                let t = h.leader_term;
                if self.deaf.lock().unwrap().contains(&k) {
                    return Err(Status::unavailable("deaf"));
                }
                let ok = self.both(|m, i| {
                    m[k].heard = now_ms();
                    Self::adopt(&mut m[k], i, k, t, Some(h.sender_id.clone()))
                });
                let mut n = 0;
                while let Some(b) = st.message().await? {
                    if !ok {
                        continue;
                    }
                    let Some(Elem::Entry(e)) =
                        wire::ReplicationStreamChunk::decode(b).map_err(bad)?.elem
                    else {
                        break;
                    };
                    let this = e.clock.map(|c| (c.term, c.index)).unwrap_or_default();
                    let raw: Bytes = e.command;
                    let mut snap = None;
                    let have = self
                        .both(|_, i| i.disk(k, S).log.get(&this.1).map(|x| x.this) == Some(this));
                    if Cmd::parse(&raw).is_snapshot() && this.1 > 1 && !have {
                        if src != V {
                            break;
                        }
                        let q = wire::GetSnapshotRequest {
                            shard_id: S,
                            index: this.1,
                        };
                        let r = tokio::time::timeout(
                            ms(3000),
                            call(
                                self.chans[k].clone().unwrap(),
                                "GetSnapshot",
                                vec![enc(&q)],
                                0,
                            ),
                        )
                        .await;
                        let Ok(Ok(cs)) = r else { break };
                        let mut all = vec![];
                        for c in cs {
                            all.extend_from_slice(
                                &wire::SnapshotChunk::decode(c).map_err(bad)?.data,
                            );
                        }
                        snap = SnapState::de(&all);
                        if snap.is_none() {
                            self.c.w.lock().viol(&["C08"], "snapshot-corrupt", format!("the snapshot {} received from n{src} is incomplete or altered ({} bytes)", this.1, all.len()));
                            break;
                        }
                    }
                    let r = self.both(|m, i| {
                        if self.reluctant(i) {
                            return None;
                        }
                        Self::take(&mut m[k], i, k, t, prev, &(this, raw.clone()), snap)
                    });
                    if r != Some(true) {
                        break;
                    }
                    prev = this;
                    n += 1;
                }
                let (last, term) = self.both(|_, i| (i.disk(k, S).last(), i.disk(k, S).term));
                while self.hold.lock().unwrap().contains(&k) {
                    self.held.store(true, Ordering::SeqCst);
                    sleep(3).await;
                }
                Ok(vec![enc(&wire::ReplicationStreamResponse {
                    n_inserted: n,
                    log_last_index: last,
                    term,
                })])
            }
            _ => Err(Status::unavailable("not served")),
        }
    }
}
#[derive(Clone)]
struct Svc {
    p: Arc<Peers>,
    k: usize,
}
impl tonic::server::NamedService for Svc {
    const NAME: &'static str = "sorock.Raft";
}
impl tower::Service<http::Request<tonic::body::BoxBody>> for Svc {
    type Response = http::Response<tonic::body::BoxBody>;
    type Error = std::convert::Infallible;
    type Future = Pin<Box<dyn Future<Output = Result<Self::Response, Self::Error>> + Send>>;
    fn poll_ready(
        &mut self,
        _: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Result<(), Self::Error>> {
        std::task::Poll::Ready(Ok(()))
    }
    fn call(&mut self, req: http::Request<tonic::body::BoxBody>) -> Self::Future {
        let (p, k) = (self.p.clone(), self.k);
        let kind = req
            .uri()
            .path()
            .rsplit('/')
            .next()
            .unwrap_or("")
            .to_string();
        let src = req
            .extensions()
            .get::<crate::net::PeerInfo>()
            .map(|x| x.0)
            .unwrap_or(usize::MAX);
        Box::pin(async move {
            let f = tower::service_fn(move |r: tonic::Request<tonic::Streaming<Bytes>>| {
                let (p, kind) = (p.clone(), kind.clone());
                async move {
                    let out = p.serve(k, src, kind, r.into_inner()).await?;
                    let out: Vec<Result<Bytes, Status>> = out
                        .into_iter()
                        .map(|b| {
                            if &b[..] == b"!cut" {
                                Err(Status::unavailable("cut"))
                            } else {
                                Ok(b)
                            }
                        })
                        .collect();
                    Ok::<_, Status>(tonic::Response::new(futures::stream::iter(out)))
                }
            });
            let mut g = tonic::server::Grpc::new(Raw);
            Ok(g.streaming(f, req).await)
        })
    }
}
fn start_model(
    p: &Arc<Peers>,
    k: usize,
    rx: tokio::sync::mpsc::UnboundedReceiver<crate::net::SimIo>,
) {
    let svc = Svc { p: p.clone(), k };
    let layer = crate::net::MonLayer {
        w: p.c.w.clone(),
        node: k,
    };
    let st = futures::stream::unfold(rx, |mut rx| async move {
        rx.recv().await.map(|x| (Ok::<_, std::io::Error>(x), rx))
    });
    tokio::spawn(async move {
        tonic::transport::Server::builder()
            .layer(layer)
            .add_service(svc)
            .serve_with_incoming(st)
            .await
            .ok();
    });
}
/// One real node and model nodes, all members of one shard.
async fn start_peers(c: &Arc<Cluster>) -> Option<Arc<Peers>> {
    let n = c.w.cfg.nodes;
    let mut rxs = vec![];
    let mut chans = vec![None];
    for k in 1..n {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        let mut i = c.w.lock();
        i.nodes[k].up = true;
        i.nodes[k].inc = 1;
        i.nodes[k].incoming = Some(tx);
        rxs.push((k, rx));
        let ep = tonic::transport::Endpoint::from_shared(wire::uri(V)).unwrap();
        chans.push(Some(crate::net::channel(&ep, c.w.clone(), k, Some(1), V)));
    }
    let ps = Arc::new(Peers {
        c: c.clone(),
        m: Mutex::new(vec![M::default(); n]),
        chans,
        reluctant: Mutex::new(0.0),
        acked: Default::default(),
        hold: Default::default(),
        deaf: Default::default(),
        held: Default::default(),
    });
    for (k, rx) in rxs {
        start_model(&ps, k, rx);
    }
    c.start(V).await;
    let all: Vec<usize> = (0..n).collect();
    if !c.form(S, &all).await {
        c.w.lock().viol(
            &["C12"],
            "no-formation",
            format!("shard {S}: the cluster {all:?} could not be formed without faults"),
        );
        return None;
    }
    Some(ps)
}
async fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng, snap: bool) {
    let n = c.w.cfg.nodes;
    let Some(ps) = start_peers(&c).await else {
        return;
    };
    *ps.reluctant.lock().unwrap() = *rng.pick(&[0.02, 0.1, 0.3]);
    let w: Vec<u64> = vec![
        rng.range(1, 4),  // elections
        rng.range(2, 20), // between model nodes
        rng.range(2, 20), // streams in order
        rng.range(0, 12), // streams of anything
        rng.range(1, 12), // heartbeats to the node
        rng.range(1, 12), // heartbeats between model nodes
        rng.range(2, 12), // writes at a model leader
        rng.range(0, 2),  // crash
        rng.range(0, 2),  // timeout now
        if snap { rng.range(1, 4) } else { 0 },
        if rng.p(0.4) { rng.range(1, 3) } else { 0 }, // membership
        rng.range(1, 8),                              // client operations at the node
        rng.range(0, 2),                              // votes asked for more than once
    ];
    let total: u64 = w.iter().sum();
    let steps = rng.range(200, 600);
    let slow = *rng.pick(&[4, 10, 30]);
    let rare = *rng.pick(&[0.01, 0.05]);
    for _ in 0..steps {
        if c.w.lock().over() {
            return;
        }
        let d = if rng.p(rare) {
            rng.below(1500)
        } else {
            rng.below(slow)
        };
        sleep(d).await;
        // Mostly the newest leader acts, now and then an old one that does not know.
        let leaders: Vec<usize> = ps.both(|m, i| {
            let mut v: Vec<usize> = (1..n).filter(|k| m[*k].lead).collect();
            v.sort_by_key(|k| std::cmp::Reverse(i.disk(*k, S).term));
            v
        });
        let k = if leaders.is_empty() {
            1 + rng.below(n as u64 - 1) as usize
        } else if rng.p(0.7) {
            leaders[0]
        } else {
            *rng.pick(&leaders)
        };
        let j = 1 + rng.below(n as u64 - 1) as usize;
        let mut x = rng.below(total);
        let mut a = 0;
        while x >= w[a] {
            x -= w[a];
            a += 1;
        }
        match a {
            0 => {
                let any = 1 + rng.below(n as u64 - 1) as usize;
                tokio::spawn(ps.clone().elect(any, rng.p(0.8)));
            }
            1 => ps.replicate(k, j, rng.range(1, 6)),
            2 => {
                tokio::spawn(ps.clone().send(k, false));
            }
            3 => {
                tokio::spawn(ps.clone().send(k, true));
            }
            4 => {
                tokio::spawn(ps.clone().heartbeat(k));
            }
            5 => ps.heartbeat_model(k, j),
            6 => {
                for _ in 0..rng.range(1, 3) {
                    ps.write(k);
                }
            }
            7 => {
                if c.is_up(V) {
                    c.crash(V);
                    let (c2, d) = (c.clone(), rng.below(300));
                    tokio::spawn(async move {
                        sleep(d).await;
                        if !c2.is_up(V) {
                            c2.start(V).await;
                        }
                    });
                }
            }
            8 => {
                let ch = ps.chans[j].clone().unwrap();
                tokio::spawn(async move {
                    tokio::time::timeout(
                        ms(3000),
                        call(
                            ch,
                            "SendTimeoutNow",
                            vec![enc(&wire::TimeoutNow { shard_id: S })],
                            0,
                        ),
                    )
                    .await
                    .ok();
                });
            }
            9 => ps.compact(if rng.p(0.7) { k } else { j }),
            10 => ps.member(k),
            11 => {
                for q in 0..rng.range(1, 3) {
                    let (c2, read) = (c.clone(), rng.p(0.5));
                    tokio::spawn(async move {
                        if read {
                            c2.read(q as usize, V, S, 3000).await.ok();
                        } else {
                            let op = c2.op_id();
                            c2.write(q as usize, V, S, op, 3000).await.ok();
                        }
                    });
                }
            }
            _ => {
                // A vote request again, late.
                let Some(q) = ps.both(|m, i| {
                    let d = i.disk(j, S);
                    let cc = d.last_clock();
                    m[j].cand.then(|| wire::VoteRequest {
                        shard_id: S,
                        vote_term: d.term,
                        candidate_id: wire::uri(j),
                        candidate_clock: Some(wire::Clock {
                            term: cc.0,
                            index: cc.1,
                        }),
                        force_vote: true,
                        pre_vote: false,
                    })
                }) else {
                    continue;
                };
                let (ch, d) = (ps.chans[j].clone().unwrap(), rng.below(300));
                tokio::spawn(async move {
                    sleep(d).await;
                    tokio::time::timeout(ms(3000), call(ch, "RequestVote", vec![enc(&q)], 0))
                        .await
                        .ok();
                });
            }
        }
    }
    catch_up(&c, &p, &ps, &mut rng).await;
}
async fn catch_up(c: &Arc<Cluster>, p: &Profile, ps: &Arc<Peers>, rng: &mut Rng) {
    let n = c.w.cfg.nodes;
    // Everybody behaves from here on: the node catches up.
    *ps.reluctant.lock().unwrap() = 0.0;
    {
        let mut i = c.w.lock();
        i.chaos = false;
        crate::tr!(i, "calm");
    }
    if !c.is_up(V) {
        sleep(400).await;
    }
    if !c.is_up(V) {
        c.start(V).await;
    }
    let t0 = now_ms();
    let mut mark: Option<(u64, u64)> = None;
    let mut quiet_since = now_ms();
    loop {
        sleep(20).await;
        if c.w.lock().over() {
            return;
        }
        // The newest leader among all nodes does its work.
        let (lead, vlead) = ps.both(|m, i| {
            let top = (0..n).map(|k| i.disk(k, S).term).max().unwrap();
            let l = (1..n)
                .filter(|k| m[*k].lead)
                .max_by_key(|k| i.disk(*k, S).term);
            let vl = i.shards[&S].leaders.get(&top) == Some(&V);
            (l, vl)
        });
        if let Some(k) = lead {
            if ps.both(|_, i| (0..n).all(|j| i.disk(j, S).term <= i.disk(k, S).term)) {
                quiet_since = now_ms();
            }
            for j in 1..n {
                ps.replicate(k, j, 20);
                ps.heartbeat_model(k, j);
            }
            ps.clone().heartbeat(k).await;
            ps.clone().send(k, false).await;
            // The marked write of an earlier leader may have been overwritten.
            ps.both(|m, i| {
                let d = i.disk(k, S);
                let head = d.log.keys().next().copied().unwrap_or(0);
                if mark.is_some_and(|(x, t)| {
                    t > 0 && x >= head && d.log.get(&x).map(|e| e.this.0) != Some(t)
                }) {
                    mark = None;
                }
                if mark.is_none() && m[k].lead && m[k].commit >= m[k].barrier {
                    let op = c.op_id();
                    i.op_call(S, op, true, k);
                    let idx = Peers::append(
                        &mut m[k],
                        i,
                        k,
                        wire::exec(
                            &crate::app::message(S, op, 3),
                            crate::cluster::request_id(op),
                        ),
                    );
                    mark = Some((idx, i.disk(k, S).term));
                }
            });
        } else if vlead {
            let op = c.op_id();
            if let Ok(r) = c.write(1, V, S, op, 2000).await {
                mark = Some((r.idx, 0));
                quiet_since = now_ms();
            }
            sleep(300).await;
        }
        if now_ms() - quiet_since > 3000 && rng.p(0.1) {
            let k = 1 + rng.below(n as u64 - 1) as usize;
            tokio::spawn(ps.clone().elect(k, true));
            sleep(200).await;
        }
        let done = mark.map(|(x, _)| {
            let i = c.w.lock();
            i.nodes[V].views[&S].last >= x
        });
        if done == Some(true) {
            break;
        }
        if now_ms() - t0 > p.settle_ms {
            let s = fingerprint(c, false);
            c.w.lock().viol(
                &["C12"],
                "no-recovery",
                format!(
                    "the node does not catch up within {} ms although all others behave: {}",
                    p.settle_ms,
                    s.chars().take(300).collect::<String>()
                ),
            );
            return;
        }
    }
    let mut i = c.w.lock();
    let e = i.stats.entry("max_recovery_ms").or_default();
    *e = (*e).max(now_ms() - t0);
    i.check_history(S);
}

fn setup_late(rng: &mut Rng) -> Profile {
    let mut p = setup(rng, false);
    p.cfg.nodes = *rng.pick(&[5, 5, 5, 6, 7]);
    // Reading what is sent takes long, so that the log changes meanwhile.
    if rng.p(0.4) {
        p.cfg.read_p = 0.5;
        p.cfg.read_max_ms = *rng.pick(&[20, 60, 200]);
    }
    p
}
/// The node leads, is replaced and leads again, while the answer to what it sent before is on its
/// way.
async fn late_ack(c: Arc<Cluster>, p: Profile, mut rng: Rng) {
    let n = c.w.cfg.nodes;
    let Some(ps) = start_peers(&c).await else {
        return;
    };
    let vleads = |ps: &Arc<Peers>| {
        ps.both(|_, i| {
            let t = i.disk(V, S).term;
            i.shards[&S].leaders.get(&t) == Some(&V)
        })
    };
    let to_v = |ps: Arc<Peers>| async move {
        for _ in 0..12 {
            if vleads(&ps) {
                return true;
            }
            let ch = ps.chans[1].clone().unwrap();
            tokio::time::timeout(
                ms(500),
                call(
                    ch,
                    "SendTimeoutNow",
                    vec![enc(&wire::TimeoutNow { shard_id: S })],
                    0,
                ),
            )
            .await
            .ok();
            for _ in 0..60 {
                if vleads(&ps) {
                    return true;
                }
                sleep(5).await;
            }
        }
        false
    };
    let mut writes = vec![];
    for _ in 0..rng.range(2, 5) {
        if c.w.lock().over() {
            return;
        }
        if !to_v(ps.clone()).await {
            break;
        }
        sleep(rng.below(200)).await;
        let f = 1 + rng.below(n as u64 - 1) as usize;
        let others: Vec<usize> = (1..n).filter(|k| *k != f).collect();
        let g = *rng.pick(&others);
        // Only f takes what the node appends now, and its answer stays away.
        *ps.deaf.lock().unwrap() = (1..n).collect();
        ps.hold.lock().unwrap().insert(f);
        let mut put = |k: u64| {
            for _ in 0..k {
                let c2 = c.clone();
                writes.push(tokio::spawn(async move {
                    let op = c2.op_id();
                    c2.write(1, V, S, op, 4000).await.ok();
                }));
            }
        };
        ps.held.store(false, Ordering::SeqCst);
        put(rng.range(1, 12));
        sleep(rng.range(10, 300)).await;
        ps.deaf.lock().unwrap().remove(&f);
        let patience = if rng.p(0.6) { 150 } else { rng.below(20) };
        for _ in 0..patience {
            if ps.held.load(Ordering::SeqCst) {
                break;
            }
            sleep(10).await;
        }
        // Another one takes over and replaces it.
        for _ in 0..6 {
            if ps.both(|m, _| m[g].lead) {
                break;
            }
            ps.clone().elect(g, true).await;
        }
        for _ in 0..rng.below(4) {
            ps.write(g);
        }
        let full = rng.p(0.8);
        for _ in 0..20 {
            for j in 1..n {
                if j != f || full {
                    ps.replicate(g, j, 20);
                }
            }
            ps.clone().send(g, false).await;
            if ps.both(|_, i| i.disk(V, S).last_clock() == i.disk(g, S).last_clock()) {
                break;
            }
        }
        ps.clone().heartbeat(g).await;
        // The node again, with too few that help.
        if rng.p(0.9) && !to_v(ps.clone()).await {
            break;
        }
        for k in others.iter().take(n / 2 - rng.range(1, 2) as usize) {
            ps.deaf.lock().unwrap().remove(k);
        }
        put(rng.range(1, 12));
        sleep(rng.range(5, 200)).await;
        ps.both(|m, i| {
            let (t, l) = (i.disk(V, S).term, i.disk(V, S).last());
            crate::tr!(i, "late ack of n{f} at {:?}, held {}, g n{g} leads {}, node leads {} last {l} term {t}", i.nodes[f].disks[&S].last_clock(), ps.held.load(Ordering::SeqCst), m[g].lead, i.shards[&S].leaders.get(&t) == Some(&V));
            i.shape("late_acks", f as u64, 0);
        });
        // f takes nothing more, so that only the old answer says something about it.
        if rng.p(0.8) {
            ps.deaf.lock().unwrap().insert(f);
        }
        ps.hold.lock().unwrap().clear();
        sleep(rng.range(20, 300)).await;
        ps.deaf.lock().unwrap().clear();
        sleep(rng.below(300)).await;
    }
    ps.deaf.lock().unwrap().clear();
    ps.hold.lock().unwrap().clear();
    for h in writes {
        h.await.ok();
    }
    catch_up(&c, &p, &ps, &mut rng).await;
}
