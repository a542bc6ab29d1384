//! C14: invalid requests.
use super::*;
use crate::wire::{self, Elem};
use bytes::{Buf, BufMut, Bytes};
use prost::Message;
use tonic::codec::{Codec, DecodeBuf, Decoder, EncodeBuf, Encoder};
use tonic::Status;

#[derive(Default)]
pub struct Raw;
pub struct RawE;
pub struct RawD;
impl Codec for Raw {
    type Encode = Bytes;
    type Decode = Bytes;
    type Encoder = RawE;
    type Decoder = RawD;
    fn encoder(&mut self) -> RawE {
        RawE
    }
    fn decoder(&mut self) -> RawD {
        RawD
    }
}
impl Encoder for RawE {
    type Item = Bytes;
    type Error = Status;
    fn encode(&mut self, item: Bytes, dst: &mut EncodeBuf<'_>) -> Result<(), Status> {
        dst.put_slice(&item);
        Ok(())
    }
}
impl Decoder for RawD {
    type Item = Bytes;
    type Error = Status;
    fn decode(&mut self, src: &mut DecodeBuf<'_>) -> Result<Option<Bytes>, Status> {
        let n = src.remaining();
        Ok(Some(src.copy_to_bytes(n)))
    }
}
/// One call of any method with any messages; all messages of the answer.
pub async fn call(
    ch: tonic::transport::Channel,
    method: &str,
    msgs: Vec<Bytes>,
    gap_ms: u64,
) -> Result<Vec<Bytes>, Status> {
    let path: http::uri::PathAndQuery = if method.starts_with('/') {
        method.parse().unwrap()
    } else {
        format!("/sorock.Raft/{method}").parse().unwrap()
    };
    let mut g = tonic::client::Grpc::new(ch);
    g.ready()
        .await
        .map_err(|e| Status::unavailable(format!("not ready: {e}")))?;
    let st = futures::StreamExt::then(futures::stream::iter(msgs), move |m| async move {
        if gap_ms > 0 {
            sleep(gap_ms).await;
        }
        m
    });
    let resp = g.streaming(tonic::Request::new(st), path, Raw).await?;
    let mut st = resp.into_inner();
    let mut out = vec![];
    while let Some(m) = st.message().await? {
        out.push(m);
    }
    Ok(out)
}
pub fn enc(m: &impl Message) -> Bytes {
    m.encode_to_vec().into()
}
fn bad_uri(rng: &mut Rng) -> String {
    let l = [
        "",
        " ",
        "http://",
        "http://[",
        "http://[::1",
        "http://a b:1",
        "http://n0:99999999999/",
        "://",
        "http://n0:1/ x",
        "\u{0}",
        "http://\u{7f}/",
        "n0:1/x y",
        "http://é:1/",
        "[]:x",
        "ht!tp://n0:1",
    ];
    loop {
        let s = if rng.p(0.2) {
            let n = rng.range(1, 12);
            (0..n)
                .map(|_| char::from_u32(rng.below(0x250) as u32).unwrap_or('?'))
                .collect::<String>()
        } else {
            rng.pick(&l).to_string()
        };
        if s.parse::<http::Uri>().is_err() {
            return s;
        }
    }
}
fn bad_shard(c: &Cluster, rng: &mut Rng) -> u32 {
    loop {
        let s = *rng.pick(&[0u32, 1, 2, 3, 4, 7, 255, 256, 65536, u32::MAX, u32::MAX - 1]);
        let s = if rng.p(0.3) { rng.next() as u32 } else { s };
        if !c.w.cfg.shards.contains(&s) {
            return s;
        }
    }
}
fn garbage(rng: &mut Rng) -> Bytes {
    let n = *rng.pick(&[1u64, 3, 4, 7, 8, 12, 40, 300]);
    let mut v: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
    if rng.p(0.3) && v.len() >= 4 {
        // a plausible tag with a broken rest
        v[0] = rng.below(6) as u8;
        v[1] = 0;
        v[2] = 0;
        v[3] = 0;
    }
    v.into()
}
fn bad_command(rng: &mut Rng) -> Bytes {
    loop {
        let b = match rng.below(4) {
            0 => Bytes::new(),
            1 => {
                // cut off
                let ok = bincode::serialize(&(3u32, 40u64, 7u64)).unwrap();
                Bytes::copy_from_slice(&ok[..rng.below(ok.len() as u64) as usize])
            }
            _ => garbage(rng),
        };
        // Not a command for sure: unknown tag, or too short for what the tag promises.
        if b.len() < 4 {
            return b;
        }
        let tag = u32::from_le_bytes(b[0..4].try_into().unwrap());
        if tag > 4
            || (b.len() < 12)
            || (tag >= 1 && u64::from_le_bytes(b[4..12].try_into().unwrap()) > b.len() as u64)
        {
            return b;
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Err,
    /// Any answer, without effect.
    Inert,
}
pub fn header(shard: u32, sender: String, prev: Option<(u64, u64)>, term: u64) -> Bytes {
    enc(&wire::ReplicationStreamChunk {
        elem: Some(Elem::Header(wire::ReplicationStreamHeader {
            shard_id: shard,
            sender_id: sender,
            prev_clock: prev.map(|p| wire::Clock {
                term: p.0,
                index: p.1,
            }),
            leader_term: term,
        })),
    })
}
pub fn entry(clock: Option<(u64, u64)>, command: Bytes) -> Bytes {
    enc(&wire::ReplicationStreamChunk {
        elem: Some(Elem::Entry(wire::ReplicationStreamEntry {
            clock: clock.map(|p| wire::Clock {
                term: p.0,
                index: p.1,
            }),
            command,
        })),
    })
}
/// (what, method, messages, expectation) of one invalid request.
fn invalid(c: &Cluster, rng: &mut Rng, dst: usize) -> (String, String, Vec<Bytes>, Want) {
    let shards = c.w.cfg.shards.clone();
    let s = *rng.pick(&shards);
    let (leader, term) = c.term_leader(s).unwrap_or((0, 1));
    let last = { c.w.lock().nodes[dst].disks[&s].last_clock() };
    let lu = wire::uri(leader);
    let some = wire::uri(rng.below(c.w.cfg.nodes as u64) as usize);
    let far = term + rng.range(1, 50);
    let good_cmd = {
        c.w.lock().nodes[dst].disks[&s]
            .log
            .values()
            .last()
            .map(|e| e.raw.clone())
            .unwrap_or_default()
    };
    let kern = |tag: u32, id: &str| Bytes::from(bincode::serialize(&(tag, id)).unwrap());
    let vote = |shard: u32, id: String, clock: Option<(u64, u64)>, rng: &mut Rng| {
        enc(&wire::VoteRequest {
            shard_id: shard,
            vote_term: far,
            candidate_id: id,
            candidate_clock: clock.map(|p| wire::Clock {
                term: p.0,
                index: p.1,
            }),
            force_vote: true,
            pre_vote: rng.p(0.3),
        })
    };
    let k = rng.below(38);
    let r =
        |what: &str, m: &str, msgs: Vec<Bytes>, w: Want| (what.to_string(), m.to_string(), msgs, w);
    match k {
        // Unknown shards
        0 => r(
            "write to an unknown shard",
            "Write",
            vec![enc(&wire::WriteRequest {
                shard_id: bad_shard(c, rng),
                message: crate::app::message(s, 1, 0),
                request_id: "x".into(),
            })],
            Want::Err,
        ),
        1 => r(
            "read from an unknown shard",
            "Read",
            vec![enc(&wire::ReadRequest {
                shard_id: bad_shard(c, rng),
                message: crate::app::message(s, 1, 0),
            })],
            Want::Err,
        ),
        2 => r(
            "kern request to an unknown shard",
            "ProcessKernRequest",
            vec![enc(&wire::KernRequest {
                shard_id: bad_shard(c, rng),
                message: kern(1, &some),
            })],
            Want::Err,
        ),
        3 => {
            let sh = bad_shard(c, rng);
            r(
                "vote request for an unknown shard",
                "RequestVote",
                vec![vote(sh, some, Some((far, 1000)), rng)],
                Want::Err,
            )
        }
        4 => r(
            "add server to an unknown shard",
            "AddServer",
            vec![enc(&wire::ServerRequest {
                shard_id: bad_shard(c, rng),
                server_id: wire::uri(dst),
            })],
            Want::Err,
        ),
        5 => r(
            "remove server from an unknown shard",
            "RemoveServer",
            vec![enc(&wire::ServerRequest {
                shard_id: bad_shard(c, rng),
                server_id: some,
            })],
            Want::Err,
        ),
        6 => {
            let sh = bad_shard(c, rng);
            r(
                "replication stream for an unknown shard",
                "SendReplicationStream",
                vec![
                    header(sh, lu, Some(last), far),
                    entry(Some((far, last.1 + 1)), good_cmd),
                ],
                Want::Err,
            )
        }
        7 => r(
            "snapshot of an unknown shard",
            "GetSnapshot",
            vec![enc(&wire::GetSnapshotRequest {
                shard_id: bad_shard(c, rng),
                index: 1,
            })],
            Want::Err,
        ),
        8 => r(
            "timeout-now for an unknown shard",
            "SendTimeoutNow",
            vec![enc(&wire::TimeoutNow {
                shard_id: bad_shard(c, rng),
            })],
            Want::Err,
        ),
        9 => r(
            "heartbeat for unknown shards",
            "SendHeartbeat",
            vec![enc(&wire::Heartbeat {
                leader_id: lu,
                leader_commit_states: (0..3)
                    .map(|_| {
                        (
                            bad_shard(c, rng),
                            wire::LeaderCommitState {
                                leader_term: far,
                                leader_commit_index: 1000,
                            },
                        )
                    })
                    .collect(),
            })],
            Want::Inert,
        ),
        // Identifiers
        10 | 11 => {
            let id = bad_uri(rng);
            r(
                "vote request of a malformed candidate",
                "RequestVote",
                vec![vote(s, id, Some((far, 1000)), rng)],
                Want::Err,
            )
        }
        12 | 13 => r(
            "vote request without clock",
            "RequestVote",
            vec![vote(s, some, None, rng)],
            Want::Err,
        ),
        14 => {
            let id = bad_uri(rng);
            r(
                "add server with a malformed id",
                "AddServer",
                vec![enc(&wire::ServerRequest {
                    shard_id: s,
                    server_id: id,
                })],
                Want::Err,
            )
        }
        15 => {
            let id = bad_uri(rng);
            r(
                "remove server with a malformed id",
                "RemoveServer",
                vec![enc(&wire::ServerRequest {
                    shard_id: s,
                    server_id: id,
                })],
                Want::Err,
            )
        }
        16 => {
            let id = bad_uri(rng);
            r(
                "heartbeat of a malformed leader",
                "SendHeartbeat",
                vec![enc(&wire::Heartbeat {
                    leader_id: id,
                    leader_commit_states: shards
                        .iter()
                        .map(|x| {
                            (
                                *x,
                                wire::LeaderCommitState {
                                    leader_term: far,
                                    leader_commit_index: 1000,
                                },
                            )
                        })
                        .collect(),
                })],
                Want::Err,
            )
        }
        // Kern payloads
        17 | 18 => {
            let b = match rng.below(4) {
                0 => Bytes::new(),
                1 => {
                    let t = rng.range(2, 90) as u32;
                    kern(t, &some)
                }
                2 => {
                    let k = kern(rng.below(2) as u32, &some);
                    k.slice(0..rng.below(k.len() as u64) as usize)
                }
                _ => {
                    let id = bad_uri(rng);
                    kern(rng.below(2) as u32, &id)
                }
            };
            r(
                "malformed kern request",
                "ProcessKernRequest",
                vec![enc(&wire::KernRequest {
                    shard_id: s,
                    message: b,
                })],
                Want::Err,
            )
        }
        // Replication streams
        19 => r(
            "empty replication stream",
            "SendReplicationStream",
            vec![],
            Want::Err,
        ),
        20 => r(
            "replication stream without header",
            "SendReplicationStream",
            vec![entry(Some((term, last.1 + 1)), good_cmd)],
            Want::Err,
        ),
        21 => r(
            "replication stream with an empty first chunk",
            "SendReplicationStream",
            vec![Bytes::new(), entry(Some((term, last.1 + 1)), good_cmd)],
            Want::Err,
        ),
        22 => r(
            "replication header without clock",
            "SendReplicationStream",
            vec![
                header(s, lu, None, far),
                entry(Some((far, last.1 + 1)), good_cmd),
            ],
            Want::Err,
        ),
        23 => {
            let id = bad_uri(rng);
            r(
                "replication stream of a malformed sender",
                "SendReplicationStream",
                vec![
                    header(s, id, Some(last), far),
                    entry(Some((far, last.1 + 1)), good_cmd),
                ],
                Want::Err,
            )
        }
        24 => r(
            "replication stream with a second header",
            "SendReplicationStream",
            vec![
                header(s, lu.clone(), Some(last), term),
                header(s, lu, Some(last), term),
            ],
            Want::Err,
        ),
        25 => r(
            "replication entry without clock",
            "SendReplicationStream",
            vec![header(s, lu, Some(last), term), entry(None, good_cmd)],
            Want::Err,
        ),
        26 | 27 | 28 => {
            let b = bad_command(rng);
            r(
                "replication entry with a malformed command",
                "SendReplicationStream",
                vec![
                    header(s, lu, Some(last), term),
                    entry(Some((term, last.1 + 1)), b),
                ],
                Want::Err,
            )
        }
        29 => {
            let d = *rng.pick(&[2u64, 3, 100]);
            r(
                "replication entry which leaves a gap",
                "SendReplicationStream",
                vec![
                    header(s, lu, Some(last), term),
                    entry(Some((term, last.1 + d)), good_cmd),
                ],
                Want::Err,
            )
        }
        30 => r(
            "replication entry of a newer term than its leader's",
            "SendReplicationStream",
            vec![
                header(s, lu, Some(last), term),
                entry(Some((far, last.1 + 1)), good_cmd),
            ],
            Want::Err,
        ),
        31 => r(
            "replication stream of a past term",
            "SendReplicationStream",
            vec![
                header(s, some, Some(last), term - 1),
                entry(Some((term - 1, last.1 + 1)), good_cmd),
            ],
            Want::Inert,
        ),
        // Snapshots
        32 => {
            let d = last.1 + rng.range(1, 1000);
            r(
                "snapshot which doesn't exist",
                "GetSnapshot",
                vec![enc(&wire::GetSnapshotRequest {
                    shard_id: s,
                    index: *rng.pick(&[0, d, u64::MAX]),
                })],
                Want::Err,
            )
        }
        // Raw bytes
        33 | 34 => {
            let m = *rng.pick(&[
                "Write",
                "Read",
                "ProcessKernRequest",
                "RequestVote",
                "AddServer",
                "RemoveServer",
                "SendReplicationStream",
                "GetSnapshot",
                "SendHeartbeat",
                "SendTimeoutNow",
            ]);
            // An unfinished varint is no message at all.
            let mut v = vec![0x12, 0xff, 0xff, 0xff];
            v.truncate(rng.range(2, 4) as usize);
            if rng.p(0.5) {
                v = vec![0x0f; rng.range(1, 5) as usize];
            }
            r(
                &format!("{m} with a broken message"),
                m,
                vec![v.into()],
                Want::Err,
            )
        }
        35 => r(
            "unknown method",
            *rng.pick(&[
                "Foo",
                "/sorock.Raft2/Write",
                "/",
                "write",
                "/sorock.Raft/Write/x",
            ]),
            vec![Bytes::new()],
            Want::Err,
        ),
        36 => {
            let m = *rng.pick(&["Write", "Read", "RequestVote", "AddServer"]);
            r(&format!("{m} without a message"), m, vec![], Want::Err)
        }
        _ => r(
            "read which the application rejects",
            "Read",
            vec![enc(&wire::ReadRequest {
                shard_id: s,
                message: Bytes::from_static(b"bad"),
            })],
            Want::Err,
        ),
    }
}
fn setup(rng: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = *rng.pick(&[1, 3, 3, 4]);
    p.start_members = p.cfg.nodes;
    p.cfg.shards = if rng.p(0.5) { vec![0] } else { vec![2, 5, 9] };
    p.clients = 3;
    p.no_short = true;
    p.op_timeout = 20_000;
    p
}
/// Requests one by one on a quiet cluster, or many at once while clients are active.
fn run(c: Arc<Cluster>, p: Profile, mut rng: Rng) -> Fut {
    Box::pin(async move {
        let ms = shuffled(&mut rng, p.start_members);
        if !boot(&c, &ms).await {
            return;
        }
        for s in c.w.cfg.shards.clone() {
            for _ in 0..rng.range(1, 8) {
                let op = c.op_id();
                c.write(1, ms[0], s, op, 20_000).await.ok();
            }
        }
        let busy = rng.p(0.4);
        let cl = busy.then(|| clients(&c, &p, &mut rng));
        // The monitors of the wire would take the forged messages for real ones.
        for round in 0..rng.range(2, 5) {
            if !busy && !quiet(&c, 60_000).await {
                c.w.lock().stat("never_quiet");
                break;
            }
            let before = fingerprint(&c, true);
            let terms: Vec<u64> = terms(&c);
            let mut hs = vec![];
            for k in 0..rng.range(3, 12) {
                let dst = rng.below(c.w.cfg.nodes as u64) as usize;
                let (what, m, msgs, want) = {
                    // A forged stream goes to a follower of the leader it names.
                    loop {
                        let x = invalid(&c, &mut rng, dst);
                        if x.1 == "SendReplicationStream"
                            && c.w
                                .cfg
                                .shards
                                .iter()
                                .any(|s| c.term_leader(*s).map(|l| l.0 == dst).unwrap_or(true))
                            && x.0 != "empty replication stream"
                        {
                            continue;
                        }
                        // Entries of the current term may be valid while the log moves on.
                        if busy && (x.0.contains("entry") || x.0.contains("past term")) {
                            continue;
                        }
                        break x;
                    }
                };
                let same = rng.p(0.6);
                let ch = c.chan(
                    if same {
                        1
                    } else {
                        300 + k as usize + 20 * round as usize
                    },
                    dst,
                );
                let c2 = c.clone();
                let d = if rng.p(0.5) { 0 } else { rng.below(60) };
                let gap = if rng.p(0.3) { rng.below(30) } else { 0 };
                let f = async move {
                    sleep(d).await;
                    let r =
                        tokio::time::timeout(crate::cluster::ms(15_000), call(ch, &m, msgs, gap))
                            .await;
                    let mut i = c2.w.lock();
                    i.shape(
                        "invalid_requests",
                        crate::rng::hash(what.as_bytes()),
                        dst as u64,
                    );
                    crate::tr!(
                        i,
                        "invalid request n{dst}: {what}: {:?}",
                        r.as_ref()
                            .map(|x| x.as_ref().map(|v| v.len()).map_err(|e| format!(
                                "{:?} {}",
                                e.code(),
                                e.message()
                            )))
                    );
                    match r {
                        Err(_) => i.viol(
                            &["C14"],
                            "unanswered",
                            format!("{what}: no answer from n{dst} within 15 s"),
                        ),
                        Ok(Ok(_)) if want == Want::Err => i.viol(
                            &["C14"],
                            "accepted",
                            format!("{what}: n{dst} answered without an error"),
                        ),
                        Ok(Err(e)) => {
                            i.stat("invalid_answered");
                            // The connection is meant to survive.
                            if e.code() == tonic::Code::Unavailable {
                                i.viol(
                                    &["C14"],
                                    "connection-lost",
                                    format!(
                                        "{what}: n{dst} dropped the connection: {}",
                                        e.message()
                                    ),
                                );
                            }
                        }
                        Ok(Ok(_)) => i.stat("inert_answered"),
                    }
                };
                if rng.p(0.5) {
                    f.await;
                } else {
                    hs.push(tokio::spawn(f));
                }
            }
            for h in hs {
                h.await.ok();
            }
            if !busy {
                sleep(rng.range(10, 2500)).await;
                let after = fingerprint(&c, true);
                c.w.lock().stat("state_comparisons");
                if before != after {
                    c.w.lock().viol(
                        &["C14"],
                        "state-changed",
                        format!(
                            "invalid requests changed the state: before [{before}] after [{after}]"
                        ),
                    );
                }
            } else {
                let t2 = self::terms(&c);
                if t2 != terms {
                    c.w.lock().viol(
                        &["C14"],
                        "term-changed",
                        format!("terms {terms:?} became {t2:?} after invalid requests"),
                    );
                }
            }
            // Valid requests on the connections that carried the invalid ones.
            for dst in 0..c.w.cfg.nodes {
                for s in c.w.cfg.shards.clone() {
                    // Elections take their time; what counts is that the node serves again.
                    let (mut r, mut q);
                    let end = now_ms() + 30_000;
                    loop {
                        let op = c.op_id();
                        r = c.write(1, dst, s, op, 20_000).await;
                        q = c.read(1, dst, s, 20_000).await;
                        if (r.is_ok() && q.is_ok()) || now_ms() > end {
                            break;
                        }
                        sleep(200).await;
                    }
                    let mut i = c.w.lock();
                    i.stat("valid_after_invalid");
                    if r.is_err() || q.is_err() {
                        i.viol(&["C14"], "broken-after", format!("shard {s} n{dst}: valid requests fail after invalid ones: {:?} {:?}", r.err(), q.err()));
                    }
                }
            }
        }
        finish(&c, &p, cl).await;
    })
}
fn terms(c: &Cluster) -> Vec<u64> {
    let i = c.w.lock();
    i.nodes
        .iter()
        .flat_map(|n| n.disks.values().map(|d| d.term))
        .collect()
}

// ---- reflection ----
fn setup1(_: &mut Rng) -> Profile {
    let mut p = Profile::default();
    p.cfg.nodes = 1;
    p.start_members = 1;
    p
}
#[derive(Clone, PartialEq, prost::Message)]
struct ReflReq {
    #[prost(string, tag = "1")]
    host: String,
    #[prost(oneof = "ReflQ", tags = "3, 4, 7")]
    q: Option<ReflQ>,
}
#[derive(Clone, PartialEq, prost::Oneof)]
enum ReflQ {
    #[prost(string, tag = "3")]
    File(String),
    #[prost(string, tag = "4")]
    Symbol(String),
    #[prost(string, tag = "7")]
    List(String),
}
#[derive(Clone, PartialEq, prost::Message)]
struct FileResp {
    #[prost(bytes = "vec", repeated, tag = "1")]
    file: Vec<Vec<u8>>,
}
#[derive(Clone, PartialEq, prost::Message)]
struct Svc {
    #[prost(string, tag = "1")]
    name: String,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ListResp {
    #[prost(message, repeated, tag = "1")]
    service: Vec<Svc>,
}
#[derive(Clone, PartialEq, prost::Message)]
struct ReflResp {
    #[prost(message, optional, tag = "4")]
    file: Option<FileResp>,
    #[prost(message, optional, tag = "6")]
    list: Option<ListResp>,
}
/// (method, input, output, client streaming, server streaming)
const METHODS: &[(&str, &str, &str, bool, bool)] = &[
    (
        "Write",
        ".sorock.WriteRequest",
        ".sorock.Response",
        false,
        false,
    ),
    (
        "Read",
        ".sorock.ReadRequest",
        ".sorock.Response",
        false,
        false,
    ),
    (
        "ProcessKernRequest",
        ".sorock.KernRequest",
        ".google.protobuf.Empty",
        false,
        false,
    ),
    (
        "RequestVote",
        ".sorock.VoteRequest",
        ".sorock.VoteResponse",
        false,
        false,
    ),
    (
        "AddServer",
        ".sorock.AddServerRequest",
        ".google.protobuf.Empty",
        false,
        false,
    ),
    (
        "RemoveServer",
        ".sorock.RemoveServerRequest",
        ".google.protobuf.Empty",
        false,
        false,
    ),
    (
        "SendReplicationStream",
        ".sorock.ReplicationStreamChunk",
        ".sorock.ReplicationStreamResponse",
        true,
        false,
    ),
    (
        "GetSnapshot",
        ".sorock.GetSnapshotRequest",
        ".sorock.SnapshotChunk",
        false,
        true,
    ),
    (
        "SendHeartbeat",
        ".sorock.Heartbeat",
        ".google.protobuf.Empty",
        false,
        false,
    ),
    (
        "SendTimeoutNow",
        ".sorock.TimeoutNow",
        ".google.protobuf.Empty",
        false,
        false,
    ),
];
async fn refl(c: &Cluster, q: ReflQ) -> Result<ReflResp, Status> {
    let m = ReflReq {
        host: String::new(),
        q: Some(q),
    };
    let r = call(
        c.chan(9, 0),
        "/grpc.reflection.v1.ServerReflection/ServerReflectionInfo",
        vec![enc(&m)],
        0,
    )
    .await?;
    let b = r
        .into_iter()
        .next()
        .ok_or_else(|| Status::unknown("no answer"))?;
    ReflResp::decode(b).map_err(|e| Status::unknown(e.to_string()))
}
fn varint(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
fn run_refl(c: Arc<Cluster>, _p: Profile, _rng: Rng) -> Fut {
    Box::pin(async move {
        if !boot(&c, &[0]).await {
            return;
        }
        let bad = |m: String| c.w.lock().viol(&["C14"], "reflection", m);
        let list = match refl(&c, ReflQ::List(String::new())).await {
            Ok(r) => r
                .list
                .unwrap_or_default()
                .service
                .into_iter()
                .map(|s| s.name)
                .collect::<Vec<_>>(),
            Err(e) => return bad(format!("listing services failed: {e}")),
        };
        c.w.lock().shape("reflection_queries", list.len() as u64, 0);
        let mine: Vec<&String> = list
            .iter()
            .filter(|s| !s.starts_with("grpc.reflection"))
            .collect();
        if mine != ["sorock.Raft"] {
            bad(format!("services listed: {list:?}"));
        }
        let files = match refl(&c, ReflQ::Symbol("sorock.Raft".into())).await {
            Ok(r) => r.file.unwrap_or_default().file,
            Err(e) => return bad(format!("symbol sorock.Raft: {e}")),
        };
        let mut svc = None;
        let mut fd = None;
        for f in &files {
            match prost_types::FileDescriptorProto::decode(&f[..]) {
                Ok(d) => {
                    if let Some(s) = d.service.iter().find(|s| s.name() == "Raft") {
                        svc = Some(s.clone());
                        fd = Some(d.clone());
                    }
                }
                Err(e) => bad(format!("descriptor: {e}")),
            }
        }
        let (Some(svc), Some(fd)) = (svc, fd) else {
            return bad("no descriptor of sorock.Raft".into());
        };
        let mut got: Vec<(String, String, String, bool, bool)> = svc
            .method
            .iter()
            .map(|m| {
                (
                    m.name().to_string(),
                    m.input_type().to_string(),
                    m.output_type().to_string(),
                    m.client_streaming(),
                    m.server_streaming(),
                )
            })
            .collect();
        got.sort();
        // Offered are the methods that do not answer "unimplemented"; probed: those of the proto
        // file, and everything the descriptor names.
        let mut names: Vec<String> = METHODS.iter().map(|m| m.0.to_string()).collect();
        names.extend(got.iter().map(|g| g.0.clone()));
        names.sort();
        names.dedup();
        for n in &names {
            let r = call(c.chan(9, 0), n, vec![vec![0x0f].into()], 0).await;
            let offered = !matches!(&r, Err(e) if e.code() == tonic::Code::Unimplemented);
            let described = got.iter().find(|g| g.0 == *n);
            c.w.lock().stat("reflection_methods");
            if offered != described.is_some() {
                bad(format!(
                    "method {n}: offered {offered}, described {}",
                    described.is_some()
                ));
            }
            if let (Some(d), Some(w)) = (described, METHODS.iter().find(|m| m.0 == n)) {
                if (d.1.as_str(), d.2.as_str(), d.3, d.4) != (w.1, w.2, w.3, w.4) {
                    bad(format!(
                        "method {n} is described as {d:?}, the protocol has {w:?}"
                    ));
                }
            }
        }
        // Requests put together from the described field numbers work.
        let field = |msg: &str, f: &str| {
            fd.message_type
                .iter()
                .find(|m| m.name() == msg)
                .and_then(|m| m.field.iter().find(|x| x.name() == f))
                .map(|x| x.number() as u64)
        };
        let build = |msg: &str, fs: &[(&str, Result<u64, Vec<u8>>)]| -> Option<Bytes> {
            let mut o = vec![];
            for (n, v) in fs {
                let k = field(msg, n)?;
                match v {
                    Ok(x) => {
                        varint(k << 3, &mut o);
                        varint(*x, &mut o);
                    }
                    Err(b) => {
                        varint(k << 3 | 2, &mut o);
                        varint(b.len() as u64, &mut o);
                        o.extend_from_slice(b);
                    }
                }
            }
            Some(o.into())
        };
        let op = c.op_id();
        let me = wire::uri(0).into_bytes();
        let s = c.w.cfg.shards[0];
        let sh: Result<u64, Vec<u8>> = Ok(s as u64);
        let tests: Vec<(&str, &str, Vec<(&str, Result<u64, Vec<u8>>)>)> = vec![
            (
                "SendTimeoutNow",
                "TimeoutNow",
                vec![("shard_id", sh.clone())],
            ),
            (
                "AddServer",
                "AddServerRequest",
                vec![("shard_id", sh.clone()), ("server_id", Err(me.clone()))],
            ),
            (
                "Write",
                "WriteRequest",
                vec![
                    ("shard_id", sh.clone()),
                    ("message", Err(crate::app::message(s, op, 0).to_vec())),
                    ("request_id", Err(b"refl".to_vec())),
                ],
            ),
            (
                "Read",
                "ReadRequest",
                vec![
                    ("shard_id", sh.clone()),
                    ("message", Err(crate::app::message(s, op, 0).to_vec())),
                ],
            ),
            (
                "RequestVote",
                "VoteRequest",
                vec![
                    ("shard_id", sh.clone()),
                    ("vote_term", Ok(0)),
                    ("candidate_id", Err(me.clone())),
                    ("candidate_clock", Err(vec![])),
                    ("pre_vote", Ok(1)),
                ],
            ),
        ];
        for (m, t, fs) in tests {
            let Some(b) = build(t, &fs) else {
                bad(format!(
                    "{t}: a field of {:?} is not described",
                    fs.iter().map(|f| f.0).collect::<Vec<_>>()
                ));
                continue;
            };
            let r = call(c.chan(9, 0), m, vec![b], 0).await;
            c.w.lock().stat("described_requests");
            let fine = match (&r, m) {
                (Ok(_), _) => true,
                _ => false,
            };
            if !fine {
                bad(format!(
                    "{m} put together as described fails: {:?}",
                    r.err()
                ));
            }
            if m == "SendTimeoutNow" {
                sleep(1500).await;
            }
        }
    })
}
pub fn all() -> Vec<Scenario> {
    vec![
        Scenario {
            name: "badreq",
            setup,
            run,
        },
        Scenario {
            name: "reflection",
            setup: setup1,
            run: run_refl,
        },
    ]
}
