//! In-memory network: byte streams between nodes with cuts, stalls, resets and latency, and a
//! server layer that observes every RPC and injects delays, losses of requests and of replies.
use crate::wire::{self};
use crate::world::*;
use bytes::{Buf, Bytes, BytesMut};
use http_body_util::BodyExt;
use prost::Message;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf};
use tonic::body::BoxBody;
use tonic::transport::{Channel, Endpoint, Uri};

pub const CLIENT0: usize = 1000;

pub struct SimIo {
    pub io: DuplexStream,
    pub src: usize,
}
#[derive(Clone)]
pub struct PeerInfo(pub usize);
impl tonic::transport::server::Connected for SimIo {
    type ConnectInfo = PeerInfo;
    fn connect_info(&self) -> PeerInfo {
        PeerInfo(self.src)
    }
}
impl AsyncRead for SimIo {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.io).poll_read(cx, buf)
    }
}
impl AsyncWrite for SimIo {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        b: &[u8],
    ) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.io).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.io).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.io).poll_shutdown(cx)
    }
}

fn refuse(why: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::ConnectionRefused, why.to_string())
}
/// Open a byte stream from `src` (incarnation `inc`, or a client) to node `dst`.
async fn dial(
    w: Arc<World>,
    src: usize,
    inc: Option<u64>,
    dst: usize,
) -> std::io::Result<DuplexStream> {
    let (dead, cut, fast) = {
        let mut i = w.lock();
        i.stat("dials");
        let dead = match inc {
            Some(x) => src < CLIENT0 && (!i.nodes[src].up || i.nodes[src].inc != x),
            None => src < CLIENT0,
        };
        (
            dead,
            !(i.link_up(src, dst) && i.link_up(dst, src)),
            i.dial_fast_fail,
        )
    };
    if dead {
        return Err(refuse("source is down"));
    }
    if cut {
        let t = if fast { 20 } else { 3000 };
        tokio::time::sleep(Duration::from_millis(t)).await;
        return Err(refuse("unreachable"));
    }
    let d = {
        let mut i = w.lock();
        i.rng.below(3)
    };
    tokio::time::sleep(Duration::from_millis(d)).await;
    let (c1, c2) = tokio::io::duplex(1 << 16);
    let (s1, s2) = tokio::io::duplex(1 << 16);
    let (ktx, krx) = tokio::sync::watch::channel(false);
    {
        let mut i = w.lock();
        let dead = src < CLIENT0 && (!i.nodes[src].up || Some(i.nodes[src].inc) != inc);
        if dead || !i.nodes[dst].up {
            return Err(refuse("destination is down"));
        }
        let Some(tx) = i.nodes[dst].incoming.clone() else {
            return Err(refuse("destination does not listen"));
        };
        if tx.send(SimIo { io: s1, src }).is_err() {
            return Err(refuse("destination does not listen"));
        }
        i.conns.retain(|c| !c.kill.is_closed());
        i.conns.push(ConnHandle {
            src,
            dst,
            kill: ktx,
        });
        i.stat("connections");
    }
    let (cr, cw) = tokio::io::split(c2);
    let (sr, sw) = tokio::io::split(s2);
    let k1 = krx.clone();
    let w1 = w.clone();
    // Both relays share one lifetime: when either ends, the stream is closed both ways.
    tokio::spawn(async move {
        let a = relay(w1.clone(), cr, sw, src, dst);
        let b = relay(w1, sr, cw, dst, src);
        tokio::select! { biased; _ = killed(k1) => {}, _ = a => {}, _ = b => {} }
    });
    Ok(c1)
}
async fn killed(mut k: tokio::sync::watch::Receiver<bool>) {
    loop {
        if *k.borrow() {
            return;
        }
        if k.changed().await.is_err() {
            futures::future::pending::<()>().await;
        }
    }
}
async fn relay(
    w: Arc<World>,
    mut r: impl AsyncRead + Unpin,
    mut o: impl AsyncWrite + Unpin,
    from: usize,
    to: usize,
) {
    let mut buf = vec![0u8; 16384];
    loop {
        let n = match r.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => n,
        };
        let lat = w.cfg.link_ms;
        if lat > 0 {
            let d = {
                let mut i = w.lock();
                i.rng.below(lat + 1)
            };
            if d > 0 {
                tokio::time::sleep(Duration::from_millis(d)).await;
            }
        }
        loop {
            let wait = w.link_notify.notified();
            if w.lock().link_up(from, to) {
                break;
            }
            wait.await;
        }
        if o.write_all(&buf[..n]).await.is_err() {
            return;
        }
    }
}
pub fn channel(ep: &Endpoint, w: Arc<World>, src: usize, inc: Option<u64>, dst: usize) -> Channel {
    ep.connect_with_connector_lazy(tower::service_fn(move |_: Uri| {
        let w = w.clone();
        async move {
            dial(w, src, inc, dst)
                .await
                .map(hyper_util::rt::TokioIo::new)
        }
    }))
}
/// Installed once per process as sorock's connector.
pub fn connector(src: &Uri, dst: &Uri, ep: &Endpoint) -> Option<Channel> {
    let w = current()?;
    let (s, d, inc) = {
        let mut i = w.lock();
        let s = i.uris.get(&src.to_string()).copied();
        let d = i.uris.get(&dst.to_string()).copied();
        let s = s?;
        i.stat("node_channels");
        let inc = if i.nodes[s].up {
            Some(i.nodes[s].inc)
        } else {
            None
        };
        (s, d, inc)
    };
    match d {
        Some(d) => Some(channel(ep, w, s, inc, d)),
        None => Some(
            ep.connect_with_connector_lazy(tower::service_fn(move |_: Uri| async move {
                Err::<hyper_util::rt::TokioIo<DuplexStream>, _>(refuse("no such host"))
            })),
        ),
    }
}
pub fn client_channel(w: &Arc<World>, client: usize, dst: usize) -> Channel {
    let ep = Endpoint::from_shared(wire::uri(dst))
        .unwrap()
        .http2_keep_alive_interval(Duration::from_secs(1))
        .keep_alive_while_idle(true);
    channel(&ep, w.clone(), CLIENT0 + client, None, dst)
}
impl World {
    pub fn reset_conns(&self, f: impl Fn(usize, usize) -> bool) {
        let mut i = self.lock();
        let ks: Vec<_> = i
            .conns
            .iter()
            .filter(|c| f(c.src, c.dst))
            .map(|c| c.kill.clone())
            .collect();
        i.conns.retain(|c| !f(c.src, c.dst));
        drop(i);
        for k in ks {
            k.send(true).ok();
        }
    }
    /// Make the directed link (a, b) fail or work.
    pub fn set_link(&self, a: usize, b: usize, up: bool) {
        let mut i = self.lock();
        if up {
            i.cut.remove(&(a, b));
        } else {
            i.cut.insert((a, b));
        }
        drop(i);
        self.link_notify.notify_waiters();
    }
    pub fn heal(&self) {
        {
            let mut i = self.lock();
            crate::tr!(i, "heal");
            i.cut.clear();
        }
        self.link_notify.notify_waiters();
    }
}

// ---------- server layer ----------
#[derive(Clone)]
pub struct MonLayer {
    pub w: Arc<World>,
    pub node: usize,
}
impl<S> tower::Layer<S> for MonLayer {
    type Service = MonSvc<S>;
    fn layer(&self, inner: S) -> MonSvc<S> {
        MonSvc {
            w: self.w.clone(),
            node: self.node,
            inner,
        }
    }
}
#[derive(Clone)]
pub struct MonSvc<S> {
    w: Arc<World>,
    node: usize,
    inner: S,
}
fn kind_of(path: &str) -> &'static str {
    let name = path.rsplit('/').next().unwrap_or("");
    for k in [
        "Write",
        "Read",
        "ProcessKernRequest",
        "RequestVote",
        "AddServer",
        "RemoveServer",
        "SendReplicationStream",
        "GetSnapshot",
        "SendHeartbeat",
        "SendTimeoutNow",
    ] {
        if k == name {
            return k;
        }
    }
    "other"
}
fn payload(b: &[u8]) -> Option<&[u8]> {
    if b.len() < 5 || b[0] != 0 {
        return None;
    }
    let n = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
    b.get(5..5 + n)
}
fn unavailable() -> http::Response<BoxBody> {
    tonic::Status::unavailable("injected network error").into_http()
}
/// Passes a replication stream through and observes the complete messages in it.
struct Tee {
    inner: BoxBody,
    buf: BytesMut,
    w: Arc<World>,
    src: usize,
    node: usize,
    shard: Option<u32>,
}
impl http_body::Body for Tee {
    type Data = Bytes;
    type Error = tonic::Status;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<http_body::Frame<Bytes>, tonic::Status>>> {
        let r = Pin::new(&mut self.inner).poll_frame(cx);
        if let Poll::Ready(Some(Ok(f))) = &r {
            if let Some(d) = f.data_ref() {
                let d = d.clone();
                self.buf.extend_from_slice(&d);
                loop {
                    if self.buf.len() < 5 {
                        break;
                    }
                    let n = u32::from_be_bytes(self.buf[1..5].try_into().unwrap()) as usize;
                    if self.buf.len() < 5 + n {
                        break;
                    }
                    self.buf.advance(5);
                    let m = self.buf.split_to(n);
                    if let Ok(c) = wire::ReplicationStreamChunk::decode(&m[..]) {
                        let mut i = self.w.lock();
                        match c.elem {
                            Some(wire::Elem::Header(h)) => {
                                i.stat("replication_streams");
                                crate::tr!(
                                    i,
                                    "stream shard {} n{}->n{} prev {:?} term {}",
                                    h.shard_id,
                                    self.src,
                                    self.node,
                                    h.prev_clock.map(|c| (c.term, c.index)),
                                    h.leader_term
                                );
                                if i.shards.contains_key(&h.shard_id)
                                    && h.leader_term > 0
                                    && self.src < CLIENT0
                                {
                                    let src = self.src;
                                    i.learn_leader(src, h.shard_id, h.leader_term, "stream");
                                }
                                drop(i);
                                self.shard = Some(h.shard_id);
                            }
                            Some(wire::Elem::Entry(_)) => i.stat("stream_entries"),
                            None => {}
                        }
                    }
                }
            }
        }
        r
    }
    fn is_end_stream(&self) -> bool {
        self.inner.is_end_stream()
    }
}
async fn sleep_ms(d: u64) {
    if d > 0 {
        tokio::time::sleep(Duration::from_millis(d)).await;
    }
}
impl<S> tower::Service<http::Request<BoxBody>> for MonSvc<S>
where
    S: tower::Service<http::Request<BoxBody>, Response = http::Response<BoxBody>>
        + Clone
        + Send
        + 'static,
    S::Future: Send,
    S::Error: Send,
{
    type Response = http::Response<BoxBody>;
    type Error = S::Error;
    type Future =
        Pin<Box<dyn std::future::Future<Output = Result<Self::Response, S::Error>> + Send>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        self.inner.poll_ready(cx)
    }
    fn call(&mut self, req: http::Request<BoxBody>) -> Self::Future {
        let clone = self.inner.clone();
        let mut inner = std::mem::replace(&mut self.inner, clone);
        let w = self.w.clone();
        let node = self.node;
        Box::pin(async move {
            let src = req
                .extensions()
                .get::<PeerInfo>()
                .map(|p| p.0)
                .unwrap_or(usize::MAX);
            let kind = kind_of(req.uri().path());
            let (parts, body) = req.into_parts();
            // Unary requests are read completely; replication streams are observed in passing.
            let mut msg = Bytes::new();
            let body: BoxBody = if kind == "SendReplicationStream" || kind == "other" {
                if kind == "other" {
                    body
                } else {
                    tonic::body::boxed(Tee {
                        inner: body,
                        buf: BytesMut::new(),
                        w: w.clone(),
                        src,
                        node,
                        shard: None,
                    })
                }
            } else {
                match body.collect().await {
                    Ok(c) => {
                        msg = c.to_bytes();
                        tonic::body::boxed(http_body_util::Full::new(msg.clone()))
                    }
                    Err(e) => return Ok(e.into_http()),
                }
            };
            let m: Bytes = payload(&msg).map(|p| msg.slice_ref(p)).unwrap_or_default();
            // Fault decision.
            let (mut before, mut after, mut fail, mut fail_after, mut hang) =
                (0, 0, false, false, false);
            {
                let mut i = w.lock();
                i.stat("rpcs");
                let now = now_ms();
                if i.rpc_at.0 / 200 != now / 200 {
                    i.rpc_at = (now, 0);
                }
                i.rpc_at.1 += 1;
                if i.rpc_at.1 > 60_000 && !i.livelock {
                    i.livelock = true;
                    i.viol(&["C12"], "rpc-storm", format!("more than 60000 RPCs within 200 ms of simulated time; the last one is {kind} n{src}->n{node}"));
                }
                hang |= i.livelock;
                let peer = src < CLIENT0;
                if peer {
                    let c = &w.cfg;
                    let (p, max) = if i.chaos {
                        (c.rpc_p, c.rpc_max_ms)
                    } else {
                        (c.rpc_p * 0.3, c.rpc_max_ms.min(5))
                    };
                    if i.rng.p(p) {
                        before = i.rng.below(max + 1);
                    }
                    if i.rng.p(p) {
                        after = i.rng.below(max + 1);
                    }
                    let f = i.rpc_fault.clone();
                    let hit = f
                        .only
                        .as_ref()
                        .map(|o| o.contains(&(src, node)))
                        .unwrap_or(true)
                        && f.kinds.as_ref().map(|k| k.contains(kind)).unwrap_or(true);
                    if hit {
                        fail = i.rng.p(f.err_before);
                        fail_after = i.rng.p(f.err_after);
                        if i.rng.p(f.delay_p) {
                            before += i.rng.below(f.delay_ms + 1);
                        }
                    }
                }
                let b = i.blocker.take();
                if let Some(b) = b {
                    match b(&RpcInfo {
                        src,
                        dst: node,
                        kind,
                        msg: &m,
                    }) {
                        Action::Pass => {}
                        Action::Fail => fail = true,
                        Action::FailAfter => fail_after = true,
                        Action::Delay(d) => before += d,
                        Action::DelayAfter(d) => after += d,
                        Action::Hang => hang = true,
                    }
                    if i.blocker.is_none() {
                        i.blocker = Some(b);
                    }
                }
                if fail {
                    i.stat("rpcs_lost");
                }
                if fail_after {
                    i.stat("replies_lost");
                }
            }
            if hang {
                futures::future::pending::<()>().await;
            }
            sleep_ms(before).await;
            if fail {
                return Ok(unavailable());
            }
            // Observe the request.
            let mut vote: Option<(wire::VoteRequest, VoteBefore)> = None;
            if src < CLIENT0 {
                match kind {
                    "SendHeartbeat" => {
                        if let Ok(h) = wire::Heartbeat::decode(&m[..]) {
                            w.lock().on_heartbeat(node, src, &h);
                        }
                    }
                    "RequestVote" => {
                        if let Ok(v) = wire::VoteRequest::decode(&m[..]) {
                            let i = w.lock();
                            if let Some(d) = i.nodes[node].disks.get(&v.shard_id) {
                                let b = VoteBefore {
                                    term: d.term,
                                    last: d.last_clock(),
                                    version: d.version,
                                };
                                vote = Some((v, b));
                            }
                        }
                    }
                    "SendTimeoutNow" => w.lock().shape("timeout_now", node as u64, 0),
                    _ => {}
                }
            }
            let resp = inner.call(http::Request::from_parts(parts, body)).await?;
            if kind == "GetSnapshot" || kind == "other" {
                if fail_after {
                    return Ok(unavailable());
                }
                sleep_ms(after).await;
                return Ok(resp);
            }
            let (parts, body) = resp.into_parts();
            let col = match body.collect().await {
                Ok(c) => c,
                Err(e) => return Ok(e.into_http()),
            };
            let trailers = col.trailers().cloned();
            let data = col.to_bytes();
            if let Some((v, b)) = vote {
                if let Some(p) = payload(&data) {
                    if let Ok(r) = wire::VoteResponse::decode(p) {
                        w.lock().on_vote_answer(node, b, &v, r.vote_granted);
                    }
                }
            }
            sleep_ms(after).await;
            if fail_after {
                return Ok(unavailable());
            }
            let mut frames: Vec<Result<http_body::Frame<Bytes>, tonic::Status>> = vec![];
            if !data.is_empty() {
                frames.push(Ok(http_body::Frame::data(data)));
            }
            if let Some(t) = trailers {
                frames.push(Ok(http_body::Frame::trailers(t)));
            }
            let body = http_body_util::StreamBody::new(futures::stream::iter(frames));
            Ok(http::Response::from_parts(parts, tonic::body::boxed(body)))
        })
    }
}

/// Deliver everything written so far; used by scenarios.
pub async fn shutdown(mut s: DuplexStream) {
    s.shutdown().await.ok();
}
