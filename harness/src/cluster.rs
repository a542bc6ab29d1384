//! Starting, crashing and restarting nodes; client operations.
use crate::app::{self, MonApp};
use crate::net::{self, MonLayer, SimIo};
use crate::store::*;
use crate::wire;
use crate::world::*;
use sorock::client::*;
use sorock::process::RaftProcess;
use sorock::{NodeId, RaftNode};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::transport::Channel;

pub struct NodeRt {
    pub node: RaftNode,
    pub server: tokio::task::JoinHandle<()>,
    pub backend: Option<sorock::backends::redb::Backend>,
}
pub struct Cluster {
    pub w: Arc<World>,
    pub rts: Mutex<Vec<Option<NodeRt>>>,
    chans: Mutex<HashMap<(usize, usize), Channel>>,
    next_op: Mutex<u64>,
}
#[derive(Debug, Clone, Default)]
pub struct MemBytes(pub Arc<Mutex<Vec<u8>>>);
impl redb::StorageBackend for MemBytes {
    fn len(&self) -> Result<u64, std::io::Error> {
        Ok(self.0.lock().unwrap().len() as u64)
    }
    fn read(&self, offset: u64, len: usize) -> Result<Vec<u8>, std::io::Error> {
        let g = self.0.lock().unwrap();
        let o = offset as usize;
        g.get(o..o + len)
            .map(|x| x.to_vec())
            .ok_or_else(|| std::io::Error::other("read beyond the end"))
    }
    fn set_len(&self, len: u64) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().resize(len as usize, 0);
        Ok(())
    }
    fn sync_data(&self, _: bool) -> Result<(), std::io::Error> {
        Ok(())
    }
    fn write(&self, offset: u64, data: &[u8]) -> Result<(), std::io::Error> {
        let mut g = self.0.lock().unwrap();
        let o = offset as usize;
        if g.len() < o + data.len() {
            g.resize(o + data.len(), 0);
        }
        g[o..o + data.len()].copy_from_slice(data);
        Ok(())
    }
}
pub fn ms(x: u64) -> Duration {
    Duration::from_millis(x)
}
pub async fn sleep(x: u64) {
    tokio::time::sleep(ms(x)).await
}

/// Request ids are opaque: pairs of operations get ids that differ in little.
pub fn request_id(op: u64) -> String {
    let (m, odd) = (op / 2, op % 2 == 1);
    match m % 8 {
        0 => format!("{}{m}", if odd { "0" } else { "" }),
        1 => format!("{m}{}", if odd { " " } else { "" }),
        2 => format!("{}{m}{}", "x".repeat(300), if odd { "y" } else { "z" }),
        3 => format!("{}{m}", if odd { "a" } else { "A" }),
        4 => format!("{m}-{}", if odd { "é" } else { "e\u{301}" }),
        5 => format!("{}{m}{}", if odd { "k" } else { "l" }, "s".repeat(100)),
        6 => format!("{m}{}", if odd { "\0" } else { "\0\0" }),
        _ => format!("{}c{m}", if odd { "" } else { "\u{feff}" }),
    }
}
impl Cluster {
    pub fn new(w: Arc<World>) -> Arc<Self> {
        let n = w.cfg.nodes;
        Arc::new(Cluster {
            w,
            rts: Mutex::new((0..n).map(|_| None).collect()),
            chans: Default::default(),
            next_op: Mutex::new(1),
        })
    }
    pub fn op_id(&self) -> u64 {
        let mut g = self.next_op.lock().unwrap();
        *g += 1;
        *g
    }
    pub fn is_up(&self, n: usize) -> bool {
        self.w.lock().nodes[n].up
    }
    /// Start (or restart) a node from what its disk holds.
    pub async fn start(self: &Arc<Self>, n: usize) {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<SimIo>();
        let inc = {
            let mut i = self.w.lock();
            assert!(!i.nodes[n].up);
            i.nodes[n].inc += 1;
            i.nodes[n].up = true;
            i.nodes[n].incoming = Some(tx);
            for d in i.nodes[n].disks.values_mut() {
                d.detached_at = None;
                d.gen += 1;
            }
            i.shape("starts", n as u64, 0);
            crate::tr!(i, "start n{n}");
            i.nodes[n].inc
        };
        let backend = if self.w.cfg.redb {
            let bytes = {
                let mut i = self.w.lock();
                // A crash keeps the bytes but not the objects that the old incarnation holds.
                let old = i.nodes[n]
                    .db
                    .take()
                    .map(|b| b.lock().unwrap().clone())
                    .unwrap_or_default();
                let b = Arc::new(Mutex::new(old));
                i.nodes[n].db = Some(b.clone());
                b
            };
            let db = redb::Database::builder()
                .create_with_backend(MemBytes(bytes))
                .expect("reopen database");
            Some(sorock::backends::redb::Backend::new(db))
        } else {
            None
        };
        let node = RaftNode::new(NodeId::new(wire::uri(n).parse().unwrap()));
        self.rts.lock().unwrap()[n] = None;
        let svc = sorock::raft_service::new(node.clone());
        let refl = sorock::reflection_service::new();
        let layer = MonLayer {
            w: self.w.clone(),
            node: n,
        };
        // The processes are attached before the node starts to listen.
        for s in self.w.cfg.shards.clone() {
            if self.w.lock().nodes[n].absent.contains(&s) {
                continue;
            }
            loop {
                match self.make_process(n, s, inc, &node, backend.as_ref()).await {
                    Ok(p) => {
                        node.attach_process(s, p);
                        break;
                    }
                    Err(_) => {
                        sleep(100).await;
                        let i = self.w.lock();
                        if !i.nodes[n].up || i.nodes[n].inc != inc {
                            return;
                        }
                    }
                }
            }
        }
        {
            let i = self.w.lock();
            if !i.nodes[n].up || i.nodes[n].inc != inc {
                return;
            }
        }
        let st = futures::stream::unfold(rx, |mut rx| async move {
            rx.recv().await.map(|x| (Ok::<_, std::io::Error>(x), rx))
        });
        let server = tokio::spawn(async move {
            tonic::transport::Server::builder()
                .layer(layer)
                .add_service(svc)
                .add_service(refl)
                .serve_with_incoming(st)
                .await
                .ok();
        });
        self.rts.lock().unwrap()[n] = Some(NodeRt {
            node,
            server,
            backend,
        });
    }
    async fn make_process(
        &self,
        n: usize,
        s: u32,
        inc: u64,
        node: &RaftNode,
        backend: Option<&sorock::backends::redb::Backend>,
    ) -> anyhow::Result<RaftProcess> {
        let gen = self.w.lock().nodes[n].disks[&s].gen;
        let h = Handle {
            w: self.w.clone(),
            node: n,
            shard: s,
            inc,
            gen,
        };
        let (l, b): (Option<DynLog>, Option<DynBallot>) = match backend {
            Some(x) => {
                let (l, b) = x.get(s)?;
                (Some(Box::new(l)), Some(Box::new(b)))
            }
            None => (None, None),
        };
        RaftProcess::new(
            MonApp::new(h.clone()),
            SimLog::new(h.clone(), l),
            SimBallot { h, inner: b },
            node.get_driver(s),
        )
        .await
    }
    /// The node loses everything but its disk, at once.
    pub fn crash(&self, n: usize) {
        let rt = {
            let mut i = self.w.lock();
            if !i.nodes[n].up {
                return;
            }
            i.nodes[n].up = false;
            i.nodes[n].inc += 1;
            i.nodes[n].incoming = None;
            i.nodes[n].stalled.clear();
            i.shape("crashes", n as u64, 0);
            crate::tr!(i, "crash n{n}");
            drop(i);
            self.rts.lock().unwrap()[n].take()
        };
        self.w.reset_conns(|a, b| a == n || b == n);
        if let Some(rt) = rt {
            rt.server.abort();
            drop(rt);
        }
    }
    pub fn detach(&self, n: usize, s: u32) {
        {
            let mut i = self.w.lock();
            i.disk(n, s).detached_at = Some(now_ms());
            i.shape("detaches", n as u64, s as u64);
            crate::tr!(i, "detach shard {s} n{n}");
        }
        let g = self.rts.lock().unwrap();
        if let Some(rt) = &g[n] {
            rt.node.detach_process(s);
        }
    }
    /// All handles of the node go away, while the machine stays up: nothing but the drop stops it.
    pub fn drop_node(&self, n: usize) {
        let rt = {
            let mut i = self.w.lock();
            for d in i.nodes[n].disks.values_mut() {
                d.detached_at = Some(now_ms());
            }
            i.nodes[n].incoming = None;
            i.nodes[n].dropped = true;
            i.shape("node_drops", n as u64, 0);
            crate::tr!(i, "drop n{n}");
            drop(i);
            self.rts.lock().unwrap()[n].take()
        };
        if let Some(rt) = rt {
            rt.server.abort();
            drop(rt);
        }
        // Connections hold the service and with it the node.
        self.w.reset_conns(|_, b| b == n);
    }
    /// Ends the state that `drop_node` started, so that the node can be started anew.
    pub fn end_drop(&self, n: usize) {
        let mut i = self.w.lock();
        i.nodes[n].up = false;
        i.nodes[n].dropped = false;
    }
    pub async fn attach(&self, n: usize, s: u32) -> anyhow::Result<()> {
        let (node, inc) = {
            let mut i = self.w.lock();
            let d = i.disk(n, s);
            d.gen += 1;
            d.detached_at = None;
            crate::tr!(i, "attach shard {s} n{n}");
            let inc = i.nodes[n].inc;
            let g = self.rts.lock().unwrap();
            match &g[n] {
                Some(rt) => (rt.node.clone(), inc),
                None => anyhow::bail!("down"),
            }
        };
        let p = self.make_process(n, s, inc, &node, None).await?;
        node.attach_process(s, p);
        Ok(())
    }
    pub fn chan(&self, client: usize, n: usize) -> Channel {
        self.chans
            .lock()
            .unwrap()
            .entry((client, n))
            .or_insert_with(|| net::client_channel(&self.w, client, n))
            .clone()
    }
    fn cli(&self, client: usize, n: usize) -> RaftClient {
        RaftClient::new(self.chan(client, n))
    }
    pub async fn raw_write(
        &self,
        client: usize,
        n: usize,
        shard: u32,
        msg: bytes::Bytes,
        req_id: String,
        timeout: u64,
    ) -> Result<bytes::Bytes, String> {
        let mut c = self.cli(client, n);
        let req = WriteRequest {
            shard_id: shard,
            message: msg,
            request_id: req_id,
        };
        match tokio::time::timeout(ms(timeout), c.write(req)).await {
            Err(_) => Err("timeout".into()),
            Ok(Err(e)) => Err(format!("{:?}: {}", e.code(), e.message())),
            Ok(Ok(r)) => Ok(r.into_inner().message),
        }
    }
    /// One attempt of a write; the history keeps the first call and the first success.
    pub async fn write(
        &self,
        client: usize,
        n: usize,
        shard: u32,
        op: u64,
        timeout: u64,
    ) -> Result<Resp, String> {
        self.write_as(client, n, shard, op, request_id(op), timeout)
            .await
    }
    pub async fn write_as(
        &self,
        client: usize,
        n: usize,
        shard: u32,
        op: u64,
        req: String,
        timeout: u64,
    ) -> Result<Resp, String> {
        self.w.lock().op_call(shard, op, true, n);
        let pad = if op % 16 == 0 {
            (op * 37 % 3000) as usize
        } else {
            (op % 8) as usize
        };
        let r = self
            .raw_write(client, n, shard, app::message(shard, op, pad), req, timeout)
            .await;
        let mut i = self.w.lock();
        match r {
            Ok(b) => match bincode::deserialize::<Resp>(&b) {
                Ok(r) => {
                    i.write_ok(shard, op, r);
                    Ok(r)
                }
                Err(_) => {
                    i.viol(
                        &["C03"],
                        "garbled-response",
                        format!("shard {shard} op {op}: response of {} bytes", b.len()),
                    );
                    Err("garbled".into())
                }
            },
            Err(e) => {
                i.op_fail(shard, op, &e);
                Err(e)
            }
        }
    }
    pub async fn read(
        &self,
        client: usize,
        n: usize,
        shard: u32,
        timeout: u64,
    ) -> Result<Resp, String> {
        let op = self.op_id() | (1 << 40);
        self.w.lock().op_call(shard, op, false, n);
        let mut c = self.cli(client, n);
        let req = ReadRequest {
            shard_id: shard,
            message: app::message(shard, op, 0),
        };
        let r = match tokio::time::timeout(ms(timeout), c.read(req)).await {
            Err(_) => Err("timeout".to_string()),
            Ok(Err(e)) => Err(format!("{:?}: {}", e.code(), e.message())),
            Ok(Ok(r)) => Ok(r.into_inner().message),
        };
        let mut i = self.w.lock();
        match r {
            Ok(b) => match bincode::deserialize::<Resp>(&b) {
                Ok(r) => {
                    i.read_ok(shard, op, r);
                    Ok(r)
                }
                Err(_) => {
                    i.viol(
                        &["C03"],
                        "garbled-response",
                        format!("shard {shard} read {op}: response of {} bytes", b.len()),
                    );
                    Err("garbled".into())
                }
            },
            Err(e) => {
                i.op_fail(shard, op, &e);
                Err(e)
            }
        }
    }
    pub async fn change(
        &self,
        client: usize,
        via: usize,
        shard: u32,
        add: bool,
        server: usize,
        timeout: u64,
    ) -> Result<(), String> {
        let k = {
            let mut i = self.w.lock();
            let q = i.next_seq();
            i.stat("membership_requests");
            crate::tr!(
                i,
                "{} n{server} shard {shard} via n{via}",
                if add { "AddServer" } else { "RemoveServer" }
            );
            let m = i.shards.get_mut(&shard).unwrap();
            m.mems.push(MemRec {
                add,
                server,
                call: q,
                ret: None,
                ok: false,
            });
            m.mems.len() - 1
        };
        let mut c = self.cli(client, via);
        let id = wire::uri(server);
        let r = if add {
            let f = c.add_server(AddServerRequest {
                shard_id: shard,
                server_id: id,
            });
            tokio::time::timeout(ms(timeout), f).await
        } else {
            let f = c.remove_server(RemoveServerRequest {
                shard_id: shard,
                server_id: id,
            });
            tokio::time::timeout(ms(timeout), f).await
        };
        let r = match r {
            Err(_) => Err("timeout".to_string()),
            Ok(Err(e)) => Err(format!("{:?}: {}", e.code(), e.message())),
            Ok(Ok(_)) => Ok(()),
        };
        let mut i = self.w.lock();
        let q = i.next_seq();
        crate::tr!(i, "membership answer {r:?}");
        if r.is_ok() {
            i.stat("membership_oks");
        }
        let m = &mut i.shards.get_mut(&shard).unwrap().mems[k];
        m.ret = Some(q);
        m.ok = r.is_ok();
        r
    }
    pub async fn timeout_now(&self, client: usize, n: usize, shard: u32) -> Result<(), String> {
        self.timeout_now_for(client, n, shard, 5000).await
    }
    pub async fn timeout_now_for(
        &self,
        client: usize,
        n: usize,
        shard: u32,
        timeout: u64,
    ) -> Result<(), String> {
        let mut c = self.cli(client, n);
        match tokio::time::timeout(
            ms(timeout),
            c.send_timeout_now(TimeoutNow { shard_id: shard }),
        )
        .await
        {
            Err(_) => Err("timeout".into()),
            Ok(Err(e)) => Err(e.to_string()),
            Ok(Ok(_)) => Ok(()),
        }
    }
    /// Form a cluster of `members` for one shard; the first one bootstraps.
    pub async fn form(self: &Arc<Self>, shard: u32, members: &[usize]) -> bool {
        let a = members[0];
        for (k, m) in members.iter().enumerate() {
            let mut ok = false;
            for _ in 0..60 {
                if self.change(0, a, shard, true, *m, 5000).await.is_ok() {
                    ok = true;
                    break;
                }
                sleep(300).await;
            }
            if !ok {
                return false;
            }
            if k == 0 {
                sleep(100).await;
            }
        }
        true
    }
    /// The node that most recently heartbeats with the highest term, if fresh.
    pub fn leader(&self, shard: u32, fresh_ms: u64) -> Option<(usize, u64)> {
        let i = self.w.lock();
        let now = now_ms();
        let m = &i.shards[&shard];
        m.last_hb
            .iter()
            .filter(|(n, (t, _))| i.nodes[**n].up && now.saturating_sub(*t) <= fresh_ms)
            .map(|(n, (_, t))| (*n, *t))
            .max_by_key(|x| x.1)
    }
    /// The node leading the highest known term, if it is up and still at that term.
    pub fn term_leader(&self, shard: u32) -> Option<(usize, u64)> {
        let i = self.w.lock();
        let (t, n) = i.shards[&shard]
            .leaders
            .iter()
            .next_back()
            .map(|(t, n)| (*t, *n))?;
        (i.nodes[n].up && i.nodes[n].disks[&shard].term == t).then_some((n, t))
    }
    pub fn members(&self, shard: u32, n: usize) -> Vec<usize> {
        let i = self.w.lock();
        let c = i.nodes[n].disks[&shard]
            .newest_config()
            .map(|x| x.1)
            .unwrap_or_default();
        c.iter().filter_map(|x| i.uris.get(x).copied()).collect()
    }
}
