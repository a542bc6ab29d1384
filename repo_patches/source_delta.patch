From e9ea0659e239865aa709ffd0780dee0480182c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 01/27] hook: let a harness supply node-to-node channels (cfg
 sorock_verif)

---
 sorock/src/communicator/mod.rs |  3 +++
 sorock/src/lib.rs              |  2 ++
 sorock/src/verif.rs            | 21 +++++++++++++++++++++
 3 files changed, 26 insertions(+)
 create mode 100644 sorock/src/verif.rs

diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index cce561c..0ef5198 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -31,7 +31,10 @@ impl RaftConnection {
                 // (http2) Send ping even if there is no active streams (default: disabled)
                 .keep_alive_while_idle(true);
 
+            #[cfg(not(sorock_verif))]
             let chan = endpoint.connect_lazy();
+            #[cfg(sorock_verif)]
+            let chan = crate::verif::connect(&self_node_id.0, &dest_node_id.0, endpoint);
             raft::RaftClient::new(chan)
         };
 
diff --git a/sorock/src/lib.rs b/sorock/src/lib.rs
index f91246b..332f1f1 100644
--- a/sorock/src/lib.rs
+++ b/sorock/src/lib.rs
@@ -20,6 +20,8 @@ use std::sync::Arc;
 use std::time::Duration;
 use tonic::transport::Uri;
 pub mod reflection_service;
+#[cfg(sorock_verif)]
+pub mod verif;
 
 mod generated {
     pub mod sorock;
diff --git a/sorock/src/verif.rs b/sorock/src/verif.rs
new file mode 100644
index 0000000..9a879f5
--- /dev/null
+++ b/sorock/src/verif.rs
@@ -0,0 +1,21 @@
+//! Hook for the verification harness. Compiled only with `--cfg sorock_verif`.
+
+use tonic::transport::{Channel, Endpoint, Uri};
+
+/// Makes the channel that node `src` uses to talk to node `dest`.
+/// Returning None falls back to a normal connection over the network.
+pub type Connector = dyn Fn(&Uri, &Uri, &Endpoint) -> Option<Channel> + Send + Sync;
+
+static CONNECTOR: std::sync::OnceLock<Box<Connector>> = std::sync::OnceLock::new();
+
+/// Install the connector. Only the first call has an effect.
+pub fn set_connector(f: Box<Connector>) {
+    CONNECTOR.set(f).ok();
+}
+
+pub(crate) fn connect(src: &Uri, dest: &Uri, endpoint: Endpoint) -> Channel {
+    CONNECTOR
+        .get()
+        .and_then(|f| f(src, dest, &endpoint))
+        .unwrap_or_else(|| endpoint.connect_lazy())
+}
-- 
2.43.0


From 106b170459e071a87f4304a9d82d51581f8d68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 02/27] fix: redb log store returned prev_clock's term as
 this_clock's term

---
 sorock/src/backends/redb/log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index 84b4ae8..e8b197e 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -31,7 +31,7 @@ mod value {
             },
             this_clock: Clock {
                 index: x.cur_index,
-                term: x.prev_term,
+                term: x.cur_term,
             },
             command: x.command,
         }
-- 
2.43.0


From ea6acbd986735f710e225934c2e8062e935616ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 03/27] fix: remove the conflicting suffix when a follower's
 entry is overwritten

---
 sorock/src/backends/redb/log.rs            | 10 ++++++++++
 sorock/src/process/command_log/producer.rs |  4 ++++
 sorock/src/process/mod.rs                  |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index e8b197e..f7c2ad3 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -142,6 +142,16 @@ impl RaftLogStore for LogStore {
         Ok(())
     }
 
+    async fn delete_entries_after(&self, i: Index) -> Result<()> {
+        let tx = self.db.begin_write()?;
+        {
+            let mut tbl = tx.open_table(table_def(&self.space))?;
+            tbl.retain_in(i + 1.., |_, _| false)?;
+        }
+        tx.commit()?;
+        Ok(())
+    }
+
     async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
         let tx = self.db.begin_read()?;
         let tbl = tx.open_table(table_def(&self.space))?;
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index f8b5d9e..3f5e02a 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -123,6 +123,10 @@ impl CommandLog {
                         // then the entry should be the same so to skip insertion.
                         return Ok(TryInsertResult::SkippedInsertion);
                     }
+
+                    // If there is a entry with a different clock
+                    // then the entry and all that follow it conflict with the leader's log.
+                    self.storage.delete_entries_after(prev_index).await?;
                 }
 
                 self.insert_entry(entry).await?;
diff --git a/sorock/src/process/mod.rs b/sorock/src/process/mod.rs
index 47f897e..8de601b 100644
--- a/sorock/src/process/mod.rs
+++ b/sorock/src/process/mod.rs
@@ -129,6 +129,9 @@ pub trait RaftLogStore: Sync + Send + 'static {
     /// Delete all the entries in `[, i)` from the log.
     async fn delete_entries_before(&self, i: Index) -> Result<()>;
 
+    /// Delete all the entries in `(i, ]` from the log.
+    async fn delete_entries_after(&self, i: Index) -> Result<()>;
+
     /// Get the entry at index `i` from the log.
     async fn get_entry(&self, i: Index) -> Result<Option<Entry>>;
 
-- 
2.43.0


From ef60fa94c41a4ab5f7685c796c88baac07cb5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 04/27] fix: carry the leader's term in replication streams

Entries were accepted from any sender at any time, so a deposed leader could
overwrite entries the current leader had replicated. The follower now accepts
entries only from the leader of its current term.
---
 sorock/proto/sorock.proto                  |   1 +
 sorock/src/communicator/stream.rs          |   1 +
 sorock/src/error.rs                        |   2 +
 sorock/src/generated/sorock.rs             |   2 +
 sorock/src/generated/sorock_descriptor.bin | Bin 8671 -> 8760 bytes
 sorock/src/process/api.rs                  |   2 +
 sorock/src/process/command_log/producer.rs |  56 +++++++++++++--------
 sorock/src/process/peer_svc/replication.rs |  21 +++++---
 sorock/src/process/raft_process/queue.rs   |  22 ++++++--
 sorock/src/process/thread/replication.rs   |   7 ++-
 sorock/src/process/voter/heartbeat.rs      |  52 ++++++++++++++-----
 sorock/src/process/voter/mod.rs            |  12 +++++
 sorock/src/raft_service/stream.rs          |   7 ++-
 13 files changed, 136 insertions(+), 49 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index e42daf5..9be3e83 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -41,6 +41,7 @@ message ReplicationStreamHeader {
   uint32 shard_id = 1;
   string sender_id = 2;
   Clock prev_clock = 3;
+  uint64 leader_term = 4;
 }
 message ReplicationStreamEntry {
   Clock clock = 1;
diff --git a/sorock/src/communicator/stream.rs b/sorock/src/communicator/stream.rs
index a61c01b..b06c0ab 100644
--- a/sorock/src/communicator/stream.rs
+++ b/sorock/src/communicator/stream.rs
@@ -12,6 +12,7 @@ pub fn into_external_replication_stream(
             term: st.prev_clock.term,
             index: st.prev_clock.index,
         }),
+        leader_term: st.leader_term,
     }))];
     let header_stream = futures::stream::iter(header_stream);
 
diff --git a/sorock/src/error.rs b/sorock/src/error.rs
index 471c620..949ab04 100644
--- a/sorock/src/error.rs
+++ b/sorock/src/error.rs
@@ -13,6 +13,8 @@ pub enum Error {
     EntryNotFound(u64),
     #[error("leader is unknown")]
     LeaderUnknown,
+    #[error("leader (node_id={0}, term={1}) is stale")]
+    StaleLeader(NodeId, process::Term),
     #[error("peer (node_id={0}) not found")]
     PeerNotFound(NodeId),
     #[error("process not found (shard_id={0})")]
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 63a6cb2..0660313 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -50,6 +50,8 @@ pub struct ReplicationStreamHeader {
     pub sender_id: ::prost::alloc::string::String,
     #[prost(message, optional, tag = "3")]
     pub prev_clock: ::core::option::Option<Clock>,
+    #[prost(uint64, tag = "4")]
+    pub leader_term: u64,
 }
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ReplicationStreamEntry {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index e2263d1a4e5519783433ef330325ad06bc320eb1..b00a6e2f67bd0b5547da3bcfc2d47a54c9d06d4e 100644
GIT binary patch
delta 2578
zcmX|D*-jis6s@kV>8|b`mMK;PHVmr~t66Lo8Em#;vrJ-$A(Fv~nJAL6*f+oQL!|rw
zKaiK?IT9~Xo}&DSKO#~dqnulHd*0^MJ?GS^?e=_G{A20&-Y}hwqgd)5<9CYLSjV0=
zewSFbgNgg;2D`<e9rTP(Kiy!D7_fs7(N8znD?069Y<&9Z2Kz+O4t5)#e!9WOqW%8Y
zaNm>nWB0k})|0<@cWIm!O?#XimA^YIpB-G3&ptJ)4)3x0I(9?b7`gv1{xOVxYmWn?
zg!p`aY<^bW;N8EC_h}L<m6N{l2jqh|ALj_<2<Z%A1p`rihKSkJ9LKR#FdGu19)9~O
z0BcA;ipegJ!uZ3|SP4KtD9jLu!@4R%Dg1_O3#>zJM7pU0=^@5QMdwjX*RalmY{b;r
z7@<*5#8Vd|1nUW6<Pjs(!l*Gh>01pDYGXQYrwS?Jxax~jS~3taj;mJ3l*Alw>&y`5
z8t>_49ZD0bhf5x06RIUcRBP?X5M&cw-8P~&YD&zyh#IUZU9@&urpPfZo2^DmfhAA#
z&I5rt9o1zu_)Rx9u@0pf*~TT>shNt5c4{VS%4(3!w6xk7kx|dZ3l}2->$z@8tzSgj
zF((_X1^|9@><0wqTvW(v@SCe|U>QpD(j|=Sfz4NB6k|TBW*HsWe8Jclu~7?R$;C)x
z&=$1wiz&vUbW;H!#v)$;AP^UEd~{$y@LQ~@wSI|FE8>;&OTb#ubv9l?b|qdF0PIQ}
z4+z9kR7kBKApA<atVE)=D%}nOK(|`a(Xv(}cehc4Y_*}0r<2BClkPSoQbM*?k&)$E
z)WEaRds}OM09mS3LTH^2699K=omUM6-MY@A_{79v(kn}(GX6$obqdpM$bctMkZpu+
zBSD00qp~;<H~EnzGR;|->2lC*hVGRmG6&rzzp}hhuf<nxlk;G`*7Y_<o;G=lZ!iGt
zwm1e5h+Cn%A3(6%!VRY0QDxK{@r@U!)I6#{d!uPPl&T`XZSF+?@Z08H1OjoJdl3-)
zw$Y2645b}ewCk_3XSP$3(V6W;?zNx>*-m?hjZvK%^;UfAmQ@YfTkU#LHO1KFI{<(f
zyX*%9;x69-Ao%U_9jK;r-jg#n1^~`-Pr8l(M782%R)cJBDnA{sVmoS#dMDoB{nNIZ
zzSC|+HI!hV&ldm*_BjC%toHd$0>NsZ&$osW9B^;|$POwpN^rozQG@IN!CxUjtx+Gu
z4_?d5yFVYUrysPtW3`mwkTU?l?2yfXV0OqEfM9mW8EPp*nKJ-DR<6h>Lzy$623Z*y
z{`L@}VAMzP$!od$>Cs>5M{VrM7AV6JX8?fN5t{+Q?1(b}!R!bbaKQrf{$ugk9&A9Y
zW7qiuL3Sr{h)#h3N+&^*A-v#|yzRy*72$W%H9#?dz&w=$%%oME262X<J56l+BqC&|
z#eSBdbS6toB$KniP5`2$T8sUd5Q6M%beU!JVLX@5SVwK(Jh1N>Odq=QI{M1d5~wMh
z_fN78P2oZ=a*5i&MPQ#Zhzhccf_)-{AiEfR$ujKfrCehfb%FFUuuTrk9CVlUeOVE@
z%drycaKW$SdoIzRfUCfMMIj5|dG)X>tHI=|+dd4c!Q^UrpG`vJU&|FH(kJ{naE%$v
z5W4HSY>z_BcRl(vqr&C-*%G_pPt}cl!6o|2-UPPuz(m93rXkxf4cSfq9Lpl(-^vA+
i(O2;{pno7m+S&-Z+eZ6-2|;%|@Z$U6<m~w3c>I68o4u(3

delta 2487
zcmX|D*-jis6s@kV>8`FGmZ@R$*v9M*0vwhQz%j&tVFqwaWQZY>ArTNMGLeUUdFnjn
zJ>nbk9*LJcM)`~=Qa&NSkaMeU&)b~3=bSpV-JU;Q{k#18P@Jup#7LdmuurTQZ31n>
zelh9>1OL+x4u}yqh&uiBgM*^a4H_HLPd_*$dfniF4e6&Jd@8<hgM&7tpMLNY@#Oxu
zct4PTPuv%h+aSp9em2>CPx@n={MT(FtAx0{|JDAYf|0wf&il+5sW3V!J`Id9p^6Z3
zRCk-yC>2Rz!!c=1(G&<ogyI~5IHsF&6auxDSccLw*~X=yKq!|5RMRbaErafvEn{k_
zVyni*w2u*kHjWrY#E7-9YC?V%IuQ_R6T0Z;iYelxdg@Cq;-q?*BM>Ja_2mdtO%4vR
z45cYGXfj$_ECVcUN>!Li8K)lh<OsT{{s9+JTQwt|`-mE>8QtsrG{u;eT}}dkCC^Ho
zBM@hka*kj(+tJCg47EA=h-<V}a}6EEm`ghI8gz4&hb~59)eG^ZkCA}&LRXw$LNVrL
zhm!!nZl3LcK%7rXc@1{+ZS5KBP+O2bVj?NVLPJL}7LsPx1<);&tczi+S`^DZh5>6)
zw>vvSF_xsC3IKLXd;x$!T*B$m#v7Rl_${@xI=|Ga74h2prJ$|ovhz#HZ<Ut?0KZj^
z2L$3OFAE5Et8G3;Dp9IRzkvXdRU0x|RW-4h%Yh<v)%FgaPTH_0{cT94gs#@mk!LMw
zXPJbo*7bm80Bd}fsSI(Y)_B!Gkge%FN=QtcWoj~|QmJgX-dLT&bn7zW2^4hevENA$
zp<8dP4#W+9WvMJUl*<Z`ZN&bSp$6FoKeD1#Z^YMrkBfoL!Z*6j#V^t(Z}JrefZry^
z0D|9U?C%E<{5Elg>CrY>^;Uf2{hGjftNm^?k=>Sj;MM^EyDi>CAP~0_Y7kjL0m5&q
zv&+S3q7B}by{w}{+ivLS(6$r*T0n$s`$><B(QMT_@vV>14AwjCdr>pR*x@?>0J|Nw
z0}AYRxRdz)1_-|$z5~q^V^=<RF#vFwyV7?AAgc9F=QYT7XXi`}yU}9Rd-2`f>&Lb1
zz4i-gp#*z;yZ}hB#|ePow8xhh2u^!^ye$-9pMwKHw%?FZfPK!58f5#({S^YVT6G|P
z2r7$r<?i+DK+_#ls+BSvas~jH9kLk^%nmsN5X=raLn~!C;tT+g9W`W>;fOP!2H6oZ
z{1qTX$*K?Hr=W88PxqhM2W?%35@k5%3;-}YW-}m|9diaCm>nYn?pK7?|54n!gN=yw
z(Kr4`kX>Dl(IF5(sUD>{!UL`sT{q6C2)}y&2*m&b^F)p?lU8vOnH)iPlDhUuM95Bh
zhgpWwsjM=QOim*=0f>@nmBG9Q+3ENS%jg4lCTF-tZQv|&&l$Q9y0bEU<Y)=h6wZdH
zS%;o*E|<APUEn-&&lyAo*?Gym5JHfhk1nzdyLutlSVmnSyNKNV2D1R&MVtFn5`ykx
zvdTK#?@ReT>*zngW#qo1AV%=KeB7VcU~)O&-UZcQa=Eh4Cb12#<SG;C3w{-qT!RHO
zhVH7I?@^5TuEsylsc^ZPdBraHJ9I5ya)~~&*O6;HFwro%ZqGMNLv}s9z_P@KH*$$(
h^ijNtsKNBo)+W&1bhzhB2)dh*mj}_wS^c6u^*=x8u7Cgl

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index dcd70f4..0b58cc4 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -46,6 +46,8 @@ pub mod request {
 
     pub struct ReplicationStream {
         pub sender_id: NodeId,
+        /// The term of the leader who sends this stream.
+        pub leader_term: Term,
         pub prev_clock: Clock,
         pub entries: std::pin::Pin<
             Box<dyn futures::stream::Stream<Item = Option<ReplicationStreamElem>> + Send>,
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 3f5e02a..d3610fb 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -43,12 +43,44 @@ impl CommandLog {
         Ok(append_index)
     }
 
-    pub async fn try_insert_entry(
+    /// If the entry is snapshot then fetch the corresponding app snapshot before inserting the entry.
+    pub async fn prepare_snapshot(
         &self,
-        entry: Entry,
+        entry: &Entry,
         sender_id: NodeId,
         driver: RaftDriver,
-    ) -> Result<TryInsertResult> {
+    ) -> Result<()> {
+        if !std::matches!(
+            Command::deserialize(&entry.command),
+            Command::Snapshot { .. }
+        ) {
+            return Ok(());
+        }
+
+        let snapshot_index = entry.this_clock.index;
+        warn!(
+            "log is too old. replicated a snapshot (idx={}) from leader",
+            snapshot_index
+        );
+
+        // Invariant: snapshot entry exists => snapshot exists
+        if let Err(e) = self
+            .app
+            .fetch_snapshot(snapshot_index, sender_id.clone(), driver)
+            .await
+        {
+            error!(
+                "could not fetch app snapshot (idx={}) from sender {}",
+                snapshot_index, sender_id,
+            );
+            return Err(e);
+        }
+        Ok(())
+    }
+
+    pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
+        let _g = self.append_lock.lock().await;
+
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
         match Command::deserialize(&entry.command) {
@@ -57,24 +89,6 @@ impl CommandLog {
                     term: _,
                     index: snapshot_index,
                 } = entry.this_clock;
-                warn!(
-                    "log is too old. replicated a snapshot (idx={}) from leader",
-                    snapshot_index
-                );
-
-                // Invariant: snapshot entry exists => snapshot exists
-                if let Err(e) = self
-                    .app
-                    .fetch_snapshot(snapshot_index, sender_id.clone(), driver)
-                    .await
-                {
-                    error!(
-                        "could not fetch app snapshot (idx={}) from sender {}",
-                        snapshot_index, sender_id,
-                    );
-                    return Err(e);
-                }
-
                 self.insert_snapshot(entry).await?;
 
                 self.commit_pointer
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 38a24bf..acd27d6 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -4,21 +4,28 @@ impl PeerSvc {
     /// Prepare a replication stream from the log entries `[l, r)`.
     async fn prepare_replication_stream(
         selfid: NodeId,
+        leader_term: Term,
         command_log: Ref<CommandLog>,
         l: Index,
         r: Index,
     ) -> Result<request::ReplicationStream> {
         let head = command_log.get_entry(l).await?;
+        let mut prev_clock = head.prev_clock;
 
         let st = async_stream::stream! {
             for idx in l..r {
                 let x = command_log.get_entry(idx).await;
                 let e = match x {
-                    Ok(x) => Some(request::ReplicationStreamElem {
-                        this_clock: x.this_clock,
-                        command: x.command,
-                    }),
-                    Err(_) => None,
+                    // The log may be overwritten by a newer leader during the streaming.
+                    // The entries in the stream should form a single chain.
+                    Ok(x) if x.prev_clock == prev_clock => {
+                        prev_clock = x.this_clock;
+                        Some(request::ReplicationStreamElem {
+                            this_clock: x.this_clock,
+                            command: x.command,
+                        })
+                    }
+                    _ => None,
                 };
                 yield e;
             }
@@ -26,12 +33,13 @@ impl PeerSvc {
 
         Ok(request::ReplicationStream {
             sender_id: selfid,
+            leader_term,
             prev_clock: head.prev_clock,
             entries: Box::pin(st),
         })
     }
 
-    pub async fn advance_replication(&self, follower_id: NodeId) -> Result<()> {
+    pub async fn advance_replication(&self, follower_id: NodeId, leader_term: Term) -> Result<()> {
         let peer_context = self
             .peer_contexts
             .read()
@@ -68,6 +76,7 @@ impl PeerSvc {
 
         let out_stream = Self::prepare_replication_stream(
             self.driver.self_node_id(),
+            leader_term,
             self.command_log.clone(),
             old_progress.next_index,
             old_progress.next_index + n,
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 47f2a29..e2005e3 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -39,11 +39,23 @@ impl RaftProcess {
             };
             let insert_index = entry.this_clock.index;
             let command = entry.command.clone();
-            match self
-                .command_log
-                .try_insert_entry(entry, req.sender_id.clone(), self.driver.clone())
-                .await?
-            {
+
+            // A leader doesn't have entries of newer terms.
+            ensure!(
+                entry.this_clock.term <= req.leader_term,
+                Error::BadReplicationStream
+            );
+
+            self.command_log
+                .prepare_snapshot(&entry, req.sender_id.clone(), self.driver.clone())
+                .await?;
+
+            let _lk = self
+                .voter
+                .lock_for_replication(req.sender_id.clone(), req.leader_term)
+                .await?;
+
+            match self.command_log.try_insert_entry(entry).await? {
                 command_log::TryInsertResult::Inserted => {
                     self.process_configuration_command(&command, insert_index)
                         .await?
diff --git a/sorock/src/process/thread/replication.rs b/sorock/src/process/thread/replication.rs
index e29307d..3a0c7fc 100644
--- a/sorock/src/process/thread/replication.rs
+++ b/sorock/src/process/thread/replication.rs
@@ -10,13 +10,12 @@ pub struct Thread {
 }
 impl Thread {
     async fn advance_once(&self) -> Result<bool> {
-        let election_state = self.voter.read_election_state();
-        if !std::matches!(election_state, voter::ElectionState::Leader) {
+        let Some(leader_term) = self.voter.read_leader_term().await? else {
             return Ok(false);
-        }
+        };
 
         self.peers
-            .advance_replication(self.follower_id.clone())
+            .advance_replication(self.follower_id.clone(), leader_term)
             .await?;
 
         Ok(true)
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 9d7ddaf..f1f0776 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -9,17 +9,34 @@ impl Voter {
     ) -> Result<()> {
         let _lk = self.vote_lock.lock().await;
 
-        let mut ballot = self.read_ballot().await?;
-        if leader_term < ballot.cur_term {
+        if !self.accept_leader(leader_id.clone(), leader_term).await? {
             warn!("heartbeat is stale. rejected");
             return Ok(());
         }
 
-        self.leader_failure_detector
-            .receive_heartbeat(leader_id.clone());
+        self.leader_failure_detector.receive_heartbeat(leader_id);
+
+        let new_commit_index =
+            std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
+        self.command_log
+            .commit_pointer
+            .store(new_commit_index, Ordering::SeqCst);
+
+        Ok(())
+    }
+
+    /// Follow the leader unless the leader is stale.
+    /// The caller should own the `vote_lock`.
+    async fn accept_leader(&self, leader_id: NodeId, leader_term: Term) -> Result<bool> {
+        let mut ballot = self.read_ballot().await?;
+        if leader_term < ballot.cur_term {
+            return Ok(false);
+        }
+
+        let old_ballot = ballot.clone();
 
         if leader_term > ballot.cur_term {
-            warn!("received heartbeat with newer term. reset ballot");
+            warn!("received message with newer term. reset ballot");
             ballot.cur_term = leader_term;
             ballot.voted_for = None;
             self.write_election_state(ElectionState::Follower);
@@ -30,15 +47,26 @@ impl Voter {
             ballot.voted_for = Some(leader_id);
         }
 
-        self.write_ballot(ballot).await?;
+        if ballot != old_ballot {
+            self.write_ballot(ballot).await?;
+        }
 
-        let new_commit_index =
-            std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
-        self.command_log
-            .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+        Ok(true)
+    }
 
-        Ok(())
+    /// Entries are inserted into the log only while the sender is the leader of the current term.
+    /// While the returned lock is alive, this node doesn't move to a newer term.
+    pub async fn lock_for_replication(
+        &self,
+        leader_id: NodeId,
+        leader_term: Term,
+    ) -> Result<tokio::sync::MutexGuard<'_, ()>> {
+        let lk = self.vote_lock.lock().await;
+        ensure!(
+            self.accept_leader(leader_id.clone(), leader_term).await?,
+            Error::StaleLeader(leader_id, leader_term)
+        );
+        Ok(lk)
     }
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 34c4a21..b8a5450 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -62,6 +62,18 @@ impl Voter {
         *self.state.lock() = e;
     }
 
+    /// Returns the term which this node is leading.
+    /// Returns None if this node isn't a leader.
+    pub async fn read_leader_term(&self) -> Result<Option<Term>> {
+        // The election state and the ballot should be read consistently.
+        let _lk = self.vote_lock.lock().await;
+        if !std::matches!(self.read_election_state(), ElectionState::Leader) {
+            return Ok(None);
+        }
+        let ballot = self.read_ballot().await?;
+        Ok(Some(ballot.cur_term))
+    }
+
     pub async fn read_ballot(&self) -> Result<Ballot> {
         self.ballot.load_ballot().await
     }
diff --git a/sorock/src/raft_service/stream.rs b/sorock/src/raft_service/stream.rs
index 5ff4e0b..3804644 100644
--- a/sorock/src/raft_service/stream.rs
+++ b/sorock/src/raft_service/stream.rs
@@ -6,12 +6,15 @@ pub async fn into_internal_replication_stream(
     use raft::replication_stream_chunk::Elem as ChunkElem;
 
     // Get the header of the stream
-    let (shard_id, sender_id, prev_clock) = if let Some(Ok(chunk)) = out_stream.next().await {
+    let (shard_id, sender_id, prev_clock, leader_term) = if let Some(Ok(chunk)) =
+        out_stream.next().await
+    {
         let e = chunk.elem.context(Error::BadReplicationStream)?;
         if let ChunkElem::Header(raft::ReplicationStreamHeader {
             shard_id,
             sender_id,
             prev_clock: Some(prev_clock),
+            leader_term,
         }) = e
         {
             (
@@ -21,6 +24,7 @@ pub async fn into_internal_replication_stream(
                     term: prev_clock.term,
                     index: prev_clock.index,
                 },
+                leader_term,
             )
         } else {
             bail!(Error::BadReplicationStream)
@@ -49,6 +53,7 @@ pub async fn into_internal_replication_stream(
 
     let st = request::ReplicationStream {
         sender_id: sender_id.parse().unwrap(),
+        leader_term,
         prev_clock,
         entries: Box::pin(entries),
     };
-- 
2.43.0


From 20a6b48b2e2244e0e133daf88988cc4fa6330bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 05/27] fix: a follower committed entries which conflict with
 the leader's log

The commit index was taken from the heartbeat as long as the log was long
enough, even if the tail of the log was left by an older leader, and it could
move backward.
---
 sorock/src/process/voter/heartbeat.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index f1f0776..686adae 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -16,11 +16,18 @@ impl Voter {
 
         self.leader_failure_detector.receive_heartbeat(leader_id);
 
-        let new_commit_index =
-            std::cmp::min(leader_commit, self.command_log.get_log_last_index().await?);
-        self.command_log
-            .commit_pointer
-            .store(new_commit_index, Ordering::SeqCst);
+        // Entries of older terms may conflict with the leader's log.
+        // If the last entry is in the leader's term then the log is a prefix of the leader's log.
+        let last_log_index = self.command_log.get_log_last_index().await?;
+        if last_log_index > 0 {
+            let last_log_clock = self.command_log.get_entry(last_log_index).await?.this_clock;
+            if last_log_clock.term == leader_term {
+                let new_commit_index = std::cmp::min(leader_commit, last_log_index);
+                self.command_log
+                    .commit_pointer
+                    .fetch_max(new_commit_index, Ordering::SeqCst);
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From abf985e0fe244ee127a713bca628f03e3a87650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 06/27] fix: a leader committed entries of older terms by
 counting replicas

Such an entry can still be overwritten by a node with a newer last term
($5.4.2 in the Raft paper). Also a candidate which hears from the leader of its
term goes back to follower.
---
 sorock/src/process/thread/advance_commit.rs | 18 +++++++++++++++---
 sorock/src/process/voter/heartbeat.rs       |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sorock/src/process/thread/advance_commit.rs b/sorock/src/process/thread/advance_commit.rs
index 6d078cb..8c2e668 100644
--- a/sorock/src/process/thread/advance_commit.rs
+++ b/sorock/src/process/thread/advance_commit.rs
@@ -10,16 +10,28 @@ pub struct Thread {
 }
 impl Thread {
     async fn run_once(&self) -> Result<()> {
-        let election_state = self.voter.read_election_state();
-        ensure!(std::matches!(election_state, voter::ElectionState::Leader));
+        let leader_term = self
+            .voter
+            .read_leader_term()
+            .await?
+            .context(Error::LeaderUnknown)?;
 
         let cur_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
         let new_commit_index = self.peers.find_new_commit_index().await?;
 
         if new_commit_index > cur_commit_index {
+            // $5.4.2
+            // Only entries of the current term are committed by counting replicas.
+            let clock = self
+                .command_log
+                .get_entry(new_commit_index)
+                .await?
+                .this_clock;
+            ensure!(clock.term == leader_term);
+
             self.command_log
                 .commit_pointer
-                .store(new_commit_index, Ordering::SeqCst);
+                .fetch_max(new_commit_index, Ordering::SeqCst);
             self.producer.push_event(CommitEvent);
         }
 
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 686adae..3034e85 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -47,6 +47,9 @@ impl Voter {
             ballot.cur_term = leader_term;
             ballot.voted_for = None;
             self.write_election_state(ElectionState::Follower);
+        } else if std::matches!(self.read_election_state(), ElectionState::Candidate) {
+            // Another candidate has won the election of this term.
+            self.write_election_state(ElectionState::Follower);
         }
 
         if ballot.voted_for != Some(leader_id.clone()) {
-- 
2.43.0


From 631fda935391282bf062841588f98adc6bf76180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 07/27] fix: entries were appended by a node which isn't the
 leader of the term

The leadership was checked apart from the append: a deposed leader could append
entries (including CompleteRequest) to the log of another leader, two membership
changes could be queued at once, completions were registered after the entry
might have been applied, and cancelling the request left an insertion in flight.
---
 sorock/src/process/command_log/consumer.rs   |  11 +-
 sorock/src/process/command_log/producer.rs   |  32 +++---
 sorock/src/process/raft_process/mod.rs       |   1 +
 sorock/src/process/raft_process/queue.rs     | 103 ++++++++++++++-----
 sorock/src/process/raft_process/responder.rs |  36 +++----
 sorock/src/process/thread/advance_user.rs    |   5 +-
 sorock/src/process/voter/election.rs         |   3 +-
 sorock/src/process/voter/mod.rs              |  26 ++++-
 8 files changed, 148 insertions(+), 69 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index 4ed8600..fc1139d 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -12,6 +12,12 @@ impl CommandLog {
         }
     }
 
+    /// Discard completions in `[from, )`.
+    pub fn discard_completions(&self, from: Index) {
+        self.user_completions.lock().split_off(&from);
+        self.kern_completions.lock().split_off(&from);
+    }
+
     /// Advance the snapshot index if there is a newer snapshot proposed.
     pub async fn advance_snapshot_index(&self) -> Result<()> {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
@@ -47,7 +53,7 @@ impl CommandLog {
     }
 
     /// Advance user process once.
-    pub(crate) async fn advance_user_process(&self, app: App) -> Result<()> {
+    pub(crate) async fn advance_user_process(&self, app: App, voter: Voter) -> Result<()> {
         let cur_user_index = self.user_pointer.load(Ordering::SeqCst);
         ensure!(cur_user_index < self.kern_pointer.load(Ordering::SeqCst));
 
@@ -92,7 +98,8 @@ impl CommandLog {
                                 // This should be queued and replicated to the followers.
                                 // Otherwise followers will never know the request is completed and the context will never be terminated.
                                 let command = Command::CompleteRequest { request_id };
-                                self.append_new_entry(Command::serialize(command), None)
+                                voter
+                                    .append_as_leader(Command::serialize(command), None)
                                     .await
                                     .ok();
                             }
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index d3610fb..1556f82 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -16,21 +16,21 @@ pub enum TryInsertResult {
 }
 
 impl CommandLog {
-    /// Append a new entry to the log.
-    /// If `term` is None, then the term of the last entry is used.
-    /// Otherwise, the given term is used to update the term of the last entry.
-    pub async fn append_new_entry(&self, command: Bytes, term: Option<Term>) -> Result<Index> {
+    /// Append a new entry of the term to the log.
+    /// The caller should be the leader of the term and own the `vote_lock`.
+    pub async fn append_new_entry(
+        &self,
+        command: Bytes,
+        term: Term,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
         let _g = self.append_lock.lock().await;
 
         let cur_last_log_index = self.get_log_last_index().await?;
         let prev_clock = self.get_entry(cur_last_log_index).await?.this_clock;
         let append_index = cur_last_log_index + 1;
-        let this_term = match term {
-            Some(t) => t,
-            None => prev_clock.term,
-        };
         let this_clock = Clock {
-            term: this_term,
+            term,
             index: append_index,
         };
         let e = Entry {
@@ -38,7 +38,15 @@ impl CommandLog {
             this_clock,
             command,
         };
-        self.insert_entry(e).await?;
+
+        // The entry may be applied as soon as it is inserted into the log.
+        if let Some(completion) = completion {
+            self.register_completion(append_index, completion);
+        }
+        if let Err(e) = self.insert_entry(e).await {
+            self.discard_completions(append_index);
+            return Err(e);
+        }
 
         Ok(append_index)
     }
@@ -145,9 +153,7 @@ impl CommandLog {
 
                 self.insert_entry(entry).await?;
 
-                // discard [this_index, )
-                self.user_completions.lock().split_off(&this_index);
-                self.kern_completions.lock().split_off(&this_index);
+                self.discard_completions(this_index);
 
                 Ok(TryInsertResult::Inserted)
             }
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index e06455c..8542d5e 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -77,6 +77,7 @@ impl RaftProcess {
             advance_user_handle: thread::advance_user::new(
                 command_log.clone(),
                 app.clone(),
+                voter.clone(),
                 kern_rx.clone(),
                 app_tx.clone(),
             ),
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index e2005e3..195e372 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -2,31 +2,62 @@ use super::*;
 
 impl RaftProcess {
     pub(crate) async fn queue_new_entry(
-        &self,
+        self: &Arc<Self>,
         command: Bytes,
         completion: Completion,
     ) -> Result<Index> {
-        ensure!(self.voter.allow_queue_new_entry().await?);
+        let this = self.clone();
+        // Appending an entry shouldn't be interrupted halfway by the client.
+        tokio::spawn(async move {
+            let append_index = this
+                .voter
+                .append_as_leader(command, Some(completion))
+                .await?;
 
-        let append_index = self
-            .command_log
-            .append_new_entry(command.clone(), None)
-            .await?;
+            this.queue_tx.push_event(thread::QueueEvent);
+            this.replication_tx.push_event(thread::ReplicationEvent);
 
-        self.command_log
-            .register_completion(append_index, completion);
+            Ok(append_index)
+        })
+        .await?
+    }
 
-        self.process_configuration_command(&command, append_index)
-            .await?;
+    pub(crate) async fn queue_new_membership(
+        self: &Arc<Self>,
+        req: kern_message::KernRequest,
+        completion: Completion,
+    ) -> Result<Index> {
+        let this = self.clone();
+        tokio::spawn(async move {
+            // The next membership should be calculated from the last one in the log.
+            let (_lk, term) = this.voter.lock_for_append().await?;
+            ensure!(this.command_log.allow_queue_new_membership());
 
-        self.queue_tx.push_event(thread::QueueEvent);
-        self.replication_tx.push_event(thread::ReplicationEvent);
+            let mut membership = this.peers.read_membership();
+            match req {
+                kern_message::KernRequest::AddServer(id) => membership.insert(id),
+                kern_message::KernRequest::RemoveServer(id) => membership.remove(&id),
+            };
+            let command = Command::serialize(Command::ClusterConfiguration { membership });
 
-        Ok(append_index)
+            let append_index = this
+                .command_log
+                .append_new_entry(command.clone(), term, Some(completion))
+                .await?;
+
+            this.process_configuration_command(&command, append_index)
+                .await?;
+
+            this.queue_tx.push_event(thread::QueueEvent);
+            this.replication_tx.push_event(thread::ReplicationEvent);
+
+            Ok(append_index)
+        })
+        .await?
     }
 
     pub(crate) async fn queue_received_entries(
-        &self,
+        self: &Arc<Self>,
         mut req: request::ReplicationStream,
     ) -> Result<u64> {
         let mut prev_clock = req.prev_clock;
@@ -37,9 +68,6 @@ impl RaftProcess {
                 this_clock: cur.this_clock,
                 command: cur.command,
             };
-            let insert_index = entry.this_clock.index;
-            let command = entry.command.clone();
-
             // A leader doesn't have entries of newer terms.
             ensure!(
                 entry.this_clock.term <= req.leader_term,
@@ -50,16 +78,11 @@ impl RaftProcess {
                 .prepare_snapshot(&entry, req.sender_id.clone(), self.driver.clone())
                 .await?;
 
-            let _lk = self
-                .voter
-                .lock_for_replication(req.sender_id.clone(), req.leader_term)
-                .await?;
-
-            match self.command_log.try_insert_entry(entry).await? {
-                command_log::TryInsertResult::Inserted => {
-                    self.process_configuration_command(&command, insert_index)
-                        .await?
-                }
+            match self
+                .insert_received_entry(entry, req.sender_id.clone(), req.leader_term)
+                .await?
+            {
+                command_log::TryInsertResult::Inserted => {}
                 command_log::TryInsertResult::SkippedInsertion => {}
                 command_log::TryInsertResult::InconsistentInsertion { want, found } => {
                     warn!("rejected append entry (clock={:?}) for inconsisntency (want:{want:?} != found:{found:?}", cur.this_clock);
@@ -79,4 +102,30 @@ impl RaftProcess {
 
         Ok(n_inserted)
     }
+
+    async fn insert_received_entry(
+        self: &Arc<Self>,
+        entry: Entry,
+        sender_id: NodeId,
+        leader_term: Term,
+    ) -> Result<command_log::TryInsertResult> {
+        let this = self.clone();
+        // Inserting an entry shouldn't be interrupted halfway by the sender.
+        tokio::spawn(async move {
+            let _lk = this
+                .voter
+                .lock_for_replication(sender_id, leader_term)
+                .await?;
+
+            let insert_index = entry.this_clock.index;
+            let command = entry.command.clone();
+            let res = this.command_log.try_insert_entry(entry).await?;
+            if std::matches!(res, command_log::TryInsertResult::Inserted) {
+                this.process_configuration_command(&command, insert_index)
+                    .await?;
+            }
+            Ok(res)
+        })
+        .await?
+    }
 }
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index c7b0c7e..7dc1a04 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -2,7 +2,7 @@ use super::*;
 
 impl RaftProcess {
     pub(crate) async fn send_replication_stream(
-        &self,
+        self: &Arc<Self>,
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
         let n_inserted = self.queue_received_entries(req).await?;
@@ -13,7 +13,10 @@ impl RaftProcess {
         Ok(resp)
     }
 
-    pub(crate) async fn process_kern_request(&self, req: request::KernRequest) -> Result<()> {
+    pub(crate) async fn process_kern_request(
+        self: &Arc<Self>,
+        req: request::KernRequest,
+    ) -> Result<()> {
         let ballot = self.voter.read_ballot().await?;
 
         let Some(leader_id) = ballot.voted_for else {
@@ -25,27 +28,14 @@ impl RaftProcess {
             voter::ElectionState::Leader
         ) {
             let (kern_completion, rx) = completion::prepare_kern_completion();
-            let command = match kern_message::KernRequest::deserialize(&req.message).unwrap() {
-                kern_message::KernRequest::AddServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.insert(id);
-                    Command::ClusterConfiguration { membership }
-                }
-                kern_message::KernRequest::RemoveServer(id) => {
-                    let mut membership = self.peers.read_membership();
-                    membership.remove(&id);
-                    Command::ClusterConfiguration { membership }
-                }
-            };
-            ensure!(self.command_log.allow_queue_new_membership());
-            self.queue_new_entry(
-                Command::serialize(command),
-                Completion::Kern(kern_completion),
-            )
-            .await?;
+            let kern_req = kern_message::KernRequest::deserialize(&req.message).unwrap();
+            self.queue_new_membership(kern_req, Completion::Kern(kern_completion))
+                .await?;
 
             rx.await?;
         } else {
+            // This check is to avoid looping.
+            ensure!(self.driver.self_node_id() != leader_id);
             let conn = self.driver.connect(leader_id);
             conn.process_kern_request(req).await?;
         }
@@ -86,7 +76,7 @@ impl RaftProcess {
     }
 
     pub(crate) async fn process_user_write_request(
-        &self,
+        self: &Arc<Self>,
         req: request::UserWriteRequest,
     ) -> Result<Bytes> {
         let ballot = self.voter.read_ballot().await?;
@@ -142,7 +132,9 @@ impl RaftProcess {
 
     pub(crate) async fn send_timeout_now(&self) -> Result<()> {
         info!("received TimeoutNow. try to become a leader.");
-        self.voter.try_promote(true).await?;
+        let voter = self.voter.clone();
+        // The election shouldn't be interrupted halfway by the sender.
+        tokio::spawn(async move { voter.try_promote(true).await }).await??;
         Ok(())
     }
 
diff --git a/sorock/src/process/thread/advance_user.rs b/sorock/src/process/thread/advance_user.rs
index 6b867e1..ff7f55a 100644
--- a/sorock/src/process/thread/advance_user.rs
+++ b/sorock/src/process/thread/advance_user.rs
@@ -4,6 +4,7 @@ use super::*;
 pub struct Thread {
     command_log: CommandLog,
     app: App,
+    voter: Voter,
     consumer: EventConsumer<KernEvent>,
     producer: EventProducer<ApplicationEvent>,
 }
@@ -11,7 +12,7 @@ pub struct Thread {
 impl Thread {
     async fn advance_once(&self) -> Result<()> {
         self.command_log
-            .advance_user_process(self.app.clone())
+            .advance_user_process(self.app.clone(), self.voter.clone())
             .await
     }
 
@@ -33,12 +34,14 @@ impl Thread {
 pub fn new(
     command_log: CommandLog,
     app: App,
+    voter: Voter,
     consumer: EventConsumer<KernEvent>,
     producer: EventProducer<ApplicationEvent>,
 ) -> ThreadHandle {
     Thread {
         command_log,
         app,
+        voter,
         consumer,
         producer,
     }
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 1047ebb..835c522 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -219,7 +219,8 @@ impl Voter {
                 .command_log
                 .append_new_entry(
                     Command::serialize(Command::Barrier(vote_term)),
-                    Some(vote_term),
+                    vote_term,
+                    None,
                 )
                 .await?;
             info!("noop barrier is queued at index({index}) (term={vote_term})");
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index b8a5450..61b2bff 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -87,10 +87,30 @@ impl Voter {
         self.safe_term.store(term, Ordering::SeqCst);
     }
 
+    /// Returns the term which this node is leading.
+    /// While the returned lock is alive, this node doesn't move to a newer term.
     /// If `safe_term < cur_term`, any new entries are not allowed to be queued.
-    pub async fn allow_queue_new_entry(&self) -> Result<bool> {
-        let cur_term = self.ballot.load_ballot().await?.cur_term;
+    pub async fn lock_for_append(&self) -> Result<(tokio::sync::MutexGuard<'_, ()>, Term)> {
+        let lk = self.vote_lock.lock().await;
+        ensure!(std::matches!(
+            self.read_election_state(),
+            ElectionState::Leader
+        ));
+        let cur_term = self.read_ballot().await?.cur_term;
         let cur_safe_term = self.safe_term.load(Ordering::SeqCst);
-        Ok(cur_safe_term == cur_term)
+        ensure!(cur_safe_term == cur_term);
+        Ok((lk, cur_term))
+    }
+
+    /// Append a new entry if this node is the leader.
+    pub async fn append_as_leader(
+        &self,
+        command: Bytes,
+        completion: Option<Completion>,
+    ) -> Result<Index> {
+        let (_lk, term) = self.lock_for_append().await?;
+        self.command_log
+            .append_new_entry(command, term, completion)
+            .await
     }
 }
-- 
2.43.0


From d16e3bb692d401c10c84a8aa2530d342bcc0e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 08/27] fix: an election blocked the node, and a healthy leader
 voted for a rejoining node

The vote lock was owned while waiting for votes with no timeout, so a node which
doesn't respond stalled the candidate, and the leadership was taken or given up
without the lock. The leader itself granted pre-votes since it receives no
heartbeats.
---
 sorock/src/process/voter/election.rs  | 83 +++++++++++++++++++++------
 sorock/src/process/voter/heartbeat.rs |  8 ++-
 sorock/src/process/voter/stepdown.rs  | 11 +++-
 3 files changed, 79 insertions(+), 23 deletions(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 835c522..c746f20 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -14,10 +14,16 @@ impl Voter {
 
         let allow_update_ballot = !pre_vote;
 
+        // The candidate is already in a newer term so it no longer accepts this leader.
+        let newer_term = candidate_term.saturating_sub(1);
+        self.abandon_leadership(newer_term).await?;
+
         // If it is a force-vote which is set by TimeoutNow,
         // or it believes the leader has failed, it should vote.
         let leader_failed = self.get_election_timeout().is_some();
-        let should_vote = force_vote || leader_failed;
+        // The leader doesn't receive heartbeats but it doesn't think it has failed.
+        let is_leader = std::matches!(self.read_election_state(), ElectionState::Leader);
+        let should_vote = force_vote || (leader_failed && !is_leader);
         if !should_vote {
             return Ok(false);
         }
@@ -100,13 +106,32 @@ impl Voter {
         self.leader_failure_detector.get_election_timeout()
     }
 
+    /// If a node in a newer term is found, the leader moves to the term as a follower.
+    /// The caller should own the `vote_lock`.
+    async fn abandon_leadership(&self, newer_term: Term) -> Result<()> {
+        if !std::matches!(self.read_election_state(), ElectionState::Leader) {
+            return Ok(());
+        }
+        if newer_term > self.read_ballot().await?.cur_term {
+            warn!("found newer term. abandon leadership");
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(Ballot {
+                cur_term: newer_term,
+                voted_for: None,
+            })
+            .await?;
+        }
+        Ok(())
+    }
+
     /// Try to become a leader.
     pub async fn try_promote(&self, force_vote: bool) -> Result<()> {
         info!("try to promote to leader (force={force_vote})");
 
-        let _lk = self.vote_lock.lock().await;
-
+        // The vote lock isn't owned while waiting for votes.
+        // Otherwise the node can't respond to the other nodes during the election.
         let pre_vote_term = {
+            let _lk = self.vote_lock.lock().await;
             let ballot = self.read_ballot().await?;
             ballot.cur_term + 1
         };
@@ -123,17 +148,22 @@ impl Voter {
         // --- END pre-vote ---
 
         let vote_term = {
+            let _lk = self.vote_lock.lock().await;
             let mut new_ballot = self.read_ballot().await?;
             let vote_term = new_ballot.cur_term + 1;
             ensure!(vote_term == pre_vote_term);
 
+            // Becoming Candidate avoids this node starts another election during this election.
+            // This should precede updating the term otherwise the node may be a leader of the new term.
+            self.write_election_state(ElectionState::Candidate);
+
             // Vote to itself
             new_ballot.cur_term = vote_term;
             new_ballot.voted_for = Some(self.driver.self_node_id());
-            self.write_ballot(new_ballot).await?;
-
-            // Becoming Candidate avoids this node starts another election during this election.
-            self.write_election_state(ElectionState::Candidate);
+            if let Err(e) = self.write_ballot(new_ballot).await {
+                self.write_election_state(ElectionState::Follower);
+                return Err(e);
+            }
             vote_term
         };
 
@@ -198,10 +228,12 @@ impl Voter {
                     // We recommend the Pre-Vote extension in deployments that would benefit from additional robustness.
                     pre_vote,
                 };
-                let resp = conn.request_vote(req).await;
+                // The node may not respond.
+                let resp =
+                    tokio::time::timeout(Duration::from_secs(1), conn.request_vote(req)).await;
                 match resp {
-                    Ok(granted) => granted,
-                    Err(_) => false,
+                    Ok(Ok(granted)) => granted,
+                    _ => false,
                 }
             });
         }
@@ -211,25 +243,38 @@ impl Voter {
     }
 
     async fn post_election(&self, vote_term: Term, ok: bool) -> Result<()> {
-        if ok {
+        let _lk = self.vote_lock.lock().await;
+
+        // The node may have moved to a newer term or found the leader while waiting for votes.
+        let ballot = self.read_ballot().await;
+        let is_candidate = std::matches!(self.read_election_state(), ElectionState::Candidate);
+        let in_election = is_candidate
+            && std::matches!(&ballot, Ok(b) if b.cur_term == vote_term
+                && b.voted_for == Some(self.driver.self_node_id()));
+
+        if ok && in_election {
             info!("got enough votes from the cluster. promoted to leader");
 
             // As soon as the node becomes the leader, replicate noop entries with term.
-            let index = self
+            let barrier = Command::serialize(Command::Barrier(vote_term));
+            let index = match self
                 .command_log
-                .append_new_entry(
-                    Command::serialize(Command::Barrier(vote_term)),
-                    vote_term,
-                    None,
-                )
-                .await?;
+                .append_new_entry(barrier, vote_term, None)
+                .await
+            {
+                Ok(index) => index,
+                Err(e) => {
+                    self.write_election_state(ElectionState::Follower);
+                    return Err(e);
+                }
+            };
             info!("noop barrier is queued at index({index}) (term={vote_term})");
 
             // Initialize replication progress
             self.peers.reset_progress(index);
 
             self.write_election_state(ElectionState::Leader);
-        } else {
+        } else if in_election || (is_candidate && ballot.is_err()) {
             info!("failed to become leader. now back to follower");
             self.write_election_state(ElectionState::Follower);
         }
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 3034e85..1a583e7 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -80,10 +80,14 @@ impl Voter {
     }
 
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
-        let ballot = self.read_ballot().await?;
+        // The commit index should be the one while this node is the leader of the term.
         let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+        let leader_term = self
+            .read_leader_term()
+            .await?
+            .context(Error::LeaderUnknown)?;
         let req = request::Heartbeat {
-            leader_term: ballot.cur_term,
+            leader_term,
             leader_commit_index,
         };
         let conn = self.driver.connect(follower_id);
diff --git a/sorock/src/process/voter/stepdown.rs b/sorock/src/process/voter/stepdown.rs
index cc80e9b..be3814d 100644
--- a/sorock/src/process/voter/stepdown.rs
+++ b/sorock/src/process/voter/stepdown.rs
@@ -24,8 +24,15 @@ impl Voter {
             .context(Error::BadLogState)?;
         ensure!(!config.contains(&self.driver.self_node_id()));
 
-        info!("step down");
-        self.write_election_state(voter::ElectionState::Follower);
+        {
+            let _lk = self.vote_lock.lock().await;
+            ensure!(std::matches!(
+                self.read_election_state(),
+                voter::ElectionState::Leader
+            ));
+            info!("step down");
+            self.write_election_state(voter::ElectionState::Follower);
+        }
         self.peers.transfer_leadership().await?;
 
         Ok(())
-- 
2.43.0


From e9c514957107932698ae73c9c4cfe2d89b8a5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 09/27] fix: a leader never learned that a follower is in a
 newer term

The follower rejects such a leader forever, so it could neither follow nor be
added to the cluster.
---
 sorock/proto/sorock.proto                    |   1 +
 sorock/src/communicator/mod.rs               |   1 +
 sorock/src/generated/sorock.rs               |   2 ++
 sorock/src/generated/sorock_descriptor.bin   | Bin 8760 -> 8835 bytes
 sorock/src/process/api.rs                    |   2 ++
 sorock/src/process/peer_svc/replication.rs   |  16 +++++++++++++---
 sorock/src/process/raft_process/responder.rs |  12 +++++++++++-
 sorock/src/process/thread/replication.rs     |   7 ++++++-
 sorock/src/process/voter/election.rs         |   6 ++++++
 sorock/src/process/voter/heartbeat.rs        |   7 +++++++
 sorock/src/raft_service/mod.rs               |   1 +
 11 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index 9be3e83..d772162 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -57,6 +57,7 @@ message ReplicationStreamChunk {
 message ReplicationStreamResponse {
   uint64 n_inserted = 1;
   uint64 log_last_index = 2;
+  uint64 term = 3;
 }
 
 message GetSnapshotRequest {
diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index 0ef5198..62d87de 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -137,6 +137,7 @@ impl Communicator {
         Ok(response::ReplicationStream {
             n_inserted: resp.n_inserted,
             log_last_index: resp.log_last_index,
+            term: resp.term,
         })
     }
 
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 0660313..9870394 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -81,6 +81,8 @@ pub struct ReplicationStreamResponse {
     pub n_inserted: u64,
     #[prost(uint64, tag = "2")]
     pub log_last_index: u64,
+    #[prost(uint64, tag = "3")]
+    pub term: u64,
 }
 #[derive(Clone, Copy, PartialEq, ::prost::Message)]
 pub struct GetSnapshotRequest {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index b00a6e2f67bd0b5547da3bcfc2d47a54c9d06d4e..7b620284ce06b1c3806e6e459c5784745d0e2765 100644
GIT binary patch
delta 1996
zcmX|?+fG|Y6o&VnJs$6q4|{A*PD4Ox)gW3aN}Hx9fhi^!W2z7Z5~u`j6w{ly!Ny=i
zD(#CtLFG5-6I9}+msOvmeU+;Jn!Uz%{<YTk?|;@D{Ac6Wtv|fL{qI%=vF8paN!+Pw
z9m-*M(3|&`+z0Zx`F-1u=Tz|Ty-;cCIPY(N)4wbC+sWq(zobzpr7wi`z7aZ%!yJhm
zDc>p=DkxaxL6ws*422A|Tyr*D{Ptvkt~I|Fl3gGi?X8PhgFwJ;o$a8|xE>_7mcnnn
zI>Q`lby4A(3$8xpT&e{{TLV^4w22XFx#?_WF+y~0`k7rwF&ZNK6a?%VB5w?!(Ae<f
zFr_6!!mm*(8^1`)ZRh*UFGAb4Uor6_@@w+4AmG>Jcu;6;^0J^{*W^`20;L@>XFd!8
zY-ftODHVfk@+gAanVIF!VN+V7#vE-*Ys!&lE10o0V6FKD#vpdZ2VC+LschAe@PO_5
zHj0PNbhmbgIjOz&bafJ+YYW9L5?ni<O)?S^Tzk4YH13HiH|C78SPs};zGQ2__H@O}
zIM(u+^Bglyadu*~J@cz3ModHA7xRXJfZsmHfI{PbK06;!@Y|oAGkygvUpOzbJu9H=
zg`Z8MKz0XW!Pr5-?tq5~g~s$C$g)Gi?_h4;#3;~!55+Qbv}uP^j*jACkWCnkzz**%
znHWVaUpYTyF^cGV<tN6jNHLE13_!r{D6>13kmx+(GXMp@BR&H~ig7HyHZdTuna5(u
zDyl6%whGwsmtTcVT+EV|C(e(P_T6TB;%5sgQG!$6UI-*O<pn{(>68yI6r4_ZdrK6c
z!@(hdb*322p~JaR1J*(AJp?Fg`NsLlt!+#yi>>sHpB=F>W$1DS2$*%*3<_pl&Hx3o
zE@voHhBM9p0qkswQHC?lfEutfWcb@fh(yb`&d+Xb^3UR5>04i$ok%D{k265PtjA_h
zFzay!D46w-0Z*NBv^;m-n~hb}b&jV4Pn~ket}i~NO(20%Uqx2o0{3Hclv66guYZ4)
zIdl%hDtFQ<1}d})+#oW~Coo#mV0ncxlrF?JH_~7(l=%P}=@GxEePnCEE*@?%M$ha}
zJmDHW14Cu5GdK_2u(D`t)VcDQIlKv%Vv|es3S264oq<VUmx;L{q<~$1vcVXpdL?!k
zqgNokQs#|AXAay|^<!HEclBtSIh^m2=x|Aa8>u^1!E<!?zEv<8eQ53lEEP;fTPJLi
z*WOq><;FZr#wtmz1UIhO8RhZ4@xw1{4KCv+4R-OhcP;8%^5Jr=%)^7v`7pVju><pg
sU9YS$7HIEAe8(95Dc&f0UzX`~1mJFF&GjV(?q;?ATAdHx4c~qCKL`7kF#rGn

delta 1920
zcmX|?%TF6u6vk)HTwl)%8(;Hu9t6=SLZniZDoq~>5DeG`qEH1Ah!lew$R<=6Fg8S$
zW>NJo@FM$2?Ya`1F01}!`Ocklz5H~}@4Mf9%$Yyd{$2eii2R!y6{UfHIH;tDH-Dy+
zI{JGi)<${Wr<=db7w!K%Xiop0#WAVKsAt}?AIEW^BHskh!djffN=4+EV38)`G%m0x
zunL_*<6=~CDu5ar7YwB(s!GWRwlu_iu0<tR%fKyF43;Jp8@1xC<}qTlt%SK>%rWYe
zF9iX=Iu)%06dLPc>J;qi<xy*w7`5)b$n6qzt%p?`FJZfe>?(tTUqkXip|c^|f`VT|
zwv`Y{O`5bzK>%wGG2T`)GOh-!IX)rFkqKH<lM(@I4Kd2VwW4uX1lO9H77k*AZc8c9
ztnyta6ad=@U6g=3YqtbbCfJnSC8V(2CTTHIz&4BdL81mM+Z^r=om(^}odv5LR{*zF
zEV~-GEmO6JoEr7g`z1f*6kRXFF&iW0L*Aw-i$K6`TVg<=al2^WN2Va*w>>dw{YH#>
z<-N}RM$q;u%ui#4{dQ>D`a!^NM@|t6jXO~u9SU|klT$Xv2;bQ*%?ieMwmZc5&a&Mo
zKVfu&+nu>*W0Z_~<Gsyel+gAjtXRJi$JmoM00F-}@q<F+p1c7l*zL(1C~=H^`pL$C
zz+LXsJyvrHl8duXToK&<4?o6Dd=X`%-g$?E&v%;HyD;BTnG>|-ej$*cEeW9D)RxB!
z1*f)LZ<!MuNN@;X2Sbbl97u4~fE^(C3j`Q7>b>{DuRR~M?`~x8!~Bhna)u+x00FZj
zF@u8Hkz{~^*^y)z<qXG?0Rq_Z5aSHTk^wbf$H?%%j}R53K6=0TwZVg#|FVyvu{TlS
z3@4HS0%j*-1_iSd$p8hj6J)@Q(VkJK-Y0vpn!8RhIxy<A$95h1mM?(?N*$dzg)g|1
z+P9o>5q_Py1>w+nMhnu(yExOaQ{c`LJ3fK&p3Y|H1w-ka8q&xIbFS?IXe6%H?z<YW
z^G9of@w~jCr&8lFaG~w@3@!k7QN8PG+&TY5I1Gg@)uqH^psVfY3`_y*R_rIj3Rw5y
zbHQ+`m(&uBr$Bb8?T|xf0o>)-16Krh`M4n*9(a!qrKG|2^ew00*}F666ij;G*bf7i
z8YaE9wwM%6(5H22EW)I(E18qv`c-#EMXc9<^u4RWrT=tQTtX9E(Xy06xLj#Fd9Yjv
yldExeU?H%p`9;AZ6I|1ZVEj|O);wTl`E^9#t|#pG%L?4}!t$@WbAH-A{q8GUe2xeJ

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index 0b58cc4..0946101 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -64,5 +64,7 @@ pub mod response {
     pub struct ReplicationStream {
         pub n_inserted: u64,
         pub log_last_index: Index,
+        /// The term of the node who received the stream.
+        pub term: Term,
     }
 }
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index acd27d6..666c4bf 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -39,7 +39,12 @@ impl PeerSvc {
         })
     }
 
-    pub async fn advance_replication(&self, follower_id: NodeId, leader_term: Term) -> Result<()> {
+    /// Send entries to the follower and returns the term of the follower.
+    pub async fn advance_replication(
+        &self,
+        follower_id: NodeId,
+        leader_term: Term,
+    ) -> Result<Term> {
         let peer_context = self
             .peer_contexts
             .read()
@@ -67,7 +72,7 @@ impl PeerSvc {
                 .get_mut(&follower_id)
                 .context(Error::PeerNotFound(follower_id.clone()))?
                 .progress = new_progress;
-            return Ok(());
+            return Ok(leader_term);
         }
 
         let n_max_possible = cur_last_log_index - old_progress.next_index + 1;
@@ -89,10 +94,15 @@ impl PeerSvc {
         // we shouldn't repeat request otherwise the situation would be worse.
         let resp = conn.send_replication_stream(out_stream).await?;
 
+        if resp.term != leader_term {
+            return Ok(resp.term);
+        }
+
         let new_progress = match resp {
             response::ReplicationStream {
                 n_inserted: 0,
                 log_last_index: last_log_index,
+                ..
             } => ReplicationProgress {
                 match_index: old_progress.match_index,
                 next_index: std::cmp::min(old_progress.next_index - 1, last_log_index + 1),
@@ -113,6 +123,6 @@ impl PeerSvc {
             .context(Error::PeerNotFound(follower_id.clone()))?
             .progress = new_progress;
 
-        Ok(())
+        Ok(leader_term)
     }
 }
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 7dc1a04..fcb5944 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -5,10 +5,20 @@ impl RaftProcess {
         self: &Arc<Self>,
         req: request::ReplicationStream,
     ) -> Result<response::ReplicationStream> {
-        let n_inserted = self.queue_received_entries(req).await?;
+        let term = self
+            .voter
+            .observe_leader(req.sender_id.clone(), req.leader_term)
+            .await?;
+        let n_inserted = if term == req.leader_term {
+            self.queue_received_entries(req).await?
+        } else {
+            // The sender should know that it is stale.
+            0
+        };
         let resp = response::ReplicationStream {
             n_inserted,
             log_last_index: self.command_log.get_log_last_index().await?,
+            term,
         };
         Ok(resp)
     }
diff --git a/sorock/src/process/thread/replication.rs b/sorock/src/process/thread/replication.rs
index 3a0c7fc..dc65b7c 100644
--- a/sorock/src/process/thread/replication.rs
+++ b/sorock/src/process/thread/replication.rs
@@ -14,9 +14,14 @@ impl Thread {
             return Ok(false);
         };
 
-        self.peers
+        let follower_term = self
+            .peers
             .advance_replication(self.follower_id.clone(), leader_term)
             .await?;
+        if follower_term > leader_term {
+            self.voter.observe_follower(follower_term).await?;
+            return Ok(false);
+        }
 
         Ok(true)
     }
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index c746f20..5783a86 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -106,6 +106,12 @@ impl Voter {
         self.leader_failure_detector.get_election_timeout()
     }
 
+    /// The leader moves to the term of the follower if it is newer.
+    pub async fn observe_follower(&self, follower_term: Term) -> Result<()> {
+        let _lk = self.vote_lock.lock().await;
+        self.abandon_leadership(follower_term).await
+    }
+
     /// If a node in a newer term is found, the leader moves to the term as a follower.
     /// The caller should own the `vote_lock`.
     async fn abandon_leadership(&self, newer_term: Term) -> Result<()> {
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 1a583e7..050fc18 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -64,6 +64,13 @@ impl Voter {
         Ok(true)
     }
 
+    /// Follow the leader unless the leader is stale and returns the current term.
+    pub async fn observe_leader(&self, leader_id: NodeId, leader_term: Term) -> Result<Term> {
+        let _lk = self.vote_lock.lock().await;
+        self.accept_leader(leader_id, leader_term).await?;
+        Ok(self.read_ballot().await?.cur_term)
+    }
+
     /// Entries are inserted into the log only while the sender is the leader of the current term.
     /// While the returned lock is alive, this node doesn't move to a newer term.
     pub async fn lock_for_replication(
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 0440cd8..7e11aab 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -167,6 +167,7 @@ impl raft::raft_server::Raft for RaftService {
         Ok(tonic::Response::new(raft::ReplicationStreamResponse {
             n_inserted: resp.n_inserted,
             log_last_index: resp.log_last_index,
+            term: resp.term,
         }))
     }
 
-- 
2.43.0


From 4f4f92071859ad3ed77bda0a21b4d4458ba346e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 10/27] fix: a follower kept a membership which has been
 overwritten in the log

Also the membership is now processed together with the insertion, so it isn't
lost when the entry is inserted but the processing is interrupted.
---
 sorock/src/process/peer_svc/mod.rs         | 27 ++++++----------------
 sorock/src/process/raft_process/cluster.rs | 12 +++-------
 sorock/src/process/raft_process/queue.rs   | 24 +++++++++++++++----
 3 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index dd20fd6..d4b112f 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -81,8 +81,7 @@ impl PeerSvc {
                     _ => unreachable!(),
                 }
             };
-            self.set_membership(last_membership, last_membership_index, voter)
-                .await?;
+            self.set_membership(last_membership, last_membership_index, voter);
         };
 
         Ok(())
@@ -90,19 +89,16 @@ impl PeerSvc {
 }
 
 impl PeerSvc {
-    async fn add_peer(&self, id: NodeId, voter: Ref<Voter>) -> Result<()> {
+    fn add_peer(&self, id: NodeId, init_next_index: Index, voter: Ref<Voter>) {
         if id == self.driver.self_node_id() {
-            return Ok(());
+            return;
         }
 
         if self.peer_contexts.read().contains_key(&id) {
-            return Ok(());
+            return;
         }
 
-        let init_progress = {
-            let last_log_index = self.command_log.get_log_last_index().await?;
-            ReplicationProgress::new(last_log_index)
-        };
+        let init_progress = ReplicationProgress::new(init_next_index);
 
         let mut peer_contexts = self.peer_contexts.write();
         peer_contexts.insert(
@@ -123,8 +119,6 @@ impl PeerSvc {
             heartbeater_handle: thread::heartbeat::new(id.clone(), voter),
         };
         self.peer_threads.lock().insert(id, thread_handles);
-
-        Ok(())
     }
 
     fn remove_peer(&self, id: NodeId) {
@@ -132,12 +126,7 @@ impl PeerSvc {
         self.peer_contexts.write().remove(&id);
     }
 
-    pub async fn set_membership(
-        &self,
-        config: HashSet<NodeId>,
-        index: Index,
-        voter: Ref<Voter>,
-    ) -> Result<()> {
+    pub fn set_membership(&self, config: HashSet<NodeId>, index: Index, voter: Ref<Voter>) {
         let cur = self.read_membership();
 
         let add_peers = {
@@ -164,7 +153,7 @@ impl PeerSvc {
         // When making cluster membership changes that require multiple single-server steps,
         // it is preferable to add servers before removing servers.
         for id in add_peers {
-            self.add_peer(id, voter.clone()).await?;
+            self.add_peer(id, index, voter.clone());
         }
         for id in remove_peers {
             self.remove_peer(id);
@@ -176,8 +165,6 @@ impl PeerSvc {
         self.command_log
             .membership_pointer
             .store(index, Ordering::SeqCst);
-
-        Ok(())
     }
 
     pub fn read_membership(&self) -> HashSet<NodeId> {
diff --git a/sorock/src/process/raft_process/cluster.rs b/sorock/src/process/raft_process/cluster.rs
index d4f4b41..7d1781b 100644
--- a/sorock/src/process/raft_process/cluster.rs
+++ b/sorock/src/process/raft_process/cluster.rs
@@ -6,11 +6,7 @@ impl RaftProcess {
     /// guarantees that majority of the servers move to the configuration when the entry is committed.
     /// Without this property, servers may still be in some old configuration which may cause split-brain
     /// by electing two leaders in a single term which is not allowed in Raft.
-    pub(crate) async fn process_configuration_command(
-        &self,
-        command: &[u8],
-        index: Index,
-    ) -> Result<()> {
+    pub(crate) fn process_configuration_command(&self, command: &[u8], index: Index) {
         let config0 = match Command::deserialize(command) {
             Command::Snapshot { membership } => Some(membership),
             Command::ClusterConfiguration { membership } => Some(membership),
@@ -18,10 +14,8 @@ impl RaftProcess {
         };
         if let Some(config) = config0 {
             self.peers
-                .set_membership(config, index, Ref(self.voter.clone()))
-                .await?;
+                .set_membership(config, index, Ref(self.voter.clone()));
         }
-        Ok(())
     }
 
     /// Forming a new cluster with a single node is called "cluster bootstrapping".
@@ -41,7 +35,7 @@ impl RaftProcess {
         };
 
         self.command_log.insert_snapshot(snapshot).await?;
-        self.process_configuration_command(&init_command, 1).await?;
+        self.process_configuration_command(&init_command, 1);
 
         // After this function is called
         // this server should immediately become the leader by self-vote and advance commit index.
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 195e372..6232c9f 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -45,8 +45,7 @@ impl RaftProcess {
                 .append_new_entry(command.clone(), term, Some(completion))
                 .await?;
 
-            this.process_configuration_command(&command, append_index)
-                .await?;
+            this.process_configuration_command(&command, append_index);
 
             this.queue_tx.push_event(thread::QueueEvent);
             this.replication_tx.push_event(thread::ReplicationEvent);
@@ -120,9 +119,24 @@ impl RaftProcess {
             let insert_index = entry.this_clock.index;
             let command = entry.command.clone();
             let res = this.command_log.try_insert_entry(entry).await?;
-            if std::matches!(res, command_log::TryInsertResult::Inserted) {
-                this.process_configuration_command(&command, insert_index)
-                    .await?;
+
+            let membership_index = this.command_log.membership_pointer.load(Ordering::SeqCst);
+            match res {
+                command_log::TryInsertResult::Inserted => {
+                    if insert_index <= membership_index {
+                        // The last membership may have been overwritten.
+                        this.peers.restore_state(Ref(this.voter.clone())).await?;
+                    } else {
+                        this.process_configuration_command(&command, insert_index);
+                    }
+                }
+                command_log::TryInsertResult::SkippedInsertion => {
+                    // The membership may not have been processed after the previous insertion.
+                    if insert_index > membership_index {
+                        this.process_configuration_command(&command, insert_index);
+                    }
+                }
+                _ => {}
             }
             Ok(res)
         })
-- 
2.43.0


From 75a6c299d081b2baf4e8fcb7d4bbadffcd73ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 11/27] fix: a leader removed from the membership counted
 itself in majorities

---
 sorock/src/process/peer_svc/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index d4b112f..362418a 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -175,7 +175,13 @@ impl PeerSvc {
         let mut match_indices = vec![];
 
         let last_log_index = self.command_log.get_log_last_index().await?;
-        match_indices.push(last_log_index);
+
+        // $4.2.2
+        // A leader which is removed from the membership doesn't count itself in majorities.
+        let membership = self.read_membership();
+        if membership.is_empty() || membership.contains(&self.driver.self_node_id()) {
+            match_indices.push(last_log_index);
+        }
 
         let peer_contexts = self.peer_contexts.read();
         for (_, peer) in peer_contexts.iter() {
-- 
2.43.0


From f3d7151a879a7dca5ded0585ae1553c311665ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 12/27] fix: a replication response of the previous leadership
 updated the progress of the current one

---
 sorock/src/process/peer_svc/mod.rs         | 21 +++++++++++++++++++++
 sorock/src/process/peer_svc/replication.rs | 14 ++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 362418a..6b733e3 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -9,10 +9,14 @@ pub(crate) struct ReplicationProgress {
     /// In the next replication, log entrires `[next_index, next_index + next_max_cnt)` will be sent.
     pub next_index: Index,
     pub next_max_cnt: Index,
+    /// Changes every time the progress is initialized.
+    pub epoch: u64,
 }
 impl ReplicationProgress {
     pub fn new(init_next_index: Index) -> Self {
+        static NEXT_EPOCH: AtomicU64 = AtomicU64::new(0);
         Self {
+            epoch: NEXT_EPOCH.fetch_add(1, Ordering::SeqCst),
             match_index: 0,
             next_index: init_next_index,
             next_max_cnt: 1,
@@ -196,6 +200,23 @@ impl PeerSvc {
         Ok(new_commit_index)
     }
 
+    /// Update the progress unless it has been initialized after `old_progress` was read.
+    fn update_progress(
+        &self,
+        follower_id: &NodeId,
+        old_progress: ReplicationProgress,
+        new_progress: ReplicationProgress,
+    ) -> Result<()> {
+        let mut peer_contexts = self.peer_contexts.write();
+        let peer = peer_contexts
+            .get_mut(follower_id)
+            .context(Error::PeerNotFound(follower_id.clone()))?;
+        if peer.progress.epoch == old_progress.epoch {
+            peer.progress = new_progress;
+        }
+        Ok(())
+    }
+
     pub fn reset_progress(&self, init_next_index: Index) {
         let mut peer_contexts = self.peer_contexts.write();
         for (_, peer) in peer_contexts.iter_mut() {
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 666c4bf..aa4afd7 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -67,11 +67,7 @@ impl PeerSvc {
                 old_progress.next_index, follower_id,
             );
             let new_progress = ReplicationProgress::new(cur_snapshot_index);
-            self.peer_contexts
-                .write()
-                .get_mut(&follower_id)
-                .context(Error::PeerNotFound(follower_id.clone()))?
-                .progress = new_progress;
+            self.update_progress(&follower_id, old_progress, new_progress)?;
             return Ok(leader_term);
         }
 
@@ -107,6 +103,7 @@ impl PeerSvc {
                 match_index: old_progress.match_index,
                 next_index: std::cmp::min(old_progress.next_index - 1, last_log_index + 1),
                 next_max_cnt: 1,
+                epoch: old_progress.epoch,
             },
             response::ReplicationStream { n_inserted, .. } => ReplicationProgress {
                 match_index: old_progress.next_index + n_inserted - 1,
@@ -114,14 +111,11 @@ impl PeerSvc {
                 // If all entries are successfully inserted, then it is safe to double
                 // the replication width for quick replication.
                 next_max_cnt: if n_inserted == n { n * 2 } else { n },
+                epoch: old_progress.epoch,
             },
         };
 
-        self.peer_contexts
-            .write()
-            .get_mut(&follower_id)
-            .context(Error::PeerNotFound(follower_id.clone()))?
-            .progress = new_progress;
+        self.update_progress(&follower_id, old_progress, new_progress)?;
 
         Ok(leader_term)
     }
-- 
2.43.0


From ebd435ceb6e03b9061bcadacfb2ab119355b20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 13/27] fix: a deposed leader or a leader with uncommitted
 barrier served stale reads

---
 sorock/src/process/raft_process/responder.rs |  8 ++++++
 sorock/src/process/voter/heartbeat.rs        | 30 ++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index fcb5944..221092f 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -68,7 +68,15 @@ impl RaftProcess {
         ) {
             let (user_completion, rx) = completion::prepare_user_completion();
 
+            let leader_term = {
+                let (_lk, term) = self.voter.lock_for_append().await?;
+                term
+            };
+            // $6.4
+            // A newer leader may have committed entries unless this node is still
+            // the leader after the read index is determined.
             let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+            ensure!(self.voter.confirm_leadership(leader_term).await);
             let query = query_queue::Query {
                 message: req.message,
                 user_completion,
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index 050fc18..a8bacde 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -86,6 +86,36 @@ impl Voter {
         Ok(lk)
     }
 
+    /// Confirm that the majority of the nodes haven't moved to a newer term.
+    pub async fn confirm_leadership(&self, leader_term: Term) -> bool {
+        let selfid = self.driver.self_node_id();
+        let mut others = self.peers.read_membership();
+        let majority = others.len() / 2 + 1;
+        let remaining = if others.remove(&selfid) {
+            majority - 1
+        } else {
+            majority
+        };
+
+        let mut futs = vec![];
+        for id in others {
+            let conn = self.driver.connect(id);
+            let req = request::ReplicationStream {
+                sender_id: selfid.clone(),
+                leader_term,
+                prev_clock: Clock { term: 0, index: 0 },
+                entries: Box::pin(futures::stream::empty()),
+            };
+            futs.push(async move {
+                let resp =
+                    tokio::time::timeout(Duration::from_secs(1), conn.send_replication_stream(req))
+                        .await;
+                std::matches!(resp, Ok(Ok(resp)) if resp.term == leader_term)
+            });
+        }
+        quorum::join(remaining, futs).await
+    }
+
     pub async fn send_heartbeat(&self, follower_id: NodeId) -> Result<()> {
         // The commit index should be the one while this node is the leader of the term.
         let leader_commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
-- 
2.43.0


From e7ff23ca85d006c64eed4749ff1b48b17174a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 14/27] fix: the log pointers moved backward when a snapshot is
 received

Receiving a snapshot reset the pointers under the running threads, even if the
entry was already in the log or applied, and it kept the entries which conflict with the
leader's. The snapshot pointer was forgotten after restart, and a snapshot which
isn't applied yet was taken as the node's own.
---
 sorock/src/process/command_log/consumer.rs | 13 +++++-
 sorock/src/process/command_log/mod.rs      |  2 +
 sorock/src/process/command_log/producer.rs | 52 ++++++++++++++--------
 sorock/src/process/raft_process/queue.rs   | 23 +++-------
 4 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/sorock/src/process/command_log/consumer.rs b/sorock/src/process/command_log/consumer.rs
index fc1139d..8a60756 100644
--- a/sorock/src/process/command_log/consumer.rs
+++ b/sorock/src/process/command_log/consumer.rs
@@ -23,6 +23,9 @@ impl CommandLog {
         let cur_snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
         let proposed_snapshot_index = self.app.get_latest_snapshot().await?;
         if proposed_snapshot_index > cur_snapshot_index {
+            // The snapshot may not be made from the entries in the log.
+            ensure!(proposed_snapshot_index <= self.user_pointer.load(Ordering::SeqCst));
+
             info!("found a newer proposed snapshot@{proposed_snapshot_index} > {cur_snapshot_index}. will move the snapshot index.");
 
             // Calculate membership at the new snapshot index
@@ -52,12 +55,18 @@ impl CommandLog {
         Ok(())
     }
 
+    /// Entries before the snapshot may not be found.
+    fn next_process_index(&self, cur_index: Index) -> Index {
+        let snapshot_index = self.snapshot_pointer.load(Ordering::SeqCst);
+        std::cmp::max(cur_index + 1, snapshot_index)
+    }
+
     /// Advance user process once.
     pub(crate) async fn advance_user_process(&self, app: App, voter: Voter) -> Result<()> {
         let cur_user_index = self.user_pointer.load(Ordering::SeqCst);
         ensure!(cur_user_index < self.kern_pointer.load(Ordering::SeqCst));
 
-        let process_index = cur_user_index + 1;
+        let process_index = self.next_process_index(cur_user_index);
         let e = self.get_entry(process_index).await?;
         let command = Command::deserialize(&e.command);
 
@@ -123,7 +132,7 @@ impl CommandLog {
         let cur_kern_index = self.kern_pointer.load(Ordering::SeqCst);
         ensure!(cur_kern_index < self.commit_pointer.load(Ordering::SeqCst));
 
-        let process_index = cur_kern_index + 1;
+        let process_index = self.next_process_index(cur_kern_index);
         let e = self.get_entry(process_index).await?;
         let command = Command::deserialize(&e.command);
 
diff --git a/sorock/src/process/command_log/mod.rs b/sorock/src/process/command_log/mod.rs
index ccc0bb5..cc29b23 100644
--- a/sorock/src/process/command_log/mod.rs
+++ b/sorock/src/process/command_log/mod.rs
@@ -69,6 +69,8 @@ impl CommandLog {
             // so we can restart from installing the snapshot.
             snapshot_index - 1
         };
+        self.snapshot_pointer
+            .store(snapshot_index, Ordering::SeqCst);
         self.commit_pointer.store(start_index, Ordering::SeqCst);
         self.kern_pointer.store(start_index, Ordering::SeqCst);
         self.user_pointer.store(start_index, Ordering::SeqCst);
diff --git a/sorock/src/process/command_log/producer.rs b/sorock/src/process/command_log/producer.rs
index 1556f82..630fb2e 100644
--- a/sorock/src/process/command_log/producer.rs
+++ b/sorock/src/process/command_log/producer.rs
@@ -65,6 +65,10 @@ impl CommandLog {
             return Ok(());
         }
 
+        if self.already_inserted(entry.this_clock).await? {
+            return Ok(());
+        }
+
         let snapshot_index = entry.this_clock.index;
         warn!(
             "log is too old. replicated a snapshot (idx={}) from leader",
@@ -86,9 +90,30 @@ impl CommandLog {
         Ok(())
     }
 
+    async fn already_inserted(&self, clock: Clock) -> Result<bool> {
+        // Entries up to the snapshot are all committed.
+        if clock.index <= self.snapshot_pointer.load(Ordering::SeqCst) {
+            return Ok(true);
+        }
+
+        // If there is a entry with the same term and index
+        // then the entry should be the same so to skip insertion.
+        let old_clock = self
+            .storage
+            .get_entry(clock.index)
+            .await?
+            .map(|e| e.this_clock);
+        Ok(old_clock == Some(clock))
+    }
+
     pub async fn try_insert_entry(&self, entry: Entry) -> Result<TryInsertResult> {
         let _g = self.append_lock.lock().await;
 
+        // optimization to skip actual insertion.
+        if self.already_inserted(entry.this_clock).await? {
+            return Ok(TryInsertResult::SkippedInsertion);
+        }
+
         // If the entry is snapshot then we should insert this entry without consistency checks.
         // Old entries before the new snapshot will be garbage collected.
         match Command::deserialize(&entry.command) {
@@ -97,14 +122,17 @@ impl CommandLog {
                     term: _,
                     index: snapshot_index,
                 } = entry.this_clock;
+                // The entries on and after the snapshot index conflict with the leader's log.
+                if self.get_log_last_index().await? >= snapshot_index {
+                    self.storage.delete_entries_after(snapshot_index - 1).await?;
+                }
                 self.insert_snapshot(entry).await?;
 
+                // The log is processed from the snapshot because the entries before that
+                // may not be found. Requests waiting for them won't be completed.
                 self.commit_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
-                self.kern_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
-                self.user_pointer
-                    .store(snapshot_index - 1, Ordering::SeqCst);
+                    .fetch_max(snapshot_index, Ordering::SeqCst);
+                self.discard_completions(0);
 
                 return Ok(TryInsertResult::Inserted);
             }
@@ -133,19 +161,7 @@ impl CommandLog {
                     index: this_index,
                 } = entry.this_clock;
 
-                // optimization to skip actual insertion.
-                if let Some(old_clock) = self
-                    .storage
-                    .get_entry(this_index)
-                    .await?
-                    .map(|e| e.this_clock)
-                {
-                    if old_clock == entry.this_clock {
-                        // If there is a entry with the same term and index
-                        // then the entry should be the same so to skip insertion.
-                        return Ok(TryInsertResult::SkippedInsertion);
-                    }
-
+                if self.storage.get_entry(this_index).await?.is_some() {
                     // If there is a entry with a different clock
                     // then the entry and all that follow it conflict with the leader's log.
                     self.storage.delete_entries_after(prev_index).await?;
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 6232c9f..874fde8 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -120,23 +120,14 @@ impl RaftProcess {
             let command = entry.command.clone();
             let res = this.command_log.try_insert_entry(entry).await?;
 
-            let membership_index = this.command_log.membership_pointer.load(Ordering::SeqCst);
-            match res {
-                command_log::TryInsertResult::Inserted => {
-                    if insert_index <= membership_index {
-                        // The last membership may have been overwritten.
-                        this.peers.restore_state(Ref(this.voter.clone())).await?;
-                    } else {
-                        this.process_configuration_command(&command, insert_index);
-                    }
+            if std::matches!(res, command_log::TryInsertResult::Inserted) {
+                let membership_index = this.command_log.membership_pointer.load(Ordering::SeqCst);
+                if insert_index <= membership_index {
+                    // The last membership may have been overwritten.
+                    this.peers.restore_state(Ref(this.voter.clone())).await?;
+                } else {
+                    this.process_configuration_command(&command, insert_index);
                 }
-                command_log::TryInsertResult::SkippedInsertion => {
-                    // The membership may not have been processed after the previous insertion.
-                    if insert_index > membership_index {
-                        this.process_configuration_command(&command, insert_index);
-                    }
-                }
-                _ => {}
             }
             Ok(res)
         })
-- 
2.43.0


From f6f678b1d77ac7b27e9e49ee66bc2d9646ec72e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 15/27] fix: a removed leader didn't step down after compaction
 and left requests unanswered

---
 sorock/src/process/voter/stepdown.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sorock/src/process/voter/stepdown.rs b/sorock/src/process/voter/stepdown.rs
index be3814d..a5df0de 100644
--- a/sorock/src/process/voter/stepdown.rs
+++ b/sorock/src/process/voter/stepdown.rs
@@ -11,21 +11,15 @@ impl Voter {
 
         // Make sure the membership entry is truly committed
         // otherwise the configuration change entry may be lost.
-        let last_membership_change_index = {
+        // The entry may have been deleted by compaction so don't read it from the log.
+        {
+            let _lk = self.vote_lock.lock().await;
             let index = self.command_log.membership_pointer.load(Ordering::SeqCst);
             ensure!(index <= self.command_log.commit_pointer.load(Ordering::SeqCst));
-            index
-        };
 
-        let config = self
-            .command_log
-            .try_read_membership(last_membership_change_index)
-            .await?
-            .context(Error::BadLogState)?;
-        ensure!(!config.contains(&self.driver.self_node_id()));
+            let config = self.peers.read_membership();
+            ensure!(!config.contains(&self.driver.self_node_id()));
 
-        {
-            let _lk = self.vote_lock.lock().await;
             ensure!(std::matches!(
                 self.read_election_state(),
                 voter::ElectionState::Leader
@@ -33,6 +27,11 @@ impl Voter {
             info!("step down");
             self.write_election_state(voter::ElectionState::Follower);
         }
+
+        // This node won't know whether the entries after this will be committed.
+        let commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+        self.command_log.discard_completions(commit_index + 1);
+
         self.peers.transfer_leadership().await?;
 
         Ok(())
-- 
2.43.0


From dfe44bc17adb216c600fd60b90b77ca4bbcd8214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 16/27] fix: replicas forgot completed requests at different
 points of the log

The completed requests were kept for 5 seconds of the wall clock so a retried
request was executed by some replicas (or after restart) and not by the others.
---
 .../src/process/command_log/response_cache.rs | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/sorock/src/process/command_log/response_cache.rs b/sorock/src/process/command_log/response_cache.rs
index 8fbb535..398d5ef 100644
--- a/sorock/src/process/command_log/response_cache.rs
+++ b/sorock/src/process/command_log/response_cache.rs
@@ -1,24 +1,38 @@
 use super::*;
 
-struct TTLSet {
-    cache: moka::sync::Cache<String, ()>,
+use std::collections::VecDeque;
+
+/// Set of the last `capacity` keys.
+/// The elements should depend only on the insertions and not on the time
+/// because all replicas should make the same decision on the same log.
+struct FifoSet {
+    capacity: usize,
+    keys: HashSet<String>,
+    queue: VecDeque<String>,
 }
-impl TTLSet {
-    pub fn new(ttl: Duration) -> Self {
-        let builder = moka::sync::Cache::builder()
-            .initial_capacity(1000)
-            .time_to_live(ttl);
+impl FifoSet {
+    pub fn new(capacity: usize) -> Self {
         Self {
-            cache: builder.build(),
+            capacity,
+            keys: HashSet::new(),
+            queue: VecDeque::new(),
         }
     }
 
     pub fn exists(&self, k: &str) -> bool {
-        self.cache.contains_key(k)
+        self.keys.contains(k)
     }
 
-    pub fn insert(&self, k: String) {
-        self.cache.insert(k, ());
+    pub fn insert(&mut self, k: String) {
+        if !self.keys.insert(k.clone()) {
+            return;
+        }
+        self.queue.push_back(k);
+        if self.queue.len() > self.capacity {
+            if let Some(oldest) = self.queue.pop_front() {
+                self.keys.remove(&oldest);
+            }
+        }
     }
 }
 
@@ -27,13 +41,13 @@ impl TTLSet {
 /// response should be cached for a short period.
 pub struct ResponseCache {
     responses: HashMap<String, Bytes>,
-    completes: TTLSet,
+    completes: FifoSet,
 }
 impl ResponseCache {
     pub fn new() -> Self {
         Self {
             responses: HashMap::new(),
-            completes: TTLSet::new(Duration::from_secs(5)),
+            completes: FifoSet::new(10_000),
         }
     }
 
-- 
2.43.0


From 98e3b33ccb3540192991202bfa54ad5508f9d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 17/27] fix: a shard which can't process heartbeats stopped
 heartbeats of the other shards

---
 sorock/src/raft_service/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 7e11aab..07aee55 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -196,7 +196,6 @@ impl raft::raft_server::Raft for RaftService {
         let req = request.into_inner();
         let leader_id: NodeId = req.leader_id.parse().unwrap();
 
-        let mut futs = vec![];
         for (shard_id, leader_state) in req.leader_commit_states {
             let req = request::Heartbeat {
                 leader_term: leader_state.leader_term,
@@ -204,10 +203,11 @@ impl raft::raft_server::Raft for RaftService {
             };
             if let Some(process) = self.node.get_process(shard_id) {
                 let leader_id = leader_id.clone();
-                futs.push(async move { process.receive_heartbeat(leader_id, req).await });
+                // Shards are independent.
+                // A shard which fails or doesn't respond shouldn't affect the others.
+                tokio::spawn(async move { process.receive_heartbeat(leader_id, req).await.ok() });
             }
         }
-        futures::future::try_join_all(futs).await.unwrap();
         Ok(tonic::Response::new(()))
     }
 
-- 
2.43.0


From 7561e4c18fce756671f818a6c5e242f1b886d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 18/27] fix: a detached process and a dropped backend kept
 running

The peer threads and the process own each other and so does a request waiting for
the completion, and the reaper of the dropped backend looped forever.
---
 sorock/src/backends/redb/log.rs        |  4 ++++
 sorock/src/backends/redb/mod.rs        |  7 +++++--
 sorock/src/node.rs                     | 10 ++++++++--
 sorock/src/process/peer_svc/mod.rs     | 19 +++++++++++++++----
 sorock/src/process/query_queue.rs      |  5 +++++
 sorock/src/process/raft_process/mod.rs | 20 +++++++++++++++++---
 6 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/sorock/src/backends/redb/log.rs b/sorock/src/backends/redb/log.rs
index f7c2ad3..ce22cd1 100644
--- a/sorock/src/backends/redb/log.rs
+++ b/sorock/src/backends/redb/log.rs
@@ -66,6 +66,10 @@ impl Reaper {
         (this, tx)
     }
 
+    pub fn is_disconnected(&self) -> bool {
+        self.rx.is_disconnected() && self.rx.is_empty()
+    }
+
     pub fn reap(&self) -> Result<()> {
         // Blocked until the first element is received.
         let head = self.rx.recv()?;
diff --git a/sorock/src/backends/redb/mod.rs b/sorock/src/backends/redb/mod.rs
index 701a072..8a5af6f 100644
--- a/sorock/src/backends/redb/mod.rs
+++ b/sorock/src/backends/redb/mod.rs
@@ -18,8 +18,11 @@ impl Backend {
         let db = Arc::new(redb);
 
         let (reaper, tx) = log::Reaper::new(db.clone());
-        std::thread::spawn(move || loop {
-            reaper.reap().ok();
+        std::thread::spawn(move || {
+            // The thread stops when the backend and all the log stores are dropped.
+            while !reaper.is_disconnected() {
+                reaper.reap().ok();
+            }
         });
 
         Self { db, tx }
diff --git a/sorock/src/node.rs b/sorock/src/node.rs
index 4bb86e8..172c5f9 100644
--- a/sorock/src/node.rs
+++ b/sorock/src/node.rs
@@ -37,12 +37,18 @@ impl RaftNode {
 
     /// Attach a Raft process to a shard.
     pub fn attach_process(&self, shard_id: ShardId, p: RaftProcess) {
-        self.process.write().insert(shard_id, Arc::new(p));
+        let old = self.process.write().insert(shard_id, Arc::new(p));
+        if let Some(old) = old {
+            old.shutdown();
+        }
     }
 
     /// Detach a Raft process from a shard.
     pub fn detach_process(&self, shard_id: ShardId) {
-        self.process.write().remove(&shard_id);
+        let old = self.process.write().remove(&shard_id);
+        if let Some(old) = old {
+            old.shutdown();
+        }
     }
 
     pub(crate) fn get_process(&self, shard_id: ShardId) -> Option<Arc<RaftProcess>> {
diff --git a/sorock/src/process/peer_svc/mod.rs b/sorock/src/process/peer_svc/mod.rs
index 6b733e3..26eef66 100644
--- a/sorock/src/process/peer_svc/mod.rs
+++ b/sorock/src/process/peer_svc/mod.rs
@@ -38,7 +38,8 @@ struct ThreadHandles {
 pub struct Inner {
     membership: spin::RwLock<HashSet<NodeId>>,
     peer_contexts: spin::RwLock<HashMap<NodeId, PeerContexts>>,
-    peer_threads: spin::Mutex<HashMap<NodeId, ThreadHandles>>,
+    /// The threads own this object so they should be explicitly stopped. None if stopped.
+    peer_threads: spin::Mutex<Option<HashMap<NodeId, ThreadHandles>>>,
 
     command_log: Ref<CommandLog>,
     driver: RaftDriver,
@@ -59,7 +60,7 @@ impl PeerSvc {
         let inner = Inner {
             membership: HashSet::new().into(),
             peer_contexts: HashMap::new().into(),
-            peer_threads: HashMap::new().into(),
+            peer_threads: Some(HashMap::new()).into(),
             queue_rx,
             replication_tx,
             command_log,
@@ -112,6 +113,10 @@ impl PeerSvc {
             },
         );
 
+        let mut peer_threads = self.peer_threads.lock();
+        let Some(peer_threads) = peer_threads.as_mut() else {
+            return;
+        };
         let thread_handles = ThreadHandles {
             replicator_handle: thread::replication::new(
                 id.clone(),
@@ -122,14 +127,20 @@ impl PeerSvc {
             ),
             heartbeater_handle: thread::heartbeat::new(id.clone(), voter),
         };
-        self.peer_threads.lock().insert(id, thread_handles);
+        peer_threads.insert(id, thread_handles);
     }
 
     fn remove_peer(&self, id: NodeId) {
-        self.peer_threads.lock().remove(&id);
+        if let Some(peer_threads) = self.peer_threads.lock().as_mut() {
+            peer_threads.remove(&id);
+        }
         self.peer_contexts.write().remove(&id);
     }
 
+    pub fn shutdown(&self) {
+        self.peer_threads.lock().take();
+    }
+
     pub fn set_membership(&self, config: HashSet<NodeId>, index: Index, voter: Ref<Voter>) {
         let cur = self.read_membership();
 
diff --git a/sorock/src/process/query_queue.rs b/sorock/src/process/query_queue.rs
index ab09d9c..16ba3a3 100644
--- a/sorock/src/process/query_queue.rs
+++ b/sorock/src/process/query_queue.rs
@@ -49,6 +49,11 @@ impl Producer {
         self.inner.lock().push(read_index, q);
         Ok(())
     }
+
+    /// Discard all the waiting queries.
+    pub fn discard_queries(&self) {
+        self.inner.lock().pop(Index::MAX);
+    }
 }
 
 #[derive(Clone)]
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index 8542d5e..0c95b2a 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -25,7 +25,7 @@ pub struct RaftProcess {
     peers: PeerSvc,
     query_tx: query_queue::Producer,
     driver: RaftDriver,
-    _thread_handles: ThreadHandles,
+    thread_handles: spin::Mutex<Option<ThreadHandles>>,
 
     queue_tx: thread::EventProducer<thread::QueueEvent>,
     replication_tx: thread::EventProducer<thread::ReplicationEvent>,
@@ -67,7 +67,7 @@ impl RaftProcess {
 
         peers.restore_state(Ref(voter.clone())).await?;
 
-        let _thread_handles = ThreadHandles {
+        let thread_handles = ThreadHandles {
             advance_kern_handle: thread::advance_kern::new(
                 command_log.clone(),
                 voter.clone(),
@@ -106,10 +106,24 @@ impl RaftProcess {
             peers,
             query_tx,
             driver,
-            _thread_handles,
+            thread_handles: Some(thread_handles).into(),
 
             queue_tx,
             replication_tx,
         })
     }
+
+    /// Stop the process even if some requests are still waiting for the completion.
+    pub(crate) fn shutdown(&self) {
+        self.thread_handles.lock().take();
+        self.peers.shutdown();
+        self.command_log.discard_completions(0);
+        self.query_tx.discard_queries();
+    }
+}
+
+impl Drop for RaftProcess {
+    fn drop(&mut self) {
+        self.shutdown();
+    }
 }
-- 
2.43.0


From 1ede35e8d45e3d46ca4a1f9b8fa053c28fd1f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 19/27] fix: a member which hasn't received the membership
 containing itself never voted

---
 sorock/src/process/voter/election.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index 5783a86..e2cb52c 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -20,7 +20,11 @@ impl Voter {
 
         // If it is a force-vote which is set by TimeoutNow,
         // or it believes the leader has failed, it should vote.
-        let leader_failed = self.get_election_timeout().is_some();
+        // Note that it may be a member even if its own log doesn't contain the membership yet.
+        let leader_failed = self
+            .leader_failure_detector
+            .get_election_timeout()
+            .is_some();
         // The leader doesn't receive heartbeats but it doesn't think it has failed.
         let is_leader = std::matches!(self.read_election_state(), ElectionState::Leader);
         let should_vote = force_vote || (leader_failed && !is_leader);
-- 
2.43.0


From 61da2229804a63dbb5b8882474a356d6a4bf89f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 20/27] fix: an invalid or failed request caused a panic in the
 service instead of an error status

---
 sorock/src/error.rs                          |  2 +
 sorock/src/process/raft_process/responder.rs |  3 +-
 sorock/src/raft_service/mod.rs               | 64 ++++++++++++--------
 sorock/src/raft_service/stream.rs            |  2 +-
 4 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/sorock/src/error.rs b/sorock/src/error.rs
index 949ab04..ba47b05 100644
--- a/sorock/src/error.rs
+++ b/sorock/src/error.rs
@@ -5,6 +5,8 @@ use thiserror::Error;
 pub enum Error {
     #[error("log state is broken")]
     BadLogState,
+    #[error("kern request is broken")]
+    BadKernRequest,
     #[error("replication stream is broken")]
     BadReplicationStream,
     #[error("snapshot chunk is broken. error={0}")]
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index 221092f..fb5e318 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -38,7 +38,8 @@ impl RaftProcess {
             voter::ElectionState::Leader
         ) {
             let (kern_completion, rx) = completion::prepare_kern_completion();
-            let kern_req = kern_message::KernRequest::deserialize(&req.message).unwrap();
+            let kern_req = kern_message::KernRequest::deserialize(&req.message)
+                .context(Error::BadKernRequest)?;
             self.queue_new_membership(kern_req, Completion::Kern(kern_completion))
                 .await?;
 
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index 07aee55..eb4a44e 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -16,6 +16,18 @@ pub struct RaftService {
     node: RaftNode,
 }
 
+fn invalid(e: impl std::fmt::Display) -> tonic::Status {
+    tonic::Status::invalid_argument(e.to_string())
+}
+
+fn not_found(e: impl std::fmt::Display) -> tonic::Status {
+    tonic::Status::not_found(e.to_string())
+}
+
+fn failed(e: impl std::fmt::Display) -> tonic::Status {
+    tonic::Status::unknown(e.to_string())
+}
+
 #[tonic::async_trait]
 impl raft::raft_server::Raft for RaftService {
     type GetSnapshotStream = stream::SnapshotStreamOut;
@@ -34,10 +46,10 @@ impl raft::raft_server::Raft for RaftService {
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .process_user_write_request(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(raft::Response { message: resp }))
     }
 
@@ -54,10 +66,10 @@ impl raft::raft_server::Raft for RaftService {
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .process_user_read_request(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(raft::Response { message: resp }))
     }
 
@@ -73,10 +85,10 @@ impl raft::raft_server::Raft for RaftService {
         self.node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .process_kern_request(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(()))
     }
 
@@ -87,9 +99,11 @@ impl raft::raft_server::Raft for RaftService {
         let req = request.into_inner();
         let shard_id = req.shard_id;
         let req = request::RequestVote {
-            candidate_id: req.candidate_id.parse().unwrap(),
+            candidate_id: req.candidate_id.parse().map_err(invalid)?,
             candidate_clock: {
-                let clock = req.candidate_clock.unwrap();
+                let clock = req
+                    .candidate_clock
+                    .ok_or_else(|| invalid("candidate_clock is missing"))?;
                 Clock {
                     term: clock.term,
                     index: clock.index,
@@ -103,10 +117,10 @@ impl raft::raft_server::Raft for RaftService {
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .request_vote(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(raft::VoteResponse {
             vote_granted: resp,
         }))
@@ -119,15 +133,15 @@ impl raft::raft_server::Raft for RaftService {
         let req = request.into_inner();
         let shard_id = req.shard_id;
         let req = request::AddServer {
-            server_id: req.server_id.parse().unwrap(),
+            server_id: req.server_id.parse().map_err(invalid)?,
         };
         self.node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .add_server(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(()))
     }
 
@@ -138,15 +152,15 @@ impl raft::raft_server::Raft for RaftService {
         let req = request.into_inner();
         let shard_id = req.shard_id;
         let req = request::RemoveServer {
-            server_id: req.server_id.parse().unwrap(),
+            server_id: req.server_id.parse().map_err(invalid)?,
         };
         self.node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .remove_server(req)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(()))
     }
 
@@ -155,15 +169,17 @@ impl raft::raft_server::Raft for RaftService {
         request: tonic::Request<tonic::Streaming<raft::ReplicationStreamChunk>>,
     ) -> std::result::Result<tonic::Response<raft::ReplicationStreamResponse>, tonic::Status> {
         let st = request.into_inner();
-        let (shard_id, st) = stream::into_internal_replication_stream(st).await.unwrap();
+        let (shard_id, st) = stream::into_internal_replication_stream(st)
+            .await
+            .map_err(invalid)?;
         let resp = self
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .send_replication_stream(st)
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(raft::ReplicationStreamResponse {
             n_inserted: resp.n_inserted,
             log_last_index: resp.log_last_index,
@@ -181,10 +197,10 @@ impl raft::raft_server::Raft for RaftService {
             .node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .get_snapshot(req.index)
             .await
-            .unwrap();
+            .map_err(failed)?;
         let resp = stream::into_external_snapshot_stream(resp);
         Ok(tonic::Response::new(resp))
     }
@@ -194,7 +210,7 @@ impl raft::raft_server::Raft for RaftService {
         request: tonic::Request<raft::Heartbeat>,
     ) -> std::result::Result<tonic::Response<()>, tonic::Status> {
         let req = request.into_inner();
-        let leader_id: NodeId = req.leader_id.parse().unwrap();
+        let leader_id: NodeId = req.leader_id.parse().map_err(invalid)?;
 
         for (shard_id, leader_state) in req.leader_commit_states {
             let req = request::Heartbeat {
@@ -220,10 +236,10 @@ impl raft::raft_server::Raft for RaftService {
         self.node
             .get_process(shard_id)
             .context(Error::ProcessNotFound(shard_id))
-            .unwrap()
+            .map_err(not_found)?
             .send_timeout_now()
             .await
-            .unwrap();
+            .map_err(failed)?;
         Ok(tonic::Response::new(()))
     }
 }
diff --git a/sorock/src/raft_service/stream.rs b/sorock/src/raft_service/stream.rs
index 3804644..d6c9d78 100644
--- a/sorock/src/raft_service/stream.rs
+++ b/sorock/src/raft_service/stream.rs
@@ -52,7 +52,7 @@ pub async fn into_internal_replication_stream(
     };
 
     let st = request::ReplicationStream {
-        sender_id: sender_id.parse().unwrap(),
+        sender_id: sender_id.parse()?,
         leader_term,
         prev_clock,
         entries: Box::pin(entries),
-- 
2.43.0


From 2050999fedeffac1f5d1004db5e85006194e6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 21/27] fix: insertions were never answered when the database
 panics after an I/O failure

---
 sorock/src/backends/redb/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sorock/src/backends/redb/mod.rs b/sorock/src/backends/redb/mod.rs
index 8a5af6f..94375b1 100644
--- a/sorock/src/backends/redb/mod.rs
+++ b/sorock/src/backends/redb/mod.rs
@@ -21,7 +21,10 @@ impl Backend {
         std::thread::spawn(move || {
             // The thread stops when the backend and all the log stores are dropped.
             while !reaper.is_disconnected() {
-                reaper.reap().ok();
+                // The database may panic once its I/O has failed.
+                // The thread should survive, otherwise the queued insertions are never answered.
+                let reap = std::panic::AssertUnwindSafe(|| reaper.reap());
+                std::panic::catch_unwind(reap).ok();
             }
         });
 
-- 
2.43.0


From 5de1cdb7138765404d1f2071c27fe730477c3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 22/27] fix: a broken entry of a replication stream was
 inserted into the log

---
 sorock/src/process/command.rs            | 4 ++++
 sorock/src/process/raft_process/queue.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/sorock/src/process/command.rs b/sorock/src/process/command.rs
index add10d7..6953302 100644
--- a/sorock/src/process/command.rs
+++ b/sorock/src/process/command.rs
@@ -30,4 +30,8 @@ impl<'a> Command<'a> {
     pub fn deserialize(x: &[u8]) -> Command {
         bincode::deserialize(x).unwrap()
     }
+
+    pub fn is_valid(x: &[u8]) -> bool {
+        bincode::deserialize::<Command>(x).is_ok()
+    }
 }
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 874fde8..87fe1b5 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -72,6 +72,12 @@ impl RaftProcess {
                 entry.this_clock.term <= req.leader_term,
                 Error::BadReplicationStream
             );
+            // A broken entry can't be processed so it shouldn't be inserted into the log.
+            ensure!(
+                entry.this_clock.index.checked_sub(1) == Some(prev_clock.index)
+                    && Command::is_valid(&entry.command),
+                Error::BadReplicationStream
+            );
 
             self.command_log
                 .prepare_snapshot(&entry, req.sender_id.clone(), self.driver.clone())
-- 
2.43.0


From 77003c9fce8e8f4c3f210a2f7f37378361bea672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:49 +0000
Subject: [PATCH 23/27] fix: a broken replication stream caused a panic in the
 service instead of an error status

---
 sorock/src/communicator/stream.rs          | 2 +-
 sorock/src/process/api.rs                  | 2 +-
 sorock/src/process/peer_svc/replication.rs | 2 +-
 sorock/src/process/raft_process/queue.rs   | 2 +-
 sorock/src/raft_service/stream.rs          | 6 +++---
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sorock/src/communicator/stream.rs b/sorock/src/communicator/stream.rs
index b06c0ab..b3d876b 100644
--- a/sorock/src/communicator/stream.rs
+++ b/sorock/src/communicator/stream.rs
@@ -17,7 +17,7 @@ pub fn into_external_replication_stream(
     let header_stream = futures::stream::iter(header_stream);
 
     let chunk_stream = st.entries.map(|e0| {
-        e0.map(|e| {
+        e0.ok().flatten().map(|e| {
             ChunkElem::Entry(raft::ReplicationStreamEntry {
                 clock: Some(raft::Clock {
                     term: e.this_clock.term,
diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index 0946101..5f25e64 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -50,7 +50,7 @@ pub mod request {
         pub leader_term: Term,
         pub prev_clock: Clock,
         pub entries: std::pin::Pin<
-            Box<dyn futures::stream::Stream<Item = Option<ReplicationStreamElem>> + Send>,
+            Box<dyn futures::stream::Stream<Item = Result<Option<ReplicationStreamElem>>> + Send>,
         >,
     }
     pub struct ReplicationStreamElem {
diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index aa4afd7..92fa58a 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -27,7 +27,7 @@ impl PeerSvc {
                     }
                     _ => None,
                 };
-                yield e;
+                yield Ok(e);
             }
         };
 
diff --git a/sorock/src/process/raft_process/queue.rs b/sorock/src/process/raft_process/queue.rs
index 87fe1b5..0f275fd 100644
--- a/sorock/src/process/raft_process/queue.rs
+++ b/sorock/src/process/raft_process/queue.rs
@@ -61,7 +61,7 @@ impl RaftProcess {
     ) -> Result<u64> {
         let mut prev_clock = req.prev_clock;
         let mut n_inserted = 0;
-        while let Some(Some(cur)) = req.entries.next().await {
+        while let Some(Some(cur)) = req.entries.next().await.transpose()? {
             let entry = Entry {
                 prev_clock,
                 this_clock: cur.this_clock,
diff --git a/sorock/src/raft_service/stream.rs b/sorock/src/raft_service/stream.rs
index d6c9d78..9ac2b58 100644
--- a/sorock/src/raft_service/stream.rs
+++ b/sorock/src/raft_service/stream.rs
@@ -42,10 +42,10 @@ pub async fn into_internal_replication_stream(
                         this_clock: Clock { term: clock.term, index: clock.index },
                         command: command,
                     };
-                    Some(e)
+                    Ok(Some(e))
                 },
-                None => None,
-                _ => unreachable!("the replication stream entry is broken"),
+                None => Ok(None),
+                _ => Err(Error::BadReplicationStream.into()),
             };
             yield e;
         }
-- 
2.43.0


From c0795fbf8273561f3cc76378b2312442c85e0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 24/27] fix: no leader was elected when the voters were in a
 newer term than the most up-to-date node

A node whose log is behind but whose term is ahead (it has voted for a
candidate which crashed) refuses the pre-votes of the others while it can't
win the election itself. The voter now tells its term to the candidate.
---
 sorock/proto/sorock.proto                    |   1 +
 sorock/src/communicator/mod.rs               |   7 +++--
 sorock/src/generated/sorock.rs               |   2 ++
 sorock/src/generated/sorock_descriptor.bin   | Bin 8835 -> 8910 bytes
 sorock/src/process/api.rs                    |   5 ++++
 sorock/src/process/raft_process/responder.rs |  11 ++++++--
 sorock/src/process/voter/election.rs         |  26 ++++++++++++++++++-
 sorock/src/raft_service/mod.rs               |   3 ++-
 8 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/sorock/proto/sorock.proto b/sorock/proto/sorock.proto
index d772162..16aca71 100644
--- a/sorock/proto/sorock.proto
+++ b/sorock/proto/sorock.proto
@@ -80,6 +80,7 @@ message VoteRequest {
 
 message VoteResponse {
   bool vote_granted = 1;
+  uint64 term = 2;
 }
 
 message LeaderCommitState {
diff --git a/sorock/src/communicator/mod.rs b/sorock/src/communicator/mod.rs
index 62d87de..b4cbd5e 100644
--- a/sorock/src/communicator/mod.rs
+++ b/sorock/src/communicator/mod.rs
@@ -141,7 +141,7 @@ impl Communicator {
         })
     }
 
-    pub async fn request_vote(&self, req: request::RequestVote) -> Result<bool> {
+    pub async fn request_vote(&self, req: request::RequestVote) -> Result<response::RequestVote> {
         let req = raft::VoteRequest {
             shard_id: self.shard_id,
             candidate_id: req.candidate_id.to_string(),
@@ -163,6 +163,9 @@ impl Communicator {
             .request_vote(req)
             .await?
             .into_inner();
-        Ok(resp.vote_granted)
+        Ok(response::RequestVote {
+            vote_granted: resp.vote_granted,
+            term: resp.term,
+        })
     }
 }
diff --git a/sorock/src/generated/sorock.rs b/sorock/src/generated/sorock.rs
index 9870394..82064e5 100644
--- a/sorock/src/generated/sorock.rs
+++ b/sorock/src/generated/sorock.rs
@@ -115,6 +115,8 @@ pub struct VoteRequest {
 pub struct VoteResponse {
     #[prost(bool, tag = "1")]
     pub vote_granted: bool,
+    #[prost(uint64, tag = "2")]
+    pub term: u64,
 }
 #[derive(Clone, Copy, PartialEq, ::prost::Message)]
 pub struct LeaderCommitState {
diff --git a/sorock/src/generated/sorock_descriptor.bin b/sorock/src/generated/sorock_descriptor.bin
index 7b620284ce06b1c3806e6e459c5784745d0e2765..853d10d33dcd0c54b8d2f59a400cdec07f38ebf1 100644
GIT binary patch
delta 1346
zcmX|>%TE(g7{zDq++JpeJ}>3{YJ&y|nxF(xV+^PjG%+R^iWCEdgw_p3+R`UU7ybz~
zx^V5@gnz)e(}nR*@_d)?vYV6h{mz{GnE90ZoBQDf;`j1pB={rUT>oF}Zd&V5){m<v
zV<O|;l3V8a(v5$U!RJh<v~-+{%kTP2;J)oYp33zGLn))e)!vrSVKj`8h>-HFA}@$p
z<v}G=VHgS-({kH+=i=FuF-&dy;~~YxgrmK@7&iz6;_@5^g~5D~wq6f;`Oz`v;O&Sk
zdsJiRnsdnurmP2SXEtMM#I@XY-e1*-V`|q=nYcLBD2P#mKp?KbaZng61Uh^}ONK;V
zVR(c&czfazbFLzlv5LIxidDe&9y|;;u^S0351ga^*XhmPfq%821T`p%5i<>e21RZF
zg`{GTvL2F(>0whKLC0~(#UX$lUSqTmhbT_H;Q>2D@7E}h)biN*;7+Xf_h(-9j{Qj!
zmZT0P?f`+X5{E${ti&Cl5LV(2N$ODM4iLb~*BEsua|d|9%INURMTwM_C(fxm(Vw6F
z**o#I>5!rh7486munLDkA*{k3pb%C;2iz~^XnE#bn1fX`b>>GYPB|1;6?bS4NWiM9
zL8}B*bc|GwOypJP7Ma6jO)T;xt)iwvtH9L;%~1iPHPx~UjKQjl4IZS8sVnmW3<~ll
zZdwmmeJRHn-R*O+%AN=AT$%F*=YcyPnz0^DF03#owbu~O*pk2+Dq$6{M#_942$8@V
zx7QiNt~SL>9*h9%HI=z1n2dmHrsu5*u6b{RIo$7-D6*x%wbZ0l$ZSo|S%r|+4f9<f
zQX!<3+vku0?X|@V9vnbOTcvtdf@=@iJsQCK+DrGXhm`i}b58NK*AZ)M`AF%gA*&G5
w8MYhd1M4h2VJy&IS3Kpx09aSi4<<{uBLLSOF`q9faNWhVBlWR*T0dR>59Dui?f?J)

delta 1270
zcmX|>%T7~K7=_Q-XLobXhPHG=x!)QzhM);x5OrWctssesF@O{kS`DoeDo}c7a0Wg?
z6DK}_GZRM6j6(;;7jWW(7}vk~H^Y_nf9tG$JHPTD^IwBV{9Cz9L_ej!-20tezRadR
z%jnOnRz`Z>#pO5iDe_<SUQXp>t%Xb)x#PX|wbp@5`X<;3$92D!GATS0?22(cpc5n#
zq(Y}KxEl>S6+n%SF$QZ-<k<3o?OkI&dC`>fVsLx2bNIB7DI@p2H&-=M7~2msHZMgr
z3S!hU5XdWV9ux)(k#Qd43fU3HU>%5uZ25}RoKxiGR`nPyEhT(#2lpT7E!0RGdFZ|E
z{hi*555ub!rKv$tj93@~4T{_V3Q@%<<2)o4hqJapTEHrCaR^|gYm7Fc#KqwOE1~!c
z6c{w}$b0WkZ1ld&Y{y68qzxOS4rT5Dfv_@%K_RTn9iR|a<_?3@p~4*?fK{$B>QLbh
z@PJj&;fIeB86%Iq5B@~2Hv2t34vp=Qp$=8<0D-V7he08%${nB(Rz(LKtn!RJ^)Bqe
zDw;YC2PjT?6n7@>(AJTFb*B2A5>NwUq+&9WcQ(Js942dGktb;tHKm;bSL?S&1&r2I
z%PlYl>s)N|AZ^UKvLC>pAaCNP^MIW%<r$+(S{G~V1>ow+o;SDvTzzQ9c{I7O%A7Po
zLp)(i0&A$WQ@|P-`$P~Tfi-S#Fos=iisw9-02Viuz2KNkfNKulawfRu$|iHT;4M*N
zOMz>tNvDw6nx1zGA*~zsVIWc=q?JG9kUkT%#WNo4Lr7a?Vkg11huj|Z;d||+d(J~j
zd+jNwgeK^Sb+$sJbkvYj2<c?qhK0a73y&C!OwbjNc`yRjRrG_&(d~%9bw}*`B?Yd#
Oxc*L^)=ugtcmD&N#chuO

diff --git a/sorock/src/process/api.rs b/sorock/src/process/api.rs
index 5f25e64..fd6c6c2 100644
--- a/sorock/src/process/api.rs
+++ b/sorock/src/process/api.rs
@@ -61,6 +61,11 @@ pub mod request {
 
 pub mod response {
     use super::*;
+    pub struct RequestVote {
+        pub vote_granted: bool,
+        /// The term of the node who received the request.
+        pub term: Term,
+    }
     pub struct ReplicationStream {
         pub n_inserted: u64,
         pub log_last_index: Index,
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index fb5e318..aa3c2c2 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -157,7 +157,10 @@ impl RaftProcess {
         Ok(())
     }
 
-    pub(crate) async fn request_vote(&self, req: request::RequestVote) -> Result<bool> {
+    pub(crate) async fn request_vote(
+        &self,
+        req: request::RequestVote,
+    ) -> Result<response::RequestVote> {
         let candidate_term = req.vote_term;
         let candidate_id = req.candidate_id;
         let candidate_clock = req.candidate_clock;
@@ -173,6 +176,10 @@ impl RaftProcess {
                 pre_vote,
             )
             .await?;
-        Ok(vote_granted)
+        let ballot = self.voter.read_ballot().await?;
+        Ok(response::RequestVote {
+            vote_granted,
+            term: ballot.cur_term,
+        })
     }
 }
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index e2cb52c..c160c83 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -116,6 +116,20 @@ impl Voter {
         self.abandon_leadership(follower_term).await
     }
 
+    /// The node which failed to get votes moves to the newest term of the voters.
+    async fn observe_voter(&self, voter_term: Term) -> Result<()> {
+        let _lk = self.vote_lock.lock().await;
+        if voter_term > self.read_ballot().await?.cur_term {
+            self.write_election_state(ElectionState::Follower);
+            self.write_ballot(Ballot {
+                cur_term: voter_term,
+                voted_for: None,
+            })
+            .await?;
+        }
+        Ok(())
+    }
+
     /// If a node in a newer term is found, the leader moves to the term as a follower.
     /// The caller should own the `vote_lock`.
     async fn abandon_leadership(&self, newer_term: Term) -> Result<()> {
@@ -220,10 +234,12 @@ impl Voter {
         };
 
         // Get remaining votes from others.
+        let newest_term = Arc::new(AtomicU64::new(0));
         let mut vote_requests = vec![];
         for endpoint in others {
             let selfid = self.driver.self_node_id();
             let conn = self.driver.connect(endpoint);
+            let newest_term = newest_term.clone();
             vote_requests.push(async move {
                 let req = request::RequestVote {
                     candidate_id: selfid,
@@ -242,13 +258,21 @@ impl Voter {
                 let resp =
                     tokio::time::timeout(Duration::from_secs(1), conn.request_vote(req)).await;
                 match resp {
-                    Ok(Ok(granted)) => granted,
+                    Ok(Ok(resp)) => {
+                        newest_term.fetch_max(resp.term, Ordering::SeqCst);
+                        resp.vote_granted
+                    }
                     _ => false,
                 }
             });
         }
 
         let ok = quorum::join(remaining, vote_requests).await;
+        if !ok {
+            // The others don't vote in the terms before their own terms.
+            self.observe_voter(newest_term.load(Ordering::SeqCst))
+                .await?;
+        }
         Ok(ok)
     }
 
diff --git a/sorock/src/raft_service/mod.rs b/sorock/src/raft_service/mod.rs
index eb4a44e..16e5a89 100644
--- a/sorock/src/raft_service/mod.rs
+++ b/sorock/src/raft_service/mod.rs
@@ -122,7 +122,8 @@ impl raft::raft_server::Raft for RaftService {
             .await
             .map_err(failed)?;
         Ok(tonic::Response::new(raft::VoteResponse {
-            vote_granted: resp,
+            vote_granted: resp.vote_granted,
+            term: resp.term,
         }))
     }
 
-- 
2.43.0


From f9802ac60b08ae48162371cae7eff4e55ce0f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:38 +0000
Subject: [PATCH 25/27] fix: a request or an election in flight survived
 detaching the process

A request that reached the process just before it is detached was never
answered, and an election in flight could still make the detached process
the leader of a new term.
---
 sorock/src/error.rs                          |  2 ++
 sorock/src/process/mod.rs                    |  1 +
 sorock/src/process/raft_process/mod.rs       | 19 +++++++++++++++++++
 sorock/src/process/raft_process/responder.rs |  6 +++---
 sorock/src/process/voter/election.rs         | 12 ++++++------
 sorock/src/process/voter/heartbeat.rs        |  6 +++---
 sorock/src/process/voter/mod.rs              | 18 ++++++++++++++++--
 sorock/src/process/voter/stepdown.rs         |  2 +-
 8 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/sorock/src/error.rs b/sorock/src/error.rs
index ba47b05..ecc1d49 100644
--- a/sorock/src/error.rs
+++ b/sorock/src/error.rs
@@ -21,4 +21,6 @@ pub enum Error {
     PeerNotFound(NodeId),
     #[error("process not found (shard_id={0})")]
     ProcessNotFound(ShardId),
+    #[error("process is stopped")]
+    ProcessStopped,
 }
diff --git a/sorock/src/process/mod.rs b/sorock/src/process/mod.rs
index 8de601b..ba61e88 100644
--- a/sorock/src/process/mod.rs
+++ b/sorock/src/process/mod.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use std::collections::HashSet;
 use tracing::{debug, error, info, warn};
 
+use std::sync::atomic::AtomicBool;
 use std::sync::atomic::AtomicU64;
 use std::sync::atomic::Ordering;
 
diff --git a/sorock/src/process/raft_process/mod.rs b/sorock/src/process/raft_process/mod.rs
index 0c95b2a..886aea2 100644
--- a/sorock/src/process/raft_process/mod.rs
+++ b/sorock/src/process/raft_process/mod.rs
@@ -29,6 +29,9 @@ pub struct RaftProcess {
 
     queue_tx: thread::EventProducer<thread::QueueEvent>,
     replication_tx: thread::EventProducer<thread::ReplicationEvent>,
+
+    /// Becomes true when the process is stopped.
+    stopped: tokio::sync::watch::Sender<bool>,
 }
 
 impl RaftProcess {
@@ -110,15 +113,31 @@ impl RaftProcess {
 
             queue_tx,
             replication_tx,
+
+            stopped: tokio::sync::watch::Sender::new(false),
         })
     }
 
     /// Stop the process even if some requests are still waiting for the completion.
     pub(crate) fn shutdown(&self) {
+        self.voter.shutdown();
         self.thread_handles.lock().take();
         self.peers.shutdown();
         self.command_log.discard_completions(0);
         self.query_tx.discard_queries();
+        self.stopped.send_replace(true);
+    }
+
+    /// Wait for the completion unless the process is stopped.
+    async fn wait_completion<T>(&self, rx: tokio::sync::oneshot::Receiver<T>) -> Result<T> {
+        let mut stopped = self.stopped.subscribe();
+        let stopped = std::pin::pin!(async move {
+            stopped.wait_for(|x| *x).await.ok();
+        });
+        match futures::future::select(rx, stopped).await {
+            futures::future::Either::Left((resp, _)) => Ok(resp?),
+            futures::future::Either::Right(_) => bail!(Error::ProcessStopped),
+        }
     }
 }
 
diff --git a/sorock/src/process/raft_process/responder.rs b/sorock/src/process/raft_process/responder.rs
index aa3c2c2..81db8db 100644
--- a/sorock/src/process/raft_process/responder.rs
+++ b/sorock/src/process/raft_process/responder.rs
@@ -43,7 +43,7 @@ impl RaftProcess {
             self.queue_new_membership(kern_req, Completion::Kern(kern_completion))
                 .await?;
 
-            rx.await?;
+            self.wait_completion(rx).await?;
         } else {
             // This check is to avoid looping.
             ensure!(self.driver.self_node_id() != leader_id);
@@ -84,7 +84,7 @@ impl RaftProcess {
             };
             self.query_tx.register(read_index, query)?;
 
-            rx.await?
+            self.wait_completion(rx).await?
         } else {
             // This check is to avoid looping.
             ensure!(self.driver.self_node_id() != leader_id);
@@ -120,7 +120,7 @@ impl RaftProcess {
             )
             .await?;
 
-            rx.await?
+            self.wait_completion(rx).await?
         } else {
             // This check is to avoid looping.
             ensure!(self.driver.self_node_id() != leader_id);
diff --git a/sorock/src/process/voter/election.rs b/sorock/src/process/voter/election.rs
index c160c83..c63db21 100644
--- a/sorock/src/process/voter/election.rs
+++ b/sorock/src/process/voter/election.rs
@@ -10,7 +10,7 @@ impl Voter {
         force_vote: bool,
         pre_vote: bool,
     ) -> Result<bool> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
 
         let allow_update_ballot = !pre_vote;
 
@@ -112,13 +112,13 @@ impl Voter {
 
     /// The leader moves to the term of the follower if it is newer.
     pub async fn observe_follower(&self, follower_term: Term) -> Result<()> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
         self.abandon_leadership(follower_term).await
     }
 
     /// The node which failed to get votes moves to the newest term of the voters.
     async fn observe_voter(&self, voter_term: Term) -> Result<()> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
         if voter_term > self.read_ballot().await?.cur_term {
             self.write_election_state(ElectionState::Follower);
             self.write_ballot(Ballot {
@@ -155,7 +155,7 @@ impl Voter {
         // The vote lock isn't owned while waiting for votes.
         // Otherwise the node can't respond to the other nodes during the election.
         let pre_vote_term = {
-            let _lk = self.vote_lock.lock().await;
+            let _lk = self.lock_vote().await?;
             let ballot = self.read_ballot().await?;
             ballot.cur_term + 1
         };
@@ -172,7 +172,7 @@ impl Voter {
         // --- END pre-vote ---
 
         let vote_term = {
-            let _lk = self.vote_lock.lock().await;
+            let _lk = self.lock_vote().await?;
             let mut new_ballot = self.read_ballot().await?;
             let vote_term = new_ballot.cur_term + 1;
             ensure!(vote_term == pre_vote_term);
@@ -277,7 +277,7 @@ impl Voter {
     }
 
     async fn post_election(&self, vote_term: Term, ok: bool) -> Result<()> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
 
         // The node may have moved to a newer term or found the leader while waiting for votes.
         let ballot = self.read_ballot().await;
diff --git a/sorock/src/process/voter/heartbeat.rs b/sorock/src/process/voter/heartbeat.rs
index a8bacde..adba3d6 100644
--- a/sorock/src/process/voter/heartbeat.rs
+++ b/sorock/src/process/voter/heartbeat.rs
@@ -7,7 +7,7 @@ impl Voter {
         leader_term: Term,
         leader_commit: Index,
     ) -> Result<()> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
 
         if !self.accept_leader(leader_id.clone(), leader_term).await? {
             warn!("heartbeat is stale. rejected");
@@ -66,7 +66,7 @@ impl Voter {
 
     /// Follow the leader unless the leader is stale and returns the current term.
     pub async fn observe_leader(&self, leader_id: NodeId, leader_term: Term) -> Result<Term> {
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
         self.accept_leader(leader_id, leader_term).await?;
         Ok(self.read_ballot().await?.cur_term)
     }
@@ -78,7 +78,7 @@ impl Voter {
         leader_id: NodeId,
         leader_term: Term,
     ) -> Result<tokio::sync::MutexGuard<'_, ()>> {
-        let lk = self.vote_lock.lock().await;
+        let lk = self.lock_vote().await?;
         ensure!(
             self.accept_leader(leader_id.clone(), leader_term).await?,
             Error::StaleLeader(leader_id, leader_term)
diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 61b2bff..8895809 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -19,6 +19,8 @@ pub struct Inner {
 
     /// Serializing any events that may change ballot state simplifies the voter's logic.
     vote_lock: tokio::sync::Mutex<()>,
+    /// Set when the process is stopped.
+    stopped: AtomicBool,
 
     safe_term: AtomicU64,
 
@@ -42,6 +44,7 @@ impl Voter {
             state: spin::Mutex::new(ElectionState::Follower),
             ballot: Box::new(ballot_store),
             vote_lock: tokio::sync::Mutex::new(()),
+            stopped: AtomicBool::new(false),
             safe_term: AtomicU64::new(0),
             leader_failure_detector: failure_detector::FailureDetector::new(),
             command_log,
@@ -62,11 +65,22 @@ impl Voter {
         *self.state.lock() = e;
     }
 
+    /// A stopped process neither votes nor leads any more.
+    pub fn shutdown(&self) {
+        self.stopped.store(true, Ordering::SeqCst);
+    }
+
+    async fn lock_vote(&self) -> Result<tokio::sync::MutexGuard<'_, ()>> {
+        let lk = self.vote_lock.lock().await;
+        ensure!(!self.stopped.load(Ordering::SeqCst), Error::ProcessStopped);
+        Ok(lk)
+    }
+
     /// Returns the term which this node is leading.
     /// Returns None if this node isn't a leader.
     pub async fn read_leader_term(&self) -> Result<Option<Term>> {
         // The election state and the ballot should be read consistently.
-        let _lk = self.vote_lock.lock().await;
+        let _lk = self.lock_vote().await?;
         if !std::matches!(self.read_election_state(), ElectionState::Leader) {
             return Ok(None);
         }
@@ -91,7 +105,7 @@ impl Voter {
     /// While the returned lock is alive, this node doesn't move to a newer term.
     /// If `safe_term < cur_term`, any new entries are not allowed to be queued.
     pub async fn lock_for_append(&self) -> Result<(tokio::sync::MutexGuard<'_, ()>, Term)> {
-        let lk = self.vote_lock.lock().await;
+        let lk = self.lock_vote().await?;
         ensure!(std::matches!(
             self.read_election_state(),
             ElectionState::Leader
diff --git a/sorock/src/process/voter/stepdown.rs b/sorock/src/process/voter/stepdown.rs
index a5df0de..f5f057d 100644
--- a/sorock/src/process/voter/stepdown.rs
+++ b/sorock/src/process/voter/stepdown.rs
@@ -13,7 +13,7 @@ impl Voter {
         // otherwise the configuration change entry may be lost.
         // The entry may have been deleted by compaction so don't read it from the log.
         {
-            let _lk = self.vote_lock.lock().await;
+            let _lk = self.lock_vote().await?;
             let index = self.command_log.membership_pointer.load(Ordering::SeqCst);
             ensure!(index <= self.command_log.commit_pointer.load(Ordering::SeqCst));
 
-- 
2.43.0


From c11f8e007bc0d9fb271ffe5ef1abadaa3a1ba557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 26/27] fix: a deposed leader left requests unanswered when it
 wasn't a member any more

---
 sorock/src/process/voter/mod.rs      | 9 ++++++++-
 sorock/src/process/voter/stepdown.rs | 4 ----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/sorock/src/process/voter/mod.rs b/sorock/src/process/voter/mod.rs
index 8895809..cc9e0b5 100644
--- a/sorock/src/process/voter/mod.rs
+++ b/sorock/src/process/voter/mod.rs
@@ -62,7 +62,14 @@ impl Voter {
 
     pub fn write_election_state(&self, e: ElectionState) {
         info!("election state -> {e:?}");
-        *self.state.lock() = e;
+        let old = std::mem::replace(&mut *self.state.lock(), e);
+
+        // A node which isn't the leader any more may never know
+        // whether the entries after the commit index will be committed.
+        if std::matches!(old, ElectionState::Leader) && !std::matches!(e, ElectionState::Leader) {
+            let commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
+            self.command_log.discard_completions(commit_index + 1);
+        }
     }
 
     /// A stopped process neither votes nor leads any more.
diff --git a/sorock/src/process/voter/stepdown.rs b/sorock/src/process/voter/stepdown.rs
index f5f057d..6ea83a0 100644
--- a/sorock/src/process/voter/stepdown.rs
+++ b/sorock/src/process/voter/stepdown.rs
@@ -28,10 +28,6 @@ impl Voter {
             self.write_election_state(voter::ElectionState::Follower);
         }
 
-        // This node won't know whether the entries after this will be committed.
-        let commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);
-        self.command_log.discard_completions(commit_index + 1);
-
         self.peers.transfer_leadership().await?;
 
         Ok(())
-- 
2.43.0


From 242eddf1e8b0289d1d736a4c03bfd77b956fc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 27/27] fix: a replication stream of a term carried entries of
 a newer term

---
 sorock/src/process/peer_svc/replication.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sorock/src/process/peer_svc/replication.rs b/sorock/src/process/peer_svc/replication.rs
index 92fa58a..ad1ccc9 100644
--- a/sorock/src/process/peer_svc/replication.rs
+++ b/sorock/src/process/peer_svc/replication.rs
@@ -17,8 +17,11 @@ impl PeerSvc {
                 let x = command_log.get_entry(idx).await;
                 let e = match x {
                     // The log may be overwritten by a newer leader during the streaming.
-                    // The entries in the stream should form a single chain.
-                    Ok(x) if x.prev_clock == prev_clock => {
+                    // The entries in the stream should form a single chain
+                    // and shouldn't be newer than the term the stream is sent in.
+                    Ok(x)
+                        if x.prev_clock == prev_clock && x.this_clock.term <= leader_term =>
+                    {
                         prev_clock = x.this_clock;
                         Some(request::ReplicationStreamElem {
                             this_clock: x.this_clock,
-- 
2.43.0

