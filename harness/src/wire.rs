//! The harness's own reading of the wire format (independent of the generated code in /repo).
//! Unknown fields are skipped, so additions to the protocol do not disturb the monitors.
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, PartialEq, prost::Message)]
pub struct Clock {
    #[prost(uint64, tag = "1")]
    pub term: u64,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct WriteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
    #[prost(string, tag = "3")]
    pub request_id: String,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ReadRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Response {
    #[prost(bytes = "bytes", tag = "1")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct KernRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct VoteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub vote_term: u64,
    #[prost(string, tag = "3")]
    pub candidate_id: String,
    #[prost(message, optional, tag = "4")]
    pub candidate_clock: Option<Clock>,
    #[prost(bool, tag = "5")]
    pub force_vote: bool,
    #[prost(bool, tag = "6")]
    pub pre_vote: bool,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct VoteResponse {
    #[prost(bool, tag = "1")]
    pub vote_granted: bool,
    #[prost(uint64, tag = "2")]
    pub term: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct LeaderCommitState {
    #[prost(uint64, tag = "1")]
    pub leader_term: u64,
    #[prost(uint64, tag = "2")]
    pub leader_commit_index: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Heartbeat {
    #[prost(string, tag = "1")]
    pub leader_id: String,
    #[prost(map = "uint32, message", tag = "2")]
    pub leader_commit_states: HashMap<u32, LeaderCommitState>,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ReplicationStreamHeader {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub sender_id: String,
    #[prost(message, optional, tag = "3")]
    pub prev_clock: Option<Clock>,
    #[prost(uint64, tag = "4")]
    pub leader_term: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ReplicationStreamEntry {
    #[prost(message, optional, tag = "1")]
    pub clock: Option<Clock>,
    #[prost(bytes = "bytes", tag = "2")]
    pub command: bytes::Bytes,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ReplicationStreamChunk {
    #[prost(oneof = "Elem", tags = "1, 2")]
    pub elem: Option<Elem>,
}
#[derive(Clone, PartialEq, prost::Oneof)]
pub enum Elem {
    #[prost(message, tag = "1")]
    Header(ReplicationStreamHeader),
    #[prost(message, tag = "2")]
    Entry(ReplicationStreamEntry),
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ReplicationStreamResponse {
    #[prost(uint64, tag = "1")]
    pub n_inserted: u64,
    #[prost(uint64, tag = "2")]
    pub log_last_index: u64,
    #[prost(uint64, tag = "3")]
    pub term: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct GetSnapshotRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct SnapshotChunk {
    #[prost(bytes = "bytes", tag = "1")]
    pub data: bytes::Bytes,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct ServerRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub server_id: String,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct TimeoutNow {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Empty {}

// ---- commands in the log (bincode) ----
#[derive(serde::Serialize, serde::Deserialize)]
enum Raw {
    Barrier(u64),
    ClusterConfiguration {
        membership: Vec<String>,
    },
    Snapshot {
        membership: Vec<String>,
    },
    ExecuteRequest {
        #[serde(with = "serde_bytes")]
        message: Vec<u8>,
        request_id: String,
    },
    CompleteRequest {
        request_id: String,
    },
}
pub fn barrier(term: u64) -> bytes::Bytes {
    bincode::serialize(&Raw::Barrier(term)).unwrap().into()
}
pub fn membership(m: &BTreeSet<String>, snapshot: bool) -> bytes::Bytes {
    let membership = m.iter().cloned().collect();
    bincode::serialize(&if snapshot {
        Raw::Snapshot { membership }
    } else {
        Raw::ClusterConfiguration { membership }
    })
    .unwrap()
    .into()
}
pub fn exec(message: &[u8], request_id: String) -> bytes::Bytes {
    bincode::serialize(&Raw::ExecuteRequest {
        message: message.to_vec(),
        request_id,
    })
    .unwrap()
    .into()
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Barrier(u64),
    Config(BTreeSet<String>),
    Snapshot(BTreeSet<String>),
    Exec {
        message: Vec<u8>,
        request_id: String,
    },
    Complete(String),
    Bad,
}
impl Cmd {
    pub fn parse(b: &[u8]) -> Cmd {
        match bincode::deserialize::<Raw>(b) {
            Ok(Raw::Barrier(t)) => Cmd::Barrier(t),
            Ok(Raw::ClusterConfiguration { membership }) => {
                Cmd::Config(membership.into_iter().collect())
            }
            Ok(Raw::Snapshot { membership }) => Cmd::Snapshot(membership.into_iter().collect()),
            Ok(Raw::ExecuteRequest {
                message,
                request_id,
            }) => Cmd::Exec {
                message,
                request_id,
            },
            Ok(Raw::CompleteRequest { request_id }) => Cmd::Complete(request_id),
            Err(_) => Cmd::Bad,
        }
    }
    pub fn is_snapshot(&self) -> bool {
        matches!(self, Cmd::Snapshot(_))
    }
    pub fn config(&self) -> Option<&BTreeSet<String>> {
        match self {
            Cmd::Config(m) | Cmd::Snapshot(m) => Some(m),
            _ => None,
        }
    }
    /// Content hash that does not depend on the iteration order of a membership set.
    pub fn digest(&self, raw: &[u8]) -> u64 {
        match self {
            Cmd::Config(m) => {
                let mut s = String::from("C");
                for x in m {
                    s.push_str(x);
                    s.push('|');
                }
                crate::rng::hash(s.as_bytes())
            }
            _ => crate::rng::hash(raw),
        }
    }
    pub fn short(&self) -> String {
        fn m(x: &BTreeSet<String>) -> String {
            x.iter()
                .map(|s| node_of(s).map(|n| n.to_string()).unwrap_or("?".into()))
                .collect::<Vec<_>>()
                .join(",")
        }
        match self {
            Cmd::Barrier(t) => format!("Barrier({t})"),
            Cmd::Config(x) => format!("Config({})", m(x)),
            Cmd::Snapshot(x) => format!("Snapshot({})", m(x)),
            Cmd::Exec { request_id, .. } => format!("Exec({request_id})"),
            Cmd::Complete(r) => format!("Complete({r})"),
            Cmd::Bad => "Bad".into(),
        }
    }
}
pub fn uri(n: usize) -> String {
    format!("http://n{n}:1/")
}
/// Node number from its uri.
pub fn node_of(s: &str) -> Option<usize> {
    s.strip_prefix("http://n")?.split(':').next()?.parse().ok()
}
