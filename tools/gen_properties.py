#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, so that it stays consistent)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
NET="cfg(sorock_verif) connector in sorock/src/communicator/mod.rs, so that node-to-node RPCs run over an in-memory, fault-injecting transport"
L="sorock/src/process/command_log/"
prop("C01","Replicas apply one and the same command sequence",
 "For every shard, any two replicas that apply a command at the same log position apply the identical command, and each replica applies commands in increasing log order, starting from its initial or installed snapshot state, without skipping a committed command. This holds whatever crashes, restarts, partitions, message delays or losses and leader changes occur.",
 ["schedules","histories","fault_sequences","crash_points"],
 "All interleavings of client writes, elections, replication, heartbeats and storage latency on clusters of 1 to 5 replicas, with partitions, lost replies, crashes and restarts.",
 "The tests drive one healthy cluster with a counter whose value cannot tell which command was applied where; none partitions a network, restarts a replica or compares replicas with each other.",
 ["sorock/src/process/command_log/consumer.rs","sorock/src/process/command_log/producer.rs","sorock/src/process/voter/heartbeat.rs","sorock/src/process/thread/advance_commit.rs"],
 [("log consistency check before insertion",L+"producer.rs try_insert_entry"),("commit index from a majority of match indices","sorock/src/process/peer_svc/mod.rs find_new_commit_index"),("follower commit index from heartbeats","sorock/src/process/voter/heartbeat.rs receive_heartbeat"),("ordered application",L+"consumer.rs advance_user_process")],
 [("commit_pointer","highest index known committed",L+"mod.rs"),("user_pointer","highest index applied",L+"mod.rs")],
 ["RaftApp::process_write / install_snapshot calls"],NET)
prop("C02","Acknowledged writes are never lost",
 "Once a client has received a successful response to a write, the write's effect is part of every state that any replica reaches at or beyond that log position, and of every state any later leader serves. Crashing and restarting any set of replicas, partitions and leader changes never remove or replace it.",
 ["schedules","fault_sequences","crash_points","histories"],
 "All crash points of any subset of replicas (including all at once), partitions and leader changes between the acknowledgement and the observation.",
 "n3_leader_stop stops one leader once, never restarts it, and only checks that new writes are accepted; no test looks for an acknowledged write after a crash, restart or partition.",
 ["sorock/src/process/raft_process/responder.rs","sorock/src/process/raft_process/queue.rs","sorock/src/process/peer_svc/mod.rs","sorock/src/process/peer_svc/replication.rs","sorock/src/process/voter/election.rs","sorock/src/process/command_log/mod.rs"],
 [("majority commit before completion","sorock/src/process/thread/advance_commit.rs"),("vote only for an up-to-date candidate","sorock/src/process/voter/election.rs receive_vote_request"),("entry durable before it is counted",L+"mod.rs insert_entry"),("state restored from the log",L+"mod.rs restore_state")],
 [("match_index","highest index known stored at a follower","sorock/src/process/peer_svc/mod.rs")],
 ["client responses","RaftApp applications","RaftLogStore contents"],NET)
prop("C03","Client operations are linearizable",
 "For every shard, the completed reads and writes that clients issue through any replica have a total order that respects real time, in which every write returns what the application produced at its place in the order and every read reflects exactly the writes before it. Operations that fail or never answer may take effect at most once or never.",
 ["histories","schedules","fault_sequences"],
 "All concurrent client histories over all replicas of a shard under partitions, delays, crashes and leader changes.",
 "The tests issue sequential operations, or concurrent ones whose results they do not compare; reads are only tested on a stable leader.",
 ["sorock/src/process/raft_process/responder.rs","sorock/src/process/query_queue.rs","sorock/src/process/thread/query_execution.rs","sorock/src/process/command_log/consumer.rs"],
 [("read index: a query waits for the commit index at its arrival","sorock/src/process/raft_process/responder.rs process_user_read_request"),("queries run when their index is applied","sorock/src/process/query_queue.rs process"),("completions keyed by log index",L+"consumer.rs")],
 [],["client call and return events"],NET)
prop("C04","A retried write takes effect at most once",
 "A write that is sent several times with the same request id, concurrently, after a timeout, through different replicas or across a leader change, changes the state of every replica at most once, and every successful response to it is the response of that single execution. Writes with different request ids never suppress each other.",
 ["inputs","schedules","histories","fault_sequences"],
 "All patterns of duplicates of a request id: concurrent, after lost replies, through several replicas, across leader changes and replica restarts, while other requests run.",
 "n1_exec_once sends one request 100 times to a single healthy replica and compares a counter; no test retries across a leader change or restart, and none looks at the responses to duplicates.",
 ["sorock/src/process/command_log/response_cache.rs","sorock/src/process/command_log/consumer.rs"],
 [("response cache keyed by request id",L+"response_cache.rs"),("CompleteRequest entries end a request's context on all replicas",L+"consumer.rs advance_user_process")],
 [],["RaftApp::process_write calls per replica","client responses"],NET)
prop("C05","At most one leader per term and one vote per term",
 "In any term of a shard at most one replica acts as leader, each replica grants its vote to at most one candidate per term even across a crash and restart, and a replica's term never decreases. A vote is granted only to a candidate whose log is at least as up to date as the voter's.",
 ["schedules","fault_sequences","crash_points"],
 "All interleavings of concurrent elections, forced elections (TimeoutNow), stale heartbeats, partitions, message loss and restarts.",
 "No test observes terms or votes at all; elections happen at most twice per test and never concurrently by design.",
 ["sorock/src/process/voter/election.rs","sorock/src/process/voter/heartbeat.rs","sorock/src/process/voter/mod.rs","sorock/src/process/voter/quorum.rs","sorock/src/backends/redb/ballot.rs"],
 [("ballot persisted before a vote is answered","sorock/src/process/voter/election.rs receive_vote_request"),("vote lock serialises ballot changes","sorock/src/process/voter/mod.rs"),("majority of votes","sorock/src/process/voter/quorum.rs join")],
 [("ballot","term and vote","RaftBallotStore")],
 ["vote requests and answers on the wire","heartbeats","RaftBallotStore::save_ballot"],NET)
prop("C06","Logs with equal clocks are identical",
 "If the logs of two replicas hold entries with the same index and term, the entries carry the same command (or a snapshot standing for it) and the entries before them agree as well. Entries of one log are consecutive from the snapshot on, terms never decrease along it, and a replica changes its log only on behalf of the legitimate leader of its current term.",
 ["schedules","histories","fault_sequences","crash_points"],
 "All sequences of appends, conflicting suffixes, delayed, interrupted or stale replication streams, snapshots and restarts.",
 "No test reads a log through the consensus path, none makes logs diverge, and the storage unit test never looks at the entries' terms.",
 ["sorock/src/process/command_log/producer.rs","sorock/src/process/peer_svc/replication.rs","sorock/src/process/raft_process/queue.rs","sorock/src/process/command_log/mod.rs"],
 [("previous-clock check",L+"producer.rs try_insert_entry"),("append lock",L+"producer.rs append_new_entry"),("rewinding of next_index","sorock/src/process/peer_svc/replication.rs advance_replication")],
 [],["RaftLogStore contents and mutations"],NET)
prop("C07","Membership changes are serialised, durable and quorum-safe",
 "Of the AddServer and RemoveServer requests that succeed, each one's effect is in the shard's membership unless a later one reverses it, and at no time do two uncommitted changes coexist. An entry is committed only once it is stored by a majority of the newest configuration of the leader's log, and a removed leader gives up leadership.",
 ["histories","schedules","fault_sequences"],
 "All sequences and concurrent mixes of membership changes issued to any replica, interleaved with writes, crashes, partitions, leader changes and truncation of uncommitted changes.",
 "The tests add servers one at a time to a healthy cluster and remove exactly one; no test issues concurrent changes, changes that never commit, or counts the acknowledgements behind a commit.",
 ["sorock/src/process/raft_process/cluster.rs","sorock/src/process/raft_process/responder.rs","sorock/src/process/peer_svc/mod.rs","sorock/src/process/voter/stepdown.rs","sorock/src/process/command_log/membership.rs"],
 [("one uncommitted change at a time",L+"mod.rs allow_queue_new_membership"),("configuration in force once in the log","sorock/src/process/raft_process/cluster.rs process_configuration_command"),("leader outside the configuration steps down","sorock/src/process/voter/stepdown.rs")],
 [("membership_pointer","index of the newest configuration in the log",L+"mod.rs")],
 ["configuration entries in RaftLogStore","admin responses","replication and vote requests on the wire"],NET)
prop("C08","Snapshots and compaction preserve the state",
 "A replica that starts from a snapshot, because it restarted or because the leader no longer has the older entries, reaches the same application state and the same membership as one that applied the whole log. Compaction deletes only log entries covered by a snapshot and only snapshots older than the one in use, and a lagging or new replica always catches up.",
 ["histories","schedules","crash_points","fault_sequences"],
 "All points at which applications produce snapshots, compaction runs, replicas crash, restart, join or lag, and snapshot transfers are interrupted.",
 "n1_snapshot and n3_snapshot take one snapshot and never restart, crash or compare states; no test interrupts a transfer or lets a replica lag behind a compaction.",
 ["sorock/src/process/command_log/consumer.rs","sorock/src/process/command_log/mod.rs","sorock/src/process/command_log/producer.rs","sorock/src/process/app.rs","sorock/src/process/peer_svc/replication.rs"],
 [("snapshot entry replaces the log entry",L+"consumer.rs advance_snapshot_index"),("snapshot fetched before its entry is inserted",L+"producer.rs try_insert_entry"),("deletion bounded by the snapshot index",L+"mod.rs delete_old_entries / delete_old_snapshots")],
 [("snapshot_pointer","index of the snapshot in use",L+"mod.rs")],
 ["RaftApp snapshot calls","RaftLogStore::delete_entries_before"],NET)
prop("C09","Shards on one node are independent",
 "Commands, queries, votes, terms, commit indices, log entries and snapshots of one shard never reach or influence another shard that shares the same node, connection, heartbeat message or database. A fault, stall or heavy load confined to one shard does not stop the others from serving requests or keeping their leaders.",
 ["inputs","schedules","histories","configurations","fault_sequences"],
 "All numbers of shards per node, all interleavings of their traffic over shared connections, heartbeat batches and log batches, and faults confined to a subset of shards.",
 "The multi-raft tests use identical counters per shard on healthy nodes and never fail one shard while watching another.",
 ["sorock/src/communicator/heartbeat_multiplex.rs","sorock/src/communicator/mod.rs","sorock/src/raft_service/mod.rs","sorock/src/node.rs","sorock/src/backends/redb/log.rs"],
 [("heartbeats multiplexed per destination, demultiplexed per shard","sorock/src/communicator/heartbeat_multiplex.rs; sorock/src/raft_service/mod.rs send_heartbeat"),("per-shard tables in one database","sorock/src/backends/redb/log.rs"),("per-shard process map","sorock/src/node.rs")],
 [],["RaftApp calls per shard","wire messages per shard"],NET)
prop("C10","The log and ballot stores return exactly what was stored",
 "A store of a shard behaves like an ordered map from index to entry plus one ballot: for any well-formed entry (its index is the one it is inserted at, its predecessor's index is one less), reading an index returns the entry last inserted there with both its clocks and its command unchanged, deletions remove exactly the requested range, head and last index are exact, and the ballot read is the one last saved. Concurrent use of the stores of several shards of one database changes none of this.",
 ["inputs","histories","schedules"],
 "All sequences of store operations with any indices, terms, command bytes (empty to large) and node ids, from several shards and threads at once.",
 "The one unit test inserts two entries in one shard and checks only that they exist; it never compares their contents and never touches the ballot store.",
 ["sorock/src/backends/redb/log.rs","sorock/src/backends/redb/ballot.rs","sorock/src/backends/redb/mod.rs"],
 [("serialisation of entries and ballots","sorock/src/backends/redb/log.rs value; sorock/src/backends/redb/ballot.rs value"),("group commit of queued insertions","sorock/src/backends/redb/log.rs Reaper::reap")],
 [],["RaftLogStore and RaftBallotStore calls"],None)
prop("C11","Stored entries and ballots survive a crash at any point",
 "When an insertion or a ballot save has been reported as done, a crash at any later moment leaves it readable after reopening the database, and a crash before that leaves the store in a state produced by a prefix of the operations of that shard, never a torn or mixed one. A failed write is never reported as done; after an I/O failure every operation is still answered, with success or an error, and the store works again once reopened.",
 ["crash_points","fault_sequences","histories"],
 "All crash points between any two file operations of the database (unsynced writes lost, kept or torn), and all single I/O failures, over mixed workloads of several shards.",
 "All tests use an in-memory database that never crashes, is never reopened and never fails.",
 ["sorock/src/backends/redb/log.rs","sorock/src/backends/redb/ballot.rs","sorock/src/backends/redb/mod.rs"],
 [("transaction committed before callers are notified","sorock/src/backends/redb/log.rs Reaper::reap"),("ballot saved in its own transaction","sorock/src/backends/redb/ballot.rs save_ballot")],
 [],["redb StorageBackend calls","store API results"],None)
prop("C12","Service resumes within a bounded time after faults stop",
 "Once a majority of a shard's members is up and connected and no further fault occurs, within a bounded time a leader is in place, writes and reads sent to any member are answered, and all live members apply the same log. In a fault-free cluster every accepted request is answered, and successfully.",
 ["schedules","fault_sequences","histories"],
 "All fault histories (partitions, crashes, restarts, lost messages, interrupted transfers, concurrent and forced elections, membership changes) followed by a quiet period.",
 "Tests wait with generous client-side retries on healthy clusters, so a request that is never answered or an election that can block forever passes unnoticed.",
 ["sorock/src/process/voter/election.rs","sorock/src/process/voter/failure_detector.rs","sorock/src/process/peer_svc/replication.rs","sorock/src/process/thread/mod.rs","sorock/src/process/raft_process/responder.rs","sorock/src/process/raft_process/queue.rs"],
 [("randomised election timeout","sorock/src/process/voter/failure_detector.rs"),("periodic wake-up of every worker","sorock/src/process/thread/mod.rs consume_events"),("redirection to the leader","sorock/src/process/raft_process/responder.rs")],
 [],["client responses in virtual time","per-replica applied index"],NET)
prop("C13","A healthy leader keeps its role; leadership moves on request",
 "While a leader exchanges heartbeats with a majority, no election deposes it, not even when a partitioned, restarted, lagging or removed replica comes back. Sending TimeoutNow to an up-to-date member makes that member the leader within a bounded time, and removing the leader hands leadership to a remaining member.",
 ["schedules","fault_sequences","configurations"],
 "All disturbances that leave a leader connected to a majority: any minority partitioned and healed, restarted, removed or slow, one or many shards.",
 "No test brings a replica back, and the one that sends TimeoutNow does not check who leads afterwards.",
 ["sorock/src/process/voter/election.rs","sorock/src/process/voter/failure_detector.rs","sorock/src/process/thread/election.rs","sorock/src/process/voter/stepdown.rs","sorock/src/process/peer_svc/mod.rs"],
 [("pre-vote","sorock/src/process/voter/election.rs try_promote"),("votes withheld while a leader is heard","sorock/src/process/voter/election.rs receive_vote_request"),("leadership transfer","sorock/src/process/peer_svc/mod.rs transfer_leadership")],
 [],["heartbeats on the wire","RaftBallotStore terms"],NET)
prop("C14","Invalid requests fail cleanly",
 "A request that names an unknown shard, carries a malformed identifier or payload, or breaks the message protocol is answered with an error, changes no term, log or application state, and does not stop the node from serving later valid requests on the same or other connections (a heartbeat, which covers many shards at once, is merely ignored for the shards the node does not have). The reflection service describes exactly the operations the Raft service offers.",
 ["inputs","histories"],
 "All requests of every RPC with arbitrary field values, missing fields, wrong message order and truncated streams, interleaved with valid traffic.",
 "The tests send only well-formed requests for existing shards.",
 ["sorock/src/raft_service/mod.rs","sorock/src/raft_service/stream.rs","sorock/src/process/kern_message.rs","sorock/src/reflection_service.rs"],
 [("conversion of wire messages","sorock/src/raft_service/mod.rs"),("stream header check","sorock/src/raft_service/stream.rs")],
 [],["gRPC status of each request","stores and application state before and after"],NET)
prop("C15","A detached process or dropped node stops taking part",
 "After a process is detached from its shard or its node is dropped, it sends no further heartbeats, votes or log entries and no longer touches its stores or application, so that the remaining members can elect a new leader and a new process can be attached to the shard. A dropped database backend releases its worker and its database.",
 ["schedules","histories"],
 "All moments of detaching or dropping: as leader, follower or candidate, idle or with requests, replication or elections in flight, in single and multi-shard nodes.",
 "No test detaches a process, and dropping a test node kills its whole runtime.",
 ["sorock/src/node.rs","sorock/src/process/raft_process/mod.rs","sorock/src/process/thread/mod.rs","sorock/src/process/peer_svc/mod.rs","sorock/src/backends/redb/mod.rs"],
 [("thread handles abort their task when dropped","sorock/src/process/thread/mod.rs ThreadHandle"),("connection handle aborts the multiplexer","sorock/src/communicator/mod.rs HandleDrop")],
 [],["wire messages, store and application calls after the detach"],NET)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
