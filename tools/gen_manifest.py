#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
SIM="runtime monitoring: online trace monitors over deterministic fault-injecting simulation of the real nodes"
NOTE="Held on the executions of this run (counts in the evidence file), not proved. "
TRUST="Trusts the in-memory transport and stores of /verif/harness to behave like a network and a durable store, tokio's paused clock, and the connector hook. "
C={
"C01":(SIM,"exploration",NOTE+"Every application, state and snapshot installation of every replica is compared online with the common sequence. "+TRUST),
"C02":(SIM,"exploration",NOTE+"Every commit is compared with what a majority stores, and every acknowledged write with the applied sequence, across crashes of any subset. "+TRUST),
"C03":(SIM+"; offline linearizability checker over client histories","exploration",NOTE+"Histories of an append-only list with unique values are decided exactly (no search). "+TRUST),
"C04":(SIM,"exploration",NOTE+"Every duplicate execution on any replica and every differing response to one request id is reported. "+TRUST),
"C05":(SIM,"exploration",NOTE+"Every vote, ballot save, leader message and barrier is checked against one vote and one leader per term. "+TRUST),
"C06":(SIM,"exploration",NOTE+"Every log insertion, truncation and compaction is checked when it happens, and all logs pairwise at the end. "+TRUST),
"C07":(SIM,"exploration",NOTE+"Every configuration entry is checked for overlap, every commit for its majority, and acknowledged changes against the final membership. "+TRUST),
"C08":(SIM,"exploration",NOTE+"Every snapshot entry, installation, compaction and snapshot deletion is checked against the applied sequence. "+TRUST),
"C09":(SIM,"exploration",NOTE+"Messages are tagged with their shard, so a crossing is seen where it is applied. "+TRUST),
"C10":("runtime monitoring: reference-model comparison of every operation of the real redb stores, with concurrent shards and readers, and trace monitors over simulated nodes on redb","exploration",NOTE+"Every read is compared with the set of versions that were current while it ran; whole contents are compared at rest and after reopening. "),
"C11":("runtime monitoring: recorded file operations replayed into crash images and injected I/O failures, recovered contents checked against the acknowledged operations","exploration",NOTE+"Crash images are taken between recorded file operations; the storage model (synced data kept, unsynced lost, kept, partial or torn) is an assumption. "),
"C12":(SIM+"; bounded liveness in virtual time","exploration",NOTE+"After the last fault the cluster must serve reads and writes through every member and converge within 180 s of virtual time. "+TRUST),
"C13":(SIM+"; bounded liveness in virtual time","exploration",NOTE+"Every leader change is attributed to a cause, hand-overs and step-downs are timed against stated bounds. "+TRUST),
"C14":("runtime monitoring: hostile requests on the wire, state of all nodes compared before and after, panics of the service watched","exploration",NOTE+"Request kinds are enumerated by hand and their contents drawn at random. "+TRUST),
"C15":(SIM+"; store, application and wire calls of detached processes watched","exploration",NOTE+"Work in flight gets a grace of 1.5 to 2 s of virtual time; dropped database backends are watched by their files and threads. "+TRUST),
}
have=[c for c in C if True]
m=dict(version=1,
 setup_cmd="cd /verif/harness && cargo build --offline",
 hooks=dict(guard="cfg(sorock_verif)",enable="RUSTFLAGS --cfg sorock_verif, set in /verif/harness/.cargo/config.toml",source_commits=["e9ea065"]),
 checks=[dict(property=c,quick_cmd=f"./check.sh {c}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {c}",technique=C[c][0],level=C[c][1],level_note=C[c][2]) for c in C],
 not_applicable=[])
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m["not_applicable"]=[dict(property=i,reason="no check yet") for i in ids if i not in C]
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
