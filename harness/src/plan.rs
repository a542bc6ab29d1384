//! What each property's check runs.
#[derive(Clone)]
pub struct Plan {
    pub level: &'static str,
    /// Job name and the number of runs in the quick tier.
    pub jobs: Vec<(&'static str, u64)>,
    /// Events that show that the property was put to the test.
    pub relevant: Vec<&'static str>,
    /// A run is non-trivial when it has events of every group.
    pub nontrivial: Vec<Vec<&'static str>>,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}
pub const DEDUP_FINDING: &str = "a retried request id is executed again by a replica that started (restart or catch-up) from a snapshot covering its first execution, because snapshots do not carry the response cache";
const SIM: &[&str] = &[
    "Node crashes lose everything but what the stores hold; completed store operations are durable.",
    "Simulated runs are single-threaded (interleavings at await points, one virtual clock); runs whose job starts with mt_ are on several threads and the real clock, with delays injected at allocations, so their interleavings are those the machine produced.",
];
const STORE: &[&str] = &[
    "The redb engine is exercised through its real code but its own correctness is not the subject; the storage model is: writes since the last completed sync may be lost, kept, reordered or torn, synced ones are kept.",
    "The redb_model job runs real threads, so its interleavings are those the machine produced; jobs whose name is redb run simulated nodes on an in-memory database.",
];
const STORE_RULE: &str = "Each evaluation is one run of the redb backend (or of simulated nodes on it): a history of store operations of several shards drawn from (VERIF_SEED, job, number), with its crash images or injected I/O failures. Distinct: different operation history (runs of nodes: different shaping events). Non-trivial: the run contains the events listed in nontrivial_events.";
const RULE: &str = "Each evaluation is one simulated cluster run: real sorock nodes over an in-memory transport, workload, fault schedule and latencies drawn from (VERIF_SEED, job, number). Distinct: different sequence of shaping events (elections, votes, crashes, truncations, configurations, snapshots, faults) and of log insertions. Non-trivial: the run contains the events listed in nontrivial_events.";

pub fn plan(prop: &str) -> Option<Plan> {
    let (jobs, relevant, nontrivial): (
        Vec<(&'static str, u64)>,
        Vec<&'static str>,
        Vec<Vec<&'static str>>,
    ) = match prop {
        "C01" => (
            vec![
                ("chaos", 120),
                ("elect", 120),
                ("snaps", 60),
                ("lag", 60),
                ("member", 60),
                ("errs", 60),
                ("slow", 40),
                ("multi", 30),
                ("dedup_snap", 2),
                ("mt_chaos", 8),
                ("peers", 200),
                ("peers_snap", 150),
                ("late_ack", 80),
                ("cancel", 80),
            ],
            vec!["applies", "leaders", "truncations", "crashes"],
            vec![
                vec!["applies"],
                vec!["leaders"],
                vec!["crashes", "truncations", "faults"],
            ],
        ),
        "C02" => (
            vec![
                ("chaos", 140),
                ("elect", 120),
                ("snaps", 60),
                ("member", 60),
                ("redb", 40),
                ("errs", 60),
                ("slow", 40),
                ("mt_chaos", 8),
                ("peers", 250),
                ("peers_snap", 100),
                ("late_ack", 160),
            ],
            vec!["write_oks", "crashes", "leaders"],
            vec![vec!["write_oks"], vec!["crashes", "leaders"]],
        ),
        "C03" => (
            vec![
                ("reads", 160),
                ("stale", 200),
                ("peers", 100),
                ("chaos", 60),
                ("elect", 120),
                ("slow", 60),
                ("member", 40),
                ("multi", 30),
                ("mt_chaos", 8),
                ("errs", 40),
            ],
            vec!["read_oks", "write_oks", "leaders"],
            vec![vec!["read_oks"], vec!["write_oks"], vec!["leaders"]],
        ),
        "C04" => (
            vec![
                ("dups", 360),
                ("dedup_move", 200),
                ("dedup_snap", 4),
                ("snaps", 60),
                ("chaos", 60),
                ("errs", 60),
                ("dedup_window", 12),
            ],
            vec![
                "concurrent_duplicates",
                "late_retries",
                "retries",
                "write_oks",
            ],
            vec![
                vec!["retries", "concurrent_duplicates", "late_retries"],
                vec!["write_oks"],
            ],
        ),
        "C05" => (
            vec![
                ("elect", 200),
                ("peers", 300),
                ("peers_snap", 100),
                ("chaos", 80),
                ("member", 80),
                ("errs", 60),
                ("redb", 30),
                ("late_ack", 60),
            ],
            vec!["leaders", "votes", "term_adoptions", "crashes"],
            vec![vec!["votes"], vec!["leaders"]],
        ),
        "C06" => (
            vec![
                ("elect", 120),
                ("peers", 300),
                ("peers_snap", 200),
                ("chaos", 100),
                ("snaps", 60),
                ("member", 60),
                ("lag", 60),
                ("redb", 40),
                ("errs", 40),
                ("late_ack", 100),
                ("cancel", 80),
            ],
            vec![
                "log_inserts",
                "truncations",
                "conflict_overwrites",
                "leaders",
            ],
            vec![vec!["log_inserts"], vec!["leaders"]],
        ),
        "C07" => (
            vec![
                ("member", 250),
                ("member_calm", 120),
                ("member_snap", 120),
                ("stepdown", 80),
                ("mt_member", 8),
                ("peers", 150),
                ("partial", 40),
                ("late_ack", 80),
                ("cancel", 80),
                ("peers_snap", 60),
            ],
            vec![
                "config_entries",
                "membership_oks",
                "membership_outcomes_checked",
                "leaders",
            ],
            vec![vec!["config_entries"], vec!["membership_oks"]],
        ),
        "C08" => (
            vec![
                ("snaps", 160),
                ("lag", 160),
                ("member_snap", 120),
                ("multi_snap", 60),
                ("peers_snap", 300),
            ],
            vec![
                "snapshots_made",
                "snapshot_installs",
                "snapshots_fetched",
                "compactions",
                "snapshot_entries_received",
            ],
            vec![
                vec!["snapshots_made"],
                vec!["compactions"],
                vec!["snapshot_installs"],
            ],
        ),
        "C09" => (
            vec![
                ("multi", 200),
                ("multi_snap", 120),
                ("many", 24),
                ("redb", 60),
                ("redb_model", 30),
                ("mt_multi", 8),
                ("partial", 80),
            ],
            vec!["applies", "heartbeat_states", "leaders", "read_oks"],
            vec![vec!["heartbeat_states"], vec!["applies"]],
        ),
        "C12" => (
            vec![
                ("chaos", 100),
                ("elect", 80),
                ("member", 80),
                ("member_snap", 50),
                ("lag", 60),
                ("multi", 40),
                ("many", 12),
                ("errs", 50),
                ("slow", 40),
                ("calm", 40),
                ("dups", 30),
                ("detach", 60),
                ("patient", 40),
                ("mt_calm", 12),
                ("mt_multi", 8),
                ("peers", 60),
                ("peers_snap", 60),
                ("stale", 30),
                ("partial", 30),
                ("dedup_window", 4),
                ("cancel", 60),
            ],
            vec![
                "leaders",
                "max_recovery_ms",
                "write_oks",
                "read_oks",
                "patient_requests",
                "calm_requests",
                "thread_delays",
            ],
            vec![vec!["max_recovery_ms"], vec!["write_oks"]],
        ),
        "C13" => (
            vec![
                ("rejoin", 150),
                ("stepdown", 120),
                ("handover", 100),
                ("calm", 40),
                ("member_calm", 60),
            ],
            vec![
                "disturbances",
                "leadership_observations",
                "stepdowns",
                "handovers",
                "max_handover_ms",
                "max_stepdown_ms",
                "leaders",
            ],
            vec![vec!["disturbances", "stepdowns", "handovers", "leaders"]],
        ),
        "C14" => (
            vec![("badreq", 260), ("reflection", 3), ("multi", 20)],
            vec![
                "invalid_requests",
                "invalid_answered",
                "inert_answered",
                "state_comparisons",
                "valid_after_invalid",
                "reflection_methods",
                "reflection_queries",
            ],
            vec![vec!["invalid_requests", "reflection_methods"]],
        ),
        "C15" => (
            vec![("detach", 220), ("redb_drop", 40), ("partial", 40)],
            vec![
                "detaches",
                "node_drops",
                "backend_drops",
                "reattached",
                "wire_messages_watched",
                "max_takeover_ms",
            ],
            vec![vec!["detaches", "node_drops", "backend_drops"]],
        ),
        "C10" => (
            vec![("redb_model", 160), ("redb", 30)],
            vec![
                "store_ops",
                "concurrent_reads",
                "reads_during_writes",
                "full_comparisons",
                "reopens",
                "applies",
            ],
            vec![vec!["store_ops", "applies"]],
        ),
        "C11" => (
            vec![("redb_crash", 110), ("redb_fail", 110), ("redb", 30)],
            vec![
                "crash_points",
                "recovered_states",
                "crashes_during_an_operation",
                "writes_after_recovery",
                "failed_operations",
                "io_failures",
                "io_operations",
                "crashes",
            ],
            vec![vec!["recovered_states", "crashes"]],
        ),
        _ => return None,
    };
    let store = matches!(prop, "C10" | "C11");
    Some(Plan {
        level: "exploration",
        jobs,
        relevant,
        nontrivial,
        rule: if store { STORE_RULE } else { RULE },
        assumptions: if store { STORE.to_vec() } else { SIM.to_vec() },
    })
}
/// Lines of the known-findings file that concern a property.
pub fn known_findings(prop: &str) -> Vec<String> {
    std::fs::read_to_string("/verif/known-findings.txt")
        .unwrap_or_default()
        .lines()
        .filter(|l| l.contains(&format!("property={prop} ")))
        .map(|l| l.to_string())
        .collect()
}
