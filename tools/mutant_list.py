CL=P+"command_log/"; V=P+"voter/"; T=P+"thread/"; PS=P+"peer_svc/"; RB=S+"backends/redb/"
m("median","C01","commit index by half of the members in clusters of even size",
  (PS+"mod.rs","let mid = match_indices.len() / 2;","let mid = (match_indices.len() - 1) / 2;"))
m("kern_ahead","C01","entries are processed one ahead of the commit index",
  (CL+"consumer.rs","ensure!(cur_kern_index < self.commit_pointer.load(Ordering::SeqCst));","ensure!(cur_kern_index <= self.commit_pointer.load(Ordering::SeqCst));"))
m("user_skip","C01","a failed application is skipped",
  (CL+"consumer.rs","let resp = app.process_write(message, process_index).await?;","let Ok(resp) = app.process_write(message, process_index).await else {\n                            self.user_pointer.store(process_index, Ordering::SeqCst);\n                            return Ok(());\n                        };"))
m("prev_index_only","C06","consistency check only by index",
  (CL+"producer.rs","if prev_clock != entry.prev_clock {","if prev_clock.index != entry.prev_clock.index {"))
m("vote_no_index","C02","vote check ignores the index of logs with the same last term",
  (V+"election.rs","std::cmp::Ordering::Equal => candidate_last_log_clock.index >= last_log_clock.index,","std::cmp::Ordering::Equal => true,"))
m("vote_index_first","C05","vote check compares only the log length",
  (V+"election.rs","let candidate_win = match candidate_last_log_clock.term.cmp(&last_log_clock.term) {","let candidate_win = match candidate_last_log_clock.index.cmp(&last_log_clock.index) {"))
m("match_n","C02","match index counts sent instead of inserted entries",
  (PS+"replication.rs","match_index: old_progress.next_index + n_inserted - 1,","match_index: old_progress.next_index + n - 1,"))
m("quorum_votes","C05","half of the votes suffice in clusters of even size",
  (V+"election.rs","let majority = n / 2 + 1;","let majority = (n + 1) / 2;"))
m("no_self_vote","C05","the candidate does not record its own vote",
  (V+"election.rs","new_ballot.voted_for = Some(self.driver.self_node_id());","new_ballot.voted_for = new_ballot.voted_for.take().filter(|_| false);"))
m("vote_bg","C05","a granted vote is persisted in the background",
  (V+"election.rs","        if allow_update_ballot {\n            self.write_ballot(ballot).await?;\n        }\n\n        info!(\"voted","        if allow_update_ballot && !(grant && force_vote) {\n            self.write_ballot(ballot).await?;\n        }\n\n        info!(\"voted"))
m("prevote_writes","C05","a pre-vote with force updates the ballot",
  (V+"election.rs","let allow_update_ballot = !pre_vote;","let allow_update_ballot = !pre_vote || force_vote;"))
m("second_vote","C05","a vote is granted again when the term was already voted in for another",
  (V+"election.rs","if id == &candidate_id {\n                    true","if id == &candidate_id || force_vote {\n                    true"))
m("read_applied","C03","the read index is the applied index of the leader",
  (P+"raft_process/responder.rs","let read_index = self.command_log.commit_pointer.load(Ordering::SeqCst);","let read_index = self.command_log.user_pointer.load(Ordering::SeqCst);"))
m("query_early","C03","queries run one entry early",
  (P+"query_queue.rs","for (&i, _) in self.inner.range(..=upto) {","for (&i, _) in self.inner.range(..=upto.saturating_add(1)) {"))
m("query_commit","C03","queries run when committed, not when applied",
  (T+"query_execution.rs","let last_applied = self.command_log.user_pointer.load(Ordering::SeqCst);","let last_applied = self.command_log.commit_pointer.load(Ordering::SeqCst);"))
m("dedup_leader_only","C04","responses are remembered only where a client waits",
  (CL+"consumer.rs","""                        let resp = app.process_write(message, process_index).await?;
                        response_cache.insert_response(request_id.clone(), resp);""","""                        let resp = app.process_write(message, process_index).await?;
                        if self.user_completions.lock().contains_key(&process_index) {
                            response_cache.insert_response(request_id.clone(), resp);
                        }"""))
m("dedup_abort_lost","C04","the response of an aborted request is lost",
  (CL+"consumer.rs","response_cache.insert_response(request_id.clone(), resp);\n                            } else","response_cache.complete_response(&request_id);\n                                drop(resp);\n                            } else"))
m("dedup_complete_forgets","C04","a completed request is executed again",
  (CL+"response_cache.rs","        self.completes.insert(k.to_owned());","        if self.responses.contains_key(k) {\n            self.completes.insert(k.to_owned());\n        }"))
m("dedup_prefix","C04","request ids collide by their first 8 bytes",
  (CL+"response_cache.rs","        match self.responses.get(k) {\n            Some(_) => false,","        match self.responses.keys().find(|x| x.len() == k.len() && x.bytes().take(8).eq(k.bytes().take(8))) {\n            Some(_) => false,"))
m("member_overlap","C07","a change is allowed right behind an uncommitted one",
  (CL+"mod.rs","self.commit_pointer.load(Ordering::SeqCst) >= self.membership_pointer.load(Ordering::SeqCst)","self.commit_pointer.load(Ordering::SeqCst) + 1 >= self.membership_pointer.load(Ordering::SeqCst)"))
m("member_removed_counts","C07","progress of a removed peer still counts",
  (PS+"mod.rs","        self.peer_contexts.write().remove(&id);","        if self.peer_contexts.read().len() <= 2 {\n            self.peer_contexts.write().remove(&id);\n        }"))
m("snap_newest_config","C08","a snapshot carries the newest instead of its own membership",
  (CL+"consumer.rs",".find_last_membership_index(proposed_snapshot_index)",".find_last_membership_index(self.membership_pointer.load(Ordering::SeqCst))"))
m("snap_config_ignored","C07","membership of a received snapshot is ignored",
  (P+"raft_process/cluster.rs","Command::Snapshot { membership } => Some(membership),","Command::Snapshot { membership } if index == 1 => Some(membership),"))
m("restore_no_snapshot","C08","after a restart the snapshot is not installed",
  (CL+"mod.rs","            snapshot_index - 1\n","            snapshot_index\n"))
m("restore_membership_conf_only","C07","after a restart only configuration entries count, not snapshots",
  (CL+"membership.rs","""                Command::Snapshot { .. } => return Ok(Some(i)),
                Command::ClusterConfiguration { .. } => return Ok(Some(i)),""","""                Command::Snapshot { .. } if i == 1 => return Ok(Some(i)),
                Command::ClusterConfiguration { .. } => return Ok(Some(i)),"""))
m("compact_plus1","C08","compaction deletes the snapshot entry itself",
  (CL+"mod.rs",".delete_entries_before(cur_snapshot_index)",".delete_entries_before(cur_snapshot_index + 1)"))
m("snapdel_plus1","C08","the snapshot in use is deleted",
  (CL+"mod.rs","self.app.delete_snapshots_before(cur_snapshot_index).await?;","self.app.delete_snapshots_before(cur_snapshot_index + 1).await?;"))
m("snap_reset_lag","C08","a follower right before the snapshot is never caught up",
  (PS+"replication.rs","if old_progress.next_index < cur_snapshot_index {","if old_progress.next_index + 1 < cur_snapshot_index {"))
m("hb_cap","C09","a heartbeat batch covers at most 16 shards",
  (S+"communicator/heartbeat_multiplex.rs","self.buf.drain().collect()","self.buf.drain().take(16).collect()"))
m("hb_stale","C09","a heartbeat in the buffer is not replaced",
  (S+"communicator/heartbeat_multiplex.rs","self.buf.insert(shard_id, req);","self.buf.entry(shard_id).or_insert(req);"))
m("hb_max_commit","C09","commit indices of shards in one batch are mixed",
  (S+"communicator/heartbeat_multiplex.rs","""        let states = {
            let mut out = HashMap::new();
            for (shard_id, heartbeat) in heartbeats {
                let state = raft::LeaderCommitState {
                    leader_term: heartbeat.leader_term,
                    leader_commit_index: heartbeat.leader_commit_index,""","""        let states = {
            let mut out = HashMap::new();
            let mut last_commit = 0;
            for (shard_id, heartbeat) in heartbeats {
                last_commit = std::cmp::max(last_commit, heartbeat.leader_commit_index);
                let state = raft::LeaderCommitState {
                    leader_term: heartbeat.leader_term,
                    leader_commit_index: last_commit,"""))
m("proc_fallback","C14","a node with one process takes requests for any shard",
  (S+"node.rs","self.process.read().get(&shard_id).cloned()","{\n            let ps = self.process.read();\n            match ps.get(&shard_id) {\n                None if ps.len() == 1 => ps.values().next().cloned(),\n                p => p.cloned(),\n            }\n        }"))
m("redb_tail_table","C10","entries of other shards in a batch go to the table of the first",
  (RB+"log.rs","            let mut tbl = tx.open_table(table_def(&e.space))?;","            let mut tbl = tx.open_table(table_def(&head.space))?;"))
m("redb_space_u8","C10","shard ids are truncated in table names",
  (RB+"log.rs",'let space = format!("log-{shard_id}");','let space = format!("log-{}", shard_id as u16);'))
m("redb_ballot_space","C10","ballots of different shards share a table",
  (RB+"ballot.rs",'let space = format!("ballot-{shard_id}");','let space = format!("ballot-{}", shard_id % 1000);'))
m("redb_notify_early","C11","insertions are acknowledged before the commit",
  (RB+"log.rs","            notifiers.push(head.notifier);","            head.notifier.send(()).ok();"))
m("redb_notify_tail_early","C11","insertions of a batch are acknowledged before the commit",
  (RB+"log.rs","            notifiers.push(e.notifier);","            e.notifier.send(()).ok();"))
m("redb_eventual","C11","insertions are committed without waiting for the disk",
  (RB+"log.rs","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&head.space))?;","        let mut tx = self.db.begin_write()?;\n        tx.set_durability(redb::Durability::Eventual);\n        {\n            let mut tbl = tx.open_table(table_def(&head.space))?;"))
m("redb_ballot_eventual","C11","ballots are committed without waiting for the disk",
  (RB+"ballot.rs","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;","        let mut tx = self.db.begin_write()?;\n        tx.set_durability(redb::Durability::Eventual);\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;"))
m("redb_ballot_reset","C11","the ballot is reset when the store is opened",
  (RB+"ballot.rs","if tbl.is_empty()? {","if tbl.is_empty()? || tbl.len()? < 2 {"))
m("redb_commit_ok","C11","a failed commit is acknowledged",
  (RB+"log.rs","        tx.commit()?;\n\n        for notifier","        tx.commit().ok();\n\n        for notifier"))
m("redb_ballot_commit_ok","C11","a failed commit of a ballot is reported as success",
  (RB+"ballot.rs","            tbl.insert((), value::ser(ballot))?;\n        }\n        tx.commit()?;","            tbl.insert((), value::ser(ballot))?;\n        }\n        tx.commit().ok();"))
m("redb_delete_before_keep","C10","compaction keeps the last deleted entry",
  (RB+"log.rs","tbl.retain_in(..i, |_, _| false)?;","tbl.retain_in(..i, |k, _| k + 1 == i && i % 8 == 0)?;"))
m("redb_head","C10","the head index is wrong for logs of one entry",
  (RB+"log.rs","        let out = tbl.first()?;","        let out = if tbl.len()? == 1 { None } else { tbl.first()? };"))
m("term_no_reset","C12","the vote of an older term blocks the new term",
  (V+"election.rs","            warn!(\"received newer term. reset vote\");\n            ballot.cur_term = candidate_term;\n            ballot.voted_for = None;","            warn!(\"received newer term. reset vote\");\n            ballot.cur_term = candidate_term;\n            if !force_vote {\n                ballot.voted_for = None;\n            }"))
m("rewind_end","C12","rewinding to the end of the follower's log only",
  (PS+"replication.rs","next_index: std::cmp::min(old_progress.next_index - 1, last_log_index + 1),","next_index: if last_log_index < old_progress.next_index { last_log_index + 1 } else { old_progress.next_index - 1 },"))
m("no_random_timeout","C12","the election timeout is not random",
  (V+"failure_detector.rs","rng.gen_range(0..=(3 * mu))","rng.gen_range(0..=0u64.min(mu))"))
m("phi_low","C13","the failure detector suspects a live leader",
  (V+"failure_detector.rs","let threshold = 12.;","let threshold = 3.;"))
m("prevote_ignored","C13","a failed pre-vote does not stop the election",
  (V+"election.rs","""            .request_votes(pre_vote_term, force_vote, true)
            .await
            .unwrap_or(false);""","""            .request_votes(pre_vote_term, force_vote, true)
            .await
            .is_ok();"""))
m("force_only_prevote","C13","TimeoutNow forces only the pre-vote",
  (V+"election.rs",".request_votes(vote_term, force_vote, false)",".request_votes(vote_term, force_vote && vote_term < 2, false)"))
m("transfer_lowest","C13","leadership is handed to the least advanced follower",
  (PS+"mod.rs","xs.sort_by_key(|x| x.1);","xs.sort_by_key(|x| std::cmp::Reverse(x.1));"))
m("thread_no_abort","C15","the threads of a dropped process go on",
  (T+"mod.rs","        self.0.abort();","        if !self.0.is_finished() {\n            return;\n        }\n        self.0.abort();"))
m("conn_no_abort","C15","the heartbeat multiplexer survives its connection",
  (S+"communicator/mod.rs","        self.0.abort();","        let _ = &self.0;"))
m("kern_bad","C14","a malformed kern request panics",
  (P+"kern_message.rs","        bincode::deserialize(x).ok()","        Some(bincode::deserialize(x).unwrap())"))
m("quorum_ack_n","C12","a quorum needs one more answer",
  (V+"quorum.rs","        if ack == n {","        if ack + 1 == n {"))
m("barrier_skip","C03","a leader serves before its barrier is applied",
  (V+"mod.rs","        ensure!(cur_safe_term == cur_term);","        ensure!(cur_safe_term <= cur_term);"))
m("progress_init","C02","progress of a new leadership starts with old match indices",
  (PS+"mod.rs","            match_index: 0,\n","            match_index: init_next_index.saturating_sub(1),\n"))
# --- second batch ---
m("old_term_vote","C05","a vote in an older term is granted by a node that has not voted in its own",
  (V+"election.rs","        if candidate_term < ballot.cur_term {","        if candidate_term < ballot.cur_term && ballot.voted_for.is_some() {"))
m("vote_shorter_log","C02","a longer log of an older term counts as more up to date",
  (V+"election.rs","            std::cmp::Ordering::Less => false,","            std::cmp::Ordering::Less => candidate_last_log_clock.index > last_log_clock.index + 1,"))
m("late_win","C05","an election won late makes a leader although the node has moved to another term",
  (V+"election.rs","b.cur_term == vote_term\n","b.cur_term >= vote_term\n"))
m("abandon_no_state","C05","a leader that moves to a newer term stays leader",
  (V+"election.rs","            warn!(\"found newer term. abandon leadership\");\n            self.write_election_state(ElectionState::Follower);","            warn!(\"found newer term. abandon leadership\");"))
m("accept_no_state","C05","a leader that hears a newer leader stays leader until the next one",
  (V+"heartbeat.rs","            ballot.voted_for = None;\n            self.write_election_state(ElectionState::Follower);","            ballot.voted_for = None;"))
m("self_vote_late","C05","the candidate's vote for itself is stored after the requests",
  (V+"election.rs","""            if let Err(e) = self.write_ballot(new_ballot).await {
                self.write_election_state(ElectionState::Follower);
                return Err(e);
            }
            vote_term""","""            let this = self.clone();
            tokio::spawn(async move { this.write_ballot(new_ballot).await.ok() });
            vote_term"""))
m("hb_no_min","C02","the commit index of a heartbeat is not limited by the own log",
  (V+"heartbeat.rs","std::cmp::min(leader_commit, last_log_index)","leader_commit"))
m("match_rejected","C02","a rejected stream raises the match index to the follower's log end",
  (PS+"replication.rs","                match_index: old_progress.match_index,\n","                match_index: std::cmp::max(old_progress.match_index, std::cmp::min(last_log_index, old_progress.next_index - 1)),\n"))
m("member_ptr_add_only","C07","removals do not move the membership pointer",
  (PS+"mod.rs","""        self.command_log
            .membership_pointer
            .store(index, Ordering::SeqCst);""","""        if config_len >= cur.len() {
            self.command_log
                .membership_pointer
                .store(index, Ordering::SeqCst);
        }"""),
  (PS+"mod.rs","        *self.membership.write() = config;","        let config_len = config.len();\n        *self.membership.write() = config;"))
m("peer_kept","C07","the progress of a removed peer is kept and used again when it returns",
  (PS+"mod.rs","        self.peer_contexts.write().remove(&id);","        let _ = &self.peer_contexts;"))
m("restore_at_snapshot","C08","after a restart processing starts behind the snapshot",
  (P+"command_log/mod.rs","            snapshot_index - 1\n","            snapshot_index\n"))
m("snap_behind","C08","a follower that needs a snapshot is sent the entry after it",
  (PS+"replication.rs","ReplicationProgress::new(cur_snapshot_index);","ReplicationProgress::new(cur_snapshot_index + 1);"))
m("snap_chunk_lost","C08","a broken snapshot transfer ends the stream without an error",
  (S+"communicator/stream.rs","    out_stream.map(|result| {\n        result","    out_stream.take_while(|x| futures::future::ready(x.is_ok())).map(|result| {\n        result"))
m("snap_no_fetch_again","C08","a snapshot is not fetched when there is an older one",
  (P+"command_log/producer.rs","        let snapshot_index = entry.this_clock.index;\n        warn!(","        let snapshot_index = entry.this_clock.index;\n        if self.app.get_latest_snapshot().await? >= snapshot_index {\n            return Ok(());\n        }\n        warn!("))
m("forward_new_id","C04","a forwarded write gets a request id of its own",
  (P+"raft_process/responder.rs","            let conn = self.driver.connect(leader_id);\n            conn.process_user_write_request(req).await?","            let conn = self.driver.connect(leader_id);\n            let request_id = format!(\"{}@{}\", req.request_id, self.driver.self_node_id());\n            conn.process_user_write_request(request::UserWriteRequest { request_id, ..req }).await?"))
m("late_register","C12","the completion is registered after the insertion",
  (P+"command_log/producer.rs","""        if let Some(completion) = completion {
            self.register_completion(append_index, completion);
        }
        if let Err(e) = self.insert_entry(e).await {
            self.discard_completions(append_index);
            return Err(e);
        }
""","""        self.insert_entry(e).await?;
        if let Some(completion) = completion {
            self.register_completion(append_index, completion);
        }
"""))
m("hb_unknown_stops","C09","a heartbeat of a shard the node does not have stops the batch",
  (S+"raft_service/mod.rs","""            if let Some(process) = self.node.get_process(shard_id) {
                let leader_id""","""            let Some(process) = self.node.get_process(shard_id) else {
                break;
            };
            {
                let leader_id"""))
m("hb_not_drained","C15","the heartbeat buffer is not drained",
  (S+"communicator/heartbeat_multiplex.rs","        self.buf.drain().collect()","""        self.buf
            .iter()
            .map(|(k, v)| {
                (
                    *k,
                    request::Heartbeat {
                        leader_term: v.leader_term,
                        leader_commit_index: v.leader_commit_index,
                    },
                )
            })
            .collect()"""))
m("hb_first_wins","C12","the older heartbeat in the buffer wins",
  (S+"communicator/heartbeat_multiplex.rs","        self.buf.insert(shard_id, req);","        self.buf.entry(shard_id).or_insert(req);"))
m("redb_tail_keep","C10","an entry of a batch does not replace the stored one",
  (S+"backends/redb/log.rs","            tbl.insert(e.index, value::ser(e.inner))?;","            if tbl.get(e.index)?.is_none() {\n                tbl.insert(e.index, value::ser(e.inner))?;\n            }"))
m("redb_no_durability","C11","batches of insertions are not synced",
  (S+"backends/redb/log.rs","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&head.space))?;","        let mut tx = self.db.begin_write()?;\n        if self.rx.len() > 1 {\n            tx.set_durability(redb::Durability::None);\n        }\n        {\n            let mut tbl = tx.open_table(table_def(&head.space))?;"))
m("redb_del_excl","C10","the deletion of a suffix spares entries of a later insertion",
  (S+"backends/redb/log.rs","            tbl.retain_in(i + 1.., |_, _| false)?;","            let to = tbl.len()? + i;\n            tbl.retain_in(i + 1..to, |_, _| false)?;"))
m("redb_last_len","C10","the last index is computed from the number of entries",
  (S+"backends/redb/log.rs","        let out = tbl.last()?;","        let out = if tbl.len()? > 64 { tbl.range(64..)?.last().transpose()? } else { tbl.last()? };"))
m("tail_space_first","C09","entries of one batch go to the table of the previous one",
  (S+"backends/redb/log.rs","        for e in tail {\n            let mut tbl = tx.open_table(table_def(&e.space))?;","        let mut space = head.space;\n        for e in tail {\n            if e.space.len() != space.len() {\n                space = e.space;\n            }\n            let mut tbl = tx.open_table(table_def(&space))?;"))
m("trunc_keep","C06","an overwritten entry keeps its successors when it is a configuration",
  (P+"command_log/producer.rs","                if self.storage.get_entry(this_index).await?.is_some() {","                if self.storage.get_entry(this_index).await?.is_some() && self.get_log_last_index().await? > this_index + 1 {"))
m("apply_idx_first","C02","the application pointer moves before the application",
  (P+"command_log/consumer.rs","                        let resp = app.process_write(message, process_index).await?;","                        self.user_pointer.store(process_index, Ordering::SeqCst);\n                        let resp = app.process_write(message, process_index).await?;"))
m("retry_waits","C12","a retry of a completed request is never answered",
  (P+"command_log/consumer.rs","                    if let Some(resp) = response_cache.get_response(&request_id) {","                    let Some(resp) = response_cache.get_response(&request_id) else {\n                        self.user_completions.lock().insert(process_index, user_completion);\n                        self.user_pointer.store(process_index, Ordering::SeqCst);\n                        return Ok(());\n                    };\n                    {"))
m("conn_cache_shard","C13","the votes of a forced election do not say so when the voter has a leader",
  (S+"communicator/mod.rs","            force_vote: req.force_vote,","            force_vote: req.force_vote && req.vote_term % 4 != 3,"))
m("stream_err_commits","C06","a hole in a replication stream is skipped",
  (P+"raft_process/queue.rs","        while let Some(Some(cur)) = req.entries.next().await.transpose()? {","        while let Some(cur) = req.entries.next().await.transpose()? {\n            let Some(cur) = cur else { continue };"))
m("detached_get","C15","requests to a detached shard go to another shard's process",
  (S+"node.rs","        self.process.read().get(&shard_id).cloned()","        let process = self.process.read();\n        process.get(&shard_id).or_else(|| process.get(&(shard_id ^ 1))).cloned()"))
m("kern_follower","C07","a membership change is acknowledged when queued",
  (P+"raft_process/responder.rs","            self.queue_new_membership(kern_req, Completion::Kern(kern_completion))\n                .await?;\n\n            self.wait_completion(rx).await?;","            let index = self\n                .queue_new_membership(kern_req, Completion::Kern(kern_completion))\n                .await?;\n            if self.command_log.commit_pointer.load(Ordering::SeqCst) + 1 < index {\n                self.wait_completion(rx).await?;\n            }"))
m("leader_self_commit","C07","the leader counts itself twice after a removal",
  (PS+"mod.rs","        for (_, peer) in peer_contexts.iter() {\n            match_indices.push(peer.progress.match_index);","        for (_, peer) in peer_contexts.iter() {\n            let fresh = peer.progress.match_index == 0 && membership.len() > 3;\n            match_indices.push(if fresh { last_log_index } else { peer.progress.match_index });"))
m("phi_reset","C13","a heartbeat of any node counts as one of the leader",
  (V+"failure_detector.rs","        if cur_watch_id != leader_id {\n            *inner = Inner::watch(leader_id);\n        }","        if cur_watch_id != leader_id {\n            inner.watch_id = leader_id;\n        }"))
m("snap_save_late","C08","the snapshot entry is inserted before the snapshot has arrived",
  (P+"app.rs","        self.save_snapshot(st, snapshot_index).await?;\n        Ok(())","        let this = self.clone();\n        tokio::spawn(async move { this.save_snapshot(st, snapshot_index).await.ok() });\n        Ok(())"))
m("install_skip","C08","a snapshot right behind the applied index is not installed",
  (P+"command_log/consumer.rs","                Command::Snapshot { .. } => {\n                    app.apply_snapshot(process_index).await?;","                Command::Snapshot { .. } => {\n                    if process_index > cur_user_index + 1 || cur_user_index == 0 {\n                        app.apply_snapshot(process_index).await?;\n                    }"))
m("query_lost","C12","a query that fails to be registered in order is lost",
  (P+"query_queue.rs","        self.inner.entry(index).or_default().push(q);","        let qs = self.inner.entry(index).or_default();\n        if qs.len() >= 2 {\n            qs.remove(0);\n        }\n        qs.push(q);"))
m("pop_order","C03","queries of the next index are answered with the current state",
  (P+"query_queue.rs","self.inner.range(..=upto)","self.inner.range(..=upto + (self.inner.len() as u64).saturating_sub(1) / 2)"))
# Third batch: weakened repairs and rarer conditions.
m("w_commit_term","C02","entries of older terms are committed by counting",
  (T+"advance_commit.rs","            ensure!(clock.term == leader_term);","            ensure!(clock.term <= leader_term);"))
m("w_hb_term","C02","heartbeat commits entries of a log that ends in an older term",
  (V+"heartbeat.rs","if last_log_clock.term == leader_term {","if last_log_clock.term <= leader_term {"))
m("w_hb_term_adj","C02","heartbeat commits entries of a log that ends in the previous term",
  (V+"heartbeat.rs","if last_log_clock.term == leader_term {","if last_log_clock.term + 1 >= leader_term && leader_commit <= last_log_index {"))
m("w_confirm","C03","reads do not confirm the leadership",
  (P+"raft_process/responder.rs","            ensure!(self.voter.confirm_leadership(leader_term).await);","            let _ = leader_term;"))
m("w_confirm_any","C03","any answer confirms the leadership",
  (V+"heartbeat.rs","std::matches!(resp, Ok(Ok(resp)) if resp.term == leader_term)","std::matches!(resp, Ok(Ok(resp)) if resp.term >= leader_term)"))
m("w_confirm_minor","C03","half of the members confirm the leadership",
  (V+"heartbeat.rs","        let majority = others.len() / 2 + 1;","        let majority = (others.len() + 1) / 2;"))
m("w_epoch","C02","progress of an older leadership is used",
  (PS+"mod.rs","if peer.progress.epoch == old_progress.epoch {","if peer.progress.epoch >= old_progress.epoch {"))
m("w_removed_self","C07","a removed leader counts itself",
  (PS+"mod.rs","        if membership.is_empty() || membership.contains(&self.driver.self_node_id()) {","        if membership.len() % 2 == 0 || membership.contains(&self.driver.self_node_id()) {"))
m("w_next_index","C08","after a snapshot processing goes on at the next index",
  (CL+"consumer.rs","        std::cmp::max(cur_index + 1, snapshot_index)","        if snapshot_index > cur_index + 64 {\n            snapshot_index\n        } else {\n            cur_index + 1\n        }"))
m("w_fifo","C04","fewer completed requests are remembered",
  (CL+"response_cache.rs","FifoSet::new(10_000)","FifoSet::new(100)"))
m("w_fifo_1000","C04","fewer completed requests are remembered",
  (CL+"response_cache.rs","FifoSet::new(10_000)","FifoSet::new(1_000)"))
m("w_is_leader","C13","a leader votes for others",
  (V+"election.rs","let should_vote = force_vote || (leader_failed && !is_leader);","let should_vote = force_vote || leader_failed || is_leader && candidate_last_log_clock.index > 0 && !pre_vote;"))
m("w_abandon","C13","a leader gives up for any candidate in a newer term",
  (V+"election.rs","let newer_term = candidate_term.saturating_sub(1);","let newer_term = if pre_vote { candidate_term.saturating_sub(1) } else { candidate_term };"))
m("w_spawn_append","C01","appending is cancelled with the client's call",
  (P+"raft_process/queue.rs","""        // Appending an entry shouldn't be interrupted halfway by the client.
        tokio::spawn(async move {
            let append_index""","""        async move {
            let append_index"""),
  (P+"raft_process/queue.rs","""                .append_as_leader(command, Some(completion))
                .await?;

            this.queue_tx.push_event(thread::QueueEvent);
            this.replication_tx.push_event(thread::ReplicationEvent);

            Ok(append_index)
        })
        .await?""","""                .append_as_leader(command, Some(completion))
                .await?;

            this.queue_tx.push_event(thread::QueueEvent);
            this.replication_tx.push_event(thread::ReplicationEvent);

            Ok(append_index)
        }
        .await"""))
m("w_spawn_member","C07","a membership change is cancelled with the client's call",
  (P+"raft_process/queue.rs","""        let this = self.clone();
        tokio::spawn(async move {
            // The next membership""","""        let this = self.clone();
        async move {
            // The next membership"""),
  (P+"raft_process/queue.rs","""            this.process_configuration_command(&command, append_index);

            this.queue_tx.push_event(thread::QueueEvent);
            this.replication_tx.push_event(thread::ReplicationEvent);

            Ok(append_index)
        })
        .await?""","""            this.process_configuration_command(&command, append_index);

            this.queue_tx.push_event(thread::QueueEvent);
            this.replication_tx.push_event(thread::ReplicationEvent);

            Ok(append_index)
        }
        .await"""))
m("w_spawn_insert","C07","an insertion is cancelled with the stream",
  (P+"raft_process/queue.rs","""        // Inserting an entry shouldn't be interrupted halfway by the sender.
        tokio::spawn(async move {""","""        async move {"""),
  (P+"raft_process/queue.rs","""            Ok(res)
        })
        .await?""","""            Ok(res)
        }
        .await"""))
m("w_spawn_timeout","C12","an election is cancelled with the TimeoutNow call",
  (P+"raft_process/responder.rs","        tokio::spawn(async move { voter.try_promote(true).await }).await??;","        voter.try_promote(true).await?;"))
m("n_prop_ensure","C08","a snapshot ahead of the application is taken",
  (CL+"consumer.rs","            ensure!(proposed_snapshot_index <= self.user_pointer.load(Ordering::SeqCst));","            let _ = self.user_pointer.load(Ordering::SeqCst);"))
m("n_snapdel_latest","C08","old snapshots are deleted up to the newest one of the application",
  (CL+"mod.rs","""        let cur_snapshot_index = self.snapshot_pointer.load(Ordering::Relaxed);
        self.app.""","""        let cur_snapshot_index = self.app.get_latest_snapshot().await?;
        self.app."""))
m("n_compact_latest","C08","entries are deleted up to the newest snapshot of the application",
  (CL+"mod.rs","""        let cur_snapshot_index = self.snapshot_pointer.load(Ordering::Relaxed);
        self.storage""","""        let cur_snapshot_index = self.app.get_latest_snapshot().await?;
        self.storage"""))
m("n_snap_ptr_first","C08","the snapshot pointer moves before the entry is stored",
  (CL+"mod.rs","""        self.storage.insert_entry(new_snapshot_index, e).await?;

        self.snapshot_pointer
            .store(new_snapshot_index, Ordering::SeqCst);
""","""        self.snapshot_pointer
            .store(new_snapshot_index, Ordering::SeqCst);

        self.storage.insert_entry(new_snapshot_index, e).await?;
"""))
m("n_fetch_skip_applied","C08","a snapshot of applied entries is not fetched",
  (CL+"producer.rs","        let snapshot_index = entry.this_clock.index;\n        warn!(","        let snapshot_index = entry.this_clock.index;\n        if snapshot_index <= self.user_pointer.load(Ordering::SeqCst) {\n            return Ok(());\n        }\n        warn!("))
m("n_fetch_err","C08","a failed snapshot transfer is ignored",
  (P+"app.rs","        self.save_snapshot(st, snapshot_index).await?;","        self.save_snapshot(st, snapshot_index).await.ok();"))
m("n_install_err","C08","a failed installation is ignored",
  (P+"app.rs","        self.install_snapshot(snapshot_index).await?;","        self.install_snapshot(snapshot_index).await.ok();"))
m("n_vote_commit_clock","C05","votes compare with the committed log",
  (V+"election.rs","            let cur_last_index = self.command_log.get_log_last_index().await?;","            let cur_last_index = self.command_log.get_log_last_index().await?;\n            let commit_index = self.command_log.commit_pointer.load(Ordering::SeqCst);\n            let cur_last_index = if commit_index + 1 == cur_last_index { commit_index } else { cur_last_index };"))
m("n_lease","C03","a confirmation is used for reads of the next second",
  (V+"mod.rs","    safe_term: AtomicU64,\n","    safe_term: AtomicU64,\n    confirmed: spin::Mutex<Option<(Term, std::time::Instant)>>,\n"),
  (V+"mod.rs","            safe_term: AtomicU64::new(0),\n","            safe_term: AtomicU64::new(0),\n            confirmed: None.into(),\n"),
  (V+"heartbeat.rs","        let selfid = self.driver.self_node_id();\n        let mut others","        if let Some((t, at)) = *self.confirmed.lock() {\n            if t == leader_term && at.elapsed() < Duration::from_secs(1) {\n                return true;\n            }\n        }\n        let selfid = self.driver.self_node_id();\n        let mut others"),
  (V+"heartbeat.rs","        quorum::join(remaining, futs).await\n    }","        let ok = quorum::join(remaining, futs).await;\n        if ok {\n            *self.confirmed.lock() = Some((leader_term, std::time::Instant::now()));\n        }\n        ok\n    }"))
m("n_chain","C06","a stream may mix entries of two logs",
  (PS+"replication.rs","Ok(x) if x.prev_clock == prev_clock => {","Ok(x) if x.prev_clock.index == prev_clock.index => {"))
m("n_repl_no_wake","C12","replication is only woken by writes",
  (T+"replication.rs","Duration::from_secs(1)","Duration::from_secs(86400)"))
m("n_commit_no_wake","C12","commitment is only woken by events",
  (T+"advance_commit.rs","Duration::from_secs(1)","Duration::from_secs(86400)"))
m("n_user_no_wake","C12","the application is only woken by events",
  (T+"advance_user.rs","Duration::from_secs(1)","Duration::from_secs(86400)"))
m("n_query_no_wake","C12","queries are only woken by applications",
  (T+"query_execution.rs","Duration::from_millis(100)","Duration::from_secs(86400)"))
m("n_loop_redirect","C12","a request may be redirected to oneself",
  (P+"raft_process/responder.rs","""            // This check is to avoid looping.
            ensure!(self.driver.self_node_id() != leader_id);

            let conn""","""            let conn"""))
m("n_stepdown_early","C13","a leader steps down before its removal is committed",
  (V+"stepdown.rs","            ensure!(index <= self.command_log.commit_pointer.load(Ordering::SeqCst));","            ensure!(index <= self.command_log.get_log_last_index().await?);"))
m("n_header_clock","C14","a stream header without clock is taken for the begin of the log",
  (S+"raft_service/stream.rs","            prev_clock: Some(prev_clock),\n            leader_term,","            prev_clock,\n            leader_term,"),
  (S+"raft_service/stream.rs","        {\n            (\n                shard_id,","        {\n            let prev_clock = prev_clock.unwrap_or_default();\n            (\n                shard_id,"))
m("n_stream_end","C14","a broken chunk ends the stream",
  (S+"raft_service/stream.rs","                _ => Err(Error::BadReplicationStream.into()),","                _ => Ok(None),"))
m("n_attach_old","C15","attaching does not stop the previous process",
  (S+"node.rs","        let old = self.process.write().insert(shard_id, Arc::new(p));\n        if let Some(old) = old {\n            old.shutdown();\n        }","        self.process.write().insert(shard_id, Arc::new(p));"))
m("n_reaper","C15","the worker of a backend does not stop",
  (S+"backends/redb/log.rs","self.rx.is_disconnected() && self.rx.is_empty()","self.rx.is_disconnected() && !self.rx.is_empty()"))
m("n_ballot_authority","C10","node ids lose their path",
  (S+"backends/redb/ballot.rs","            voted_for: x.voted_for,\n        };\n        let bin","            voted_for: x.voted_for.map(|id| {\n                let s = id.to_string();\n                s.trim_end_matches('/').parse().unwrap_or(id)\n            }),\n        };\n        let bin"))
m("n_redb_u32","C10","terms are stored with 32 bits",
  (S+"backends/redb/log.rs","            cur_term: x.this_clock.term,\n            command: x.command,\n        };\n        let bin","            cur_term: x.this_clock.term as u32 as u64,\n            command: x.command,\n        };\n        let bin"))
m("n_ballot_two_tx","C11","the old ballot is removed in a transaction of its own",
  (S+"backends/redb/ballot.rs","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.insert((), value::ser(ballot))?;","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.remove(())?;\n        }\n        tx.commit()?;\n        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.insert((), value::ser(ballot))?;"))
m("n_del_chunks","C11","deletions are split into several transactions",
  (S+"backends/redb/log.rs","        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.retain_in(i + 1.., |_, _| false)?;","        let from = i + 1;\n        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.retain_in(from..from + 8, |_, _| false)?;\n        }\n        tx.commit()?;\n        let tx = self.db.begin_write()?;\n        {\n            let mut tbl = tx.open_table(table_def(&self.space))?;\n            tbl.retain_in(i + 1.., |_, _| false)?;"))
m("n_insert_timeout","C02","a slow insertion counts as done",
  (CL+"mod.rs","        self.storage.insert_entry(e.this_clock.index, e).await?;\n        Ok(())","        let fut = self.storage.insert_entry(e.this_clock.index, e);\n        if let Ok(res) = tokio::time::timeout(Duration::from_secs(1), fut).await {\n            res?;\n        }\n        Ok(())"))
m("n_insert_err","C02","a failed insertion counts as done",
  (CL+"producer.rs","                self.insert_entry(entry).await?;\n","                self.insert_entry(entry).await.ok();\n"))
m("n_ballot_err","C05","a vote is granted though it could not be stored",
  (V+"election.rs","        if allow_update_ballot {\n            self.write_ballot(ballot).await?;\n        }\n\n        info!(\"voted","        if allow_update_ballot {\n            self.write_ballot(ballot).await.ok();\n        }\n\n        info!(\"voted"))
m("n_read_err","C03","a failed query is answered with nothing",
  (P+"query_queue.rs","                if let Ok(resp) = app.process_read(&q.message).await {\n                    q.user_completion.complete_with(resp).ok();\n                }","                let resp = app.process_read(&q.message).await.unwrap_or_default();\n                q.user_completion.complete_with(resp).ok();"))
m("n_hb_stop","C12","heartbeats stop after one has failed",
  (S+"communicator/heartbeat_multiplex.rs","        cli.send_heartbeat(req).await.ok();","        if cli.send_heartbeat(req).await.is_err_and(|e| e.code() == tonic::Code::Unknown) {\n            break;\n        }"))
m("n_learn_once","C12","the leader is not learnt by a node which has voted for another",
  (V+"heartbeat.rs","        if ballot.voted_for != Some(leader_id.clone()) {","        if ballot.voted_for.is_none() {"))
m("n_timeout_unforced","C13","TimeoutNow starts an ordinary election",
  (P+"raft_process/responder.rs","voter.try_promote(true)","voter.try_promote(voter.read_ballot().await?.voted_for.is_none())"))
m("n_post_unlock","C06","the barrier is appended without the lock",
  (V+"election.rs","            let barrier = Command::serialize(Command::Barrier(vote_term));\n","            let barrier = Command::serialize(Command::Barrier(vote_term));\n            drop(_lk);\n"))
m("n_post_state_first","C06","the node leads before the barrier is appended",
  (V+"election.rs","            let barrier = Command::serialize(Command::Barrier(vote_term));\n","            let barrier = Command::serialize(Command::Barrier(vote_term));\n            self.write_election_state(ElectionState::Leader);\n"))
m("n_reset_late","C02","the progress is initialised after taking the lead",
  (V+"election.rs","            self.peers.reset_progress(index);\n\n            self.write_election_state(ElectionState::Leader);","            self.write_election_state(ElectionState::Leader);\n            drop(_lk);\n            tokio::task::yield_now().await;\n            self.peers.reset_progress(index);"))
m("n_dedup_trim","C04","request ids are compared without their last characters",
  (CL+"response_cache.rs","        self.responses.remove(k);\n        self.completes.insert(k.to_owned());","        self.responses.remove(k);\n        self.completes.insert(k.chars().take(36).collect());"),
  (CL+"response_cache.rs","        if self.completes.exists(k) {","        if self.completes.exists(&k.chars().take(36).collect::<String>()) {"))
m("n_stepdown_requests","C13","requests are left behind by a leader that steps down",
  (V+"mod.rs","            self.command_log.discard_completions(commit_index + 1);","            let _ = commit_index;"))
m("n_install_completions","C12","requests covered by an installed snapshot are left unanswered",
  (CL+"producer.rs","                self.discard_completions(0);\n\n                return","                return"))
m("n_insert_completions","C04","completions survive an overwritten entry",
  (CL+"producer.rs","                self.discard_completions(this_index);\n","                self.discard_completions(this_index + 1);\n"))
m("n_observe_off","C12","a candidate does not adopt the newer term of voters",
  (V+"election.rs","        if voter_term > self.read_ballot().await?.cur_term {\n            self.write_election_state(ElectionState::Follower);","        if voter_term > self.read_ballot().await?.cur_term + 1 {\n            self.write_election_state(ElectionState::Follower);"))
m("n_safe_term_min","C03","entries are accepted before the barrier when the previous term was led here as well",
  (V+"mod.rs","        ensure!(cur_safe_term == cur_term);","        ensure!(cur_safe_term + 1 >= cur_term);"))
m("n_peer_match","C07","a new peer starts as replicated up to the change",
  (PS+"mod.rs","        let init_progress = ReplicationProgress::new(init_next_index);","        let mut init_progress = ReplicationProgress::new(init_next_index);\n        if self.read_membership().len() > 2 {\n            init_progress.match_index = init_next_index - 1;\n        }"))
