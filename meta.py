#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 meta.py rewrites both."""
import json, os
import props
ROOT = os.path.dirname(os.path.abspath(__file__))
S, Q, P, L, F = "src/raft_server.cxx", "src/raft_server_req_handlers.cxx", "src/raft_server_resp_handlers.cxx", "src/fs_log_store.cxx", "src/asio_service.cxx"
def M(name, where): return {"name": name, "where": where}
D = {}
def prop(id, title, statement, over, text, why, files, mech): D[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech))
prop("C01", "At most one durable vote per term", "In every term a server gives its vote to at most one candidate, its own candidacy included, whatever messages, timeouts and restarts happen in between. The vote is durable before anybody can learn of it.",
     ["histories", "crash_points", "inputs"], "every sequence of vote, append and prevote requests with any terms and log positions, of election timeouts, of late responses and of crashes with restart from what was saved",
     "the tests elect a leader a few times in one process and never restart a server between two vote requests", [Q, S], [M("vote granting and saving", Q + ": handle_vote_req"), M("candidacy", S + ": become_candidate, request_vote"), M("term change", S + ": update_term")])
prop("C02", "Only a majority makes a leader", "A server becomes leader of a term only when it has collected, in that term, votes of different members that together with its own are more than half of the configured servers; votes of other terms, repeated votes and votes of strangers never count. A candidate that has collected such a majority does become leader.",
     ["histories", "configurations", "inputs"], "every cluster size from one to five and every order of vote responses, refusals, late responses of earlier elections, newer terms and messages of other leaders",
     "the tests use one cluster of three servers on one machine, where even sizes, duplicates and late responses do not occur", [P, S], [M("counting", P + ": handle_voting_resp"), M("own vote", S + ": request_vote")])
prop("C03", "Only up-to-date candidates get votes", "A server grants a vote or prevote only to a candidate whose last entry has a higher term than its own last entry, or the same term and an index that is not lower; entries already compacted into a snapshot still count. Candidates describe the end of their own log truthfully when they ask.",
     ["inputs", "histories"], "every pair of log ends, terms and snapshot positions", "the tests' candidates always have identical short logs", [Q, S], [M("comparison", Q + ": handle_vote_req, handle_prevote_req"), M("requests", S + ": request_vote, request_prevote, term_for_log")])
prop("C04", "Followers' logs match the leader's", "A follower accepts entries only if its log holds the entry that precedes them in the leader's log; afterwards its log equals the leader's up to the last entry of the request, entries before the first difference are kept, entries after it are discarded, and committed entries are never replaced. It confirms exactly the entries of the request, and its state machine is offered every stored entry and rolled back for every discarded one, each once.",
     ["inputs", "histories"], "every pair of leader and follower logs allowed by the protocol, every position and length of a request, delayed requests and compacted prefixes included", "tests replicate from one stable leader, so logs never diverge and no request is late", [Q], [M("consistency check and overwrite", Q + ": handle_append_entries")])
prop("C05", "Leaders commit only what a majority holds", "A leader announces or applies an entry as committed only when, in its current term, a majority of the servers has confirmed holding it and it is covered by an entry of that term; what was confirmed in earlier terms does not count. Once that is so, the entry is committed, and every follower is told so by the next request it is sent.",
     ["histories", "configurations", "inputs"], "every cluster size up to five, every order of confirmations, refusals, failures and client entries, and loss and return of leadership", "tests see one leader whose followers confirm everything promptly", [P, S], [M("commit rule", P + ": handle_append_entries_resp"), M("new leadership", S + ": become_leader"), M("announcement", S + ": commit")])
prop("C06", "Committed entries are applied once, in order", "The state machine of every server is given exactly the committed application entries, each once, in log order, with the committed content (from its beginning, whatever it read of the entry before), also across restarts; nothing uncommitted is ever applied. An entry a server knows to be committed and to hold is applied.",
     ["histories", "crash_points", "inputs"], "every sequence of append requests with any commit index from a leader whose log may differ from the server's beyond what is committed, with restarts in between", "tests never let a follower hold entries the leader does not have, nor restart with an uncommitted tail", [Q, S], [M("follower commit", Q + ": handle_append_entries"), M("background application", S + ": commit_in_bg")])
prop("C07", "Terms never go back and newer terms win", "A server's saved term never decreases; a request or response with a newer term makes it adopt and save that term, drop its vote and stop leading, and one with an older term is refused and changes nothing. Every response carries the sender's current term; prevotes never change terms.",
     ["inputs", "histories"], "every role, every kind of request and response and every pair of terms", "tests' terms only grow by ordinary elections, and messages of older terms do not occur", [S, Q, P], [M("term update", S + ": update_term"), M("requests", Q + ": process_req"), M("responses", P + ": handle_peer_resp")])
prop("C08", "Prevoting disturbs nobody", "With prevote enabled, a server raises its term and stands for election only after a majority of different servers agreed in its latest prevote round; until then no term, vote or leader changes because of it. In defensive mode a server that hears from its leader refuses prevotes.",
     ["histories", "inputs"], "cluster sizes two to five and every order of prevote requests, responses, repeated responses, lost responses and timeouts", "the prevote test elects one leader in a healthy cluster", [S, P, Q], [M("prevote round", S + ": request_prevote"), M("counting", P + ": handle_prevote_resp"), M("answering", Q + ": handle_prevote_req")])
prop("C09", "Every server that does not lead keeps trying", "A server that does not lead always has exactly one election timeout ahead of it, within the configured bounds, whatever it received or failed to receive; a leader has none and has a heartbeat ahead for every other server. If from some moment on the others grant what they are asked, a server that keeps timing out becomes leader.",
     ["histories", "fault_sequences"], "every sequence of timeouts, requests, responses and lost responses, with and without prevote", "in tests responses are never lost and elections succeed at the first attempt", [S, Q, P], [M("timers", S + ": restart_election_timer, handle_election_timeout, become_follower, become_leader"), M("failed prevote", P + ": handle_prevote_resp")])
prop("C10", "Snapshots replace exactly the log they cover", "A snapshot is taken of an applied state only, at the configured distance, and carries the term and configuration of its last entry; the log is cut only behind it, keeping the configured number of entries. A follower is sent the snapshot without gaps and byte for byte whatever its size, applies it only when complete, and then has the snapshot's state and configuration, keeps the entries after it, and goes on with the next entry; a snapshot that is refused or cannot be installed changes nothing.",
     ["inputs", "histories", "fault_sequences"], "every snapshot and chunk size, every follower log and commit position, lost, refused and repeated chunks, failed snapshots and failed compactions", "no test sends, installs or creates a snapshot through the server", [S, Q, P, "src/snapshot_sync_req.cxx", "include/snapshot_sync_ctx.hxx"],
     [M("sending", S + ": create_sync_snapshot_req"), M("progress", P + ": handle_install_snapshot_resp"), M("installation", Q + ": handle_install_snapshot_req, handle_snapshot_sync_req"), M("creation and compaction", S + ": snapshot_and_compact, on_snapshot_completed")])
prop("C11", "Clients' entries are taken once, and only by a leader", "A client's entry is accepted exactly by a server that leads (a follower forwards it to its leader and reports that leader's answer); an accepted entry is appended once, unchanged, with the leader's term, and offered to the state machine at its index, a refused one not at all. A leader never changes or removes entries of its own log, also when several threads submit and leadership is lost meanwhile.",
     ["inputs", "schedules", "histories"], "every role, number and content of entries, each of the three ways to submit, and every interleaving of two threads up to the preemption bound", "tests submit to a stable leader and never from competing threads", [S, Q, "src/raft_server_req_handlers.cxx"], [M("client requests", Q + ": handle_cli_req"), M("append_entries", S + ": append_entries, send_msg_to_leader"), M("replicate_log", S + ": replicate_log")])
prop("C12", "Membership changes one server at a time", "At any time at most one membership change is undecided, also after a change of leader and when entries are overwritten, each configuration differs from the one before by at most one server, and only a leader starts or continues a change; majorities are those of the last configuration known to be committed, also after a restart. A change that is accepted and answered is carried out: a new server is first given the whole committed log in order, ends up with the cluster's log and configuration and takes part, one that was a member before can come back, also to another endpoint, where all members reach it from then on, and one that cannot be reached is given up; a removed server is sent nothing more and is removed even if it does not answer. A server asked to leave stays until its removal is committed or it has heard nothing for two election timeouts, and does not stand for election meanwhile.",
     ["histories", "fault_sequences", "configurations"], "every order of add and remove requests, answers, refusals and failures of the servers concerned, confirmations, retries and loss of leadership", "no test changes the membership", [S, Q, P], [M("requests", Q + ": handle_add_srv_req, handle_rm_srv_req, handle_join_cluster_req, handle_leave_cluster_req, handle_log_sync_req"), M("progress", P + ": handle_ext_resp"), M("retries", P + ": handle_ext_resp_err"), M("adoption", S + ": reconfigure, sync_log_to_new_srv, rm_srv_from_cluster")])
prop("C13", "Leadership is claimed only with recent majority contact", "A server reports itself as leader, and accepts client entries, exactly while it leads and a majority of the cluster (itself included) has answered it within twice the upper election timeout; refusals count as answers, failures do not.",
     ["schedules", "inputs", "configurations"], "every cluster size up to five and all times at which each peer answered and the question is asked, also very late", "tests ask a healthy leader immediately", [S, Q, P], [M("lease", S + ": is_leader"), M("client requests", Q + ": handle_cli_req"), M("answer times", P + ": handle_peer_resp")])
prop("C14", "One outstanding request per follower, bounded heartbeats", "A leader keeps a heartbeat scheduled for every follower, has at most one unanswered append request per follower, also when answers to requests of an earlier leadership arrive late, and sends again after a failure. After failures the interval grows by the configured back-off up to its maximum, after an answer it is the configured one, and all heartbeats stop when leadership is lost.",
     ["fault_sequences", "inputs"], "every sequence of heartbeats, answers and failures and all intervals", "tests have no failing peer and do not look at intervals", ["src/peer.cxx", "include/peer.hxx", S], [M("busy flag and back-off", "include/peer.hxx"), M("result handling", "src/peer.cxx: handle_rpc_result"), M("heartbeat", S + ": handle_hb_timeout")])
prop("C16", "Buffers never read or write outside themselves", "Whatever sequence of reads, writes and repositionings is applied to a byte buffer, it returns what was written, never touches memory outside its size, and refuses what does not fit without side effects. Every allowed size works alike, including the sizes where the internal layout changes.",
     ["inputs", "programs"], "all values, positions and the listed sizes, sequences of operations", "the tests use a few values in buffers of a few bytes", ["src/buffer.cxx"], [M("bounds checks", "src/buffer.cxx")])
prop("C17", "Stored and sent objects decode to what was encoded", "Server lists, snapshots, snapshot chunks and log entries decode to exactly what was encoded, for all field values; malformed input is refused or yields an object, but never touches memory outside the input.",
     ["inputs"], "all field values, payload lengths and server counts within the bounds, and all byte strings up to the bound", "the serialization test samples a few values and no malformed input", ["src/cluster_config.cxx", "src/srv_config.cxx", "src/snapshot.cxx", "src/snapshot_sync_req.cxx", "include/log_entry.hxx"], [M("encoders and decoders", "the files listed")])
prop("C25", "A follower with any log catches up", "From any follower log the protocol allows, empty or diverged or behind what the leader has compacted, a leader whose requests are answered truthfully brings the follower to its own log and tells it the commit index, without waiting for heartbeats while something is missing. Every request it sends on the way describes the leader's log truthfully and stays within the configured size.",
     ["histories", "inputs", "configurations"], "all pairs of logs up to the bound, request size limits and snapshot positions", "the tests' followers are never behind a snapshot and never diverge", [S, P], [M("next position", P + ": handle_append_entries_resp"), M("request contents", S + ": create_append_entries_req"), M("snapshot fallback", S + ": create_sync_snapshot_req")])
prop("C18", "The log on disk is the log", "A log store returns, through every reader, exactly the entries that were written last at each index from the start index on: an overwrite drops everything behind it, compaction drops exactly the compacted prefix, and neither the buffer size nor closing and opening the store makes a difference. Readers on other threads see some state between two writes.",
     ["histories", "inputs", "schedules"], "every sequence of appends, overwrites, compactions and reopenings with arbitrary terms and payloads, every range that is read, every buffer size, and a reader interleaved with a writer", "the store test runs one scripted sequence with a buffer larger than the log and one thread", [L, "include/log_entry.hxx"], [M("writing", L + ": append, write_at"), M("reading", L + ": log_entries, entry_at, term_at, last_entry"), M("opening", L + ": fs_log_store"), M("buffering", L + ": log_store_buffer")])
prop("C19", "Packs and compaction move entries intact or not at all", "Applying a pack that was taken from another store makes the receiver's log equal to the source's over the packed range, with nothing behind it, wherever it is applied. A compaction that fails for lack of a file operation leaves the log as it was and the store usable, one that succeeds drops exactly the compacted entries.",
     ["inputs", "fault_sequences"], "every source log, range and split into packs, receivers with other entries, and a failure of any single file operation of a compaction", "the test packs once and no file operation ever fails", [L], [M("packs", L + ": pack, apply_pack"), M("compaction", L + ": compact")])
prop("C26", "The log survives a crash at any moment", "If the process dies at any point of an append, overwrite, pack application, compaction or opening, the store can be opened again and then holds either what it held before the operation or what it should hold after it, or for an overwrite the common prefix; entries not touched by the operation are never lost or altered, and the store can be written again.",
     ["crash_points", "histories"], "every crash point between two file operations, also a second crash while opening", "tests never crash", [L], [M("write order", L + ": append, write_at, apply_pack"), M("compaction", L + ": compact"), M("recovery", L + ": fs_log_store")])
prop("C20", "Results of asynchronous calls arrive exactly once", "Whatever the order of setting a result, registering a handler and waiting for it, also on different threads, the handler is called exactly once with the result and error that were set, and every waiter returns them and none returns before or never.",
     ["schedules", "inputs"], "every interleaving of one setter, one handler registration and the waiters up to the preemption bound, all values and errors, spurious wakeups", "the test registers its handlers well before or after the result", ["include/async.hxx"], [M("hand-over", "include/async.hxx: set_result, when_ready"), M("waiting", "include/async.hxx: get")])
prop("C21", "The applying thread never stalls, races or outlives its server", "Whatever is committed is applied without waiting for a further message or entry, however message handling and the thread that applies entries interleave. Entries and snapshots are applied one after another, an installed snapshot is never overtaken by older entries, and snapshots taken meanwhile describe the state they are taken of. A server can be stopped at any moment, busy or idle: the stop ends, no timer stays armed and nothing of the server runs or is touched afterwards.",
     ["schedules", "inputs"], "every interleaving of the applying thread with message handling, snapshot installation and destruction up to the preemption bound, spurious wakeups included, in every role", "the tests stop servers that are idle and no test installs a snapshot", [S, Q], [M("waking and applying", S + ": commit, commit_in_bg"), M("stopping", S + ": ~raft_server"), M("snapshot installation", Q + ": handle_install_snapshot_req, handle_snapshot_sync_req"), M("snapshot creation", S + ": snapshot_and_compact")])
prop("C15", "Requests and responses travel intact, each completed once", "A request sent through a client arrives at the listener's handler exactly as it was sent, entries included (also when the sender's state machine reads an entry meanwhile), and the caller gets the response to this very request; every request completes exactly once, with its response or with an error naming it, whatever fails or overlaps. One failure fails one request, and once the network works again so do requests. Bytes that are not a request or response are refused without harm: the handler never sees them, other connections are served. There is a client exactly for tcp endpoints with a host name and a port.",
     ["inputs", "fault_sequences", "schedules"], "all field values and contents, every order of submissions and completions, a failure of any network operation, arbitrary bytes on a connection, several sending threads", "tests exchange one well-formed request at a time on a loopback connection that never fails", [F], [M("client", F + ": asio_rpc_client"), M("server side", F + ": rpc_session, asio_rpc_listener"), M("endpoints", F + ": create_client")])
prop("C22", "Timers fire once, on time, and never too late to be harmless", "A scheduled task runs exactly once per schedule, not before its delay is over, and not after it was cancelled or scheduled again. A timeout that is already on its way when the server is elected, hears from a leader, steps down, removes the follower or is stopped does no harm: a leader has no election timeout, a follower no heartbeat, a removed follower none, and a stopped server has nothing scheduled, retries of membership requests included; failed membership requests are tried again while the leadership that made them lasts, and not after it.",
     ["schedules", "histories"], "every interleaving of a timer callback with vote responses, messages of leaders, removals and term changes up to the preemption bound, and every sequence of schedule, cancel, time and expiry", "the timer test schedules and cancels with seconds in between, so callbacks never overlap with anything", [S, F, "include/delayed_task.hxx", "include/timer_task.hxx", "include/peer.hxx"], [M("scheduling", F + ": schedule, cancel_impl"), M("cancellation", "include/delayed_task.hxx: execute, cancel, reset"), M("election timeout", S + ": handle_election_timeout"), M("heartbeat", S + ": handle_hb_timeout"), M("retries", S + ": schedule_retry, ~raft_server")])
prop("C23", "Log lines are kept and stopping the service ends", "Every line written to a logger at or above its level is in its file exactly once, whole and in order, after the next flush, when the service is stopped or when the logger is gone; lines below the level never are. Stopping the service ends at any moment, also twice or while a flush is under way, and afterwards nothing keeps its threads running.",
     ["schedules", "inputs"], "every interleaving of stop with the flush timer, the worker threads and a logging thread up to the preemption bound, every level and number of lines", "the logger test writes a few lines and stops long before or after the flush", [F], [M("logger", F + ": fs_based_logger"), M("flush and stop", F + ": flush_all_loggers, stop")])
prop("C24", "Listeners are told the truth about roles and progress", "A server's event listener is told that the server leads exactly once, when it begins to lead, and that it follows whenever it stops leading, gives up a candidacy or adopts a newer term; what it was told last is true and nothing is told while nothing changes. That everything known to be committed is applied is told after it is, each time. A server without a listener works the same.",
     ["histories", "inputs", "schedules"], "every sequence of timeouts, requests, votes, responses and client entries with any terms, and every interleaving of the applying thread with requests up to the preemption bound", "the tests' listener is only looked at after one undisturbed election", [S, Q, P, "include/events.hxx"], [M("becoming leader", S + ": become_leader"), M("becoming follower", S + ": become_follower, update_term"), M("caught up", S + ": commit_in_bg")])
prop("C27", "Calls at the same time act as if one after the other", "Requests, responses, timeouts and client calls that reach a server on different threads at the same time have, together, the effect they have one after the other in one of the two orders: the same results, terms, votes, log, role, timers and messages. No call blocks for ever or touches memory given back, also one that forwards to the leader while the configuration changes. A timeout may also be cancelled by the other call, and an entry refused because leadership was lost to it.",
     ["schedules", "inputs"], "every pair of calls to a follower, candidate or leader and every interleaving of their steps up to the preemption bound", "the tests' calls hardly ever overlap, and never on purpose", [S, Q, P], [M("requests", Q + ": process_req"), M("responses", P + ": handle_peer_resp, handle_ext_resp"), M("timers", S + ": handle_election_timeout, handle_hb_timeout"), M("clients", S + ": replicate_log, append_entries")])
prop("C28", "What a server confirmed survives a crash at any moment", "A server that dies at any moment while it handles requests or a snapshot and is started again from what was saved still has every entry and snapshot it confirmed and the term it answered in. A leader can then bring it up to date like any other follower: its state machine is given every committed entry once, in order and without gaps, and its saved configuration ends up the committed one and never goes back to an older one.",
     ["crash_points", "histories", "inputs"], "a crash between any two durable operations of taking entries, overwriting others, applying, changing configuration and installing a snapshot, from any log and applied position", "tests never crash", [S, Q], [M("taking entries", Q + ": handle_append_entries"), M("snapshot installation", Q + ": handle_snapshot_sync_req"), M("start", S + ": raft_server"), M("configuration", S + ": commit_in_bg")])
prop("C29", "All servers apply one and the same history", "However servers are elected, replicate, lose messages, answer late, crash and restart from what they saved: a term has one leader; entries of the same index and term are the same everywhere; a server that begins to lead has every entry that was ever applied anywhere; and all servers apply the same entries in the same order, without gaps or repetition. Once nothing is disturbed any more a leader is elected and what it holds is applied by every server, also by one brought up through a snapshot.",
     ["histories", "crash_points", "fault_sequences", "inputs"], "every combination of elections, entries, losses, late messages and crashes over two leaderships of a cluster of three", "the tests' clusters are never disturbed", [S, Q, P], [M("election", S + ": become_leader"), M("votes", Q + ": handle_vote_req"), M("replication", Q + ": handle_append_entries"), M("commitment", P + ": handle_append_entries_resp, commit")])
prop("C30", "Changing the members keeps one history", "While servers join and are removed, are asked for it at any server, lose messages, get them late, crash (also before they applied the configurations in their log), or another server takes over: what C29 says of leaders, logs and applied entries goes on holding. Once nothing is disturbed any more, a server that is asked for becomes a member and gets everything, one whose removal is asked for is none any more, nobody else stops, and a server that was removed can join again, with its files or without.",
     ["histories", "crash_points", "fault_sequences", "inputs"], "every combination of lost, late and handled messages, crashes and elections around one join, one removal, and two changes in a row", "the tests change the members of an undisturbed cluster", [S, Q, P], [M("joining", Q + ": handle_join_cluster_req, sync_log_to_new_srv"), M("leaving", Q + ": handle_rm_srv_req, rm_srv_from_cluster"), M("configuration", S + ": commit_in_bg, reconfigure, handle_election_timeout")])
for f in sorted(os.listdir(ROOT + "/metas")) if os.path.isdir(ROOT + "/metas") else []: exec(open(ROOT + "/metas/" + f).read())
NA = []
if __name__ == "__main__":
    ids = [i for i in sorted(D) if i in props.PROPS]; missing = [i for i in props.PROPS if i not in D]; assert not missing, missing
    for i in ids: assert len(D[i]["title"]) <= 80, i
    with open(ROOT + "/properties.jsonl", "w") as f:
        for i in ids + [n["property"] for n in NA if n["property"] in D]: f.write(json.dumps(D[i]) + "\n")
    checks = [dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i, technique="symbolic execution of the LLVM IR of the real code, assertions decided by Z3; counterexamples replayed on the compiled code",
                   level="model_checking", level_note="All values within: " + props.PROPS[i]["bounds"] + ". Trusts clang 18, the engine and its run-time shim, Z3 and the harness environment (see DESIGN.md).") for i in ids]
    json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=NA, notes="see DESIGN.md"), open(ROOT + "/MANIFEST.json", "w"), indent=1)
    print(len(ids), "properties")
