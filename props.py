# Which harness entries decide which property, within which bounds.
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 IR of the current /repo sources is what is executed; engine, Z3 4.8.12 and the run-time shim (rt/rt.cpp: allocator, exceptions, containers' out-of-line parts, clocks, threads, in-memory files) are trusted, and sampled paths are replayed on the machine-code build each run",
    "allocations below 64 MiB succeed; symbolic values formatted into log text appear as '?'; std::random_device and the clocks return harness-chosen values",
]
import glob as _g, os as _o
_REPO = _o.environ.get("VP_REPO", "/repo")
# every translation unit of the library except the asio transport (which has its own unit)
RAFT = sorted(_o.path.basename(f) for f in _g.glob(_REPO + "/src/*.cxx") if not f.endswith("asio_service.cxx"))
UNITS = {
    "elect": dict(name="elect", harness=["h_elect.cpp"], repo=RAFT),
    "log": dict(name="log", harness=["h_log.cpp"], repo=RAFT),
    "conf": dict(name="conf", harness=["h_conf.cpp"], repo=RAFT),
    "snap": dict(name="snap", harness=["h_snap.cpp"], repo=RAFT),
    "crash": dict(name="crash", harness=["h_crash.cpp"], repo=RAFT),
    "cluster": dict(name="cluster", harness=["h_cluster.cpp"], repo=RAFT),
    "conc": dict(name="conc", harness=["h_conc.cpp"], repo=RAFT),
    "timer": dict(name="timer", harness=["h_timer.cpp"], repo=RAFT),
    "bg": dict(name="bg", harness=["h_bg.cpp"], repo=RAFT),
    "net": dict(name="net", harness=["h_net.cpp"], repo=["asio_service.cxx"] + [f for f in RAFT if not f.startswith("raft_server") and f != "peer.cxx"], flags=["-I" + _o.path.dirname(_o.path.abspath(__file__)) + "/harness/mock"]),
    "async": dict(name="async", harness=["h_async.cpp"], repo=[]),
    "store": dict(name="store", harness=["h_store.cpp"], repo=RAFT),
    "buffer": dict(name="buffer", harness=["h_buffer.cpp"], repo=RAFT),
}
def E(unit, entry, *reach, **kw): return dict(unit=unit, entry=entry, reach=list(reach), **kw)
PROPS = {
    "C01": dict(bounds="3 servers, own log of 1 entry with arbitrary term (0..1 thorough), any saved term/vote or none, 3 events (4 thorough) out of 7 kinds with arbitrary 60-bit terms and arbitrary log positions, prevote on/off, crash and restart between any two events; own election with each of two peers silent, granting, refusing or in a newer term, then 2 events", entries=[E("elect", "vote_history", "granted", "refused", "restart", jobs=8), E("elect", "vote_after_election", "lost", "granted", "restart", jobs=8)]),
    "C02": dict(bounds="1..5 servers, 5 events after the first timeout (6 thorough), arbitrary terms below 2^60", entries=[E("elect", "elect_majority", "leader", "stepped back", jobs=8), E("elect", "elect_duplicates", "dup", "stranger")]),
    "C03": dict(bounds="log of 0..3 entries with arbitrary terms, no snapshot or one at index 1 or 5, all request terms, last terms and indices below 2^60", entries=[E("elect", "vote_up_to_date", "granted", "refused", "pre-granted", "pre-refused"), E("elect", "vote_request_contents", "asked")]),
    "C04": dict(bounds="leader and follower logs of 0..3 entries (4 thorough) with arbitrary terms, every commit index, snapshot at 0..2 with 0..1 reserved entries (any, thorough), one configuration entry, every position and length of a request, any commit index", entries=[E("log", "append_follower", "accepted", "refused", "conflict", "late", jobs=8)]),
    "C05": dict(bounds="1..5 servers, logs of 1..4 entries with arbitrary older terms, 4-5 events (5-6 thorough); followers told the index within the next request; one loss and return of leadership with 3 servers, and with 5 of which one confirmed up to 4 entries that were replaced", entries=[E("log", "commit_leader", "advanced", jobs=8), E("log", "commit_reelected", "advanced", "deposed", jobs=8), E("log", "commit_stale_match", "advanced", jobs=8)]),
    "C06": dict(bounds="leader and follower logs of 0..3 entries with arbitrary terms, snapshot at 0 or 1, 2 requests (3 thorough) of any position, length and commit index, at most one restart", entries=[E("log", "apply_follower", "accepted", "applied", "restart", jobs=8)]),
    "C14": dict(bounds="2..3 servers, 5 events (6 thorough), election timeout 2, 150 or 5000 ms, all heartbeat intervals up to twice that, all back-offs below 2^20; answers, errors and votes of one earlier leadership arriving in the next one; a server added on the way", entries=[E("log", "heartbeats", "beat", "failed", "answered", "late vote", "client", jobs=8), E("log", "late_answers", "again", "late", "answered", jobs=8), E("conf", "conf_add", "added", jobs=8)]),
    "C25": dict(bounds="leader log of 1..5 entries, follower log of 0..4 entries with arbitrary terms and any common prefix, request limit 1..3, snapshot covering all but the last entry, with 0..1 reserved entries, or none, at most 24 exchanges; a leader deposed and elected again whose follower's entries were replaced meanwhile", entries=[E("log", "catch_up", "caught up", "snapshot", "backed up", jobs=8), E("log", "prompt", "client", "behind", jobs=8), E("log", "commit_stale_match", "advanced", jobs=8)]),
    "C07": dict(bounds="3 servers, follower/candidate/leader, one request of each of 4 kinds or one response, all terms and positions below 2^60", entries=[E("elect", "term_requests", "higher", "lower", "prevote", "knew"), E("elect", "term_responses", "higher", "lower", "prevote")]),
    "C08": dict(bounds="2..5 servers, 4 events (5 thorough) after the first timeout, arbitrary terms", entries=[E("elect", "prevote_majority", "candidate", "again", jobs=8), E("elect", "prevote_duplicates", "dup"), E("elect", "prevote_defensive", "granted", "refused")]),
    "C09": dict(bounds="1, 2, 3 or 5 servers, prevote on/off, 3 events (4 thorough) including snapshots, failures and requests that are never answered, then at most 4 own timeouts with everybody answering; a server that joined a cluster of 1..2 servers", entries=[E("elect", "election_liveness", "leader", "elected in the end", "snapshot", jobs=8), E("conf", "join_new", "joined", "snapshot", jobs=8)]),
    "C10": dict(bounds="sending: snapshots of 1..5 bytes in chunks of 1..3 bytes with one failure and one refusal, plus one chunk of 1, 2 or 5 bytes at any offset of a snapshot of any size below 2^62; installation: follower logs of 0..4 entries with arbitrary terms, every commit index, snapshot at 1..5, 1..3 bytes, one repeated chunk, one failing compaction, arbitrary terms; one newer snapshot taken meanwhile; creation: 1..2 servers, distance 1..3, 0, 2 or 4 reserved entries, 5 events (6 thorough)", entries=[E("snap", "snap_send", "done", "declined", "failed", jobs=8), E("snap", "snap_send_newer", "newer", "done", jobs=8), E("snap", "snap_send_large", "chunk", "large"), E("snap", "snap_install", "installed", "refused", "retry", "repeated", jobs=8), E("snap", "snap_create_replay", "older", "created", jobs=8), E("snap", "snap_create", "created", "failed", jobs=8), E("bg", "bg_snapshot", "installed", "already applied", jobs=8)]),
    "C11": dict(bounds="1..3 servers, 0..2 entries of any content per request in 3 roles; two threads with 2 preemptions (3 thorough) at mutex and atomic operations, one of them possibly deposing the leader", entries=[E("conf", "client_requests", "taken", "refused", "wire", "forwarded", "replicated", "moved", "hollow", jobs=8), E("conf", "client_race", "accepted", "refused", "again", jobs=8)]),
    "C12": dict(bounds="leader of 2..3 servers: 5 events (7 thorough) of 8 kinds with arbitrary terms; complete additions to 1..3 servers and removals from 2..4; joining servers with 0..2 own entries, cluster logs of 2..4 entries, packs of 1..2, with or without a snapshot of 1..3 bytes before the log; endpoints of 1..2 characters the client factory knows or not; followers with 1..3 unapplied changes; servers that were members before with logs of 3..5 entries; a member that moved, told in two steps or one", entries=[E("conf", "conf_changes", "add", "remove", "changed", "deposed", "retried", "alone", "stands", jobs=8), E("conf", "conf_add", "added", "given up", jobs=8), E("conf", "conf_overwritten", "undecided", "possible", jobs=8), E("conf", "conf_inherit", "possible", "undecided", "decided", jobs=8), E("conf", "conf_add_snapshot", "added", "snapshot", jobs=8), E("conf", "conf_remove", "removed", "unreachable", jobs=8), E("conf", "join_new", "joined", "snapshot", jobs=8), E("conf", "conf_bad_endpoint", "invited", "refused"), E("conf", "conf_inherited", "inherited", "decided", jobs=8), E("conf", "join_again", "joined", "snapshot", "again", "by snapshot", "knew", jobs=8), E("conf", "conf_unapplied", "restarted", "waited", "stands"), E("conf", "moved_member", "snapshot", "entries", "forwarded", "leads"), E("conf", "leave_follower", "refused", "left alone", "news", "removed", jobs=8)]),
    "C13": dict(bounds="1..5 servers, every peer answers at most once more after election, at an arbitrary ns within 8 ms each (timeout scaled to 2 ms), question asked 0..8 ms, 2^31 ms or 2^32 ms later", entries=[E("elect", "leader_lease", "valid", "expired", "deposed", "failed", "refused", "sent", jobs=8)]),
    "C16": dict(bounds="buffer sizes {0,1,4,8,13,0x7fff,0x8000,0x8001}, 8 positions around start and end, 2 operations (3 in thorough) with arbitrary 64-bit values; strings of 0..2 characters; arbitrary content of the last 12 bytes; all sizes >= 2^31 refused",
                outside="sizes between the listed ones and above 32 KiB+1 that are allocatable; longer operation sequences",
                entries=[E("buffer", "buf_ops", "put rejected", "put accepted", "read back"), E("buffer", "buf_reads", "get rejected", "get accepted"), E("buffer", "buf_str", "found", "none"), E("buffer", "buf_copy", "copied"), E("buffer", "buf_stream", "filled", "short"), E("buffer", "buf_alloc_limit", "refused")]),
    "C17": dict(bounds="0..3 servers, endpoints of 1..4 arbitrary non-zero bytes, all ids/indices/terms/sizes, payloads and chunks of 0..5 arbitrary bytes; arbitrary inputs of 0..26 bytes for the decoders",
                outside="empty endpoints (the codec reads an empty string as null by design), longer payloads and more servers",
                entries=[E("buffer", "ser_srv_config", "ok"), E("buffer", "ser_cluster_config", "ok"), E("buffer", "ser_cluster_config_many", "ok"), E("buffer", "ser_snapshot", "ok"), E("buffer", "ser_snapshot_sync", "ok"), E("buffer", "ser_log_entry", "ok"), E("buffer", "ser_malformed", "rejected", "accepted", jobs=8)]),
    "C18": dict(bounds="buffer sizes unlimited, 1, 2, 3; 0..2 entries to begin with and 4 operations (5 thorough) out of append, overwrite, compact and reopen, payloads of 0 or 2 bytes (0..2 thorough) with arbitrary bytes and terms, all ranges read back; one reader and one writer thread, 2 preemptions, 4 entries", entries=[E("store", "store_history", "overwritten", "compacted", "reopened", jobs=8), E("store", "store_race", "read", jobs=8)]),
    "C19": dict(bounds="source of 2..4 entries with 0..1 compacted, 1..2 packs of 1..3 entries, receiver with 0..2 other entries; one failing open (14 positions) or truncation/removal (8 positions) per compaction", entries=[E("store", "store_pack", "overwritten", "appended", jobs=8), E("store", "store_compact_fails", "compacted", "failed", jobs=8)]),
    "C26": dict(bounds="logs of 0..3 entries, optionally compacted, one operation, every crash point among its first 32 file operations and a second crash among the first 12 of the next start; each single write call is atomic and reaches the disk in program order", entries=[E("store", "store_crash", "crash", "done", "not done", jobs=8)]),
    "C21": dict(bounds="one applying and one message thread, 3 preemptions (4 thorough) at mutex, condition variable and atomic operations and in the callbacks, 1 spurious wakeup; follower with 1..2 requests and any commit index, single leader; stop when idle, with an entry or a configuration to apply, as leader; log of 2 entries (3 thorough), snapshot of the same or one more", entries=[E("bg", "bg_commit", "applied", "two", "leader", jobs=8), E("bg", "bg_stop", "idle", "entry", "conf", "leader", jobs=8), E("bg", "bg_snapshot", "installed", "already applied", jobs=8)]),
    "C22": dict(bounds="one timer callback against one message, 3 preemptions (4 thorough) at mutex, condition variable and atomic operations, 3 servers, arbitrary terms, prevote on and off; membership requests failing 1..2 times; one task with 6 (7 thorough) events, delays of 0, 7 and 100 ms and arbitrary passing of time in steps of 1.05 ms, any 31-bit delay for a single schedule", entries=[E("timer", "timer_election", "elected", "not elected", jobs=8), E("timer", "timer_heartbeat", "removed", "deposed", jobs=8), E("timer", "timer_retry", "stopped", "sent again", "given up"), E("net", "sched_tasks", "scheduled", "cancelled", "ran", jobs=8), E("net", "sched_delay", "scheduled")]),
    "C15": dict(bounds="2 requests (3 thorough) over one connection with 0..2 entries of 0, 1, 3 or 9 bytes and arbitrary field values; 3..4 requests and 2 failures (3 thorough) at any operation, then recovery; arbitrary header bytes with 11 data sizes and up to 27 arbitrary data bytes; any 26-byte response; 2 sending threads with 3 preemptions (4 thorough), or 2 that may also be at every access to the list of waiting requests; one sending and one reading an entry, 2 preemptions (3 thorough) anywhere in it; endpoints with 1..3 (4 thorough) arbitrary characters. asio is replaced by harness/mock/asio.hpp, std::regex by harness/mock/regex", entries=[E("net", "rpc_wire", "entry", "reused"), E("net", "rpc_pairing", "fault", "answered", "closed by the peer", jobs=8), E("net", "rpc_malformed", "refused", "taken", "not accepted", jobs=8), E("net", "rpc_bad_response", "error", "response"), E("net", "rpc_threads", "all", "from a handler", jobs=8), E("net", "rpc_shared", "state machine", "server", jobs=8), E("net", "rpc_endpoint", "client", "none", jobs=8)]),
    "C23": dict(bounds="0..3 lines, 5 levels, flushes between the lines; two loggers, a second thread logging or flushing with 1 preemption (2 thorough) anywhere in the logger's memory; stop with the flush timer expiring or another thread logging, 2 preemptions (3 thorough), 2 worker threads", entries=[E("net", "log_lines", "flushed", "stopped", "all", jobs=8), E("net", "log_threads", "two loggers", "two threads", "flushing", "one dropped", jobs=8), E("net", "service_stop", "stopped", "two threads", jobs=8)]),
    "C29": dict(bounds="3 servers with real code each and every message between them; 2 leaderships (any server, asked of all or of one or the other peer), in each at most 1 client entry, 0..2 exchanges with each follower of which the first may be lost, fail after it was handled, or be overtaken, and at most one crash with restart from what was saved; then late messages, a further election and 12 undisturbed rounds; 1 configuration entry of any term in the log, terms below 2^62; with and without prevote (fewer disturbances with); 3 leaderships of fixed terms without losses; with snapshots of every 2 entries, 0..1 reserved, 1..2 bytes, 1 entry per request", entries=[E("cluster", "cluster", "settled", "not elected", "again", "crash", "late", jobs=8), E("cluster", "cluster_deep", "settled", "not elected", "again", jobs=8), E("cluster", "cluster_snap", "settled", "snapshot", "installed", "again", "crash", "late", jobs=8)]),
    "C30": dict(bounds="3 servers and a 4th that joins through add_srv at any server, log batches of 1, with one disturbance (2 thorough) among loss, late message, change of leader and crash of the joiner, with and without snapshots; 2..3 servers of which one is removed through remove_srv at any server, with one lost or late message (2 thorough) and a crash, change of leader or silence, and joins again with its files or without; 3 servers that become 5 and 5 that become 3, where servers crash before they applied what they hold, followed by an election asked of any others while the old leader goes on with the rest; 4 servers of which one is asked to leave while another is asked to leave or a fifth to join; 1 entry of any term first, other terms fixed", entries=[E("cluster", "cluster_add", "settled", "disturbed", "again", "late", "installed", jobs=8), E("cluster", "cluster_grow", "settled", "crash", "again", jobs=8), E("cluster", "cluster_remove", "settled", "removed", "left", "late", "disturbed", "back", "forwarded", jobs=8), E("cluster", "cluster_shrink", "settled", "crash", "again", jobs=8), E("cluster", "cluster_two", "settled", "both", "removed", jobs=8)]),
    "C28": dict(bounds="follower with a log of 2..3 entries (4 thorough) of the leader, a configuration change among them or not, and 0..2 further ones of its own, any terms, any part applied; requests of 1..2 entries or a snapshot of 2 chunks; crash before any of the first 9 (14 thorough) durable operations or afterwards, one crash; mocked stores that are durable at once", entries=[E("crash", "crash_append", "restarted", "idle", "log", "apply", "conf", "state", jobs=8), E("crash", "crash_install", "restarted", "idle", "compact", "conf", "state", jobs=8), E("crash", "crash_install_gap", "restarted", jobs=8)]),
    "C24": dict(bounds="1..3 servers, beginning as follower or leader, 3 events (4 thorough; one less without a listener) of timeouts, requests, votes, responses and client entries with arbitrary terms, prevote on and off; applying thread against 1..2 requests with 3 preemptions (4 thorough)", entries=[E("bg", "bg_told", "applied", "two", "leader", jobs=8), E("elect", "role_events", "leader", "deposed", "caught up", "no listener", jobs=8)]),
    "C27": dict(bounds="3 servers, follower, candidate and leader; two calls out of 17 kinds (requests of two other servers, client entries, membership requests, timeouts, votes, confirmations, newer terms, a snapshot), any term, 1 preemption at every access to the server's fields, at mutex, atomic and log store operations, when saving the state and when sending (thorough: 2, without the fields); every call against a change of the configuration (a member joins or leaves) that is applied meanwhile; a forwarded entry against a committed change, 2 preemptions", entries=[E("conc", "pair_follower", "in order", "the other way round", jobs=8), E("conc", "pair_candidate", "in order", "the other way round", jobs=8), E("conc", "pair_leader", "in order", "the other way round", jobs=8), E("conc", "conf_race", "in order", "the other way round", "joins", "leaves", jobs=8), E("conc", "forward_race", "asked", "first", jobs=8)]),
    "C20": dict(bounds="one setter with one registration and 0..1 waiters (2 thorough), or with 2 waiters (3 thorough), 2 preemptions, 1 spurious wakeup, arbitrary value, with and without error", entries=[E("async", "async_once", "called", "waited", "failure", jobs=8), E("async", "async_waiters", "waited", jobs=8), E("async", "async_constructed", "finished", "handler", "late")]),
}
