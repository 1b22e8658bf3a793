From f3d1011747dae95e3827de1c50d3fe29bb6510c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:12 +0000
Subject: [PATCH 01/70] fix: buffer::get(bufptr&) must not read past the end of
 the source buffer

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..68de92e 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From b076f2c02a860582c85153ab20b1cc329b76bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:26 +0000
Subject: [PATCH 02/70] fix: compare (pre)vote candidates with the snapshot's
 term when the log is fully compacted

---
 src/raft_server_req_handlers.cxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..9fc17ce 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -193,9 +193,11 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    // the last entry may have been compacted into a snapshot, last_entry() has no term for it
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay =
+        req.get_last_log_term() > last_log_term ||
+        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
     if (grant)
@@ -211,9 +213,11 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
-                     log_store_->next_slot() - 1 <= req.get_last_log_idx());
+    // the last entry may have been compacted into a snapshot, last_entry() has no term for it
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay =
+        req.get_last_log_term() > last_log_term ||
+        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
     {
-- 
2.43.0


From c7175dd6c9fd179c3208a537181897c01eea9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:26 +0000
Subject: [PATCH 03/70] fix: ignore peer responses of an older term

---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..2181dfc 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From b566b5b2f39f127b85a476c73ca64ebb1c75ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:08 +0000
Subject: [PATCH 04/70] fix: is_leader must not reuse an old lease measurement
 nor truncate the elapsed time

---
 src/raft_server.cxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..e10974e 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1052,10 +1052,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1064,11 +1062,10 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
-        if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+        auto time_elapsed_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+            system_clock::now() - peer_resp_times[peers_.size() / 2]);
+        if (time_elapsed_since_quorum_resp.count() >
+            static_cast<int64_t>(ctx_->params_->election_timeout_upper_bound_) * 2)
         {
             return false;
         }
-- 
2.43.0


From e2aa5f812db51df03ec9b09ca9505c4ae188f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 05/70] fix: an append request that starts before the compacted
 log must not be taken for a conflict

---
 src/raft_server_req_handlers.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 9fc17ce..960c9db 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -126,7 +126,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         size_t log_idx = 0;
         while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
         {
-            if (log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
+            // entries before start_index are committed and compacted, they are the same as leader's
+            if (idx < log_store_->start_index() ||
+                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())
             {
                 idx++;
                 log_idx++;
-- 
2.43.0


From 279c5a4a8ff4d619d979dbf5d100839daff8452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 06/70] fix: roll back every log entry that is discarded by an
 overwrite

---
 src/raft_server_req_handlers.cxx | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 960c9db..8d698fb 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -139,20 +139,27 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // dealing with overwrites, the first write discards all entries from idx on, revert all of them
+        if (log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
-            {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
+            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)
             {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(
+                        sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    config_changing_ = false;
+                }
             }
+        }
 
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From adc1caad51c88e2901b00f9e7209b74bf4b7ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 07/70] fix: a follower must only commit log entries that are
 known to match the leader's

---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 8d698fb..373ae59 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -194,7 +194,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // entries after the ones in this request may not be the same as leader's
+    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From 072ffe4937858b74ee77c92e71c402705e940517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 08/70] fix: a leader must not commit log entries of previous
 terms by counting replicas

---
 src/raft_server_resp_handlers.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 2181dfc..7257b69 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -121,7 +121,14 @@ void raft_server::handle_append_entries_resp(resp_msg& resp)
         }
 
         std::sort(matched_indexes.begin(), matched_indexes.end(), std::greater<ulong>());
-        commit(matched_indexes[(peers_.size() + 1) / 2]);
+        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];
+
+        // only log entries of current term can be committed by counting replicas, see section 5.4.2 of the raft paper
+        if (majority_idx > quick_commit_idx_ && log_store_->term_at(majority_idx) == state_->get_term())
+        {
+            commit(majority_idx);
+        }
+
         need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
     }
     else
-- 
2.43.0


From 7510ff72f7caff1b96338991d142e5f8187a4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 09/70] fix: a new leader must forget what its peers matched in
 its previous terms

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e10974e..50c631b 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From 186f992893068dab6f67e68186816573a00dbabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 10/70] fix: a peer with an empty log needs the snapshot when
 the leader's log is compacted

---
 src/raft_server.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 50c631b..5c1301d 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -671,7 +671,7 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
     }
 
     // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx > 0 && last_log_idx < starting_idx - 1)
+    if (last_log_idx < starting_idx - 1)
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
-- 
2.43.0


From 802a0caf4b5a3c8853351f38e2b621af44e88951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 11/70] fix: a prevote that gets no response must not disable
 elections

---
 src/raft_server.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5c1301d..27d1bb7 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -220,13 +220,15 @@ void raft_server::handle_election_timeout()
     {
         if (prevote_state_ && !prevote_state_->empty())
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
+            l_->debug("Election timeout, the ongoing prevote is not completed in time, start a new one");
+            prevote_state_->reset();
         }
         else
         {
             l_->debug("Election timeout, start prevoting");
-            request_prevote();
         }
+
+        request_prevote();
     }
     else
     {
@@ -297,6 +299,9 @@ void raft_server::request_prevote()
             it->second->send_req(req, ex_resp_handler_);
         }
     }
+
+    // peers may never respond, be ready for another round
+    restart_election_timer();
 }
 
 void raft_server::request_vote()
-- 
2.43.0


From 1718e0be8870c62ba619dbbb32ed699a58e4e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 12/70] fix: hearing from the leader must end an ongoing
 prevote

---
 src/raft_server_req_handlers.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 373ae59..30b7a63 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            // there is a working leader, no need to prevote anymore
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
@@ -325,6 +327,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            // there is a working leader, no need to prevote anymore
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
-- 
2.43.0


From efe308e259f4d980721048f576b0d919e056e245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 13/70] fix: start the election timer when a new server becomes
 a member

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 27d1bb7..b0333b6 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -939,6 +939,7 @@ void raft_server::commit_in_bg()
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
+                        restart_election_timer(); // it was not running while catching up
                     }
                 }
 
-- 
2.43.0


From 0f40e1daab41ff82f28106e18dc021a84ea61852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:29 +0000
Subject: [PATCH 14/70] fix: a response must be handed over to the request that
 it answers

---
 src/asio_service.cxx | 54 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..f012c7d 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -398,6 +398,23 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            // the responses carry nothing that tells which request they belong to, so only one request could be in
+            // progress at a time, otherwise, a response may be handed over to a wrong handler
+            std::lock_guard<std::mutex> guard(pending_lock_);
+            pending_.emplace_back(req, when_done);
+            if (pending_.size() > 1)
+            {
+                return;
+            }
+        }
+
+        do_send(req, when_done);
+    }
+
+private:
+    void do_send(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,7 +437,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        complete(when_done, rsp, except);
                     }
                 });
         }
@@ -469,7 +486,28 @@ public:
         }
     }
 
-private:
+    void complete(rpc_handler& when_done, ptr<resp_msg>& rsp, const ptr<rpc_exception>& except)
+    {
+        ptr<req_msg> next_req;
+        rpc_handler next_handler;
+        {
+            std::lock_guard<std::mutex> guard(pending_lock_);
+            pending_.pop_front();
+            if (!pending_.empty())
+            {
+                next_req = pending_.front().first;
+                next_handler = pending_.front().second;
+            }
+        }
+
+        if (next_req)
+        {
+            do_send(next_req, next_handler);
+        }
+
+        when_done(rsp, except);
+    }
+
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,14 +516,14 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->do_send(req, when_done);
         }
         else
         {
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -515,7 +553,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -536,7 +574,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
         else
         {
@@ -544,7 +582,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete(when_done, rsp, except);
         }
     }
 
@@ -553,6 +591,8 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::list<std::pair<ptr<req_msg>, rpc_handler>> pending_;
+    std::mutex pending_lock_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From de475bf25f2d1ae74bec70e76f43e0f9fc6b1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:01 +0000
Subject: [PATCH 15/70] fix: a peer must outlive its outstanding requests

---
 include/peer.hxx | 2 +-
 src/peer.cxx     | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..2b7eae3 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,9 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    // this peer may be removed from the cluster before the rpc completes
+    rpc_handler h = [self = shared_from_this(), req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
-- 
2.43.0


From 8ce4b2104696cfd3f9b3354732f89ffd338c4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:01 +0000
Subject: [PATCH 16/70] fix: a deposed leader must not retry membership
 requests

---
 src/raft_server_req_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 30b7a63..6b36b84 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -427,6 +427,13 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
 void raft_server::on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req)
 {
+    recur_lock(lock_);
+    if (role_ != srv_role::leader || req->get_term() != state_->get_term())
+    {
+        l_->info(sstrfmt("no longer the leader of term %llu, give up the request").fmt(req->get_term()));
+        return;
+    }
+
     l_->debug(sstrfmt("retry the request %s for %d").fmt(__msg_type_str[req->get_type()], p->get_id()));
     p->send_req(req, ex_resp_handler_);
 }
-- 
2.43.0


From a7a1d5c7a43e64c2d6925d81322a6a363814fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:01 +0000
Subject: [PATCH 17/70] fix: only accepted responses of the joining server may
 drive its log sync

---
 src/raft_server_resp_handlers.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 7257b69..e9e2079 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -309,7 +309,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
     switch (resp->get_type())
     {
         case msg_type::sync_log_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src() && resp->get_accepted())
             {
                 // we are reusing heartbeat interval value to indicate when to stop retry
                 srv_to_join_->resume_hb_speed();
@@ -319,7 +319,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             }
             break;
         case msg_type::join_cluster_response:
-            if (srv_to_join_)
+            if (srv_to_join_ && srv_to_join_->get_id() == resp->get_src())
             {
                 if (resp->get_accepted())
                 {
@@ -348,7 +348,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
             break;
         case msg_type::install_snapshot_response:
         {
-            if (!srv_to_join_)
+            if (!srv_to_join_ || srv_to_join_->get_id() != resp->get_src())
             {
                 l_->info("no server to join, the response must be very old.");
                 return;
-- 
2.43.0


From a8d7caa64abb1d0a685f6f5f6a8380e80662ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:40 +0000
Subject: [PATCH 18/70] fix: only one membership change at a time, and only by
 a leader

---
 src/raft_server_req_handlers.cxx  | 38 +++++++++++++++++++++++++++++++
 src/raft_server_resp_handlers.cxx |  3 +--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 6b36b84..1dc70d8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -566,6 +566,22 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     {
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
                      .fmt(srv_to_join_->get_id(), gap));
+        if (config_changing_)
+        {
+            l_->info("previous config has not committed yet, will try again");
+            timer_task<void>::executor exec = [this, p = srv_to_join_, term = state_->get_term(), start_idx]()
+            {
+                recur_lock(lock_);
+                if (role_ == srv_role::leader && state_->get_term() == term && srv_to_join_ == p)
+                {
+                    sync_log_to_new_srv(start_idx);
+                }
+            };
+            ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+            scheduler_->schedule(task, srv_to_join_->get_current_hb_interval());
+            return;
+        }
+
         ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
         new_conf->get_servers().insert(
             new_conf->get_servers().end(), config_->get_servers().begin(), config_->get_servers().end());
@@ -659,6 +675,28 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    if (role_ != srv_role::leader || !config_->get_server(srv_id))
+    {
+        l_->info(sstrfmt("no longer a leader or server %d has been removed, nothing to do").fmt(srv_id));
+        return;
+    }
+
+    if (config_changing_)
+    {
+        l_->info("previous config has not committed yet, will try again");
+        timer_task<void>::executor exec = [this, srv_id, term = state_->get_term()]()
+        {
+            recur_lock(lock_);
+            if (state_->get_term() == term)
+            {
+                rm_srv_from_cluster(srv_id);
+            }
+        };
+        ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+        scheduler_->schedule(task, ctx_->params_->heart_beat_interval_);
+        return;
+    }
+
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index e9e2079..044d596 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -440,7 +440,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                      */
                     {
                         write_lock(peers_lock_);
-                        if (peers_.size() == 1)
+                        if (peers_.size() == 1 && role_ == srv_role::leader && !config_changing_)
                         {
                             peer_itor pit = peers_.find(p->get_id());
                             if (pit != peers_.end())
@@ -462,7 +462,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 46fc6dcc11da2bac2facb9d62ce0d5ecfaaa69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:58 +0000
Subject: [PATCH 19/70] fix: a failed invitation must not be retried with
 another joining server

---
 src/raft_server_resp_handlers.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 044d596..e51318b 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -416,7 +416,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 p = pit->second;
             }
         }
-        else
+        else if (srv_to_join_ && srv_to_join_->get_id() == req->get_dst())
         {
             p = srv_to_join_;
         }
-- 
2.43.0


From 5383cd3c2b7a9b453475e16d53ae3d30e3c66d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:33 +0000
Subject: [PATCH 20/70] fix: a joining server must take the whole log of the
 cluster

---
 src/raft_server_req_handlers.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 1dc70d8..c2391c9 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -651,13 +651,15 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     catching_up_ = true;
     role_ = srv_role::follower;
     leader_ = req.get_src();
-    sm_commit_index_ = 0;
-    quick_commit_idx_ = 0;
+    // whatever is in the log now (e.g. the config that this server saved as a cluster of its own) is not from the cluster
+    // to join, let the leader overwrite all of them
+    sm_commit_index_ = log_store_->start_index() - 1;
+    quick_commit_idx_ = sm_commit_index_;
     state_->set_voted_for(-1);
     state_->set_term(req.get_term());
     ctx_->state_mgr_->save_state(*state_);
     reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
-    resp->accept(log_store_->next_slot());
+    resp->accept(log_store_->start_index());
     return resp;
 }
 
-- 
2.43.0


From 40b0e793271114e835ddf21f2e709e78805f4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:10 +0000
Subject: [PATCH 21/70] fix: replicate_log must append under the lock, offer
 the entry to the state machine and tell that it is accepted

---
 src/raft_server.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index b0333b6..98823ca 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1083,6 +1083,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1095,10 +1096,7 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
     }
 
     log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    state_machine_->pre_commit(log_store_->next_slot() - 1, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 3a8483e5934e5be55c4c57234c208a4a33bfc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 22/70] fix: snapshots of 2GB or larger could not be sent

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 98823ca..a203aad 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -834,8 +834,8 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
     }
 
     ulong offset = p.get_snapshot_sync_ctx()->get_offset();
-    int32 sz_left = (int32)(snp->size() - offset);
-    int32 blk_sz = get_snapshot_sync_block_size();
+    ulong sz_left = snp->size() - offset;
+    ulong blk_sz = (ulong)get_snapshot_sync_block_size();
     bufptr data = buffer::alloc((size_t)(std::min(blk_sz, sz_left)));
     int32 sz_rd = state_machine_->read_snapshot_data(*snp, offset, *data);
     if ((size_t)sz_rd < data->size())
-- 
2.43.0


From ea87f7217bd20705515bc5cb0d3048c5eb76f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 23/70] fix: do not compact log entries that are compacted
 already

---
 src/raft_server.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index a203aad..cbac41a 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -632,7 +632,7 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             l_->debug("snapshot created, compact the log store");
 
             last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
-- 
2.43.0


From b948f91ca493764eeea6341529cf4792340979f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:42 +0000
Subject: [PATCH 24/70] fix: a config change that is covered by an installed
 snapshot is no longer pending

---
 src/raft_server_req_handlers.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index c2391c9..081a0d5 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -396,6 +396,14 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
+
+                // config changes that are covered by the snapshot are committed
+                config_changing_ = false;
+                for (ulong i = log_store_->start_index(); i < log_store_->next_slot() && !config_changing_; ++i)
+                {
+                    config_changing_ = log_store_->entry_at(i)->get_val_type() == log_val_type::conf;
+                }
+
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
                 ctx_->state_mgr_->save_state(*state_);
-- 
2.43.0


From 0d3724295b4bc8c1bfe2564d5d724b9384183ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 25/70] fix: overwriting an entry that is not in the log buffer
 must drop the buffered entries behind it

---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..9425671 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // everything in the buffer is behind the trimming point
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From 0423eaea557423c7bdec807c4d59d502bdd1053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 26/70] fix: overwriting the last log entry with a shorter one
 must truncate the data file

---
 src/fs_log_store.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 9425671..9ecc7fd 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -336,8 +336,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
-- 
2.43.0


From b320a269fb0e66060794c2c2fdf413eaf2f5a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 27/70] fix: log_entries must not return entries behind the
 requested range

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 9ecc7fd..1445268 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -412,7 +412,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(lend, buffer_first_idx - start_idx_);
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From cb13a94a7f3fcf73f6a9460c092183126566ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:18 +0000
Subject: [PATCH 28/70] fix: applying a log pack over the last entry must
 truncate the data file

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 1445268..f3a38eb 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -615,7 +615,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From efd03a084841ece1440a4ea4cd6c60822c0ffc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:33 +0000
Subject: [PATCH 29/70] fix: a failed compaction must restore the data file
 from its backup

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index f3a38eb..feadd21 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -824,7 +824,7 @@ bool fs_log_store::compact(ulong last_log_index)
     idx_bak_file.seekg(0);
     data_bak_file.seekg(0);
     start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
+    data_file_.open(data_file_path, std::fstream::out);
     data_file_.close();
     data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     idx_file_.open(idx_file_path, std::fstream::out);
-- 
2.43.0


From 43e3bc1138976bd09982c5cf135f5c1a61a9e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:14 +0000
Subject: [PATCH 30/70] fix: an append that is interrupted by a crash must not
 make the log unreadable

---
 include/fs_log_store.hxx |  2 ++
 src/fs_log_store.cxx     | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 2a8744d..3514c64 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -169,6 +169,8 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        void truncate_file(std::fstream& file, const std::string& path, ulong new_size);
+        void drop_incomplete_entries();
     private:
         std::fstream idx_file_;
         std::fstream data_file_;
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index feadd21..cb85a78 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -235,6 +235,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         start_idx_file_ >> *idx_buf;
         start_idx_ = idx_buf->get_ulong();
         entries_in_store_ = idx_file_.tellp() / sz_ulong;
+        drop_incomplete_entries();
     }
     else
     {
@@ -285,11 +286,11 @@ ulong fs_log_store::append(ptr<log_entry>& entry)
     idx_buf->put(static_cast<ulong>(data_file_.tellp()));
     idx_buf->pos(0);
     idx_file_ << *idx_buf;
+    idx_file_.flush(); // an index without data is dropped at next start, data without an index cannot be recognized
     bufptr entry_buf = entry->serialize();
     data_file_ << *entry_buf;
     buf_->append(entry);
     entries_in_store_ += 1;
-    idx_file_.flush();
     data_file_.flush();
     if (!data_file_ || !idx_file_)
     {
@@ -860,6 +861,43 @@ void fs_log_store::close()
     start_idx_file_.close();
 }
 
+void fs_log_store::truncate_file(std::fstream& file, const std::string& path, ulong new_size)
+{
+    file.close();
+    if (truncate(path.c_str(), new_size) < 0)
+    {
+        throw std::ios_base::failure("failed to truncate file " + path);
+    }
+
+    file.open(path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
+}
+
+void fs_log_store::drop_incomplete_entries()
+{
+    // the index of an entry is always written before its data, so an entry whose data was not written because of a
+    // crash has an index that is not inside the data file
+    data_file_.seekg(0, std::fstream::end);
+    ulong data_len = data_file_.tellg();
+    ulong entries = entries_in_store_;
+    for (; entries > 0; --entries)
+    {
+        bufptr pos_buf(buffer::alloc(sz_ulong));
+        idx_file_.seekg((entries - 1) * sz_ulong);
+        idx_file_ >> *pos_buf;
+        if (pos_buf->get_ulong() < data_len)
+        {
+            break;
+        }
+    }
+
+    idx_file_.seekg(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellg()) != entries * sz_ulong)
+    {
+        truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, entries * sz_ulong);
+        entries_in_store_ = entries;
+    }
+}
+
 void fs_log_store::fill_buffer()
 {
     ulong first_idx = buf_->first_idx();
-- 
2.43.0


From 5ec68ffb1475c345f775d94e9d00bfc12e4d6514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 31/70] fix: an overwrite that is interrupted by a crash must
 not mix old and new log entries

---
 include/fs_log_store.hxx |   1 +
 src/fs_log_store.cxx     | 117 ++++++++-------------------------------
 2 files changed, 23 insertions(+), 95 deletions(-)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 3514c64..1159061 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -170,6 +170,7 @@ namespace cornerstone {
     private:
         void fill_buffer();
         void truncate_file(std::fstream& file, const std::string& path, ulong new_size);
+        void drop_entries_from(ulong index);
         void drop_incomplete_entries();
     private:
         std::fstream idx_file_;
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index cb85a78..41a5004 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -308,67 +308,12 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
         throw std::range_error("index out of range");
     }
 
-    ulong local_idx = index - start_idx_ + 1; // start_idx is one based
-    ulong idx_pos = (local_idx - 1) * sz_ulong;
-    if (local_idx <= entries_in_store_)
+    if (index < start_idx_ + entries_in_store_)
     {
-        idx_file_.seekg(idx_pos, std::fstream::beg);
-        bufptr buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *buf;
-        data_file_.seekp(buf->get_ulong(), std::fstream::beg);
+        drop_entries_from(index);
     }
-    else
-    {
-        data_file_.seekp(0, std::fstream::end);
-    }
-
-    idx_file_.seekp(idx_pos, std::fstream::beg);
-    ulong data_pos = data_file_.tellp();
-    bufptr ibuf(buffer::alloc(sz_ulong));
-    ibuf->put(data_pos);
-    ibuf->pos(0);
-    idx_file_ << *ibuf;
-    bufptr ebuf = entry->serialize();
-    data_file_ << *ebuf;
-    idx_file_.flush();
-    data_file_.flush();
-
-    // truncate the files if necessary
-    ulong ndata_len = data_file_.tellp();
-    ulong nidx_len = idx_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    data_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
-    { // new length is less than current file size, truncate it
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), nidx_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
 
-        if (truncate(data_path.c_str(), ndata_len) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    }
-
-    if (local_idx <= entries_in_store_)
-    {
-        buf_->trim(index);
-    }
-
-    buf_->append(entry);
-    entries_in_store_ = local_idx;
-    if (!data_file_ || !idx_file_)
-    {
-        throw std::runtime_error("IO fails, data cannot be saved");
-    }
+    append(entry);
 }
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
@@ -575,21 +520,13 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     int32 idx_len = pack.get_int();
     int32 data_len = pack.get_int();
     ulong local_idx = index - start_idx_;
-    if (local_idx == entries_in_store_)
+    if (local_idx < entries_in_store_)
     {
-        idx_file_.seekp(0, std::fstream::end);
-        data_file_.seekp(0, std::fstream::end);
-    }
-    else
-    {
-        ulong idx_pos = local_idx * sz_ulong;
-        idx_file_.seekg(idx_pos);
-        bufptr data_pos_buf(buffer::alloc(sz_ulong));
-        idx_file_ >> *data_pos_buf;
-        idx_file_.seekp(idx_pos);
-        data_file_.seekp(data_pos_buf->get_ulong());
+        drop_entries_from(index);
     }
 
+    idx_file_.seekp(0, std::fstream::end);
+    data_file_.seekp(0, std::fstream::end);
     ulong prev_data_pos = data_file_.tellp();
     size_t prev_pack_pos = pack.pos();
     ulong first_idx = pack.get_ulong();
@@ -609,33 +546,9 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
         }
         pack.pos(prev_pack_pos);
     }
-    data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);
     idx_file_.flush();
+    data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);
     data_file_.flush();
-    ulong idx_pos = idx_file_.tellp();
-    ulong data_pos = data_file_.tellp();
-    idx_file_.seekp(0, std::fstream::end);
-    data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
-    {
-        std::string idx_path = log_folder_ + LOG_INDEX_FILE;
-        std::string data_path = log_folder_ + LOG_DATA_FILE;
-        idx_file_.close();
-        data_file_.close();
-        if (truncate(idx_path.c_str(), idx_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the index file");
-        }
-
-        if (truncate(data_path.c_str(), data_pos) < 0)
-        {
-            throw std::ios_base::failure("failed to truncate the data file");
-        }
-
-        idx_file_.open(idx_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-        data_file_.open(data_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
-    }
-
     if (!data_file_ || !idx_file_)
     {
         throw std::runtime_error("IO fails, data cannot be saved");
@@ -872,6 +785,20 @@ void fs_log_store::truncate_file(std::fstream& file, const std::string& path, ul
     file.open(path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
 }
 
+void fs_log_store::drop_entries_from(ulong index)
+{
+    ulong idx_pos = (index - start_idx_) * sz_ulong;
+    bufptr pos_buf(buffer::alloc(sz_ulong));
+    idx_file_.seekg(idx_pos);
+    idx_file_ >> *pos_buf;
+
+    // indexes without data are dropped at next start if we crash in between, see drop_incomplete_entries
+    truncate_file(data_file_, log_folder_ + LOG_DATA_FILE, pos_buf->get_ulong());
+    truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, idx_pos);
+    buf_->trim(index);
+    entries_in_store_ = index - start_idx_;
+}
+
 void fs_log_store::drop_incomplete_entries()
 {
     // the index of an entry is always written before its data, so an entry whose data was not written because of a
-- 
2.43.0


From e9ee3553e601660da68db198f598ae9cf84d5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 32/70] fix: a compaction that is interrupted by a crash must
 not destroy the log

---
 include/fs_log_store.hxx |  2 ++
 src/fs_log_store.cxx     | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/include/fs_log_store.hxx b/include/fs_log_store.hxx
index 1159061..38a17a8 100644
--- a/include/fs_log_store.hxx
+++ b/include/fs_log_store.hxx
@@ -169,6 +169,8 @@ namespace cornerstone {
         void close();
     private:
         void fill_buffer();
+        void end_compaction();
+        void restore_interrupted_compaction();
         void truncate_file(std::fstream& file, const std::string& path, ulong new_size);
         void drop_entries_from(ulong index);
         void drop_incomplete_entries();
diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 41a5004..f2ba974 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -23,6 +23,7 @@
 #define LOG_INDEX_FILE_BAK "store.idx.bak"
 #define LOG_DATA_FILE_BAK "store.dat.bak"
 #define LOG_START_INDEX_FILE_BAK "store.sti.bak"
+#define LOG_COMPACTING_FILE "store.cpt" // exists while the store files have to be restored from the backups
 
 #ifdef _WIN32
 #include <Windows.h>
@@ -187,6 +188,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
         log_folder_.push_back(PATH_SEPARATOR);
     }
 
+    restore_interrupted_compaction();
     idx_file_.open(
         log_folder_ + LOG_INDEX_FILE, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     if (!idx_file_)
@@ -619,6 +621,11 @@ bool fs_log_store::compact(ulong last_log_index)
     data_bak_file.flush();
     start_idx_bak_file.flush();
 
+    std::fstream compacting_file(log_folder_ + LOG_COMPACTING_FILE, std::fstream::out);
+    if (!compacting_file)
+        return false; // nothing is changed yet
+    compacting_file.close();
+
     do
     {
         if (last_log_index >= start_idx_ + entries_in_store_ - 1)
@@ -651,6 +658,7 @@ bool fs_log_store::compact(ulong last_log_index)
             start_idx_ = last_log_index + 1;
             entries_in_store_ = 0;
             buf_->reset(start_idx_);
+            end_compaction();
 
             // close all backup files
             idx_bak_file.close();
@@ -718,6 +726,7 @@ bool fs_log_store::compact(ulong last_log_index)
         start_idx_buf->pos(0);
         start_idx_file_ << *start_idx_buf;
         start_idx_file_.flush();
+        end_compaction();
         entries_in_store_ -= (last_log_index - start_idx_ + 1);
         start_idx_ = last_log_index + 1;
         buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);
@@ -759,6 +768,7 @@ bool fs_log_store::compact(ulong last_log_index)
     data_file_.flush();
     idx_file_.flush();
     start_idx_file_.flush();
+    end_compaction();
 
     // close all backup files
     idx_bak_file.close();
@@ -774,6 +784,35 @@ void fs_log_store::close()
     start_idx_file_.close();
 }
 
+void fs_log_store::end_compaction()
+{
+    if (std::remove((log_folder_ + LOG_COMPACTING_FILE).c_str()) != 0)
+    {
+        throw std::runtime_error("IO error, the compaction will be undone at next start");
+    }
+}
+
+void fs_log_store::restore_interrupted_compaction()
+{
+    if (!std::ifstream(log_folder_ + LOG_COMPACTING_FILE))
+    {
+        return;
+    }
+
+    const char* files[] = {LOG_INDEX_FILE, LOG_INDEX_FILE_BAK, LOG_DATA_FILE, LOG_DATA_FILE_BAK, LOG_START_INDEX_FILE, LOG_START_INDEX_FILE_BAK};
+    for (int i = 0; i < 6; i += 2)
+    {
+        std::ifstream src(log_folder_ + files[i + 1], std::ifstream::binary);
+        std::ofstream dst(log_folder_ + files[i], std::ofstream::binary | std::ofstream::trunc);
+        if (!src || !dst || (src.peek() != std::ifstream::traits_type::eof() && !(dst << src.rdbuf())) || !dst.flush())
+        {
+            throw std::runtime_error("fail to restore store files");
+        }
+    }
+
+    end_compaction();
+}
+
 void fs_log_store::truncate_file(std::fstream& file, const std::string& path, ulong new_size)
 {
     file.close();
-- 
2.43.0


From d454f35eb747ff9ed33e9913bf969ff490316d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:18 +0000
Subject: [PATCH 33/70] fix: reading the log must not interfere with writers of
 other threads

---
 src/fs_log_store.cxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index f2ba974..6463022 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -320,9 +320,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
+    recur_lock(store_lock_); // the store must not change between looking at the buffer and at the files
     ulong lstart(0), lend(0), good_end(0);
     {
-        recur_lock(store_lock_);
         if (start < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -354,7 +354,6 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     if (start < buffer_first_idx)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -392,6 +391,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
 
 ptr<log_entry> fs_log_store::entry_at(ulong index)
 {
+    recur_lock(store_lock_); // the store must not change between looking at the buffer and at the files
     ptr<log_entry> entry = (*buf_)[index];
     if (entry)
     {
@@ -401,7 +401,6 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     {
         // since we don't hit the buffer, so this must not be the last entry
         // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -434,13 +433,13 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
+    recur_lock(store_lock_); // the store must not change between looking at the buffer and at the files
     if (index >= buf_->first_idx() && index < buf_->last_idx())
     {
         return buf_->get_term(index);
     }
 
     {
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
-- 
2.43.0


From a65d63df2dde39db3d6ba376cf52b3d7853f1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:12 +0000
Subject: [PATCH 34/70] fix: the handler of an async_result must be called
 exactly once

---
 include/async.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..122fb1e 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready;
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_; // if not, set_result will see and call the handler
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
-- 
2.43.0


From 071fc8d1e88d124b846904dc215ef9873d67d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:12 +0000
Subject: [PATCH 35/70] fix: async_result::get must not return before there is
 a result

---
 include/async.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index 122fb1e..6b5e22b 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -99,7 +99,7 @@ public:
             throw err_;
         }
 
-        cv_.wait(lock);
+        cv_.wait(lock, [this]() { return has_result_; });
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From d3e6e6b3da0e270304bc9b824bf29c673d32899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:22 +0000
Subject: [PATCH 36/70] fix: a delayed append request from before the compacted
 log must not stop the server

---
 src/raft_server_req_handlers.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 081a0d5..41299a9 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -113,8 +113,10 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     // log_store_->next_slot() for the leader to quick jump to the index that might aligned
     ptr<resp_msg> resp(cs_new<resp_msg>(
         state_->get_term(), msg_type::append_entries_response, id_, req.get_src(), log_store_->next_slot()));
-    bool log_okay = req.get_last_log_idx() == 0 || (req.get_last_log_idx() < log_store_->next_slot() &&
-                                                    req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
+    // entries before start_index are committed and compacted, they are the same as leader's
+    bool log_okay = req.get_last_log_idx() < log_store_->start_index() ||
+                    (req.get_last_log_idx() < log_store_->next_slot() &&
+                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));
     if (req.get_term() < state_->get_term() || !log_okay)
     {
         return resp;
-- 
2.43.0


From cf79f37ef9c63fcc9e30561d4ee61ec8935a3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:22 +0000
Subject: [PATCH 37/70] fix: a leader must not stop when a follower needs the
 entry before the reserved log items

---
 src/raft_server.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index cbac41a..4af3a17 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -675,8 +675,11 @@ ptr<req_msg> raft_server::create_append_entries_req(peer& p)
         return ptr<req_msg>();
     }
 
-    // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot
-    if (last_log_idx < starting_idx - 1)
+    // for syncing the snapshots, for starting_idx - 1, we can check with last snapshot if that is where it ends, otherwise
+    // (some log items before the snapshot are reserved) the term of starting_idx - 1 is not known anymore
+    if (last_log_idx < starting_idx - 1 ||
+        (last_log_idx > 0 && last_log_idx == starting_idx - 1 &&
+         (!last_snapshot_ || last_snapshot_->get_last_log_idx() != last_log_idx)))
     {
         return create_sync_snapshot_req(p, last_log_idx, term, commit_idx);
     }
-- 
2.43.0


From 60c5dda4a9710e5a0682cdf58b60489fe2348db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 38/70] fix: a leader must be able to send the snapshot it
 created

---
 src/raft_server.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4af3a17..221148f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -631,7 +631,13 @@ void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
-            last_snapshot_ = s;
+            // only the state machine knows the size of the snapshot, which is required for sending it to peers
+            last_snapshot_ = state_machine_->last_snapshot();
+            if (!last_snapshot_ || last_snapshot_->get_last_log_idx() != s->get_last_log_idx())
+            {
+                last_snapshot_ = s;
+            }
+
             if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
-- 
2.43.0


From 13cefeb47d0c9964f40a72d540da0cbb56fac9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:03 +0000
Subject: [PATCH 39/70] fix: a snapshot being created must not stop the leader
 that sends log entries after the previous one

---
 src/raft_server.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 221148f..01d57be 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -883,7 +883,8 @@ ulong raft_server::term_for_log(ulong log_idx)
         return log_store_->term_at(log_idx);
     }
 
-    ptr<snapshot> last_snapshot(state_machine_->last_snapshot());
+    // state machine may already have a newer snapshot for which the log store is not compacted yet
+    ptr<snapshot> last_snapshot(last_snapshot_);
     if (!last_snapshot || log_idx != last_snapshot->get_last_log_idx())
     {
         l_->err(sstrfmt("bad log_idx %llu for retrieving the term value, kill the system to protect the system")
-- 
2.43.0


From 3cce76e5754e23d8b7b0bd9eb549bb3d7faae9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:47 +0000
Subject: [PATCH 40/70] fix: a snapshot of more than one block could not be
 sent to a joining server

---
 src/raft_server_resp_handlers.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index e51318b..dfeecb2 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -324,6 +324,7 @@ void raft_server::handle_ext_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>&
                 if (resp->get_accepted())
                 {
                     l_->debug("new server confirms it will join, start syncing logs to it");
+                    srv_to_join_->set_next_log_idx(resp->get_next_idx());
                     sync_log_to_new_srv(resp->get_next_idx());
                 }
                 else
-- 
2.43.0


From bb818aa51a86115ea20c79fa09c32980e5117c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:31 +0000
Subject: [PATCH 41/70] fix: the configuration of a snapshot could be read from
 the log only once

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 01d57be..0f260e1 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -568,6 +568,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
-- 
2.43.0


From 70de251af9ea403a44af58cb4659ec8c0cb8b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:52 +0000
Subject: [PATCH 42/70] fix: a committed entry could stay unapplied until the
 next one because the notification of the committing thread got lost

---
 src/raft_server.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 0f260e1..9400153 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -539,6 +539,8 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        // the committing thread checks for work under this lock, so the notification cannot get lost
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -911,7 +913,12 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]() {
+                        return stopping_ || (quick_commit_idx_ > sm_commit_index_ &&
+                                             sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
-- 
2.43.0


From 9352dc4f55f8183f11d28954f68ea189dec0076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:15 +0000
Subject: [PATCH 43/70] fix: stopping a server could hang or leave its
 committing thread running on freed memory

---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..23b0610 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 9400153..75b6939 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // the committing thread may need lock_ for what it is doing, so lock_ must not be held while waiting for it
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -925,6 +931,7 @@ void raft_server::commit_in_bg()
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From 6bd1e5cad74f72d9808175e53eb00562647486d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:49 +0000
Subject: [PATCH 44/70] fix: installing a snapshot while committed entries were
 being applied could crash the committing thread, apply both at once or create
 a snapshot of an old index

---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 43 ++++++++++++++++++++++++++++----
 src/raft_server_req_handlers.cxx |  9 +++++--
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 23b0610..724b557 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -144,6 +144,7 @@ private:
     ptr<srv_config> conf_to_add_;
     std::recursive_mutex lock_;
     std::mutex commit_lock_;
+    std::mutex apply_lock_; // serializes changes of the applied state, must be taken after lock_ if both are needed
     std::mutex rpc_clients_lock_;
     std::condition_variable commit_cv_;
     std::mutex stopping_lock_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 75b6939..ac9f2f6 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -76,6 +76,7 @@ raft_server::raft_server(context* ctx)
       conf_to_add_(),
       lock_(),
       commit_lock_(),
+      apply_lock_(),
       rpc_clients_lock_(),
       commit_cv_(),
       stopping_lock_(),
@@ -563,6 +564,13 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
     bool snapshot_in_action = false;
     try
     {
+        std::unique_lock<std::recursive_mutex> guard(lock_);
+        if (committed_idx < log_store_->start_index())
+        {
+            // a newer snapshot has been installed in between
+            return;
+        }
+
         bool f = false;
         if ((!last_snapshot_ ||
              (committed_idx - last_snapshot_->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_) &&
@@ -605,6 +613,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             async_result<bool>::handler_type handler =
                 [this, new_snapshot](bool result, const ptr<std::exception>& e) mutable
             { this->on_snapshot_completed(new_snapshot, result, e); };
+            guard.unlock();
             state_machine_->create_snapshot(*new_snapshot, handler);
             snapshot_in_action = false;
         }
@@ -941,15 +950,33 @@ void raft_server::commit_in_bg()
 
             while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)
             {
-                sm_commit_index_ += 1;
-                ptr<log_entry> log_entry(log_store_->entry_at(sm_commit_index_));
+                std::unique_lock<std::recursive_mutex> conf_lock(lock_, std::defer_lock);
+                std::unique_lock<std::mutex> apply_lock(apply_lock_);
+                ulong idx = sm_commit_index_ + 1;
+                if (idx > quick_commit_idx_ || idx >= log_store_->next_slot())
+                {
+                    continue; // a snapshot has been installed in between
+                }
+
+                ptr<log_entry> log_entry(log_store_->entry_at(idx));
+                if (log_entry->get_val_type() == log_val_type::conf)
+                {
+                    apply_lock.unlock();
+                    conf_lock.lock();
+                    apply_lock.lock();
+                    if (idx != sm_commit_index_ + 1 || idx > quick_commit_idx_)
+                    {
+                        continue; // a snapshot has been installed in between
+                    }
+                }
+
+                sm_commit_index_ = idx;
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
-                    state_machine_->commit(sm_commit_index_, log_entry->get_buf(), log_entry->get_cookie());
+                    state_machine_->commit(idx, log_entry->get_buf(), log_entry->get_cookie());
                 }
                 else if (log_entry->get_val_type() == log_val_type::conf)
                 {
-                    recur_lock(lock_);
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
@@ -968,7 +995,13 @@ void raft_server::commit_in_bg()
                     }
                 }
 
-                snapshot_and_compact(sm_commit_index_);
+                apply_lock.unlock();
+                if (conf_lock.owns_lock())
+                {
+                    conf_lock.unlock();
+                }
+
+                snapshot_and_compact(idx);
             }
         }
         catch (std::exception& err)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41299a9..2525f65 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -350,6 +350,7 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     }
 
     ptr<snapshot_sync_req> sync_req(snapshot_sync_req::deserialize(entries[0]->get_buf()));
+    auto_lock(apply_lock_); // no log entry is applied while a snapshot is being installed
     if (sync_req->get_snapshot().get_last_log_idx() <= sm_commit_index_)
     {
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
@@ -663,8 +664,12 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     leader_ = req.get_src();
     // whatever is in the log now (e.g. the config that this server saved as a cluster of its own) is not from the cluster
     // to join, let the leader overwrite all of them
-    sm_commit_index_ = log_store_->start_index() - 1;
-    quick_commit_idx_ = sm_commit_index_;
+    {
+        auto_lock(apply_lock_);
+        sm_commit_index_ = log_store_->start_index() - 1;
+        quick_commit_idx_ = sm_commit_index_;
+    }
+
     state_->set_voted_for(-1);
     state_->set_term(req.get_term());
     ctx_->state_mgr_->save_state(*state_);
-- 
2.43.0


From 130262e10273dfe94471e4dcd1798bb04f2072ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:51 +0000
Subject: [PATCH 45/70] fix: an election timeout that expires while a server is
 being elected must not stop the process

---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index ac9f2f6..70dd65f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -218,8 +218,8 @@ void raft_server::handle_election_timeout()
 
     if (role_ == srv_role::leader)
     {
-        l_->err("A leader should never encounter election timeout, illegal application state, stop the application");
-        ctx_->state_mgr_->system_exit(-1);
+        // the timer expired right before this server was elected
+        l_->info("election timeout while being the leader, ignore it.");
         return;
     }
 
-- 
2.43.0


From 40f08262de20d16c8948d41f7204e0dda73e0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:21 +0000
Subject: [PATCH 46/70] fix: a heartbeat that expires while its peer is removed
 must not use the removed peer

---
 include/raft_server.hxx          |  2 +-
 src/raft_server.cxx              | 22 +++++++++++++++++++---
 src/raft_server_req_handlers.cxx |  3 ++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 724b557..1b9b166 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -100,7 +100,7 @@ private:
     void enable_hb_for_peer(peer& p);
     void restart_election_timer();
     void stop_election_timer();
-    void handle_hb_timeout(peer& peer);
+    void handle_hb_timeout(int32 srv_id);
     void handle_election_timeout();
     void sync_log_to_new_srv(ulong start_idx);
     void invite_srv_to_join_cluster();
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 70dd65f..fb48404 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -133,7 +133,8 @@ raft_server::raft_server(context* ctx)
         if ((*it)->get_id() != id_)
         {
             write_lock(peers_lock_);
-            timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+            timer_task<peer&>::executor exec = [this, srv_id = (*it)->get_id()](peer&)
+            { this->handle_hb_timeout(srv_id); };
             peers_.insert(std::make_pair(
                 (*it)->get_id(),
                 cs_new<peer>(*it, *ctx_, exec)));
@@ -382,9 +383,23 @@ bool raft_server::request_append_entries(peer& p)
     return false;
 }
 
-void raft_server::handle_hb_timeout(peer& p)
+void raft_server::handle_hb_timeout(int32 srv_id)
 {
     recur_lock(lock_);
+    ptr<peer> srv;
+    {
+        // the peer may have been removed while this was waiting for the lock
+        read_lock(peers_lock_);
+        peer_itor it = peers_.find(srv_id);
+        if (it == peers_.end())
+        {
+            return;
+        }
+
+        srv = it->second;
+    }
+
+    peer& p = *srv;
     l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
     if (role_ == srv_role::leader)
     {
@@ -765,7 +780,8 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     for (std::vector<ptr<srv_config>>::const_iterator it = srvs_added.begin(); it != srvs_added.end(); ++it)
     {
         ptr<srv_config> srv_added(*it);
-        timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+        timer_task<peer&>::executor exec = [this, srv_id = srv_added->get_id()](peer&)
+        { this->handle_hb_timeout(srv_id); };
         ptr<peer> p = cs_new<peer>(srv_added, *ctx_, exec);
         p->set_next_log_idx(log_store_->next_slot());
 
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2525f65..7c35ef8 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -540,7 +540,8 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
     }
 
     conf_to_add_ = std::move(srv_conf);
-    timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+    timer_task<peer&>::executor exec = [this, srv_id = conf_to_add_->get_id()](peer&)
+    { this->handle_hb_timeout(srv_id); };
     srv_to_join_ = cs_new<peer>(conf_to_add_, *ctx_, exec);
     invite_srv_to_join_cluster();
     resp->accept(log_store_->next_slot());
-- 
2.43.0


From ba4352f4c711cd647b6efbbaa45e740e815aaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:29 +0000
Subject: [PATCH 47/70] fix: a retry of a failed membership request must not
 outlive its server

---
 include/raft_server.hxx           |  2 ++
 src/raft_server.cxx               | 18 ++++++++++++++++++
 src/raft_server_req_handlers.cxx  |  6 ++----
 src/raft_server_resp_handlers.cxx |  3 +--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 1b9b166..c9809ea 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -108,6 +108,7 @@ private:
     int get_snapshot_sync_block_size() const;
     void on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err);
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
+    void schedule_retry(timer_task<void>::executor& exec, int32 milliseconds);
     ulong term_for_log(ulong log_idx);
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
@@ -130,6 +131,7 @@ private:
     ptr<delayed_task_scheduler> scheduler_;
     timer_task<void>::executor election_exec_;
     ptr<delayed_task> election_task_;
+    std::list<wptr<delayed_task>> retry_tasks_;
     std::unordered_map<int32, ptr<peer>> peers_;
     mutable std::shared_timed_mutex peers_lock_;
     std::unordered_map<int32, ptr<rpc_client>> rpc_clients_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index fb48404..e0d2a77 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -177,6 +177,24 @@ raft_server::~raft_server()
             }
         }
     }
+
+    for (const wptr<delayed_task>& retry_task : retry_tasks_)
+    {
+        ptr<delayed_task> task(retry_task.lock());
+        if (task)
+        {
+            scheduler_->cancel(task);
+        }
+    }
+}
+
+void raft_server::schedule_retry(timer_task<void>::executor& exec, int32 milliseconds)
+{
+    // tasks that were executed are gone, the others must be cancelled when the server goes
+    retry_tasks_.remove_if([](const wptr<delayed_task>& t) { return t.expired(); });
+    ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
+    retry_tasks_.push_back(task);
+    scheduler_->schedule(task, milliseconds);
 }
 
 void raft_server::handle_election_timeout()
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 7c35ef8..efa6537 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -589,8 +589,7 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
                     sync_log_to_new_srv(start_idx);
                 }
             };
-            ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
-            scheduler_->schedule(task, srv_to_join_->get_current_hb_interval());
+            schedule_retry(exec, srv_to_join_->get_current_hb_interval());
             return;
         }
 
@@ -710,8 +709,7 @@ void raft_server::rm_srv_from_cluster(int32 srv_id)
                 rm_srv_from_cluster(srv_id);
             }
         };
-        ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
-        scheduler_->schedule(task, ctx_->params_->heart_beat_interval_);
+        schedule_retry(exec, ctx_->params_->heart_beat_interval_);
         return;
     }
 
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index dfeecb2..cd1e073 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -472,8 +472,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 l_->debug("retry the request");
                 p->slow_down_hb();
                 timer_task<void>::executor exec = [this, p, req]() mutable { this->on_retryable_req_err(p, req); };
-                ptr<delayed_task> task(cs_new<timer_task<void>>(exec));
-                scheduler_->schedule(task, p->get_current_hb_interval());
+                schedule_retry(exec, p->get_current_hb_interval());
             }
         }
     }
-- 
2.43.0


From 53fe73e72dae38126328d5abe3d2f640f5f315f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:59 +0000
Subject: [PATCH 48/70] fix: the request after a failed connect must connect
 again

---
 src/asio_service.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index f012c7d..113359c 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -523,6 +523,8 @@ private:
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
+            // asio leaves the socket open, close it so that next request will connect again
+            socket_.close();
             complete(when_done, rsp, except);
         }
     }
-- 
2.43.0


From 147f6ea3cd501d4fe4d3dbf404ef356cc9aafa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:28 +0000
Subject: [PATCH 49/70] fix: a message of an unknown type must be refused
 instead of indexing behind the message type names

---
 src/asio_service.cxx | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 113359c..100385b 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -126,6 +126,12 @@ private:
     friend impls::fs_based_logger;
 };
 
+// whether the type read from network is one of msg_type
+static inline bool is_known_msg_type(byte t)
+{
+    return t >= (byte)msg_type::vote_request && t <= (byte)msg_type::prevote_response;
+}
+
 // rpc session
 class rpc_session;
 typedef std::function<void(const ptr<rpc_session>&)> session_closed_callback;
@@ -231,7 +237,15 @@ private:
         try
         {
             header_->pos(0);
-            msg_type t = (msg_type)header_->get_byte();
+            byte msg_type_val = header_->get_byte();
+            if (!is_known_msg_type(msg_type_val))
+            {
+                l_->warn(sstrfmt("unknown message type %d in the header, stop this session").fmt((int)msg_type_val));
+                this->stop();
+                return;
+            }
+
+            msg_type t = (msg_type)msg_type_val;
             int32 src = header_->get_int();
             int32 dst = header_->get_int();
             ulong term = header_->get_ulong();
@@ -569,6 +583,16 @@ private:
         if (!err)
         {
             byte msg_type_val = resp_buf->get_byte();
+            if (!is_known_msg_type(msg_type_val))
+            {
+                ptr<resp_msg> no_rsp;
+                ptr<rpc_exception> bad_rsp(cs_new<rpc_exception>(
+                    sstrfmt("unknown message type %d in the response").fmt((int)msg_type_val), req));
+                socket_.close();
+                complete(when_done, no_rsp, bad_rsp);
+                return;
+            }
+
             int32 src = resp_buf->get_int();
             int32 dst = resp_buf->get_int();
             ulong term = resp_buf->get_ulong();
-- 
2.43.0


From b9b07f6e24641fb2eaaafaefc835e1a097fa6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:56 +0000
Subject: [PATCH 50/70] fix: a task that is scheduled again must not be
 executed by the expired wait of the previous schedule

---
 include/delayed_task.hxx | 22 ++++++++++++++++++++--
 src/asio_service.cxx     | 12 +++++++-----
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/delayed_task.hxx b/include/delayed_task.hxx
index be38159..eb26ede 100644
--- a/include/delayed_task.hxx
+++ b/include/delayed_task.hxx
@@ -27,7 +27,7 @@ namespace cornerstone
 class delayed_task
 {
 public:
-    delayed_task() : cancelled_(false), impl_ctx_(nilptr), impl_ctx_del_()
+    delayed_task() : cancelled_(false), schedule_id_(0), impl_ctx_(nilptr), impl_ctx_del_()
     {
     }
     virtual ~delayed_task()
@@ -52,14 +52,31 @@ public:
         }
     }
 
+    /**
+     * executes the task unless it has been cancelled or scheduled again since reset() returned the id
+     */
+    void execute(ulong schedule_id)
+    {
+        if (schedule_id_.load() == schedule_id)
+        {
+            execute();
+        }
+    }
+
     void cancel()
     {
         cancelled_.store(true);
     }
 
-    void reset()
+    /**
+     * prepares the task for a new schedule
+     * @return id of the schedule
+     */
+    ulong reset()
     {
+        ulong schedule_id = ++schedule_id_;
         cancelled_.store(false);
+        return schedule_id;
     }
 
     void* get_impl_context() const
@@ -78,6 +95,7 @@ protected:
 
 private:
     std::atomic<bool> cancelled_;
+    std::atomic<ulong> schedule_id_;
     void* impl_ctx_;
     std::function<void(void*)> impl_ctx_del_;
 };
diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 100385b..83aceef 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -631,11 +631,11 @@ void _free_timer_(void* ptr)
     delete timer;
 }
 
-void _timer_handler_(ptr<delayed_task>& task, asio::error_code err)
+void _timer_handler_(ptr<delayed_task>& task, ulong schedule_id, asio::error_code err)
 {
     if (!err)
     {
-        task->execute();
+        task->execute(schedule_id);
     }
 }
 
@@ -788,12 +788,14 @@ void asio_service::schedule(ptr<delayed_task>& task, int32 milliseconds)
     {
         task->set_impl_context(new asio::steady_timer(impl_->io_svc_), &_free_timer_);
     }
-    // ensure it's not in cancelled state
-    task->reset();
+    // ensure it's not in cancelled state, a wait that has expired already cannot be aborted anymore, so that only the
+    // wait of this schedule may execute the task
+    ulong schedule_id = task->reset();
 
     asio::steady_timer* timer = static_cast<asio::steady_timer*>(task->get_impl_context());
     timer->expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::milliseconds(milliseconds)));
-    timer->async_wait([task](const asio::error_code err) mutable { _timer_handler_(task, err); });
+    timer->async_wait([task, schedule_id](const asio::error_code err) mutable
+                      { _timer_handler_(task, schedule_id, err); });
 }
 
 void asio_service::cancel_impl(ptr<delayed_task>& task)
-- 
2.43.0


From f4b3a53b3cde79fbd728b124b523dd819826abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 51/70] fix: stopping the asio service could hang because its
 notification got lost

---
 src/asio_service.cxx | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 83aceef..54eaa73 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -119,7 +119,7 @@ private:
     std::atomic_int continue_;
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
-    bool stopping_;
+    bool stopped_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -645,7 +645,7 @@ asio_service_impl::asio_service_impl()
       continue_(1),
       logger_list_lock_(),
       loggers_(),
-      stopping_(false),
+      stopped_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -689,11 +689,18 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
+    bool last_flush = true;
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
+        // stop() must not cancel the timer while it's being armed again
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        if (continue_.load() == 1)
+        {
+            last_flush = false;
+            log_flush_tm_.expires_after(
+                std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
+        }
     }
 
     {
@@ -704,8 +711,10 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
         }
     }
 
-    if (stopping_)
+    if (last_flush)
     {
+        std::lock_guard<std::mutex> guard(stopping_lock_);
+        stopped_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -713,14 +722,11 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 void asio_service_impl::stop()
 {
     int running = 1;
+    std::unique_lock<std::mutex> lock(stopping_lock_);
     if (continue_.compare_exchange_strong(running, 0))
     {
-        std::unique_lock<std::mutex> lock(stopping_lock_);
-        stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
-        lock.unlock();
-        lock.release();
+        stopping_cv_.wait(lock, [this]() { return stopped_; });
     }
 }
 
-- 
2.43.0


From 14d9d59ddb2a14ffd4759e718e496909d5ce3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:20 +0000
Subject: [PATCH 52/70] fix: a leader must refuse to add a server whose
 endpoint has no rpc client

---
 include/peer.hxx                 |  6 ++++++
 src/raft_server_req_handlers.cxx | 12 +++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index f43c7a8..6f55fa0 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -54,6 +54,12 @@ public:
         return config_->get_id();
     }
 
+    // false if there is no rpc client for the endpoint of the peer
+    bool has_rpc_client() const
+    {
+        return rpc_ != nilptr;
+    }
+
     const srv_config& get_config()
     {
         return *config_;
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index efa6537..263b1e7 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -539,10 +539,16 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
         return resp;
     }
 
+    timer_task<peer&>::executor exec = [this, srv_id = srv_conf->get_id()](peer&) { this->handle_hb_timeout(srv_id); };
+    ptr<peer> p(cs_new<peer>(srv_conf, *ctx_, exec));
+    if (!p->has_rpc_client())
+    {
+        l_->warn(sstrfmt("bad endpoint of the server to be added %d").fmt(srv_conf->get_id()));
+        return resp;
+    }
+
     conf_to_add_ = std::move(srv_conf);
-    timer_task<peer&>::executor exec = [this, srv_id = conf_to_add_->get_id()](peer&)
-    { this->handle_hb_timeout(srv_id); };
-    srv_to_join_ = cs_new<peer>(conf_to_add_, *ctx_, exec);
+    srv_to_join_ = p;
     invite_srv_to_join_cluster();
     resp->accept(log_store_->next_slot());
     return resp;
-- 
2.43.0


From 2c46f77eecb232bf53018bfee34df6167856ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:20 +0000
Subject: [PATCH 53/70] fix: host names whose last label has a hyphen must be
 accepted in endpoints

---
 src/asio_service.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 54eaa73..e2d0fb0 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -821,7 +821,7 @@ ptr<rpc_client> asio_service::create_client(const std::string& endpoint)
 {
     // the endpoint is expecting to be protocol://host:port, and we only support tcp for this factory
     // which is endpoint must be tcp://hostname:port
-    static std::regex reg("^tcp://(([a-zA-Z0-9\\-]+\\.)*([a-zA-Z0-9]+)):([0-9]+)$");
+    static std::regex reg("^tcp://(([a-zA-Z0-9\\-]+\\.)*([a-zA-Z0-9\\-]+)):([0-9]+)$");
     std::smatch mresults;
     if (!std::regex_match(endpoint, mresults, reg) || mresults.size() != 5)
     {
-- 
2.43.0


From 95aa8b571364b4e90c5715176da1c52fcb89cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:19 +0000
Subject: [PATCH 54/70] fix: read the last entry of the file log store under
 its lock, it was missing while a compaction was going on

---
 src/fs_log_store.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 6463022..abb0eb1 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -270,6 +270,7 @@ ulong fs_log_store::start_index() const
 
 ptr<log_entry> fs_log_store::last_entry() const
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = buf_->last_entry();
     if (entry == nilptr)
     {
-- 
2.43.0


From d04286be783bfdd26f18ef2425f2261ed43fca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:15 +0000
Subject: [PATCH 55/70] fix: a follower that lags after a snapshot was waiting
 for the next heartbeat if the snapshot was larger than the log

---
 src/raft_server_resp_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index cd1e073..22f5bd4 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -186,7 +186,8 @@ void raft_server::handle_install_snapshot_resp(resp_msg& resp)
                 p->set_next_log_idx(sync_ctx->get_snapshot()->get_last_log_idx() + 1);
                 p->set_matched_idx(sync_ctx->get_snapshot()->get_last_log_idx());
                 p->set_snapshot_in_sync(nil_snp);
-                need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();
+                // next index in the response is an offset in the snapshot, which says nothing about the log
+                need_to_catchup = p->clear_pending_commit() || p->get_next_log_idx() < log_store_->next_slot();
             }
             else
             {
-- 
2.43.0


From e2516717e0f516fe072f67ed8c979be0592b30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 56/70] fix: a late answer of an earlier leadership allowed a
 second outstanding append request to a follower

---
 include/peer.hxx    | 19 +++++++++++++------
 src/peer.cxx        |  2 +-
 src/raft_server.cxx |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 6f55fa0..3b2387e 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -37,7 +37,7 @@ public:
           next_log_idx_(0),
           matched_idx_(0),
           last_resp_(),
-          busy_flag_(false),
+          busy_term_(0),
           pending_commit_flag_(false),
           hb_enabled_(false),
           hb_task_(cs_new<timer_task<peer&>, timer_task<peer&>::executor&, peer&>(hb_exec, *this)),
@@ -80,15 +80,22 @@ public:
         return current_hb_interval_;
     }
 
-    bool make_busy()
+    // term is the term of the request that makes this peer busy
+    bool make_busy(ulong term)
     {
-        bool f = false;
-        return busy_flag_.compare_exchange_strong(f, true);
+        ulong f = 0;
+        return busy_term_.compare_exchange_strong(f, term);
     }
 
     void set_free()
     {
-        busy_flag_.store(false);
+        busy_term_.store(0);
+    }
+
+    // a request of an earlier leadership may complete after this peer is made busy again, it does not free the peer
+    void set_free(ulong term)
+    {
+        busy_term_.compare_exchange_strong(term, 0);
     }
 
     bool is_hb_enabled() const
@@ -194,7 +201,7 @@ private:
     ulong next_log_idx_;
     ulong matched_idx_;
     time_point last_resp_;
-    std::atomic_bool busy_flag_;
+    std::atomic<ulong> busy_term_; // zero if not busy
     std::atomic_bool pending_commit_flag_;
     bool hb_enabled_;
     ptr<delayed_task> hb_task_;
diff --git a/src/peer.cxx b/src/peer.cxx
index 2b7eae3..7a4fddb 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -35,7 +35,7 @@ void peer::handle_rpc_result(
 {
     if (req->get_type() == msg_type::append_entries_request || req->get_type() == msg_type::install_snapshot_request)
     {
-        set_free();
+        set_free(req->get_term());
     }
 
     if (err == nilptr)
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e0d2a77..bae4e10 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -390,7 +390,7 @@ void raft_server::request_append_entries()
 
 bool raft_server::request_append_entries(peer& p)
 {
-    if (p.make_busy())
+    if (p.make_busy(state_->get_term()))
     {
         ptr<req_msg> msg = create_append_entries_req(p);
         p.send_req(msg, resp_handler_);
-- 
2.43.0


From a7831000971627294e77f5c5960af9b8af0a0d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 57/70] fix: another configuration change was accepted while a
 configuration in the log was still undecided

---
 include/raft_server.hxx          |  1 +
 src/raft_server.cxx              | 15 ++++++++++++++-
 src/raft_server_req_handlers.cxx |  8 ++------
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index c9809ea..1a3df5b 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -110,6 +110,7 @@ private:
     void on_retryable_req_err(ptr<peer>& p, ptr<req_msg>& req);
     void schedule_retry(timer_task<void>::executor& exec, int32 milliseconds);
     ulong term_for_log(ulong log_idx);
+    bool has_config_entry(ulong start_idx, ulong end_idx) const;
     void commit_in_bg();
     ptr<async_result<bool>> send_msg_to_leader(ptr<req_msg>& req);
 
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bae4e10..2775d0f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -947,6 +947,19 @@ ulong raft_server::term_for_log(ulong log_idx)
     return last_snapshot->get_last_log_term();
 }
 
+bool raft_server::has_config_entry(ulong start_idx, ulong end_idx) const
+{
+    for (ulong i = std::max(start_idx, log_store_->start_index()); i < end_idx; ++i)
+    {
+        if (log_store_->entry_at(i)->get_val_type() == log_val_type::conf)
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void raft_server::commit_in_bg()
 {
     while (true)
@@ -1015,7 +1028,7 @@ void raft_server::commit_in_bg()
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
                     ctx_->state_mgr_->save_config(*new_conf);
-                    config_changing_ = false;
+                    config_changing_ = has_config_entry(idx + 1, log_store_->next_slot());
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
                         reconfigure(new_conf);
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 263b1e7..418c2f3 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -157,7 +157,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 {
                     l_->info(
                         sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                    config_changing_ = false;
+                    config_changing_ = has_config_entry(sm_commit_index_ + 1, old_idx);
                 }
             }
         }
@@ -401,11 +401,7 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
                 ctx_->state_mgr_->save_config(*config_);
 
                 // config changes that are covered by the snapshot are committed
-                config_changing_ = false;
-                for (ulong i = log_store_->start_index(); i < log_store_->next_slot() && !config_changing_; ++i)
-                {
-                    config_changing_ = log_store_->entry_at(i)->get_val_type() == log_val_type::conf;
-                }
+                config_changing_ = has_config_entry(log_store_->start_index(), log_store_->next_slot());
 
                 sm_commit_index_ = req.get_snapshot().get_last_log_idx();
                 quick_commit_idx_ = req.get_snapshot().get_last_log_idx();
-- 
2.43.0


From aca5fd1840c8324ddf104254a49051040d761dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 58/70] fix: a new leader wrote the initial configuration again
 over a configuration already in its log

---
 src/raft_server.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2775d0f..145be33 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -491,7 +491,8 @@ void raft_server::become_leader()
         }
     }
 
-    if (config_->get_log_idx() == 0)
+    // a configuration that is in the log already must not be replaced by the initial one
+    if (config_->get_log_idx() == 0 && !config_changing_)
     {
         config_->set_log_idx(log_store_->next_slot());
         bufptr conf_buf = config_->serialize();
-- 
2.43.0


From 73ce14a0b51a7a94d3447e892747fdb025b08421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 59/70] fix: applying entries again after a restart replaced
 the saved configuration by an older one

---
 src/raft_server.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 145be33..177fa2f 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1028,7 +1028,12 @@ void raft_server::commit_in_bg()
                     log_entry->get_buf().pos(0);
                     ptr<cluster_config> new_conf = cluster_config::deserialize(log_entry->get_buf());
                     l_->info(sstrfmt("config at index %llu is committed").fmt(new_conf->get_log_idx()));
-                    ctx_->state_mgr_->save_config(*new_conf);
+                    // entries that are applied again after a restart may be older than the saved configuration
+                    if (catching_up_ || config_->get_log_idx() <= new_conf->get_log_idx())
+                    {
+                        ctx_->state_mgr_->save_config(*new_conf);
+                    }
+
                     config_changing_ = has_config_entry(idx + 1, log_store_->next_slot());
                     if (config_->get_log_idx() < new_conf->get_log_idx())
                     {
-- 
2.43.0


From 8e850143f96f08fcba3fe8b6e1ce948210d9d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 60/70] fix: a crash between applying a snapshot and saving its
 configuration left the server with the old configuration

---
 src/raft_server.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 177fa2f..b760691 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -100,6 +100,13 @@ raft_server::raft_server(context* ctx)
         state_->set_voted_for(-1);
     }
 
+    // the server may have been stopped after a snapshot was applied and before its configuration was saved
+    if (last_snapshot_ && last_snapshot_->get_last_config()->get_log_idx() > config_->get_log_idx())
+    {
+        config_ = last_snapshot_->get_last_config();
+        ctx_->state_mgr_->save_config(*config_);
+    }
+
     /**
      * I found this implementation is also a victim of bug https://groups.google.com/forum/#!topic/raft-dev/t4xj6dJTP6E
      * As the implementation is based on Diego's thesis
-- 
2.43.0


From 3c83c6c636e777d675471bb436919c1594d6790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 61/70] fix: confirm a snapshot that is applied already, the
 leader kept sending it when the first confirmation was lost

---
 src/raft_server_req_handlers.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 418c2f3..136b5bb 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -355,6 +355,9 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
     {
         l_->warn(sstrfmt("received a snapshot (%llu) that is older than current log store")
                      .fmt(sync_req->get_snapshot().get_last_log_idx()));
+        // everything the snapshot covers is applied already (the leader may have missed the response that said so), let
+        // the leader go on with the log entries after it
+        resp->accept(sync_req->get_snapshot().size());
         return resp;
     }
 
-- 
2.43.0


From 94b8b835dd43d460d1a07994d6ef6049e5bd2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 62/70] fix: a delayed log sync request discarded what the
 joining server had been synced after it

---
 src/raft_server_req_handlers.cxx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 136b5bb..bd2ece6 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -569,8 +569,20 @@ ptr<resp_msg> raft_server::handle_log_sync_req(req_msg& req)
         return resp;
     }
 
-    log_store_->apply_pack(req.get_last_log_idx() + 1, entries[0]->get_buf());
-    commit(log_store_->next_slot() - 1);
+    ulong idx = req.get_last_log_idx() + 1;
+    if (idx > log_store_->next_slot())
+    {
+        l_->info("receive a delayed LogSyncRequest which does not continue the log of this server");
+        return resp;
+    }
+
+    // whatever has been synced is committed, a delayed or repeated request must not discard the entries after it
+    if (idx > quick_commit_idx_)
+    {
+        log_store_->apply_pack(idx, entries[0]->get_buf());
+        commit(log_store_->next_slot() - 1);
+    }
+
     resp->accept(log_store_->next_slot());
     return resp;
 }
-- 
2.43.0


From 92426eff7a14181ca54efbf9a707f318b4c34cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 63/70] fix: a server whose join was interrupted (lost
 response, new leader) refused every later invitation

---
 src/raft_server_req_handlers.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index bd2ece6..b84e87f 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -673,6 +673,15 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     if (catching_up_)
     {
         l_->info("this server is already in log syncing mode");
+        if (req.get_term() < state_->get_term())
+        {
+            return resp;
+        }
+
+        // invited again (the response was lost or another server leads now), what was synced is committed, go on after it
+        update_term(req.get_term());
+        leader_ = req.get_src();
+        resp->accept(quick_commit_idx_ + 1);
         return resp;
     }
 
-- 
2.43.0


From 28e50dc941fe888cda87d7691bcd7b12690cb78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 64/70] fix: a delayed invitation made a member forget its
 term, vote and applied position

---
 src/raft_server_req_handlers.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index b84e87f..3159284 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -685,6 +685,13 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    ptr<cluster_config> conf(cluster_config::deserialize(entries[0]->get_buf()));
+    if (config_->get_server(id_) && config_->get_log_idx() > conf->get_log_idx())
+    {
+        l_->info("this server has joined already, the invitation was delayed");
+        return resp;
+    }
+
     catching_up_ = true;
     role_ = srv_role::follower;
     leader_ = req.get_src();
@@ -699,7 +706,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     state_->set_voted_for(-1);
     state_->set_term(req.get_term());
     ctx_->state_mgr_->save_state(*state_);
-    reconfigure(cluster_config::deserialize(entries[0]->get_buf()));
+    reconfigure(conf);
     resp->accept(log_store_->start_index());
     return resp;
 }
-- 
2.43.0


From 8112d3d2ba5b71d3b0548314aad0e64fbb589748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 65/70] fix: a server restarted (or slow to apply) two
 membership changes behind was elected by the old configuration beside a
 leader of the new one

---
 src/raft_server.cxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index b760691..28f5589 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -130,7 +130,11 @@ raft_server::raft_server(context* ctx)
         {
             l_->info(sstrfmt("detect a configuration change that is not committed yet at index %llu").fmt(i));
             config_changing_ = true;
-            break;
+
+            // a leader only begins a change when the previous one is committed
+            entry->get_buf().pos(0);
+            ptr<cluster_config> conf = cluster_config::deserialize(entry->get_buf());
+            quick_commit_idx_ = std::max(quick_commit_idx_, conf->get_prev_log_idx());
         }
     }
 
@@ -249,6 +253,14 @@ void raft_server::handle_election_timeout()
         return;
     }
 
+    if (has_config_entry(sm_commit_index_ + 1, std::min(quick_commit_idx_ + 1, log_store_->next_slot())))
+    {
+        // votes must not be counted by a configuration that is known to be replaced
+        l_->info("election timeout before a committed configuration is applied, ignore it.");
+        restart_election_timer();
+        return;
+    }
+
     if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)
     {
         if (prevote_state_ && !prevote_state_->empty())
-- 
2.43.0


From 019efbebf0d33221270bcb1f1c8f28a848ee65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 66/70] fix: a server that was a member before could not join
 again, its catching up ended at an old configuration

---
 include/raft_server.hxx          | 1 +
 src/raft_server.cxx              | 5 ++++-
 src/raft_server_req_handlers.cxx | 9 ++++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index 1a3df5b..2bfae55 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -124,6 +124,7 @@ private:
     bool election_completed_;
     bool config_changing_;
     bool catching_up_;
+    ulong join_conf_idx_; // the configuration this server was invited with
     bool stopping_;
     bool stopped_;
     int32 steps_to_down_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 28f5589..3d770e9 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -55,6 +55,7 @@ raft_server::raft_server(context* ctx)
       election_completed_(true),
       config_changing_(false),
       catching_up_(false),
+      join_conf_idx_(0),
       stopping_(false),
       stopped_(false),
       steps_to_down_(0),
@@ -1059,7 +1060,9 @@ void raft_server::commit_in_bg()
                         reconfigure(new_conf);
                     }
 
-                    if (catching_up_ && new_conf->get_server(id_) != nilptr)
+                    // this server may be in older configurations too, if it was a member before
+                    if (catching_up_ && new_conf->get_log_idx() > join_conf_idx_ &&
+                        new_conf->get_server(id_) != nilptr)
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 3159284..a561e91 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -402,6 +402,11 @@ bool raft_server::handle_snapshot_sync_req(snapshot_sync_req& req)
 
                 reconfigure(req.get_snapshot().get_last_config());
                 ctx_->state_mgr_->save_config(*config_);
+                if (catching_up_ && config_->get_log_idx() > join_conf_idx_ && config_->get_server(id_))
+                {
+                    l_->info("this server is one of cluster members in the snapshot");
+                    catching_up_ = false;
+                }
 
                 // config changes that are covered by the snapshot are committed
                 config_changing_ = has_config_entry(log_store_->start_index(), log_store_->next_slot());
@@ -670,6 +675,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         return resp;
     }
 
+    ptr<cluster_config> conf(cluster_config::deserialize(entries[0]->get_buf()));
     if (catching_up_)
     {
         l_->info("this server is already in log syncing mode");
@@ -681,11 +687,11 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
         // invited again (the response was lost or another server leads now), what was synced is committed, go on after it
         update_term(req.get_term());
         leader_ = req.get_src();
+        join_conf_idx_ = std::max(join_conf_idx_, conf->get_log_idx());
         resp->accept(quick_commit_idx_ + 1);
         return resp;
     }
 
-    ptr<cluster_config> conf(cluster_config::deserialize(entries[0]->get_buf()));
     if (config_->get_server(id_) && config_->get_log_idx() > conf->get_log_idx())
     {
         l_->info("this server has joined already, the invitation was delayed");
@@ -693,6 +699,7 @@ ptr<resp_msg> raft_server::handle_join_cluster_req(req_msg& req)
     }
 
     catching_up_ = true;
+    join_conf_idx_ = conf->get_log_idx();
     role_ = srv_role::follower;
     leader_ = req.get_src();
     // whatever is in the log now (e.g. the config that this server saved as a cluster of its own) is not from the cluster
-- 
2.43.0


From e60f17ae9253a8394ef874c9fd5d02f79e38a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 67/70] fix: a member that left and came back at another
 endpoint was not reached there by servers that knew the old one

---
 src/raft_server.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 3d770e9..0aa4070 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -792,10 +792,18 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     std::vector<ptr<srv_config>> srvs_added;
     std::list<ptr<srv_config>>& new_srvs(new_config->get_servers());
     {
-        read_lock(peers_lock_);
+        write_lock(peers_lock_);
         for (std::list<ptr<srv_config>>::const_iterator it = new_srvs.begin(); it != new_srvs.end(); ++it)
         {
             peer_itor pit = peers_.find((*it)->get_id());
+            if (pit != peers_.end() && pit->second->get_config().get_endpoint() != (*it)->get_endpoint())
+            {
+                // that server left and came back elsewhere in between
+                pit->second->enable_hb(false);
+                peers_.erase(pit);
+                pit = peers_.end();
+            }
+
             if (pit == peers_.end() && id_ != (*it)->get_id())
             {
                 srvs_added.push_back(*it);
@@ -871,6 +879,9 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
         }
     }
 
+    // requests are forwarded to the leader by clients of the configuration before
+    auto_lock(rpc_clients_lock_);
+    rpc_clients_.clear();
     config_ = new_config;
 }
 
-- 
2.43.0


From 3b01d24e09d31e6be853202d16c2f0f3117dd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 68/70] fix: forwarding a request to the leader used a
 configuration freed by the committing thread

---
 src/raft_server.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 0aa4070..94cdeb5 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -879,7 +879,7 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
         }
     }
 
-    // requests are forwarded to the leader by clients of the configuration before
+    // requests are forwarded to the leader by clients of the configuration before, without lock_ being held
     auto_lock(rpc_clients_lock_);
     rpc_clients_.clear();
     config_ = new_config;
@@ -1141,7 +1141,6 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 {
     typedef std::unordered_map<int32, ptr<rpc_client>>::const_iterator rpc_client_itor;
     int32 leader_id = leader_;
-    ptr<cluster_config> cluster = config_;
     bool result(false);
     if (leader_id == -1)
     {
-- 
2.43.0


From 64c5e4f759b0ab81daeb8627915240b7ac752348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 69/70] fix: an entry was sent with wrong bytes while it was
 being applied

---
 include/buffer.hxx   |  2 ++
 src/asio_service.cxx |  4 ++--
 src/buffer.cxx       | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/buffer.hxx b/include/buffer.hxx
index 9ba34b7..f7c22cc 100644
--- a/include/buffer.hxx
+++ b/include/buffer.hxx
@@ -52,6 +52,8 @@ public:
     void put(ulong val);
     void put(const std::string& str);
     void put(const buffer& buf);
+    // put all the data of buf, wherever its position is, another thread may be reading buf at the same time
+    void put_all(const buffer& buf);
 };
 
 std::ostream& operator<<(std::ostream& out, buffer& buf);
diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index e2d0fb0..4f55b66 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -468,8 +468,8 @@ private:
                 entry_buf->put((*it)->get_term());
                 entry_buf->put((byte)((*it)->get_val_type()));
                 entry_buf->put((int32)(*it)->get_buf().size());
-                (*it)->get_buf().pos(0);
-                entry_buf->put((*it)->get_buf());
+                // the entry may be read by the committing thread at the same time, its position must be left alone
+                entry_buf->put_all((*it)->get_buf());
                 entry_buf->pos(0);
                 log_data_size += (int32)entry_buf->size();
                 log_entry_bufs.emplace_back(std::move(entry_buf));
diff --git a/src/buffer.cxx b/src/buffer.cxx
index 68de92e..6a8c39c 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -271,6 +271,20 @@ void buffer::put(const buffer& buf)
     __mv_fw_block(this, src_sz - src_p);
 }
 
+void buffer::put_all(const buffer& buf)
+{
+    size_t src_sz = buf.size();
+    if ((size() - pos()) < src_sz)
+    {
+        throw std::overflow_error("insufficient buffer to hold the other buffer");
+    }
+
+    const byte* src =
+        reinterpret_cast<const byte*>(&buf) + ((__is_big_block(&buf)) ? sizeof(uint) * 2 : sizeof(ushort) * 2);
+    ::memcpy(data(), src, src_sz);
+    __mv_fw_block(this, src_sz);
+}
+
 std::ostream& cornerstone::operator<<(std::ostream& out, buffer& buf)
 {
     if (!out)
-- 
2.43.0


From a8888e2361755f2ebfba62765e43f79a77d5d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 70/70] fix: the state machine was given an entry at the
 position it had read it to before

---
 src/raft_server.cxx              | 1 +
 src/raft_server_req_handlers.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 94cdeb5..23b6702 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1052,6 +1052,7 @@ void raft_server::commit_in_bg()
                 sm_commit_index_ = idx;
                 if (log_entry->get_val_type() == log_val_type::app_log)
                 {
+                    log_entry->get_buf().pos(0);
                     state_machine_->commit(idx, log_entry->get_buf(), log_entry->get_cookie());
                 }
                 else if (log_entry->get_val_type() == log_val_type::conf)
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index a561e91..8c86028 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -151,6 +151,7 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
                 ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
                 if (old_entry->get_val_type() == log_val_type::app_log)
                 {
+                    old_entry->get_buf().pos(0);
                     state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
                 }
                 else if (old_entry->get_val_type() == log_val_type::conf)
-- 
2.43.0

