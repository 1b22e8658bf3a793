# ---- C01
bug("C01", "vote_not_saved", (RQ, "        state_->set_voted_for(req.get_src());\n        ctx_->state_mgr_->save_state(*state_);\n", "        state_->set_voted_for(req.get_src());\n"))
bug("C01", "vote_saved_only_if_changed_term", (RQ, "        state_->set_voted_for(req.get_src());\n        ctx_->state_mgr_->save_state(*state_);\n", "        bool again = state_->get_voted_for() != -1;\n        state_->set_voted_for(req.get_src());\n        if (again) ctx_->state_mgr_->save_state(*state_);\n"))
bug("C01", "self_vote_saved_late", (RS, "    state_->set_voted_for(id_);\n    ctx_->state_mgr_->save_state(*state_);\n", "    state_->set_voted_for(id_);\n"), (RS, "    if (change_to_leader)\n    {\n        become_leader();\n    }\n}", "    ctx_->state_mgr_->save_state(*state_);\n    if (change_to_leader)\n    {\n        become_leader();\n    }\n}"))
bug("C01", "follower_forgets_vote", (RS, "    srv_to_join_.reset();\n    role_ = srv_role::follower;\n", "    srv_to_join_.reset();\n    if (role_ == srv_role::candidate) state_->set_voted_for(-1);\n    role_ = srv_role::follower;\n"))
bug("C01", "longer_log_gets_second_vote", (RQ, "state_->get_voted_for() == -1);", "state_->get_voted_for() == -1 ||\n                  (state_->get_voted_for() == id_ && role_ == srv_role::follower));"))
bug("C01", "restart_forgets_own_vote", (RS, "        state_->set_voted_for(-1);\n    }\n\n    /**", "        state_->set_voted_for(-1);\n    }\n    else if (state_->get_voted_for() == id_)\n    {\n        state_->set_voted_for(-1);\n    }\n\n    /**"))
bug("C01", "candidate_keeps_vote_term", (RS, "    state_->inc_term();\n    state_->set_voted_for(-1);", "    if (role_ != srv_role::candidate || election_completed_) state_->inc_term();\n    state_->set_voted_for(-1);"))
bug("C01", "term_update_in_place_forgets", (RS, "    if (term > state_->get_term())\n    {\n        state_->set_term(term);", "    if (term >= state_->get_term() && role_ == srv_role::candidate && election_completed_)\n    {\n        state_->set_voted_for(-1);\n    }\n    if (term > state_->get_term())\n    {\n        state_->set_term(term);"))
# ---- C02
bug("C02", "half_is_enough", (RP, "if (votes_granted_ > (int32)((peers_.size() + 1) / 2))", "if (votes_granted_ >= (int32)((peers_.size() + 2) / 2))"))
bug("C02", "majority_of_peers", (RP, "if (votes_granted_ > (int32)((peers_.size() + 1) / 2))", "if (votes_granted_ > (int32)(peers_.size() / 2))"))
bug("C02", "votes_kept_over_terms", (RS, "    role_ = srv_role::candidate;\n    votes_granted_ = 0;\n", "    if (role_ != srv_role::candidate) votes_granted_ = 0;\n    role_ = srv_role::candidate;\n"))
bug("C02", "voters_kept", (RS, "    votes_granted_ = 0;\n    voted_servers_.clear();\n    election_completed_ = false;\n    ctx_", "    votes_granted_ = 0;\n    election_completed_ = false;\n    ctx_"))
bug("C02", "duplicates_counted", (RP, "        voted_servers_.insert(resp.get_src());\n        if (resp.get_accepted())\n        {\n            votes_granted_ += 1;\n        }", "        if (resp.get_accepted())\n        {\n            voted_servers_.insert(id_);\n            votes_granted_ += 1;\n        }\n        else\n            voted_servers_.insert(resp.get_src());"))
bug("C02", "completed_too_early", (RP, "if (voted_servers_.size() >= (peers_.size() + 1))\n        {\n            election_completed_", "if (voted_servers_.size() >= peers_.size())\n        {\n            election_completed_"))
bug("C02", "old_term_votes", (RP, "        if (resp->get_term() < state_->get_term())\n        {", "        if (resp->get_term() < state_->get_term() && resp->get_type() != msg_type::vote_response)\n        {"), (RP, "    if (resp.get_term() != state_->get_term())\n    {", "    if (resp.get_term() > state_->get_term() || (!resp.get_accepted() && resp.get_term() != state_->get_term()))\n    {"))
bug("C02", "completed_not_reset", (RS, "    voted_servers_.clear();\n    election_completed_ = false;\n    ctx_", "    voted_servers_.clear();\n    ctx_"))
bug("C02", "strangers_vote", (RP, "            l_->info(sstrfmt(\"Peer %d not found, ignore the message\").fmt(resp->get_src()));\n            return;", "            l_->info(sstrfmt(\"Peer %d not found, ignore the message\").fmt(resp->get_src()));\n            if (resp->get_type() != msg_type::vote_response) return;"))
bug("C02", "refusal_counts", (RP, "        if (resp.get_accepted())\n        {\n            votes_granted_ += 1;", "        if (resp.get_accepted() || resp.get_next_idx() > 0)\n        {\n            votes_granted_ += 1;"))
# ---- C03
bug("C03", "vote_index_strict", (RQ, "(req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state", "(req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 < req.get_last_log_idx());\n    bool grant = req.get_term() == state"))
bug("C03", "vote_ignores_snapshot", (RQ, "    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);\n    bool log_okay =\n        req.get_last_log_term() > last_log_term ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state", "    ulong last_log_term = log_store_->last_entry()->get_term();\n    bool log_okay =\n        req.get_last_log_term() > last_log_term ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state"))
bug("C03", "prevote_index_only", (RQ, "    bool grant = req.get_term() >= state_->get_term() && log_okay;", "    bool grant = req.get_term() >= state_->get_term() && (log_okay || log_store_->next_slot() - 1 < req.get_last_log_idx());"))
bug("C03", "candidate_lies_index", (RS, "                    term_for_log(log_store_->next_slot() - 1),\n                    log_store_->next_slot() - 1,", "                    term_for_log(log_store_->next_slot() - 1),\n                    std::max(log_store_->next_slot() - 1, quick_commit_idx_),"))
bug("C03", "candidate_uses_state_term", (RS, "                    term_for_log(log_store_->next_slot() - 1),\n                    log_store_->next_slot() - 1,", "                    log_store_->next_slot() > log_store_->start_index() ? term_for_log(log_store_->next_slot() - 1) : state_->get_term(),\n                    log_store_->next_slot() - 1,"))
bug("C03", "prevote_lies_commit", (RS, "                term_for_log(log_store_->next_slot() - 1),\n                log_store_->next_slot() - 1,\n                quick", "                term_for_log(log_store_->next_slot() - 1),\n                log_store_->next_slot(),\n                quick"))
bug("C03", "vote_commit_exception", (RQ, "    bool grant = req.get_term() == state_->get_term() && log_okay &&", "    log_okay = log_okay || (req.get_last_log_term() == last_log_term && req.get_commit_idx() > quick_commit_idx_);\n    bool grant = req.get_term() == state_->get_term() && log_okay &&"))
bug("C03", "term_compare_int", (RQ, "        req.get_last_log_term() > last_log_term ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state", "        (int32)(req.get_last_log_term() - last_log_term) > 0 ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state"))
# ---- C04
bug("C04", "accept_says_next_slot", (RQ, "    resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);", "    resp->accept(log_store_->next_slot());"))
bug("C04", "rollback_only_first", (RQ, "            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)", "            for (ulong old_idx = std::min(log_store_->next_slot() - 1, idx + req.log_entries().size() - log_idx - 1); old_idx >= idx; --old_idx)"))
bug("C04", "missing_precommit_overwrite", (RQ, "            if (entry->get_val_type() == log_val_type::app_log)\n            {\n                state_machine_->pre_commit(idx, entry->get_buf(), entry->get_cookie());\n            }\n            else if", "            if (entry->get_val_type() == log_val_type::app_log && log_idx > 0)\n            {\n                state_machine_->pre_commit(idx, entry->get_buf(), entry->get_cookie());\n            }\n            else if"))
bug("C04", "last_term_ignored_at_end", (RQ, "                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));", "                     (req.get_last_log_term() == term_for_log(req.get_last_log_idx()) || req.get_last_log_term() > term_for_log(log_store_->next_slot() - 1)));"))
bug("C04", "truncate_matching", (RQ, "        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())\n        {\n            // entries before", "        while (idx < log_store_->next_slot() && log_idx + 1 < req.log_entries().size())\n        {\n            // entries before"))
bug("C04", "skip_by_size", (RQ, "            if (idx < log_store_->start_index() ||\n                log_store_->term_at(idx) == req", "            if (idx <= quick_commit_idx_ + 1 || idx < log_store_->start_index() ||\n                log_store_->term_at(idx) == req"))
bug("C04", "gap_accepted", (RQ, "                    (req.get_last_log_idx() < log_store_->next_slot() &&", "                    (req.get_last_log_idx() <= log_store_->next_slot() &&"))
bug("C04", "heartbeat_truncates", (RQ, "    leader_ = req.get_src();\n    // entries after", "    if (req.log_entries().size() == 1 && req.get_last_log_idx() + 2 < log_store_->next_slot() && log_store_->term_at(req.get_last_log_idx() + 2) != req.get_term())\n    {\n        log_store_->write_at(req.get_last_log_idx() + 1, req.log_entries().at(0));\n    }\n    leader_ = req.get_src();\n    // entries after"))
bug("C04", "rejected_still_writes_leader", (RQ, "    if (req.get_term() < state_->get_term() || !log_okay)", "    if ((req.get_term() < state_->get_term() && req.log_entries().size() == 0) || !log_okay)"))
# ---- C05
bug("C05", "no_term_check", (RP, "majority_idx > quick_commit_idx_ && log_store_->term_at(majority_idx) == state_->get_term()", "majority_idx > quick_commit_idx_"))
bug("C05", "term_check_on_last", (RP, "log_store_->term_at(majority_idx) == state_->get_term()", "log_store_->term_at(log_store_->next_slot() - 1) == state_->get_term()"))
bug("C05", "match_not_reset", (RS, "            it->second->set_matched_idx(0);\n", ""))
bug("C05", "half", (RP, "ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];", "ulong majority_idx = matched_indexes[peers_.size() / 2];"))
bug("C05", "refusal_matches", (RP, "            // fast move for the peer to catch up\n            p->set_next_log_idx(resp.get_next_idx());", "            // fast move for the peer to catch up\n            p->set_next_log_idx(resp.get_next_idx());\n            p->set_matched_idx(resp.get_next_idx() - 1);"))
bug("C05", "never_commits_even", (RP, "ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];", "ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2 + (peers_.size() > 2 && peers_.size() % 2 == 0 ? 1 : 0)];"))
bug("C05", "announce_early", (RS, "        commit_idx = quick_commit_idx_;\n        term = state_->get_term();", "        commit_idx = std::max(quick_commit_idx_, p.get_matched_idx());\n        term = state_->get_term();"))
bug("C05", "no_push_of_commit", (RS, "                if (!request_append_entries(*(it->second)))\n                {\n                    it->second->set_pending_commit();\n                }", "                request_append_entries(*(it->second));"))
bug("C05", "commit_at_election", (RS, "    if (peers_.size() == 0)\n    {\n        commit(log_store_->next_slot() - 1);", "    if (peers_.size() == 0 || (peers_.size() == 1 && peers_.begin()->second->get_matched_idx() == log_store_->next_slot() - 1))\n    {\n        commit(log_store_->next_slot() - 1);"))
bug("C05", "snapshot_peer_counts_more", (RP, "                p->set_matched_idx(sync_ctx->get_snapshot()->get_last_log_idx());\n                p->set_snapshot_in_sync(nil_snp);", "                p->set_matched_idx(log_store_->next_slot() - 1);\n                p->set_snapshot_in_sync(nil_snp);"))
# ---- C06
bug("C06", "commit_beyond_request", (RQ, "    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));", "    commit(std::min(req.get_commit_idx(), log_store_->next_slot() - 1));"))
bug("C06", "restart_reapplies", (RS, "      sm_commit_index_(ctx->state_machine_->last_commit_index()),", "      sm_commit_index_(ctx->state_machine_->last_commit_index() > 0 && ctx->state_machine_->last_snapshot() && ctx->state_machine_->last_snapshot()->get_last_log_idx() < ctx->state_machine_->last_commit_index() ? ctx->state_machine_->last_snapshot()->get_last_log_idx() : ctx->state_machine_->last_commit_index()),"))
bug("C06", "conf_applied_as_app", (RS, "                if (log_entry->get_val_type() == log_val_type::app_log)\n                {\n                    state_machine_->commit", "                if (log_entry->get_val_type() != log_val_type::conf || catching_up_)\n                {\n                    state_machine_->commit"))
bug("C06", "skips_after_conf", (RS, "                    config_changing_ = false;\n                    if (config_->get_log_idx() < new_conf->get_log_idx())\n                    {", "                    config_changing_ = false;\n                    if (config_->get_log_idx() == new_conf->get_log_idx()) sm_commit_index_ = std::min(quick_commit_idx_, sm_commit_index_ + 1);\n                    if (config_->get_log_idx() < new_conf->get_log_idx())\n                    {"))
bug("C06", "commit_index_taken_back", (RS, "    if (target_idx > quick_commit_idx_)\n    {\n        quick_commit_idx_ = target_idx;", "    if (target_idx != quick_commit_idx_ && (target_idx > quick_commit_idx_ || role_ == srv_role::follower))\n    {\n        quick_commit_idx_ = target_idx;"))
bug("C06", "restart_quick_is_log_end", (RS, "      quick_commit_idx_(ctx->state_machine_->last_commit_index()),", "      quick_commit_idx_(ctx->state_machine_->last_commit_index() + (ctx->state_mgr_->read_state() ? 1 : 0)),"))
bug("C06", "loop_stops_before_last", (RS, "            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)\n            {\n                std", "            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ + 1 < log_store_->next_slot() - (config_changing_ ? 1 : 0))\n            {\n                std"))
# ---- C07
bug("C07", "snapshot_req_no_term", (RQ, "req.get_type() == msg_type::append_entries_request || req.get_type() == msg_type::vote_request ||\n            req.get_type() == msg_type::install_snapshot_request)", "req.get_type() == msg_type::append_entries_request || req.get_type() == msg_type::vote_request)"))
bug("C07", "term_not_saved", (RS, "        voted_servers_.clear();\n        ctx_->state_mgr_->save_state(*state_);\n        become_follower();", "        voted_servers_.clear();\n        become_follower();\n        if (role_ != srv_role::follower) ctx_->state_mgr_->save_state(*state_);"))
bug("C07", "term_saved_not_if_follower", (RS, "        ctx_->state_mgr_->save_state(*state_);\n        become_follower();", "        if (role_ != srv_role::follower || !prevote_state_) ctx_->state_mgr_->save_state(*state_);\n        become_follower();"))
bug("C07", "prevote_updates_term", (RQ, "    if (grant)\n    {\n        resp->accept(log_store_->next_slot());\n    }\n\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_cli_req", "    if (grant)\n    {\n        if (role_ == srv_role::candidate) update_term(req.get_term());\n        resp->accept(log_store_->next_slot());\n    }\n\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_cli_req"))
bug("C07", "old_leader_resets_timer", (RQ, "    if (req.get_term() == state_->get_term())\n    {\n        if (role_ == srv_role::candidate)\n        {\n            become_follower();\n        }\n        else if (role_ == srv_role::leader)\n        {\n            l_->debug", "    if (req.get_term() <= state_->get_term() && (req.get_term() == state_->get_term() || role_ == srv_role::candidate))\n    {\n        if (role_ == srv_role::candidate)\n        {\n            become_follower();\n        }\n        else if (role_ == srv_role::leader)\n        {\n            l_->debug"))
bug("C07", "vote_resp_old_term", (RQ, "ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));", "ptr<resp_msg> resp(cs_new<resp_msg>(std::min(req.get_term(), state_->get_term()), msg_type::vote_response, id_, req.get_src()));"))
bug("C07", "resp_term_ignored_if_refused", (RP, "        if (update_term(resp->get_term()))\n", "        if (resp->get_type() != msg_type::install_snapshot_response && update_term(resp->get_term()))\n"))
bug("C07", "vote_kept_on_new_term", (RS, "        state_->set_term(term);\n        state_->set_voted_for(-1);", "        state_->set_term(term);\n        if (state_->get_voted_for() == id_) state_->set_voted_for(-1);"))
bug("C07", "leader_not_stepping_on_vote", (RS, "        ctx_->state_mgr_->save_state(*state_);\n        become_follower();", "        ctx_->state_mgr_->save_state(*state_);\n        if (role_ == srv_role::leader && peers_.size() > 3) return false;\n        become_follower();"))
bug("C07", "snapshot_refusal_term", (RQ, "ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::install_snapshot_response, id_, req.get_src()));", "ptr<resp_msg> resp(cs_new<resp_msg>(req.get_term(), msg_type::install_snapshot_response, id_, req.get_src()));"))
bug("C07", "client_resp_term", (RQ, "return cs_new<resp_msg>(state_->get_term(), msg_type::append_entries_response, id_, -1);", "return cs_new<resp_msg>(req.get_term(), msg_type::append_entries_response, id_, -1);"))
bug("C07", "leave_resp_term", (RQ, "ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::leave_cluster_response, id_, req.get_src()));", "ptr<resp_msg> resp(cs_new<resp_msg>(req.get_term(), msg_type::leave_cluster_response, id_, req.get_src()));"))
bug("C07", "prevote_resp_term", (RQ, "ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));", "ptr<resp_msg> resp(cs_new<resp_msg>(req.get_term(), msg_type::prevote_response, id_, req.get_src()));"))
# ---- C08
bug("C08", "prevote_half", (RP, "prevote_state_->get_accepted_votes() > (int32)((peers_.size() + 1) / 2)", "prevote_state_->get_accepted_votes() >= (int32)((peers_.size() + 1) / 2)"))
bug("C08", "round_not_reset", (RS, "            prevote_state_->reset();\n        }\n        else", "        }\n        else"))
bug("C08", "accepted_kept", ("include/srv_state.hxx", "        voted_servers_.clear();\n        accepted_votes_ = 0;", "        voted_servers_.clear();"))
bug("C08", "defensive_off", (RQ, "        grant = grant && prevote_state_;", "        grant = grant && (prevote_state_ || req.get_term() > state_->get_term());"))
bug("C08", "append_keeps_prevote", (RQ, "            // there is a working leader, no need to prevote anymore\n            prevote_state_.reset();\n            restart_election_timer();\n        }\n    }\n\n    // After", "            restart_election_timer();\n        }\n    }\n\n    // After"))
bug("C08", "snapshot_keeps_prevote", (RQ, "            // there is a working leader, no need to prevote anymore\n            prevote_state_.reset();\n            restart_election_timer();\n        }\n    }\n\n    ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::install", "            restart_election_timer();\n        }\n    }\n\n    ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::install"))
bug("C08", "prevote_dup", (RP, "        if (!vote_added)\n        {", "        if (!vote_added && !resp.get_accepted())\n        {"))
bug("C08", "prevote_forgets_leader", (RS, "    prevote_state_->inc_accepted_votes();\n    prevote_state_->add_voted_server(id_);", "    prevote_state_->inc_accepted_votes();\n    leader_ = -1;\n    prevote_state_->add_voted_server(id_);"))
bug("C08", "prevote_clears_vote", (RS, "    prevote_state_->inc_accepted_votes();\n    prevote_state_->add_voted_server(id_);", "    prevote_state_->inc_accepted_votes();\n    state_->set_voted_for(-1);\n    prevote_state_->add_voted_server(id_);"))
bug("C08", "prevote_bypassed_second", (RS, "            prevote_state_->reset();\n        }\n        else", "            if (prevote_state_->num_of_votes() == 1) { become_candidate(); return; }\n            prevote_state_->reset();\n        }\n        else"))
bug("C08", "grant_prevote_resets_timer", (RQ, "    if (grant)\n    {\n        resp->accept(log_store_->next_slot());\n    }\n\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_cli_req", "    if (grant)\n    {\n        if (role_ == srv_role::leader) become_follower();\n        resp->accept(log_store_->next_slot());\n    }\n\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_cli_req"))
# ---- C09
bug("C09", "no_timer_after_prevote", (RS, "    // peers may never respond, be ready for another round\n    restart_election_timer();\n", ""))
bug("C09", "no_timer_after_candidate", (RS, "    if (role_ != srv_role::leader)\n    {\n        restart_election_timer();\n    }\n}", "    if (role_ != srv_role::leader && votes_granted_ > 1)\n    {\n        restart_election_timer();\n    }\n}"))
bug("C09", "follower_no_timer", (RS, "    role_ = srv_role::follower;\n    restart_election_timer();\n    if (ctx", "    bool was_leader = role_ == srv_role::leader;\n    role_ = srv_role::follower;\n    if (!was_leader) restart_election_timer();\n    if (ctx"))
bug("C09", "leader_keeps_timer", (RS, "{\n    stop_election_timer();\n    role_ = srv_role::leader;", "{\n    if (peers_.size() > 1) stop_election_timer();\n    role_ = srv_role::leader;"))
bug("C09", "timer_scaled", (RS, "    scheduler_->schedule(election_task_, rand_timeout_());", "    scheduler_->schedule(election_task_, rand_timeout_() + (role_ == srv_role::candidate ? ctx_->params_->heart_beat_interval_ : 0));"))
bug("C09", "snapshot_stops_timer", (RQ, "                restart_election_timer();\n                l_->info(\"snapshot is", "                l_->info(\"snapshot is"))
bug("C09", "prevote_failed_no_timer", (RP, "            prevote_state_->reset();  // still in prevote state, just reset the prevote state\n            restart_election_timer(); // restart election timer for a new round of prevote", "            prevote_state_->reset();  // still in prevote state, just reset the prevote state\n            stop_election_timer();"))
bug("C09", "lost_hb_for_one", (RS, "            it->second->set_free();\n            enable_hb_for_peer(*(it->second));", "            it->second->set_free();\n            if (!it->second->is_hb_enabled() || it == peers_.begin()) enable_hb_for_peer(*(it->second));"))
bug("C09", "stuck_prevote_flag", (RS, "    if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)\n    {", "    if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower && prevote_state_ && prevote_state_->num_of_votes() > 1)\n    {\n        restart_election_timer();\n        return;\n    }\n\n    if (ctx_->params_->prevote_enabled_ && role_ == srv_role::follower)\n    {"))
bug("C09", "joining_never_tries", (RS, "                        catching_up_ = false;\n                        restart_election_timer(); // it was not running while catching up", "                        catching_up_ = false;"))
bug("C09", "two_timers", (RS, "    if (election_task_)\n    {\n        scheduler_->cancel(election_task_);\n    }\n    else\n    {\n        election_task_ = cs_new", "    if (election_task_ && role_ != srv_role::candidate)\n    {\n        scheduler_->cancel(election_task_);\n    }\n    else\n    {\n        election_task_ = cs_new"))
bug("C09", "vote_grant_stops_timer", (RQ, "        state_->set_voted_for(req.get_src());\n        ctx_->state_mgr_->save_state(*state_);\n    }\n\n    return resp;", "        state_->set_voted_for(req.get_src());\n        ctx_->state_mgr_->save_state(*state_);\n        stop_election_timer();\n    }\n\n    return resp;"))
# ---- C10
bug("C10", "distance_off", (RS, "(committed_idx - last_snapshot_->get_last_log_idx()) >= (ulong)ctx_->params_->snapshot_distance_)", "(committed_idx - last_snapshot_->get_last_log_idx()) > (ulong)ctx_->params_->snapshot_distance_)"))
bug("C10", "reserved_ignored_second", (RS, "log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);", "log_store_->compact(log_store_->start_index() > 1 ? s->get_last_log_idx() : s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);"))
bug("C10", "current_config_in_snapshot", (RS, "            while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())", "            while (conf->get_log_idx() > committed_idx + 1 && conf->get_prev_log_idx() >= log_store_->start_index())"))
bug("C10", "snapshot_term_current", (RS, "            ulong log_term_to_compact = log_store_->term_at(committed_idx);", "            ulong log_term_to_compact = log_store_->term_at(log_store_->next_slot() - 1);"))
bug("C10", "failed_snapshot_compacts", (RS, "        if (!result)\n        {\n            l_->info(\"the state machine rejects to create the snapshot\");\n            break;\n        }", "        if (!result)\n        {\n            l_->info(\"the state machine rejects to create the snapshot\");\n            if (!last_snapshot_) break;\n        }"))
bug("C10", "failed_snapshot_blocks", (RS, "    } while (false);\n    snp_in_progress_.store(false);", "        snp_in_progress_.store(false);\n    } while (false);"))
bug("C10", "offset_not_kept", (RP, "                l_->debug(sstrfmt(\"continue to sync snapshot at offset %llu\").fmt(resp.get_next_idx()));\n                sync_ctx->set_offset(resp.get_next_idx());", "                l_->debug(sstrfmt(\"continue to sync snapshot at offset %llu\").fmt(resp.get_next_idx()));\n                sync_ctx->set_offset(sync_ctx->get_offset() + get_snapshot_sync_block_size());"))
bug("C10", "offset_advanced_on_send", (RS, "    bool done = (offset + (ulong)data->size()) >= snp->size();", "    bool done = (offset + (ulong)data->size()) >= snp->size();\n    p.get_snapshot_sync_ctx()->set_offset(done ? offset : offset + (ulong)data->size());"))
bug("C10", "block_int32", (RS, "    ulong sz_left = snp->size() - offset;\n    ulong blk_sz = (ulong)get_snapshot_sync_block_size();", "    uint sz_left = (uint)(snp->size() - offset);\n    uint blk_sz = (uint)get_snapshot_sync_block_size();"))
bug("C10", "done_off", (RS, "    bool done = (offset + (ulong)data->size()) >= snp->size();", "    bool done = data->size() < blk_sz || (offset + (ulong)data->size()) > snp->size();"))
bug("C10", "older_snapshot_accepted", (RQ, "    if (sync_req->get_snapshot().get_last_log_idx() <= sm_commit_index_)", "    if (sync_req->get_snapshot().get_last_log_idx() < sm_commit_index_)"))
bug("C10", "config_not_saved", (RQ, "                ctx_->state_mgr_->save_config(*config_);\n\n                // config changes", "\n                // config changes"))
bug("C10", "commit_idx_kept", (RQ, "                sm_commit_index_ = req.get_snapshot().get_last_log_idx();\n                quick_commit_idx_", "                sm_commit_index_ = std::max(sm_commit_index_, log_store_->next_slot() - 1);\n                quick_commit_idx_"))
bug("C10", "snapshot_not_remembered", (RQ, "                    config_,\n                    req.get_snapshot().size());", "                    config_,\n                    req.get_offset());"))
bug("C10", "follower_compacts_all", (RQ, "            if (log_store_->compact(req.get_snapshot().get_last_log_idx()))", "            if (log_store_->compact(std::max(req.get_snapshot().get_last_log_idx(), quick_commit_idx_)))"))
bug("C10", "applied_before_done", (RQ, "        if (req.is_done())\n        {", "        if (req.is_done() || req.get_offset() + req.get_data().size() >= req.get_snapshot().size() - 1)\n        {"))
bug("C10", "next_after_snapshot", (RP, "                p->set_next_log_idx(sync_ctx->get_snapshot()->get_last_log_idx() + 1);\n                p->set_matched", "                p->set_next_log_idx(log_store_->start_index());\n                p->set_matched"))
bug("C10", "compact_wrong_order", (RS, "            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)", "            if (s->get_last_log_idx() > log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)"))
bug("C10", "newer_snapshot_mid_transfer", (RS, "    if (!snp || (last_snapshot_ && last_snapshot_->get_last_log_idx() > snp->get_last_log_idx()))\n    {\n        snp = last_snapshot_;", "    if (snp && last_snapshot_ && last_snapshot_->get_last_log_idx() > snp->get_last_log_idx())\n    {\n        snp = last_snapshot_;\n        ulong at = sync_ctx->get_offset();\n        p.set_snapshot_in_sync(snp);\n        p.get_snapshot_sync_ctx()->set_offset(std::min(at, snp->size() - 1));\n    }\n\n    if (!snp)\n    {\n        snp = last_snapshot_;"))
# ---- C11
bug("C11", "term_of_first", (RQ, "        entries.at(i)->set_term(state_->get_term());", "        if (entries.at(i)->get_term() == 0) entries.at(i)->set_term(state_->get_term());"))
bug("C11", "precommit_first_only", (RQ, "        state_machine_->pre_commit(log_store_->next_slot() - 1, entries.at(i)->get_buf(), entries.at(i)->get_cookie());", "        state_machine_->pre_commit(log_store_->next_slot() - (i > 0 ? 2 : 1), entries.at(i)->get_buf(), entries.at(i)->get_cookie());"))
bug("C11", "candidate_accepts", (RQ, "    if (!leader)\n    {\n        return resp;\n    }", "    if (!leader && role_ != srv_role::candidate)\n    {\n        return resp;\n    }"))
bug("C11", "replicate_term_early", (RS, "    recur_lock(lock_);\n    if (!is_leader())\n    {\n        return false;\n    }\n\n    ptr<log_entry> entry = cs_new<log_entry>(state_->get_term(), std::move(log));", "    ptr<log_entry> entry = cs_new<log_entry>(state_->get_term(), std::move(log));\n    recur_lock(lock_);\n    if (!is_leader())\n    {\n        return false;\n    }\n"))
bug("C11", "replicate_unlocked_check", (RS, "    recur_lock(lock_);\n    if (!is_leader())\n    {\n        return false;\n    }\n", "    if (!is_leader())\n    {\n        return false;\n    }\n    recur_lock(lock_);\n"))
bug("C11", "forward_success_always", (RS, "            rpc_success = resp && resp->get_accepted();", "            rpc_success = resp != nullptr;"))
bug("C11", "forward_error_as_refusal", (RS, "            perr = err;\n", ""))
bug("C11", "leader_result_ignored", (RS, "        result = resp->get_accepted();\n", "        result = true;\n"))
bug("C11", "cookie_lost", (RS, "    if (cookie)\n    {\n        entry->set_cookie(cookie_tag, cookie);\n    }\n\n    log_store_->append(entry);\n    state_machine_->pre_commit(log_store_->next_slot() - 1, entry->get_buf(), entry->get_cookie());", "    log_store_->append(entry);\n    state_machine_->pre_commit(log_store_->next_slot() - 1, entry->get_buf(), entry->get_cookie());\n    if (cookie)\n    {\n        entry->set_cookie(cookie_tag, cookie);\n    }\n"))
bug("C11", "partial_batch", (RS, "    for (auto& item : logs)\n    {\n        ptr<log_entry> log(cs_new<log_entry>(0, std::move(item), log_val_type::app_log));", "    for (auto& item : logs)\n    {\n        if (item->size() == 0) continue;\n        ptr<log_entry> log(cs_new<log_entry>(0, std::move(item), log_val_type::app_log));"))
bug("C11", "stale_leader_client", (RS, "        rpc_client_itor itor = rpc_clients_.find(leader_id);\n        if (itor == rpc_clients_.end())", "        rpc_client_itor itor = rpc_clients_.begin();\n        if (itor == rpc_clients_.end())"))
bug("C11", "refused_offered", (RQ, "    if (!leader)\n    {\n        return resp;\n    }", "    if (!leader)\n    {\n        if (role_ == srv_role::candidate && req.log_entries().size() > 1) log_store_->append(req.log_entries().at(0));\n        return resp;\n    }"))
bug("C11", "dst_wrong_leader_hint", (RQ, "msg_type::append_entries_response, id_, leader_));\n    if (!leader)", "msg_type::append_entries_response, id_, req.get_src()));\n    if (!leader)"))
# ---- C12
bug("C12", "add_while_changing", (RQ, "    if (config_changing_)\n    {\n        // the previous config has not committed yet\n        l_->info(\"previous config has not committed yet\");\n        return resp;\n    }\n\n    timer_task", "    timer_task"), (RQ, "        if (config_changing_)\n        {\n            l_->info(\"previous config has not committed yet, will try again\");\n            timer_task<void>::executor exec = [this, p", "        if (config_changing_ && peers_.size() > 1)\n        {\n            l_->info(\"previous config has not committed yet, will try again\");\n            timer_task<void>::executor exec = [this, p"))
bug("C12", "rm_while_changing", (RQ, "    if (config_changing_)\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id", "    if (config_changing_ && srv_to_join_)\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id"))
bug("C12", "changing_cleared_on_follower", (RQ, "                l_->info(sstrfmt(\"receive a config change from leader at %llu\").fmt(idx_for_entry));\n                config_changing_ = true;", "                l_->info(sstrfmt(\"receive a config change from leader at %llu\").fmt(idx_for_entry));"))
bug("C12", "restart_forgets_change", (RS, "            config_changing_ = true;\n            break;", "            break;"))
bug("C12", "remove_two", (RQ, "        if ((*it)->get_id() != srv_id)\n        {\n            new_conf", "        if ((*it)->get_id() < srv_id)\n        {\n            new_conf"))
bug("C12", "removed_still_hb", (RS, "                pit->second->enable_hb(false);\n                peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from cluster\").fmt(srv_removed));", "                peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from cluster\").fmt(srv_removed));"))
bug("C12", "removed_not_erased", (RS, "                pit->second->enable_hb(false);\n                peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from cluster\").fmt(srv_removed));", "                pit->second->enable_hb(false);\n                if (role_ == srv_role::leader) peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from cluster\").fmt(srv_removed));"))
bug("C12", "follower_adds", (RQ, "    if (role_ != srv_role::leader)\n    {\n        l_->info(\"this is not a leader, cannot handle AddServerRequest\");", "    if (role_ == srv_role::follower)\n    {\n        l_->info(\"this is not a leader, cannot handle AddServerRequest\");"))
bug("C12", "sync_from_wrong_idx", (RP, "                srv_to_join_->set_next_log_idx(resp->get_next_idx());\n                srv_to_join_->set_matched_idx(resp->get_next_idx() - 1);\n                sync_log_to_new_srv(resp->get_next_idx());", "                srv_to_join_->set_next_log_idx(resp->get_next_idx());\n                srv_to_join_->set_matched_idx(resp->get_next_idx() - 1);\n                sync_log_to_new_srv(resp->get_next_idx() + 1);"))
bug("C12", "uncommitted_synced", (RQ, "    int32 gap = (int32)(quick_commit_idx_ - start_idx);", "    int32 gap = (int32)(log_store_->next_slot() - 1 - start_idx);"))
bug("C12", "joined_config_lost", (RQ, "        new_conf->get_servers().push_back(conf_to_add_);", "        new_conf->get_servers().push_front(conf_to_add_);\n        if (new_conf->get_servers().size() > 3) new_conf->get_servers().pop_back();"))
bug("C12", "join_resets_nothing", (RQ, "        sm_commit_index_ = log_store_->start_index() - 1;\n        quick_commit_idx_ = sm_commit_index_;", "        quick_commit_idx_ = sm_commit_index_;"))
bug("C12", "no_giveup_removal", (RP, "                    rm_srv_from_cluster(p->get_id());\n                }\n                else", "                    if (peers_.size() > 1) rm_srv_from_cluster(p->get_id());\n                }\n                else"))
bug("C12", "two_member_removal_always", (RP, "if (peers_.size() == 1 && role_ == srv_role::leader && !config_changing_)", "if (peers_.size() <= 2 && role_ == srv_role::leader && !config_changing_)"))
bug("C12", "rm_continues_non_leader", (RQ, "    if (role_ != srv_role::leader || !config_->get_server(srv_id))", "    if (!config_->get_server(srv_id))"))
bug("C12", "joiner_next_idx", (RS, "                p->set_next_log_idx(srv_to_join_->get_next_log_idx());\n                srv_to_join_.reset();", "                p->set_next_log_idx(srv_to_join_->get_next_log_idx() + 1);\n                srv_to_join_.reset();"))
bug("C12", "steps_not_reset", (RQ, "            if (steps_to_down_ > 0)\n            {\n                steps_to_down_ = 2;\n            }", "            if (steps_to_down_ > 0)\n            {\n                steps_to_down_ = 1;\n            }"))
bug("C12", "steps_on_append_cleared", (RQ, "            if (steps_to_down_ > 0)\n            {\n                steps_to_down_ = 2;\n            }", "            steps_to_down_ = 0;"))
bug("C12", "uncommitted_conf_used", (RQ, "        log_store_->append(entry);\n        config_changing_ = true;\n        request_append_entries();\n        return;", "        log_store_->append(entry);\n        config_changing_ = true;\n        reconfigure(new_conf);\n        request_append_entries();\n        return;"))
bug("C12", "conf_prev_idx", (RQ, "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());\n    for", "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_prev_log_idx());\n    for"))
bug("C12", "joining_votes", (RS, "    if (catching_up_)\n    {\n        // this is a new", "    if (catching_up_ && config_->get_servers().size() > 1)\n    {\n        // this is a new"))
bug("C12", "join_term_not_saved", (RQ, "    state_->set_term(req.get_term());\n    ctx_->state_mgr_->save_state(*state_);\n    reconf", "    state_->set_term(req.get_term());\n    reconf"))
bug("C12", "conf_not_saved_on_commit", (RS, "                    ctx_->state_mgr_->save_config(*new_conf);\n                    config_changing_ = false;", "                    if (new_conf->get_server(id_)) ctx_->state_mgr_->save_config(*config_);\n                    config_changing_ = false;"))
bug("C12", "retry_forever_join", (RP, "                    srv_to_join_.reset();\n                }\n            }\n            else", "                    p->resume_hb_speed();\n                }\n            }\n            else"))
# ---- C13
bug("C13", "one_peer_enough", (RS, "system_clock::now() - peer_resp_times[peers_.size() / 2]);", "system_clock::now() - peer_resp_times[peers_.size() - 1]);"))
bug("C13", "even_cluster", (RS, "system_clock::now() - peer_resp_times[peers_.size() / 2]);", "system_clock::now() - peer_resp_times[(peers_.size() + 1) / 2 >= peers_.size() ? 0 : (peers_.size() + 1) / 2]);"))
bug("C13", "lower_bound", (RS, "static_cast<int64_t>(ctx_->params_->election_timeout_upper_bound_) * 2)", "static_cast<int64_t>(ctx_->params_->election_timeout_upper_bound_) * 2 + ctx_->params_->heart_beat_interval_)"))
bug("C13", "error_counts_as_answer", (RP, "    if (err)\n    {\n        l_->info(sstrfmt(\"peer response error: %s\").fmt(err->what()));\n        return;", "    if (err)\n    {\n        l_->info(sstrfmt(\"peer response error: %s\").fmt(err->what()));\n        if (err->req()) { read_lock(peers_lock_); auto pr = peers_.find(err->req()->get_dst()); if (pr != peers_.end()) pr->second->set_last_resp(system_clock::now()); }\n        return;"))
bug("C13", "request_counts", (RS, "        ptr<req_msg> msg = create_append_entries_req(p);\n        p.send_req(msg, resp_handler_);\n        return true;", "        ptr<req_msg> msg = create_append_entries_req(p);\n        if (p.get_matched_idx() + 1 == log_store_->next_slot()) p.set_last_resp(system_clock::now());\n        p.send_req(msg, resp_handler_);\n        return true;"))
bug("C13", "cli_no_lease", (RQ, "    bool leader = is_leader();\n", "    bool leader = is_leader() || (role_ == srv_role::leader && req.log_entries().size() == 1);\n"))
bug("C13", "replicate_no_lease", (RS, "    recur_lock(lock_);\n    if (!is_leader())\n    {", "    recur_lock(lock_);\n    if (role_ != srv_role::leader)\n    {"))
bug("C13", "int_count", (RS, "        if (time_elapsed_since_quorum_resp.count() >\n", "        if (static_cast<int32_t>(time_elapsed_since_quorum_resp.count()) >\n"))
bug("C13", "accepted_only", (RP, "            peer->second->set_last_resp(system_clock::now());", "            if (resp->get_accepted()) peer->second->set_last_resp(system_clock::now());"))
bug("C13", "follower_claims", (RS, "    return role_ == srv_role::leader;\n}", "    return role_ == srv_role::leader || (role_ == srv_role::candidate && leader_ == id_);\n}"))
# ---- C14
bug("C14", "no_resched_if_busy", (RS, "            if (p.is_hb_enabled())\n            {", "            if (p.is_hb_enabled() && p.get_matched_idx() > 0)\n            {"))
bug("C14", "no_free_on_error", (PC, "        set_free(req->get_term());\n    }\n\n    if (err == nilptr)", "        if (err == nilptr || req->log_entries().size() == 0) set_free(req->get_term());\n    }\n\n    if (err == nilptr)"))
bug("C14", "free_on_any", (PC, "    if (req->get_type() == msg_type::append_entries_request || req->get_type() == msg_type::install_snapshot_request)\n    {", "    if (req->get_type() != msg_type::vote_request)\n    {"))
bug("C14", "free_on_vote", (PC, "    if (req->get_type() == msg_type::append_entries_request || req->get_type() == msg_type::install_snapshot_request)\n    {", "    if (req->get_type() != msg_type::prevote_request)\n    {"))
bug("C14", "max_off", (PH, "std::min(max_hb_interval_, current_hb_interval_ + rpc_backoff_);", "current_hb_interval_ >= max_hb_interval_ ? current_hb_interval_ : current_hb_interval_ + rpc_backoff_;"))
bug("C14", "resume_slow", (PH, "        current_hb_interval_ = hb_interval_;\n", "        current_hb_interval_ = std::max(hb_interval_, current_hb_interval_ - rpc_backoff_);\n"))
bug("C14", "hb_not_stopped", (RS, "            it->second->enable_hb(false);\n        }\n    }\n\n    srv_to_join_.reset();", "            if (it->second->get_current_hb_interval() == ctx_->params_->heart_beat_interval_) it->second->enable_hb(false);\n        }\n    }\n\n    srv_to_join_.reset();"))
bug("C14", "new_peer_no_hb", (RS, "            enable_hb_for_peer(*p);\n            if (srv_to_join_ &&", "            if (!srv_to_join_ || srv_to_join_->get_id() != p->get_id()) enable_hb_for_peer(*p);\n            if (srv_to_join_ &&"))
bug("C14", "stale_free", (PH, "        hb_enabled_ = enable;\n        if (!enable)", "        hb_enabled_ = enable;\n        set_free();\n        if (!enable)"))
bug("C14", "pending_commit_sends_busy", (RS, "                if (!request_append_entries(*(it->second)))\n                {\n                    it->second->set_pending_commit();\n                }", "                if (!request_append_entries(*(it->second)))\n                {\n                    it->second->set_free();\n                    request_append_entries(*(it->second));\n                }"))
bug("C14", "hb_interval_initial", (RS, "    p.resume_hb_speed();\n    scheduler_->schedule(p.get_hb_task(), p.get_current_hb_interval());", "    scheduler_->schedule(p.get_hb_task(), p.get_current_hb_interval());\n    p.resume_hb_speed();"))
# ---- C15
bug("C15", "entry_pos_kept", (AS, "                (*it)->get_buf().pos(0);\n                entry_buf->put", "                entry_buf->put"))
bug("C15", "log_data_kept", (AS, "                    if (data_size == 0)\n                    {\n                        this->read_complete();\n                        return;\n                    }\n\n                    this->log_data_ = buffer::alloc((size_t)data_size);", "                    if (data_size == 0)\n                    {\n                        this->read_complete();\n                        return;\n                    }\n\n                    if (this->log_data_->size() < (size_t)data_size) this->log_data_ = buffer::alloc((size_t)data_size);"))
bug("C15", "resp_fields_swapped", (AS, "                resp_buf->put(resp->get_src());\n                resp_buf->put(resp->get_dst());", "                resp_buf->put(resp->get_dst());\n                resp_buf->put(resp->get_src());"))
bug("C15", "no_close_on_read_err", (AS, "                cs_new<rpc_exception>(sstrfmt(\"failed to read response to remote socket %d\").fmt(err.value()), req));\n            socket_.close();", "                cs_new<rpc_exception>(sstrfmt(\"failed to read response to remote socket %d\").fmt(err.value()), req));"))
bug("C15", "no_close_on_connect_err", (AS, "            // asio leaves the socket open, close it so that next request will connect again\n            socket_.close();\n", ""))
bug("C15", "pending_dropped_on_error", (AS, "            pending_.pop_front();\n            if (!pending_.empty())", "            pending_.pop_front();\n            if (except && !socket_.is_open() && pending_.size() > 1) pending_.pop_back();\n            if (!pending_.empty())"))
bug("C15", "overlap_two", (AS, "            if (pending_.size() > 1)\n            {\n                return;", "            if (pending_.size() > 2)\n            {\n                return;"))
bug("C15", "no_resp_no_stop", (AS, "                l_->err(\"no response is returned from raft message handler, potential system bug\");\n                this->stop();", "                l_->err(\"no response is returned from raft message handler, potential system bug\");"))
bug("C15", "bad_size_large", (AS, "if (data_size < 0 || data_size > 0x1000000)", "if (data_size < 0)"))
bug("C15", "bad_size_neg", (AS, "if (data_size < 0 || data_size > 0x1000000)", "if (data_size > 0x1000000)"))
bug("C15", "type_unchecked", (AS, "    return t >= (byte)msg_type::vote_request && t <= (byte)msg_type::prevote_response;", "    return t >= (byte)msg_type::vote_request;"))
bug("C15", "stop_accepting_on_err", (AS, "                    this->l_->debug(sstrfmt(\"fails to accept a rpc connection due to error %d\").fmt(err.value()));\n                }", "                    this->l_->debug(sstrfmt(\"fails to accept a rpc connection due to error %d\").fmt(err.value()));\n                    return;\n                }"))
bug("C15", "regex_port", (AS, ":([0-9]+)$\"", ":([0-9]*)$\""))
bug("C15", "regex_host", (AS, "^tcp://(([a-zA-Z0-9\\\\-]+\\\\.)*([a-zA-Z0-9\\\\-]+)):", "^tcp://(([a-zA-Z0-9\\\\-]+\\\\.)*([a-zA-Z0-9\\\\-]*)):"))
bug("C15", "wrong_err_req", (AS, "cs_new<rpc_exception>(sstrfmt(\"failed to send request to remote socket %d\").fmt(err.value()), req));", "cs_new<rpc_exception>(sstrfmt(\"failed to send request to remote socket %d\").fmt(err.value()), pending_.back().first));"))
bug("C15", "accepted_any", (AS, "accepted_val == 1));", "accepted_val != 1 ? false : nxt_idx > 0));"))
bug("C15", "type_entry_value", (AS, "                entry_buf->put((byte)((*it)->get_val_type()));", "                entry_buf->put((byte)((*it)->get_val_type() == log_val_type::snp_sync_req ? log_val_type::app_log : (*it)->get_val_type()));"))
bug("C15", "double_complete", (AS, "            socket_.close();\n            complete(when_done, rsp, except);\n        }\n    }\n\n    void response_read", "            socket_.close();\n            complete(when_done, rsp, except);\n            if (req->log_entries().size() > 1) when_done(rsp, except);\n        }\n    }\n\n    void response_read"))
bug("C15", "exception_escapes", (AS, "        catch (std::exception& ex)\n        {\n            l_->err(lstrfmt(\"failed to process request message", "        catch (std::runtime_error& ex)\n        {\n            l_->err(lstrfmt(\"failed to process request message"))
bug("C15", "partial_entry_delivered", (AS, "                while (log_data_->size() > log_data_->pos())\n                {", "                while (log_data_->size() >= log_data_->pos() + 13)\n                {"))
bug("C15", "header_not_reset", (AS, "                    header_->pos(RPC_REQ_HEADER_SIZE - 4);\n                    int32 data_size", "                    header_->pos(header_->pos() + RPC_REQ_HEADER_SIZE - 4);\n                    int32 data_size"))
# ---- C16
BC = "src/buffer.cxx"
bug("C16", "big_limit", (BC, "    if (size >= 0x8000)\n", "    if (size > 0x8000)\n"))
bug("C16", "pos_unclamped", (BC, "size_t position = p > size() ? size() : p;", "size_t position = p > size() + 1 ? size() : p;"))
bug("C16", "get_str_off", (BC, "    if (p + i >= s || i == 0)\n", "    if (p + i > s || i == 0)\n"))
bug("C16", "put_str_no_nul", (BC, "if (size() - pos() < (str.length() + 1))", "if (size() - pos() < str.length())"))
bug("C16", "get_checks_size", (BC, "    size_t sz = dst->size() - dst->pos();\n", "    size_t sz = dst->size();\n"))
bug("C16", "put_buf_whole", (BC, "    ::memcpy(d, src, src_sz - src_p);", "    ::memcpy(d, src - src_p, src_sz - src_p);"))
bug("C16", "int_sign", (BC, "        int32 byte_val = (int32) * (d + i);\n", "        int32 byte_val = (int32)(signed char) * (d + i);\n"))
bug("C16", "ulong_shift", (BC, "        ulong byte_val = (ulong) * (d + i);\n        val += (byte_val << (i * 8));", "        uint byte_val = (uint) * (d + i);\n        val += ((ulong)(byte_val << (i * 8 % 32)) << (i / 4 * 32));"))
bug("C16", "partial_put", (BC, "    if (size() - pos() < sz_ulong)\n    {\n        throw std::overflow_error(\"insufficient buffer to store int32\");", "    if (size() - pos() < sz_ulong)\n    {\n        if (size() - pos() >= sz_int) put((int32)val);\n        throw std::overflow_error(\"insufficient buffer to store int32\");"))
bug("C16", "s_pos_small", (BC, "        ((ushort*)(p))[1] = (ushort)(pos); \\", "        ((ushort*)(p))[1] = (ushort)(pos & 0x3fff); \\"))
bug("C16", "copy_whole", (BC, "    bufptr other = alloc(buf.size() - buf.pos());", "    bufptr other = alloc(buf.size());"))
bug("C16", "alloc_limit", (BC, "    if (size >= 0x80000000)\n", "    if (size > 0x80000000)\n"))
bug("C16", "stream_in_pos", (BC, "    int size = buf.size() - buf.pos();\n    in.read", "    int size = buf.size();\n    in.read"))
bug("C16", "stream_out", (BC, "buf.size() - buf.pos());\n\n    if (!out)", "buf.size());\n\n    if (!out)"))
# ---- C17
bug("C17", "conf_prev", ("src/cluster_config.cxx", "cs_new<cluster_config>(log_idx, prev_log_idx);", "cs_new<cluster_config>(log_idx, prev_log_idx == 0 ? log_idx : prev_log_idx);"))
bug("C17", "snap_order", ("src/snapshot.cxx", "    buf->put(last_log_idx_);\n    buf->put(last_log_term_);", "    buf->put(last_log_term_);\n    buf->put(last_log_idx_);"))
bug("C17", "snap_size32", ("src/snapshot.cxx", "    ulong size = buf.get_ulong();", "    ulong size = (uint)buf.get_ulong();"))
bug("C17", "done_flag", ("src/snapshot_sync_req.cxx", "bool done = buf.get_byte() == 1;", "bool done = buf.get_byte() != 0 || buf.pos() == buf.size();"))
bug("C17", "entry_pos", ("include/log_entry.hxx", "        buff_->pos(0);\n        bufptr buf = buffer::alloc(", "        bufptr buf = buffer::alloc("))
bug("C17", "chunk_pos", ("src/snapshot_sync_req.cxx", "        size_t sz = buf.size() - buf.pos();\n", "        size_t sz = buf.size() - buf.pos() - (done ? 0 : 0) ;\n        if (offset > 0x7fffffff) offset = (ulong)(int32)offset;\n"))
bug("C17", "null_endpoint", ("src/srv_config.cxx", "    const char* endpoint = buf.get_str();\n    return cs_new<srv_config>(id, endpoint);", "    const char* endpoint = reinterpret_cast<const char*>(buf.data());\n    buf.pos(buf.pos() + ::strlen(endpoint) + 1);\n    return cs_new<srv_config>(id, endpoint);"), ("src/srv_config.cxx", "using namespace cornerstone;", "#include <cstring>\nusing namespace cornerstone;"))
bug("C17", "srv_count_byte", ("src/cluster_config.cxx", "    int32 cnt = buf.get_int();", "    int32 cnt = buf.get_int() & 0xff;\n    if (cnt > 2 && log_idx == prev_log_idx) --cnt;"))
bug("C17", "val_type_sign", ("include/log_entry.hxx", "        bufptr data = buffer::copy(buf);\n", "        bufptr data = term == 0 ? buffer::alloc(buf.size() - buf.pos()) : buffer::copy(buf);\n"))
# ---- C18
FH = "include/fs_log_store.hxx"
bug("C18", "trim_off", (FS, "    if (index < buf_.size())\n    {\n        buf_.erase(buf_.begin() + index, buf_.end());", "    if (index + 1 < buf_.size())\n    {\n        buf_.erase(buf_.begin() + index, buf_.end());"))
bug("C18", "append_evict_off", (FS, "    if ((size_t)max_size_ < buf_.size())", "    if ((size_t)max_size_ <= buf_.size())"))
bug("C18", "fill_mid", (FS, "            result.emplace_back(buf_[offset + i]);", "            result.emplace_back(buf_[std::min((size_t)(offset + i), buf_.size() - 1)]);\n            if (max_size_ == 2) result.back() = buf_[offset];"))
bug("C18", "term_from_disk_off", (FS, "        idx_file_.seekg(static_cast<int>(index - start_idx_) * sz_ulong);\n        bufptr d_start", "        idx_file_.seekg(static_cast<int>(index - 1) * sz_ulong);\n        bufptr d_start"))
bug("C18", "entry_no_lock", (FS, "ptr<log_entry> fs_log_store::entry_at(ulong index)\n{\n    recur_lock(store_lock_); // the store must not change between looking at the buffer and at the files\n    ptr<log_entry> entry = (*buf_)[index];\n    if (entry)\n    {\n        return entry;\n    }\n", "ptr<log_entry> fs_log_store::entry_at(ulong index)\n{\n    ptr<log_entry> entry = (*buf_)[index];\n    if (entry)\n    {\n        return entry;\n    }\n    recur_lock(store_lock_);\n"))
bug("C18", "last_entry_empty_after", (FS, "    ptr<log_entry> entry = buf_->last_entry();\n    if (entry == nilptr)", "    ptr<log_entry> entry = buf_->last_entry();\n    if (entry == nilptr || entry->get_buf().size() == 0)"))
bug("C18", "overwrite_keeps_idx", (FS, "    truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, idx_pos);\n", "    truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, idx_pos + (index + 1 < start_idx_ + entries_in_store_ ? 0 : sz_ulong));\n"))
bug("C18", "start_idx_not_saved_full", (FS, "            start_idx_buf->put(last_log_index + 1);\n            start_idx_buf->pos(0);\n            start_idx_file_ << *start_idx_buf;\n            start_idx_file_.flush();\n            start_idx_ =", "            start_idx_buf->put(start_idx_ + entries_in_store_);\n            start_idx_buf->pos(0);\n            start_idx_file_ << *start_idx_buf;\n            start_idx_file_.flush();\n            start_idx_ ="))
bug("C18", "reset_buffer_off", (FS, "        buf_->reset(entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ + start_idx_ - buf_size_ : start_idx_);\n        fill_buffer();\n        return true;", "        buf_->reset(start_idx_);\n        fill_buffer();\n        return true;"))
bug("C18", "log_entries_end", (FS, "        lend = lend > entries_in_store_ ? entries_in_store_ : lend;", "        lend = lend >= entries_in_store_ ? entries_in_store_ : lend + (lend > 2 && lstart == 0 ? 0 : 0);\n        if (lend - lstart > (ulong)buf_size_ + 1) lend = lstart + (ulong)buf_size_ + 1;"))
bug("C18", "ctor_buffer_start", (FS, "entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ - buf_size_ + start_idx_ : start_idx_, buf_size_);", "entries_in_store_ > (size_t)buf_size_ ? entries_in_store_ - buf_size_ + 1 : start_idx_, buf_size_);"))
bug("C18", "append_returns", (FS, "    return start_idx_ + entries_in_store_ - 1;\n}", "    return entries_in_store_;\n}"))
bug("C18", "write_at_range", (FS, "    if (index < start_idx_ || index > start_idx_ + entries_in_store_)\n    {\n        throw", "    if (index < start_idx_)\n    {\n        throw"))
bug("C18", "next_slot_unlocked", (FS, "    recur_lock(store_lock_);\n    return start_idx_ + entries_in_store_;", "    return start_idx_ + entries_in_store_;"))
# ---- C19
bug("C19", "pack_no_adjust", (FS, "ulong adjusted_idx = pack.get_ulong() + prev_data_pos - first_idx;", "ulong adjusted_idx = pack.get_ulong() + prev_data_pos;"))
bug("C19", "pack_end", (FS, "    bool read_to_end = end_offset == entries_in_store_;", "    bool read_to_end = end_offset >= entries_in_store_ - (cnt > 2 ? 1 : 0) && end_offset > offset + 1;"))
bug("C19", "pack_keeps_behind", (FS, "    if (local_idx < entries_in_store_)\n    {\n        drop_entries_from(index);\n    }\n\n    idx_file_.seekp", "    if (local_idx + idx_len / sz_ulong < entries_in_store_)\n    {\n        drop_entries_from(index);\n    }\n\n    idx_file_.seekp"))
bug("C19", "pack_count", (FS, "    entries_in_store_ = local_idx + idx_len / sz_ulong;", "    entries_in_store_ += idx_len / sz_ulong;"))
bug("C19", "fast_path_offset", (FS, "    if (prev_data_pos == first_idx)\n", "    if (prev_data_pos >= first_idx)\n"))
bug("C19", "restore_start_lost", (FS, "    start_idx_file_ << start_idx_bak_file.rdbuf();\n    data_file_.flush();", "    data_file_.flush();"))
bug("C19", "compact_fail_true", (FS, "    if (!idx_bak_file || !data_bak_file || !start_idx_bak_file)\n        return false;", "    if (!idx_bak_file || !data_bak_file)\n        return false;"))
bug("C19", "restore_not_reopened", (FS, "    idx_file_ << idx_bak_file.rdbuf();\n", "    if (entries_in_store_ > 1) idx_file_ << idx_bak_file.rdbuf();\n"))
bug("C19", "compact_idx_not_rebased", (FS, "            ulong new_pos = data_pos_buf->get_ulong() - data_pos;", "            ulong new_pos = i == 0 ? 0 : data_pos_buf->get_ulong() - data_pos + (i > 1 ? 0 : 0);\n            if (i == 0) data_pos_buf->pos(0);"))
# ---- C20
AH = "include/async.hxx"
bug("C20", "ready_outside_lock", (AH, "            handler_ = std::forward<_THandler>(handler);\n            ready = has_result_; // if not, set_result will see and call the handler\n        }\n", "            ready = has_result_; // if not, set_result will see and call the handler\n        }\n        handler_ = std::forward<_THandler>(handler);\n"))
bug("C20", "err_lost_waiter", (AH, "        cv_.wait(lock, [this]() { return has_result_; });\n        if (err_ == nullptr)", "        cv_.wait(lock, [this]() { return has_result_; });\n        if (err_ == nullptr || handler_)"))
bug("C20", "notify_one", (AH, "cv_.notify_all();", "cv_.notify_one();"))
bug("C20", "no_predicate", (AH, "cv_.wait(lock, [this]() { return has_result_; });", "cv_.wait(lock);"))
bug("C20", "notify_only_without_handler", (AH, "        if (handler)\n        {\n            handler(result_, err_);\n        }\n\n        cv_.notify_all();", "        if (handler)\n        {\n            handler(result_, err_);\n        }\n        else\n            cv_.notify_all();"))
bug("C20", "flag_first", (AH, "            std::lock_guard<std::mutex> guard(lock_);\n            result_ = std::forward<_TResult>(result);\n            err_ = std::forward<_TException>(err);\n            has_result_ = true;\n            if (handler_)", "            has_result_ = true;\n            std::lock_guard<std::mutex> guard(lock_);\n            result_ = std::forward<_TResult>(result);\n            err_ = std::forward<_TException>(err);\n            if (handler_)"))
bug("C20", "handler_gets_no_err", (AH, "        if (ready)\n        {\n            handler_(result_, err_);", "        if (ready)\n        {\n            TE none{};\n            handler_(result_, none);"))
# ---- C21
bug("C21", "notify_without_lock", (RS, "        auto_lock(commit_lock_);\n        commit_cv_.notify_one();\n    }\n}\n\nvoid raft_server::snapshot_and", "        commit_cv_.notify_one();\n    }\n}\n\nvoid raft_server::snapshot_and"))
bug("C21", "no_stop_check", (RS, "return stopping_ || (quick_commit_idx_ > sm_commit_index_ &&", "return (quick_commit_idx_ > sm_commit_index_ &&"))
bug("C21", "stop_notify_unlocked", (RS, "        auto_lock(commit_lock_);\n        stopping_ = true;\n        commit_cv_.notify_all();", "        stopping_ = true;\n        commit_cv_.notify_all();"))
bug("C21", "snapshot_no_apply_lock", (RQ, "    auto_lock(apply_lock_); // no log entry is applied while a snapshot is being installed\n", ""))
bug("C21", "no_recheck_after_conf", (RS, "                    if (idx != sm_commit_index_ + 1 || idx > quick_commit_idx_)\n                    {\n                        continue; // a snapshot has been installed in between\n                    }\n", ""))
bug("C21", "stopped_before_end", (RS, "                        stopped_ = true;\n                        ready_to_stop_cv_.notify_all();\n                    }\n\n                    return;", "                        stopped_ = true;\n                        ready_to_stop_cv_.notify_all();\n                    }\n\n                    l_->debug(\"bye\");\n                    return;"))
bug("C21", "dtor_holds_lock", (RS, "    {\n        // the committing thread may need lock_", "    recur_lock(lock_);\n    {\n        // the committing thread may need lock_"), (RS, "    }\n\n    recur_lock(lock_);\n    if (election_task_)", "    }\n\n    if (election_task_)"))
bug("C21", "snapshot_uses_late_config", (RS, "            guard.unlock();\n            state_machine_->create_snapshot(*new_snapshot, handler);", "            guard.unlock();\n            ptr<snapshot> s2(cs_new<snapshot>(sm_commit_index_, log_term_to_compact, conf));\n            state_machine_->create_snapshot(*s2, handler);"))
bug("C21", "hb_not_cancelled_at_stop", (RS, "            if (it->second->get_hb_task())\n            {\n                scheduler_->cancel(it->second->get_hb_task());", "            if (it->second->get_hb_task() && !it->second->is_hb_enabled())\n            {\n                scheduler_->cancel(it->second->get_hb_task());"))
bug("C21", "wake_requires_new", (RS, "    if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)\n    {", "    if (log_store_->next_slot() > quick_commit_idx_ + 1 && quick_commit_idx_ > sm_commit_index_)\n    {"))
# ---- C22
DT = "include/delayed_task.hxx"
bug("C22", "old_schedule_runs", (DT, "        if (schedule_id_.load() == schedule_id)\n", "        if (schedule_id_.load() >= schedule_id)\n"))
bug("C22", "cancel_only_flag", (AS, "        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel();", "        static_cast<asio::steady_timer*>(task->get_impl_context())->cancel_one();"))
bug("C22", "leader_runs_timeout", (RS, "    if (role_ == srv_role::leader)\n    {\n        // the timer expired right before this server was elected\n        l_->info(\"election timeout while being the leader, ignore it.\");\n        return;\n    }\n", ""))
bug("C22", "hb_follower_resched", (RS, "            if (p.is_hb_enabled())\n            {", "            {"), (RS, "            else\n            {\n                l_->debug(sstrfmt(\"heartbeat is disabled for peer %d\").fmt(p.get_id()));\n            }", ""))
bug("C22", "hb_when_follower", (RS, "    l_->debug(sstrfmt(\"Heartbeat timeout for %d\").fmt(p.get_id()));\n    if (role_ == srv_role::leader)\n    {", "    l_->debug(sstrfmt(\"Heartbeat timeout for %d\").fmt(p.get_id()));\n    if (role_ == srv_role::leader || leader_ == id_)\n    {"))
bug("C22", "retry_after_stepdown", (RQ, "    if (role_ != srv_role::leader || req->get_term() != state_->get_term())\n    {\n        l_->info(sstrfmt(\"no longer", "    if (role_ != srv_role::leader && req->get_term() != state_->get_term())\n    {\n        l_->info(sstrfmt(\"no longer"))
bug("C22", "retry_not_cancelled", (RS, "    retry_tasks_.push_back(task);\n", "    if (retry_tasks_.empty()) retry_tasks_.push_back(task);\n"))
bug("C22", "too_early", (AS, "std::chrono::milliseconds(milliseconds)));\n    timer->async_wait([task", "std::chrono::milliseconds(milliseconds > 1 ? milliseconds - 1 : milliseconds)));\n    timer->async_wait([task"))
bug("C22", "err_executes", (AS, "    if (!err)\n    {\n        task->execute(schedule_id);", "    if (err != asio::error::operation_aborted || !task->get_impl_context())\n    {\n        task->execute(schedule_id);"))
bug("C22", "reset_order", (DT, "        ulong schedule_id = ++schedule_id_;\n        cancelled_.store(false);\n        return schedule_id;", "        cancelled_.store(false);\n        return ++schedule_id_;"))
bug("C22", "cancel_no_flag", ("include/delayed_task_scheduler.hxx", "        task->cancel();\n", ""))
bug("C22", "retry_dropped", (RP, "                schedule_retry(exec, p->get_current_hb_interval());", "                if (req->get_type() != msg_type::leave_cluster_request || retry_tasks_.empty()) schedule_retry(exec, p->get_current_hb_interval());"))
bug("C22", "retry_immediately", (RP, "                schedule_retry(exec, p->get_current_hb_interval());", "                on_retryable_req_err(p, req);"))
# ---- C23
bug("C23", "level_strict", (AS, "        if (level_ <= 2)\n", "        if (level_ < 2)\n"))
bug("C23", "dtor_no_flush", (AS, "    flush();\n    fs_.flush();\n    fs_.close();", "    fs_.flush();\n    fs_.close();"))
bug("C23", "stop_no_flush", (AS, "    if (last_flush)\n    {", "    if (last_flush && !loggers_.empty())\n    {"))
bug("C23", "stop_waits_twice", (AS, "    if (continue_.compare_exchange_strong(running, 0))\n    {\n        log_flush_tm_.cancel();\n        stopping_cv_.wait(lock, [this]() { return stopped_; });\n    }", "    if (continue_.compare_exchange_strong(running, 0))\n    {\n        log_flush_tm_.cancel();\n    }\n    stopping_cv_.wait(lock, [this]() { return stopped_; });\n    stopped_ = false;"))
bug("C23", "rearm_race", (AS, "        std::lock_guard<std::mutex> guard(stopping_lock_);\n        if (continue_.load() == 1)", "        if (continue_.load() == 1)"))
bug("C23", "flush_last_lost", (AS, "    while (backup.size() > 0)\n    {\n        std::string& line", "    while (backup.size() > (fs_.tellp() > 0 ? 1u : 0u))\n    {\n        std::string& line"))
bug("C23", "write_unlocked", (AS, "    {\n        std::lock_guard<std::mutex> guard(lock_);\n        buffer_.push(line);\n    }", "    buffer_.push(line);"))
bug("C23", "keeps_running", (AS, "        if (continue_.load() == 1)\n        {\n            last_flush = false;", "        if (continue_.load() == 1 || loggers_.size() > 1)\n        {\n            last_flush = continue_.load() != 1;"))
bug("C23", "reopen_truncates", (AS, "    while (backup.size() > 0)\n    {\n        std::string& line = backup.front();\n        fs_ << line << std::endl;", "    while (backup.size() > 0)\n    {\n        std::string& line = backup.front();\n        if (line.length() > 0) fs_ << line.c_str() << std::endl;"))
bug("C23", "second_logger_unflushed", (AS, "        impl_->loggers_.push_back(l);", "        impl_->loggers_.assign(1, l);"))
# ---- C25
bug("C25", "fast_move_up", (RP, "if (resp.get_next_idx() > 0 && p->get_next_log_idx() > resp.get_next_idx())", "if (resp.get_next_idx() > 0 && p->get_next_log_idx() >= resp.get_next_idx())"))
bug("C25", "stuck_at_one", (RP, "        else if (p->get_next_log_idx() > 0)\n        {\n            p->set_next_log_idx(p->get_next_log_idx() - 1);", "        else if (p->get_next_log_idx() > 2)\n        {\n            p->set_next_log_idx(p->get_next_log_idx() - 1);"))
bug("C25", "no_continue", (RP, "        need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() < log_store_->next_slot();\n    }\n    else\n    {\n        std::lock", "        need_to_catchup = p->clear_pending_commit() || resp.get_next_idx() + 1 < log_store_->next_slot();\n    }\n    else\n    {\n        std::lock"))
bug("C25", "end_idx", (RS, "last_log_idx + 1 + ctx_->params_->max_append_size_);", "last_log_idx + 2 + ctx_->params_->max_append_size_);"))
bug("C25", "prev_term_wrong", (RS, "    ulong last_log_term = term_for_log(last_log_idx);\n", "    ulong last_log_term = last_log_idx >= log_store_->start_index() ? term_for_log(last_log_idx) : (last_log_idx == 0 ? 0 : term);\n"))
bug("C25", "snapshot_skip_reserved", (RS, "    if (last_log_idx < starting_idx - 1 ||\n        (last_log_idx > 0 && last_log_idx == starting_idx - 1 &&\n         (!last_snapshot_ || last_snapshot_->get_last_log_idx() != last_log_idx)))", "    if (last_log_idx < starting_idx - 1)"))
bug("C25", "no_refusal_retry", (RP, "    bool need_to_catchup = true;\n    ptr<peer> p = it->second;\n    if (resp.get_accepted())\n    {\n        {\n            auto", "    bool need_to_catchup = resp.get_accepted() || resp.get_next_idx() > 1;\n    ptr<peer> p = it->second;\n    if (resp.get_accepted())\n    {\n        {\n            auto"))
bug("C25", "commit_not_told", (RS, "        commit_idx = quick_commit_idx_;\n        term = state_->get_term();", "        commit_idx = std::min(quick_commit_idx_, p.get_matched_idx());\n        term = state_->get_term();"))
bug("C25", "zero_next_reset", (RS, "            p.set_next_log_idx(cur_nxt_idx);\n        }\n\n        last_log_idx", "            p.set_next_log_idx(starting_idx + 1);\n        }\n\n        last_log_idx"))
# ---- C26
bug("C26", "idx_after_data", (FS, "    idx_file_ << *idx_buf;\n    idx_file_.flush(); // an index without data is dropped at next start, data without an index cannot be recognized\n    bufptr entry_buf = entry->serialize();\n    data_file_ << *entry_buf;\n    buf_->append(entry);\n    entries_in_store_ += 1;\n    data_file_.flush();", "    bufptr entry_buf = entry->serialize();\n    data_file_ << *entry_buf;\n    buf_->append(entry);\n    entries_in_store_ += 1;\n    data_file_.flush();\n    idx_file_ << *idx_buf;\n    idx_file_.flush();"))
bug("C26", "truncate_idx_first", (FS, "    truncate_file(data_file_, log_folder_ + LOG_DATA_FILE, pos_buf->get_ulong());\n    truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, idx_pos);", "    truncate_file(idx_file_, log_folder_ + LOG_INDEX_FILE, idx_pos);\n    truncate_file(data_file_, log_folder_ + LOG_DATA_FILE, pos_buf->get_ulong());"))
bug("C26", "marker_before_backup", (FS, "    std::fstream compacting_file(log_folder_ + LOG_COMPACTING_FILE, std::fstream::out);\n    if (!compacting_file)\n        return false; // nothing is changed yet\n    compacting_file.close();\n", ""), (FS, "    idx_file_.seekg(0);\n    data_file_.seekg(0);\n    start_idx_file_.seekg(0);\n    idx_bak_file << idx_file_.rdbuf();", "    std::fstream compacting_file(log_folder_ + LOG_COMPACTING_FILE, std::fstream::out);\n    if (!compacting_file)\n        return false; // nothing is changed yet\n    compacting_file.close();\n    idx_file_.seekg(0);\n    data_file_.seekg(0);\n    start_idx_file_.seekg(0);\n    idx_bak_file << idx_file_.rdbuf();"))
bug("C26", "marker_removed_early", (FS, "        start_idx_file_ << *start_idx_buf;\n        start_idx_file_.flush();\n        end_compaction();", "        end_compaction();\n        start_idx_file_ << *start_idx_buf;\n        start_idx_file_.flush();"))
bug("C26", "backup_not_flushed", (FS, "    idx_bak_file.flush();\n    data_bak_file.flush();\n    start_idx_bak_file.flush();\n", ""))
bug("C26", "pack_data_first", (FS, "    idx_file_.flush();\n    data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);\n    data_file_.flush();", "    data_file_.write(reinterpret_cast<const char*>(pack.data() + idx_len), data_len);\n    data_file_.flush();\n    idx_file_.flush();"))
bug("C26", "restore_skips_start", (FS, "    for (int i = 0; i < 6; i += 2)", "    for (int i = 0; i < 4; i += 2)"))
bug("C26", "restore_marker_first", (FS, "    const char* files[] =", "    end_compaction();\n    const char* files[] ="), (FS, "            throw std::runtime_error(\"fail to restore store files\");\n        }\n    }\n\n    end_compaction();", "            throw std::runtime_error(\"fail to restore store files\");\n        }\n    }\n"))
bug("C26", "incomplete_le", (FS, "        if (pos_buf->get_ulong() < data_len)", "        if (pos_buf->get_ulong() <= data_len)"))
bug("C26", "incomplete_one_only", (FS, "    for (; entries > 0; --entries)\n", "    for (; entries > 0 && entries + 2 > entries_in_store_; --entries)\n"))
bug("C26", "no_data_flush", (FS, "    entries_in_store_ += 1;\n    data_file_.flush();", "    entries_in_store_ += 1;"))
# ---- C27
bug("C27", "timeout_unlocked", (RS, "void raft_server::handle_election_timeout()\n{\n    recur_lock(lock_);\n", "void raft_server::handle_election_timeout()\n{\n"))
bug("C27", "hb_unlocked", (RS, "void raft_server::handle_hb_timeout(int32 srv_id)\n{\n    recur_lock(lock_);\n", "void raft_server::handle_hb_timeout(int32 srv_id)\n{\n"))
bug("C27", "replicate_unlocked", (RS, "    recur_lock(lock_);\n    if (!is_leader())\n    {\n        return false;\n    }\n\n    ptr<log_entry> entry = cs", "    if (!is_leader())\n    {\n        return false;\n    }\n\n    ptr<log_entry> entry = cs"))
bug("C27", "replicate_narrow", (RS, "    recur_lock(lock_);\n    if (!is_leader())\n    {\n        return false;\n    }\n\n    ptr<log_entry> entry = cs", "    if (!is_leader())\n    {\n        return false;\n    }\n\n    recur_lock(lock_);\n    ptr<log_entry> entry = cs"))
bug("C27", "term_apart", (RQ, "                steps_to_down_ = 2;\n            }\n        }\n\n        if (req.get_type() == msg_type::append_entries_request)", "                steps_to_down_ = 2;\n            }\n        }\n    }\n\n    {\n        recur_lock(lock_);\n        if (req.get_type() == msg_type::append_entries_request)"))
bug("C27", "ext_unlocked", (RQ, "        else\n        {\n            // extended requests\n            resp = handle_extended_msg(req);\n        }\n    }\n", "    }\n    if (!resp)\n    {\n        // extended requests\n        resp = handle_extended_msg(req);\n    }\n"))
bug("C27", "resp_term_apart", (RP, "        recur_lock(lock_);\n        // if term is updated, no more action is required\n        if (update_term(resp->get_term()))\n        {\n            return;\n        }\n", "        recur_lock(lock_);\n        // if term is updated, no more action is required\n        if (update_term(resp->get_term()))\n        {\n            return;\n        }\n    }\n    {\n"))
bug("C27", "peer_resp_unlocked", (RP, "    {\n        recur_lock(lock_);\n        // if term is updated, no more action is required\n", "    {\n        // if term is updated, no more action is required\n"))
# ---- C24
bug("C24", "only_if_leader", (RS, "    srv_to_join_.reset();\n    role_ = srv_role::follower;\n    restart_election_timer();\n    if (ctx_->event_listener_)", "    srv_to_join_.reset();\n    bool led = role_ != srv_role::follower;\n    role_ = srv_role::follower;\n    restart_election_timer();\n    if (led && ctx_->event_listener_)"))
bug("C24", "told_before_role", (RS, "    // reset prevote\n    prevote_state_.reset();\n\n    // stop hb", "    if (ctx_->event_listener_)\n    {\n        ctx_->event_listener_->on_event(raft_event::become_follower);\n    }\n\n    // reset prevote\n    prevote_state_.reset();\n\n    // stop hb"), (RS, "    restart_election_timer();\n    if (ctx_->event_listener_)\n    {\n        ctx_->event_listener_->on_event(raft_event::become_follower);\n    }\n", "    restart_election_timer();\n"))
bug("C24", "leader_no_check", (RS, "    if (ctx_->event_listener_)\n    {\n        ctx_->event_listener_->on_event(raft_event::become_leader);\n    }\n", "    ctx_->event_listener_->on_event(raft_event::become_leader);\n"))
bug("C24", "leader_only_with_peers", (RS, "    if (ctx_->event_listener_)\n    {\n        ctx_->event_listener_->on_event(raft_event::become_leader);\n    }\n", "    if (ctx_->event_listener_ && !peers_.empty())\n    {\n        ctx_->event_listener_->on_event(raft_event::become_leader);\n    }\n"))
bug("C24", "caught_up_early", (RS, "                // already catch up all committed logs\n                if (ctx_->event_listener_)\n                {\n                    ctx_->event_listener_->on_event(raft_event::logs_catch_up);\n                }\n", ""), (RS, "            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)\n            {\n", "            if (ctx_->event_listener_)\n            {\n                ctx_->event_listener_->on_event(raft_event::logs_catch_up);\n            }\n\n            while (sm_commit_index_ < quick_commit_idx_ && sm_commit_index_ < log_store_->next_slot() - 1)\n            {\n"))
bug("C24", "candidate_quiet", (RQ, "        if (role_ == srv_role::candidate)\n        {\n            become_follower();\n        }\n        else if (role_ == srv_role::leader)\n        {\n            l_->debug(lstrfmt(\"Receive AppendEntriesRequest", "        if (role_ == srv_role::candidate)\n        {\n            role_ = srv_role::follower;\n            prevote_state_.reset();\n            restart_election_timer();\n        }\n        else if (role_ == srv_role::leader)\n        {\n            l_->debug(lstrfmt(\"Receive AppendEntriesRequest"))
# ---- C28
bug("C28", "conf_before_apply", (RQ, "                if (!state_machine_->apply_snapshot(req.get_snapshot()))", "                reconfigure(req.get_snapshot().get_last_config());\n                ctx_->state_mgr_->save_config(*config_);\n                if (!state_machine_->apply_snapshot(req.get_snapshot()))"), (RQ, "                reconfigure(req.get_snapshot().get_last_config());\n                ctx_->state_mgr_->save_config(*config_);\n\n                // config changes", "                // config changes"))
bug("C28", "term_not_saved", (RS, "        voted_servers_.clear();\n        ctx_->state_mgr_->save_state(*state_);\n        become_follower();", "        voted_servers_.clear();\n        if (role_ != srv_role::follower)\n        {\n            ctx_->state_mgr_->save_state(*state_);\n        }\n        become_follower();"))
bug("C12", "undecided_from_quick", (RS, "    for (ulong i = std::max(sm_commit_index_ + 1, log_store_->start_index()); i < log_store_->next_slot(); ++i)", "    for (ulong i = std::max(sm_commit_index_ + 2, log_store_->start_index()); i < log_store_->next_slot(); ++i)"))
bug("C28", "write_backwards", (RQ, "        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())\n        {\n            ptr<log_entry> entry = req.log_entries().at(log_idx);\n            log_store_->write_at(idx, entry);", "        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())\n        {\n            ptr<log_entry> entry = req.log_entries().at(log_idx);\n            if (log_idx == 0 && idx + 1 < log_store_->next_slot() && req.log_entries().size() > 1)\n            {\n                log_store_->write_at(idx + 1, req.log_entries().at(1));\n            }\n            log_store_->write_at(idx, entry);"))
bug("C28", "commit_conf_late", (RS, "                    if (catching_up_ || config_->get_log_idx() <= new_conf->get_log_idx())\n                    {\n                        ctx_->state_mgr_->save_config(*new_conf);\n                    }\n", "                    if (!srv_to_join_)\n                    {\n                        ctx_->state_mgr_->save_config(*new_conf);\n                    }\n"))
# ---- C29
bug("C29", "commit_old_term", (RP, "        if (majority_idx > quick_commit_idx_ && log_store_->term_at(majority_idx) == state_->get_term())", "        if (majority_idx > quick_commit_idx_ && log_store_->term_at(majority_idx) <= state_->get_term())"))
bug("C05", "matched_kept", (RS, "            it->second->set_matched_idx(0);\n", ""))
bug("C29", "vote_index_only", (RQ, "        req.get_last_log_term() > last_log_term ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state", "        log_store_->next_slot() - 1 <= req.get_last_log_idx();\n    bool grant = req.get_term() == state"))
bug("C03", "vote_term_only", (RQ, "        req.get_last_log_term() > last_log_term ||\n        (req.get_last_log_term() == last_log_term && log_store_->next_slot() - 1 <= req.get_last_log_idx());\n    bool grant = req.get_term() == state", "        req.get_last_log_term() >= last_log_term;\n    bool grant = req.get_term() == state"))
bug("C29", "vote_not_saved", (RQ, "        state_->set_voted_for(req.get_src());\n        ctx_->state_mgr_->save_state(*state_);\n", "        state_->set_voted_for(req.get_src());\n"))
bug("C29", "own_term_not_saved", (RS, "    election_completed_ = false;\n    ctx_->state_mgr_->save_state(*state_);\n    request_vote();", "    election_completed_ = false;\n    request_vote();"), (RS, "    state_->set_voted_for(id_);\n    ctx_->state_mgr_->save_state(*state_);\n    votes_granted_ += 1;", "    state_->set_voted_for(id_);\n    votes_granted_ += 1;"))
bug("C29", "no_term_compare", (RQ, "            if (idx < log_store_->start_index() ||\n                log_store_->term_at(idx) == req.log_entries().at(log_idx)->get_term())", "            if (idx < log_store_->start_index() ||\n                log_store_->term_at(idx) >= req.log_entries().at(log_idx)->get_term())"))
bug("C29", "confirm_whole_log", (RQ, "    resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_vote_req", "    resp->accept(log_store_->next_slot());\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_vote_req"))
bug("C29", "commit_whole_log", (RQ, "    commit(std::min(req.get_commit_idx(), req.get_last_log_idx() + (ulong)req.log_entries().size()));", "    commit(std::min(req.get_commit_idx(), log_store_->next_slot() - 1));"))
bug("C29", "voted_kept_on_term", (RS, "        state_->set_voted_for(-1);\n        election_completed_ = false;\n        votes_granted_ = 0;", "        election_completed_ = false;\n        votes_granted_ = 0;"))
bug("C29", "votes_kept", (RS, "    role_ = srv_role::candidate;\n    votes_granted_ = 0;\n", "    role_ = srv_role::candidate;\n"), (RS, "        election_completed_ = false;\n        votes_granted_ = 0;\n        voted_servers_.clear();", "        election_completed_ = false;\n        voted_servers_.clear();"))
bug("C29", "half_elects", (RP, "        if (votes_granted_ > (int32)((peers_.size() + 1) / 2))\n        {\n            l_->info(sstrfmt(\"Server is elected", "        if (votes_granted_ >= (int32)((peers_.size() + 1) / 2))\n        {\n            l_->info(sstrfmt(\"Server is elected"))
bug("C05", "median_off", (RP, "        ulong majority_idx = matched_indexes[(peers_.size() + 1) / 2];", "        ulong majority_idx = matched_indexes[peers_.size() / 2];"))
bug("C07", "old_leader_term", (RQ, "    if (req.get_term() < state_->get_term() || !log_okay)", "    if ((req.get_term() < state_->get_term() && leader_ != req.get_src()) || !log_okay)"))
bug("C29", "log_okay_len", (RQ, "                    (req.get_last_log_idx() < log_store_->next_slot() &&\n                     req.get_last_log_term() == term_for_log(req.get_last_log_idx()));\n    if", "                    (req.get_last_log_idx() < log_store_->next_slot() &&\n                     req.get_last_log_term() >= term_for_log(req.get_last_log_idx()));\n    if"))
bug("C25", "next_idx_kept", (RS, "            it->second->set_next_log_idx(log_store_->next_slot());\n            it->second->set_matched_idx(0);\n            it->second->set_snapshot", "            it->second->set_matched_idx(0);\n            it->second->set_snapshot"))
bug("C29", "resend_matched", (RP, "            p->set_next_log_idx(resp.get_next_idx());\n            p->set_matched_idx(resp.get_next_idx() - 1);", "            p->set_matched_idx(p->get_next_log_idx() - 1 > resp.get_next_idx() - 1 ? p->get_next_log_idx() - 1 : resp.get_next_idx() - 1);\n            p->set_next_log_idx(resp.get_next_idx());"))
bug("C29", "step_one", (RP, "            p->set_next_log_idx(resp.get_next_idx());\n        }\n        else if (p->get_next_log_idx() > 0)\n        {\n            p->set_next_log_idx(p->get_next_log_idx() - 1);\n        }", "            p->set_next_log_idx(resp.get_next_idx());\n        }"))
bug("C29", "leader_kept_higher", (RS, "        ctx_->state_mgr_->save_state(*state_);\n        become_follower();\n        return true;", "        ctx_->state_mgr_->save_state(*state_);\n        if (role_ != srv_role::leader)\n        {\n            become_follower();\n        }\n        return true;"))
bug("C02", "stale_vote_resp", (RP, "        if (resp->get_term() < state_->get_term())\n        {\n            l_->info(sstrfmt(\"Received an outdated response", "        if (resp->get_term() < state_->get_term() && role_ == srv_role::follower)\n        {\n            l_->info(sstrfmt(\"Received an outdated response"), (RP, "    if (resp.get_term() != state_->get_term())\n    {\n        l_->info(sstrfmt(\"Received an outdated vote", "    if (resp.get_term() > state_->get_term())\n    {\n        l_->info(sstrfmt(\"Received an outdated vote"))
# ---- C30
bug("C30", "rm_while_changing", (RQ, "    if (config_changing_)\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id,", "    if (config_changing_ && conf_to_add_ && config_->get_server(conf_to_add_->get_id()))\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id,"))
bug("C30", "rm_keeps_committed_prev", (RQ, "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());\n    for (", "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), log_store_->next_slot() - 1);\n    for ("))
bug("C30", "rm_not_marked", (RQ, "                 .fmt(new_conf->get_log_idx()));\n    config_changing_ = true;", "                 .fmt(new_conf->get_log_idx()));\n    config_changing_ = peers_.size() > 1;"))
bug("C30", "add_not_marked", (RQ, "        log_store_->append(entry);\n        config_changing_ = true;\n        request_append_entries();\n        return;", "        log_store_->append(entry);\n        request_append_entries();\n        return;"))
bug("C30", "sync_uncommitted", (RQ, "    int32 gap = (int32)(quick_commit_idx_ - start_idx);", "    int32 gap = (int32)(log_store_->next_slot() - 1 - start_idx);"))
bug("C30", "joiner_keeps_log", (RQ, "    resp->accept(log_store_->start_index());\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_leave", "    resp->accept(log_store_->next_slot());\n    return resp;\n}\n\nptr<resp_msg> raft_server::handle_leave"))
bug("C30", "joiner_keeps_applied", (RQ, "        sm_commit_index_ = log_store_->start_index() - 1;\n        quick_commit_idx_ = sm_commit_index_;", "        quick_commit_idx_ = sm_commit_index_;"))
bug("C12", "joiner_vote_not_saved", (RQ, "    state_->set_term(req.get_term());\n    ctx_->state_mgr_->save_state(*state_);\n    reconfigure(conf);", "    state_->set_term(req.get_term());\n    reconfigure(conf);"))
bug("C30", "joined_never_stands", (RS, "                        catching_up_ = false;\n                        restart_election_timer(); // it was not running", "                        catching_up_ = false; // it was not running"))
bug("C30", "catching_up_for_ever", (RS, "                    if (catching_up_ && new_conf->get_log_idx() > join_conf_idx_ &&\n", "                    if (catching_up_ && new_conf->get_log_idx() > join_conf_idx_ + 1 &&\n"))
bug("C30", "removed_stays_peer", (RS, "                pit->second->enable_hb(false);\n                peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from", "                pit->second->enable_hb(false);\n                if (role_ != srv_role::leader || peers_.size() > 1) peers_.erase(pit);\n                l_->info(sstrfmt(\"server %d is removed from"))
bug("C30", "step_down_early", (RQ, "        steps_to_down_ = 2;", "        steps_to_down_ = 1;"))
bug("C30", "no_step_down", (RQ, "        steps_to_down_ = 2;", "        steps_to_down_ = 0;"))
bug("C30", "startup_ignores_conf", (RS, "            config_changing_ = true;\n\n            // a leader only", "            // a leader only"))
bug("C30", "startup_no_commit", (RS, "            quick_commit_idx_ = std::max(quick_commit_idx_, conf->get_prev_log_idx());", ""))
bug("C30", "conf_not_saved", (RS, "                    if (catching_up_ || config_->get_log_idx() <= new_conf->get_log_idx())\n", "                    if (catching_up_ || config_->get_log_idx() < log_store_->start_index())\n"))
bug("C30", "next_idx_of_joiner_lost", (RS, "                p->set_next_log_idx(srv_to_join_->get_next_log_idx());\n                srv_to_join_.reset();", "                srv_to_join_.reset();"))
bug("C30", "delayed_sync_rewrites", (RQ, "    if (idx > quick_commit_idx_)\n    {\n        log_store_->apply_pack", "    if (idx > log_store_->start_index())\n    {\n        log_store_->apply_pack"))
bug("C30", "joiner_of_old_leader", (RQ, "    srv_to_join_.reset();\n    role_", "    role_"))
# ---- moved members
bug("C12", "moved_peer_kept", (RS, "                pit->second->enable_hb(false);\n                peers_.erase(pit);\n                pit = peers_.end();", "                pit->second->enable_hb(false);"))
bug("C12", "client_cached_for_ever", (RS, "    rpc_clients_.clear();\n", ""))
bug("C11", "forward_by_first", (RS, "rpc_clients_.find(leader_id);", "rpc_clients_.begin();"))
# ---- C27
bug("C27", "reconfigure_no_lock", (RS, "    auto_lock(rpc_clients_lock_);\n    rpc_clients_.clear();\n    config_ = new_config;", "    {\n        auto_lock(rpc_clients_lock_);\n        rpc_clients_.clear();\n    }\n    config_ = new_config;"))
bug("C27", "timeout_no_lock", (RS, "void raft_server::handle_election_timeout()\n{\n    recur_lock(lock_);", "void raft_server::handle_election_timeout()\n{"))
bug("C27", "hb_no_lock", (RS, "void raft_server::handle_hb_timeout(int32 srv_id)\n{\n    recur_lock(lock_);", "void raft_server::handle_hb_timeout(int32 srv_id)\n{"))
bug("C27", "conf_applied_unlocked", (RS, "                    conf_lock.lock();\n", ""))
bug("C27", "read_clients_unlocked", (RS, "        auto_lock(rpc_clients_lock_);\n        rpc_client_itor", "        rpc_client_itor"))
# ---- C15
bug("C15", "entry_read_by_position", (AS, "                entry_buf->put_all((*it)->get_buf());", "                bufptr all(buffer::copy((*it)->get_buf()));\n                entry_buf->put(*all);"))
bug("C15", "pending_no_lock", (AS, "            std::lock_guard<std::mutex> guard(pending_lock_);\n            pending_.pop_front();", "            pending_.pop_front();"))
# ---- C06
bug("C06", "position_left", (RS, "                    log_entry->get_buf().pos(0);\n                    state_machine_->commit", "                    state_machine_->commit"))
bug("C12", "c30_rm_while_changing", (RQ, "    if (config_changing_)\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id,", "    if (config_changing_ && conf_to_add_ && config_->get_server(conf_to_add_->get_id()))\n    {\n        l_->info(\"previous config has not committed yet, will try again\");\n        timer_task<void>::executor exec = [this, srv_id,"))
bug("C12", "c30_rm_keeps_committed_prev", (RQ, "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());\n    for (", "    ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), log_store_->next_slot() - 1);\n    for ("))
bug("C12", "c30_rm_not_marked", (RQ, "                 .fmt(new_conf->get_log_idx()));\n    config_changing_ = true;", "                 .fmt(new_conf->get_log_idx()));\n    config_changing_ = peers_.size() > 1;"))
bug("C12", "c30_add_not_marked", (RQ, "        log_store_->append(entry);\n        config_changing_ = true;\n        request_append_entries();\n        return;", "        log_store_->append(entry);\n        request_append_entries();\n        return;"))
