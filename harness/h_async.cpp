// async_result: C20.
#include "vp.h"
#include "cornerstone.hxx"
using namespace cornerstone;
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
typedef async_result<int> ar;
static ar* R; static int val, calls, gets, got_val, got_err, is_set; static bool with_err, hset; static ptr<std::exception>* EX;
static void check_cb(int& v, const ptr<std::exception>& e) { calls++; vp_assert(is_set, "the handler is not called before there is a result"); vp_assert(v == val, "the handler gets the result"); vp_assert(with_err ? e == *EX : !e, "the handler gets the error"); }
static void setter(void*) { is_set = 1; R->set_result(val, with_err ? *EX : ptr<std::exception>()); }
static void waiter(void*) { try { int v = R->get(); vp_assert(!with_err, "a failure is reported by get"); vp_assert(is_set && v == val, "get waits for the result and returns it"); } catch (ptr<std::exception>& e) { vp_assert(is_set && with_err && e == *EX, "get reports the failure there was"); } gets++; }
static void arranger(void*) { ar::handler_type h = check_cb; R->when_ready(h); hset = true; }
static void setup() { calls = gets = is_set = 0; hset = false; val = (int)vp_u32("value"); with_err = vp_bool("error"); EX = new ptr<std::exception>(cs_new<std::runtime_error>("x")); R = new ar(); }
// one thread sets the result, one registers the handler, up to two wait
HARNESS(async_once) {
    setup(); int waiters = vp_choose("waiters", VP_THOROUGH ? 3 : 2); vp_watch(R, sizeof *R); vp_explore(2, 1);
    uint64_t t[4]; int n = 0; t[n++] = vp_thread_create(&setter, nullptr); t[n++] = vp_thread_create(&arranger, nullptr); for (int i = 0; i < waiters; i++) t[n++] = vp_thread_create(&waiter, nullptr);
    for (int i = 0; i < n; i++) vp_thread_join(t[i]); vp_explore(-1, 0);
    vp_assert(calls == 1, "the handler is called exactly once"); vp_assert(gets == waiters, "everybody who waits gets the result"); if (waiters) vp_reach("waited"); if (with_err) vp_reach("failure"); vp_reach("called"); vp_out("calls", calls);
}
// several wait, nobody registers a handler
HARNESS(async_waiters) {
    setup(); vp_watch(R, sizeof *R); int waiters = 2 + (VP_THOROUGH ? vp_choose("more", 2) : 0); vp_explore(2, 1); uint64_t t[5]; int n = 0; for (int i = 0; i < waiters; i++) t[n++] = vp_thread_create(&waiter, nullptr); t[n++] = vp_thread_create(&setter, nullptr);
    for (int i = 0; i < n; i++) vp_thread_join(t[i]); vp_explore(-1, 0); vp_assert(gets == waiters && calls == 0, "everybody who waits gets the result"); vp_reach("waited"); vp_out("gets", gets);
}
HARNESS(async_constructed) {
    int how = vp_choose("how", 3); val = (int)vp_u32("value"); with_err = false; calls = gets = is_set = 0; EX = new ptr<std::exception>();
    if (how == 0) { is_set = 1; R = new ar(val); arranger(nullptr); vp_assert(calls == 1, "a handler of a finished operation is called at once"); waiter(nullptr); vp_reach("finished"); }
    else if (how == 1) { ar::handler_type h = check_cb; R = new ar(h); vp_watch(R, sizeof *R); vp_explore(2, 1); uint64_t a = vp_thread_create(&waiter, nullptr), b = vp_thread_create(&setter, nullptr); vp_thread_join(a); vp_thread_join(b); vp_explore(-1, 0); vp_assert(calls == 1, "the handler is called exactly once"); vp_assert(gets == 1, "who waits gets the result"); vp_reach("handler"); }
    else { R = new ar(); setter(nullptr); vp_assert(calls == 0, "no handler, no call"); arranger(nullptr); vp_assert(calls == 1, "a handler that comes late is called at once"); waiter(nullptr); waiter(nullptr); vp_reach("late"); }
    vp_out("calls", calls);
}
