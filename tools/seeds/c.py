seed("S21", "C21", [(S, '''                if (stopping_)
                {
                    lock.unlock();
                    lock.release();
                    {''', '''                if (stopping_)
                {
                    {''')], r'''
#include "denv.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
static std::atomic<bool> slow(false); static pthread_t main_id;
typedef int (*unl)(pthread_mutex_t*);
static unl real() { static unl u = (unl)dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return u; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { int r = real()(m); if (slow && !pthread_equal(pthread_self(), main_id)) usleep(60000); return r; }
int main() {
    // the memory of a server goes away right after it is stopped, while its thread is still on its way out
    real(); main_id = pthread_self(); new_world(1); W->d_conf = mkconf(2, 1, 0); W->d_term = 3;
    context* c = new context(cs_new<mock_mgr>(), cs_new<mock_sm>(), cs_new<mock_lis>(), cs_new<mock_log>(), cs_new<mock_fac>(), cs_new<mock_sched>(), cs_new<mock_ev>(), new raft_params());
    size_t n = (sizeof(raft_server) + 4095) / 4096 * 4096; void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); raft_server* s = new (p) raft_server(c); settle();
    slow = true; s->~raft_server(); mprotect(p, n, PROT_NONE); usleep(400000); _exit(0);      // a thread that still uses the server dies here
}
''', "the applying thread being delayed between announcing that it stops and leaving", "a mutex inside the destroyed server is unlocked, memory that may belong to somebody else is written")

A = "src/asio_service.cxx"
seed("S15", "C15", [(A, '''                    this->log_data_ = buffer::alloc((size_t)data_size);
''', '''                    // use the memory of previous request again if it's large enough
                    if (this->log_data_->size() < (size_t)data_size)
                    {
                        this->log_data_ = buffer::alloc((size_t)data_size);
                    }

                    this->log_data_->pos(0);
''')], r'''
#include "denv.hpp"
int main() {
    // a large request and then a smaller one over the same connection
    new_world(1); W->d_conf = mkconf(2, 1, 0); W->d_term = 3; W->params->snapshot_distance_ = 0; boot();
    asio_service* svc = new asio_service(); ptr<logger> l = cs_new<mock_log>(); ptr<rpc_listener> lis; int port = 0;
    for (int k = 0; k < 50 && !lis; k++) { port = 20000 + (getpid() * 7 + k * 131) % 30000; try { lis = svc->create_rpc_listener((ushort)port, l); } catch (std::exception&) {} }
    need((bool)lis, "a free port"); ptr<msg_handler> h(ptr<msg_handler>(), W->srv); lis->listen(h); ptr<rpc_client> c = svc->create_client("tcp://127.0.0.1:" + std::to_string(port)); ulong prev = 0;
    for (int n = 3; n >= 1; n -= 2) {
        ptr<req_msg> r = cs_new<req_msg>(3, msg_type::append_entries_request, 2, 1, prev ? 3 : 0, prev, 0); for (int k = 0; k < n; k++) { ptr<log_entry> e = mkent(3, (byte)(10 + prev + k)); r->log_entries().push_back(e); }
        std::atomic<int> done(0); rpc_handler f = [&](ptr<resp_msg>& x, const ptr<rpc_exception>& e) { done = e || !x->get_accepted() ? 2 : 1; }; c->send(r, f); for (int k = 0; k < 1000 && !done; k++) usleep(5000); need(done == 1, "the request is accepted"); prev += n;
        need(W->log->next_slot() == prev + 1, "the log holds what was sent"); for (ulong i = 1; i <= prev; i++) need(tag_of(*W->log->entry_at(i)) == 9 + i, "every entry is there");
    }
    _exit(0);
}
''', "a request with fewer bytes of log entries than an earlier one of the same connection", "the follower appends remains of the earlier request behind the entries of the new one")
seed("S22", "C22", [("include/delayed_task_scheduler.hxx", '''        cancel_impl(task);
        task->cancel();
''', '''        // the scheduler takes the task off its queue
        cancel_impl(task);
''')], r'''
#include "denv.hpp"
int main() {
    // a task is cancelled by another one after both of them expired
    asio_service* svc = new asio_service(); unsigned n = std::thread::hardware_concurrency(); if (!n) n = 1; std::atomic<bool> go(false), busy(true); std::atomic<unsigned> in(0); std::atomic<int> ran(0), cancelled(0); std::vector<ptr<delayed_task>> keep;
    timer_task<void>::executor block = [&]() { in++; while (!go) usleep(1000); }; for (unsigned k = 0; k + 1 < n; k++) { ptr<delayed_task> t = cs_new<timer_task<void>>(block); keep.push_back(t); svc->schedule(t, 1); } while (in + 1 < n) usleep(1000);
    timer_task<void>::executor last = [&]() { in++; while (busy) usleep(1000); }; ptr<delayed_task> x = cs_new<timer_task<void>>(last); svc->schedule(x, 1); while (in < n) usleep(1000);
    timer_task<void>::executor victim = [&]() { ran++; }; ptr<delayed_task> v = cs_new<timer_task<void>>(victim); timer_task<void>::executor killer = [&]() { svc->cancel(v); cancelled++; }; ptr<delayed_task> k = cs_new<timer_task<void>>(killer);
    svc->schedule(k, 10); svc->schedule(v, 20); usleep(200000); busy = false; for (int i = 0; i < 2000 && !cancelled; i++) usleep(1000); need(cancelled == 1, "the first task runs"); usleep(100000); need(ran == 0, "a cancelled task does not run"); go = true; usleep(20000); _exit(0);
}
''', "a task that has expired and is queued when it is cancelled", "a cancelled task still runs: an election timeout after a leader was heard, a heartbeat of a server that does not lead")
seed("S23", "C23", [(A, '''        if (buffer_.size() > 0)
        {
            backup.swap(buffer_);
        }
    }
''', '''        backup = buffer_;
    }
'''), (A, '''        fs_ << line << std::endl;
        backup.pop();
    }
''', '''        fs_ << line << std::endl;
        backup.pop();
    }

    {
        // everything is in the file
        std::lock_guard<std::mutex> guard(lock_);
        std::queue<std::string>().swap(buffer_);
    }
''')], r'''
#include "denv.hpp"
#include <fstream>
int main() {
    // lines are written while others are flushed
    asio_service* svc = new asio_service(); ptr<logger> l = svc->create_logger(asio_service::log_level::debug, "demo.log"); int n = 0; for (; n < 150000; n++) l->info("line");
    std::atomic<bool> done(false); std::thread t([&]() { svc->stop(); done = true; }); while (!done && n < 152000) { l->info("line"); n++; usleep(200); } t.join(); l->info("line"); n++; delete svc; usleep(200000); l.reset(); usleep(200000);
    std::ifstream f("demo.log"); std::string s; int c = 0; while (std::getline(f, s)) c++; printf("%d of %d\n", c, n); need(c == n, "every line is in the log once"); _exit(0);
}
''', "a thread that logs while the lines before are being flushed", "log lines are lost")
