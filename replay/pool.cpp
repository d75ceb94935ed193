// C15: the job queue and its workers.
#include "rp.hh"
#include "thread.pool.hh"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <future>
#include <map>
#include <mutex>
#include <thread>
#include <unistd.h>

static char where[2048];
static void at(const std::string& s) { snprintf(where, sizeof where, "%s", s.c_str()); rp::at(s); alarm(40); }
static void watchdog(int) { std::string s = std::string("FAIL\ta job is not run, or a call never returns\t") + where + "\n"; (void)!write(1, s.data(), s.size()); _exit(1); }

// several producers, some jobs fail, then stop
static void stop_case(int no, bool slow)
{
    unsigned nt = rp::pick(std::vector<unsigned>{ 0, 1, 1, 2, 3, 8, 1000 });
    int np = rp::rnd(1, 4), nj = rp::rnd(0, 40);
    bool await = !rp::coin(5), nested = rp::coin(4);
    std::ostringstream in;
    in << nt << " threads, " << np << " producers of " << nj << " jobs" << (nested ? ", each pushing another" : "") << (slow ? ", slow jobs" : "") << ", stop " << (await ? "twice" : "once") << ", then push";
    at(in.str());
    int total = np * nj, all = total * (nested ? 2 : 1);
    std::vector<std::atomic<int>> ran(all);
    for (auto& r : ran) r = 0;
    std::mutex m;
    std::map<std::string, int> reported;
    std::vector<int> order;
    std::atomic<int> accepted{ 0 }, refused{ 0 }, after{ 0 };
    std::vector<char> acc(all, 0);
    {
        zarr::ThreadPool* self = nullptr;
        zarr::ThreadPool pool(nt, [&](const std::string& s) { std::scoped_lock l(m); ++reported[s]; });
        self = &pool;
        size_t w = pool.threads_.size(), hw = std::max(std::thread::hardware_concurrency(), 1u);
        if (w < 1 || w > hw || (nt >= 1 && w > nt)) rp::fail("the pool has " + std::to_string(w) + " workers for a request of " + std::to_string(nt), in.str());
        std::vector<std::thread> ps;
        for (int p = 0; p < np; ++p)
            ps.emplace_back([&, p] {
                for (int i = 0; i < nj; ++i) {
                    int id = p * nj + i;
                    bool ok = pool.push_job([&, id, self](std::string& err) {
                        ++ran[id];
                        { std::scoped_lock l(m); order.push_back(id); }
                        if (slow) std::this_thread::sleep_for(std::chrono::microseconds(200));
                        if (nested) {
                            int id2 = total + id;
                            // while the pool is running this job its queue is usable
                            bool ok2 = self->push_job([&, id2](std::string&) { ++ran[id2]; return true; });
                            acc[id2] = ok2;
                        }
                        if (id % 3 == 0) { err = "job " + std::to_string(id); return false; }
                        return true;
                    });
                    acc[id] = ok;
                }
            });
        for (auto& t : ps) t.join();
        pool.await_stop();
        if (await) pool.await_stop();
        if (pool.push_job([&](std::string&) { ++after; return true; })) rp::fail("a job is accepted after the pool was stopped", in.str());
        if (await) pool.await_stop();
        for (auto& t : pool.threads_) if (t.joinable()) { rp::fail("a worker is still running after await_stop", in.str()); break; }
    }
    if (after) rp::fail("a job refused is run", in.str());
    for (int i = 0; i < total; ++i)
        if (!acc[i]) { rp::fail("a job is refused although the pool was not stopped", in.str()); break; }
    for (int i = 0; i < all; ++i)
        if (ran[i] != (acc[i] ? 1 : 0)) { rp::fail("job " + std::to_string(i) + " was run " + std::to_string(ran[i]) + " times", in.str()); break; }
    std::map<std::string, int> want;
    for (int i = 0; i < total; i += 3) want["job " + std::to_string(i)] = 1;
    if (reported != want) {
        std::string d;
        for (auto& [k, v] : reported) if (want[k] != v) { d = "\"" + k + "\" is reported " + std::to_string(v) + " times"; break; }
        if (d.empty()) for (auto& [k, v] : want) if (!reported.count(k)) { d = "the failure \"" + k + "\" is not reported"; break; }
        rp::fail("failures are not reported exactly once with their message: " + d, in.str());
    }
    if (nt <= 1 && np == 1) {
        for (size_t i = 0; i < order.size(); ++i)
            if (order[i] != (int)i) { rp::fail("jobs do not run in the order of acceptance: job " + std::to_string(order[i]) + " ran as number " + std::to_string(i), in.str()); break; }
    }
    ++rp::cases; if (total) ++rp::nontrivial;
    rp::sample(in.str());
}

// one job at a time: each must be run without anything else happening
static void wake_case()
{
    unsigned nt = rp::rnd(1, 3);
    int n = rp::thorough ? 400 : 60;
    std::ostringstream in; in << nt << " threads, " << n << " jobs, each pushed when the one before has run";
    at(in.str());
    zarr::ThreadPool pool(nt, [](const std::string&) {});
    for (int i = 0; i < n; ++i) {
        std::promise<void> p;
        auto f = p.get_future();
        if (!pool.push_job([&p](std::string&) { p.set_value(); return true; })) { rp::fail("a job is refused although the pool was not stopped", in.str()); return; }
        f.wait();
        if (i % 7 == 0) std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    ++rp::cases; ++rp::nontrivial;
}

// jobs and the error handler run outside the lock: they can use the pool, and other jobs run meanwhile
static void outside_case()
{
    std::ostringstream in; in << "2 threads, a job that waits for the next one; an error handler that pushes a job";
    at(in.str());
    std::atomic<int> done{ 0 };
    zarr::ThreadPool* self = nullptr;
    zarr::ThreadPool pool(2, [&](const std::string&) { if (!self->push_job([&](std::string&) { ++done; return true; })) rp::fail("a job is refused although the pool was not stopped", in.str()); });
    self = &pool;
    if (pool.threads_.size() >= 2) {
        std::promise<void> p;
        auto f = p.get_future().share();
        (void)pool.push_job([f, &done](std::string&) { f.wait(); ++done; return true; });
        (void)pool.push_job([&p, &done](std::string&) { p.set_value(); ++done; return true; });
        while (done < 2) std::this_thread::yield();
    }
    done = 0;
    (void)pool.push_job([](std::string& e) { e = "x"; return false; });
    while (done < 1) std::this_thread::yield();
    pool.await_stop();
    ++rp::cases; ++rp::nontrivial;
}

// stopping right after creation, while workers are about to wait
static void early_stop_case()
{
    at("stop or destruction right after creation");
    for (int i = 0; i < 20; ++i) {
        zarr::ThreadPool pool(rp::rnd(1, 4), [](const std::string&) {});
        std::atomic<int> n{ 0 };
        int k = rp::rnd(0, 3);
        for (int j = 0; j < k; ++j) (void)pool.push_job([&n](std::string&) { ++n; return true; });
        if (rp::coin()) {
            pool.await_stop();
            if (n != k) rp::fail("stop drops queued jobs: " + std::to_string(n) + " of " + std::to_string(k) + " were run", "push, await_stop");
        } else { pool.await_stop(); }
    }
    ++rp::cases;
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    signal(SIGALRM, watchdog);
    for (int i = 0; rp::time_left(); ++i) {
        stop_case(i, rp::coin(3));
        if (i % 4 == 0) wake_case();
        if (i % 4 == 1) outside_case();
        if (i % 4 == 2) early_stop_case();
    }
    alarm(0);
    return rp::finish();
}
