// C13: objects assembled by S3 sinks; C18: connections of the pool. The object store is the in-memory one of stubs/.
#include "rp.hh"
#include "s3.sink.hh"
#include "sink.creator.hh"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <map>
#include <memory>
#include <thread>
#include <unistd.h>
using Bytes = std::vector<std::byte>;
static const size_t PS = 5 << 20;

static const Bytes& pattern()
{
    static Bytes p = [] { Bytes d(6 * PS + 4096); std::mt19937_64 r(7); for (size_t i = 0; i + 8 <= d.size(); i += 8) { uint64_t v = r(); memcpy(&d[i], &v, 8); } return d; }();
    return p;
}

static std::string where;
static void watchdog(int) { std::string s = "FAIL\ta call never returns (no connection left in the pool)\t" + where + "\n"; (void)!write(1, s.data(), s.size()); _exit(1); }

static auto& S() { return fake_s3::store(); }
static void reset() { S().objects.clear(); S().uploads.clear(); S().log.clear(); S().parts.clear(); S().fault = nullptr; }

static size_t pool_size(zarr::S3ConnectionPool& p) { return p.connections_.size(); }
static std::set<void*> pool_set(zarr::S3ConnectionPool& p) { std::set<void*> r; for (auto& c : p.connections_) r.insert(c.get()); return r; }

static size_t pick_size()
{
    switch (rp::rng() % 9) {
        case 0: return PS;
        case 1: return PS - rp::rnd(1, 3);
        case 2: return PS + rp::rnd(1, 3);
        case 3: return 2 * PS + rp::rnd(0, 2) - 1;
        case 4: return rp::rnd(1, PS / 2);
        default: return rp::rnd(1, 2000);
    }
}

// one sink: writes in order, then finalization
static void sink_case(std::shared_ptr<zarr::S3ConnectionPool> pool, const std::string& bucket, const std::string& key, int sched, bool faults)
{
    bool c13 = rp::mode == "C13";
    std::ostringstream in;
    reset();
    struct Cleanup { ~Cleanup() { S().fault = nullptr; } } cleanup;
    int nfault = 0, fault_at = faults ? (int)rp::rnd(0, 4) : -1, kind = rp::rnd(1, 2), seen = 0;
    S().fault = [&](const std::string& w) { (void)w; if (seen++ == fault_at) { ++nfault; return kind; } return 0; };
    if (faults) in << "request " << fault_at << (kind == 1 ? " fails; " : " throws; ");
    auto conns = pool_set(*pool);
    auto pool_ok = [&](const std::string& op) {
        if (c13) return true;
        if (pool_set(*pool) != conns || pool_size(*pool) != conns.size()) {
            rp::fail("connections in the pool after " + op + ": " + std::to_string(pool_size(*pool)) + " (" + std::to_string(pool_set(*pool).size()) + " distinct) instead of " + std::to_string(conns.size()), in.str());
            return false;
        }
        return true;
    };
    std::vector<size_t> w;
    switch (sched) {
        case 0: break;
        case 1: w = { 1 }; break;
        case 2: w = { PS - 1 }; break;
        case 3: w = { PS }; break;
        case 4: w = { PS + 1 }; break;
        case 5: w = { 2 * PS }; break;
        case 6: w = { PS - 1, 1, 1 }; break;
        case 7: w = { PS - 1, 2 * PS + 1, 5 }; break;
        case 8: w = { 3 * PS + 5 }; break;
        case 9: w = { 100, 0, 200, 0 }; break;
        default: { int n = rp::rnd(1, 5); for (int i = 0; i < n; ++i) w.push_back(rp::coin(8) ? 0 : pick_size()); }
    }
    size_t tot = 0, base = rp::rnd(0, 4000);
    std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>(bucket, key, pool);
    bool failed = false;
    for (size_t i = 0; i < w.size() && !failed; ++i) {
        size_t n = w[i];
        if (tot + n + base > pattern().size()) break;
        // writes that must be refused
        if (c13 && !faults && tot >= PS && rp::coin(3)) {
            size_t nf = tot / PS * PS, o = rp::rnd(0, nf - 1);
            if (s->write(o, std::span(pattern().data(), 10))) { rp::fail("a write before data already uploaded is accepted", in.str() + "then write(" + std::to_string(o) + ",10)"); return; }
        }
        if (c13 && !faults && rp::coin(4)) {
            size_t o = tot / PS * PS + PS + rp::rnd(1, 1000);
            bool ok = true; try { ok = s->write(o, std::span(pattern().data(), 10)); } catch (...) { ok = false; }
            if (ok) { rp::fail("a write beyond the part buffer is accepted", in.str() + "then write(" + std::to_string(o) + ",10)"); return; }
        }
        Bytes d(pattern().begin() + base + tot, pattern().begin() + base + tot + n);  // an exact allocation: reads beyond it trap
        in << "write(" << tot << "," << n << ") ";
        where = in.str(); rp::at(where);
        int before = nfault;
        bool ok = false, threw = false;
        try { ok = s->write(tot, n ? std::span<const std::byte>(d) : std::span<const std::byte>()); } catch (const std::exception&) { threw = true; }
        if (!pool_ok("write")) return;
        if (nfault > before && ok) { if (c13) rp::fail("a failed upload is reported as success by write", in.str()); return; }
        if (nfault == before && !ok) { if (c13) rp::fail(threw ? "write throws although every request succeeded" : "write fails although every request succeeded", in.str()); return; }
        failed = !ok;
        tot += n;
    }
    if (!failed) {
        std::string want(reinterpret_cast<const char*>(pattern().data()) + base, tot);
        for (int attempt = 0; attempt < 3; ++attempt) {
            int before = nfault;
            bool ok = false;
            where = in.str() + "finalize"; rp::at(where);
            try { ok = zarr::finalize_sink(std::move(s)); } catch (const std::exception&) {}
            if (!pool_ok("finalize")) return;
            if (nfault > before && ok) { if (c13) rp::fail("a failed upload is reported as success by finalize", in.str()); return; }
            if (nfault == before && !ok) { if (c13) rp::fail("finalize fails although every request succeeded", in.str() + (attempt ? "(retry)" : "")); return; }
            if (ok) {
                if (c13) {
                    auto it = S().objects.find(bucket + "/" + key);
                    if (tot == 0) { if (!S().objects.empty()) rp::fail("an object is stored although nothing was written", in.str()); }
                    else if (it == S().objects.end()) rp::fail("the object is missing", in.str());
                    else if (it->second != want) {
                        size_t k = 0; while (k < want.size() && k < it->second.size() && want[k] == it->second[k]) ++k;
                        rp::fail("the object differs from the bytes written: size " + std::to_string(it->second.size()) + " instead of " + std::to_string(tot) + ", first difference at " + std::to_string(k), in.str());
                    }
                    else if (S().objects.size() != 1) rp::fail("more than one object is stored", in.str());
                    if (!S().uploads.empty()) rp::fail("a multipart upload is left unfinished", in.str());
                    if (!faults && tot) {
                        int puts = 0, creates = 0;
                        for (auto& l : S().log) { puts += l.rfind("put ", 0) == 0; creates += l.rfind("create ", 0) == 0; }
                        if (tot < PS && (puts != 1 || creates)) rp::fail("a small object does not use exactly one put", in.str());
                        if (tot > PS && (puts || creates != 1)) rp::fail("a large object does not use exactly one multipart upload", in.str());
                        size_t sum = 0;
                        for (size_t i = 0; i < S().parts.size(); ++i) {
                            auto [no, sz] = S().parts[i];
                            sum += sz;
                            if (no != i + 1) { rp::fail("part " + std::to_string(i + 1) + " has number " + std::to_string(no), in.str()); break; }
                            if (sz != PS && i + 1 < S().parts.size()) { rp::fail("part " + std::to_string(no) + " has " + std::to_string(sz) + " bytes and is not the last", in.str()); break; }
                        }
                        if (creates && sum != tot) rp::fail("parts have " + std::to_string(sum) + " bytes in all instead of " + std::to_string(tot), in.str());
                    }
                }
                break;
            }
            in << "finalize fails, again: ";
        }
    }
    if (tot >= PS || nfault) ++rp::nontrivial;
    ++rp::cases;
    rp::sample(in.str());
}

struct Sinks { std::vector<std::unique_ptr<zarr::Sink>> v; };

// connections under several threads: nobody holds a connection somebody else holds
static void threads_case(int no)
{
    int n = rp::rnd(1, 3), nt = rp::rnd(2, 6), ops = rp::thorough ? 400 : 120;
    auto pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://h", "a", "b");
    auto conns = pool_set(*pool);
    std::ostringstream in;
    in << n << " connections, " << nt << " threads";
    where = in.str(); rp::at(where);
    std::map<void*, std::atomic<int>> held;
    for (auto* c : conns) held[c] = 0;
    std::atomic<int> shared{ 0 }, foreign{ 0 }, null{ 0 };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            std::mt19937 r(no * 100 + t);
            for (int i = 0; i < ops; ++i) {
                auto c = pool->get_connection();
                if (!c) { ++null; return; }
                auto it = held.find(c.get());
                if (it == held.end()) { ++foreign; return; }
                if (it->second.fetch_add(1) != 0) ++shared;
                if (r() % 3 == 0) std::this_thread::yield();
                it->second.fetch_sub(1);
                pool->return_connection(std::move(c));
            }
        });
    for (auto& t : ts) t.join();
    if (shared) rp::fail("two threads hold the same connection", in.str());
    if (foreign) rp::fail("a connection that is not the pool's is handed out", in.str());
    if (null) rp::fail("no connection is handed out although the pool is in use", in.str());
    if (pool_set(*pool) != conns || pool_size(*pool) != conns.size()) rp::fail("connections lost: " + std::to_string(pool_size(*pool)) + " instead of " + std::to_string(conns.size()), in.str());
    ++rp::cases; ++rp::nontrivial;
}

static void creator_case()
{
    reset();
    struct Cleanup { ~Cleanup() { S().fault = nullptr; } } cleanup;
    int n = rp::rnd(1, 3);
    auto pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://h", "a", "b");
    auto tp = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    auto conns = pool_set(*pool);
    int kind = rp::rnd(0, 2), seen = 0, at = rp::rnd(0, 1);
    S().fault = [&](const std::string&) { return seen++ == at ? kind : 0; };
    std::ostringstream in;
    in << n << " connections; make_sink / make_metadata_sinks, request " << at << (kind == 0 ? " succeeds" : kind == 1 ? " fails" : " throws");
    where = in.str(); rp::at(where);
    {
        zarr::SinkCreator c(tp, pool);
        for (int i = 0; i < 3; ++i) {
            std::unique_ptr<zarr::Sink> s;
            try { s = c.make_sink("bkt", "obj"); } catch (const std::exception&) {}
            if (pool_set(*pool) != conns || pool_size(*pool) != conns.size()) { rp::fail("connections in the pool after make_sink: " + std::to_string(pool_size(*pool)) + " instead of " + std::to_string(conns.size()), in.str()); return; }
        }
        std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> m;
        try { (void)c.make_metadata_sinks(ZarrVersion_2, "bkt", "base", m); } catch (const std::exception&) {}
        if (pool_set(*pool) != conns) rp::fail("connections lost by make_metadata_sinks", in.str());
    }
    tp->await_stop();
    ++rp::cases; if (kind) ++rp::nontrivial;
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    signal(SIGALRM, watchdog);
    alarm((unsigned)(rp::budget * 3 + 60));
    {
        auto pool = std::make_shared<zarr::S3ConnectionPool>(2, "http://h", "a", "b");
        for (int i = 0; i < 10; ++i) { sink_case(pool, "bkt", "a/b", i, false); sink_case(pool, "other", "k", i, true); }
    }
    for (int i = 0; rp::time_left(rp::mode == "C18" ? 0.6 : 1.0); ++i) {
        auto pool = std::make_shared<zarr::S3ConnectionPool>(rp::rnd(1, 2), "http://h", "a", "b");
        sink_case(pool, rp::coin() ? "bkt" : "b2", rp::coin() ? "a/b" : "c", 10, rp::coin());
    }
    if (rp::mode == "C18")
        for (int i = 0; rp::time_left(); ++i) { creator_case(); threads_case(i); }
    return rp::finish();
}
