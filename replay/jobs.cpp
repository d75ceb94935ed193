// C19: parallel operations with slow and failing jobs. FileSink is replaced by one
// that waits, fails and records (this file defines it; file.sink.cpp is left out),
// and blosc_compress_ctx by one that waits.
#include "zread.hh"
#include "zarr.common.hh"
#include "zarrv2.array.writer.hh"
#include "zarrv3.array.writer.hh"
#include "sink.creator.hh"
#include "file.sink.hh"
#include <atomic>
#include <csignal>
#include <dlfcn.h>
#include <mutex>
#include <thread>
#include <unistd.h>
using namespace zr;

static std::mutex mx;
static std::map<std::string, Bytes> files;      // content by path
static std::map<const void*, std::string> path_of;
static std::atomic<int> active{ 0 }, started{ 0 };
static int delay_us = 0, fail_ctor = -1, fail_write = -1, fail_kind = 0;
static std::atomic<int> nctor{ 0 }, nwrite{ 0 }, fired{ 0 };
static std::atomic<uint64_t> jitter{ 1 };
static void wait_some() { if (delay_us) { uint64_t j = (jitter.fetch_add(0x9e3779b97f4a7c15ull) >> 32) % (2 * delay_us); std::this_thread::sleep_for(std::chrono::microseconds(j)); } }
struct Act { Act() { ++active; ++started; } ~Act() { --active; } };

zarr::FileSink::FileSink(std::string_view filename)
{
    Act a;
    int n = nctor++;
    wait_some();
    if (n == fail_ctor) { ++fired; throw std::runtime_error("injected"); }
    std::scoped_lock l(mx);
    path_of[this] = std::string(filename);
    files[std::string(filename)];
}
bool zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
{
    Act a;
    int n = nwrite++;
    wait_some();
    if (n == fail_write) { ++fired; if (fail_kind) throw std::runtime_error("injected"); return false; }
    Bytes c((const uint8_t*)data.data(), (const uint8_t*)data.data() + data.size());
    wait_some();
    std::scoped_lock l(mx);
    auto& f = files[path_of[this]];
    if (f.size() < offset + c.size()) f.resize(offset + c.size());
    std::copy(c.begin(), c.end(), f.begin() + offset);
    return true;
}
bool zarr::FileSink::flush_() { return true; }

extern "C" int blosc_compress_ctx(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize, const char* compressor, size_t blocksize, int numinternalthreads)
{
    using F = int (*)(int, int, size_t, size_t, const void*, void*, size_t, const char*, size_t, int);
    static F real = (F)dlsym(RTLD_NEXT, "blosc_compress_ctx");
    Act a;
    wait_some();
    return real(clevel, doshuffle, typesize, nbytes, src, dest, destsize, compressor, blocksize, numinternalthreads);
}

static std::string where;
static void watchdog(int) { std::string s = "FAIL\tan operation never returns\t" + where + "\n"; (void)!write(1, s.data(), s.size()); _exit(1); }
static void reset() { std::scoped_lock l(mx); files.clear(); path_of.clear(); nctor = nwrite = fired = 0; fail_ctor = fail_write = -1; fail_kind = 0; }
static void quiet(const std::string& op, const std::string& in)
{
    // when the operation is over, none of its jobs still works on the caller's data
    int a = active, s = started;
    if (a) rp::fail(std::to_string(a) + " jobs are still at work when " + op + " returns", in);
    if (delay_us) { std::this_thread::sleep_for(std::chrono::microseconds(3 * delay_us)); if (started != s) rp::fail("a job starts after " + op + " has returned", in); }
}
static Dims rd()
{
    size_t n = rp::rnd(3, 4);
    Dims d;
    for (size_t k = 0; k < n; ++k) d.push_back({ "d" + std::to_string(k), ZarrDimensionType_Space, (uint32_t)rp::rnd(1, 5), (uint32_t)rp::rnd(1, 3), (uint32_t)rp::rnd(1, 2) });
    return d;
}
static int serial = 0;
static void sinks_case(std::shared_ptr<zarr::ThreadPool> pool)
{
    ++rp::cases;
    reset();
    delay_us = rp::pick(std::vector<int>{ 0, 0, 50, 400 });
    Case c; c.dims = rd();
    uint64_t n = 1; for (size_t k = 1; k < c.dims.size(); ++k) n *= nch(c.dims[k]);
    if (rp::coin()) { fail_ctor = rp::rnd(0, n - 1); ++rp::nontrivial; }
    bool blocked = rp::coin(4) && c.dims.size() > 3;
    auto base = fs::current_path().string() + "/j" + std::to_string(serial++);
    if (blocked) { fs::create_directories(base); std::ofstream(base + "/0") << "a file"; }
    auto in = c.show() + (fail_ctor >= 0 ? " file " + std::to_string(fail_ctor) + " fails" : "") + (blocked ? " directory 0 is a file" : "") + " delay " + std::to_string(delay_us);
    where = in; rp::at(in); alarm(30);
    {
        zarr::SinkCreator cr(pool, nullptr);
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        auto dims = mkdims(c.dims, 0);
        bool ok = false;
        try { ok = cr.make_data_sinks(base, dims.get(), zarr::chunks_along_dimension, sinks); } catch (const std::exception& e) { rp::fail(std::string("make_data_sinks throws ") + e.what(), in); }
        quiet("make_data_sinks", in);
        bool bad = blocked || fired > 0;
        if (ok == bad) rp::fail(std::string("make_data_sinks reports ") + (ok ? "success although a job failed" : "failure although no job failed"), in);
        if (ok) for (size_t i = 0; i < n; ++i) if (i >= sinks.size() || !sinks[i]) { rp::fail("sink " + std::to_string(i) + " is missing after success", in); break; }
        if (!blocked) {
            int v = rp::rnd(2, 3);
            nctor = 0; fired = 0;
            fail_ctor = rp::coin() ? (int)rp::rnd(0, v == 2 ? 3 : 2) : -1;
            std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> ms;
            bool mok = false;
            try { mok = cr.make_metadata_sinks(v, base, ms); } catch (const std::exception& e) { rp::fail(std::string("make_metadata_sinks throws ") + e.what(), in); }
            quiet("make_metadata_sinks", in);
            if (mok == (fired > 0)) rp::fail(std::string("make_metadata_sinks reports ") + (mok ? "success although a job failed" : "failure although no job failed"), in + " metadata file " + std::to_string(fail_ctor));
            if (mok) for (auto& [k, s] : ms) if (!s) rp::fail("metadata sink " + k + " is missing after success", in);
        }
    }
    alarm(0);
    std::error_code ec; fs::remove_all(base, ec);
    rp::sample(in);
}
static void writer_case(std::shared_ptr<zarr::ThreadPool> pool)
{
    ++rp::cases;
    reset();
    Case c; c.dims = rd(); c.version = rp::rnd(2, 3); c.dtype = rp::rnd(0, 3); c.comp = rp::rnd(1, 3); c.level = 3; c.values = 2; c.seed = rp::rng();
    delay_us = rp::pick(std::vector<int>{ 0, 30, 300 });
    if (rp::coin(3)) { fail_write = rp::rnd(0, 6); fail_kind = rp::coin(); }
    uint64_t lf = layer_frames(c.dims);
    c.frames = lf * rp::rnd(1, 2) + rp::rnd(0, 1);
    if (c.frames > 60) return;
    auto base = fs::current_path().string() + "/w" + std::to_string(serial++);
    auto in = c.show() + (fail_write >= 0 ? " write " + std::to_string(fail_write) + (fail_kind ? " throws" : " fails") : "") + " delay " + std::to_string(delay_us);
    where = in; rp::at(in); alarm(30);
    zarr::ArrayWriterConfig cfg{ .dimensions = mkdims(c.dims, c.dtype), .dtype = (ZarrDataType)c.dtype, .level_of_detail = 0, .store_path = base };
    if (c.comp >= 2) cfg.compression_params = zarr::BloscCompressionParams(c.comp == 2 ? "lz4" : "zstd", c.level, c.shuffle);
    std::unique_ptr<zarr::ArrayWriter> w;
    if (c.version == 2) w = std::make_unique<zarr::ZarrV2ArrayWriter>(cfg, pool); else w = std::make_unique<zarr::ZarrV3ArrayWriter>(cfg, pool);
    uint64_t fb = frame_bytes(c.dims, c.dtype);
    auto data = make_data(c, fb * c.frames);
    bool died = false;
    for (uint64_t f = 0; f < c.frames; ++f) {
        std::vector<std::byte> fr((const std::byte*)&data[f * fb], (const std::byte*)&data[f * fb] + fb);
        try { (void)w->write_frame(fr); } catch (const std::exception&) { died = true; }
        quiet("write_frame", in);
    }
    bool fin = false;
    try { fin = finalize_array(std::move(w)); } catch (const std::exception&) { died = true; }
    quiet("finalize_array", in);
    alarm(0);
    if (!fired && (!fin || died)) rp::fail("writing fails although no job failed", in);
    if (!fired && fin) {
        ++rp::nontrivial;
        std::vector<Dims> lv{ c.dims };
        auto model = chunks_of(c.dims, c.dtype, pyramid(c, lv, data, c.frames)[0]);
        std::scoped_lock l(mx);
        auto get = [&](const std::string& k) -> const Bytes* { auto it = files.find(base + "/" + k); return it == files.end() ? nullptr : &it->second; };
        if (c.version == 2) {
            for (auto& [co, raw] : model) {
                auto* b = get(chunk_key(2, 0, co));
                if (!b || decode(c, *b, raw.size()) != raw) { rp::fail("chunk" + join(co, 0) + " is not what was in its buffer", in); break; }
            }
        } else
            for (auto& [key, sh] : shards_of(c.dims, 0, model)) {
                auto* b = get(key);
                if (!b || b->size() < 16 * sh.cps) { rp::fail("shard " + key + " is incomplete", in); break; }
                const uint8_t* t = b->data() + b->size() - 16 * sh.cps;
                for (auto& [s, co] : sh.slots) {
                    uint64_t o = rd64(t + 16 * s), nb = rd64(t + 16 * s + 8);
                    if (o > b->size() || nb > b->size() - o || decode(c, Bytes(b->begin() + o, b->begin() + o + nb), model[co].size()) != model[co]) { rp::fail("chunk" + join(co, 0) + " is not what was in its buffer", in); return; }
                }
            }
    }
    std::error_code ec; fs::remove_all(base, ec);
    rp::sample(in);
}
int main(int argc, char** argv)
{
    rp::init(argc, argv);
    (void)Zarr_set_log_level(ZarrLogLevel_None);
    signal(SIGALRM, watchdog);
    auto pool = std::make_shared<zarr::ThreadPool>(6, [](const std::string&) {});
    while (rp::time_left()) {
        sinks_case(pool);
        if (rp::time_left()) writer_case(pool);
    }
    pool->await_stop();
    return rp::finish();
}
