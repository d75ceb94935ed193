// C12: file sinks and the vectorized writer against an in-memory model.
#include "rp.hh"
#include "file.sink.hh"
#include "vectorized.file.writer.hh"
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <map>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
namespace fs = std::filesystem;
using Bytes = std::vector<std::byte>;

struct Model { std::map<uint64_t, uint8_t> b; uint64_t size = 0;
    void put(uint64_t o, const Bytes& d) { if (d.empty()) return; for (size_t i = 0; i < d.size(); ++i) b[o + i] = (uint8_t)d[i]; size = std::max(size, o + d.size()); } };

static Bytes make(size_t n) { Bytes d(n); for (auto& x : d) x = (std::byte)(1 + rp::rng() % 255); return d; }

// the whole file when it is small, else windows around every byte written
static std::string diff(const std::string& path, const Model& m)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return "the file does not exist";
    struct stat st; fstat(fd, &st);
    std::string r;
    if ((uint64_t)st.st_size != m.size) r = "size " + std::to_string(st.st_size) + " instead of " + std::to_string(m.size);
    auto check = [&](uint64_t lo, uint64_t hi) {
        std::vector<uint8_t> buf(hi - lo);
        ssize_t n = pread(fd, buf.data(), buf.size(), (off_t)lo);
        for (ssize_t i = 0; i < n && r.empty(); ++i) {
            auto it = m.b.find(lo + i);
            uint8_t want = it == m.b.end() ? 0 : it->second;
            if (buf[i] != want) r = "byte " + std::to_string(lo + i) + " is " + std::to_string(buf[i]) + " instead of " + std::to_string(want);
        }
        if (n < (ssize_t)std::min<uint64_t>(hi, m.size) - (ssize_t)lo && r.empty()) r = "file too short at " + std::to_string(lo);
    };
    if (m.size <= (1 << 20)) { if (m.size) check(0, m.size); }
    else {
        uint64_t done = 0;
        for (auto& [k, v] : m.b) { if (k < done) continue; uint64_t lo = k > 64 ? k - 64 : 0; check(lo, k + 4096); done = k + 4096; if (!r.empty()) break; }
        // low alias addresses of large offsets
        check(0, 4096);
    }
    close(fd);
    return r;
}

static uint64_t pick_off(uint64_t cur)
{
    switch (rp::rng() % 10) {
        case 0: return 0;
        case 1: return rp::rnd(0, 5000);
        case 2: return (1ull << 31) + rp::rnd(0, 10) - 5;
        case 3: return (1ull << 32) + rp::rnd(0, 10) - 5;
        case 4: return (1ull << 33) + rp::rnd(0, 100000);
        case 5: return cur > 3 ? cur - rp::rnd(0, 3) : 0;
        default: return cur;
    }
}

static void file_sink_case(int no)
{
    std::string p = "fs" + std::to_string(no);
    Model m;
    std::ostringstream in;
    if (rp::coin(3)) { FILE* f = fopen(p.c_str(), "wb"); for (int i = 0; i < 300; ++i) fputc(0xEE, f); fclose(f); in << "existing file; "; }
    {
        std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>(p);
        int k = rp::rnd(0, 6);
        uint64_t cur = 0;
        for (int i = 0; i < k; ++i) {
            uint64_t o = pick_off(cur);
            size_t n = rp::coin(6) ? 0 : rp::coin(5) ? rp::rnd(4000, 20000) : rp::rnd(1, 300);
            Bytes d = make(n);
            in << "write(" << o << "," << n << ") ";
            bool ok = s->write(o, n ? std::span<const std::byte>(d) : std::span<const std::byte>());
            if (!ok) { rp::fail("a write to a writable file fails", "FileSink: " + in.str()); return; }
            if (n) { m.put(o, d); cur = o + n; }
        }
        ++rp::cases; if (k > 1) ++rp::nontrivial;
        if (!zarr::finalize_sink(std::move(s))) { rp::fail("finalizing a writable file fails", "FileSink: " + in.str()); return; }
        auto r = diff(p, m);      // after a successful finalize everything is in the file
        if (!r.empty()) rp::fail("the file does not hold the bytes written: " + r, "FileSink: " + in.str());
        if (no < 2) rp::sample("FileSink: " + in.str());
    }
    unlink(p.c_str());
}

static void vec_case(int no)
{
    std::string p = "v" + std::to_string(no);
    Model m;
    std::ostringstream in;
    if (rp::coin(3)) { Bytes d = make(500); FILE* f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, 500, f); fclose(f); m.put(0, d); in << "existing 500 bytes; "; }
    {
        zarr::VectorizedFileWriter w(p);
        uint64_t cur = 0;
        int k = rp::rnd(1, 4);
        for (int i = 0; i < k; ++i) {
            uint64_t o = pick_off(cur);
            int nb = rp::coin(8) ? (int)rp::rnd(1000, 1100) : (int)rp::rnd(0, 9);
            std::vector<Bytes> bs; std::vector<std::span<std::byte>> sp;
            Bytes all;
            for (int j = 0; j < nb; ++j) { bs.push_back(make(rp::coin(5) ? 0 : rp::rnd(1, 200))); all.insert(all.end(), bs.back().begin(), bs.back().end()); }
            for (auto& b : bs) sp.emplace_back(b);
            in << "write_vectors(" << nb << " buffers, " << all.size() << " bytes, at " << o << ") ";
            bool ok = w.write_vectors(sp, o);
            if (ok) { m.put(o, all); cur = o + all.size(); }
            else if (nb <= 1024) { rp::fail("a write to a writable file fails", "VectorizedFileWriter: " + in.str()); return; }
            for (int j = 0, q = 0; j < nb; ++j) { for (auto x : bs[j]) if (x != all[q++]) { rp::fail("a source buffer was changed", in.str()); return; } }
        }
    }
    ++rp::cases; ++rp::nontrivial;
    auto r = diff(p, m);
    if (!r.empty()) rp::fail("the file does not hold the bytes written: " + r, "VectorizedFileWriter: " + in.str());
    if (no < 2) rp::sample("VectorizedFileWriter: " + in.str());
    unlink(p.c_str());
}

static void failures()
{
    // a file that cannot be opened
    for (size_t n : { 1u, 300u, 100000u }) {
        ++rp::cases; ++rp::nontrivial;
        Bytes d = make(n);
        std::unique_ptr<zarr::Sink> s;
        bool refused = false;
        try { s = std::make_unique<zarr::FileSink>("nodir/file"); } catch (const std::exception&) { refused = true; }
        if (!refused) {
            bool w = s->write(0, d), f = zarr::finalize_sink(std::move(s));
            if (w && f) rp::fail("write and finalize report success for a file that could not be opened", "FileSink nodir/file, " + std::to_string(n) + " bytes");
            if (fs::exists("nodir")) rp::fail("a directory appeared", "nodir");
        }
        refused = false;
        try {
            zarr::VectorizedFileWriter v("nodir/file");
            if (v.write_vectors({ std::span<std::byte>(d) }, 0)) rp::fail("write_vectors reports success for a file that could not be opened", "nodir/file");
        } catch (const std::exception&) { refused = true; }
    }
    // a device without room
    for (size_t n : { 1u, 300u, 100000u }) for (int twice = 0; twice < 2; ++twice) {
        ++rp::cases; ++rp::nontrivial;
        Bytes d = make(n);
        std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>("/dev/full");
        bool ok = s->write(0, d);
        if (twice) ok = s->write(n, d) && ok;
        ok = zarr::finalize_sink(std::move(s)) && ok;
        if (ok) rp::fail("write and finalize report success although no byte could be stored", "FileSink /dev/full, " + std::to_string(n) + " bytes");
        zarr::VectorizedFileWriter v("/dev/full");
        if (v.write_vectors({ std::span<std::byte>(d) }, 0)) rp::fail("write_vectors reports success although no byte could be stored", "/dev/full");
    }
    // a file size limit: short writes
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
    for (uint64_t lim : { 100ull, 4096ull, 10000ull }) for (uint64_t n : { lim - 50, lim, lim + 1, lim + 50, lim + 20000 }) {
        ++rp::cases; ++rp::nontrivial;
        struct rlimit l = old; l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l);
        Bytes d = make(n);
        bool okf, okv;
        {
            std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>("lim");
            okf = s->write(0, std::span<const std::byte>(d));
            okf = zarr::finalize_sink(std::move(s)) && okf;
        }
        {
            zarr::VectorizedFileWriter v("limv");
            size_t h = n / 3;
            okv = v.write_vectors({ std::span<std::byte>(d).subspan(0, h), std::span<std::byte>(d).subspan(h) }, 0);
        }
        setrlimit(RLIMIT_FSIZE, &old);
        std::string in = std::to_string(n) + " bytes with a limit of " + std::to_string(lim);
        if (okf != (n <= lim)) rp::fail(okf ? "FileSink reports success for a short write" : "FileSink reports failure for a complete write", in);
        if (okv != (n <= lim)) rp::fail(okv ? "write_vectors reports success for a short write" : "write_vectors reports failure for a complete write", in);
        unlink("lim"); unlink("limv");
    }
    // a failure of an earlier write is not forgotten
    {
        ++rp::cases; ++rp::nontrivial;
        struct rlimit l = old; l.rlim_cur = 5000; setrlimit(RLIMIT_FSIZE, &l);
        Bytes d = make(20000), e = make(10);
        std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::FileSink>("lim");
        bool a = s->write(0, d);
        setrlimit(RLIMIT_FSIZE, &old);
        bool b = s->write(20000, e);
        bool c = zarr::finalize_sink(std::move(s));
        if (a && b && c) rp::fail("an earlier failed write is forgotten", "20000 bytes with a limit of 5000, then 10 bytes");
        unlink("lim");
    }
    ++rp::cases;
    if (!zarr::finalize_sink(nullptr)) rp::fail("finalizing a null sink fails", "nullptr");
}

template<class W> static void align(W& w)
{
    if constexpr (requires { w.align_to_page_(size_t(1)); w.page_size_; }) {
        size_t keep = w.page_size_;
        for (int k = 9; k <= 30; k += 3) {
            w.page_size_ = size_t(1) << k;
            size_t p = w.page_size_;
            std::vector<size_t> vs = { 0, 1, p - 1, p, p + 1, 2 * p - 1, 2 * p, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 60) + 1 };
            for (int i = 0; i < 200; ++i) vs.push_back(rp::rng() >> rp::rnd(1, 63));
            for (auto s : vs) {
                if (s > ~size_t(0) - p) continue;
                ++rp::cases; ++rp::nontrivial;
                size_t r = w.align_to_page_(s);
                size_t want = s % p ? s + (p - s % p) : s;
                if (r != want) rp::fail("aligned size " + std::to_string(r) + " instead of " + std::to_string(want), "size " + std::to_string(s) + " page " + std::to_string(p));
                if constexpr (requires { w.align_size_(s); }) if (w.align_size_(s) != want) rp::fail("align_size_ is wrong", "size " + std::to_string(s) + " page " + std::to_string(p));
            }
        }
        w.page_size_ = keep;
    }
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    failures();
    { zarr::VectorizedFileWriter w("al"); align(w); }
    for (int i = 0; rp::time_left() && i < 100000; ++i) { file_sink_case(i); vec_case(i); }
    return rp::finish();
}
