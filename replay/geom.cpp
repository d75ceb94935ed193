// C01 / C02: frame -> (chunk, offset), chunk -> (shard, slot), counts.
#include "rp.hh"
#include "zarr.dimension.hh"
#include "zarr.common.hh"
#include "logger.hh"
#include <unordered_set>

using U = unsigned __int128;
struct D { uint64_t a, c, s; };
using G = std::vector<D>;

static const U M64 = (((U)1) << 64) - 1, M32 = 0xffffffffu;
static uint64_t nch(const D& d) { return (d.a + d.c - 1) / d.c; }
static uint64_t nsh(const D& d) { return (nch(d) + d.s - 1) / d.s; }
static bool mulok(U& p, U x, U lim) { if (x && p > lim / x) return false; p *= x; return p <= lim; }

static std::string show(const G& g, int dt)
{
    std::ostringstream o; o << "dtype=" << dt << " dims=[";
    for (auto& d : g) o << "(" << d.a << "," << d.c << "," << d.s << ")";
    o << "]"; return o.str();
}
// the domain the contracts state
static bool fits(const G& g, bool sharded)
{
    size_t n = g.size();
    for (size_t k = 0; k + 2 < n; ++k) {
        U p = g[k].c;
        for (size_t j = k + 1; j + 2 < n; ++j) if (!mulok(p, g[j].a, M64)) return false;
    }
    U p = 1; for (size_t k = 1; k < n; ++k) if (!mulok(p, nch(g[k]), M32)) return false;
    p = 8; for (auto& d : g) if (!mulok(p, d.c, M64)) return false;
    for (auto& d : g) if (d.a + d.c > M32) return false;
    if (sharded) {
        p = 1; for (auto& d : g) { if (!mulok(p, d.s, M32)) return false; if (nch(d) + d.s > M32) return false; }
    }
    return true;
}
static ArrayDimensions mk(const G& g, int dt)
{
    std::vector<ZarrDimension> v;
    for (size_t i = 0; i < g.size(); ++i)
        v.emplace_back("d" + std::to_string(i), ZarrDimensionType_Space, (uint32_t)g[i].a, (uint32_t)g[i].c, (uint32_t)g[i].s);
    return ArrayDimensions(std::move(v), (ZarrDataType)dt);
}
static const int BT[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };

template<class F> static void guarded(const char* nm, const std::string& in, F f)
{
    try { f(); } catch (const std::exception& e) { rp::fail(std::string(nm) + " threw: " + e.what(), in); }
}
template<class A, class B> static void eq(const char* nm, A got, B want, const std::string& in)
{
    if ((U)got != (U)want) rp::fail(std::string(nm) + ": got " + std::to_string((unsigned long long)got) + ", must be " + std::to_string((unsigned long long)want), in);
}

static void frame_case(const ArrayDimensions& ad, const G& g, int dt, uint64_t f, std::unordered_set<std::string>* seen)
{
    size_t n = g.size();
    std::vector<U> idx(n - 2);
    U r = f;
    for (size_t k = n - 2; k-- > 1;) { idx[k] = r % g[k].a; r /= g[k].a; }
    idx[0] = r;
    if (idx[0] / g[0].c > M32) return;
    ++rp::cases; if (f) ++rp::nontrivial;
    auto in = show(g, dt) + " frame=" + std::to_string(f);
    guarded("geometry", in, [&] {
        U grp = 0, off = 0;
        for (size_t k = 0; k + 2 < n; ++k) {
            U c = idx[k] / g[k].c, t = idx[k] % g[k].c;
            eq("chunk_lattice_index", ad.chunk_lattice_index(f, k), c, in + " dim=" + std::to_string(k));
            if (k) { U s = 1; for (size_t j = k + 1; j < n; ++j) s *= nch(g[j]); grp += c * s; }
            U s = 1; for (size_t j = k + 1; j + 2 < n; ++j) s *= g[j].c; off += t * s;
        }
        off *= (U)BT[dt] * g[n - 1].c * g[n - 2].c;
        auto gg = ad.tile_group_offset(f); auto oo = ad.chunk_internal_offset(f);
        eq("tile_group_offset", gg, grp, in);
        eq("chunk_internal_offset", oo, off, in);
        U tile = (U)BT[dt] * g[n - 1].c * g[n - 2].c;
        if ((U)oo + tile > (U)ad.bytes_per_chunk()) rp::fail("the frame's tile leaves the chunk", in);
        if (gg >= ad.number_of_chunks_in_memory()) rp::fail("chunk number out of range", in);
        if (seen) {
            // two frames of one append-step never share bytes
            auto key = std::to_string((uint64_t)(idx[0] / g[0].c)) + "/" + std::to_string(gg) + "/" + std::to_string(oo);
            if (!seen->insert(key).second) rp::fail("two frames share bytes", in);
        }
        rp::sample(in + " -> chunk " + std::to_string(gg) + " offset " + std::to_string(oo));
    });
}
static void counts_case(const ArrayDimensions& ad, const G& g, int dt)
{
    auto in = show(g, dt);
    ++rp::cases;
    guarded("counts", in, [&] {
        U nc = 1, b = BT[dt];
        for (size_t k = 0; k < g.size(); ++k) { b *= g[k].c; if (k) nc *= nch(g[k]); }
        eq("number_of_chunks_in_memory", ad.number_of_chunks_in_memory(), nc, in);
        eq("bytes_per_chunk", ad.bytes_per_chunk(), b, in);
        U fs = BT[dt]; if (mulok(fs, g[g.size() - 2].a, M64) && mulok(fs, g[g.size() - 1].a, M64))
            eq("bytes_of_frame", zarr::bytes_of_frame(ad, (ZarrDataType)dt), fs, in);
        for (size_t k = 0; k < g.size(); ++k) eq("chunks_along_dimension", zarr::chunks_along_dimension(ad[k]), nch(g[k]), in);
    });
}
static void shard_case(const ArrayDimensions& ad, const G& g, uint64_t ci, std::set<std::pair<uint32_t, uint32_t>>* seen)
{
    size_t n = g.size();
    ++rp::cases; if (ci) ++rp::nontrivial;
    auto in = show(g, 0) + " chunk=" + std::to_string(ci);
    guarded("shards", in, [&] {
        U sh = 0, sl = 0; uint64_t r = ci;
        std::vector<uint64_t> x(n, 0);
        for (size_t k = n; k-- > 1;) { x[k] = r % nch(g[k]); r /= nch(g[k]); }
        for (size_t k = 0; k < n; ++k) {
            U s = 1, z = 1; for (size_t j = k + 1; j < n; ++j) { s *= nsh(g[j]); z *= g[j].s; }
            sh += (x[k] / g[k].s) * s; sl += (x[k] % g[k].s) * z;
        }
        auto a = ad.shard_index_for_chunk(ci); auto b = ad.shard_internal_index(ci);
        eq("shard_index_for_chunk", a, sh, in);
        eq("shard_internal_index", b, sl, in);
        U ns = 1, cps = 1; for (size_t k = 0; k < n; ++k) { if (k) ns *= nsh(g[k]); cps *= g[k].s; }
        eq("number_of_shards", ad.number_of_shards(), ns, in);
        eq("chunks_per_shard", ad.chunks_per_shard(), cps, in);
        for (size_t k = 0; k < n; ++k) eq("shards_along_dimension", zarr::shards_along_dimension(ad[k]), nsh(g[k]), in);
        if (seen && !seen->insert({ a, b }).second) rp::fail("two chunks share a slot", in);
        rp::sample(in + " -> shard " + std::to_string(a) + " slot " + std::to_string(b));
    });
}
static uint64_t frames_total(const G& g, uint64_t lim)
{
    U p = 1; for (size_t k = 1; k + 2 < g.size(); ++k) { p *= g[k].a; if (p > lim) return lim; }
    p *= g[0].c * 2 + 1; return p > lim ? lim : (uint64_t)p;
}
static uint64_t rsz(int cls, bool allow0 = false)
{
    switch (cls) {
        case 0: return rp::rnd(allow0 ? 0 : 1, 6);
        case 1: return rp::rnd(1, 70);
        case 2: return rp::rnd(1, 5000);
        case 3: return rp::rnd(1, 1 << 20);
        default: return rp::coin() ? (1ull << rp::rnd(0, 31)) + rp::rnd(0, 2) : rp::rnd(1, 0xffffffffull);
    }
}
static G rgeom(bool sharded)
{
    for (;;) {
        size_t n = rp::rnd(3, rp::coin(4) ? 8 : 5);
        G g(n); int cls = rp::rnd(0, 4);
        for (size_t k = 0; k < n; ++k) {
            int cl = cls == 4 && !rp::coin(2) ? 0 : cls;
            g[k].a = k == 0 ? (rp::coin(3) ? 0 : rsz(cl, true)) : rsz(cl);
            g[k].c = rsz(cl);
            if (rp::coin() && k && g[k].a) g[k].c = rp::rnd(1, g[k].a);
            if (rp::coin(4) && k) g[k].c = g[k].a / rp::rnd(1, 4) + 1;
            uint64_t m = std::max<uint64_t>(1, nch(g[k]));
            g[k].s = sharded ? rp::rnd(1, rp::coin(3) ? m + 2 : std::min<uint64_t>(m, 6)) : 0;
        }
        if (fits(g, sharded)) return g;
    }
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    Logger::set_log_level((LogLevel)4);
    bool sharded = rp::mode == "C02";
    // exhaustive: every geometry of 3 or 4 (thorough: 5) dimensions up to the bound
    int top = 3;
    std::vector<G> todo;
    for (size_t n = 3; n <= (rp::thorough ? 5u : 4u); ++n) {
        std::vector<int> v(2 * n + (sharded ? n : 0), 1);
        int m = sharded ? (n == 3 ? 3 : 2) : (n == 3 ? 4 : n == 4 ? top : 2);
        uint64_t total = 1; for (size_t i = 0; i < v.size(); ++i) total *= m;
        uint64_t step = total > 60000 && !rp::thorough ? total / 40000 : 1;
        for (uint64_t q = 0; q < total; q += (step > 1 ? rp::rnd(1, 2 * step) : 1)) {
            if (!rp::time_left(0.6)) break;
            uint64_t r = q; for (auto& e : v) { e = 1 + r % m; r /= m; }
            G g(n);
            for (size_t k = 0; k < n; ++k) {
                g[k].a = v[2 * k] + (sharded ? rp::rnd(0, 4) : 0); g[k].c = v[2 * k + 1]; g[k].s = sharded ? v[2 * n + k] : 0;
            }
            auto ad = mk(g, (int)(q % 10));
            if (sharded) {
                std::set<std::pair<uint32_t, uint32_t>> seen;
                uint64_t nc = 1; for (size_t k = 1; k < n; ++k) nc *= nch(g[k]);
                for (uint64_t c = 0; c < nc; ++c) shard_case(ad, g, c, &seen);
            } else {
                counts_case(ad, g, q % 10);
                std::unordered_set<std::string> seen;
                uint64_t nf = frames_total(g, 60);
                for (uint64_t f = 0; f < nf; ++f) frame_case(ad, g, q % 10, f, &seen);
            }
        }
    }
    // seeded random geometries, small to machine-size
    while (rp::time_left()) {
        G g = rgeom(sharded); int dt = rp::rnd(0, 9);
        auto ad = mk(g, dt);
        if (sharded) {
            U nc = 1; for (size_t k = 1; k < g.size(); ++k) nc *= nch(g[k]);
            for (int i = 0; i < 40; ++i) {
                uint64_t c = i < 10 ? std::min<U>(i, nc - 1) : i < 15 ? (uint64_t)(nc - 1 - std::min<U>(i - 10, nc - 1)) : rp::rnd(0, (uint64_t)nc - 1);
                shard_case(ad, g, c, nullptr);
            }
        } else {
            counts_case(ad, g, dt);
            for (int i = 0; i < 40; ++i) {
                uint64_t f = i < 10 ? i : i < 20 ? frames_total(g, 1ull << 62) - (i - 10) : i < 30 ? rp::rnd(0, frames_total(g, 1ull << 62)) : rp::rng() >> rp::rnd(0, 60);
                frame_case(ad, g, dt, f, nullptr);
            }
        }
    }
    return rp::finish();
}
