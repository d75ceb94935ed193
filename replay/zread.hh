// Independent model of what a stream must leave in its store: geometry, frames,
// pyramid values, chunk contents, and a reader for both Zarr layouts.
#pragma once
#include "rp.hh"
#include "acquire.zarr.h"
#include "array.writer.hh"
#include "s3.connection.hh"
#include <blosc.h>
#include <nlohmann/json.hpp>
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <optional>

namespace zr {
namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;
using json = nlohmann::json;
struct Dim { std::string name; ZarrDimensionType type; uint32_t a, c, s; };
using Dims = std::vector<Dim>;

inline const int BT[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
inline const char* V2T[] = { "<u1", "<u2", "<u4", "<u8", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8" };
inline const char* V3T[] = { "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64" };

inline uint64_t cdiv(uint64_t a, uint64_t b) { return (a + b - 1) / b; }
inline uint64_t nch(const Dim& d) { return cdiv(d.a, d.c); }
inline uint64_t nsh(const Dim& d) { return cdiv(nch(d), d.s); }

struct Case
{
    int version = 2, dtype = 0;
    Dims dims;
    bool multiscale = false, s3 = false;
    int comp = 0; // 0: no settings; 1: settings with compressor None; 2: lz4; 3: zstd
    int level = 1, shuffle = 1;
    std::string custom; bool has_custom = false;
    uint64_t frames = 0;
    std::vector<size_t> split; // lengths of append calls (empty: one call per frame)
    int values = 0;            // 0 random, 1 extremes, 2 small
    uint64_t seed = 1;
    std::string show() const
    {
        std::ostringstream o;
        o << "v" << version << " " << V3T[dtype] << " dims=[";
        static const char* T = "SCTO";
        for (auto& d : dims) o << "(" << T[d.type] << d.a << "," << d.c << "," << d.s << ")";
        o << "] frames=" << frames;
        if (multiscale) o << " multiscale";
        if (s3) o << " s3";
        if (comp) o << " comp=" << comp << "/" << level << "/" << shuffle;
        if (!split.empty()) { o << " split="; for (size_t i = 0; i < split.size() && i < 24; ++i) o << (i ? "," : "") << split[i]; }
        o << " seed=" << seed;
        return o.str();
    }
};
inline uint64_t frame_bytes(const Dims& d, int dt) { return (uint64_t)BT[dt] * d[d.size() - 1].a * d[d.size() - 2].a; }
inline uint64_t chunk_bytes(const Dims& d, int dt) { uint64_t b = BT[dt]; for (auto& x : d) b *= x.c; return b; }
inline uint64_t layer_frames(const Dims& d) { uint64_t f = d[0].c; for (size_t i = 1; i + 2 < d.size(); ++i) f *= d[i].a; return f; }

// ---------------------------------------------------------------- pixels
inline double getpx(const uint8_t* p, int dt)
{
    switch (dt) {
        case 0: return *p;
        case 1: { uint16_t v; memcpy(&v, p, 2); return v; }
        case 2: { uint32_t v; memcpy(&v, p, 4); return v; }
        case 3: { uint64_t v; memcpy(&v, p, 8); return (double)v; }
        case 4: return *(const int8_t*)p;
        case 5: { int16_t v; memcpy(&v, p, 2); return v; }
        case 6: { int32_t v; memcpy(&v, p, 4); return v; }
        case 7: { int64_t v; memcpy(&v, p, 8); return (double)v; }
        case 8: { float v; memcpy(&v, p, 4); return v; }
        default: { double v; memcpy(&v, p, 8); return v; }
    }
}
template<class T> inline void put(uint8_t* p, T v) { memcpy(p, &v, sizeof v); }
inline void setpx(uint8_t* p, int dt, double v)
{
    switch (dt) {
        case 0: put<uint8_t>(p, v); break;
        case 1: put<uint16_t>(p, v); break;
        case 2: put<uint32_t>(p, v); break;
        case 3: put<uint64_t>(p, v); break;
        case 4: put<int8_t>(p, v); break;
        case 5: put<int16_t>(p, v); break;
        case 6: put<int32_t>(p, v); break;
        case 7: put<int64_t>(p, v); break;
        case 8: put<float>(p, v); break;
        default: put<double>(p, v);
    }
}
inline Bytes make_data(const Case& c, uint64_t nbytes)
{
    Bytes r(nbytes);
    std::mt19937_64 g(c.seed);
    int bt = BT[c.dtype];
    for (uint64_t i = 0; i < nbytes; i += bt) {
        uint64_t v = g();
        uint8_t t[8];
        if (c.values == 2) setpx(t, c.dtype, (double)(v % 100));
        else if (c.values == 1) { // extremes
            static const double lo[] = { 0, 0, 0, 0, -128, -32768, -2147483648.0, -2251799813685248.0, -16777216, -1e15 };
            static const double hi[] = { 255, 65535, 4294967295.0, 2251799813685248.0, 127, 32767, 2147483647.0, 2251799813685248.0, 16777216, 1e15 };
            double b = (v & 1) ? lo[c.dtype] : hi[c.dtype];
            if ((v >> 1) % 3 == 0) b += (v & 1) ? 1 : -1;
            setpx(t, c.dtype, b);
        } else if (c.dtype == 3) put<uint64_t>(t, v >> 13);
        else if (c.dtype == 7) put<int64_t>(t, (int64_t)v >> 13);
        else if (c.dtype == 8) put<float>(t, (float)((int64_t)(v % 2000001) - 1000000));
        else if (c.dtype == 9) put<double>(t, (double)((int64_t)(v % 2000001) - 1000000));
        else memcpy(t, &v, 8);
        for (int b = 0; b < bt && i + b < nbytes; ++b) r[i + b] = t[b];
    }
    return r;
}
inline bool is_float(int dt) { return dt >= 8; }
inline double tr(double v, int dt) { return is_float(dt) ? v : std::trunc(v); }
inline Bytes halve(const Bytes& f, uint64_t w, uint64_t h, int dt)
{
    uint64_t w2 = cdiv(w, 2), h2 = cdiv(h, 2);
    int bt = BT[dt];
    Bytes r(w2 * h2 * bt);
    for (uint64_t y = 0; y < h2; ++y)
        for (uint64_t x = 0; x < w2; ++x) {
            uint64_t x0 = 2 * x, y0 = 2 * y, x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1);
            double s = getpx(&f[(y0 * w + x0) * bt], dt) + getpx(&f[(y0 * w + x1) * bt], dt) + getpx(&f[(y1 * w + x0) * bt], dt) + getpx(&f[(y1 * w + x1) * bt], dt);
            setpx(&r[(y * w2 + x) * bt], dt, tr(s / 4, dt));
        }
    return r;
}
inline Bytes mean2(const Bytes& a, const Bytes& b, int dt)
{
    Bytes r(a.size());
    for (size_t i = 0; i < a.size(); i += BT[dt]) setpx(&r[i], dt, tr((getpx(&a[i], dt) + getpx(&b[i], dt)) / 2, dt));
    return r;
}

// ---------------------------------------------------------------- levels
inline std::shared_ptr<ArrayDimensions> mkdims(const Dims& d, int dt)
{
    std::vector<ZarrDimension> v;
    for (auto& x : d) v.emplace_back(x.name, x.type, x.a, x.c, x.s);
    return std::make_shared<ArrayDimensions>(std::move(v), (ZarrDataType)dt);
}
inline Dims undims(const ArrayDimensions& a)
{
    Dims r;
    for (size_t i = 0; i < a.ndims(); ++i) { auto& d = a.at(i); r.push_back({ d.name, d.type, d.array_size_px, d.chunk_size_px, d.shard_size_chunks }); }
    return r;
}
// geometry of the levels, as the real downsample() gives it (C10 judges that)
inline std::vector<Dims> levels(const Case& c)
{
    std::vector<Dims> r{ c.dims };
    if (!c.multiscale) return r;
    zarr::ArrayWriterConfig a{ .dimensions = mkdims(c.dims, c.dtype), .dtype = (ZarrDataType)c.dtype, .level_of_detail = 0, .store_path = "x" };
    for (int i = 0; i < 70; ++i) {
        zarr::ArrayWriterConfig b;
        bool more = zarr::downsample(a, b);
        r.push_back(undims(*b.dimensions));
        if (!more) break;
        a = b;
    }
    return r;
}
// frames of every level
inline std::vector<std::vector<Bytes>> pyramid(const Case& c, const std::vector<Dims>& lv, const Bytes& data, uint64_t nframes)
{
    std::vector<std::vector<Bytes>> r(lv.size());
    uint64_t fb = frame_bytes(c.dims, c.dtype);
    for (uint64_t i = 0; i < nframes; ++i) r[0].emplace_back(data.begin() + i * fb, data.begin() + (i + 1) * fb);
    for (size_t l = 1; l < lv.size(); ++l) {
        auto& u = lv[l - 1];
        uint64_t w = u[u.size() - 1].a, h = u[u.size() - 2].a;
        for (size_t i = 0; i + 1 < r[l - 1].size(); i += 2)
            r[l].push_back(mean2(halve(r[l - 1][i], w, h, c.dtype), halve(r[l - 1][i + 1], w, h, c.dtype), c.dtype));
    }
    return r;
}
// chunk (grid coordinates incl. append) -> raw bytes
using Coord = std::vector<uint64_t>;
inline std::map<Coord, Bytes> chunks_of(const Dims& d, int dt, const std::vector<Bytes>& frames)
{
    std::map<Coord, Bytes> r;
    size_t n = d.size();
    int bt = BT[dt];
    uint64_t cb = chunk_bytes(d, dt);
    if (frames.empty()) return r;
    uint64_t nlayer = cdiv(frames.size(), layer_frames(d));
    // every chunk of every append-step begun
    std::vector<Coord> all{ {} };
    for (size_t k = 0; k < n; ++k) {
        std::vector<Coord> nx;
        for (auto& p : all) for (uint64_t q = 0; q < (k ? nch(d[k]) : nlayer); ++q) { auto t = p; t.push_back(q); nx.push_back(t); }
        all = nx;
    }
    for (auto& p : all) r[p] = Bytes(cb, 0);
    uint64_t H = d[n - 2].a, W = d[n - 1].a;
    for (uint64_t f = 0; f < frames.size(); ++f) {
        Coord idx(n);
        uint64_t q = f;
        for (size_t k = n - 2; k-- > 1;) { idx[k] = q % d[k].a; q /= d[k].a; }
        idx[0] = q;
        Coord cc(n);
        for (uint64_t y = 0; y < H; ++y)
            for (uint64_t x = 0; x < W; ++x) {
                idx[n - 2] = y; idx[n - 1] = x;
                uint64_t off = 0;
                for (size_t k = 0; k < n; ++k) { cc[k] = idx[k] / d[k].c; off = off * d[k].c + idx[k] % d[k].c; }
                memcpy(&r[cc][off * bt], &frames[f][(y * W + x) * bt], bt);
            }
    }
    return r;
}
inline Bytes compress(const Case& c, const Bytes& raw)
{
    if (c.comp < 2) return raw;
    Bytes t(raw.size() + BLOSC_MAX_OVERHEAD);
    int nb = blosc_compress_ctx(c.level, c.shuffle, BT[c.dtype], raw.size(), raw.data(), t.data(), t.size(), c.comp == 2 ? "lz4" : "zstd", 0, 1);
    t.resize(nb > 0 ? nb : 0);
    return t;
}
inline std::optional<Bytes> decode(const Case& c, const Bytes& b, uint64_t want)
{
    if (c.comp < 2) return b;
    size_t nb = 0;
    if (blosc_cbuffer_validate(b.data(), b.size(), &nb) != 0 || nb != want) return std::nullopt;
    Bytes r(want);
    if (blosc_decompress_ctx(b.data(), r.data(), r.size(), 1) != (int)want) return std::nullopt;
    return r;
}

// ---------------------------------------------------------------- store
struct Store
{
    bool s3; std::string root, bucket;
    std::map<std::string, Bytes> load() const // keys relative to the root
    {
        std::map<std::string, Bytes> r;
        if (s3) {
            std::string pre = root + "/";
            for (auto& [k, v] : fake_s3::store().objects) {
                // keys are bucket/object
                std::string b = bucket + "/";
                std::string o = k.rfind(b, 0) == 0 ? k.substr(b.size()) : k;
                if (o.rfind(pre, 0) == 0) r[o.substr(pre.size())] = Bytes((const uint8_t*)v.data(), (const uint8_t*)v.data() + v.size());
                else r["(outside) " + o] = {};
            }
            return r;
        }
        if (!fs::exists(root)) return r;
        for (auto& e : fs::recursive_directory_iterator(root))
            if (e.is_regular_file()) {
                std::ifstream f(e.path(), std::ios::binary);
                Bytes b((std::istreambuf_iterator<char>(f)), {});
                r[fs::relative(e.path(), root).generic_string()] = b;
            }
        return r;
    }
};
inline std::string join(const Coord& c, size_t from)
{
    std::string s;
    for (size_t i = from; i < c.size(); ++i) s += "/" + std::to_string(c[i]);
    return s;
}
inline std::string chunk_key(int version, int lod, const Coord& c)
{
    return version == 2 ? std::to_string(lod) + "/" + std::to_string(c[0]) + join(c, 1) : "data/root/" + std::to_string(lod) + "/c" + std::to_string(c[0]) + join(c, 1);
}
inline std::string meta_key(int version, int lod) { return version == 2 ? std::to_string(lod) + "/.zarray" : "meta/root/" + std::to_string(lod) + ".array.json"; }
struct Shard { uint64_t cps; std::map<uint64_t, Coord> slots; };
// shard key -> the chunks that belong to it, by slot
inline std::map<std::string, Shard> shards_of(const Dims& d, int lod, const std::map<Coord, Bytes>& ch)
{
    std::map<std::string, Shard> r;
    uint64_t cps = 1;
    for (auto& x : d) cps *= x.s;
    for (auto& [c, _] : ch) {
        Coord sc(c.size());
        uint64_t slot = 0;
        for (size_t k = 0; k < c.size(); ++k) { sc[k] = c[k] / d[k].s; slot = slot * d[k].s + c[k] % d[k].s; }
        auto& s = r[chunk_key(3, lod, sc)];
        s.cps = cps; s.slots[slot] = c;
    }
    // every shard of an append-step begun exists
    if (!ch.empty()) {
        uint64_t nlayer = ch.rbegin()->first[0] + 1;
        std::vector<Coord> all{ {} };
        for (size_t k = 0; k < d.size(); ++k) {
            std::vector<Coord> nx;
            for (auto& p : all) for (uint64_t q = 0; q < (k ? nsh(d[k]) : cdiv(nlayer, d[0].s)); ++q) { auto t = p; t.push_back(q); nx.push_back(t); }
            all = nx;
        }
        for (auto& p : all) r[chunk_key(3, lod, p)].cps = cps;
    }
    return r;
}
inline uint64_t rd64(const uint8_t* p) { uint64_t v; memcpy(&v, p, 8); return v; }
} // namespace zr
