// Streams run through the C API, compared with the independent model of zread.hh.
// The mode (property) selects which deviations are reported and what is varied.
#include "zread.hh"
#include "zarr.common.hh"
#include "zarrv2.array.writer.hh"
#include "sink.creator.hh"
using namespace zr;

static int serial = 0;
static bool is(const char* m) { return rp::mode == m; }

struct Streamed
{
    std::map<std::string, Bytes> store;
    Bytes data;
    uint64_t accepted = 0;
    bool created = false;
};
static std::string scratch() { static std::string s = fs::current_path().string(); return s; }

struct Settings
{
    ZarrStreamSettings s{};
    ZarrS3Settings s3{};
    ZarrCompressionSettings cs{};
    std::vector<ZarrDimensionProperties> d;
    std::string root;
    Settings(const Case& c, const std::string& root_) : root(root_)
    {
        s.store_path = root.c_str();
        s.custom_metadata = c.has_custom ? c.custom.c_str() : nullptr;
        if (c.s3) { s3 = { "http://localhost:9000", "bucket", "id", "key" }; s.s3_settings = &s3; }
        if (c.comp) {
            cs.compressor = c.comp == 1 ? ZarrCompressor_None : ZarrCompressor_Blosc1;
            cs.codec = c.comp == 1 ? ZarrCompressionCodec_None : c.comp == 2 ? ZarrCompressionCodec_BloscLZ4 : ZarrCompressionCodec_BloscZstd;
            cs.level = c.level; cs.shuffle = c.shuffle;
            s.compression_settings = &cs;
        }
        for (auto& x : c.dims) d.push_back({ x.name.c_str(), x.type, x.a, x.c, x.s });
        s.dimensions = d.data(); s.dimension_count = d.size();
        s.multiscale = c.multiscale; s.data_type = (ZarrDataType)c.dtype; s.version = (ZarrVersion)c.version;
    }
};
static void reset_s3()
{
    auto& S = fake_s3::store();
    S.objects.clear(); S.uploads.clear(); S.log.clear(); S.parts.clear(); S.fault = nullptr;
    S.objects["bucket"] = "";
    S.objects.erase("bucket");
}
static void mid_check(const Case& c, const Store& st, uint64_t frames, const Bytes& data);

static Streamed stream(const Case& c)
{
    Streamed r;
    auto in = c.show();
    rp::at(in);
    std::string root = c.s3 ? "pre/store" : scratch() + "/s" + std::to_string(serial++);
    reset_s3();
    Settings set(c, root);
    Store st{ c.s3, root, "bucket" };
    uint64_t fb = frame_bytes(c.dims, c.dtype);
    uint64_t total = c.frames * fb;
    if (!c.split.empty()) { total = 0; for (auto x : c.split) total += x; }
    r.data = make_data(c, total);
    auto* zs = ZarrStream_create(&set.s);
    if (!zs) { rp::fail("a valid stream is not created", in); return r; }
    r.created = true;
    uint64_t pos = 0, call = 0;
    while (pos < total || (call < c.split.size())) {
        size_t n = c.split.empty() ? fb : c.split[call];
        ++call;
        // exactly as long as claimed: reads beyond are seen by the sanitizer
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n ? n : 1]);
        memcpy(buf.get(), r.data.data() + pos, n);
        size_t out = 12345678;
        auto code = ZarrStream_append(zs, buf.get(), n, &out);
        if (code != ZarrStatusCode_Success) { rp::fail("append of " + std::to_string(n) + " bytes at " + std::to_string(pos) + " fails: " + Zarr_get_status_message(code), in); break; }
        if (out != n) { rp::fail("append of " + std::to_string(n) + " bytes at " + std::to_string(pos) + " reports " + std::to_string(out), in); break; }
        pos += n;
        if (is("C04") && !c.s3 && pos % fb == 0) mid_check(c, st, pos / fb, r.data);
    }
    r.accepted = pos;
    ZarrStream_destroy(zs);
    r.store = st.load();
    if (!c.s3) { std::error_code ec; fs::remove_all(root, ec); }
    return r;
}

static std::string diff(const Bytes& got, const Bytes& want, int bt)
{
    if (got.size() != want.size()) return std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i)
        if (got[i] != want[i]) return "byte " + std::to_string(i) + " (pixel " + std::to_string(i / bt) + ") is " + std::to_string(got[i]) + ", must be " + std::to_string(want[i]);
    return "";
}
static bool same_px(const Bytes& got, const Bytes& want, int dt, std::string& why)
{
    if (got.size() != want.size()) { why = std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()); return false; }
    int bt = BT[dt];
    for (size_t i = 0; i + bt <= got.size(); i += bt) {
        if (!memcmp(&got[i], &want[i], bt)) continue;
        double a = getpx(&got[i], dt), b = getpx(&want[i], dt);
        if (is_float(dt) && std::fabs(a - b) <= (dt == 8 ? 1e-6 : 1e-14) * std::max(1.0, std::fabs(b))) continue;
        why = "pixel " + std::to_string(i / bt) + " is " + std::to_string(a) + ", must be " + std::to_string(b);
        return false;
    }
    return true;
}
// level data present in the store, as chunk -> stored bytes; structural deviations are reported through bad()
template<class F>
static std::map<Coord, Bytes> stored_chunks(const Case& c, int lod, const Dims& d, const std::map<Coord, Bytes>& model, const std::map<std::string, Bytes>& store, F bad)
{
    std::map<Coord, Bytes> r;
    if (c.version == 2) {
        for (auto& [co, _] : model) {
            auto it = store.find(chunk_key(2, lod, co));
            if (it == store.end()) bad("key", "no object " + chunk_key(2, lod, co)); else r[co] = it->second;
        }
        return r;
    }
    for (auto& [key, sh] : shards_of(d, lod, model)) {
        auto it = store.find(key);
        if (it == store.end()) { bad("key", "no object " + key); continue; }
        auto& b = it->second;
        uint64_t tab = 16 * sh.cps;
        if (b.size() < tab) { bad("index", "shard " + key + " has " + std::to_string(b.size()) + " bytes, less than its index of " + std::to_string(tab)); continue; }
        const uint8_t* t = b.data() + b.size() - tab;
        std::vector<std::pair<uint64_t, uint64_t>> ranges;
        for (uint64_t s = 0; s < sh.cps; ++s) {
            uint64_t off = rd64(t + 16 * s), nb = rd64(t + 16 * s + 8);
            auto where = "shard " + key + " slot " + std::to_string(s);
            if (!sh.slots.count(s)) {
                if (off != UINT64_MAX || nb != UINT64_MAX) bad("index", where + " has no chunk but the index says (" + std::to_string(off) + "," + std::to_string(nb) + ")");
                continue;
            }
            if (off == UINT64_MAX && nb == UINT64_MAX) { bad("index", where + ": chunk" + join(sh.slots.at(s), 0) + " is marked missing"); continue; }
            if (off > b.size() - tab || nb > b.size() - tab - off) { bad("index", where + ": (" + std::to_string(off) + "," + std::to_string(nb) + ") is outside the " + std::to_string(b.size() - tab) + " data bytes"); continue; }
            ranges.push_back({ off, nb });
            r[sh.slots.at(s)] = Bytes(b.begin() + off, b.begin() + off + nb);
        }
        std::sort(ranges.begin(), ranges.end());
        uint64_t at = 0;
        bool gap = false;
        for (auto& [o, n] : ranges) { if (o != at) gap = true; at = o + n; }
        if (gap || at != b.size() - tab) bad("index", "shard " + key + ": the chunks' ranges are not disjoint and gap-free up to the index (they end at " + std::to_string(at) + ", the index starts at " + std::to_string(b.size() - tab) + ")");
    }
    return r;
}
static std::set<std::string> meta_keys(int version)
{
    return version == 2 ? std::set<std::string>{ ".zattrs", ".zgroup", "0/.zattrs", "acquire.json" } : std::set<std::string>{ "zarr.json", "meta/root.group.json", "meta/acquire.json" };
}
// while streaming: complete append-steps are in the store (files exist; shards complete on disk)
static void mid_check(const Case& c, const Store& st, uint64_t frames, const Bytes& data)
{
    auto& d = c.dims;
    uint64_t lf = layer_frames(d), per = c.version == 3 ? lf * d[0].s : lf;
    uint64_t steps = frames / per, begun = frames / lf; // complete / layers flushed
    if (!(frames % lf == 0 || frames % lf == lf - 1 || frames % lf == 1)) return;
    auto store = st.load();
    std::string pre = c.version == 2 ? "0/" : "data/root/0/c";
    std::set<uint64_t> present;
    for (auto& [k, v] : store) {
        if (k.rfind(pre, 0) != 0) continue;
        auto t = k.substr(pre.size());
        if (t.empty() || !isdigit(t[0])) continue;
        present.insert(strtoull(t.c_str(), nullptr, 10));
    }
    uint64_t want = c.version == 2 ? begun : cdiv(begun, d[0].s);
    auto in = c.show() + " after " + std::to_string(frames) + " frames";
    if (present.size() != want || (want && *present.rbegin() != want - 1)) {
        rp::fail(std::to_string(present.size()) + " append-steps are in the store after " + std::to_string(frames) + " frames, must be " + std::to_string(want), in);
        return;
    }
    if (frames % per || !steps || (frames > 6 * per)) return;
    // the complete ones can be read
    std::vector<Dims> lv{ d };
    auto model = chunks_of(d, c.dtype, pyramid(c, lv, data, frames)[0]);
    bool hit = false;
    auto got = stored_chunks(c, 0, d, model, store, [&](const char*, const std::string& w) { if (!hit) rp::fail("a complete " + std::string(c.version == 3 ? "shard" : "append-step") + " is not in the store: " + w, in); hit = true; });
    if (hit) return;
    for (auto& [co, want] : model) {
        auto raw = decode(c, got[co], want.size());
        if (!raw || diff(*raw, want, BT[c.dtype]) != "") { rp::fail("chunk" + join(co, 0) + " of a complete append-step is not readable while streaming", in); return; }
    }
}

static void check_meta(const Case& c, int lod, const Dims& d, uint64_t frames, const std::map<std::string, Bytes>& store)
{
    auto in = c.show() + " level " + std::to_string(lod);
    auto it = store.find(meta_key(c.version, lod));
    if (it == store.end()) { rp::fail("no array metadata " + meta_key(c.version, lod), in); return; }
    auto j = json::parse(it->second.begin(), it->second.end(), nullptr, false);
    if (j.is_discarded()) { rp::fail("array metadata is not JSON", in); return; }
    uint64_t app = frames;
    for (size_t k = d.size() - 2; k-- > 1;) app = cdiv(app, d[k].a);
    json shape = json::array(), chunks = json::array(), cps = json::array();
    shape.push_back(app);
    for (size_t k = 1; k < d.size(); ++k) shape.push_back(d[k].a);
    for (auto& x : d) { chunks.push_back(x.c); cps.push_back(x.s); }
    auto want = [&](const json::json_pointer& p, const json& v) {
        json g = j.contains(p) ? j.at(p) : json("(absent)");
        if (g != v) rp::fail("array metadata: " + p.to_string() + " is " + g.dump() + ", must be " + v.dump(), in);
    };
    using P = json::json_pointer;
    static const char* CN[] = { "", "", "lz4", "zstd" };
    want(P("/shape"), shape);
    want(P("/fill_value"), 0);
    if (c.version == 2) {
        want(P("/zarr_format"), 2);
        want(P("/chunks"), chunks);
        want(P("/dtype"), V2T[c.dtype]);
        want(P("/order"), "C");
        want(P("/filters"), nullptr);
        want(P("/dimension_separator"), "/");
        if (c.comp < 2) want(P("/compressor"), nullptr);
        else { want(P("/compressor/id"), "blosc"); want(P("/compressor/cname"), CN[c.comp]); want(P("/compressor/clevel"), c.level); want(P("/compressor/shuffle"), c.shuffle); }
    } else {
        want(P("/chunk_grid/chunk_shape"), chunks);
        want(P("/chunk_grid/separator"), "/");
        want(P("/chunk_grid/type"), "regular");
        want(P("/chunk_memory_layout"), "C");
        want(P("/data_type"), V3T[c.dtype]);
        if (c.comp < 2) want(P("/compressor"), nullptr);
        else {
            want(P("/compressor/codec"), "https://purl.org/zarr/spec/codec/blosc/1.0");
            want(P("/compressor/configuration/cname"), CN[c.comp]); want(P("/compressor/configuration/clevel"), c.level); want(P("/compressor/configuration/shuffle"), c.shuffle);
        }
        want(P("/storage_transformers/0/type"), "indexed");
        want(P("/storage_transformers/0/extension"), "https://purl.org/zarr/spec/storage_transformers/sharding/1.0");
        want(P("/storage_transformers/0/configuration/chunks_per_shard"), cps);
    }
}

// the store against the model, as far as the mode asks
static void judge(const Case& c, const Streamed& r)
{
    if (!r.created) return;
    auto in = c.show();
    auto lv = levels(c);
    uint64_t nframes = r.accepted / frame_bytes(c.dims, c.dtype);
    auto fr = pyramid(c, lv, r.data, nframes);
    bool any = nframes > 0;
    if (any) ++rp::nontrivial;
    std::set<std::string> expected = meta_keys(c.version);
    for (size_t l = 0; l < lv.size(); ++l) {
        auto model = chunks_of(lv[l], c.dtype, fr[l]);
        auto lin = in + (l ? " level " + std::to_string(l) : "");
        if (c.version == 2) for (auto& [co, _] : model) expected.insert(chunk_key(2, l, co));
        else for (auto& [k, _] : shards_of(lv[l], l, model)) expected.insert(k);
        if (!model.empty()) expected.insert(meta_key(c.version, l));
        if (is("C16")) continue;
        if (is("C07")) { if (!fr[l].empty()) check_meta(c, l, lv[l], fr[l].size(), r.store); continue; }
        bool structure = false;
        auto got = stored_chunks(c, l, lv[l], model, r.store, [&](const char* kind, const std::string& w) {
            structure = true;
            bool key = !strcmp(kind, "key");
            if (is("C14") && !key) return;
            rp::fail(w, lin);
        });
        if (is("C14")) continue;
        for (auto& [co, want] : model) {
            auto it = got.find(co);
            if (it == got.end()) continue;
            auto name = "chunk" + join(co, 0);
            if (is("C06")) {
                auto enc = compress(c, want);
                auto w = diff(it->second, enc, 1);
                if (!w.empty()) {
                    auto raw = decode(c, it->second, want.size());
                    std::string hd;
                    if (c.comp >= 2 && it->second.size() >= 16) hd = " (flags " + std::to_string(it->second[2]) + " typesize " + std::to_string(it->second[3]) + ", expected flags " + std::to_string(enc[2]) + " typesize " + std::to_string(enc[3]) + ")";
                    rp::fail(name + " is not stored as configured: " + w + hd + (raw ? "" : "; it does not decode"), lin);
                    return;
                }
                continue;
            }
            auto raw = decode(c, it->second, want.size());
            if (!raw) { rp::fail(name + " does not decode to " + std::to_string(want.size()) + " bytes", lin); return; }
            std::string why;
            if (!same_px(*raw, want, c.dtype, why)) { rp::fail(name + ": " + why, lin); return; }
        }
    }
    if (is("C04") || is("C14") || is("C16")) {
        for (auto& [k, _] : r.store)
            if (!expected.count(k)) { rp::fail("unexpected object " + k, in); return; }
        for (auto& k : expected)
            if (!r.store.count(k)) { rp::fail("missing object " + k, in); return; }
    }
    rp::sample(in);
}

// ------------------------------------------------------------------ inputs
static ZarrDimensionType rtype() { return rp::pick(std::vector<ZarrDimensionType>{ ZarrDimensionType_Space, ZarrDimensionType_Channel, ZarrDimensionType_Time, ZarrDimensionType_Other }); }
static Dims rdims(int maxd = 5, uint64_t maxa = 5, uint64_t maxyx = 9)
{
    size_t n = rp::rnd(3, maxd);
    Dims d;
    for (size_t k = 0; k < n; ++k) {
        bool yx = k + 2 >= n;
        uint32_t a = rp::rnd(1, yx ? maxyx : maxa);
        if (k == 0 && rp::coin()) a = 0;
        uint32_t c = rp::rnd(1, (yx ? maxyx : 3)); // may exceed the array
        if (k && rp::coin(3)) c = a;
        d.push_back({ "d" + std::to_string(k), yx ? ZarrDimensionType_Space : rtype(), a, c, (uint32_t)rp::rnd(1, 3) });
    }
    return d;
}
static uint64_t files(const Case& c)
{
    uint64_t f = 1;
    for (size_t k = 1; k < c.dims.size(); ++k) f *= c.version == 2 ? nch(c.dims[k]) : nsh(c.dims[k]);
    return f * cdiv(c.frames, layer_frames(c.dims));
}
static uint64_t pick_frames(const Dims& d)
{
    uint64_t lf = layer_frames(d), per = lf * d[0].s;
    switch (rp::rng() % 8) {
        case 0: return per;
        case 1: return per + rp::rnd(1, lf);
        case 2: return lf;
        case 3: return lf + rp::rnd(0, 1);
        case 4: return per * 2;
        case 5: return per * 2 - (rp::coin() ? lf : 1);
        default: return rp::rnd(0, 2 * per + 2);
    }
}
static Case rcase()
{
    for (;;) {
        Case c;
        c.seed = rp::rng();
        c.version = rp::rnd(2, 3);
        c.dtype = rp::rnd(0, 9);
        c.dims = rdims();
        c.values = rp::rnd(0, 2);
        c.frames = pick_frames(c.dims);
        if (is("C06") || is("C05") || is("C07") || is("C19")) { c.comp = rp::rnd(0, 3); c.level = rp::rnd(0, 9); c.shuffle = rp::rnd(0, 2); }
        else if (rp::coin(4)) { c.comp = rp::rnd(1, 3); c.level = rp::rnd(1, 9); }
        if (is("C09") || is("C10")) { c.multiscale = true; c.frames = rp::rnd(2, 12); }
        else if (is("C08") || is("C07") || is("C16") || is("C04")) c.multiscale = rp::coin(3);
        if ((is("C04") || is("C14") || is("C16") || is("C05")) && rp::coin(4)) c.s3 = true;
        if (is("C05")) c.version = 3;
        if (files(c) > 250 || c.frames > 200) continue;
        return c;
    }
}
static void one(const Case& c)
{
    ++rp::cases;
    auto r = stream(c);
    judge(c, r);
}
// every small frame count of fixed shapes
static void sweep()
{
    std::vector<Dims> g = {
        { { "t", ZarrDimensionType_Time, 0, 2, 2 }, { "y", ZarrDimensionType_Space, 4, 2, 1 }, { "x", ZarrDimensionType_Space, 5, 2, 2 } },
        { { "t", ZarrDimensionType_Time, 0, 1, 3 }, { "c", ZarrDimensionType_Channel, 2, 1, 1 }, { "y", ZarrDimensionType_Space, 3, 3, 1 }, { "x", ZarrDimensionType_Space, 3, 2, 1 } },
        { { "t", ZarrDimensionType_Time, 6, 3, 1 }, { "z", ZarrDimensionType_Space, 3, 2, 2 }, { "y", ZarrDimensionType_Space, 2, 3, 1 }, { "x", ZarrDimensionType_Space, 4, 2, 1 } },
        { { "t", ZarrDimensionType_Time, 0, 2, 1 }, { "c", ZarrDimensionType_Channel, 2, 1, 2 }, { "z", ZarrDimensionType_Space, 2, 1, 1 }, { "y", ZarrDimensionType_Space, 2, 2, 1 }, { "x", ZarrDimensionType_Space, 2, 1, 2 } },
    };
    for (size_t gi = 0; gi < g.size(); ++gi)
        for (int v = 2; v <= 3; ++v) {
            if (is("C05") && v == 2) continue;
            uint64_t top = std::min<uint64_t>(layer_frames(g[gi]) * g[gi][0].s * 2 + 1, is("C04") ? 25 : 9);
            for (uint64_t f = 0; f <= top; ++f) {
                if (!rp::time_left(0.6)) return;
                Case c;
                c.version = v; c.dims = g[gi]; c.frames = f; c.seed = 100 * gi + f; c.dtype = (gi + f) % 10;
                c.multiscale = is("C09") || is("C10") || ((is("C08") || is("C16")) && f % 2);
                if (is("C06") || is("C05") || is("C07")) { c.comp = f % 4; c.level = f % 10; c.shuffle = f % 3; }
                one(c);
            }
        }
}

// ------------------------------------------------------------------ C03: frames of the wrong size
static void wrong_size()
{
    for (int k = 0; k < 400 && rp::time_left(0.2); ++k) {
        Case c = rcase();
        c.multiscale = false; c.s3 = false; c.comp = 0; c.version = 2;
        c.frames = std::min<uint64_t>(c.frames, layer_frames(c.dims));
        std::string root = scratch() + "/w" + std::to_string(serial++);
        uint64_t fb = frame_bytes(c.dims, c.dtype);
        Bytes data = make_data(c, c.frames * fb);
        zarr::ArrayWriterConfig cfg{ .dimensions = mkdims(c.dims, c.dtype), .dtype = (ZarrDataType)c.dtype, .level_of_detail = 0, .store_path = root };
        fs::create_directories(root);
        auto pool = std::make_shared<zarr::ThreadPool>(2, [](const std::string&) {});
        auto in = c.show();
        rp::at(in);
        ++rp::cases; ++rp::nontrivial;
        std::unique_ptr<zarr::ArrayWriter> w = std::make_unique<zarr::ZarrV2ArrayWriter>(cfg, pool);
        for (uint64_t f = 0; f <= c.frames; ++f) {
            std::vector<size_t> bad = { 0, 1, fb - 1, fb + 1, 2 * fb, rp::rnd(0, 3 * fb) };
            for (auto n : bad) {
                if (n == fb || !rp::coin(3)) continue;
                std::vector<std::byte> junk(n, std::byte(0xa5));
                size_t got = 1;
                try { got = w->write_frame(junk); } catch (...) { rp::fail("a frame of " + std::to_string(n) + " bytes makes write_frame throw", in); }
                if (got != 0) rp::fail("a frame of " + std::to_string(n) + " bytes is accepted (" + std::to_string(got) + " reported)", in + " frame " + std::to_string(f));
            }
            if (f == c.frames) break;
            std::vector<std::byte> fr((const std::byte*)&data[f * fb], (const std::byte*)&data[f * fb] + fb);
            size_t got = w->write_frame(fr);
            if (got != fb) rp::fail("writing a frame reports " + std::to_string(got) + " of " + std::to_string(fb) + " bytes", in + " frame " + std::to_string(f));
        }
        if (!finalize_array(std::move(w))) rp::fail("finalize_array fails", in);
        pool->await_stop();
        Streamed r; r.created = true; r.data = data; r.accepted = c.frames * fb; r.store = Store{ false, root, "" }.load();
        judge(c, r);
        std::error_code ec; fs::remove_all(root, ec);
    }
}

// ------------------------------------------------------------------ C08: how the bytes are divided
static std::vector<size_t> rsplit(uint64_t fb, uint64_t frames)
{
    uint64_t total = frames * fb + (rp::coin() ? rp::rnd(0, fb - 1) : 0), pos = 0;
    std::vector<size_t> s;
    int style = rp::rng() % 5;
    while (pos < total && s.size() < 400) {
        uint64_t n;
        switch (style) {
            case 0: n = rp::rnd(1, fb); break;
            case 1: n = rp::rnd(1, 3 * fb); break;
            case 2: n = fb / 2 + 1; break;
            case 3: n = rp::coin() ? fb - 1 : fb + 1; break;
            default: n = rp::coin(3) ? 0 : rp::pick(std::vector<uint64_t>{ 1, fb, 2 * fb, fb - 1, fb + 1, 2 * fb + 1, 3 * fb - 1 });
        }
        n = std::min<uint64_t>(n, total - pos);
        s.push_back(n);
        pos += n;
    }
    if (pos < total) s.push_back(total - pos);
    return s;
}

// ------------------------------------------------------------------ C10: geometry of the pyramid
static void pyramid_case(const Case& c)
{
    ++rp::cases;
    auto in = c.show();
    rp::at(in);
    zarr::ArrayWriterConfig a{ .dimensions = mkdims(c.dims, c.dtype), .dtype = (ZarrDataType)c.dtype, .level_of_detail = 0, .store_path = "somewhere" };
    if (c.s3) a.bucket_name = "bucket";
    if (c.comp >= 2) a.compression_params = zarr::BloscCompressionParams("lz4", 3, 2);
    for (int l = 0;; ++l) {
        if (l > 64) { rp::fail("the pyramid does not end", in); return; }
        zarr::ArrayWriterConfig b;
        bool more = false;
        auto u = undims(*a.dimensions);
        try { more = zarr::downsample(a, b); } catch (const std::exception& e) { rp::fail(std::string("downsampling level ") + std::to_string(l) + " throws " + e.what(), in); return; }
        auto d = undims(*b.dimensions);
        auto lin = in + " level " + std::to_string(l + 1);
        if (d.size() != u.size()) { rp::fail("the number of dimensions changes", lin); return; }
        bool smaller = false, left = false;
        for (size_t k = 0; k < d.size(); ++k) {
            auto p = lin + " dim " + std::to_string(k);
            if (d[k].name != u[k].name || d[k].type != u[k].type) rp::fail("name or type of a dimension changes", p);
            if (u[k].type == ZarrDimensionType_Channel) {
                if (d[k].a != u[k].a || d[k].c != u[k].c || d[k].s != u[k].s) rp::fail("a channel dimension is downsampled", p);
            } else {
                if (d[k].a != cdiv(u[k].a, 2)) rp::fail("array size " + std::to_string(u[k].a) + " becomes " + std::to_string(d[k].a), p);
                if (d[k].c == 0 || d[k].c > u[k].c) rp::fail("chunk size " + std::to_string(u[k].c) + " becomes " + std::to_string(d[k].c), p);
                if ((d[k].s == 0 && u[k].s) || d[k].s > u[k].s) rp::fail("shard size " + std::to_string(u[k].s) + " becomes " + std::to_string(d[k].s), p);
                if (d[k].a > 1) left = true;
            }
            if (d[k].c < u[k].c) smaller = true;
        }
        if (b.dtype != a.dtype || b.level_of_detail != a.level_of_detail + 1 || b.bucket_name != a.bucket_name || b.store_path != a.store_path ||
            b.compression_params.has_value() != a.compression_params.has_value() ||
            (a.compression_params && (a.compression_params->codec_id != b.compression_params->codec_id || a.compression_params->clevel != b.compression_params->clevel || a.compression_params->shuffle != b.compression_params->shuffle)))
            rp::fail("data type, level, location or compression differ from the level above", lin);
        size_t n = d.size();
        if (zarr::bytes_of_frame(*b.dimensions, b.dtype) != (uint64_t)BT[c.dtype] * cdiv(u[n - 1].a, 2) * cdiv(u[n - 2].a, 2)) rp::fail("the level expects frames of another size than downsampling yields", lin);
        if (more && smaller) { rp::fail("downsampling goes on although a chunk became smaller", lin); return; }
        if (!more && !smaller && left) { rp::fail("downsampling stops although no chunk became smaller and a dimension can still shrink", lin); return; }
        if (l) ++rp::nontrivial;
        if (!more) break;
        a = b;
    }
    rp::sample(in);
}
static void pyramids()
{
    std::vector<uint32_t> ch = { 1, 2, 3, 16, 1000 };
    // a chunk of 1 pixel everywhere: nothing ever shrinks
    for (uint32_t a0 : { 0u, 1u, 7u }) for (uint32_t yx : { 1u, 2u, 3u, 64u }) for (uint32_t c1 : ch) for (int ty = 0; ty < 4; ++ty) {
        Case c; c.dims = { { "t", (ZarrDimensionType)ty, a0, c1, 2 }, { "y", ZarrDimensionType_Space, yx, std::min(c1, yx), 1 }, { "x", ZarrDimensionType_Space, yx + (yx & 1), 1, 3 } };
        c.multiscale = true;
        if (a0 == 0 && c.dims[0].type == ZarrDimensionType_Channel) { /* allowed */ }
        pyramid_case(c);
    }
    for (int k = 0; k < 20000 && rp::time_left(0.35); ++k) {
        Case c = rcase();
        c.s3 = rp::coin();
        if (rp::coin()) for (size_t i = 0; i < c.dims.size(); ++i) { c.dims[i].a = rp::rnd(i ? 1 : 0, 5000); c.dims[i].c = rp::rnd(1, 600); c.dims[i].s = rp::rnd(1, 8); }
        if (rp::coin(4)) for (auto& d : c.dims) d.c = 1;
        pyramid_case(c);
    }
}

// ------------------------------------------------------------------ C14: sinks enumerated directly
static void sink_keys()
{
    for (int k = 0; k < 300 && rp::time_left(0.5); ++k) {
        Case c = rcase();
        bool shards = c.version == 3;
        uint64_t want = 1;
        for (size_t i = 1; i < c.dims.size(); ++i) want *= shards ? nsh(c.dims[i]) : nch(c.dims[i]);
        if (want > 300) continue;
        ++rp::cases; ++rp::nontrivial;
        std::string base = scratch() + "/k" + std::to_string(serial++);
        auto in = c.show();
        rp::at(in);
        auto pool = std::make_shared<zarr::ThreadPool>(3, [](const std::string&) {});
        zarr::SinkCreator cr(pool, nullptr);
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        auto dims = mkdims(c.dims, 0);
        bool ok = false;
        try { ok = cr.make_data_sinks(base, dims.get(), shards ? zarr::shards_along_dimension : zarr::chunks_along_dimension, sinks); }
        catch (const std::exception& e) { rp::fail(std::string("make_data_sinks throws ") + e.what(), in); }
        if (!ok || sinks.size() != want) { rp::fail("make_data_sinks gives " + std::to_string(sinks.size()) + " sinks instead of " + std::to_string(want), in); continue; }
        // sink i is the one of grid point i: write i through it
        for (uint64_t i = 0; i < want; ++i) {
            if (!sinks[i]) { rp::fail("sink " + std::to_string(i) + " is null", in); return; }
            uint64_t v = i;
            (void)sinks[i]->write(0, { (const std::byte*)&v, 8 });
            if (!finalize_sink(std::move(sinks[i]))) rp::fail("finalize_sink fails", in);
        }
        auto st = Store{ false, base, "" }.load();
        if (st.size() != want) rp::fail(std::to_string(st.size()) + " objects created instead of " + std::to_string(want), in);
        for (uint64_t i = 0; i < want; ++i) {
            uint64_t r = i;
            std::string key;
            for (size_t q = c.dims.size(); q-- > 1;) { uint64_t n = shards ? nsh(c.dims[q]) : nch(c.dims[q]); key = std::to_string(r % n) + (key.empty() ? "" : "/" + key); r /= n; }
            auto it = st.find(key);
            if (it == st.end()) { rp::fail("no object " + key, in); break; }
            if (it->second.size() != 8 || rd64(it->second.data()) != i) { rp::fail("object " + key + " belongs to index " + std::to_string(it->second.size() == 8 ? rd64(it->second.data()) : 0) + " instead of " + std::to_string(i), in); break; }
        }
        pool->await_stop();
        std::error_code ec; fs::remove_all(base, ec);
    }
}

// ------------------------------------------------------------------ C16: store metadata
static void check_group(const Case& c, const Streamed& r)
{
    auto in = c.show();
    auto get = [&](const std::string& k, bool must = true) -> json {
        auto it = r.store.find(k);
        if (it == r.store.end()) { if (must) rp::fail("missing object " + k, in); return json(); }
        auto j = json::parse(it->second.begin(), it->second.end(), nullptr, false);
        if (j.is_discarded()) { rp::fail(k + " is not JSON", in); return json(); }
        return j;
    };
    auto want = [&](const std::string& what, const json& g, const json& w) { if (g != w) rp::fail(what + " is " + g.dump() + ", must be " + w.dump(), in); };
    json ms;
    if (c.version == 2) {
        want(".zgroup", get(".zgroup"), json{ { "zarr_format", 2 } });
        auto a = get(".zattrs");
        if (a.contains("multiscales")) ms = a["multiscales"];
    } else {
        auto z = get("zarr.json");
        const char* core = "https://purl.org/zarr/spec/protocol/core/3.0";
        want("zarr.json zarr_format", z.value("zarr_format", json()), core);
        want("zarr.json metadata_encoding", z.value("metadata_encoding", json()), core);
        want("zarr.json metadata_key_suffix", z.value("metadata_key_suffix", json()), ".json");
        auto g = get("meta/root.group.json");
        if (g.contains("attributes") && g["attributes"].contains("multiscales")) ms = g["attributes"]["multiscales"];
    }
    json ext = c.has_custom && !c.custom.empty() ? json::parse(c.custom, nullptr, false, true) : json::object();
    if (c.version == 2) want("0/.zattrs", get("0/.zattrs"), json::object());
    want("the custom metadata", get(c.version == 2 ? "acquire.json" : "meta/acquire.json"), ext);
    if (!ms.is_array() || ms.size() != 1) { rp::fail("no multiscales metadata", in); return; }
    auto& m = ms[0];
    want("multiscales version", m.value("version", json()), "0.4");
    static const char* TY[] = { "space", "channel", "time", "other" };
    json axes = json::array();
    size_t n = c.dims.size();
    for (size_t k = 0; k < n; ++k) {
        json a{ { "name", c.dims[k].name }, { "type", TY[c.dims[k].type] } };
        if (k + 2 >= n) a["unit"] = "micrometer";
        axes.push_back(a);
    }
    want("axes", m.value("axes", json()), axes);
    size_t L = levels(c).size();
    auto ds = m.value("datasets", json::array());
    if (ds.size() != L) { rp::fail(std::to_string(ds.size()) + " datasets listed for " + std::to_string(L) + " levels", in); return; }
    for (size_t l = 0; l < L; ++l) {
        want("path of dataset " + std::to_string(l), ds[l].value("path", json()), std::to_string(l));
        auto t = ds[l].value("coordinateTransformations", json::array());
        std::vector<double> sc(n, 1.0);
        sc[0] = sc[n - 1] = sc[n - 2] = std::pow(2.0, l);
        want("scale of dataset " + std::to_string(l), t.size() == 1 ? t[0].value("scale", json()) : t, json(sc));
        want("transformation of dataset " + std::to_string(l), t.size() == 1 ? t[0].value("type", json()) : t, "scale");
    }
}
static void group_case(const Case& c)
{
    ++rp::cases;
    auto r = stream(c);
    judge(c, r);
    check_group(c, r);
}

// ------------------------------------------------------------------ C11: which settings are accepted
static bool blank(const char* s) { for (; *s; ++s) if (!isspace((unsigned char)*s)) return false; return true; }
static bool valid(const ZarrStreamSettings& s)
{
    if ((int)s.version != 2 && (int)s.version != 3) return false;
    if (!s.store_path || !*s.store_path) return false;
    if (s.s3_settings) {
        auto& t = *s.s3_settings;
        if (!t.endpoint || !t.bucket_name || !t.access_key_id || !t.secret_access_key) return false;
        if (blank(t.endpoint) || blank(t.access_key_id) || blank(t.secret_access_key)) return false;
        std::string b = t.bucket_name;
        while (!b.empty() && isspace((unsigned char)b.back())) b.pop_back();
        size_t i = 0; while (i < b.size() && isspace((unsigned char)b[i])) ++i;
        b = b.substr(i);
        if (b.size() < 3 || b.size() > 63) return false;
    }
    if ((unsigned)s.data_type > 9) return false;
    if (s.compression_settings) {
        auto& c = *s.compression_settings;
        if ((unsigned)c.compressor > 1 || (unsigned)c.codec > 2 || c.level > 9 || c.shuffle > 2) return false;
        if (c.compressor == ZarrCompressor_Blosc1 && c.codec == ZarrCompressionCodec_None) return false;
    }
    if (s.custom_metadata && *s.custom_metadata && !json::accept(std::string(s.custom_metadata), true)) return false;
    if (!s.dimensions || s.dimension_count < 3) return false;
    for (size_t i = 0; i < s.dimension_count; ++i) {
        auto& d = s.dimensions[i];
        if (!d.name || blank(d.name) || (unsigned)d.type > 3) return false;
        if (i + 2 >= s.dimension_count && d.type != ZarrDimensionType_Space) return false;
        if (i && !d.array_size_px) return false;
        if (!d.chunk_size_px || ((int)s.version == 3 && !d.shard_size_chunks)) return false;
    }
    return true;
}
static void settings_case(int mutation)
{
    Case c = rcase();
    c.dims.resize(std::max<size_t>(3, c.dims.size()));
    c.s3 = rp::coin(4);
    c.multiscale = rp::coin(4);
    c.comp = rp::rnd(0, 3); c.level = rp::rnd(0, 9); c.shuffle = rp::rnd(0, 2);
    c.frames = 0;
    std::string root = c.s3 ? "pre/store" : scratch() + "/c" + std::to_string(serial++);
    reset_s3();
    Settings S(c, root);
    auto& s = S.s;
    size_t nd = S.d.size(), di = rp::rnd(0, nd - 1);
    std::ostringstream what;
    static const std::vector<int64_t> ints = { -1, 0, 1, 2, 3, 4, 5, 9, 10, 11, 100, 255, 256, INT32_MAX, INT32_MIN };
    int64_t v = rp::pick(ints);
    static const std::vector<const char*> names = { nullptr, "", " ", "\t\n ", " x", "y ", "n" };
    static const std::vector<const char*> buckets = { nullptr, "", "  ", "ab", " ab ", "abc", " abc ", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffggg", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggg" };
    static const std::vector<const char*> metas = { nullptr, "", "{}", "{", "nope", "{\"a\":1}", "[1]", "// c\n{}", "{\"a\":}", "  ", "1 2" };
    auto str = [](const char* x) { return x ? "\"" + std::string(x) + "\"" : std::string("null"); };
    const char* p = nullptr;
    int m = mutation < 0 ? (int)rp::rnd(0, 17) : mutation;
    switch (m) {
        case 0: s.version = (ZarrVersion)v; what << "version " << v; break;
        case 1: s.data_type = (ZarrDataType)v; what << "data type " << v; break;
        case 2: { size_t n = rp::rnd(0, 3); if (n > nd) n = nd; s.dimension_count = n; what << "dimension count " << n; break; }
        case 3: s.dimensions = nullptr; what << "dimensions null"; break;
        case 4: p = rp::pick(names); S.d[di].name = p; what << "dimension " << di << " name " << str(p); break;
        case 5: S.d[di].type = (ZarrDimensionType)v; what << "dimension " << di << " type " << v; break;
        case 6: S.d[di].array_size_px = 0; what << "dimension " << di << " array size 0"; break;
        case 7: S.d[di].chunk_size_px = 0; what << "dimension " << di << " chunk size 0"; break;
        case 8: S.d[di].shard_size_chunks = 0; what << "dimension " << di << " shard size 0"; if (c.multiscale) s.multiscale = false; break;
        case 9: case 10: case 11: case 12:
            s.compression_settings = &S.cs;
            if (!c.comp) S.cs = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 1, 1 };
            if (m == 9) { S.cs.compressor = (ZarrCompressor)v; what << "compressor " << v; }
            if (m == 10) { S.cs.codec = (ZarrCompressionCodec)v; what << "codec " << v; }
            if (m == 11) { S.cs.level = v; what << "level " << (int)S.cs.level; }
            if (m == 12) { S.cs.shuffle = v; what << "shuffle " << (int)S.cs.shuffle; }
            break;
        case 13: p = rp::pick(metas); s.custom_metadata = p; what << "custom metadata " << str(p); break;
        case 14: s.store_path = rp::coin() ? nullptr : ""; what << "store path " << str(s.store_path); break;
        case 15: {
            c.s3 = true; S.s3 = { "http://localhost:9000", "bucket", "id", "key" }; s.s3_settings = &S.s3; s.store_path = "pre/store";
            int w = rp::rnd(0, 3);
            p = w == 1 ? rp::pick(buckets) : rp::pick(names);
            (w == 0 ? S.s3.endpoint : w == 1 ? S.s3.bucket_name : w == 2 ? S.s3.access_key_id : S.s3.secret_access_key) = p;
            what << "S3 string " << w << " " << str(p);
            break;
        }
        case 16: { static std::string bad; bad = scratch() + "/missing/dir/store"; if (c.s3) return; s.store_path = bad.c_str(); what << "store path below a missing directory"; break; }
        default: what << "unchanged"; break;
    }
    auto in = c.show() + " with " + what.str();
    rp::at(in);
    ++rp::cases; if (m < 17) ++rp::nontrivial;
    bool ok = valid(s) && m != 16;
    auto* zs = ZarrStream_create(&s);
    if (zs && !ok) rp::fail("invalid settings are accepted", in);
    if (!zs && ok) rp::fail("valid settings are rejected", in);
    if (zs) {
        if (ok && m >= 17) {
            // nothing is altered: one frame, then what the store says
            std::vector<uint8_t> fr(frame_bytes(c.dims, c.dtype), 7);
            size_t out = 0;
            if (ZarrStream_append(zs, fr.data(), fr.size(), &out) != ZarrStatusCode_Success) rp::fail("the first frame is refused", in);
        }
        ZarrStream_destroy(zs);
        if (ok && m >= 17) {
            auto st = Store{ c.s3, root, "bucket" }.load();
            check_meta(c, 0, c.dims, 1, st);
            Streamed r; r.created = true; r.store = st;
            check_group(c, r);
        }
    }
    if (!c.s3) { std::error_code ec; fs::remove_all(root, ec); }
    if (m < 17) rp::sample(in);
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    (void)Zarr_set_log_level(ZarrLogLevel_None);
    static const std::vector<std::string> customs = { "", "{}", "{\"a\": 1}", "  {\"nested\": {\"list\": [1, 2.5, \"three\", null, true]}, \"u\": \"\\u00e9\"}  ", "[1,2,3]", "/* note */ {\"k\": \"v\"}", "\"text\"" };
    if (is("C10")) pyramids();
    if (is("C11")) {
        if (auto* zs = ZarrStream_create(nullptr)) { rp::fail("null settings are accepted", "null"); (void)zs; }
        for (int k = 0; rp::time_left(); ++k) settings_case(k % 19 == 18 ? -1 : k % 19);
        return rp::finish();
    }
    if (is("C14")) sink_keys();
    if (is("C03")) wrong_size();
    if (is("C16")) {
        for (int k = 0; rp::time_left() && k < 100000; ++k) {
            Case c = rcase();
            c.multiscale = rp::coin();
            if (rp::coin(3)) c.frames = std::min<uint64_t>(c.frames, 1);
            if (k % 3) { c.has_custom = true; c.custom = rp::pick(customs); }
            for (auto& d : c.dims) if (rp::coin(4)) d.name = rp::pick(std::vector<std::string>{ "time", "a b", "\"quoted\"", "zeta\xc3\xa9" });
            group_case(c);
        }
        return rp::finish();
    }
    sweep();
    while (rp::time_left()) {
        Case c = rcase();
        if (is("C08")) {
            if (c.frames > 40) c.frames = 40;
            c.split = rsplit(frame_bytes(c.dims, c.dtype), c.frames);
            if (c.split.empty()) continue;
        }
        if (is("C09")) { c.dims[c.dims.size() - 1].a = rp::rnd(1, 17); c.dims[c.dims.size() - 2].a = rp::rnd(1, 17); if (files(c) > 200) continue; }
        one(c);
    }
    return rp::finish();
}
