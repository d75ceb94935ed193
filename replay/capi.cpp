// C17: status messages, log levels, dimension arrays, null arguments.
#include "rp.hh"
#include "acquire.zarr.h"
#include <filesystem>
#include <map>
#include <new>
namespace fs = std::filesystem;

// blocks from new[] that are alive
static std::map<void*, size_t>* live;
static bool track = false;
static bool wrong_free = false;
static bool refuse = false;
void* operator new[](size_t n)
{
    if (refuse) { throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (track) { track = false; (*live)[p] = n; track = true; }
    return p;
}
void operator delete[](void* p) noexcept
{
    if (track && p) { track = false; if (!live->erase(p)) { wrong_free = true; track = true; return; } track = true; }
    free(p);
}
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

static void messages()
{
    std::set<std::string> seen;
    for (int c = 0; c < (int)ZarrStatusCodeCount; ++c) {
        ++rp::cases; ++rp::nontrivial;
        const char* m = Zarr_get_status_message((ZarrStatusCode)c);
        if (!m) { rp::fail("no message", "status " + std::to_string(c)); continue; }
        if (!seen.insert(m).second) rp::fail("two status codes share the message '" + std::string(m) + "'", "status " + std::to_string(c));
    }
    const char* u = Zarr_get_status_message((ZarrStatusCode)(-1));
    if (seen.count(u)) rp::fail("a status code and unknown values share a message", u);
    std::string us = u;
    std::vector<int64_t> vs = { -2, -1000, INT32_MIN, INT32_MAX };
    for (int c = ZarrStatusCodeCount; c < 300; ++c) vs.push_back(c);
    for (auto c : vs) {
        ++rp::cases;
        const char* m = Zarr_get_status_message((ZarrStatusCode)c);
        if (!m || us != m) rp::fail("an unknown status code yields '" + std::string(m ? m : "(null)") + "'", "status " + std::to_string(c));
    }
    if (us.find("nknown") == std::string::npos) rp::fail("unknown values do not yield the unknown-error message", us);
}

static void levels()
{
    for (int from = ZarrLogLevel_Debug; from < ZarrLogLevelCount; ++from) {
        for (int64_t to : std::vector<int64_t>{ 0, 1, 2, 3, 4, 5, 6, 7, -1, -2, 100, INT32_MAX, INT32_MIN }) {
            ++rp::cases; ++rp::nontrivial;
            auto in = "level " + std::to_string(from) + " then " + std::to_string(to);
            if (Zarr_set_log_level((ZarrLogLevel)from) != ZarrStatusCode_Success) rp::fail("a valid log level is rejected", in);
            if (Zarr_get_log_level() != from) rp::fail("the log level read back is not the one set", in);
            auto r = Zarr_set_log_level((ZarrLogLevel)to);
            bool valid = to >= 0 && to <= 4;
            if ((r == ZarrStatusCode_Success) != valid) rp::fail(valid ? "a valid log level is rejected" : "an invalid log level is accepted", in);
            if (Zarr_get_log_level() != (valid ? to : from)) rp::fail("the log level read back is wrong: " + std::to_string(Zarr_get_log_level()), in);
        }
    }
    Zarr_set_log_level(ZarrLogLevel_None);
}

static void arrays()
{
    std::map<void*, size_t> m; live = &m;
    if (ZarrStreamSettings_create_dimension_array(nullptr, 3) != ZarrStatusCode_InvalidArgument) rp::fail("null settings are not reported as invalid", "create_dimension_array(null, 3)");
    ZarrStreamSettings_destroy_dimension_array(nullptr);
    for (int it = 0; it < 400; ++it) {
        ZarrStreamSettings s;
        memset(&s, 0, sizeof s);
        s.store_path = "keep"; s.multiscale = true; s.data_type = ZarrDataType_int16; s.version = ZarrVersion_3;
        auto keep = s;
        track = true;
        std::string in;
        size_t have = 0;
        int steps = rp::rnd(1, 6);
        for (int k = 0; k < steps; ++k) {
            ++rp::cases; ++rp::nontrivial;
            bool des = rp::coin(3);
            size_t n = rp::coin(3) ? rp::rnd(0, 2) : rp::rnd(3, 40);
            refuse = !des && n >= 3 && rp::coin(5);
            track = false; in += des ? " destroy" : " create(" + std::to_string(n) + (refuse ? ", out of memory)" : ")"); track = true;
            auto* before = s.dimensions;
            if (des) {
                ZarrStreamSettings_destroy_dimension_array(&s);
                have = 0;
                if (s.dimensions || s.dimension_count) { track = false; rp::fail("pointer or count not reset", in); track = true; }
            } else {
                auto r = ZarrStreamSettings_create_dimension_array(&s, n);
                bool must = n >= 3 && !refuse;
                bool was_refused = refuse;
                refuse = false;
                track = false;
                if ((r == ZarrStatusCode_Success) != must) rp::fail(must ? "creation fails" : "creation succeeds", in);
                if (n < 3 && r != ZarrStatusCode_InvalidArgument) rp::fail("fewer than three dimensions not reported as invalid", in);
                (void)was_refused;
                if (!must && (s.dimensions != before || s.dimension_count != have)) rp::fail("a failed call changes the settings", in);
                if (must) {
                    have = n;
                    if (s.dimension_count != n || !s.dimensions) rp::fail("count or pointer not set", in);
                    else if (!m.count(s.dimensions) || m[s.dimensions] < n * sizeof(ZarrDimensionProperties)) rp::fail("the array is too small", in);
                    else memset((void*)s.dimensions, 7, n * sizeof(ZarrDimensionProperties));
                }
                track = true;
            }
            track = false;
            if (wrong_free) { rp::fail("memory that is not allocated is freed", in); wrong_free = false; }
            size_t want = have ? 1 : 0;
            if (m.size() != want) rp::fail(m.size() > want ? "an array is not freed" : "the array in use is freed", in);
            if (have && !m.count(s.dimensions)) rp::fail("the settings point to a freed array", in);
            if (s.store_path != keep.store_path || s.multiscale != keep.multiscale || s.data_type != keep.data_type || s.version != keep.version || s.custom_metadata || s.s3_settings || s.compression_settings)
                rp::fail("another setting is changed", in);
            track = true;
        }
        ZarrStreamSettings_destroy_dimension_array(&s);
        track = false;
        if (!m.empty()) { rp::fail("an array is not freed", in + " destroy"); m.clear(); }
        rp::sample(in);
    }
}

static void nulls()
{
    uint8_t b[16] = { 0 }; size_t out = 77;
    std::cout << "AT\tZarrStream_append(null, data, 16, &out)" << std::endl;
    if (ZarrStream_append(nullptr, b, 16, &out) != ZarrStatusCode_InvalidArgument) rp::fail("a null stream is not reported as invalid", "append");
    std::cout << "AT\tZarrStream_create(null)" << std::endl;
    if (ZarrStream_create(nullptr)) rp::fail("null settings are accepted", "create");
    std::cout << "AT\tZarrStream_destroy(null)" << std::endl;
    ZarrStream_destroy(nullptr);
    ZarrStreamSettings s; memset(&s, 0, sizeof s);
    s.store_path = "capi.zarr"; s.version = ZarrVersion_2; s.data_type = ZarrDataType_uint8;
    ZarrStreamSettings_create_dimension_array(&s, 3);
    s.dimensions[0] = { "t", ZarrDimensionType_Time, 0, 2, 1 };
    s.dimensions[1] = { "y", ZarrDimensionType_Space, 4, 4, 1 };
    s.dimensions[2] = { "x", ZarrDimensionType_Space, 4, 4, 1 };
    std::cout << "AT\tcreate a stream, append with null data and null bytes_out" << std::endl;
    auto* st = ZarrStream_create(&s);
    if (!st) { rp::fail("a valid stream is rejected", "3 dimensions"); return; }
    rp::cases += 6; rp::nontrivial += 3;
    if (ZarrStream_append(st, nullptr, 16, &out) != ZarrStatusCode_InvalidArgument) rp::fail("null data are not reported as invalid", "append");
    if (ZarrStream_append(st, b, 16, nullptr) != ZarrStatusCode_InvalidArgument) rp::fail("a null byte count is not reported as invalid", "append");
    out = 77;
    if (ZarrStream_append(st, b, 16, &out) != ZarrStatusCode_Success || out != 16) rp::fail("append of one frame fails or reports " + std::to_string(out), "16 bytes");
    ZarrStream_destroy(st);
    ZarrStreamSettings_destroy_dimension_array(&s);
}

int main(int argc, char** argv)
{
    rp::init(argc, argv);
    if (Zarr_get_log_level() != ZarrLogLevel_Info && Zarr_get_log_level() > ZarrLogLevel_None) rp::fail("the initial log level is invalid", "");
    Zarr_set_log_level(ZarrLogLevel_None);
    messages(); levels(); arrays(); nulls();
    if (!Zarr_get_api_version() || !*Zarr_get_api_version()) rp::fail("no version", "");
    return rp::finish();
}
