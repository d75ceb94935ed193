// Stand-in for minio-cpp (not available offline): just enough of its interface for /repo/src/streaming to be parsed and,
// in replay programs, run against an in-memory object store with failure injection. Not part of what is verified.
#pragma once
#include <functional>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <mutex>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

namespace fake_s3 {
struct Store
{
    std::mutex m;
    std::map<std::string, std::string> objects;                              // bucket/key -> content
    std::map<std::string, std::map<unsigned, std::string>> uploads;          // upload id -> parts
    std::vector<std::string> log;                                            // requests
    std::function<int(const std::string&)> fault;                            // request -> 0 ok, 1 error, 2 throw
    std::vector<std::pair<unsigned, size_t>> parts;                          // part number, size of parts uploaded
    int next_upload = 0;
    int check(const std::string& what)
    {
        log.push_back(what);
        int f = fault ? fault(what) : 0;
        if (f == 2) {
            throw std::runtime_error("injected: " + what);
        }
        return f;
    }
};
inline Store&
store()
{
    static Store s;
    return s;
}
} // namespace fake_s3

namespace minio {
namespace error {
struct Error
{
    bool failed = false;
    std::string String() const { return failed ? "injected error" : ""; }
};
}
namespace utils {
class CharBuffer : public std::streambuf
{
  public:
    CharBuffer(char* buf, size_t size) { setg(buf, buf, buf + size); }
};
}
namespace creds {
struct Provider
{
    virtual ~Provider() = default;
};
struct StaticProvider : Provider
{
    StaticProvider(std::string, std::string) {}
};
}
namespace s3 {
struct BaseUrl
{
    bool https = false;
    std::string host;
    BaseUrl(std::string h)
      : host(h)
    {
    }
};
struct Part
{
    unsigned int number = 0;
    std::string etag;
};
struct Response
{
    bool ok = true;
    std::string etag, upload_id;
    bool exist = false;
    explicit operator bool() const { return ok; }
    error::Error Error() const { return { !ok }; }
};
struct Args
{
    std::string bucket, object;
};
struct BucketExistsArgs : Args {};
struct StatObjectArgs : Args {};
struct RemoveObjectArgs : Args {};
struct CreateMultipartUploadArgs : Args {};
struct PutObjectArgs : Args
{
    std::istream& stream;
    long size;
    PutObjectArgs(std::istream& s, long n, long)
      : stream(s)
      , size(n)
    {
    }
};
struct UploadPartArgs : Args
{
    unsigned int part_number = 0;
    std::string upload_id;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : Args
{
    std::string upload_id;
    std::list<Part> parts;
};
class Client
{
  public:
    Client(BaseUrl&, creds::Provider*) {}
    Response ListBuckets()
    {
        std::scoped_lock l(fake_s3::store().m);
        return { !fake_s3::store().check("list") };
    }
    Response BucketExists(BucketExistsArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        bool bad = s.check("bucket " + a.bucket);
        return { !bad, "", "", !bad };
    }
    Response StatObject(StatObjectArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        return { !s.check("stat " + a.object) && s.objects.count(a.bucket + "/" + a.object) > 0 };
    }
    Response RemoveObject(RemoveObjectArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        if (s.check("remove " + a.object)) {
            return { false };
        }
        s.objects.erase(a.bucket + "/" + a.object);
        return {};
    }
    Response PutObject(PutObjectArgs& a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        if (s.check("put " + a.object)) {
            return { false };
        }
        std::string data((std::istreambuf_iterator<char>(a.stream)), std::istreambuf_iterator<char>());
        if ((long)data.size() != a.size) {
            return { false };
        }
        s.objects[a.bucket + "/" + a.object] = data;
        return { true, "etag" };
    }
    Response CreateMultipartUpload(CreateMultipartUploadArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        if (s.check("create " + a.object)) {
            return { false };
        }
        std::string id = "u" + std::to_string(++s.next_upload);
        s.uploads[id];
        return { true, "", id };
    }
    Response UploadPart(UploadPartArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        if (s.check("part " + std::to_string(a.part_number) + " " + a.object)) {
            return { false };
        }
        auto it = s.uploads.find(a.upload_id);
        if (it == s.uploads.end()) {
            return { false };
        }
        it->second[a.part_number] = std::string(a.data);
        s.parts.push_back({ a.part_number, a.data.size() });
        return { true, "etag" + std::to_string(a.part_number) };
    }
    Response CompleteMultipartUpload(CompleteMultipartUploadArgs a)
    {
        auto& s = fake_s3::store();
        std::scoped_lock l(s.m);
        if (s.check("complete " + a.object)) {
            return { false };
        }
        auto it = s.uploads.find(a.upload_id);
        if (it == s.uploads.end()) {
            return { false };
        }
        std::string data;
        unsigned last = 0;
        for (auto& p : a.parts) {
            if (p.number <= last || !it->second.count(p.number) || p.etag != "etag" + std::to_string(p.number)) {
                return { false };
            }
            last = p.number;
            data += it->second[p.number];
        }
        s.objects[a.bucket + "/" + a.object] = data;
        s.uploads.erase(it);
        return { true, "etag" };
    }
};
} // namespace s3
} // namespace minio
