// C33: S3 objects, with a service that lives in memory (see aws_fake/fake_s3.h).
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <system_error>

#include "listing.h"
#include "numbered.h"
#include "support.h"

#ifndef NO_FAKE_S3
#include "fake_s3.h"
#include <mlio/init.h>
#else
namespace Aws::S3 {
class S3Client {};
}  // namespace Aws::S3
#endif
#include <mlio/data_stores/s3_object.h>
#include <mlio/s3_client.h>
#include <mlio/streams/s3_input_stream.h>

using namespace mlio;
using namespace pbt;

namespace {

std::string any_key(Case &c)
{
    static const std::vector<std::string> parts{"a", "b/", "dir/", "file", "data-", "x", "/", "_",
                                                "[", "*", "?", "-", "%20", "=", "+", "A"};
    static const std::vector<std::string> ends{"", "", ".csv", ".gz", ".csv.gz", ".bz2", ".zip", "/", ".GZ"};
    std::string s;
    std::size_t n = 1 + c.size(3);
    for (std::size_t i = 0; i < n; i++) {
        if (c.flag()) {
            s += c.pick(parts);
        }
        else {
            // No leading zeros and no numbers next to each other: the order is total.
            if (s.empty() || s.back() < '0' || s.back() > '9') {
                s += std::to_string(c.draw(c.flag() ? 12 : 3000));
            }
        }
    }
    const std::string &end = c.pick(ends);
    if (s.empty() || (s.back() == '/' && !end.empty() && end[0] == '.')) {
        s += "k";  // a mere extension can be taken for either
    }
    return s + end;
}

std::string any_bucket(Case &c)
{
    return c.pick<std::string>({"bucket", "b", "my.bucket-1", "b2"});
}

struct Uri {
    bool valid{};
    std::string bucket;
    std::string key;
};

Uri parse(const std::string &s)
{
    Uri u;
    const std::string scheme = "s3://";
    if (s.compare(0, scheme.size(), scheme) != 0) {
        return u;
    }
    auto pos = s.find('/', scheme.size());
    u.bucket = s.substr(scheme.size(), pos == std::string::npos ? pos : pos - scheme.size());
    u.key = pos == std::string::npos ? "" : s.substr(pos + 1);
    u.valid = !u.bucket.empty();
    return u;
}

std::string any_uri(Case &c)
{
    switch (c.weighted({6, 2, 2})) {
    case 0:
        return "s3://" + any_bucket(c) + "/" + any_key(c);
    case 1:
        return c.pick<std::string>({"", "s", "s3:/", "s3:", "s3://", "s3:///", "s3:///key", "s3://b", "s3://b/",
                                    "s3://b//", "s3://b/k", "S3://b/k", "http://b/k", "/tmp/file", "s3:/b/k",
                                    "as3://b/k", "s3//b/k", "s3://b//k", "s3a://b/k", "s3:///b/k"});
    default: {
        std::string s = "s3://" + any_bucket(c) + "/" + any_key(c);
        std::size_t at = c.draw(s.size() - 1);
        if (c.flag()) {
            s.erase(at, 1 + c.draw(2));
        }
        else {
            s.insert(at, 1, c.pick({'/', ':', 's', '3', 'x'}));
        }
        return s;
    }
    }
}

Compression any_compression(Case &c)
{
    return static_cast<Compression>(c.draw(4));
}

void check_repr(const Data_store &s, const std::string &uri, const std::string &version, Compression k)
{
    ENSURE(s.id() == (version.empty() ? uri : uri + "@" + version), "the id is ", s.id());
    auto base = uri.substr(uri.rfind('/') + 1);
    if (k == Compression::infer && (base == ".gz" || base == ".bz2" || base == ".zip")) {
        return;  // a mere extension can be taken for either
    }
    std::string want = "<S3_object uri='" + uri + "' version='" + version + "' compression='" +
                       (k == Compression::infer ? inferred(uri) : name_of(k)) + "'>";
    ENSURE(s.repr() == want, s.repr(), " instead of ", want);
}

}  // namespace

// Which URIs are taken, and the names of the objects.
PBT_TEST_W(C33, uris, 0.5)
{
    std::string uri = any_uri(c);
    std::string version = c.flag() ? "" : c.pick<std::string>({"1", "null", "3/L4kqtJlcpXroDTDmJ+rmSpXd3dIbrHY"});
    Compression k = any_compression(c);
    Uri u = parse(uri);
    c.desc("'", uri, "' version '", version, "' compression ", static_cast<int>(k));
    c.nontrivial(u.valid);
    auto client = make_intrusive<S3_client>(std::unique_ptr<Aws::S3::S3Client>{});
    Intrusive_ptr<S3_object> s;
    auto kind = kind_of_error([&] { s = make_intrusive<S3_object>(client, uri, version, k); });
    if (!u.valid || u.key.empty()) {
        ENSURE(kind == "invalid_argument", "a URI without a bucket or a key ends with '", kind, "'");
        return;
    }
    ENSURE(kind.empty(), "a valid URI is refused with '", kind, "'");
    check_repr(*s, uri, version, k);
    auto t = make_intrusive<S3_object>(client, uri);
    check_repr(*t, uri, "", Compression::infer);
}

#ifndef NO_FAKE_S3

namespace {

struct World {
    World()
    {
        fake_s3::service = &service;
    }
    ~World()
    {
        fake_s3::service = nullptr;
    }
    fake_s3::Service service;
    std::size_t data_requests{};
};

Intrusive_ptr<S3_client> any_client(Case &c)
{
    if (c.flag()) {
        return make_s3_client();
    }
    S3_client_options o{};
    o.access_key_id = "key";
    o.secret_key = "secret";
    return make_s3_client(o);
}

std::string any_data(Case &c)
{
    std::string s;
    std::size_t n = c.chance(1, 6) ? 0 : c.size(c.chance(1, 10) ? 5000 : 60);
    for (std::size_t i = 0; i < n; i++) {
        s += static_cast<char>('a' + (i * 7 + n) % 26);
    }
    return s;
}

}  // namespace

// Objects are read as memory is: any history of reads and seeks.
PBT_TEST_W(C33, objects, 2)
{
    World w;
    auto &sv = w.service;
    std::size_t n = 1 + c.draw(4);
    struct Obj {
        std::string uri, version, data;
    };
    std::vector<Obj> objs;
    for (std::size_t i = 0; i < n; i++) {
        std::string b = any_bucket(c);
        std::string k = any_key(c);
        auto &versions = sv.buckets[b][k];
        std::size_t nv = 1 + c.draw(2);
        for (std::size_t v = 0; v < nv; v++) {
            versions.push_back({"v" + std::to_string(i) + "." + std::to_string(versions.size()), any_data(c)});
        }
    }
    for (auto &b : sv.buckets) {
        for (auto &o : b.second) {
            std::string uri = "s3://" + b.first + "/" + o.first;
            objs.push_back({uri, "", o.second.back().data});
            for (auto &v : o.second) {
                objs.push_back({uri, v.id, v.data});
            }
        }
    }
    auto limits = c.flag() ? 1 + c.draw(10) : 0;
    if (limits != 0) {
        sv.body_size = [&](std::size_t have) {
            return std::min<std::size_t>(have, 1 + sv.num_requests * 7 % limits);
        };
    }
    auto client = any_client(c);
    const Obj &o = c.pick(objs);
    c.desc(o.uri, " version '", o.version, "' of ", o.data.size(), " bytes, short bodies ", limits, ": ");
    Intrusive_ptr<Input_stream> s;
    Intrusive_ptr<Data_store> store;
    if (c.flag()) {
        store = make_intrusive<S3_object>(client, o.uri, o.version, Compression::none);
        check_repr(*store, o.uri, o.version, Compression::none);
        s = store->open_read();
    }
    else {
        s = make_s3_input_stream(client, o.uri, o.version);
    }
    client = {};
    if (c.flag()) {
        store = {};
    }
    ENSURE(s->seekable() && !s->closed() && s->position() == 0, "a fresh stream");
    std::size_t pos = 0;
    std::size_t size = o.data.size();
    std::size_t ops = 1 + c.size(12);
    c.nontrivial(size > 1 && ops > 2);
    for (std::size_t i = 0; i < ops; i++) {
        ENSURE(s->size() == size, "the size is ", s->size());
        switch (c.weighted({6, 3, 3, 1})) {
        case 0: {
            std::size_t k = c.flag() ? c.draw(12) : c.draw(size + 20);
            std::string buf(k + 1, '#');
            std::size_t got = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data()), k});
            c.desc("read ", k, " ");
            std::size_t most = std::min(k, size - pos);
            ENSURE(got <= most, "read ", got, " bytes of ", most);
            ENSURE((got == 0) == (most == 0), "read ", got, " bytes of ", most);
            ENSURE(limits != 0 || got == most, "read ", got, " bytes of ", most);
            ENSURE(buf.compare(0, got, o.data, pos, got) == 0, "at ", pos, " read ", quote(buf), " instead of ",
                   quote(o.data.substr(pos, got)));
            ENSURE(buf[k] == '#', "written beyond the destination");
            pos += got;
            break;
        }
        case 1: {
            std::size_t k = c.draw(size + 10);
            c.desc("slice ", k, " ");
            auto m = s->read(k);
            std::size_t most = std::min(k, size - pos);
            ENSURE(m.size() <= most && (m.size() == 0) == (most == 0), "read ", m.size(), " bytes of ", most);
            ENSURE(to_string(m) == o.data.substr(pos, m.size()), "at ", pos, " read ", quote(to_string(m)));
            pos += m.size();
            break;
        }
        case 2: {
            std::size_t to = c.chance(1, 5) ? size + c.draw(2) : c.draw(size);
            c.desc("seek ", to, " ");
            auto kind = kind_of_error([&] { s->seek(to); });
            ENSURE(kind == (to > size ? "system" : ""), "seeking to ", to, " of ", size, " ends with '", kind, "'");
            if (kind.empty()) {
                pos = to;
            }
            break;
        }
        default: {
            // Another stream of the same object has a position of its own.
            auto t = store != nullptr ? store->open_read() : Intrusive_ptr<Input_stream>{};
            if (t != nullptr) {
                ENSURE(t->position() == 0 && t->size() == size, "another stream");
                std::byte x{};
                ENSURE(t->read(Mutable_memory_span{&x, 1}) == (size == 0 ? 0 : 1), "another stream");
                ENSURE(size == 0 || static_cast<char>(x) == o.data[0], "another stream");
                t->close();
            }
            break;
        }
        }
        ENSURE(s->position() == pos, "the position is ", s->position(), " instead of ", pos);
    }
    s->close();
    ENSURE(s->closed(), "not closed");
    std::byte x{};
    ENSURE(kind_of_error([&] { s->read(Mutable_memory_span{&x, 1}); }) == "stream", "reading a closed stream");
    ENSURE(kind_of_error([&] { s->seek(0); }) == "stream", "seeking in a closed stream");
}

// All keys with the prefix, from all pages, filtered and in natural order.
PBT_TEST_W(C33, listing, 2)
{
    World w;
    auto &sv = w.service;
    std::size_t n = c.size(25);
    for (std::size_t i = 0; i < n; i++) {
        sv.buckets[any_bucket(c)][any_key(c)].push_back({"1", "data"});
    }
    sv.buckets["empty"];
    if (c.flag()) {
        std::size_t most = 1 + c.draw(4);
        sv.page_size = [most](std::size_t i) {
            return 1 + (i * 5 + most) % most;
        };
        c.desc("pages of at most ", most, " ");
    }
    std::vector<std::string> uris;
    std::vector<std::string> all;
    std::string want_error;
    std::size_t k = c.weighted({1, 8, 3, 1});
    for (std::size_t i = 0; i < k; i++) {
        std::string uri;
        if (c.chance(1, 10)) {
            uri = any_uri(c);
        }
        else {
            std::string b = c.chance(1, 12) ? "empty" : sv.buckets.size() > 1 ? [&] {
                auto p = sv.buckets.begin();
                std::advance(p, static_cast<long>(c.draw(sv.buckets.size() - 1)));
                return p->first;
            }() : "empty";
            uri = "s3://" + b;
            auto &keys = sv.buckets[b];
            if (c.chance(3, 4)) {
                uri += "/";
                if (!keys.empty() && c.chance(2, 3)) {
                    auto p = keys.begin();
                    std::advance(p, static_cast<long>(c.draw(keys.size() - 1)));
                    uri += p->first.substr(0, c.draw(p->first.size()));
                }
            }
        }
        uris.push_back(uri);
        Uri u = parse(uri);
        if (!u.valid) {
            if (want_error.empty()) {
                want_error = "invalid_argument";
            }
            continue;
        }
        auto b = sv.buckets.find(u.bucket);
        if (b == sv.buckets.end()) {
            if (want_error.empty()) {
                want_error = "system";
            }
            continue;
        }
        for (auto &o : b->second) {
            if (o.first.compare(0, u.key.size(), u.key) == 0) {
                all.push_back("s3://" + b->first + "/" + o.first);
            }
        }
    }
    static const std::vector<std::string> patterns{"*", "*.csv", "*.gz", "*1*", "*/file*", "*[0-9].csv", "*[!5]",
                                                   "s3://*", "nothing", "*.[cg]*", "s3://b/*", "s3://bucket/?*"};
    std::string pattern = c.flag() ? c.pick(patterns) : "";
    bool predicate = c.chance(1, 3);
    std::size_t mod = 1 + c.draw(3);
    auto accept = [&](const std::string &p) {
        std::size_t h = 0;
        for (char ch : p) {
            h += static_cast<unsigned char>(ch);
        }
        return h % mod == 0;
    };
    std::vector<std::string> want;
    std::multiset<std::string> asked;
    for (auto &p : all) {
        if (!pattern.empty() && !glob(pattern.c_str(), p.c_str())) {
            continue;
        }
        asked.insert(p);
        if (!predicate || accept(p)) {
            want.push_back(p);
        }
    }
    std::sort(want.begin(), want.end(), [](auto &a, auto &b) {
        return natural(a, b) < 0;
    });
    S3_object_list_options o{};
    o.pattern = pattern;
    std::multiset<std::string> got_asked;
    S3_object_list_options::Predicate_callback cb = [&](const std::string &p) {
        got_asked.insert(p);
        return accept(p);
    };
    S3_object_list_options::Predicate_callback none{};
    o.predicate = predicate ? &cb : c.flag() ? &none : nullptr;
    o.compression = any_compression(c);
    c.desc("uris ", join(uris), " pattern '", pattern, "' predicate ", predicate, " all ", join(all));
    c.nontrivial(want.size() > 1);
    auto client = any_client(c);
    std::vector<Intrusive_ptr<Data_store>> got;
    auto kind = kind_of_error([&] {
        if (uris.size() == 1 && !predicate && c.flag()) {
            o.compression = Compression::infer;
            got = list_s3_objects(*client, uris[0], pattern);
        }
        else {
            got = list_s3_objects(*client, uris, o);
        }
    });
    if (!want_error.empty()) {
        ENSURE(kind == want_error, "ends with '", kind, "' instead of '", want_error, "'");
        return;
    }
    ENSURE(kind.empty(), "listing fails with '", kind, "'");
    client = {};
    std::vector<std::string> ids;
    for (auto &s : got) {
        ids.push_back(s->id());
    }
    ENSURE(ids == want, "listed ", join(ids), " instead of ", join(want));
    if (predicate) {
        ENSURE(got_asked == asked, "the predicate was not asked for all objects");
    }
    for (auto &s : got) {
        check_repr(*s, s->id(), "", o.compression);
    }
    if (!got.empty()) {
        // The objects keep the client that they need.
        auto &s = c.pick(got);
        if (o.compression == Compression::none) {
            ENSURE(to_string(s->open_read()->read(10)) == "data", "the content of an object");
        }
    }
}

// Errors of the service.
PBT_TEST(C33, failures)
{
    using E = Aws::S3::S3Errors;
    World w;
    auto &sv = w.service;
    std::string data = any_data(c) + "x";
    sv.buckets["b"]["key"].push_back({"1", data});
    static const std::vector<std::pair<E, std::errc>> known{
        {E::ACCESS_DENIED, std::errc::permission_denied},
        {E::NO_SUCH_BUCKET, std::errc::no_such_file_or_directory},
        {E::NO_SUCH_KEY, std::errc::no_such_file_or_directory},
        {E::RESOURCE_NOT_FOUND, std::errc::no_such_file_or_directory},
        {E::SERVICE_UNAVAILABLE, std::errc::host_unreachable},
        {E::REQUEST_TIMEOUT, std::errc::timed_out},
        {E::SLOW_DOWN, std::errc::io_error},
        {E::INTERNAL_FAILURE, std::errc::io_error},
        {E::NETWORK_CONNECTION, std::errc::io_error},
        {E::UNKNOWN, std::errc::io_error},
        {E::INVALID_OBJECT_STATE, std::errc::io_error}};
    auto [error, code] = c.pick(known);
    std::string op = c.pick<std::string>({"list", "head", "get"});
    std::size_t after = c.draw(2);  // requests of that kind that succeed
    std::size_t count = 0;
    bool armed = true;
    sv.error = [&](const char *o) -> const E * {
        return armed && o == op && count++ >= after ? &error : nullptr;
    };
    c.desc("error ", static_cast<int>(error), " of '", op, "' after ", after);
    c.nontrivial();
    auto client = any_client(c);
    std::error_code got;
    bool failed = false;
    std::string out;
    auto attempt = [&] {
        failed = false;
        try {
            if (op == "list") {
                list_s3_objects(*client, "s3://b/k");
            }
            else {
                S3_object s{client, "s3://b/key"};
                auto t = s.open_read();
                out.clear();
                while (out.size() < data.size()) {
                    auto m = t->read(1 + data.size() / 2);
                    ENSURE(!m.empty(), "the object ends early");
                    out += to_string(m);
                }
            }
        }
        catch (const std::system_error &e) {
            failed = true;
            got = e.code();
        }
    };
    for (std::size_t i = 0; i < 4 && !failed; i++) {
        attempt();
    }
    ENSURE(failed, "no error is reported");
    ENSURE(got == code, "the error is '", got.message(), "' instead of '", std::make_error_code(code).message(), "'");
    ENSURE(data.compare(0, out.size(), out) == 0, "wrong data before the error");
    armed = false;
    attempt();
    ENSURE(!failed, "it fails again without an error of the service");
    ENSURE(op == "list" || out == data, "the data differs after the error");
    // Things that are not there.
    std::string missing = c.pick<std::string>({"s3://b/other", "s3://other/key", "s3://b/key/", "s3://b//key"});
    failed = false;
    try {
        S3_object{client, missing}.open_read();
    }
    catch (const std::system_error &e) {
        failed = e.code() == std::errc::no_such_file_or_directory;
    }
    ENSURE(failed, "an object that does not exist can be opened");
}

// How clients are made; more than once.
PBT_TEST_W(C33, clients, 0.5)
{
    World w;
    auto &sv = w.service;
    if (c.flag()) {
        initialize_aws_sdk();
    }
    std::size_t n = 1 + c.draw(3);
    c.nontrivial(n > 1);
    for (std::size_t i = 0; i < n; i++) {
        S3_client_options o{};
        std::string none;
        auto any = [&](const char *s) {
            return c.flag() ? std::string_view{s} : std::string_view{};
        };
        if (c.flag()) {
            o.access_key_id = "id";
            o.secret_key = "the secret";
            o.session_token = any("token");
        }
        o.profile = any("profile");
        o.region = any("eu-north-1");
        o.use_https = c.flag();
        c.desc("key '", o.access_key_id, "' token '", o.session_token, "' profile '", o.profile, "' region '",
               o.region, "' https ", o.use_https, "; ");
        auto client = make_s3_client(o);
        bool own = !o.access_key_id.empty();
        ENSURE(sv.access_key == (own ? "id" : "default key"), "the key is ", sv.access_key);
        ENSURE(sv.secret_key == (own ? "the secret" : "default secret"), "the secret is ", sv.secret_key);
        ENSURE(sv.session_token == (own ? std::string{o.session_token} : "default token"), "the token is ",
               sv.session_token);
        ENSURE(sv.profile == o.profile, "the profile is ", sv.profile);
        ENSURE(o.region.empty() || sv.region == o.region, "the region is ", sv.region);
        ENSURE(sv.https == o.use_https, "https is ", sv.https);
    }
    deallocate_aws_sdk();
}

namespace {

// The order of the features of a message is arbitrary.
Epoch epoch_of(Data_reader &r)
{
    Epoch e = read_epoch(r);
    for (auto &x : e.examples) {
        std::sort(x.columns.begin(), x.columns.end(), [](auto &a, auto &b) {
            return a.name < b.name;
        });
    }
    return e;
}

}  // namespace

// Readers of objects deliver the same examples as readers of memory.
PBT_TEST(C33, readers)
{
    World w;
    auto &sv = w.service;
    auto n = any_numbered(c, 30);
    Data_reader_params p;
    p.batch_size = 1 + c.size(8);
    n.fill(c, p, false);
    any_buffer_sizes(c);
    std::vector<Intrusive_ptr<Data_store>> memory = p.dataset;
    auto expected = epoch_of(*n.make(p));
    auto &keys = sv.buckets["data"];
    bool versions = c.flag();
    std::size_t short_bodies = c.flag() ? 1 + c.draw(100) : 0;
    if (short_bodies != 0) {
        sv.body_size = [&](std::size_t have) {
            return std::min<std::size_t>(have, 1 + sv.num_requests * 13 % short_bodies);
        };
    }
    auto client = any_client(c);
    for (std::size_t i = 0; i < memory.size(); i++) {
        std::string content;
        auto s = memory[i]->open_read();
        while (true) {
            auto m = s->read(1000);
            if (m.empty()) {
                break;
            }
            content += to_string(m);
        }
        std::string key = "part-" + std::to_string(i);
        bool gz = c.flag();
        if (gz) {
            key += ".gz";
            content = deflate(content, 6, true);
        }
        std::string version = "v" + std::to_string(i);
        keys[key].push_back({version, content});
        if (versions) {
            keys[key].push_back({"newer", "something else"});
        }
        p.dataset[i] = make_intrusive<S3_object>(client, "s3://data/" + key, versions ? version : "");
    }
    if (!versions && memory.size() > 1 && c.flag()) {
        p.dataset = list_s3_objects(*client, "s3://data/part-");
        c.tag("listed");
    }
    c.desc(n.show(), " batch ", p.batch_size, " versions ", versions, " short bodies ", short_bodies);
    c.nontrivial(n.total > p.batch_size);
    auto reader = n.make(p);
    for (int i = 0; i < 2; i++) {
        auto e = epoch_of(*reader);
        ENSURE(e.failed == expected.failed, "reading ends with ", e.error);
        ENSURE(e.examples == expected.examples, "got ", show(e.examples), " instead of ", show(expected.examples));
        reader->reset();
    }
}

#endif
