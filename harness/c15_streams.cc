// C15: input streams behave as a byte sequence with a position.
#include <mlio/memory/file_mapped_memory_block.h>
#include <mlio/streams/file_input_stream.h>
#include <mlio/streams/memory_input_stream.h>
#include <mlio/streams/stream_error.h>
#include <mlio/streams/utf8_input_stream.h>

#include "support.h"

using namespace mlio;
using namespace pbt;

namespace {

std::string any_bytes(Case &c)
{
    std::size_t n{};
    switch (c.weighted({6, 3, 1, 1})) {
    case 0:
        n = c.size(40);
        break;
    case 1:
        n = c.size(2000);
        break;
    case 2:
        n = c.pick<std::size_t>({4095, 4096, 4097, 8192, 65536, 65537, 131072});
        break;
    default:
        n = c.size(200000);
        break;
    }
    auto g = c.rng();
    std::string s;
    s.reserve(n);
    for (std::size_t i = 0; i < n; i++) {
        s += static_cast<char>(g());
    }
    return s;
}

enum class Kind {
    memory_store,
    file_store,
    mapped_store,
    memory_stream,
    file_stream,
    mapped_stream,
    utf8_over_memory,
    utf8_over_file,
    gzip
};

const char *name_of(Kind k)
{
    return std::array<const char *, 9>{"In_memory_store",
                                       "File",
                                       "mapped File",
                                       "Memory_input_stream",
                                       "File_input_stream",
                                       "mapped block",
                                       "utf8 over memory",
                                       "utf8 over file",
                                       "gzip"}[static_cast<int>(k)];
}

Intrusive_ptr<Input_stream> open(Case &c, Kind k, const std::string &data)
{
    auto file = [&] {
        std::string path = scratch_path("data");
        write_file(path, data);
        return path;
    };
    switch (k) {
    case Kind::memory_store:
        return make_intrusive<In_memory_store>(slice_of(data))->open_read();
    case Kind::file_store:
        return make_intrusive<File>(file(), false, Compression::none)->open_read();
    case Kind::mapped_store:
        return make_intrusive<File>(file(), true, Compression::none)->open_read();
    case Kind::memory_stream: {
        // A slice out of the middle of a block.
        std::size_t before = c.draw(8);
        Memory_slice s = slice_of(std::string(before, 'B') + data + std::string(c.draw(8), 'A'));
        return make_intrusive<Memory_input_stream>(s.subslice(before).first(data.size()));
    }
    case Kind::file_stream:
        return make_intrusive<File_input_stream>(file());
    case Kind::mapped_stream: {
        std::string path = file();
        auto b = make_intrusive<File_mapped_memory_block>(path);
        return make_intrusive<Memory_input_stream>(Memory_slice{std::move(b)});
    }
    case Kind::utf8_over_memory:
        return make_utf8_stream(make_intrusive<In_memory_store>(slice_of(data))->open_read(),
                                Text_encoding::utf8);
    case Kind::utf8_over_file:
        return make_utf8_stream(make_intrusive<File>(file(), c.flag(), Compression::none)->open_read(),
                                Text_encoding::utf8);
    default:
        return make_intrusive<In_memory_store>(slice_of(deflate(data, 1 + static_cast<int>(c.draw(8)), true)),
                                               Compression::gzip)
            ->open_read();
    }
}

std::uint64_t any_position(Case &c, std::size_t size)
{
    switch (c.weighted({6, 2, 2, 2})) {
    case 0:
        return c.draw(size);
    case 1:
        return size + c.draw(3);
    case 2:
        return c.pick<std::uint64_t>({UINT64_MAX, UINT64_MAX - 1, std::uint64_t{1} << 63,
                                      (std::uint64_t{1} << 63) - 1, std::uint64_t{1} << 62,
                                      std::uint64_t{1} << 32, std::uint64_t{1} << 47});
    default:
        return c.bits64();
    }
}

struct Kept {
    Memory_slice slice;
    std::string want;
};

// One history of calls against the model of a byte sequence with a position.
void history(Case &c, Kind k, Input_stream &s, const std::string &data, std::vector<Kept> &kept,
             std::ostringstream &log)
{
    bool seekable = k != Kind::gzip;
    std::size_t pos = 0;
    bool closed = false;
    std::size_t n = 1 + c.size(40);
    bool slices_allowed = true;
    for (std::size_t i = 0; i < n; i++) {
        std::size_t op = closed ? c.weighted({2, 2, 2, 2, 2, 2}) : c.weighted({6, 6, 3, 2, 1, n > 4 ? 0u : 1u});
        if (!closed && i > 3 && c.chance(1, 20)) {
            op = 5;
        }
        std::string kind;
        switch (op) {
        case 0: {
            std::size_t len = c.weighted({1, 6, 2}) == 0 ? 0
                              : c.flag()                 ? c.size(30)
                                                         : c.size(data.size() + 10);
            std::vector<std::byte> b(len + 4, std::byte{0x77});
            std::size_t got{};
            log << " read(span " << len << ")";
            kind = kind_of_error([&] { got = s.read(Mutable_memory_span{b.data(), len}); });
            log << (kind.empty() ? "=" + std::to_string(got) : "!" + kind);
            if (closed) {
                break;
            }
            ENSURE(kind.empty(), "reading fails with '", kind, "'", log.str());
            ENSURE(got <= len, log.str());
            ENSURE(got <= data.size() - pos, "more than there is", log.str());
            ENSURE(got != 0 || len == 0 || pos == data.size(), "nothing is read before the end", log.str());
            ENSURE(data.compare(pos, got, reinterpret_cast<const char *>(b.data()), got) == 0,
                   "other bytes at ", pos, log.str());
            for (std::size_t j = got; j < b.size(); j++) {
                ENSURE(b[j] == std::byte{0x77}, "byte ", j, " beyond those read is overwritten", log.str());
            }
            pos += got;
            break;
        }
        case 1: {
            std::size_t len = c.flag() ? c.size(30) : c.size(data.size() + 10);
            bool memory = s.supports_zero_copy();
            if (memory && c.chance(1, 6)) {
                len = any_position(c, data.size());
            }
            Memory_slice sl;
            log << " read(" << len << ")";
            kind = kind_of_error([&] { sl = s.read(len); });
            log << (kind.empty() ? "=" + std::to_string(sl.size()) : "!" + kind);
            if (closed) {
                break;
            }
            ENSURE(kind.empty(), "reading fails with '", kind, "'", log.str());
            ENSURE(sl.size() <= len, log.str());
            ENSURE(sl.size() <= data.size() - pos, "more than there is", log.str());
            ENSURE(!sl.empty() || len == 0 || pos == data.size(), "nothing is read before the end",
                   log.str());
            std::string want = data.substr(pos, sl.size());
            ENSURE(to_string(sl) == want, "other bytes at ", pos, log.str());
            pos += sl.size();
            kept.push_back({sl, want});
            break;
        }
        case 2: {
            std::uint64_t to = any_position(c, data.size());
            log << " seek(" << to << ")";
            kind = kind_of_error([&] { s.seek(to); });
            log << (kind.empty() ? "" : "!" + kind);
            if (closed) {
                break;
            }
            if (seekable) {
                ENSURE(kind.empty(), "seeking fails with '", kind, "'", log.str());
                pos = std::min<std::uint64_t>(to, data.size());
            }
            else {
                ENSURE(kind == "not_supported", "seeking ends with '", kind, "'", log.str());
            }
            break;
        }
        case 3: {
            std::size_t got{};
            log << " position";
            kind = kind_of_error([&] { got = s.position(); });
            log << (kind.empty() ? "=" + std::to_string(got) : "!" + kind);
            if (closed) {
                break;
            }
            if (seekable) {
                ENSURE(kind.empty() && got == pos, "the position is ", pos, log.str());
            }
            else {
                ENSURE(kind == "not_supported", "position() ends with '", kind, "'", log.str());
            }
            break;
        }
        case 4: {
            std::size_t got{};
            log << " size";
            kind = kind_of_error([&] { got = s.size(); });
            log << (kind.empty() ? "=" + std::to_string(got) : "!" + kind);
            if (closed) {
                break;
            }
            if (seekable) {
                ENSURE(kind.empty() && got == data.size(), "the size is ", data.size(), log.str());
            }
            else {
                ENSURE(kind == "not_supported", "size() ends with '", kind, "'", log.str());
            }
            break;
        }
        default:
            log << " close";
            s.close();
            closed = true;
            kind = "stream";
            break;
        }
        ENSURE(s.closed() == closed, "closed() is ", s.closed(), log.str());
        if (closed && (seekable || op < 2)) {
            ENSURE(kind == "stream", "after close: '", kind, "'", log.str());
        }
        if (!closed) {
            ENSURE(s.seekable() == seekable, "seekable", log.str());
        }
        if (kept.size() > 4 && c.chance(1, 8)) {
            kept.erase(kept.begin() + static_cast<std::ptrdiff_t>(c.draw(kept.size() - 1)));
        }
    }
    (void)slices_allowed;
    if (!closed && c.flag()) {
        s.close();
        log << " close";
    }
}

}  // namespace

PBT_TEST(C15, history)
{
    auto k = static_cast<Kind>(c.draw(8));
    std::string data = any_bytes(c);
    if (k == Kind::utf8_over_memory || k == Kind::utf8_over_file) {
        // The content does not matter, it is passed through.
    }
    any_buffer_sizes(c);
    c.desc(name_of(k), " of ", data.size(), " bytes");
    c.tag(name_of(k));
    std::vector<Kept> kept;
    std::ostringstream log;
    log << "\ncalls:";
    {
        auto s = open(c, k, data);
        history(c, k, *s, data, kept, log);
    }
    for (auto &x : kept) {
        ENSURE(to_string(x.slice) == x.want, "data handed out earlier has changed", log.str());
    }
    c.desc(log.str().substr(0, 600));
    c.nontrivial(data.size() > 1 && kept.size() > 1);
}

// Several streams over the same data do not influence each other.
PBT_TEST_W(C15, independent_streams, 0.5)
{
    std::string data = any_bytes(c);
    if (data.empty()) {
        data = "x";
    }
    Intrusive_ptr<Data_store> store;
    std::size_t k = c.draw(2);
    if (k == 0) {
        store = make_intrusive<In_memory_store>(slice_of(data));
    }
    else {
        std::string path = scratch_path("data");
        write_file(path, data);
        store = make_intrusive<File>(path, k == 2, Compression::none);
    }
    std::size_t n = 2 + c.draw(2);
    std::vector<Intrusive_ptr<Input_stream>> s;
    std::vector<std::size_t> pos(n, 0);
    for (std::size_t i = 0; i < n; i++) {
        s.push_back(store->open_read());
    }
    c.desc(k == 0 ? "In_memory_store" : k == 1 ? "File" : "mapped File", " of ", data.size(), " bytes, ", n,
           " streams:");
    std::vector<Kept> kept;
    std::size_t ops = 2 + c.size(20);
    for (std::size_t i = 0; i < ops; i++) {
        std::size_t j = c.draw(n - 1);
        if (!s[j]) {
            s[j] = store->open_read();
            pos[j] = 0;
            c.desc(" ", j, ":open");
        }
        switch (c.weighted({5, 2, 1, 1})) {
        case 0: {
            std::size_t len = 1 + c.size(data.size());
            Memory_slice sl = s[j]->read(len);
            c.desc(" ", j, ":read(", len, ")=", sl.size());
            ENSURE(sl.size() <= data.size() - pos[j] && (!sl.empty() || pos[j] == data.size()), "size");
            std::string want = data.substr(pos[j], sl.size());
            ENSURE(to_string(sl) == want, "stream ", j, " reads other bytes at ", pos[j]);
            kept.push_back({sl, want});
            pos[j] += sl.size();
            break;
        }
        case 1:
            pos[j] = c.draw(data.size());
            s[j]->seek(pos[j]);
            c.desc(" ", j, ":seek(", pos[j], ")");
            break;
        case 2:
            s[j]->close();
            s[j] = nullptr;
            c.desc(" ", j, ":close");
            break;
        default:
            s[j] = nullptr;
            c.desc(" ", j, ":drop");
            break;
        }
    }
    c.nontrivial(kept.size() > 1);
    s.clear();
    store = nullptr;
    for (auto &x : kept) {
        ENSURE(to_string(x.slice) == x.want, "data handed out earlier has changed");
    }
}

// Streams with only the calls every stream has still obey the model: a custom
// stream whose slices come from the base class.
PBT_TEST_W(C15, base_class_reads, 0.3)
{
    std::string data = any_bytes(c);
    std::string path = scratch_path("data");
    write_file(path, data);
    auto s = make_intrusive<File_input_stream>(path);
    std::size_t len = 1 + c.size(data.size() + 5);
    c.desc(data.size(), " bytes in slices of ", len);
    std::string got;
    std::size_t calls = 0;
    for (; calls < 3000; calls++) {
        Memory_slice sl = s->read(len);
        if (sl.empty()) {
            break;
        }
        ENSURE(sl.size() <= len, "too long");
        got += to_string(sl);
    }
    c.nontrivial(calls > 1);
    ENSURE(got == data.substr(0, got.size()) && (calls == 3000 || got.size() == data.size()),
           "the pieces do not add up to the data: ", got.size(), " of ", data.size());
}
