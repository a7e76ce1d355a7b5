// C13: inflating returns the original bytes or an error.
#include "support.h"

#include <sys/mman.h>
#include <zlib.h>

using namespace mlio;
using namespace pbt;

namespace {

std::string any_content(Case &c)
{
    std::string s;
    switch (c.weighted({1, 4, 3, 2})) {
    case 0:
        return s;
    case 1: {  // literal text
        std::size_t n = c.size(60);
        for (std::size_t i = 0; i < n; i++) {
            s += static_cast<char>(c.draw(255));
        }
        return s;
    }
    case 2: {  // runs: long matches
        std::size_t n = 1 + c.draw(6);
        for (std::size_t i = 0; i < n; i++) {
            std::string unit;
            std::size_t k = 1 + c.draw(3);
            for (std::size_t j = 0; j < k; j++) {
                unit += static_cast<char>('a' + c.draw(25));
            }
            std::size_t rep = c.size(3000);
            for (std::size_t j = 0; j < rep; j++) {
                s += unit;
            }
        }
        return s;
    }
    default: {  // incompressible
        auto r = c.rng();
        std::size_t n = c.size(c.chance(1, 8) ? 60000 : 3000);
        s.resize(n);
        for (auto &ch : s) {
            ch = static_cast<char>(r());
        }
        return s;
    }
    }
}

struct Compressed {
    std::string bytes;
    std::string plain;
    std::size_t members{};
    std::vector<std::size_t> ends;  // where a prefix is a complete sequence of members
    std::vector<std::size_t> cuts;  // ends of headers and flushed blocks
    bool all_gzip = true;
};

// A member with all that the formats allow: flushed blocks, any strategy and
// window, and gzip headers with extra fields.
std::string any_member(Case &c, const std::string &p, bool gz, std::size_t base,
                       std::vector<std::size_t> &cuts)
{
    int level = static_cast<int>(c.draw(9));
    if (c.chance(1, 2)) {
        return deflate(p, level, gz);
    }
    z_stream z{};
    int window = 15 - static_cast<int>(c.draw(6));
    int strategy = c.pick<int>({Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED});
    if (::deflateInit2(&z, level, Z_DEFLATED, window + (gz ? 16 : 0),
                       1 + static_cast<int>(c.draw(8)), strategy) != Z_OK) {
        throw std::runtime_error("harness: deflateInit2");
    }
    gz_header h{};
    std::string extra(c.draw(20), 'e');
    if (gz && c.flag()) {
        h.text = static_cast<int>(c.draw(1));
        h.time = c.draw(UINT32_MAX);
        h.os = static_cast<int>(c.draw(255));
        if (c.flag()) {
            h.extra = reinterpret_cast<Bytef *>(extra.data());
            h.extra_len = static_cast<uInt>(extra.size());
        }
        static Bytef name[] = "name.csv";
        static Bytef comment[] = "comment";
        h.name = c.flag() ? name : nullptr;
        h.comment = c.flag() ? comment : nullptr;
        h.hcrc = static_cast<int>(c.draw(1));
        ::deflateSetHeader(&z, &h);
    }
    std::string out(::deflateBound(&z, p.size()) + 1000 + p.size() / 8, '\0');
    z.next_out = reinterpret_cast<Bytef *>(out.data());
    z.avail_out = static_cast<uInt>(out.size());
    std::size_t pos = 0;
    std::size_t flushes = c.draw(4);
    for (std::size_t i = 0; i <= flushes; i++) {
        std::size_t n = i == flushes ? p.size() - pos : c.draw(p.size() - pos);
        z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(p.data() + pos));
        z.avail_in = static_cast<uInt>(n);
        pos += n;
        int mode = i == flushes ? Z_FINISH
                                : c.pick<int>({Z_FULL_FLUSH, Z_SYNC_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK});
        int r = ::deflate(&z, mode);
        if ((i == flushes) != (r == Z_STREAM_END) || (i < flushes && r != Z_OK && r != Z_BUF_ERROR)) {
            throw std::runtime_error("harness: deflate");
        }
        cuts.push_back(base + z.total_out);
    }
    out.resize(z.total_out);
    ::deflateEnd(&z);
    c.desc("[", flushes, " flushes, window ", window, "] ");
    return out;
}

Compressed any_compressed(Case &c)
{
    Compressed r;
    r.members = c.weighted({5, 3, 1, 1}) + 1;
    for (std::size_t i = 0; i < r.members; i++) {
        std::string p = any_content(c);
        bool gz = !c.chance(1, 4);
        r.all_gzip = r.all_gzip && gz;
        r.cuts.push_back(r.bytes.size() + (gz ? 10 : 2));
        r.bytes += any_member(c, p, gz, r.bytes.size(), r.cuts);
        r.plain += p;
        r.ends.push_back(r.bytes.size());
        c.desc(gz ? "gz" : "zlib", "(", p.size(), ":", quote(p, 24), ") ");
    }
    return r;
}

std::vector<std::size_t> any_sizes(Case &c, std::size_t total)
{
    std::vector<std::size_t> v;
    std::size_t n = 1 + c.draw(3);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t s;
        switch (c.draw(3)) {
        case 0:
            s = 1 + c.draw(3);
            break;
        case 1:
            s = 1 + c.draw(40);
            break;
        case 2:
            s = 1 + c.draw(5000);
            break;
        default:
            s = total + 1;
            break;
        }
        // Keep a case below some thousands of calls.
        v.push_back(std::max(s, total / 3000 + 1));
    }
    return v;
}

// Reads until the stream returns nothing or throws.
std::string drain(Case &c, Input_stream &s, std::size_t total, std::string &error)
{
    auto sizes = any_sizes(c, total);
    bool as_slice = c.chance(1, 3);
    bool empty_reads = c.chance(1, 4);
    c.desc(" reads=", join(sizes), as_slice ? " slices" : "");
    std::string out;
    std::vector<std::pair<Memory_slice, std::size_t>> kept;
    error = kind_of_error([&] {
        for (std::size_t i = 0;; i++) {
            std::size_t want = sizes[i % sizes.size()];
            std::size_t got;
            if (empty_reads && i % 3 == 0) {
                ENSURE(s.read(Mutable_memory_span{}) == 0, "an empty read returned data");
            }
            if (as_slice) {
                auto sl = s.read(want);
                got = sl.size();
                ENSURE(got <= want, "a read of ", want, " bytes returned ", got);
                if (kept.size() < 50) {
                    kept.emplace_back(sl, out.size());
                }
                out += to_string(sl);
            }
            else {
                std::vector<std::byte> buf(want + 1, std::byte{0xEE});
                got = s.read(Mutable_memory_span{buf.data(), want});
                ENSURE(got <= want, "a read of ", want, " bytes returned ", got);
                ENSURE(buf[want] == std::byte{0xEE}, "a byte behind the destination was written");
                out.append(reinterpret_cast<const char *>(buf.data()), got);
            }
            ENSURE(out.size() <= total * 4 + 10000000, "the stream does not end");
            if (got == 0) {
                break;
            }
        }
        for (int k = 0; k < 2; k++) {
            std::byte b{};
            ENSURE(s.read(Mutable_memory_span{&b, 1}) == 0, "data after the end of the stream");
        }
    });
    for (auto &[sl, at] : kept) {
        ENSURE(to_string(sl) == out.substr(at, sl.size()), "a slice changed after it was returned");
    }
    return out;
}

Intrusive_ptr<Input_stream> source(Case &c, const std::string &bytes)
{
    auto data = std::make_shared<std::string>(bytes);
    switch (c.weighted({3, 4, 1})) {
    case 0:
        c.desc(" from memory");
        return make_intrusive<Memory_input_stream>(slice_of(bytes));
    case 1: {
        auto plan = any_plan(c, c.flag());
        for (auto &n : plan.max_reads) {
            n = std::max(n, bytes.size() / 3000 + 1);
        }
        c.desc(" from stream", join(plan.max_reads));
        return make_intrusive<Test_stream>(data, plan);
    }
    default: {
        auto p = scratch_path("x.gz");
        write_file(p, bytes);
        c.desc(" from file");
        return make_intrusive<File_input_stream>(p);
    }
    }
}

void buffers(Case &c, std::size_t total)
{
    if (c.chance(3, 4)) {
        mlio::verif::inflate_buffer_size =
            std::max<std::size_t>(1 + c.draw(c.flag() ? 30 : 400), total / 3000 + 1);
    }
    c.desc(" buffer=", mlio::verif::inflate_buffer_size);
}

}  // namespace

PBT_TEST_W(C13, round_trip, 2)
{
    auto z = any_compressed(c);
    buffers(c, z.bytes.size());
    c.nontrivial(z.members > 1 || z.bytes.size() > mlio::verif::inflate_buffer_size ||
                 z.plain.size() > 100);
    Gzip_inflate_stream s{source(c, z.bytes)};
    std::string err;
    std::string out = drain(c, s, z.plain.size(), err);
    ENSURE(err.empty(), "an intact stream was refused: ", err);
    ENSURE(out == z.plain, "got ", out.size(), " bytes ", quote(out, 60), " instead of ",
           z.plain.size(), " ", quote(z.plain, 60));
}

// A destination may be larger than zlib can count. It takes address space only.
PBT_TEST_W(C13, huge_destination, 0.05)
{
    auto z = any_compressed(c);
    std::size_t size = (std::size_t{1} << 32) * (1 + c.draw(1)) +
                       (c.flag() ? c.draw(100) : c.draw(100000));
    c.desc(" read of ", size);
    c.nontrivial(!z.plain.empty());
    void *p = ::mmap(nullptr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        c.discard();
    }
    auto *mem = static_cast<std::byte *>(p);
    Gzip_inflate_stream s{source(c, z.bytes)};
    std::string out;
    std::string err = kind_of_error([&] {
        for (std::size_t i = 0; i < 100000; i++) {
            std::size_t n = s.read(Mutable_memory_span{mem, size});
            if (n == 0) {
                return;
            }
            ENSURE(n <= z.plain.size() - out.size(), "a read returned ", n, " bytes of ",
                   z.plain.size() - out.size());
            out.append(reinterpret_cast<const char *>(mem), n);
        }
        fail("the stream does not end");
    });
    ::munmap(p, size);
    ENSURE(err.empty(), "an intact stream was refused: ", err);
    ENSURE(out == z.plain, "content differs");
}

PBT_TEST(C13, truncated)
{
    auto z = any_compressed(c);
    // An empty file is accepted as an empty stream, so at least one byte is left.
    std::size_t cut = c.draw(1) == 0 ? 1 + c.draw(z.bytes.size() - 2)
                                     : z.bytes.size() - 1 - c.draw(std::min<std::size_t>(
                                                                z.bytes.size() - 2, 20));
    if (c.chance(1, 3)) {
        cut = std::min(c.pick(z.cuts), z.bytes.size() - 1);
    }
    for (std::size_t e : z.ends) {
        if (cut == e) {
            cut--;  // a prefix of whole members is a complete stream
        }
    }
    buffers(c, z.bytes.size());
    c.desc(" cut at ", cut, " of ", z.bytes.size());
    c.nontrivial(cut > 0);
    Gzip_inflate_stream s{source(c, z.bytes.substr(0, cut))};
    std::string err;
    std::string out = drain(c, s, z.plain.size(), err);
    ENSURE(!err.empty(), "a truncated stream was taken for a complete one, ", out.size(), " of ",
           z.plain.size(), " bytes");
    ENSURE(err == "inflate" || err == "stream", "error kind ", err);
    ENSURE(z.plain.compare(0, out.size(), out) == 0, "wrong bytes before the error: ",
           quote(out, 60));
}

PBT_TEST(C13, damaged)
{
    auto z = any_compressed(c);
    if (!z.all_gzip) {
        c.discard();  // the Adler sum of a zlib stream is too weak an oracle
    }
    std::string bytes = z.bytes;
    std::size_t at = c.draw(bytes.size() - 1);
    if (c.flag()) {
        at = bytes.size() - 1 - c.draw(std::min<std::size_t>(bytes.size() - 1, 12));
    }
    bytes[at] = static_cast<char>(bytes[at] ^ (1 + c.draw(254)));
    if (c.chance(1, 4)) {
        bytes += static_cast<char>(1 + c.draw(200));
    }
    buffers(c, z.bytes.size());
    c.desc(" damaged at ", at, " of ", bytes.size());
    c.nontrivial();
    Gzip_inflate_stream s{source(c, bytes)};
    std::string err;
    std::string out = drain(c, s, z.plain.size(), err);
    if (err.empty()) {
        // The name, time stamp etc. in the header are not covered by a checksum.
        ENSURE(out == z.plain, "damaged data was returned as good: ", quote(out, 60));
        c.tag("damage outside the checksum");
    }
    else {
        ENSURE(err == "inflate" || err == "stream", "error kind ", err);
        std::byte b{};
        ENSURE(kind_of_error([&] {
                   s.read(Mutable_memory_span{&b, 1});
               }) != "",
               "reading on after damage succeeds");
    }
}

// What follows intact members is not compressed, or needs a dictionary.
PBT_TEST_W(C13, not_inflatable, 0.5)
{
    Compressed z;
    if (c.flag()) {
        z = any_compressed(c);
    }
    std::string more;
    switch (c.draw(2)) {
    case 0: {  // a preset dictionary
        std::string dictionary = "a dictionary of words" + std::string(c.draw(50), 'x');
        std::string plain = dictionary.substr(c.draw(10)) + std::string(c.draw(300), 'y');
        z_stream s{};
        ENSURE(::deflateInit(&s, 1 + static_cast<int>(c.draw(8))) == Z_OK, "harness");
        ENSURE(::deflateSetDictionary(&s, reinterpret_cast<const Bytef *>(dictionary.data()),
                                      static_cast<uInt>(dictionary.size())) == Z_OK,
               "harness");
        more.resize(::deflateBound(&s, plain.size()) + 100);
        s.next_in = reinterpret_cast<Bytef *>(plain.data());
        s.avail_in = static_cast<uInt>(plain.size());
        s.next_out = reinterpret_cast<Bytef *>(more.data());
        s.avail_out = static_cast<uInt>(more.size());
        ENSURE(::deflate(&s, Z_FINISH) == Z_STREAM_END, "harness");
        more.resize(s.total_out);
        ::deflateEnd(&s);
        c.desc("with a dictionary ");
        break;
    }
    case 1:  // plain text, which no header looks like
        more = "not compressed\n" + std::string(c.draw(100), 'z');
        c.desc("plain text ");
        break;
    default:  // gzip with an unknown method or reserved flags
        more = deflate("some text", 6, true);
        more[c.flag() ? 2 : 3] = static_cast<char>(c.flag() ? 0xe0 : 0x20 * (1 + c.draw(6)));
        c.desc("a header of the future ");
        break;
    }
    std::string bytes = z.bytes + more;
    buffers(c, bytes.size());
    c.nontrivial();
    Gzip_inflate_stream s{source(c, bytes)};
    std::string err;
    std::string out = drain(c, s, z.plain.size(), err);
    ENSURE(err == "inflate", "the data was accepted with ", out.size(), " bytes, error '", err, "'");
    ENSURE(z.plain.compare(0, out.size(), out) == 0, "wrong bytes before the error: ", quote(out, 60));
}

PBT_TEST_W(C13, through_stores, 0.7)
{
    // The stores apply decompression; opened twice, read by different sizes.
    auto z = any_compressed(c);
    buffers(c, z.bytes.size());
    Intrusive_ptr<Data_store> store;
    std::size_t kind = c.draw(2);
    if (kind == 0) {
        store = make_intrusive<In_memory_store>(slice_of(z.bytes), Compression::gzip);
    }
    else {
        auto p = scratch_path(c.flag() ? "x.gz" : "x.csv.gz");
        write_file(p, z.bytes);
        store = make_intrusive<File>(p, kind == 1);
    }
    c.desc(" store ", kind);
    c.nontrivial(z.plain.size() > 10);
    auto a = store->open_read();
    auto b = store->open_read();
    std::string ea, eb;
    std::string oa = drain(c, *a, z.plain.size(), ea);
    std::string ob = drain(c, *b, z.plain.size(), eb);
    ENSURE(ea.empty() && eb.empty(), "an intact store was refused: ", ea, eb);
    ENSURE(oa == z.plain && ob == z.plain, "content differs");
    a->close();
    ENSURE(a->closed(), "not closed");
    std::byte x{};
    ENSURE(kind_of_error([&] {
               a->read(Mutable_memory_span{&x, 1});
           }) == "stream",
           "reading a closed stream");
}
