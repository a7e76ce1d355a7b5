// C16: concatenated Parquet files are split at the true file boundaries.
#include <mlio/record_readers/parquet_record_reader.h>

#include "encode.h"
#include "support.h"

using namespace mlio;
using namespace pbt;
using mlio::detail::Parquet_record_reader;

namespace {

std::uint32_t u32_at(const std::string &s, std::size_t i)
{
    std::uint32_t v{};
    std::memcpy(&v, s.data() + i, 4);
    return v;
}

bool header_byte(unsigned char b)
{
    return b == 0x15 || b == 0x29 || b == 0x36 || b == 0x49 || b == 0x59 || b == 0x68 || b == 0x79;
}

// Whether s[0, end) could itself be a whole file by its framing: the magic
// number, and before it the length of metadata that fits and looks like a
// Thrift Compact struct. Such a body cannot be told from a file.
bool framed(const std::string &s, std::size_t end)
{
    if (end < 12 || s.compare(end - 4, 4, "PAR1") != 0) {
        return false;
    }
    std::size_t n = u32_at(s, end - 8);
    return n >= 9 && n + 12 <= end && s[end - 9] == 0 &&
           header_byte(static_cast<unsigned char>(s[end - 8 - n]));
}

std::string noise(Case &c, std::size_t n)
{
    std::string s;
    auto g = c.rng();
    bool text = c.flag();
    for (std::size_t i = 0; i < n; i++) {
        s += static_cast<char>(text ? "PAR1\0\x15z"[g() % 7] : static_cast<char>(g()));
    }
    return s;
}

std::string any_file(Case &c)
{
    std::string s = "PAR1";
    std::size_t parts = c.size(6);
    for (std::size_t i = 0; i < parts; i++) {
        switch (c.weighted({4, 2, 2, 2, 2, 1})) {
        case 0:
            s += noise(c, c.size(60));
            break;
        case 1:
            s += "PAR1";
            break;
        case 2: {
            // Almost a footer: the length does not fit.
            s += std::string(9, '\0');
            put_u32(s, static_cast<std::uint32_t>(c.flag() ? s.size() - 3 + c.draw(20)
                                                           : 0x80000000u + c.draw(0x7fffffff)));
            s += "PAR1";
            break;
        }
        case 3: {
            // The metadata is too short, does not end with the stop field, or
            // does not begin with a field.
            std::size_t n = 9 + c.draw(20);
            std::string m = "\x15" + std::string(n - 1, '\0');
            std::size_t len = n;
            switch (c.draw(2)) {
            case 0:
                m.back() = static_cast<char>(1 + c.draw(254));
                break;
            case 1:
                m[0] = c.pick<char>({'\x14', '\x16', '\0', 'P', '\x28', '\x7a', '\x78'});
                break;
            default:
                len = c.draw(8);
                break;
            }
            s += m;
            put_u32(s, static_cast<std::uint32_t>(len));
            s += "PAR1";
            break;
        }
        case 4:
            s += c.pick<const char *>({"PAR", "PARPAR1", "PAR1PAR1", "1PAR", "RAP1"});
            break;
        default:
            s += noise(c, c.size(20000));
            break;
        }
    }
    std::string m;
    m += c.pick<char>({'\x15', '\x15', '\x15', '\x29', '\x36', '\x49', '\x59', '\x68', '\x79'});
    std::size_t n = c.chance(1, 3) ? 7 : 7 + c.size(c.chance(1, 6) ? 2000 : 40);
    std::string rest = noise(c, n);
    if (c.chance(1, 4) && n >= 12) {
        rest.replace(c.draw(n - 4), 4, "PAR1");
    }
    m += rest;
    m += '\0';
    s += m;
    put_u32(s, static_cast<std::uint32_t>(m.size()));
    s += "PAR1";
    // Leave out what cannot be told from a shorter file.
    for (std::size_t e = 12; e < s.size(); e++) {
        if (framed(s, e)) {
            c.discard();
        }
    }
    return s;
}

Intrusive_ptr<Record_reader> open(Case &c, const std::string &data, std::string *how)
{
    Delivery del = any_delivery(c);
    any_buffer_sizes(c);
    if (c.flag()) {
        mlio::verif::chunk_size = 12 + c.draw(60);
    }
    *how = std::string(" via ") + name_of(del) + " chunk=" + std::to_string(mlio::verif::chunk_size);
    return make_intrusive<Parquet_record_reader>(make_store(c, data, del)->open_read());
}

std::vector<std::string> read_some(Case &c, Record_reader &r, std::string *kind)
{
    std::vector<Record> kept;
    std::vector<std::string> out;
    bool peeks = c.flag();
    *kind = kind_of_error([&] {
        for (;;) {
            std::optional<Record> p;
            std::size_t n = peeks ? c.draw(2) : 0;
            for (std::size_t i = 0; i < n; i++) {
                p = r.peek_record();
            }
            std::optional<Record> q = r.read_record();
            if (n > 0) {
                ENSURE(p.has_value() == q.has_value(), "peek and read disagree about the end");
                ENSURE(!p || to_string(p->payload()) == to_string(q->payload()),
                       "peek and read return different records");
            }
            if (!q) {
                ENSURE(!r.read_record() && !r.peek_record(), "a record after the end");
                break;
            }
            ENSURE(q->kind() == Record_kind::complete, "kind");
            out.push_back(to_string(q->payload()));
            kept.push_back(std::move(*q));
        }
    });
    // What was returned earlier is still the same.
    for (std::size_t i = 0; i < kept.size(); i++) {
        ENSURE(to_string(kept[i].payload()) == out[i], "record ", i, " has been overwritten");
    }
    return out;
}

void check_prefix(const std::vector<std::string> &got, const std::vector<std::string> &files,
                  std::size_t num)
{
    for (std::size_t i = 0; i < got.size() && i < num; i++) {
        ENSURE(got[i] == files[i], "file ", i, " of ", files[i].size(), " bytes is read as ",
               got[i].size(), " bytes: ", quote(got[i]));
    }
    ENSURE(got.size() == num, got.size(), " files instead of ", num);
}

}  // namespace

PBT_TEST(C16, split_at_boundaries)
{
    std::size_t n = c.size(6);
    std::vector<std::string> files;
    std::string all;
    bool embedded = false;
    for (std::size_t i = 0; i < n; i++) {
        files.push_back(any_file(c));
        all += files.back();
        embedded = embedded || files.back().find("PAR1", 4) < files.back().size() - 4;
    }
    std::string how;
    auto r = open(c, all, &how);
    std::string sizes;
    for (auto &f : files) {
        sizes += " " + std::to_string(f.size());
    }
    c.desc(n, " files of", sizes, " bytes", how, ": ", quote(all, 600));
    c.nontrivial(n > 1 && embedded);
    std::string kind;
    auto got = read_some(c, *r, &kind);
    ENSURE(kind.empty(), "reading ends with '", kind, "' after ", got.size(), " files");
    check_prefix(got, files, n);
}

PBT_TEST(C16, corruption_is_reported)
{
    std::size_t n = c.size(3);
    std::vector<std::string> files;
    std::string all;
    for (std::size_t i = 0; i < n; i++) {
        files.push_back(any_file(c));
        all += files.back();
    }
    std::string bad = any_file(c);
    const char *what{};
    switch (c.draw(4)) {
    case 0: {
        what = "cut short";
        bad.resize(1 + c.draw(bad.size() - 2));
        break;
    }
    case 1: {
        what = "no leading magic number";
        std::size_t i = c.draw(3);
        bad[i] = static_cast<char>(bad[i] ^ static_cast<char>(1 + c.draw(254)));
        // Followed by more or not.
        if (c.flag()) {
            bad += any_file(c);
        }
        break;
    }
    case 2: {
        what = "no trailing magic number";
        std::size_t i = bad.size() - 4 + c.draw(3);
        bad[i] = static_cast<char>(bad[i] ^ static_cast<char>(1 + c.draw(254)));
        break;
    }
    case 3: {
        what = "bad footer";
        // The length does not fit the file.
        std::string len;
        put_u32(len, static_cast<std::uint32_t>(c.flag() ? bad.size() - 11 + c.draw(100) : c.draw(8)));
        bad.replace(bad.size() - 8, 4, len);
        break;
    }
    default:
        what = "trailing bytes";
        bad = c.pick<const char *>({"P", "PAR", "PAR1", "PAR1PAR1", "x", "\n", "xPAR1", "PAR1xxxxxxx"});
        break;
    }
    for (std::size_t e = 12; e <= bad.size(); e++) {
        if (framed(bad, e) && bad.compare(0, 4, "PAR1") == 0) {
            c.discard();
        }
    }
    all += bad;
    std::string how;
    auto r = open(c, all, &how);
    c.desc(what, " after ", n, " files", how, ": ", quote(bad), " of ", bad.size(), " bytes");
    c.tag(what);
    c.nontrivial();
    std::string kind;
    auto got = read_some(c, *r, &kind);
    check_prefix(got, files, n);
    ENSURE(kind == "corrupt_header" || kind == "corrupt_footer", "reading ends with '", kind, "'");
    bool header = bad.size() < 4 || bad.compare(0, 4, "PAR1") != 0;
    ENSURE(kind == (header ? "corrupt_header" : "corrupt_footer"), "reported as '", kind, "'");
    // It does not yield anything afterwards either.
    auto again = read_some(c, *r, &kind);
    ENSURE(again.empty(), "a record after the error: ", quote(again[0]));
    ENSURE(!kind.empty(), "the end after the error");
}
