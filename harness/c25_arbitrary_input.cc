// C25: arbitrary input never corrupts memory, hangs or ends the process.
#include <cstdlib>
#include <limits>
#include <new>

#include "csv_model.h"
#include "encode.h"

#include <mlio/csv_reader.h>
#include <mlio/image_reader.h>
#include <mlio/record_readers/parquet_record_reader.h>
#include <mlio/record_readers/record_error.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/text_line_reader.h>

#include "mlio/record_readers/recordio_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"

using namespace mlio;
using namespace pbt;

// Datasets may claim sizes that no memory has. Such allocations fail.
namespace {

constexpr std::size_t max_allocation = 16U << 20U;
std::atomic<std::size_t> refused{};

void *allocate(std::size_t n)
{
    if (n > max_allocation) {
        refused++;
        throw std::bad_alloc{};
    }
    void *p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc{};
    }
    return p;
}

}  // namespace

void *operator new(std::size_t n)
{
    return allocate(n);
}
void *operator new[](std::size_t n)
{
    return allocate(n);
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}

namespace {

std::string random_bytes(Case &c, std::size_t n)
{
    std::string s(n, '\0');
    for (auto &ch : s) {
        ch = static_cast<char>(c.rng()());
    }
    return s;
}

std::string any_csv(Case &c, const Csv_dialect &d)
{
    std::string s;
    std::size_t rows = c.size(12);
    std::size_t cols = 1 + c.draw(4);
    for (std::size_t r = 0; r < rows; r++) {
        std::size_t k = c.chance(1, 10) ? c.draw(6) : cols;
        for (std::size_t i = 0; i < k; i++) {
            if (i > 0) {
                s += d.delim;
            }
            std::string f = c.flag() ? std::to_string(c.irange(-300, 70000)) : any_field(c, d);
            if (c.chance(1, 3)) {
                s += d.quote;
                for (char ch : f) {
                    s += ch;
                    if (ch == d.quote && !c.chance(1, 10)) {
                        s += ch;
                    }
                }
                if (!c.chance(1, 15)) {
                    s += d.quote;
                }
            }
            else {
                s += f;
            }
        }
        s += c.pick<const char *>({"\n", "\n", "\r\n", "\r", "\n\n", ""});
    }
    return s;
}

Pb_value any_pb_value(Case &c)
{
    Pb_value v;
    v.type = static_cast<Pb_type>(c.weighted({4, 4, 4, 1, 1}));
    std::size_t n = c.draw(4);
    for (std::size_t i = 0; i < n; i++) {
        v.values.push_back(static_cast<double>(c.irange(-100, 100)));
    }
    auto number = [&]() -> std::uint64_t {
        switch (c.weighted({10, 2, 1, 1, 1, 1})) {
        case 0:
            return c.draw(5);
        case 1:
            return c.draw(3000);
        case 2:
            return 1ULL << c.draw(63);
        case 3:
            return ~0ULL - c.draw(4);
        case 4:
            return (1ULL << 32U) - c.draw(3);
        default:
            return c.bits64();
        }
    };
    if (c.chance(1, 3)) {
        std::size_t k = c.flag() ? n : c.draw(5);
        for (std::size_t i = 0; i < k; i++) {
            v.keys.push_back(number());
        }
    }
    if (n > 0 && c.chance(1, 8)) {
        // The product of the dimensions is n only if it overflows.
        std::uint64_t m = 2 * c.draw(50) + 3;
        std::uint64_t inverse = m;
        for (int i = 0; i < 6; i++) {
            inverse *= 2 - m * inverse;
        }
        v.shape = {m, inverse * n};
    }
    else if (c.chance(1, 2)) {
        std::size_t k = c.draw(4);
        for (std::size_t i = 0; i < k; i++) {
            v.shape.push_back(number());
        }
    }
    v.packed = c.flag();
    return v;
}

std::string any_protobuf(Case &c)
{
    std::string s;
    std::size_t n = c.size(6);
    Pb_record first;
    for (std::size_t i = 0; i < n; i++) {
        Pb_record r;
        if (i > 0 && c.chance(2, 3)) {
            r = first;
            if (!r.features.empty() && c.flag()) {
                r.features[c.draw(r.features.size() - 1)].second = any_pb_value(c);
            }
        }
        else {
            std::size_t k = c.draw(3);
            for (std::size_t j = 0; j < k; j++) {
                r.features.emplace_back(c.pick<const char *>({"values", "a", "b", ""}),
                                        any_pb_value(c));
            }
            k = c.draw(1);
            for (std::size_t j = 0; j < k; j++) {
                r.labels.emplace_back(c.pick<const char *>({"values", "a"}), any_pb_value(c));
            }
            if (i == 0) {
                first = r;
            }
        }
        put_record(s, r.encode(), c.chance(1, 6) ? static_cast<unsigned>(c.draw(7)) : 0);
    }
    return s;
}

std::string any_image(Case &c)
{
    int w = static_cast<int>(c.draw(9));
    int h = static_cast<int>(c.draw(9));
    bool grey = c.flag();
    std::vector<std::uint8_t> px(static_cast<std::size_t>(w * h * (grey ? 1 : 3)), 9);
    return grey ? pgm(w, h, px) : ppm(w, h, px);
}

std::string any_images(Case &c)
{
    std::string s;
    std::size_t n = 1 + c.draw(3);
    for (std::size_t i = 0; i < n; i++) {
        put_record(s, std::string(c.chance(1, 6) ? c.draw(30) : 24, 'h') + any_image(c));
    }
    return s;
}

std::string any_parquet(Case &c)
{
    std::string s;
    std::size_t n = 1 + c.draw(2);
    for (std::size_t i = 0; i < n; i++) {
        std::string footer = random_bytes(c, c.draw(20));
        s += "PAR1" + random_bytes(c, c.draw(40)) + footer;
        put_u32(s, static_cast<std::uint32_t>(footer.size()));
        s += "PAR1";
    }
    return s;
}

// Changes some bytes.
void damage(Case &c, std::string &s, std::size_t max_changes, bool few_digits)
{
    static const std::vector<std::string> words{
        "\n",
        "\r\n",
        "\"",
        "\"\"",
        ",",
        std::string(1, '\0'),
        "\xEF\xBB\xBF",
        "\xFF\xFE",
        "\xFE\xFF",
        std::string("\xFF\xFE\0\0", 4),
        std::string("\0\0\xFE\xFF", 4),
        "\xF0\x9F",
        "\xED\xA0\x80",
        "PAR1",
        "\x0a\x23\xd7\xce",
        "\xff\xff\xff\xff",
        "\xff\xff\xff\x1f",
        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
        "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01",
        "\x1f\x8b\x08",
        "P6\n",
        "1e999999",
        "nan",
        "99999999999999999999999999",
        std::string(300, 'q')};
    std::size_t n = c.draw(max_changes);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t at = c.draw(s.size());
        switch (c.weighted({5, 3, 3, 2, 2, 1, 1})) {
        case 0:
            if (at < s.size()) {
                s[at] = static_cast<char>(s[at] ^ (1 << c.draw(7)));
            }
            break;
        case 1:
            if (at < s.size()) {
                s[at] = static_cast<char>(c.draw(255));
            }
            break;
        case 2:
            s.insert(at, few_digits ? std::string(1, '1') : c.pick(words));
            break;
        case 3:
            s.erase(at, 1 + c.draw(7));
            break;
        case 4:
            s.resize(at);
            break;
        case 5: {
            std::size_t from = c.draw(s.size());
            s.insert(at, s.substr(from, c.draw(60)));
            break;
        }
        default:
            s += random_bytes(c, c.draw(20));
            break;
        }
    }
}

std::size_t any_count(Case &c)
{
    switch (c.weighted({8, 3, 1, 1})) {
    case 0:
        return c.draw(4);
    case 1:
        return c.draw(300);
    case 2:
        return std::numeric_limits<std::size_t>::max() - c.draw(2);
    default:
        return std::size_t{1} << c.draw(63);
    }
}

enum class Kind { csv, text, protobuf, image_recordio, image_file };

const char *name_of(Kind k)
{
    static const char *n[] = {"csv", "text", "protobuf", "image recordio", "image file"};
    return n[static_cast<int>(k)];
}

void any_reader_params(Case &c, Data_reader_params &p, std::ostringstream &what)
{
    p.batch_size = 1 + (c.chance(1, 8) ? c.draw(3000) : c.draw(5));
    p.num_prefetched_examples = c.draw(4);
    p.num_parallel_reads = c.draw(4);
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    p.warn_bad_instances = c.flag();
    if (c.chance(1, 4)) {
        p.num_instances_to_skip = any_count(c);
    }
    if (c.chance(1, 4)) {
        p.num_instances_to_read = any_count(c);
    }
    if (c.chance(1, 5)) {
        p.num_shards = 1 + c.draw(3);
        p.shard_index = c.draw(p.num_shards - 1);
    }
    if (c.chance(1, 6)) {
        p.sample_ratio = static_cast<float>(c.draw(100)) / 100.0F;
    }
    if (c.chance(1, 4)) {
        p.shuffle_instances = true;
        p.shuffle_window = c.draw(20);
        p.shuffle_seed = c.draw(3);
    }
    what << " batch " << p.batch_size << " prefetch " << p.num_prefetched_examples << " parallel "
         << p.num_parallel_reads << " last " << static_cast<int>(p.last_example_handling) << " bad "
         << static_cast<int>(p.bad_example_handling) << " skip " << p.num_instances_to_skip
         << " read "
         << (p.num_instances_to_read ? std::to_string(*p.num_instances_to_read) : "all");
}

std::optional<Text_encoding> any_encoding(Case &c)
{
    if (c.chance(2, 3)) {
        return {};
    }
    return Text_encoding{c.pick<const char *>({"UTF-8", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32",
                                               "UTF-32LE", "UTF-32BE", "ASCII", "ISO-8859-1",
                                               "SHIFT_JIS", "GB18030", "UTF-7", "nonsense"})};
}

Intrusive_ptr<Data_reader> any_reader(Case &c, Kind k, const Csv_dialect &d, Data_reader_params p)
{
    switch (k) {
    case Kind::csv: {
        Csv_params q;
        d.apply(q);
        switch (c.draw(2)) {
        case 0:
            break;
        case 1:
            q.header_row_index = {};
            break;
        default:
            q.header_row_index = any_count(c);
            break;
        }
        q.has_single_header = c.flag();
        q.dedupe_column_names = c.flag();
        if (c.chance(1, 6)) {
            std::size_t n = 1 + c.draw(4);
            for (std::size_t i = 0; i < n; i++) {
                q.column_names.push_back(c.pick<const char *>({"a", "b", "c", "", "1"}));
            }
        }
        if (c.chance(1, 6)) {
            q.name_prefix = "p";
        }
        if (c.chance(1, 6)) {
            q.use_columns_by_index.insert(c.draw(4));
        }
        if (c.chance(1, 6)) {
            q.use_columns.insert(c.pick<const char *>({"a", "1", "p1"}));
        }
        if (c.chance(1, 2)) {
            q.default_data_type = static_cast<Data_type>(c.draw(11));
        }
        if (c.chance(1, 5)) {
            q.column_types_by_index[c.draw(5)] = static_cast<Data_type>(c.draw(11));
        }
        if (c.chance(1, 5)) {
            q.column_types["a"] = static_cast<Data_type>(c.draw(11));
        }
        q.encoding = any_encoding(c);
        if (c.chance(1, 4)) {
            q.max_field_length = any_count(c);
            q.max_field_length_handling = static_cast<Max_field_length_handling>(c.draw(2));
        }
        if (c.chance(1, 4)) {
            q.max_line_length = any_count(c);
        }
        if (c.chance(1, 4)) {
            q.parser_options.base = static_cast<int>(c.pick<int>({2, 8, 16, 36}));
            q.parser_options.nan_values = {"nan", ""};
        }
        return make_intrusive<Csv_reader>(p, q);
    }
    case Kind::text:
        return make_intrusive<Text_line_reader>(p);
    case Kind::protobuf:
        return make_intrusive<Recordio_protobuf_reader>(p);
    default: {
        Image_reader_params q;
        q.image_frame = k == Kind::image_file ? Image_frame::none : Image_frame::recordio;
        q.image_dimensions = {c.pick<std::size_t>({1, 3, 3, 4}), 1 + c.draw(4), 1 + c.draw(4)};
        if (c.flag()) {
            q.resize = c.draw(12);
        }
        q.to_rgb = c.flag();
        return make_intrusive<Image_reader>(p, q);
    }
    }
}

// Data can claim a size that does not fit into the memory. The standard
// library has two ways to refuse it.
bool documented(const std::string &kind, const std::string &text, bool allow_no_memory)
{
    if (kind == "other" && text.find("max_size()") != std::string::npos) {
        return true;
    }
    static const std::set<std::string> kinds{
        "schema",         "instance",       "data_reader", "inflate",          "stream",
        "corrupt_header", "corrupt_footer", "record",      "record_too_large", "corrupt_record",
        "not_supported",  "mlio",           "system",      "invalid_argument"};
    return kinds.count(kind) != 0 || (allow_no_memory && kind == "bad_alloc");
}

}  // namespace

PBT_TEST(C25, readers)
{
    auto k = static_cast<Kind>(c.weighted({5, 2, 4, 2, 1}));
    Csv_dialect d = any_dialect(c);
    any_buffer_sizes(c);
    Data_reader_params p;
    std::ostringstream what;
    any_reader_params(c, p, what);
    std::size_t stores = 1 + c.weighted({5, 2, 1});
    std::size_t bytes = 0;
    std::string shown;
    for (std::size_t i = 0; i < stores; i++) {
        std::string s;
        if (c.chance(1, 10)) {
            s = random_bytes(c, c.size(60));
        }
        else {
            switch (c.chance(1, 20) ? static_cast<Kind>(c.draw(4)) : k) {
            case Kind::csv:
            case Kind::text:
                s = any_csv(c, d);
                break;
            case Kind::protobuf:
                s = any_protobuf(c);
                break;
            case Kind::image_recordio:
                s = any_images(c);
                break;
            default:
                s = any_image(c);
                break;
            }
        }
        bool images = k == Kind::image_recordio || k == Kind::image_file;
        damage(c, s, c.flag() ? 3 : 20, images);
        if (c.chance(1, 10)) {
            bool gzip = c.chance(2, 3);
            s = deflate(s, 6, gzip);
            if (!gzip && c.flag()) {
                // A dictionary that nobody knows is needed.
                s.replace(0, 2, "\x78\xbb" + std::string(4, static_cast<char>(c.draw(255))));
            }
            else if (gzip && c.chance(1, 4)) {
                // Optional parts of the header.
                s.at(3) = static_cast<char>(c.draw(255));
            }
            damage(c, s, 3, false);
            p.dataset.push_back(make_intrusive<In_memory_store>(slice_of(s), Compression::gzip));
        }
        else {
            p.dataset.push_back(make_store(c, s, any_delivery(c)));
        }
        bytes += s.size();
        shown += " " + quote(s.substr(0, 400));
    }
    c.desc(name_of(k), what.str(), shown);
    refused = 0;
    Intrusive_ptr<Data_reader> r;
    std::string outcome;
    auto check = [&](const std::string &kind, const std::string &where, const std::string &text) {
        ENSURE(kind.empty() || documented(kind, text, refused > 0), where, " ends with '", kind, "': ",
               text);
        if (!kind.empty()) {
            outcome = kind;
        }
        return kind.empty();
    };
    std::string text;
    std::string made = kind_of_error([&] { r = any_reader(c, k, d, p); }, &text);
    check(made, "making the reader", text);
    if (!made.empty()) {
        return;
    }
    std::size_t delivered = 0;
    std::size_t epochs = 1 + c.weighted({3, 2, 1});
    for (std::size_t e = 0; e < epochs; e++) {
        std::size_t limit = c.chance(1, 4) ? c.draw(2) : std::numeric_limits<std::size_t>::max();
        for (std::size_t i = 0; i < limit; i++) {
            Intrusive_ptr<Example> ex;
            std::size_t call = c.weighted({10, 1, 1});
            std::string kind = kind_of_error(
                [&] {
                    if (call == 1) {
                        r->read_schema();
                    }
                    if (call == 2) {
                        r->peek_example();
                    }
                    ex = r->read_example();
                },
                &text);
            if (!check(kind, "reading", text)) {
                if (c.flag()) {
                    kind = kind_of_error([&] { ex = r->read_example(); }, &text);
                    check(kind, "reading again", text);
                }
                break;
            }
            if (!ex) {
                break;
            }
            delivered++;
            if (delivered < 50) {
                try {
                    to_ex(*ex);
                }
                catch (const std::bad_alloc &) {
                }
            }
            // A dataset without end would be an endless loop as well.
            ENSURE(delivered < 20000, "more examples than bytes");
        }
        r->reset();
    }
    r = nullptr;
    c.tag(outcome.empty() ? "read" : outcome.c_str());
    c.nontrivial(bytes > 8 && (delivered > 0 || !outcome.empty()));
}

PBT_TEST_W(C25, record_readers, 0.6)
{
    any_buffer_sizes(c);
    std::string s;
    std::size_t form = c.draw(3);
    Csv_dialect d = any_dialect(c);
    switch (form) {
    case 0:
        s = any_csv(c, d);
        break;
    case 1:
        s = any_protobuf(c);
        break;
    case 2:
        s = any_parquet(c);
        break;
    default:
        s = random_bytes(c, c.size(100));
        break;
    }
    damage(c, s, 8, false);
    std::size_t reader = c.draw(2);
    if (form < 3 && c.chance(4, 5)) {
        reader = form;
    }
    c.desc("reader ", reader, ": ", quote(s.substr(0, 600)));
    auto store = make_store(c, s, any_delivery(c));
    std::string text;
    std::string outcome;
    std::size_t records = 0;
    std::size_t bytes = 0;
    std::string kind = kind_of_error(
        [&] {
            Intrusive_ptr<Record_reader> r;
            auto in = store->open_read();
            switch (reader) {
            case 0:
                r = make_intrusive<mlio::detail::Text_line_record_reader>(in, c.flag());
                break;
            case 1:
                r = make_intrusive<mlio::detail::Recordio_record_reader>(in);
                break;
            default:
                r = make_intrusive<mlio::detail::Parquet_record_reader>(in);
                break;
            }
            if (auto *sr = dynamic_cast<Stream_record_reader *>(r.get())) {
                if (c.chance(1, 4)) {
                    sr->set_record_size_hint(c.draw(5000));
                    sr->record_size_hint();
                }
            }
            for (;;) {
                std::optional<Record> rec;
                if (c.chance(1, 5)) {
                    r->peek_record();
                }
                rec = r->read_record();
                if (!rec) {
                    break;
                }
                bytes += to_string(rec->payload()).size();
                records++;
                ENSURE(records <= s.size() + 1, "more records than bytes");
            }
        },
        &text);
    ENSURE(kind.empty() || documented(kind, text, refused > 0), "reading ends with '", kind, "': ", text);
    c.tag(kind.empty() ? "read" : kind.c_str());
    c.nontrivial(s.size() > 8);
}

// A size hint of any value neither hangs nor loses the size.
PBT_FIXED(C25, size_hints)
{
    for (std::size_t hint : {std::size_t{0}, std::size_t{1}, std::size_t{1} << 62U,
                             (std::size_t{1} << 63U) + 1, ~std::size_t{0}}) {
        auto store = make_intrusive<In_memory_store>(slice_of("a\nb\n"));
        auto r = make_intrusive<mlio::detail::Text_line_record_reader>(store->open_read(), false);
        r->set_record_size_hint(hint);
        auto plain = make_intrusive<Test_store>("t", "a\nb\n", Stream_plan{});
        auto q = make_intrusive<mlio::detail::Text_line_record_reader>(plain->open_read(), false);
        q->set_record_size_hint(hint);
    }
}
