// C02: results do not depend on how the bytes are delivered.
#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

struct Result {
    Epoch epoch;
    std::vector<Intrusive_ptr<Example>> kept;
};

std::string soup(Case &c, const Csv_dialect &d)
{
    // Text that need not be well-formed: what it means does not matter here.
    std::string s;
    if (c.chance(1, 6)) {
        s = "\xEF\xBB\xBF";
    }
    std::size_t n = c.size(60);
    for (std::size_t i = 0; i < n; i++) {
        switch (c.weighted({6, 3, 2, 2, 2, 1, 1, 1, 1})) {
        case 0:
            s += static_cast<char>('a' + c.draw(3));
            break;
        case 1:
            s += d.delim;
            break;
        case 2:
            s += "\n";
            break;
        case 3:
            s += "\r";
            break;
        case 4:
            s += d.quote;
            break;
        case 5:
            s += d.comment.value_or('#');
            break;
        case 6:
            s += utf8_of(c.pick<std::uint32_t>({0xE9, 0x20AC, 0x1F600, 0xFEFF}));
            break;
        case 7:
            s += '\0';
            break;
        default:
            s += std::string(1 + c.draw(20), 'z');
            break;
        }
    }
    return s;
}

std::string utf16(std::string_view ascii, bool be)
{
    std::string s = be ? "\xFE\xFF" : "\xFF\xFE";
    for (char ch : ascii) {
        unsigned u = static_cast<unsigned char>(ch) & 0x7F;
        char hi = static_cast<char>(u == 'b' ? 0x20 : 0), lo = static_cast<char>(u);
        s += be ? hi : lo;
        s += be ? lo : hi;
    }
    return s;
}

void mutate(Case &c, std::string &s)
{
    std::size_t n = 1 + c.size(4);
    for (std::size_t i = 0; i < n && !s.empty(); i++) {
        std::size_t at = c.draw(s.size() - 1);
        switch (c.draw(3)) {
        case 0:
            s[at] = static_cast<char>(c.draw(255));
            break;
        case 1:
            s.resize(at);
            break;
        case 2:
            s.erase(at, 1 + c.draw(8));
            break;
        default:
            s.insert(at, s.substr(c.draw(s.size() - 1), c.draw(12)));
            break;
        }
    }
}

}  // namespace

PBT_TEST(C02, delivery)
{
    std::vector<std::string> stores;
    Csv_params cp;
    Numbered n;
    bool csv = false;
    std::string kind;
    std::size_t num_stores = 1 + c.weighted({4, 2, 1});
    Data_reader_params p;
    bool raw = c.chance(2, 3);
    if (raw) {
        Csv_dialect d = any_dialect(c);
        csv = c.chance(3, 4);
        n.format = Format::text;
        kind = csv ? "csv soup" : "text soup";
        d.apply(cp);
        cp.default_data_type = Data_type::string;
        cp.header_row_index = c.flag() ? std::optional<std::size_t>{c.draw(2)} : std::nullopt;
        cp.dedupe_column_names = true;
        cp.has_single_header = c.flag();
        if (c.chance(1, 3)) {
            cp.max_line_length = c.size(20);
        }
        if (c.chance(1, 3)) {
            cp.max_field_length = c.size(8);
            cp.max_field_length_handling = static_cast<Max_field_length_handling>(c.draw(2));
        }
        bool wide = c.chance(1, 6);
        for (std::size_t i = 0; i < num_stores; i++) {
            std::string s = soup(c, d);
            if (wide) {
                s = utf16(s, c.flag());
                if (c.chance(1, 6)) {
                    s.pop_back();
                }
                kind = "wide soup";
            }
            stores.push_back(s);
        }
    }
    else {
        n = any_numbered(c, 30);
        kind = n.show();
        csv = n.format == Format::csv;
        cp = n.csv_params();
        // The contents of the stores.
        n.total = 0;
        for (std::size_t k : n.store_sizes) {
            std::string text = csv ? "id,name,num\n" : "";
            for (std::size_t i = 0; i < k; i++) {
                std::string pl = n.payload(n.total++);
                switch (n.format) {
                case Format::csv:
                case Format::text:
                    text += pl + "\r\n";
                    break;
                case Format::image_file:
                    stores.push_back(pl);
                    break;
                default:
                    if (i % 4 == 3 && pl.size() >= 4) {
                        put_record(text, pl.substr(0, 3), 1);
                        put_record(text, pl.substr(3), 3);
                    }
                    else {
                        put_record(text, pl);
                    }
                }
            }
            if (n.format != Format::image_file) {
                stores.push_back(text);
            }
        }
        if (c.chance(1, 2) && !stores.empty()) {
            mutate(c, stores[c.draw(stores.size() - 1)]);
            kind += " mutated";
        }
    }
    p.batch_size = 1 + c.size(12);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    if (c.chance(1, 4)) {  // holds records back while reading on
        p.shuffle_instances = true;
        p.shuffle_seed = 5;
    }
    any_parallelism(c, p);
    c.desc(kind, " batch=", p.batch_size, " bad=", static_cast<int>(p.bad_example_handling),
           " shuffle=", p.shuffle_instances);
    for (auto &s : stores) {
        c.desc(" ", quote(s, 200));
    }
    if (csv) {
        c.desc(" delim=", cp.delimiter, " quote=", cp.quote_char, " comment=",
               cp.comment_char.value_or('-'), " qnl=", cp.allow_quoted_new_lines,
               " header=", cp.header_row_index ? static_cast<int>(*cp.header_row_index) : -1);
    }

    auto run = [&](const std::vector<Intrusive_ptr<Data_store>> &dataset) {
        Data_reader_params q = p;
        q.dataset = dataset;
        Intrusive_ptr<Data_reader> r;
        if (csv) {
            r = make_intrusive<Csv_reader>(q, cp);
        }
        else {
            r = n.make(q);
        }
        Result res;
        std::vector<Ex> values;
        res.epoch.error_kind = kind_of_error(
            [&] {
                while (auto e = r->read_example()) {
                    values.push_back(by_name(to_ex(*e)));
                    res.kept.push_back(std::move(e));
                }
            },
            &res.epoch.error);
        res.epoch.failed = !res.epoch.error_kind.empty();
        // Data returned earlier is not altered by reading on.
        r = nullptr;
        for (std::size_t i = 0; i < values.size(); i++) {
            ENSURE(by_name(to_ex(*res.kept[i])) == values[i], "example ", i, " has changed later");
        }
        res.epoch.examples = std::move(values);
        res.kept.clear();
        return res.epoch;
    };

    std::vector<Intrusive_ptr<Data_store>> plain;
    for (auto &s : stores) {
        plain.push_back(make_store(c, s, Delivery::memory));
    }
    Epoch base = run(plain);
    std::size_t size = 0;
    for (auto &s : stores) {
        size += s.size();
    }
    c.nontrivial(size > 8 && !base.examples.empty());
    c.tag(base.failed ? "fails" : "reads");

    std::size_t k = 1 + c.weighted({2, 2, 1});
    for (std::size_t i = 0; i < k; i++) {
        any_buffer_sizes(c);
        std::vector<Intrusive_ptr<Data_store>> other;
        std::string how;
        for (auto &s : stores) {
            Delivery d = any_delivery(c);
            how += std::string(" ") + name_of(d);
            other.push_back(make_store(c, s, d));
        }
        how += " chunk=" + std::to_string(mlio::verif::chunk_size) +
               " utf8=" + std::to_string(mlio::verif::utf8_buffer_size) +
               " inflate=" + std::to_string(mlio::verif::inflate_buffer_size);
        any_parallelism(c, p);
        Epoch e = run(other);
        ENSURE(e.failed == base.failed, "in memory: ", base.failed ? base.error : "no error", ";",
               how, ": ", e.failed ? e.error : "no error");
        // Which of several errors is reported depends on the schedule.
        std::size_t m = std::min(base.examples.size(), e.examples.size());
        // Examples that were prefetched before an error may be lost.
        ENSURE(base.failed || base.examples.size() == e.examples.size(), "in memory: ",
               base.examples.size(), " examples;", how, ": ", e.examples.size());
        for (std::size_t j = 0; j < m; j++) {
            ENSURE(base.examples[j] == e.examples[j], "example ", j, " in memory: ",
                   pbt::show(base.examples[j]), ";", how, ": ", pbt::show(e.examples[j]));
        }
    }
}
