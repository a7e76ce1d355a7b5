// C10: CSV schemas follow the documented naming, typing and limit rules.
#include "csv_model.h"

using namespace mlio;
using namespace pbt;

namespace {

struct Typed {
    const char *text;
    Data_type inferred;
};

const std::vector<Typed> &samples()
{
    static const std::vector<Typed> v{
        {"12", Data_type::int64},
        {"0", Data_type::int64},
        {"-7", Data_type::int64},
        {"9223372036854775807", Data_type::int64},
        {"9223372036854775808", Data_type::uint64},
        {"18446744073709551615", Data_type::uint64},
        {"18446744073709551616", Data_type::float64},
        {"1.5", Data_type::float64},
        {"-9223372036854775809", Data_type::float64},
        {"1e3", Data_type::float64},
        {"abc", Data_type::string},
        {"", Data_type::string},
        {"1a", Data_type::string},
    };
    return v;
}

std::string small_name(Case &c)
{
    return c.pick<const char *>({"a", "b", "c", "d", "e", "a_1", "a_2", "b_1", "a_1_1", "", "1", "2"});
}

const std::vector<Data_type> &all_types()
{
    static const std::vector<Data_type> v{
        Data_type::size,    Data_type::float32, Data_type::float64, Data_type::int8,
        Data_type::int16,   Data_type::int32,   Data_type::int64,   Data_type::uint8,
        Data_type::uint16,  Data_type::uint32,  Data_type::uint64,  Data_type::string};
    return v;
}

// The names after renaming, where no renamed name meets another.
std::optional<Row> renamed(const Row &names)
{
    std::map<std::string, std::size_t> count;
    for (const auto &n : names) {
        count[n]++;
    }
    std::set<std::string> fresh;
    for (const auto &[n, k] : count) {
        for (std::size_t i = 1; i < k; i++) {
            std::string s = n + "_" + std::to_string(i);
            if (count.count(s) != 0 || !fresh.insert(s).second) {
                return std::nullopt;
            }
        }
    }
    std::map<std::string, std::size_t> seen;
    Row out;
    for (const auto &n : names) {
        std::size_t k = seen[n]++;
        out.push_back(k == 0 ? n : n + "_" + std::to_string(k));
    }
    return out;
}

std::string csv_field(const std::string &s, bool alone)
{
    if ((alone && s.empty()) || s.find_first_of(",\"\r\n") != std::string::npos) {
        std::string o = "\"";
        for (char ch : s) {
            o += ch;
            if (ch == '"') {
                o += ch;
            }
        }
        return o + "\"";
    }
    return s;
}

std::string csv_line(const Row &r)
{
    std::string s;
    for (std::size_t i = 0; i < r.size(); i++) {
        s += (i != 0 ? "," : "") + csv_field(r[i], r.size() == 1);
    }
    return s;
}

std::string names_and_types(const Schema &s)
{
    std::ostringstream o;
    for (const Attribute &a : s.attributes()) {
        o << quote(a.name()) << ":" << type_name(a.data_type()) << " ";
    }
    return o.str();
}

}  // namespace

PBT_TEST_W(C10, schema, 3.0)
{
    std::size_t width = 1 + c.size(7);
    enum { header_row, given, given_and_header, ordinal };
    std::size_t source = c.weighted({4, 2, 1, 2});
    bool has_header = source == header_row || source == given_and_header;

    Row names;
    for (std::size_t i = 0; i < width; i++) {
        names.push_back(c.chance(1, 2) ? "n" + std::to_string(i) : small_name(c));
    }
    if (source == ordinal) {
        for (std::size_t i = 0; i < width; i++) {
            names[i] = std::to_string(i + 1);
        }
    }
    Data_reader_params p;
    Csv_params cp;
    std::size_t header_index = has_header && c.flag() ? c.draw(3) : 0;
    cp.header_row_index = has_header ? std::optional<std::size_t>{header_index} : std::nullopt;
    cp.dedupe_column_names = !c.chance(1, 4);
    if (source == given || source == given_and_header) {
        cp.column_names = names;
    }
    else if (c.chance(1, 3)) {
        cp.name_prefix = c.pick<const char *>({"p", "x_", "a", "1", " "});
        for (auto &n : names) {
            n = cp.name_prefix + n;
        }
    }
    bool dups = std::set<std::string>(names.begin(), names.end()).size() != names.size();

    // Which columns are read.
    std::vector<std::size_t> kept;
    std::size_t select = dups ? c.weighted({2, 1, 1}) : c.weighted({3, 1, 1, 1});
    for (std::size_t i = 0; i < width; i++) {
        if ((select & 1) != 0 && c.flag()) {
            cp.use_columns_by_index.insert(i);
        }
        if ((select & 2) != 0 && c.flag()) {
            cp.use_columns.insert(names[i]);
        }
    }
    for (std::size_t i = 0; i < width; i++) {
        bool a = cp.use_columns_by_index.empty() || cp.use_columns_by_index.count(i) != 0;
        bool b = cp.use_columns.empty() || cp.use_columns.count(names[i]) != 0;
        if (a && b) {
            kept.push_back(i);
        }
    }

    // Columns that are not read share their names with nobody.
    Row kept_names;
    for (std::size_t i : kept) {
        kept_names.push_back(names[i]);
    }
    dups = std::set<std::string>(kept_names.begin(), kept_names.end()).size() != kept_names.size();

    // The data types.
    std::size_t num_rows = c.size(4);
    Rows table;
    std::vector<Data_type> types(width, Data_type::string);
    for (std::size_t r = 0; r < num_rows; r++) {
        Row row;
        for (std::size_t i = 0; i < width; i++) {
            const Typed &t = c.pick(samples());
            row.push_back(t.text);
            if (r == 0) {
                types[i] = t.inferred;
            }
        }
        table.push_back(row);
    }
    if (c.chance(1, 3)) {
        cp.default_data_type = c.pick(all_types());
        types.assign(width, *cp.default_data_type);
    }
    std::map<std::string, std::size_t> count;
    for (const auto &n : names) {
        count[n]++;
    }
    for (std::size_t i = 0; i < width; i++) {
        std::size_t how = c.weighted({8, 2, 2, 1});
        if ((how & 1) != 0) {
            types[i] = cp.column_types_by_index[i] = c.pick(all_types());
        }
        // The name of a column goes before its index. A name that stands for
        // several columns is left alone.
        if ((how & 2) != 0 && count[names[i]] == 1) {
            types[i] = cp.column_types[names[i]] = c.pick(all_types());
        }
    }
    // Settings that contradict the data.
    std::string expected;
    bool read_anything = num_rows != 0 || source != ordinal;
    std::size_t flaw = c.weighted({12, 1, 1, 1});
    Row explicit_names = cp.column_names;
    if (read_anything) {
        if (flaw == 1) {
            cp.column_types_by_index[width + c.draw(3)] = Data_type::int32;
            expected = "invalid_argument";
        }
        else if (flaw == 2) {
            cp.column_types["no such column"] = Data_type::int32;
            expected = "invalid_argument";
        }
        if (num_rows != 0 && source != ordinal && flaw == 3) {
            // The first row has another number of columns.
            std::size_t w = c.flag() ? width + 1 + c.draw(width) : 1 + c.draw(width - 1);
            if (w != width) {
                table[0].resize(w, "9");
                expected = "schema";
            }
        }
        if (dups && !cp.dedupe_column_names && expected.empty()) {
            expected = "schema";
        }
    }

    std::string text;
    if (has_header) {
        for (std::size_t i = 0; i < header_index; i++) {
            text += "junk,before\n";
        }
        Row h = names;
        if (source == header_row) {
            for (auto &n : h) {
                n = n.substr(cp.name_prefix.size());
            }
        }
        text += csv_line(h) + "\n";
    }
    for (const Row &r : table) {
        text += csv_line(r) + "\n";
    }
    p.dataset = {make_store(c, text, any_delivery(c))};
    p.batch_size = 1 + c.size(6);
    std::ostringstream o;
    for (std::size_t i : cp.use_columns_by_index) {
        o << i << " ";
    }
    c.desc("source=", source, "@", header_index, " prefix=", quote(cp.name_prefix), " names=",
           show(Rows{names}), cp.dedupe_column_names ? "" : " no dedupe", " by index=", o.str(),
           " kept=", join(kept), " flaw=", flaw, " ", quote(text, 1000));
    c.nontrivial(width > 1 && (dups || !expected.empty() || kept.size() < width ||
                               !cp.column_types.empty() || !cp.column_types_by_index.empty()));
    auto reader = make_intrusive<Csv_reader>(p, cp);

    if (!read_anything) {
        ENSURE(reader->read_schema() == nullptr, "a schema of nothing");
        ENSURE(reader->read_example() == nullptr, "an example of nothing");
        return;
    }
    if (!expected.empty()) {
        c.tag("rejected");
        // However often it is asked for.
        std::size_t n = 1 + c.draw(3);
        for (std::size_t i = 0; i < n; i++) {
            std::size_t how = c.draw(2);
            std::string what;
            std::string kind = kind_of_error(
                [&] {
                    if (how == 0) {
                        reader->read_schema();
                    }
                    else if (how == 1) {
                        reader->read_example();
                    }
                    else {
                        reader->reset();
                        reader->read_schema();
                    }
                },
                &what);
            ENSURE(kind == expected, "attempt ", i, ": error is ", quote(kind), " and not ",
                   expected, " ", what);
        }
        return;
    }

    Intrusive_ptr<const Schema> schema;
    std::string what;
    std::string kind = kind_of_error([&] { schema = reader->read_schema(); }, &what);
    ENSURE(kind.empty(), "no schema: ", what);
    ENSURE(schema != nullptr, "no schema");
    const auto &attrs = schema->attributes();
    ENSURE(attrs.size() == kept.size(), names_and_types(*schema));
    std::optional<Row> want_names;
    if (dups) {
        want_names = renamed(kept_names);
    }
    else {
        want_names = kept_names;
    }
    std::set<std::string> unique;
    for (std::size_t k = 0; k < kept.size(); k++) {
        const Attribute &a = attrs[k];
        std::size_t i = kept[k];
        ENSURE(unique.insert(a.name()).second, "duplicate ", names_and_types(*schema));
        if (want_names) {
            ENSURE(a.name() == (*want_names)[k], "column ", k, " is named ", quote(a.name()),
                   " and not ", quote((*want_names)[k]));
        }
        else {
            ENSURE(a.name().compare(0, names[i].size(), names[i]) == 0, "column ", k, " ",
                   quote(a.name()), " does not begin with ", quote(names[i]));
        }
        ENSURE(a.data_type() == types[i], "column ", quote(a.name()), " has type ",
               type_name(a.data_type()), " and not ", type_name(types[i]));
        ENSURE(!a.sparse(), "a sparse column");
        ENSURE((a.shape() == Size_vector{p.batch_size, 1}), "shape of ", a.name());
        ENSURE(schema->get_index(a.name()) == std::optional<std::size_t>{k}, "index of ",
               a.name());
    }
    reader->reset();
    ENSURE(*reader->read_schema() == *schema, "another schema after a reset");
}

namespace {

// Text of ASCII characters that need no quotes, of a given length.
std::string plain(Case &c, std::size_t n)
{
    std::string s;
    for (std::size_t i = 0; i < n; i++) {
        s += static_cast<char>('a' + c.draw(25));
    }
    return s;
}

std::size_t around(Case &c, std::size_t limit)
{
    switch (c.weighted({4, 3, 1})) {
    case 0:
        return c.draw(limit);
    case 1:
        return limit == 0 ? c.draw(1) : limit - 1 + c.draw(2);
    default:
        return limit + c.draw(2 * limit + 5);
    }
}

}  // namespace

PBT_TEST_W(C10, field_limit, 1.5)
{
    std::size_t width = 1 + c.size(3);
    std::size_t limit = c.pick<std::size_t>({1, 2, 3, 5, 8, 0});
    std::size_t num_rows = 1 + c.size(8);
    Csv_params cp;
    Data_reader_params p;
    auto how = static_cast<Max_field_length_handling>(c.draw(2));
    cp.header_row_index = std::nullopt;
    cp.max_field_length = limit;
    cp.max_field_length_handling = how;
    bool numbers = c.chance(1, 4);
    cp.default_data_type = numbers ? Data_type::int64 : Data_type::string;
    if (numbers && limit == 0) {
        c.discard();
    }
    p.batch_size = 1;
    p.bad_example_handling = c.pick({Bad_example_handling::skip, Bad_example_handling::error,
                                     Bad_example_handling::skip_warn});
    // The fields of columns that are not read may have any length.
    std::vector<char> kept(width, 1);
    if (width > 1 && c.chance(1, 3)) {
        kept[c.draw(width - 1)] = 0;
        for (std::size_t i = 0; i < width; i++) {
            if (kept[i] != 0) {
                cp.use_columns_by_index.insert(i);
            }
        }
    }
    Rows want;
    std::string text;
    std::size_t longs = 0, long_fields = 0, first_bad = SIZE_MAX;
    for (std::size_t r = 0; r < num_rows; r++) {
        Row row;
        bool too_long = false;
        for (std::size_t i = 0; i < width; i++) {
            std::size_t n = around(c, limit);
            std::string f;
            if (numbers) {
                for (std::size_t k = 0; k < std::max<std::size_t>(n, 1) && k < 18; k++) {
                    f += static_cast<char>('1' + c.draw(8));
                }
            }
            else {
                f = plain(c, n);
                if (!f.empty() && c.chance(1, 3)) {
                    f[c.draw(f.size() - 1)] = c.pick<char>({',', '"', ' '});
                }
                if (c.chance(1, 3)) {  // the limit counts characters, not bytes
                    std::string wide;
                    for (char ch : f) {
                        wide += c.flag() ? std::string(1, ch)
                                         : utf8_of(c.pick<std::uint32_t>({0xE9, 0x20AC, 0x1F600}));
                    }
                    f = wide;
                }
            }
            bool q = c.chance(1, 5) || f.find_first_of(",\"") != std::string::npos ||
                     (width == 1 && f.empty());
            std::string written = f;
            if (q) {
                written = "\"";
                for (char ch : f) {
                    written += ch;
                    if (ch == '"') {
                        written += ch;
                    }
                }
                written += '"';
            }
            text += (i != 0 ? "," : "") + written;
            std::size_t chars = 0, keep = 0;
            for (std::size_t k = 0; k < f.size(); k++) {
                if ((static_cast<unsigned char>(f[k]) & 0xC0U) != 0x80U) {
                    if (chars++ == limit) {
                        keep = k;
                    }
                }
            }
            if (kept[i] == 0) {
                continue;
            }
            if (chars > limit) {
                too_long = true;
                long_fields++;
                f.resize(keep);
            }
            std::int64_t v = numbers ? std::stoll(f) : 0;
            row.push_back(numbers ? value_at(Data_type::int64, &v, 0) : value_at(Data_type::string, &f, 0));
        }
        text += "\n";
        longs += too_long ? 1 : 0;
        if (too_long && how == Max_field_length_handling::treat_as_bad) {
            first_bad = std::min(first_bad, r);
        }
        else {
            want.push_back(row);
        }
    }
    p.dataset = {make_store(c, text, any_delivery(c))};
    const auto &by_index = cp.use_columns_by_index;
    c.desc("limit=", limit, " columns=", join(std::vector<std::size_t>(by_index.begin(), by_index.end())),
           " how=", static_cast<int>(how), " bad=",
           static_cast<int>(p.bad_example_handling), " ", quote(text, 1500));
    c.nontrivial(longs != 0 && longs < num_rows);
    auto reader = make_intrusive<Csv_reader>(p, cp);
    take_log();
    Epoch e = read_epoch(*reader);
    auto log = take_log();
    if (p.bad_example_handling == Bad_example_handling::error && first_bad != SIZE_MAX) {
        ENSURE(e.failed && e.error_kind == "instance", "a too long field: ", e.error_kind, " ", e.error);
        Rows got = rows_of(e.examples);
        ENSURE(got.size() <= first_bad, "read beyond the bad row");
        want.resize(got.size());
        check_rows(got, want);
        return;
    }
    ENSURE(!e.failed, e.error);
    check_rows(rows_of(e.examples), want);
    if (how == Max_field_length_handling::truncate) {
        ENSURE(log.empty(), "truncating without a warning warns: ", log[0]);
    }
    else if (how == Max_field_length_handling::truncate_warn) {
        ENSURE(log.size() == long_fields, log.size(), " warnings for ", long_fields,
               " truncated fields in ", longs, " rows");
    }
}

PBT_TEST_W(C10, line_limit, 1.5)
{
    std::size_t limit = c.pick<std::size_t>({1, 2, 3, 5, 10, 30});
    std::size_t num_rows = 1 + c.size(8);
    Csv_params cp;
    Data_reader_params p;
    cp.header_row_index = std::nullopt;
    cp.max_line_length = limit;
    cp.allow_quoted_new_lines = c.flag();
    cp.default_data_type = Data_type::string;
    if (c.flag()) {
        cp.skip_blank_lines = false;
    }
    p.batch_size = 1;
    any_buffer_sizes(c);
    Rows want;
    std::string text;
    std::size_t first_long = SIZE_MAX;
    std::size_t eol_kind = c.draw(3);
    for (std::size_t r = 0; r < num_rows; r++) {
        std::size_t n = c.chance(1, 8) ? around(c, limit)
                                       : (c.flag() ? limit : 1 + c.draw(limit - 1));
        n = std::max<std::size_t>(n, 1);
        std::string line, value;
        if (n >= 2 && c.chance(1, 3)) {
            // Quotes and the line ends inside of them count as well.
            value = plain(c, n - 2);
            if (cp.allow_quoted_new_lines && !value.empty() && c.flag()) {
                value[c.draw(value.size() - 1)] = c.pick<char>({'\n', '\r'});
            }
            line = "\"" + value + "\"";
        }
        else {
            value = line = plain(c, n);
        }
        if (n > limit) {
            first_long = std::min(first_long, r);
        }
        const char *eol[] = {"\n", "\r\n", "\r"};
        bool bare = r + 1 == num_rows && c.flag();
        text += line + (bare ? "" : eol[eol_kind < 3 ? eol_kind : c.draw(2)]);
        want.push_back(Row{value_at(Data_type::string, &value, 0)});
    }
    p.dataset = {make_store(c, text, any_delivery(c))};
    any_parallelism(c, p);
    c.desc("limit=", limit, cp.allow_quoted_new_lines ? " qnl " : " ", quote(text, 1500));
    c.nontrivial(num_rows > 1);
    auto reader = make_intrusive<Csv_reader>(p, cp);
    Epoch e = read_epoch(*reader);
    Rows got = rows_of(e.examples);
    if (first_long == SIZE_MAX) {
        ENSURE(!e.failed, e.error);
        check_rows(got, want);
        return;
    }
    c.tag("too long");
    ENSURE(e.failed, "no error for a line of more than ", limit, " characters");
    ENSURE(e.error_kind == "data_reader", "error is ", e.error_kind, ": ", e.error);
    ENSURE(got.size() <= first_long, "read beyond the long line");
    want.resize(got.size());
    check_rows(got, want);
}

// A blank header row names a single column, if blank lines count.
PBT_TEST_W(C10, blank_header, 0.2)
{
    Csv_params cp;
    Data_reader_params p;
    cp.default_data_type = Data_type::string;
    cp.skip_blank_lines = false;
    cp.header_row_index = c.draw(2);
    cp.name_prefix = c.pick<const char *>({"", "p", "x_"});
    const char *eol = c.pick<const char *>({"\n", "\r\n", "\r"});
    std::string text;
    for (std::size_t i = 0; i < *cp.header_row_index; i++) {
        text += std::string(c.flag() ? "" : "junk,1") + eol;
    }
    text += eol;
    Rows want;
    std::size_t num_rows = c.size(5);
    for (std::size_t i = 0; i < num_rows; i++) {
        want.push_back(Row{"v" + std::to_string(i)});
        text += want.back()[0] + eol;
    }
    p.dataset = {make_store(c, text, any_delivery(c))};
    p.batch_size = 1 + c.draw(3);
    any_parallelism(c, p);
    c.desc("prefix=", quote(cp.name_prefix), " ", quote(text, 300));
    c.nontrivial(num_rows > 0);
    auto reader = make_intrusive<Csv_reader>(p, cp);
    Intrusive_ptr<const Schema> schema = reader->read_schema();
    ENSURE(schema != nullptr, "no schema");
    ENSURE(schema->attributes().size() == 1, schema->attributes().size(), " columns");
    ENSURE(schema->attributes()[0].name() == cp.name_prefix, "the column is named ",
           quote(schema->attributes()[0].name()));
    Epoch e = read_epoch(*reader);
    ENSURE(!e.failed, e.error);
    check_rows(rows_of(e.examples), want);
}

// Header rows in one or all of several data stores, some of them empty, in every epoch.
PBT_TEST_W(C10, header_rows, 0.7)
{
    Csv_params cp;
    Data_reader_params p;
    cp.default_data_type = Data_type::string;
    cp.header_row_index = c.weighted({3, 1, 1});
    cp.has_single_header = c.flag();
    cp.name_prefix = c.pick<const char *>({"", "p"});
    cp.skip_blank_lines = c.flag();
    std::size_t width = 1 + c.draw(2);
    bool given = c.chance(1, 3);
    std::vector<std::string> names;
    for (std::size_t j = 0; j < width; j++) {
        names.push_back("n" + std::to_string(j));
    }
    if (given) {
        cp.column_names = names;
    }
    const char *eol = c.pick<const char *>({"\n", "\r\n"});
    std::vector<Row> want;
    std::size_t num_headers = 0;
    std::ostringstream desc;
    std::size_t num_stores = 1 + c.draw(3);
    for (std::size_t k = 0; k < num_stores; k++) {
        std::string text;
        std::size_t kind = c.weighted({2, 1, 5});  // empty, no data rows, data rows
        if (kind != 0) {
            if (num_headers == 0 || !cp.has_single_header) {
                for (std::size_t i = 0; i < *cp.header_row_index; i++) {
                    text += std::string("junk") + std::string(c.draw(4), ',') + eol;
                }
                // Only the names in the first data store count.
                bool other = num_headers != 0 && c.chance(1, 3);
                for (std::size_t j = 0; j < width; j++) {
                    text += (j != 0 ? "," : "") + (other ? "other" : names[j]);
                }
                text += eol;
                num_headers++;
            }
            std::size_t rows = kind == 1 ? 0 : c.size(6);
            for (std::size_t i = 0; i < rows; i++) {
                Row r;
                for (std::size_t j = 0; j < width; j++) {
                    r.push_back(std::to_string(want.size()) + "-" + std::to_string(j));
                    text += (j != 0 ? "," : "") + r.back();
                }
                text += eol;
                want.push_back(r);
            }
            if (!text.empty() && c.chance(1, 4)) {
                text.resize(text.size() - std::string(eol).size());
            }
        }
        desc << " " << quote(text, 200);
        p.dataset.push_back(make_store(c, text, any_delivery(c)));
    }
    p.batch_size = 1 + c.draw(3);
    any_parallelism(c, p);
    c.desc(cp.has_single_header ? "single" : "each", " header row ", *cp.header_row_index,
           given ? " names given" : "", " prefix=", quote(cp.name_prefix), desc.str());
    c.nontrivial(num_stores > 1 && num_headers > 0 && !want.empty());
    auto reader = make_intrusive<Csv_reader>(p, cp);
    std::size_t epochs = 1 + c.draw(2);
    for (std::size_t i = 0; i < epochs; i++) {
        if (i != 0 || c.flag()) {
            Intrusive_ptr<const Schema> schema = reader->read_schema();
            if (num_headers == 0 && !given) {
                ENSURE(schema == nullptr, "a schema without any column");
            }
            else {
                ENSURE(schema != nullptr && schema->attributes().size() == width, "the schema of epoch ", i,
                       " is ", schema != nullptr ? schema->repr() : "none");
                for (std::size_t j = 0; j < width; j++) {
                    std::string name = (given ? "" : cp.name_prefix) + names[j];
                    ENSURE(schema->attributes()[j].name() == name, "column ", j, " is named ",
                           quote(schema->attributes()[j].name()), " in epoch ", i);
                }
            }
        }
        if (i + 1 < epochs && c.flag()) {
            for (std::size_t k = c.draw(3); k > 0 && reader->read_example() != nullptr; k--) {
            }
        }
        else {
            Epoch e = read_epoch(*reader);
            ENSURE(!e.failed, "epoch ", i, ": ", e.error);
            check_rows(rows_of(e.examples), want);
        }
        reader->reset();
    }
}

// A header row that cannot be read leaves nothing behind.
PBT_TEST_W(C10, broken_header, 0.5)
{
    std::size_t width = 1 + c.size(3);
    Row names;
    for (std::size_t i = 0; i < width; i++) {
        names.push_back("n" + std::to_string(i));
    }
    std::string text = csv_line(names) + ",\"open\n";
    std::size_t num_rows = c.size(3);
    for (std::size_t r = 0; r < num_rows; r++) {
        text += csv_line(Row(width, "5")) + "\n";
    }
    Csv_params cp;
    Data_reader_params p;
    p.batch_size = 1 + c.draw(2);
    p.dataset = {make_store(c, text, any_delivery(c))};
    auto reader = make_intrusive<Csv_reader>(p, cp);
    std::size_t n = 1 + c.draw(3);
    std::string ops;
    for (std::size_t i = 0; i < n; i++) {
        ops += static_cast<char>('0' + c.draw(2));
    }
    c.desc(ops, " ", quote(text));
    c.nontrivial(n > 1 && num_rows != 0);
    for (char op : ops) {
        std::string what;
        std::string kind = kind_of_error(
            [&] {
                if (op == '0') {
                    reader->read_schema();
                }
                else if (op == '1') {
                    reader->read_example();
                }
                else {
                    reader->reset();
                    reader->peek_example();
                }
            },
            &what);
        ENSURE(kind == "schema", "error is ", quote(kind), " ", what);
    }
}

// Parameters that are left out have their documented defaults.
PBT_TEST_W(C10, defaults, 0.5)
{
    std::size_t width = 1 + c.size(4);
    std::size_t rows = c.size(8);
    std::string text;
    for (std::size_t r = 0; r < rows + 1; r++) {
        if (c.chance(1, 5)) {
            text += "\n";
        }
        for (std::size_t k = 0; k < width; k++) {
            if (k != 0) {
                text += ',';
            }
            switch (r == 0 ? 4 : c.draw(5)) {
            case 0:
                text += std::to_string(c.draw(200));
                break;
            case 1:
                text += c.flag() ? "0x1f" : "1f";
                break;
            case 2:
                text += "\"a,b\"";
                break;
            case 3:
                text += c.flag() ? "NaN" : "1.5";
                break;
            case 4:
                text += c.pick<const char *>({"x", "y", "#x"});  // often not unique
                break;
            default:
                text += std::string(c.draw(40), 'w');
                break;
            }
        }
        text += "\n";
    }
    if (c.chance(1, 4)) {
        text += "\"open\nquote\"" + std::string(width - 1, ',') + "\n";
    }
    std::size_t stores = 1 + c.draw(1);
    Data_reader_params p;
    for (std::size_t i = 0; i < stores; i++) {
        p.dataset.push_back(make_store(c, text, Delivery::memory));
    }
    p.batch_size = 1 + c.draw(3);
    c.desc(stores, " x ", quote(text, 1500), " batch=", p.batch_size);
    c.nontrivial(rows > 0);

    Data_reader_params q = p;
    q.num_prefetched_examples = 0;
    q.num_parallel_reads = 0;
    q.last_example_handling = Last_example_handling::none;
    q.bad_example_handling = Bad_example_handling::error;
    q.warn_bad_instances = false;
    q.num_instances_to_skip = 0;
    q.num_instances_to_read = std::nullopt;
    q.shard_index = 0;
    q.num_shards = 0;
    q.sample_ratio = std::nullopt;
    q.shuffle_instances = false;
    q.shuffle_window = 0;
    q.shuffle_seed = std::nullopt;
    q.reshuffle_each_epoch = true;
    Csv_params cp;
    cp.header_row_index = 0;
    cp.has_single_header = false;
    cp.dedupe_column_names = true;
    cp.column_names = {};
    cp.name_prefix = "";
    cp.use_columns = {};
    cp.use_columns_by_index = {};
    cp.default_data_type = std::nullopt;
    cp.column_types = {};
    cp.column_types_by_index = {};
    cp.delimiter = ',';
    cp.quote_char = '"';
    cp.comment_char = std::nullopt;
    cp.allow_quoted_new_lines = false;
    cp.skip_blank_lines = true;
    cp.encoding = std::nullopt;
    cp.max_field_length = std::nullopt;
    cp.max_field_length_handling = Max_field_length_handling::treat_as_bad;
    cp.max_line_length = std::nullopt;
    cp.parser_options.nan_values = {};
    cp.parser_options.base = 10;

    auto read = [&](const Data_reader_params &dp, const Csv_params &params) {
        auto r = make_intrusive<Csv_reader>(dp, params);
        Epoch e = read_epoch(*r);
        r->reset();
        auto log = take_log();
        return std::make_pair(e, log);
    };
    auto [want, want_log] = read(q, cp);
    for (int i = 0; i < 2; i++) {
        auto [got, got_log] = i == 0 ? read(p, Csv_params{}) : read(q, {});
        ENSURE(got.failed == want.failed, "the default parameters fail with '",
               got.error, "', the documented ones with '", want.error, "'");
        if (want.failed) {  // which error comes first depends on the schedule
            continue;
        }
        ENSURE(got_log == want_log, "the default parameters log ", join(got_log), " instead of ",
               join(want_log));
        ENSURE(got.examples == want.examples, "the default parameters read ", show(got.examples),
               ", the documented ones ", show(want.examples));
    }
}

PBT_FIXED(C10, default_values)
{
    c.nontrivial(true);
    Csv_params p;
    ENSURE(p.header_row_index == std::optional<std::size_t>{0} && !p.has_single_header &&
               p.dedupe_column_names && p.column_names.empty() && p.name_prefix.empty(),
           "defaults of the header and the names");
    ENSURE(p.use_columns.empty() && p.use_columns_by_index.empty() && !p.default_data_type &&
               p.column_types.empty() && p.column_types_by_index.empty(),
           "defaults of the columns and the types");
    ENSURE(p.delimiter == ',' && p.quote_char == '"' && !p.comment_char &&
               !p.allow_quoted_new_lines && p.skip_blank_lines && !p.encoding,
           "defaults of the dialect");
    ENSURE(!p.max_field_length && !p.max_line_length &&
               p.max_field_length_handling == Max_field_length_handling::treat_as_bad &&
               p.parser_options.nan_values.empty() && p.parser_options.base == 10,
           "defaults of the limits and of parsing");
    Data_reader_params d;
    ENSURE(d.dataset.empty() && d.num_instances_to_skip == 0 && !d.num_instances_to_read &&
               d.num_shards == 0 && d.shard_index == 0 && !d.sample_ratio && !d.shuffle_instances &&
               d.shuffle_window == 0 && !d.shuffle_seed && d.reshuffle_each_epoch,
           "defaults of the selection");
    ENSURE(d.last_example_handling == Last_example_handling::none &&
               d.bad_example_handling == Bad_example_handling::error && !d.warn_bad_instances &&
               d.num_prefetched_examples == 0 && d.num_parallel_reads == 0,
           "defaults of the handling");
}
