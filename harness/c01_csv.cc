// C01: CSV datasets decode to exactly the fields that were written.
#include "csv_model.h"

using namespace mlio;
using namespace pbt;

namespace {

enum class Header { none, at_index, names_and_header, names_only };

}  // namespace

PBT_TEST(C01, fields_round_trip)
{
    Csv_dialect d = any_dialect(c);
    std::size_t width = 1 + c.size(6);
    std::size_t num_stores = c.weighted({6, 2, 1}) + 1;
    auto header = static_cast<Header>(c.weighted({3, 3, 1, 1}));
    bool has_header = header == Header::at_index || header == Header::names_and_header;
    std::size_t header_index = has_header && c.flag() ? c.draw(3) : 0;
    bool single_header = has_header && num_stores > 1 && c.flag();

    Data_reader_params p;
    Csv_params cp;
    d.apply(cp);
    cp.default_data_type = Data_type::string;
    cp.header_row_index =
        has_header ? std::optional<std::size_t>{header_index} : std::nullopt;
    cp.has_single_header = single_header;
    if (c.chance(1, 3)) {
        cp.encoding = Text_encoding::utf8;
    }

    // Unique names; the renaming of duplicates is C10's.
    Row names;
    for (std::size_t i = 0; i < width; i++) {
        std::string n = any_field(c, d, 3);
        names.push_back(n + std::to_string(i));
    }
    if (header == Header::names_and_header || header == Header::names_only) {
        cp.column_names = names;
    }
    Row schema_names = names;
    if (header == Header::none) {
        for (std::size_t i = 0; i < width; i++) {
            schema_names[i] = std::to_string(i + 1);
        }
    }

    Rows all;
    std::size_t quoted = 0, noise = 0;
    std::string texts;
    any_buffer_sizes(c);
    // A single header is in the first data store that is not empty.
    std::size_t first = single_header && header == Header::at_index && c.chance(1, 3)
                            ? c.draw(num_stores - 1) : 0;
    for (std::size_t s = 0; s < num_stores; s++) {
        std::size_t num_rows = s < first ? 0 : c.size(12);
        bool header_here = has_header && (s == first || (s > first && !single_header));
        Rows lines;
        if (header_here) {
            for (std::size_t i = 0; i < header_index; i++) {
                Row junk;
                std::size_t w = 1 + c.draw(3);
                for (std::size_t k = 0; k < w; k++) {
                    junk.push_back("j" + any_field(c, d, 3));
                }
                lines.push_back(junk);
            }
            Row h = names;
            if (header == Header::names_and_header || s != first) {
                h[c.draw(width - 1)] += "other";  // ignored
            }
            lines.push_back(h);
        }
        for (std::size_t i = 0; i < num_rows; i++) {
            Row r;
            for (std::size_t k = 0; k < width; k++) {
                r.push_back(any_field(c, d));
            }
            lines.push_back(r);
            all.push_back(r);
        }
        Csv_writer w{c, d};
        for (std::size_t i = 0; i < lines.size(); i++) {
            w.row(lines[i], i + 1 == lines.size());
        }
        quoted += w.quoted();
        noise += w.noise_lines();
        texts += " store" + std::to_string(s) + "=" + quote(w.text(), 300);
        Delivery del = any_delivery(c);
        texts += std::string(" via ") + name_of(del);
        p.dataset.push_back(make_store(c, w.text(), del));
    }

    std::vector<std::size_t> kept;
    std::size_t select = c.weighted({4, 1, 1, 1});
    for (std::size_t i = 0; i < width; i++) {
        bool by_index = false, by_name = false;
        if (select == 1 || select == 3) {
            by_index = c.flag();
        }
        if (select == 2 || select == 3) {
            by_name = c.flag();
        }
        if (by_index) {
            cp.use_columns_by_index.insert(i);
        }
        if (by_name) {
            cp.use_columns.insert(schema_names[i]);
        }
    }
    for (std::size_t i = 0; i < width; i++) {
        // An empty set means no selection.
        bool a = cp.use_columns_by_index.empty() || cp.use_columns_by_index.count(i) != 0;
        bool b = cp.use_columns.empty() || cp.use_columns.count(schema_names[i]) != 0;
        if (a && b) {
            kept.push_back(i);
        }
    }
    if (kept.empty()) {
        c.discard();
    }

    p.batch_size = 1 + c.size(8);
    any_parallelism(c, p);
    c.desc(d.show(), " width=", width, " header=", static_cast<int>(header), "@", header_index,
           single_header ? " single" : "", " cols=", join(kept), " batch=", p.batch_size, texts);
    c.nontrivial(all.size() > 1 && (quoted > 0 || noise > 0 || num_stores > 1));

    Csv_reader reader{p, cp};
    bool early_schema = c.flag();
    Intrusive_ptr<const Schema> schema;
    if (early_schema) {
        schema = reader.read_schema();
    }
    Epoch e = read_epoch(reader);
    ENSURE(!e.failed, "reading failed: ", e.error);

    Rows want;
    for (const Row &r : all) {
        Row k;
        for (std::size_t i : kept) {
            k.push_back(r[i]);
        }
        want.push_back(k);
    }
    check_rows(rows_of(e.examples), want);
    if (!e.examples.empty()) {
        for (std::size_t i = 0; i < kept.size(); i++) {
            ENSURE(e.examples[0].columns.at(i).name == schema_names[kept[i]], "column ", i,
                   " is named ", quote(e.examples[0].columns[i].name), " instead of ",
                   quote(schema_names[kept[i]]));
        }
        ENSURE(e.examples[0].columns.size() == kept.size(), "number of columns");
    }

    if (c.chance(1, 4)) {
        reader.reset();
        Epoch e2 = read_epoch(reader);
        ENSURE(!e2.failed, "the second epoch failed: ", e2.error);
        check_rows(rows_of(e2.examples), want, "second epoch: ");
    }
}
