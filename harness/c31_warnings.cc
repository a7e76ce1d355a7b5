// C31: what the reader reports about bad data. Every warning it promises is logged,
// once, and names what it is about; nothing else is logged; an error names the
// instance that is bad.
#include <algorithm>
#include <cctype>

#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

using B = Bad_example_handling;
using L = Last_example_handling;

// The numbers in a message, in order; with `marked` only those written as #<n>.
std::vector<std::size_t> numbers_in(const std::string &s, bool marked = false)
{
    std::vector<std::size_t> out;
    for (std::size_t i = 0; i < s.size();) {
        if (std::isdigit(static_cast<unsigned char>(s[i])) == 0) {
            i++;
            continue;
        }
        bool ok = !marked || (i != 0 && s[i - 1] == '#');
        std::size_t v = 0;
        while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i])) != 0) {
            v = v * 10 + static_cast<std::size_t>(s[i++] - '0');
        }
        if (ok) {
            out.push_back(v);
        }
    }
    return out;
}

bool has_number(const std::string &s, std::size_t n)
{
    auto v = numbers_in(s);
    return std::find(v.begin(), v.end(), n) != v.end();
}

// An instance as a message names it.
struct Place {
    std::string store;
    std::size_t index{};

    bool operator<(const Place &o) const
    {
        return std::tie(store, index) < std::tie(o.store, o.index);
    }
    bool operator==(const Place &o) const
    {
        return store == o.store && index == o.index;
    }
};

std::string show(const Place &p)
{
    return "#" + std::to_string(p.index) + " of " + p.store;
}

struct Log {
    std::vector<Place> instances;
    std::map<std::size_t, std::vector<std::string>> examples;  // by the number of the example
    std::vector<std::string> others;
};

// Messages about an instance quote the data store; messages about an example do not.
Log sort_log(const std::vector<std::string> &log, const std::vector<std::string> &ids)
{
    Log out;
    for (auto &m : log) {
        std::string store;
        for (auto &id : ids) {
            if (m.find("'" + id + "'") != std::string::npos) {
                store = id;
            }
        }
        std::string rest = m;
        if (!store.empty()) {
            rest.erase(rest.find("'" + store + "'"), store.size() + 2);
        }
        auto marked = numbers_in(rest, true);
        if (!store.empty()) {
            ENSURE(!marked.empty(), "a warning about no instance: ", quote(m));
            out.instances.push_back({store, marked[0]});
        }
        else if (!marked.empty()) {
            out.examples[marked[0]].push_back(m);
        }
        else {
            out.others.push_back(m);
        }
    }
    std::sort(out.instances.begin(), out.instances.end());
    return out;
}

// How often each place occurs.
std::map<Place, std::size_t> tally(const std::vector<Place> &v)
{
    std::map<Place, std::size_t> m;
    for (auto &p : v) {
        m[p]++;
    }
    return m;
}

struct Batch {
    std::size_t from{};
    std::size_t to{};
    std::vector<Place> bad;
};

}  // namespace

PBT_TEST(C31, bad_instances)
{
    Numbered n = any_numbered(c, c.chance(1, 10) ? 150 : 30);
    if (n.format == Format::text) {
        n.format = Format::csv;
    }
    Data_reader_params p;
    any_buffer_sizes(c);
    p.batch_size = 1 + c.size(10);
    p.last_example_handling = static_cast<L>(c.draw(4));
    p.bad_example_handling = static_cast<B>(c.draw(4));
    p.warn_bad_instances = !c.chance(1, 4);
    bool quiet = c.chance(1, 12);  // warnings are not wanted at all
    any_parallelism(c, p);

    bool images = n.format == Format::image_recordio || n.format == Format::image_file;
    std::size_t lo = images ? 0 : 1;  // the schema comes from the first instance
    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    std::size_t skip = 0;
    if (c.chance(1, 3)) {
        skip = c.size(std::max<std::size_t>(total, 1));
        p.num_instances_to_skip = skip;
    }
    if (total > lo) {
        switch (c.weighted({1, 5, 3, 2})) {
        case 0:
            break;
        case 1: {
            std::size_t k = 1 + c.size(5);
            for (std::size_t i = 0; i < k; i++) {
                n.bad.insert(c.range(lo, total - 1));
            }
            break;
        }
        case 2:
            for (std::size_t i = lo; i < total; i++) {
                if (c.flag()) {
                    n.bad.insert(i);
                }
            }
            break;
        default:
            for (std::size_t i = lo; i < total; i++) {
                n.bad.insert(i);
            }
            break;
        }
    }
    if (lo != 0) {
        n.bad.erase(skip);
    }
    n.fill(c, p);
    std::size_t end = total;
    if (c.chance(1, 4)) {
        std::size_t k = 1 + c.size(std::max<std::size_t>(total, 1));
        p.num_instances_to_read = k;
        end = std::min(total, skip + k);
    }
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling),
           " bad_handling=", static_cast<int>(p.bad_example_handling),
           " warn=", p.warn_bad_instances, " quiet=", quiet, " skip=", skip, " end=", end,
           " prefetch=", p.num_prefetched_examples, " reads=", p.num_parallel_reads);

    // Where each instance lies.
    std::vector<std::string> ids;
    std::vector<Place> places;
    std::size_t store = 0;
    for (std::size_t s = 0; s < n.store_sizes.size(); s++) {
        if (n.format == Format::image_file) {
            for (std::size_t i = 0; i < n.store_sizes[s]; i++) {
                places.push_back({p.dataset.at(store++)->id(), 0});
            }
        }
        else {
            for (std::size_t i = 0; i < n.store_sizes[s]; i++) {
                places.push_back({p.dataset.at(store)->id(), i});
            }
            store++;
        }
    }
    for (auto &s : p.dataset) {
        ids.push_back(s->id());
    }

    // What is to be reported.
    bool error = p.bad_example_handling == B::error;
    bool skips = p.bad_example_handling == B::skip || p.bad_example_handling == B::skip_warn;
    std::vector<Batch> batches;
    std::size_t first_bad = SIZE_MAX;  // batch
    std::size_t incomplete = 0;        // instances of the incomplete example
    for (std::size_t at = skip; at < end; at += p.batch_size) {
        Batch b;
        b.from = at;
        b.to = std::min(end, at + p.batch_size);
        if (b.to - b.from < p.batch_size) {
            incomplete = b.to - b.from;
            if (p.last_example_handling == L::drop || p.last_example_handling == L::drop_warn) {
                break;
            }
        }
        for (std::size_t i = b.from; i < b.to; i++) {
            if (n.bad.count(i) != 0) {
                b.bad.push_back(places[i]);
            }
        }
        if (!b.bad.empty() && first_bad == SIZE_MAX) {
            first_bad = batches.size();
        }
        batches.push_back(b);
    }
    std::vector<Place> all_bad;
    for (auto &b : batches) {
        all_bad.insert(all_bad.end(), b.bad.begin(), b.bad.end());
    }
    bool fails = error && first_bad != SIZE_MAX;
    c.nontrivial(first_bad != SIZE_MAX && (p.warn_bad_instances || !skips || incomplete != 0));
    c.tag(fails ? "error" : skips ? "skip" : "pad");

    if (quiet) {
        set_log_level(Log_level::off);
    }
    auto reader = n.make(p);
    std::size_t epochs = 1 + c.weighted({3, 1});
    for (std::size_t ep = 0; ep < epochs; ep++) {
        Epoch e = read_epoch(*reader);
        std::string where;
        if (fails) {
            ENSURE(e.failed, "no error was reported");
            // The error names a bad instance; which of several depends on the schedule.
            bool named = false;
            for (auto &b : all_bad) {
                if (e.error.find("'" + b.store + "'") != std::string::npos) {
                    std::string rest = e.error;
                    for (std::size_t k; (k = rest.find("'" + b.store + "'")) != std::string::npos;) {
                        rest.erase(k, b.store.size() + 2);
                    }
                    auto m = numbers_in(rest, true);
                    named = named || std::find(m.begin(), m.end(), b.index) != m.end();
                }
            }
            ENSURE(named, "the error does not name a bad instance: ", e.error);
        }
        else {
            ENSURE(!e.failed, "reading failed: ", e.error);
        }
        // Once the reader is at rest, no example is on its way any more.
        reader->reset();
        auto raw = take_log();
        if (quiet) {
            ENSURE(raw.empty(), "warnings although they are turned off: ", raw[0]);
            continue;
        }
        Log log = sort_log(raw, ids);

        // Instances.
        auto want = tally(all_bad);
        auto got = tally(log.instances);
        if (!p.warn_bad_instances) {
            ENSURE(got.empty(), "a warning about the instance ", show(got.begin()->first),
                   " that was not asked for");
        }
        else {
            for (auto &[place, k] : got) {
                ENSURE(want.count(place) != 0, "a warning about the instance ", show(place),
                       ", which is not bad or not read");
                ENSURE(k <= want[place], k, " warnings about the instance ", show(place),
                       " instead of ", want[place]);
            }
            if (fails) {
                ENSURE(!got.empty(), "no warning about the bad instances");
            }
            else if (skips) {
                // The rest of an example is not looked at once it is to be skipped.
                for (std::size_t i = 0; i < batches.size(); i++) {
                    auto &bad = batches[i].bad;
                    bool any = bad.empty() || std::any_of(bad.begin(), bad.end(), [&](auto &b) {
                        return got.count(b) != 0;
                    });
                    ENSURE(any, "no warning about the bad instances of the skipped example #", i);
                }
            }
            else {
                for (auto &[place, k] : want) {
                    ENSURE(got.count(place) != 0 && got[place] == k, "no warning about the instance ",
                           show(place));
                }
            }
        }

        // Examples.
        bool tells = p.bad_example_handling == B::skip_warn || p.bad_example_handling == B::pad_warn;
        for (auto &[idx, msgs] : log.examples) {
            ENSURE(tells, "an unexpected warning: ", msgs[0]);
            ENSURE(idx < batches.size() && !batches[idx].bad.empty(), "a warning about the example #",
                   idx, ", which has no bad instance: ", msgs[0]);
            ENSURE(msgs.size() == 1, msgs.size(), " warnings about the example #", idx);
            if (p.bad_example_handling == B::pad_warn) {
                auto v = numbers_in(msgs[0]);
                ENSURE(std::count(v.begin(), v.end(), batches[idx].bad.size()) >=
                           (idx == batches[idx].bad.size() ? 2 : 1),
                       "the warning about the example #", idx, " with ", batches[idx].bad.size(),
                       " bad instance(s) is ", msgs[0]);
            }
        }
        if (tells) {
            for (std::size_t i = 0; i < batches.size(); i++) {
                ENSURE(batches[i].bad.empty() || log.examples.count(i) != 0,
                       "no warning about the example #", i);
            }
        }

        // The last one. After an error it may not have been reached.
        bool tells_last = incomplete != 0 && (p.last_example_handling == L::drop_warn ||
                                              p.last_example_handling == L::pad_warn);
        ENSURE(log.others.size() <= (tells_last ? 1 : 0), "an unexpected warning: ",
               log.others.back());
        if (tells_last && !fails) {
            ENSURE(log.others.size() == 1, "no warning about the incomplete last example");
        }
        for (auto &m : log.others) {
            ENSURE(has_number(m, incomplete) && has_number(m, p.batch_size),
                   "the warning about the last example of ", incomplete, " out of ", p.batch_size,
                   " instances is ", m);
        }
    }
}

// Fields that are truncated: one warning each, which names the row and the column.
PBT_TEST_W(C31, truncated_fields, 0.3)
{
    std::size_t cols = 1 + c.draw(4);
    std::size_t rows = 1 + c.size(20);
    std::size_t limit = 2 + c.draw(7);  // not shorter than the names
    Csv_params cp;
    Data_reader_params p;
    cp.max_field_length = limit;
    auto how = static_cast<Max_field_length_handling>(c.draw(2));
    cp.max_field_length_handling = how;
    cp.default_data_type = Data_type::string;
    p.batch_size = 1 + c.size(6);
    p.bad_example_handling = c.flag() ? B::pad : B::skip;
    p.warn_bad_instances = c.flag();
    any_parallelism(c, p);
    any_buffer_sizes(c);

    std::set<std::string> used;
    std::string text;
    for (std::size_t k = 0; k < cols; k++) {
        text += (k != 0 ? ",c" : "c") + std::to_string(k);
        if (c.chance(3, 4) || (k + 1 == cols && used.empty())) {
            used.insert("c" + std::to_string(k));
        }
    }
    text += "\n";
    bool all = c.flag();
    if (!all) {
        cp.use_columns.insert(used.begin(), used.end());
    }
    std::vector<std::pair<std::size_t, std::string>> longs;  // row, column
    std::set<std::size_t> rows_with_longs;
    for (std::size_t r = 0; r < rows; r++) {
        for (std::size_t k = 0; k < cols; k++) {
            std::size_t len = c.chance(2, 3) ? c.draw(limit) : limit + c.draw(3);
            text += (k != 0 ? "," : "") + std::string(std::max<std::size_t>(len, 1), 'z');
            std::string name = "c" + std::to_string(k);
            if (len > limit && (all || used.count(name) != 0)) {
                longs.emplace_back(r, name);
                rows_with_longs.insert(r);
            }
        }
        text += "\n";
    }
    p.dataset = {make_store(c, text, any_delivery(c))};
    const std::string &id = p.dataset[0]->id();
    c.desc("limit=", limit, " how=", static_cast<int>(how), " ", quote(text, 1500));
    c.nontrivial(!longs.empty() && rows > 1);

    auto reader = make_intrusive<Csv_reader>(p, cp);
    Epoch e = read_epoch(*reader);
    ENSURE(!e.failed, e.error);
    reader->reset();
    std::vector<std::pair<std::size_t, std::string>> got;
    for (auto m : take_log()) {
        auto at = m.find("'" + id + "'");
        ENSURE(at != std::string::npos, "a warning without the data store: ", m);
        m.erase(at, id.size() + 2);
        auto marked = numbers_in(m, true);
        ENSURE(marked.size() == 1, "a warning without the row: ", m);
        std::string col;
        for (std::size_t k = 0; k < cols; k++) {
            if (m.find("'c" + std::to_string(k) + "'") != std::string::npos) {
                col = "c" + std::to_string(k);
            }
        }
        got.emplace_back(marked[0], col);
    }
    std::sort(got.begin(), got.end());
    auto show_all = [](auto &v) {
        std::string s;
        for (auto &[r, n] : v) {
            s += " " + std::to_string(r) + ":" + n;
        }
        return s;
    };
    switch (how) {
    case Max_field_length_handling::truncate:
        ENSURE(got.empty(), "warnings for", show_all(got));
        break;
    case Max_field_length_handling::truncate_warn:
        ENSURE(got == longs, "warnings for", show_all(got), " instead of", show_all(longs));
        break;
    default:
        if (!p.warn_bad_instances) {
            ENSURE(got.empty(), "warnings for", show_all(got));
            break;
        }
        // A row is bad with its first field that is too long.
        std::set<std::size_t> told;
        for (auto &g : got) {
            ENSURE(std::find(longs.begin(), longs.end(), g) != longs.end(), "a warning for row ",
                   g.first, " column ", g.second);
            ENSURE(told.insert(g.first).second, "two warnings for row ", g.first);
        }
        if (p.bad_example_handling == B::pad) {
            ENSURE(told == rows_with_longs, told.size(), " rows are reported instead of ",
                   rows_with_longs.size());
        }
        else {
            ENSURE(told.empty() == rows_with_longs.empty(), told.size(), " rows are reported");
        }
        break;
    }
}

// A report quotes the data store, the column and the value as they are, whatever
// characters they consist of, and says how many columns a row has.
PBT_TEST_W(C31, quoted_texts, 0.3)
{
    static const std::vector<std::string> parts{"{",  "}",   "{0}", "{}",   "{1:n}", "%s", "%n", "\\",
                                                "#",  "a",   "é",   "\xff", "{3:.64}", "%%", "$1", "<"};
    auto wild = [&](std::size_t n) {
        std::string s{"w"};
        for (std::size_t i = c.draw(n); i > 0; i--) {
            s += c.pick(parts);
        }
        return s;
    };
    std::size_t cols = 1 + c.draw(3);
    std::size_t rows = 2 + c.size(8);
    std::size_t row = c.range(1, rows - 1);  // the schema comes from the first one
    std::size_t col = c.draw(cols - 1);
    std::vector<std::string> names;
    std::string text;
    for (std::size_t k = 0; k < cols; k++) {
        names.push_back(std::to_string(k) + wild(4));
        text += (k != 0 ? "," : "") + names.back();
    }
    text += "\n";
    // 0: a value, 1: a long value, 2: too few or too many columns
    unsigned flaw = static_cast<unsigned>(c.draw(2));
    std::string value = wild(5);
    std::size_t actual = cols;
    Csv_params cp;
    cp.default_data_type = Data_type::int32;
    if (flaw == 1) {
        cp.max_field_length = 400;
        value = wild(5) + std::string(500, '1');
    }
    for (std::size_t r = 0; r < rows; r++) {
        std::size_t n = cols;
        if (flaw == 2 && r == row) {
            n = c.chance(1, 3) && cols > 1 ? c.range(1, cols - 1) : cols + 1 + c.draw(3);
            actual = n;
        }
        for (std::size_t k = 0; k < n; k++) {
            text += k != 0 ? "," : "";
            text += r == row && k == col && flaw != 2 ? value : "1";
        }
        text += "\n";
    }
    std::string path = scratch_dir("w") + "/" + wild(5) + "w";
    write_file(path, text);
    bool error = c.flag();
    Data_reader_params p;
    p.dataset = {make_intrusive<File>(path, c.flag(), Compression::none)};
    p.batch_size = 1 + c.size(3);
    p.bad_example_handling = error ? B::error : B::pad;
    p.warn_bad_instances = !error || c.flag();
    any_parallelism(c, p);
    any_buffer_sizes(c);
    c.desc(quote(path), " ", quote(text, 1500), error ? " error" : " warning");

    auto reader = make_intrusive<Csv_reader>(p, cp);
    Epoch e = read_epoch(*reader);
    reader->reset();
    auto log = take_log();
    ENSURE(e.failed == error, error ? "no error" : "an error: " + e.error);
    if (p.warn_bad_instances) {
        ENSURE(log.size() == 1, log.size(), " warnings");
    }
    if (error) {
        log.push_back(e.error);
    }
    for (auto m : log) {
        auto take = [&](const std::string &what, const std::string &text) {
            auto at = m.find(text);
            ENSURE(at != std::string::npos, "the ", what, " ", quote(text), " is missing: ", quote(m, 2000));
            m.erase(at, text.size());
        };
        take("data store", "'" + path + "'");
        if (flaw == 2) {
            auto v = numbers_in(m);
            std::vector<std::size_t> want{row, actual, cols};
            std::sort(v.begin(), v.end());
            std::sort(want.begin(), want.end());
            ENSURE(v == want, "row ", row, " with ", actual, " instead of ", cols, " columns: ", m);
            continue;
        }
        take("column", "'" + names[col] + "'");
        // Of a long value only the beginning is shown.
        take("value", flaw == 0 ? "'" + value + "'" : "'" + value.substr(0, 50));
        auto marked = numbers_in(m, true);
        ENSURE(marked.size() == 1 && marked[0] == row, "the row #", row, " is missing: ", m);
    }
    c.nontrivial(rows > 2 || cols > 1);
    c.tag(flaw == 2 ? "column counts" : "values");
}
