// C04: bad instances are reported, skipped or padded out, never mixed in.
#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

struct Want {
    std::vector<std::size_t> good;
    std::size_t size{};
};

void bad_case(Case &c, Numbered &n, bool warn)
{
    Data_reader_params p;
    any_buffer_sizes(c);
    p.batch_size = 1 + c.size(10);
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    p.warn_bad_instances = warn && c.flag();
    any_parallelism(c, p);

    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    bool images = n.format == Format::image_recordio || n.format == Format::image_file;
    std::size_t lo = images ? 0 : 1;  // the schema comes from the first instance
    if (total > lo && n.format != Format::text) {
        switch (c.weighted({1, 6, 2, 2})) {
        case 0:
            break;
        case 1: {
            std::size_t k = 1 + c.size(5);
            for (std::size_t i = 0; i < k; i++) {
                n.bad.insert(c.range(lo, total - 1));
            }
            break;
        }
        case 2: {  // a whole batch
            std::size_t b = c.draw((total - 1) / p.batch_size);
            for (std::size_t i = b * p.batch_size; i < std::min(total, (b + 1) * p.batch_size); i++) {
                if (i >= lo) {
                    n.bad.insert(i);
                }
            }
            break;
        }
        case 3:
            for (std::size_t i = lo; i < total; i++) {
                if (c.flag()) {
                    n.bad.insert(i);
                }
            }
            break;
        }
    }
    n.fill(c, p);
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling),
           " bad_handling=", static_cast<int>(p.bad_example_handling),
           " prefetch=", p.num_prefetched_examples, " reads=", p.num_parallel_reads);

    using B = Bad_example_handling;
    using L = Last_example_handling;
    bool error = p.bad_example_handling == B::error;
    bool skip = p.bad_example_handling == B::skip || p.bad_example_handling == B::skip_warn;
    bool pad_last = p.last_example_handling == L::pad || p.last_example_handling == L::pad_warn;
    bool drop_last = p.last_example_handling == L::drop || p.last_example_handling == L::drop_warn;

    std::vector<Want> want;
    bool fails = false;
    for (std::size_t at = 0; at < total; at += p.batch_size) {
        Want w;
        std::size_t end = std::min(total, at + p.batch_size);
        if (end - at < p.batch_size && drop_last) {
            break;
        }
        w.size = pad_last ? p.batch_size : end - at;
        bool bad = false;
        for (std::size_t i = at; i < end; i++) {
            if (n.bad.count(i) != 0) {
                bad = true;
            }
            else {
                w.good.push_back(i);
            }
        }
        if (bad && error) {
            fails = true;
            break;
        }
        if (!(bad && skip)) {
            want.push_back(w);
        }
    }
    c.nontrivial(!n.bad.empty() && n.bad.size() < total);
    c.tag(error ? "error mode" : skip ? "skip mode" : "pad mode");

    auto reader = n.make(p);
    std::size_t epochs = c.weighted({3, 1}) + 1;
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            reader->reset();
        }
        Epoch e = read_epoch(*reader);
        if (fails) {
            ENSURE(e.failed, "no error was reported: ", e.examples.size(), " examples");
            ENSURE(e.error_kind == "instance" || e.error_kind == "data_reader" ||
                       (images && e.error_kind == "invalid_argument"),  // smaller than the crop
                   "the error is not a data reader error: ", e.error);
            ENSURE(e.examples.size() <= want.size(), "examples after the faulty batch");
        }
        else {
            ENSURE(!e.failed, "reading failed: ", e.error);
            ENSURE(e.examples.size() == want.size(), e.examples.size(), " examples instead of ",
                   want.size());
        }
        for (std::size_t i = 0; i < e.examples.size(); i++) {
            const Ex &ex = e.examples[i];
            ENSURE(ex.columns.at(0).shape.at(0) == want[i].size, "example ", i, " has the batch size ",
                   ex.columns[0].shape[0], " instead of ", want[i].size);
            ENSURE(ex.padding == want[i].size - want[i].good.size(), "example ", i,
                   " has the padding ", ex.padding, " instead of ", want[i].size - want[i].good.size());
            check_ids(n.ids(ex), want[i].good, "the instances of example " + std::to_string(i));
        }
    }
}

}  // namespace

PBT_TEST(C04, bad_instances)
{
    Numbered n = any_numbered(c, c.chance(1, 10) ? 200 : 30);
    if (n.format == Format::text) {
        n.format = Format::csv;
    }
    bad_case(c, n, true);
}
