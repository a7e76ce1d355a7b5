// C03: batching partitions the dataset; last-batch handling is exact.
#include "numbered.h"

using namespace mlio;
using namespace pbt;

PBT_TEST(C03, batches_partition)
{
    Numbered n = any_numbered(c, c.chance(1, 10) ? 300 : 40);
    Data_reader_params p;
    any_buffer_sizes(c);
    n.fill(c, p);
    p.batch_size = c.chance(1, 8) ? n.total + c.draw(3) : 1 + c.size(12);
    if (p.batch_size == 0) {
        p.batch_size = 1;
    }
    if (c.chance(1, 3) && n.total > 0) {  // a divisor of the size
        std::size_t k = 1 + c.draw(n.total - 1);
        while (n.total % k != 0) {
            k--;
        }
        p.batch_size = k;
    }
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    any_parallelism(c, p);
    // Bad example handling must not matter for a dataset without bad instances.
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    std::size_t rest = n.total % p.batch_size;
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling),
           " bad=", static_cast<int>(p.bad_example_handling));
    c.nontrivial(n.total > p.batch_size && rest != 0);
    c.tag(rest != 0 ? "incomplete last batch" : "even");

    auto reader = n.make(p);
    std::size_t epochs = c.weighted({4, 1}) + 1;
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            reader->reset();
        }
        Epoch e = read_epoch(*reader);
        ENSURE(!e.failed, "reading failed: ", e.error);

        bool drop = p.last_example_handling == Last_example_handling::drop ||
                    p.last_example_handling == Last_example_handling::drop_warn;
        bool pad = p.last_example_handling == Last_example_handling::pad ||
                   p.last_example_handling == Last_example_handling::pad_warn;
        std::size_t full = n.total / p.batch_size;
        std::size_t count = full + (rest != 0 && !drop ? 1 : 0);
        ENSURE(e.examples.size() == count, e.examples.size(), " examples instead of ", count);
        std::size_t at = 0;
        for (std::size_t i = 0; i < count; i++) {
            const Ex &ex = e.examples[i];
            std::size_t size = i < full || pad ? p.batch_size : rest;
            std::size_t padding = i < full ? 0 : pad ? p.batch_size - rest : 0;
            ENSURE(ex.columns.at(0).shape.at(0) == size, "example ", i, " has the batch size ",
                   ex.columns[0].shape[0], " instead of ", size);
            ENSURE(ex.padding == padding, "example ", i, " has the padding ", ex.padding,
                   " instead of ", padding);
            auto ids = n.ids(ex);
            check_ids(ids, iota(at, at + size - padding), "the instances of example " +
                                                              std::to_string(i));
            at += ids.size();
        }
    }
}

PBT_TEST_W(C03, zero_batch_refused, 0.02)
{
    Numbered n = any_numbered(c, 3);
    Data_reader_params p;
    n.fill(c, p);
    p.batch_size = 0;
    c.desc(n.show(), " batch=0");
    c.nontrivial();
    auto k = kind_of_error([&] {
        n.make(p);
    });
    ENSURE(k == "invalid_argument", "a batch size of zero gives ", k);
}
