// C30: bytes read equal the payload bytes of the delivered data.
#include "numbered.h"

using namespace mlio;
using namespace pbt;

PBT_TEST(C30, bytes_read)
{
    Numbered n = any_numbered(c, c.chance(1, 8) ? 200 : 30);
    Data_reader_params p;
    any_buffer_sizes(c);
    p.batch_size = 1 + c.size(8);
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    p.bad_example_handling = c.pick({Bad_example_handling::skip, Bad_example_handling::pad,
                                     Bad_example_handling::skip_warn, Bad_example_handling::pad_warn});
    any_parallelism(c, p);
    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    if (n.format != Format::text && total > 1) {
        std::size_t k = c.size(4);
        for (std::size_t i = 0; i < k; i++) {
            n.bad.insert(c.range(1, total - 1));
        }
    }
    p.num_instances_to_skip = c.chance(1, 4) ? c.draw(total) : 0;
    if (c.chance(1, 4)) {
        p.num_instances_to_read = c.draw(total);
    }
    p.shuffle_instances = n.bad.empty() && c.chance(1, 5);
    if (p.shuffle_instances) {
        p.last_example_handling = Last_example_handling::none;
    }
    n.bad.erase(p.num_instances_to_skip);  // the schema comes from the first instance
    n.fill(c, p);
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling),
           " bad=", static_cast<int>(p.bad_example_handling), " skip=", p.num_instances_to_skip,
           " shuffle=", p.shuffle_instances);
    c.nontrivial(total > p.batch_size);

    using L = Last_example_handling;
    bool skip = p.bad_example_handling == Bad_example_handling::skip ||
                p.bad_example_handling == Bad_example_handling::skip_warn;
    bool drop = p.last_example_handling == L::drop || p.last_example_handling == L::drop_warn;
    std::size_t want = 0;
    std::size_t lo = std::min(p.num_instances_to_skip, total);
    std::size_t hi = p.num_instances_to_read ? std::min(total, lo + *p.num_instances_to_read) : total;
    for (std::size_t at = lo; at < hi; at += p.batch_size) {
        std::size_t end = std::min(hi, at + p.batch_size);
        if (end - at < p.batch_size && drop) {
            break;
        }
        std::size_t size = 0;
        bool bad = false;
        for (std::size_t i = at; i < end; i++) {
            size += n.payload_sizes[i];
            bad = bad || n.bad.count(i) != 0;
        }
        want += bad && skip ? 0 : size;
    }

    auto reader = n.make(p);
    ENSURE(reader->num_bytes_read() == 0, "bytes are counted before reading: ", reader->num_bytes_read());
    if (c.flag()) {
        reader->read_schema();
        ENSURE(reader->num_bytes_read() == 0, "reading the schema counts ", reader->num_bytes_read());
    }
    std::size_t epochs = 1 + c.weighted({2, 2, 1});
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            reader->reset();
            ENSURE(reader->num_bytes_read() == 0, "after reset ", reader->num_bytes_read());
        }
        bool interrupt = c.chance(1, 4);
        std::size_t stop = interrupt ? c.size(5) : SIZE_MAX;
        std::size_t last = 0;
        std::size_t k = 0;
        bool end = false;
        for (; k < stop; k++) {
            auto e = reader->read_example();
            std::size_t now = reader->num_bytes_read();
            ENSURE(now >= last, "the number of bytes read fell from ", last, " to ", now);
            ENSURE(now <= want, now, " bytes read of ", want);
            last = now;
            if (e == nullptr) {
                end = true;
                break;
            }
        }
        if (end) {
            ENSURE(last == want, last, " bytes read at the end instead of ", want);
            reader->read_example();
            ENSURE(reader->num_bytes_read() == want, "the count changes after the end");
        }
    }
}
