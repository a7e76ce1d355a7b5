// C07: reader lifecycle: peek, read, schema and reset, over random histories.
#include "numbered.h"

using namespace mlio;
using namespace pbt;

PBT_TEST(C07, histories)
{
    Numbered n = any_numbered(c, c.chance(1, 8) ? 200 : 24);
    Data_reader_params p;
    any_buffer_sizes(c);
    p.batch_size = 1 + c.size(6);
    p.last_example_handling = c.pick({Last_example_handling::none, Last_example_handling::drop,
                                      Last_example_handling::pad});
    any_parallelism(c, p);
    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    bool with_error = n.format != Format::text && total > 1 && c.chance(1, 4);
    if (with_error) {
        n.bad.insert(c.range(1, total - 1));
    }
    std::size_t skip = c.chance(1, 6) ? c.draw(total) : 0;
    bool shuffled = !with_error && c.chance(1, 5);
    if (skip != 0) {
        p.num_instances_to_skip = skip;
    }
    if (shuffled) {
        p.shuffle_instances = true;
        p.reshuffle_each_epoch = false;
        p.shuffle_window = c.draw(5);
        p.shuffle_seed = c.draw(1000);
    }
    n.bad.erase(skip);  // the schema comes from the first instance
    n.fill(c, p);
    c.desc(n.show(), " batch=", p.batch_size, " skip=", skip, " shuffled=", shuffled, " window=",
           p.shuffle_window, " prefetch=", p.num_prefetched_examples);

    // The epoch, as a fresh reader delivers it; its content is checked by
    // the numbers unless shuffled.
    Epoch ref = read_epoch(*n.make(p));
    if (!ref.failed && !shuffled) {
        auto want = iota(std::min(skip, total), total);
        if (p.last_example_handling == Last_example_handling::drop) {
            want.resize(want.size() / p.batch_size * p.batch_size);
        }
        check_ids(epoch_ids(n, ref), want);
    }
    // With an error, the longest correct sequence is not known from one run;
    // read it in skip mode: the examples before the faulty one.
    std::vector<Ex> want = ref.examples;
    if (ref.failed) {
        Data_reader_params q = p;
        q.bad_example_handling = Bad_example_handling::skip;
        Epoch sk = read_epoch(*n.make(q));
        ENSURE(!sk.failed, "skip mode failed: ", sk.error);
        want = sk.examples;  // may hold examples after the faulty one; see below
        std::size_t bad = *n.bad.begin();
        if (!shuffled && bad >= skip) {
            want.resize(std::min(want.size(), (bad - skip) / p.batch_size));
        }
    }

    for (auto &ex : want) {
        ex = by_name(std::move(ex));
    }

    auto reader = n.make(p);
    Intrusive_ptr<const Schema> schema;
    std::size_t pos = 0;
    bool failed = false;       // in this epoch
    Intrusive_ptr<Example> peeked;
    std::size_t ops = 1 + c.size(24);
    std::string hist;
    std::size_t resets = 0, peeks = 0;
    std::vector<Intrusive_ptr<Example>> kept;
    std::vector<Ex> kept_values;

    auto check = [&](const Intrusive_ptr<Example> &e, const char *op) {
        if (e == nullptr) {
            ENSURE(!ref.failed && pos == want.size(), op, " returned the end of data at example ", pos,
                   " of ", want.size(), " after", hist);
            return;
        }
        ENSURE(!failed, op, " returned an example after an error, after", hist);
        ENSURE(pos < want.size(), op, " returned more than ", want.size(), " examples after", hist);
        Ex got = by_name(to_ex(*e));
        ENSURE(got == want[pos], op, " returned ", pbt::show(got), " instead of example ", pos, ": ",
               pbt::show(want[pos]), " after", hist);
        if (schema != nullptr) {
            ENSURE(&e->schema() == schema.get(), "the example has another schema object after", hist);
        }
    };

    for (std::size_t i = 0; i < ops; i++) {
        switch (c.weighted({6, 4, 1, 2})) {
        case 0: {
            hist += " read";
            Intrusive_ptr<Example> e;
            std::string what;
            auto k = kind_of_error([&] {
                e = reader->read_example();
            }, &what);
            if (!k.empty()) {
                ENSURE(ref.failed && peeked == nullptr, "read failed after", hist, ": ", what);
                failed = true;
                break;
            }
            if (peeked != nullptr) {
                ENSURE(e == peeked, "read does not return the peeked example, after", hist);
            }
            check(e, "read");
            peeked = nullptr;
            if (e != nullptr) {
                pos++;
                kept_values.push_back(to_ex(*e));
                kept.push_back(std::move(e));
            }
            break;
        }
        case 1: {
            hist += " peek";
            peeks++;
            Intrusive_ptr<Example> e;
            std::string what;
            auto k = kind_of_error([&] {
                e = reader->peek_example();
            }, &what);
            if (!k.empty()) {
                ENSURE(ref.failed && peeked == nullptr, "peek failed after", hist, ": ", what);
                failed = true;
                break;
            }
            if (peeked != nullptr) {
                ENSURE(e == peeked, "peek returns another example than before, after", hist);
            }
            check(e, "peek");
            peeked = e;
            break;
        }
        case 2: {
            hist += " schema";
            Intrusive_ptr<const Schema> s;
            std::string what;
            auto k = kind_of_error([&] {
                s = reader->read_schema();
            }, &what);
            ENSURE(k.empty(), "read_schema failed after", hist, ": ", what);
            if (schema != nullptr) {
                ENSURE(s == schema, "another schema object after", hist);
            }
            schema = s;
            break;
        }
        case 3:
            hist += " reset";
            resets++;
            reader->reset();
            pos = 0;
            failed = false;
            peeked = nullptr;
            break;
        }
    }
    for (std::size_t i = 0; i < kept.size(); i++) {
        ENSURE(to_ex(*kept[i]) == kept_values[i], "an example returned earlier has changed");
    }
    c.desc(" history:", hist);
    c.nontrivial(resets > 0 && peeks > 0 && want.size() > 1);
    if (ref.failed) {
        c.tag("with an error");
    }
}
