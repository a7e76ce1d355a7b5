// C35: readers stream. How far a reader reads ahead, how many examples it decodes
// at once and how much memory it needs follow from its parameters and not from
// the size of the dataset, and what is not asked for is not read.
#include <atomic>
#include <chrono>
#include <thread>

#include <sanitizer/allocator_interface.h>
#include <tbb/tbb.h>
#include <unistd.h>

#include <mlio/parallel_data_reader.h>
#include <mlio/record_readers/record_reader.h>

#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

struct Counts {
    std::atomic_size_t records{};      // taken from the data stores
    std::atomic_size_t opened{};       // data stores
    std::atomic_size_t decoded{};      // batches
    std::atomic_size_t skipped{};      // of them
    std::atomic_size_t decoding{};     // at this moment
    std::atomic_size_t most_decoding{};

    void clear()
    {
        records = opened = decoded = skipped = decoding = most_decoding = 0;
    }
};

class Counting_record_reader final : public Record_reader {
public:
    Counting_record_reader(Counts &counts, std::size_t n) : counts_{&counts}, left_{n}
    {}

    std::optional<Record> read_record() final
    {
        if (peeked_) {
            return std::exchange(peeked_, std::nullopt);
        }
        if (left_ == 0) {
            return {};
        }
        left_--;
        counts_->records++;
        auto block = memory_allocator().allocate(8);
        return Record{Memory_slice{std::move(block)}};
    }

    std::optional<Record> peek_record() final
    {
        if (!peeked_) {
            peeked_ = read_record();
        }
        return peeked_;
    }

private:
    Counts *counts_;
    std::size_t left_;
    std::optional<Record> peeked_{};
};

class Counting_reader final : public Parallel_data_reader {
public:
    Counting_reader(Data_reader_params p, std::vector<std::size_t> stores, std::size_t skip_every,
                    unsigned decode_us)
        : Parallel_data_reader{std::move(p)}
        , stores_{std::move(stores)}
        , skip_every_{skip_every}
        , decode_us_{decode_us}
    {}

    ~Counting_reader() final
    {
        stop();
    }

    mutable Counts counts;

private:
    Intrusive_ptr<Record_reader> make_record_reader(const Data_store &store) final
    {
        counts.opened++;
        return make_intrusive<Counting_record_reader>(counts, stores_[std::stoul(store.id())]);
    }

    Intrusive_ptr<const Schema> infer_schema(const std::optional<Instance> &) final
    {
        std::vector<Attribute> a;
        a.emplace_back("v", Data_type::int64, Size_vector{params().batch_size, 1});
        return make_intrusive<Schema>(std::move(a));
    }

    Intrusive_ptr<Example> decode(const Instance_batch &batch) const final
    {
        std::size_t now = ++counts.decoding;
        std::size_t most = counts.most_decoding;
        while (now > most && !counts.most_decoding.compare_exchange_weak(most, now)) {
        }
        if (decode_us_ != 0) {
            ::usleep(decode_us_);
        }
        Intrusive_ptr<Example> e;
        if (skip_every_ != 0 && batch.index() % skip_every_ == skip_every_ - 1) {
            counts.skipped++;
        }
        else {
            std::vector<Intrusive_ptr<Tensor>> t;
            t.emplace_back(make_intrusive<Dense_tensor>(Size_vector{batch.size(), 1},
                                                        make_cpu_array(Data_type::int64, batch.size())));
            e = make_intrusive<Example>(schema(), std::move(t));
        }
        counts.decoded++;
        counts.decoding--;
        return e;
    }

    std::vector<std::size_t> stores_;
    std::size_t skip_every_;
    unsigned decode_us_;
};

// Waits until the reader does not get any further.
void settle(const Counts &n, unsigned us)
{
    std::size_t seen = SIZE_MAX;
    for (int i = 0; i < 20 && seen != n.records; i++) {
        seen = n.records;
        ::usleep(us);
    }
}

}  // namespace

PBT_TEST_W(C35, reading_ahead, 3.0)
{
    std::vector<std::size_t> stores;
    std::size_t k = 1 + c.size(12);
    std::size_t total = 0;
    for (std::size_t i = 0; i < k; i++) {
        stores.push_back(c.chance(1, 6) ? 0 : c.flag() ? c.size(40) : c.draw(400));
        total += stores.back();
    }
    Data_reader_params p;
    for (std::size_t i = 0; i < stores.size(); i++) {
        p.dataset.push_back(make_intrusive<Test_store>(std::to_string(i), "", Stream_plan{}));
    }
    p.batch_size = 1 + c.size(6);
    p.num_prefetched_examples = c.chance(1, 10) ? 0 : 1 + c.size(7);
    p.num_parallel_reads = c.chance(1, 3) ? 0 : 1 + c.size(9);
    std::size_t prefetch = p.num_prefetched_examples;
    if (prefetch == 0) {
        prefetch = static_cast<std::size_t>(tbb::task_scheduler_init::default_num_threads());
    }
    std::size_t reads = p.num_parallel_reads;
    if (reads == 0 || reads > prefetch) {
        reads = prefetch;
    }
    std::size_t window = 0;
    if (c.chance(1, 3)) {
        p.shuffle_instances = true;
        p.shuffle_window = window = 1 + c.size(50);
    }
    std::size_t shards = 1;
    if (c.chance(1, 4)) {
        p.num_shards = shards = 1 + c.draw(3);
        p.shard_index = c.draw(shards - 1);
    }
    std::size_t skip = 0;
    if (c.chance(1, 4)) {
        p.num_instances_to_skip = skip = c.size(100);
    }
    std::size_t limit = SIZE_MAX;
    if (c.chance(1, 4)) {
        limit = 1 + c.size(100);
        p.num_instances_to_read = limit;
    }
    std::size_t skip_every = c.chance(1, 4) ? 2 + c.draw(3) : 0;
    auto decode_us = c.pick({0U, 0U, 30U, 300U});
    c.desc("stores ", join(stores), " batch=", p.batch_size, " prefetch=", p.num_prefetched_examples,
           " reads=", p.num_parallel_reads, " window=", window, " shards=", shards, " skip=", skip,
           " limit=", limit, " bad every ", skip_every, " decode=", decode_us, " us");

    // What the reader may have in hand: examples that wait to be handed over (those
    // that have been fetched and, while they are handed over, as many again), one
    // for each parallel read, and one on its way there.
    std::size_t in_hand = (2 * prefetch + reads + 2) * p.batch_size + window + 1;
    c.nontrivial(total > skip + in_hand * shards);

    std::size_t batch = p.batch_size;
    auto first = p.shard_index;
    auto reader = make_intrusive<Counting_reader>(p, stores, skip_every, decode_us);
    Counts &n = reader->counts;
    ::usleep(c.chance(1, 4) ? 500 : 0);
    ENSURE(n.opened == 0 && n.records == 0, "the constructor has opened ", n.opened.load(),
           " data stores and read ", n.records.load(), " records");

    std::size_t delivered = 0;
    std::size_t handed = 0;  // including the one that was peeked at
    bool peeked = false;
    auto check = [&](const char *when) {
        // No later than what is compared with.
        std::size_t records = n.records;
        std::size_t most = skip + (handed * batch + n.skipped * batch + in_hand) * shards + first;
        if (limit != SIZE_MAX) {
            most = std::min(most, skip + limit + 1);
        }
        ENSURE(records <= most, when, ": ", records, " records have been read for ", handed,
               " examples and ", n.skipped.load(), " skipped ones, more than ", most);
        std::size_t before = 0;
        std::size_t opened = n.opened;
        for (std::size_t i = 0; i + 1 < opened && i < stores.size(); i++) {
            before += stores[i];
        }
        // The next data store is opened when the one before has ended.
        ENSURE(opened <= stores.size(), opened, " data stores were opened");
        ENSURE(opened <= 1 || before <= n.records, when, ": data store ", opened - 1,
               " was opened after ", n.records.load(), " records");
        ENSURE(n.most_decoding <= reads, when, ": ", n.most_decoding.load(),
               " examples were decoded at the same time instead of ", reads);
    };
    if (c.chance(1, 3)) {
        reader->read_schema();
        settle(n, 100);
        ENSURE(n.records <= skip + (window + 1) * shards + 1, "reading the schema has read ",
               n.records.load(), " records");
        check("after the schema");
    }
    std::size_t epochs = 1 + c.draw(1);
    for (std::size_t ep = 0; ep < epochs; ep++) {
        std::size_t steps = c.size(20);
        for (std::size_t i = 0; i < steps; i++) {
            bool peek = c.chance(1, 5);
            auto e = peek ? reader->peek_example() : reader->read_example();
            if (e == nullptr) {
                break;
            }
            if (!peeked) {
                handed++;
            }
            peeked = peek;
            delivered += peek ? 0 : 1;
            if (c.chance(1, 4)) {
                settle(n, 200);
            }
            check("while reading");
        }
        if (handed != 0) {
            // The background thread fills its queue without being asked. With
            // bad examples in between it fetches at least as many.
            std::size_t rows = total > skip ? std::min(total - skip, limit) : 0;
            rows = rows > first ? (rows - first + shards - 1) / shards : 0;
            std::size_t batches = (rows + batch - 1) / batch;
            std::size_t want = std::min(batches, handed + prefetch);
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds{20};
            while (n.decoded < want && std::chrono::steady_clock::now() < end) {
                ::usleep(50);
            }
            ENSURE(n.decoded >= want, "after ", handed, " examples ", n.decoded.load(),
                   " have been decoded ahead instead of ", want);
            settle(n, 300);
            check("at rest");
        }
        reader->reset();
        n.clear();
        delivered = handed = 0;
        peeked = false;
    }
}

// The memory a reader needs does not grow with the amount of data it has read.
PBT_TEST_W(C35, memory, 1.5)
{
    enum { csv, text, recordio };
    std::size_t format = c.draw(2);
    std::size_t size = 1500000 + c.draw(1000000);
    std::size_t width = 20 + c.draw(200);  // of a line or record
    std::string some;
    for (std::size_t i = 0; i < 5; i++) {
        std::size_t w = c.pick<std::size_t>({width, width / 2, width * 2});
        if (format == csv) {
            some += "1," + std::string(w, 'a') + ",2.5\n";
        }
        else if (format == text) {
            some += std::string(w, 'b') + "\n";
        }
        else {
            Pb_record r;
            Pb_value v;
            v.type = Pb_type::i32;
            v.values.assign(width / 4, 1.0);
            r.features.emplace_back("v", v);
            put_record(some, r.encode());
        }
    }
    std::string data;
    while (data.size() < size) {
        data += some;
    }
    Data_reader_params p;
    p.batch_size = 1 + c.draw(20);
    p.num_prefetched_examples = 1 + c.draw(2);
    p.num_parallel_reads = 1 + c.draw(2);
    if (c.chance(1, 4)) {
        p.shuffle_instances = true;
        p.shuffle_window = 1 + c.draw(30);
    }
    mlio::verif::chunk_size = 500 + c.draw(8000);
    mlio::verif::utf8_buffer_size = 500 + c.draw(8000);
    mlio::verif::inflate_buffer_size = 500 + c.draw(8000);
    auto how = any_delivery(c);
    std::size_t parts = 1 + c.draw(2);
    for (std::size_t i = 0; i < parts; i++) {
        p.dataset.push_back(make_store(c, data, how));
    }
    bool skips = c.chance(1, 6);
    if (skips) {
        p.num_instances_to_skip = size / width / 3;
    }
    c.desc("format ", format, ", ", data.size(), " bytes, width ", width, " ", name_of(how), " x", parts,
           " batch=", p.batch_size, " prefetch=", p.num_prefetched_examples, " reads=",
           p.num_parallel_reads, " window=", p.shuffle_instances ? p.shuffle_window : 1, " chunk=",
           mlio::verif::chunk_size, " skip=", p.num_instances_to_skip);
    c.nontrivial();
    c.tag(name_of(how));

    Intrusive_ptr<Data_reader> reader;
    if (format == csv) {
        Csv_params cp;
        cp.header_row_index = {};
        reader = make_intrusive<Csv_reader>(p, cp);
    }
    else if (format == text) {
        reader = make_intrusive<Text_line_reader>(p);
    }
    else {
        reader = make_intrusive<Recordio_protobuf_reader>(p);
    }
    // What may be held: the instances in hand with their chunks, and the tensors
    // made of them.
    std::size_t examples = 2 * p.num_prefetched_examples + p.num_parallel_reads + 3;
    std::size_t rows = examples * p.batch_size + (p.shuffle_instances ? p.shuffle_window : 1);
    std::size_t row_bytes = 4 * width + 600;
    std::size_t buffers = 2 * (mlio::verif::chunk_size + row_bytes);
    std::size_t held = rows * row_bytes + std::min(rows, examples + rows * row_bytes / mlio::verif::chunk_size + 2) * buffers;
    if (p.shuffle_instances) {
        // Each instance of the window may be the last one of its chunk.
        held += p.shuffle_window * buffers;
    }
    held += 300000;
    std::size_t base = __sanitizer_get_current_allocated_bytes();
    std::size_t most = 0;
    std::size_t at = 0;
    std::size_t count = 0;
    while (reader->read_example() != nullptr) {
        count++;
        std::size_t now = __sanitizer_get_current_allocated_bytes();
        if (now > base + most) {
            most = now - base;
            at = count;
        }
    }
    if (held < data.size() * parts * 3 / 4) {
        c.tag("bounded");
        ENSURE(most <= held, "after ", at, " of ", count, " examples ", most,
               " bytes are allocated, ", held, " are enough");
    }
    ENSURE(count > 10, count, " examples");
}
