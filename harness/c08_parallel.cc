// C08: parallelism never changes the result, the order or termination.
//
// A reader of our own, on the library's Parallel_data_reader, whose records and
// decodes take as long as the case says and fail where the case says.
#include <atomic>
#include <thread>

#include <unistd.h>

#include <mlio/parallel_data_reader.h>
#include <mlio/record_readers/record_reader.h>

#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

enum Outcome : unsigned { ok, skipped, throws_reader_error, throws_other };

struct Script {
    std::vector<std::size_t> stores;   // records per store
    std::size_t batch = 1;
    std::vector<unsigned> decode_us;   // by batch, cycled
    std::vector<unsigned> read_us;     // by record, cycled
    std::vector<unsigned> outcome;     // by batch; beyond the end: ok
    std::size_t read_fails_at = SIZE_MAX;
    bool only_first_epoch = false;     // failures happen in the first epoch only
    bool no_schema_at_first = false;   // infer_schema fails the first time

    std::size_t total() const
    {
        std::size_t n = 0;
        for (auto s : stores) {
            n += s;
        }
        return n;
    }

    std::size_t batches() const
    {
        return (total() + batch - 1) / batch;
    }

    unsigned outcome_of(std::size_t b, std::size_t epoch) const
    {
        unsigned o = b < outcome.size() ? outcome[b] : unsigned{ok};
        if (only_first_epoch && epoch != 0 && o != skipped) {
            return ok;
        }
        return o;
    }

    bool read_fails(std::size_t record, std::size_t epoch) const
    {
        return record == read_fails_at && (epoch == 0 || !only_first_epoch);
    }

    // The batches an epoch delivers, and whether it ends with an error.
    std::vector<std::size_t> expected(std::size_t epoch, bool &fails) const
    {
        std::vector<std::size_t> out;
        fails = false;
        for (std::size_t b = 0; b < batches(); b++) {
            unsigned o = outcome_of(b, epoch);
            std::size_t end = std::min(total(), (b + 1) * batch);
            for (std::size_t r = b * batch; r < end; r++) {
                fails = fails || read_fails(r, epoch);
            }
            if (fails || o == throws_reader_error || o == throws_other) {
                fails = true;
                return out;
            }
            if (o == ok) {
                out.push_back(b);
            }
        }
        return out;
    }

    std::string show() const
    {
        std::ostringstream o;
        o << "stores=" << join(stores) << " batch=" << batch << " decode_us=" << join(decode_us)
          << " read_us=" << join(read_us) << " outcome=" << join(outcome);
        if (read_fails_at != SIZE_MAX) {
            o << " read_fails_at=" << read_fails_at;
        }
        o << (only_first_epoch ? " first-epoch-only" : "")
          << (no_schema_at_first ? " no-schema-at-first" : "");
        return o.str();
    }
};

void pause(const std::vector<unsigned> &us, std::size_t i)
{
    if (!us.empty() && us[i % us.size()] != 0) {
        ::usleep(us[i % us.size()]);
    }
}

class Script_record_reader final : public Record_reader {
public:
    Script_record_reader(const Script &s, std::size_t first, std::size_t count,
                         const std::atomic_size_t &epoch)
        : s_{s}, next_{first}, end_{first + count}, epoch_{epoch}
    {}

    std::optional<Record> read_record() final
    {
        if (peeked_) {
            return std::exchange(peeked_, std::nullopt);
        }
        if (next_ == end_) {
            return {};
        }
        pause(s_.read_us, next_);
        if (s_.read_fails(next_, epoch_)) {
            throw Data_reader_error{"injected read failure"};
        }
        return Record{slice_of(std::to_string(next_++))};
    }

    std::optional<Record> peek_record() final
    {
        if (!peeked_) {
            peeked_ = read_record();
        }
        return peeked_;
    }

private:
    const Script &s_;
    std::size_t next_;
    std::size_t end_;
    const std::atomic_size_t &epoch_;
    std::optional<Record> peeked_{};
};

class Script_reader final : public Parallel_data_reader {
public:
    Script_reader(Data_reader_params p, Script s)
        : Parallel_data_reader{std::move(p)}, script{std::move(s)}
    {}

    ~Script_reader() final
    {
        stop();
    }

    void reset() noexcept final
    {
        Parallel_data_reader::reset();
        epoch++;
    }

    const Script script;
    std::atomic_size_t epoch{};
    mutable std::atomic_size_t decoded{};

private:
    Intrusive_ptr<Record_reader> make_record_reader(const Data_store &store) final
    {
        std::size_t k = std::stoul(store.id());
        std::size_t first = 0;
        for (std::size_t i = 0; i < k; i++) {
            first += script.stores[i];
        }
        return make_intrusive<Script_record_reader>(script, first, script.stores[k], epoch);
    }

    Intrusive_ptr<const Schema> infer_schema(const std::optional<Instance> &) final
    {
        if (script.no_schema_at_first && !schema_failed_) {
            schema_failed_ = true;
            throw Schema_error{"injected schema failure"};
        }
        std::vector<Attribute> a;
        a.emplace_back("v", Data_type::int64, Size_vector{params().batch_size, 1});
        return make_intrusive<Schema>(std::move(a));
    }

    Intrusive_ptr<Example> decode(const Instance_batch &batch) const final
    {
        decoded++;
        pause(script.decode_us, batch.index());
        switch (script.outcome_of(batch.index(), epoch)) {
        case skipped:
            return {};
        case throws_reader_error:
            throw Invalid_instance_error{"injected decode failure"};
        case throws_other:
            throw std::length_error{"injected other decode failure"};
        default:
            break;
        }
        auto arr = make_cpu_array(Data_type::int64, batch.size());
        auto v = static_cast<std::int64_t *>(arr->data());
        std::size_t i = 0;
        for (auto &ins : batch.instances()) {
            v[i++] = static_cast<std::int64_t>(epoch * 1000000 + std::stoul(pbt::to_string(ins.bits())));
        }
        std::vector<Intrusive_ptr<Tensor>> t;
        t.emplace_back(make_intrusive<Dense_tensor>(Size_vector{batch.size(), 1}, std::move(arr)));
        auto e = make_intrusive<Example>(schema(), std::move(t));
        e->padding = batch.size() - batch.instances().size();
        return e;
    }

    bool schema_failed_{};
};

std::vector<unsigned> any_delays(Case &c, std::size_t n)
{
    std::vector<unsigned> d;
    switch (c.weighted({3, 3, 2, 2})) {
    case 0:
        break;
    case 1:  // one slow, the rest fast
        d.assign(std::min<std::size_t>(n + 1, 40), 0);
        d[c.draw(d.size() - 1)] = static_cast<unsigned>(c.draw(2500));
        break;
    case 2:
        for (std::size_t i = 0; i < 1 + c.draw(7); i++) {
            d.push_back(c.pick({0U, 0U, 20U, 100U, 400U}));
        }
        break;
    case 3: {  // later ones are faster
        std::size_t k = std::min<std::size_t>(n + 1, 12);
        for (std::size_t i = 0; i < k; i++) {
            d.push_back(static_cast<unsigned>((k - i) * 60));
        }
        break;
    }
    }
    return d;
}

Script any_script(Case &c, std::size_t max_total, bool failures)
{
    Script s;
    std::size_t k = c.weighted({4, 2, 1}) + 1;
    for (std::size_t i = 0; i < k; i++) {
        s.stores.push_back(c.size(max_total));
    }
    s.batch = 1 + c.size(5);
    s.decode_us = any_delays(c, s.batches());
    if (c.chance(1, 3)) {
        s.read_us = any_delays(c, s.total());
    }
    std::size_t nb = s.batches();
    if (nb > 0 && c.chance(1, 2)) {
        s.outcome.assign(nb, ok);
        for (std::size_t i = 0, n = c.draw(5); i < n; i++) {
            s.outcome[c.draw(nb - 1)] = skipped;
        }
        if (c.chance(1, 6)) {
            s.outcome.assign(nb, skipped);
        }
    }
    if (failures && nb > 0) {
        s.only_first_epoch = c.flag();
        if (c.flag()) {
            s.outcome.resize(nb, ok);
            for (std::size_t i = 0, n = 1 + c.draw(2); i < n; i++) {
                s.outcome[c.draw(nb - 1)] = c.pick({throws_reader_error, throws_other});
            }
        }
        if (c.chance(1, 3) && s.total() > 1) {
            s.read_fails_at = c.range(1, s.total() - 1);
        }
    }
    s.no_schema_at_first = c.chance(1, 12);
    return s;
}

Intrusive_ptr<Script_reader> make_reader(const Script &s, Data_reader_params p)
{
    for (std::size_t i = 0; i < s.stores.size(); i++) {
        p.dataset.push_back(make_intrusive<Test_store>(std::to_string(i), "", Stream_plan{}));
    }
    p.batch_size = s.batch;
    return make_intrusive<Script_reader>(std::move(p), s);
}

void any_depth(Case &c, Data_reader_params &p)
{
    p.num_prefetched_examples = c.weighted({8, 1}) == 0 ? 1 + c.size(9) : c.pick<std::size_t>({0, 64, 1000});
    p.num_parallel_reads = c.draw(10);
}

// Follows one reader through its history.
class Follower {
public:
    Follower(Intrusive_ptr<Script_reader> r) : r_{std::move(r)}
    {
        begin_epoch();
    }

    void read(bool peek)
    {
        Intrusive_ptr<Example> e;
        std::string what;
        auto k = kind_of_error([&] {
            e = peek ? r_->peek_example() : r_->read_example();
        }, &what);
        hist += peek ? " peek" : " read";
        if (!k.empty()) {
            if (what.find("injected schema failure") != std::string::npos) {
                ENSURE(r_->script.no_schema_at_first && !schema_failed_, "second schema failure, after",
                       hist);
                schema_failed_ = true;
                return;
            }
            ENSURE(!peeked_, "an error in place of the peeked example, after", hist);
            ENSURE(fails_, "unexpected error ", what, ", after", hist);
            ENSURE(what.find("injected") != std::string::npos, "another error than the injected ones: ",
                   what);
            failed_ = true;
            return;
        }
        ENSURE(!failed_ || peeked_, "an example or the end of data after an error, after", hist);
        if (e == nullptr) {
            ENSURE(!fails_, "the end of data in place of the error, after", hist);
            ENSURE(pos_ == want_.size(), "the end of data after ", pos_, " of ", want_.size(),
                   " examples, after", hist);
            return;
        }
        ENSURE(pos_ < want_.size(), fails_ ? "an example from beyond the failed one, after" :
                                             "more examples than there are, after", hist);
        const Script &s = r_->script;
        std::size_t b = want_[pos_];
        auto &t = static_cast<Dense_tensor &>(*e->features()[0]);
        auto v = t.data().as<std::int64_t>();
        std::size_t n = std::min(s.batch, s.total() - b * s.batch);
        ENSURE(v.size() == n, "example ", pos_, " has ", v.size(), " rows instead of ", n);
        for (std::size_t i = 0; i < n; i++) {
            auto w = static_cast<std::int64_t>(r_->epoch * 1000000 + b * s.batch + i);
            ENSURE(v[i] == w, "example ", pos_, " holds ", v[i], " instead of ", w, ", after", hist);
        }
        if (!peek) {
            pos_++;
        }
        peeked_ = peek;
        delivered++;
    }

    void reset()
    {
        hist += " reset";
        r_->reset();
        begin_epoch();
        ENSURE(r_->num_bytes_read() == 0, "bytes read is ", r_->num_bytes_read(), " after a reset");
    }

    void schema()
    {
        hist += " schema";
        std::string what;
        auto k = kind_of_error([&] {
            r_->read_schema();
        }, &what);
        if (!k.empty()) {
            ENSURE(r_->script.no_schema_at_first && !schema_failed_, "read_schema: ", what);
            schema_failed_ = true;
        }
    }

    // Reads up to the end or the error.
    void drain()
    {
        std::size_t left = want_.size() - pos_;
        for (std::size_t i = 0; i < left + 2; i++) {
            read(false);
        }
        if (r_->script.no_schema_at_first && left == want_.size()) {
            read(false);
        }
        ENSURE(failed_ || pos_ == want_.size(), "not at the end, after", hist);
        ENSURE(failed_ == fails_, "the error is missing, after", hist);
    }

    bool fails() const
    {
        return fails_;
    }

    std::string hist;
    std::size_t delivered{};

private:
    void begin_epoch()
    {
        want_ = r_->script.expected(r_->epoch, fails_);
        pos_ = 0;
        failed_ = false;
        peeked_ = false;
    }

    Intrusive_ptr<Script_reader> r_;
    std::vector<std::size_t> want_;
    bool fails_{};
    bool failed_{};
    bool peeked_{};
    bool schema_failed_{};
    std::size_t pos_{};
};

std::unique_ptr<Thread_limit> any_threads(Case &c)
{
    if (c.chance(1, 3)) {
        auto n = 1 + c.draw(7);
        c.desc(" threads=", n);
        return std::make_unique<Thread_limit>(n);
    }
    return {};
}

}  // namespace

// One reader, any history of operations, then possibly to the end.
PBT_TEST_W(C08, histories, 3)
{
    Script s = any_script(c, c.chance(1, 6) ? 120 : 16, c.chance(1, 3));
    Data_reader_params p;
    any_depth(c, p);
    c.desc(s.show(), " prefetch=", p.num_prefetched_examples, " parallel=", p.num_parallel_reads);
    auto limit = any_threads(c);
    bool slow = false;
    for (auto d : s.decode_us) {
        slow = slow || d != 0;
    }
    c.nontrivial(slow && s.batches() > 1 && p.num_prefetched_examples != 1);

    Follower f{make_reader(s, p)};
    std::size_t ops = c.size(20);
    for (std::size_t i = 0; i < ops; i++) {
        switch (c.weighted({8, 3, 2, 1, 3})) {
        case 0:
            f.read(false);
            break;
        case 1:
            f.read(true);
            break;
        case 2:
            f.reset();
            break;
        case 3:
            f.schema();
            break;
        case 4:
            f.hist += " wait";
            ::usleep(static_cast<unsigned>(c.draw(1500)));
            break;
        }
    }
    switch (c.weighted({3, 1, 1})) {
    case 0:
        f.drain();
        c.tag("to the end");
        break;
    case 1:
        f.drain();
        f.reset();
        f.drain();
        c.tag("to the end twice");
        break;
    default:
        c.tag("abandoned");
        break;
    }
    if (f.fails()) {
        c.tag("with a failure");
    }
    c.desc(" history:", f.hist);
}

// Several readers in turns: the ones that are not being read must not keep the
// others from making progress.
PBT_TEST_W(C08, several_readers, 1)
{
    std::size_t n = 2 + c.size(c.chance(1, 4) ? 30 : 6);
    std::vector<std::unique_ptr<Follower>> rs;
    auto limit = any_threads(c);
    for (std::size_t i = 0; i < n; i++) {
        Script s = any_script(c, 16, c.chance(1, 8));
        Data_reader_params p;
        any_depth(c, p);
        c.desc("\n  ", s.show(), " prefetch=", p.num_prefetched_examples, " parallel=",
               p.num_parallel_reads);
        rs.push_back(std::make_unique<Follower>(make_reader(s, p)));
    }
    c.nontrivial();
    std::size_t ops = c.size(40);
    for (std::size_t i = 0; i < ops; i++) {
        auto &f = *rs[c.draw(n - 1)];
        switch (c.weighted({12, 1})) {
        case 0:
            f.read(c.chance(1, 4));
            break;
        case 1:
            f.reset();
            break;
        }
    }
    if (c.flag()) {
        // One after the other, or all in turns.
        for (auto &f : rs) {
            f->drain();
        }
    }
}

PBT_FIXED(C08, many_idle_readers)
{
    std::vector<std::unique_ptr<Follower>> rs;
    for (std::size_t i = 0; i < 40; i++) {
        Script s;
        s.stores = {20};
        Data_reader_params p;
        p.num_prefetched_examples = 1;
        rs.push_back(std::make_unique<Follower>(make_reader(s, p)));
    }
    c.nontrivial();
    c.desc("40 readers of 20 examples with one prefetched example, read in turns");
    for (std::size_t k = 0; k < 10; k++) {
        for (auto &f : rs) {
            f->read(false);
        }
    }
    for (auto &f : rs) {
        f->drain();
    }
}

// The readers of the library over the same data store objects, each in a thread
// of its own.
PBT_TEST_W(C08, reader_threads, 1)
{
    Numbered n = any_numbered(c, c.chance(1, 8) ? 300 : 40);
    Data_reader_params p;
    any_buffer_sizes(c);
    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    for (std::size_t i = 0, k = c.draw(3); n.format != Format::text && total > 1 && i < k; i++) {
        n.bad.insert(c.range(1, total - 1));
    }
    n.fill(c, p);
    p.batch_size = 1 + c.size(9);
    p.bad_example_handling = Bad_example_handling::skip;
    mlio::verif::parallel_cut_off = c.chance(1, 2) ? 0 : 10000000;
    std::size_t k = 1 + c.draw(3);
    std::vector<Data_reader_params> params;
    std::vector<std::size_t> epochs;
    for (std::size_t i = 0; i < k; i++) {
        any_depth(c, p);
        params.push_back(p);
        epochs.push_back(1 + c.draw(1));
    }
    c.desc(n.show(), " batch=", p.batch_size, " readers=", k);
    auto limit = any_threads(c);
    c.nontrivial(k > 1 && total > p.batch_size);

    std::vector<std::size_t> want;
    for (std::size_t b = 0; b * p.batch_size < n.total; b++) {
        std::size_t first = b * p.batch_size;
        std::size_t last = std::min(n.total, first + p.batch_size);
        auto it = n.bad.lower_bound(first);
        if (it == n.bad.end() || *it >= last) {
            for (std::size_t i = first; i < last; i++) {
                want.push_back(i);
            }
        }
    }

    std::vector<std::vector<Epoch>> got(k);
    std::vector<std::thread> threads;
    for (std::size_t i = 0; i < k; i++) {
        threads.emplace_back([&, i] {
            auto reader = n.make(params[i]);
            for (std::size_t e = 0; e < epochs[i]; e++) {
                got[i].push_back(read_epoch(*reader));
                reader->reset();
            }
        });
    }
    for (auto &t : threads) {
        t.join();
    }
    for (auto &g : got) {
        for (auto &e : g) {
            ENSURE(!e.failed, "reading failed: ", e.error);
            check_ids(epoch_ids(n, e), want);
        }
    }
}
