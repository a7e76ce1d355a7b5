// C38: running out of memory is an exception and nothing else. Allocations of the library
// and of its background threads fail at chosen places; the process goes on, nothing that
// has been delivered is wrong, and after a reset everything can be read.
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <new>

#include <mlio/csv_reader.h>
#include <mlio/memory/file_backed_memory_allocator.h>
#include <mlio/memory/heap_memory_allocator.h>

#include <mlio/text_line_reader.h>

#include "numbered.h"

#include <mlio/record_readers/csv_record_reader.h>
#include <mlio/record_readers/recordio_record_reader.h>
#include <mlio/record_readers/text_line_record_reader.h>
#include <mlio/streams/utf8_input_stream.h>

using namespace mlio;
using namespace pbt;

namespace {

std::atomic_bool armed{};
std::atomic<std::int64_t> until{};      // allocations that succeed before
std::atomic<std::int64_t> failing{};    // allocations that fail then
std::atomic_size_t least_size{};        // smaller ones succeed
std::atomic_bool only_caller{};         // the background threads do not fail
std::atomic_size_t failed{};
std::atomic_size_t seen{};
// Protobuf does not support failing allocations.
std::atomic_bool only_blocks{};
thread_local bool outside = false;      // the code of the check itself
thread_local bool is_caller = false;

bool fails(std::size_t n) noexcept
{
    if (!armed || outside || n < least_size || (only_caller && !is_caller)) {
        return false;
    }
    seen++;
    std::int64_t k = until--;
    if (k > 0 || k <= -failing) {
        return false;
    }
    failed++;
    return true;
}

// TBB does not either: only what the code of this program itself allocates fails.
extern "C" char __executable_start;
extern "C" char etext;

void *allocate(std::size_t n, const void *caller)
{
    bool ours = caller >= &__executable_start && caller < &etext;
    if (ours && !only_blocks && fails(n)) {
        throw std::bad_alloc{};
    }
    void *p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) {
        throw std::bad_alloc{};
    }
    return p;
}

class Failing_block final : public Mutable_memory_block {
public:
    explicit Failing_block(Intrusive_ptr<Mutable_memory_block> inner) : inner_{std::move(inner)}
    {}
    void resize(size_type size) final
    {
        if (fails(size)) {
            throw std::bad_alloc{};
        }
        inner_->resize(size);
    }
    pointer data() noexcept final
    {
        return inner_->data();
    }
    const_pointer data() const noexcept final
    {
        return const_cast<const Mutable_memory_block &>(*inner_).data();
    }
    size_type size() const noexcept final
    {
        return inner_->size();
    }
    bool resizable() const noexcept final
    {
        return inner_->resizable();
    }

private:
    Intrusive_ptr<Mutable_memory_block> inner_;
};

class Failing_allocator final : public Memory_allocator {
public:
    Intrusive_ptr<Mutable_memory_block> allocate(std::size_t size) final
    {
        if (fails(size)) {
            throw std::bad_alloc{};
        }
        return make_intrusive<Failing_block>(inner_.allocate(size));
    }

private:
    Heap_memory_allocator inner_{};
};

class Guard {
public:
    Guard()
    {
        outside = true;
        is_caller = true;
        set_memory_allocator(std::make_unique<Failing_allocator>());
    }
    Guard(const Guard &) = delete;
    Guard &operator=(const Guard &) = delete;
    ~Guard()
    {
        armed = false;
        outside = false;
        only_blocks = false;
        set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    }
};

class Inside {
public:
    Inside()
    {
        outside = false;
    }
    Inside(const Inside &) = delete;
    Inside &operator=(const Inside &) = delete;
    ~Inside()
    {
        outside = true;
    }
};

Intrusive_ptr<Example> read(Data_reader &r, bool peek)
{
    Inside in;
    if (peek) {
        r.peek_example();
    }
    return r.read_example();
}

Epoch epoch_of(Data_reader &r, bool peek)
{
    Epoch out;
    out.error_kind = kind_of_error(
        [&] {
            while (auto e = read(r, peek)) {
                out.examples.push_back(to_ex(*e));
            }
        },
        &out.error);
    out.failed = !out.error_kind.empty();
    return out;
}

void check_prefix(const Numbered &n, const Epoch &e, const std::vector<std::vector<std::size_t>> &want)
{
    ENSURE(e.examples.size() <= want.size(), e.examples.size(), " examples instead of ", want.size());
    for (std::size_t i = 0; i < e.examples.size(); i++) {
        check_ids(n.ids(e.examples[i]), want[i], "the instances of example " + std::to_string(i));
    }
}

void check_all(const Numbered &n, const Epoch &e, const std::vector<std::vector<std::size_t>> &want,
               const char *when)
{
    ENSURE(!e.failed, when, ", reading failed: ", e.error);
    ENSURE(e.examples.size() == want.size(), when, ", ", e.examples.size(), " examples instead of ",
           want.size());
    check_prefix(n, e, want);
}

}  // namespace

void *operator new(std::size_t n)
{
    return allocate(n, __builtin_return_address(0));
}
void *operator new[](std::size_t n)
{
    return allocate(n, __builtin_return_address(0));
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}

PBT_TEST_W(C38, readers, 2.0)
{
    Guard guard;
    Numbered n = any_numbered(c, c.flag() ? 300 : 40);
    Data_reader_params p;
    p.batch_size = 1 + c.size(c.flag() ? 250 : 20);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    any_parallelism(c, p);
    any_buffer_sizes(c);
    n.fill(c, p, false);
    bool peek = c.chance(1, 4);
    std::size_t from = c.draw(1);
    only_caller = c.chance(1, 3);
    bool early = !only_caller && c.chance(1, 4);  // also while the reader is made
    if (only_caller) {
        least_size = c.pick<std::size_t>({0, 64});
    }
    else {
        // TBB keeps its own small objects in memory of this kind, and does not support that
        // getting it fails: neither while the graph is built, in the first epoch, nor later.
        least_size = 1500;
    }
    only_blocks = n.format == Format::recordio || n.format == Format::recordio_sparse;
    if (c.flag()) {
        any_selection(c, p, n.total);
    }
    auto want = fault_free(n, p);
    auto prepare = [&] {
        armed = false;
        auto r = n.make(p);
        if (from == 1) {
            check_all(n, epoch_of(*r, peek), want, "before");
            r->reset();
        }
        return r;
    };

    // How many allocations are there?
    failing = 0;
    until = 0;
    seen = 0;
    {
        auto dry = prepare();
        seen = 0;
        armed = true;
        check_all(n, epoch_of(*dry, peek), want, "with enough memory");
    }
    armed = false;
    std::size_t most = seen;
    until = static_cast<std::int64_t>(c.draw(most + most / 10));
    failing = c.pick<std::int64_t>({1, 1, 3, 1000000});
    failed = 0;
    c.desc(n.show(), " batch=", p.batch_size, " bad_handling=", static_cast<int>(p.bad_example_handling),
           " prefetch=", p.num_prefetched_examples, " reads=", p.num_parallel_reads, " after ", until,
           " of ", most, " allocations ", failing, " fail, of ", least_size, " bytes, only_caller=", only_caller, " early=", early,
           " peek=", peek, " from epoch ", from,
           show_selection(p));

    Intrusive_ptr<Data_reader> reader;
    if (early) {
        armed = true;
        kind_of_error([&] {
            Inside in_library;
            reader = n.make(p);
        });
        armed = false;
    }
    if (reader == nullptr) {
        reader = prepare();
    }
    armed = true;
    Epoch e;
    if (c.chance(1, 4)) {
        e.error_kind = kind_of_error([&] {
            Inside in_library;
            reader->read_schema();
        }, &e.error);
        e.failed = !e.error_kind.empty();
    }
    if (!e.failed) {
        e = epoch_of(*reader, peek);
    }
    check_prefix(n, e, want);
    if (!e.failed) {
        check_all(n, e, want, "with enough memory");
    }
    else {
        ENSURE(failed != 0, "reading failed without a reason: ", e.error);
        if (c.flag()) {
            armed = c.flag();
            Epoch again = epoch_of(*reader, peek);
            auto at = want.begin() + static_cast<std::ptrdiff_t>(e.examples.size());
            std::vector<std::vector<std::size_t>> rest(at, want.end());
            if (again.failed) {
                check_prefix(n, again, rest);
            }
            else {
                check_all(n, again, rest, "going on after the error");
            }
        }
        c.tag(only_caller ? "caller" : "any thread");
    }
    c.nontrivial(failed != 0);
    armed = false;
    reader->reset();
    check_all(n, epoch_of(*reader, peek), want, "after a reset");
    sigset_t signals{};
    ::pthread_sigmask(SIG_SETMASK, nullptr, &signals);
    ENSURE(::sigismember(&signals, SIGUSR2) == 0, "signals are blocked");
}

// Fields that are long enough to fail while they are decoded.
PBT_TEST_W(C38, fields, 0.7)
{
    Guard guard;
    any_buffer_sizes(c);
    Data_reader_params p;
    bool text = c.chance(1, 4);
    std::size_t rows = 1 + c.size(40);
    std::size_t columns = text ? 1 : 1 + c.size(3);
    std::string data;
    std::vector<bool> number;
    for (std::size_t k = 0; k < columns; k++) {
        number.push_back(c.chance(1, 3));
    }
    for (std::size_t i = 0; i < rows; i++) {
        for (std::size_t k = 0; k < columns; k++) {
            std::size_t n = c.flag() ? c.size(20) : 1500 + c.size(4000);
            std::string f = std::to_string(i) + (number[k] ? "." : "-") + std::to_string(k) +
                            std::string(n, number[k] ? '0' : 'x');
            data += k == 0 ? "" : ",";
            data += !text && !number[k] && c.chance(1, 4) ? "\"" + f + "\"\"\"" : f;
        }
        data += "\n";
    }
    p.dataset.push_back(make_store(c, data, any_delivery(c)));
    p.batch_size = 1 + c.size(30);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    any_parallelism(c, p);
    Csv_params cp;
    cp.header_row_index = {};
    if (c.flag()) {
        cp.default_data_type = Data_type::string;
    }
    if (c.flag()) {
        cp.parser_options.nan_values = {"none"};
    }
    auto make = [&]() -> Intrusive_ptr<Data_reader> {
        if (text) {
            return make_intrusive<Text_line_reader>(p);
        }
        return make_intrusive<Csv_reader>(p, cp);
    };
    least_size = 1500;
    only_caller = false;
    failing = 0;
    until = 0;
    seen = 0;
    auto dry = make();
    armed = true;
    Epoch want = epoch_of(*dry, false);
    armed = false;
    ENSURE(!want.failed && want.examples.size() == (rows + p.batch_size - 1) / p.batch_size,
           "with enough memory ", want.examples.size(), " examples: ", want.error);
    std::size_t most = seen;
    until = static_cast<std::int64_t>(c.draw(most));
    failing = c.pick<std::int64_t>({1, 1, 3, 1000000});
    failed = 0;
    c.desc(rows, " rows of ", columns, text ? " line" : " columns", ", batch=", p.batch_size, " bad_handling=",
           static_cast<int>(p.bad_example_handling), " prefetch=", p.num_prefetched_examples, " reads=",
           p.num_parallel_reads, " after ", until, " of ", most, " allocations ", failing, " fail");
    auto reader = make();
    armed = true;
    Epoch e = epoch_of(*reader, c.chance(1, 4));
    armed = false;
    c.nontrivial(failed != 0);
    ENSURE(e.failed || e.examples.size() == want.examples.size(), "reading ended after ", e.examples.size(),
           " of ", want.examples.size(), " examples");
    ENSURE(e.examples.size() <= want.examples.size() &&
               std::equal(e.examples.begin(), e.examples.end(), want.examples.begin()),
           "an example is wrong");
    ENSURE(!e.failed || failed != 0, "reading failed without a reason: ", e.error);
    ENSURE(!e.failed || e.error_kind == "bad_alloc", "running out of memory is reported as another error: ",
           e.error_kind, " ", e.error);
    reader->reset();
    Epoch after = epoch_of(*reader, false);
    ENSURE(!after.failed && after.examples == want.examples, "after a reset, something else is read: ", after.error);
}

// Streams and record readers on their own.
PBT_TEST(C38, records)
{
    Guard guard;
    any_buffer_sizes(c);
    std::vector<std::string> want;
    std::string data;
    std::size_t kind = c.draw(3);
    std::size_t count = 1 + c.size(30);
    for (std::size_t i = 0; i < count; i++) {
        std::string s = std::to_string(i) + std::string(c.size(80), 'x');
        want.push_back(s);
        if (kind == 0) {
            put_record(data, s);
        }
        else {
            data += s + "\n";
        }
    }
    bool wide = kind == 2;
    if (wide) {
        std::string d = "\xff\xfe";
        for (char ch : data) {
            d += ch;
            d += '\0';
        }
        data = d;
    }
    auto store = make_store(c, data, any_delivery(c));
    Csv_params cp;
    cp.allow_quoted_new_lines = c.flag();
    only_caller = true;
    least_size = 0;
    auto open = [&]() -> Intrusive_ptr<Record_reader> {
        auto stream = store->open_read();
        if (kind != 0) {
            stream = make_utf8_stream(stream, {});
        }
        if (kind == 0) {
            return make_intrusive<mlio::detail::Recordio_record_reader>(stream);
        }
        if (kind == 3) {
            return make_intrusive<mlio::detail::Csv_record_reader>(stream, cp);
        }
        return make_intrusive<mlio::detail::Text_line_record_reader>(stream, false);
    };
    // Reads with errors; what comes after one may be missing, but not be wrong.
    std::vector<std::string> got;
    std::size_t errors = 0;
    auto run = [&] {
        got.clear();
        errors = 0;
        Intrusive_ptr<Record_reader> r;
        while (errors < 4) {
            bool end = false;
            std::string kind_of = kind_of_error([&] {
                std::optional<Record> rec;
                {
                    Inside in_library;
                    if (r == nullptr) {
                        r = open();
                    }
                    rec = r->read_record();
                }
                if (rec) {
                    got.push_back(to_string(rec->payload()));
                }
                else {
                    end = true;
                }
            });
            if (end) {
                return true;
            }
            if (!kind_of.empty()) {
                errors++;
                if (errors == 2) {
                    armed = false;
                }
            }
        }
        return false;
    };
    failing = 0;
    until = 0;
    seen = 0;
    armed = true;
    ENSURE(run() && got == want, "with enough memory ", got.size(), " of ", want.size(), " records are read");
    armed = false;
    std::size_t most = seen;
    until = static_cast<std::int64_t>(c.draw(most));
    failing = c.pick<std::int64_t>({1, 2, 1000000});
    failed = 0;
    c.desc("kind ", kind, ", ", count, " records, ", data.size(), " bytes, after ", until, " of ", most, " allocations ",
           failing, " fail");
    armed = true;
    bool ended = run();
    armed = false;
    c.nontrivial(failed != 0);
    ENSURE(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()),
           "the records after the error are wrong");
    ENSURE(!ended || got == want, "reading ended after ", got.size(), " of ", want.size(),
           " records as if this were all");
    ENSURE(errors == 0 || failed != 0, "an error without a reason");
}
