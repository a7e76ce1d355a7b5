// C37: the effort of reading is proportional to the data. Whatever there is more of
// (lines, bytes of a line, columns, stores, messages, keys, parts, bad instances, ...),
// sixteen times as much of it takes about sixteen times the processor time, the
// allocations and the reads, and no byte of a store is read more often than once.
#include <algorithm>
#include <atomic>
#include <ctime>

#include <sanitizer/allocator_interface.h>
#include <unistd.h>

#include <mlio/record_readers/parquet_record_reader.h>

#include "numbered.h"

using namespace mlio;
using mlio::detail::Parquet_record_reader;
using namespace pbt;

namespace {

std::atomic_size_t allocated{};
std::atomic_size_t allocations{};

void count_malloc(const volatile void *, std::size_t n)
{
    allocated += n;
    allocations++;
}

void count_free(const volatile void *)
{}

struct Reads {
    std::atomic_size_t opened{};
    std::atomic_size_t calls{};
    std::atomic_size_t bytes{};
};

class Counting_stream final : public Input_stream {
public:
    Counting_stream(Intrusive_ptr<Input_stream> inner, Reads &reads)
        : inner_{std::move(inner)}, reads_{&reads}
    {}

    std::size_t read(Mutable_memory_span destination) final
    {
        std::size_t n = inner_->read(destination);
        reads_->calls++;
        reads_->bytes += n;
        return n;
    }
    Memory_slice read(std::size_t size) final
    {
        auto s = inner_->read(size);
        reads_->calls++;
        reads_->bytes += s.size();
        return s;
    }
    void seek(std::size_t position) final
    {
        inner_->seek(position);
    }
    void close() noexcept final
    {
        inner_->close();
    }
    std::size_t size() const final
    {
        return inner_->size();
    }
    std::size_t position() const final
    {
        return inner_->position();
    }
    bool closed() const noexcept final
    {
        return inner_->closed();
    }
    bool seekable() const noexcept final
    {
        return inner_->seekable();
    }
    bool supports_zero_copy() const noexcept final
    {
        return inner_->supports_zero_copy();
    }

private:
    Intrusive_ptr<Input_stream> inner_;
    Reads *reads_;
};

class Counting_store final : public Data_store {
public:
    Counting_store(Intrusive_ptr<Data_store> inner, Reads &reads)
        : inner_{std::move(inner)}, reads_{&reads}
    {}

    Intrusive_ptr<Input_stream> open_read() const final
    {
        reads_->opened++;
        return make_intrusive<Counting_stream>(inner_->open_read(), *reads_);
    }
    std::string repr() const final
    {
        return inner_->repr();
    }
    const std::string &id() const final
    {
        return inner_->id();
    }

private:
    Intrusive_ptr<Data_store> inner_;
    Reads *reads_;
};

struct Effort {
    double seconds{};
    std::size_t allocated{};
    std::size_t allocations{};
    std::size_t data{};   // bytes of all data stores
    std::size_t opened{};
    std::size_t calls{};
    std::size_t bytes{};
};

double processor_time()
{
    timespec t{};
    ::clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

// What is to be measured, for data of a given size.
struct Work {
    std::function<void()> run;
    std::vector<std::string> data;  // of the stores
    std::shared_ptr<Reads> reads = std::make_shared<Reads>();
};

Effort measure(const std::function<Work(std::size_t)> &make, std::size_t n)
{
    Work w = make(n);
    Effort e;
    for (auto &d : w.data) {
        e.data += d.size();
    }
    e.allocated = allocated;
    e.allocations = allocations;
    double begin = processor_time();
    w.run();
    e.seconds = processor_time() - begin;
    e.allocated = allocated - e.allocated;
    e.allocations = allocations - e.allocations;
    e.opened = w.reads->opened;
    e.calls = w.reads->calls;
    e.bytes = w.reads->bytes;
    take_log();
    return e;
}

// Compares the effort for n and for 16 n.
void check_growth(Case &c, const char *what, std::size_t n, std::size_t most,
                  const std::function<Work(std::size_t)> &make)
{
    static bool installed = [] {
        return __sanitizer_install_malloc_and_free_hooks(&count_malloc, &count_free) != 0;
    }();
    ENSURE(installed, "the allocations cannot be counted");
    constexpr std::size_t times = 16;

    measure(make, n);  // for what is done only once in a process
    Effort a = measure(make, n);
    while (a.seconds < 0.006 && 2 * n <= most) {
        n *= 2;
        a = measure(make, n);
    }
    Effort b = measure(make, times * n);
    c.desc(what, " n=", n, ": ", a.seconds * 1000, " ms, ", a.allocated, " bytes allocated; x16: ",
           b.seconds * 1000, " ms, ", b.allocated);
    c.tag(what);
    c.nontrivial(b.seconds > 0.02);

    if (b.opened != 0) {
        ENSURE(a.bytes <= a.data + 8 * a.opened, what, ": ", a.bytes, " bytes are read of stores of ", a.data);
        ENSURE(b.bytes <= b.data + 8 * b.opened, what, ": ", b.bytes, " bytes are read of stores of ", b.data);
        ENSURE(b.calls <= times * 3 * a.calls + 100, what, ": ", a.calls, " reads for ", a.data,
               " bytes, but ", b.calls, " for ", b.data);
    }
    ENSURE(b.allocations <= times * 4 * a.allocations + 2000, what, ": ", a.allocations,
           " allocations for n = ", n, ", but ", b.allocations, " for 16 n");
    ENSURE(b.allocated <= times * 4 * a.allocated + 8000000, what, ": ", a.allocated,
           " bytes are allocated for n = ", n, ", but ", b.allocated, " for 16 n");

    // The time is not exact: it has to be far too long again and again, and also for more data.
    auto too_long = [&] {
        return b.seconds > times * 3 * a.seconds && b.seconds > 0.15;
    };
    double first = b.seconds / a.seconds;
    if (too_long() && b.seconds < 1.0) {
        n *= 3;
        a = measure(make, n);
        b = measure(make, times * n);
    }
    for (int i = 0; i < 4 && too_long(); i++) {
        ::usleep(200000);
        Effort again = measure(make, n);
        a.seconds = std::max(a.seconds, again.seconds);
        if (too_long()) {
            again = measure(make, times * n);
            b.seconds = std::min(b.seconds, again.seconds);
        }
    }
    ENSURE(!too_long(), what, ": ", a.seconds * 1000, " ms for n = ", n, ", but ", b.seconds * 1000,
           " ms for 16 n (at first ", first, " times as long)");
}

enum class Source { memory, stream, seekable, gzip };

struct Setting {
    Source source{};
    std::size_t batch = 1;
    std::size_t prefetch{};
    bool peek{};
};

Setting any_setting(Case &c)
{
    Setting s;
    s.source = static_cast<Source>(c.draw(3));
    s.batch = c.pick<std::size_t>({1, 3, 40, 500});
    s.prefetch = c.chance(1, 3) ? 1 + c.draw(2) : 0;
    s.peek = c.chance(1, 3);
    if (c.chance(1, 2)) {
        mlio::verif::chunk_size = c.pick<std::size_t>({256, 5000, 70000});
        mlio::verif::utf8_buffer_size = c.pick<std::size_t>({256, 5000, 70000});
        mlio::verif::inflate_buffer_size = c.pick<std::size_t>({256, 5000, 70000});
    }
    return s;
}

Intrusive_ptr<Data_store> store_of(Work &w, std::size_t i, Source source)
{
    const std::string &d = w.data[i];
    Stream_plan plan;
    plan.seekable = source == Source::seekable;
    Intrusive_ptr<Data_store> s;
    switch (source) {
    case Source::memory:
        s = make_intrusive<In_memory_store>(slice_of(d));
        break;
    case Source::gzip:
        return make_intrusive<In_memory_store>(slice_of(deflate(d, 1, true)), Compression::gzip);
    default:
        s = make_intrusive<Test_store>("s" + std::to_string(i), d, plan);
    }
    return make_intrusive<Counting_store>(std::move(s), *w.reads);
}

using Make_reader = std::function<Intrusive_ptr<Data_reader>(Data_reader_params)>;

// Reads an epoch.
void read_all(Work &w, const Setting &s, Data_reader_params p, const Make_reader &make)
{
    for (std::size_t i = 0; i < w.data.size(); i++) {
        p.dataset.push_back(store_of(w, i, s.source));
    }
    if (p.batch_size == 0) {
        p.batch_size = s.batch;
    }
    p.num_prefetched_examples = s.prefetch;
    p.num_parallel_reads = s.prefetch;
    // The copies that the stores and streams need are not part of the effort.
    w.run = [p, make, peek = s.peek, reads = w.reads] {
        auto reader = make(p);
        while (true) {
            if (peek) {
                reader->peek_example();
            }
            if (reader->read_example() == nullptr) {
                break;
            }
        }
    };
}

Make_reader csv_reader(Csv_params cp)
{
    return [cp](Data_reader_params p) -> Intrusive_ptr<Data_reader> {
        return make_intrusive<Csv_reader>(std::move(p), cp);
    };
}

Csv_params no_header()
{
    Csv_params cp;
    cp.header_row_index = {};
    return cp;
}

Make_reader text_reader()
{
    return [](Data_reader_params p) -> Intrusive_ptr<Data_reader> {
        return make_intrusive<Text_line_reader>(std::move(p));
    };
}

Make_reader pb_reader()
{
    return [](Data_reader_params p) -> Intrusive_ptr<Data_reader> {
        return make_intrusive<Recordio_protobuf_reader>(std::move(p));
    };
}

Make_reader image_reader(Image_frame frame)
{
    return [frame](Data_reader_params p) -> Intrusive_ptr<Data_reader> {
        Image_reader_params ip;
        ip.image_frame = frame;
        ip.image_dimensions = {3, 1, 1};
        return make_intrusive<Image_reader>(std::move(p), ip);
    };
}

std::string repeat(std::string_view s, std::size_t n)
{
    std::string r;
    r.reserve(s.size() * n);
    for (std::size_t i = 0; i < n; i++) {
        r += s;
    }
    return r;
}

Data_reader_params batch_of(std::size_t n)
{
    Data_reader_params p;
    p.batch_size = n;
    return p;
}

}  // namespace

PBT_TEST_W(C37, csv, 2.0)
{
    Setting s = any_setting(c);
    auto reads = [&](const std::function<std::string(std::size_t)> &data, Csv_params cp,
                     const Data_reader_params &p = batch_of(0)) {
        return [=](std::size_t n) {
            Work w;
            w.data.push_back(data(n));
            read_all(w, s, p, csv_reader(cp));
            return w;
        };
    };
    Csv_params cp = no_header();
    Csv_params with_header;
    Data_reader_params p = batch_of(0);
    static const char *const names[] = {
        "rows", "long field", "long quoted field", "long line", "columns", "named columns",
        "equal names", "used columns", "typed columns", "types by index", "comments", "blank lines",
        "bad rows", "padded rows", "row numbers to be skipped", "leading comments", "truncated field",
        "rows of a batch", "utf-16 rows", "long number", "quoted quotes"};
    std::size_t kind = c.draw(std::size(names) - 1);
    const char *what = names[kind];
    auto header = [](std::size_t n) {
        std::string h, r;
        for (std::size_t i = 0; i < n; i++) {
            h += (i != 0 ? ",c" : "c") + std::to_string(i);
            r += i != 0 ? ",1" : "1";
        }
        return h + "\n" + r + "\n" + r + "\n";
    };
    switch (kind) {
    case 0:
        p.shuffle_instances = c.chance(1, 3);
        p.shuffle_window = c.draw(2) * 7;
        return check_growth(c, what, 300, 20000, reads([](std::size_t n) {
            return repeat("1,two,3.5\n", n);
        }, cp, p));
    case 1:
        return check_growth(c, what, 5000, 1000000, reads([](std::size_t n) {
            return "1," + std::string(n, 'a') + ",2\n1,b,3\n";
        }, cp));
    case 2:
        cp.allow_quoted_new_lines = true;
        return check_growth(c, what, 5000, 1000000, reads([](std::size_t n) {
            return "1,\"" + repeat("line\n", n / 5) + "\",2\n1,b,3\n";
        }, cp));
    case 3:
        return check_growth(c, what, 5000, 200000, reads([](std::size_t n) {
            return repeat("1,", n) + "\n" + repeat("2,", n) + "\n";
        }, cp));
    case 4:
        return check_growth(c, what, 200, 5000, reads([](std::size_t n) {
            return repeat("1,", n) + "2\n" + repeat("2,", n) + "3\n";
        }, cp));
    case 5:
        return check_growth(c, what, 200, 5000, reads(header, with_header));
    case 6:
        with_header.dedupe_column_names = true;
        return check_growth(c, what, 200, 5000, reads([](std::size_t n) {
            return repeat("x,", n) + "y\n" + repeat("2,", n) + "3\n";
        }, with_header));
    case 7:
        return check_growth(c, what, 200, 5000, [=](std::size_t n) {
            Csv_params q;
            for (std::size_t i = 0; i < n; i += 2) {
                q.use_columns.insert("c" + std::to_string(i));
            }
            return reads(header, q)(n);
        });
    case 8:
        return check_growth(c, what, 200, 5000, [=](std::size_t n) {
            Csv_params q;
            for (std::size_t i = 0; i < n; i += 2) {
                q.column_types.emplace("c" + std::to_string(i), Data_type::float32);
            }
            return reads(header, q)(n);
        });
    case 9:
        return check_growth(c, what, 200, 5000, [=](std::size_t n) {
            Csv_params q;
            for (std::size_t i = 0; i < n; i += 2) {
                q.column_types_by_index.emplace(i, Data_type::float32);
            }
            return reads(header, q)(n);
        });
    case 10:
        cp.comment_char = '#';
        return check_growth(c, what, 1000, 100000, reads([](std::size_t n) {
            return "1,2\n" + repeat("# nothing\n", n) + "3,4\n";
        }, cp));
    case 11:
        return check_growth(c, what, 3000, 500000, reads([](std::size_t n) {
            return "1,2\n" + repeat("\n", n) + "3,4\n";
        }, cp));
    case 12:
        p.bad_example_handling = c.flag() ? Bad_example_handling::skip : Bad_example_handling::skip_warn;
        p.warn_bad_instances = c.flag();
        return check_growth(c, what, 100, 5000, reads([](std::size_t n) {
            return "1,2\n" + repeat("1,x\n", n) + "3,4\n";
        }, cp, p));
    case 13:
        p.bad_example_handling = c.flag() ? Bad_example_handling::pad : Bad_example_handling::pad_warn;
        p.warn_bad_instances = c.flag();
        return check_growth(c, what, 100, 5000, reads([](std::size_t n) {
            return "1,2\n" + repeat("1,x\n1,3\n", n) + "3,4\n";
        }, cp, p));
    case 14:
        return check_growth(c, what, 300, 50000, [=](std::size_t n) {
            auto q = p;
            q.num_instances_to_skip = n;
            return reads([](std::size_t m) {
                return repeat("1,two,3.5\n", m + 3);
            }, cp, q)(n);
        });
    case 15:
        with_header.comment_char = '#';
        return check_growth(c, what, 1000, 100000, reads([](std::size_t n) {
            return repeat("# nothing\n", n) + "a,b\n3,4\n";
        }, with_header));
    case 16:
        cp.max_field_length = 1 + c.draw(20);
        cp.max_field_length_handling = Max_field_length_handling::truncate;
        cp.default_data_type = Data_type::string;
        return check_growth(c, what, 5000, 1000000, reads([](std::size_t n) {
            return "1," + std::string(n, 'a') + ",2\n1,b,3\n";
        }, cp));
    case 17:
        return check_growth(c, what, 300, 20000, [=](std::size_t n) {
            return reads([](std::size_t m) {
                return repeat("1,two,3.5\n", 2 * m);
            }, cp, batch_of(n))(n);
        });
    case 18: {
        cp.encoding = Text_encoding::utf16_le;
        return check_growth(c, what, 300, 20000, reads([](std::size_t n) {
            std::string d;
            for (char ch : repeat("1,two,3.5\n", n)) {
                d += ch;
                d += '\0';
            }
            return d;
        }, cp));
    }
    case 19:
        cp.default_data_type = Data_type::float64;
        return check_growth(c, what, 2000, 500000, reads([](std::size_t n) {
            return "1,0." + std::string(n, '3') + "\n2,0." + std::string(n, '0') + "1\n";
        }, cp));
    default:
        cp.allow_quoted_new_lines = c.flag();
        return check_growth(c, what, 3000, 400000, reads([](std::size_t n) {
            return "1,\"" + repeat("\"\"", n) + "\",2\n1,b,3\n";
        }, cp));
    }
}

PBT_TEST_W(C37, binary, 2.0)
{
    Setting s = any_setting(c);
    auto reads = [&](const std::function<std::string(std::size_t)> &data, const Make_reader &make,
                     const Data_reader_params &p = batch_of(0)) {
        return [=](std::size_t n) {
            Work w;
            w.data.push_back(data(n));
            read_all(w, s, p, make);
            return w;
        };
    };
    static const char *const names[] = {"messages", "features", "values", "keys", "long message",
                                        "parts", "bad messages", "images", "lines", "long text line",
                                        "empty lines", "shuffled", "window", "files", "sampled", "dimensions",
                                        "sparse batch"};
    std::size_t kind = c.draw(std::size(names) - 1);
    const char *what = names[kind];
    auto message = [](std::size_t features, std::size_t values, std::size_t keys, Pb_type type = Pb_type::i32) {
        Pb_record r;
        for (std::size_t i = 0; i < features; i++) {
            Pb_value v;
            v.type = type;
            v.values.assign(values + keys, 1.0);
            for (std::size_t k = 0; k < keys; k++) {
                v.keys.push_back(k * 3);
            }
            if (keys != 0) {
                v.shape = {3 * keys};
            }
            r.features.emplace_back("f" + std::to_string(i), v);
        }
        std::string d;
        put_record(d, r.encode());
        return d;
    };
    Data_reader_params p = batch_of(0);
    switch (kind) {
    case 0:
        return check_growth(c, what, 100, 5000, reads([&](std::size_t n) {
            return repeat(message(2, 2, 0), n);
        }, pb_reader()));
    case 1:
        return check_growth(c, what, 50, 2000, reads([&](std::size_t n) {
            return repeat(message(n, 1, 0), 2);
        }, pb_reader()));
    case 2:
        return check_growth(c, what, 1000, 100000, reads([&](std::size_t n) {
            return repeat(message(1, n, 0), 2);
        }, pb_reader()));
    case 3:
        return check_growth(c, what, 1000, 50000, reads([&](std::size_t n) {
            return repeat(message(1, 0, n), 2);
        }, pb_reader()));
    case 4:
        return check_growth(c, what, 10000, 500000, reads([](std::size_t n) {
            Pb_record r;
            Pb_value v;
            v.type = Pb_type::f32;
            v.values = {1.0};
            r.features.emplace_back("f", v);
            put_bytes(r.extra, 5, std::string(n, 'u'));
            std::string d;
            put_record(d, r.encode());
            put_record(d, r.encode());
            return d;
        }, pb_reader()));
    case 5:
        return check_growth(c, what, 50, 20000, reads([](std::size_t n) {
            std::string d;
            for (int k = 0; k < 2; k++) {
                put_record(d, "line", 1);
                for (std::size_t i = 0; i < n; i++) {
                    put_record(d, "part", 2);
                }
                put_record(d, "last", 3);
            }
            return d;
        }, [](Data_reader_params q) -> Intrusive_ptr<Data_reader> {
            // The instances are no images, but get read nevertheless.
            q.bad_example_handling = Bad_example_handling::skip;
            return image_reader(Image_frame::recordio)(std::move(q));
        }));
    case 6:
        p.bad_example_handling = c.pick({Bad_example_handling::skip, Bad_example_handling::pad});
        return check_growth(c, what, 100, 4000, reads([&](std::size_t n) {
            std::string d = message(2, 2, 0);
            std::string bad;
            put_record(bad, c.flag() ? "no message" : message(3, 1, 0).substr(8));
            return d + repeat(bad + d, n);
        }, pb_reader(), p));
    case 7:
        return check_growth(c, what, 30, 2000, reads([](std::size_t n) {
            std::string r;
            put_record(r, std::string(24, 'h') + ppm(2, 2, std::vector<std::uint8_t>(12, 7)));
            return repeat(r, n);
        }, image_reader(Image_frame::recordio)));
    case 8:
        return check_growth(c, what, 300, 20000, reads([](std::size_t n) {
            return repeat("a line\r\n", n);
        }, text_reader()));
    case 9:
        return check_growth(c, what, 10000, 1000000, reads([](std::size_t n) {
            return "a\n" + std::string(n, 'x') + "\nb\n";
        }, text_reader()));
    case 10:
        return check_growth(c, what, 300, 20000, reads([](std::size_t n) {
            return std::string(n, '\n');
        }, text_reader()));
    case 11:
        p.shuffle_instances = true;
        p.shuffle_window = 0;
        p.reshuffle_each_epoch = c.flag();
        return check_growth(c, what, 300, 20000, reads([](std::size_t n) {
            return repeat("a line\n", n);
        }, text_reader(), p));
    case 12:
        return check_growth(c, what, 300, 20000, [=](std::size_t n) {
            auto q = p;
            q.shuffle_instances = true;
            q.shuffle_window = n / 2;
            return reads([](std::size_t m) {
                return repeat("a line\n", m);
            }, text_reader(), q)(n);
        });
    case 13:
        return check_growth(c, what, 30, 2000, [=](std::size_t n) {
            Work w;
            w.data.assign(n, "a line\nand another\n");
            read_all(w, s, batch_of(0), text_reader());
            return w;
        });
    case 14:
        p.sample_ratio = 0.3F;
        p.num_shards = 3;
        p.shard_index = 1;
        return check_growth(c, what, 300, 50000, reads([](std::size_t n) {
            return repeat("a line\n", n);
        }, text_reader(), p));
    case 15:
        return check_growth(c, what, 4, 30, reads([](std::size_t n) {
            Pb_record r;
            Pb_value v;
            v.type = Pb_type::f64;
            v.values = {2.0, 3.0};
            v.keys = {0, 1};
            v.shape.assign(n, 1);
            v.shape.back() = 5;
            r.features.emplace_back("f", v);
            std::string d;
            put_record(d, r.encode());
            return repeat(d, 50);
        }, pb_reader()));
    default:
        return check_growth(c, what, 100, 5000, [=](std::size_t n) {
            return reads([&](std::size_t m) {
                return repeat(message(1, 0, 3), m);
            }, pb_reader(), batch_of(n))(n);
        });
    }
}

PBT_TEST(C37, pieces)
{
    static const char *const names[] = {"parquet files", "long parquet file", "parquet marks", "members",
                                        "long member", "tensor", "schema", "slices"};
    std::size_t kind = c.draw(std::size(names) - 1);
    const char *what = names[kind];
    if (c.chance(1, 2)) {
        mlio::verif::chunk_size = c.pick<std::size_t>({256, 5000, 70000});
        mlio::verif::inflate_buffer_size = c.pick<std::size_t>({256, 5000, 70000});
    }
    auto records = [&](const std::function<std::string(std::size_t)> &data) {
        return [=](std::size_t n) {
            Work w;
            w.data.push_back(data(n));
            auto store = store_of(w, 0, Source::stream);
            w.run = [store, reads = w.reads] {
                Parquet_record_reader r{store->open_read()};
                while (r.read_record()) {
                }
            };
            return w;
        };
    };
    auto parquet = [](const std::string &body) {
        std::string meta = "\x15" + std::string(9, 'm') + '\0';
        std::string s = "PAR1" + body + meta;
        put_u32(s, static_cast<std::uint32_t>(meta.size()));
        return s + "PAR1";
    };
    auto inflates = [&](const std::function<std::string(std::size_t)> &data) {
        return [=](std::size_t n) {
            Work w;
            w.data.push_back(data(n));
            auto store = store_of(w, 0, Source::stream);
            w.run = [store, reads = w.reads] {
                Gzip_inflate_stream in{store->open_read()};
                std::vector<std::byte> v(1000);
                while (in.read(v) != 0) {
                }
            };
            return w;
        };
    };
    switch (kind) {
    case 0:
        return check_growth(c, what, 100, 10000, records([&](std::size_t n) {
            return repeat(parquet("body"), n);
        }));
    case 1:
        return check_growth(c, what, 5000, 200000, records([&](std::size_t n) {
            return repeat(parquet(std::string(n, 'b')), 2);
        }));
    case 2:
        return check_growth(c, what, 1000, 50000, records([&](std::size_t n) {
            return repeat(parquet(repeat("PAR1", n)), 2);
        }));
    case 3:
        return check_growth(c, what, 100, 5000, inflates([](std::size_t n) {
            return repeat(deflate("some text", 1, true), n);
        }));
    case 4: {
        auto g = c.rng();
        std::string some;
        for (int i = 0; i < 1000; i++) {
            some += static_cast<char>(g() % 30);
        }
        return check_growth(c, what, 20, 1000, inflates([=](std::size_t n) {
            return deflate(repeat(some, n), 1, true);
        }));
    }
    case 5:
        return check_growth(c, what, 20000, 500000, [](std::size_t n) {
            Work w;
            w.run = [n] {
                Dense_tensor t{{n / 4, 4}, make_cpu_array(Data_type::float64, n / 4 * 4)};
                t.data();
            };
            return w;
        });
    case 6:
        return check_growth(c, what, 200, 5000, [](std::size_t n) {
            Work w;
            w.run = [n] {
                std::vector<Attribute> a;
                for (std::size_t i = 0; i < n; i++) {
                    a.emplace_back("name" + std::to_string(i), Data_type::int32, Size_vector{1});
                }
                Schema s{a};
                Schema t{a};
                std::size_t found = 0;
                for (auto &x : a) {
                    found += s.get_index(x.name()) != std::nullopt;
                    found += t.get_index(x.name() + "x") != std::nullopt;
                }
                ENSURE(found == n, found, " names are found");
                ENSURE(s == t && std::hash<Schema>{}(s) == std::hash<Schema>{}(t), "equal schemas");
            };
            return w;
        });
    default:
        return check_growth(c, what, 1000, 100000, [](std::size_t n) {
            Work w;
            w.run = [n] {
                Memory_slice s{memory_allocator().allocate(n)};
                for (std::size_t i = 0; i < n; i++) {
                    s = s.subslice(s.begin() + 1);
                }
            };
            return w;
        });
    }
}
