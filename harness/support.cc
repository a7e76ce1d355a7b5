#include "support.h"

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <system_error>
#include <thread>

#include <tbb/global_control.h>

#include <mlio/parser.h>

namespace pbt {

using namespace mlio;

static std::string g_scratch;
static std::uint64_t g_counter = 0;
static std::mutex g_log_mutex;
static std::vector<std::string> g_log;

static void remove_tree(const std::string &dir)
{
    // Only the scratch directory that this process created.
    DIR *d = ::opendir(dir.c_str());
    if (d == nullptr) {
        return;
    }
    while (auto *e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") {
            continue;
        }
        std::string p = dir + "/" + n;
        struct stat st {};
        if (::lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            remove_tree(p);
            ::rmdir(p.c_str());
        }
        else {
            ::unlink(p.c_str());
        }
    }
    ::closedir(d);
}

static bool g_used_scratch = false;

void worker_init(const std::string &scratch)
{
    g_scratch = scratch;
    mlio::initialize();
    set_log_message_handler([](Log_level, std::string_view msg) {
        std::lock_guard<std::mutex> lock{g_log_mutex};
        if (g_log.size() < 10000) {
            g_log.emplace_back(msg);
        }
    });
}

void case_begin()
{
    mlio::verif::chunk_size = 1 << 16;
    mlio::verif::utf8_buffer_size = 1 << 16;
    mlio::verif::inflate_buffer_size = 1 << 14;
    mlio::verif::parallel_cut_off = 10'000'000;
    set_log_level(Log_level::warning);
    std::lock_guard<std::mutex> lock{g_log_mutex};
    g_log.clear();
}

void case_end()
{
    if (g_used_scratch) {
        remove_tree(g_scratch);
        g_used_scratch = false;
    }
}

std::vector<std::string> take_log()
{
    std::lock_guard<std::mutex> lock{g_log_mutex};
    return std::move(g_log);
}

std::string describe(const std::exception &e)
{
    std::string s = e.what();
    try {
        std::rethrow_if_nested(e);
    }
    catch (const std::exception &n) {
        s += " <- " + describe(n);
    }
    catch (...) {
        s += " <- (unknown)";
    }
    return s;
}

std::string scratch_path(const std::string &name)
{
    g_used_scratch = true;
    std::string d = g_scratch + "/f" + std::to_string(g_counter++);
    ::mkdir(d.c_str(), 0755);
    return d + "/" + name;
}

std::string scratch_dir(const std::string &name)
{
    std::string p = scratch_path(name);
    ::mkdir(p.c_str(), 0755);
    return p;
}

void write_file(const std::string &path, std::string_view data)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(data.data(), static_cast<std::streamsize>(data.size()));
    if (!f) {
        throw std::runtime_error("harness: cannot write " + path);
    }
}

// ---------------------------------------------------------------- blocks

Intrusive_ptr<Mutable_memory_block> block_of(std::string_view data)
{
    auto b = make_intrusive<Heap_memory_block>(data.size());
    if (!data.empty()) {
        std::memcpy(b->data(), data.data(), data.size());
    }
    return b;
}

Memory_slice slice_of(std::string_view data)
{
    return Memory_slice{block_of(data)};
}

std::string to_string(const Memory_slice &s)
{
    return std::string(reinterpret_cast<const char *>(s.data()), s.size());
}

std::string deflate(std::string_view data, int level, bool gzip)
{
    z_stream z{};
    if (::deflateInit2(&z, level, Z_DEFLATED, MAX_WBITS + (gzip ? 16 : 0), 8,
                       Z_DEFAULT_STRATEGY) != Z_OK) {
        throw std::runtime_error("harness: deflateInit2");
    }
    std::string out;
    out.resize(::deflateBound(&z, data.size()) + 64);
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data.data()));
    z.avail_in = static_cast<uInt>(data.size());
    z.next_out = reinterpret_cast<Bytef *>(out.data());
    z.avail_out = static_cast<uInt>(out.size());
    if (::deflate(&z, Z_FINISH) != Z_STREAM_END) {
        throw std::runtime_error("harness: deflate");
    }
    out.resize(z.total_out);
    ::deflateEnd(&z);
    return out;
}

std::string gzip_members(Case &c, std::string_view data)
{
    std::string out;
    std::size_t n = c.weighted({6, 1, 1}) + 1;
    std::size_t pos = 0;
    for (std::size_t i = 0; i < n; i++) {
        std::size_t len = i + 1 == n ? data.size() - pos : c.draw(data.size() - pos);
        out += deflate(data.substr(pos, len), static_cast<int>(c.draw(9)), true);
        pos += len;
    }
    return out;
}

// ---------------------------------------------------------------- streams

void Test_stream::check() const
{
    if (closed_) {
        throw Stream_error{"The input stream is closed."};
    }
}

std::size_t Test_stream::read(Mutable_memory_span destination)
{
    check();
    if (!plan_.delays_us.empty()) {
        unsigned d = plan_.delays_us[n_ % plan_.delays_us.size()];
        if (d != 0) {
            std::this_thread::sleep_for(std::chrono::microseconds{d});
        }
    }
    std::size_t want = destination.size();
    if (!plan_.max_reads.empty()) {
        want = std::min(want, std::max<std::size_t>(1, plan_.max_reads[n_ % plan_.max_reads.size()]));
    }
    n_++;
    want = std::min(want, data_->size() - pos_);
    if (plan_.fail_at != SIZE_MAX && pos_ + want >= plan_.fail_at) {
        if (pos_ >= plan_.fail_at) {
            if (plan_.fail_kind == 0) {
                throw Stream_error{"injected stream fault"};
            }
            throw std::system_error{std::make_error_code(std::errc::io_error), "injected fault"};
        }
        want = plan_.fail_at - pos_;
    }
    if (want != 0) {
        std::memcpy(destination.data(), data_->data() + pos_, want);
    }
    pos_ += want;
    return want;
}

Memory_slice Test_stream::read(std::size_t size)
{
    auto b = make_intrusive<Heap_memory_block>(size);
    std::size_t n = read(*b);
    return Memory_slice{b}.first(n);
}

void Test_stream::seek(std::size_t position)
{
    check();
    if (!plan_.seekable) {
        throw Not_supported_error{"The input stream is not seekable."};
    }
    pos_ = std::min(position, data_->size());
}

void Test_stream::close() noexcept
{
    closed_ = true;
}

std::size_t Test_stream::size() const
{
    check();
    if (!plan_.seekable) {
        throw Not_supported_error{"The input stream is not seekable."};
    }
    return data_->size();
}

std::size_t Test_stream::position() const
{
    check();
    if (!plan_.seekable) {
        throw Not_supported_error{"The input stream is not seekable."};
    }
    return pos_;
}

Intrusive_ptr<Input_stream> Test_store::open_read() const
{
    return make_intrusive<Test_stream>(data_, plan_);
}

Delivery any_delivery(Case &c)
{
    // Memory first: the simplest, and what a case shrinks to.
    return static_cast<Delivery>(c.weighted({4, 1, 1, 6, 3, 2, 1, 2}));
}

const char *name_of(Delivery d)
{
    static const char *n[] = {"memory", "file", "mapped", "stream", "seekable_stream",
                              "gz_memory", "gz_file", "gz_stream"};
    return n[static_cast<int>(d)];
}

Stream_plan any_plan(Case &c, bool seekable)
{
    Stream_plan p;
    p.seekable = seekable;
    std::size_t n = c.draw(4);
    for (std::size_t i = 0; i < n; i++) {
        p.max_reads.push_back(c.weighted({1, 1}) == 0 ? 1 + c.draw(5) : 1 + c.draw(100));
    }
    return p;
}

Intrusive_ptr<Data_store> make_store(Case &c, std::string_view data, Delivery d)
{
    std::string id = "store" + std::to_string(g_counter++);
    switch (d) {
    case Delivery::memory:
        return make_intrusive<In_memory_store>(slice_of(data));
    case Delivery::file:
    case Delivery::mapped: {
        std::string p = scratch_path("data.bin");
        write_file(p, data);
        return make_intrusive<File>(p, d == Delivery::mapped);
    }
    case Delivery::stream:
        return make_intrusive<Test_store>(id, std::string(data), any_plan(c, false));
    case Delivery::seekable_stream:
        return make_intrusive<Test_store>(id, std::string(data), any_plan(c, true));
    case Delivery::gz_memory:
        return make_intrusive<In_memory_store>(slice_of(gzip_members(c, data)), Compression::gzip);
    case Delivery::gz_file:
    case Delivery::gz_stream: {
        std::string p = scratch_path("data.gz");
        write_file(p, gzip_members(c, data));
        return make_intrusive<File>(p, d == Delivery::gz_file);
    }
    }
    throw std::logic_error("delivery");
}

void any_buffer_sizes(Case &c)
{
    switch (c.draw(3)) {
    case 0:
        break;
    case 1:
        mlio::verif::chunk_size = 1 + c.draw(8);
        break;
    default:
        mlio::verif::chunk_size = 1 + c.draw(200);
        break;
    }
    if (c.flag()) {
        mlio::verif::utf8_buffer_size = 8 + c.draw(40);
    }
    if (c.flag()) {
        mlio::verif::inflate_buffer_size = 1 + c.draw(64);
    }
}

// ---------------------------------------------------------------- values

std::string value_of(double v)
{
    if (std::isnan(v)) {
        return "nan";
    }
    char buf[64];
    std::snprintf(buf, sizeof buf, "%a", v);
    return buf;
}

std::string value_of(float v)
{
    return value_of(static_cast<double>(v));
}

std::string type_name(Data_type dt)
{
    std::ostringstream o;
    o << dt;
    return o.str();
}

std::string value_at(Data_type dt, const void *data, std::size_t i)
{
    switch (dt) {
    case Data_type::size:
        return std::to_string(static_cast<const std::size_t *>(data)[i]);
    case Data_type::float16:
        return "h" + std::to_string(static_cast<const std::uint16_t *>(data)[i]);
    case Data_type::float32:
        return value_of(static_cast<const float *>(data)[i]);
    case Data_type::float64:
        return value_of(static_cast<const double *>(data)[i]);
    case Data_type::int8:
        return std::to_string(static_cast<const std::int8_t *>(data)[i]);
    case Data_type::int16:
        return std::to_string(static_cast<const std::int16_t *>(data)[i]);
    case Data_type::int32:
        return std::to_string(static_cast<const std::int32_t *>(data)[i]);
    case Data_type::int64:
        return std::to_string(static_cast<const std::int64_t *>(data)[i]);
    case Data_type::uint8:
        return std::to_string(static_cast<const std::uint8_t *>(data)[i]);
    case Data_type::uint16:
        return std::to_string(static_cast<const std::uint16_t *>(data)[i]);
    case Data_type::uint32:
        return std::to_string(static_cast<const std::uint32_t *>(data)[i]);
    case Data_type::uint64:
        return std::to_string(static_cast<const std::uint64_t *>(data)[i]);
    case Data_type::string:
        return static_cast<const std::string *>(data)[i];
    }
    return "?";
}

Ex to_ex(const Example &e)
{
    Ex out;
    out.padding = e.padding;
    const auto &attrs = e.schema().attributes();
    ENSURE(attrs.size() == e.features().size(), "the example has ", e.features().size(),
           " features, its schema ", attrs.size());
    for (std::size_t i = 0; i < attrs.size(); i++) {
        Column col;
        col.name = attrs[i].name();
        col.sparse = attrs[i].sparse();
        const Tensor &t = *e.features()[i];
        col.type = t.data_type();
        col.shape = t.shape();
        col.strides = t.strides();
        ENSURE(col.type == attrs[i].data_type(), "feature ", col.name, " has the type ",
               type_name(col.type), ", the schema ", type_name(attrs[i].data_type()));
        if (const auto *d = dynamic_cast<const Dense_tensor *>(&t)) {
            ENSURE(!col.sparse, "a sparse attribute with a dense tensor: ", col.name);
            auto v = d->data();
            ENSURE(v.data_type() == col.type, "array type differs from tensor type");
            std::size_t n = 1;
            for (std::size_t s : col.shape) {
                n *= s;
            }
            ENSURE(v.size() >= n, "the tensor has ", v.size(), " elements, its shape ", n);
            for (std::size_t k = 0; k < v.size(); k++) {
                col.values.push_back(value_at(col.type, v.data(), k));
            }
        }
        else if (const auto *s = dynamic_cast<const Coo_tensor *>(&t)) {
            ENSURE(col.sparse, "a dense attribute with a sparse tensor: ", col.name);
            auto v = s->data();
            ENSURE(v.data_type() == col.type, "array type differs from tensor type");
            for (std::size_t k = 0; k < v.size(); k++) {
                col.values.push_back(value_at(col.type, v.data(), k));
            }
            for (std::size_t dim = 0; dim < col.shape.size(); dim++) {
                auto ix = s->indices(dim);
                ENSURE(ix.size() == v.size(), "dimension ", dim, " has ", ix.size(),
                       " coordinates for ", v.size(), " values");
                std::vector<std::uint64_t> cs;
                for (std::size_t k = 0; k < ix.size(); k++) {
                    std::uint64_t x = ix.as<std::size_t>()[k];
                    ENSURE(x < col.shape[dim], "coordinate ", x, " outside the shape in dimension ",
                           dim);
                    cs.push_back(x);
                }
                col.coords.push_back(std::move(cs));
            }
        }
        else {
            fail("a feature of an unexpected tensor kind");
        }
        out.columns.push_back(std::move(col));
    }
    return out;
}

std::string show(const Ex &e)
{
    std::ostringstream o;
    o << "{padding=" << e.padding;
    for (auto &col : e.columns) {
        o << " " << quote(col.name, 30) << ":" << type_name(col.type) << (col.sparse ? " sparse" : "")
          << join(col.shape) << "=[";
        std::size_t n = 0;
        for (auto &v : col.values) {
            o << (n != 0 ? "," : "") << (col.type == Data_type::string ? quote(v, 60) : v);
            if (++n > 40) {
                o << "...";
                break;
            }
        }
        o << "]";
        for (auto &cs : col.coords) {
            o << "@" << join(cs);
        }
    }
    o << "}";
    return o.str();
}

std::string show(const std::vector<Ex> &v)
{
    std::string s;
    std::size_t n = 0;
    for (auto &e : v) {
        s += show(e) + " ";
        if (++n > 20) {
            s += "...";
            break;
        }
    }
    return s.empty() ? "(none)" : s;
}

std::string kind_of_error(const std::function<void()> &f, std::string *what)
{
    auto set = [&](const std::exception &e) {
        if (what != nullptr) {
            *what = describe(e);
        }
    };
    try {
        f();
        return "";
    }
    catch (const Failure &) {
        throw;
    }
    catch (const Discard &) {
        throw;
    }
    catch (const Schema_error &e) {
        set(e);
        return "schema";
    }
    catch (const Invalid_instance_error &e) {
        set(e);
        return "instance";
    }
    catch (const Data_reader_error &e) {
        set(e);
        return "data_reader";
    }
    catch (const Inflate_error &e) {
        set(e);
        return "inflate";
    }
    catch (const Stream_error &e) {
        set(e);
        return "stream";
    }
    catch (const Corrupt_header_error &e) {
        set(e);
        return "corrupt_header";
    }
    catch (const Corrupt_footer_error &e) {
        set(e);
        return "corrupt_footer";
    }
    catch (const Corrupt_record_error &e) {
        set(e);
        return "corrupt_record";
    }
    catch (const Record_too_large_error &e) {
        set(e);
        return "record_too_large";
    }
    catch (const Record_error &e) {
        set(e);
        return "record";
    }
    catch (const Not_supported_error &e) {
        set(e);
        return "not_supported";
    }
    catch (const Mlio_error &e) {
        set(e);
        return "mlio";
    }
    catch (const std::system_error &e) {
        set(e);
        return "system";
    }
    catch (const std::invalid_argument &e) {
        set(e);
        return "invalid_argument";
    }
    catch (const std::out_of_range &e) {
        set(e);
        return "out_of_range";
    }
    catch (const std::bad_alloc &e) {
        set(e);
        return "bad_alloc";
    }
    catch (const std::exception &e) {
        set(e);
        return "other";
    }
    catch (...) {
        if (what != nullptr) {
            *what = "an exception of an unknown type";
        }
        return "unknown";
    }
}

Epoch read_epoch(Data_reader &r, std::size_t max_examples)
{
    Epoch out;
    out.error_kind = kind_of_error(
        [&] {
            while (out.examples.size() < max_examples) {
                auto e = r.read_example();
                if (e == nullptr) {
                    break;
                }
                out.examples.push_back(to_ex(*e));
            }
        },
        &out.error);
    out.failed = !out.error_kind.empty();
    return out;
}

std::string utf8_of(std::uint32_t cp)
{
    std::string s;
    if (cp < 0x80) {
        s += static_cast<char>(cp);
    }
    else if (cp < 0x800) {
        s += static_cast<char>(0xC0 | (cp >> 6));
        s += static_cast<char>(0x80 | (cp & 63));
    }
    else if (cp < 0x10000) {
        s += static_cast<char>(0xE0 | (cp >> 12));
        s += static_cast<char>(0x80 | ((cp >> 6) & 63));
        s += static_cast<char>(0x80 | (cp & 63));
    }
    else {
        s += static_cast<char>(0xF0 | (cp >> 18));
        s += static_cast<char>(0x80 | ((cp >> 12) & 63));
        s += static_cast<char>(0x80 | ((cp >> 6) & 63));
        s += static_cast<char>(0x80 | (cp & 63));
    }
    return s;
}

struct Thread_limit::Impl {
    explicit Impl(std::size_t n) : gc{tbb::global_control::max_allowed_parallelism, n}
    {}
    tbb::global_control gc;
};

Thread_limit::Thread_limit(std::size_t n) : impl_{std::make_unique<Impl>(n)}
{}

Thread_limit::~Thread_limit() = default;

}  // namespace pbt
