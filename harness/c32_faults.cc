// C32: a data store that fails makes reading fail; it never just ends early, is taken
// for a bad instance or loses what comes after a reset.
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <thread>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "numbered.h"

#include <dirent.h>

#include <mlio/streams/gzip_inflate_stream.h>

using namespace mlio;
using namespace pbt;

namespace {

// ---- stand-ins for the system calls on files of the case

enum class Op { none, open_, fstat_, mmap_, read_, lseek_, short_read, zero_size };

struct Rule {
    Op op = Op::none;
    std::string dir;       // only files below
    std::size_t skip{};    // calls that succeed before
    int error{};
    std::size_t limit{};   // short reads
};

std::mutex g_mutex;
Rule g_rule;
std::set<int> g_fds;
std::size_t g_calls{};
std::size_t g_fired{};

bool applies(Op op)
{
    if (g_rule.op != op) {
        return false;
    }
    if (g_calls++ < g_rule.skip) {
        return false;
    }
    g_fired++;
    return true;
}

bool tracked(int fd, Op op)
{
    std::lock_guard<std::mutex> lock{g_mutex};
    return g_fds.count(fd) != 0 && applies(op);
}

void set_rule(const Rule &r)
{
    std::lock_guard<std::mutex> lock{g_mutex};
    g_rule = r;
    g_calls = 0;
    g_fired = 0;
    if (r.op == Op::none && r.dir.empty()) {
        g_fds.clear();
    }
}

std::size_t fired()
{
    std::lock_guard<std::mutex> lock{g_mutex};
    return g_fired;
}

struct Rule_guard {
    ~Rule_guard()
    {
        set_rule({});
    }
};

}  // namespace

extern "C" int open(const char *path, int flags, ...)
{
    mode_t mode = 0;
    if ((flags & (O_CREAT | O_TMPFILE)) != 0) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    bool mine = false;
    {
        std::lock_guard<std::mutex> lock{g_mutex};
        mine = !g_rule.dir.empty() && std::string_view(path).substr(0, g_rule.dir.size()) == g_rule.dir &&
               (flags & (O_WRONLY | O_RDWR)) == 0;
        if (mine && applies(Op::open_)) {
            errno = g_rule.error;
            return -1;
        }
    }
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    if (fd != -1) {
        std::lock_guard<std::mutex> lock{g_mutex};
        if (mine) {
            g_fds.insert(fd);
        }
        else {
            g_fds.erase(fd);
        }
    }
    return fd;
}

extern "C" ssize_t read(int fd, void *p, size_t n)
{
    if (tracked(fd, Op::read_)) {
        errno = g_rule.error;
        return -1;
    }
    if (tracked(fd, Op::short_read)) {
        n = std::min(n, g_rule.limit);
    }
    return ::syscall(SYS_read, fd, p, n);
}

extern "C" off_t lseek(int fd, off_t o, int whence) noexcept
{
    if (tracked(fd, Op::lseek_)) {
        errno = g_rule.error;
        return -1;
    }
    return ::syscall(SYS_lseek, fd, o, whence);
}

extern "C" int fstat(int fd, struct stat *s) noexcept
{
    if (tracked(fd, Op::fstat_)) {
        errno = g_rule.error;
        return -1;
    }
    int r = static_cast<int>(::syscall(SYS_fstat, fd, s));
    if (r == 0 && tracked(fd, Op::zero_size)) {
        s->st_size = 0;
    }
    return r;
}

extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
    if (fd != -1 && tracked(fd, Op::mmap_)) {
        errno = g_rule.error;
        return MAP_FAILED;
    }
    auto r = ::syscall(SYS_mmap, a, n, prot, flags, fd, o);
    return reinterpret_cast<void *>(r);
}

namespace {

// ---- stores that fail on purpose

enum class Fault {
    none,
    open_missing,     // system_error: no such file
    open_denied,      // system_error: permission
    open_system,      // another system error
    open_stream,      // Stream_error
    open_foreign,     // an exception of the data store itself
    read_stream,
    read_system,
    read_unsupported,
    read_foreign,
    read_memory,      // std::bad_alloc
    read_unknown,     // neither from the standard library nor from this one
};

struct Unknown_error {};

bool at_open(Fault f)
{
    return f >= Fault::open_missing && f <= Fault::open_foreign;
}

[[noreturn]] void throw_fault(Fault f)
{
    switch (f) {
    case Fault::open_missing:
        throw std::system_error{std::make_error_code(std::errc::no_such_file_or_directory), "injected"};
    case Fault::open_denied:
        throw std::system_error{std::make_error_code(std::errc::permission_denied), "injected"};
    case Fault::open_system:
    case Fault::read_system:
        throw std::system_error{std::make_error_code(std::errc::io_error), "injected"};
    case Fault::open_stream:
    case Fault::read_stream:
        throw Stream_error{"injected"};
    case Fault::read_unsupported:
        throw Not_supported_error{"injected"};
    case Fault::read_memory:
        throw std::bad_alloc{};
    case Fault::read_unknown:
        throw Unknown_error{};
    default:
        throw std::runtime_error{"injected"};
    }
}

struct Plan {
    std::atomic<bool> armed{};
    std::atomic<std::size_t> fired{};
    Fault fault{};
    std::size_t at{};       // bytes that can be read
    bool lasting = true;    // or the first time only
};

class Fault_stream final : public Input_stream {
public:
    Fault_stream(std::shared_ptr<const std::string> data, std::shared_ptr<Plan> plan, bool zero_copy,
                 Stream_plan sp)
        : data_{std::move(data)}, plan_{std::move(plan)}, zero_copy_{zero_copy}, sp_{std::move(sp)}
    {}

    std::size_t read(Mutable_memory_span destination) final
    {
        std::size_t n = next(destination.size());
        std::memcpy(destination.data(), data_->data() + pos_ - n, n);
        return n;
    }
    Memory_slice read(std::size_t size) final
    {
        std::size_t n = next(size);
        return slice_of(std::string_view{*data_}.substr(pos_ - n, n));
    }
    void seek(std::size_t position) final
    {
        if (!seekable()) {
            throw Not_supported_error{"The input stream is not seekable."};
        }
        pos_ = std::min(position, data_->size());
    }
    void close() noexcept final
    {
        closed_ = true;
    }
    std::size_t size() const final
    {
        if (!seekable()) {
            throw Not_supported_error{"The input stream is not seekable."};
        }
        return data_->size();
    }
    std::size_t position() const final
    {
        if (!seekable()) {
            throw Not_supported_error{"The input stream is not seekable."};
        }
        return pos_;
    }
    bool closed() const noexcept final
    {
        return closed_;
    }
    bool seekable() const noexcept final
    {
        return sp_.seekable || zero_copy_;
    }
    bool supports_zero_copy() const noexcept final
    {
        return zero_copy_;
    }

private:
    std::size_t next(std::size_t size)
    {
        if (closed_) {
            throw Stream_error{"The input stream is closed."};
        }
        std::size_t n = std::min(size, data_->size() - pos_);
        if (!zero_copy_ && !sp_.max_reads.empty()) {
            n = std::min(n, std::max<std::size_t>(1, sp_.max_reads[calls_++ % sp_.max_reads.size()]));
        }
        if (plan_ && plan_->armed && plan_->fault != Fault::none && !at_open(plan_->fault) &&
            pos_ + n > plan_->at) {
            if (zero_copy_ || pos_ >= plan_->at) {
                plan_->fired++;
                if (!plan_->lasting) {
                    plan_->armed = false;
                }
                throw_fault(plan_->fault);
            }
            n = plan_->at - pos_;
        }
        pos_ += n;
        return n;
    }

    std::shared_ptr<const std::string> data_;
    std::shared_ptr<Plan> plan_;
    bool zero_copy_{};
    Stream_plan sp_;
    std::size_t pos_{};
    std::size_t calls_{};
    bool closed_{};
};

class Fault_store final : public Data_store {
public:
    Fault_store(std::string id, std::string data, bool gzip, bool zero_copy, Stream_plan sp)
        : id_{std::move(id)}
        , data_{std::make_shared<std::string>(std::move(data))}
        , gzip_{gzip}
        , zero_copy_{zero_copy}
        , sp_{std::move(sp)}
    {}

    Intrusive_ptr<Input_stream> open_read() const final
    {
        if (plan && plan->armed && at_open(plan->fault)) {
            plan->fired++;
            if (!plan->lasting) {
                plan->armed = false;
            }
            throw_fault(plan->fault);
        }
        Intrusive_ptr<Input_stream> s = make_intrusive<Fault_stream>(data_, plan, zero_copy_, sp_);
        if (gzip_) {
            return make_intrusive<Gzip_inflate_stream>(std::move(s));
        }
        return s;
    }
    std::string repr() const final
    {
        return "<Fault_store " + id_ + ">";
    }
    const std::string &id() const final
    {
        return id_;
    }
    std::size_t size() const
    {
        return data_->size();
    }

    std::shared_ptr<Plan> plan;

private:
    std::string id_;
    std::shared_ptr<const std::string> data_;
    bool gzip_{};
    bool zero_copy_{};
    Stream_plan sp_;
};

std::string contents(const Data_store &s)
{
    auto stream = s.open_read();
    std::string out;
    std::vector<std::byte> buf(4096);
    for (;;) {
        std::size_t n = stream->read(stdx::as_writable_bytes(stdx::span<std::byte>(buf)));
        if (n == 0) {
            return out;
        }
        out.append(reinterpret_cast<const char *>(buf.data()), n);
    }
}

std::vector<std::vector<std::size_t>> batches_of(std::size_t total, std::size_t batch)
{
    std::vector<std::vector<std::size_t>> out;
    for (std::size_t i = 0; i < total; i += batch) {
        out.push_back(iota(i, std::min(total, i + batch)));
    }
    return out;
}

void check_prefix(const Numbered &n, const Epoch &e, const std::vector<std::vector<std::size_t>> &want)
{
    ENSURE(e.examples.size() <= want.size(), e.examples.size(), " examples instead of ", want.size());
    for (std::size_t i = 0; i < e.examples.size(); i++) {
        check_ids(n.ids(e.examples[i]), want[i], "the instances of example " + std::to_string(i));
    }
}

void check_all(const Numbered &n, const Epoch &e, const std::vector<std::vector<std::size_t>> &want,
               const char *when)
{
    ENSURE(!e.failed, when, ", reading failed: ", e.error);
    ENSURE(e.examples.size() == want.size(), when, ", ", e.examples.size(), " examples instead of ",
           want.size());
    check_prefix(n, e, want);
}

// Reading on without a reset may fail again, or go on where it stopped.
void check_rest(const Numbered &n, Data_reader &reader, const Epoch &before,
                const std::vector<std::vector<std::size_t>> &want)
{
    Epoch again = read_epoch(reader);
    auto from = want.begin() + static_cast<std::ptrdiff_t>(before.examples.size());
    std::vector<std::vector<std::size_t>> rest(from, want.end());
    if (again.failed) {
        check_prefix(n, again, rest);
    }
    else {
        check_all(n, again, rest, "going on after the error");
    }
}

void any_handling(Case &c, Data_reader_params &p)
{
    p.batch_size = 1 + c.size(10);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(4));
    any_parallelism(c, p);
    any_buffer_sizes(c);
}

}  // namespace

PBT_TEST(C32, failing_stores)
{
    Numbered n = any_numbered(c, c.chance(1, 8) ? 150 : 25);
    Data_reader_params p;
    any_handling(c, p);
    n.fill(c, p, false);

    // The same data in stores that can fail.
    std::vector<Intrusive_ptr<Fault_store>> stores;
    for (std::size_t i = 0; i < p.dataset.size(); i++) {
        std::string data = contents(*p.dataset[i]);
        bool gzip = c.chance(1, 4);
        if (gzip) {
            data = gzip_members(c, data);
        }
        bool zero_copy = c.chance(1, 4);
        stores.push_back(make_intrusive<Fault_store>("store/" + std::to_string(i), data, gzip, zero_copy,
                                                     any_plan(c, c.flag())));
    }
    p.dataset.assign(stores.begin(), stores.end());
    if (stores.empty()) {
        c.discard();
    }
    std::size_t k = c.draw(stores.size() - 1);
    auto plan = std::make_shared<Plan>();
    stores[k]->plan = plan;
    plan->fault = static_cast<Fault>(1 + c.draw(10));
    plan->lasting = c.chance(3, 4);
    std::size_t size = stores[k]->size();
    if (!at_open(plan->fault)) {
        if (size == 0) {
            c.discard();
        }
        plan->at = c.flag() ? c.size(size - 1) : size - 1 - c.size(size - 1);
    }
    bool schema_first = c.chance(1, 4);
    bool stops = c.flag() && any_selection(c, p, n.total);
    std::size_t from = c.chance(1, 4) ? 1 : 0;  // the epoch from which on it fails
    c.desc(n.show(), " batch=", p.batch_size, " bad_handling=", static_cast<int>(p.bad_example_handling),
           " fault=", static_cast<int>(plan->fault), " in store ", k, " after ", plan->at, " of ", size,
           " bytes, lasting=", plan->lasting, " from epoch ", from, " schema_first=", schema_first,
           " prefetch=", p.num_prefetched_examples, " reads=", p.num_parallel_reads,
           show_selection(p));
    c.nontrivial(n.total > p.batch_size);
    c.tag(at_open(plan->fault) ? "open" : "read");

    bool selects = p.num_instances_to_skip != 0 || p.num_shards > 1 || p.shuffle_instances || stops;
    // A file that is skipped as a whole may stay closed.
    stops |= selects && n.format == Format::image_file;
    auto want = selects ? fault_free(n, p) : batches_of(n.total, p.batch_size);
    auto reader = n.make(p);
    for (std::size_t ep = 0; ep < from; ep++) {
        check_all(n, read_epoch(*reader), want, "before the fault");
        reader->reset();
    }
    plan->armed = true;
    std::string what;
    std::string kind;
    if (schema_first) {
        kind = kind_of_error([&] { reader->read_schema(); }, &what);
    }
    Epoch e;
    if (kind.empty()) {
        e = read_epoch(*reader);
        kind = e.error_kind;
        what = e.error;
        check_prefix(n, e, want);
    }
    if (stops && kind.empty()) {
        check_all(n, e, want, "without reaching the fault");
        return;
    }
    ENSURE(plan->fired != 0, "the data store was not read to its end");
    ENSURE(!kind.empty(), "the data store failed, but reading just ended after ", e.examples.size(),
           " of ", want.size(), " examples");
    // What is reported: the library's own error, which names the data store, for all
    // that the library knows; or the error of the data store itself.
    bool known = plan->fault == Fault::open_missing || plan->fault == Fault::open_denied ||
                 plan->fault == Fault::read_stream || plan->fault == Fault::read_system ||
                 plan->fault == Fault::read_unsupported;
    if (known) {
        ENSURE(kind == "data_reader" || kind == "schema" , "the error is not a data reader error: ", kind, " ", what);
        ENSURE(what.find(stores[k]->id()) != std::string::npos,
               "the error does not name the data store: ", what);
    }
    if (plan->fault == Fault::read_unknown) {
        ENSURE(kind == "unknown", "another error than that of the data store: ", kind, " ", what);
    }
    else if (plan->fault == Fault::read_memory) {
        ENSURE(kind == "bad_alloc", "another error than that of the data store: ", kind, " ", what);
    }
    else if (plan->fault != Fault::open_missing && plan->fault != Fault::open_denied) {
        ENSURE(what.find("injected") != std::string::npos, "the cause is not reported: ", what);
    }

    // Nothing is lost if it is read on; after a reset all is as if nothing had happened.
    if (c.flag()) {
        if (c.flag()) {
            plan->armed = false;
        }
        check_rest(n, *reader, e, want);
    }
    plan->armed = false;
    reader->reset();
    ENSURE(reader->num_bytes_read() == 0, "bytes after the reset");
    check_all(n, read_epoch(*reader), want, "after the fault");
}

// Files, with system calls that fail.
PBT_TEST(C32, failing_files)
{
    Numbered n = any_numbered(c, c.chance(1, 8) ? 150 : 25);
    Data_reader_params p;
    any_handling(c, p);
    n.fill(c, p, false);
    if (p.dataset.empty()) {
        c.discard();
    }
    std::string dir = scratch_dir("files");
    std::vector<Intrusive_ptr<Data_store>> files;
    std::size_t bytes = 0;
    for (std::size_t i = 0; i < p.dataset.size(); i++) {
        std::string data = contents(*p.dataset[i]);
        bytes += data.size();
        bool gzip = c.chance(1, 4);
        std::string path = dir + "/f" + std::to_string(i) + (gzip ? ".gz" : "");
        write_file(path, gzip ? gzip_members(c, data) : data);
        files.push_back(make_intrusive<File>(path, c.flag()));
    }
    p.dataset = files;
    Rule r;
    r.dir = dir;
    r.op = static_cast<Op>(1 + c.draw(6));
    r.skip = c.size(6);
    r.error = c.pick<int>({EIO, ENOMEM, EACCES, ENOENT, EMFILE});
    r.limit = 1 + c.draw(20);
    if (r.op == Op::short_read) {
        r.skip = 0;
    }
    static const char *names[] = {"none", "open", "fstat", "mmap", "read", "lseek", "short reads",
                                  "size of zero"};
    c.desc(n.show(), " batch=", p.batch_size, " bad_handling=", static_cast<int>(p.bad_example_handling),
           " ", names[static_cast<int>(r.op)], " after ", r.skip, " calls, error ", r.error, " prefetch=",
           p.num_prefetched_examples, " reads=", p.num_parallel_reads);

    auto want = batches_of(n.total, p.batch_size);
    auto reader = n.make(p);
    Rule_guard guard;
    set_rule(r);
    Epoch e = read_epoch(*reader);
    std::size_t hits = fired();
    Rule none;
    none.dir = dir;
    set_rule(none);
    c.nontrivial(hits != 0 && n.total != 0);
    c.tag(names[static_cast<int>(r.op)]);
    check_prefix(n, e, want);
    if (r.op == Op::zero_size) {
        // As special files have it.
        if (!e.failed) {
            check_all(n, e, want, "with a size of zero");
        }
    }
    else if (r.op == Op::short_read || hits == 0) {
        check_all(n, e, want, names[static_cast<int>(r.op)]);
    }
    else {
        ENSURE(e.failed, "a system call failed, but reading just ended after ", e.examples.size(), " of ",
               want.size(), " examples");
    }
    if (e.failed) {
        check_rest(n, *reader, e, want);
    }
    reader->reset();
    check_all(n, read_epoch(*reader), want, "after the fault");
}

// Files that are not there, or not files.
PBT_TEST_W(C32, missing_files, 0.4)
{
    Numbered n = any_numbered(c, 12);
    Data_reader_params p;
    any_handling(c, p);
    n.fill(c, p, false);
    if (p.dataset.empty()) {
        c.discard();
    }
    std::string dir = scratch_dir("files");
    std::vector<std::string> data;
    std::vector<Intrusive_ptr<Data_store>> files;
    for (std::size_t i = 0; i < p.dataset.size(); i++) {
        data.push_back(contents(*p.dataset[i]));
        std::string path = dir + "/f" + std::to_string(i);
        write_file(path, data[i]);
        files.push_back(make_intrusive<File>(path, c.flag()));
    }
    p.dataset = files;
    std::size_t k = c.draw(files.size() - 1);
    const std::string path = dir + "/f" + std::to_string(k);
    std::size_t how = c.draw(3);
    bool late = c.flag();
    c.desc(n.show(), " batch=", p.batch_size, " file ", k, " how=", how, " late=", late);
    c.nontrivial(files.size() > 1 || late);
    auto want = batches_of(n.total, p.batch_size);
    auto reader = n.make(p);
    if (late) {
        check_all(n, read_epoch(*reader), want, "before the fault");
    }
    ::unlink(path.c_str());
    switch (how) {
    case 0:  // nothing
        break;
    case 1:
        ::mkdir(path.c_str(), 0777);
        break;
    case 2:
        ENSURE(::symlink("nowhere", path.c_str()) == 0, "symlink");
        break;
    default:
        ENSURE(::symlink(path.c_str(), path.c_str()) == 0, "symlink");  // to itself
        break;
    }
    if (late) {
        reader->reset();
    }
    Epoch e = read_epoch(*reader);
    check_prefix(n, e, want);
    ENSURE(e.failed, "a file cannot be read, but reading just ended after ", e.examples.size(), " of ",
           want.size(), " examples");
    if (how == 0 || how == 2) {
        ENSURE(e.error_kind == "data_reader" && e.error.find("'" + path + "'") != std::string::npos,
               "the error does not name the file: ", e.error_kind, " ", e.error);
    }
    if (how == 1) {
        ::rmdir(path.c_str());
    }
    else {
        ::unlink(path.c_str());
    }
    write_file(path, data[k]);
    reader->reset();
    check_all(n, read_epoch(*reader), want, "after the file came back");
}

namespace {

// How many file descriptors of this process are of the file.
std::size_t descriptors_of(const std::string &path)
{
    std::size_t n = 0;
    struct ::stat file = {};
    ENSURE(::stat(path.c_str(), &file) == 0, path);
    DIR *d = ::opendir("/proc/self/fd");
    ENSURE(d != nullptr, "/proc/self/fd");
    while (const dirent *e = ::readdir(d)) {
        struct ::stat of = {};
        if (::stat(("/proc/self/fd/" + std::string(e->d_name)).c_str(), &of) == 0) {
            n += of.st_dev == file.st_dev && of.st_ino == file.st_ino ? 1 : 0;
        }
    }
    ::closedir(d);
    return n;
}

}  // namespace

// A pipe gives its data or an error.
PBT_TEST_W(C32, pipes, 0.1)
{
    Numbered n = any_numbered(c, 20, false);
    Data_reader_params p;
    any_handling(c, p);
    n.store_sizes.resize(1);
    n.fill(c, p, false);
    std::string data = contents(*p.dataset.at(0));
    std::string path = scratch_path("pipe");
    ENSURE(::mkfifo(path.c_str(), 0600) == 0, "mkfifo");
    bool mapped = c.flag();
    p.dataset = {make_intrusive<File>(path, mapped)};
    c.desc(n.show(), " mapped=", mapped);
    c.nontrivial(n.total != 0);
    // Opened for both, so that neither side waits for the other.
    int fd = ::open(path.c_str(), O_RDWR | O_NONBLOCK);
    ENSURE(fd != -1, "open");
    ssize_t w = ::write(fd, data.data(), data.size());
    ENSURE(w == static_cast<ssize_t>(data.size()), "write");
    // The write end is closed once the reader has opened the pipe. Opening it any later would
    // wait for another writer forever.
    std::atomic<bool> done{};
    std::thread closer{[&] {
        while (!done && descriptors_of(path) < 2) {
            std::this_thread::sleep_for(std::chrono::milliseconds{1});
        }
        ::close(fd);
    }};
    Epoch e;
    {
        auto reader = n.make(p);
        e = read_epoch(*reader);
        done = true;
        closer.join();
    }
    auto want = batches_of(n.total, p.batch_size);
    if (e.failed) {
        check_prefix(n, e, want);
    }
    else {
        check_all(n, e, want, "from a pipe");
    }
}
