// C23: memory blocks and slices preserve contents and bounds.
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>

#include <list>
#include <mutex>

#include "csv_model.h"

#include <mlio/memory/external_memory_block.h>
#include <mlio/memory/file_backed_memory_allocator.h>
#include <mlio/memory/file_backed_memory_block.h>
#include <mlio/memory/file_mapped_memory_block.h>
#include <mlio/memory/heap_memory_allocator.h>
#include <mlio/memory/heap_memory_block.h>
#include <mlio/memory/memory_allocator.h>
#include <mlio/memory/memory_block.h>
#include <mlio/memory/memory_slice.h>
#include <mlio/memory/util.h>

using namespace mlio;
using namespace pbt;

namespace {

std::mutex temp_mutex;
std::vector<std::string> temp_files;

void note_temp(const char *path)
{
    std::lock_guard<std::mutex> g{temp_mutex};
    temp_files.emplace_back(path);
}

}  // namespace

// malloc() fails for huge sizes instead of ending the process.
extern "C" __attribute__((no_sanitize("address"))) const char *vharness_asan_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=24:"
           "allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1:"
           "handle_sigfpe=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=2000";
}

// Record which temporary files the library creates.
extern "C" int mkstemp(char *t)
{
    static auto real = reinterpret_cast<int (*)(char *)>(::dlsym(RTLD_NEXT, "mkstemp"));
    int fd = real(t);
    if (fd != -1) {
        note_temp(t);
    }
    return fd;
}

extern "C" int mkostemp(char *t, int flags)
{
    static auto real = reinterpret_cast<int (*)(char *, int)>(::dlsym(RTLD_NEXT, "mkostemp"));
    int fd = real(t, flags);
    if (fd != -1) {
        note_temp(t);
    }
    return fd;
}

namespace {

// The first temporary file that still exists; it is removed.
std::string left_behind()
{
    std::lock_guard<std::mutex> g{temp_mutex};
    std::string left;
    for (auto &f : temp_files) {
        if (::access(f.c_str(), F_OK) == 0) {
            left = f;
            ::unlink(f.c_str());
        }
    }
    temp_files.clear();
    return left;
}

// Whether the address belongs to a mapping of a file.
bool in_file_mapping(const void *p)
{
    int fd = ::open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    if (fd == -1) {
        return false;
    }
    std::string s;
    char buf[65536];
    for (ssize_t n; (n = ::read(fd, buf, sizeof(buf))) > 0;) {
        s.append(buf, static_cast<std::size_t>(n));
    }
    ::close(fd);
    auto a = reinterpret_cast<std::uintptr_t>(p);
    std::istringstream in{s};
    for (std::string line; std::getline(in, line);) {
        unsigned long long lo{};
        unsigned long long hi{};
        unsigned long long inode{};
        if (std::sscanf(line.c_str(), "%llx-%llx %*s %*s %*s %llu", &lo, &hi, &inode) == 3 &&
            lo <= a && a < hi) {
            return inode != 0;
        }
    }
    return false;
}

// A block that cannot be resized.
class Fixed_block final : public Mutable_memory_block {
public:
    explicit Fixed_block(std::size_t n) : v_(n)
    {}
    using Mutable_memory_block::data;
    const_pointer data() const noexcept final
    {
        return v_.data();
    }
    pointer data() noexcept final
    {
        return v_.data();
    }
    size_type size() const noexcept final
    {
        return v_.size();
    }
    bool resizable() const noexcept final
    {
        return false;
    }
    void resize(size_type) final
    {
        throw Not_supported_error{"not resizable"};
    }

private:
    std::vector<std::byte> v_;
};

enum class Kind { heap, heap_allocator, file_backed, file_allocator, fixed, global };

const char *name_of(Kind k)
{
    switch (k) {
    case Kind::heap:
        return "heap block";
    case Kind::heap_allocator:
        return "heap allocator";
    case Kind::file_backed:
        return "file-backed block";
    case Kind::file_allocator:
        return "file-backed allocator";
    case Kind::fixed:
        return "block of a fixed size";
    default:
        return "default allocator";
    }
}

struct Owned {
    Kind kind{};
    Intrusive_ptr<Mutable_memory_block> block;
    std::string model;
    std::size_t threshold{};
    std::size_t largest{};  // The largest size the block has been asked for.
};

struct Sliced {
    Memory_slice slice;
    std::string model;
};

std::string bytes_of(const std::byte *p, std::size_t n)
{
    return n == 0 ? std::string{} : std::string{reinterpret_cast<const char *>(p), n};
}

std::string first_difference(const std::string &a, const std::string &b)
{
    std::ostringstream o;
    if (a.size() != b.size()) {
        o << "it has " << a.size() << " bytes instead of " << b.size();
        return o.str();
    }
    for (std::size_t i = 0; i < a.size(); i++) {
        if (a[i] != b[i]) {
            o << "byte " << i << " of " << a.size() << " differs";
            return o.str();
        }
    }
    return "";
}

std::size_t any_size(Case &c, std::size_t around)
{
    switch (c.weighted({2, 6, 4, 3, 2})) {
    case 0:
        return 0;
    case 1:
        return c.size(300);
    case 2: {
        std::size_t d = c.draw(4);
        return around + d < 2 ? 0 : around + d - 2;
    }
    case 3:
        return 4096 * (1 + c.draw(2)) - 1 + c.draw(2);
    default:
        return c.draw(20000);
    }
}

// Sizes that no memory or file can have.
std::size_t huge_size(Case &c)
{
    static const std::vector<std::size_t> sizes{std::size_t{1} << 63U,
                                                (std::size_t{1} << 63U) + 12345,
                                                ~std::size_t{0},
                                                ~std::size_t{0} - 7,
                                                (std::size_t{1} << 63U) - 1};
    return c.pick(sizes);
}

void check_owned(const Owned &o, const std::ostringstream &log)
{
    ENSURE(o.block->size() == o.model.size(), "the size of a ", name_of(o.kind), " is ",
           o.block->size(), " instead of ", o.model.size(), log.str());
    const Memory_block &cb = *o.block;
    ENSURE(cb.data() == o.block->data(), "data() differs", log.str());
    ENSURE(static_cast<std::size_t>(o.block->end() - o.block->begin()) == o.model.size(),
           "begin() and end() do not match the size", log.str());
    auto d = first_difference(bytes_of(cb.data(), cb.size()), o.model);
    ENSURE(d.empty(), name_of(o.kind), ": ", d, log.str());
}

void check_file_mapping(const Owned &o, const std::ostringstream &log)
{
    if (o.kind == Kind::file_allocator && o.model.size() > o.threshold && !o.model.empty()) {
        ENSURE(in_file_mapping(o.block->data()), "a block of ", o.model.size(),
               " bytes is not served from a file, the threshold is ", o.threshold, log.str());
    }
}

}  // namespace

PBT_TEST(C23, history)
{
    std::size_t threshold = 1 + (c.flag() ? c.draw(40) : c.draw(6000));
    File_backed_memory_allocator files{threshold};
    Heap_memory_allocator heap;
    std::ostringstream log;
    log << "\nthreshold " << threshold << ", calls:";

    std::list<Owned> blocks;
    std::list<Sliced> slices;
    unsigned char seed = 0;
    auto fill = [&](Owned &o, std::size_t at, std::size_t n) {
        seed = static_cast<unsigned char>(seed + 37);
        auto *p = o.block->data();
        for (std::size_t i = 0; i < n; i++) {
            auto v = static_cast<unsigned char>(seed + (i ^ (i >> 8)));
            p[at + i] = static_cast<std::byte>(v);
            o.model[at + i] = static_cast<char>(v);
        }
    };
    // Bytes that were never written have no specified value.
    auto extend = [&](Owned &o, std::size_t size) {
        std::size_t old = o.model.size();
        o.model.resize(size);
        if (size > old && o.block->size() == size) {
            fill(o, old, size - old);
        }
    };

    std::size_t n = c.size(25) + 1;
    std::size_t resized = 0;
    for (std::size_t k = 0; k < n; k++) {
        std::size_t op = blocks.empty() ? 0 : c.weighted({3, 6, 3, 4, 2, 2, 1});
        auto any_block = [&]() -> Owned & {
            auto i = blocks.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(c.draw(blocks.size() - 1)));
            return *i;
        };
        if (op == 0) {
            Owned o;
            o.kind = static_cast<Kind>(c.weighted({2, 2, 3, 6, 1, 1}));
            o.threshold = threshold;
            bool huge = o.kind != Kind::fixed && c.chance(1, 12);
            std::size_t size = huge ? huge_size(c) : any_size(c, threshold);
            log << " allocate(" << name_of(o.kind) << ", " << size << ")";
            auto kind = kind_of_error([&] {
                switch (o.kind) {
                case Kind::heap:
                    o.block = make_intrusive<Heap_memory_block>(size);
                    break;
                case Kind::heap_allocator:
                    o.block = heap.allocate(size);
                    break;
                case Kind::file_backed:
                    o.block = make_intrusive<File_backed_memory_block>(size);
                    break;
                case Kind::file_allocator:
                    o.block = files.allocate(size);
                    break;
                case Kind::fixed:
                    o.block = make_intrusive<Fixed_block>(size);
                    break;
                default:
                    o.block = memory_allocator().allocate(size);
                    break;
                }
            });
            if (huge) {
                log << "!" << kind;
                ENSURE(kind == "bad_alloc" || kind == "system", "allocating ", size,
                       " bytes ends with '", kind, "'", log.str());
            }
            else {
                ENSURE(kind.empty(), "allocating fails with '", kind, "'", log.str());
                blocks.push_back(std::move(o));
                Owned &b = blocks.back();
                ENSURE(b.block->size() == size, "the size is ", b.block->size(), log.str());
                extend(b, size);
                if (c.chance(1, 4)) {
                    check_file_mapping(b, log);
                }
            }
        }
        else if (op == 1) {
            Owned &o = any_block();
            // Slices of a block are not valid anymore once it is resized.
            bool shared = false;
            for (auto &s : slices) {
                shared = shared || (!s.slice.empty() && !o.model.empty() &&
                                    s.slice.begin() >= o.block->data() &&
                                    s.slice.begin() < o.block->data() + o.model.size());
            }
            if (shared || o.kind == Kind::fixed) {
                continue;
            }
            bool huge = c.chance(1, 10);
            std::size_t size = huge ? huge_size(c) : any_size(c, threshold);
            log << " resize(" << name_of(o.kind) << " of " << o.model.size() << ", " << size << ")";
            ENSURE(o.block->resizable(), "the block is not resizable", log.str());
            auto kind = kind_of_error([&] {
                o.block->resize(size);
            });
            if (huge) {
                log << "!" << kind;
                ENSURE(kind == "bad_alloc" || kind == "system", "resizing to ", size,
                       " bytes ends with '", kind, "'", log.str());
            }
            else {
                ENSURE(kind.empty(), "resizing fails with '", kind, "'", log.str());
                resized++;
                ENSURE(o.block->size() == size, "the size is ", o.block->size(), log.str());
                std::size_t kept = std::min(size, o.model.size());
                auto d = first_difference(bytes_of(o.block->data(), kept), o.model.substr(0, kept));
                ENSURE(d.empty(), name_of(o.kind), ": ", d, " after resizing it", log.str());
                extend(o, size);
                if (c.chance(1, 4)) {
                    check_file_mapping(o, log);
                }
            }
        }
        else if (op == 2) {
            Owned &o = any_block();
            std::size_t at = c.draw(o.model.size());
            std::size_t m = c.draw(o.model.size() - at);
            bool shared = false;
            for (auto &s : slices) {
                shared = shared || (!s.slice.empty() && s.slice.begin() < o.block->data() + at + m &&
                                    s.slice.end() > o.block->data() + at);
            }
            if (!shared) {
                log << " write(" << at << ", " << m << ")";
                fill(o, at, m);
            }
        }
        else if (op == 3) {
            Owned &o = any_block();
            log << " slice";
            slices.push_back(Sliced{Memory_slice{o.block}, o.model});
        }
        else if (op == 4 && !blocks.empty()) {
            // The slices keep the block alive.
            auto i = blocks.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(c.draw(blocks.size() - 1)));
            log << " release";
            blocks.erase(i);
        }
        else if (op == 5 && !slices.empty()) {
            log << " drop-slice";
            slices.erase(slices.begin());
        }
        else if (op == 6) {
            Owned &o = any_block();
            bool shared = false;
            for (auto &s : slices) {
                shared = shared || (!s.slice.empty() && !o.model.empty() &&
                                    s.slice.begin() >= o.block->data() &&
                                    s.slice.begin() < o.block->data() + o.model.size());
            }
            if (shared) {
                continue;
            }
            std::size_t size = any_size(c, threshold);
            log << " resize_memory_block(" << name_of(o.kind) << " of " << o.model.size() << ", "
                << size << ")";
            o.block = resize_memory_block(o.block, size);
            resized++;
            ENSURE(o.block && o.block->size() == size, "the new size is wrong", log.str());
            if (o.kind == Kind::fixed) {
                o.kind = Kind::global;
            }
            std::size_t kept = std::min(size, o.model.size());
            auto d = first_difference(bytes_of(o.block->data(), kept), o.model.substr(0, kept));
            ENSURE(d.empty(), name_of(o.kind), ": ", d, " after resizing it", log.str());
            extend(o, size);
        }

        if (!slices.empty() && c.flag()) {
            // Take a part of a slice, perhaps one that does not exist.
            auto i = slices.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(c.draw(slices.size() - 1)));
            std::size_t len = i->model.size();
            auto arg = [&]() -> std::size_t {
                switch (c.weighted({6, 2, 1})) {
                case 0:
                    return c.draw(len);
                case 1:
                    return len + c.draw(3);
                default:
                    return huge_size(c);
                }
            };
            std::size_t form = c.draw(7);
            std::size_t a = arg();
            std::size_t b = arg();
            bool rvalue = c.flag();
            bool valid{};
            std::size_t beg{};
            std::size_t end{};
            const Memory_slice &s = i->slice;
            Memory_slice moved = s;
            Memory_slice got;
            std::function<void()> call;
            switch (form) {
            case 0:
                valid = a <= len;
                beg = a;
                end = len;
                call = [&] { got = rvalue ? Memory_slice{std::move(moved).subslice(a)} : s.subslice(a); };
                log << " subslice(" << a << ")";
                break;
            case 1:
                valid = a <= len && b <= len - a;
                beg = a;
                end = a + b;
                call = [&] {
                    got = rvalue ? Memory_slice{std::move(moved).subslice(a, b)} : s.subslice(a, b);
                };
                log << " subslice(" << a << ", " << b << ")";
                break;
            case 2:
                valid = a <= len;
                beg = 0;
                end = a;
                call = [&] { got = rvalue ? Memory_slice{std::move(moved).first(a)} : s.first(a); };
                log << " first(" << a << ")";
                break;
            case 3:
                valid = a <= len;
                beg = len - a;
                end = len;
                call = [&] { got = rvalue ? Memory_slice{std::move(moved).last(a)} : s.last(a); };
                log << " last(" << a << ")";
                break;
            case 4:
                a = std::min(a, len + 2);
                valid = a <= len;
                beg = 0;
                end = a;
                call = [&] {
                    auto it = s.begin() + a;
                    got = rvalue ? Memory_slice{std::move(moved).first(it)} : s.first(it);
                };
                log << " first(begin+" << a << ")";
                break;
            case 5:
                a = std::min(a, len + 2);
                valid = a <= len;
                beg = a;
                end = len;
                call = [&] {
                    auto it = s.begin() + a;
                    if (c.flag()) {
                        got = rvalue ? Memory_slice{std::move(moved).last(it)} : s.last(it);
                    }
                    else {
                        got = rvalue ? Memory_slice{std::move(moved).subslice(it)} : s.subslice(it);
                    }
                };
                log << " last(begin+" << a << ")";
                break;
            default:
                a = std::min(a, len + 2);
                b = std::min(b, len + 2);
                valid = a <= b && b <= len;
                beg = a;
                end = b;
                call = [&] {
                    auto f = s.begin() + a;
                    auto l = s.begin() + b;
                    got = rvalue ? Memory_slice{std::move(moved).subslice(f, l)} : s.subslice(f, l);
                };
                log << " subslice(begin+" << a << ", begin+" << b << ")";
                break;
            }
            auto kind = kind_of_error(call);
            if (!valid) {
                ENSURE(kind == "invalid_argument", "slicing ", len, " bytes ends with '", kind, "'",
                       log.str());
                if (rvalue) {
                    ENSURE(moved.begin() == s.begin() && moved.end() == s.end(),
                           "a slice that was refused has changed", log.str());
                }
            }
            else {
                ENSURE(kind.empty(), "slicing ", len, " bytes fails with '", kind, "'", log.str());
                ENSURE(got.size() == end - beg && got.empty() == (end == beg) &&
                           got.begin() == s.begin() + beg && got.end() == s.begin() + end &&
                           got.cbegin() == got.begin() && got.cend() == got.end(),
                       "the slice is another part of the block", log.str());
                ENSURE(got.data() == got.begin(), "data() of a slice", log.str());
                slices.push_back(Sliced{got, i->model.substr(beg, end - beg)});
            }
        }
        if (slices.size() > 6) {
            slices.pop_front();
        }

        for (auto &o : blocks) {
            check_owned(o, log);
        }
        for (auto &s : slices) {
            auto d = first_difference(bytes_of(s.slice.data(), s.slice.size()), s.model);
            ENSURE(d.empty(), "a slice has changed: ", d, log.str());
        }
        auto left = left_behind();
        ENSURE(left.empty(), "the file ", left, " is left behind", log.str());
    }
    c.desc(log.str().substr(0, 800));
    c.nontrivial(resized > 0 && n > 3);
}

// A block that is released by every owner gives its memory and file back.
PBT_TEST_W(C23, release, 0.2)
{
    std::size_t size = any_size(c, 4096);
    auto open_files = [] {
        int fd = ::dup(0);
        ::close(fd);
        return fd;
    };
    int before = open_files();
    auto kind = c.draw(2);
    c.desc("kind ", kind, ", ", size, " bytes");
    {
        Intrusive_ptr<Mutable_memory_block> b;
        if (kind == 0) {
            b = make_intrusive<File_backed_memory_block>(size);
        }
        else {
            File_backed_memory_allocator a{kind == 1 ? std::size_t{1} : std::size_t{100000}};
            b = a.allocate(size);
            b->resize(size + c.draw(200000));
        }
        Memory_slice s{b};
        if (!s.empty()) {
            s = s.subslice(s.size() / 2);
        }
        b = nullptr;
        if (!s.empty()) {
            ENSURE(s.begin() != nullptr, "the slice has no data");
            volatile auto v = static_cast<unsigned char>(*s.begin());
            (void)v;
        }
        s = Memory_slice{};
    }
    ENSURE(open_files() == before, "a file descriptor is left open");
    c.nontrivial(size > 0);
}

PBT_TEST_W(C23, mapped_files, 0.3)
{
    std::string data(any_size(c, 4096), '\0');
    for (auto &ch : data) {
        ch = static_cast<char>(c.rng()());
    }
    auto path = scratch_path("mapped");
    write_file(path, data);
    c.desc(data.size(), " bytes");
    auto b = make_intrusive<File_mapped_memory_block>(path);
    ENSURE(b->size() == data.size(), "the size is ", b->size());
    ENSURE(first_difference(bytes_of(b->data(), b->size()), data).empty(), "the contents differ");
    Memory_slice s{b};
    b = nullptr;
    ::unlink(path.c_str());
    ENSURE(first_difference(bytes_of(s.data(), s.size()), data).empty(),
           "the contents differ after the file was removed");

    External_memory_block e{reinterpret_cast<const std::byte *>(data.data()), data.size()};
    ENSURE(e.data() == reinterpret_cast<const std::byte *>(data.data()) && e.size() == data.size(),
           "external block");
    auto missing = kind_of_error([&] { make_intrusive<File_mapped_memory_block>(path); });
    ENSURE(missing == "system", "a missing file: '", missing, "'");
    c.nontrivial(data.size() > 1);
}

// By default, blocks up to a quarter of the physical memory, but at most 512 MiB, are served from
// the heap.
PBT_FIXED(C23, default_threshold)
{
    File_backed_memory_allocator a;
    auto b = a.allocate((std::size_t{512} << 20U) + 1);
    ENSURE(in_file_mapping(b->data()), "a block of more than 512 MiB is not served from a file");
    b->data()[0] = std::byte{1};
    b->resize(1);
    ENSURE(b->data()[0] == std::byte{1}, "the contents differ");
    auto small = a.allocate(1000);
    ENSURE(!in_file_mapping(small->data()), "a small block is served from a file");
    ENSURE(left_behind().empty(), "a file is left behind");
}
