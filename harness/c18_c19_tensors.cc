// C18: tensors only exist with data that fits their shape and strides.
// C19: DLPack export shares the data and keeps it alive exactly as long.
#include <cmath>
#include <cstring>

#include <dlpack/dlpack.h>

#include <mlio/integ/dlpack.h>
#include <mlio/not_supported_error.h>
#include <mlio/tensor_visitor.h>

#include "support.h"

using namespace mlio;
using namespace pbt;

namespace {

const std::vector<Data_type> &all_types()
{
    static const std::vector<Data_type> v{
        Data_type::size,   Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8,
        Data_type::int16,  Data_type::int32,   Data_type::int64,   Data_type::uint8,   Data_type::uint16,
        Data_type::uint32, Data_type::uint64,  Data_type::string};
    return v;
}

std::size_t item_size(Data_type dt)
{
    switch (dt) {
    case Data_type::int8:
    case Data_type::uint8:
        return 1;
    case Data_type::float16:
    case Data_type::int16:
    case Data_type::uint16:
        return 2;
    case Data_type::float32:
    case Data_type::int32:
    case Data_type::uint32:
        return 4;
    case Data_type::string:
        return sizeof(std::string);
    default:
        return 8;
    }
}

// Fills an array with a known pattern.
void fill(Device_array &a, std::uint64_t seed)
{
    std::mt19937_64 g{seed};
    if (a.data_type() == Data_type::string) {
        for (auto &s : as_span<std::string>(a)) {
            s = std::string(g() % 30, static_cast<char>('a' + g() % 26));
        }
        return;
    }
    auto *p = static_cast<unsigned char *>(a.data());
    std::size_t n = a.size() * item_size(a.data_type());
    for (std::size_t i = 0; i < n; i++) {
        p[i] = static_cast<unsigned char>(g());
    }
}

std::vector<std::string> raw_values(Data_type dt, const void *data, std::size_t size)
{
    std::vector<std::string> v;
    for (std::size_t i = 0; i < size; i++) {
        if (dt == Data_type::string) {
            v.push_back(static_cast<const std::string *>(data)[i]);
        }
        else {
            v.emplace_back(static_cast<const char *>(data) + i * item_size(dt), item_size(dt));
        }
    }
    return v;
}

std::vector<std::string> raw_values(const Device_array &a)
{
    return raw_values(a.data_type(), a.data(), a.size());
}

Size_vector any_shape(Case &c)
{
    Size_vector s;
    std::size_t rank = c.size(5);
    for (std::size_t i = 0; i < rank; i++) {
        switch (c.weighted({10, 2, 1, 1})) {
        case 0:
            s.push_back(1 + c.size(5));
            break;
        case 1:
            s.push_back(c.draw(1));
            break;
        case 2:
            s.push_back(c.pick<std::size_t>({std::size_t{1} << 32, (std::size_t{1} << 32) + 1,
                                             std::size_t{1} << 63, SIZE_MAX, std::size_t{1} << 62,
                                             std::size_t{1} << 16, (std::size_t{1} << 63) + 1}));
            break;
        default:
            s.push_back(c.bits64());
            break;
        }
    }
    return s;
}

// The row-major strides, or nothing if they cannot be represented.
std::optional<Ssize_vector> row_major(const Size_vector &shape)
{
    Ssize_vector s(shape.size(), 1);
    for (std::size_t i = shape.size(); i-- > 1;) {
        __int128 v = static_cast<__int128>(s[i]) * static_cast<__int128>(shape[i]);
        if (v > INT64_MAX) {
            return std::nullopt;
        }
        s[i - 1] = static_cast<std::ptrdiff_t>(v);
    }
    return s;
}

// How many elements the data must at least have; nothing if that is not
// possible, because elements lie before it or too far away.
std::optional<std::size_t> required(const Size_vector &shape, const Ssize_vector &strides)
{
    for (std::size_t d : shape) {
        if (d == 0) {
            return 0;
        }
    }
    using U = unsigned __int128;
    U last = 0;
    for (std::size_t i = 0; i < shape.size(); i++) {
        if (shape[i] > 1 && strides[i] < 0) {
            return std::nullopt;
        }
        if (shape[i] > 1) {
            last += static_cast<U>(shape[i] - 1) * static_cast<U>(strides[i]);
            if (last > UINT64_MAX - 1) {
                return std::nullopt;
            }
        }
    }
    return static_cast<std::size_t>(last) + 1;
}

template<typename T>
std::string show_vector(const std::vector<T> &v)
{
    return join(v);
}

// Whether a shape is small enough to walk over all elements.
bool walkable(const Size_vector &shape)
{
    unsigned __int128 n = 1;
    for (std::size_t d : shape) {
        n *= d;
        if (n > 4000) {
            return false;
        }
    }
    return true;
}

struct Kind_visitor : public Tensor_visitor {
    using Tensor_visitor::visit;

    void visit(const Tensor &) override
    {
        kind = "Tensor";
    }
    void visit(const Dense_tensor &) override
    {
        kind = "Dense";
    }
    void visit(const Coo_tensor &) override
    {
        kind = "Coo";
    }
    void visit(const Csr_tensor &) override
    {
        kind = "Csr";
    }
    // Not const: marked, and nothing falls back to the const ones.
    void visit(Dense_tensor &) override
    {
        kind = "mutable Dense";
    }
    void visit(Coo_tensor &) override
    {
        kind = "mutable Coo";
    }
    void visit(Csr_tensor &) override
    {
        kind = "mutable Csr";
    }
    std::string kind;
};

// Knows tensors only as such: every kind falls back to its base.
struct Base_visitor : public Tensor_visitor {
    using Tensor_visitor::visit;

    void visit(Tensor &) override
    {
        seen += "mutable ";
    }
    void visit(const Tensor &) override
    {
        seen += "const ";
    }
    std::string seen;
};

std::string kind_of(Tensor &t)
{
    Base_visitor b;
    t.accept(b);
    static_cast<const Tensor &>(t).accept(b);
    ENSURE(b.seen == "mutable const ", "a visitor of tensors of any kind saw ", b.seen);

    // And a visitor of nothing supports nothing.
    Tensor_visitor nothing;
    ENSURE(kind_of_error([&] { t.accept(nothing); }) == "not_supported",
           "a visitor without operations accepted a tensor");
    ENSURE(kind_of_error([&] { static_cast<const Tensor &>(t).accept(nothing); }) ==
               "not_supported",
           "a visitor without operations accepted a constant tensor");

    Kind_visitor v;
    t.accept(v);
    std::string m = v.kind;
    static_cast<const Tensor &>(t).accept(v);
    ENSURE(m == "mutable " + v.kind, "visited as ", m, " and as ", v.kind);
    return v.kind;
}

}  // namespace

PBT_TEST(C18, dense)
{
    Size_vector shape = any_shape(c);
    Data_type dt = c.pick(all_types());
    Ssize_vector strides;
    bool given = c.flag() && !shape.empty();
    auto defaults = row_major(shape);
    if (given) {
        std::size_t n = shape.size();
        if (c.chance(1, 15)) {
            n = c.flag() ? n + 1 : n - 1;
        }
        Ssize_vector base = defaults ? *defaults : Ssize_vector(shape.size(), 1);
        if (c.flag()) {
            // A permuted or padded layout.
            std::shuffle(base.begin(), base.end(), c.rng());
        }
        for (std::size_t i = 0; i < n; i++) {
            std::ptrdiff_t v = i < base.size() ? base[i] : 1;
            switch (c.weighted({8, 2, 1, 1, 1})) {
            case 0:
                break;
            case 1:
                v = static_cast<std::ptrdiff_t>(c.draw(10));
                break;
            case 2:
                v = -static_cast<std::ptrdiff_t>(c.draw(10));
                break;
            case 3:
                v = c.pick<std::ptrdiff_t>({INT64_MAX, INT64_MIN, INT64_MIN + 1, std::ptrdiff_t{1} << 32,
                                            std::ptrdiff_t{1} << 62, -(std::ptrdiff_t{1} << 32),
                                            (std::ptrdiff_t{1} << 32) + 1});
                break;
            default:
                v = static_cast<std::ptrdiff_t>(c.bits64());
                break;
            }
            strides.push_back(v);
        }
        given = !strides.empty();
    }
    bool valid = given ? strides.size() == shape.size() : defaults.has_value();
    const Ssize_vector &eff = given ? strides : (defaults ? *defaults : strides);
    std::optional<std::size_t> need;
    if (valid) {
        need = required(shape, eff);
        valid = need.has_value();
    }
    std::size_t size{};
    if (need && *need < 3000) {
        size = *need + c.pick<std::size_t>({0, 0, 0, 1, 5});
        if (c.chance(1, 3)) {
            size -= std::min<std::size_t>(size, 1 + (c.flag() ? 0 : c.draw(5)));
        }
    }
    else {
        size = c.size(50);
    }
    valid = valid && size >= *need;
    auto arr = make_cpu_array(dt, size);
    fill(*arr, c.draw(1000));
    const void *address = arr->data();
    auto values = raw_values(*arr);
    c.desc("shape ", show_vector(shape), " strides ", given ? show_vector(strides) : "default", " of ",
           type_name(dt), ", data of ", size, valid ? " (valid)" : " (invalid)");
    c.tag(valid ? "valid" : "invalid");
    Intrusive_ptr<Dense_tensor> t;
    std::string kind =
        kind_of_error([&] { t = make_intrusive<Dense_tensor>(shape, std::move(arr), strides); });
    if (!valid) {
        c.nontrivial(!shape.empty());
        ENSURE(kind == "invalid_argument", "the tensor is ",
               kind.empty() ? "accepted" : "rejected with '" + kind + "'");
        return;
    }
    c.nontrivial(shape.size() > 1 && *need > 1);
    ENSURE(kind.empty(), "the tensor is rejected with '", kind, "'");
    const Dense_tensor &k = *t;
    ENSURE(t->shape() == shape, "shape ", show_vector(t->shape()));
    ENSURE(t->strides() == eff, "strides ", show_vector(t->strides()), " instead of ", show_vector(eff));
    ENSURE(t->data_type() == dt && t->data().data_type() == dt && k.data().data_type() == dt, "type");
    ENSURE(t->data().size() == size && k.data().size() == size, "size");
    ENSURE(t->data().empty() == (size == 0), "empty");
    ENSURE(t->data().data() == address && k.data().data() == address, "the data is not that given");
    ENSURE(raw_values(dt, t->data().data(), size) == values, "the data has changed");
    ENSURE(kind_of(*t) == "Dense", "visited as ", kind_of(*t));
    std::string r = t->repr();
    ENSURE(r.find("Dense_tensor") != std::string::npos, "repr ", r);
    // Every element addressed by a valid index lies inside the data. The
    // addresses are read, for the address sanitizer to see.
    if (walkable(shape) && *need > 0) {
        std::vector<std::size_t> idx(shape.size(), 0);
        std::size_t sum = 0;
        for (;;) {
            std::ptrdiff_t off = 0;
            for (std::size_t i = 0; i < idx.size(); i++) {
                off += static_cast<std::ptrdiff_t>(idx[i]) * (shape[i] > 1 ? t->strides()[i] : 0);
            }
            ENSURE(off >= 0 && static_cast<std::size_t>(off) < size, "element at offset ", off);
            sum += static_cast<std::size_t>(
                static_cast<const unsigned char *>(t->data().data())[static_cast<std::size_t>(off) * item_size(dt)]);
            std::size_t d = shape.size();
            while (d-- > 0) {
                if (++idx[d] < shape[d]) {
                    break;
                }
                idx[d] = 0;
                if (d == 0) {
                    d = SIZE_MAX;
                    break;
                }
            }
            if (d == SIZE_MAX || shape.empty()) {
                break;
            }
        }
        (void)sum;
    }
}

PBT_TEST_W(C18, coo, 0.7)
{
    Size_vector shape = any_shape(c);
    Data_type dt = c.pick(all_types());
    std::size_t size = c.size(20);
    bool valid = row_major(shape).has_value();
    std::size_t n = shape.size();
    if (c.chance(1, 6)) {
        n = c.flag() || n == 0 ? n + 1 : n - 1;
        valid = false;
    }
    auto data = make_cpu_array(dt, size);
    fill(*data, c.draw(1000));
    auto values = raw_values(*data);
    const void *address = data->data();
    std::vector<std::unique_ptr<Device_array>> coords;
    std::vector<std::vector<std::string>> want;
    std::size_t odd = c.chance(1, 5) && n > 0 ? c.draw(n - 1) : SIZE_MAX;
    std::string sizes;
    for (std::size_t i = 0; i < n; i++) {
        std::size_t m = size;
        if (i == odd) {
            m = c.flag() || size == 0 ? size + 1 + c.draw(3) : size - 1 - c.draw(size - 1);
            valid = false;
        }
        auto a = make_cpu_array(Data_type::size, m);
        for (auto &x : as_span<std::size_t>(*a)) {
            x = i < shape.size() && shape[i] > 0 ? c.draw(shape[i] - 1) : 0;
        }
        want.push_back(raw_values(*a));
        sizes += " " + std::to_string(m);
        coords.push_back(std::move(a));
    }
    c.desc("shape ", show_vector(shape), " of ", type_name(dt), ", ", size, " values, coordinates of", sizes,
           valid ? " (valid)" : " (invalid)");
    c.tag(valid ? "valid" : "invalid");
    c.nontrivial(n > 0 && size > 0);
    Intrusive_ptr<Coo_tensor> t;
    std::string kind = kind_of_error(
        [&] { t = make_intrusive<Coo_tensor>(shape, std::move(data), std::move(coords)); });
    if (!valid) {
        ENSURE(kind == "invalid_argument", "the tensor is ",
               kind.empty() ? "accepted" : "rejected with '" + kind + "'");
        return;
    }
    ENSURE(kind.empty(), "the tensor is rejected with '", kind, "'");
    const Coo_tensor &k = *t;
    ENSURE(t->shape() == shape && t->strides() == *row_major(shape), "shape or strides");
    ENSURE(t->data_type() == dt && t->data().data() == address && k.data().size() == size, "data");
    ENSURE(raw_values(dt, t->data().data(), size) == values, "the data has changed");
    for (std::size_t i = 0; i < n; i++) {
        ENSURE(t->indices(i).size() == size && k.indices(i).size() == size, "indices");
        ENSURE(t->indices(i).data() == k.indices(i).data(), "indices");
        ENSURE(raw_values(Data_type::size, t->indices(i).data(), size) == want[i],
               "the coordinates of dimension ", i, " have changed");
    }
    kind = kind_of_error([&] { t->indices(n); });
    ENSURE(kind == "out_of_range", "the indices of a missing dimension: '", kind, "'");
    ENSURE(kind_of(*t) == "Coo", "visited as ", kind_of(*t));
    ENSURE(t->repr().find("Coo_tensor") != std::string::npos, "repr ", t->repr());
}

PBT_TEST_W(C18, csr, 0.7)
{
    Size_vector shape;
    std::size_t rank = c.weighted({1, 2, 6, 1, 1});
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(c.chance(1, 12) ? c.pick<std::size_t>({SIZE_MAX, SIZE_MAX - 1, std::size_t{1} << 63})
                                        : c.size(6));
    }
    Data_type dt = c.pick(all_types());
    bool valid = rank <= 2 && row_major(shape).has_value();
    std::size_t rows = rank == 0 ? 0 : rank == 1 ? 1 : shape[0];
    std::size_t ptrs = rows < 100 ? rows + 1 : c.size(3);
    if (rows < 100 && c.chance(1, 5)) {
        ptrs = c.flag() ? ptrs + 1 : ptrs - 1;
    }
    valid = valid && ptrs > 0 && ptrs - 1 == rows;
    std::size_t size = c.size(12);
    std::size_t num_indices = size;
    if (c.chance(1, 6)) {
        num_indices = c.flag() || size == 0 ? size + 1 : size - 1;
        valid = false;
    }
    auto data = make_cpu_array(dt, size);
    fill(*data, c.draw(1000));
    auto values = raw_values(*data);
    auto indices = make_cpu_array(Data_type::size, num_indices);
    fill(*indices, 1);
    auto want_indices = raw_values(*indices);
    auto indptr = make_cpu_array(Data_type::size, ptrs);
    fill(*indptr, 2);
    auto want_indptr = raw_values(*indptr);
    c.desc("shape ", show_vector(shape), " of ", type_name(dt), ", ", size, " values, ", num_indices,
           " indices, ", ptrs, " index pointers", valid ? " (valid)" : " (invalid)");
    c.tag(valid ? "valid" : "invalid");
    c.nontrivial(rank > 0 && size > 0);
    Intrusive_ptr<Csr_tensor> t;
    std::string kind = kind_of_error([&] {
        t = make_intrusive<Csr_tensor>(shape, std::move(data), std::move(indices), std::move(indptr));
    });
    if (!valid) {
        ENSURE(kind == "invalid_argument", "the tensor is ",
               kind.empty() ? "accepted" : "rejected with '" + kind + "'");
        return;
    }
    ENSURE(kind.empty(), "the tensor is rejected with '", kind, "'");
    ENSURE(t->shape() == shape && t->strides() == *row_major(shape) && t->data_type() == dt, "shape");
    ENSURE(raw_values(dt, t->data().data(), t->data().size()) == values, "the data has changed");
    ENSURE(raw_values(Data_type::size, t->indices().data(), t->indices().size()) == want_indices, "indices");
    ENSURE(raw_values(Data_type::size, t->indptr().data(), t->indptr().size()) == want_indptr, "indptr");
    ENSURE(kind_of(*t) == "Csr", "visited as ", kind_of(*t));
    ENSURE(t->repr().find("Csr_tensor") != std::string::npos, "repr ", t->repr());
}

namespace {

template<Data_type dt>
struct wrap_op {
    std::unique_ptr<Device_array> operator()(std::size_t n)
    {
        return wrap_cpu_array<dt>(std::vector<data_type_t<dt>>(n));
    }
};

}  // namespace

PBT_TEST_W(C18, arrays_and_clones, 0.5)
{
    Data_type dt = c.pick(all_types());
    std::size_t n = c.size(60);
    bool wrapped = c.flag();
    auto a = wrapped ? dispatch<wrap_op>(dt, std::size_t{n}) : make_cpu_array(dt, n);
    c.desc(type_name(dt), " array of ", n, wrapped ? " wrapped" : "");
    c.nontrivial(n > 1);
    ENSURE(a->size() == n && a->empty() == (n == 0) && a->data_type() == dt, "size or type");
    ENSURE(a->device().kind() == Device_kind::cpu(), "device");
    auto zero = make_cpu_array(dt, n);
    ENSURE(raw_values(*a) == raw_values(*zero), "a new array is not zero");
    fill(*a, c.draw(1000));
    auto values = raw_values(*a);
    auto b = a->clone();
    ENSURE(b->size() == n && b->data_type() == dt && b->device() == a->device(), "clone");
    ENSURE(raw_values(*b) == values, "the clone has other values");
    ENSURE(n == 0 || a->data() != b->data(), "the clone shares its data");
    fill(*b, 2000 + c.draw(1000));
    ENSURE(raw_values(*a) == values, "writing to the clone changes the array");
    auto other = raw_values(*b);
    auto d = b->clone();
    a = nullptr;
    b = nullptr;
    ENSURE(raw_values(*d) == other, "the clone depends on what it was cloned from");
}

// ---- C19

namespace {

// An array that says when it is gone, on any device.
class Counted_array final : public Device_array {
public:
    Counted_array(Data_type dt, std::size_t n, Device dev, int *destroyed)
        : inner_{make_cpu_array(dt, n)}, dev_{dev}, destroyed_{destroyed}
    {}
    ~Counted_array() final
    {
        ++*destroyed_;
    }
    std::unique_ptr<Device_array> clone() const final
    {
        return inner_->clone();
    }
    void *data() noexcept final
    {
        return inner_->data();
    }
    const void *data() const noexcept final
    {
        return static_cast<const Device_array &>(*inner_).data();
    }
    std::size_t size() const noexcept final
    {
        return inner_->size();
    }
    [[nodiscard]] bool empty() const noexcept final
    {
        return inner_->empty();
    }
    Data_type data_type() const noexcept final
    {
        return inner_->data_type();
    }
    Device device() const noexcept final
    {
        return dev_;
    }

private:
    std::unique_ptr<Device_array> inner_;
    Device dev_;
    int *destroyed_;
};

struct Dl_type {
    std::uint8_t code;
    std::uint8_t bits;
};

Dl_type dl_type(Data_type dt)
{
    switch (dt) {
    case Data_type::size:
    case Data_type::uint64:
        return {kDLUInt, 64};
    case Data_type::float16:
        return {kDLFloat, 16};
    case Data_type::float32:
        return {kDLFloat, 32};
    case Data_type::float64:
        return {kDLFloat, 64};
    case Data_type::int8:
        return {kDLInt, 8};
    case Data_type::int16:
        return {kDLInt, 16};
    case Data_type::int32:
        return {kDLInt, 32};
    case Data_type::int64:
        return {kDLInt, 64};
    case Data_type::uint8:
        return {kDLUInt, 8};
    case Data_type::uint16:
        return {kDLUInt, 16};
    case Data_type::uint32:
        return {kDLUInt, 32};
    default:
        return {255, 0};
    }
}

}  // namespace

PBT_TEST(C19, export_and_release)
{
    Data_type dt;
    do {
        dt = c.pick(all_types());
    } while (dt == Data_type::string);
    Size_vector shape;
    std::size_t rank = c.size(4);
    std::size_t n = 1;
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(c.chance(1, 10) ? 0 : 1 + c.size(4));
        n *= shape.back();
    }
    Ssize_vector strides = *row_major(shape);
    bool given = c.flag();
    if (given && rank > 1) {
        for (auto &s : strides) {
            s *= 2;
        }
        n *= 2;
    }
    int destroyed = 0;
    auto arr = std::make_unique<Counted_array>(dt, n, Device{Device_kind::cpu()}, &destroyed);
    fill(*arr, c.draw(1000));
    auto values = raw_values(*arr);
    const void *address = arr->data();
    c.desc(type_name(dt), " ", join(shape), " strides ", given ? join(strides) : "default", ":");
    auto tensor = make_intrusive<Dense_tensor>(shape, std::move(arr), given ? strides : Ssize_vector{});
    Ssize_vector want_strides = tensor->strides();
    Intrusive_ptr<Example> example;
    Intrusive_ptr<Tensor> other{};
    if (rank > 0 && c.flag()) {
        std::vector<Attribute> attrs{};
        attrs.emplace_back("x", dt, shape, want_strides);
        std::vector<Intrusive_ptr<Tensor>> f{};
        f.push_back(tensor);
        example = make_intrusive<Example>(make_intrusive<Schema>(std::move(attrs)), std::move(f));
    }
    std::vector<DLManagedTensor *> exported;
    std::size_t held = 0;
    auto check = [&](const DLManagedTensor &m) {
        const DLTensor &t = m.dl_tensor;
        ENSURE(static_cast<const char *>(t.data) + t.byte_offset == address, "the data was copied");
        ENSURE(t.ndim == static_cast<int>(rank), "ndim ", t.ndim);
        for (std::size_t i = 0; i < rank; i++) {
            ENSURE(t.shape[i] == static_cast<std::int64_t>(shape[i]), "dimension ", i, " is ", t.shape[i]);
            ENSURE(t.strides != nullptr && t.strides[i] == want_strides[i], "stride ", i);
        }
        Dl_type d = dl_type(dt);
        ENSURE(t.dtype.code == d.code && t.dtype.bits == d.bits && t.dtype.lanes == 1, "type ",
               int{t.dtype.code}, " with ", int{t.dtype.bits}, " bits, ", t.dtype.lanes, " lanes");
        ENSURE(t.ctx.device_type == kDLCPU && t.ctx.device_id == 0, "device");
        ENSURE(raw_values(dt, t.data, n) == values, "other data");
    };
    std::size_t ops = 2 + c.size(14);
    for (std::size_t i = 0; i < ops; i++) {
        switch (c.weighted({5, 3, 1, 1, 2})) {
        case 0: {
            Tensor *t = tensor ? static_cast<Tensor *>(tensor.get()) : nullptr;
            if (t == nullptr && example) {
                t = const_cast<Tensor *>(example->features()[0].get());
            }
            if (t != nullptr) {
                c.desc(" export");
                exported.push_back(as_dlpack(*t, DLPACK_VERSION));
                held++;
                check(*exported.back());
            }
            break;
        }
        case 1:
            if (!exported.empty()) {
                std::size_t k = c.draw(exported.size() - 1);
                c.desc(" delete#", k);
                exported[k]->deleter(exported[k]);
                exported.erase(exported.begin() + static_cast<std::ptrdiff_t>(k));
            }
            break;
        case 2:
            c.desc(" drop-tensor");
            tensor = nullptr;
            break;
        case 3:
            c.desc(" drop-example");
            example = nullptr;
            break;
        default:
            for (auto *m : exported) {
                check(*m);
            }
            // What is written through one is seen through the others.
            if (!exported.empty() && n > 0) {
                auto *p = static_cast<unsigned char *>(exported[0]->dl_tensor.data);
                p[0] = static_cast<unsigned char>(p[0] + 1);
                values = raw_values(dt, p, n);
                for (auto *m : exported) {
                    check(*m);
                }
            }
            break;
        }
        bool alive = tensor || example || !exported.empty();
        ENSURE(destroyed == (alive ? 0 : 1), "released ", destroyed, " times while ",
               alive ? "in use" : "not in use");
    }
    c.nontrivial(held > 1 && rank > 0);
    tensor = nullptr;
    example = nullptr;
    while (!exported.empty()) {
        ENSURE(destroyed == 0, "released while exported");
        check(*exported.back());
        exported.back()->deleter(exported.back());
        exported.pop_back();
    }
    ENSURE(destroyed == 1, "released ", destroyed, " times");
}

PBT_TEST_W(C19, refused, 0.4)
{
    int destroyed = 0;
    Data_type dt = c.pick(all_types());
    std::size_t n = 1 + c.size(5);
    const char *what{};
    {
        Intrusive_ptr<Tensor> t;
        std::size_t version = DLPACK_VERSION;
        Device dev{Device_kind::cpu()};
        auto array = [&] { return std::make_unique<Counted_array>(dt, n, dev, &destroyed); };
        std::string want = "not_supported";
        switch (c.draw(4)) {
        case 0:
            what = "string";
            dt = Data_type::string;
            t = make_intrusive<Dense_tensor>(Size_vector{n}, array());
            break;
        case 1:
            what = "version";
            do {
                version = c.flag() ? c.draw(40) : c.bits64();
            } while (version == DLPACK_VERSION);
            t = make_intrusive<Dense_tensor>(Size_vector{n}, array());
            break;
        case 2: {
            what = "device";
            dev = Device{Device_kind{c.pick<const char *>({"CUDA", "cpu2", "", "gpu"})}, c.draw(3)};
            t = make_intrusive<Dense_tensor>(Size_vector{n}, array());
            break;
        }
        case 3: {
            what = "coo";
            std::vector<std::unique_ptr<Device_array>> coords;
            coords.push_back(make_cpu_array(Data_type::size, n));
            t = make_intrusive<Coo_tensor>(Size_vector{n}, array(), std::move(coords));
            want = "invalid_argument";
            break;
        }
        default:
            what = "csr";
            t = make_intrusive<Csr_tensor>(Size_vector{1, n}, array(), make_cpu_array(Data_type::size, n),
                                           make_cpu_array(Data_type::size, 2));
            want = "invalid_argument";
            break;
        }
        c.desc(what, " ", type_name(dt), " version ", version);
        c.tag(what);
        c.nontrivial();
        std::string kind = kind_of_error([&] { as_dlpack(*t, version); });
        ENSURE(kind == want, "the export ends with '", kind, "' instead of '", want, "'");
        ENSURE(destroyed == 0, "the tensor is gone");
        // Nothing is held by the failed attempt.
    }
    ENSURE(destroyed == 1, "released ", destroyed, " times");
}
