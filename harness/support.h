// What the property tests share: data stores with controlled delivery, reading
// examples into plain values, and a per-case reset of all global state.
#pragma once

#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include <mlio.h>
#include <mlio/detail/verif_hooks.h>

#include "pbt.h"

namespace pbt {

// ---- life cycle of a worker and of a case
void worker_init(const std::string &scratch);
void case_begin();
void case_end();
std::string describe(const std::exception &e);

// A fresh path in this worker's scratch directory, removed after the case.
std::string scratch_path(const std::string &name);
std::string scratch_dir(const std::string &name);
void write_file(const std::string &path, std::string_view data);

// Messages logged during the case.
std::vector<std::string> take_log();

// ---- bytes and blocks
mlio::Intrusive_ptr<mlio::Mutable_memory_block> block_of(std::string_view data);
mlio::Memory_slice slice_of(std::string_view data);
std::string to_string(const mlio::Memory_slice &s);
std::string deflate(std::string_view data, int level, bool gzip);
std::string gzip_members(Case &c, std::string_view data);

// ---- streams
struct Stream_plan {
    std::vector<std::size_t> max_reads{};  // cycled; empty: no limit
    bool seekable{};
    std::size_t fail_at = SIZE_MAX;        // throw once this many bytes were read
    int fail_kind{};                       // 0: Stream_error, 1: system_error
    std::vector<unsigned> delays_us{};     // cycled
};

class Test_stream final : public mlio::Input_stream {
public:
    Test_stream(std::shared_ptr<const std::string> data, Stream_plan plan)
        : data_{std::move(data)}, plan_{std::move(plan)}
    {}

    std::size_t read(mlio::Mutable_memory_span destination) final;
    mlio::Memory_slice read(std::size_t size) final;
    void seek(std::size_t position) final;
    void close() noexcept final;
    std::size_t size() const final;
    std::size_t position() const final;
    bool closed() const noexcept final
    {
        return closed_;
    }
    bool seekable() const noexcept final
    {
        return plan_.seekable;
    }
    bool supports_zero_copy() const noexcept final
    {
        return false;
    }

private:
    void check() const;

    std::shared_ptr<const std::string> data_;
    Stream_plan plan_;
    std::size_t pos_{};
    std::size_t n_{};
    bool closed_{};
};

class Test_store final : public mlio::Data_store {
public:
    Test_store(std::string id, std::string data, Stream_plan plan)
        : id_{std::move(id)}
        , data_{std::make_shared<std::string>(std::move(data))}
        , plan_{std::move(plan)}
    {}

    mlio::Intrusive_ptr<mlio::Input_stream> open_read() const final;
    std::string repr() const final
    {
        return "<Test_store " + id_ + ">";
    }
    const std::string &id() const final
    {
        return id_;
    }

private:
    std::string id_;
    std::shared_ptr<const std::string> data_;
    Stream_plan plan_;
};

// How the bytes of a store reach the library.
enum class Delivery { memory, file, mapped, stream, seekable_stream, gz_memory, gz_file, gz_stream };
constexpr int num_deliveries = 8;
Delivery any_delivery(Case &c);
const char *name_of(Delivery d);
Stream_plan any_plan(Case &c, bool seekable);
mlio::Intrusive_ptr<mlio::Data_store> make_store(Case &c, std::string_view data, Delivery d);

// Sets the hooks to small random values, so that internal boundaries are crossed.
void any_buffer_sizes(Case &c);

// ---- examples as plain values
struct Column {
    std::string name;
    mlio::Data_type type{};
    bool sparse{};
    std::vector<std::size_t> shape;
    std::vector<std::ptrdiff_t> strides;
    std::vector<std::string> values;               // one per stored element, exact
    std::vector<std::vector<std::uint64_t>> coords;  // sparse: per dimension

    bool operator==(const Column &o) const
    {
        return name == o.name && type == o.type && sparse == o.sparse && shape == o.shape &&
               strides == o.strides && values == o.values && coords == o.coords;
    }
};

struct Ex {
    std::size_t padding{};
    std::vector<Column> columns;

    bool operator==(const Ex &o) const
    {
        return padding == o.padding && columns == o.columns;
    }
    bool operator!=(const Ex &o) const
    {
        return !(*this == o);
    }
};

std::string value_at(mlio::Data_type dt, const void *data, std::size_t i);
std::string value_of(double v);
std::string value_of(float v);
Ex to_ex(const mlio::Example &e);
std::string show(const Ex &e);
std::string show(const std::vector<Ex> &v);
std::string type_name(mlio::Data_type dt);

struct Epoch {
    std::vector<Ex> examples;
    bool failed{};
    std::string error;  // description with nested errors
    // Which documented exception type it was: "data_reader", "schema",
    // "instance", "stream", ... or "other".
    std::string error_kind;
};

// Reads to the end or to the first exception.
Epoch read_epoch(mlio::Data_reader &r, std::size_t max_examples = 1000000);

// Runs f; returns the kind of the exception it threw, or "" if none.
std::string kind_of_error(const std::function<void()> &f, std::string *what = nullptr);

template<typename T>
std::string join(const std::vector<T> &v)
{
    std::ostringstream o;
    o << "[";
    for (std::size_t i = 0; i < v.size(); i++) {
        o << (i != 0 ? "," : "") << v[i];
    }
    o << "]";
    return o.str();
}

// Utf-8 text helpers.
std::string utf8_of(std::uint32_t cp);

// Limits the number of TBB threads of the process for the life of the object.
class Thread_limit {
public:
    explicit Thread_limit(std::size_t n);
    ~Thread_limit();

private:
    struct Impl;
    std::unique_ptr<Impl> impl_;
};

}  // namespace pbt
