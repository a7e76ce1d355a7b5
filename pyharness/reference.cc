// The C++ side of C29: reads a dataset that is described by a list of commands and
// returns what a C++ program observes. Nothing in here goes through the Python module.
#include <mlio.h>

#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

using namespace mlio;

namespace {

using Command = std::vector<std::string>;

std::vector<Command> parse(const char *s, std::size_t n)
{
    std::vector<Command> cmds{};
    std::size_t i = 0;
    auto number = [&]() {
        std::size_t v = 0;
        while (s[i] != ':') {
            v = v * 10 + static_cast<std::size_t>(s[i++] - '0');
        }
        i++;
        return v;
    };
    while (i < n) {
        Command c{};
        for (std::size_t k = number(); k > 0; k--) {
            std::size_t len = number();
            c.emplace_back(s + i, len);
            i += len;
        }
        cmds.push_back(std::move(c));
    }
    return cmds;
}

std::size_t to_size(const std::string &s)
{
    return std::strtoull(s.c_str(), nullptr, 10);
}

std::optional<std::size_t> to_opt(const std::string &s)
{
    if (s == "None") {
        return std::nullopt;
    }
    return to_size(s);
}

bool to_bool(const std::string &s)
{
    return s == "True";
}

const std::map<std::string, Data_type> data_types{
    {"SIZE", Data_type::size},       {"FLOAT16", Data_type::float16}, {"FLOAT32", Data_type::float32},
    {"FLOAT64", Data_type::float64}, {"INT8", Data_type::int8},       {"INT16", Data_type::int16},
    {"INT32", Data_type::int32},     {"INT64", Data_type::int64},     {"UINT8", Data_type::uint8},
    {"UINT16", Data_type::uint16},   {"UINT32", Data_type::uint32},   {"UINT64", Data_type::uint64},
    {"STRING", Data_type::string}};

std::string name_of(Data_type dt)
{
    for (auto &p : data_types) {
        if (p.second == dt) {
            return p.first;
        }
    }
    return "?";
}

Compression to_compression(const std::string &s)
{
    return s == "GZIP" ? Compression::gzip
                       : s == "INFER" ? Compression::infer
                                      : s == "ZIP" ? Compression::zip
                                                   : s == "BZIP2" ? Compression::bzip2
                                                                  : Compression::none;
}

class Source {
public:
    explicit Source(const std::vector<Command> &cmds)
    {
        for (const Command &c : cmds) {
            const std::string &what = c[0];
            if (what == "reader") {
                kind_ = c[1];
            }
            else if (what == "store") {
                add_store(c);
            }
            else if (what == "set") {
                if (!set_param(c) && !set_csv(c) && !set_image(c)) {
                    throw std::logic_error{"unknown setting " + c[1]};
                }
            }
        }
    }

    Intrusive_ptr<Data_reader> make()
    {
        if (kind_ == "csv") {
            return make_intrusive<Csv_reader>(params_, csv_);
        }
        if (kind_ == "text") {
            return make_intrusive<Text_line_reader>(params_);
        }
        if (kind_ == "protobuf") {
            return make_intrusive<Recordio_protobuf_reader>(params_);
        }
        return make_intrusive<Image_reader>(params_, image_);
    }

private:
    void add_store(const Command &c)
    {
        if (c[1] == "memory") {
            auto block = make_intrusive<Heap_memory_block>(c[2].size());
            std::memcpy(block->data(), c[2].data(), c[2].size());
            params_.dataset.push_back(
                make_intrusive<In_memory_store>(std::move(block), to_compression(c[3])));
        }
        else {
            params_.dataset.push_back(
                make_intrusive<File>(c[2], to_bool(c[4]), to_compression(c[3])));
        }
    }

    bool set_param(const Command &c)
    {
        const std::string &n = c[1];
        const std::string &v = c.size() > 2 ? c[2] : n;
        if (n == "batch_size") {
            params_.batch_size = to_size(v);
        }
        else if (n == "num_prefetched_examples") {
            params_.num_prefetched_examples = to_size(v);
        }
        else if (n == "num_parallel_reads") {
            params_.num_parallel_reads = to_size(v);
        }
        else if (n == "last_example_handling") {
            params_.last_example_handling =
                v == "DROP" ? Last_example_handling::drop
                            : v == "DROP_WARN"
                                  ? Last_example_handling::drop_warn
                                  : v == "PAD" ? Last_example_handling::pad
                                               : v == "PAD_WARN" ? Last_example_handling::pad_warn
                                                                 : Last_example_handling::none;
        }
        else if (n == "bad_example_handling") {
            params_.bad_example_handling =
                v == "SKIP" ? Bad_example_handling::skip
                            : v == "SKIP_WARN"
                                  ? Bad_example_handling::skip_warn
                                  : v == "PAD" ? Bad_example_handling::pad
                                               : v == "PAD_WARN" ? Bad_example_handling::pad_warn
                                                                 : Bad_example_handling::error;
        }
        else if (n == "warn_bad_instances") {
            params_.warn_bad_instances = to_bool(v);
        }
        else if (n == "num_instances_to_skip") {
            params_.num_instances_to_skip = to_size(v);
        }
        else if (n == "num_instances_to_read") {
            params_.num_instances_to_read = to_opt(v);
        }
        else if (n == "shard_index") {
            params_.shard_index = to_size(v);
        }
        else if (n == "num_shards") {
            params_.num_shards = to_size(v);
        }
        else if (n == "sample_ratio") {
            if (v != "None") {
                params_.sample_ratio = std::strtof(v.c_str(), nullptr);
            }
        }
        else if (n == "shuffle_instances") {
            params_.shuffle_instances = to_bool(v);
        }
        else if (n == "shuffle_window") {
            params_.shuffle_window = to_size(v);
        }
        else if (n == "shuffle_seed") {
            params_.shuffle_seed = to_opt(v);
        }
        else if (n == "reshuffle_each_epoch") {
            params_.reshuffle_each_epoch = to_bool(v);
        }
        else {
            return false;
        }
        return true;
    }

    bool set_csv(const Command &c)
    {
        const std::string &n = c[1];
        const std::string &v = c.size() > 2 ? c[2] : n;
        if (n == "column_names") {
            csv_.column_names.assign(c.begin() + 2, c.end());
        }
        else if (n == "name_prefix") {
            csv_.name_prefix = v;
        }
        else if (n == "use_columns") {
            csv_.use_columns.insert(c.begin() + 2, c.end());
        }
        else if (n == "use_columns_by_index") {
            for (std::size_t i = 2; i < c.size(); i++) {
                csv_.use_columns_by_index.insert(to_size(c[i]));
            }
        }
        else if (n == "default_data_type") {
            if (v != "None") {
                csv_.default_data_type = data_types.at(v);
            }
        }
        else if (n == "column_types") {
            for (std::size_t i = 2; i < c.size(); i += 2) {
                csv_.column_types[c[i]] = data_types.at(c[i + 1]);
            }
        }
        else if (n == "column_types_by_index") {
            for (std::size_t i = 2; i < c.size(); i += 2) {
                csv_.column_types_by_index[to_size(c[i])] = data_types.at(c[i + 1]);
            }
        }
        else if (n == "header_row_index") {
            csv_.header_row_index = to_opt(v);
        }
        else if (n == "has_single_header") {
            csv_.has_single_header = to_bool(v);
        }
        else if (n == "dedupe_column_names") {
            csv_.dedupe_column_names = to_bool(v);
        }
        else if (n == "delimiter") {
            csv_.delimiter = v[0];
        }
        else if (n == "quote_char") {
            csv_.quote_char = v[0];
        }
        else if (n == "comment_char") {
            if (v != "None") {
                csv_.comment_char = v[0];
            }
        }
        else if (n == "allow_quoted_new_lines") {
            csv_.allow_quoted_new_lines = to_bool(v);
        }
        else if (n == "skip_blank_lines") {
            csv_.skip_blank_lines = to_bool(v);
        }
        else if (n == "encoding") {
            if (v != "None") {
                csv_.encoding = Text_encoding{v};
            }
        }
        else if (n == "max_field_length") {
            csv_.max_field_length = to_opt(v);
        }
        else if (n == "max_field_length_handling") {
            csv_.max_field_length_handling =
                v == "TRUNCATE" ? Max_field_length_handling::truncate
                                : v == "TRUNCATE_WARN" ? Max_field_length_handling::truncate_warn
                                                       : Max_field_length_handling::treat_as_bad;
        }
        else if (n == "max_line_length") {
            csv_.max_line_length = to_opt(v);
        }
        else if (n == "nan_values") {
            csv_.parser_options.nan_values.insert(c.begin() + 2, c.end());
        }
        else if (n == "number_base") {
            csv_.parser_options.base = std::atoi(v.c_str());
        }
        else {
            return false;
        }
        return true;
    }

    bool set_image(const Command &c)
    {
        const std::string &n = c[1];
        const std::string &v = c.size() > 2 ? c[2] : n;
        if (n == "image_frame") {
            image_.image_frame = v == "RECORDIO" ? Image_frame::recordio : Image_frame::none;
        }
        else if (n == "resize") {
            image_.resize = to_opt(v);
        }
        else if (n == "image_dimensions") {
            for (std::size_t i = 2; i < c.size(); i++) {
                image_.image_dimensions.push_back(to_size(c[i]));
            }
        }
        else if (n == "to_rgb") {
            image_.to_rgb = to_bool(v);
        }
        else {
            return false;
        }
        return true;
    }

    std::string kind_{};
    Data_reader_params params_{};
    Csv_params csv_{};
    Image_reader_params image_{};
};

template<typename Vec>
std::string list(const Vec &v)
{
    std::string s = "(";
    for (auto x : v) {
        s += std::to_string(x) + ",";
    }
    return s + ")";
}

std::string hex(const void *data, std::size_t n)
{
    static const char *digits = "0123456789abcdef";
    std::string s{};
    for (std::size_t i = 0; i < n; i++) {
        auto b = static_cast<const unsigned char *>(data)[i];
        s += digits[b >> 4];
        s += digits[b & 15];
    }
    return s;
}

std::size_t item_size(Data_type dt)
{
    switch (dt) {
    case Data_type::float16:
    case Data_type::int16:
    case Data_type::uint16:
        return 2;
    case Data_type::float32:
    case Data_type::int32:
    case Data_type::uint32:
        return 4;
    case Data_type::int8:
    case Data_type::uint8:
        return 1;
    default:
        return 8;
    }
}

std::string contents(Device_array_view arr)
{
    if (arr.data_type() == Data_type::string) {
        std::string s = "[";
        auto *strs = static_cast<const std::string *>(arr.data());
        for (std::size_t i = 0; i < arr.size(); i++) {
            s += hex(strs[i].data(), strs[i].size()) + ",";
        }
        return s + "]";
    }
    return hex(arr.data(), arr.size() * item_size(arr.data_type()));
}

std::string show(const Attribute &a)
{
    return hex(a.name().data(), a.name().size()) + " " + name_of(a.data_type()) + list(a.shape()) +
           list(a.strides()) + (a.sparse() ? "sparse" : "dense");
}

std::string show(const Schema &schema)
{
    std::string s{};
    for (const Attribute &a : schema.attributes()) {
        s += show(a) + ";";
    }
    return s;
}

std::string show(const Example &exm)
{
    std::string s = "padding " + std::to_string(exm.padding) + " ;";
    for (std::size_t k = 0; k < exm.features().size(); k++) {
        const auto &f = exm.features()[k];
        s += show(exm.schema().attributes()[k]) + " " + name_of(f->data_type()) + list(f->shape()) + list(f->strides());
        if (auto *dense = dynamic_cast<const Dense_tensor *>(f.get())) {
            s += contents(dense->data());
        }
        else if (auto *coo = dynamic_cast<const Coo_tensor *>(f.get())) {
            for (std::size_t i = 0; i < coo->shape().size(); i++) {
                s += contents(coo->indices(i)) + "/";
            }
            s += contents(coo->data());
        }
        s += ";";
    }
    return s;
}

// The name of the Python type that stands for an exception.
std::string type_name(const std::exception &e)
{
#define MLIO_VERIF_TYPE(C, P)                                                                      \
    if (dynamic_cast<const C *>(&e) != nullptr) {                                                 \
        return P;                                                                                  \
    }
    MLIO_VERIF_TYPE(Not_supported_error, "NotSupportedError")
    MLIO_VERIF_TYPE(Invalid_instance_error, "InvalidInstanceError")
    MLIO_VERIF_TYPE(Schema_error, "SchemaError")
    MLIO_VERIF_TYPE(Data_reader_error, "DataReaderError")
    MLIO_VERIF_TYPE(Record_too_large_error, "RecordTooLargeError")
    MLIO_VERIF_TYPE(Corrupt_footer_error, "CorruptFooterError")
    MLIO_VERIF_TYPE(Corrupt_header_error, "CorruptHeaderError")
    MLIO_VERIF_TYPE(Corrupt_record_error, "CorruptRecordError")
    MLIO_VERIF_TYPE(Record_error, "RecordError")
    MLIO_VERIF_TYPE(Inflate_error, "InflateError")
    MLIO_VERIF_TYPE(Stream_error, "StreamError")
    MLIO_VERIF_TYPE(Mlio_error, "MLIOError")
#undef MLIO_VERIF_TYPE
    if (auto *s = dynamic_cast<const std::system_error *>(&e)) {
        return "OSError" + std::to_string(s->code().value());
    }
    if (dynamic_cast<const std::bad_alloc *>(&e) != nullptr) {
        return "MemoryError";
    }
    if (dynamic_cast<const std::out_of_range *>(&e) != nullptr) {
        return "IndexError";
    }
    if (dynamic_cast<const std::invalid_argument *>(&e) != nullptr ||
        dynamic_cast<const std::domain_error *>(&e) != nullptr ||
        dynamic_cast<const std::length_error *>(&e) != nullptr ||
        dynamic_cast<const std::range_error *>(&e) != nullptr) {
        return "ValueError";
    }
    return "RuntimeError";
}

// The causes of library errors are part of them.
std::string chain(const std::exception &e)
{
    std::string s = type_name(e) + " " + hex(e.what(), std::strlen(e.what()));
    try {
        std::rethrow_if_nested(e);
    }
    catch (const std::exception &n) {
        s += " from " + chain(n);
    }
    catch (...) {
        s += " from ?";
    }
    return s;
}

std::string show(const std::exception &e)
{
    return "raised " + chain(e);
}

std::mutex log_mutex{};
std::vector<std::string> log_lines{};

const char *level_name(Log_level lvl)
{
    return lvl == Log_level::warning ? "WARNING" : lvl == Log_level::info ? "INFO" : "DEBUG";
}

void run(const std::vector<Command> &cmds, std::vector<std::string> &obs)
{
    Intrusive_ptr<Data_reader> reader{};
    try {
        Source src{cmds};
        reader = src.make();
    }
    catch (const std::exception &e) {
        obs.push_back(show(e));
        return;
    }
    for (const Command &c : cmds) {
        if (c[0] != "op") {
            continue;
        }
        const std::string &op = c[1];
        try {
            if (op == "read" || op == "peek") {
                auto exm = op == "read" ? reader->read_example() : reader->peek_example();
                obs.push_back(exm == nullptr ? "None" : show(*exm));
            }
            else if (op == "schema") {
                auto schema = reader->read_schema();
                obs.push_back(schema == nullptr ? "None" : "schema ;" + show(*schema));
            }
            else if (op == "reset") {
                reader->reset();
                obs.push_back("bytes " + std::to_string(reader->num_bytes_read()));
            }
            else if (op == "all") {
                while (auto exm = reader->read_example()) {
                    obs.push_back(show(*exm));
                }
                obs.push_back("bytes " + std::to_string(reader->num_bytes_read()));
            }
        }
        catch (const std::exception &e) {
            obs.push_back(show(e));
        }
    }
}

}  // namespace

extern "C" {

// Returns the observations as lines, and then the log messages after an empty line.
__attribute__((visibility("default"))) char *mlio_reference(const char *spec, std::size_t size)
{
    std::vector<Command> cmds = parse(spec, size);
    std::vector<std::string> obs{};

    log_lines.clear();
    auto old = set_log_message_handler([](Log_level lvl, std::string_view msg) {
        std::lock_guard<std::mutex> lock{log_mutex};
        log_lines.push_back(std::string{level_name(lvl)} + " " + hex(msg.data(), msg.size()));
    });
    run(cmds, obs);
    set_log_message_handler(std::move(old));

    std::string out{};
    for (const std::string &o : obs) {
        out += o + "\n";
    }
    out += "\n";
    for (const std::string &l : log_lines) {
        out += l + "\n";
    }
    return ::strdup(out.c_str());
}

__attribute__((visibility("default"))) void mlio_reference_free(char *p)
{
    std::free(p);
}
}
