// Datasets of numbered instances in every format: each instance carries its number
// in every one of its features, so that a lost, repeated, reordered, mixed-up or
// altered instance shows.
#pragma once

#include "csv_model.h"
#include "encode.h"

#include <mlio/image_reader.h>
#include <mlio/recordio_protobuf_reader.h>
#include <mlio/text_line_reader.h>

namespace pbt {

enum class Format { csv, text, recordio, recordio_sparse, image_recordio, image_file };
constexpr int num_formats = 6;

inline const char *name_of(Format f)
{
    static const char *n[] = {"csv", "text", "recordio", "recordio_sparse", "image_recordio",
                              "image_file"};
    return n[static_cast<int>(f)];
}

// Where the names of the columns of CSV data come from.
enum class Names { each_store, first_store, first_with_data, given, given_too };

struct Numbered {
    Format format{};
    Names names{};
    std::vector<std::size_t> store_sizes;
    std::set<std::size_t> bad;               // these instances are malformed
    std::size_t total{};
    std::vector<std::size_t> payload_sizes;  // by instance

    // ---- writing

    std::size_t nnz(std::size_t id) const
    {
        return id % 4;
    }

    // How a bad instance is bad.
    unsigned flaw(std::size_t id) const
    {
        unsigned n = format == Format::csv ? 8 : format == Format::text ? 1 : 13;
        return static_cast<unsigned>(id * 7 / 3 % n);
    }

    std::string payload(std::size_t id) const
    {
        bool is_bad = bad.count(id) != 0;
        std::string n = std::to_string(id);
        switch (format) {
        case Format::csv: {
            std::string s = n + "," + "s" + n + std::string(id % 5, '.') + "," + n + ".5";
            if (is_bad) {
                switch (flaw(id)) {
                case 0:
                    return n + ",bad," + n + ".5x";  // fails in the last column
                case 1:
                    return "x" + n + ",s,1.5";
                case 2:
                    return n + ",toofew";
                case 3:
                    return s + ",toomany";
                case 4:
                    return n + ",\"s," + n + ".5";  // a quote that is never closed
                case 5:
                    return "9223372036854775808,s," + n + ".5";
                case 6:
                    return n + ",s," + n + ".5,";
                default:
                    return n + ",s,";
                }
            }
            return s;
        }
        case Format::text:
            return "line " + n + std::string(id % 7, '!');
        case Format::recordio:
        case Format::recordio_sparse: {
            Pb_record r;
            Pb_value v;
            v.type = Pb_type::i32;
            v.values = {static_cast<double>(id)};
            r.features.emplace_back("id", v);
            Pb_value d;
            d.type = Pb_type::f32;
            d.values = {static_cast<double>(id), static_cast<double>(id) + 0.5};
            d.shape = {2};
            r.features.emplace_back("pair", d);
            if (format == Format::recordio_sparse) {
                for (const char *name : {"sp", "sq"}) {
                    Pb_value s;
                    s.type = Pb_type::f64;
                    s.shape = {5, 3};
                    for (std::size_t k = 0; k < nnz(id); k++) {
                        s.keys.push_back((id + 4 * k) % 15);
                        s.values.push_back(static_cast<double>(id) + static_cast<double>(k) / 8);
                    }
                    r.features.emplace_back(name, s);
                }
            }
            Pb_value y;
            y.type = Pb_type::f64;
            y.values = {static_cast<double>(id) + 0.25};
            r.labels.emplace_back("y", y);
            if (is_bad) {
                auto last = r.features.size() - 1;
                switch (flaw(id)) {
                case 0:  // too many values
                    r.features[1].second.values.push_back(7);
                    r.features[1].second.shape.clear();
                    break;
                case 1:  // another type
                    r.features[0].second.type = Pb_type::f32;
                    break;
                case 2:  // a feature that is missing
                    r.features.erase(r.features.begin() + 1);
                    break;
                case 3:  // an unknown one
                    r.features.emplace_back("unknown", v);
                    break;
                case 4:  // no values at all
                    r.features[1].second.values.clear();
                    r.features[1].second.shape.clear();
                    break;
                case 5:  // the label once more in place of a feature
                    r.features[1].first = "label_y";
                    r.features[1].second = y;
                    break;
                case 6:  // raw bytes
                    r.features[1].second.type = Pb_type::bytes;
                    break;
                case 7:  // not a message
                    return r.encode() + '\xff';
                case 8:  // a message that ends early
                    return r.encode() + "\x0a\x05" + "ab";
                case 10:  // more values than keys, or than the shape has room for
                    if (format == Format::recordio_sparse) {
                        r.features[last].second.keys = {3, 7};
                        r.features[last].second.values = {1, 2, 3};
                    }
                    else {
                        r.features[1].second.values.push_back(7);
                    }
                    break;
                case 11:  // dense instead of sparse, or the other way round
                    if (format == Format::recordio_sparse) {
                        auto &s = r.features[last].second;
                        s.keys.clear();
                        s.values.assign(15, 1);
                    }
                    else {
                        r.features[1].second.keys = {0, 1};
                    }
                    break;
                case 12:  // as many values, but of another shape
                    if (format == Format::recordio_sparse) {
                        r.features[last].second.shape = {3, 5};
                    }
                    else {
                        r.features[1].second.shape = {2, 1};
                    }
                    break;
                default:  // a bad key, or another shape
                    if (format == Format::recordio_sparse) {
                        auto &s = r.features[last].second;
                        s.keys = {3, 15, 4};
                        s.values = {1, 2, 3};
                    }
                    else {
                        r.labels[0].second.shape = {1, 1};
                    }
                    break;
                }
            }
            return r.encode();
        }
        case Format::image_recordio:
        case Format::image_file: {
            std::vector<std::uint8_t> px;
            for (unsigned k = 0; k < 12; k++) {
                px.push_back(static_cast<std::uint8_t>(k < 3 ? id >> (8 * k) : id * 7 + k));
            }
            std::string s = ppm(2, 2, px);
            if (is_bad) {
                switch (flaw(id) % 3) {
                case 0:
                    s = "this is not an image" + n;
                    break;
                case 1:
                    // Nothing at all, or less than the header of the frame.
                    return std::string(format == Format::image_recordio ? id % 24 : 0, 'x');
                default:
                    s = ppm(1, 1, {1, 2, 3});  // smaller than the crop
                    break;
                }
            }
            if (format == Format::image_recordio) {
                s = std::string(24, '\1') + s;
            }
            return s;
        }
        }
        return {};
    }

    void fill(Case &c, mlio::Data_reader_params &p, bool vary_delivery = true)
    {
        total = 0;
        payload_sizes.clear();
        bool need_header = names != Names::given;
        for (std::size_t n : store_sizes) {
            std::string text;
            std::vector<std::string> files;
            if (format == Format::csv && need_header && (n != 0 || names != Names::first_with_data)) {
                text = names == Names::given_too ? "a,b,c\n" : "id,name,num\n";
                need_header = names == Names::each_store || names == Names::given_too;
            }
            for (std::size_t i = 0; i < n; i++) {
                std::string pl = payload(total++);
                payload_sizes.push_back(pl.size());
                switch (format) {
                case Format::csv:
                case Format::text:
                    text += pl;
                    text += total % 3 == 0 ? "\r\n" : "\n";
                    break;
                case Format::recordio:
                case Format::recordio_sparse:
                case Format::image_recordio:
                    if (total % 5 == 0 && pl.size() >= 8) {
                        put_record(text, pl.substr(0, 4), 1);
                        if (total % 2 == 0) {
                            put_record(text, pl.substr(4, 4), 2);
                            put_record(text, pl.substr(8), 3);
                        }
                        else {
                            put_record(text, pl.substr(4), 3);
                        }
                    }
                    else {
                        put_record(text, pl);
                    }
                    break;
                case Format::image_file:
                    files.push_back(pl);
                    break;
                }
            }
            if (format != Format::image_file) {
                files.push_back(text);
            }
            for (auto &f : files) {
                Delivery d = vary_delivery ? any_delivery(c) : Delivery::memory;
                p.dataset.push_back(make_store(c, f, d));
            }
        }
    }

    mlio::Csv_params csv_params() const
    {
        mlio::Csv_params cp;
        cp.column_types = {{"id", mlio::Data_type::int64},
                           {"name", mlio::Data_type::string},
                           {"num", mlio::Data_type::float64}};
        if (names == Names::given || names == Names::given_too) {
            cp.column_names = {"id", "name", "num"};
        }
        if (names == Names::given) {
            cp.header_row_index = {};
        }
        cp.has_single_header = names == Names::first_store || names == Names::first_with_data;
        return cp;
    }

    mlio::Intrusive_ptr<mlio::Data_reader> make(mlio::Data_reader_params p) const
    {
        switch (format) {
        case Format::csv:
            return mlio::make_intrusive<mlio::Csv_reader>(std::move(p), csv_params());
        case Format::text:
            return mlio::make_intrusive<mlio::Text_line_reader>(std::move(p));
        case Format::recordio:
        case Format::recordio_sparse:
            return mlio::make_intrusive<mlio::Recordio_protobuf_reader>(std::move(p));
        case Format::image_recordio:
        case Format::image_file: {
            mlio::Image_reader_params ip;
            ip.image_frame = format == Format::image_recordio ? mlio::Image_frame::recordio
                                                              : mlio::Image_frame::none;
            ip.image_dimensions = {3, 2, 2};
            ip.to_rgb = true;
            return mlio::make_intrusive<mlio::Image_reader>(std::move(p), ip);
        }
        }
        return {};
    }

    // ---- reading back

    static const Column &column(const Ex &e, const char *name)
    {
        for (auto &col : e.columns) {
            if (col.name == name) {
                return col;
            }
        }
        fail(std::string("no feature named ") + name);
    }

    static void want_columns(const Ex &e, std::size_t n)
    {
        ENSURE(e.columns.size() == n, "the example has ", e.columns.size(), " features instead of ", n);
    }

    // The numbers of the instances of an example; checks every value of every
    // feature, and that the padding is zero.
    std::vector<std::size_t> ids(const Ex &e) const
    {
        std::vector<std::size_t> out;
        ENSURE(!e.columns.empty(), "an example without features");
        std::size_t n = e.columns[0].shape.at(0);
        ENSURE(e.padding <= n, "padding ", e.padding, " in a batch of ", n);
        std::size_t good = n - e.padding;
        for (auto &col : e.columns) {
            ENSURE(col.shape.at(0) == n, "feature ", col.name, " has the batch size ", col.shape[0],
                   " instead of ", n);
        }
        auto num = [](const std::string &s) {
            return static_cast<std::size_t>(std::strtod(s.c_str(), nullptr));
        };
        switch (format) {
        case Format::csv: {
            want_columns(e, 3);
            auto &a = column(e, "id").values;
            auto &b = column(e, "name").values;
            auto &f = column(e, "num").values;
            for (std::size_t i = 0; i < n; i++) {
                if (i < good) {
                    std::size_t id = num(a[i]);
                    std::string s = std::to_string(id);
                    ENSURE(b[i] == "s" + s + std::string(id % 5, '.') &&
                               f[i] == value_of(static_cast<double>(id) + 0.5),
                           "row ", i, " mixes values: ", a[i], " ", quote(b[i]), " ", f[i]);
                    out.push_back(id);
                }
                else {
                    ENSURE(a[i] == "0" && b[i].empty() && f[i] == value_of(0.0), "padding row ", i,
                           " is not zero: ", a[i], " ", quote(b[i]), " ", f[i]);
                }
            }
            break;
        }
        case Format::text: {
            want_columns(e, 1);
            auto &a = e.columns[0].values;
            for (std::size_t i = 0; i < n; i++) {
                if (i < good) {
                    std::size_t id = a[i].size() > 5 ? num(a[i].substr(5)) : 0;
                    ENSURE(a[i] == payload(id), "row ", i, " is ", quote(a[i]));
                    out.push_back(id);
                }
                else {
                    ENSURE(a[i].empty(), "padding row ", i, " is not empty: ", quote(a[i]));
                }
            }
            break;
        }
        case Format::recordio:
        case Format::recordio_sparse: {
            want_columns(e, format == Format::recordio ? 3 : 5);
            auto &a = column(e, "id");
            auto &d = column(e, "pair");
            auto &y = column(e, "label_y");
            ENSURE(a.values.size() == n && d.values.size() == 2 * n && y.values.size() == n,
                   "number of values");
            for (std::size_t i = 0; i < n; i++) {
                if (i < good) {
                    std::size_t id = num(a.values[i]);
                    auto v = static_cast<double>(id);
                    ENSURE(d.values[2 * i] == value_of(v) && d.values[2 * i + 1] == value_of(v + 0.5) &&
                               y.values[i] == value_of(v + 0.25),
                           "row ", i, " mixes values: ", a.values[i], " ", d.values[2 * i], " ",
                           d.values[2 * i + 1], " ", y.values[i]);
                    out.push_back(id);
                }
                else {
                    ENSURE(a.values[i] == "0" && d.values[2 * i] == value_of(0.0) &&
                               d.values[2 * i + 1] == value_of(0.0) && y.values[i] == value_of(0.0),
                           "padding row ", i, " is not zero: ", a.values[i], " ", d.values[2 * i],
                           " ", d.values[2 * i + 1], " ", y.values[i]);
                }
            }
            if (format == Format::recordio_sparse) {
                for (const char *name : {"sp", "sq"}) {
                    auto &s = column(e, name);
                    ENSURE(s.sparse && s.shape.size() == 3 && s.shape[1] == 5 && s.shape[2] == 3,
                           "shape of the sparse feature ", join(s.shape));
                    std::size_t k = 0;
                    for (std::size_t i = 0; i < good; i++) {
                        std::size_t id = out[i];
                        for (std::size_t m = 0; m < nnz(id); m++, k++) {
                            std::size_t key = (id + 4 * m) % 15;
                            ENSURE(k < s.values.size(), "sparse values missing from row ", i);
                            ENSURE(s.coords[0][k] == i && s.coords[1][k] == key / 3 &&
                                       s.coords[2][k] == key % 3,
                                   "sparse coordinate ", k, " is (", s.coords[0][k], ",",
                                   s.coords[1][k], ",", s.coords[2][k], ") instead of (", i, ",",
                                   key / 3, ",", key % 3, ")");
                            ENSURE(s.values[k] == value_of(static_cast<double>(id) +
                                                           static_cast<double>(m) / 8),
                                   "sparse value ", s.values[k], " in row ", i, " of ", id);
                        }
                    }
                    ENSURE(k == s.values.size(), "extra sparse values: ", s.values.size(), " not ", k);
                }
            }
            break;
        }
        case Format::image_recordio:
        case Format::image_file: {
            want_columns(e, 1);
            auto &v = e.columns[0].values;
            ENSURE(e.columns[0].shape == (std::vector<std::size_t>{n, 2, 2, 3}), "shape ",
                   join(e.columns[0].shape));
            for (std::size_t i = 0; i < n; i++) {
                std::size_t id = num(v[12 * i]) + (num(v[12 * i + 1]) << 8) + (num(v[12 * i + 2]) << 16);
                for (std::size_t k = 0; k < 12; k++) {
                    std::size_t want = i >= good ? 0
                                       : k < 3   ? num(v[12 * i + k])
                                                 : static_cast<std::uint8_t>(id * 7 + k);
                    ENSURE(num(v[12 * i + k]) == want, i < good ? "pixel " : "padding pixel ", k,
                           " of row ", i, " is ", v[12 * i + k], " instead of ", want);
                }
                if (i < good) {
                    out.push_back(id);
                }
            }
            break;
        }
        }
        return out;
    }

    std::string show() const
    {
        std::string s = std::string(name_of(format)) + join(store_sizes);
        if (!bad.empty()) {
            s += " bad=" + join(std::vector<std::size_t>(bad.begin(), bad.end()));
        }
        return s;
    }
};

inline Numbered any_numbered(Case &c, std::size_t max_total, bool images = true)
{
    Numbered n;
    n.format = static_cast<Format>(images ? c.weighted({6, 3, 4, 3, 2, 1}) : c.weighted({6, 3, 4, 3}));
    if (n.format == Format::image_file) {
        max_total = std::min<std::size_t>(max_total, 60);
    }
    if (n.format == Format::csv) {
        n.names = static_cast<Names>(c.weighted({5, 2, 2, 1, 1}));
    }
    std::size_t stores = c.weighted({4, 2, 1, 1}) + 1;
    std::size_t left = max_total;
    for (std::size_t i = 0; i < stores; i++) {
        std::size_t k = c.size(left);
        n.store_sizes.push_back(k);
        left -= k;
    }
    return n;
}

// Reads an epoch and returns the numbers of its instances; with the examples.
inline std::vector<std::size_t> epoch_ids(const Numbered &n, const Epoch &e)
{
    std::vector<std::size_t> out;
    for (auto &ex : e.examples) {
        auto ids = n.ids(ex);
        out.insert(out.end(), ids.begin(), ids.end());
    }
    return out;
}

// Selecting instances, in an order that is the same in every epoch. Returns whether the data
// may be left before its end.
inline bool any_selection(Case &c, mlio::Data_reader_params &p, std::size_t total)
{
    bool stops = false;
    if (c.chance(1, 3)) {
        p.num_instances_to_skip = c.size(total + 2);
    }
    if (c.chance(1, 5)) {
        p.num_instances_to_read = c.size(total + 2);
        stops = true;
    }
    if (c.chance(1, 3)) {
        p.num_shards = 1 + c.draw(4);
        p.shard_index = c.draw(p.num_shards - 1);
    }
    if (c.chance(1, 5)) {
        p.sample_ratio = c.pick<float>({0.5F, 0.25F, 0.9F});
        stops = true;
    }
    if (c.chance(1, 4)) {
        p.shuffle_instances = true;
        p.shuffle_window = c.chance(1, 3) ? 0 : 1 + c.draw(20);
        p.shuffle_seed = c.draw(1000);
        p.reshuffle_each_epoch = false;
    }
    return stops;
}

inline std::string show_selection(const mlio::Data_reader_params &p)
{
    std::ostringstream o;
    o << " skip=" << p.num_instances_to_skip;
    if (p.num_instances_to_read) {
        o << " limit=" << *p.num_instances_to_read;
    }
    o << " shard=" << p.shard_index << "/" << p.num_shards;
    if (p.sample_ratio) {
        o << " sample=" << *p.sample_ratio;
    }
    if (p.shuffle_instances) {
        o << " shuffle=" << p.shuffle_window;
    }
    return o.str();
}

// What a reader without any fault delivers.
inline std::vector<std::vector<std::size_t>> fault_free(const Numbered &n, const mlio::Data_reader_params &p)
{
    auto reader = n.make(p);
    Epoch e = read_epoch(*reader);
    ENSURE(!e.failed, "reading without a fault failed: ", e.error);
    std::vector<std::vector<std::size_t>> out;
    for (const Ex &ex : e.examples) {
        out.push_back(n.ids(ex));
    }
    return out;
}

inline std::string show_ids(const std::vector<std::size_t> &v)
{
    std::ostringstream o;
    o << v.size() << ":[";
    for (std::size_t i = 0; i < v.size(); i++) {
        if (i == 40) {
            o << "...";
            break;
        }
        o << (i != 0 ? "," : "") << v[i];
    }
    o << "]";
    return o.str();
}

inline void check_ids(const std::vector<std::size_t> &got, const std::vector<std::size_t> &want,
                      const std::string &what = "instances")
{
    if (got != want) {
        std::size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) {
            i++;
        }
        fail(what + " differ from position " + std::to_string(i) + ": got " + show_ids(got) +
             ", expected " + show_ids(want));
    }
}

// The features of a RecordIO-protobuf example come in the order of a hash map of
// the first message, which differs from reader to reader.
inline Ex by_name(Ex e)
{
    std::sort(e.columns.begin(), e.columns.end(), [](const Column &a, const Column &b) {
        return a.name < b.name;
    });
    return e;
}

inline std::vector<std::size_t> iota(std::size_t lo, std::size_t hi)
{
    std::vector<std::size_t> v;
    for (std::size_t i = lo; i < hi; i++) {
        v.push_back(i);
    }
    return v;
}

}  // namespace pbt
