// C12: RecordIO-protobuf examples equal the protobuf messages they encode.
#include "csv_model.h"
#include "encode.h"

using namespace mlio;
using namespace pbt;

namespace {

enum class Kind { f32, f64, i32, bytes, unset };

struct Tensor_msg {
    Kind kind{};
    std::vector<std::uint64_t> values;  // bit patterns
    std::vector<std::uint64_t> keys;
    std::vector<std::uint64_t> shape;

    bool sparse() const
    {
        return !keys.empty() || (values.empty() && !shape.empty());
    }
};

struct Message {
    std::map<std::string, Tensor_msg> features;
    std::map<std::string, Tensor_msg> labels;
    bool garbage{};

    // By the names in the schema. A name can be there twice.
    std::vector<std::pair<std::string, const Tensor_msg *>> all() const
    {
        std::vector<std::pair<std::string, const Tensor_msg *>> v;
        for (auto &[n, t] : labels) {
            v.emplace_back("label_" + n, &t);
        }
        for (auto &[n, t] : features) {
            v.emplace_back(n, &t);
        }
        return v;
    }
};

// ---- encoding

std::string encode(Case &c, const Tensor_msg &t)
{
    if (t.kind == Kind::unset) {
        return {};
    }
    std::string v;
    if (t.kind == Kind::bytes) {
        std::string b;
        put_bytes(b, 1, "xyz");
        put_bytes(v, 9, b);
        return v;
    }
    auto scalars = [&](unsigned field, const std::vector<std::uint64_t> &xs, unsigned wire) {
        auto one = [&](std::string &o, std::uint64_t x) {
            if (wire == 5) {
                put_u32(o, static_cast<std::uint32_t>(x));
            }
            else if (wire == 1) {
                put_fixed(o, x);
            }
            else {
                put_varint(o, x);
            }
        };
        std::string s;
        // Any mix of packed runs and single values means the same.
        std::size_t i = 0;
        bool mix = c.chance(1, 6);
        while (i < xs.size()) {
            std::size_t n = mix ? 1 + c.draw(xs.size() - i - 1) : xs.size();
            if (mix && c.flag()) {
                put_varint(s, field << 3 | wire);
                one(s, xs[i++]);
                continue;
            }
            std::string p;
            for (std::size_t k = 0; k < n; k++) {
                one(p, xs[i++]);
            }
            put_bytes(s, field, p);
        }
        return s;
    };
    unsigned wire = t.kind == Kind::f32 ? 5 : t.kind == Kind::f64 ? 1 : 0;
    std::vector<std::string> parts{scalars(1, t.values, wire), scalars(2, t.keys, 0),
                                   scalars(3, t.shape, 0)};
    if (c.chance(1, 4)) {
        std::swap(parts[0], parts[2]);
    }
    if (c.chance(1, 8)) {
        put_bytes(parts[1], 15, "unknown");
    }
    put_bytes(v, t.kind == Kind::f32 ? 2 : t.kind == Kind::f64 ? 3 : 7,
              parts[0] + parts[1] + parts[2]);
    return v;
}

std::string encode(Case &c, const Message &m)
{
    if (m.garbage) {
        return c.flag() ? "\x0f" : "\x0a\x7f" "abc";
    }
    std::vector<std::string> entries;
    auto entry = [&](unsigned field, const std::string &name, const Tensor_msg &t) {
        std::string e, s;
        put_bytes(e, 1, name);
        put_bytes(e, 2, encode(c, t));
        put_bytes(s, field, e);
        entries.push_back(s);
    };
    for (auto &[n, t] : m.features) {
        entry(1, n, t);
    }
    for (auto &[n, t] : m.labels) {
        entry(2, n, t);
    }
    if (c.chance(1, 4)) {
        std::string s;
        put_bytes(s, static_cast<unsigned>(3 + c.draw(2)), "some text");
        entries.push_back(s);
    }
    std::string out;
    while (!entries.empty()) {
        auto i = static_cast<std::ptrdiff_t>(c.draw(entries.size() - 1));
        out += entries[static_cast<std::size_t>(i)];
        entries.erase(entries.begin() + i);
    }
    return out;
}

// ---- reference

Data_type type_of(Kind k)
{
    return k == Kind::f32 ? Data_type::float32 : k == Kind::f64 ? Data_type::float64 : Data_type::int32;
}

struct Layout {
    Kind kind{};
    bool sparse{};
    std::vector<std::uint64_t> dims;

    std::uint64_t count() const
    {
        std::uint64_t n = 1;
        for (auto d : dims) {
            n *= d;
        }
        return n;
    }
};

// The schema of the first message, or nothing if it has none.
std::optional<std::map<std::string, Layout>> layout_of(const Message &m)
{
    if (m.garbage) {
        return {};
    }
    std::map<std::string, Layout> out;
    for (auto &[name, t] : m.all()) {
        if (t->kind == Kind::bytes || t->kind == Kind::unset) {
            return {};
        }
        if (!t->keys.empty() && t->shape.empty()) {
            return {};
        }
        Layout l{t->kind, t->sparse(), t->shape};
        if (l.dims.empty()) {
            l.dims = {t->values.size()};
        }
        if (!out.emplace(name, l).second) {
            return {};
        }
    }
    return out;
}

bool matches(const Message &m, const std::map<std::string, Layout> &schema)
{
    if (m.garbage) {
        return false;
    }
    std::set<std::string> seen;
    for (auto &[name, t] : m.all()) {
        auto pos = schema.find(name);
        if (pos == schema.end() || !seen.insert(name).second) {
            return false;
        }
        const Layout &l = pos->second;
        if (t->kind != l.kind || t->sparse() != l.sparse) {
            return false;
        }
        if (t->shape.empty() ? l.dims != std::vector<std::uint64_t>{t->values.size()}
                             : l.dims != t->shape) {
            return false;
        }
        if (l.sparse) {
            if (t->keys.size() != t->values.size()) {
                return false;
            }
            for (auto k : t->keys) {
                if (k >= l.count()) {
                    return false;
                }
            }
        }
        else if (t->values.size() != l.count()) {
            return false;
        }
    }
    return seen.size() == schema.size();
}

std::string value_text(Kind k, std::uint64_t bits)
{
    return value_at(type_of(k), &bits, 0);
}

// What the example of a batch has to hold, by name.
std::map<std::string, Column> expected(const std::vector<const Message *> &rows, std::size_t size,
                                       const std::map<std::string, Layout> &schema)
{
    std::map<std::string, Column> out;
    for (auto &[name, l] : schema) {
        Column col;
        col.name = name;
        col.type = type_of(l.kind);
        col.sparse = l.sparse;
        col.shape.push_back(size);
        for (auto d : l.dims) {
            col.shape.push_back(d);
        }
        if (l.sparse) {
            col.coords.resize(l.dims.size() + 1);
        }
        std::size_t r = 0;
        for (const Message *m : rows) {
            for (auto &[n, t] : m->all()) {
                if (n != name) {
                    continue;
                }
                for (auto v : t->values) {
                    col.values.push_back(value_text(l.kind, v));
                }
                for (auto k : t->keys) {
                    col.coords[0].push_back(r);
                    std::uint64_t rest = k;
                    for (std::size_t d = l.dims.size(); d-- > 0;) {
                        col.coords[d + 1].push_back(rest % l.dims[d]);
                        rest /= l.dims[d];
                    }
                }
            }
            r++;
        }
        if (!l.sparse) {
            while (col.values.size() < size * l.count()) {
                col.values.push_back(value_text(l.kind, 0));
            }
        }
        out[name] = col;
    }
    return out;
}

// ---- generation

std::uint64_t any_bits(Case &c, Kind k)
{
    if (k == Kind::f32) {
        return c.flag() ? c.pick<std::uint32_t>({0x3f800000, 0xbf800000, 0x80000000, 0x7f800000, 1,
                                                 0x7f7fffff, 0xced7230a, 0x40490fdb})
                        : static_cast<std::uint32_t>(c.bits64()) & 0xff7fffffU;
    }
    if (k == Kind::f64) {
        return c.flag() ? c.pick<std::uint64_t>({0x3ff0000000000000, 0x8000000000000000, 1,
                                                 0x7fefffffffffffff, 0x7ff0000000000000,
                                                 0x400921fb54442d18})
                        : c.bits64() & 0xffefffffffffffffU;
    }
    auto v = static_cast<std::int32_t>(c.bits64());
    return static_cast<std::uint64_t>(static_cast<std::int64_t>(v));
}

// A tensor with a layout.
Tensor_msg tensor(Case &c, const Layout &l)
{
    Tensor_msg t;
    t.kind = l.kind;
    if (l.sparse) {
        t.shape = l.dims;
        std::size_t n = l.count() == 0 ? 0 : c.size(5);
        for (std::size_t i = 0; i < n; i++) {
            t.keys.push_back(c.draw(l.count() - 1));
            t.values.push_back(any_bits(c, l.kind));
        }
    }
    else {
        if (l.dims.size() != 1 || (c.flag() && l.dims[0] != 0)) {
            t.shape = l.dims;
        }
        for (std::uint64_t i = 0; i < l.count(); i++) {
            t.values.push_back(any_bits(c, l.kind));
        }
    }
    return t;
}

Layout any_layout(Case &c)
{
    Layout l;
    l.kind = c.pick({Kind::f32, Kind::f64, Kind::i32});
    l.sparse = c.chance(2, 5);
    std::size_t dims = c.weighted({4, 3, 1}) + 1;
    for (std::size_t i = 0; i < dims; i++) {
        l.dims.push_back(1 + c.size(3));
    }
    if (l.sparse && c.chance(1, 6)) {
        l.dims[0] = std::uint64_t{1} << c.pick<unsigned>({20, 31, 32, 40, 60});
        if (l.dims.size() > 1) {
            l.dims.resize(2);
            l.dims[1] = 3;
        }
    }
    if (c.chance(1, 15)) {
        // Nothing at all.
        if (l.sparse || dims == 1) {
            l.dims[c.draw(l.dims.size() - 1)] = 0;
        }
    }
    if (!l.sparse && dims == 1 && c.chance(1, 30)) {
        l.dims = {0};
    }
    return l;
}

// Something that does not match, usually. The reference decides.
std::string spoil(Case &c, Message &m, const std::map<std::string, Layout> &schema)
{
    std::map<std::string, Tensor_msg> &map =
        m.features.empty() || (!m.labels.empty() && c.flag()) ? m.labels : m.features;
    if (map.empty()) {
        m.garbage = true;
        return "garbage";
    }
    auto pos = map.begin();
    std::advance(pos, c.draw(map.size() - 1));
    Tensor_msg &t = pos->second;
    std::string name = pos->first;
    switch (c.weighted({1, 1, 1, 1, 2, 2, 2, 2, 1, 2, 1, 1, 1})) {
    case 0:
        map.erase(pos);
        return "without " + name;
    case 1:
        m.features["extra"] = tensor(c, any_layout(c));
        return "with extra";
    case 2: {
        Tensor_msg copy = t;
        map.erase(pos);
        map[name + "x"] = copy;
        return name + " renamed";
    }
    case 3:
        t.kind = c.pick({Kind::f32, Kind::f64, Kind::i32, Kind::bytes, Kind::unset});
        for (auto &v : t.values) {
            v = t.kind == Kind::i32 ? v & 0xffff : v & 0x3fffffff;
        }
        return name + " of another type";
    case 4:
        t = tensor(c, any_layout(c));
        return name + " of another layout";
    case 5:
        if (t.values.empty() || c.flag()) {
            t.values.push_back(any_bits(c, t.kind));
        }
        else {
            t.values.pop_back();
        }
        return name + " with another number of values";
    case 6:
        if (!t.keys.empty()) {
            t.keys[c.draw(t.keys.size() - 1)] =
                c.flag() ? UINT64_MAX : [&] {
                    std::uint64_t n = 1;
                    for (auto d : t.shape) {
                        n *= d;
                    }
                    return n + c.draw(2);
                }();
            return name + " with a bad key";
        }
        t.shape.push_back(2);
        return name + " with another dimension";
    case 7:
        if (!t.shape.empty()) {
            t.shape[c.draw(t.shape.size() - 1)] += 1;
            return name + " with another shape";
        }
        t.shape = {t.values.size() + 1};
        return name + " with a wrong shape";
    case 8:
        m.garbage = true;
        return "garbage";
    case 9:
        if (!t.keys.empty() && t.keys.size() > 1) {
            t.keys.pop_back();
            return name + " with too few keys";
        }
        if (!t.shape.empty()) {
            t.keys.push_back(0);
            return name + " with another key";
        }
        t.values.clear();
        return name + " without values";
    case 10:
        if (t.sparse() && !t.shape.empty()) {
            t.keys.clear();
            return name + " without keys";
        }
        t.values.clear();
        return name + " without values";
    case 11: {
        // A feature and a label whose names meet in the schema.
        auto lab = m.labels.begin();
        if (lab == m.labels.end()) {
            m.garbage = true;
            return "garbage";
        }
        if (!m.features.empty() && c.flag()) {
            m.features.erase(m.features.begin());
        }
        m.features["label_" + lab->first] = c.flag() ? lab->second : tensor(c, schema.at("label_" + lab->first));
        return "label_" + lab->first + " twice";
    }
    default:
        if (t.shape.size() > 1) {
            std::reverse(t.shape.begin(), t.shape.end());
            return name + " transposed";
        }
        t.shape.insert(t.shape.begin(), 1);
        return name + " with another dimension";
    }
}

std::string show(const Message &m)
{
    std::ostringstream o;
    if (m.garbage) {
        return "{garbage}";
    }
    o << "{";
    for (auto &[n, t] : m.all()) {
        o << n << ":" << "fdibu"[static_cast<int>(t->kind)] << (t->sparse() ? "s" : "") << join(t->values)
          << "k" << join(t->keys) << "s" << join(t->shape) << " ";
    }
    return o.str() + "}";
}

// Sparse features without a shape can be taken for either.
bool ambiguous(const Message &m)
{
    for (auto &[n, t] : m.all()) {
        if (!t->keys.empty() && t->shape.empty()) {
            return true;
        }
    }
    return false;
}

}  // namespace

PBT_TEST(C12, messages)
{
    // The layout.
    std::vector<std::string> feature_names{"a", "b", "values", "x", "label_y", ""};
    std::vector<std::string> label_names{"values", "l", "y", ""};
    std::map<std::string, Layout> features, labels;
    std::size_t nf = c.size(3);
    for (std::size_t i = 0; i < nf; i++) {
        features[c.pick(feature_names)] = any_layout(c);
    }
    std::size_t nl = c.size(2);
    for (std::size_t i = 0; i < nl; i++) {
        labels[c.pick(label_names)] = any_layout(c);
    }
    if (features.empty() && labels.empty()) {
        features["values"] = any_layout(c);
    }
    std::size_t n = 1 + c.size(10);
    std::vector<Message> messages;
    std::vector<std::string> flaws;
    std::string d;
    std::map<std::string, Layout> drawn = features;
    for (auto &[name, l] : labels) {
        drawn["label_" + name] = l;
    }
    unsigned rate = c.pick<unsigned>({0, 4, 2});
    for (std::size_t i = 0; i < n; i++) {
        Message m;
        for (auto &[name, l] : features) {
            m.features[name] = tensor(c, l);
        }
        for (auto &[name, l] : labels) {
            m.labels[name] = tensor(c, l);
        }
        std::string flaw;
        if (i == 0 ? c.chance(1, 20) : rate != 0 && c.chance(1, rate)) {
            flaw = spoil(c, m, drawn);
            if (i != 0 && ambiguous(m)) {
                m.garbage = true;
            }
        }
        flaws.push_back(flaw);
        messages.push_back(m);
    }
    Data_reader_params p;
    p.batch_size = 1 + c.size(5);
    p.bad_example_handling = c.pick({Bad_example_handling::skip, Bad_example_handling::error,
                                     Bad_example_handling::pad});
    any_buffer_sizes(c);
    any_parallelism(c, p);
    std::size_t stores = 1 + c.draw(1);
    std::size_t next = 0;
    for (std::size_t s = 0; s < stores; s++) {
        std::string data;
        std::size_t end = s + 1 == stores ? n : next + c.draw(n - next);
        for (; next < end; next++) {
            std::string b = encode(c, messages[next]);
            if (c.chance(1, 6)) {
                std::size_t at = c.draw(b.size());
                put_record(data, b.substr(0, at), 1);
                put_record(data, b.substr(at), 3);
            }
            else {
                put_record(data, b);
            }
        }
        p.dataset.push_back(make_store(c, data, any_delivery(c)));
    }
    auto schema = layout_of(messages[0]);
    if (schema) {
        for (auto &[name, l] : *schema) {
            // Memory is needed for what a dense feature claims to hold.
            if (!l.sparse && l.count() > 10000) {
                c.discard();
            }
        }
    }
    std::vector<bool> good;
    std::size_t num_bad = 0;
    for (std::size_t i = 0; i < n; i++) {
        good.push_back(schema && matches(messages[i], *schema));
        num_bad += good.back() ? 0 : 1;
        d += " " + std::to_string(i) + (good[i] ? "" : " BAD") + show(messages[i]) + flaws[i];
    }
    c.desc("batch=", p.batch_size, " mode=", static_cast<int>(p.bad_example_handling), d);
    c.nontrivial(n > 1 && schema && num_bad < n &&
                 (features.size() + labels.size() > 1 || num_bad != 0));
    Recordio_protobuf_reader reader{p};
    if (!schema) {
        c.tag("no schema");
        for (int i = 0; i < 2; i++) {
            ENSURE(!kind_of_error([&] { reader.read_schema(); }).empty(),
                   "a schema from a message that has none");
            ENSURE(!kind_of_error([&] { reader.read_example(); }).empty(),
                   "an example from a message without a schema");
        }
        return;
    }
    auto s = reader.read_schema();
    ENSURE(s != nullptr && s->attributes().size() == schema->size(), "the number of attributes");
    for (const Attribute &a : s->attributes()) {
        auto pos = schema->find(a.name());
        ENSURE(pos != schema->end(), "unknown attribute ", quote(a.name()));
        const Layout &l = pos->second;
        ENSURE(a.data_type() == type_of(l.kind), "type of ", a.name());
        ENSURE(a.sparse() == l.sparse, "sparseness of ", a.name());
        Size_vector dims{p.batch_size};
        dims.insert(dims.end(), l.dims.begin(), l.dims.end());
        ENSURE(a.shape() == dims, "shape of ", a.name());
    }
    // What each batch gives.
    struct Want {
        std::size_t padding;
        std::map<std::string, Column> columns;
    };
    std::vector<Want> want;
    bool fails = false;
    for (std::size_t b = 0; b < n; b += p.batch_size) {
        std::size_t size = std::min(p.batch_size, n - b);
        std::vector<const Message *> rows;
        for (std::size_t i = b; i < b + size; i++) {
            if (good[i]) {
                rows.push_back(&messages[i]);
            }
        }
        if (rows.size() != size) {
            if (p.bad_example_handling == Bad_example_handling::error) {
                fails = true;
                break;
            }
            if (p.bad_example_handling == Bad_example_handling::skip) {
                continue;
            }
        }
        want.push_back({size - rows.size(), expected(rows, size, *schema)});
    }
    for (int epoch = 0; epoch < 2; epoch++) {
        Epoch e = read_epoch(reader);
        if (fails) {
            c.tag("fails");
            ENSURE(e.failed, "no error for bad messages");
            ENSURE(e.error_kind == "instance", "error is ", e.error_kind, ": ", e.error);
            ENSURE(e.examples.size() <= want.size(), "read beyond the bad message");
        }
        else {
            ENSURE(!e.failed, e.error);
            ENSURE(e.examples.size() == want.size(), e.examples.size(), " examples and not ",
                   want.size());
        }
        for (std::size_t i = 0; i < e.examples.size(); i++) {
            const Ex &x = e.examples[i];
            ENSURE(x.padding == want[i].padding, "example ", i, " padding ", x.padding, " and not ",
                   want[i].padding);
            ENSURE(x.columns.size() == want[i].columns.size(), "example ", i, " features");
            for (const Column &col : x.columns) {
                const Column &w = want[i].columns.at(col.name);
                ENSURE(col.type == w.type && col.sparse == w.sparse && col.shape == w.shape,
                       "example ", i, " ", col.name, " type or shape ", join(col.shape));
                ENSURE(col.values == w.values, "example ", i, " ", col.name, " values ",
                       join(col.values), " and not ", join(w.values));
                ENSURE(col.coords == w.coords, "example ", i, " ", col.name, " coordinates differ");
            }
        }
        reader.reset();
    }
}
