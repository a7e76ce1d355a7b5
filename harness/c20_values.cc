// C20: schemas, attributes and examples are consistent values.
#include "csv_model.h"
#include "numbered.h"

#include <mlio/cpu_array.h>
#include <mlio/device.h>
#include <mlio/example.h>
#include <mlio/schema.h>
#include <mlio/tensor.h>

using namespace mlio;
using namespace pbt;

namespace {

struct Attr {
    std::string name;
    Data_type type{};
    std::vector<std::size_t> shape;
    std::vector<std::ptrdiff_t> strides;
    bool sparse{};
    bool default_strides{};

    bool operator==(const Attr &o) const
    {
        return name == o.name && type == o.type && shape == o.shape && strides == o.strides &&
               sparse == o.sparse;
    }
};

std::string show(const Attr &a)
{
    std::ostringstream o;
    o << a.name << ":" << type_name(a.type) << join(a.shape) << join(a.strides)
      << (a.sparse ? "sparse" : "");
    return o.str();
}

std::vector<std::ptrdiff_t> row_major(const std::vector<std::size_t> &shape)
{
    std::vector<std::ptrdiff_t> s(shape.size());
    std::ptrdiff_t n = 1;
    for (std::size_t i = shape.size(); i-- > 0;) {
        s[i] = n;
        n *= static_cast<std::ptrdiff_t>(shape[i]);
    }
    return s;
}

Data_type any_type(Case &c)
{
    return static_cast<Data_type>(c.draw(11));
}

std::string any_name(Case &c)
{
    static const std::vector<std::string> names{"",  "a", "A", "b", "ab", "ba", "a b", "\xC3\xA4",
                                                "a ", "label_a", "values", "'", "{}", "{0}"};
    if (c.chance(1, 5)) {
        return std::string(1, 'a') + std::string(1, '\0') + std::string(c.draw(1), 'b');
    }
    return c.pick(names);
}

// Small domains, such that equal and almost equal attributes are common.
Attr any_attr(Case &c)
{
    Attr a;
    a.name = any_name(c);
    a.type = c.flag() ? Data_type::int32 : any_type(c);
    std::size_t rank = c.weighted({1, 3, 3, 2, 1});
    for (std::size_t i = 0; i < rank; i++) {
        a.shape.push_back(c.weighted({1, 3, 3, 2}));
    }
    a.default_strides = c.chance(2, 3) || rank == 0;
    if (a.default_strides) {
        a.strides = row_major(a.shape);
    }
    else if (c.chance(1, 3)) {
        a.strides = row_major(a.shape);
    }
    else {
        for (std::size_t i = 0; i < rank; i++) {
            a.strides.push_back(c.irange(-1, 6));
        }
    }
    a.sparse = c.chance(1, 3);
    return a;
}

// Changes one part of an attribute.
Attr changed(Case &c, Attr a)
{
    switch (c.draw(4)) {
    case 0:
        a.name = any_name(c);
        break;
    case 1:
        a.type = any_type(c);
        break;
    case 2:
        a.sparse = !a.sparse;
        break;
    case 3:
        if (!a.strides.empty()) {
            a.strides[c.draw(a.strides.size() - 1)] += c.irange(-1, 1);
            a.default_strides = false;
        }
        break;
    default:
        if (!a.shape.empty()) {
            a.shape[c.draw(a.shape.size() - 1)] = c.draw(3);
            if (a.default_strides) {
                a.strides = row_major(a.shape);
            }
        }
        else {
            a.shape.push_back(1);
            a.strides.assign(1, 1);
        }
        break;
    }
    return a;
}

Attribute make(const Attr &a)
{
    return Attribute{a.name, a.type, Size_vector(a.shape.begin(), a.shape.end()),
                     a.default_strides ? Ssize_vector{} :
                                         Ssize_vector(a.strides.begin(), a.strides.end()),
                     a.sparse};
}

std::string commas(const std::string &list)
{
    std::string s;
    for (char ch : list.substr(1, list.size() - 2)) {
        s += ch;
        if (ch == ',') {
            s += ' ';
        }
    }
    return s;
}

std::string repr_of(const Attr &a)
{
    return "<Attribute name='" + a.name + "' data_type='" + type_name(a.type) + "' shape=(" +
           commas(join(a.shape)) + ") strides=(" + commas(join(a.strides)) + ") sparse='" +
           (a.sparse ? "true" : "false") + "'>";
}

void check_parts(const Attribute &x, const Attr &a)
{
    ENSURE(x.name() == a.name && x.data_type() == a.type && x.sparse() == a.sparse &&
               std::vector<std::size_t>(x.shape().begin(), x.shape().end()) == a.shape &&
               std::vector<std::ptrdiff_t>(x.strides().begin(), x.strides().end()) == a.strides,
           "the parts of ", show(a), " are ", x.repr());
}

}  // namespace

PBT_TEST(C20, attributes)
{
    Attr a = any_attr(c);
    Attr b = c.chance(1, 4) ? any_attr(c) : c.chance(1, 3) ? a : changed(c, a);
    c.desc(show(a), " ", show(b));
    Attribute x = make(a);
    Attribute y = make(b);
    check_parts(x, a);
    check_parts(y, b);
    ENSURE((x == y) == (a == b), show(a), " == ", show(b), " is ", x == y);
    ENSURE((x != y) == !(a == b), show(a), " != ", show(b), " is ", x != y);
    ENSURE((y == x) == (a == b) && x == x && y == y, "equality is not an equivalence");
    if (a == b) {
        ENSURE(std::hash<Attribute>{}(x) == std::hash<Attribute>{}(y), "the hashes differ");
    }
    Attribute copy = x;
    Attribute moved = std::move(copy);
    ENSURE(moved == x && std::hash<Attribute>{}(moved) == std::hash<Attribute>{}(x),
           "a copy differs");
    ENSURE(x.repr() == repr_of(a), x.repr(), " instead of ", repr_of(a));
    std::ostringstream o;
    o << x;
    ENSURE(o.str() == x.repr(), "operator<<");

    // Another number of strides than dimensions
    Ssize_vector wrong(a.shape.size() + 1 + c.draw(1), 1);
    if (a.shape.size() > 1 && c.flag()) {
        wrong.resize(a.shape.size() - 1);
    }
    auto kind = kind_of_error([&] {
        Attribute{a.name, a.type, Size_vector(a.shape.begin(), a.shape.end()), wrong, a.sparse};
    });
    ENSURE(kind == "invalid_argument", wrong.size(), " strides for ", a.shape.size(),
           " dimensions: '", kind, "'");
    c.nontrivial(!(a == b) || a.shape.size() > 1);
}

PBT_TEST(C20, schemas)
{
    auto any_list = [&] {
        std::vector<Attr> v;
        std::size_t n = c.chance(1, 10) ? c.draw(60) : c.size(6);
        for (std::size_t i = 0; i < n; i++) {
            v.push_back(any_attr(c));
            if (c.chance(7, 8)) {
                v.back().name += std::to_string(i);
            }
        }
        return v;
    };
    std::vector<Attr> a = any_list();
    std::vector<Attr> b = a;
    switch (c.weighted({2, 2, 2, 1, 1, 1})) {
    case 0:
        break;
    case 1:
        if (!b.empty()) {
            auto i = c.draw(b.size() - 1);
            b[i] = changed(c, b[i]);
        }
        break;
    case 2:
        if (b.size() > 1) {
            std::swap(b[c.draw(b.size() - 1)], b[c.draw(b.size() - 1)]);
        }
        break;
    case 3:
        if (!b.empty()) {
            b.pop_back();
        }
        break;
    case 4: {
        Attr n = any_attr(c);
        n.name += "new";
        b.push_back(n);
        break;
    }
    default:
        b = any_list();
        break;
    }
    std::string what;
    for (auto &x : a) {
        what += show(x) + " ";
    }
    what += "\n";
    for (auto &x : b) {
        what += show(x) + " ";
    }
    c.desc(what);
    auto build = [&](const std::vector<Attr> &v) -> Intrusive_ptr<Schema> {
        std::set<std::string> names;
        std::string twice;
        bool unique = true;
        std::vector<Attribute> attrs;
        for (auto &x : v) {
            if (!names.insert(x.name).second && unique) {
                unique = false;
                twice = x.name;
            }
            attrs.push_back(make(x));
        }
        Intrusive_ptr<Schema> s;
        std::string message;
        auto kind = kind_of_error([&] { s = make_intrusive<Schema>(attrs); }, &message);
        if (!unique) {
            ENSURE(kind == "invalid_argument", "duplicate names: '", kind, "'");
            ENSURE(message.find("'" + std::string{twice.c_str()}) != std::string::npos,
                   "the message does not name the duplicate ", twice, ": ", message);
            return {};
        }
        ENSURE(kind.empty(), "a schema is rejected with '", kind, "'");
        ENSURE(s->attributes().size() == v.size(), "the number of attributes");
        std::string repr;
        for (std::size_t i = 0; i < v.size(); i++) {
            check_parts(s->attributes()[i], v[i]);
            auto at = s->get_index(v[i].name);
            ENSURE(at && *at == i, v[i].name, " is found at ", at ? *at : SIZE_MAX, " instead of ",
                   i);
            repr += (i > 0 ? ", " : "") + repr_of(v[i]);
        }
        for (int i = 0; i < 4; i++) {
            std::string other = any_name(c) + (c.flag() ? std::to_string(c.draw(7)) : "");
            if (names.count(other) == 0) {
                ENSURE(!s->get_index(other), "the name '", other, "' is found");
            }
        }
        ENSURE(s->repr() == "<Schema attributes={" + repr + "}>", "repr: ", s->repr());
        return s;
    };
    auto x = build(a);
    auto y = build(b);
    if (x && y) {
        ENSURE((*x == *y) == (a == b), "schemas compare ", *x == *y);
        ENSURE((*x != *y) == !(a == b), "schemas compare unequal ", *x != *y);
        ENSURE((*y == *x) == (a == b), "equality is not symmetric");
        if (a == b) {
            ENSURE(std::hash<Schema>{}(*x) == std::hash<Schema>{}(*y), "the hashes differ");
        }
    }
    c.nontrivial(a.size() > 1);
}

PBT_TEST(C20, examples)
{
    std::size_t n = c.size(c.chance(1, 8) ? 80 : 6);
    std::vector<Attribute> attrs;
    std::vector<std::string> names;
    std::vector<Intrusive_ptr<Tensor>> features;
    for (std::size_t i = 0; i < n; i++) {
        names.push_back(any_name(c) + std::to_string(i));
        attrs.emplace_back(names[i], Data_type::int32, Size_vector{2});
        features.push_back(
            make_intrusive<Dense_tensor>(Size_vector{2}, make_cpu_array(Data_type::int32, 2)));
    }
    auto schema = make_intrusive<Schema>(attrs);
    auto given = features;
    std::size_t wrong = c.weighted({4, 1, 1});
    if (wrong == 1) {
        given.push_back(features.empty() ? Intrusive_ptr<Tensor>{} : features[0]);
    }
    if (wrong == 2 && n > 0) {
        given.pop_back();
    }
    std::size_t k = given.size();
    c.desc(n, " attributes, ", k, " features");
    Intrusive_ptr<Example> e;
    auto kind = kind_of_error([&] { e = make_intrusive<Example>(schema, std::move(given)); });
    if (k != n) {
        ENSURE(kind == "invalid_argument", "an example with ", k, " features for ", n,
               " attributes: '", kind, "'");
        c.nontrivial();
        return;
    }
    ENSURE(kind.empty(), "an example is rejected with '", kind, "'");
    ENSURE(&e->schema() == schema.get() && e->padding == 0, "schema and padding of an example");
    ENSURE(e->features() == features, "the features of an example");
    for (std::size_t i = 0; i < n; i++) {
        ENSURE(e->find_feature(names[i]) == features[i], "another feature than ", names[i]);
    }
    for (int i = 0; i < 4; i++) {
        std::string other = any_name(c) + (c.flag() ? std::to_string(c.draw(7)) : "");
        if (std::find(names.begin(), names.end(), other) == names.end()) {
            ENSURE(!e->find_feature(other), "a feature for the name '", other, "'");
        }
    }
    e->padding = c.draw(5);
    std::string s = e->repr();
    std::size_t at = 0;
    for (auto &x : names) {
        at = s.find("'" + x + "': ", at);
        ENSURE(at != std::string::npos, "repr without ", x, ": ", s);
    }
    ENSURE(s.find("padding=" + std::to_string(e->padding)) != std::string::npos, "repr: ", s);
    // The schema and the features live as long as the example.
    schema = nullptr;
    features.clear();
    ENSURE(e->schema().attributes().size() == n, "the schema has changed");
    c.nontrivial(n > 1);
}

// The examples of a reader have the form that their schema states.
PBT_TEST_W(C20, examples_of_readers, 0.7)
{
    Numbered n = any_numbered(c, 30);
    Data_reader_params p;
    p.batch_size = 1 + c.size(8);
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    any_parallelism(c, p);
    n.fill(c, p);
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling));
    auto reader = n.make(p);
    std::size_t examples = 0;
    Intrusive_ptr<Example> e;
    for (; (e = reader->read_example()) != nullptr; examples++) {
        to_ex(*e);  // checks the types
        const auto &attrs = e->schema().attributes();
        ENSURE(attrs.size() == e->features().size(), "the number of features");
        std::size_t rows = SIZE_MAX;
        for (std::size_t i = 0; i < attrs.size(); i++) {
            const Tensor &t = *e->features()[i];
            const auto &as = attrs[i].shape();
            const auto &ts = t.shape();
            ENSURE(as.size() == ts.size() && !ts.empty() &&
                       std::equal(as.begin() + 1, as.end(), ts.begin() + 1),
                   "feature ", attrs[i].name(), " has the shape ", t.repr(), ", the schema ",
                   attrs[i].repr());
            ENSURE(as[0] == p.batch_size, "the schema has a batch size of ", as[0]);
            ENSURE(ts[0] > 0 && ts[0] <= p.batch_size, "an example of ", ts[0], " rows");
            ENSURE(rows == SIZE_MAX || rows == ts[0], "features with different numbers of rows");
            rows = ts[0];
            if (!attrs[i].sparse()) {
                ENSURE(attrs[i].strides() == t.strides(), "feature ", attrs[i].name(),
                       " has the strides of ", t.repr(), ", the schema ", attrs[i].repr());
            }
            ENSURE(e->find_feature(attrs[i].name()) == e->features()[i], "another feature than ",
                   attrs[i].name());
        }
        ENSURE(rows == SIZE_MAX || e->padding < rows || e->padding == 0, "padding ", e->padding,
               " of ", rows);
    }
    c.nontrivial(examples > 1);
}

PBT_TEST_W(C20, devices, 0.1)
{
    auto any = [&](std::size_t &id) {
        id = c.draw(2);
        return Device{Device_kind::cpu(), id};
    };
    std::size_t i{};
    std::size_t j{};
    Device a = any(i);
    Device b = any(j);
    c.desc(i, " ", j);
    ENSURE((a == b) == (i == j) && (a != b) == (i != j), "devices ", i, " and ", j);
    if (i == j) {
        ENSURE(std::hash<Device>{}(a) == std::hash<Device>{}(b), "hashes");
    }
    ENSURE(a.id() == i && a.kind() == Device_kind::cpu(), "parts");
    c.nontrivial(i != j);
}
