// C11: RecordIO framing round-trips and corruption is detected.
#include <mlio/parallel_data_reader.h>
#include <mlio/record_readers/record_reader.h>

#include "csv_model.h"
#include "encode.h"

#if __has_include("mlio/record_readers/recordio_record_reader.h")
#include "mlio/record_readers/recordio_record_reader.h"

using namespace mlio;
using namespace pbt;

namespace {

// A reader that returns the payloads of the records as strings.
class Payload_reader final : public Parallel_data_reader {
public:
    explicit Payload_reader(Data_reader_params p) : Parallel_data_reader{std::move(p)} {}

    ~Payload_reader() final
    {
        stop();
    }

private:
    Intrusive_ptr<Record_reader> make_record_reader(const Data_store &store) final
    {
        return make_intrusive<detail::Recordio_record_reader>(store.open_read());
    }

    Intrusive_ptr<const Schema> infer_schema(const std::optional<Instance> &) final
    {
        std::vector<Attribute> attrs{};
        attrs.emplace_back("payload", Data_type::string, Size_vector{params().batch_size, 1});
        return make_intrusive<Schema>(std::move(attrs));
    }

    Intrusive_ptr<Example> decode(const Instance_batch &batch) const final
    {
        auto arr = make_cpu_array(Data_type::string, batch.size());
        auto *s = static_cast<std::string *>(arr->data());
        std::size_t n = 0;
        for (const Instance &i : batch.instances()) {
            auto bits = i.bits();
            s[n++] = std::string{reinterpret_cast<const char *>(bits.data()), bits.size()};
        }
        std::vector<Intrusive_ptr<Tensor>> t{};
        t.emplace_back(
            make_intrusive<Dense_tensor>(Size_vector{batch.size(), 1}, std::move(arr)));
        auto e = make_intrusive<Example>(schema(), std::move(t));
        e->padding = batch.size() - n;
        return e;
    }
};

std::string payload(Case &c)
{
    std::string s;
    std::size_t parts = c.size(4);
    for (std::size_t i = 0; i < parts; i++) {
        switch (c.weighted({4, 3, 2, 1, 1})) {
        case 0:
            s += std::string(1 + c.draw(9), static_cast<char>('a' + c.draw(25)));
            break;
        case 1:
            // The magic number, aligned or not.
            put_u32(s, recordio_magic);
            break;
        case 2:
            // A whole record.
            put_u32(s, recordio_magic);
            put_u32(s, static_cast<std::uint32_t>(c.draw(3) << 29 | c.draw(12)));
            break;
        case 3: {
            auto rng = c.rng();
            std::size_t n = c.draw(300);
            for (std::size_t k = 0; k < n; k++) {
                s += static_cast<char>(rng());
            }
            break;
        }
        default:
            s += std::string(c.draw(7), '\0');
            break;
        }
    }
    return s;
}

// One record of a stream.
struct Piece {
    std::string bytes;
    unsigned kind{};
    std::size_t owner{};  // the payload it belongs to
};

// Splits a payload into records.
void split(Case &c, const std::string &s, std::size_t owner, std::vector<Piece> &out)
{
    if (!c.chance(1, 3)) {
        out.push_back({s, 0, owner});
        return;
    }
    std::size_t middles = c.size(4);
    std::size_t pos = 0;
    for (std::size_t i = 0; i < middles + 2; i++) {
        std::size_t n = i == middles + 1 ? s.size() - pos : c.draw(s.size() - pos);
        out.push_back({s.substr(pos, n), i == 0 ? 1U : i <= middles ? 2U : 3U, owner});
        pos += n;
    }
}

std::string show(const std::vector<Piece> &pieces)
{
    std::ostringstream o;
    for (const Piece &p : pieces) {
        o << p.kind << ":" << quote(p.bytes, 40) << " ";
    }
    return o.str();
}

std::string write(const std::vector<Piece> &pieces)
{
    std::string s;
    for (const Piece &p : pieces) {
        put_record(s, p.bytes, p.kind);
    }
    return s;
}

Rows as_rows(const std::vector<std::string> &payloads)
{
    Rows out;
    for (const auto &p : payloads) {
        out.push_back(Row{value_at(Data_type::string, &p, 0)});
    }
    return out;
}

void check_failure(const Epoch &e, std::vector<std::string> good, Data_reader &r)
{
    ENSURE(e.failed, "no error, and ", rows_of(e.examples).size(), " payloads");
    ENSURE(e.error_kind == "data_reader", "error is ", e.error_kind, ": ", e.error);
    Rows got = rows_of(e.examples);
    ENSURE(got.size() <= good.size(), "read ", got.size(), " payloads where ", good.size(),
           " are intact");
    good.resize(got.size());
    check_rows(got, as_rows(good));
    ENSURE(!kind_of_error([&] { r.read_example(); }).empty(), "reads on after the error");
}

}  // namespace

PBT_TEST_W(C11, round_trip, 2.0)
{
    std::size_t stores = 1 + c.size(3);
    std::vector<std::string> want;
    Data_reader_params p;
    std::string d;
    std::size_t splits = 0;
    any_buffer_sizes(c);
    for (std::size_t s = 0; s < stores; s++) {
        std::vector<Piece> pieces;
        std::size_t n = c.size(10);
        for (std::size_t i = 0; i < n; i++) {
            std::string pl = payload(c);
            std::size_t before = pieces.size();
            split(c, pl, want.size(), pieces);
            splits += pieces.size() - before - 1;
            want.push_back(pl);
        }
        auto how = any_delivery(c);
        d += " | " + std::string{name_of(how)} + " " + show(pieces);
        p.dataset.push_back(make_store(c, write(pieces), how));
    }
    p.batch_size = 1 + c.size(5);
    any_parallelism(c, p);
    c.desc("batch=", p.batch_size, d);
    c.nontrivial(want.size() > 1 && splits != 0);
    Payload_reader r{p};
    for (int epoch = 0; epoch < 2; epoch++) {
        Epoch e = read_epoch(r);
        ENSURE(!e.failed, e.error);
        check_rows(rows_of(e.examples), as_rows(want));
        r.reset();
    }
}

// Records of any kinds in any order: only complete records and whole begin,
// middle, end sequences are payloads, and the first violation is an error.
PBT_TEST_W(C11, kinds, 2.0)
{
    std::size_t n = 1 + c.size(12);
    std::vector<Piece> pieces;
    // Mostly legal, so that violations are met deep inside.
    bool open = false;
    for (std::size_t i = 0; i < n; i++) {
        unsigned kind;
        if (c.chance(1, 8)) {
            kind = static_cast<unsigned>(c.draw(7));
        }
        else if (open) {
            kind = c.flag() ? 2 : 3;
        }
        else {
            kind = c.flag() ? 0 : 1;
        }
        open = kind == 1 || kind == 2;
        pieces.push_back({std::to_string(i) + payload(c), kind, i});
    }
    std::vector<std::string> good;
    std::optional<std::string> part;
    bool bad = false;
    for (const Piece &q : pieces) {
        if (q.kind == 0 && !part) {
            good.push_back(q.bytes);
        }
        else if (q.kind == 1 && !part) {
            part = q.bytes;
        }
        else if (q.kind == 2 && part) {
            *part += q.bytes;
        }
        else if (q.kind == 3 && part) {
            good.push_back(*part + q.bytes);
            part.reset();
        }
        else {
            bad = true;
            break;
        }
    }
    bad = bad || part.has_value();
    any_buffer_sizes(c);
    Data_reader_params p;
    auto how = any_delivery(c);
    p.dataset = {make_store(c, write(pieces), how)};
    // What follows must not complete an open sequence.
    if (bad && c.flag()) {
        std::string s;
        put_record(s, "other", 0);
        p.dataset.push_back(make_store(c, s, any_delivery(c)));
    }
    p.batch_size = 1 + c.draw(1);
    any_parallelism(c, p);
    c.desc(name_of(how), " batch=", p.batch_size, " ", show(pieces));
    c.nontrivial(n > 1 && pieces.back().kind != 0);
    Payload_reader r{p};
    for (int epoch = 0; epoch < 2; epoch++) {
        Epoch e = read_epoch(r);
        if (bad) {
            c.tag("bad");
            check_failure(e, good, r);
        }
        else {
            ENSURE(!e.failed, e.error);
            check_rows(rows_of(e.examples), as_rows(good));
        }
        r.reset();
    }
}

// A stream that ends early, or whose magic number is damaged somewhere.
PBT_TEST_W(C11, damage, 2.0)
{
    std::size_t n = 1 + c.size(8);
    std::vector<std::string> payloads;
    std::vector<Piece> pieces;
    for (std::size_t i = 0; i < n; i++) {
        std::string pl = payload(c);
        split(c, pl, i, pieces);
        payloads.push_back(pl);
    }
    std::vector<std::size_t> starts;  // of the records, and the end
    std::string data;
    for (const Piece &q : pieces) {
        starts.push_back(data.size());
        put_record(data, q.bytes, q.kind);
    }
    starts.push_back(data.size());
    bool cut = c.flag();
    std::string what;
    std::size_t intact;    // records before the damage
    bool clean = false;    // the cut is between two payloads
    if (cut) {
        std::size_t at = c.draw(data.size() - 1);
        if (c.chance(1, 3)) {
            at = starts[c.draw(pieces.size() - 1)] + c.draw(10);
            at = std::min(at, data.size() - 1);
        }
        intact = 0;
        while (intact < pieces.size() && starts[intact + 1] <= at) {
            intact++;
        }
        clean = starts[intact] == at &&
                (intact == 0 || pieces[intact - 1].kind == 0 || pieces[intact - 1].kind == 3);
        data.resize(at);
        what = "cut at " + std::to_string(at);
    }
    else {
        intact = c.draw(pieces.size() - 1);
        std::size_t byte = c.draw(3);
        auto flip = static_cast<char>(1 + c.draw(254));
        data[starts[intact] + byte] = static_cast<char>(data[starts[intact] + byte] ^ flip);
        what = "magic of record " + std::to_string(intact) + " damaged";
    }
    std::vector<std::string> good;
    for (std::size_t i = 0; i < intact; i++) {
        if (pieces[i].kind == 0 || pieces[i].kind == 3) {
            good.push_back(payloads[pieces[i].owner]);
        }
    }
    any_buffer_sizes(c);
    Data_reader_params p;
    auto how = any_delivery(c);
    p.dataset = {make_store(c, data, how)};
    if (c.chance(1, 4)) {
        std::string s;
        put_record(s, "other", 0);
        p.dataset.push_back(make_store(c, s, any_delivery(c)));
        if (clean) {
            good.push_back("other");
        }
    }
    p.batch_size = 1 + c.draw(1);
    any_parallelism(c, p);
    c.desc(name_of(how), " ", what, " batch=", p.batch_size, " ", show(pieces));
    c.nontrivial(intact != 0);
    Payload_reader r{p};
    for (int epoch = 0; epoch < 2; epoch++) {
        Epoch e = read_epoch(r);
        if (clean) {
            c.tag("clean cut");
            ENSURE(!e.failed, e.error);
            check_rows(rows_of(e.examples), as_rows(good));
        }
        else {
            check_failure(e, good, r);
        }
        r.reset();
    }
}

#endif
