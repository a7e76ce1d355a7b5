// C05: skip, limit, shard and sample select the documented instances.
// C06: shuffling permutes the selected instances, by seed and window.
#include <algorithm>
#include <cmath>

#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

struct Selection {
    std::size_t skip{};
    std::optional<std::size_t> limit;
    std::size_t shards{};
    std::size_t shard{};
    std::optional<float> ratio;

    void apply(Data_reader_params &p) const
    {
        p.num_instances_to_skip = skip;
        p.num_instances_to_read = limit;
        p.num_shards = shards;
        p.shard_index = shard;
        p.sample_ratio = ratio;
    }

    std::vector<std::size_t> range(std::size_t total) const
    {
        std::size_t lo = std::min(skip, total);
        std::size_t hi = limit ? lo + std::min(*limit, total - lo) : total;
        return iota(lo, hi);
    }

    std::string show() const
    {
        std::ostringstream o;
        o << " skip=" << skip;
        if (limit) {
            o << " limit=" << *limit;
        }
        if (shards != 0) {
            o << " shard=" << shard << "/" << shards;
        }
        if (ratio) {
            o << " ratio=" << *ratio;
        }
        return o.str();
    }
};

std::size_t around(Case &c, std::size_t total)
{
    switch (c.weighted({3, 2, 1})) {
    case 0:
        return c.draw(total);
    case 1:
        return c.size(4);
    default:
        return total + c.draw(2);
    }
}

Selection any_selection(Case &c, std::size_t total, bool sample)
{
    Selection s;
    if (c.flag()) {
        s.skip = around(c, total);
    }
    if (c.flag()) {
        s.limit = around(c, total);
    }
    if (c.flag()) {
        s.shards = c.chance(1, 6) ? around(c, total) : c.draw(6);
        s.shard = s.shards > 1 ? c.draw(s.shards - 1) : c.draw(1);
    }
    if (sample && c.flag()) {
        s.ratio = c.flag() ? static_cast<float>(c.range(1, 99)) / 100.0F
                           : static_cast<float>(c.range(1, 9999)) / 10000.0F;
    }
    return s;
}

// The instances that a fresh reader delivers.
std::vector<std::size_t> read_ids(const Numbered &n, const Data_reader_params &p)
{
    auto reader = n.make(p);
    Epoch e = read_epoch(*reader);
    ENSURE(!e.failed, "reading failed: ", e.error);
    return epoch_ids(n, e);
}

void check_sample(const std::vector<std::size_t> &got, const std::vector<std::size_t> &base,
                  float ratio)
{
    // Where the delivered instances are in the base; must be increasing.
    std::size_t at = 0;
    std::vector<std::size_t> per_block((base.size() + 99) / 100);
    for (std::size_t id : got) {
        while (at < base.size() && base[at] != id) {
            at++;
        }
        ENSURE(at < base.size(), "instance ", id, " is repeated, out of order or not selected: ",
               show_ids(got), " of ", show_ids(base));
        per_block[at / 100]++;
        at++;
    }
    for (std::size_t b = 0; b < per_block.size(); b++) {
        std::size_t size = std::min<std::size_t>(100, base.size() - 100 * b);
        double want = static_cast<double>(ratio) * static_cast<double>(size);
        auto have = static_cast<double>(per_block[b]);
        ENSURE(std::fabs(have - want) < 1.0, "block ", b, " of ", size, " instances contributes ",
               per_block[b], " instead of about ", want);
    }
}

Numbered any_data(Case &c)
{
    Numbered n = any_numbered(c, c.chance(1, 3) ? 330 : 40);
    if (c.chance(1, 4)) {  // mostly the plain format, for speed
        n.format = Format::text;
    }
    for (auto s : n.store_sizes) {
        n.total += s;
    }
    return n;
}

}  // namespace

PBT_TEST_W(C05, selection, 3.0)
{
    Numbered n = any_data(c);
    Data_reader_params p;
    n.fill(c, p, c.chance(1, 4));
    Selection s = any_selection(c, n.total, true);
    s.apply(p);
    p.batch_size = 1 + c.size(9);
    any_parallelism(c, p);
    c.desc(n.show(), s.show(), " batch=", p.batch_size);
    auto range = s.range(n.total);
    c.nontrivial(!range.empty() && (range.size() < n.total || s.shards > 1 || s.ratio));

    // The base of the sample: the same without sampling.
    std::vector<std::size_t> base = range;
    if (s.shards > 1) {
        Data_reader_params q = p;
        q.sample_ratio = {};
        base = read_ids(n, q);
        ENSURE(std::is_sorted(base.begin(), base.end()), "a shard is not in order: ", show_ids(base));
        ENSURE(std::includes(range.begin(), range.end(), base.begin(), base.end()),
               "a shard is not within the range: ", show_ids(base));
        std::size_t lo = range.size() / s.shards;
        ENSURE(base.size() == lo || base.size() == lo + 1, "shard ", s.shard, " of ", s.shards,
               " has ", base.size(), " of ", range.size(), " instances");
    }

    auto reader = n.make(p);
    std::vector<std::size_t> first;
    std::size_t epochs = 1 + c.weighted({2, 2, 1});
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            reader->reset();
            if (c.chance(1, 3)) {  // an epoch that is interrupted
                read_epoch(*reader, c.size(3));
                reader->reset();
            }
        }
        Epoch e = read_epoch(*reader);
        ENSURE(!e.failed, "reading failed: ", e.error);
        auto got = epoch_ids(n, e);
        if (s.ratio) {
            check_sample(got, base, *s.ratio);
            c.tag("sampled");
        }
        else {
            check_ids(got, base);
        }
        if (ep == 0) {
            first = got;
        }
        else {
            check_ids(got, first, "the instances of a later epoch");
        }
    }
}

PBT_TEST(C05, shards_partition)
{
    Numbered n = any_data(c);
    Data_reader_params p;
    n.fill(c, p, false);
    Selection s = any_selection(c, n.total, false);
    s.shards = c.chance(1, 5) ? 2 + c.draw(n.total + 2) : 2 + c.draw(8);
    if (s.shards > 60) {
        s.shards = 60;
    }
    s.apply(p);
    p.batch_size = 1 + c.size(30);
    any_parallelism(c, p);
    auto range = s.range(n.total);
    c.desc(n.show(), s.show(), " batch=", p.batch_size, " all shards");
    c.nontrivial(range.size() >= s.shards);

    std::vector<std::size_t> all;
    std::size_t least = SIZE_MAX, most = 0;
    for (std::size_t i = 0; i < s.shards; i++) {
        p.shard_index = i;
        auto got = read_ids(n, p);
        ENSURE(std::is_sorted(got.begin(), got.end()), "shard ", i, " is not in order: ", show_ids(got));
        least = std::min(least, got.size());
        most = std::max(most, got.size());
        all.insert(all.end(), got.begin(), got.end());
    }
    std::sort(all.begin(), all.end());
    check_ids(all, range, "the instances of all shards together");
    ENSURE(most - least <= 1, "the shards have between ", least, " and ", most, " instances");
}

PBT_TEST_W(C05, bad_settings_refused, 0.05)
{
    Numbered n = any_numbered(c, 4);
    Data_reader_params p;
    n.fill(c, p);
    p.batch_size = 1;
    const char *what = "";
    if (c.flag()) {
        p.num_shards = 2 + c.size(20);
        p.shard_index = p.num_shards + c.size(20);
        what = "shard index out of range";
    }
    else {
        p.sample_ratio = c.pick<float>({0.0F, 1.0F, -0.5F, 1.5F, -1e30F, 1e30F});
        what = "sample ratio out of range";
    }
    c.desc(what, " shard=", p.shard_index, "/", p.num_shards, " ratio=", p.sample_ratio.value_or(-7));
    c.nontrivial();
    auto k = kind_of_error([&] {
        n.make(p);
    });
    ENSURE(k == "invalid_argument", what, " gives ", k);
}

PBT_TEST(C06, shuffling)
{
    Numbered n = any_data(c);
    Data_reader_params p;
    n.fill(c, p, c.chance(1, 6));
    Selection s;
    if (c.chance(1, 3)) {
        s = any_selection(c, n.total, true);
    }
    s.apply(p);
    p.batch_size = 1 + c.size(20);
    any_parallelism(c, p);

    auto plain = read_ids(n, p);  // what is selected, without shuffling

    p.shuffle_instances = true;
    p.shuffle_window = c.pick<std::size_t>({0, 0, 1, 2, 3, 7}) ;
    if (c.chance(1, 3)) {
        p.shuffle_window = around(c, n.total);
    }
    if (c.chance(3, 4)) {
        p.shuffle_seed = c.bits64();
    }
    p.reshuffle_each_epoch = c.flag();
    std::size_t w = p.shuffle_window;
    std::size_t epochs = 1 + c.weighted({1, 3, 2});
    bool interrupt = c.chance(1, 3);
    c.desc(n.show(), s.show(), " batch=", p.batch_size, " window=", w, " seed=",
           p.shuffle_seed ? std::to_string(*p.shuffle_seed) : "none",
           " reshuffle=", p.reshuffle_each_epoch, " epochs=", epochs, " interrupt=", interrupt);
    c.nontrivial(plain.size() >= 3 && w != 1 && epochs > 1);
    c.tag(w == 0 ? "whole" : w == 1 ? "window of one" : w < plain.size() ? "window" : "large window");

    std::vector<std::size_t> position(n.total, SIZE_MAX);
    for (std::size_t i = 0; i < plain.size(); i++) {
        position[plain[i]] = i;
    }
    auto sorted = plain;
    std::sort(sorted.begin(), sorted.end());

    auto a = n.make(p);
    auto b = n.make(p);
    std::vector<std::size_t> first;
    bool varied = false;
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            a->reset();
            b->reset();
            if (interrupt && c.flag()) {
                read_epoch(*a, c.size(4));
                a->reset();
                varied = true;  // the generator has advanced by an unknown amount
            }
        }
        Epoch ea = read_epoch(*a);
        Epoch eb = read_epoch(*b);
        ENSURE(!ea.failed && !eb.failed, "reading failed: ", ea.error, eb.error);
        auto ga = epoch_ids(n, ea);
        auto gb = epoch_ids(n, eb);
        for (auto *g : {&ga, &gb}) {
            auto t = *g;
            std::sort(t.begin(), t.end());
            check_ids(t, sorted, "the instances of a shuffled epoch, sorted,");
            if (w != 0) {
                for (std::size_t i = 0; i < g->size(); i++) {
                    std::size_t from = position[(*g)[i]];
                    ENSURE(from <= i + w - 1, "instance ", (*g)[i], " was moved from position ", from,
                           " to ", i, " with the window ", w);
                }
            }
        }
        if (w == 1) {
            check_ids(ga, plain, "the order with a window of one");
        }
        if (p.shuffle_seed && !(p.reshuffle_each_epoch && varied)) {
            check_ids(ga, gb, "the orders of two equal readers");
        }
        bool long_enough = w == 0 ? plain.size() >= 25 : w > 1 && plain.size() >= w + 70;
        if (long_enough) {
            c.tag("order must change");
            ENSURE(ga != plain, "the order has not changed: ", show_ids(ga));
        }
        if (ep == 0) {
            first = ga;
        }
        else if (!p.reshuffle_each_epoch) {
            check_ids(ga, first, "without reshuffling, the order of a later epoch");
        }
        else if (long_enough) {
            ENSURE(ga != first, "not reshuffled: ", show_ids(ga));
        }
    }
    if (p.shuffle_seed && plain.size() >= 25 && w == 0) {
        p.shuffle_seed = *p.shuffle_seed + 1;
        ENSURE(read_ids(n, p) != first, "another seed gives the same order: ", show_ids(first));
    }
}

// Every order that the window allows does occur. The orders of this many epochs are all but
// certain to include each of them: the rarest has the probability 1/24.
PBT_TEST_W(C06, every_order, 0.02)
{
    std::size_t n = 2 + c.draw(2);
    Data_reader_params p;
    p.batch_size = n;
    p.shuffle_instances = true;
    p.shuffle_window = c.chance(1, 3) ? 0 : 2 + c.draw(n);
    std::size_t w = p.shuffle_window == 0 ? n : std::min(n, p.shuffle_window);
    p.reshuffle_each_epoch = c.flag();
    if (c.flag()) {
        p.shuffle_seed = c.bits64();
    }
    bool one_reader = p.reshuffle_each_epoch && c.chance(2, 3);
    // Selected instances are shuffled, and not those around them.
    std::size_t skip = c.draw(2), more = c.draw(2);
    p.num_instances_to_skip = skip;
    p.num_instances_to_read = n;
    std::string text;
    for (std::size_t i = 0; i < skip + n + more; i++) {
        text += static_cast<char>('a' + i);
        text += "\n";
    }
    p.dataset = {make_store(c, text, Delivery::memory)};
    c.desc("n=", n, " window=", p.shuffle_window, " skip=", skip, " more=", more,
           one_reader ? " epochs" : " readers", p.shuffle_seed ? " seeded" : "");
    c.nontrivial(true);

    std::string all = text.substr(2 * skip, 2 * n);
    all.erase(std::remove(all.begin(), all.end(), '\n'), all.end());
    std::set<std::string> want, got;
    std::string order = all;
    do {
        bool possible = true;
        for (std::size_t i = 0; i < n; i++) {
            possible &= all.find(order[i]) <= i + w - 1;
        }
        if (possible) {
            want.insert(order);
        }
    } while (std::next_permutation(order.begin(), order.end()));

    Intrusive_ptr<Data_reader> reader;
    constexpr std::size_t epochs = 1200;
    for (std::size_t i = 0; i < epochs && got.size() < want.size(); i++) {
        if (!reader || !one_reader) {
            if (p.shuffle_seed && i > 0) {
                p.shuffle_seed = c.rng()();
            }
            reader = make_intrusive<Text_line_reader>(p);
        }
        else {
            reader->reset();
        }
        Epoch e = read_epoch(*reader);
        ENSURE(!e.failed, e.error);
        std::string s;
        for (const Row &r : rows_of(e.examples)) {
            s += r.at(0);
        }
        ENSURE(want.count(s) != 0, "the order ", quote(s), " is not possible");
        got.insert(s);
    }
    for (const auto &s : want) {
        ENSURE(got.count(s) != 0, "in ", epochs, " shuffles of ", quote(all), " only ", got.size(), " of ",
               want.size(), " orders occur; ", quote(s), " does not");
    }
}
