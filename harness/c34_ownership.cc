// C34: what is shared lives exactly as long as somebody uses it: objects, memory,
// streams, files.
#include <dirent.h>
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <unistd.h>

#include <atomic>
#include <list>
#include <thread>
#include <unordered_set>

#include "numbered.h"

#include <dlpack/dlpack.h>

#include <mlio/integ/dlpack.h>
#include <mlio/intrusive_ptr.h>
#include <mlio/intrusive_ref_counter.h>
#include <mlio/memory/file_backed_memory_allocator.h>
#include <mlio/memory/heap_memory_block.h>
#include <mlio/memory/memory_allocator.h>
#include <mlio/memory/memory_slice.h>
#include <mlio/streams/gzip_inflate_stream.h>
#include <mlio/streams/memory_input_stream.h>
#include <mlio/streams/utf8_input_stream.h>

using namespace mlio;
using namespace pbt;

// ---- pointers

namespace {

// What was done, for the description of the case and for messages.
struct Log {
    explicit Log(Case &of) : c{of}
    {}
    template<typename T>
    Log &operator<<(const T &v)
    {
        c.desc(v);
        return *this;
    }
    std::string str() const
    {
        return {};
    }
    Case &c;
};

constexpr std::size_t max_nodes = 64;
std::atomic<int> destroyed[max_nodes];

struct Node : public Intrusive_ref_counter<Node> {
    explicit Node(std::size_t i) : id{i}
    {}
    Node(const Node &) = delete;
    Node &operator=(const Node &) = delete;
    virtual ~Node()
    {
        destroyed[id]++;
    }

    std::size_t id;
    Intrusive_ptr<Node> next{};
};

struct Other {
    virtual ~Other() = default;
    std::uint64_t value = 0x1234567812345678U;
};

// Its Node does not begin where it itself begins.
struct Leaf final : public Other, public Node {
    explicit Leaf(std::size_t i) : Node{i}
    {}
    std::uint64_t more = 0x8765432187654321U;
};

// What the pointers should be: numbers of nodes, -1 for null.
struct Pointers {
    std::vector<int> slots;  // nodes
    std::vector<int> leaves;
    std::vector<int> consts;
    std::vector<int> next;   // of the nodes
    std::vector<bool> alive;
    std::vector<int> raw;    // references without a pointer

    std::size_t count(int id) const
    {
        std::size_t n = 0;
        for (auto *v : {&slots, &leaves, &consts, &raw}) {
            n += static_cast<std::size_t>(std::count(v->begin(), v->end(), id));
        }
        for (std::size_t i = 0; i < next.size(); i++) {
            n += alive[i] && next[i] == id;
        }
        return n;
    }
    // Those nobody refers to any more go, and what only they refer to.
    void collect()
    {
        for (bool again = true; again;) {
            again = false;
            for (std::size_t i = 0; i < alive.size(); i++) {
                if (alive[i] && count(static_cast<int>(i)) == 0) {
                    alive[i] = false;
                    next[i] = -1;
                    again = true;
                }
            }
        }
    }
};

template<typename T>
int id_of(const Intrusive_ptr<T> &p)
{
    return p ? static_cast<int>(p->id) : -1;
}

}  // namespace

PBT_TEST(C34, pointers)
{
    for (auto &d : destroyed) {
        d = 0;
    }
    constexpr std::size_t n_slots = 4;
    std::vector<Intrusive_ptr<Node>> slots(n_slots);
    std::vector<Intrusive_ptr<Leaf>> leaves(2);
    std::vector<Intrusive_ptr<const Node>> consts(2);
    std::vector<Node *> raw;
    std::vector<Node *> nodes;
    Pointers m;
    m.slots.assign(n_slots, -1);
    m.leaves.assign(2, -1);
    m.consts.assign(2, -1);
    Log log{c};

    auto check = [&] {
        m.collect();
        for (std::size_t i = 0; i < m.alive.size(); i++) {
            int d = destroyed[i];
            ENSURE(d == (m.alive[i] ? 0 : 1), "object ", i, " is destroyed ", d, " times, it is referred to ",
                   m.count(static_cast<int>(i)), " times", log.str());
        }
        for (std::size_t i = 0; i < m.alive.size(); i++) {
            if (m.alive[i]) {
                std::size_t want = m.count(static_cast<int>(i));
                ENSURE(nodes[i]->use_count() == want, "object ", i, " counts ", nodes[i]->use_count(),
                       " references, there are ", want, log.str());
                ENSURE(id_of(nodes[i]->next) == m.next[i], "the member of object ", i, " is ",
                       id_of(nodes[i]->next), ", not ", m.next[i], log.str());
            }
        }
        for (std::size_t i = 0; i < n_slots; i++) {
            ENSURE(id_of(slots[i]) == m.slots[i], "pointer ", i, " is ", id_of(slots[i]), ", not ", m.slots[i],
                   log.str());
        }
        for (std::size_t i = 0; i < 2; i++) {
            ENSURE(id_of(leaves[i]) == m.leaves[i], "leaf pointer ", i, log.str());
            ENSURE(!leaves[i] || (leaves[i]->value == 0x1234567812345678U &&
                                  leaves[i]->more == 0x8765432187654321U),
                   "leaf pointer ", i, " does not point to its object", log.str());
            ENSURE(id_of(consts[i]) == m.consts[i], "const pointer ", i, log.str());
        }
    };

    std::size_t n = 1 + c.size(30);
    c.nontrivial(n > 4);
    for (std::size_t k = 0; k < n; k++) {
        std::size_t i = c.draw(n_slots - 1);
        std::size_t j = c.draw(n_slots - 1);
        std::size_t l = c.draw(1);
        std::size_t op = c.draw(25);
        log << " " << op << "(" << i << "," << j << "," << l << ")";
        switch (op) {
        case 0:
        case 1: {
            std::size_t id = nodes.size();
            if (id == max_nodes) {
                break;
            }
            m.alive.push_back(true);
            m.next.push_back(-1);
            if (op == 0) {
                slots[i] = make_intrusive<Node>(id);
                nodes.push_back(slots[i].get());
                m.slots[i] = static_cast<int>(id);
            }
            else {
                leaves[l] = make_intrusive<Leaf>(id);
                nodes.push_back(leaves[l].get());
                m.leaves[l] = static_cast<int>(id);
            }
            break;
        }
        case 2:  // also to itself
            slots[i] = slots[j];
            m.slots[i] = m.slots[j];
            break;
        case 3:
            if (i != j) {
                slots[i] = std::move(slots[j]);
                m.slots[i] = m.slots[j];
                m.slots[j] = -1;
            }
            break;
        case 4:
            slots[i] = leaves[l];
            m.slots[i] = m.leaves[l];
            break;
        case 5:
            slots[i] = std::move(leaves[l]);
            m.slots[i] = m.leaves[l];
            m.leaves[l] = -1;
            break;
        case 6: {
            Intrusive_ptr<Node> p{leaves[l]};
            ENSURE(id_of(p) == m.leaves[l], "a converted pointer", log.str());
            Intrusive_ptr<Node> q{std::move(p)};
            ENSURE(!p && id_of(q) == m.leaves[l], "a moved pointer", log.str());
            Intrusive_ptr<const Node> r{std::move(q)};
            ENSURE(!q && id_of(r) == m.leaves[l], "a moved pointer", log.str());
            Intrusive_ptr<const Node> t = slots[i];
            ENSURE(id_of(t) == m.slots[i], "a converted pointer", log.str());
            break;
        }
        case 7:
            slots[i] = nullptr;
            m.slots[i] = -1;
            break;
        case 8:
            leaves[l] = nullptr;
            m.leaves[l] = -1;
            break;
        case 9:
            if (slots[i]) {
                int at = m.slots[i];
                slots[i]->next = slots[j];
                m.next[static_cast<std::size_t>(at)] = m.slots[j];
            }
            break;
        case 10:
            if (slots[i]) {
                int at = m.slots[i];
                if (i == j) {
                    // An object that holds itself.
                    Intrusive_ptr<Node> p{slots[i]};
                    slots[i]->next = std::move(p);
                    m.next[static_cast<std::size_t>(at)] = at;
                }
                else {
                    slots[i]->next = std::move(slots[j]);
                    m.next[static_cast<std::size_t>(at)] = m.slots[j];
                    m.slots[j] = -1;
                }
            }
            break;
        case 11:
            // Down a chain; the object that held the pointer may go.
            if (slots[j]) {
                int to = m.next[static_cast<std::size_t>(m.slots[j])];
                slots[i] = slots[j]->next;
                m.slots[i] = to;
            }
            break;
        case 12:
            if (slots[j]) {
                auto at = static_cast<std::size_t>(m.slots[j]);
                int to = m.next[at];
                slots[i] = std::move(slots[j]->next);
                m.slots[i] = to;
                m.next[at] = -1;
            }
            break;
        case 13:
            if (slots[i]) {
                auto at = static_cast<std::size_t>(m.slots[i]);
                slots[i]->next = nullptr;
                m.next[at] = -1;
            }
            break;
        case 14: {
            Node *p = slots[i].release();
            ENSURE(!slots[i], "a released pointer is not null", log.str());
            ENSURE((p ? static_cast<int>(p->id) : -1) == m.slots[i], "release()", log.str());
            if (p != nullptr) {
                raw.push_back(p);
                m.raw.push_back(m.slots[i]);
                m.slots[i] = -1;
            }
            break;
        }
        case 15:
            if (!raw.empty()) {
                slots[i] = wrap_intrusive(raw.back(), false);
                m.slots[i] = m.raw.back();
                raw.pop_back();
                m.raw.pop_back();
            }
            break;
        case 16:
            slots[i] = wrap_intrusive(slots[j].get());
            m.slots[i] = m.slots[j];
            break;
        case 17:
            using std::swap;
            swap(slots[i], slots[j]);
            std::swap(m.slots[i], m.slots[j]);
            break;
        case 18:
            consts[l] = slots[i];
            m.consts[l] = m.slots[i];
            break;
        case 19:
            consts[l] = std::move(slots[i]);
            m.consts[l] = m.slots[i];
            m.slots[i] = -1;
            break;
        case 20:
            consts[l] = consts[1 - l];
            m.consts[l] = m.consts[1 - l];
            break;
        case 21:
            leaves[l] = leaves[1 - l];
            m.leaves[l] = m.leaves[1 - l];
            break;
        case 22: {
            bool same = m.slots[i] == m.slots[j];
            ENSURE((slots[i] == slots[j]) == same && (slots[i] != slots[j]) == !same, "comparing pointers ",
                   i, " and ", j, log.str());
            bool null = m.slots[i] == -1;
            ENSURE((slots[i] == nullptr) == null && (nullptr == slots[i]) == null &&
                       (slots[i] != nullptr) == !null && (nullptr != slots[i]) == !null &&
                       static_cast<bool>(slots[i]) == !null,
                   "comparing pointer ", i, " to null", log.str());
            std::unordered_set<Intrusive_ptr<Node>> set{slots[i], slots[j]};
            ENSURE(set.size() == (same ? 1 : 2) && set.count(slots[i]) == 1, "a set of pointers", log.str());
            break;
        }
        case 23: {
            std::vector<Intrusive_ptr<Node>> copies(1 + c.draw(20), slots[i]);
            copies.insert(copies.begin() + static_cast<std::ptrdiff_t>(copies.size() / 2), slots[j]);
            copies.erase(copies.begin());
            break;
        }
        case 24: {
            // Copying an object does not copy who refers to it.
            struct Plain : public Intrusive_ref_counter<Plain> {
                explicit Plain(int w) : v{w}
                {}
                int v;
            };
            auto p = make_intrusive<Plain>(7);
            auto q = p;
            auto r = make_intrusive<Plain>(*p);
            ENSURE(r->use_count() == 1 && p->use_count() == 2, "copying an object", log.str());
            *r = *p;
            ENSURE(r->use_count() == 1 && p->use_count() == 2, "assigning an object", log.str());
            *r = std::move(*p);
            ENSURE(r->use_count() == 1 && p->use_count() == 2, "moving an object", log.str());
            break;
        }
        default: {
            // A pointer that goes out of scope.
            Intrusive_ptr<Node> p = slots[i];
            p = slots[j];
            if (c.flag()) {
                p = nullptr;
            }
            break;
        }
        }
        check();
    }
    // Cycles are broken before the end.
    for (std::size_t i = 0; i < nodes.size(); i++) {
        if (m.alive[i]) {
            Intrusive_ptr<Node> keep{nodes[i]};
            keep->next = nullptr;
            m.next[i] = -1;
        }
        m.collect();
    }
    check();
    slots.clear();
    leaves.clear();
    consts.clear();
    for (Node *p : raw) {
        wrap_intrusive(p, false);
    }
    for (std::size_t i = 0; i < nodes.size(); i++) {
        ENSURE(destroyed[i] == 1, "object ", i, " is destroyed ", destroyed[i].load(), " times at the end",
               log.str());
    }
}

// Pointers to the same objects in several threads.
PBT_TEST_W(C34, pointers_of_threads, 0.2)
{
    for (auto &d : destroyed) {
        d = 0;
    }
    std::size_t n_objects = 1 + c.draw(4);
    std::size_t n_threads = 2 + c.draw(4);
    std::size_t rounds = 1 + c.draw(3000);
    bool main_first = c.flag();
    std::uint64_t seed = c.draw(UINT64_MAX);
    c.desc(n_objects, " objects, ", n_threads, " threads, ", rounds, " rounds, main_first=", main_first);
    c.nontrivial(rounds > 10);
    std::vector<Intrusive_ptr<Node>> objects;
    for (std::size_t i = 0; i < n_objects; i++) {
        objects.push_back(make_intrusive<Node>(i));
    }
    std::atomic<std::size_t> ready{};
    std::atomic<bool> wrong{};
    std::vector<std::thread> threads;
    for (std::size_t t = 0; t < n_threads; t++) {
        threads.emplace_back([&, mine = objects, t]() mutable {
            std::minstd_rand rng{static_cast<unsigned>(seed + t)};
            ready++;
            while (ready < n_threads) {
            }
            std::vector<Intrusive_ptr<Node>> own(3);
            for (std::size_t k = 0; k < rounds; k++) {
                auto &p = own[rng() % own.size()];
                const auto &q = mine[rng() % mine.size()];
                switch (rng() % 4) {
                case 0:
                    p = q;
                    break;
                case 1:
                    p = nullptr;
                    break;
                case 2:
                    p = std::move(own[rng() % own.size()]);
                    break;
                default: {
                    Intrusive_ptr<const Node> r = q;
                    wrong = wrong || destroyed[r->id] != 0;
                    break;
                }
                }
            }
            own.clear();
            mine.clear();
        });
    }
    if (main_first) {
        objects.clear();
    }
    for (auto &t : threads) {
        t.join();
    }
    ENSURE(!wrong, "an object that is still referred to is destroyed");
    for (std::size_t i = 0; i < objects.size(); i++) {
        ENSURE(objects[i]->use_count() == 1, "object ", i, " counts ", objects[i]->use_count(),
               " references at the end, there is 1");
    }
    objects.clear();
    for (std::size_t i = 0; i < n_objects; i++) {
        ENSURE(destroyed[i] == 1, "object ", i, " is destroyed ", destroyed[i].load(), " times");
    }
}

// ---- the library's objects, built upon objects that say when they are gone

namespace {

std::vector<char> gone;  // by number

std::size_t new_canary()
{
    gone.push_back(0);
    return gone.size() - 1;
}

class Canary_block final : public Mutable_memory_block {
public:
    explicit Canary_block(std::string_view s) : id_{new_canary()}, v_(s.size())
    {
        std::memcpy(v_.data(), s.data(), s.size());
    }
    ~Canary_block() final
    {
        gone[id_]++;
    }
    std::size_t canary() const
    {
        return id_;
    }
    using Mutable_memory_block::data;
    const_pointer data() const noexcept final
    {
        return v_.data();
    }
    pointer data() noexcept final
    {
        return v_.data();
    }
    size_type size() const noexcept final
    {
        return v_.size();
    }
    bool resizable() const noexcept final
    {
        return false;
    }
    void resize(size_type) final
    {
        throw Not_supported_error{"not resizable"};
    }

private:
    std::size_t id_;
    std::vector<std::byte> v_;
};

class Canary_array final : public Device_array {
public:
    Canary_array(Data_type dt, std::size_t n) : id_{new_canary()}, inner_{make_cpu_array(dt, n)}
    {}
    ~Canary_array() final
    {
        gone[id_]++;
    }
    std::unique_ptr<Device_array> clone() const final
    {
        return inner_->clone();
    }
    void *data() noexcept final
    {
        return inner_->data();
    }
    const void *data() const noexcept final
    {
        return static_cast<const Device_array &>(*inner_).data();
    }
    std::size_t size() const noexcept final
    {
        return inner_->size();
    }
    [[nodiscard]] bool empty() const noexcept final
    {
        return inner_->empty();
    }
    Data_type data_type() const noexcept final
    {
        return inner_->data_type();
    }
    Device device() const noexcept final
    {
        return inner_->device();
    }
    std::size_t canary() const
    {
        return id_;
    }

private:
    std::size_t id_;
    std::unique_ptr<Device_array> inner_;
};

// Something that the program holds.
struct Held {
    std::optional<Memory_slice> slice{};
    Intrusive_ptr<Input_stream> stream{};
    Intrusive_ptr<Data_store> store{};
    Intrusive_ptr<Tensor> tensor{};
    Intrusive_ptr<Example> example{};
    Intrusive_ptr<Data_reader> reader{};
    std::shared_ptr<DLManagedTensor> dl{};
    std::set<std::size_t> needs{};  // these have to be there
    std::set<std::size_t> may{};    // these may be there still

    const char *kind() const
    {
        return slice ? "slice" : stream ? "stream" : store ? "store" : tensor ? "tensor"
             : example ? "example" : reader ? "reader" : "dlpack";
    }
};

std::uint64_t sum(const Memory_slice &s)
{
    std::uint64_t v = 0;
    for (auto b : s) {
        v = v * 31 + static_cast<unsigned char>(b);
    }
    return v;
}

volatile std::uint64_t sink;

void touch(Device_array_view v)
{
    for (std::size_t i = 0; i < v.size(); i++) {
        sink = value_at(v.data_type(), v.data(), i).size();
    }
}

void touch(const Tensor &t)
{
    if (auto *d = dynamic_cast<const Dense_tensor *>(&t)) {
        touch(d->data());
    }
    if (auto *o = dynamic_cast<const Coo_tensor *>(&t)) {
        touch(o->data());
        for (std::size_t k = 0; k < t.shape().size(); k++) {
            touch(o->indices(k));
        }
    }
    if (auto *r = dynamic_cast<const Csr_tensor *>(&t)) {
        touch(r->data());
        touch(r->indices());
        touch(r->indptr());
    }
}

}  // namespace

PBT_TEST(C34, objects)
{
    gone.clear();
    std::list<Held> held;
    std::vector<std::pair<std::size_t, std::pair<const std::byte *, std::size_t>>> blocks;
    Log log{c};

    auto check = [&] {
        std::vector<char> needed(gone.size());
        std::vector<char> possible(gone.size());
        for (auto &h : held) {
            for (auto i : h.needs) {
                needed[i] = 1;
            }
            for (auto i : h.may) {
                possible[i] = 1;
            }
        }
        for (std::size_t i = 0; i < gone.size(); i++) {
            ENSURE(gone[i] <= 1, "object ", i, " is destroyed twice", log.str());
            ENSURE(!needed[i] || gone[i] == 0, "object ", i, " is gone although it is used", log.str());
            ENSURE(needed[i] || possible[i] || gone[i] == 1, "object ", i,
                   " is still there although nothing uses it", log.str());
        }
    };
    auto some = [&](auto member) -> Held * {
        std::vector<Held *> v;
        for (auto &h : held) {
            if (h.*member) {
                v.push_back(&h);
            }
        }
        return v.empty() ? nullptr : v[c.draw(v.size() - 1)];
    };
    auto add = [&](Held h) {
        h.may.insert(h.needs.begin(), h.needs.end());
        held.push_back(std::move(h));
    };

    std::size_t n = 1 + c.size(30);
    for (std::size_t k = 0; k < n; k++) {
        std::size_t op = c.weighted({4, 3, 3, 3, 3, 2, 3, 3, 2, 3, 4, 3, 3, 2, 3, 2, 6});
        log << " " << op;
        switch (op) {
        case 0: {  // a block
            std::string text;
            for (std::size_t i = c.size(12); i > 0; i--) {
                text += "1,x" + std::to_string(i) + ",2.5\n";
            }
            if (c.chance(1, 4)) {
                text = deflate(text, 6, true);
            }
            auto b = make_intrusive<Canary_block>(text);
            blocks.push_back({b->canary(), {b->data(), b->size()}});
            Held h;
            h.needs = {b->canary()};
            if (c.flag()) {
                Intrusive_ptr<Memory_block> any = std::move(b);
                h.slice = Memory_slice{std::move(any)};
            }
            else {
                h.slice = Memory_slice{b};
            }
            add(std::move(h));
            break;
        }
        case 1:  // a part of it
            if (Held *s = some(&Held::slice)) {
                Held h = *s;
                std::size_t a = c.draw(s->slice->size());
                h.slice = c.flag() ? s->slice->subslice(a) : s->slice->subslice(a, c.draw(s->slice->size() - a));
                if (h.slice->empty()) {
                    h.needs.clear();
                }
                add(std::move(h));
            }
            break;
        case 2:  // a copy
            if (!held.empty()) {
                auto i = held.begin();
                std::advance(i, static_cast<std::ptrdiff_t>(c.draw(held.size() - 1)));
                log << i->kind();
                if (!i->dl) {
                    held.push_back(*i);
                }
            }
            break;
        case 3:  // a slice replaces another one
            if (Held *s = some(&Held::slice)) {
                Held *t = some(&Held::slice);
                if (s != t) {
                    if (c.flag()) {
                        *s->slice = *t->slice;
                    }
                    else {
                        // What was moved away may still be there, in one place or the other.
                        *s->slice = std::move(*t->slice);
                        t->slice = Memory_slice{};
                        s->needs = t->needs;
                        s->may = t->may;
                        t->needs.clear();
                        t->may.clear();
                        break;
                    }
                    s->needs = t->needs;
                    s->may = t->may;
                }
            }
            break;
        case 4:
            if (Held *s = some(&Held::slice)) {
                Held h;
                h.stream = make_intrusive<Memory_input_stream>(*s->slice);
                h.needs = s->needs;
                h.may = s->may;
                add(std::move(h));
            }
            break;
        case 5:
            if (Held *s = some(&Held::stream)) {
                Held h;
                if (c.flag()) {
                    h.stream = make_intrusive<Gzip_inflate_stream>(s->stream);
                }
                else {
                    auto e = c.pick<const char *>({"utf-8", "iso-8859-1", "utf-16le"});
                    auto kind = kind_of_error([&] {
                        h.stream = c.flag() ? make_utf8_stream(s->stream)
                                            : make_utf8_stream(s->stream, Text_encoding{e});
                    });
                    if (!kind.empty()) {
                        log << "!" << kind;
                        break;
                    }
                }
                // It can be the same stream, and what is read already need not be there.
                h.may = s->may;
                add(std::move(h));
            }
            break;
        case 6:  // reading
            if (Held *s = some(&Held::stream)) {
                Held h;
                auto kind = kind_of_error([&] { h.slice = s->stream->read(c.size(40)); });
                if (!kind.empty()) {
                    log << "!" << kind;
                    break;
                }
                // What lies in one of our blocks needs it.
                for (auto &b : blocks) {
                    auto *at = h.slice->data();
                    if (!h.slice->empty() && gone[b.first] == 0 && std::greater_equal<>{}(at, b.second.first) &&
                        std::less<>{}(at, b.second.first + b.second.second)) {
                        ENSURE(s->may.count(b.first) == 1, "a slice of an unrelated block", log.str());
                        h.needs = {b.first};
                    }
                }
                h.may = s->may;
                if (h.needs.empty() && !h.slice->empty()) {
                    h.may.clear();  // a copy
                }
                add(std::move(h));
            }
            break;
        case 7:
            if (Held *s = some(&Held::stream)) {
                // The streams that share it are closed with it.
                s->stream->close();
                s->needs.clear();
                for (auto &h : held) {
                    if (h.stream) {
                        h.needs.clear();
                    }
                }
            }
            break;
        case 8:
            if (Held *s = some(&Held::slice)) {
                Held h;
                h.store = make_intrusive<In_memory_store>(
                    *s->slice, c.flag() ? Compression::none : Compression::gzip);
                h.needs = s->needs;
                h.may = s->may;
                add(std::move(h));
            }
            break;
        case 9:
            if (Held *s = some(&Held::store)) {
                Held h;
                auto kind = kind_of_error([&] { h.stream = s->store->open_read(); });
                if (!kind.empty()) {
                    log << "!" << kind;
                    break;
                }
                // A stream of a store works without the store.
                if (h.stream->supports_zero_copy()) {
                    h.needs = s->needs;
                }
                h.may = s->may;
                add(std::move(h));
            }
            break;
        case 10: {
            std::size_t rows = c.draw(4);
            std::size_t cols = 1 + c.draw(3);
            bool fits = c.chance(3, 4);
            auto dt = c.pick<Data_type>({Data_type::float32, Data_type::int64, Data_type::string});
            std::size_t kind = c.draw(2);
            std::vector<std::unique_ptr<Canary_array>> arrays;
            auto make = [&](Data_type t, std::size_t size) {
                arrays.push_back(std::make_unique<Canary_array>(t, size));
                return arrays.back()->canary();
            };
            Held h;
            std::set<std::size_t> ids;
            std::size_t miss = fits ? 0 : 1;
            auto error = kind_of_error([&] {
                if (kind == 0) {
                    // Scalars have no shape and no strides to be freed.
                    Size_vector shape = c.pick<Size_vector>(
                        {{rows, cols}, {rows, cols}, {}, {rows}, {rows, 1, cols}});
                    std::size_t size = 1;
                    for (std::size_t d : shape) {
                        size *= d;
                    }
                    ids = {make(dt, size - (size != 0 ? miss : 0))};
                    h.tensor = make_intrusive<Dense_tensor>(shape, std::move(arrays[0]));
                }
                else if (kind == 1) {
                    ids = {make(dt, rows), make(Data_type::size, rows), make(Data_type::size, rows + miss)};
                    std::vector<std::unique_ptr<Device_array>> coords;
                    coords.push_back(std::move(arrays[1]));
                    coords.push_back(std::move(arrays[2]));
                    h.tensor = make_intrusive<Coo_tensor>(Size_vector{5, 6}, std::move(arrays[0]),
                                                          std::move(coords));
                }
                else {
                    ids = {make(dt, 2), make(Data_type::size, 2 + miss), make(Data_type::size, 4)};
                    h.tensor = make_intrusive<Csr_tensor>(Size_vector{3, 6}, std::move(arrays[0]),
                                                          std::move(arrays[1]), std::move(arrays[2]));
                }
            });
            if (!error.empty()) {
                log << "!" << error;
                arrays.clear();
                break;
            }
            h.needs = ids;
            add(std::move(h));
            break;
        }
        case 11: {
            std::vector<Attribute> attrs;
            std::vector<Intrusive_ptr<Tensor>> features;
            Held h;
            std::size_t m = c.draw(3);
            for (std::size_t i = 0; i < m; i++) {
                if (Held *t = some(&Held::tensor)) {
                    attrs.emplace_back("a" + std::to_string(i), t->tensor->data_type(), t->tensor->shape());
                    features.push_back(t->tensor);
                    h.needs.insert(t->needs.begin(), t->needs.end());
                    h.may.insert(t->may.begin(), t->may.end());
                }
            }
            if (c.chance(1, 6)) {
                attrs.emplace_back("more", Data_type::int8, Size_vector{1});
            }
            auto error = kind_of_error([&] {
                auto schema = make_intrusive<Schema>(attrs);
                h.example = make_intrusive<Example>(schema, std::move(features));
            });
            if (error.empty()) {
                add(std::move(h));
            }
            break;
        }
        case 12:
            if (Held *s = some(&Held::example)) {
                auto &f = s->example->features();
                if (!f.empty()) {
                    std::size_t i = c.draw(f.size() - 1);
                    Held h;
                    h.tensor = c.flag() ? f[i]
                                        : s->example->find_feature(s->example->schema().attributes()[i].name());
                    h.may = s->may;
                    add(std::move(h));
                }
            }
            break;
        case 13:
            if (Held *s = some(&Held::tensor)) {
                DLManagedTensor *t = nullptr;
                auto error = kind_of_error([&] { t = as_dlpack(*s->tensor, DLPACK_VERSION); });
                if (error.empty()) {
                    Held h;
                    h.dl = std::shared_ptr<DLManagedTensor>{t, [](DLManagedTensor *p) { p->deleter(p); }};
                    h.needs = s->needs;
                    h.may = s->may;
                    add(std::move(h));
                }
            }
            break;
        case 14: {
            Data_reader_params p;
            Held h;
            for (std::size_t i = 1 + c.draw(1); i > 0; i--) {
                if (Held *s = some(&Held::store)) {
                    p.dataset.push_back(s->store);
                    h.needs.insert(s->needs.begin(), s->needs.end());
                    h.may.insert(s->may.begin(), s->may.end());
                }
            }
            p.batch_size = 1 + c.size(4);
            p.num_parallel_reads = 1 + c.draw(2);
            p.num_prefetched_examples = 1 + c.draw(2);
            auto error = kind_of_error([&] {
                if (c.flag()) {
                    h.reader = make_intrusive<Text_line_reader>(std::move(p));
                }
                else {
                    Csv_params cp;
                    cp.header_row_index = {};
                    h.reader = make_intrusive<Csv_reader>(std::move(p), cp);
                }
            });
            if (error.empty()) {
                add(std::move(h));
            }
            break;
        }
        case 15:
            if (Held *s = some(&Held::reader)) {
                Held h;
                auto error = kind_of_error([&] {
                    switch (c.draw(3)) {
                    case 0:
                        h.example = s->reader->peek_example();
                        break;
                    case 1:
                        s->reader->reset();
                        break;
                    default:
                        h.example = s->reader->read_example();
                        break;
                    }
                });
                if (error.empty() && h.example) {
                    h.may = s->may;
                    add(std::move(h));
                }
            }
            break;
        default:  // something is given up
            if (!held.empty()) {
                auto i = held.begin();
                std::advance(i, static_cast<std::ptrdiff_t>(c.draw(held.size() - 1)));
                log << i->kind();
                held.erase(i);
            }
            break;
        }
        check();
        // What is held can be used.
        if (c.chance(1, 4) && !held.empty()) {
            auto i = held.begin();
            std::advance(i, static_cast<std::ptrdiff_t>(c.draw(held.size() - 1)));
            if (i->slice) {
                sink = sum(*i->slice);
            }
            if (i->tensor) {
                touch(*i->tensor);
            }
            if (i->example) {
                for (auto &t : i->example->features()) {
                    touch(*t);
                }
            }
        }
    }
    c.nontrivial(gone.size() > 1);
    while (!held.empty()) {
        if (c.flag()) {
            held.pop_back();
        }
        else {
            held.pop_front();
        }
        check();
    }
}

// ---- readers

namespace {

std::atomic<int> live_stores, live_streams, most_streams, live_blocks, fail_alloc_in;

class Tracked_stream final : public Input_stream {
public:
    explicit Tracked_stream(Intrusive_ptr<Input_stream> inner) : inner_{std::move(inner)}
    {
        int n = ++live_streams;
        for (int m = most_streams; m < n && !most_streams.compare_exchange_weak(m, n);) {
        }
    }
    ~Tracked_stream() final
    {
        live_streams--;
    }
    std::size_t read(Mutable_memory_span destination) final
    {
        return inner_->read(destination);
    }
    Memory_slice read(std::size_t size) final
    {
        return inner_->read(size);
    }
    void seek(std::size_t position) final
    {
        inner_->seek(position);
    }
    void close() noexcept final
    {
        inner_->close();
    }
    std::size_t size() const final
    {
        return inner_->size();
    }
    std::size_t position() const final
    {
        return inner_->position();
    }
    bool closed() const noexcept final
    {
        return inner_->closed();
    }
    bool seekable() const noexcept final
    {
        return inner_->seekable();
    }
    bool supports_zero_copy() const noexcept final
    {
        return inner_->supports_zero_copy();
    }

private:
    Intrusive_ptr<Input_stream> inner_;
};

class Tracked_store final : public Data_store {
public:
    explicit Tracked_store(Intrusive_ptr<Data_store> inner) : inner_{std::move(inner)}
    {
        live_stores++;
    }
    ~Tracked_store() final
    {
        live_stores--;
    }
    Intrusive_ptr<Input_stream> open_read() const final
    {
        return make_intrusive<Tracked_stream>(inner_->open_read());
    }
    std::string repr() const final
    {
        return inner_->repr();
    }
    const std::string &id() const final
    {
        return inner_->id();
    }

private:
    Intrusive_ptr<Data_store> inner_;
};

class Tracked_block final : public Mutable_memory_block {
public:
    explicit Tracked_block(std::size_t n) : v_(n)
    {
        live_blocks++;
    }
    ~Tracked_block() final
    {
        live_blocks--;
    }
    using Mutable_memory_block::data;
    const_pointer data() const noexcept final
    {
        return v_.data();
    }
    pointer data() noexcept final
    {
        return v_.data();
    }
    size_type size() const noexcept final
    {
        return v_.size();
    }
    bool resizable() const noexcept final
    {
        return true;
    }
    void resize(size_type n) final
    {
        v_.resize(n);
    }

private:
    std::vector<std::byte> v_;
};

class Tracked_allocator final : public Memory_allocator {
public:
    Intrusive_ptr<Mutable_memory_block> allocate(std::size_t size) final
    {
        if (fail_alloc_in > 0 && --fail_alloc_in == 0) {
            throw std::bad_alloc{};
        }
        return make_intrusive<Tracked_block>(size);
    }
};

class Allocator_guard {
public:
    Allocator_guard()
    {
        set_memory_allocator(std::make_unique<Tracked_allocator>());
    }
    Allocator_guard(const Allocator_guard &) = delete;
    Allocator_guard &operator=(const Allocator_guard &) = delete;
    ~Allocator_guard()
    {
        fail_alloc_in = 0;
        set_memory_allocator(std::make_unique<File_backed_memory_allocator>());
    }
};

std::size_t open_files()
{
    std::size_t n = 0;
    if (DIR *d = ::opendir("/proc/self/fd")) {
        while (::readdir(d) != nullptr) {
            n++;
        }
        ::closedir(d);
    }
    return n;
}

// The first mapping of a file of a directory, or nothing.
std::string mapping_of(const std::string &dir)
{
    std::string text;
    int fd = ::open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    char buf[65536];
    for (ssize_t r = 0; (r = ::read(fd, buf, sizeof buf)) > 0;) {
        text.append(buf, static_cast<std::size_t>(r));
    }
    ::close(fd);
    std::size_t at = text.find(dir);
    if (at == std::string::npos) {
        return {};
    }
    return text.substr(at, text.find('\n', at) - at);
}

}  // namespace

PBT_TEST(C34, readers)
{
    live_stores = live_streams = live_blocks = 0;
    fail_alloc_in = 0;
    Numbered n = any_numbered(c, c.chance(1, 8) ? 120 : 20);
    if (c.chance(1, 3)) {
        std::size_t total = 0;
        for (auto s : n.store_sizes) {
            total += s;
        }
        for (std::size_t i = total == 0 ? 0 : c.size(3); i > 0; i--) {
            n.bad.insert(c.draw(total - 1));
        }
    }
    Data_reader_params p;
    p.batch_size = 1 + c.size(8);
    p.bad_example_handling = static_cast<Bad_example_handling>(c.draw(5));
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    any_parallelism(c, p);
    any_buffer_sizes(c);
    p.shuffle_instances = c.chance(1, 3);
    p.reshuffle_each_epoch = c.flag();
    p.shuffle_window = c.chance(1, 2) ? 1 + c.size(20) : 0;
    p.num_instances_to_skip = c.chance(1, 4) ? c.size(10) : 0;
    if (c.chance(1, 4)) {
        p.num_instances_to_read = c.size(20);
    }
    if (c.chance(1, 5)) {
        p.sample_ratio = 0.5;
    }
    n.fill(c, p);
    std::string dir = scratch_dir("files");
    bool files = c.flag() && n.format != Format::image_file;
    bool mapped = c.flag();
    std::vector<std::string> data;
    if (files) {
        for (std::size_t i = 0; i < p.dataset.size(); i++) {
            std::string s;
            auto stream = p.dataset[i]->open_read();
            for (auto m = stream->read(1 << 16); !m.empty(); m = stream->read(1 << 16)) {
                s += to_string(m);
            }
            std::string path = dir + "/f" + std::to_string(i);
            write_file(path, s);
            data.push_back(path);
        }
    }

    // The history, the same in every round.
    std::vector<std::size_t> ops;
    for (std::size_t i = c.size(12); i > 0; i--) {
        ops.push_back(c.weighted({6, 2, 2, 1, 3}));
    }
    bool to_end = c.flag();
    bool reader_last = c.flag();
    std::size_t keep = c.draw(3);  // every how many examples are kept
    std::size_t fail_alloc = c.chance(1, 4) ? 1 + c.size(30) : 0;
    bool swap_allocator = c.chance(3, 4);
    // OpenCV keeps something for every thread that it ever ran in.
    bool images = n.format == Format::image_file || n.format == Format::image_recordio;
    std::size_t rounds = !images && c.chance(1, 8) ? 12 : 1;
    c.desc(n.show(), " batch=", p.batch_size, " bad_handling=", static_cast<int>(p.bad_example_handling),
           " last=", static_cast<int>(p.last_example_handling), " shuffle=", p.shuffle_instances, " window=",
           p.shuffle_window, " prefetch=", p.num_prefetched_examples, " reads=", p.num_parallel_reads,
           " files=", files, " mapped=", mapped, " ops=", join(ops), " to_end=", to_end, " reader_last=",
           reader_last, " fail_alloc=", fail_alloc, " rounds=", rounds);
    c.nontrivial(n.total != 0 && (to_end || !ops.empty()));
    c.tag(files ? "files" : "stores");
    c.tag(rounds > 1 ? "rounds" : "once");

    auto stores = p.dataset;
    auto round = [&] {
        std::list<Intrusive_ptr<Example>> kept;
        {
            Data_reader_params q = p;
            for (std::size_t i = 0; i < stores.size(); i++) {
                Intrusive_ptr<Data_store> s = stores[i];
                if (files) {
                    s = make_intrusive<File>(data[i], mapped);
                }
                q.dataset[i] = make_intrusive<Tracked_store>(std::move(s));
            }
            fail_alloc_in = static_cast<int>(fail_alloc);
            bool failed = false;
            Intrusive_ptr<Data_reader> reader;
            auto error = kind_of_error([&] { reader = n.make(std::move(q)); });
            std::size_t seen = 0;
            auto step = [&](const std::function<bool()> &f) {
                bool more = true;
                auto kind = kind_of_error([&] { more = f(); });
                failed = failed || !kind.empty();
                return kind.empty() && more;
            };
            auto note = [&](Intrusive_ptr<Example> e) {
                seen++;
                if (e && keep != 0 && seen % keep == 0) {
                    kept.push_back(e);
                }
                return static_cast<bool>(e);
            };
            if (error.empty()) {
                for (auto op : ops) {
                    step([&] {
                        switch (op) {
                        case 0:
                            return note(reader->read_example());
                        case 1:
                            return note(reader->peek_example());
                        case 2:
                            reader->reset();
                            return true;
                        case 3:
                            return static_cast<bool>(reader->read_schema());
                        default:
                            for (int k = 0; k < 3; k++) {
                                note(reader->read_example());
                            }
                            return true;
                        }
                    });
                }
                while (to_end && step([&] { return note(reader->read_example()); })) {
                }
            }
            if (reader_last) {
                kept.clear();
            }
        }
        fail_alloc_in = 0;
        // Only the examples are left.
        ENSURE(live_streams == 0, live_streams.load(), " streams are left of a deleted reader");
        ENSURE(live_stores == 0, live_stores.load(), " data stores are left of a deleted reader");
        for (auto &e : kept) {
            sink = to_ex(*e).columns.size();
        }
    };
    auto guarded = [&] {
        if (swap_allocator) {
            Allocator_guard guard;
            round();
            ENSURE(live_blocks == 0, live_blocks.load(), " memory blocks are left of a deleted reader");
        }
        else {
            round();
        }
        take_log();
    };
    guarded();
    if (files) {
        auto left = mapping_of(dir);
        ENSURE(left.empty(), "a file is still mapped: ", left);
    }
    // Nothing piles up from round to round.
    std::size_t fds = open_files();
    std::size_t before = __sanitizer_get_current_allocated_bytes();
    std::size_t grown = 0;
    std::size_t first = before;
    for (std::size_t r = 1; r < rounds; r++) {
        guarded();
        std::size_t now = __sanitizer_get_current_allocated_bytes();
        grown += now > before;
        before = now;
        if (r + 1 == rounds && rounds < 40 && grown + 2 >= r) {
            rounds = 40;  // a suspicion
        }
    }
    if (rounds > 1) {
        ENSURE(open_files() <= fds, "there are ", open_files(), " open files, ", fds, " after the first round");
        ENSURE(rounds < 40 || grown + 6 < rounds, "the memory grew in ", grown, " of ", rounds - 1,
               " identical rounds, by ", before - first, " bytes");
    }
}

// However many data stores there are, only a few are open at a time.
PBT_TEST_W(C34, many_stores, 0.15)
{
    live_stores = live_streams = most_streams = 0;
    Numbered n;
    n.format = static_cast<Format>(c.draw(num_formats - 1));
    std::size_t count = 12 + c.draw(60);
    for (std::size_t i = 0; i < count; i++) {
        n.store_sizes.push_back(c.draw(2));
    }
    Data_reader_params p;
    p.batch_size = 1 + c.size(8);
    p.num_prefetched_examples = 1 + c.draw(3);
    p.num_parallel_reads = 1 + c.draw(3);
    p.shuffle_instances = c.chance(1, 3);
    p.shuffle_window = c.flag() ? c.size(200) : 0;
    any_buffer_sizes(c);
    n.fill(c, p);
    std::size_t epochs = 1 + c.draw(1);
    c.desc(n.show(), " batch=", p.batch_size, " prefetch=", p.num_prefetched_examples, " reads=",
           p.num_parallel_reads, " shuffle=", p.shuffle_instances, " window=", p.shuffle_window, " epochs=",
           epochs);
    c.nontrivial(n.total > 10);
    c.tag(name_of(n.format));
    for (auto &s : p.dataset) {
        s = make_intrusive<Tracked_store>(std::move(s));
    }
    auto limit = static_cast<int>(p.num_parallel_reads) + 2;
    {
        auto reader = n.make(p);
        for (std::size_t k = 0; k < epochs; k++) {
            Epoch e = read_epoch(*reader);
            ENSURE(!e.failed, "reading fails: ", e.error);
            reader->reset();
        }
    }
    ENSURE(most_streams <= limit, "of ", count, " data stores ", most_streams.load(),
           " were open at the same time, there are ", p.num_parallel_reads, " parallel reads");
    ENSURE(live_streams == 0, live_streams.load(), " streams are left");
}
