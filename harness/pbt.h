// A small property-based testing engine.
//
// A test draws every decision from a recorded sequence of integers ("choices").
// That gives, for every generator at once: replay (feed the choices back),
// shrinking (make the sequence shorter and its numbers smaller), and
// coverage-guided search (mutate sequences that reached new code).
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

struct Failure {
    std::string message;
    std::string key;  // identifies a recorded finding, or empty
};

struct Discard {};

[[noreturn]] void fail(std::string message, std::string key = {});

class Case {
public:
    // A number between 0 and max, both included. Shrinks towards 0.
    std::uint64_t draw(std::uint64_t max);

    std::uint64_t range(std::uint64_t lo, std::uint64_t hi)
    {
        return lo + draw(hi - lo);
    }

    std::int64_t irange(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(
                        draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
    }

    // True with probability num/den. Shrinks to false.
    bool chance(std::uint64_t num, std::uint64_t den)
    {
        return draw(den - 1) >= den - num;
    }

    bool flag()
    {
        return draw(1) == 1;
    }

    // A size biased to small values, up to max.
    std::size_t size(std::size_t max);

    // Index into a list of weights. Shrinks to the first.
    std::size_t weighted(std::initializer_list<unsigned> weights);

    template<typename T>
    const T &pick(const std::vector<T> &v)
    {
        return v[draw(v.size() - 1)];
    }

    template<typename T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + draw(v.size() - 1));
    }

    // Random bytes that are not worth shrinking one by one: drawn from one seed.
    std::mt19937_64 rng()
    {
        return std::mt19937_64{draw(UINT64_MAX)};
    }

    // A full-width integer with a bias to edges.
    std::uint64_t bits64();

    template<typename... A>
    void desc(const A &...a)
    {
        (desc_ << ... << a);
        publish();
    }

    void nontrivial(bool v = true)
    {
        nontrivial_ = nontrivial_ || v;
    }

    void tag(const char *name);

    [[noreturn]] void discard()
    {
        throw Discard{};
    }

    std::string description() const
    {
        return desc_.str();
    }

private:
    friend struct Engine;

    std::uint64_t gen(std::uint64_t max);

    // Makes the description known to the supervisor, in case of a crash.
    void publish() const;

    bool replay_{};
    std::vector<std::uint64_t> prefix_{};
    std::size_t pos_{};
    std::mt19937_64 rng_{};
    std::ostringstream desc_{};
    bool nontrivial_{};
};

using Fn = void (*)(Case &);

struct Test {
    const char *prop;
    const char *name;
    Fn fn;
    double weight;  // share of the time; 0: a fixed case, run once
};

std::vector<Test> &tests();

struct Reg {
    Reg(const char *prop, const char *name, Fn fn, double weight)
    {
        tests().push_back({prop, name, fn, weight});
    }
};

std::string quote(std::string_view s, std::size_t max = 400);

}  // namespace pbt

#define PBT_TEST_W(prop, name, weight)                                             \
    static void pbt_##prop##_##name(::pbt::Case &c);                               \
    static ::pbt::Reg pbt_reg_##prop##_##name{#prop, #name, &pbt_##prop##_##name, weight}; \
    static void pbt_##prop##_##name([[maybe_unused]] ::pbt::Case &c)

#define PBT_TEST(prop, name) PBT_TEST_W(prop, name, 1.0)
#define PBT_FIXED(prop, name) PBT_TEST_W(prop, name, 0.0)

#define ENSURE(cond, ...)                                                          \
    do {                                                                           \
        if (!(cond)) {                                                             \
            std::ostringstream pbt_o_;                                             \
            pbt_o_ << #cond << " does not hold: ";                                 \
            ::pbt::stream_all(pbt_o_, ##__VA_ARGS__);                              \
            ::pbt::fail(pbt_o_.str());                                             \
        }                                                                          \
    } while (0)

namespace pbt {
template<typename... A>
void stream_all(std::ostringstream &o, const A &...a)
{
    (o << ... << a);
}
}  // namespace pbt
