// Independent encoders for the formats the library reads.
#pragma once

#include <cstring>

#include "support.h"

namespace pbt {

// ---- RecordIO
constexpr std::uint32_t recordio_magic = 0xced7230a;

inline void put_u32(std::string &s, std::uint32_t v)
{
    for (int i = 0; i < 4; i++) {
        s += static_cast<char>(v >> (8 * i));
    }
}

// kind: 0 complete, 1 begin, 2 middle, 3 end
inline void put_record(std::string &s, std::string_view payload, unsigned kind = 0)
{
    put_u32(s, recordio_magic);
    put_u32(s, (kind << 29) | static_cast<std::uint32_t>(payload.size()));
    s += payload;
    while (s.size() % 4 != 0) {
        s += '\0';
    }
}

// ---- protobuf wire format
inline void put_varint(std::string &s, std::uint64_t v)
{
    while (v >= 0x80) {
        s += static_cast<char>(v | 0x80);
        v >>= 7;
    }
    s += static_cast<char>(v);
}

inline void put_bytes(std::string &s, unsigned field, std::string_view v)
{
    put_varint(s, field << 3 | 2);
    put_varint(s, v.size());
    s += v;
}

template<typename T>
void put_fixed(std::string &s, T v)
{
    char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    s.append(b, sizeof(T));
}

enum class Pb_type { f32, f64, i32, bytes, none };

struct Pb_value {
    Pb_type type = Pb_type::f32;
    std::vector<double> values;   // exactly representable in the type
    std::vector<std::uint64_t> keys;
    std::vector<std::uint64_t> shape;
    bool packed = true;

    std::string encode() const
    {
        std::string t;
        auto scalars = [&](unsigned field, auto put_one, unsigned wire, std::size_t n) {
            if (n == 0) {
                return;
            }
            if (packed) {
                std::string p;
                for (std::size_t i = 0; i < n; i++) {
                    put_one(p, i);
                }
                put_bytes(t, field, p);
            }
            else {
                for (std::size_t i = 0; i < n; i++) {
                    put_varint(t, field << 3 | wire);
                    put_one(t, i);
                }
            }
        };
        switch (type) {
        case Pb_type::f32:
            scalars(1, [&](std::string &o, std::size_t i) {
                put_fixed(o, static_cast<float>(values[i]));
            }, 5, values.size());
            break;
        case Pb_type::f64:
            scalars(1, [&](std::string &o, std::size_t i) {
                put_fixed(o, values[i]);
            }, 1, values.size());
            break;
        case Pb_type::i32:
            scalars(1, [&](std::string &o, std::size_t i) {
                put_varint(o, static_cast<std::uint64_t>(static_cast<std::int64_t>(values[i])));
            }, 0, values.size());
            break;
        case Pb_type::bytes: {
            std::string b, v;
            put_bytes(b, 1, "xyz");
            put_bytes(v, 9, b);
            return v;
        }
        case Pb_type::none:
            return {};
        }
        scalars(2, [&](std::string &o, std::size_t i) {
            put_varint(o, keys[i]);
        }, 0, keys.size());
        scalars(3, [&](std::string &o, std::size_t i) {
            put_varint(o, shape[i]);
        }, 0, shape.size());
        std::string v;
        put_bytes(v, type == Pb_type::f32 ? 2 : type == Pb_type::f64 ? 3 : 7, t);
        return v;
    }
};

struct Pb_record {
    std::vector<std::pair<std::string, Pb_value>> features;
    std::vector<std::pair<std::string, Pb_value>> labels;
    std::string extra;  // other fields, already encoded

    std::string encode() const
    {
        std::string s;
        auto entry = [&](unsigned field, const std::string &name, const Pb_value &v) {
            std::string e;
            put_bytes(e, 1, name);
            put_bytes(e, 2, v.encode());
            put_bytes(s, field, e);
        };
        for (auto &[n, v] : features) {
            entry(1, n, v);
        }
        for (auto &[n, v] : labels) {
            entry(2, n, v);
        }
        return s + extra;
    }
};

// ---- images without loss
inline std::string ppm(int width, int height, const std::vector<std::uint8_t> &rgb)
{
    std::string s = "P6\n" + std::to_string(width) + " " + std::to_string(height) + "\n255\n";
    s.append(reinterpret_cast<const char *>(rgb.data()), rgb.size());
    return s;
}

inline std::string pgm(int width, int height, const std::vector<std::uint8_t> &grey)
{
    std::string s = "P5\n" + std::to_string(width) + " " + std::to_string(height) + "\n255\n";
    s.append(reinterpret_cast<const char *>(grey.data()), grey.size());
    return s;
}

}  // namespace pbt
