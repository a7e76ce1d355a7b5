// C09: numbers parse to the exact value or are rejected.
#include <cmath>
#include <cstring>
#include <limits>

#include "csv_model.h"

using namespace mlio;
using namespace pbt;

namespace {

// A parser, made from options that are gone when it is used.
Parser parser_of(Data_type dt, const Parser_options &opts)
{
    auto temporary = std::make_unique<Parser_options>(opts);
    Parser parser = make_parser(dt, *temporary);
    temporary->base = 3;
    temporary->nan_values = {"0"};
    return parser;
}


using Wide = __int128;

// ---- reference: integers

bool is_space(char ch)
{
    return ch == ' ' || (ch >= '\t' && ch <= '\r');
}

std::string_view strip(std::string_view s)
{
    while (!s.empty() && is_space(s.front())) {
        s.remove_prefix(1);
    }
    while (!s.empty() && is_space(s.back())) {
        s.remove_suffix(1);
    }
    return s;
}

struct Int_ref {
    bool valid{};     // an integer in the base
    bool negative{};  // has a minus sign
    bool zero{};
    bool huge{};      // does not fit into Wide
    Wide value{};
};

Int_ref int_ref(std::string_view s, int base)
{
    Int_ref r;
    s = strip(s);
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
        r.negative = s[0] == '-';
        s.remove_prefix(1);
    }
    if (base == 16 && s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
        s.remove_prefix(2);
    }
    if (s.empty()) {
        return r;
    }
    for (char ch : s) {
        int d = -1;
        if (ch >= '0' && ch <= '9') {
            d = ch - '0';
        }
        else if (ch >= 'a' && ch <= 'z') {
            d = ch - 'a' + 10;
        }
        else if (ch >= 'A' && ch <= 'Z') {
            d = ch - 'A' + 10;
        }
        if (d < 0 || d >= base) {
            return r;
        }
        if (!r.huge) {
            r.value = r.value * base + d;
            if (r.value > (Wide{1} << 100)) {
                r.huge = true;
            }
        }
    }
    r.valid = true;
    r.zero = r.value == 0;
    if (r.negative) {
        r.value = -r.value;
    }
    return r;
}

std::string show_wide(Wide v)
{
    if (v < 0) {
        return "-" + show_wide(-v);
    }
    std::string s;
    do {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v != 0);
    return s;
}

// ---- reference: floats

// A number: [sign] digits [. digits] [e [sign] digits], or the same in
// hexadecimal: [sign] 0x digits [. digits] [p [sign] digits]
bool is_decimal(std::string_view s)
{
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
        s.remove_prefix(1);
    }
    bool hex = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
    if (hex) {
        s.remove_prefix(2);
    }
    std::size_t digits = 0;
    auto eat = [&] {
        std::size_t n = 0;
        while (!s.empty() && ((s[0] >= '0' && s[0] <= '9') ||
                              (hex && std::isxdigit(static_cast<unsigned char>(s[0]))))) {
            s.remove_prefix(1);
            n++;
        }
        return n;
    };
    digits += eat();
    if (!s.empty() && s[0] == '.') {
        s.remove_prefix(1);
        digits += eat();
    }
    if (digits == 0) {
        return false;
    }
    if (!s.empty() && (hex ? s[0] == 'p' || s[0] == 'P' : s[0] == 'e' || s[0] == 'E')) {
        hex = false;
        s.remove_prefix(1);
        if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
            s.remove_prefix(1);
        }
        if (eat() == 0) {
            return false;
        }
    }
    return s.empty();
}

// The spellings of not-a-number that are part of the number grammar.
bool is_nan_text(std::string_view s)
{
    if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
        s.remove_prefix(1);
    }
    if (s.size() < 3) {
        return false;
    }
    for (int i = 0; i < 3; i++) {
        if ((s[static_cast<std::size_t>(i)] | 0x20) != "nan"[i]) {
            return false;
        }
    }
    s.remove_prefix(3);
    if (s.empty()) {
        return true;
    }
    if (s.front() != '(' || s.back() != ')') {
        return false;
    }
    for (char ch : s.substr(1, s.size() - 2)) {
        if (!(std::isalnum(static_cast<unsigned char>(ch)) || ch == '_')) {
            return false;
        }
    }
    return true;
}

template<typename T>
T ref_strto(const std::string &s)
{
    if constexpr (std::is_same_v<T, float>) {
        return std::strtof(s.c_str(), nullptr);
    }
    else {
        return std::strtod(s.c_str(), nullptr);
    }
}

template<typename T>
bool same_bits(T a, T b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}

// ---- generators

std::string spaces(Case &c)
{
    std::string s;
    if (c.chance(1, 6)) {
        std::size_t n = 1 + c.draw(2);
        for (std::size_t i = 0; i < n; i++) {
            s += c.pick<char>({' ', '\t', '\v', '\f'});
        }
    }
    return s;
}

std::string digits_of(unsigned __int128 v, int base, bool upper)
{
    std::string s;
    do {
        int d = static_cast<int>(v % static_cast<unsigned>(base));
        s.insert(s.begin(),
                 static_cast<char>(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
        v /= static_cast<unsigned>(base);
    } while (v != 0);
    return s;
}

// Something that could be an integer.
std::string int_text(Case &c, int base)
{
    std::string s = spaces(c);
    switch (c.weighted({6, 1, 1})) {
    case 0:
        break;
    case 1:
        s += '-';
        break;
    default:
        s += '+';
        break;
    }
    if (s.empty() && c.flag()) {
        s += '-';
    }
    if (base == 16 && c.chance(1, 3)) {
        s += c.pick<const char *>({"0x", "0X"});
    }
    if (c.chance(1, 6)) {
        s += std::string(1 + c.draw(30), '0');
    }
    switch (c.weighted({3, 6, 2})) {
    case 0:
        s += digits_of(c.draw(300), base, c.flag());
        break;
    case 1: {
        // At the edge of a type.
        unsigned shift = c.pick<unsigned>({7, 8, 15, 16, 31, 32, 63, 64});
        unsigned __int128 v = (static_cast<unsigned __int128>(1) << shift);
        v = v + c.draw(4) - 2;
        if (c.chance(1, 5)) {
            v *= static_cast<unsigned>(base);
        }
        if (c.chance(1, 8)) {
            v += static_cast<unsigned __int128>(1) << (shift + c.draw(30));
        }
        s += digits_of(v, base, c.flag());
        break;
    }
    default:
        s += digits_of(c.bits64(), base, c.flag());
        break;
    }
    if (c.chance(1, 8)) {
        // Spoil it.
        auto pos = c.draw(s.size());
        s.insert(pos, c.pick<const char *>({"-", "+", " ", ".", "e", "x", "0x", ",", "_", "g", "9",
                                            "\xC2\xA0", "é", "L", "u", "'"}));
    }
    if (c.chance(1, 30)) {
        s.insert(c.draw(s.size()), 1, '\0');
    }
    if (c.chance(1, 30)) {
        s.resize(c.draw(s.size()));
    }
    return s + spaces(c);
}

std::string float_text(Case &c)
{
    std::string s = spaces(c);
    switch (c.weighted({4, 2, 1})) {
    case 0:
        break;
    case 1:
        s += '-';
        break;
    default:
        s += '+';
        break;
    }
    auto some_digits = [&](std::size_t max) {
        std::size_t n = c.size(max);
        std::string d;
        for (std::size_t i = 0; i < n; i++) {
            d += static_cast<char>('0' + c.draw(9));
        }
        return d;
    };
    switch (c.weighted({6, 4, 2, 2})) {
    case 0:
        s += some_digits(25);
        if (c.flag()) {
            s += '.';
            s += some_digits(25);
        }
        if (c.chance(1, 3)) {
            s += c.pick<const char *>({"e", "E"});
            s += c.pick<const char *>({"", "-", "+"});
            s += std::to_string(c.draw(c.flag() ? 400 : 20));
        }
        break;
    case 1: {
        // The shortest or a long spelling of a random bit pattern, or of a
        // point half-way between two.
        char buf[1600];
        std::uint64_t bits = c.bits64();
        double d;
        if (c.flag()) {
            auto b = static_cast<std::uint32_t>(bits);
            float f;
            std::memcpy(&f, &b, 4);
            d = static_cast<double>(f);
            if (c.flag() && std::isfinite(f)) {
                d = (d + static_cast<double>(
                             std::nextafterf(f, std::numeric_limits<float>::infinity()))) /
                    2;
            }
        }
        else {
            std::memcpy(&d, &bits, 8);
        }
        if (!std::isfinite(d)) {
            d = 1.5;
        }
        d = std::fabs(d);
        int prec = c.pick<int>({17, 9, 6, 20, 60, 780, 0});
        std::snprintf(buf, sizeof(buf), c.chance(1, 3) ? "%.*f" : "%.*e", prec, d);
        s += buf;
        break;
    }
    case 2:
        s += c.pick<const char *>(
            {"3.4028234663852886e38",  "3.4028235677973366e38", "3.4028235677973365e38",
             "1.7976931348623157e308", "1.7976931348623159e308", "1e39", "1e309", "4.9e-324",
             "2.4703282292062327e-324", "2.4703282292062328e-324", "1e-400", "1.4e-45", "7e-46",
             "7.1e-46", "16777217", "9007199254740993", "0.1", "1e23", "2.2250738585072011e-308",
             "1e22", "0", "0.0", "0e999999999", "1e-999999999", "1e999999999", "00000000001",
             "1e99999999999999999999", "123456789012345678901234567890"});
        break;
    default:
        s += c.pick<const char *>({"nan",  "NaN", "NAN", "nan()", "nan(12_a)", "inf", "Infinity",
                                   "INF", "infinit", "na", "n/a", "null", "", ".", "e5", "1e", "1e+",
                                   "0x1p3", "0x10", "0x1.8", "0X.fP-2", "0x", "0xp1", "0x1p", "0x1.fffffffffffff8p0", "0x1p1024",
                                   "0x1p-1074", "0x1p-1075", "0x1.000001p0", "1.5f", "1,5", "1.2.3", "--1", "+-1", "1 2",
                                   "nan(", "nanx", "1d5", "\xE2\x88\x9E", "True"});
        break;
    }
    if (c.chance(1, 10)) {
        s.insert(c.draw(s.size()), 1, c.pick<char>({' ', '.', 'e', '-', '+', 'f', '_', ',', '0'}));
    }
    if (c.chance(1, 30)) {
        s.insert(c.draw(s.size()), 1, '\0');
    }
    return s + spaces(c);
}

std::string any_text(Case &c)
{
    if (c.chance(1, 3)) {
        return float_text(c);
    }
    if (c.chance(1, 8)) {
        std::string s;
        std::size_t n = c.size(8);
        for (std::size_t i = 0; i < n; i++) {
            s += c.chance(2, 3) ? c.pick<char>({'0', '1', '9', '-', '+', '.', 'e', ' ', 'x', 'n', 'a',
                                                'i', 'f', '\t', '(', ')'})
                                : static_cast<char>(1 + c.draw(254));
        }
        return s;
    }
    return int_text(c, 10);
}

// ---- checks

// What the text must give for an integer type; checks the result against it.
template<typename T>
void check_int(const std::string &text, int base, Parse_result res, T got, T before,
               const char *where)
{
    Int_ref ref = int_ref(text, base);
    bool fits = ref.valid && !ref.huge && ref.value >= Wide{std::numeric_limits<T>::min()} &&
                ref.value <= Wide{std::numeric_limits<T>::max()};
    if (fits && std::is_unsigned_v<T> && ref.negative && ref.zero) {
        // Whether "-0" is an unsigned integer is a matter of taste.
        if (res != Parse_result::ok) {
            return;
        }
    }
    if (fits) {
        ENSURE(res == Parse_result::ok, where, ": ", quote(text), " is rejected");
        ENSURE(Wide{got} == ref.value, where, ": ", quote(text), " gives ", show_wide(got));
    }
    else {
        ENSURE(res != Parse_result::ok, where, ": ", quote(text), " is accepted as ",
               show_wide(got));
        ENSURE(got == before, where, ": a rejected text overwrites the result");
        // For signed types it is told apart from an overflow.
        if (ref.valid && std::is_signed_v<T>) {
            ENSURE(res == Parse_result::overflowed, where, ": ", quote(text),
                   " is out of range, not malformed");
        }
    }
}

template<typename T>
void test_int(Case &c)
{
    int base = c.weighted({3, 1}) == 0 ? 10 : c.pick<int>({16, 2, 8, 36, 3, 7, 11});
    // Zero stands for the default.
    int given = base == 10 && c.chance(1, 4) ? 0 : base;
    std::string text = c.chance(1, 10) ? float_text(c) : int_text(c, base);
    Data_type dt = std::is_signed_v<T>
                       ? (sizeof(T) == 1   ? Data_type::int8
                          : sizeof(T) == 2 ? Data_type::int16
                          : sizeof(T) == 4 ? Data_type::int32
                                           : Data_type::int64)
                       : (sizeof(T) == 1   ? Data_type::uint8
                          : sizeof(T) == 2 ? Data_type::uint16
                          : sizeof(T) == 4 ? Data_type::uint32
                                           : Data_type::uint64);
    c.desc(type_name(dt), " base ", given, " ", quote(text));
    c.nontrivial(int_ref(text, base).valid && text.size() > 1);

    T before = static_cast<T>(77);
    T got = before;
    Parse_result res = try_parse_int<T>(text, got, Int_parse_options{given});
    check_int<T>(text, base, res, got, before, "try_parse_int");

    // The parser of the data type, which writes to one element of an array.
    Parser_options opts;
    opts.base = base;
    Parser parser = parser_of(dt, opts);
    auto arr = make_cpu_array(dt, 3);
    auto *data = static_cast<T *>(arr->data());
    data[0] = data[1] = data[2] = before;
    std::size_t idx = c.draw(2);
    res = parser(text, Device_array_span{*arr}, idx);
    check_int<T>(text, base, res, data[idx], before, "parser");
    for (std::size_t i = 0; i < 3; i++) {
        ENSURE(i == idx || data[i] == before, "another element was written");
    }
    if (sizeof(T) == 8 && std::is_unsigned_v<T>) {
        std::size_t z = 77;
        res = try_parse_size_t(text, z, Int_parse_options{given});
        check_int<std::size_t>(text, base, res, z, 77, "try_parse_size_t");
        Parser size_parser = parser_of(Data_type::size, opts);
        auto sizes = make_cpu_array(Data_type::size, 1);
        auto *p = static_cast<std::size_t *>(sizes->data());
        *p = 77;
        res = size_parser(text, Device_array_span{*sizes}, 0);
        check_int<std::size_t>(text, base, res, *p, 77, "size parser");
    }
}

template<typename T>
void check_float(const std::string &text, const std::unordered_set<std::string> &nans,
                 Parse_result res, T got, T before, const char *where)
{
    std::string s{strip(text)};
    if (nans.count(s) == 0 && is_decimal(s)) {
        T want = ref_strto<T>(s);
        if (std::isinf(want)) {
            ENSURE(res != Parse_result::ok, where, ": ", quote(text), " overflows but gives ",
                   value_of(got));
            ENSURE(same_bits(got, before), where, ": a rejected text overwrites the result");
            return;
        }
        ENSURE(res == Parse_result::ok, where, ": ", quote(text), " is rejected");
        ENSURE(same_bits(got, want), where, ": ", quote(text), " gives ", value_of(got),
               " and not ", value_of(want));
    }
    else if (is_nan_text(s) || nans.count(s) != 0) {
        ENSURE(res == Parse_result::ok, where, ": ", quote(text), " is rejected");
        ENSURE(std::isnan(got), where, ": ", quote(text), " gives ", value_of(got));
    }
    else {
        ENSURE(res != Parse_result::ok, where, ": ", quote(text), " is accepted as ",
               value_of(got));
        ENSURE(same_bits(got, before), where, ": a rejected text overwrites the result");
    }
}

template<typename T>
void test_float(Case &c)
{
    std::string text = c.chance(1, 6) ? int_text(c, 10) : float_text(c);
    Parser_options opts;
    while (c.chance(1, 3)) {
        opts.nan_values.insert(c.pick<const char *>(
            {"na", "n/a", "null", "", "inf", "x", "1", "-", "NULL", "Infinity", " na", "-999", "0"}));
    }
    Data_type dt = sizeof(T) == 4 ? Data_type::float32 : Data_type::float64;
    std::ostringstream o;
    for (const auto &s : opts.nan_values) {
        o << quote(s) << " ";
    }
    c.desc(type_name(dt), " ", quote(text, 2000), " nan: ", o.str());
    c.nontrivial(is_decimal(strip(text)) || opts.nan_values.count(std::string{strip(text)}) != 0);
    T before = static_cast<T>(-77.25);
    T got = before;
    Parse_result res = try_parse_float<T>(text, got, Float_parse_options{&opts.nan_values});
    check_float<T>(text, opts.nan_values, res, got, before, "try_parse_float");
    got = before;
    res = try_parse_float<T>(text, got);
    check_float<T>(text, {}, res, got, before, "try_parse_float without nan values");
    Parser parser = parser_of(dt, opts);
    auto arr = make_cpu_array(dt, 2);
    auto *data = static_cast<T *>(arr->data());
    data[0] = data[1] = before;
    res = parser(text, Device_array_span{*arr}, 1);
    check_float<T>(text, opts.nan_values, res, data[1], before, "parser");
    ENSURE(same_bits(data[0], before), "another element was written");
}

std::string inferred(const std::string &text)
{
    std::string s{strip(text)};
    if (text.empty()) {
        return "string";
    }
    Int_ref ref = int_ref(text, 10);
    if (ref.valid && !ref.huge) {
        if (ref.value >= Wide{INT64_MIN} && ref.value <= Wide{INT64_MAX}) {
            return "int64";
        }
        if (ref.value >= 0 && ref.value <= Wide{UINT64_MAX}) {
            return "uint64";
        }
    }
    if ((is_decimal(s) && std::isfinite(ref_strto<double>(s))) || is_nan_text(s)) {
        return "float64";
    }
    return "string";
}

std::string type_word(Data_type dt)
{
    switch (dt) {
    case Data_type::int64:
        return "int64";
    case Data_type::uint64:
        return "uint64";
    case Data_type::float64:
        return "float64";
    case Data_type::string:
        return "string";
    default:
        return "another type";
    }
}

}  // namespace

PBT_TEST(C09, int8)
{
    test_int<std::int8_t>(c);
}

PBT_TEST(C09, int16)
{
    test_int<std::int16_t>(c);
}

PBT_TEST(C09, int32)
{
    test_int<std::int32_t>(c);
}

PBT_TEST(C09, int64)
{
    test_int<std::int64_t>(c);
}

PBT_TEST(C09, uint8)
{
    test_int<std::uint8_t>(c);
}

PBT_TEST(C09, uint16)
{
    test_int<std::uint16_t>(c);
}

PBT_TEST(C09, uint32)
{
    test_int<std::uint32_t>(c);
}

PBT_TEST(C09, uint64)
{
    test_int<std::uint64_t>(c);
}

PBT_TEST(C09, float32)
{
    test_float<float>(c);
}

PBT_TEST(C09, float64)
{
    test_float<double>(c);
}

PBT_TEST(C09, inferred_type)
{
    std::string text = any_text(c);
    std::string want = inferred(text);
    c.desc(quote(text, 2000), " should be ", want);
    c.nontrivial(want != "string");
    c.tag(want.c_str());
    Data_type dt = infer_data_type(text);
    ENSURE(type_word(dt) == want, "inferred as ", type_word(dt));
    // The value can be read as the type that was inferred.
    Parser_options opts;
    Parser parser = parser_of(dt, opts);
    auto arr = make_cpu_array(dt, 1);
    ENSURE(parser(text, Device_array_span{*arr}, 0) == Parse_result::ok,
           "the inferred type does not accept the text");
}

// The same through a CSV reader: a row is bad exactly if a field of it is not
// of the type of its column, and the values of the others are exact.
PBT_TEST_W(C09, csv_columns, 4.0)
{
    std::size_t cols = 1 + c.size(3);
    std::size_t rows = 1 + c.size(6);
    static const std::vector<Data_type> kinds{
        Data_type::int8,    Data_type::int16,   Data_type::int32,   Data_type::int64,
        Data_type::uint8,   Data_type::uint16,  Data_type::uint32,  Data_type::uint64,
        Data_type::float32, Data_type::float64, Data_type::string, Data_type::size};
    std::vector<Data_type> types;
    for (std::size_t i = 0; i < cols; i++) {
        types.push_back(c.pick(kinds));
    }
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    int base = c.chance(1, 4) ? c.pick<int>({16, 2, 8}) : 10;
    cp.parser_options.base = base;
    while (c.chance(1, 3)) {
        cp.parser_options.nan_values.insert(c.pick<const char *>({"na", "null", "inf", "x", "0", "-1"}));
    }
    bool by_name = c.flag();
    for (std::size_t i = 0; i < cols; i++) {
        if (by_name) {
            cp.column_types[std::to_string(i + 1)] = types[i];
        }
        else {
            cp.column_types_by_index[i] = types[i];
        }
    }
    Rows table;
    std::string text;
    for (std::size_t r = 0; r < rows; r++) {
        Row row;
        for (std::size_t i = 0; i < cols; i++) {
            std::string s;
            bool fl = types[i] == Data_type::float32 || types[i] == Data_type::float64;
            s = (fl ? !c.chance(1, 5) : c.chance(1, 10)) ? float_text(c) : int_text(c, base);
            for (auto &ch : s) {
                if (ch == ',' || ch == '"' || ch == '\n' || ch == '\r') {
                    ch = ';';
                }
            }
            if (cols == 1 && s.empty()) {
                s = " ";
            }
            bool q = c.chance(1, 6);
            text += (i != 0 ? "," : "") + (q ? "\"" + s + "\"" : s);
            row.push_back(s);
        }
        text += "\n";
        table.push_back(row);
    }
    c.desc("base ", base, " ", quote(text, 2000));
    Data_reader_params p;
    p.dataset = {make_store(c, text, any_delivery(c))};
    p.batch_size = 1;
    p.bad_example_handling = Bad_example_handling::skip;
    auto reader = make_intrusive<Csv_reader>(p, cp);

    auto accepted = [&](std::size_t i, const std::string &s) {
        auto go = [&](auto tag) {
            using T = decltype(tag);
            T before = static_cast<T>(77);
            T v = before;
            Int_parse_options o{base};
            if constexpr (std::is_floating_point_v<T>) {
                auto res = try_parse_float<T>(s, v, {&cp.parser_options.nan_values});
                check_float<T>(s, cp.parser_options.nan_values, res, v, before, "field");
                return std::make_pair(res == Parse_result::ok, value_of(v));
            }
            else {
                auto res = try_parse_int<T>(s, v, o);
                check_int<T>(s, base, res, v, before, "field");
                return std::make_pair(res == Parse_result::ok,
                                      value_at(types[i], &v, 0));
            }
        };
        switch (types[i]) {
        case Data_type::int8:
            return go(std::int8_t{});
        case Data_type::int16:
            return go(std::int16_t{});
        case Data_type::int32:
            return go(std::int32_t{});
        case Data_type::int64:
            return go(std::int64_t{});
        case Data_type::uint8:
            return go(std::uint8_t{});
        case Data_type::uint16:
            return go(std::uint16_t{});
        case Data_type::uint32:
            return go(std::uint32_t{});
        case Data_type::uint64:
        case Data_type::size:
            return go(std::uint64_t{});
        case Data_type::float32:
            return go(float{});
        case Data_type::float64:
            return go(double{});
        default:
            return std::make_pair(true, value_at(Data_type::string, &s, 0));
        }
    };
    std::vector<std::vector<std::string>> want;
    for (const Row &row : table) {
        std::vector<std::string> values;
        bool ok = true;
        for (std::size_t i = 0; i < cols; i++) {
            auto [good, v] = accepted(i, row[i]);
            ok = ok && good;
            values.push_back(v);
        }
        if (ok) {
            want.push_back(values);
        }
    }
    c.nontrivial(!want.empty() && want.size() < rows);
    Epoch e = read_epoch(*reader);
    ENSURE(!e.failed, e.error);
    ENSURE(e.examples.size() == want.size(), e.examples.size(), " rows were accepted and not ",
           want.size());
    for (std::size_t r = 0; r < want.size(); r++) {
        const Ex &x = e.examples[r];
        ENSURE(x.columns.size() == cols, show(x));
        for (std::size_t i = 0; i < cols; i++) {
            ENSURE(x.columns[i].type == types[i], "column ", i, " has type ",
                   type_name(x.columns[i].type));
            ENSURE(x.columns[i].values.size() == 1 && x.columns[i].values[0] == want[r][i], "row ",
                   r, " column ", i, ": ", join(x.columns[i].values), " and not ", want[r][i]);
        }
    }
}
