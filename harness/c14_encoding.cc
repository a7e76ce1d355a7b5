// C14: text in any supported encoding is converted to the same UTF-8 text.
#include <iconv.h>

#include "csv_model.h"

#include <mlio/streams/stream_error.h>
#include <mlio/streams/utf8_input_stream.h>
#include <mlio/text_line_reader.h>

using namespace mlio;
using namespace pbt;

namespace {

using Text = std::u32string;

enum class Form { utf8, utf16le, utf16be, utf32le, utf32be, latin1 };

void put16(std::string &s, std::uint32_t v, bool be)
{
    char lo = static_cast<char>(v & 0xff);
    char hi = static_cast<char>(v >> 8);
    s += be ? hi : lo;
    s += be ? lo : hi;
}

void put32(std::string &s, std::uint32_t v, bool be)
{
    for (int i = 0; i < 4; i++) {
        s += static_cast<char>((v >> (8 * (be ? 3 - i : i))) & 0xff);
    }
}

std::string encode(const Text &t, Form f)
{
    std::string s;
    for (char32_t ch : t) {
        auto cp = static_cast<std::uint32_t>(ch);
        switch (f) {
        case Form::utf8:
            s += utf8_of(cp);
            break;
        case Form::utf16le:
        case Form::utf16be:
            if (cp >= 0x10000) {
                put16(s, 0xD800 + ((cp - 0x10000) >> 10), f == Form::utf16be);
                put16(s, 0xDC00 + ((cp - 0x10000) & 0x3ff), f == Form::utf16be);
            }
            else {
                put16(s, cp, f == Form::utf16be);
            }
            break;
        case Form::utf32le:
        case Form::utf32be:
            put32(s, cp, f == Form::utf32be);
            break;
        case Form::latin1:
            s += static_cast<char>(cp);
            break;
        }
    }
    return s;
}

const char *name_of(Form f)
{
    return std::array<const char *, 6>{"UTF-8",    "UTF-16LE", "UTF-16BE",
                                       "UTF-32LE", "UTF-32BE", "latin1"}[static_cast<int>(f)];
}

std::uint32_t any_char(Case &c, bool latin1)
{
    if (latin1) {
        switch (c.weighted({4, 4, 1})) {
        case 0:
            return static_cast<std::uint32_t>('a' + c.draw(25));
        case 1:
            return static_cast<std::uint32_t>(0x80 + c.draw(0x7f));
        default:
            return static_cast<std::uint32_t>(c.draw(0x7f));
        }
    }
    switch (c.weighted({6, 2, 2, 2, 2, 2, 1})) {
    case 0:
        return static_cast<std::uint32_t>('a' + c.draw(25));
    case 1:
        return c.pick<std::uint32_t>({0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF,
                                      0xE000, 0xFFFE, 0xFEFF, 0xFFF0, 0x0A0D, 0x0D0A, 0x2028, 0x0A0A,
                                      0x0D0D, 0x2C2C, 0x2222});
    case 2:
        return static_cast<std::uint32_t>(0x80 + c.draw(0x7ff - 0x80));
    case 3:
        return static_cast<std::uint32_t>(0x800 + c.draw(0xD7FF - 0x800));
    case 4:
        return static_cast<std::uint32_t>(0xE000 + c.draw(0x10FFFF - 0xE000));
    case 5:
        return static_cast<std::uint32_t>(0x10000 + c.draw(0xFFFFF));
    default:
        return static_cast<std::uint32_t>(c.draw(0x7f));
    }
}

Text any_text(Case &c, bool latin1, std::size_t max)
{
    Text t;
    std::size_t n = c.size(max);
    for (std::size_t i = 0; i < n; i++) {
        if (c.chance(1, 20)) {
            t += Text(1 + c.draw(40), any_char(c, latin1));
        }
        else {
            t += static_cast<char32_t>(any_char(c, latin1));
        }
    }
    return t;
}

std::string utf8(const Text &t)
{
    return encode(t, Form::utf8);
}

struct Read {
    std::string bytes;
    bool failed{};
    std::string error;
    bool stream_error{};
    bool went_on{};  // data or an end-of-data zero was returned after a failure
};

// Reads the whole stream with drawn read sizes.
Read drain(Case &c, Input_stream &s)
{
    Read r;
    std::vector<std::size_t> sizes;
    std::size_t k = 1 + c.draw(3);
    for (std::size_t i = 0; i < k; i++) {
        sizes.push_back(c.flag() ? 1 + c.draw(5) : 1 + c.draw(300));
    }
    bool slices = c.chance(1, 4);
    bool empty_reads = c.chance(1, 6);
    std::size_t calls = 0;
    try {
        for (;; calls++) {
            std::size_t n = sizes[calls % sizes.size()];
            if (empty_reads) {
                std::byte b{};
                if (s.read(Mutable_memory_span{&b, std::size_t{0}}) != 0) {
                    pbt::fail("an empty read returned data");
                }
            }
            std::size_t got{};
            if (slices) {
                Memory_slice sl = s.read(n);
                got = sl.size();
                r.bytes += to_string(sl);
            }
            else {
                std::vector<std::byte> b(n + 8, std::byte{0x5a});
                got = s.read(Mutable_memory_span{b.data(), n});
                if (got > n) {
                    pbt::fail("read() reports more than the destination holds");
                }
                for (std::size_t i = n; i < b.size(); i++) {
                    if (b[i] != std::byte{0x5a}) {
                        pbt::fail("read() wrote past its destination");
                    }
                }
                r.bytes.append(reinterpret_cast<const char *>(b.data()), got);
            }
            if (got == 0) {
                break;
            }
        }
        // The end is final.
        std::array<std::byte, 8> b{};
        if (s.read(b) != 0) {
            pbt::fail("data after the end-of-data");
        }
    }
    catch (const Stream_error &e) {
        r.failed = true;
        r.stream_error = true;
        r.error = describe(e);
    }
    catch (const std::exception &e) {
        r.failed = true;
        r.error = describe(e);
    }
    return r;
}

// Explicitly given encodings.
struct Given {
    std::optional<Text_encoding> encoding;
    std::string show;
};

Given given(Case &c, Form f, bool bom)
{
    switch (f) {
    case Form::utf8:
        if (c.flag()) {
            return {std::nullopt, "inferred"};
        }
        return {Text_encoding::utf8, "UTF-8"};
    case Form::latin1:
        if (c.flag()) {
            return {Text_encoding{"ISO-8859-1"}, "ISO-8859-1"};
        }
        return {Text_encoding::ascii_latin1, "ascii_latin1"};
    default:
        break;
    }
    std::size_t k = bom ? c.weighted({2, 2, 1}) : 1;
    if (k == 0) {
        return {std::nullopt, "inferred"};
    }
    bool wide = f == Form::utf32le || f == Form::utf32be;
    if (k == 2) {
        return {wide ? Text_encoding::utf32 : Text_encoding::utf16, wide ? "UTF-32" : "UTF-16"};
    }
    switch (f) {
    case Form::utf16le:
        return {Text_encoding::utf16_le, "UTF-16LE"};
    case Form::utf16be:
        return {Text_encoding::utf16_be, "UTF-16BE"};
    case Form::utf32le:
        return {Text_encoding::utf32_le, "UTF-32LE"};
    default:
        return {Text_encoding::utf32_be, "UTF-32BE"};
    }
}

// A text must not look like a byte order mark, or turn one into another.
bool ambiguous(const Text &t)
{
    return !t.empty() && (t[0] == 0xFEFF || t[0] == 0);
}

std::string without_bom(std::string s)
{
    if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) {
        s.erase(0, 3);
    }
    return s;
}

void small_utf8_buffer(Case &c)
{
    any_buffer_sizes(c);
    switch (c.draw(3)) {
    case 0:
        mlio::verif::utf8_buffer_size = 4 + c.draw(12);
        break;
    case 1:
        mlio::verif::utf8_buffer_size = 4 + c.draw(100);
        break;
    default:
        break;
    }
}

}  // namespace

// The stream itself: any form, with or without byte order mark, any source and
// any read sizes.
PBT_TEST(C14, stream_converts)
{
    auto f = static_cast<Form>(c.draw(5));
    bool bom = f != Form::latin1 && c.flag();
    Text t = any_text(c, f == Form::latin1, 60);
    if (ambiguous(t)) {
        t.insert(0, 1, U'x');
    }
    Given g = given(c, f, bom);
    std::string raw = encode((bom ? Text(1, 0xFEFF) : Text{}) + t, f);
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    c.desc(name_of(f), bom ? " with mark" : "", " read as ", g.show, ": ", quote(raw), " via ",
           pbt::name_of(del), " utf8 buffer=", mlio::verif::utf8_buffer_size);
    std::string want = utf8(t);
    c.nontrivial(raw != want && t.size() > 1);
    c.tag(name_of(f));
    auto store = make_store(c, raw, del);
    auto stream = make_utf8_stream(store->open_read(), g.encoding);
    Read r = drain(c, *stream);
    ENSURE(!r.failed, "reading failed: ", r.error);
    ENSURE(without_bom(r.bytes) == want, "got ", quote(r.bytes), " instead of ", quote(want));
    stream->close();
    ENSURE(stream->closed(), "closed");
    std::array<std::byte, 8> b{};
    std::string kind = kind_of_error([&] { stream->read(b); });
    ENSURE(kind == "stream", "a read after close ends with '", kind, "'");
}

// Sequences that are invalid or incomplete are an error, and what is delivered
// before it is the beginning of the text.
PBT_TEST_W(C14, invalid_is_an_error, 0.6)
{
    auto f = static_cast<Form>(1 + c.draw(3));
    bool be = f == Form::utf16be || f == Form::utf32be;
    bool wide = f == Form::utf32le || f == Form::utf32be;
    bool bom = c.flag();
    Text before = any_text(c, false, 40);
    if (ambiguous(before)) {
        before.insert(0, 1, U'x');
    }
    Text after = any_text(c, false, 10);
    std::string raw = encode((bom ? Text(1, 0xFEFF) : Text{}) + before, f);
    const char *what{};
    bool at_end{};
    if (wide) {
        switch (c.draw(2)) {
        case 0:
            what = "surrogate";
            put32(raw, static_cast<std::uint32_t>(0xD800 + c.draw(0x7ff)), be);
            break;
        case 1:
            what = "too large";
            put32(raw, c.flag() ? 0x110000u : static_cast<std::uint32_t>(0x110000 + c.draw(0xffeeffff)),
                  be);
            break;
        default: {
            what = "incomplete";
            std::string s;
            put32(s, any_char(c, false), be);
            raw += s.substr(0, 1 + c.draw(2));
            at_end = true;
            break;
        }
        }
    }
    else {
        switch (c.draw(3)) {
        case 0:
            what = "lone low surrogate";
            put16(raw, static_cast<std::uint32_t>(0xDC00 + c.draw(0x3ff)), be);
            break;
        case 1:
            what = "lone high surrogate";
            put16(raw, static_cast<std::uint32_t>(0xD800 + c.draw(0x3ff)), be);
            after.insert(0, 1, U'z');
            break;
        case 2:
            what = "odd length";
            raw += static_cast<char>(c.draw(255));
            at_end = true;
            break;
        default:
            what = "half a pair";
            put16(raw, static_cast<std::uint32_t>(0xD800 + c.draw(0x3ff)), be);
            if (c.flag()) {
                raw += static_cast<char>(be ? 0xDC : c.draw(255));
            }
            at_end = true;
            break;
        }
    }
    if (!at_end) {
        raw += encode(after, f);
    }
    if (before.empty() && !bom) {
        // Nothing that a mark could be confused with.
        bom = false;
    }
    Given g = given(c, f, bom);
    // A mark that is cut off or made up by the damage is not of interest here.
    if (before.empty()) {
        c.discard();
    }
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    c.desc(what, " in ", name_of(f), " read as ", g.show, ": ", quote(raw), " via ", pbt::name_of(del),
           " utf8 buffer=", mlio::verif::utf8_buffer_size);
    c.nontrivial();
    c.tag(what);
    auto store = make_store(c, raw, del);
    auto stream = make_utf8_stream(store->open_read(), g.encoding);
    Read r = drain(c, *stream);
    ENSURE(r.failed, "the text is taken for valid: ", quote(r.bytes));
    ENSURE(r.stream_error, "another error: ", r.error);
    std::string want = utf8(before);
    std::string got = without_bom(r.bytes);
    ENSURE(want.compare(0, got.size(), got) == 0, "delivered before the error: ", quote(got),
           " which does not begin ", quote(want));
    // It does not recover either.
    Read again = drain(c, *stream);
    ENSURE(again.failed, "after the error the stream ends as if all was well");
}

namespace {

std::optional<std::string> one_shot(const char *enc, const std::string &raw, bool *supported)
{
    ::iconv_t d = ::iconv_open("UTF-8", enc);
    *supported = d != reinterpret_cast<::iconv_t>(-1);
    if (!*supported) {
        return {};
    }
    std::string out(raw.size() * 8 + 64, '\0');
    char *in = const_cast<char *>(raw.data());
    std::size_t in_left = raw.size();
    char *o = out.data();
    std::size_t o_left = out.size();
    bool ok = ::iconv(d, &in, &in_left, &o, &o_left) != static_cast<std::size_t>(-1);
    ok = ok && ::iconv(d, nullptr, nullptr, &o, &o_left) != static_cast<std::size_t>(-1);
    ::iconv_close(d);
    out.resize(out.size() - o_left);
    if (!ok) {
        return {};
    }
    return out;
}

std::string from_utf8(const char *enc, const std::string &text)
{
    ::iconv_t d = ::iconv_open(enc, "UTF-8");
    if (d == reinterpret_cast<::iconv_t>(-1)) {
        return {};
    }
    std::string out(text.size() * 8 + 64, '\0');
    char *in = const_cast<char *>(text.data());
    std::size_t in_left = text.size();
    char *o = out.data();
    std::size_t o_left = out.size();
    ::iconv(d, &in, &in_left, &o, &o_left);
    ::iconv(d, nullptr, nullptr, &o, &o_left);
    ::iconv_close(d);
    out.resize(out.size() - o_left);
    return out;
}

const std::vector<const char *> &encodings()
{
    static const std::vector<const char *> v{
        "ISO-8859-15", "WINDOWS-1252", "WINDOWS-1251", "KOI8-R",  "SHIFT_JIS",   "EUC-JP",
        "GB18030",     "BIG5",         "ISO-2022-JP",  "EUC-KR",  "UTF-7",       "GBK",
        "CP1255",      "TCVN5712-1",   "BIG5-HKSCS",   "IBM1047", "EUC-JISX0213", "CP1258"};
    return v;
}

}  // namespace

// Encodings given by name are read as iconv reads them in one piece.
PBT_TEST_W(C14, named_encodings, 0.8)
{
    const char *enc = c.pick(encodings());
    std::string raw;
    std::string text;
    if (c.chance(1, 4)) {
        std::size_t n = c.size(60);
        for (std::size_t i = 0; i < n; i++) {
            raw += static_cast<char>(c.flag() ? c.draw(255) : 'a' + c.draw(25));
        }
    }
    else {
        std::size_t n = c.size(60);
        for (std::size_t i = 0; i < n; i++) {
            switch (c.weighted({3, 1, 1, 1, 1, 1, 1})) {
            case 0:
                text += static_cast<char>('a' + c.draw(25));
                break;
            case 1:
                text += utf8_of(static_cast<std::uint32_t>(0xA0 + c.draw(0x5f)));
                break;
            case 2:
                text += utf8_of(static_cast<std::uint32_t>(0x3041 + c.draw(0x52)));  // Hiragana
                break;
            case 3:
                text += utf8_of(static_cast<std::uint32_t>(0x4E00 + c.draw(0x1000)));
                break;
            case 4:
                text += utf8_of(static_cast<std::uint32_t>(0x0410 + c.draw(0x3f)));  // Cyrillic
                break;
            case 5:
                text += utf8_of(static_cast<std::uint32_t>(0x05D0 + c.draw(0x1a)));  // Hebrew
                break;
            default:
                text += utf8_of(c.pick<std::uint32_t>({0xCA, 0x304, 0x20AC, 0x1EA5, 0x301, 0x20000,
                                                       0x304B, 0x309A, 0x1F600}));
                break;
            }
        }
        // Characters that cannot be expressed are left out.
        for (std::size_t i = 0; i < text.size();) {
            std::size_t k = 1;
            while (i + k < text.size() && (text[i + k] & 0xC0) == 0x80) {
                k++;
            }
            bool ok{};
            std::string one = from_utf8(enc, text.substr(i, k));
            auto back = one_shot(enc, one, &ok);
            if (!back || *back != text.substr(i, k)) {
                text.erase(i, k);
            }
            else {
                i += k;
            }
        }
        raw = from_utf8(enc, text);
    }
    bool supported{};
    auto want = one_shot(enc, raw, &supported);
    if (!supported) {
        c.discard();
    }
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    mlio::verif::utf8_buffer_size = std::max<std::size_t>(mlio::verif::utf8_buffer_size, 16);
    c.desc(enc, " ", quote(raw), " via ", pbt::name_of(del),
           " utf8 buffer=", mlio::verif::utf8_buffer_size);
    c.nontrivial(raw.size() > 2 && (!want || *want != raw));
    c.tag(enc);
    auto store = make_store(c, raw, del);
    auto stream = make_utf8_stream(store->open_read(), Text_encoding{enc});
    Read r = drain(c, *stream);
    if (want) {
        ENSURE(!r.failed, "reading failed: ", r.error);
        ENSURE(r.bytes == *want, "got ", quote(r.bytes), " instead of ", quote(*want));
    }
    else {
        ENSURE(r.failed, "invalid text is read as ", quote(r.bytes));
        ENSURE(r.stream_error, "another error: ", r.error);
    }
}

PBT_FIXED(C14, unknown_encoding)
{
    std::string kind = kind_of_error([&] {
        make_utf8_stream(make_intrusive<In_memory_store>(block_of("abc"))->open_read(),
                         Text_encoding{"no-such-encoding"});
    });
    ENSURE(kind != "" && kind != "other", "an unknown encoding: '", kind, "'");
}

// The readers: CSV with a given or inferred encoding, text lines with an
// inferred one.
PBT_TEST(C14, csv_reader)
{
    auto f = static_cast<Form>(c.draw(5));
    bool bom = f != Form::latin1 && c.flag();
    Given g = given(c, f, bom);
    std::size_t cols = 1 + c.draw(2);
    std::size_t rows = 1 + c.size(8);
    Rows want;
    Text t;
    for (std::size_t i = 0; i < rows; i++) {
        Row row;
        for (std::size_t j = 0; j < cols; j++) {
            Text x = any_text(c, f == Form::latin1, 8);
            Text field;
            for (char32_t ch : x) {
                if (ch != 0 && ch != '\n' && ch != '\r' && ch != '"' && ch != ',') {
                    field += ch;
                }
            }
            if (field.empty()) {
                field = U"e";
            }
            if (i == 0 && j == 0 && ambiguous(field)) {
                field.insert(0, 1, U'x');
            }
            row.push_back(utf8(field));
            bool q = c.chance(1, 4);
            t += (j != 0 ? U"," : U"");
            t += (q ? U"\"" : U"") + field + (q ? U"\"" : U"");
        }
        want.push_back(row);
        if (i + 1 < rows || c.flag()) {
            t += c.pick<const char32_t *>({U"\n", U"\r\n", U"\r"});
        }
    }
    std::string raw = encode((bom ? Text(1, 0xFEFF) : Text{}) + t, f);
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    Data_reader_params p;
    p.dataset.push_back(make_store(c, raw, del));
    p.batch_size = 1 + c.size(4);
    any_parallelism(c, p);
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    cp.default_data_type = Data_type::string;
    cp.encoding = g.encoding;
    c.desc(name_of(f), bom ? " with mark" : "", " read as ", g.show, ": ", quote(raw), " via ",
           pbt::name_of(del), " utf8 buffer=", mlio::verif::utf8_buffer_size,
           " chunk=", mlio::verif::chunk_size);
    c.nontrivial(raw != utf8(t) && rows > 1);
    Csv_reader reader{p, cp};
    Epoch e = read_epoch(reader);
    ENSURE(!e.failed, "reading failed: ", e.error);
    check_rows(rows_of(e.examples), want);
    if (c.chance(1, 3)) {
        reader.reset();
        Epoch e2 = read_epoch(reader);
        ENSURE(!e2.failed, "second epoch failed: ", e2.error);
        check_rows(rows_of(e2.examples), want, "second epoch: ");
    }
}

PBT_TEST_W(C14, text_line_reader, 0.5)
{
    auto f = static_cast<Form>(c.draw(4));
    Rows want;
    Text t;
    std::size_t n = 1 + c.size(8);
    for (std::size_t i = 0; i < n; i++) {
        Text line;
        for (char32_t ch : any_text(c, false, 10)) {
            if (ch != '\n' && ch != '\r') {
                line += ch;
            }
        }
        if (i == 0 && (line.empty() || ambiguous(line))) {
            line.insert(0, 1, U'x');
        }
        if (i + 1 == n && line.empty()) {
            line = U"last";
        }
        want.push_back({utf8(line)});
        t += line;
        if (i + 1 < n || c.flag()) {
            t += c.pick<const char32_t *>({U"\n", U"\r\n", U"\n"});
        }
    }
    std::string raw = encode(Text(1, 0xFEFF) + t, f);
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    Data_reader_params p;
    p.dataset.push_back(make_store(c, raw, del));
    p.batch_size = 1 + c.size(4);
    any_parallelism(c, p);
    c.desc(name_of(f), " lines: ", quote(raw), " via ", pbt::name_of(del),
           " utf8 buffer=", mlio::verif::utf8_buffer_size, " chunk=", mlio::verif::chunk_size);
    c.nontrivial(f != Form::utf8 && n > 1);
    Text_line_reader reader{p};
    Epoch e = read_epoch(reader);
    ENSURE(!e.failed, "reading failed: ", e.error);
    check_rows(rows_of(e.examples), want);
}

// Invalid text also reaches the caller of a reader as an error.
PBT_TEST_W(C14, readers_report_invalid_text, 0.3)
{
    auto f = static_cast<Form>(1 + c.draw(3));
    bool be = f == Form::utf16be || f == Form::utf32be;
    bool wide = f == Form::utf32le || f == Form::utf32be;
    std::size_t n = 1 + c.size(6);
    std::size_t bad = c.draw(n - 1);
    std::string raw = encode(Text(1, 0xFEFF), f);
    for (std::size_t i = 0; i < n; i++) {
        raw += encode(U"a" + Text(c.draw(5), U'\u20ac'), f);
        if (i == bad) {
            if (wide) {
                put32(raw, 0x110000, be);
            }
            else {
                put16(raw, 0xDC00, be);
            }
        }
        raw += encode(U"\n", f);
    }
    Delivery del = any_delivery(c);
    small_utf8_buffer(c);
    Data_reader_params p;
    p.dataset.push_back(make_store(c, raw, del));
    p.batch_size = 1 + c.size(4);
    p.bad_example_handling = c.pick({Bad_example_handling::error, Bad_example_handling::skip,
                                     Bad_example_handling::pad});
    any_parallelism(c, p);
    c.desc("row ", bad, " of ", n, " in ", name_of(f), ": ", quote(raw), " via ", pbt::name_of(del));
    c.nontrivial();
    Intrusive_ptr<Data_reader> reader;
    if (c.flag()) {
        Csv_params cp;
        cp.header_row_index = std::nullopt;
        cp.default_data_type = Data_type::string;
        reader = make_intrusive<Csv_reader>(p, cp);
    }
    else {
        reader = make_intrusive<Text_line_reader>(p);
    }
    Epoch e = read_epoch(*reader);
    ENSURE(e.failed, "the epoch ends as if all was well, with ", e.examples.size(), " examples");
}
