// A writer of CSV text whose meaning is known, and helpers to read it back.
#pragma once

#include <algorithm>
#include <set>

#include "support.h"

namespace pbt {

using Row = std::vector<std::string>;
using Rows = std::vector<Row>;

struct Csv_dialect {
    char delim = ',';
    char quote = '"';
    std::optional<char> comment{};
    bool qnl{};
    bool skip_blank = true;

    void apply(mlio::Csv_params &p) const
    {
        p.delimiter = delim;
        p.quote_char = quote;
        p.comment_char = comment;
        p.allow_quoted_new_lines = qnl;
        p.skip_blank_lines = skip_blank;
    }

    std::string show() const
    {
        return quote_(delim) + quote_(quote) + (comment ? quote_(*comment) : "-") +
               (qnl ? " qnl" : "") + (skip_blank ? "" : " keep-blank");
    }

    static std::string quote_(char ch)
    {
        return pbt::quote(std::string_view(&ch, 1));
    }
};

inline Csv_dialect any_dialect(Case &c)
{
    Csv_dialect d;
    d.delim = c.pick<char>({',', ',', ';', '\t', '|', ' ', ':', 'x', '\x01'});
    do {
        d.quote = c.pick<char>({'"', '"', '"', '\'', '`', 'q', '|'});
    } while (d.quote == d.delim);
    if (c.flag()) {
        char ch;
        do {
            ch = c.pick<char>({'#', '#', '%', ';', '/', 'c'});
        } while (ch == d.delim || ch == d.quote);
        d.comment = ch;
    }
    d.qnl = c.flag();
    d.skip_blank = !c.chance(1, 3);
    return d;
}

inline std::string any_field(Case &c, const Csv_dialect &d, std::size_t max = 6)
{
    std::string s;
    std::size_t n = c.size(max);
    for (std::size_t i = 0; i < n; i++) {
        switch (c.weighted({10, 3, 3, 2, 2, 2, 2, 1, 1, 1})) {
        case 0:
            s += static_cast<char>('a' + c.draw(25));
            break;
        case 1:
            s += d.delim;
            break;
        case 2:
            s += d.quote;
            break;
        case 3:
            s += d.comment ? *d.comment : '#';
            break;
        case 4:
            s += static_cast<char>('0' + c.draw(9));
            break;
        case 5:
            if (d.qnl) {
                s += c.pick<const char *>({"\n", "\r", "\r\n", "\n\r"});
            }
            else {
                s += ' ';
            }
            break;
        case 6:
            s += utf8_of(c.pick<std::uint32_t>({0xE9, 0x20AC, 0x1F600, 0xFEFF, 0x7FF, 0xFFFD, 0x85,
                                                0x2028}));
            break;
        case 7:
            s += '\0';
            break;
        case 8:
            s += static_cast<char>(1 + c.draw(126));
            if (!d.qnl && (s.back() == '\n' || s.back() == '\r')) {
                s.back() = '~';
            }
            break;
        default:
            s += std::string(1 + c.draw(40), 'z');
            break;
        }
    }
    return s;
}

inline bool has_newline(const std::string &s)
{
    return s.find_first_of("\r\n") != std::string::npos;
}

// Writes rows as CSV text.
class Csv_writer {
public:
    Csv_writer(Case &c, const Csv_dialect &d) : c_{&c}, d_{d}
    {
        eol_kind_ = c.weighted({4, 2, 1, 2});
        if (c.chance(1, 8)) {
            text_ = "\xEF\xBB\xBF";
            has_bom_ = true;
        }
    }

    std::string field(const std::string &f, bool first_of_row, bool must_quote)
    {
        bool need = must_quote || f.find(d_.delim) != std::string::npos || has_newline(f) ||
                    f.find(d_.quote) != std::string::npos;
        if (first_of_row) {
            need = need || (d_.comment && !f.empty() && f[0] == *d_.comment);
            // The first character of the text would be a byte order mark.
            need = need || (text_.empty() && f.compare(0, 3, "\xEF\xBB\xBF") == 0);
        }
        if (!need && !c_->chance(1, 5)) {
            return f;
        }
        quoted_++;
        std::string s(1, d_.quote);
        for (char ch : f) {
            if (ch == d_.quote) {
                s += ch;
            }
            s += ch;
        }
        return s + d_.quote;
    }

    void row(const Row &r, bool last)
    {
        noise();
        bool lone_empty = r.size() == 1 && r[0].empty();
        bool unterminated = last && c_->chance(1, 3);
        std::string line;
        for (std::size_t i = 0; i < r.size(); i++) {
            if (i != 0) {
                line += d_.delim;
            }
            bool must = lone_empty && (d_.skip_blank || unterminated);
            line += field(r[i], i == 0, must);
        }
        put(line, !unterminated);
        if (last && !unterminated) {
            noise();
        }
    }

    // Comment lines and blank lines that do not count.
    void noise()
    {
        while (c_->chance(1, 6)) {
            if (d_.comment && c_->flag()) {
                std::string s(1, *d_.comment);
                std::size_t n = c_->size(6);
                for (std::size_t i = 0; i < n; i++) {
                    s += c_->pick<char>({'a', d_.delim, d_.quote, *d_.comment, ' ', d_.quote});
                }
                put(s, true);
                noise_++;
            }
            else if (d_.skip_blank) {
                put("", true);
                noise_++;
            }
        }
    }

    void put(const std::string &line, bool terminated)
    {
        text_ += line;
        if (!terminated) {
            return;
        }
        const char *eol[] = {"\n", "\r\n", "\r"};
        std::size_t k = eol_kind_ < 3 ? eol_kind_ : c_->draw(2);
        // CR followed by a blank line that ends with LF would read as one CRLF.
        if (line.empty() && k == 0 && !text_.empty() && text_.back() == '\r') {
            k = 1;
        }
        text_ += eol[k];
    }

    const std::string &text() const
    {
        return text_;
    }
    std::size_t quoted() const
    {
        return quoted_;
    }
    std::size_t noise_lines() const
    {
        return noise_;
    }
    bool has_bom() const
    {
        return has_bom_;
    }

private:
    Case *c_;
    Csv_dialect d_;
    std::size_t eol_kind_;
    std::string text_;
    std::size_t quoted_{};
    std::size_t noise_{};
    bool has_bom_{};
};

// The instances of an epoch as rows of strings, without padding.
inline Rows rows_of(const std::vector<Ex> &examples)
{
    Rows out;
    for (const Ex &e : examples) {
        if (e.columns.empty()) {
            continue;
        }
        std::size_t n = e.columns[0].shape.at(0);
        ENSURE(e.padding <= n, "padding ", e.padding, " of ", n);
        for (std::size_t i = 0; i + e.padding < n; i++) {
            Row r;
            for (const Column &col : e.columns) {
                ENSURE(col.shape.at(0) == n, "feature ", col.name, " has ", col.shape.at(0),
                       " rows instead of ", n);
                r.push_back(col.values.at(i));
            }
            out.push_back(std::move(r));
        }
    }
    return out;
}

inline std::string show(const Rows &rows)
{
    std::string s = "[";
    std::size_t n = 0;
    for (const Row &r : rows) {
        s += "(";
        for (std::size_t i = 0; i < r.size(); i++) {
            s += (i != 0 ? "," : "") + quote(r[i], 40);
        }
        s += ")";
        if (++n > 12) {
            s += "...";
            break;
        }
    }
    return s + "]";
}

inline void check_rows(const Rows &got, const Rows &want, const std::string &context = {})
{
    if (got == want) {
        return;
    }
    std::size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) {
        i++;
    }
    std::ostringstream o;
    o << context << "row " << i << " differs: got " << got.size() << " rows, expected "
      << want.size();
    if (i < got.size()) {
        o << "; got " << show(Rows{got[i]});
    }
    if (i < want.size()) {
        o << "; expected " << show(Rows{want[i]});
    }
    fail(o.str());
}

// Settings that must not matter.
inline void any_parallelism(Case &c, mlio::Data_reader_params &p)
{
    p.num_prefetched_examples = c.pick<std::size_t>({1, 2, 3, 8});
    p.num_parallel_reads = c.draw(4);
    if (c.chance(1, 3)) {
        mlio::verif::parallel_cut_off = 0;
    }
}

}  // namespace pbt
