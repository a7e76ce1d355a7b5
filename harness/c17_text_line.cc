// C17: text line datasets yield every line verbatim and in order.
#include "csv_model.h"

#include <mlio/text_line_reader.h>

using namespace mlio;
using namespace pbt;

namespace {

std::string any_line(Case &c)
{
    std::string s;
    std::size_t n = c.size(c.chance(1, 10) ? 300 : 10);
    for (std::size_t i = 0; i < n; i++) {
        switch (c.weighted({6, 1, 1, 1, 1, 1})) {
        case 0:
            s += static_cast<char>('a' + c.draw(25));
            break;
        case 1:
            s += '\0';
            break;
        case 2:
            s += c.pick<char>({'"', ',', ' ', '\t', '\v', '\f', '\x1a', '\x7f', '#'});
            break;
        case 3:
            s += utf8_of(c.pick<std::uint32_t>({0xE9, 0x20AC, 0x1F600, 0xFEFF, 0x85, 0x2028, 0x10FFFF}));
            break;
        case 4:
            s += utf8_of(static_cast<std::uint32_t>(0x80 + c.draw(0xD7FF - 0x80)));
            break;
        default:
            s += std::string(1 + c.draw(30), 'y');
            break;
        }
    }
    return s;
}

// The definition of a line: up to LF, CR or CRLF, whichever comes first; a last
// line without terminator counts if it is not empty.
Row split(const std::string &t)
{
    Row out;
    std::string line;
    for (std::size_t i = 0; i < t.size(); i++) {
        if (t[i] == '\n' || t[i] == '\r') {
            if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') {
                i++;
            }
            out.push_back(line);
            line.clear();
        }
        else {
            line += t[i];
        }
    }
    if (!line.empty()) {
        out.push_back(line);
    }
    return out;
}

}  // namespace

PBT_TEST(C17, lines_verbatim)
{
    std::size_t num_stores = c.weighted({5, 2, 1}) + 1;
    Rows want;
    Data_reader_params p;
    any_buffer_sizes(c);
    std::string texts;
    bool special = false;
    for (std::size_t s = 0; s < num_stores; s++) {
        std::string body;
        std::size_t n = c.size(12);
        for (std::size_t i = 0; i < n; i++) {
            body += any_line(c);
            if (i + 1 < n || !c.flag()) {
                body += c.pick<const char *>({"\n", "\r\n", "\r", "\n", "\r\r\n", "\n\r"});
            }
        }
        special = special || body.find('\r') != std::string::npos;
        std::string text = body;
        // A leading U+FEFF is a byte order mark, not text.
        if (c.chance(1, 8) || body.compare(0, 3, "\xEF\xBB\xBF") == 0) {
            text = "\xEF\xBB\xBF" + body;
        }
        for (auto &l : split(body)) {
            want.push_back({l});
        }
        Delivery del = any_delivery(c);
        texts += " " + quote(text, 300) + " via " + name_of(del);
        p.dataset.push_back(make_store(c, text, del));
    }
    p.batch_size = 1 + c.size(8);
    any_parallelism(c, p);
    c.desc("batch=", p.batch_size, " chunk=", mlio::verif::chunk_size, texts);
    c.nontrivial(want.size() > 2 && (special || num_stores > 1));

    Text_line_reader reader{p};
    Epoch e = read_epoch(reader);
    ENSURE(!e.failed, "reading failed: ", e.error);
    for (auto &ex : e.examples) {
        ENSURE(ex.columns.size() == 1, "a text line example has ", ex.columns.size(), " features");
        ENSURE(ex.columns[0].type == Data_type::string, "type");
        ENSURE(ex.padding == 0, "padding");
    }
    check_rows(rows_of(e.examples), want);
    if (c.chance(1, 3)) {
        reader.reset();
        Epoch e2 = read_epoch(reader);
        ENSURE(!e2.failed, "second epoch failed: ", e2.error);
        check_rows(rows_of(e2.examples), want, "second epoch: ");
    }
}
