// C36: logging. What the library reports reaches the handler that is in force, whole
// and once, if its level is enabled, and nothing else does; and neither the level nor
// the handler, whatever it does, changes what is read.
#include <sys/stat.h>

#include <atomic>
#include <fstream>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

#include <mlio/init.h>
#include <mlio/logging.h>

#include "numbered.h"

using namespace mlio;
using namespace pbt;

namespace {

using Message = std::pair<Log_level, std::string>;

constexpr Log_level g_levels[] = {Log_level::off, Log_level::warning, Log_level::info,
                                  Log_level::debug};

// A handler of the test. They are told apart by their numbers.
struct Recorder {
    std::mutex mutex;
    std::vector<std::pair<std::size_t, Message>> seen;

    Log_message_handler handler(std::size_t number, int throws)
    {
        return [this, number, throws](Log_level level, std::string_view msg) {
            {
                std::lock_guard<std::mutex> lock{mutex};
                if (seen.size() < 100000) {
                    seen.emplace_back(number, Message{level, std::string{msg}});
                }
            }
            if (throws == 1) {
                throw std::runtime_error{"the handler fails"};
            }
            if (throws == 2) {
                throw 7;
            }
        };
    }

    std::vector<std::pair<std::size_t, Message>> take()
    {
        std::lock_guard<std::mutex> lock{mutex};
        return std::move(seen);
    }
};

// Puts the handler of the harness back.
struct Restore {
    Log_message_handler handler;

    ~Restore()
    {
        set_log_message_handler(std::move(handler));
        set_log_level(Log_level::warning);
    }
};

std::string show(const Message &m)
{
    return std::to_string(static_cast<int>(m.first)) + " " + quote(m.second);
}

// Characters that mean something to those who format messages.
std::string wild(Case &c, std::size_t n)
{
    static const std::vector<std::string> parts{"{",  "}",  "{0}", "{}", "{1:n}", "%s", "%n", "\\",
                                                "'",  "#",  "a",   "7",  "\xc3\xa9", "\xff", " x",
                                                "{0:.64}", "\t", "%%", "\x01"};
    std::string s;
    for (std::size_t i = 1 + c.draw(n); i > 0; i--) {
        s += c.pick(parts);
    }
    return s;
}

}  // namespace

// A history of levels, handlers and of what is to be reported.
PBT_TEST(C36, history)
{
    Recorder rec;
    Restore restore{set_log_message_handler(rec.handler(0, 0))};
    std::size_t current = 0;  // SIZE_MAX: none
    Log_level level = Log_level::warning;
    set_log_level(level);

    std::string top = scratch_dir("logs");
    std::size_t n = 1 + c.size(20);
    std::size_t reported = 0;
    std::ostringstream story;
    for (std::size_t i = 0; i < n; i++) {
        std::vector<Message> want;
        bool exact = true;  // else some of `want` is only a part of the message
        switch (c.weighted({4, 4, 3, 3, 1, 3})) {
        case 0:
            level = g_levels[c.draw(3)];
            set_log_level(level);
            story << "\n  level " << static_cast<int>(level);
            break;
        case 1: {
            std::size_t next = i + 1;
            int throws = static_cast<int>(c.weighted({3, 1, 1}));
            Log_message_handler old;
            if (c.chance(1, 4)) {
                next = SIZE_MAX;
                old = set_log_message_handler(c.flag() ? Log_message_handler{} : nullptr);
            }
            else {
                old = set_log_message_handler(rec.handler(next, throws));
            }
            story << "\n  handler " << static_cast<int>(next) << " throws " << throws;
            // What is returned is the handler before.
            ENSURE((old == nullptr) == (current == SIZE_MAX), "after:", story.str(),
                   "\nthe handler before is ", old == nullptr ? "none" : "one");
            if (old != nullptr) {
                try {
                    old(Log_level::info, "a mark");
                }
                catch (...) {
                }
                auto seen = rec.take();
                ENSURE(seen.size() == 1 && seen[0].first == current, "after:", story.str(),
                       "\nanother handler than the one before is returned");
            }
            current = next;
            break;
        }
        case 2: {
            std::string path = top;
            if (c.chance(1, 5)) {
                // A long one.
                for (std::size_t k = 1 + c.draw(9); k > 0; k--) {
                    path += "/" + std::string(200, 'd');
                    ::mkdir(path.c_str(), 0755);
                }
            }
            path += "/" + wild(c, 4) + "w";
            write_file(path, "text\n");
            story << "\n  open the file " << quote(path);
            File f{path, c.flag()};
            want.emplace_back(Log_level::info, "The file '" + path + "' is being opened.");
            (void)f.open_read();
            break;
        }
        case 3: {
            story << "\n  open memory";
            In_memory_store s{slice_of("text\n")};
            want.emplace_back(Log_level::info,
                              "The in-memory store '" + s.id() + "' is being opened.");
            (void)s.open_read();
            break;
        }
        case 4:
            story << "\n  initialize again";
            initialize();
            want.emplace_back(Log_level::warning, "MLIO is already initialized.");
            break;
        default: {
            // A dataset with bad rows.
            std::string path = top + "/" + wild(c, 4) + ".csv";
            std::string value = "w" + wild(c, 6);
            bool bom = c.chance(1, 3);
            std::size_t bad = 1 + c.size(4);
            std::string data = bom ? "\xef\xbb\xbf" : "";
            data += "a{0}b" + std::string(c.chance(1, 5) ? c.draw(3000) : 0, 'n') + "\n1\n";
            for (std::size_t k = 0; k < bad; k++) {
                data += value + "\n2\n";
            }
            write_file(path, data);
            story << "\n  read " << bad << " bad rows " << quote(value) << (bom ? " with a BOM" : "");
            Csv_params csv{};
            csv.default_data_type = Data_type::int64;
            Data_reader_params p{};
            p.dataset = {make_intrusive<File>(path, true)};
            p.batch_size = 1;
            p.bad_example_handling = Bad_example_handling::skip_warn;
            p.warn_bad_instances = true;
            exact = false;
            auto opening = Message{Log_level::info, "The file '" + path + "' is being opened."};
            want.push_back(opening);
            if (bom) {
                want.emplace_back(Log_level::debug, "BOM");
            }
            for (std::size_t k = 0; k < bad; k++) {
                want.emplace_back(Log_level::warning, "'" + path + "'");
                want.emplace_back(Log_level::warning, "The example #" + std::to_string(2 * k + 1));
            }
            auto reader = make_intrusive<Csv_reader>(std::move(p), csv);
            Epoch e = read_epoch(*reader);
            reader = nullptr;
            ENSURE(!e.failed, "after:", story.str(), "\nreading fails with ", e.error);
            ENSURE(e.examples.size() == bad + 1, "after:", story.str(), "\n", e.examples.size(),
                   " examples have been read");
            break;
        }
        }
        // What has been reported.
        auto seen = rec.take();
        std::vector<Message> missing;
        for (auto &w : want) {
            if (w.first <= level && current != SIZE_MAX) {
                missing.push_back(w);
            }
        }
        c.desc(story.str());
        ENSURE(seen.size() == missing.size(), "after:", story.str(), "\n", seen.size(),
               " messages instead of ", missing.size(),
               seen.empty() ? "" : ", the last is " + show(seen.back().second));
        for (auto &s : seen) {
            ENSURE(s.first == current, "after:", story.str(), "\na message to the handler ", s.first);
            auto pos = std::find_if(missing.begin(), missing.end(), [&](auto &w) {
                return w.first == s.second.first &&
                       (exact ? w.second == s.second.second
                              : s.second.second.find(w.second) != std::string::npos);
            });
            ENSURE(pos != missing.end(), "after:", story.str(), "\nan unexpected message ",
                   show(s.second));
            missing.erase(pos);
            reported++;
        }
    }
    c.nontrivial(reported > 1);
    c.tag(reported != 0 ? "messages" : "no messages");
}

// The messages at a level are those of the most detailed one which belong to it.
PBT_TEST_W(C36, levels, 0.7)
{
    Recorder rec;
    Restore restore{set_log_message_handler(rec.handler(0, 0))};

    Numbered n = any_numbered(c, 30);
    Data_reader_params p;
    p.batch_size = 1 + c.size(6);
    p.last_example_handling = static_cast<Last_example_handling>(c.draw(4));
    p.bad_example_handling = c.pick<Bad_example_handling>(
        {Bad_example_handling::skip, Bad_example_handling::skip_warn, Bad_example_handling::pad,
         Bad_example_handling::pad_warn});
    p.warn_bad_instances = c.flag();
    any_parallelism(c, p);
    std::size_t total = 0;
    for (auto s : n.store_sizes) {
        total += s;
    }
    if (n.format != Format::text) {
        for (std::size_t i = 1; i < total; i++) {
            if (c.chance(1, 4)) {
                n.bad.insert(i);
            }
        }
    }
    n.fill(c, p);
    c.desc(n.show(), " batch=", p.batch_size, " last=", static_cast<int>(p.last_example_handling),
           " bad_handling=", static_cast<int>(p.bad_example_handling), " warn=",
           p.warn_bad_instances);

    auto run = [&](Log_level level, int throws) {
        set_log_level(level);
        set_log_message_handler(throws < 0 ? Log_message_handler{} : rec.handler(0, throws));
        auto reader = n.make(p);
        Epoch e = read_epoch(*reader);
        reader = nullptr;
        // The features of a protobuf message have no order.
        bool ordered = n.format != Format::recordio && n.format != Format::recordio_sparse;
        if (!ordered) {
            for (auto &ex : e.examples) {
                std::sort(ex.columns.begin(), ex.columns.end(),
                          [](auto &a, auto &b) { return a.name < b.name; });
            }
        }
        std::vector<std::string> log;
        for (auto &s : rec.take()) {
            ENSURE(s.second.first == Log_level::warning || s.second.first == Log_level::info ||
                       s.second.first == Log_level::debug,
                   "a message of the level ", static_cast<int>(s.second.first));
            ENSURE(s.second.first <= level, "a message above the level ", static_cast<int>(level),
                   ": ", show(s.second));
            std::string m = show(s.second);
            auto at = m.find('#');
            if (!ordered && at != std::string::npos) {
                // The one that is found to be bad first is named.
                m = m.substr(0, 2) + m.substr(at, m.find(' ', at) - at);
            }
            log.push_back(m);
        }
        std::sort(log.begin(), log.end());
        return std::make_pair(std::move(e), std::move(log));
    };
    auto most = run(Log_level::debug, 0);
    for (std::size_t k = 1 + c.draw(2); k > 0; k--) {
        Log_level level = g_levels[c.draw(3)];
        int throws = static_cast<int>(c.draw(3)) - 1;
        auto got = run(level, throws);
        ENSURE(got.first.failed == most.first.failed && got.first.examples == most.first.examples,
               "at the level ", static_cast<int>(level), " with the handler ", throws,
               " another result is read: ", got.first.error, " ", show(got.first.examples),
               "\ninstead of: ", most.first.error, " ", show(most.first.examples));
        std::vector<std::string> want;
        // Warnings about instances are for those who see warnings.
        for (auto &m : most.second) {
            if (throws >= 0 && m[0] - '0' <= static_cast<int>(level)) {
                want.push_back(m);
            }
        }
        ENSURE(got.second == want, "at the level ", static_cast<int>(level), " with the handler ",
               throws, " there are the messages ", join(got.second), "\ninstead of ", join(want));
    }
    c.nontrivial(!most.second.empty() && !n.bad.empty());
    c.tag(n.bad.empty() ? "no bad instances" : "bad instances");
}
