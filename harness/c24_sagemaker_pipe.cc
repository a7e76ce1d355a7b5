// C24: SageMaker pipe channels are read whole, in order, one epoch per FIFO.
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <thread>

#include "csv_model.h"

#include <mlio/data_stores/sagemaker_pipe.h>
#include <mlio/streams/sagemaker_pipe_input_stream.h>
#include <mlio/streams/stream_error.h>
#include <mlio/text_line_reader.h>

using namespace mlio;
using namespace pbt;

namespace {

// Called whenever the library pauses for a second or more, instead of the pause.
thread_local std::function<void()> on_pause;

bool skip_pause(const ::timespec *t)
{
    if (t == nullptr || t->tv_sec < 1 || !on_pause) {
        return false;
    }
    on_pause();
    return true;
}

}  // namespace

extern "C" int nanosleep(const ::timespec *t, ::timespec *rem)
{
    static auto real =
        reinterpret_cast<int (*)(const ::timespec *, ::timespec *)>(::dlsym(RTLD_NEXT, "nanosleep"));
    return skip_pause(t) ? 0 : real(t, rem);
}

extern "C" int clock_nanosleep(clockid_t k, int flags, const ::timespec *t, ::timespec *rem)
{
    static auto real = reinterpret_cast<int (*)(clockid_t, int, const ::timespec *, ::timespec *)>(
        ::dlsym(RTLD_NEXT, "clock_nanosleep"));
    return flags == 0 && skip_pause(t) ? 0 : real(k, flags, t, rem);
}

namespace {

using namespace std::chrono_literals;

std::string new_channel()
{
    static int n = 0;
    return scratch_path("channel" + std::to_string(n++));
}

std::string fifo_of(const std::string &channel, std::size_t id)
{
    return channel + "_" + std::to_string(id);
}

void make_fifo(const std::string &path)
{
    if (::mkfifo(path.c_str(), 0600) != 0) {
        throw std::runtime_error("harness: mkfifo " + path);
    }
}

// Writes a text into a FIFO in pieces, with pauses.
class Writer {
public:
    Writer(std::string path, std::string data, std::vector<std::size_t> pieces,
           std::vector<unsigned> pauses_us, bool early)
        : path_{std::move(path)}
        , data_{std::move(data)}
        , pieces_{std::move(pieces)}
        , pauses_us_{std::move(pauses_us)}
    {
        if (early) {
            // The data waits in the FIFO until it is opened.
            early_fd_ = ::open(path_.c_str(), O_RDWR | O_NONBLOCK | O_CLOEXEC);
        }
        t_ = std::thread{[this] { run(); }};
    }

    ~Writer()
    {
        stop();
    }

    Writer(const Writer &) = delete;
    Writer &operator=(const Writer &) = delete;

    void stop()
    {
        stop_ = true;
        if (t_.joinable()) {
            t_.join();
        }
    }

    // The reader has opened the FIFO.
    void opened()
    {
        opened_ = true;
    }

private:
    void run()
    {
        int fd = -1;
        for (unsigned n = 0; !stop_; n++) {
            fd = ::open(path_.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC);
            if (fd != -1) {
                break;
            }
            ::usleep(n < 50 ? 20 : 500);
        }
        std::size_t at = 0;
        for (std::size_t i = 0; at < data_.size() && !stop_; i++) {
            unsigned pause = pauses_us_.empty() ? 0 : pauses_us_[i % pauses_us_.size()];
            if (pause > 0) {
                ::usleep(pause);
            }
            std::size_t n = pieces_.empty() ? data_.size() : pieces_[i % pieces_.size()];
            n = std::min(n, data_.size() - at);
            while (n > 0 && !stop_) {
                ssize_t w = ::write(fd, data_.data() + at, n);
                if (w > 0) {
                    at += static_cast<std::size_t>(w);
                    n -= static_cast<std::size_t>(w);
                }
                else if (errno == EAGAIN) {
                    ::pollfd p{fd, POLLOUT, 0};
                    ::poll(&p, 1, 5);
                }
                else {
                    stop_ = true;
                }
            }
        }
        while (early_fd_ != -1 && !opened_ && !stop_) {
            ::usleep(50);
        }
        if (fd != -1) {
            ::close(fd);
        }
        if (early_fd_ != -1) {
            ::close(early_fd_);
        }
    }

    std::string path_;
    std::string data_;
    std::vector<std::size_t> pieces_;
    std::vector<unsigned> pauses_us_;
    int early_fd_ = -1;
    std::atomic<bool> stop_{};
    std::atomic<bool> opened_{};
    std::thread t_;
};

std::string any_text(Case &c)
{
    std::size_t n = c.weighted({1, 4, 3, 2});
    std::string s(n == 0 ? 0 : n == 1 ? c.size(60) + 1 : n == 2 ? c.draw(9000) + 1 : c.draw(150000),
                  '\0');
    for (auto &ch : s) {
        ch = static_cast<char>(c.rng()());
    }
    return s;
}

std::unique_ptr<Writer> any_writer(Case &c, const std::string &path, const std::string &data,
                                   bool may_be_early = true)
{
    std::vector<std::size_t> pieces;
    std::vector<unsigned> pauses;
    std::size_t n = c.draw(3);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t p = 1 + (c.flag() ? c.draw(20) : c.draw(70000));
        pieces.push_back(std::max(p, data.size() / 200 + 1));
    }
    n = c.chance(1, 3) ? 1 + c.draw(2) : 0;
    for (std::size_t i = 0; i < n; i++) {
        pauses.push_back(static_cast<unsigned>(c.draw(300)));
    }
    // An empty FIFO has to be opened before its writer closes it.
    bool early = may_be_early && !data.empty() && c.chance(1, 3);
    return std::make_unique<Writer>(path, data, pieces, pauses, early);
}

struct Channel {
    std::string path;
    std::size_t next{};   // The FIFO that the next opening reads.
    std::size_t made{};   // FIFOs below exist.
    Intrusive_ptr<Input_stream> stream;
    std::unique_ptr<Writer> writer;
    std::string data;     // of the open FIFO
    std::size_t pos{};
    std::size_t id{};
    bool ended{};
};

}  // namespace

PBT_TEST(C24, history)
{
    std::vector<Channel> channels(1 + c.draw(1));
    for (auto &ch : channels) {
        ch.path = new_channel();
    }
    std::vector<Intrusive_ptr<Input_stream>> closed;  // streams that are closed, but still exist
    std::ostringstream log;
    log << "\ncalls:";
    std::size_t opened = 0;
    std::size_t calls = 2 + c.size(25);
    auto finish = [&](Channel &ch) {
        ch.next = ch.id + 1;
        ch.writer = nullptr;
    };
    for (std::size_t k = 0; k < calls; k++) {
        std::size_t which = c.draw(channels.size() - 1);
        Channel &ch = channels[which];
        log << " " << which << ":";
        bool is_open = ch.stream != nullptr;
        std::size_t op = is_open ? c.weighted({8, 2, 2, 1, 2}) : 5;
        if (op == 0) {
            std::size_t n = c.flag() ? c.size(100) : c.draw(40000);
            std::string got;
            log << "read(" << n << ")";
            auto kind = kind_of_error([&] {
                if (c.flag()) {
                    got = to_string(ch.stream->read(n));
                }
                else {
                    std::vector<std::byte> b(n);
                    std::size_t m = ch.stream->read(Mutable_memory_span{b.data(), b.size()});
                    ENSURE(m <= n, "more bytes than asked for", log.str());
                    got.assign(reinterpret_cast<const char *>(b.data()), m);
                }
            });
            ENSURE(kind.empty(), "reading fails with '", kind, "'", log.str());
            ENSURE(ch.pos + got.size() <= ch.data.size() &&
                       ch.data.compare(ch.pos, got.size(), got) == 0,
                   "other bytes at ", ch.pos, " of FIFO ", ch.id, log.str());
            ch.pos += got.size();
            log << "=" << got.size();
            if (n > 0 && got.empty()) {
                ENSURE(ch.pos == ch.data.size(), "FIFO ", ch.id, " ends at ", ch.pos,
                       " instead of ", ch.data.size(), log.str());
                ch.ended = true;
            }
        }
        else if (op == 1) {
            log << "read-all";
            while (!ch.ended) {
                Memory_slice m;
                auto kind = kind_of_error([&] { m = ch.stream->read(20000); });
                ENSURE(kind.empty(), "reading fails with '", kind, "'", log.str());
                std::string got = to_string(m);
                ENSURE(ch.pos + got.size() <= ch.data.size() &&
                           ch.data.compare(ch.pos, got.size(), got) == 0,
                       "other bytes at ", ch.pos, " of FIFO ", ch.id, log.str());
                ch.pos += got.size();
                if (got.empty()) {
                    ENSURE(ch.pos == ch.data.size(), "FIFO ", ch.id, " ends at ", ch.pos,
                           " instead of ", ch.data.size(), log.str());
                    ch.ended = true;
                }
            }
        }
        else if (op == 2) {
            log << "close";
            ch.stream->close();
            ENSURE(ch.stream->closed(), "the stream is not closed", log.str());
            if (c.flag()) {
                ch.stream->close();
                log << ",close";
            }
            auto kind = kind_of_error([&] { ch.stream->read(1); });
            ENSURE(kind == "stream", "reading a closed stream: '", kind, "'", log.str());
            if (c.flag()) {
                closed.push_back(std::move(ch.stream));
            }
            ch.stream = nullptr;
            finish(ch);
        }
        else if (op == 3) {
            log << "release";
            ch.stream = nullptr;
            finish(ch);
        }
        else if (op == 4) {
            // The channel is in use, even if its next FIFO exists.
            std::optional<std::size_t> given;
            if (c.flag()) {
                given = c.flag() ? ch.id : ch.id + 1;
            }
            log << "open-again" << (given ? "(given)" : "");
            Intrusive_ptr<Input_stream> s;
            std::error_code code;
            auto kind = kind_of_error([&] {
                try {
                    if (c.flag()) {
                        s = make_sagemaker_pipe_input_stream(ch.path, 5s, given);
                    }
                    else {
                        s = make_intrusive<Sagemaker_pipe>(ch.path, 5s, given)->open_read();
                    }
                }
                catch (const std::system_error &e) {
                    code = e.code();
                    throw;
                }
            });
            ENSURE(kind == "system" && !s, "a second stream of a channel: '", kind, "'", log.str());
            ENSURE(code == std::errc::permission_denied, "a second stream of a channel: ",
                   code.message(), log.str());
            ENSURE(!ch.stream->closed(), "the first stream is closed", log.str());
        }
        else {
            std::optional<std::size_t> given;
            if (c.chance(1, 4)) {
                given = ch.made + c.draw(3);
            }
            ch.id = given.value_or(ch.next);
            std::string path = fifo_of(ch.path, ch.id);
            ch.data = any_text(c);
            ch.pos = 0;
            ch.ended = false;
            // Some FIFOs do not exist yet.
            std::size_t appears = c.weighted({8, 1, 1, 1});
            log << "open(" << ch.id << (given ? ", given" : "") << ", " << ch.data.size()
                << " bytes, pauses " << appears << ")";
            std::size_t pauses = 0;
            on_pause = [&] {
                pauses++;
                if (pauses == appears && appears < 3) {
                    make_fifo(path);
                    ch.writer = any_writer(c, path, ch.data);
                }
            };
            bool exists = ::access(path.c_str(), F_OK) == 0;
            if (exists) {
                // A FIFO that could not be read the first time.
                appears = 0;
            }
            if (appears == 0) {
                if (!exists) {
                    make_fifo(path);
                }
                ch.writer = any_writer(c, path, ch.data);
            }
            auto kind = kind_of_error([&] {
                if (c.flag()) {
                    ch.stream = make_sagemaker_pipe_input_stream(ch.path, 60s, given);
                }
                else {
                    ch.stream = make_intrusive<Sagemaker_pipe>(ch.path, 60s, given)->open_read();
                }
            });
            on_pause = nullptr;
            if (appears == 3) {
                ENSURE(kind == "system", "a FIFO that does not exist: '", kind, "'", log.str());
                log << "!";
                ch.stream = nullptr;
                ch.writer = nullptr;
                ch.next = ch.id;
                continue;
            }
            ENSURE(kind.empty(), "opening fails with '", kind, "'", log.str());
            ENSURE(!ch.stream->closed() && !ch.stream->seekable(), "state of an open stream",
                   log.str());
            ch.writer->opened();
            ch.made = std::max(ch.made, ch.id + 1);
            opened++;
            // Streams of earlier openings do not interfere.
            if (!closed.empty() && c.flag()) {
                log << ",drop-old";
                closed.clear();
            }
            else if (!closed.empty() && c.flag()) {
                log << ",close-old";
                closed.back()->close();
            }
        }
    }
    c.desc(log.str());
    c.nontrivial(opened > 1);
}

// A reader over a channel reads one FIFO in each epoch.
PBT_TEST_W(C24, epochs_of_a_reader, 0.4)
{
    std::string path = new_channel();
    std::size_t epochs = 1 + c.draw(3);
    std::size_t first = c.flag() ? 0 : 1 + c.draw(5);
    bool gzip = c.flag();
    std::size_t n = 1 + c.size(30);
    std::vector<std::string> texts;
    std::vector<std::vector<std::string>> lines(epochs);
    for (std::size_t e = 0; e < epochs; e++) {
        std::string t;
        for (std::size_t i = 0; i < n; i++) {
            std::string l = "e" + std::to_string(e) + "-" + std::to_string(i) +
                            std::string(c.chance(1, 8) ? c.draw(3000) : 0, 'x');
            lines[e].push_back(l);
            t += l + "\n";
        }
        texts.push_back(gzip ? deflate(t, 6, true) : t);
        make_fifo(fifo_of(path, first + e));
    }
    Data_reader_params p{};
    std::optional<std::size_t> given;
    if (first > 0) {
        given = first;
    }
    p.dataset.push_back(make_intrusive<Sagemaker_pipe>(
        path, 60s, given, gzip ? Compression::gzip : Compression::none));
    p.batch_size = 1 + c.draw(5);
    any_parallelism(c, p);
    c.desc(epochs, " epochs of ", n, " lines from FIFO ", first, gzip ? ", gzip" : "");
    auto r = make_intrusive<Text_line_reader>(p);
    for (std::size_t e = 0; e < epochs; e++) {
        auto w = any_writer(c, fifo_of(path, first + e), texts[e], false);
        // Some epochs are not read to their end.
        std::size_t max = c.chance(1, 4) ? 1 + c.draw(2) : 1000000;
        std::size_t k = 0;
        std::size_t row = 0;
        for (; k < max; k++) {
            auto ex = r->read_example();
            if (!ex) {
                break;
            }
            Ex x = to_ex(*ex);
            for (std::size_t i = 0; i + x.padding < x.columns[0].values.size(); i++, row++) {
                ENSURE(row < n && x.columns[0].values[i] == lines[e][row], "epoch ", e, ", line ",
                       row, ": ", x.columns[0].values[i].substr(0, 40));
            }
        }
        if (k < max) {
            ENSURE(row == n, "epoch ", e, " has ", row, " lines instead of ", n);
        }
        r->reset();
    }
    c.nontrivial(epochs > 1);
}

// Streams of different channels can be opened by several threads at once.
PBT_TEST_W(C24, channels_of_threads, 0.3)
{
    std::size_t n = 2 + c.draw(6);
    bool same = c.chance(1, 3);
    std::size_t rounds = same ? 1 : 1 + c.draw(4);
    std::vector<std::vector<std::string>> paths(n);
    std::vector<std::unique_ptr<Writer>> writers;
    for (std::size_t i = 0; i < n; i++) {
        for (std::size_t j = 0; j < rounds; j++) {
            paths[i].push_back(same && i > 0 ? paths[0][0] : new_channel());
            if (!same || i == 0) {
                make_fifo(fifo_of(paths[i][j], 0));
                // Held open, such that it can be opened at any time.
                writers.push_back(std::make_unique<Writer>(
                    fifo_of(paths[i][j], 0), "text" + std::to_string(i), std::vector<std::size_t>{},
                    std::vector<unsigned>{}, true));
            }
        }
    }
    c.desc(n, " threads, ", rounds, " rounds", same ? ", one channel" : "");
    std::atomic<int> ready{};
    std::atomic<std::size_t> won{};
    std::atomic<int> tried{};
    std::vector<std::string> errors(n);
    std::vector<std::thread> threads;
    for (std::size_t i = 0; i < n; i++) {
        threads.emplace_back([&, i] {
            ready++;
            while (ready < static_cast<int>(n)) {
            }
            for (auto &path : paths[i]) {
                Intrusive_ptr<Input_stream> s;
                auto kind = kind_of_error([&] { s = make_sagemaker_pipe_input_stream(path, 30s); });
                if (same) {
                    won += kind.empty() ? 1 : 0;
                    tried++;
                    while (tried < static_cast<int>(n)) {
                        ::usleep(10);
                    }
                    if (!kind.empty() && kind != "system") {
                        errors[i] = "ends with '" + kind + "'";
                    }
                    continue;
                }
                if (!kind.empty()) {
                    errors[i] = "fails with '" + kind + "'";
                    break;
                }
                std::string got = to_string(s->read(100));
                if (got != "text" + std::to_string(i)) {
                    errors[i] = "read '" + got + "'";
                }
            }
        });
    }
    for (auto &t : threads) {
        t.join();
    }
    for (std::size_t i = 0; i < n; i++) {
        ENSURE(errors[i].empty(), "thread ", i, ": opening a channel ", errors[i]);
    }
    if (same) {
        ENSURE(won == 1, won.load(), " streams of one channel were open at once");
    }
    c.nontrivial(n > 2);
}

// What cannot be a channel is refused right away.
PBT_TEST_W(C24, refused, 0.05)
{
    std::string path = c.flag() ? "" : new_channel();
    if (!path.empty() && c.flag()) {
        path += c.flag() ? "/" : "\\";
    }
    bool bad_path = path.empty() || path.back() == '/' || path.back() == '\\';
    auto k = c.pick<Compression>({Compression::none, Compression::gzip, Compression::zip, Compression::infer});
    std::optional<std::size_t> id;
    if (c.flag()) {
        id = c.draw(3);
    }
    c.desc(quote(path), " compression=", static_cast<int>(k));
    c.nontrivial(bad_path || k == Compression::infer);
    auto kind = kind_of_error([&] { Sagemaker_pipe{path, 1s, id, k}; });
    std::string want = bad_path ? "invalid_argument" : k == Compression::infer ? "not_supported" : "";
    ENSURE(kind == want, "a channel at ", quote(path), ": '", kind, "' instead of '", want, "'");
    if (bad_path) {
        kind = kind_of_error([&] { make_sagemaker_pipe_input_stream(path, 1s); });
        ENSURE(kind == want, "a stream of ", quote(path), ": '", kind, "'");
    }
}

// No data within the timeout is an error, not an end.
PBT_TEST_W(C24, timeout, 0.02)
{
    std::string path = new_channel();
    make_fifo(fifo_of(path, 0));
    std::size_t form = c.draw(2);
    std::string data(c.draw(100) + 1, 'd');
    c.desc("form ", form, ", ", data.size(), " bytes");
    int fd = -1;
    if (form > 0) {
        fd = ::open(fifo_of(path, 0).c_str(), O_RDWR | O_NONBLOCK | O_CLOEXEC);
    }
    if (form == 2) {
        (void)::write(fd, data.data(), data.size());
    }
    std::string got;
    std::string what;
    bool ended = false;
    auto kind = kind_of_error(
        [&] {
            auto s = make_sagemaker_pipe_input_stream(path, 1s);
            while (!ended) {
                std::string part = to_string(s->read(50));
                got += part;
                ended = part.empty();
            }
        },
        &what);
    ::close(fd);
    ENSURE(kind == "system" && !ended, "a FIFO without data: '", kind, "' ", what);
    ENSURE(got == (form == 2 ? data : ""), "read '", got, "'");
    c.nontrivial();
}

// The process may have many files open.
PBT_FIXED(C24, many_open_files)
{
    ::rlimit lim{};
    ::getrlimit(RLIMIT_NOFILE, &lim);
    if (lim.rlim_cur < 3000) {
        return;
    }
    std::string path = new_channel();
    make_fifo(fifo_of(path, 0));
    std::vector<int> fds;
    for (int fd = 0; fd < 2000;) {
        fd = ::dup(2);
        if (fd == -1) {
            break;
        }
        fds.push_back(fd);
    }
    std::string got;
    auto kind = kind_of_error([&] {
        Writer w{fifo_of(path, 0), "some text", {}, {}, true};
        auto s = make_sagemaker_pipe_input_stream(path, 30s);
        w.opened();
        for (Memory_slice m; !(m = s->read(4)).empty();) {
            got += to_string(m);
        }
    });
    for (int fd : fds) {
        ::close(fd);
    }
    ENSURE(kind.empty() && got == "some text", "with 2000 open files: '", kind, "' ", got);
}
