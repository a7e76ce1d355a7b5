#include "pbt.h"

#include <array>

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <unordered_set>

#include "support.h"

// ---------------------------------------------------------------- coverage

namespace {
struct Region {
    std::uint8_t *b, *e;
};
std::vector<Region> &regions()
{
    static std::vector<Region> r;
    return r;
}
}  // namespace

extern "C" void __sanitizer_cov_8bit_counters_init(char *start, char *stop)
{
    auto *b = reinterpret_cast<std::uint8_t *>(start);
    for (auto &r : regions()) {
        if (r.b == b) {
            return;
        }
    }
    regions().push_back({b, reinterpret_cast<std::uint8_t *>(stop)});
}

// Defined by the harnesses in which a request for too much memory may fail.
extern "C" __attribute__((weak)) const char *vharness_asan_options();

extern "C" const char *__asan_default_options()
{
    if (&vharness_asan_options != nullptr) {
        return vharness_asan_options();
    }
    return "detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=24:"
           "allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1:"
           "handle_sigfpe=1:detect_stack_use_after_return=0:allocator_release_to_os_interval_ms=2000";
}

extern "C" const char *__ubsan_default_options()
{
    return "print_stacktrace=1:exitcode=77";
}

namespace pbt {

std::vector<Test> &tests()
{
    static std::vector<Test> t;
    return t;
}

void fail(std::string message, std::string key)
{
    throw Failure{std::move(message), std::move(key)};
}

std::string quote(std::string_view s, std::size_t max)
{
    static const char *hex = "0123456789abcdef";
    std::string o = "\"";
    std::size_t n = 0;
    for (char ch : s) {
        if (n++ >= max) {
            o += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        auto u = static_cast<unsigned char>(ch);
        if (ch == '\n') {
            o += "\\n";
        }
        else if (ch == '\r') {
            o += "\\r";
        }
        else if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        }
        else if (u < 0x20 || u >= 0x7f) {
            o += "\\x";
            o += hex[u >> 4];
            o += hex[u & 15];
        }
        else {
            o += ch;
        }
    }
    return o + "\"";
}

// ---------------------------------------------------------------- shared state

constexpr std::size_t max_choices = 1u << 17;
constexpr int exit_fail = 33;
constexpr int exit_ok = 0;

struct Shm {
    std::atomic<std::uint64_t> cases;
    std::atomic<std::uint64_t> nontrivial;
    std::atomic<std::uint64_t> discards;
    std::atomic<std::uint64_t> known;
    std::atomic<std::uint64_t> new_cov;
    std::atomic<std::int64_t> case_start_ms;  // 0: between cases
    std::atomic<std::uint32_t> test;
    std::atomic<std::uint32_t> n_choices;
    std::atomic<std::uint32_t> failed;
    std::uint64_t choices[max_choices];
    char message[16384];
    char key[256];
    char desc[65536];
};

static Shm *g_shm = nullptr;

static std::int64_t now_ms()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

static Shm *make_shm()
{
    void *p = ::mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return static_cast<Shm *>(p);
}

// ---------------------------------------------------------------- drawing

void Case::publish() const
{
    if (g_shm != nullptr) {
        std::snprintf(g_shm->desc, sizeof g_shm->desc, "%s", desc_.str().c_str());
    }
}

std::uint64_t Case::gen(std::uint64_t max)
{
    if (max == UINT64_MAX) {
        return rng_();
    }
    std::uint64_t span = max + 1;
    // The modulo bias is irrelevant here.
    return rng_() % span;
}

std::uint64_t Case::draw(std::uint64_t max)
{
    std::uint64_t v;
    if (pos_ < prefix_.size()) {
        v = prefix_[pos_];
        if (v > max) {
            v = replay_ ? max : (max == UINT64_MAX ? v : v % (max + 1));
        }
    }
    else if (replay_) {
        v = 0;
    }
    else {
        v = max == 0 ? 0 : gen(max);
    }
    pos_++;
    std::uint32_t n = g_shm->n_choices.load(std::memory_order_relaxed);
    if (n >= max_choices) {
        throw Discard{};
    }
    g_shm->choices[n] = v;
    g_shm->n_choices.store(n + 1, std::memory_order_relaxed);
    return v;
}

std::size_t Case::size(std::size_t max)
{
    switch (draw(3)) {
    case 0:
        return draw(std::min<std::size_t>(max, 3));
    case 1:
        return draw(std::min<std::size_t>(max, 10));
    default:
        return draw(max);
    }
}

std::size_t Case::weighted(std::initializer_list<unsigned> weights)
{
    unsigned sum = 0;
    for (unsigned w : weights) {
        sum += w;
    }
    std::uint64_t v = draw(sum - 1);
    std::size_t i = 0;
    for (unsigned w : weights) {
        if (v < w) {
            return i;
        }
        v -= w;
        i++;
    }
    return 0;
}

std::uint64_t Case::bits64()
{
    switch (draw(5)) {
    case 0:
        return draw(10);
    case 1: {
        std::uint64_t b = draw(63);
        return (std::uint64_t{1} << b) + draw(4) - 2;
    }
    case 2:
        return 0 - draw(1000);
    case 3:
        return draw(UINT32_MAX);
    case 4:
        return static_cast<std::uint64_t>(INT64_MAX) + draw(4) - 2;
    default:
        return draw(UINT64_MAX);
    }
}

static std::map<std::string, std::uint64_t> g_tags;

void Case::tag(const char *name)
{
    g_tags[name]++;
}

// ---------------------------------------------------------------- running one case

struct Engine {
    static void setup(Case &c, std::vector<std::uint64_t> prefix, bool replay, std::uint64_t seed)
    {
        c.prefix_ = std::move(prefix);
        c.replay_ = replay;
        c.rng_.seed(seed);
    }

    enum class Result { ok, discard, known, fail };

    static Result run(const Test &t, Case &c, const std::set<std::string> &known)
    {
        g_shm->n_choices = 0;
        g_shm->desc[0] = 0;
        try {
            case_begin();
            t.fn(c);
            case_end();
            return Result::ok;
        }
        catch (const Discard &) {
            case_end();
            return Result::discard;
        }
        catch (const Failure &f) {
            if (!f.key.empty() && known.count(f.key) != 0) {
                case_end();
                return Result::known;
            }
            store(f.message, f.key, c);
        }
        catch (const std::exception &e) {
            store(std::string("unexpected exception: ") + describe(e), "", c);
        }
        catch (...) {
            store("unexpected exception of an unknown type", "", c);
        }
        return Result::fail;
    }

    static void store(const std::string &message, const std::string &key, Case &c)
    {
        std::snprintf(g_shm->message, sizeof g_shm->message, "%s", message.c_str());
        std::snprintf(g_shm->key, sizeof g_shm->key, "%s", key.c_str());
        std::snprintf(g_shm->desc, sizeof g_shm->desc, "%s", c.description().c_str());
        g_shm->failed = 1;
    }

    static bool nontrivial(const Case &c)
    {
        return c.nontrivial_;
    }
};

static std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2));
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static std::uint64_t hash_str(std::string_view s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (char ch : s) {
        h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull;
    }
    return h;
}

// ---------------------------------------------------------------- options

struct Options {
    std::string prop;
    std::string only;
    std::string tier = "quick";
    std::uint64_t seed = 1;
    double seconds = 20;
    std::uint64_t max_cases = 0;  // per worker; 0: no limit
    unsigned jobs = 8;
    std::string out;       // result JSON
    std::string work;      // scratch directory
    std::string replay;    // replay file to write
    std::set<std::string> known;
    double hang_s = 90;
    double shrink_s = 40;
    double memory_mb = 1500;  // no case comes close to it
};

// ---------------------------------------------------------------- worker

struct Corpus_entry {
    std::vector<std::uint64_t> choices;
};

static std::vector<std::uint64_t> mutate(const std::vector<Corpus_entry> &corpus,
                                         std::mt19937_64 &rng)
{
    std::vector<std::uint64_t> v = corpus[rng() % corpus.size()].choices;
    int rounds = 1 + static_cast<int>(rng() % 3);
    for (int i = 0; i < rounds; i++) {
        if (v.empty()) {
            break;
        }
        std::size_t p = rng() % v.size();
        switch (rng() % 8) {
        case 0:
            v[p] = rng();
            break;
        case 1:
            v[p] = rng() % 16;
            break;
        case 2:
            v[p] += rng() % 2 ? 1 : UINT64_MAX;
            break;
        case 3: {
            std::size_t n = std::min<std::size_t>(v.size() - p, 1 + rng() % 8);
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(p),
                    v.begin() + static_cast<std::ptrdiff_t>(p + n));
            break;
        }
        case 4: {
            std::size_t n = std::min<std::size_t>(v.size() - p, 1 + rng() % 16);
            std::vector<std::uint64_t> d(v.begin() + static_cast<std::ptrdiff_t>(p),
                                         v.begin() + static_cast<std::ptrdiff_t>(p + n));
            v.insert(v.begin() + static_cast<std::ptrdiff_t>(p), d.begin(), d.end());
            break;
        }
        case 5: {
            const auto &o = corpus[rng() % corpus.size()].choices;
            if (!o.empty()) {
                std::size_t q = rng() % o.size();
                v.resize(p);
                v.insert(v.end(), o.begin() + static_cast<std::ptrdiff_t>(q), o.end());
            }
            break;
        }
        case 6:
            v.resize(p);  // the rest is drawn at random
            break;
        default: {
            std::size_t q = rng() % v.size();
            std::swap(v[p], v[q]);
            break;
        }
        }
    }
    if (v.size() > 20000) {
        v.resize(20000);
    }
    return v;
}

[[noreturn]] static void worker(const Options &o, unsigned idx, Shm *shm,
                                const std::vector<Test> &ts)
{
    g_shm = shm;
    ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string err = o.work + "/worker" + std::to_string(idx) + ".err";
    int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    ::dup2(fd, 2);
    ::dup2(fd, 1);
    std::string scratch = o.work + "/w" + std::to_string(idx);
    ::mkdir(scratch.c_str(), 0755);
    worker_init(scratch);

    std::vector<double> credit(ts.size(), 0);
    std::vector<double> spent(ts.size(), 0);
    std::vector<std::vector<Corpus_entry>> corpora(ts.size());
    std::vector<std::uint64_t> iters(ts.size(), 0);
    std::vector<std::uint64_t> per_test(ts.size(), 0);
    std::vector<std::uint64_t> per_test_nt(ts.size(), 0);
    std::vector<std::uint64_t> per_test_disc(ts.size(), 0);
    std::size_t n_counters = 0;
    for (auto &r : regions()) {
        n_counters += static_cast<std::size_t>(r.e - r.b);
    }
    std::vector<std::vector<std::uint8_t>> seen(ts.size());
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::vector<std::string>> samples(ts.size());

    std::int64_t t0 = now_ms();
    auto limit = static_cast<std::int64_t>(o.seconds * 1000);
    std::uint64_t total = 0;

    for (;;) {
        // Fixed cases first, on worker 0 only; then the test furthest behind its share.
        std::size_t best = ts.size();
        for (std::size_t i = 0; i < ts.size(); i++) {
            if (ts[i].weight == 0 && iters[i] == 0 && idx == 0) {
                best = i;
                break;
            }
        }
        if (best == ts.size()) {
            if (now_ms() - t0 > limit || (o.max_cases != 0 && total >= o.max_cases)) {
                break;
            }
            double lowest = 1e300;
            for (std::size_t i = 0; i < ts.size(); i++) {
                if (ts[i].weight > 0 && spent[i] / ts[i].weight < lowest) {
                    lowest = spent[i] / ts[i].weight;
                    best = i;
                }
            }
            if (best == ts.size()) {
                break;
            }
        }

        const Test &t = ts[best];
        std::uint64_t it = iters[best]++;
        std::uint64_t seed = mix(mix(mix(o.seed, idx + 1), hash_str(t.name)), it);
        std::mt19937_64 rng{seed};
        std::vector<std::uint64_t> prefix;
        auto &corpus = corpora[best];
        if (t.weight > 0 && !corpus.empty() && rng() % 2 == 0) {
            prefix = mutate(corpus, rng);
        }

        shm->test = static_cast<std::uint32_t>(best);
        for (auto &r : regions()) {
            std::memset(r.b, 0, static_cast<std::size_t>(r.e - r.b));
        }
        auto c0 = std::chrono::steady_clock::now();
        Case c;
        Engine::setup(c, std::move(prefix), false, rng());
        shm->case_start_ms = now_ms();
        Engine::Result res = Engine::run(t, c, o.known);
        shm->case_start_ms = 0;
        spent[best] += std::chrono::duration<double>(std::chrono::steady_clock::now() - c0).count() +
                       1e-6;
        if (res == Engine::Result::fail) {
            ::_exit(exit_fail);
        }
        total++;
        shm->cases++;
        per_test[best]++;
        if (res == Engine::Result::discard) {
            shm->discards++;
            per_test_disc[best]++;
            continue;
        }
        if (res == Engine::Result::known) {
            shm->known++;
            continue;
        }
        if (Engine::nontrivial(c)) {
            shm->nontrivial++;
            per_test_nt[best]++;
            std::string d = c.description();
            if (distinct.insert(mix(hash_str(d), best)).second) {
                auto &s = samples[best];
                if (s.size() < 2 && per_test_nt[best] > 5) {
                    s.push_back(std::string(t.name) + ": " + d);
                }
            }
        }

        // Coverage feedback.
        auto &sn = seen[best];
        if (sn.empty()) {
            sn.resize(n_counters);
        }
        std::size_t k = 0;
        bool fresh = false;
        for (auto &r : regions()) {
            for (auto *p = r.b; p != r.e; p++, k++) {
                if (*p != 0) {
                    std::uint8_t b = *p == 1 ? 1
                                     : *p == 2 ? 2
                                     : *p < 4  ? 4
                                     : *p < 8  ? 8
                                     : *p < 16 ? 16
                                     : *p < 32 ? 32
                                     : *p < 128 ? 64
                                                : 128;
                    if ((sn[k] & b) == 0) {
                        sn[k] = static_cast<std::uint8_t>(sn[k] | b);
                        fresh = true;
                    }
                }
            }
        }
        if (fresh && t.weight > 0) {
            shm->new_cov++;
            std::uint32_t n = shm->n_choices;
            corpus.push_back({std::vector<std::uint64_t>(shm->choices, shm->choices + n)});
            if (corpus.size() > 600) {
                corpus.erase(corpus.begin() + static_cast<std::ptrdiff_t>(rng() % corpus.size()));
            }
        }
    }

    std::string base = o.work + "/worker" + std::to_string(idx);
    {
        std::ofstream f(base + ".distinct", std::ios::binary);
        for (std::uint64_t h : distinct) {
            f.write(reinterpret_cast<const char *>(&h), 8);
        }
    }
    {
        std::ofstream f(base + ".tests");
        for (std::size_t i = 0; i < ts.size(); i++) {
            std::size_t cov = 0;
            for (auto b : seen[i]) {
                cov += b != 0;
            }
            f << ts[i].name << " " << per_test[i] << " " << per_test_nt[i] << " "
              << per_test_disc[i] << " " << cov << " " << corpora[i].size() << "\n";
        }
    }
    {
        std::ofstream f(base + ".samples", std::ios::binary);
        for (auto &v : samples) {
            for (auto &s : v) {
                std::string q = s.substr(0, 1500);
                f << q.size() << "\n" << q << "\n";
            }
        }
    }
    {
        std::ofstream f(base + ".tags");
        for (auto &[k, v] : g_tags) {
            f << k << "\t" << v << "\n";
        }
    }
    ::_exit(exit_ok);
}

// ---------------------------------------------------------------- child runs (shrinking)

struct Outcome {
    bool bad{};
    std::string kind;  // "property", "crash", "hang"
    std::string message;
    std::string key;
    std::string desc;
    std::vector<std::uint64_t> used;
};

static std::string read_file(const std::string &p, std::size_t max = 200000)
{
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > max) {
        s.resize(max);
    }
    return s;
}

static std::string crash_summary(const std::string &err, int status)
{
    std::string out;
    if (WIFSIGNALED(status)) {
        out = "killed by signal " + std::to_string(WTERMSIG(status)) + "; ";
    }
    std::istringstream is(err);
    std::string line;
    int frames = 0;
    int shown = 0;
    while (std::getline(is, line) && shown < 48) {
        bool fr = line.find("    #") == 0;
        if (line.find("freed by thread") == 0 || line.find("previously allocated") == 0 ||
            line.find("Previous ") == 2 || line.find("WARNING: ThreadSanitizer") == 0) {
            out += line + "\n";
            frames = 0;
            shown++;
            continue;
        }
        if (fr && line.size() > 240) {
            line = line.substr(0, 150) + " ... " + line.substr(line.size() - 80);
        }
        if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
            line.find("runtime error:") != std::string::npos ||
            line.find("terminate called") != std::string::npos ||
            line.find("what():") != std::string::npos ||
            line.find("Assertion") != std::string::npos || (fr && frames < 14)) {
            frames += fr;
            shown++;
            out += line + "\n";
        }
    }
    if (shown == 0) {
        out += err.substr(0, 1500);
    }
    return out;
}

static void cleanup_dir(const std::string &dir)
{
    // Only ever called on the scratch directories that this process created.
    DIR *d = ::opendir(dir.c_str());
    if (d == nullptr) {
        return;
    }
    while (auto *e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") {
            continue;
        }
        std::string p = dir + "/" + n;
        struct stat st {};
        if (::lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            cleanup_dir(p);
            ::rmdir(p.c_str());
        }
        else {
            ::unlink(p.c_str());
        }
    }
    ::closedir(d);
}

// Where the threads of a worker that does not finish are; for a person to read.
static std::string stacks_of(pid_t pid, const std::string &work)
{
    const char *want = std::getenv("MLIO_VERIF_GDB");
    if (want == nullptr) {
        return {};
    }
    std::string out = work + "/stacks";
    std::string cmd = "timeout 60 gdb -p " + std::to_string(pid) +
                      " -batch -ex 'thread apply all bt 20' >" + out + " 2>/dev/null";
    if (std::system(cmd.c_str()) != 0) {
        return {};
    }
    std::ifstream in{out};
    std::ostringstream o;
    o << in.rdbuf();
    return "\n" + o.str();
}

static double memory_mb_of(pid_t pid)
{
    std::istringstream is(read_file("/proc/" + std::to_string(pid) + "/statm"));
    double all = 0, resident = 0, shared = 0;
    is >> all >> resident >> shared;
    return (resident - shared) * static_cast<double>(::sysconf(_SC_PAGESIZE)) / (1 << 20);
}

static double cpu_seconds_of(pid_t pid)
{
    std::string s = read_file("/proc/" + std::to_string(pid) + "/stat");
    auto p = s.rfind(')');
    if (p == std::string::npos) {
        return -1;
    }
    std::istringstream is(s.substr(p + 2));
    std::string w;
    double ut = 0, st = 0;
    for (int i = 0; i < 13 && (is >> w); i++) {
        if (i == 11) {
            ut = std::atof(w.c_str());
        }
        if (i == 12) {
            st = std::atof(w.c_str());
        }
    }
    return (ut + st) / static_cast<double>(::sysconf(_SC_CLK_TCK));
}

static Outcome run_child(const Options &o, const Test &t, const std::vector<std::uint64_t> &choices,
                         double timeout_s, Shm *shm)
{
    Outcome out;
    shm->failed = 0;
    shm->n_choices = 0;
    shm->message[0] = shm->key[0] = shm->desc[0] = 0;
    std::string err = o.work + "/child.err";
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0) {
        g_shm = shm;
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        ::dup2(fd, 2);
        ::dup2(fd, 1);
        std::string scratch = o.work + "/child";
        ::mkdir(scratch.c_str(), 0755);
        worker_init(scratch);
        Case c;
        Engine::setup(c, choices, true, 0);
        auto r = Engine::run(t, c, o.known);
        if (r == Engine::Result::fail) {
            ::_exit(exit_fail);
        }
        std::snprintf(shm->desc, sizeof shm->desc, "%s", c.description().c_str());
        ::_exit(exit_ok);
    }
    int status = 0;
    std::int64_t t0 = now_ms();
    bool hung = false, too_much = false;
    for (;;) {
        pid_t r = ::waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (static_cast<double>(now_ms() - t0) > timeout_s * 1000) {
            hung = true;
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &status, 0);
            break;
        }
        if (memory_mb_of(pid) > o.memory_mb) {
            too_much = true;
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &status, 0);
            break;
        }
        ::usleep(now_ms() - t0 < 50 ? 500 : 5000);
    }
    cleanup_dir(o.work + "/child");
    std::uint32_t n = std::min<std::uint32_t>(shm->n_choices, max_choices);
    out.used.assign(shm->choices, shm->choices + n);
    out.desc = shm->desc;
    if (hung) {
        out.bad = true;
        out.kind = "hang";
        out.message = "the case did not finish within " + std::to_string(timeout_s) + " s";
    }
    else if (too_much) {
        out.bad = true;
        out.kind = "memory";
        out.message = "the case takes more than " + std::to_string(o.memory_mb) + " MiB of memory";
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == exit_ok) {
        out.bad = false;
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == exit_fail) {
        out.bad = true;
        out.kind = "property";
        out.message = shm->message;
        out.key = shm->key;
    }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        out.bad = false;  // ended from outside (memory), not a result
        out.kind = "killed";
    }
    else {
        out.bad = true;
        out.kind = "crash";
        out.message = crash_summary(read_file(err), status);
    }
    return out;
}

static std::vector<std::uint64_t> shrink(const Options &o, const Test &t,
                                         std::vector<std::uint64_t> best, const Outcome &first,
                                         Shm *shm)
{
    std::int64_t deadline = now_ms() + static_cast<std::int64_t>(o.shrink_s * 1000);
    double timeout = first.kind == "hang" ? 20 : 30;
    std::size_t tries = 0;
    auto attempt = [&](const std::vector<std::uint64_t> &cand) {
        if (now_ms() > deadline || cand == best) {
            return false;
        }
        tries++;
        Outcome r = run_child(o, t, cand, timeout, shm);
        if (r.bad && r.kind == first.kind) {
            best = r.used.size() <= cand.size() ? r.used : cand;
            return true;
        }
        return false;
    };

    if (first.kind == "hang" || first.kind == "memory") {
        return best;
    }

    bool progress = true;
    while (progress && now_ms() < deadline) {
        progress = false;
        for (std::size_t block = std::max<std::size_t>(1, best.size() / 2);; block /= 2) {
            for (std::size_t i = 0; i + block <= best.size() && now_ms() < deadline;) {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i),
                           cand.begin() + static_cast<std::ptrdiff_t>(i + block));
                if (attempt(cand)) {
                    progress = true;
                }
                else {
                    i += block;
                }
            }
            if (block <= 1) {
                break;
            }
        }
        for (std::size_t i = 0; i < best.size() && now_ms() < deadline; i++) {
            if (best[i] == 0) {
                continue;
            }
            auto cand = best;
            cand[i] = 0;
            if (attempt(cand)) {
                progress = true;
                continue;
            }
            std::uint64_t lo = 0;
            for (int k = 0; k < 20 && i < best.size() && best[i] > lo + 1; k++) {
                cand = best;
                cand[i] = lo + (best[i] - lo) / 2;
                if (attempt(cand)) {
                    progress = true;
                }
                else {
                    lo = cand[i];
                }
            }
            if (i < best.size() && best[i] > 0) {
                cand = best;
                cand[i]--;
                if (attempt(cand)) {
                    progress = true;
                }
                // A length together with the element it counts.
                if (i + 1 < cand.size() && i < best.size() && best[i] > 0) {
                    cand = best;
                    cand[i]--;
                    cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i + 1));
                    if (attempt(cand)) {
                        progress = true;
                    }
                }
            }
        }
    }
    return best;
}

static std::string json_str(std::string_view s)
{
    std::string o = "\"";
    char buf[8];
    for (char ch : s) {
        auto u = static_cast<unsigned char>(ch);
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        }
        else if (u < 0x20 || u >= 0x7f) {
            std::snprintf(buf, sizeof buf, "\\u%04x", u);
            o += buf;
        }
        else {
            o += ch;
        }
    }
    return o + "\"";
}

static void write_replay(const std::string &path, const Options &o, const Test &t,
                         const std::vector<std::uint64_t> &choices, const Outcome &r)
{
    std::ofstream f(path, std::ios::binary);
    f << "{\"property\": " << json_str(o.prop) << ", \"test\": " << json_str(t.name)
      << ",\n \"kind\": " << json_str(r.kind) << ", \"seed\": " << o.seed
      << ",\n \"message\": " << json_str(r.message) << ",\n \"key\": " << json_str(r.key)
      << ",\n \"case\": " << json_str(r.desc) << ",\n \"choices\": [";
    for (std::size_t i = 0; i < choices.size(); i++) {
        f << (i != 0 ? ", " : "") << choices[i];
    }
    f << "]}\n";
}

static int supervise(const Options &o)
{
    std::vector<Test> ts;
    for (const Test &t : tests()) {
        if (o.prop == t.prop && (o.only.empty() || o.only == t.name)) {
            ts.push_back(t);
        }
    }
    if (ts.empty()) {
        std::fprintf(stderr, "no tests for %s\n", o.prop.c_str());
        return 2;
    }
    std::sort(ts.begin(), ts.end(), [](const Test &a, const Test &b) {
        return std::strcmp(a.name, b.name) < 0;
    });

    std::vector<Shm *> shms;
    std::vector<pid_t> pids;
    std::vector<std::int64_t> hang_check(o.jobs, 0);
    std::vector<double> hang_cpu(o.jobs, 0);
    unsigned jobs = o.jobs;
    std::int64_t t0 = now_ms();
    for (unsigned i = 0; i < jobs; i++) {
        Shm *s = make_shm();
        shms.push_back(s);
        std::fflush(nullptr);
        pid_t pid = ::fork();
        if (pid == 0) {
            worker(o, i, s, ts);
        }
        pids.push_back(pid);
    }

    int bad_worker = -1;
    int bad_status = 0;
    bool hang = false, too_much = false;
    std::int64_t memory_check = t0;
    double most_memory = 0;
    unsigned alive = jobs;
    std::string notes;
    double hard_limit = o.seconds + o.hang_s + 60;
    while (alive > 0 && bad_worker < 0) {
        int status = 0;
        pid_t r = ::waitpid(-1, &status, WNOHANG);
        if (r > 0) {
            for (unsigned i = 0; i < jobs; i++) {
                if (pids[i] == r) {
                    pids[i] = 0;
                    alive--;
                    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                        notes += "worker ended from outside (SIGKILL); ";
                    }
                    else if (!(WIFEXITED(status) && WEXITSTATUS(status) == exit_ok)) {
                        bad_worker = static_cast<int>(i);
                        bad_status = status;
                    }
                }
            }
            continue;
        }
        std::int64_t now = now_ms();
        for (unsigned i = 0; i < jobs; i++) {
            if (pids[i] == 0) {
                continue;
            }
            std::int64_t cs = shms[i]->case_start_ms;
            if (cs == 0 || now - cs < static_cast<std::int64_t>(o.hang_s * 500)) {
                hang_check[i] = 0;
                continue;
            }
            if (hang_check[i] != cs) {
                hang_check[i] = cs;
                hang_cpu[i] = cpu_seconds_of(pids[i]);
            }
            if (now - cs > static_cast<std::int64_t>(o.hang_s * 1000)) {
                bad_worker = static_cast<int>(i);
                hang = true;
                break;
            }
        }
        if (now - memory_check > 100) {
            memory_check = now;
            for (unsigned i = 0; i < jobs && bad_worker < 0; i++) {
                double m = pids[i] == 0 ? 0 : memory_mb_of(pids[i]);
                most_memory = std::max(most_memory, m);
                if (m > o.memory_mb && shms[i]->case_start_ms != 0) {
                    bad_worker = static_cast<int>(i);
                    too_much = true;
                }
            }
        }
        if (static_cast<double>(now - t0) / 1000 > hard_limit) {
            notes += "time limit; ";
            break;
        }
        ::usleep(10000);
    }

    bool violation = false;
    std::string vmsg;
    std::string vtest;
    if (bad_worker >= 0) {
        auto bi = static_cast<std::size_t>(bad_worker);
        Outcome first;
        if (hang) {
            double used = cpu_seconds_of(pids[bi]) - hang_cpu[bi];
            first.kind = "hang";
            first.message = "the case did not finish within " + std::to_string(o.hang_s) +
                            " s (CPU time used in the second half: " + std::to_string(used) + " s)";
            first.bad = used < 0.5;  // blocked, not slow
            first.message += stacks_of(pids[bi], o.work);
        }
        for (unsigned i = 0; i < jobs; i++) {
            if (pids[i] != 0) {
                ::kill(pids[i], SIGKILL);
                int st = 0;
                ::waitpid(pids[i], &st, 0);
            }
        }
        Shm *s = shms[bi];
        const Test &t = ts[s->test];
        std::uint32_t n = std::min<std::uint32_t>(s->n_choices, max_choices);
        std::vector<std::uint64_t> choices(s->choices, s->choices + n);
        first.desc = s->desc;
        if (too_much) {
            first.kind = "memory";
            first.message = "memory";
        }
        else if (!hang) {
            first.bad = true;
            if (WIFEXITED(bad_status) && WEXITSTATUS(bad_status) == exit_fail) {
                first.kind = "property";
                first.message = s->message;
                first.key = s->key;
            }
            else {
                first.kind = "crash";
                first.message = crash_summary(
                    read_file(o.work + "/worker" + std::to_string(bad_worker) + ".err"),
                    bad_status);
            }
        }

        // Reproduce in a fresh process, then shrink.
        Shm *cs = make_shm();
        Outcome rep;
        bool reproduced = false;
        for (int k = 0; k < (first.kind == "hang" ? 2 : 5) && !reproduced; k++) {
            rep = run_child(o, t, choices, first.kind == "hang" ? o.hang_s : o.hang_s, cs);
            reproduced = rep.bad;
        }
        if (reproduced) {
            auto small = shrink(o, t, choices, rep, cs);
            Outcome fin;
            bool still = false;
            for (int k = 0; k < 3 && !still && rep.kind != "hang"; k++) {
                fin = run_child(o, t, small, 30, cs);
                still = fin.bad;
            }
            if (still) {
                rep = fin;
                choices = small;
            }
            first = rep;
        }
        else {
            first.message += "\n(not reproduced in a fresh process: depends on the schedule or on "
                             "the cases before it)";
        }
        // What a case leaves behind for the next one, or a schedule, is not
        // always reproduced; an oracle that failed once has failed. A crash or a
        // hang that cannot be reproduced is only reported if it was a blocked
        // process or a sanitizer report.
        bool report = reproduced || first.kind == "property" ||
                      (first.kind == "hang" && first.bad) ||
                      (first.kind == "crash" && WIFEXITED(bad_status));
        if (report) {
            violation = true;
            vtest = t.name;
            vmsg = first.message;
            write_replay(o.replay, o, t, choices, first);
            std::printf("FAILED test=%s kind=%s reproduced=%d\n%s\ncase: %s\n", t.name,
                        first.kind.c_str(), reproduced ? 1 : 0, first.message.c_str(),
                        first.desc.c_str());
        }
        else {
            notes += "a worker ended abnormally once and the case passed when repeated: " +
                     first.message.substr(0, 300) + "; ";
        }
    }
    else {
        for (unsigned i = 0; i < jobs; i++) {
            if (pids[i] != 0) {
                ::kill(pids[i], SIGKILL);
                int st = 0;
                ::waitpid(pids[i], &st, 0);
            }
        }
    }

    // Merge.
    std::uint64_t cases = 0, nontrivial = 0, discards = 0, known = 0;
    for (auto *s : shms) {
        cases += s->cases;
        nontrivial += s->nontrivial;
        discards += s->discards;
        known += s->known;
    }
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::array<std::uint64_t, 5>> per_test;
    std::map<std::string, std::uint64_t> tags;
    std::map<std::string, std::string> samples;
    for (unsigned i = 0; i < jobs; i++) {
        std::string base = o.work + "/worker" + std::to_string(i);
        std::string d = read_file(base + ".distinct", SIZE_MAX);
        for (std::size_t k = 0; k + 8 <= d.size(); k += 8) {
            std::uint64_t h;
            std::memcpy(&h, d.data() + k, 8);
            distinct.insert(h);
        }
        std::istringstream is(read_file(base + ".tests"));
        std::string name;
        std::uint64_t a, b, e, f, g;
        while (is >> name >> a >> b >> e >> f >> g) {
            auto &p = per_test[name];
            p[0] += a;
            p[1] += b;
            p[2] += e;
            p[3] = std::max(p[3], f);
            p[4] += g;
        }
        std::istringstream ss(read_file(base + ".samples", SIZE_MAX));
        std::size_t len;
        while (ss >> len) {
            ss.get();
            std::string q(len, ' ');
            ss.read(q.data(), static_cast<std::streamsize>(len));
            std::string key = q.substr(0, q.find(':'));
            if (samples.size() < 12 || samples.count(key)) {
                samples.emplace(key, q);
            }
        }
        std::istringstream ts2(read_file(base + ".tags"));
        std::string line;
        while (std::getline(ts2, line)) {
            auto p = line.rfind('\t');
            if (p != std::string::npos) {
                tags[line.substr(0, p)] += std::strtoull(line.c_str() + p + 1, nullptr, 10);
            }
        }
    }

    if (!o.out.empty()) {
        std::ofstream f(o.out, std::ios::binary);
        f << "{\"cases\": " << cases << ", \"nontrivial\": " << nontrivial
          << ", \"discards\": " << discards << ", \"known\": " << known
          << ", \"distinct\": " << distinct.size() << ", \"violation\": "
          << (violation ? "true" : "false") << ", \"vtest\": " << json_str(vtest)
          << ", \"message\": " << json_str(vmsg) << ", \"most_memory_mb\": " << static_cast<int>(most_memory) << ", \"notes\": "
          << json_str(notes)
          << ", \"wall_s\": " << static_cast<double>(now_ms() - t0) / 1000 << ", \"tests\": {";
        bool first = true;
        for (auto &[k, v] : per_test) {
            f << (first ? "" : ", ") << json_str(k) << ": {\"cases\": " << v[0]
              << ", \"nontrivial\": " << v[1] << ", \"discarded\": " << v[2]
              << ", \"edges_max\": " << v[3] << ", \"corpus\": " << v[4] << "}";
            first = false;
        }
        f << "}, \"tags\": {";
        first = true;
        for (auto &[k, v] : tags) {
            f << (first ? "" : ", ") << json_str(k) << ": " << v;
            first = false;
        }
        f << "}, \"samples\": [";
        first = true;
        for (auto &[k, v] : samples) {
            f << (first ? "" : ", ") << json_str(v);
            first = false;
        }
        f << "]}\n";
    }
    std::printf("%s: %llu cases, %llu non-trivial (%zu distinct), %llu discarded, %.1f s, %d MiB%s%s\n",
                o.prop.c_str(), static_cast<unsigned long long>(cases),
                static_cast<unsigned long long>(nontrivial), distinct.size(),
                static_cast<unsigned long long>(discards),
                static_cast<double>(now_ms() - t0) / 1000, static_cast<int>(most_memory),
                notes.empty() ? "" : " notes: ", notes.c_str());
    return violation ? 1 : 0;
}

static int do_replay(const Options &o, const std::string &test,
                     const std::vector<std::uint64_t> &choices)
{
    for (const Test &t : tests()) {
        if (o.prop == t.prop && test == t.name) {
            Shm *s = make_shm();
            Outcome r = run_child(o, t, choices, o.hang_s, s);
            if (!r.bad) {
                std::printf("passed\ncase: %s\n", r.desc.c_str());
                return 0;
            }
            std::printf("FAILED kind=%s\n%s\ncase: %s\n", r.kind.c_str(), r.message.c_str(),
                        r.desc.c_str());
            return 1;
        }
    }
    std::printf("no such test\n");
    return 2;
}

}  // namespace pbt

int main(int argc, char **argv)
{
    using namespace pbt;
    Options o;
    std::string replay_test;
    std::vector<std::uint64_t> choices;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string {
            return i + 1 < argc ? argv[++i] : "";
        };
        if (a == "--prop") {
            o.prop = val();
        }
        else if (a == "--only") {
            o.only = val();
        }
        else if (a == "--tier") {
            o.tier = val();
        }
        else if (a == "--seed") {
            o.seed = std::strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--seconds") {
            o.seconds = std::atof(val().c_str());
        }
        else if (a == "--max-cases") {
            o.max_cases = std::strtoull(val().c_str(), nullptr, 10);
        }
        else if (a == "--jobs") {
            o.jobs = static_cast<unsigned>(std::atoi(val().c_str()));
        }
        else if (a == "--out") {
            o.out = val();
        }
        else if (a == "--work") {
            o.work = val();
        }
        else if (a == "--replay-out") {
            o.replay = val();
        }
        else if (a == "--known") {
            o.known.insert(val());
        }
        else if (a == "--hang") {
            o.hang_s = std::atof(val().c_str());
        }
        else if (a == "--shrink") {
            o.shrink_s = std::atof(val().c_str());
        }
        else if (a == "--replay") {
            replay_test = val();
        }
        else if (a == "--choices") {
            std::ifstream f(val());
            std::uint64_t v;
            while (f >> v) {
                choices.push_back(v);
            }
        }
        else if (a == "--list") {
            list = true;
        }
    }
    if (list) {
        for (auto &t : tests()) {
            std::printf("%s %s\n", t.prop, t.name);
        }
        return 0;
    }
    ::signal(SIGPIPE, SIG_IGN);
    if (!replay_test.empty()) {
        return do_replay(o, replay_test, choices);
    }
    return supervise(o);
}
