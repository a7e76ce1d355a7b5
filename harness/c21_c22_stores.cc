// C21: file listing is complete, filtered and naturally sorted.
// C22: data stores reproduce their content on every open.
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

#include <cstring>
#include <map>
#include <thread>

#include "csv_model.h"
#include "listing.h"

#include <mlio/data_stores/data_store.h>
#include <mlio/data_stores/file.h>
#include <mlio/data_stores/in_memory_store.h>
#include <mlio/data_stores/sagemaker_pipe.h>
#include <mlio/memory/memory_slice.h>
#include <mlio/streams/input_stream.h>

using namespace mlio;
using namespace pbt;

namespace {

// ---------------------------------------------------------------- model of a directory tree

struct Node {
    enum Kind { file, dir, link, broken, fifo, sock } kind{};
    std::map<std::string, Node *> children{};
    Node *target{};
    std::string real{};  // The path where it has been created.
};


struct Tree {
    std::vector<std::unique_ptr<Node>> nodes{};

    Node *add(Node *parent, const std::string &name, Node::Kind kind, Node *target = nullptr)
    {
        if (parent->children.count(name) != 0) {
            return nullptr;
        }
        nodes.push_back(std::make_unique<Node>());
        Node *n = nodes.back().get();
        n->kind = kind;
        n->target = target;
        n->real = parent->real + "/" + name;
        parent->children[name] = n;
        const char *path = n->real.c_str();
        switch (kind) {
        case Node::file:
            write_file(n->real, name);
            break;
        case Node::dir:
            ::mkdir(path, 0700);
            break;
        case Node::link:
            if (::symlink(target->real.c_str(), path) != 0) {
                throw std::runtime_error("symlink");
            }
            break;
        case Node::broken:
            if (::symlink("does-not-exist", path) != 0) {
                throw std::runtime_error("symlink");
            }
            break;
        case Node::fifo:
            if (::mkfifo(path, 0600) != 0) {
                throw std::runtime_error("mkfifo");
            }
            break;
        case Node::sock: {
            int fd = ::socket(AF_UNIX, SOCK_STREAM, 0);
            ::sockaddr_un a{};
            a.sun_family = AF_UNIX;
            if (n->real.size() < sizeof(a.sun_path)) {
                std::strcpy(a.sun_path, path);
                (void)::bind(fd, reinterpret_cast<::sockaddr *>(&a), sizeof(a));
            }
            ::close(fd);
            break;
        }
        }
        return n;
    }
};

void walk(Node *n, const std::string &path, std::vector<Node *> &above, std::vector<std::string> &out)
{
    while (n->kind == Node::link) {
        n = n->target;
    }
    if (n->kind == Node::file) {
        out.push_back(path);
    }
    if (n->kind != Node::dir || std::find(above.begin(), above.end(), n) != above.end()) {
        return;
    }
    std::vector<std::pair<std::string, Node *>> kids(n->children.begin(), n->children.end());
    std::sort(kids.begin(), kids.end(), [](auto &a, auto &b) {
        return natural(a.first, b.first) < 0;
    });
    above.push_back(n);
    for (auto &k : kids) {
        walk(k.second, path.back() == '/' ? path + k.first : path + "/" + k.first, above, out);
    }
    above.pop_back();
}

std::string any_name(Case &c)
{
    static const std::vector<std::string> prefixes{
        "file", "part-", "a", "b", "A", "x.y", "data_", "img", ".hidden", "z-1-", "9a", "*", "[x]"};
    static const std::vector<std::string> suffixes{
        "", ".csv", ".gz", ".csv.gz", ".bz2", ".zip", ".jpg", ".txt", "-2.csv", ".GZ", ".gzip"};
    std::string s;
    switch (c.weighted({6, 2, 2})) {
    case 0:
        s = c.pick(prefixes) + std::to_string(c.flag() ? c.draw(12) : c.draw(2000));
        break;
    case 1: {
        char buf[24];
        std::snprintf(buf, sizeof(buf), "shard-%05d", static_cast<int>(c.draw(120)));
        s = buf;
        break;
    }
    default:
        s = c.pick(prefixes);
        break;
    }
    return s + c.pick(suffixes);
}

std::string any_pattern(Case &c, const std::vector<std::string> &paths)
{
    static const std::vector<std::string> fixed{"*",         "*.csv",     "*.gz",   "*1*",
                                                "*/file*",   "*[0-9].csv", "*[!5]", "?*",
                                                "nothing",   "*.[cj]*",   "*\\*",  "*.csv.gz",
                                                "*/*/*/*/*"};
    if (paths.empty() || c.chance(2, 3)) {
        return c.pick(fixed);
    }
    // Made from an existing path.
    std::string p = c.pick(paths);
    std::string out;
    std::size_t keep = c.draw(p.size());
    bool star = c.flag();
    for (std::size_t i = star ? keep : 0; i < p.size(); i++) {
        if (c.chance(1, 6)) {
            out += '?';
        }
        else {
            if (std::strchr("*?[]\\", p[i]) != nullptr) {
                out += '\\';
            }
            out += p[i];
        }
    }
    return (star ? "*" : "") + out;
}

std::string joined(const std::vector<std::string> &v)
{
    std::string s;
    for (auto &x : v) {
        s += "\n  " + x;
    }
    return s;
}

}  // namespace

PBT_TEST(C21, listing)
{
    std::string top = scratch_dir("tree");
    Tree t;
    t.nodes.push_back(std::make_unique<Node>());
    Node *root = t.nodes.back().get();
    root->kind = Node::dir;
    root->real = top;

    std::vector<Node *> dirs{root};
    std::size_t n = c.size(14);
    std::size_t links = 0;
    std::size_t odd = 0;
    for (std::size_t i = 0; i < n; i++) {
        Node *parent = dirs[c.draw(dirs.size() - 1)];
        std::string name = any_name(c);
        switch (c.weighted({12, 4, 2, 1, 1})) {
        case 0:
            t.add(parent, name, Node::file);
            break;
        case 1:
            if (parent->real.size() < top.size() + 40) {
                if (Node *d = t.add(parent, name, Node::dir)) {
                    dirs.push_back(d);
                }
            }
            break;
        case 2:
            // At most three links, several that contain each other multiply.
            if (links < 3) {
                Node *to = t.nodes[c.draw(t.nodes.size() - 1)].get();
                links++;
                if (to->kind != Node::broken) {
                    t.add(parent, name, Node::link, to);
                }
            }
            break;
        case 3:
            odd += t.add(parent, name, Node::broken) != nullptr ? 1 : 0;
            break;
        default:
            odd += t.add(parent, name, c.flag() ? Node::fifo : Node::sock) != nullptr ? 1 : 0;
            break;
        }
    }

    // The paths to list.
    std::vector<std::string> paths;
    std::vector<Node *> starts;
    bool missing = false;
    std::size_t k = c.weighted({1, 8, 3, 2, 1});
    for (std::size_t i = 0; i < k; i++) {
        Node *s = c.flag() ? root : t.nodes[c.draw(t.nodes.size() - 1)].get();
        if (s->kind == Node::broken) {
            s = root;
        }
        std::string p = s->real;
        if (c.chance(1, 12)) {
            p += "-missing";
            missing = true;
            s = nullptr;
        }
        else if (s->kind == Node::dir && c.chance(1, 5)) {
            p += "/";
        }
        paths.push_back(p);
        starts.push_back(s);
    }
    std::vector<std::size_t> order(paths.size());
    for (std::size_t i = 0; i < order.size(); i++) {
        order[i] = i;
    }
    std::stable_sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b) {
        return natural(paths[a], paths[b]) < 0;
    });
    std::vector<std::string> all;
    for (std::size_t i : order) {
        if (starts[i] != nullptr) {
            std::vector<Node *> above;
            walk(starts[i], paths[i], above, all);
        }
    }

    // The filters.
    std::string pattern = c.chance(1, 2) ? any_pattern(c, all) : "";
    std::vector<std::string> want;
    std::vector<std::string> asked;
    std::set<char> accepted;
    bool predicate = c.chance(1, 3);
    std::size_t mod = 1 + c.draw(3);
    auto accept = [&](const std::string &p) {
        std::size_t h = 0;
        for (char ch : p.substr(top.size())) {
            h += static_cast<unsigned char>(ch);
        }
        return h % mod == 0;
    };
    for (auto &p : all) {
        if (!pattern.empty() && !glob(pattern.c_str(), p.c_str())) {
            continue;
        }
        asked.push_back(p);
        if (!predicate || accept(p)) {
            want.push_back(p);
        }
    }

    File_list_options o{};
    o.pattern = pattern;
    std::vector<std::string> got_asked;
    File_list_options::Predicate_callback cb = [&](const std::string &p) {
        got_asked.push_back(p);
        return accept(p);
    };
    File_list_options::Predicate_callback none{};
    o.predicate = predicate ? &cb : c.flag() ? &none : nullptr;
    o.memory_map = c.flag();
    o.compression = static_cast<Compression>(c.draw(4));

    c.desc("paths:", joined(paths), "\nall files:", joined(all), "\npattern '", pattern,
           "' predicate ", predicate);
    std::vector<Intrusive_ptr<Data_store>> got;
    auto kind = kind_of_error([&] {
        if (paths.size() == 1 && !predicate && c.flag()) {
            o.memory_map = true;
            o.compression = Compression::infer;
            got = list_files(paths[0], pattern);
        }
        else {
            got = list_files(paths, o);
        }
    });
    if (missing) {
        ENSURE(kind == "system", "a missing path ends with '", kind, "'");
        c.nontrivial();
        return;
    }
    ENSURE(kind.empty(), "listing fails with '", kind, "'");
    std::vector<std::string> ids;
    for (auto &f : got) {
        ids.push_back(f->id());
    }
    ENSURE(ids == want, "listed:", joined(ids), "\ninstead of:", joined(want));
    if (predicate) {
        ENSURE(got_asked == asked, "the predicate was asked for", joined(got_asked));
    }
    for (std::size_t i = 0; i < got.size(); i++) {
        std::ostringstream repr;
        repr << "<File path='" << want[i] << "' memory_map='" << (o.memory_map ? "true" : "false")
             << "' compression='"
             << (o.compression == Compression::infer ? inferred(want[i]) : name_of(o.compression))
             << "'>";
        ENSURE(got[i]->repr() == repr.str(), got[i]->repr(), " instead of ", repr.str());
    }
    c.tag(links > 0 ? "links" : "no links");
    c.tag(odd > 0 ? "odd files" : "plain files");
    c.nontrivial(all.size() > 2);
}

// Every listed file opens as that file.
PBT_TEST_W(C21, listed_files_open, 0.3)
{
    std::string top = scratch_dir("tree");
    std::map<std::string, std::string> content;
    std::size_t n = 1 + c.size(12);
    for (std::size_t i = 0; i < n; i++) {
        std::string p = top + "/f" + std::to_string(c.draw(30));
        bool gz = c.flag();
        p += gz ? ".gz" : ".csv";
        std::string text = "content of " + p + std::string(c.size(50), 'x');
        write_file(p, gz ? deflate(text, 6, true) : text);
        content[p] = text;
    }
    c.desc(content.size(), " files");
    auto files = list_files(top);
    ENSURE(files.size() == content.size(), "the number of files is ", files.size());
    for (auto &f : files) {
        auto s = f->open_read();
        std::string got;
        for (Memory_slice m; !(m = s->read(100)).empty();) {
            got += to_string(m);
        }
        ENSURE(got == content[f->id()], "another content: ", got);
    }
    c.nontrivial(files.size() > 1);
}

// What cannot be read is an error, never left out of the list without notice.
PBT_TEST_W(C21, unreadable, 0.5)
{
    std::string top = scratch_dir("tree");
    // The directories that the run has made for itself let others pass.
    for (std::string p = top; p.find("mlio-verif") != std::string::npos;
         p.erase(p.find_last_of('/'))) {
        ::chmod(p.c_str(), 0711);
    }
    struct Dir {
        std::string path;
        std::size_t parent{};
        ::mode_t mode{};
        std::vector<std::pair<std::string, ::mode_t>> files{};
        std::vector<std::pair<std::string, std::size_t>> dirs{};
        bool empty() const
        {
            return files.empty() && dirs.empty();
        }
    };
    std::vector<Dir> dirs{{top, 0, 0755, {}, {}}};
    std::map<std::string, std::string> content;
    std::map<std::string, bool> readable;
    std::size_t n = 1 + c.size(7);
    std::size_t marked = c.draw(n + 2);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t parent = c.draw(dirs.size() - 1);
        std::string name = "n" + std::to_string(i);
        std::string path = dirs[parent].path + "/" + name;
        if (c.chance(1, 3)) {
            ::mode_t mode = 0755;
            if (i == marked || c.chance(1, 12)) {
                mode = c.pick<::mode_t>({0700, 0744, 0711});
            }
            ::mkdir(path.c_str(), 0755);
            dirs[parent].dirs.emplace_back(name, dirs.size());
            dirs.push_back({path, parent, mode, {}, {}});
        }
        else {
            ::mode_t mode = c.chance(1, 8) ? 0600 : 0644;
            write_file(path, name);
            ::chmod(path.c_str(), mode);
            dirs[parent].files.emplace_back(path, mode);
            content[path] = name;
            readable[path] = mode == 0644;
        }
    }
    for (auto &d : dirs) {
        ::chmod(d.path.c_str(), d.mode);
    }

    // Only another user than root is refused anything.
    bool other = ::geteuid() == 0 && ::seteuid(65534) == 0;
    auto back = [other] {
        if (other) {
            (void)::seteuid(0);
        }
    };
    try {
        bool applies = other && ::access(top.c_str(), F_OK) == 0 &&
                       ::faccessat(AT_FDCWD, top.c_str(), R_OK | X_OK, AT_EACCESS) == 0;
        std::size_t start = c.draw(dirs.size() - 1);
        if (c.flag()) {
            start = 0;
        }
        bool fails = false;
        std::vector<std::string> want;
        std::function<void(std::size_t)> visit = [&](std::size_t i) {
            const Dir &d = dirs[i];
            fails |= (d.mode & 0004) == 0 || ((d.mode & 0001) == 0 && !d.empty());
            for (auto &f : d.files) {
                want.push_back(f.first);
            }
            for (auto &k : d.dirs) {
                visit(k.second);
            }
        };
        visit(start);
        for (std::size_t i = start; i != 0;) {
            i = dirs[i].parent;
            fails |= (dirs[i].mode & 0001) == 0;
        }
        std::string shown;
        for (auto &d : dirs) {
            char mode[16];
            std::snprintf(mode, sizeof(mode), " %04o", static_cast<unsigned>(d.mode));
            shown += "\n  " + d.path + mode;
        }
        c.desc("directories:", shown, "\nlist ", dirs[start].path, applies ? " as another user" : "");
        std::vector<Intrusive_ptr<Data_store>> got;
        auto kind = kind_of_error([&] { got = list_files(dirs[start].path); });
        if (applies && fails) {
            ENSURE(kind == "system", "what cannot be read ends with '", kind, "' and ", got.size(),
                   " files");
        }
        else {
            ENSURE(kind.empty(), "listing fails with '", kind, "'");
            std::vector<std::string> ids;
            for (auto &f : got) {
                ids.push_back(f->id());
            }
            std::sort(ids.begin(), ids.end());
            std::sort(want.begin(), want.end());
            ENSURE(ids == want, "listed:", joined(ids), "\ninstead of:", joined(want));
            for (auto &f : got) {
                std::string text;
                auto opened = kind_of_error([&] {
                    auto s = f->open_read();
                    for (Memory_slice m; !(m = s->read(100)).empty();) {
                        text += to_string(m);
                    }
                });
                if (applies && !readable[f->id()]) {
                    ENSURE(opened == "system", "a file that cannot be read ends with '", opened, "'");
                }
                else {
                    ENSURE(opened.empty() && text == content[f->id()], f->id(), " reads as '", text,
                           "', '", opened, "'");
                }
            }
        }
        c.tag(!applies ? "no other user" : fails ? "refused" : "readable");
        c.nontrivial(applies && content.size() > 1);
    }
    catch (...) {
        back();
        throw;
    }
    back();
}

PBT_FIXED(C21, no_paths)
{
    std::vector<std::string> none;
    ENSURE(list_files(none).empty(), "files are listed without a path");
    std::vector<std::string> empty{""};
    auto kind = kind_of_error([&] { list_files(empty); });
    ENSURE(kind == "system" || kind == "invalid_argument", "an empty path: '", kind, "'");
}

// ---------------------------------------------------------------- C22

namespace {

struct Store {
    Intrusive_ptr<Data_store> store;
    std::string content;
    std::string what;
    bool in_memory{};  // or mapped to it: read without being copied
};

std::string any_content(Case &c)
{
    std::string s(c.flag() ? c.size(100) : c.draw(40000), '\0');
    bool random = c.flag();
    for (auto &ch : s) {
        ch = random ? static_cast<char>(c.rng()()) : static_cast<char>('a' + c.rng()() % 3);
    }
    return s;
}

// A name with an extension that differs in one character from one of a compressed file.
std::string almost_compressed(Case &c)
{
    static const std::vector<std::string> extensions{".gz", ".bz2", ".zip"};
    for (;;) {
        std::string e = c.pick(extensions);
        std::size_t i = c.draw(e.size() - 1);
        char ch = c.pick<char>({'b', 'z', '2', 'g', 'i', 'p', '.', 'x', 'Z', '1'});
        switch (c.draw(2)) {
        case 0:
            e[i] = ch;
            break;
        case 1:
            e.insert(e.begin() + static_cast<std::ptrdiff_t>(i + c.draw(1)), ch);
            break;
        default:
            e.erase(e.begin() + static_cast<std::ptrdiff_t>(i));
            break;
        }
        std::string name = "x" + e;
        bool is = false;
        for (const auto &known : extensions) {
            is |= name.size() >= known.size() &&
                  name.compare(name.size() - known.size(), known.size(), known) == 0;
        }
        if (!is) {
            return name;
        }
    }
}

Store any_store(Case &c)
{
    Store s;
    s.content = any_content(c);
    bool gz = c.flag();
    std::string raw = gz ? gzip_members(c, s.content) : s.content;
    if (gz && c.chance(1, 4)) {
        // Read as it is.
        s.content = raw;
        gz = false;
    }
    switch (c.draw(2)) {
    case 0:
        s.store = make_intrusive<In_memory_store>(slice_of(raw),
                                                  gz ? Compression::gzip : Compression::none);
        s.what = gz ? "memory gzip" : "memory";
        s.in_memory = !gz;
        break;
    default: {
        bool infer = c.flag();
        static const std::vector<std::string> plain{"x", "x.csv", "x.gz.csv", "gz", "x.GZ", "xgz",
                                                    "x.bz", "x.tar", "x.gzz", "x.z", "x.gz2", "xbz2"};
        std::string name = infer ? (gz ? "x.csv.gz" : c.flag() ? c.pick(plain) : almost_compressed(c)) :
                                   (c.flag() ? "y.gz" : "y.zip");
        std::string path = scratch_path("store") + "-" + name;
        write_file(path, raw);
        bool map = c.flag();
        auto k = infer ? Compression::infer : gz ? Compression::gzip : Compression::none;
        s.store = make_intrusive<File>(path, map, k);
        s.in_memory = map && !gz;
        s.what = std::string{"file "} + name + (map ? " mapped " : " ") + name_of(k);
        break;
    }
    }
    return s;
}

struct Open {
    Intrusive_ptr<Input_stream> stream;
    const Store *of{};
    std::size_t pos{};
    bool ended{};
};

// Reads some bytes and checks them.
void step(Open &o, std::size_t want, bool slices)
{
    std::string got;
    if (slices) {
        got = to_string(o.stream->read(want));
    }
    else {
        std::vector<std::byte> b(want);
        std::size_t n = o.stream->read(Mutable_memory_span{b.data(), b.size()});
        ENSURE(n <= want, "more bytes than asked for");
        got.assign(reinterpret_cast<const char *>(b.data()), n);
    }
    ENSURE(o.pos + got.size() <= o.of->content.size() &&
               o.of->content.compare(o.pos, got.size(), got) == 0,
           o.of->what, ": other bytes at ", o.pos);
    o.pos += got.size();
    if (got.empty() && want > 0) {
        ENSURE(o.pos == o.of->content.size(), o.of->what, ": the content ends at ", o.pos,
               " instead of ", o.of->content.size());
        o.ended = true;
    }
}

}  // namespace

PBT_TEST(C22, independent_opens)
{
    any_buffer_sizes(c);
    std::vector<Store> stores;
    std::size_t n = 1 + c.draw(2);
    std::string what;
    for (std::size_t i = 0; i < n; i++) {
        stores.push_back(any_store(c));
        what += stores.back().what + " of " + std::to_string(stores.back().content.size()) + ", ";
    }
    c.desc(what);
    std::vector<Open> open;
    std::size_t calls = c.size(60);
    std::size_t opened = 0;
    for (std::size_t i = 0; i < calls; i++) {
        if (open.empty() || (open.size() < 5 && c.chance(1, 5))) {
            const Store &s = stores[c.draw(n - 1)];
            open.push_back(Open{s.store->open_read(), &s});
            opened++;
            ENSURE(open.back().stream->supports_zero_copy() == s.in_memory, s.what, " is ",
                   s.in_memory ? "copied" : "not copied");
            continue;
        }
        std::size_t j = c.draw(open.size() - 1);
        if (c.chance(1, 10)) {
            if (c.flag()) {
                open[j].stream->close();
            }
            open.erase(open.begin() + static_cast<std::ptrdiff_t>(j));
            continue;
        }
        step(open[j], c.flag() ? c.size(100) : c.draw(20000), c.flag());
    }
    // The streams do not need their stores.
    bool released = c.chance(1, 3);
    if (released) {
        for (auto &s : stores) {
            s.store = nullptr;
        }
    }
    for (auto &o : open) {
        while (!o.ended) {
            step(o, 4000 + c.draw(4000), c.flag());
        }
    }
    if (!released) {
        for (auto &s : stores) {
            Open o{s.store->open_read(), &s};
            while (!o.ended) {
                step(o, 30000, true);
            }
        }
    }
    c.nontrivial(opened > 1 && calls > 5);
}

PBT_TEST_W(C22, concurrent_opens, 0.3)
{
    Store s = any_store(c);
    std::size_t n = 2 + c.draw(4);
    std::vector<std::size_t> chunks;
    for (std::size_t i = 0; i < n; i++) {
        chunks.push_back(1 + c.draw(3000));
    }
    c.desc(s.what, " of ", s.content.size(), " bytes by ", n, " threads");
    std::vector<std::string> errors(n);
    std::vector<std::string> ids(n);
    std::vector<std::thread> threads;
    for (std::size_t i = 0; i < n; i++) {
        threads.emplace_back([&, i] {
            try {
                ids[i] = s.store->id();
                auto in = s.store->open_read();
                std::string got;
                for (Memory_slice m; !(m = in->read(chunks[i])).empty();) {
                    got += to_string(m);
                }
                if (got != s.content) {
                    errors[i] = "another content";
                }
            }
            catch (const std::exception &e) {
                errors[i] = e.what();
            }
        });
    }
    for (auto &t : threads) {
        t.join();
    }
    for (std::size_t i = 0; i < n; i++) {
        ENSURE(errors[i].empty(), "thread ", i, ": ", errors[i]);
        ENSURE(ids[i] == s.store->id(), "the id differs");
    }
    c.nontrivial(s.content.size() > 1);
}

PBT_TEST_W(C22, identity, 0.5)
{
    std::string a(30, 'a');
    auto block = block_of(a);
    auto other = block_of(a);
    struct Made {
        Intrusive_ptr<Data_store> s;
        std::string key;
    };
    std::string dir = scratch_dir("ids");
    std::ostringstream what;
    auto make = [&] {
        Made m;
        auto k = static_cast<Compression>(c.draw(1) == 0 ? 0 : 2);
        if (c.flag()) {
            bool first = c.flag();
            std::size_t at = c.draw(3);
            std::size_t len = 1 + c.draw(5);
            m.s = make_intrusive<In_memory_store>(
                Memory_slice{first ? block : other}.subslice(at, len), k);
            m.key = std::string{"m"} + (first ? "1" : "2") + "+" + std::to_string(at) + "," +
                    std::to_string(len);
        }
        else {
            m.key = dir + "/" + "abc"[c.draw(2)] + (c.flag() ? ".csv" : ".gz");
            m.s = make_intrusive<File>(m.key, c.flag(), k);
            ENSURE(m.s->id() == m.key, "the id of a file is ", m.s->id());
        }
        what << m.key << " ";
        return m;
    };
    std::vector<Made> v;
    std::size_t n = 2 + c.draw(6);
    for (std::size_t i = 0; i < n; i++) {
        v.push_back(make());
    }
    c.desc(what.str());
    bool same = false;
    for (std::size_t i = 0; i < n; i++) {
        for (std::size_t j = 0; j < n; j++) {
            bool eq = v[i].key == v[j].key;
            same = same || (eq && i != j);
            ENSURE((*v[i].s == *v[j].s) == eq, v[i].key, " == ", v[j].key);
            ENSURE((*v[i].s != *v[j].s) == !eq, v[i].key, " != ", v[j].key);
            ENSURE((v[i].s->id() == v[j].s->id()) == eq, "ids of ", v[i].key, " and ", v[j].key);
            if (eq) {
                ENSURE(std::hash<Data_store>{}(*v[i].s) == std::hash<Data_store>{}(*v[j].s),
                       "the hashes of ", v[i].key, " differ");
            }
        }
        std::ostringstream o;
        o << *v[i].s;
        ENSURE(o.str() == v[i].s->repr(), "operator<<");
    }
    c.nontrivial(same);
}

PBT_TEST_W(C22, refused, 0.5)
{
    std::string dir = scratch_dir("refused");
    std::string data = any_content(c);
    bool map = c.flag();
    static const std::vector<std::string> names{"a.bz2", "a.zip", "a.csv.bz2", "a.tar.zip", "a"};
    std::string name = c.pick(names);
    std::string path = dir + "/" + name;
    write_file(path, data);
    auto k = name == "a" || c.flag() ? (c.flag() ? Compression::bzip2 : Compression::zip) :
                                       Compression::infer;
    c.desc(name, " ", name_of(k), ", ", data.size(), " bytes");
    auto kind = kind_of_error([&] {
        File f{path, map, k};
        f.open_read();
    });
    ENSURE(kind == "not_supported", "opening a ", name_of(k), " file ends with '", kind, "'");
    kind = kind_of_error([&] {
        In_memory_store m{slice_of(data), k == Compression::infer ? Compression::zip : k};
        m.open_read();
    });
    ENSURE(kind == "not_supported", "opening a compressed memory store ends with '", kind, "'");
    kind = kind_of_error([&] { In_memory_store{slice_of(data), Compression::infer}; });
    ENSURE(kind == "not_supported", "memory store, infer: '", kind, "'");
    kind = kind_of_error([&] { Sagemaker_pipe(path, std::chrono::seconds{1}, {}, Compression::infer); });
    ENSURE(kind == "not_supported", "pipe, infer: '", kind, "'");

    kind = kind_of_error([&] { File{"", map}; });
    ENSURE(kind == "invalid_argument", "an empty path: '", kind, "'");
    kind = kind_of_error([&] { File{dir + "/", map}; });
    ENSURE(kind == "invalid_argument", "a directory: '", kind, "'");
    kind = kind_of_error([&] {
        File f{path + "-missing", map, c.flag() ? Compression::none : Compression::gzip};
        f.open_read();
    });
    ENSURE(kind == "system", "a missing file: '", kind, "'");
    // Content that is not what it claims to be.
    if (!data.empty() && data[0] != '\x1f') {
        std::string got;
        kind = kind_of_error([&] {
            std::string p = dir + "/x.gz";
            write_file(p, data);
            auto s = File{p, map}.open_read();
            for (Memory_slice m; !(m = s->read(1000)).empty();) {
                got += to_string(m);
            }
        });
        ENSURE(kind == "inflate" && got.empty(), "a file that is not compressed: '", kind, "'");
    }
    c.nontrivial();
}
