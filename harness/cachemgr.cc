// C15: CacheManager — what is handed out is what was created for the key, and the files kept stay within bounds.
#include "pbt.h"
#include "eckit/container/CacheManager.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/runtime/Main.h"
#include <algorithm>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

static time_t fakeTime = 0;  // 0: the real clock
extern "C" time_t time(time_t* p) {
    time_t t = fakeTime;
    if (!t) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        t = ts.tv_sec;
    }
    if (p) *p = t;
    return t;
}

namespace {

std::string slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}

bool there(const std::string& p) { return ::access(p.c_str(), F_OK) == 0; }

// the files below a directory
void files(const std::string& dir, const std::string& rel, std::set<std::string>& out) {
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (::lstat((dir + "/" + n).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) files(dir + "/" + n, rel + n + "/", out);
        else out.insert(rel + n);
    }
    closedir(d);
}

struct NoLock {
    explicit NoLock(const std::string&) {}
    void lock() {}
    void unlock() {}
};

template <class L>
struct Traits {
    using value_type = std::string;
    using Locker     = L;
    static const char* name() { return "things"; }
    static int version() { return 3; }
    static const char* extension() { return ".dat"; }
    static void load(const CacheManagerBase&, std::string& v, const PathName& p) { v = slurp(p.asString()); }
    static void save(const CacheManagerBase&, const std::string& v, const PathName& p) {
        std::ofstream out(p.asString().c_str(), std::ios::binary);
        out << v;
    }
};

struct Boom {};

struct Creator {
    int calls    = 0;
    bool saves   = false;  // writes the file itself
    int fails    = 0;      // 1: throws before, 2: after part of the file is written
    std::string content;
    std::string seen;
    std::string journal;   // where a byte is added per call
    unsigned slow = 0;     // microseconds
    void create(const PathName& p, std::string& v, bool& saved) {
        ++calls;
        seen = p.asString();
        if (!journal.empty()) {
            int fd = ::open(journal.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0666);
            if (fd < 0 || ::write(fd, "x", 1) != 1) ::abort();
            ::close(fd);
        }
        if (slow) ::usleep(slow);
        if (fails == 1) throw Boom();
        v = content;
        if (saves || fails == 2) {
            std::ofstream out(p.asString().c_str(), std::ios::binary);
            out << (fails == 2 ? content.substr(0, content.size() / 2) : content);
            if (fails == 2) throw Boom();
            saved = true;
            v     = "not this";  // the value comes from the file
        }
    }
};

template <class M>
struct Wrap : M::CacheContentCreator {
    Creator& c;
    Wrap(Creator& c) : c(c) {}
    void create(const PathName& p, std::string& v, bool& saved) override { c.create(p, v, saved); }
};

struct Base {
    virtual ~Base() = default;
    virtual std::string get(const std::string& key, Creator&, std::string& v) = 0;
};
template <class L>
struct Mgr : Base {
    using M = CacheManager<Traits<L>>;
    M m;
    Mgr(const std::string& roots, bool miss, size_t max) : m("loader", roots, miss, max) {}
    std::string get(const std::string& key, Creator& c, std::string& v) override {
        Wrap<M> w(c);
        return m.getOrCreate(key, w, v).asString();
    }
};

std::unique_ptr<Base> manager(bool flock, const std::string& roots, bool miss, size_t max) {
    if (flock) return std::make_unique<Mgr<CacheManagerFileFlock>>(roots, miss, max);
    return std::make_unique<Mgr<NoLock>>(roots, miss, max);
}

std::string content(const std::string& key, size_t size) {
    std::string s = key + ":";
    while (s.size() < size) s += char('a' + (s.size() * 7 + key.size() * 3 + size_t(key[0])) % 26);
    s.resize(std::max(size, key.size() + 1));
    return s;
}

// --- model of one root
struct Index {
    struct E {
        size_t size = 0;
        time_t last = 0;
    };
    std::map<std::string, E> e;  // known to the index
    size_t total = 0;
    bool scanned = false;
};

}  // namespace

PBT(history, 8) {
    std::string dir = g.freshDir();
    size_t nr       = 1 + g.idx(3);
    std::vector<std::string> roots;
    std::string all;
    std::vector<bool> writable;
    for (size_t i = 0; i < nr; ++i) {
        roots.push_back(dir + "/r" + std::to_string(i));
        all += (i ? ":" : "") + roots.back();
        ::mkdir(roots.back().c_str(), 0777);
    }
    bool flock = g.boolean();
    size_t max = g.chance(30) ? 0 : size_t(g.integer(50, 1500));
    std::vector<std::string> keys;
    std::map<std::string, size_t> sizes;
    size_t nk = 2 + g.idx(10);
    for (size_t i = 0; i < nk; ++i) {
        std::string k = "k" + std::to_string(i) + g.pick<std::string>({"", "-a", "/sub", ".x", "_long_name"});
        keys.push_back(k);
        sizes[k] = size_t(g.integer(20, 400));
    }
    fakeTime = 1000000;
    struct Reset {
        ~Reset() { fakeTime = 0; }
    } reset;
    auto m = manager(flock, all, false, max);
    g.note([&](std::ostream& o) {
        o << nr << " roots, at most " << max << " bytes, " << (flock ? "file locks" : "no locks") << ", keys";
        for (auto& k : keys) o << " " << k << "(" << sizes[k] << ")";
        o << "\n";
    });
    std::vector<std::set<std::string>> have(nr);  // keys with a file
    std::vector<Index> index(nr);
    std::set<std::string> decoys;
    size_t evictions = 0, hits = 0, creations = 0, recreations = 0;
    std::set<std::string> everCreated;
    auto touch = [&](size_t r, const std::string& key) {
        if (!max) return;
        Index& x = index[r];
        size_t size = sizes[key];
        if (!x.e.count(key)) {
            if (!x.scanned) {
                x.scanned = true;
                for (auto& k : have[r])
                    if (!x.e.count(k)) {
                        x.e[k] = {sizes[k], fakeTime};
                        x.total += sizes[k];
                    }
                return;
            }
            x.total += size;
            if (x.total > max) {
                size_t remove = x.total - max, gone = 0;
                std::vector<std::pair<time_t, std::string>> order;
                for (auto& p : x.e) order.push_back({p.second.last, p.first});
                std::sort(order.begin(), order.end());
                for (auto& p : order) {
                    if (gone >= remove) break;
                    size_t s = x.e[p.second].size;
                    if (have[r].count(p.second)) {
                        have[r].erase(p.second);
                        gone += s;
                        ++evictions;
                    }
                    x.total -= s;
                    x.e.erase(p.second);
                }
            }
            x.e[key].size = size;
        }
        x.e[key].last = fakeTime;
    };
    size_t n = g.size(g.thorough() ? 60 : 30);
    for (size_t s = 0; s < n; ++s) {
        fakeTime += 1 + time_t(g.idx(3));
        switch (g.weighted({16, 1, 1, 1})) {
            case 1: {  // another process takes over
                g.note([&](std::ostream& o) { o << "new manager\n"; });
                m.reset();
                m = manager(flock, all, false, max);
                break;
            }
            case 2: {  // a file that is not ours
                size_t r      = g.idx(nr);
                std::string f = roots[r] + "/things/3/" + g.pick<std::string>({"note.txt", "other", "k1.data", "k0.dat.bak"});
                if (!there(roots[r] + "/things/3")) break;
                std::ofstream(f) << "mine";
                decoys.insert(f);
                g.note([&](std::ostream& o) { o << "foreign file " << f << "\n"; });
                break;
            }
            case 3: {  // a cached file is deleted by hand
                size_t r = g.idx(nr);
                if (have[r].empty()) break;
                auto it = have[r].begin();
                std::advance(it, g.idx(have[r].size()));
                std::string k = *it;
                g.note([&](std::ostream& o) { o << "delete the file of " << k << " in root " << r << "\n"; });
                ::unlink((roots[r] + "/things/3/" + k + ".dat").c_str());
                have[r].erase(k);
                break;
            }
            default: {
                std::string key = keys[g.idx(nk)];
                Creator c;
                c.content = content(key, sizes[key]);
                c.saves   = g.boolean();
                c.fails   = g.chance(10) ? 1 + int(g.idx(2)) : 0;
                bool miss = g.chance(8);
                g.note([&](std::ostream& o) {
                    o << "get " << key << (miss ? ", throw on a miss" : "") << (c.fails ? ", creator fails" : "") << "\n";
                });
                size_t at = nr;
                for (size_t r = 0; r < nr && at == nr; ++r)
                    if (have[r].count(key)) at = r;
                std::string v = g.boolean() ? "" : "before", p;
                if (miss) {
                    m.reset();
                    auto mm = manager(flock, all, true, max);
                    if (at == nr) {
                        bool user = false;
                        try { mm->get(key, c, v); }
                        catch (UserError&) { user = true; }
                        CHECK(user, "a miss that should be an error is not");
                        CHECK_EQ(c.calls, 0, "creator called on a miss that should be an error");
                    }
                    else {
                        p = mm->get(key, c, v);
                        touch(at, key);
                        CHECK_EQ(v, c.content, "value of " + key);
                        CHECK_EQ(c.calls, 0, "creator called though the file exists");
                        CHECK_EQ(p, roots[at] + "/things/3/" + key + ".dat", "path of " + key);
                    }
                    mm.reset();
                    m = manager(flock, all, false, max);
                    break;
                }
                if (at == nr && c.fails) {
                    bool boom = false;
                    try { m->get(key, c, v); }
                    catch (Boom&) { boom = true; }
                    CHECK(boom, "the failure of the creator is lost");
                    CHECK_EQ(c.calls, 1, "calls of the creator");
                    break;
                }
                p = m->get(key, c, v);
                if (at == nr) {
                    CHECK_EQ(c.calls, 1, "calls of the creator");
                    CHECK(c.seen != p, "the creator is given the final name");
                    at = 0;
                    have[0].insert(key);
                    ++creations;
                    if (!everCreated.insert(key).second) ++recreations;
                }
                else {
                    CHECK_EQ(c.calls, 0, "creator called though the file exists");
                    ++hits;
                }
                touch(at, key);
                CHECK_EQ(v, c.content, "value of " + key);
                CHECK_EQ(p, roots[at] + "/things/3/" + key + ".dat", "path of " + key);
                // something in a later root only
                if (nr > 1 && g.chance(15)) {
                    size_t r       = 1 + g.idx(nr - 1);
                    std::string k2 = keys[g.idx(nk)];
                    bool any       = false;
                    for (size_t q = 0; q < nr; ++q) any = any || have[q].count(k2);
                    if (!any) {
                        g.note([&](std::ostream& o) { o << "put " << k2 << " in root " << r << "\n"; });
                        auto mm = manager(flock, roots[r], false, max);
                        Creator c2;
                        c2.content = content(k2, sizes[k2]);
                        m.reset();
                        mm->get(k2, c2, v);
                        have[r].insert(k2);
                        touch(r, k2);
                        mm.reset();
                        m = manager(flock, all, false, max);
                    }
                }
            }
        }
        for (size_t r = 0; r < nr; ++r) {
            std::set<std::string> fs;
            files(roots[r] + "/things/3", "", fs);
            for (auto& k : keys) {
                bool want = have[r].count(k), got = fs.count(k + ".dat");
                CHECK_EQ(got, want, "file of " + k + " in root " + std::to_string(r));
                if (got) CHECK_EQ(slurp(roots[r] + "/things/3/" + k + ".dat"), content(k, sizes[k]), "content of the file of " + k);
                fs.erase(k + ".dat");
            }
            // a creation that failed may leave its temporary file, which nothing ever takes for an entry
            for (auto& f : fs)
                CHECK(f.size() < 4 || f.substr(f.size() - 4) != ".dat" || f.find(".dat.") != std::string::npos || f.find("_") != std::string::npos,
                      "unexpected file " + f);
        }
        for (auto& f : decoys) CHECK_EQ(slurp(f), std::string("mine"), "a file that is not the cache's: " + f);
    }
    g.nontrivial(creations >= 3 && hits >= 1);
    if (evictions) g.label("eviction");
    if (recreations) g.label("re-creation");
}

// several processes ask for the same few keys at once
PBT(processes, 1) {
    std::string dir = g.freshDir();
    bool flock      = g.boolean();
    size_t np = 2 + g.idx(3), nk = 1 + g.idx(3), rounds = 1 + g.idx(4);
    std::vector<std::vector<size_t>> plan(np);
    for (auto& p : plan)
        for (size_t i = 0; i < rounds; ++i) p.push_back(g.idx(nk));
    std::vector<unsigned> delay;
    for (size_t i = 0; i < np; ++i) delay.push_back(unsigned(g.idx(2000)));
    unsigned slow = g.boolean() ? 0 : unsigned(g.idx(4000));
    bool before = g.boolean();
    std::string journals = g.freshDir();
    g.note([&](std::ostream& o) {
        o << (flock ? "file locks" : "no locks");
        for (auto& p : plan) { o << ";"; for (auto k : p) o << " " << k; }
        o << "\n";
    });
    g.nontrivial(np * rounds >= 4);
    std::vector<pid_t> pids;
    for (size_t i = 0; i < np; ++i) {
        pid_t pid = ::fork();
        if (pid == 0) {
            int rc = 0;
            try {
                auto m = manager(flock, dir, false, 0);
                for (auto k : plan[i]) {
                    std::string key = "k" + std::to_string(k);
                    struct Slow : Creator {
                    } c;
                    c.content = content(key, 3000 + 1000 * k);
                    c.saves   = true;
                    c.slow    = slow;
                    c.journal = journals + "/" + key;
                    std::string v = before ? "before" : "";
                    ::usleep(delay[i]);
                    m->get(key, c, v);
                    if (v != c.content) rc = 3;
                }
            }
            catch (std::exception& e) {
                rc = 4;
                std::cerr << "process " << i << ": " << e.what() << std::endl;
            }
            catch (...) {
                rc = 4;
            }
            ::_exit(rc);
        }
        pids.push_back(pid);
    }
    std::string bad;
    for (auto p : pids) {
        int st = 0;
        ::waitpid(p, &st, 0);
        if (!WIFEXITED(st)) bad = "a process dies";
        else if (WEXITSTATUS(st) == 3) bad = "a process is given something else than the value of its key";
        else if (WEXITSTATUS(st)) bad = "a process gets an error";
    }
    CHECK(bad.empty(), bad);
    // one file per key, made once where processes exclude one another
    std::set<size_t> asked;
    for (auto& p : plan) asked.insert(p.begin(), p.end());
    for (auto k : asked) {
        size_t n = slurp(journals + "/k" + std::to_string(k)).size();
        CHECK(n >= 1 && (n == 1 || !flock), "the content of k" << k << " is made " << n << " times");
    }
    std::set<std::string> left;
    files(dir, "", left);
    size_t dat = 0;
    for (auto& f : left) {
        bool lock = f.size() > 5 && f.substr(f.size() - 5) == ".lock";
        if (!lock) ++dat;
    }
    CHECK(dat == asked.size(), "" << dat << " files for " << asked.size() << " keys");
}
