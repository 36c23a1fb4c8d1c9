// C14: the other containers against the standard ones
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <deque>
#include <fstream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include "eckit/container/BloomFilter.h"
#include "eckit/container/Cache.h"
#include "eckit/container/CacheLRU.h"
#include "eckit/container/ClassExtent.h"
#include "eckit/container/DenseMap.h"
#include "eckit/container/DenseSet.h"
#include "eckit/container/MappedArray.h"
#include "eckit/container/Recycler.h"
#include "eckit/container/SharedMemArray.h"
#include "eckit/container/Trie.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/CircularBuffer.h"
#include "eckit/log/JSON.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { eckit::Main::initialise(argc, argv); }

//---------------------------------------------------------------------------------------------------------------------
// CacheLRU: a list in order of use

static std::vector<std::pair<std::string, long>> purged;
static void onPurge(std::string& k, long& v) { purged.push_back({k, v}); }

template <class K> static K mk(long i);
template <> std::string mk<std::string>(long i) { return "k" + std::to_string(i); }

PBT(lru, 2) {
    size_t cap = g.size(6);
    bool withPurge = g.chance(85);
    std::list<std::pair<std::string, long>> model;  // front: used last
    std::vector<std::pair<std::string, long>> expect;
    purged.clear();
    size_t n = g.size(40);
    g.nontrivial(n > 6);
    long span = 1 + long(g.size(9));
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << "capacity " << cap << log.str(); });
    auto drop = [&](size_t to) { while (model.size() > to) { expect.push_back(model.back()); model.pop_back(); } };
    auto at = [&](const std::string& k) { for (auto i = model.begin(); i != model.end(); ++i) if (i->first == k) return i; return model.end(); };
    {
        CacheLRU<std::string, long> c(cap, withPurge ? &onPurge : nullptr);
        for (size_t i = 0; i < n; i++) {
            std::string k = mk<std::string>(g.range(0, span));
            auto m = at(k);
            bool have = m != model.end();
            switch (g.weighted({6, 5, 1, 1, 2, 1, 1})) {
                case 0: {
                    long v = g.range(0, 1000);
                    log << " insert(" << k << "," << v << ")";
                    CHECK_EQ(c.insert(k, v), have, "insert");
                    if (have) model.erase(m);
                    model.push_front({k, v});
                    drop(cap);
                    break;
                }
                case 1: {
                    log << " access(" << k << ")";
                    long v = 0; std::string what;
                    bool t = false;
                    try { v = c.access(k); } catch (OutOfRange&) { t = true; }
                    CHECK_EQ(t, !have, "access of a missing key");
                    if (have) { CHECK_EQ(v, m->second, "access"); model.splice(model.begin(), model, m); }
                    break;
                }
                case 2: {
                    log << " extract(" << k << ")";
                    long v = 0; bool t = false;
                    try { v = c.extract(k); } catch (OutOfRange&) { t = true; }
                    CHECK_EQ(t, !have, "extract of a missing key");
                    if (have) { CHECK_EQ(v, m->second, "extract"); model.erase(m); }
                    break;
                }
                case 3:
                    log << " remove(" << k << ")";
                    CHECK_EQ(c.remove(k), have, "remove");
                    if (have) { expect.push_back(*m); model.erase(m); }
                    break;
                case 4:
                    CHECK_EQ(c.exists(k), have, "exists");
                    break;
                case 5:
                    cap = g.size(6);
                    log << " capacity(" << cap << ")";
                    c.capacity(cap);
                    drop(cap);
                    break;
                default:
                    if (g.chance(30)) {
                        log << " clear()";
                        c.clear();
                        for (auto& e : model) expect.push_back(e);
                        model.clear();
                    }
            }
            CHECK_EQ(c.size(), model.size(), "size");
            CHECK_EQ(c.capacity(), cap, "capacity");
            std::ostringstream s, t;
            s << c;
            for (auto& e : model) t << "key=" << e.first << ",";
            CHECK(s.str().find("{" + t.str() + "}") != std::string::npos, "order of use: " << s.str() << " is not " << t.str());
            if (withPurge) CHECK(purged == expect, "what was purged");
        }
        if (withPurge && g.boolean()) {}
    }
    for (auto& e : model) expect.push_back(e);
    if (withPurge) CHECK(purged == expect, "what was purged at the end");
    else CHECK(purged.empty(), "purged without a handler");
}

//---------------------------------------------------------------------------------------------------------------------
// Cache: a map with entries marked as expired

PBT(cache, 1) {
    Cache<std::string, long> c;
    std::map<std::string, std::pair<long, bool>> m;
    size_t n = g.size(40);
    g.nontrivial(n > 6);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    for (size_t i = 0; i < n; i++) {
        std::string k = g.str(2, "ab");
        long v = g.range(0, 1000);
        auto it = m.find(k);
        bool have = it != m.end(), valid = have && !it->second.second;
        switch (g.weighted({5, 3, 4, 3, 1, 1})) {
            case 0: log << " insert " << k; CHECK_EQ(c.insert(k, v), !valid, "insert"); if (!valid) m[k] = {v, false}; break;
            case 1: log << " update " << k; CHECK_EQ(c.update(k, v), have, "update"); m[k] = {v, false}; break;
            case 2: { long w = -1; log << " fetch " << k; CHECK_EQ(c.fetch(k, w), valid, "fetch"); CHECK_EQ(w, valid ? it->second.first : -1, "value"); break; }
            case 3: log << " expire " << k; CHECK_EQ(c.expire(k), have, "expire"); if (have) it->second.second = true; break;
            case 4: log << " purge"; c.purge(); for (auto j = m.begin(); j != m.end();) j = j->second.second ? m.erase(j) : std::next(j); break;
            default: if (g.chance(30)) { log << " clear"; c.clear(); m.clear(); }
        }
        CHECK_EQ(c.size(), m.size(), "size");
        for (auto& e : m) CHECK_EQ(c.valid(e.first), !e.second.second, "valid " << e.first);
    }
}

//---------------------------------------------------------------------------------------------------------------------

template <class T> static void bloom(pbt::Gen& g, std::function<T()> value) {
    size_t bits = 1 + g.size(300);
    BloomFilter<T> b(bits);
    CHECK(b.empty(), "new filter");
    std::set<T> in;
    size_t n = g.size(30);
    g.nontrivial(n > 3 && bits > 8);
    g.note([&](std::ostream& o) { o << bits << " bits, " << n << " entries"; });
    for (size_t i = 0; i < n; i++) {
        T v = value();
        bool before = b.contains(v);
        CHECK(!before || !in.empty(), "an empty filter contains something");
        b.insert(v);
        in.insert(v);
        CHECK(!b.empty(), "filled filter is empty");
        for (auto& e : in) CHECK(b.contains(e), "an entry is missing");
    }
    // an empty filter denies everything; a sparse one most things: with more bits than 40 times the entries, 60 strangers cannot all be hits
    if (bits > 40 * in.size()) {
        size_t hits = 0, tried = 0;
        for (size_t i = 0; i < 60; i++) { T v = value(); if (in.count(v)) continue; tried++; if (b.contains(v)) hits++; }
        (void)tried;
        CHECK(tried < 40 || hits < tried, "the filter denies nothing");
    }
}

PBT(bloom, 1) {
    if (g.boolean()) bloom<std::string>(g, [&] { return g.str(6, "abcdefgh"); });
    else bloom<long>(g, [&] { return g.integer(); });
}

//---------------------------------------------------------------------------------------------------------------------

PBT(densemap, 1) {
    DenseMap<std::string, long> d;
    std::map<std::string, long> m;
    size_t n = g.size(60);
    g.nontrivial(n > 6);
    bool sorted = true;
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    for (size_t i = 0; i < n; i++) {
        std::string k = g.str(2, "abc");
        long v = g.range(0, 1000);
        switch (g.weighted({8, 2, 2, 3, 1})) {
            case 0: log << " insert " << k << "=" << v; d.insert(k, v); m[k] = v; sorted = false; break;
            case 1:
                if (!sorted && !m.empty()) d.sort(), sorted = true, log << " sort";
                log << " replace " << k << "=" << v;
                if (!m.count(k)) sorted = false;
                d.replace(k, v);
                m[k] = v;
                break;
            case 2: log << " sort"; d.sort(); sorted = true; break;
            case 3: break;
            default: if (g.chance(30)) { log << " clear"; d.clear(); m.clear(); sorted = true; }
        }
        CHECK_EQ(d.empty(), m.empty(), "empty");
        CHECK_EQ(d.sorted(), sorted, "sorted");
        if (sorted) {
            CHECK_EQ(d.size(), m.size(), "size");
            CHECK_EQ(d.contains(k), m.count(k) == 1, "contains " << k);
            auto it = m.begin();
            size_t j = 0;
            const auto& cd = d;
            for (auto e = d.begin(); e != d.end(); ++e, ++it, ++j) {
                CHECK(e->first == it->first && e->second == it->second, "entry " << j << ": " << e->first << "=" << e->second << ", not " << it->first << "=" << it->second);
                CHECK_EQ(d.at(j), it->second, "at");
                CHECK_EQ(cd[j], it->second, "[index]");
                CHECK_EQ(cd.get(it->first), it->second, "get");
                CHECK_EQ(cd[it->first], it->second, "[key]");
                CHECK(cd.find(it->first)->second == it->second, "find");
            }
            CHECK(pbt::throws([&] { d.at(m.size()); }), "at behind the end");
        }
        else {
            CHECK(pbt::throws([&] { d.find(k); }), "find in an unsorted map");
            CHECK(pbt::throws([&] { d.size(); }), "size of an unsorted map");
        }
    }
}

PBT(denseset, 1) {
    std::vector<DenseSet<std::string>> d(2);
    std::vector<std::set<std::string>> m(2);
    size_t n = g.size(40);
    g.nontrivial(n > 6);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    auto compare = [&](int w) {
        auto& s = d[w];
        CHECK(s.sorted(), "sorted after sort");
        CHECK_EQ(s.size(), m[w].size(), "size");
        auto it = m[w].begin();
        size_t j = 0;
        for (auto& v : s) { CHECK_EQ(v, *it, "entry " << j); CHECK_EQ(s[j], *it, "[]"); CHECK_EQ(s.at(j), *it, "at"); CHECK(s.contains(*it), "contains"); CHECK(*s.find(*it) == *it, "find"); ++it; ++j; }
        CHECK(pbt::throws([&] { s.at(j); }), "at behind the end");
    };
    for (size_t i = 0; i < n; i++) {
        int w = int(g.idx(2));
        std::string k = g.str(3, "abc");
        switch (g.weighted({8, 2, 2, 1, 1})) {
            case 0: log << " " << w << "+" << k; d[w].insert(k); m[w].insert(k); CHECK(!d[w].empty(), "empty"); break;
            case 1: log << " sort" << w; d[w].sort(); compare(w); CHECK_EQ(d[w].contains(k), m[w].count(k) == 1, "contains"); break;
            case 2:
                log << " merge into " << w;
                d[0].sort(); d[1].sort();
                d[w].merge(d[1 - w]);
                m[w].insert(m[1 - w].begin(), m[1 - w].end());
                compare(w);
                compare(1 - w);
                break;
            case 3: if (g.chance(30)) { log << " clear" << w; d[w].clear(); m[w].clear(); CHECK(d[w].empty() && d[w].sorted(), "clear"); } break;
            default:
                d[0].sort(); d[1].sort();
                CHECK_EQ(d[0] == d[1], m[0] == m[1], "==");
                CHECK_EQ(d[0] != d[1], m[0] != m[1], "!=");
        }
    }
    d[0].sort();
    compare(0);
    std::ostringstream js, ms;
    { JSON j(js); j << d[0]; }
    ms << "[";
    for (auto& v : m[0]) ms << (ms.str().size() > 1 ? "," : "") << '"' << v << '"';
    ms << "]";
    CHECK_EQ(js.str(), ms.str(), "JSON");
}

//---------------------------------------------------------------------------------------------------------------------

PBT(trie, 2) {
    Trie<long> t;
    std::map<std::string, long> m;
    CHECK(t.empty(), "new trie");
    size_t n = g.size(60);
    g.nontrivial(n > 6);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    int style = int(g.idx(3));
    auto key = [&] {
        std::string s = style == 0 ? g.str(4, "ab") : style == 1 ? g.str(3, "azm\x7f\x80\xff\x01") : g.bytes(2);
        for (auto& c : s) if (c == 0) c = 'x';
        if (!m.empty() && g.chance(40)) { auto i = m.begin(); std::advance(i, g.idx(m.size())); s = g.boolean() ? i->first : g.boolean() ? i->first + s : i->first.substr(0, g.idx(i->first.size() + 1)); }
        return s;
    };
    for (size_t i = 0; i < n; i++) {
        std::string k = key();
        switch (g.weighted({6, 4, 3})) {
            case 0: { long v = g.range(0, 1000); log << " insert " << pbt::esc(k) << "=" << v; t.insert(k, v); m[k] = v; break; }
            case 1: log << " remove " << pbt::esc(k); t.remove(k); m.erase(k); break;
            default: break;
        }
        CHECK_EQ(t.contains(k), m.count(k) == 1, "contains " << pbt::esc(k));
        CHECK_EQ(t.empty(), m.empty(), "empty");
        for (auto& e : m) { long* p = t.find(e.first); CHECK(p && *p == e.second, "entry " << pbt::esc(e.first)); }
        std::string q = key();
        CHECK_EQ(t.find(q) != nullptr, m.count(q) == 1, "find " << pbt::esc(q));
    }
}

//---------------------------------------------------------------------------------------------------------------------

PBT(circular, 2) {
    size_t size = 1 + g.size(40), cap = g.chance(40) ? size + g.size(200) : 1000000;
    CircularBuffer c(size, cap);
    std::string m;
    size_t n = g.size(50);
    g.nontrivial(n > 6);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << "size " << size << " capacity " << cap << log.str(); });
    CHECK_EQ(c.capacity(), cap, "capacity");
    CHECK_EQ(c.size(), size, "size");
    for (size_t i = 0; i < n; i++) {
        if (g.chance(55)) {
            std::string d = g.bytes(1 + g.size(30));
            log << " write(" << d.size() << ")";
            size_t was = c.size();
            bool t = false;
            size_t r = 0;
            try { r = c.write(d.data(), d.size()); } catch (SeriousBug&) { t = true; }
            if (t) {
                CHECK(m.size() + d.size() > was && was + d.size() + size > cap, "a write of " << d.size() << " to " << m.size() << " of " << was << " was refused though there was room");
                CHECK_EQ(c.size(), was, "size after a refused write");
            }
            else { CHECK_EQ(r, d.size(), "write"); m += d; }
            CHECK(c.size() >= m.size() && c.size() <= cap, "size " << c.size());
            CHECK(c.size() >= was, "it shrank");
        }
        else if (g.chance(97)) {
            size_t want = g.size(40);
            log << " read(" << want << ")";
            std::string d(want + 8, '#');
            size_t r = c.read(&d[0], want);
            CHECK_EQ(r, std::min(want, m.size()), "read");
            CHECK_EQ(pbt::esc(d.substr(0, r)), pbt::esc(m.substr(0, r)), "bytes read");
            CHECK(d.substr(r) == std::string(want + 8 - r, '#'), "more than asked was overwritten");
            m.erase(0, r);
        }
        else { log << " clear"; c.clear(); m.clear(); }
        CHECK_EQ(c.length(), m.size(), "length");
    }
    std::string d(m.size() + 1, 0);
    CHECK_EQ(c.read(&d[0], d.size()), m.size(), "the rest");
    CHECK(d.substr(0, m.size()) == m, "bytes of the rest");
}

// one thread writes, one reads: what arrives is the stream written
PBT(circularthreads, 1) {
    size_t size = 1 + g.size(40);
    CircularBuffer c(size);
    std::string all = g.bytes(g.size(400)), got;
    std::vector<size_t> cuts;
    for (size_t i = 0; i < 10; i++) cuts.push_back(1 + g.size(50));
    size_t want = 1 + g.size(60);
    g.note([&](std::ostream& o) { o << all.size() << " bytes through " << size; });
    g.nontrivial(all.size() > size);
    std::thread w([&] {
        size_t at = 0, k = 0;
        while (at < all.size()) { size_t n = std::min(cuts[k++ % cuts.size()], all.size() - at); c.write(all.data() + at, n); at += n; }
    });
    std::string d(want, 0);
    while (got.size() < all.size()) {
        size_t r = c.read(&d[0], want);
        if (!r) std::this_thread::yield();
        got.append(d, 0, r);
    }
    w.join();
    CHECK(got == all, "the bytes that arrived");
    CHECK_EQ(c.length(), size_t(0), "left over");
}

//---------------------------------------------------------------------------------------------------------------------
// arrays in files and shared memory; they are never unmapped nor closed, so this is done here

struct Leaks {
    std::vector<std::pair<void*, size_t>> maps;
    int fd0;
    Leaks() { fd0 = ::dup(0); if (fd0 < 0) fd0 = ::open("/dev/null", O_RDONLY); ::close(fd0); }
    void map(void* b, size_t bytes) { maps.push_back({(char*)b - 4096, bytes + 4096}); }
    ~Leaks() {
        for (auto& m : maps) ::munmap(m.first, m.second);
        std::vector<int> fds;
        for (int f = fd0; f < fd0 + 12; f++) { char l[64], t[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", f); ssize_t n = readlink(l, t, sizeof t - 1); if (n > 0) { t[n] = 0; if (strstr(t, "pbt_arr") ) fds.push_back(f); } }
        for (int f : fds) ::close(f);
    }
};

// semaphore sets outlive the process: one file for all cases, and its set removed after each
struct Sems {
    std::string p;
    Sems(const std::string& path) : p(path) {}
    ~Sems() { key_t k = ftok(p.c_str(), 1); if (k != key_t(-1)) { int s = semget(k, 1, 0666); if (s >= 0) semctl(s, 0, IPC_RMID); } }
};

template <class T, class A, class Open> static void arrays(pbt::Gen& g, Open open, Leaks& leaks, bool zeroOnAnyChange) {
    std::vector<T> m;
    std::vector<std::unique_ptr<A>> live;
    bool first = true;
    size_t most = 0;
    size_t n = 1 + g.size(5);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(n > 1);
    for (size_t i = 0; i < n; i++) {
        size_t sz = first || g.chance(50) ? 1 + g.size(60) : m.size();
        log << " open(" << sz << ")";
        if (zeroOnAnyChange && !live.empty() && sz != m.size()) live.clear();  // the file may get shorter than its mappings
        std::unique_ptr<A> a(open(sz));
        leaks.map(a->begin(), sz * sizeof(T));
        CHECK_EQ(size_t(a->size()), sz, "size");
        CHECK_EQ(size_t(a->end() - a->begin()), sz, "end - begin");
        if (zeroOnAnyChange) { if (first || sz != m.size()) m.assign(sz, T()); }
        else {
            if (first || sz > most) { m.assign(sz, T()); most = sz; }
        }
        first = false;
        for (size_t j = 0; j < sz; j++) CHECK_EQ((*a)[j], m[j], "entry " << j << " after opening");
        size_t w = g.size(10);
        for (size_t j = 0; j < w; j++) { size_t at = g.idx(sz); T v = T(g.range(-1000, 1000)); (*a)[at] = v; m[at] = v; }
        log << " " << w << " writes";
        a->sync();
        for (size_t j = 0; j < sz; j++) CHECK_EQ((*a)[j], m[j], "entry " << j);
        live.push_back(std::move(a));
        for (auto& l : live) for (size_t j = 0; j < l->size() && j < m.size(); j++) CHECK_EQ((*l)[j], m[j], "entry " << j << " seen by the others");
        if (g.boolean()) live.clear();
    }
}

PBT(mapped, 1) {
    std::string p = g.freshDir() + "/pbt_arr";
    Sems sems(p);
    Leaks leaks;
    if (g.boolean()) arrays<int, MappedArray<int>>(g, [&](size_t n) { return new MappedArray<int>(p, n); }, leaks, true);
    else arrays<double, MappedArray<double>>(g, [&](size_t n) { return new MappedArray<double>(p, n); }, leaks, true);
}

PBT(shared, 1) {
    std::string p = g.freshDir() + "/pbt_sem";
    std::string name = "/pbt_arr_" + std::to_string(::getpid());
    ::shm_unlink(name.c_str());
    Sems sems(p);
    {
        Leaks leaks;
        arrays<int, SharedMemArray<int>>(g, [&](size_t n) { return new SharedMemArray<int>(p, name, n); }, leaks, false);
    }
    ::shm_unlink(name.c_str());
}

PBT(recycler, 1) {
    std::string p = g.freshDir() + "/sub/recycler";
    std::unique_ptr<Recycler<long>> r(new Recycler<long>(p));
    std::vector<long> m;
    size_t n = g.size(25);
    g.nontrivial(n > 4);
    std::ostringstream log;
    g.note([&](std::ostream& o) { o << log.str(); });
    for (size_t i = 0; i < n; i++) {
        switch (g.weighted({3, 3, 3, 3, 1})) {
            case 0: { long v = g.integer(); log << " push"; r->push(v); m.push_back(v); break; }
            case 1: { std::vector<long> v(g.size(10)); for (auto& x : v) x = g.integer(); log << " push(" << v.size() << ")"; r->push(v.begin(), v.end()); m.insert(m.end(), v.begin(), v.end()); break; }
            case 2: {
                long v = 4711; log << " pop";
                bool ok = r->pop(v);
                CHECK_EQ(ok, !m.empty(), "pop");
                if (ok) { CHECK_EQ(v, m.back(), "popped"); m.pop_back(); }
                break;
            }
            case 3: {
                size_t c = g.size(10); std::vector<long> v(c + 1, 4711); log << " pop(" << c << ")";
                size_t k = r->pop(v.begin(), Ordinal(c));
                CHECK_EQ(k, std::min(c, m.size()), "popped count");
                std::vector<long> tail(m.end() - k, m.end());
                v.resize(k);
                std::sort(v.begin(), v.end()); std::sort(tail.begin(), tail.end());
                CHECK(v == tail, "values popped");
                m.resize(m.size() - k);
                break;
            }
            default: log << " reopen"; r.reset(); r.reset(new Recycler<long>(p));
        }
        struct stat s;
        CHECK(::stat(p.c_str(), &s) == 0 && size_t(s.st_size) == m.size() * sizeof(long), "size of the file");
    }
}

//---------------------------------------------------------------------------------------------------------------------
// ClassExtent: all live objects of a class

struct Member : ClassExtent<Member> {
    int id; static std::map<int, int>* calls;
    Member(int i) : ClassExtent<Member>(this), id(i) {}
    void call() { (*calls)[id]++; }
    void add(int n) { (*calls)[id] += n; }
};
std::map<int, int>* Member::calls = nullptr;

PBT(extent, 1) {
    std::map<int, std::unique_ptr<Member>> live;
    size_t n = g.size(20);
    g.nontrivial(n > 4);
    int next = 0;
    for (size_t i = 0; i < n; i++) {
        switch (g.weighted({3, 2, 2, 1})) {
            case 0: live[next].reset(new Member(next)); next++; break;
            case 1: if (!live.empty()) { auto it = live.begin(); std::advance(it, g.idx(live.size())); live.erase(it); } break;
            default: {
                std::map<int, int> calls, want;
                Member::calls = &calls;
                bool add = g.boolean();
                if (add) ClassExtent<Member>::callAll(&Member::add, 3); else ClassExtent<Member>::callAll(&Member::call);
                for (auto& e : live) want[e.first] = add ? 3 : 1;
                CHECK(calls == want, "objects called: " << calls.size() << " of " << want.size());
            }
        }
        CHECK_EQ(ClassExtent<Member>::size(), live.size(), "size");
    }
}
