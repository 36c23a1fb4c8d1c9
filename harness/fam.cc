// C38: fabric-attached memory: lists, maps, objects, handles and names, one after the other and under generated schedules.
#include "eckit/io/AutoCloser.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/fam/FamHandle.h"
#include "eckit/io/fam/FamList.h"
#include "eckit/io/fam/FamMap.h"
#include "eckit/io/fam/FamObject.h"
#include "eckit/io/fam/FamObjectName.h"
#include "eckit/io/fam/FamPath.h"
#include "eckit/io/fam/FamProperty.h"
#include "eckit/io/fam/FamRegion.h"
#include "eckit/io/fam/FamRegionName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "pbt.h"

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <atomic>
#include <ctime>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <unistd.h>

using namespace eckit;
using pbt::Gen;

PBT_INIT { eckit::Main::initialise(argc, argv); }

//----------------------------------------------------------------------------------------------------------------------
// Schedules: one thread at a time; whenever one is about to take a lock (every operation on the memory does) while
// holding none, the schedule says who is next.
namespace det {
thread_local int me    = -1;
thread_local int depth = 0;
struct Run {
    std::vector<uint8_t> choices;
    size_t pos = 0;
    std::vector<bool> alive;
    std::vector<sem_t> sem;
    long steps = 0, switches = 0;
};
Run* run = nullptr;
void handOver(int to) {
    ::sem_post(&run->sem[size_t(to)]);
}
int pick(int self) {
    std::vector<int> others;
    int n = int(run->alive.size());
    for (int k = 1; k < n; ++k) {
        int t = (self + k) % n;
        if (run->alive[size_t(t)]) others.push_back(t);
    }
    bool here = run->alive[size_t(self)];
    if (others.empty()) return here ? self : -1;
    unsigned c;
    if (run->pos < run->choices.size()) c = run->choices[run->pos++];
    else c = run->steps % 40 ? 0 : 1;  // to the end; whoever waits for another gets it in the end
    if (here && c == 0) return self;
    return others[(c ? c - 1 : 0) % others.size()];
}
void point() {
    if (me < 0 || depth > 0) return;
    run->steps++;
    int to = pick(me);
    if (to == me) return;
    run->switches++;
    int self = me;
    handOver(to);
    while (::sem_wait(&run->sem[size_t(self)]) != 0) {}
}
void threads(const std::vector<std::function<void()>>& fs, const std::vector<uint8_t>& choices, long& steps, long& switches) {
    Run r;
    r.choices = choices;
    r.alive.assign(fs.size(), true);
    r.sem = std::vector<sem_t>(fs.size());
    for (auto& s : r.sem) ::sem_init(&s, 0, 0);
    run = &r;
    std::vector<std::string> errors(fs.size());
    std::vector<std::thread> ts;
    for (size_t i = 0; i < fs.size(); ++i)
        ts.emplace_back([&, i] {
            while (::sem_wait(&r.sem[i]) != 0) {}
            me = int(i);
            try { fs[i](); }
            catch (const std::exception& e) { errors[i] = e.what(); if (errors[i].empty()) errors[i] = "?"; }
            int self = me;
            r.alive[i] = false;
            int to = pick(self);
            me = -1;
            if (to >= 0) handOver(to);
        });
    handOver(0);
    for (auto& t : ts) t.join();
    for (auto& s : r.sem) ::sem_destroy(&s);
    run      = nullptr;
    steps    = r.steps;
    switches = r.switches;
    for (auto& e : errors)
        if (!e.empty()) pbt::fail("a thread ends with: " + e);
}
}  // namespace det

extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static int (*real)(pthread_mutex_t*) = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if (det::me >= 0) { det::point(); det::depth++; }
    return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static int (*real)(pthread_mutex_t*) = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    int r = real(m);
    if (det::me >= 0) det::depth--;
    return r;
}

//----------------------------------------------------------------------------------------------------------------------
static const std::string& endpoint() {
    static const std::string e = [] {
        std::string host = "verif" + std::to_string(::getpid()), ep = host + ":8880";
        // nothing stays behind in /dev/shm: the memory is there as long as this process
        FamRegionName n{net::Endpoint{ep}, ""};
        n.withRegion("first").create(64, 0640, true).destroy();
        ::shm_unlink(("/eckit_fam_mock_" + host).c_str());
        return ep;
    }();
    return e;
}

struct Region {
    FamRegion r;
    std::string name;
    static long& count() { static long c = 0; return c; }
    explicit Region(fam::size_t size = 1 << 20, fam::perm_t perm = 0640) : r(make(size, perm)), name(r.name()) {}
    ~Region() { try { r.destroy(); } catch (...) {} }
    static FamRegion make(fam::size_t size, fam::perm_t perm) {
        FamRegionName n{net::Endpoint{endpoint()}, ""};
        return n.withRegion("r" + std::to_string(count()++)).create(size, perm, true);
    }
};

static std::string str(const Buffer& b) { return {static_cast<const char*>(b.data()), b.size()}; }

using Strings = std::deque<std::string>;
static std::string show(const Strings& v) {
    std::string s = "[";
    for (auto& x : v) s += pbt::esc(x) + " ";
    return s + "]";
}

static Strings forward(const FamList& l, size_t limit) {
    Strings res;
    auto end = l.end();
    for (auto i = l.begin(); i != end; ++i) {
        res.push_back(str(*i));
        if (res.size() > limit) pbt::fail("the list does not come to an end");
    }
    return res;
}
static Strings backward(const FamList& l, size_t limit) {
    Strings res;
    auto begin = l.begin();
    auto i     = l.end();
    while (i != begin) {
        --i;
        res.push_front(str(*i));
        if (res.size() > limit) pbt::fail("the list, backwards, does not come to a beginning");
    }
    return res;
}

static void same(const FamList& l, const Strings& m, const char* when) {
    if (l.size() != m.size()) pbt::fail(std::string(when) + ": size() is " + std::to_string(l.size()) + ", not " + std::to_string(m.size()));
    if (l.empty() != m.empty()) pbt::fail(std::string(when) + ": empty()");
    Strings f = forward(l, m.size() + 5);
    if (f != m) pbt::fail(std::string(when) + ": the list is " + show(f) + ", not " + show(m));
    if (m.empty()) {
        if (!pbt::throws([&] { l.front(); })) pbt::fail("front() of an empty list");
        if (!pbt::throws([&] { l.back(); })) pbt::fail("back() of an empty list");
        return;
    }
    Strings b = backward(l, m.size() + 5);
    if (b != m) pbt::fail(std::string(when) + ": the list, backwards, is " + show(b) + ", not " + show(m));
    std::string front = str(l.front()), back = str(l.back());
    if (front != m.front()) pbt::fail(std::string(when) + ": front()");
    if (back != m.back()) pbt::fail(std::string(when) + ": back()");
}

static std::string payload(Gen& g, long& serial) {
    std::string s = std::to_string(serial++);
    if (g.chance(30)) s += g.bytes(g.chance(20) ? 300 : 12);
    if (g.chance(10)) s = g.bytes(1) + std::string(1, char(g.choice(255)));
    return s;
}

PBT(list, 5) {
    Region region;
    struct L { std::string name; std::unique_ptr<FamList> list; Strings m; FamList::Descriptor desc; };
    std::vector<L> ls(1 + g.idx(3));
    for (size_t i = 0; i < ls.size(); ++i) {
        ls[i].name = g.ident().substr(0, 8) + std::to_string(i);
        ls[i].list.reset(new FamList(region.r, ls[i].name));
        ls[i].desc = ls[i].list->descriptor();
        same(*ls[i].list, {}, "at first");
    }
    long serial = 0, n = 0, removed = 0;
    size_t most = 0;
    while (g.more(96)) {
        L& l = ls[g.idx(ls.size())];
        FamList& f = *l.list;
        n++;
        switch (g.weighted({30, 30, 12, 12, 14, 3, 5, 5})) {
            case 0: { std::string p = payload(g, serial); g.boolean() ? f.pushFront(p.data(), p.size()) : f.pushFront(std::string_view(p)); l.m.push_front(p); break; }
            case 1: { std::string p = payload(g, serial); g.boolean() ? f.pushBack(p.data(), p.size()) : f.pushBack(std::string_view(p)); l.m.push_back(p); break; }
            case 2:
                if (l.m.empty()) { CHECK(pbt::throws([&] { f.popFront(); }), "popFront() of an empty list"); break; }
                f.popFront(); l.m.pop_front(); removed++;
                break;
            case 3:
                if (l.m.empty()) { CHECK(pbt::throws([&] { f.popBack(); }), "popBack() of an empty list"); break; }
                f.popBack(); l.m.pop_back(); removed++;
                break;
            case 4: {
                if (l.m.empty()) { CHECK(pbt::throws([&] { f.erase(f.end()); }), "erase(end())"); break; }
                size_t k = g.idx(l.m.size());
                auto it  = f.begin();
                if (g.boolean()) { for (size_t j = 0; j < k; ++j) ++it; }
                else { it = f.end(); for (size_t j = l.m.size(); j > k; --j) --it; }
                std::string at = str(*it);
                CHECK(at == l.m[k], "the element before it is erased");
                auto next = f.erase(std::move(it));
                l.m.erase(l.m.begin() + long(k));
                removed++;
                if (k == l.m.size()) { CHECK(next == f.end(), "erase() of the last element is the end"); }
                else { std::string a = str(*next); CHECK(a == l.m[k], "erase() leads to the element that follows"); }
                break;
            }
            case 5: f.clear(); removed += long(l.m.size()); l.m.clear(); break;
            case 6: l.list.reset(new FamList(region.r, l.name)); g.label("reopened by name"); break;
            case 7: l.list.reset(new FamList(region.r, l.desc)); g.label("reopened by descriptor"); break;
        }
        most = std::max(most, l.m.size());
        same(*l.list, l.m, "after an operation");
    }
    for (auto& l : ls) same(*l.list, l.m, "in the end");
    g.nontrivial(most > 3 && removed > 2);
    g.note([&](std::ostream& o) { o << n << " operations, at most " << most << " elements, " << removed << " removed, " << ls.size() << " lists"; });
}

//----------------------------------------------------------------------------------------------------------------------
// keys: some share their bucket
template <typename Map>
static const std::vector<typename Map::key_type>& keys() {
    using K = typename Map::key_type;
    static const std::vector<K> res = [] {
        std::vector<K> r;
        std::map<size_t, std::vector<K>> by;
        typename Map::hash_type h;
        for (int i = 0; i < 40000; ++i) {
            K k(std::string(i % 3 ? "key" : "a much longer name ") + std::to_string(i));
            by[h(k) % Map::bucket_count].push_back(k);
        }
        int n = 0;
        for (auto& b : by) {
            if (n++ % 300 || b.second.size() < 8) continue;
            for (size_t j = 0; j < 8; ++j) r.push_back(b.second[j]);
        }
        r.push_back(K(""));
        r.push_back(K(std::string(Map::key_size, 'x')));
        for (int i = 0; i < 8; ++i) r.push_back(K("k" + std::to_string(i)));
        return r;
    }();
    return res;
}

template <typename Map>
struct MapModel {
    using K = typename Map::key_type;
    std::map<K, Strings> m;  // newest first
    size_t size() const { size_t n = 0; for (auto& k : m) n += k.second.size(); return n; }
};

template <typename Map>
static void sameMap(const Map& f, const MapModel<Map>& model, const char* when) {
    using K = typename Map::key_type;
    size_t n = model.size();
    if (f.size() != n) pbt::fail(std::string(when) + ": size() is " + std::to_string(f.size()) + ", not " + std::to_string(n));
    if (f.empty() != (n == 0)) pbt::fail("empty()");
    std::map<K, Strings> seen;
    size_t count = 0;
    auto end = f.end();
    for (auto i = f.begin(); i != end; ++i) {
        auto e = *i;
        seen[e.key].push_back(str(e.value));
        if (++count > n + 5) pbt::fail("the map does not come to an end");
    }
    if (seen != model.m) pbt::fail(std::string(when) + ": " + std::to_string(count) + " entries of " + std::to_string(seen.size()) + " keys, not " + std::to_string(n) + " of " + std::to_string(model.m.size()) + ", or others");
}

template <typename Map>
static void mapCase(Gen& g) {
    using K = typename Map::key_type;
    Region ra, rb;
    const auto& all = keys<Map>();
    std::vector<K> ks;
    size_t nk = 1 + g.size(12);
    size_t base = g.idx(all.size());
    for (size_t i = 0; i < nk; ++i) ks.push_back(g.chance(70) ? all[(base + i) % all.size()] : all[g.idx(all.size())]);
    struct M { std::string name; FamRegion r; std::unique_ptr<Map> f; MapModel<Map> m; };
    std::vector<M> ms;
    size_t maps = 1 + g.idx(3);
    for (size_t i = 0; i < maps; ++i) {
        M m{"m" + std::to_string(i), g.boolean() ? ra.r : rb.r, nullptr, {}};
        m.f.reset(new Map(m.name, m.r));
        ms.push_back(std::move(m));
    }
    long serial = 0, n = 0, removed = 0;
    size_t most = 0;
    while (g.more(96)) {
        M& m     = ms[g.idx(ms.size())];
        Map& f   = *m.f;
        const K k = ks[g.idx(ks.size())];
        auto had = m.m.m.find(k) != m.m.m.end();
        n++;
        switch (g.weighted({30, 20, 15, 15, 10, 3, 4, 5, 2})) {
            case 0: {
                std::string p = g.chance(10) ? "" : payload(g, serial);
                auto r = g.boolean() ? f.insert(k, p.data(), p.size()) : f.insert(k, std::string_view(p));
                CHECK(r.second == !had, "insert() says whether the key was new");
                if (!had) m.m.m[k] = {p};
                auto e = *r.first;
                CHECK(e.key == k, "insert() leads to the entry of the key");
                CHECK(str(e.value) == m.m.m[k].front(), "insert() leads to the value there");
                break;
            }
            case 1: {
                if (had && m.m.m[k].size() > 1) { g.excluded("insertOrAssign-of-several"); break; }
                std::string p = g.chance(10) ? "" : payload(g, serial);
                auto r = f.insertOrAssign(k, std::string_view(p));
                CHECK(r.second == !had, "insertOrAssign() says whether the key was new");
                m.m.m[k] = {p};
                auto e = *r.first;
                CHECK(e.key == k && str(e.value) == p, "insertOrAssign() leads to the new entry");
                break;
            }
            case 2: {
                std::string p = payload(g, serial);
                auto e = *f.forceInsert(k, std::string_view(p));
                m.m.m[k].push_front(p);
                CHECK(e.key == k && str(e.value) == p, "forceInsert() leads to the new entry");
                break;
            }
            case 3: {
                size_t there = had ? m.m.m[k].size() : 0;
                auto r = f.erase(k);
                CHECK_EQ(size_t(r), there, "erase() counts the entries of the key");
                m.m.m.erase(k);
                removed += long(there);
                break;
            }
            case 4: {
                size_t there = had ? m.m.m[k].size() : 0;
                CHECK_EQ(size_t(f.count(k)), there, "count()");
                CHECK_EQ(f.contains(k), there > 0, "contains()");
                auto i = f.find(k);
                if (!there) { CHECK(i == f.end(), "find() of a key that is not there"); break; }
                CHECK(i != f.end(), "find() of a key that is there");
                auto e = *i;
                CHECK(e.key == k && str(e.value) == m.m.m[k].front(), "find() leads to the latest entry");
                break;
            }
            case 5: f.clear(); removed += long(m.m.size()); m.m.m.clear(); break;
            case 6: {
                M& o = ms[g.idx(ms.size())];
                if (&o == &m) break;
                // the latest of several entries is the first that is met
                f.merge(*o.f);
                for (auto& e : o.m.m) if (!m.m.m.count(e.first)) m.m.m[e.first] = {e.second.front()};
                g.label("merged");
                break;
            }
            case 7: m.f.reset(new Map(m.name, m.r)); break;
            case 8: f.lock(); f.unlock(); break;
        }
        most = std::max(most, m.m.size());
        if (g.chance(30)) sameMap(*m.f, m.m, "after an operation");
    }
    for (auto& m : ms) {
        sameMap(*m.f, m.m, "in the end");
        for (auto& k : ks) {
            auto i = m.m.m.find(k);
            size_t there = i == m.m.m.end() ? 0 : i->second.size();
            CHECK_EQ(size_t(m.f->count(k)), there, "count() in the end");
        }
    }
    g.nontrivial(most > 3 && removed > 1);
    g.note([&](std::ostream& o) { o << n << " operations on " << ms.size() << " maps, " << ks.size() << " keys of " << Map::key_size << " bytes, at most " << most << " entries"; });
}

PBT(map, 5) {
    switch (g.idx(3)) {
        case 0: mapCase<FamMap32>(g); break;
        case 1: mapCase<FamMap64>(g); break;
        default: mapCase<FamMap128>(g); break;
    }
}

//----------------------------------------------------------------------------------------------------------------------
// the clock of the lock of a map: it advances with the schedule, by less than the lease of the lock
namespace det {
std::atomic<time_t> start{0};  // 0: the real clock
std::atomic<long> calls{0}, period{1};
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    static int (*real)(clockid_t, struct timespec*) = reinterpret_cast<int (*)(clockid_t, struct timespec*)>(::dlsym(RTLD_NEXT, "clock_gettime"));
    int r = real(id, ts);
    if (id == CLOCK_REALTIME && det::start && det::me >= 0) {
        ts->tv_sec  = det::start + std::min<long>(det::calls++ / det::period, 25);
        ts->tv_nsec = 0;
    }
    return r;
}

// several threads push, some read
static std::vector<uint8_t> schedule(Gen& g) {
    std::vector<uint8_t> c;
    if (g.boolean()) {  // few switches, anywhere: each thread otherwise runs on
        for (size_t i = 0, n = 1 + g.idx(6); i < n; ++i) {
            c.insert(c.end(), g.boolean() ? g.idx(12) : g.idx(45), 0);
            c.push_back(uint8_t(1 + g.idx(3)));
        }
        return c;
    }
    unsigned often = unsigned(g.pick<int>({3, 10, 30, 60}));
    while (c.size() < 400 && g.more(98)) {
        size_t stay = g.chance(often) ? 0 : g.idx(20);
        c.insert(c.end(), stay, 0);
        c.push_back(uint8_t(1 + g.idx(3)));
    }
    return c;
}

PBT(pushes, 4) {
    Region region;
    FamList list(region.r, "l");
    long serial = 0;
    Strings before;
    for (size_t i = g.chance(60) ? 0 : g.idx(3); i > 0; --i) { std::string p = "old" + std::to_string(serial++); list.pushBack(std::string_view(p)); before.push_back(p); }
    size_t n = 2 + g.idx(3);
    struct Op { bool front; std::string data; };
    std::vector<std::vector<Op>> ops(n);
    std::vector<std::vector<Strings>> reads(n);
    size_t total = before.size(), fronts = 0, backs = 0;
    std::vector<std::function<void()>> fs;
    bool reader = g.chance(40);
    for (size_t t = 0; t < n; ++t) {
        if (reader && t + 1 == n) {
            size_t times = 1 + g.idx(4);
            fs.push_back([&, t, times] {
                FamList own(region.r, list.descriptor());
                for (size_t i = 0; i < times; ++i) reads[t].push_back(forward(own, 1000));
            });
            continue;
        }
        size_t k = 1 + g.idx(4);
        for (size_t i = 0; i < k; ++i) {
            ops[t].push_back({g.boolean(), std::string(1, char('a' + t)) + std::to_string(i)});
            total++;
            (ops[t].back().front ? fronts : backs)++;
        }
        fs.push_back([&, t] {
            FamList own(region.r, list.descriptor());
            for (auto& o : ops[t]) o.front ? own.pushFront(std::string_view(o.data)) : own.pushBack(std::string_view(o.data));
        });
    }
    long steps = 0, switches = 0;
    det::threads(fs, schedule(g), steps, switches);

    Strings f = forward(list, total + 5);
    CHECK_EQ(size_t(list.size()), total, "size() after concurrent pushes");
    CHECK_EQ(f.size(), total, "the number of elements after concurrent pushes");
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < f.size(); ++i) { CHECK(at.insert({f[i], i}).second, "an element is there twice"); }
    for (auto& s : before) CHECK(at.count(s), "an element that was there before is lost");
    for (auto& t : ops)
        for (size_t i = 0; i < t.size(); ++i) {
            CHECK(at.count(t[i].data), "a pushed element is lost");
            for (auto& s : before) CHECK((at[t[i].data] < at[s]) == t[i].front, "pushed at the right end of what was there");
            for (size_t j = 0; j < i; ++j) {
                if (t[i].front && t[j].front) CHECK(at[t[i].data] < at[t[j].data], "the later pushFront() of a thread comes first");
                if (!t[i].front && !t[j].front) CHECK(at[t[i].data] > at[t[j].data], "the later pushBack() of a thread comes last");
            }
        }
    Strings b = backward(list, total + 5);
    if (b != f) pbt::fail("the list is " + show(f) + ", backwards " + show(b));
    // a reader met each element at most once, in the order of the end, and what was there before it began
    for (auto& t : reads)
        for (auto& r : t) {
            size_t last = 0;
            bool first = true;
            for (auto& s : r) {
                CHECK(at.count(s), "a reader met an element that nobody pushed");
                if (!first) CHECK(at[s] > last, "a reader met the elements in another order");
                last  = at[s];
                first = false;
            }
            for (auto& s : before) CHECK(std::find(r.begin(), r.end(), s) != r.end(), "a reader missed an element that was there before");
        }
    // and the list is as good as any
    Strings m = f;
    while (!m.empty()) {
        switch (g.idx(3)) {
            case 0: list.popFront(); m.pop_front(); break;
            case 1: list.popBack(); m.pop_back(); break;
            default: {
                size_t k = g.idx(m.size());
                auto it = list.begin();
                for (size_t j = 0; j < k; ++j) ++it;
                list.erase(std::move(it));
                m.erase(m.begin() + long(k));
            }
        }
        Strings now = forward(list, total + 5);
        if (now != m) pbt::fail("after concurrent pushes and a removal the list is " + show(now) + ", not " + show(m));
    }
    CHECK_EQ(size_t(list.size()), size_t(0), "size() in the end");
    g.nontrivial(switches > 3 && total > 2);
    g.note([&](std::ostream& o) { o << fs.size() << " threads, " << total << " elements (" << fronts << " at the front, " << backs << " at the back), " << steps << " steps, " << switches << " switches"; });
}

// one thread removes elements that have a successor, others push, some read
PBT(removals, 4) {
    Region region;
    FamList list(region.r, "l");
    Strings before;
    size_t n0 = 2 + g.idx(4);
    for (size_t i = 0; i < n0; ++i) {
        before.push_back("old" + std::to_string(i));
        list.pushBack(std::string_view(before.back()));
    }
    std::vector<bool> gone(n0, false);
    bool pops = g.chance(30);
    size_t erased = 0, total = n0;
    std::vector<size_t> which;
    if (pops) { for (size_t i = 0, k = 1 + g.idx(n0 - 1); i < k; ++i) { which.push_back(i); gone[i] = true; } }
    else {
        for (size_t i = 0; i + 1 < n0; ++i) if (g.boolean()) { which.push_back(i); gone[i] = true; }
        if (which.empty()) { which.push_back(0); gone[0] = true; }
        if (g.boolean()) std::reverse(which.begin(), which.end());
    }
    erased = which.size();
    size_t n = 2 + g.idx(2);
    bool reader = g.chance(40);
    bool poppers = pops && g.boolean();  // two threads share the pops
    struct Op { bool front; std::string data; };
    std::vector<std::vector<Op>> ops(n + 1);
    std::vector<Strings> reads;
    std::vector<std::function<void()>> fs;
    size_t half = poppers ? g.idx(erased + 1) : erased;
    auto popping = [&](size_t k) { FamList own(region.r, list.descriptor()); for (size_t i = 0; i < k; ++i) own.popFront(); };
    if (pops) {
        fs.push_back([&, half] { popping(half); });
        if (poppers) fs.push_back([&, half] { popping(erased - half); });
    }
    else fs.push_back([&] {
        FamList own(region.r, list.descriptor());
        for (auto w : which) {
            bool found = false;
            auto end = own.end();
            for (auto it = own.begin(); it != end; ++it)
                if (str(*it) == before[w]) { own.erase(std::move(it)); found = true; break; }
            if (!found) pbt::fail("an element that nobody else erases is not there");
        }
    });
    size_t pushers = pops ? g.idx(n) : n - 1;
    for (size_t t = 0; t < pushers; ++t) {
        size_t k = 1 + g.idx(3);
        for (size_t i = 0; i < k; ++i) { ops[t].push_back({g.boolean(), std::string(1, char('a' + t)) + std::to_string(i)}); total++; }
        fs.push_back([&, t] {
            FamList own(region.r, list.descriptor());
            for (auto& o : ops[t]) o.front ? own.pushFront(std::string_view(o.data)) : own.pushBack(std::string_view(o.data));
        });
    }
    if (reader) fs.push_back([&] {
        FamList own(region.r, list.descriptor());
        for (size_t i = 0; i < 2; ++i) reads.push_back(forward(own, 1000));
    });
    long steps = 0, switches = 0;
    det::threads(fs, schedule(g), steps, switches);

    total -= erased;
    Strings f = forward(list, total + 5);
    CHECK_EQ(size_t(list.size()), total, "size() after concurrent removals and pushes");
    if (f.size() != total) pbt::fail("after concurrent removals and pushes the list is " + show(f) + ": not " + std::to_string(total) + " elements");
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < f.size(); ++i) CHECK(at.insert({f[i], i}).second, "an element is there twice");
    bool known = true;  // which are removed
    for (auto& t : ops) for (auto& o : t) if (pops && o.front) known = false;
    for (size_t i = 0; i < n0; ++i) CHECK(bool(at.count(before[i])) == !gone[i] || !known, "an element is there unless it was removed");
    if (!known) {
        // what the pops took was ahead of what they left
        bool left = false;
        for (size_t i = 0; i < n0; ++i) {
            CHECK(at.count(before[i]) || !left, "a pop took an element that was not the first");
            left = left || at.count(before[i]);
            gone[i] = !at.count(before[i]);
        }
    }
    for (auto& t : ops)
        for (size_t i = 0; i < t.size(); ++i) {
            if (!known && t[i].front && !at.count(t[i].data)) continue;
            CHECK(at.count(t[i].data), "a pushed element is lost");
            for (size_t k = 0; k < n0; ++k) if (!gone[k]) CHECK((at[t[i].data] < at[before[k]]) == t[i].front, "pushed at the right end of what was there");
            for (size_t j = 0; j < i; ++j) {
                if (t[i].front && t[j].front && at.count(t[j].data)) CHECK(at[t[i].data] < at[t[j].data], "the later pushFront() of a thread comes first");
                if (!t[i].front && !t[j].front) CHECK(at[t[i].data] > at[t[j].data], "the later pushBack() of a thread comes last");
            }
        }
    for (auto& r : reads)
        for (size_t k = 0; k < n0; ++k) if (!gone[k]) CHECK(std::find(r.begin(), r.end(), before[k]) != r.end(), "a reader missed an element that was there all the time");
    g.nontrivial(switches > 3 && total > 2);
    g.note([&](std::ostream& o) { o << fs.size() << " threads, " << n0 << " elements of which " << erased << (pops ? " are popped, " : " are erased, ") << steps << " steps, " << switches << " switches"; });
    if (!known) { g.excluded("pop-among-pushes-backwards"); return; }
    Strings b = backward(list, total + 5);
    if (b != f) pbt::fail("after concurrent removals and pushes the list is " + show(f) + ", backwards " + show(b));
    // from then on it is a list like any other
    Strings m = f;
    while (!m.empty()) {
        size_t k = g.idx(m.size());
        auto it = list.begin();
        for (size_t j = 0; j < k; ++j) ++it;
        list.erase(std::move(it));
        m.erase(m.begin() + long(k));
        Strings now = forward(list, total + 5);
        if (now != m) pbt::fail("after concurrent removals, one more and the list is " + show(now) + ", not " + show(m));
    }
}

// several threads insert into one map; some read
PBT(inserts, 4) {
    using Map = FamMap32;
    using K   = Map::key_type;
    Region region;
    Map map("m", region.r);
    const auto& all = keys<Map>();
    size_t base = g.idx(all.size());
    size_t n = 2 + g.idx(3);
    struct Op { int kind; K key; std::string value; };
    std::vector<std::vector<Op>> ops(n);
    std::vector<std::vector<std::pair<K, std::string>>> reads(n);
    std::vector<std::function<void()>> fs;
    size_t total = 0, count = 0;
    // the reader's key changes under its eyes
    K hot = all[base];
    bool assign = g.chance(40);
    std::set<std::string> hotValues;
    if (assign) { map.insertOrAssign(hot, std::string_view("h")); hotValues.insert("h"); total++; }
    std::vector<int> missed(n, 0);
    std::map<K, std::multiset<std::string>> expect;
    for (size_t t = 0; t < n; ++t) {
        if (assign && t == 0) {  // the only one who assigns (and so erases); the others may insert into its bucket
            size_t k = 1 + g.idx(3);
            for (size_t i = 0; i < k; ++i) { ops[t].push_back({2, hot, "h" + std::to_string(i)}); hotValues.insert(ops[t].back().value); }
            fs.push_back([&, t] { Map own("m", region.r); for (auto& o : ops[t]) own.insertOrAssign(o.key, std::string_view(o.value)); });
            continue;
        }
        if (assign && t == 1) {
            size_t times = 1 + g.idx(4);
            fs.push_back([&, t, times] {
                Map own("m", region.r);
                for (size_t i = 0; i < times; ++i) {
                    auto it = own.find(hot);
                    if (it == own.end()) { missed[t]++; continue; }
                    auto e = *it;
                    reads[t].push_back({e.key, str(e.value)});
                }
            });
            continue;
        }
        size_t k = 1 + g.idx(3);
        for (size_t i = 0; i < k; ++i) {
            Op o{g.chance(30) ? 1 : 0, all[(base + 1 + g.idx(16)) % all.size()], std::string(1, char('a' + t)) + std::to_string(i)};
            // insert() of one key by two threads may insert it twice (documented): each inserts keys of its own
            if (o.kind == 0) o.key = K(o.key.asString().substr(0, 30) + char('a' + t));
            ops[t].push_back(o);
        }
        fs.push_back([&, t] {
            Map own("m", region.r);
            for (auto& o : ops[t]) o.kind ? (void)own.forceInsert(o.key, std::string_view(o.value)) : (void)own.insert(o.key, std::string_view(o.value));
        });
        for (auto& o : ops[t]) {
            auto& e = expect[o.key];
            if (o.kind == 0 && !e.empty()) continue;
            e.insert(o.value);
            count++;
        }
    }
    total += count;
    long steps = 0, switches = 0;
    det::threads(fs, schedule(g), steps, switches);
    CHECK_EQ(size_t(map.size()), total, "size() after concurrent inserts");
    if (assign) {
        std::string lastValue = ops[0].empty() ? "h" : ops[0].back().value;
        auto e = *map.find(hot);
        CHECK(str(e.value) == lastValue, "the last value assigned is the one found");
        CHECK_EQ(size_t(map.count(hot)), size_t(1), "one entry for the key that was assigned to");
        CHECK_EQ(missed[1], 0, "a reader finds the key at any time while it is assigned to");
        for (auto& r : reads[1]) { CHECK(r.first == hot, "the reader's key"); CHECK(hotValues.count(r.second), "a reader finds one of the values assigned"); }
        expect[hot].insert(lastValue);
    }
    std::map<K, std::multiset<std::string>> seen;
    size_t met = 0;
    for (auto i = map.begin(); i != map.end(); ++i) { auto e = *i; seen[e.key].insert(str(e.value)); if (++met > total + 5) pbt::fail("the map does not come to an end"); }
    CHECK(seen == expect, "what was inserted concurrently is there, once");
    for (auto& e : expect) {
        CHECK_EQ(size_t(map.count(e.first)), e.second.size(), "count() after concurrent inserts");
        CHECK_EQ(size_t(map.erase(e.first)), e.second.size(), "erase() after concurrent inserts");
    }
    CHECK(map.empty() && map.begin() == map.end(), "nothing is left");
    g.nontrivial(switches > 3 && total > 2);
    g.note([&](std::ostream& o) { o << n << " threads, " << total << " entries" << (assign ? ", one key assigned to and read" : "") << ", " << steps << " steps, " << switches << " switches"; });
}

// the lock of a map keeps others out; the counter of an object loses nothing
PBT(locked, 2) {
    Region region;
    FamMap32 map("m", region.r);
    auto counter = region.r.allocateObject(16, "counter");
    size_t n = 2 + g.idx(3);
    std::vector<size_t> times(n);
    std::vector<std::function<void()>> fs;
    uint64_t total = 0;
    int inside = 0, worst = 0;
    det::calls = 0;
    det::period = 1 + long(g.size(20));
    det::start  = 1000000;
    struct Reset { ~Reset() { det::start = 0; } } reset;
    for (size_t t = 0; t < n; ++t) {
        times[t] = 1 + g.idx(3);
        total += times[t];
        fs.push_back([&, t] {
            FamMap32 own("m", region.r);
            auto c = region.r.lookupObject("counter");
            for (size_t i = 0; i < times[t]; ++i) {
                c.add<uint64_t>(8, 3);
                own.lock();
                worst = std::max(worst, ++inside);
                auto v = c.get<uint64_t>(0);
                c.put<uint64_t>(v + 1, 0);
                --inside;
                own.unlock();
            }
        });
    }
    long steps = 0, switches = 0;
    det::threads(fs, schedule(g), steps, switches);
    CHECK_EQ(worst, 1, "one at a time within the lock");
    CHECK_EQ(counter.get<uint64_t>(0), total, "a counter read and written within the lock");
    CHECK_EQ(counter.get<uint64_t>(8), 3 * total, "a counter that is added to");
    g.nontrivial(switches > 3 && n > 2);
    g.note([&](std::ostream& o) { o << n << " threads, " << total << " times, " << switches << " switches"; });
}

//----------------------------------------------------------------------------------------------------------------------
template <typename T>
static void atomics(Gen& g, FamObject& o, std::string& m) {
    size_t off = 8 * g.idx((m.size() / 8) + 1);
    T v = T(g.integer(-1000, 1000)), w = T(g.integer(-3, 3));
    if (off + sizeof(T) > m.size()) { CHECK(pbt::throws([&] { o.set<T>(off, v); }), "set() beyond the end of the object"); return; }
    T cur;
    std::memcpy(&cur, m.data() + off, sizeof(T));
    if constexpr (std::is_floating_point_v<T>) {  // whatever bytes are there are not a number to compare
        cur = T(g.integer(-100, 100));
        o.set<T>(off, cur);
        std::memcpy(&m[off], &cur, sizeof(T));
    }
    switch (g.idx(6)) {
        case 0: CHECK(o.fetch<T>(off) == cur, "fetch()"); break;
        case 1: o.set<T>(off, v); cur = v; break;
        case 2: o.add<T>(off, v); if constexpr (std::is_integral_v<T>) cur = T(std::make_unsigned_t<T>(cur) + std::make_unsigned_t<T>(v)); else cur += v; break;
        case 3: o.subtract<T>(off, v); if constexpr (std::is_integral_v<T>) cur = T(std::make_unsigned_t<T>(cur) - std::make_unsigned_t<T>(v)); else cur -= v; break;
        case 4: { T was = o.swap<T>(off, v); CHECK(was == cur, "swap() gives the old value"); cur = v; break; }
        default:
            if constexpr (std::is_integral_v<T>) {
                T expected = g.boolean() ? cur : T(cur + w);
                T was = o.compareSwap<T>(off, expected, v);
                CHECK(was == cur, "compareSwap() gives the old value");
                if (expected == cur) cur = v;
            }
    }
    std::memcpy(&m[off], &cur, sizeof(T));
}

PBT(objects, 4) {
    Region region(1 + 64 * 64, 0640);
    FamRegion& r = region.r;
    struct O { std::string data; fam::perm_t perm; };
    std::map<std::string, O> model;
    std::map<std::string, std::unique_ptr<FamObject>> open;
    std::vector<std::string> names;
    for (size_t i = 0, k = 1 + g.idx(4); i < k; ++i) names.push_back("o" + std::to_string(i) + g.str(6, "abcXYZ.-_09"));
    auto what = [&](const std::string& n) -> FamObject& {
        if (!open[n] || g.chance(30)) open[n].reset(new FamObject(r.lookupObject(n)));
        return *open[n];
    };
    long n = 0, writes = 0;
    while (g.more(94)) {
        std::string name = names[g.idx(names.size())];
        auto it = model.find(name);
        bool there = it != model.end();
        n++;
        switch (g.weighted({20, 5, 8, 25, 25, 20, 5, 5})) {
            case 0: {
                size_t size = 1 + g.size(200);
                bool over = g.chance(30);
                fam::perm_t perm = g.boolean() ? 0640 : 0600;
                if (there && !over) { CHECK(pbt::throws([&] { r.allocateObject(size, perm, name); }), "an object of that name is already there"); break; }
                open[name].reset(new FamObject(r.allocateObject(size, perm, name, over)));
                model[name] = {std::string(size, '\0'), perm};
                break;
            }
            case 1:
                if (!there) { CHECK(pbt::throws([&] { r.deallocateObject(name); }), "no object of that name to deallocate"); break; }
                r.deallocateObject(name);
                model.erase(name);
                open[name].reset();
                CHECK(pbt::throws([&] { r.lookupObject(name); }), "an object that was deallocated is gone");
                break;
            case 2: {
                size_t size = there ? it->second.data.size() : 1 + g.size(100);
                if (there && g.chance(30)) { CHECK(pbt::throws([&] { r.ensureObject(size + 1, name); }), "ensureObject() of another size"); break; }
                auto o = r.ensureObject(size, name);
                if (!there) model[name] = {std::string(size, '\0'), r.permissions()};
                CHECK_EQ(size_t(o.size()), size, "ensureObject()");
                break;
            }
            case 3: {
                if (!there) { CHECK(pbt::throws([&] { r.lookupObject(name); }), "no object of that name"); break; }
                auto& d = it->second.data;
                std::string p = g.bytes(40) + "!";
                size_t off = g.idx(d.size() + 3);
                auto& o = what(name);
                if (off + p.size() > d.size()) {
                    CHECK(pbt::throws([&] { o.put(p.data(), off, p.size()); }), "put() beyond the end of the object");
                    g.label("put beyond the end");
                    break;
                }
                o.put(p.data(), off, p.size());
                d.replace(off, p.size(), p);
                writes++;
                break;
            }
            case 4: {
                if (!there) break;
                auto& d = it->second.data;
                size_t off = g.idx(d.size() + 3), len = 1 + g.size(60);
                auto& o = what(name);
                std::string out(len, '?');
                if (off + len > d.size()) { CHECK(pbt::throws([&] { o.get(&out[0], off, len); }), "get() beyond the end of the object"); break; }
                o.get(&out[0], off, len);
                CHECK(out == d.substr(off, len), "get() gives what was put");
                break;
            }
            case 5: {
                if (!there) break;
                auto& o = what(name);
                switch (g.idx(6)) {
                    case 0: atomics<int32_t>(g, o, it->second.data); break;
                    case 1: atomics<int64_t>(g, o, it->second.data); break;
                    case 2: atomics<uint32_t>(g, o, it->second.data); break;
                    case 3: atomics<uint64_t>(g, o, it->second.data); break;
                    case 4: atomics<float>(g, o, it->second.data); break;
                    default: atomics<double>(g, o, it->second.data); break;
                }
                writes++;
                break;
            }
            case 6: {
                if (!there) break;
                auto& o = what(name);
                CHECK_EQ(o.name(), name, "the name of an object");
                CHECK_EQ(size_t(o.size()), it->second.data.size(), "the size of an object");
                CHECK_EQ(int(o.permissions()), int(it->second.perm), "the permissions of an object");
                CHECK(o.exists(), "exists()");
                auto proxy = r.proxyObject(o.offset());
                CHECK(proxy == o && !(proxy != o), "an object and its proxy");
                break;
            }
            case 7: {
                FamObjectName on{net::Endpoint{endpoint()}, FamPath{region.name, name}};
                CHECK_EQ(on.exists(), there, "exists() of a name");
                break;
            }
        }
        for (auto& e : model) {
            std::string now = str(r.lookupObject(e.first).data());
            if (now != e.second.data) pbt::fail("object " + e.first + " holds " + pbt::hexs(now.data(), now.size()) + ", not " + pbt::hexs(e.second.data.data(), e.second.data.size()));
        }
    }
    g.nontrivial(model.size() > 1 && writes > 2);
    g.note([&](std::ostream& o) { o << n << " operations, " << writes << " writes, " << model.size() << " objects in the end"; });
}

PBT(handles, 3) {
    Region region(4096);
    std::string name = "h" + g.str(5, "abc-_.");
    FamObjectName on{net::Endpoint{endpoint()}, FamPath{region.name, name}};
    size_t size = 1 + g.size(300);
    std::string m(size, '\0');
    {
        std::unique_ptr<DataHandle> h(on.dataHandle(g.boolean()));
        h->openForWrite(Length(size));
        AutoClose c(*h);
        size_t pos = 0;
        while (g.more(85)) {
            if (g.chance(25)) {
                pos = g.idx(size + 1);
                CHECK_EQ((long long)h->seek(Offset(pos)), (long long)pos, "seek()");
            }
            std::string p = g.bytes(60) + "x";
            if (pos + p.size() > size) { CHECK(pbt::throws([&] { h->write(p.data(), long(p.size())); }), "write() beyond the end of the object"); continue; }
            CHECK_EQ(h->write(p.data(), long(p.size())), long(p.size()), "write()");
            m.replace(pos, p.size(), p);
            pos += p.size();
        }
    }
    long n = 0;
    {
        std::unique_ptr<DataHandle> h;
        if (g.boolean()) h.reset(on.dataHandle());
        else h.reset(on.uri().newReadHandle());
        CHECK_EQ((long long)h->openForRead(), (long long)size, "openForRead() gives the length");
        AutoClose c(*h);
        size_t pos = 0;
        while (g.more(88)) {
            n++;
            if (g.chance(30)) {
                pos = g.idx(size + 1);
                CHECK_EQ((long long)h->seek(Offset(pos)), (long long)pos, "seek()");
            }
            if (g.chance(10)) CHECK(pbt::throws([&] { h->seek(Offset(size + 1 + g.idx(5))); h->seek(Offset(pos)); }) || true, "");
            h->seek(Offset(pos));
            std::string out(1 + g.size(100), '?');
            long got = h->read(&out[0], long(out.size()));
            size_t want = std::min(out.size(), size - pos);
            CHECK_EQ(got, long(want), "read() gives as much as there is");
            CHECK(out.substr(0, want) == m.substr(pos, want), "read() gives what was written");
            CHECK(out.substr(want) == std::string(out.size() - want, '?'), "read() writes no more than it says");
            pos += want;
        }
    }
    {
        std::unique_ptr<DataHandle> h(on.dataHandle());
        MemoryHandle out(size, true);
        CHECK_EQ((long long)h->saveInto(out), (long long)size, "saveInto() copies all");
        CHECK(std::string(static_cast<const char*>(out.data()), size) == m, "saveInto() copies what is there");
    }
    g.nontrivial(n > 2 && size > 10);
    g.note([&](std::ostream& o) { o << size << " bytes, " << n << " reads"; });
}

static const FamPath& pathOf(const FamName& n) { return n.path(); }

PBT(names, 2) {
    const char* alphabet = "abcXYZ0129_-.";
    std::string rn = "r" + g.str(8, alphabet), obj = g.chance(25) ? "" : "o" + g.str(8, alphabet);
    FamPath p(rn, obj);
    CHECK_EQ(p.regionName(), rn, "region");
    CHECK_EQ(p.objectName(), obj, "object");
    CHECK_EQ(p.asString(), obj.empty() ? "/" + rn : "/" + rn + "/" + obj, "asString()");
    FamPath q(p.asString());
    CHECK(q == p, "a path is read back from what it prints");
    std::string loose = (g.boolean() ? "//" : "") + rn + (obj.empty() ? "" : "/" + obj) + (g.boolean() ? "/" : "");
    CHECK(FamPath(loose) == p, "a path is read whatever slashes surround the names");
    CHECK(pbt::throws([&] { FamPath x(rn + "/a/b"); }), "a path of three names");
    CHECK(!(FamPath(rn + "x", obj) == p) && !(FamPath(rn, obj + "x") == p), "other paths");
    CHECK_EQ(p.generateUUID(), q.generateUUID(), "equal paths have equal identifiers");
    CHECK_EQ(p.generateUUID().size(), size_t(36), "an identifier has 36 characters");
    CHECK(FamPath(rn, obj + "x").generateUUID() != p.generateUUID(), "other paths have other identifiers");
    Buffer b(1000);
    {
        MemoryStream s(b);
        s << p;
        FamObjectName on{net::Endpoint{"host" + g.str(4, "abc"), int(g.range(1, 65535))}, p};
        s << on;
        MemoryStream in(b);
        CHECK(FamPath(in) == p, "a path through a stream");
        FamObjectName back(in);
        CHECK(back.endpoint() == on.endpoint() && pathOf(back) == pathOf(on), "a name through a stream");
        CHECK_EQ(back.asString(), on.asString(), "a name through a stream");
        FamObjectName again(on.uri());
        CHECK(again.endpoint() == on.endpoint() && pathOf(again) == pathOf(on), "a name through its URI");
        FamObjectName third(URI(on.asString()));
        CHECK(third.endpoint() == on.endpoint() && pathOf(third) == pathOf(on), "a name through what it prints");
        FamRegionName reg{on.endpoint(), FamPath(rn)}, other{on.endpoint(), FamPath(rn + "x")};
        CHECK(reg.uriBelongs(on.uri()), "the URI of an object belongs to its region");
        CHECK(!other.uriBelongs(on.uri()), "and to no other");
        CHECK(pathOf(reg.object(obj)) == p, "object()");
    }
    // permissions
    unsigned perm = unsigned(g.idx(010000));
    char text[20];
    std::snprintf(text, sizeof(text), "%s%o", g.boolean() ? "0" : "", perm);
    CHECK_EQ(unsigned(FamProperty(10, std::string(text)).perm), perm, "permissions in octal");
    CHECK(pbt::throws([&] { FamProperty(10, std::string(text) + g.pick<std::string>({"8", "x", " "})); }), "what are no permissions");
    g.nontrivial(!obj.empty() && rn.size() > 2);
    g.note([&](std::ostream& o) { o << p.asString() << " " << text; });
}

// known finding fam-pop-among-pushes: all the interleavings of one switch there and back
PBT(known_pop_among_pushes, 0) {
    for (size_t a = 0; a < 12; ++a)
        for (size_t b = 0; b < 16; ++b) {
            Region region;
            FamList list(region.r, "l");
            list.pushBack(std::string_view("o"));
            std::vector<uint8_t> c(a, 0);
            c.push_back(1);
            c.insert(c.end(), b, 0);
            c.push_back(1);
            c.insert(c.end(), 30, 0);
            long steps = 0, switches = 0;
            det::threads({[&] { list.popFront(); }, [&] { list.pushBack(std::string_view("n")); }}, c, steps, switches);
            CHECK_EQ(show(forward(list, 5)), show({"n"}), "popFront() of the only element during a pushBack()");
        }
}
