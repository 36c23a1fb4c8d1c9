// C16: queues, pools and pairs of threads
#include <atomic>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include "eckit/container/Queue.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FilePool.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Dispatcher.h"
#include "eckit/runtime/Main.h"
#include "eckit/runtime/ProducerConsumer.h"
#include "eckit/thread/AutoLock.h"
#include "eckit/thread/Mutex.h"
#include "eckit/thread/MutexCond.h"
#include "eckit/thread/Once.h"
#include "eckit/thread/ThreadPool.h"
#include "eckit/thread/ThreadSingleton.h"
#include "sched.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT {
    ::setenv("DEBUG", "0", 1);
    eckit::Main::initialise(argc, argv);
}

static void sched(pbt::Gen& g) {
    unsigned p = unsigned(g.weighted({2, 3, 3})) ;
    p = p == 0 ? 0 : p == 1 ? 10 : 50;
    uint64_t s = uint64_t(g.range(1, 1000000000));
    if (p) schedule::on(s, p); else schedule::off();
}
struct Off { ~Off() { schedule::off(); } };

//---------------------------------------------------------------------------------------------------------------------

PBT(queue, 3) {
    Off off;
    size_t cap = 1 + g.size(6), P = 1 + g.size(3), C = 1 + g.size(3), per = g.size(30);
    int ending = int(g.weighted({8, 3}));      // close when all is pushed; interrupted on the way
    bool block = g.chance(30), emplace = g.boolean(), resizes = g.chance(25);
    size_t stopAfter = 1 + g.size(P * per + 1);
    size_t blk = 1 + g.size(5);
    std::vector<size_t> sizes;
    for (int i = 0; i < 4; i++) sizes.push_back(1 + g.size(6));
    g.note([&](std::ostream& o) { o << "capacity " << cap << ", " << P << " producers of " << per << ", " << C << " consumers, " << (block ? "blocks " : "") << (resizes ? "resized " : "") << (ending ? "interrupted after " + std::to_string(stopAfter) : "closed"); });
    g.nontrivial(P * per > cap && per > 1);
    size_t maxcap = cap;
    for (auto s : sizes) if (resizes) maxcap = std::max(maxcap, s);
    Queue<std::pair<int, int>> q(cap);
    std::atomic<size_t> pushed{0}, popped{0};
    std::vector<std::vector<std::pair<int, int>>> got(C);
    std::atomic<int> interruptedP{0}, interruptedC{0}, closedC{0}, wrong{0};
    std::vector<size_t> done(P, 0);
    sched(g);
    std::vector<std::thread> ts;
    for (size_t p = 0; p < P; p++) ts.emplace_back([&, p] {
        try {
            for (size_t i = 0; i < per; i++) {
                size_t n = emplace ? q.emplace(int(p), int(i)) : q.push({int(p), int(i)});
                done[p]++;
                pushed++;
                if (n == 0 || n > maxcap) wrong++;
            }
        }
        catch (QueueInterruptedError&) { interruptedP++; }
        catch (...) { wrong++; }
    });
    std::vector<std::thread> cs;
    for (size_t c = 0; c < C; c++) cs.emplace_back([&, c] {
        try {
            for (;;) {
                if (block) {
                    std::vector<std::pair<int, int>> v(blk, {-1, -1});
                    long n = q.pop(v);
                    if (n == -1) { closedC++; return; }
                    if (n < 1 || n > long(blk)) { wrong++; return; }
                    for (long i = 0; i < n; i++) got[c].push_back(v[i]);
                    popped += n;
                }
                else {
                    std::pair<int, int> e{-1, -1};
                    long n = q.pop(e);
                    if (n == -1) { closedC++; return; }
                    if (n < 0 || n >= long(maxcap)) wrong++;
                    got[c].push_back(e);
                    popped++;
                }
            }
        }
        catch (QueueInterruptedError&) { interruptedC++; }
        catch (...) { wrong++; }
    });
    if (resizes) for (auto s : sizes) { try { q.resize(s); if (q.maxSize() != s) wrong++; } catch (QueueInterruptedError&) { wrong++; } }
    if (ending == 0) {
        for (auto& t : ts) t.join();
        CHECK(!q.closed(), "closed before");
        q.close();
        for (auto& t : cs) t.join();
        CHECK(q.closed(), "not closed");
        CHECK(q.empty(), "not empty after all was read");
        CHECK_EQ(closedC.load(), int(C), "consumers told of the end");
        CHECK_EQ(interruptedP + interruptedC, 0, "interrupted");
    }
    else {
        while (popped < stopAfter && popped < P * per) std::this_thread::yield();
        q.interrupt(std::make_exception_ptr(QueueInterruptedError("enough", Here())));
        for (auto& t : ts) t.join();
        for (auto& t : cs) t.join();
        CHECK_EQ(interruptedC.load(), int(C), "consumers interrupted");
        CHECK(q.closed(), "closed after an interruption");
        std::pair<int, int> e;
        CHECK(pbt::throws([&] { q.pop(e); }), "pop after an interruption");
        CHECK(pbt::throws([&] { q.push(e); }), "push after an interruption");
    }
    CHECK_EQ(wrong.load(), 0, "wrong counts or exceptions");
    // every element once, those of one producer in order for each consumer
    std::vector<std::vector<int>> seen(P, std::vector<int>(per, 0));
    size_t total = 0;
    for (auto& v : got) {
        std::vector<int> last(P, -1);
        for (auto& e : v) {
            CHECK(e.first >= 0 && size_t(e.first) < P && e.second >= 0 && size_t(e.second) < per, "element that was never pushed");
            CHECK(e.second > last[e.first], "order of producer " << e.first << ": " << e.second << " after " << last[e.first]);
            last[e.first] = e.second;
            CHECK_EQ(++seen[e.first][e.second], 1, "element " << e.first << "/" << e.second << " delivered");
            total++;
        }
    }
    if (ending == 0) CHECK_EQ(total, P * per, "elements delivered");
    else for (size_t p = 0; p < P; p++) for (size_t i = 1; i < per; i++) CHECK(!seen[p][i] || i < done[p] + 1, "delivered before it was pushed");
}

// one thread alone: a bounded queue is a deque
PBT(queue1, 1) {
    size_t cap = 1 + g.size(8);
    Queue<std::string> q(cap);
    std::deque<std::string> m;
    size_t n = g.size(40);
    g.nontrivial(n > 5);
    bool closed = false;
    for (size_t i = 0; i < n; i++) {
        switch (g.weighted({5, 4, 2, 1, 1})) {
            case 0:
                if (closed) { if (m.size() < cap) CHECK(pbt::throws([&] { q.push("x"); }), "push to a closed queue"); }
                else if (m.size() < cap) { std::string s = std::to_string(i); m.push_back(s); CHECK_EQ(q.push(s), m.size(), "push"); }
                break;
            case 1:
                if (!m.empty()) { std::string s; CHECK_EQ(q.pop(s), long(m.size()) - 1, "pop"); CHECK_EQ(s, m.front(), "popped"); m.pop_front(); }
                else if (closed) { std::string s = "keep"; CHECK_EQ(q.pop(s), -1, "pop of a closed queue"); CHECK_EQ(s, "keep", "untouched"); }
                break;
            case 2:
                if (!m.empty()) {
                    std::vector<std::string> v(1 + g.size(6));
                    long k = std::min(v.size(), m.size());
                    CHECK_EQ(q.pop(v), k, "pop of several");
                    for (long j = 0; j < k; j++) { CHECK_EQ(v[j], m.front(), "popped"); m.pop_front(); }
                }
                break;
            case 3: if (!closed) { size_t s = 1 + g.size(8); if (s >= m.size()) { q.resize(s); cap = s; } } break;
            default: if (g.chance(20)) { q.close(); closed = true; }
        }
        CHECK_EQ(q.empty(), m.empty(), "empty");
        CHECK_EQ(q.closed(), closed, "closed");
        CHECK_EQ(q.maxSize(), cap, "capacity");
    }
}

//---------------------------------------------------------------------------------------------------------------------

struct Ledger {
    std::mutex m;
    std::vector<int> run, gone;
    std::vector<std::vector<int>> kids;
    std::vector<bool> bad;
    std::atomic<int> running{0}, most{0}, doubled{0};
    std::atomic<size_t> alive{0};
};
struct Job : ThreadPoolTask {
    Ledger& l; int id; bool fail; int spin;
    std::vector<Job*> next;
    Job(Ledger& ll, int i, bool f, int s) : l(ll), id(i), fail(f), spin(s) { l.alive++; }
    void execute() override {
        int r = ++l.running;
        for (int m = l.most; m < r && !l.most.compare_exchange_weak(m, r);) {}
        for (int i = 0; i < spin; i++) std::this_thread::yield();
        { std::lock_guard<std::mutex> k(l.m); l.run[id]++; }
        auto todo = next;
        next.clear();
        for (auto* j : todo) pool().push(j);
        --l.running;
        if (fail) throw UserError("job failed");
    }
    ~Job() override { for (auto* j : next) delete j; { std::lock_guard<std::mutex> k(l.m); l.gone[id]++; } l.alive--; }
};

PBT(pool, 3) {
    Off off;
    Ledger l;
    size_t threads = 1 + g.size(5), steps = 1 + g.size(8);
    std::ostringstream log;
    log << threads << " threads";
    int ids = 0;
    size_t maxThreads = threads;
    std::vector<std::function<void(ThreadPool&)>> plan;
    std::vector<Job*> jobs;
    bool anyFail = false;
    std::function<Job*(int)> job = [&](int depth) {
        bool f = g.chance(8);
        anyFail = anyFail || f;
        Job* j = new Job(l, ids++, f, int(g.size(20)));
        if (depth < 3 && g.chance(20)) { size_t n = 1 + g.size(3); for (size_t i = 0; i < n; i++) j->next.push_back(job(depth + 1)); }
        return j;
    };
    bool shrunk = false;  // then the marks that end the threads may still be queued
    size_t now = maxThreads;
    for (size_t i = 0; i < steps; i++) {
        switch (g.weighted({6, 3, 3, 2, 1})) {
            case 0: { size_t n = 1 + g.size(10); std::vector<Job*> v; for (size_t k = 0; k < n; k++) v.push_back(job(0)); log << " push*" << n; plan.push_back([v](ThreadPool& p) { for (auto* j : v) p.push(j); }); break; }
            case 1: { size_t n = g.size(10); std::list<ThreadPoolTask*> v; for (size_t k = 0; k < n; k++) v.push_back(job(0)); log << " list*" << n; plan.push_back([v](ThreadPool& p) { auto w = v; p.push(w); CHECK(w.empty(), "the list was not taken"); }); break; }
            case 2: { log << " wait"; int upto = ids; size_t waiters = g.chance(15) ? 2 : 1;
                plan.push_back([upto, waiters, shrunk, &l](ThreadPool& p) {
                    std::vector<std::thread> w;
                    for (size_t k = 1; k < waiters; k++) w.emplace_back([&p] { p.wait(); });
                    p.wait();
                    for (auto& t : w) t.join();
                    std::lock_guard<std::mutex> k(l.m);
                    for (int i = 0; i < upto; i++) CHECK(l.run[i] == 1 && l.gone[i] == 1, "job " << i << " not done after wait()");
                    CHECK(shrunk || p.done(), "done() after wait()");
                }); break; }
            case 3: { size_t n = 1 + g.size(6); maxThreads = std::max(maxThreads, n); shrunk |= n < now; now = n; log << " resize " << n; plan.push_back([n](ThreadPool& p) { p.resize(n); }); break; }
            default: { int n = int(g.size(50)); plan.push_back([n](ThreadPool&) { for (int i = 0; i < n; i++) std::this_thread::yield(); }); }
        }
    }
    bool explicitEnd = g.chance(50);
    log << (explicitEnd ? " waitForThreads" : "");
    g.note([&](std::ostream& o) { o << log.str() << ", " << ids << " jobs" << (anyFail ? " with failures" : ""); });
    g.nontrivial(ids > 3);
    l.run.assign(ids, 0);
    l.gone.assign(ids, 0);
    sched(g);
    {
        ThreadPool p("pool", threads);
        CHECK_EQ(p.name(), "pool", "name");
        for (auto& f : plan) f(p);
        if (explicitEnd) {
            bool nested = false;
            for (auto v : l.run) nested = nested || v == 0;
            // jobs pushed by jobs may come after the request to end
            if (g.boolean()) p.wait();
            std::string what;
            bool t = pbt::throws([&] { p.waitForThreads(); }, &what);
            CHECK(!t || what.find("job failed") != std::string::npos, "unexpected failure " << what);
            if (l.alive == 0) CHECK_EQ(t, anyFail, "failed jobs reported by waitForThreads");
        }
        else p.wait();
    }
    schedule::off();
    for (int i = 0; i < ids; i++) {
        if (!explicitEnd) CHECK(l.run[i] == 1, "job " << i << " was run " << l.run[i] << " times");
        CHECK(l.run[i] <= 1 && l.gone[i] <= 1, "job " << i << " was run " << l.run[i] << " times, deleted " << l.gone[i]);
    }
    CHECK_EQ(l.running.load(), 0, "still running");
}

// the pool goes straight after work was given to it: everything is still done
PBT(poolend, 1) {
    Off off;
    Ledger l;
    size_t threads = 1 + g.size(6), n = g.size(12);
    g.note([&](std::ostream& o) { o << threads << " threads, " << n << " jobs"; });
    g.nontrivial(n > 1);
    l.run.assign(n, 0);
    l.gone.assign(n, 0);
    int spin = int(g.size(10));
    sched(g);
    {
        ThreadPool p("pool", threads);
        for (size_t i = 0; i < n; i++) p.push(new Job(l, int(i), false, spin));
    }
    schedule::off();
    for (size_t i = 0; i < n; i++) CHECK(l.run[i] == 1 && l.gone[i] == 1, "job " << i << " was run " << l.run[i] << " times, deleted " << l.gone[i]);
}

//---------------------------------------------------------------------------------------------------------------------

struct Make : Producer<int> {
    int n, failAt, at = 0;
    bool done() override { return at >= n; }
    void produce(int& x) override { if (at == failAt) throw UserError("no more to make"); x = at++; }
};
struct Use : Consumer<int> {
    std::vector<int> got; int failAt;
    void consume(int& x) override { if (int(got.size()) == failAt) throw UserError("cannot use it"); got.push_back(x); }
};

PBT(prodcons, 2) {
    Off off;
    long slots = 1 + long(g.size(4));
    ProducerConsumer<int> pc(slots);
    size_t rounds = 1 + g.size(3);
    g.note([&](std::ostream& o) { o << slots << " slots, " << rounds << " rounds"; });
    for (size_t r = 0; r < rounds; r++) {
        Make m; Use u;
        m.n = int(g.size(40));
        m.failAt = g.chance(25) ? int(g.size(40)) : -1;
        u.failAt = g.chance(25) ? int(g.size(40)) : -1;
        g.nontrivial(m.n > 2);
        sched(g);
        std::string what;
        bool t = pbt::throws([&] { pc.execute(m, u); }, &what);
        schedule::off();
        bool mf = m.failAt >= 0 && m.failAt < m.n, uf = u.failAt >= 0 && u.failAt < m.n;
        for (size_t i = 0; i < u.got.size(); i++) CHECK_EQ(u.got[i], int(i), "order");
        CHECK(int(u.got.size()) <= m.at, "more used than made");
        if (!mf && !uf) { CHECK(!t, "failed: " << what); CHECK_EQ(int(u.got.size()), m.n, "items used"); }
        else {
            // a failing producer is always reached unless the consumer fails first, and the other way round
            if (mf && !uf) CHECK(t && what.find("no more to make") != std::string::npos, "the failure of the producer was not reported: " << what);
            if (uf && !mf) CHECK(t && what.find("cannot use it") != std::string::npos, "the failure of the consumer was not reported: " << what);
            CHECK(t, "a failure was not reported");
        }
    }
}

//---------------------------------------------------------------------------------------------------------------------
// one instance per thread, one for all

struct Per { int n = 0; static std::atomic<int> alive; Per() { alive++; } ~Per() { alive--; } };
std::atomic<int> Per::alive{0};
struct Single { static std::atomic<int> made; Single() { made++; std::this_thread::yield(); } };
std::atomic<int> Single::made{0};

PBT(singles, 1) {
    Off off;
    size_t T = 1 + g.size(6);
    int calls = 1 + int(g.size(20));
    g.nontrivial(T > 1);
    static ThreadSingleton<Per> per;
    Once<Single> once;
    Single::made = 0;
    std::atomic<int> wrong{0};
    std::mutex m;
    std::set<Per*> addresses;
    std::set<Single*> singles;
    std::atomic<size_t> ready{0};
    sched(g);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T; t++) ts.emplace_back([&] {
        Single* s = &static_cast<Single&>(once);
        Per* p = &per.instance();
        for (int i = 0; i < calls; i++) { Per* q = &per.instance(); if (q != p || q->n != i) wrong++; q->n++; if (&static_cast<Single&>(once) != s) wrong++; }
        { std::lock_guard<std::mutex> k(m); addresses.insert(p); singles.insert(s); }
        ready++;
        while (ready < T) std::this_thread::yield();
    });
    for (auto& t : ts) t.join();
    CHECK_EQ(wrong.load(), 0, "wrong instances");
    CHECK_EQ(addresses.size(), T, "instances per thread");
    CHECK_EQ(singles.size(), size_t(1), "single instances");
    CHECK_EQ(Single::made.load(), 1, "single instances made");
    CHECK_EQ(Per::alive.load(), 0, "instances left by ended threads");
}

// mutual exclusion; signalling
PBT(locks, 1) {
    Off off;
    size_t T = 1 + g.size(5);
    int loops = int(g.size(30));
    g.nontrivial(T > 1 && loops > 1);
    Mutex mx;
    MutexCond mc;
    long a = 0, b = 0;      // plain: protected by the locks only
    size_t turn = 0;
    std::atomic<int> inside{0}, wrong{0};
    bool recursive = g.boolean();
    sched(g);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < loops; i++) {
            {
                AutoLock<Mutex> k(mx);
                if (recursive) { AutoLock<Mutex> k2(mx); }
                if (++inside != 1) wrong++;
                a++;
                inside--;
            }
            {
                AutoLock<MutexCond> k(mc);
                while (turn % T != t) mc.wait();
                b++;
                turn++;
                mc.broadcast();
            }
        }
    });
    for (auto& t : ts) t.join();
    CHECK_EQ(wrong.load(), 0, "two threads held the mutex");
    CHECK_EQ(a, long(T) * loops, "increments");
    CHECK_EQ(b, long(T) * loops, "turns");
}

//---------------------------------------------------------------------------------------------------------------------
// a pool of open files: each to one at a time, everybody gets it in the end, and what is written stays

PBT(files, 2) {
    Off off;
    size_t T = 1 + g.size(5), P = 1 + g.size(4), cap = 1 + g.size(3);
    struct Step { int op; size_t path, len, pause; };
    std::vector<std::vector<Step>> prog(T);
    size_t writes = 0;
    std::string dir = g.freshDir();
    for (auto& t : prog) {
        size_t n = g.size(12);
        for (size_t i = 0; i < n; i++) {
            Step s{int(g.weighted({12, 2, 1, 1})), g.idx(P), 1 + (g.chance(5) ? g.idx(20000) : g.idx(40)), g.chance(20) ? g.idx(400) : 0};
            writes += s.op == 0;
            t.push_back(s);
        }
    }
    g.note([&](std::ostream& o) {
        o << P << " files, capacity " << cap << "\n";
        for (auto& t : prog) {
            for (auto& s : t) o << " " << "wrcs"[s.op] << s.path << "/" << s.len;
            o << "\n";
        }
    });
    g.nontrivial(T > 1 && writes > 4);
    std::vector<PathName> paths;
    for (size_t p = 0; p < P; p++) paths.push_back(PathName(dir + "/f" + std::to_string(p)));
    std::vector<std::atomic<int>> holders(P);
    for (auto& h : holders) h = 0;
    std::mutex m;
    std::vector<std::string> wrong;
    std::vector<std::multiset<std::string>> want(P);
    sched(g);
    {
        FilePool pool(cap);
        std::vector<std::thread> ts;
        for (size_t t = 0; t < T; t++) ts.emplace_back([&, t] {
            size_t k = 0;
            try {
                for (auto& s : prog[t]) {
                    switch (s.op) {
                        case 0: {
                            DataHandle* h = pool.checkout(paths[s.path]);
                            if (holders[s.path]++) { std::lock_guard<std::mutex> l(m); wrong.push_back("two hold a file"); }
                            std::string line = std::to_string(t) + ":" + std::to_string(k++) + ":" + std::string(s.len, char('a' + t)) + "\n";
                            size_t half = line.size() / 2;
                            h->write(line.data(), long(half));
                            if (s.pause) ::usleep(useconds_t(s.pause));
                            h->write(line.data() + half, long(line.size() - half));
                            { std::lock_guard<std::mutex> l(m); want[s.path].insert(line); }
                            holders[s.path]--;
                            pool.checkin(h);
                            break;
                        }
                        case 1: pool.remove(paths[s.path]); break;
                        case 2: pool.capacity(1 + s.len % 4); break;
                        default: {
                            size_t n = pool.size();
                            if (n > std::max<size_t>(P, 4)) { std::lock_guard<std::mutex> l(m); wrong.push_back("too many files"); }
                        }
                    }
                }
            }
            catch (std::exception& e) { std::lock_guard<std::mutex> l(m); wrong.push_back(e.what()); }
        });
        for (auto& t : ts) t.join();
        schedule::off();
        CHECK_EQ(pool.usage(), 0u, "files in use at the end");
        CHECK(pool.size() <= pool.capacity(), "more files than the capacity");
        CHECK(pool.size() <= P, "more files than there are");
    }
    CHECK(wrong.empty(), wrong[0]);
    for (size_t p = 0; p < P; p++) {
        std::multiset<std::string> got;
        std::ifstream in(paths[p].localPath());
        std::string l;
        while (std::getline(in, l)) got.insert(l + "\n");
        CHECK_EQ(got.size(), want[p].size(), "lines of a file");
        CHECK(got == want[p], "lines of a file are lost or torn");
    }
}

//---------------------------------------------------------------------------------------------------------------------
// requests given to a dispatcher: each is handled once and freed once

namespace {

struct Ledger {
    std::mutex m;
    std::vector<int> handled, freed;
    std::vector<int> order;
    size_t dequeued = 0;
    std::atomic<size_t> left{0};
};

struct Errand {
    std::shared_ptr<Ledger> book;
    int id, kind;
    unsigned pause;
    ~Errand() {
        std::lock_guard<std::mutex> l(book->m);
        book->freed[size_t(id)]++;
        book->left--;
    }
    friend std::ostream& operator<<(std::ostream& s, const Errand& e) { return s << "errand " << e.id; }
    void json(JSON&) const {}
};

template <size_t BATCH>
struct ErrandHandler : DefaultHandler<Errand> {
    void pick(std::list<Errand*>& q, std::vector<Errand*>& r) {
        while (!q.empty() && r.size() < BATCH) DefaultHandler<Errand>::pick(q, r);
    }
    void handle(std::vector<Errand*>& v) {
        bool fails = false;
        for (auto* e : v) {
            {
                std::lock_guard<std::mutex> l(e->book->m);
                e->book->handled[size_t(e->id)]++;
                e->book->order.push_back(e->id);
            }
            if (e->pause) ::usleep(e->pause);
            fails = fails || e->kind == 1;
        }
        if (fails) throw UserError("an errand that fails");
    }
};

template <size_t BATCH>
struct ErrandTraits {
    using Request = Errand;
    using Handler = ErrandHandler<BATCH>;
    static const char* name() { return "errands"; }
};

struct Some : DequeuePicker<Errand> {
    size_t at, step;
    Some(size_t a, size_t s) : at(a), step(s) {}
    void pick(std::list<Errand*>& q) override {
        size_t i = 0;
        for (auto j = q.begin(); j != q.end();) {
            if (i++ % step == at % step) {
                { std::lock_guard<std::mutex> l((*j)->book->m); (*j)->book->dequeued++; (*j)->book->handled[size_t((*j)->id)] += 100; }
                delete *j;
                j = q.erase(j);
            }
            else ++j;
        }
    }
};

template <size_t BATCH>
Dispatcher<ErrandTraits<BATCH>>& dispatcher(int threads) {
    static std::map<int, Dispatcher<ErrandTraits<BATCH>>*> all;
    auto& d = all[threads];
    if (!d) d = new Dispatcher<ErrandTraits<BATCH>>("errands", threads);
    return *d;
}

template <size_t BATCH>
void errands(pbt::Gen& g, int threads) {
    Off off;
    auto& d   = dispatcher<BATCH>(threads);
    size_t P  = 1 + g.size(3), per = g.size(20);
    bool dequeues = g.chance(25);
    auto book = std::make_shared<Ledger>();
    struct Plan { int kind; unsigned pause; };
    std::vector<Plan> plan;
    for (size_t i = 0; i < P * per; i++) plan.push_back({g.chance(10) ? 1 : 0, g.chance(15) ? unsigned(g.idx(500)) : 0});
    size_t at = g.idx(5), step = 1 + g.idx(4);
    g.note([&](std::ostream& o) { o << P << " threads with " << per << " errands each for " << threads << " threads, " << BATCH << " at a time" << (dequeues ? ", some taken back" : ""); });
    g.nontrivial(P * per > 4);
    book->handled.resize(P * per);
    book->freed.resize(P * per);
    book->left = P * per;
    sched(g);
    std::vector<std::thread> ts;
    for (size_t p = 0; p < P; p++) ts.emplace_back([&, p] {
        for (size_t i = 0; i < per; i++) {
            size_t id = p * per + i;
            d.push(new Errand{book, int(id), plan[id].kind, plan[id].pause});
            if (i % 3 == 1) d.push(nullptr);
            if (dequeues && i % 7 == at) { Some s(at, step); d.dequeue(s); }
        }
    });
    for (auto& t : ts) t.join();
    for (int i = 0; i < 20000 && book->left; i++) ::usleep(i < 100 ? 20 : 1000);
    schedule::off();
    CHECK_EQ(size_t(book->left), 0u, "errands that are never done");
    CHECK_EQ(d.size(), 0, "errands in the queue");
    for (size_t i = 0; i < P * per; i++) {
        CHECK(book->handled[i] == 1 || book->handled[i] == 100, "errand " << i << " was done " << book->handled[i] << " times");
        CHECK_EQ(book->freed[i], 1, "times an errand was freed");
    }
    if (threads == 1) {
        std::vector<int> last(P, -1);
        for (int id : book->order) {
            size_t p = size_t(id) / per;
            CHECK(last[p] < id, "an errand was done before one that was given earlier");
            last[p] = id;
        }
    }
}

}  // namespace

PBT(dispatcher_, 1) {
    int threads = g.pick<int>({1, 3, 0, 1, 5});
    if (g.boolean()) errands<1>(g, threads);
    else errands<3>(g, threads);
}
