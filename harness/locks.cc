// C44: locks between processes.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileLock.h"
#include "eckit/io/FileLocker.h"
#include "eckit/os/Semaphore.h"
#include "eckit/os/SharedInt.h"
#include "eckit/runtime/Main.h"
#include "eckit/thread/AutoLock.h"
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <sstream>
#include <thread>

using namespace pbt;
using namespace eckit;

static bool ownIPC = false;
PBT_INIT {
    eckit::Main::initialise(argc, argv);
    ownIPC = ::unshare(CLONE_NEWUSER | CLONE_NEWIPC) == 0;   // the semaphores go with it
}

namespace {

constexpr size_t CELLS = 12, MAXP = 5;

// what the processes tell one another, outside of any lock
struct Shared {
    std::atomic<int> ready, start;
    std::atomic<int> writer[CELLS], readers[CELLS];
    std::atomic<int> inside;      // of a counted resource
    std::atomic<long> entries, waits;
    std::atomic<int> failed;
    char what[512];
    long plain;                   // written without any care, under the lock
};

Shared* shared() {
    static Shared* s = [] {
        void* p = ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return p == MAP_FAILED ? nullptr : static_cast<Shared*>(p);
    }();
    return s;
}

void wrong(const std::string& w) {
    int none = 0;
    if (shared()->failed.compare_exchange_strong(none, 1)) {
        ::snprintf(shared()->what, sizeof shared()->what, "%s", w.c_str());
        shared()->failed = 2;
    }
}

struct Rng {
    uint64_t s;
    uint64_t operator()() {
        s ^= s << 13, s ^= s >> 7, s ^= s << 17;
        return s;
    }
};

void idle(unsigned us) {
    if (us == 0) return;
    if (us < 3) {
        ::sched_yield();
        return;
    }
    ::usleep(us);
}

// holding cells [a, b) exclusively
void exclusive(size_t a, size_t b, unsigned us, const char* who) {
    auto* s = shared();
    s->entries++;
    for (size_t i = a; i < b; ++i) {
        int w = s->writer[i].fetch_add(1);
        if (w || s->readers[i].load()) wrong(std::string(who) + ": two hold the same lock");
    }
    long v = a == 0 ? s->plain : 0;
    idle(us);
    if (a == 0) s->plain = v + 1;
    for (size_t i = a; i < b; ++i) {
        if (s->writer[i].load() != 1 || s->readers[i].load()) wrong(std::string(who) + ": another got the lock that is held");
        s->writer[i]--;
    }
}

void reading(size_t a, size_t b, unsigned us, const char* who) {
    auto* s = shared();
    s->entries++;
    for (size_t i = a; i < b; ++i) {
        s->readers[i]++;
        if (s->writer[i].load()) wrong(std::string(who) + ": read while another writes");
    }
    idle(us);
    for (size_t i = a; i < b; ++i) {
        if (s->writer[i].load()) wrong(std::string(who) + ": written while another reads");
        s->readers[i]--;
    }
}

// run n processes to their end; f(k); one that dies does so by _exit(99)
std::string processes(size_t n, const std::function<void(size_t)>& f) {
    auto* s = shared();
    std::vector<pid_t> pids;
    std::cout.flush();
    for (size_t k = 0; k < n; ++k) {
        pid_t p = ::fork();
        if (p == 0) {
            ::alarm(20);
            s->ready++;
            while (!s->start.load()) ::sched_yield();
            try {
                f(k);
            }
            catch (std::exception& e) {
                wrong(std::string("process ") + std::to_string(k) + ": " + e.what());
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    while (s->ready.load() < int(n)) ::sched_yield();
    s->start = 1;
    std::string r;
    for (size_t k = 0; k < n; ++k) {
        int status = 0;
        ::waitpid(pids[k], &status, 0);
        if (WIFSIGNALED(status)) {
            std::ostringstream o;
            if (WTERMSIG(status) == SIGALRM) o << "process " << k << " waits for ever";
            else o << "process " << k << " ended by signal " << WTERMSIG(status);
            if (r.empty()) r = o.str();
        }
    }
    if (s->failed.load()) return s->what;
    return r;
}

void fresh() {
    auto* s = shared();
    if (!s) discard();
    ::memset(static_cast<void*>(s), 0, sizeof *s);
}

void forget(const std::string& path) {
    key_t k = ::ftok(path.c_str(), 1);
    if (!ownIPC || k == key_t(-1)) return;
    int id = ::semget(k, 0, 0666);
    if (id >= 0) ::semctl(id, 0, IPC_RMID);
}

}  // namespace

// one lock file, created and perhaps removed by each that uses it
PBT(filelock, 3) {
    fresh();
    const auto path    = g.freshDir() + "/a/b.lock";
    const bool unlink  = g.boolean();
    const size_t n     = 2 + g.choice(MAXP - 2);
    const int rounds   = 1 + int(g.choice(30));
    const int keep     = int(g.choice(3));     // rounds with the same object
    const unsigned us  = unsigned(g.pick<int>({0, 1, 20, 100}));
    const uint64_t rnd = g.uinteger(1, ~0ull - 1000);
    std::vector<int> dies(n, -1);
    for (auto& d : dies) if (g.chance(15)) d = int(g.choice(uint64_t(rounds)));
    g.note([&](std::ostream& o) {
        o << n << " processes lock a file " << rounds << " times" << (unlink ? ", unlinked at destruction" : "") << ", for " << us << " us, object kept for " << keep << " more rounds; dying at";
        for (auto d : dies) o << " " << d;
    });
    long expect = 0;
    for (auto d : dies) expect += d < 0 ? rounds : std::min(rounds, d);
    auto r = processes(n, [&](size_t k) {
        Rng some{rnd + k * 7919};
        std::unique_ptr<FileLock> lock;
        int left = 0;
        for (int i = 0; i < rounds; ++i) {
            if (!lock) {
                lock.reset(new FileLock(path, unlink));
                left = keep;
            }
            idle(some() % 4 ? 0 : us);
            {
                AutoLock<FileLock> l(*lock);
                if (dies[k] == i) _exit(99);
                exclusive(0, 1, some() % 3 ? us : 0, "FileLock");
            }
            if (!left--) lock.reset();
        }
    });
    CHECK(r.empty(), r);
    CHECK_EQ(shared()->plain, expect, "updates under the lock");
    bool someoneDied = false;
    for (auto d : dies) someoneDied |= d >= 0;
    if (!unlink) CHECK(PathName(path).exists(), "the lock file is gone");
    else if (!someoneDied) CHECK(!PathName(path).exists(), "the lock file remains");
    g.nontrivial(n > 2 && rounds > 4);
}

// ranges of a file, shared and exclusive
PBT(ranges, 3) {
    fresh();
    const auto path    = g.freshDir() + "/f";
    { int fd = ::open(path.c_str(), O_CREAT | O_RDWR, 0666); ::close(fd); }
    const size_t n     = 2 + g.choice(MAXP - 2);
    const int rounds   = 1 + int(g.choice(25));
    const unsigned us  = unsigned(g.pick<int>({0, 1, 20, 100}));
    const uint64_t rnd = g.uinteger(1, ~0ull - 1000);
    const unsigned whole = unsigned(g.pick<int>({0, 10, 50}));
    g.note([&](std::ostream& o) { o << n << " processes lock ranges of a file " << rounds << " times, for " << us << " us, " << whole << "% to the end"; });
    auto r = processes(n, [&](size_t k) {
        Rng some{rnd + k * 7919};
        int fd = ::open(path.c_str(), O_RDWR);
        FileLocker l(fd);
        for (int i = 0; i < rounds; ++i) {
            size_t a = some() % CELLS, b = a + 1 + some() % (CELLS - a);
            off_t len = off_t(b - a);
            if (some() % 100 < whole) {
                b   = CELLS;
                len = 0;   // to the end
            }
            bool write = some() % 2;
            idle(some() % 4 ? 0 : us);
            if (write) {
                a == 0 && len == 0 ? l.lockExclusive() : l.lockExclusive(off_t(a), len);
                exclusive(a, b, some() % 3 ? us : 0, "lockExclusive");
            }
            else {
                a == 0 && len == 0 ? l.lockShared() : l.lockShared(off_t(a), len);
                reading(a, b, some() % 3 ? us : 0, "lockShared");
                if (b - a > 1 && some() % 2) {  // give back a part of it, then use the rest
                    l.unlock(off_t(a), 1);
                    a++;
                    if (len) len--;
                    reading(a, b, some() % 3 ? us : 0, "lockShared, part");
                }
            }
            a == 0 && len == 0 ? l.unlock() : l.unlock(off_t(a), len);
        }
        // the last thing: nothing is held any more
    });
    CHECK(r.empty(), r);
    // everything was given back: all of it can be had at once
    g.nontrivial(n > 2 && rounds > 4);
}

// several may read at once: two that wait for each other inside do meet
PBT(together, 1) {
    fresh();
    const auto path = g.freshDir() + "/f";
    { int fd = ::open(path.c_str(), O_CREAT | O_RDWR, 0666); ::close(fd); }
    const size_t n     = 2 + g.choice(2);
    const bool disjoint = g.boolean();
    g.note([&](std::ostream& o) { o << n << " processes hold " << (disjoint ? "their own ranges" : "the same range, shared") << " at once"; });
    auto r = processes(n, [&](size_t k) {
        int fd = ::open(path.c_str(), O_RDWR);
        FileLocker l(fd);
        if (disjoint) l.lockExclusive(off_t(k * 3), 3);
        else l.lockShared(0, off_t(k));   // k == 0: to the end
        shared()->inside++;
        for (int i = 0; shared()->inside.load() < int(n); ++i) {
            if (i > 50000) {
                wrong("locks that do not conflict exclude each other");
                return;
            }
            ::usleep(100);
        }
    });
    CHECK(r.empty(), r);
    g.nontrivial(true);
}

// the semaphore: processes and threads, recursive, tried; who dies with it gives it back
PBT(semaphore, 3) {
    fresh();
    const auto path    = g.freshDir() + "/s";
    const size_t n     = 1 + g.choice(MAXP - 2);
    const size_t nt    = 1 + g.choice(2);
    const int rounds   = 1 + int(g.choice(20));
    const unsigned us  = unsigned(g.pick<int>({0, 1, 20, 100}));
    const uint64_t rnd = g.uinteger(1, ~0ull - 1000);
    std::vector<int> dies(n, -1);
    for (auto& d : dies) if (nt == 1 && g.chance(15)) d = int(g.choice(uint64_t(rounds)));
    g.note([&](std::ostream& o) {
        o << n << " processes of " << nt << " threads lock a semaphore " << rounds << " times, for " << us << " us; dying at";
        for (auto d : dies) o << " " << d;
    });
    PathName(path).touch();
    auto r = processes(n, [&](size_t k) {
        Semaphore sem(path);
        auto one = [&](size_t t) {
            Rng some{rnd + k * 7919 + t * 104729};
            for (int i = 0; i < rounds; ++i) {
                idle(some() % 4 ? 0 : us);
                if (some() % 3 == 0) {
                    while (!sem.tryLock()) {
                        shared()->waits++;
                        ::sched_yield();
                    }
                }
                else {
                    sem.lock();
                }
                if (dies[k] == i) _exit(99);
                int deep = some() % 4 == 0 ? int(1 + some() % 3) : 0;
                for (int j = 0; j < deep; ++j) {
                    if (j % 2) sem.lock();
                    else if (!sem.tryLock()) wrong("Semaphore: not had again by who holds it");
                }
                exclusive(0, 1, some() % 3 ? us : 0, "Semaphore");
                if (!sem.test()) wrong("Semaphore: held, but free");
                for (int j = 0; j < deep; ++j) sem.unlock();
                if (deep) exclusive(0, 1, some() % 3 ? us : 0, "Semaphore after the inner ones");
                sem.unlock();
            }
        };
        if (nt == 1) {
            one(0);
        }
        else {
            std::vector<std::thread> ts;
            for (size_t t = 0; t < nt; ++t) ts.emplace_back(one, t);
            for (auto& t : ts) t.join();
        }
    });
    Semaphore sem(path);
    const bool held = sem.test();
    const bool had  = sem.tryLock();
    if (had) sem.unlock();
    forget(path);
    CHECK(r.empty(), r);
    CHECK(!held && had, "after all have gone, the semaphore is " << (held ? "held" : "free") << " and " << (had ? "had" : "not had"));
    g.nontrivial(n * nt > 2 && rounds > 4);
}

// a shared number: never more in use than the limit, all given back, by who dies as well
PBT(sharedint, 3) {
    fresh();
    const auto path    = g.freshDir() + "/i";
    const int count    = 1 + int(g.choice(2));
    const int which    = int(g.choice(uint64_t(count - 1)));
    const int limit    = 1 + int(g.choice(4));
    const size_t n     = 2 + g.choice(MAXP - 2);
    const int rounds   = 1 + int(g.choice(20));
    const unsigned us  = unsigned(g.pick<int>({0, 1, 20, 100}));
    const uint64_t rnd = g.uinteger(1, ~0ull - 1000);
    std::vector<int> dies(n, -1);
    for (auto& d : dies) if (g.chance(15)) d = int(g.choice(uint64_t(rounds)));
    g.note([&](std::ostream& o) {
        o << n << " processes use some of " << limit << " " << rounds << " times, for " << us << " us; dying at";
        for (auto d : dies) o << " " << d;
    });
    PathName(path).touch();
    SharedInt s(path, count);
    const int first = 1 + int(g.choice(6));
    s.newLimit(short(first), (unsigned short)which);
    CHECK_EQ(s.limit(which), first, "the limit");
    CHECK_EQ(s.free(which), first, "free");
    s.newLimit(short(limit), (unsigned short)which);
    auto r = processes(n, [&](size_t k) {
        SharedInt mine(path, count);
        Rng some{rnd + k * 7919};
        for (int i = 0; i < rounds; ++i) {
            short v = short(1 + some() % uint64_t(limit));
            idle(some() % 4 ? 0 : us);
            if (v == 1 && some() % 2) mine.use(which);
            else mine.use(which, v);
            if (dies[k] == i) _exit(99);
            if (shared()->inside.fetch_add(v) + v > limit) wrong("SharedInt: more in use than the limit");
            idle(some() % 3 ? us : 0);
            if (mine.free(which) + shared()->inside.load() < 0 || mine.free(which) > limit - v) wrong("SharedInt: free while in use");
            shared()->inside -= v;
            if (v == 1 && some() % 2) mine.release(which);
            else mine.release(which, v);
        }
    });
    int free = s.free(which), lim = s.limit(which);
    std::vector<int> others;
    for (int i = 0; i < count; ++i) if (i != which) others.push_back(s.free(i) + s.limit(i));
    forget(path);
    CHECK(r.empty(), r);
    CHECK_EQ(free, limit, "free, after all have gone");
    CHECK_EQ(lim, limit, "the limit, after all have gone");
    for (auto x : others) CHECK_EQ(x, 0, "another number of the same file");
    g.nontrivial(n > 2 && rounds > 4 && limit > 1);
}
