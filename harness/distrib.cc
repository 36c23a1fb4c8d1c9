// C46: work handed out by a producer to its workers over connections
#include "eckit/config/LocalConfiguration.h"
#include "eckit/distributed/Consumer.h"
#include "eckit/distributed/Message.h"
#include "eckit/distributed/Producer.h"
#include "eckit/distributed/Transport.h"
#include "eckit/distributed/tcp/TCPTransport.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/log/Log.h"
#include "eckit/option/CmdArgs.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"
#include "sockpair.h"
#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <thread>

using namespace pbt;
using namespace eckit;
using namespace eckit::distributed;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

void usage(const std::string&) {}

struct Args : option::CmdArgs {
    Args() : option::CmdArgs(usage, -1, 0, true) {}
};

std::string content(size_t n, unsigned k) {
    std::string s(n, ' ');
    for (size_t i = 0; i < n; ++i) s[i] = char((i * 13 + k + (i >> 9)) % 253);
    return s;
}

size_t aSize(Gen& g) {
    switch (g.weighted({6, 3, 2, 1})) {
        case 0: return g.idx(100);
        case 1: return g.idx(20000);
        case 2: return (1 << 20) - 60 + g.idx(70);
        default: return (1 << 20) + g.idx(2000000);
    }
}

int freePort() {
    int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family      = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_ANY);
    socklen_t n       = sizeof(a);
    if (::bind(s, (sockaddr*)&a, n) || ::getsockname(s, (sockaddr*)&a, &n)) fail("no port");
    ::close(s);
    return ntohs(a.sin_port);
}

struct Job {
    size_t size;
    unsigned k;
    int kind;  // how the text is put into the message
};

struct Plan {
    std::vector<Job> jobs;
    std::vector<size_t> joins;  // a worker joins before this job (0: from the start)
    std::vector<long> dies;     // a worker is gone in its n-th job (-1: never)
    std::vector<long> fails;    // every n-th job fails (0: none)
    std::vector<size_t> slow;   // microseconds per job
    std::vector<std::string> last;
};

struct History {
    std::mutex m;
    std::condition_variable c;
    size_t ready = 0;  // workers that have their connection (or have given up)
    struct Seen { size_t worker, id; bool failed; };
    std::vector<Seen> seen;
    std::vector<std::string> wrong;
    std::vector<std::pair<int, std::string>> reports;
    std::vector<int> ended;  // per worker: 0 not, 1 shut down, 2 died as planned, 3 refused before its first job, 4 lost
    void bad(const std::string& s) {
        std::lock_guard<std::mutex> l(m);
        wrong.push_back(s);
    }
};

struct Gone : std::exception {};  // not an eckit::Exception: ends the worker

struct Worker : Consumer {
    const Plan& p;
    History& h;
    size_t me;
    size_t n = 0;
    size_t current = 0;
    Worker(Transport& t, const Plan& p, History& h, size_t me) : Consumer(t), p(p), h(h), me(me) {}
    void getNextMessage(Message& m) const override { getNextWorkMessage(m); }
    void consume(Message& m) override {
        unsigned long long id;
        m >> id;
        std::string s;
        current = size_t(id);
        if (id >= p.jobs.size()) {
            h.bad("a job that was not given");
            return;
        }
        const Job& j = p.jobs[id];
        if (j.kind == 0) m >> s;
        else {
            unsigned long long n;
            m >> n;
            s.resize(size_t(n));
            m.readBlob(&s[0], s.size());
        }
        if (s != content(j.size, j.k)) h.bad("job " + std::to_string(id) + " is not what was sent");
        ++n;
        bool fails = p.fails[me] && n % size_t(p.fails[me]) == 0;
        {
            std::lock_guard<std::mutex> l(h.m);
            h.seen.push_back({me, current, fails});
        }
        if (p.slow[me]) ::usleep(useconds_t(p.slow[me]));
        if (p.dies[me] >= 0 && n > size_t(p.dies[me])) throw Gone();
        if (fails) throw UserError("this job fails");
    }
    size_t failures = 0;
    void failure(Message&) override { ++failures; }
    void shutdown(Message& m) override { m << (unsigned long long)me << (unsigned long long)n << p.last[me]; }
    void finalise() override {}
};

struct Source : Producer {
    const Plan& p;
    History& h;
    std::function<void(size_t)> before;
    size_t i = 0;
    Source(Transport& t, const Plan& p, History& h, std::function<void(size_t)> b) : Producer(t), p(p), h(h), before(b) {}
    bool produce(Message& m) override {
        before(i);
        if (i == p.jobs.size()) return false;
        const Job& j = p.jobs[i];
        m << (unsigned long long)(i);
        std::string s = content(j.size, j.k);
        if (j.kind == 0) m << s;
        else {
            m << (unsigned long long)(s.size());
            m.writeBlob(s.data(), s.size());
        }
        ++i;
        return true;
    }
    void messageFromWorker(Message& m, int worker) const override {
        m.rewind();
        unsigned long long who, n;
        std::string s;
        m >> who >> n >> s;
        std::lock_guard<std::mutex> l(h.m);
        h.reports.push_back({worker, std::to_string(who) + ":" + std::to_string(n) + ":" + s});
    }
    void finalise() override {}
};

}  // namespace

PBT(work, 10) {
    spareThePorts();
    Plan p;
    size_t k = 1 + g.idx(4), n = g.size(g.thorough() ? 60 : 25);
    size_t heavy = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t s = aSize(g);
        if (s > 100000 && ++heavy > 4) s %= 1000;
        p.jobs.push_back({s, unsigned(g.idx(1000)), g.boolean() ? 0 : 2});
    }
    bool anyDies = g.chance(40), anyFails = g.chance(40);
    for (size_t w = 0; w < k; ++w) {
        p.joins.push_back(w == 0 || g.chance(60) ? 0 : g.idx(n + 1));
        // one worker stays
        p.dies.push_back(w > 0 && anyDies && g.boolean() ? long(g.idx(4)) : -1);
        p.fails.push_back(anyFails && g.boolean() ? long(1 + g.idx(4)) : 0);
        p.slow.push_back(g.chance(30) ? g.idx(3000) : 0);
        p.last.push_back(content(g.chance(10) ? (1 << 20) + g.idx(100000) : g.idx(300), unsigned(w)));
    }
    g.note([&](std::ostream& o) {
        o << "jobs of";
        for (auto& j : p.jobs) o << " " << j.size << (j.kind ? "b" : "");
        o << "\n";
        for (size_t w = 0; w < k; ++w)
            o << "worker joins at " << p.joins[w] << " dies after " << p.dies[w] << " fails each " << p.fails[w] << " slow " << p.slow[w] << " last " << p.last[w].size() << "\n";
    });
    g.nontrivial(n >= 4 && k >= 2);

    History h;
    h.ended.resize(k);
    int port = freePort();
    std::vector<std::thread> threads;
    std::vector<size_t> failures(k), handled(k);
    auto start = [&](size_t w) {
        threads.emplace_back([&, w] {
            bool told = false;
            auto tell = [&] {
                std::lock_guard<std::mutex> l(h.m);
                if (!told) ++h.ready;
                told = true;
                h.c.notify_all();
            };
            std::unique_ptr<Worker> me;
            try {
                Args a;
                a.set("transport", "tcp");
                a.set("host", "localhost");
                a.set("port", port);
                std::unique_ptr<Transport> t(TransportFactory::build(a));
                if (t->producer() || t->single()) h.bad("a worker that is a producer");
                me.reset(new Worker(*t, p, h, w));
                tell();
                static_cast<Actor&>(*me).run();
                h.ended[w] = 1;
                failures[w] = me->failures;
                handled[w]  = me->n;
                me.reset();
            }
            catch (Gone&) { h.ended[w] = 2; }
            catch (std::exception& e) {
                h.ended[w] = me && me->n ? 4 : 3;
                if (h.ended[w] == 4) h.bad(std::string("a worker is lost: ") + e.what());
            }
            tell();
        });
    };
    std::string lost;
    {
        Args a;
        a.set("transport", "tcp");
        a.set("port", port);
        std::unique_ptr<Transport> t;
        try {
            t.reset(TransportFactory::build(a));
        }
        catch (std::exception&) { discard(); }
        CHECK(t->producer() && !t->single(), "the producer is none");
        // without a worker the producer gives up, so the one that stays comes first
        auto wait = [&] {
            std::unique_lock<std::mutex> l(h.m);
            h.c.wait(l, [&] { return h.ready >= threads.size(); });
        };
        start(0);
        wait();
        for (size_t w = 1; w < k; ++w)
            if (!p.joins[w]) start(w);
        Source s(*t, p, h, [&](size_t i) {
            if (i)
                for (size_t w = 0; w < k; ++w)
                    if (p.joins[w] == i) start(w);
            if (i == n) wait();
        });
        try {
            static_cast<Actor&>(s).run();
        }
        catch (std::exception& e) { lost = e.what(); }
    }
    for (auto& t : threads) t.join();
    CHECK(lost.empty(), "the producer fails: " << lost);
    CHECK(h.wrong.empty(), h.wrong[0]);
    // each job once
    std::map<size_t, int> times;
    std::map<size_t, size_t> latest, count, failed;
    for (auto& x : h.seen) {
        ++times[x.id];
        if (count[x.worker]++) CHECK(latest[x.worker] < x.id, "a worker gets an older job after a newer one");
        latest[x.worker] = x.id;
        failed[x.worker] += x.failed;
    }
    for (size_t i = 0; i < n; ++i) CHECK_EQ(times[i], 1, "times job " << i << " was done");
    // each worker that stayed reports once
    std::multimap<std::string, int> reports;
    std::set<int> ids;
    for (auto& r : h.reports) {
        reports.emplace(r.second, r.first);
        CHECK(ids.insert(r.first).second, "two workers with the number " << r.first);
    }
    for (size_t w = 0; w < k; ++w) {
        std::string want = std::to_string(w) + ":" + std::to_string(count[w]) + ":" + p.last[w];
        bool refused     = h.ended[w] == 3;
        if (h.ended[w] == 1) {
            CHECK_EQ(failures[w], failed[w], "failures of worker " << w);
            CHECK_EQ(reports.count(want), 1u, "reports of worker " << w << " of " << reports.size());
        }
        else CHECK_EQ(reports.count(want), 0u, "reports of a worker that is gone");
        CHECK(h.ended[w] == 1 || refused || (h.ended[w] == 2 && p.dies[w] >= 0), "end of worker " << w << ": " << h.ended[w]);
    }
    size_t stayed = 0;
    for (auto e : h.ended) stayed += e == 1;
    CHECK_EQ(h.reports.size(), stayed, "reports");
}

// a message is a stream in memory that grows
PBT(messages, 3) {
    Message m(g.boolean() ? int(Actor::WORK) : int(Actor::SHUTDOWN), g.boolean() ? 1 : g.idx(3 << 20));
    size_t rounds = 1 + g.idx(4), big = 0;
    for (size_t r = 0; r < rounds; ++r) {
        m.rewind();
        std::vector<std::pair<int, std::string>> w;
        size_t n = g.size(20);
        for (size_t i = 0; i < n; ++i) {
            int kind = int(g.idx(3));
            size_t s = aSize(g);
            if (s > 100000 && ++big > 6) s %= 1000;
            w.push_back({kind, content(s, unsigned(g.idx(500)))});
        }
        g.note([&](std::ostream& o) {
            for (auto& x : w) o << " " << x.first << "/" << x.second.size();
            o << "\n";
        });
        for (auto& x : w) {
            size_t before = m.messageSize();
            if (x.first == 0) m << x.second;
            else if (x.first == 1) m << (unsigned long long)(x.second.size());
            else m.writeBlob(x.second.data(), x.second.size());
            CHECK(m.messageSize() > before, "a message that does not grow");
            CHECK(m.bufferSize() >= m.messageSize(), "a buffer smaller than its message");
        }
        size_t size = m.messageSize();
        CHECK_EQ(m.shutdownRequested(), m.tag() == Actor::SHUTDOWN, "shutdownRequested");
        if (g.chance(30)) {
            // moved to another message as a transport does
            Message o(Actor::WORK, 1);
            o.reserve(size);
            CHECK(o.bufferSize() >= size, "reserve");
            ::memcpy(o.messageData(), m.messageData(), size);
            o.messageReceived(Actor::WRITE, 7);
            CHECK_EQ(o.tag(), int(Actor::WRITE), "tag");
            CHECK_EQ(o.source(), 7, "source");
            for (auto& x : w) {
                if (x.first == 0) {
                    std::string s;
                    o >> s;
                    CHECK(s == x.second, "text of a message that was copied");
                }
                else if (x.first == 1) {
                    unsigned long long s;
                    o >> s;
                    CHECK_EQ(size_t(s), x.second.size(), "number of a message that was copied");
                }
                else {
                    std::string s(x.second.size(), 0);
                    o.readBlob(&s[0], s.size());
                    CHECK(s == x.second, "bytes of a message that was copied");
                }
            }
            CHECK_EQ(o.messageSize(), size, "what was read");
        }
        m.rewind();
        for (auto& x : w) {
            if (x.first == 0) {
                std::string s;
                m >> s;
                CHECK(s == x.second, "text");
            }
            else if (x.first == 1) {
                unsigned long long s;
                m >> s;
                CHECK_EQ(size_t(s), x.second.size(), "number");
            }
            else {
                std::string s(x.second.size(), 0);
                m.readBlob(&s[0], s.size());
                CHECK(s == x.second, "bytes");
            }
        }
        g.nontrivial(n > 3 && size > (1 << 20));
    }
}
