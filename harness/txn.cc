// C24: the transaction log, across crashes at any call and between processes
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <map>
#include <set>
#include <sstream>
#include "eckit/filesystem/PathName.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/transaction/TxnEvent.h"
#include "eckit/transaction/TxnLog.h"
#include "pbt.h"

using namespace eckit;

PBT_INIT {
    ::setenv("DEBUG", "0", 1);
    eckit::Main::initialise(argc, argv);
}

//---------------------------------------------------------------------------------------------------------------------
// the crash: the process ends before the n-th of these calls, perhaps after a part of what the call does

static int crashAt = -1, calls = 0;
static unsigned tear = 0;          // per 256: part of the data of the call that reaches the disk
static bool point() { return crashAt >= 0 && ++calls == crashAt; }
template <class F> static F real(const char* n) { return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); }

static off_t sizeOf(FILE* f) { struct stat s; return ::fstat(::fileno(f), &s) == 0 ? s.st_size : 0; }
static void tornFlush(FILE* f) {
    static auto fl = real<int (*)(FILE*)>("fflush");
    off_t before = sizeOf(f);
    if (tear) { fl(f); off_t after = sizeOf(f); if (after > before && ::ftruncate(::fileno(f), before + (after - before) * off_t(tear) / 256) != 0) _exit(98); }
    _exit(99);
}
extern "C" {
FILE* fopen(const char* n, const char* m) { static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); if (point()) _exit(99); return r(n, m); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); if (point()) tornFlush(f); return r(b, s, n, f); }
int fflush(FILE* f) { static auto r = real<int (*)(FILE*)>("fflush"); if (f && point()) tornFlush(f); return r(f); }
int fclose(FILE* f) { static auto r = real<int (*)(FILE*)>("fclose"); if (point()) tornFlush(f); return r(f); }
int rename(const char* a, const char* b) noexcept { static auto r = real<int (*)(const char*, const char*)>("rename"); if (point()) _exit(99); return r(a, b); }
int fsync(int) { if (point()) _exit(99); return 0; }          // nothing outlives the power here
int fdatasync(int) { if (point()) _exit(99); return 0; }
int unlink(const char* a) noexcept { static auto r = real<int (*)(const char*)>("unlink"); if (point()) _exit(99); return r(a); }
}

//---------------------------------------------------------------------------------------------------------------------

class Ev : public TxnEvent {
public:
    std::string text;
    Ev(const std::string& t) : text(t) {}
    Ev(Stream& s) : TxnEvent(s) { s >> text; }
    void encode(Stream& s) const override { TxnEvent::encode(s); s << text; }
    const ReanimatorBase& reanimator() const override { return reanimator_; }
    static const ClassSpec& classSpec() { return spec_; }
    static ClassSpec spec_;
    static Reanimator<Ev> reanimator_;
};
ClassSpec Ev::spec_ = {&TxnEvent::classSpec(), "Ev"};
Reanimator<Ev> Ev::reanimator_;

struct Collect : TxnRecoverer<Ev> {
    std::vector<std::pair<unsigned long long, std::string>> got;
    void push(Ev* e) override { got.push_back({e->transactionID(), e->text}); delete e; }
};
struct Find : TxnFinder<Ev> {
    std::vector<std::pair<unsigned long long, std::string>> got;
    bool act, ol; size_t stop = size_t(-1);
    Find(bool a, bool o) : act(a), ol(o) {}
    bool active() override { return act; }
    bool old() override { return ol; }
    bool found(Ev& e) override { got.push_back({e.transactionID(), e.text}); return got.size() >= stop; }
};

// what the child reports: one line for each step begun and done
struct Step { char op; unsigned long long id; std::string text; bool done; };
static void report(int fd, char c, unsigned long long id, const std::string& text) {
    std::string l = std::string(1, c) + " " + std::to_string(id) + " " + text + "\n";
    if (::write(fd, l.data(), l.size()) != ssize_t(l.size())) _exit(97);
}

template <class F> static std::string child(F f, int* status) {
    int p[2];
    if (::pipe(p) != 0) pbt::fail("pipe");
    std::cout.flush();
    pid_t pid = ::fork();
    if (pid == 0) {
        ::close(p[0]);
        try { f(p[1]); _exit(0); }
        catch (std::exception& e) { report(p[1], '!', 0, e.what()); _exit(96); }
    }
    ::close(p[1]);
    std::string out;
    char b[65536];
    ssize_t n;
    while ((n = ::read(p[0], b, sizeof b)) > 0) out.append(b, size_t(n));
    ::close(p[0]);
    ::waitpid(pid, status, 0);
    *status = WIFEXITED(*status) ? WEXITSTATUS(*status) : 1000 + WTERMSIG(*status);
    return out;
}
static std::vector<Step> parse(const std::string& s) {
    std::vector<Step> v;
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) { size_t a = l.find(' ', 2); v.push_back({l[0], std::stoull(l.substr(2, a - 2)), l.substr(a + 1), false}); }
    return v;
}

// one directory for each worker: the counter's file keeps its inode, and so its semaphore
static void fresh(const std::string& dir) {
    ::mkdir(dir.c_str(), 0777);
    ::mkdir((dir + "/txn").c_str(), 0777);
    std::string log = dir + "/txn/log";
    ::mkdir(log.c_str(), 0777);
    for (std::string d : {log + "/done", log}) {
        if (DIR* h = ::opendir(d.c_str())) {
            while (auto* e = ::readdir(h)) {
                std::string n = e->d_name;
                if (n == "." || n == ".." || n == "done") continue;
                if (n == "next") { if (::truncate((d + "/next").c_str(), 0) != 0) pbt::fail("truncate"); }
                else ::unlink((d + "/" + n).c_str());
            }
            ::closedir(h);
        }
    }
    const_cast<std::string&>(Main::instance().home()) = dir;   // what a program says with the variable it names to initialise()
}
static void dropSemaphore(const std::string& dir) {
    key_t k = ftok((dir + "/txn/log/next").c_str(), 1);
    if (k != key_t(-1)) { int s = semget(k, 1, 0666); if (s >= 0) semctl(s, 0, IPC_RMID); }
}

struct Model {
    std::map<unsigned long long, std::set<std::string>> active;   // what recovery may give for it
    std::map<unsigned long long, std::set<std::string>> maybe;    // may also be absent
    std::map<unsigned long long, std::set<std::string>> archived;
    std::set<unsigned long long> ids, stopped;                    // ids ever handed out; ends that were cut
    bool archiveTorn = false;
};

static void history(pbt::Gen& g, bool crash) {
    std::string dir = g.scratch() + "/home";
    fresh(dir);
    struct Drop { std::string d; ~Drop() { dropSemaphore(d); } } drop{dir};
    size_t rounds = 1 + g.size(crash ? 4 : 3);
    Model m;
    size_t total = 0;
    int serial = 0;
    for (size_t r = 0; r < rounds; r++) {
        // plan of this round; the index is the rank among the transactions alive at that moment
        struct Op { int what; size_t rank; std::string text; bool backup; };
        std::vector<Op> plan;
        size_t n = 1 + g.size(10);
        for (size_t i = 0; i < n; i++) {
            Op o;
            o.what = int(g.weighted({5, 3, 3}));
            o.rank = g.idx(8);
            o.text = "t" + std::to_string(serial++) + std::string(g.chance(10) ? g.size(10000) : g.size(30), 'x');
            o.backup = g.boolean();
            plan.push_back(o);
        }
        total += n;
        bool dies = crash && g.chance(85);
        int at = dies ? 1 + int(g.idx(n * 6)) : -1;
        unsigned part = dies && g.boolean() ? unsigned(g.range(1, 256)) : 0;
        g.note([&](std::ostream& o) {
            for (auto& p : plan) o << (p.what == 0 ? "begin " : p.what == 1 ? "update " : p.backup ? "end+ " : "end ") << p.rank << " [" << p.text.size() << "]; ";
            if (dies) o << "ends at call " << at << (part ? " torn " : "") << part;
            o << "\n";
        });
        std::map<unsigned long long, std::string> alive;
        for (auto& e : m.active) alive[e.first] = *e.second.begin();
        int status = 0;
        std::string out = child([&](int fd) {
            Main::instance();
            TxnLog<Ev> t("log");
            crashAt = at;
            tear = part;
            std::vector<unsigned long long> ids;
            for (auto& e : alive) ids.push_back(e.first);
            for (auto& o : plan) {
                if (o.what == 0 || ids.empty()) {
                    Ev e(o.text);
                    report(fd, 'b', 0, o.text);
                    t.begin(e);
                    report(fd, 'B', e.transactionID(), o.text);
                    ids.push_back(e.transactionID());
                }
                else {
                    auto id = ids[o.rank % ids.size()];
                    Ev e(o.text);
                    e.transactionID(id);
                    if (o.what == 1) { report(fd, 'u', id, o.text); t.update(e); report(fd, 'U', id, o.text); }
                    else { report(fd, o.backup ? 'a' : 'e', id, o.text); t.end(e, o.backup); report(fd, o.backup ? 'A' : 'E', id, o.text); ids.erase(ids.begin() + long(o.rank % ids.size())); if (t.exists(e)) report(fd, '!', id, "exists after end"); }
                }
            }
            crashAt = -1;
        }, &status);
        CHECK(status == 0 || (dies && status == 99), "the process failed with " << status << ": " << out.substr(0, 2000));
        auto steps = parse(out);
        for (size_t i = 0; i < steps.size(); i++) {
            auto& s = steps[i];
            bool cut = i + 1 == steps.size() && islower(s.op);
            switch (s.op) {
                case '!': pbt::fail("failure: " + s.text); break;
                case 'B':
                    CHECK(s.id > 0, "no id");
                    CHECK(!m.ids.count(s.id), "id " << s.id << " was given twice");
                    for (auto id : m.ids) CHECK(s.id > id, "id " << s.id << " after " << id);
                    m.ids.insert(s.id);
                    m.active[s.id] = {s.text};
                    break;
                case 'U': m.active[s.id] = {s.text}; break;
                case 'A': m.archived[s.id].insert(s.text); m.active.erase(s.id); break;
                case 'E': m.active.erase(s.id); break;
                case 'b': if (cut) m.maybe[0] = {s.text}; break;            // its id is not known
                case 'u': if (cut) m.active[s.id].insert(s.text); break;
                case 'a': if (cut) { m.archiveTorn = true; m.maybe[s.id] = m.active[s.id]; m.active.erase(s.id); } break;
                case 'e': if (cut) { m.maybe[s.id] = m.active[s.id]; m.active.erase(s.id); } break;
            }
        }
        // a new process recovers
        bool twice = g.chance(20);
        out = child([&](int fd) {
            TxnLog<Ev> t("log");
            for (int k = 0; k < (twice ? 2 : 1); k++) {
                Collect c;
                t.recover(c, false, 0);
                for (auto& e : c.got) report(fd, 'R', e.first, e.second);
                report(fd, '-', 0, "");
            }
            Find f(true, false), o(false, true);
            t.find(f);
            for (auto& e : f.got) report(fd, 'F', e.first, e.second);
            t.find(o);
            for (auto& e : o.got) report(fd, 'O', e.first, e.second);
            if (f.got.size() > 1) { Find one(true, true); one.stop = 1; t.find(one); if (one.got.size() != 1) report(fd, '!', 0, "find did not stop"); }
            for (auto& e : f.got) { Ev x(""); x.transactionID(e.first); if (!t.exists(x)) report(fd, '!', e.first, "found but exists() denies"); }
        }, &status);
        CHECK_EQ(status, 0, "the recovering process failed: " << out.substr(0, 2000));
        std::map<unsigned long long, std::string> rec, fnd;
        std::map<unsigned long long, std::set<std::string>> old;
        unsigned long long last = 0;
        int pass = 0;
        for (auto& s : parse(out)) {
            switch (s.op) {
                case '!': pbt::fail(s.text); break;
                case '-': pass++; last = 0; if (pass == 1 && twice) rec.clear(); break;
                case 'R':
                    CHECK(!rec.count(s.id), "transaction " << s.id << " was recovered twice");
                    CHECK(s.id > last, "recovered out of order: " << s.id << " after " << last);
                    last = s.id;
                    rec[s.id] = s.text;
                    break;
                case 'F': CHECK(!fnd.count(s.id), "transaction " << s.id << " was found twice"); fnd[s.id] = s.text; break;
                case 'O': old[s.id].insert(s.text); break;
            }
        }
        CHECK(rec == fnd, "find() and recover() differ: " << fnd.size() << " and " << rec.size());
        for (auto& e : m.active) {
            CHECK(rec.count(e.first), "transaction " << e.first << " was lost");
            CHECK(e.second.count(rec[e.first]), "transaction " << e.first << " has neither its last nor its new content");
        }
        for (auto& e : rec) {
            if (m.active.count(e.first)) { m.active[e.first] = {e.second}; continue; }
            if (m.maybe.count(e.first)) { CHECK(m.maybe[e.first].count(e.second), "content of the transaction being ended"); m.active[e.first] = {e.second}; continue; }
            CHECK(m.maybe.count(0) && m.maybe[0].count(e.second) && !m.ids.count(e.first), "transaction " << e.first << " has ended or never was begun");
            m.ids.insert(e.first);
            m.active[e.first] = {e.second};
        }
        m.maybe.clear();
        if (!m.archiveTorn) { for (auto& e : m.archived) CHECK(old.count(e.first) && old[e.first] == e.second, "archived transaction " << e.first << " was not found"); CHECK_EQ(old.size(), m.archived.size(), "archived transactions"); }
    }
    g.nontrivial(total > 3);
}

PBT(normal, 1) { history(g, false); }
PBT(crash, 3) { history(g, true); }

// several processes begin and end transactions at the same time
PBT(processes, 1) {
    std::string dir = g.scratch() + "/home";
    fresh(dir);
    struct Drop { std::string d; ~Drop() { dropSemaphore(d); } } drop{dir};
    size_t P = 2 + g.size(2), n = 1 + g.size(10);
    std::vector<std::vector<int>> ends(P);
    for (auto& e : ends) for (size_t i = 0; i < n; i++) e.push_back(int(g.idx(3)));
    g.nontrivial(n > 2);
    g.note([&](std::ostream& o) { o << P << " processes, " << n << " transactions each"; });
    int go[2];
    if (::pipe(go) != 0) pbt::fail("pipe");
    std::vector<pid_t> pids;
    std::vector<int> fds;
    for (size_t p = 0; p < P; p++) {
        int q[2];
        if (::pipe(q) != 0) pbt::fail("pipe");
        pid_t pid = ::fork();
        if (pid == 0) {
            char c;
            ::close(go[1]);
            if (::read(go[0], &c, 1) < 0) _exit(95);
            try {
                TxnLog<Ev> t("log");
                for (size_t i = 0; i < n; i++) {
                    Ev e("p" + std::to_string(p) + "/" + std::to_string(i));
                    t.begin(e);
                    if (ends[p][i] == 0) { t.end(e, i % 2 == 0); report(q[1], 'E', e.transactionID(), e.text); }
                    else if (ends[p][i] == 1) { e.text += "u"; t.update(e); report(q[1], 'B', e.transactionID(), e.text); }
                    else report(q[1], 'B', e.transactionID(), e.text);
                }
            }
            catch (std::exception& e) { report(q[1], '!', 0, e.what()); }
            _exit(0);
        }
        pids.push_back(pid);
        ::close(q[1]);
        fds.push_back(q[0]);
    }
    ::close(go[0]);
    ::close(go[1]);
    std::map<unsigned long long, std::string> want;
    std::set<unsigned long long> ids;
    for (size_t p = 0; p < P; p++) {
        std::string out; char b[4096]; ssize_t k;
        while ((k = ::read(fds[p], b, sizeof b)) > 0) out.append(b, size_t(k));
        ::close(fds[p]);
        int st; ::waitpid(pids[p], &st, 0);
        auto v = parse(out);
        CHECK_EQ(v.size(), n, "transactions of process " << p << ": " << out.substr(0, 300));
        for (auto& s : v) {
            CHECK(s.op != '!', "failure: " << s.text);
            CHECK(ids.insert(s.id).second, "id " << s.id << " was given twice");
            if (s.op == 'B') want[s.id] = s.text;
        }
    }
    int status;
    std::map<unsigned long long, std::string> got;
    std::string out = child([&](int fd) { TxnLog<Ev> t("log"); Collect c; t.recover(c, false, 0); for (auto& e : c.got) report(fd, 'R', e.first, e.second); }, &status);
    for (auto& s : parse(out)) got[s.id] = s.text;
    CHECK(got == want, "recovered " << got.size() << " transactions, not " << want.size());
}
