// C47: the registers of a cluster's nodes and disks (io/cluster) against a model of what was reported last, over
// histories of reports, losses, forgetting, transfers to another register and several processes at once.

#include <fcntl.h>
#include <sys/ipc.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "eckit/config/Resource.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/cluster/ClusterDisks.h"
#include "eckit/io/cluster/ClusterNodes.h"
#include "eckit/io/cluster/NodeInfo.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/value/Value.h"
#include "pbt.h"

using namespace pbt;
using namespace eckit;

static const size_t NDISKS = 40;

static time_t fakeTime = 0;  // 0: the real clock
extern "C" time_t time(time_t* p) {
    time_t t = fakeTime;
    if (!t) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        t = ts.tv_sec;
    }
    if (p) *p = t;
    return t;
}

PBT_INIT {
    static char home[] = "VERIF_HOME_DIR";
    ::setenv(home, "/proc/self/cwd", 1);  // the home is wherever the worker is
    // a configuration of its own, read once
    char t[] = "/tmp/pbt_home.XXXXXX";
    char cwd[4096];
    if (!::mkdtemp(t) || !::getcwd(cwd, sizeof(cwd)) || ::chdir(t)) ::abort();
    ::mkdir("etc", 0777);
    ::mkdir("etc/config", 0777);
    std::ofstream("etc/config/general") << "disksArraySize: " << NDISKS << "\n";
    eckit::Main::initialise(argc, argv, home);
    if (long(Resource<long>("disksArraySize", 0)) != long(NDISKS)) ::abort();
    ::unlink("etc/config/general");
    ::rmdir("etc/config");
    ::rmdir("etc");
    if (::chdir(cwd)) ::abort();
    ::rmdir(t);
}

namespace {

struct Clocked {
    Clocked() { fakeTime = 1000000; }
    ~Clocked() { fakeTime = 0; }
};

// an empty register in the directory of the worker; the program has it open all the time
struct Register {
    std::string path;
    Register(Gen& g, const std::string& name, const std::function<void()>& open) {
        const std::string dir = g.scratch();
        if (::chdir(dir.c_str())) fail("chdir");
        ::mkdir((dir + "/etc").c_str(), 0777);
        ::mkdir((dir + "/etc/cluster").c_str(), 0777);
        path = dir + "/etc/cluster/" + name;
        open();
        int fd = ::open(path.c_str(), O_RDWR);
        if (fd < 0) fail("no register in " + path);
        struct stat s;
        ::fstat(fd, &s);
        static const std::vector<char> zeros(1 << 20);
        std::vector<char> page(65536);
        for (off_t o = 4096; o < s.st_size; o += off_t(page.size())) {
            size_t n = std::min(page.size(), size_t(s.st_size - o));
            if (::pread(fd, page.data(), n, o) != ssize_t(n)) fail("pread");
            if (::memcmp(page.data(), zeros.data(), n) && ::pwrite(fd, zeros.data(), n, o) != ssize_t(n)) fail("pwrite");
        }
        ::close(fd);
        key_t k = ::ftok(path.c_str(), 1);
        sem = ::semget(k, 1, 0666);
    }
    int sem;
};

void dropSemaphore(const std::string& path) {
    key_t k = ::ftok(path.c_str(), 1);
    if (k == key_t(-1)) return;
    int s = ::semget(k, 1, 0666);
    if (s >= 0) ::semctl(s, 0, IPC_RMID);
}

struct DropAtExit {
    pid_t me = 0;
    std::set<std::string> paths;
    ~DropAtExit() {
        if (me == ::getpid())
            for (auto& p : paths) dropSemaphore(p);
    }
} drop;

Register nodesRegister(Gen& g) {
    Register r(g, "nodes", [] { ClusterNodes::all(); });
    drop.me = ::getpid();
    drop.paths.insert(r.path);
    return r;
}

Register disksRegister(Gen& g) {
    Register r(g, "disks", [] { ClusterDisks::lastModified("x"); });
    drop.me = ::getpid();
    drop.paths.insert(r.path);
    return r;
}

struct Node {
    std::string host;
    int port = 0;
    std::set<std::string> attrs;
    bool off    = false;
    time_t seen = 0;
    bool available() const { return fakeTime - seen <= 60 && !off; }
};
using Key   = std::pair<std::string, std::string>;  // node, type
using Nodes = std::map<Key, Node>;

NodeInfo info(const Key& k, const Node& n) {
    NodeInfo i;
    i.node(k.first);
    i.name(k.second);
    i.host(n.host);
    i.port(n.port);
    i.attributes(n.attrs);
    i.active(!n.off);
    return i;
}

std::string text(const NodeInfo& i) {
    std::ostringstream o;
    o << i.name() << "@" << i.node() << " " << i.host() << ":" << i.port() << (i.active() ? " on" : " off") << " {";
    for (auto& a : i.attributes()) o << a << ",";
    o << "}";
    return o.str();
}

std::string text(const Nodes& m) {
    std::multiset<std::string> s;
    for (auto& n : m) s.insert(text(info(n.first, n.second)));
    std::string r;
    for (auto& x : s) r += x + "\n";
    return r;
}

std::string registered() {
    std::multiset<std::string> s;
    for (auto& i : ClusterNodes::all()) s.insert(text(i));
    std::string r;
    for (auto& x : s) r += x + "\n";
    return r;
}

struct Names {
    std::vector<std::string> nodes, types, hosts, attrs;
    Names(Gen& g) {
        auto names = [&](std::vector<std::string>& v, size_t n, const char* prefix) {
            for (size_t i = 0; i < n; ++i)
                v.push_back(g.chance(80) ? prefix + std::to_string(i) : g.chance(15) ? std::string(249 + g.idx(7 - (i > 9)), 'a' + char(i)) : g.ident() + std::to_string(i));
        };
        names(nodes, 1 + g.idx(6), "n");
        names(types, 1 + g.idx(4), "t");
        names(attrs, 1 + g.idx(18), "a");
        for (size_t i = 0, n = 1 + g.idx(4); i < n; ++i) hosts.push_back(g.chance(80) ? "127.0.0." + std::to_string(1 + i) : "localhost");
    }
    Key key(Gen& g) const { return {g.pick(nodes), g.pick(types)}; }
    Node node(Gen& g) const {
        Node n;
        n.host = g.pick(hosts);
        n.port = int(g.idx(4)) * 1000;
        n.seen = fakeTime;
        for (size_t i = g.idx(1 + std::min<size_t>(attrs.size(), 16)); i; --i) n.attrs.insert(g.pick(attrs));
        return n;
    }
};

std::string ip(const std::string& h) { return h == "localhost" ? "127.0.0.1" : h; }

PBT(nodes, 4) {
    Clocked clock;
    Register r = nodesRegister(g);
    Names names(g);
    Nodes m;
    std::ostringstream log;
    auto show = [&](std::ostream& o) { o << log.str(); };
    std::vector<std::pair<Nodes, std::string>> kept;  // what was sent
    size_t n = 0, most = 0;
    for (; g.more(94); ++n) {
        switch (g.weighted({8, 2, 2, 2, 2, 1, 1, 2, 2, 1, 2})) {
            case 0: {
                Key k  = names.key(g);
                Node x = names.node(g);
                log << "refresh " << text(info(k, x)) << "\n";
                ClusterNodes::refresh(info(k, x));
                m[k] = x;
                break;
            }
            case 1: {
                Key k = names.key(g);
                log << "offLine " << k.second << "@" << k.first << "\n";
                ClusterNodes::offLine(info(k, Node()));
                if (m.count(k)) m[k].off = true;
                break;
            }
            case 2: {
                std::string h = g.pick(names.hosts);
                int p         = int(g.idx(4)) * 1000;
                bool on       = g.boolean();
                log << (on ? "onLine " : "offLine ") << h << ":" << p << "\n";
                if (on) ClusterNodes::onLine(h, p);
                else ClusterNodes::offLine(h, p);
                for (auto& x : m)
                    if (x.second.host == h && x.second.port == p) x.second.off = !on;
                break;
            }
            case 3: {
                Key k = names.key(g);
                log << "forget " << k.first << "\n";
                ClusterNodes::forget(info(k, Node()));
                for (auto i = m.begin(); i != m.end();) i = i->first.first == k.first ? m.erase(i) : std::next(i);
                break;
            }
            case 4: {
                time_t dt = g.pick<time_t>({1, 30, 59, 60, 61, 1000});
                log << "after " << dt << " s\n";
                fakeTime += dt;
                break;
            }
            case 5:
                log << "cleanup\n";
                ClusterNodes::cleanup();
                for (auto i = m.begin(); i != m.end();) i = i->second.available() ? std::next(i) : m.erase(i);
                break;
            case 6:
                log << "reset\n";
                ClusterNodes::reset();
                for (auto& x : m) x.second.off = true;
                break;
            case 7: {
                std::string t = g.pick(names.types);
                std::set<std::string> want, may;
                for (size_t i = g.idx(4); i; --i) want.insert(g.pick(names.attrs));
                for (auto& x : m)
                    if (x.first.second == t && x.second.available() && std::includes(x.second.attrs.begin(), x.second.attrs.end(), want.begin(), want.end())) may.insert(text(info(x.first, x.second)));
                log << "any " << t << " with " << want.size() << " attributes: " << may.size() << "\n";
                g.note(show);
                try {
                    std::string got = text(ClusterNodes::any(t, want));
                    CHECK(may.count(got), "any() gives " << got);
                }
                catch (Retry& e) {
                    CHECK(may.empty(), "any() finds no " << t << ": " << e.what());
                }
                break;
            }
            case 8: {
                Key k = names.key(g);
                log << "lookUp " << k.second << "@" << k.first << "\n";
                g.note(show);
                auto i = m.find(k);
                CHECK_EQ(ClusterNodes::available(k.second, k.first), i != m.end() && i->second.available(), "available");
                try {
                    std::string got = text(ClusterNodes::lookUp(k.second, k.first));
                    CHECK(i != m.end(), "a node that is not known: " << got);
                    CHECK_EQ(got, text(info(i->first, i->second)), "the node");
                }
                catch (Exception& e) {
                    CHECK(i == m.end(), "a node that is known: " << e.what());
                }
                std::string h = g.pick(names.hosts), t = g.pick(names.types);
                std::set<std::string> may;
                for (auto& x : m)
                    if (x.first.second == t && ip(x.second.host) == ip(h)) may.insert(text(info(x.first, x.second)));
                NodeInfo got;
                bool found = ClusterNodes::lookUpHost(t, h, got);
                CHECK_EQ(found, !may.empty(), "a " << t << " on " << h);
                if (found) CHECK(may.count(text(got)), "lookUpHost gives " << text(got));
                break;
            }
            case 9: {
                log << "send\n";
                Buffer b(1 << 20);
                MemoryStream s(b);
                ClusterNodes::send(s);
                kept.push_back({m, std::string(static_cast<const char*>(b.data()), s.position())});
                break;
            }
            default: {
                if (kept.empty()) break;
                size_t i = g.idx(kept.size());
                log << "receive what was sent " << i << "\n";
                MemoryStream s(kept[i].second.data(), kept[i].second.size());
                ClusterNodes::receive(s);
                m = kept[i].first;
                CHECK_EQ(s.position(), kept[i].second.size(), "what is read of a register");
            }
        }
        g.note(show);
        most = std::max(most, m.size());
        CHECK_EQ(registered(), text(m), "the nodes after operation " << n);
    }
    // the other views
    std::ostringstream o, list;
    {
        JSON j(o);
        ClusterNodes::json(j);
    }
    Value v = JSONParser::decodeString(o.str());
    CHECK_EQ(v.size(), m.size(), "nodes as JSON");
    for (size_t i = 0; i < size_t(v.size()); ++i) {
        Value e = v[int(i)];
        Key k{std::string(e["node"]), std::string(e["type"])};
        auto x = m.find(k);
        CHECK(x != m.end(), "a node as JSON: " << e);
        CHECK_EQ(std::string(e["host"]), x->second.host, "host");
        CHECK_EQ(long(e["port"]), x->second.port, "port");
        CHECK_EQ((long long)(e["lastSeen"]), (long long)(x->second.seen), "lastSeen");
        CHECK_EQ(bool(e["offLine"]), x->second.off, "offLine");
        CHECK_EQ(bool(e["available"]), x->second.available(), "available");
        std::set<std::string> a;
        for (size_t q = 0; q < size_t(e["attributes"].size()); ++q) a.insert(std::string(e["attributes"][int(q)]));
        CHECK(a == x->second.attrs, "attributes as JSON");
    }
    ClusterNodes::list(list);
    std::string l = list.str();
    CHECK_EQ(size_t(std::count(l.begin(), l.end(), '\n')), m.size(), "lines of the list");
    g.nontrivial(n > 5 && most > 2);
}

// several processes report at once: each of its own nodes
PBT(processes, 2) {
    Clocked clock;
    Register r = nodesRegister(g);
    size_t np  = 2 + g.idx(3);
    struct Op {
        int what;
        size_t i;
        Node n;
    };
    std::vector<std::vector<Op>> ops(np);
    Nodes m;
    Names names(g);
    std::ostringstream log;
    for (size_t p = 0; p < np; ++p) {
        Nodes mine;
        for (size_t k = 1 + g.idx(8); k; --k) {
            Op o{int(g.weighted({5, 1, 1})), g.idx(3), names.node(g)};
            ops[p].push_back(o);
            Key key{"p" + std::to_string(p) + "-" + std::to_string(o.i % 2), o.i == 2 ? "b" : "a"};
            log << p << ": " << (o.what == 0 ? "refresh " : o.what == 1 ? "offLine " : "forget ") << key.first << " " << key.second << "\n";
            if (o.what == 0) mine[key] = o.n;
            else if (o.what == 1) { if (mine.count(key)) mine[key].off = true; }
            else
                for (auto i = mine.begin(); i != mine.end();) i = i->first.first == key.first ? mine.erase(i) : std::next(i);
        }
        m.insert(mine.begin(), mine.end());
    }
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(np > 2);
    std::vector<pid_t> pids;
    int go[2];
    if (::pipe(go)) fail("pipe");
    for (size_t p = 0; p < np; ++p) {
        pid_t pid = ::fork();
        if (!pid) {
            int rc = 0;
            try {
                char c;
                ::close(go[1]);
                if (::read(go[0], &c, 1) < 0) ::_exit(3);
                for (auto& o : ops[p]) {
                    Key key{"p" + std::to_string(p) + "-" + std::to_string(o.i % 2), o.i == 2 ? "b" : "a"};
                    if (o.what == 0) {
                        ClusterNodes::refresh(info(key, o.n));
                        if (text(ClusterNodes::lookUp(key.second, key.first)) != text(info(key, o.n))) rc = 2;
                    }
                    else if (o.what == 1) ClusterNodes::offLine(info(key, Node()));
                    else ClusterNodes::forget(info(key, Node()));
                }
            }
            catch (...) { rc = 1; }
            ::_exit(rc);
        }
        pids.push_back(pid);
    }
    ::close(go[0]);
    ::close(go[1]);
    int bad = 0;
    for (auto p : pids) {
        int st = 0;
        while (::waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!bad) bad = st;
    }
    CHECK_EQ(bad, 0, "a process fails (status)");
    CHECK_EQ(registered(), text(m), "the nodes");
}

struct Disk {
    std::string node, type;
    bool off = false;
    time_t changed = 0;
};
using Disks = std::map<std::string, Disk>;

// the disk holds the path
bool holds(const std::string& disk, const std::string& path) {
    return path.compare(0, disk.size(), disk) == 0 && (path.size() == disk.size() || disk.back() == '/' || path[disk.size()] == '/');
}

PBT(disks, 4) {
    Clocked clock;
    Register r = disksRegister(g);
    std::vector<std::string> nodes, types, paths;
    for (size_t i = 0, n = 1 + g.idx(4); i < n; ++i) nodes.push_back("n" + std::to_string(i));
    for (size_t i = 0, n = 1 + g.idx(3); i < n; ++i) types.push_back("t" + std::to_string(i));
    std::set<std::string> uniq;
    for (size_t i = 0, n = 1 + g.idx(g.chance(10) ? NDISKS + 10 : 14); i < n; ++i)
        uniq.insert(std::string("/verif-none/") + (g.chance(80) ? "d" + std::to_string(i) : g.chance(50) ? "d1/" + g.str(2, "ab") : g.str(3, "ab1")));
    paths.assign(uniq.begin(), uniq.end());
    Disks m;
    std::set<std::string> ever;   // all paths the register has met since it was last empty
    std::vector<std::pair<Disks, std::string>> kept;
    std::ostringstream log;
    auto show = [&](std::ostream& o) { o << log.str(); };
    size_t n = 0, most = 0;
    for (; g.more(93); ++n) {
        fakeTime += g.idx(3);
        switch (g.weighted({8, 2, 1, 1, 4, 2, 2})) {
            case 0: {
                std::string node = g.pick(nodes), type = g.pick(types);
                std::vector<std::string> d;
                for (size_t k = g.idx(g.chance(10) ? paths.size() + 1 : 5); k; --k) d.push_back(g.pick(paths));
                log << "update " << node << " " << type << ":";
                for (auto& x : d) log << " " << x;
                log << "\n";
                g.note(show);
                Disks next = m;
                for (auto i = next.begin(); i != next.end();) i = i->second.node == node && i->second.type == type ? next.erase(i) : std::next(i);
                std::set<std::string> met = ever;
                for (auto& x : d) {
                    next[x] = Disk{node, type, false, fakeTime};
                    met.insert(x);
                }
                if (met.size() > NDISKS) {
                    g.label("full");
                    return;   // a full register gives up
                }
                ClusterDisks::update(node, type, d);
                m    = next;
                ever = met;
                break;
            }
            case 1: {
                NodeInfo i;
                i.node(g.pick(nodes));
                i.name(g.chance(80) ? "marsfs" : "mover");
                bool off = g.boolean();
                log << (off ? "offLine " : "forget ") << i.name() << " " << i.node() << "\n";
                if (off) ClusterDisks::offLine(i);
                else ClusterDisks::forget(i);
                if (i.name() == "marsfs")
                    for (auto j = m.begin(); j != m.end();) {
                        if (j->second.node != i.node()) ++j;
                        else if (off) {
                            j->second.off     = true;
                            j->second.changed = fakeTime;
                            ++j;
                        }
                        else j = m.erase(j);
                    }
                break;
            }
            case 2:
                log << "reset\n";
                if (g.boolean()) ClusterDisks::reset();
                else ClusterDisks::cleanup();
                m.clear();
                break;
            case 3: fakeTime += time_t(g.idx(1000)); break;
            case 4: {
                std::string p = g.pick(paths) + g.pick<std::string>({"", "/x", "/x/y", "0", "0/x", "/"});
                std::vector<std::string> of;
                for (auto& x : m)
                    if (holds(x.first, p)) of.push_back(x.second.node);
                log << "node of " << p << "\n";
                g.note(show);
                try {
                    std::string got = ClusterDisks::node(p);
                    CHECK_EQ(of.size(), 1u, "disks of " << p << " which is on " << got);
                    CHECK_EQ(got, of[0], "the node of " << p);
                }
                catch (Exception& e) {
                    CHECK(of.size() != 1, "the node of " << p << ", " << (of.empty() ? "" : of[0]) << ": " << e.what());
                }
                break;
            }
            case 5: {
                log << "send\n";
                Buffer b(1 << 20);
                MemoryStream s(b);
                ClusterDisks::send(s);
                kept.push_back({m, std::string(static_cast<const char*>(b.data()), s.position())});
                break;
            }
            default: {
                if (kept.empty()) break;
                size_t i = g.idx(kept.size());
                log << "receive what was sent " << i << "\n";
                MemoryStream s(kept[i].second.data(), kept[i].second.size());
                ClusterDisks::receive(s);
                m = kept[i].first;
                CHECK_EQ(s.position(), kept[i].second.size(), "what is read of a register");
                for (auto& x : m) ever.insert(x.first);
            }
        }
        g.note(show);
        most = std::max(most, m.size());
        for (auto& t : types) {
            std::multiset<std::string> want;
            time_t last = 0;
            for (auto& x : m)
                if (x.second.type == t) {
                    want.insert("marsfs://" + x.second.node + x.first);
                    last = std::max(last, x.second.changed);
                }
            std::vector<std::string> got{"before"};
            ClusterDisks::load(t, got);
            CHECK(!got.empty() && got[0] == "before", "load() loses what was there");
            std::multiset<std::string> have(got.begin() + 1, got.end());
            if (have != want) {
                std::ostringstream o;
                for (auto& x : have) o << x << " ";
                o << "not";
                for (auto& x : want) o << " " << x;
                fail("the disks for " + t + " after operation " + std::to_string(n) + ": " + o.str());
            }
            time_t l = ClusterDisks::lastModified(t);
            if (want.empty()) CHECK_EQ(l, time_t(0), "lastModified of no disks");
            else CHECK(l >= last && l <= fakeTime, "lastModified of " << t << ": " << l << ", last " << last << ", now " << fakeTime);
        }
    }
    std::ostringstream o, list;
    {
        JSON j(o);
        ClusterDisks::json(j);
    }
    Value v = JSONParser::decodeString(o.str());
    CHECK_EQ(v.size(), m.size(), "disks as JSON");
    for (size_t i = 0; i < size_t(v.size()); ++i) {
        Value e = v[int(i)];
        auto x  = m.find(std::string(e["path"]));
        CHECK(x != m.end(), "a disk as JSON: " << e);
        CHECK_EQ(std::string(e["node"]), x->second.node, "node of " << x->first);
        CHECK_EQ(std::string(e["type"]), x->second.type, "type of " << x->first);
        CHECK_EQ(bool(e["offLine"]), x->second.off, "offLine of " << x->first);
    }
    ClusterDisks::list(list);
    std::string l = list.str();
    CHECK_EQ(size_t(std::count(l.begin(), l.end(), '\n')), m.size(), "lines of the list");
    g.nontrivial(n > 5 && most > 2);
}

// a description of a node on a stream, and the login of two programs
PBT(info, 1) {
    NodeInfo a;
    Names names(g);
    Key k  = names.key(g);
    Node x = names.node(g);
    a      = info(k, x);
    a.user(g.ident());
    a.id(TaskID(g.uinteger(0, ~0ull)));
    a.task(long(g.integer(-1, 1000000)));
    Buffer b(1 << 16);
    size_t len;
    {
        MemoryStream s(b);
        s << a;
        s << std::string("end");
        len = s.position();
    }
    g.note([&](std::ostream& o) { o << text(a) << " user " << a.user() << " id " << a.id() << " task " << a.task(); });
    g.nontrivial(x.attrs.size() > 2);
    NodeInfo c;
    c.attribute("old");
    std::string end;
    MemoryStream s(static_cast<const void*>(b.data()), len);
    s >> c;
    s >> end;
    c.active(a.active());
    CHECK_EQ(text(c), text(a), "a node read again");
    CHECK_EQ(c.user(), a.user(), "user");
    CHECK_EQ(c.id(), a.id(), "id");
    CHECK_EQ(c.task(), a.task(), "task");
    CHECK_EQ(end, "end", "what follows a node");
    std::set<std::string> want;
    for (size_t i = g.idx(4); i; --i) want.insert(g.pick(names.attrs));
    CHECK_EQ(a.supportsAttributes(want), std::includes(x.attrs.begin(), x.attrs.end(), want.begin(), want.end()), "supportsAttributes");
}

}  // namespace
