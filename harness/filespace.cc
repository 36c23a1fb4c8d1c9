// C48: the file systems of a file space and the one that is selected, over mock file systems of generated sizes,
// states and faults, and histories of their configuration.

#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/BasePathName.h"
#include "eckit/filesystem/FileSpace.h"
#include "eckit/filesystem/FileSpaceStrategies.h"
#include "eckit/filesystem/FileSystem.h"
#include "eckit/filesystem/FileSystemSize.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/PathNameFactory.h"
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/io/cluster/ClusterDisks.h"
#include "eckit/log/JSON.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace pbt;
using namespace eckit;

PBT_INIT {
    static char home[] = "VERIF_HOME_DIR";
    ::setenv(home, "/proc/self/cwd", 1);  // the home is wherever the worker is
    eckit::Main::initialise(argc, argv, home);
    eckit::Log::info().reset();
    eckit::Log::warning().reset();
    eckit::Log::error().reset();
}

namespace {

using ull = unsigned long long;

struct Disk {
    bool up = true, measured = true, makes = true;
    ull total = 0, avail = 0;
    int mount = 0;
    int made  = 0;
    long used() const { return long(100. * (double(total - avail) / double(total))); }
    long free() const { return long(100. * (double(avail) / double(total))); }
};

std::map<std::string, Disk> disks;  // by path
std::string files;                  // "mock://file/<mount>..." is a path on a mount

Disk& at(const std::string& p) {
    auto i = disks.find(p);
    if (i == disks.end()) fail("no such disk: " + p);
    return i->second;
}

class Mock : public BasePathName {
    std::string p_;
    static std::string none_;

public:
    explicit Mock(const std::string& p) : p_(p) {}
    BasePathName* clone() const override { return new Mock(p_); }
    const char* localPath() const override { return p_.c_str(); }
    Length size() const override { NOTIMP; }
    time_t lastAccess() const override { NOTIMP; }
    time_t lastModified() const override { NOTIMP; }
    time_t created() const override { NOTIMP; }
    bool isDir() const override { NOTIMP; }
    bool isLink() const override { NOTIMP; }
    void rename(const BasePathName&) const override { NOTIMP; }
    void link(const BasePathName&) const override { NOTIMP; }
    bool sameAs(const BasePathName&) const override { NOTIMP; }
    BasePathName* mountPoint() const override {
        return new Mock("mock://mount" + std::to_string(at(p_).mount));
    }
    BasePathName* realName() const override { NOTIMP; }
    bool exists() const override { NOTIMP; }
    bool available() const override { return at(p_).up; }
    bool offsite() const override { NOTIMP; }
    void mkdir(short) const override {
        Disk& d = at(p_);
        d.made++;
        if (!d.makes) throw eckit::WriteError("no directory there");
    }
    void chmod(const FileMode&) const override { NOTIMP; }
    void unlink(bool) const override { NOTIMP; }
    void rmdir(bool) const override { NOTIMP; }
    void touch() const override { NOTIMP; }
    void children(std::vector<BasePathName*>&, std::vector<BasePathName*>&) const override { NOTIMP; }
    void match(std::vector<BasePathName*>&, bool) const override { NOTIMP; }
    void reserve(const Length&) const override { NOTIMP; }
    BasePathName* unique() const override { NOTIMP; }
    const char* type() const override { return "mock"; }
    BasePathName* dirName() const override { NOTIMP; }
    BasePathName* fullName() const override { NOTIMP; }
    BasePathName* orphanName() const override { NOTIMP; }
    BasePathName* checkClusterNode() const override { NOTIMP; }
    BasePathName* baseName(bool) const override { NOTIMP; }
    std::string extension() const override { NOTIMP; }
    std::string hash(const std::string&) const override { NOTIMP; }
    std::string clusterName() const override { return p_; }
    void syncParentDirectory() const override { NOTIMP; }
    std::string asString() const override { return p_; }
    void fileSystemSize(FileSystemSize& s) const override {
        const Disk& d = at(p_);
        if (!d.measured) throw eckit::FailedSystemCall("no size there");
        s.total     = d.total;
        s.available = d.avail;
    }
    DataHandle* fileHandle(bool) const override { NOTIMP; }
    DataHandle* partHandle(const OffsetList&, const LengthList&) const override { NOTIMP; }
    DataHandle* partHandle(const Offset&, const Length&) const override { NOTIMP; }
    const std::string& node() const override { return none_; }
    const std::string& path() const override { return p_; }
    void print(std::ostream& s) const override { s << p_; }
};
std::string Mock::none_;

struct Builder : PathNameBuilderBase {
    Builder() : PathNameBuilderBase("mock") {}
    BasePathName* make(const std::string& p, bool) const override { return new Mock(p); }
} builder;

Disk aDisk(Gen& g) {
    Disk d;
    d.up       = !g.chance(15);
    d.measured = !g.chance(12);
    d.mount    = int(g.idx(4));
    switch (g.weighted({4, 3, 2, 2, 1})) {
        case 0:
            d.total = ull(g.range(1, 1000));
            d.avail = ull(g.range(0, long(d.total)));
            break;
        case 1:  // large ones
            d.total = ull(g.range(1, 1L << 60));
            d.avail = ull(g.range(0, long(d.total)));
            break;
        case 2:  // nearly full, about the limit
            d.total = ull(g.range(1, 100)) * 1000;
            d.avail = d.total / 1000 * ull(g.range(0, 25));
            break;
        case 3:  // nearly the same
            d.total = 1000000;
            d.avail = 500000 + ull(g.range(0, 100));
            break;
        default:
            d.total = 0;
            d.avail = 0;
    }
    return d;
}

struct Set {
    std::vector<PathName> paths;
    std::vector<const Disk*> d;
    Set(Gen& g, size_t max) {
        disks.clear();
        size_t n = 1 + g.idx(max);
        for (size_t i = 0; i < n; ++i) {
            std::string p = "mock://d" + std::to_string(i);
            disks[p]      = aDisk(g);
            paths.push_back(PathName(p));
        }
        for (auto& p : paths) d.push_back(&disks[p.asString()]);
        g.note([&](std::ostream& o) {
            for (auto* x : d)
                o << "(" << x->avail << " of " << x->total << (x->up ? "" : " down") << (x->measured ? "" : " fails") << ") ";
        });
    }
    size_t index(const PathName& p) const {
        for (size_t i = 0; i < paths.size(); ++i)
            if (&paths[i] == &p) return i;
        fail("what was selected is none of the file systems");
        return 0;
    }
    bool ok(size_t i) const { return d[i]->up && d[i]->measured; }
    std::vector<size_t> candidates() const {
        std::vector<size_t> r;
        for (size_t i = 0; i < d.size(); ++i)
            if (ok(i) && d[i]->total > 0 && d[i]->used() <= 99) r.push_back(i);
        return r;
    }
};

const char* const STRATEGIES[] = {"leastUsed",   "leastUsedPercent",      "roundRobin",      "weightedRandom", "pureRandom",
                                  "weightedRandomPercent", "binnedLeastUsed", "other"};

// the weights of a random strategy; empty: it is no random one
std::vector<double> weights(const Set& s, const std::string& strategy) {
    std::vector<double> w(s.d.size(), 0.);
    auto c = s.candidates();
    ull lo = ~0ULL, hi = 0;
    for (size_t i : c) lo = std::min(lo, s.d[i]->avail), hi = std::max(hi, s.d[i]->avail);
    for (size_t i : c)
        w[i] = strategy == "pureRandom"              ? 1.
               : strategy == "weightedRandom"        ? double(s.d[i]->avail)
               : strategy == "weightedRandomPercent" ? double(s.d[i]->free())
                                                     : (s.d[i]->avail >= hi - (hi - lo) / 20 ? 1. : 0.);
    return w;
}

bool isRandom(const std::string& s) {
    return s == "pureRandom" || s == "weightedRandom" || s == "weightedRandomPercent" || s == "binnedLeastUsed";
}

void verdict(const Set& s, const std::string& strategy, size_t k) {
    CHECK(s.ok(k), strategy << " selected " << k << ", which is not available");
    auto c = s.candidates();
    bool fallback = c.empty();
    if ((strategy == "leastUsed" || strategy == "other") || (strategy != "leastUsedPercent" && fallback)) {
        for (size_t i = 0; i < s.d.size(); ++i)
            if (s.ok(i)) CHECK(s.d[i]->avail <= s.d[k]->avail, strategy << " selected " << k << ", " << i << " has more space");
        return;
    }
    if (strategy == "leastUsedPercent") {
        CHECK(s.d[k]->total > 0, "selected one of no size");
        for (size_t i = 0; i < s.d.size(); ++i)
            if (s.ok(i) && s.d[i]->total) CHECK(s.d[i]->free() <= s.d[k]->free(), strategy << " selected " << k << ", " << i << " is less used");
        return;
    }
    CHECK(std::find(c.begin(), c.end(), k) != c.end(), strategy << " selected " << k << ", which is full");
    if (isRandom(strategy)) {
        auto w     = weights(s, strategy);
        double sum = 0;
        for (double x : w) sum += x;
        if (sum > 0) CHECK(w[k] > 0 || k == c[0], strategy << " selected " << k << ", whose share is none");
    }
}

}  // namespace

PBT(select, 9) {
    Set s(g, 8);
    std::string strategy = STRATEGIES[g.idx(8)];
    g.label(strategy);
    size_t draws = isRandom(strategy) ? 1 + g.size(30) : 1 + g.idx(3);
    bool any     = false;
    for (size_t i = 0; i < s.d.size(); ++i)
        if (s.ok(i) && (strategy != "leastUsedPercent" || s.d[i]->total)) any = true;
    auto direct = [&]() -> const PathName& {
        using F = FileSpaceStrategies;
        if (strategy == "leastUsed") return F::leastUsed(s.paths);
        if (strategy == "leastUsedPercent") return F::leastUsedPercent(s.paths);
        if (strategy == "roundRobin") return F::roundRobin(s.paths);
        if (strategy == "weightedRandom") return F::weightedRandom(s.paths);
        if (strategy == "pureRandom") return F::pureRandom(s.paths);
        if (strategy == "weightedRandomPercent") return F::weightedRandomPercent(s.paths);
        if (strategy == "binnedLeastUsed") return F::binnedLeastUsed(s.paths);
        return F::selectFileSystem(s.paths, strategy);
    };
    for (size_t n = 0; n < draws; ++n) {
        const PathName* p = nullptr;
        bool retry        = false;
        try {
            p = g.boolean() ? &FileSpaceStrategies::selectFileSystem(s.paths, strategy) : &direct();
        }
        catch (Retry&) {
            retry = true;
        }
        CHECK(retry == !any, strategy << (retry ? ": nothing was selected" : ": something was selected"));
        if (p) verdict(s, strategy, s.index(*p));
    }
    g.nontrivial(s.d.size() > 2 && any && s.candidates().size() < s.d.size());
}

// each one in its turn
PBT(rounds, 3) {
    Set s(g, 8);
    auto c = s.candidates();
    if (c.empty()) discard();
    std::vector<size_t> seen;
    size_t turns = 1 + g.idx(4);
    for (size_t i = 0; i < turns * c.size(); ++i) seen.push_back(s.index(FileSpaceStrategies::selectFileSystem(s.paths, "roundRobin")));
    size_t k = size_t(std::find(c.begin(), c.end(), seen[0]) - c.begin());
    for (size_t i = 0; i < seen.size(); ++i)
        CHECK(seen[i] == c[(k + i) % c.size()], "turn " << i << ": " << seen[i] << ", and not " << c[(k + i) % c.size()]);
    g.nontrivial(c.size() > 2 && c.size() < s.d.size());
}

// shares of random strategies (seven standard deviations: once in 10^11 by chance)
PBT(shares, 1) {
    Set s(g, 6);
    auto c = s.candidates();
    if (c.empty()) discard();
    std::string strategy = STRATEGIES[3 + g.idx(4)];
    g.label(strategy);
    auto w     = weights(s, strategy);
    double sum = 0;
    for (double x : w) sum += x;
    if (sum <= 0) discard();
    const size_t N = 400;
    std::vector<size_t> n(s.d.size(), 0);
    for (size_t i = 0; i < N; ++i) n[s.index(FileSpaceStrategies::selectFileSystem(s.paths, strategy))]++;
    for (size_t i = 0; i < n.size(); ++i) {
        double p = w[i] / sum, d = 7 * std::sqrt(double(N) * p * (1 - p)) + 3;
        CHECK(std::abs(double(n[i]) - double(N) * p) <= d, strategy << " selected " << i << " " << n[i] << " times of " << N << ", its share is " << p);
    }
    g.nontrivial(c.size() > 1);
}

// histories of a file space and its configuration
PBT(space, 6) {
    static unsigned serial = 0;
    disks.clear();
    const std::string dir = g.freshDir();
    if (::chdir(dir.c_str())) fail("chdir");
    for (const char* d : {"etc", "etc/disks", "etc/cluster"}) ::mkdir(d, 0777);
    const std::string name = "space" + std::to_string(++serial), file = "etc/disks/" + name;

    size_t pool = 1 + g.idx(6);
    std::vector<std::string> all;
    for (size_t i = 0; i < pool; ++i) {
        all.push_back("mock://d" + std::to_string(i));
        disks[all.back()]       = aDisk(g);
        disks[all.back()].makes = !g.chance(10);
    }
    std::vector<std::string> configured, loaded;  // the ones of the file, the ones of the space
    bool present = false, loadedOnce = false;
    time_t stamp = 1000000, loadedStamp = 0;

    auto write = [&] {
        configured.clear();
        std::ofstream o(file);
        size_t n = g.size(6);
        for (size_t i = 0; i < n; ++i) {
            switch (g.idx(4)) {
                case 0: o << "\n"; break;
                case 1: o << "#" << all[g.idx(pool)] << "\n"; break;
                case 2: o << "  "; break;
                default: break;
            }
            configured.push_back(all[g.idx(pool)]);
            o << configured.back() << (g.boolean() ? "\n" : " ");
        }
        o.close();
        stamp += time_t(g.range(1, 1000)) * (g.chance(20) ? -1 : 1);
        struct timeval t[2] = {{stamp, 0}, {stamp, 0}};
        ::utimes(file.c_str(), t);
        present = true;
    };
    if (g.chance(85)) write();
    CHECK(FileSpace::exists(name) == present, "exists()");

    auto reload = [&] {  // what a use of the space does
        time_t now = present ? stamp : 1;
        if (loadedOnce && now == loadedStamp) return false;
        loadedOnce  = true;
        loadedStamp = now;
        loaded.clear();
        if (present)
            for (auto& p : configured)
                if (!disks[p].up || disks[p].makes) loaded.push_back(p);
        return true;
    };
    std::map<std::string, int> made;
    auto makes = [&](bool loads) {
        if (loads && present)
            for (auto& p : configured)
                if (disks[p].up) made[p]++;
        for (auto& p : all) CHECK(disks[p].made == made[p], "mkdir(" << p << ") " << disks[p].made << " times, and not " << made[p]);
    };

    bool l = reload();
    const FileSpace& s = FileSpace::lookUp(name);
    makes(l);
    CHECK(&s == &FileSpace::lookUp(name), "another space by that name");
    CHECK(s.name() == name, "name");
    auto same = [&] {
        std::vector<std::string> r;
        for (auto& p : s.fileSystems()) r.push_back(p.asString());
        CHECK(r == loaded, "the file systems are " << r.size() << ", and not " << loaded.size());
    };
    same();

    size_t ops = 0;
    while (g.more(88) && ops < 60) {
        ++ops;
        switch (g.idx(7)) {
            case 0: write(); break;
            case 1: {  // a disk changes
                Disk& d = disks[all[g.idx(pool)]];
                int m   = d.made;
                Disk n  = aDisk(g);
                n.made  = m;
                n.makes = !g.chance(10);
                d       = n;
                break;
            }
            case 2:
            case 3: {  // owner of a path
                bool loads    = reload();
                std::string p = "mock://path";
                disks[p]      = Disk();
                disks[p].mount = int(g.idx(4));
                bool owned    = false;
                for (auto& x : loaded)
                    if (disks[x].up && disks[x].mount == disks[p].mount) owned = true;
                CHECK(s.owns(PathName(p)) == owned, "owns() a path on mount " << disks[p].mount);
                makes(loads);
                if (owned) {
                    const PathName& f = s.sameFileSystem(PathName(p));
                    const Disk& d     = at(f.asString());
                    CHECK(d.up && d.mount == disks[p].mount, "sameFileSystem() is " << f);
                    CHECK(std::find(loaded.begin(), loaded.end(), f.asString()) != loaded.end(), "sameFileSystem() is of another space");
                }
                g.label(owned ? "owned" : "not owned");
                break;
            }
            case 4: {  // the one for a path: another if none is on its mount
                bool loads    = reload();
                std::string p = "mock://path";
                disks[p]      = Disk();
                disks[p].mount = 9;
                bool any      = false;
                for (auto& x : loaded) any = any || (disks[x].up && disks[x].measured);
                bool retry = false;
                std::string f;
                try {
                    f = s.sameFileSystem(PathName(p)).asString();
                }
                catch (Retry&) {
                    retry = true;
                }
                makes(loads);
                CHECK(retry == !any, "sameFileSystem() of a path elsewhere " << (retry ? "found nothing" : "found something"));
                for (auto& x : loaded)
                    if (any && disks[x].up && disks[x].measured) CHECK(disks[x].avail <= disks[f].avail, x << " has more space than " << f);
                break;
            }
            case 5: {
                bool loads           = reload();
                std::string strategy = STRATEGIES[g.idx(8)];
                bool dflt            = g.boolean();
                if (dflt) strategy = "leastUsed";
                bool any = false;
                for (auto& x : loaded) any = any || (disks[x].up && disks[x].measured && (strategy != "leastUsedPercent" || disks[x].total));
                bool retry = false;
                std::string f;
                try {
                    f = (dflt ? s.selectFileSystem() : s.selectFileSystem(strategy)).asString();
                }
                catch (Retry&) {
                    retry = true;
                }
                makes(loads);
                CHECK(retry == !any, "select " << strategy << (retry ? " found nothing" : " found something"));
                if (any) {
                    CHECK(std::find(loaded.begin(), loaded.end(), f) != loaded.end(), "selected " << f << ", which is not in the space");
                    CHECK(disks[f].up && disks[f].measured, "selected " << f << ", which is not available");
                }
                break;
            }
            default: {  // the file is lost
                if (!g.chance(30)) break;
                ::unlink(file.c_str());
                present = false;
            }
        }
        CHECK(FileSpace::exists(name) == present, "exists()");
        same();
    }
    g.nontrivial(ops > 4 && configured.size() > 1);
}

// a single file system
PBT(usage, 2) {
    disks.clear();
    std::string p = "mock://d";
    disks[p]      = aDisk(g);
    FileSystem f{PathName(p)};
    ull total = 0, avail = 0;
    size_t ops = 0;
    for (;;) {
        const Disk& d = disks[p];
        bool off      = !d.up || !d.measured;
        if (!off) total = d.total, avail = d.avail;
        CHECK(f.offLine() == off, "offLine()");
        CHECK(f.total() == total && f.avail() == avail, "sizes " << f.total() << " " << f.avail() << ", and not " << total << " " << avail);
        long u = f.usage();
        if (!total) CHECK(u == 0, "usage of nothing");
        else CHECK(std::abs(double(u) - 100. * double(total - avail) / double(total)) <= 0.5000001, "usage " << u);
        std::ostringstream o, e;
        JSON j(o);
        j << f;
        e << "{\"offline\":" << (off ? "true" : "false") << ",\"total\":" << total << ",\"available\":" << avail << "}";
        CHECK(o.str() == e.str(), "as JSON " << o.str() << ", and not " << e.str());
        if (!g.more(75)) break;
        ++ops;
        disks[p] = aDisk(g);
        f.update();
    }
    g.nontrivial(ops > 2);
}
