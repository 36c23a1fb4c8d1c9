// C36: searching the points of a grid.
#include "geogrid.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geo/Search.h"
#include "eckit/geo/Figure.h"
#include "eckit/geo/projection/LonLatToXYZ.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/sem.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// a name space of our own for the semaphores, when there can be one
static bool ownIPC = false;
PBT_INIT {
    eckit::Main::initialise(argc, argv);
    ownIPC = ::unshare(CLONE_NEWUSER | CLONE_NEWIPC) == 0;
}

//---------------------------------------------------------------------------------------------------------------------
// the crash: the process ends before the n-th of these calls

static int crashAt = -1, calls = 0;
static void point() {
    if (crashAt >= 0 && ++calls == crashAt) _exit(99);
}
template <class F>
static F real(const char* n) {
    return reinterpret_cast<F>(::dlsym(RTLD_NEXT, n));
}
extern "C" {
ssize_t write(int fd, const void* b, size_t n) {
    static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
    point();
    return r(fd, b, n);
}
int rename(const char* a, const char* b) noexcept {
    static auto r = real<int (*)(const char*, const char*)>("rename");
    point();
    return r(a, b);
}
int semop(int id, struct sembuf* s, size_t n) noexcept {
    static auto r = real<int (*)(int, struct sembuf*, size_t)>("semop");
    point();
    return r(id, s, n);
}
void* mmap(void* a, size_t l, int p, int f, int fd, off_t o) noexcept {
    static auto r = real<void* (*)(void*, size_t, int, int, int, off_t)>("mmap");
    if (fd >= 0) point();
    return r(a, l, p, f, fd, o);
}
}

namespace {

struct V {
    double x, y, z;
};

double R() {  // of the figure the points are on unless another is asked for
    static const double r = projection::LonLatToXYZ().figure().R();
    return r;
}

double EPS = 0;

V xyz(const P& p) {
    const double r = M_PI / 180.;
    return {R() * std::cos(p.lat * r) * std::cos(p.lon * r), R() * std::cos(p.lat * r) * std::sin(p.lon * r), R() * std::sin(p.lat * r)};
}

double dist(const V& a, const V& b) {
    return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
}

struct Query {
    V at;
    size_t k;
    double radius;
};


void answers(const Search& search, const Model& m, const std::vector<V>& pts, const std::vector<Query>& qs) {
    const size_t n = pts.size();
    for (const auto& q : qs) {
        const Search::PointType at{q.at.x, q.at.y, q.at.z};
        std::ostringstream os;
        os << "near (" << num(q.at.x) << ", " << num(q.at.y) << ", " << num(q.at.z) << ")";
        const auto where = os.str();
        std::vector<double> all;
        for (const auto& p : pts) all.push_back(dist(p, q.at));
        auto sorted = all;
        std::sort(sorted.begin(), sorted.end());

        auto is = [&](const Search::PointValueType& v, const char* what) {
            CHECK(v.payload() < n, what << " " << where << ": index " << v.payload() << " of " << n);
            const auto& p = pts[v.payload()];
            CHECK(dist(p, {v.point().x(0), v.point().x(1), v.point().x(2)}) < EPS,
                  what << " " << where << ": the point of index " << v.payload() << " is not point " << v.payload() << " of the grid, " << show(m.points[v.payload()]));
            return all[v.payload()];
        };

        CHECK(std::abs(is(search.closestPoint(at), "closestPoint") - sorted[0]) < EPS, "closestPoint " << where << ": there is a closer point");

        std::vector<Search::PointValueType> r;
        search.closestNPoints(at, q.k, r);
        CHECK_EQ(r.size(), std::min(q.k, n), "closestNPoints " << q.k << " " << where << " of " << n << ": number of points");
        std::vector<size_t> seen;
        for (size_t i = 0; i < r.size(); ++i) {
            double d = is(r[i], "closestNPoints");
            CHECK(std::abs(d - sorted[i]) < EPS, "closestNPoints " << q.k << " " << where << ": point " << i << " is at " << num(d) << ", expected " << num(sorted[i]));
            seen.push_back(r[i].payload());
        }
        std::sort(seen.begin(), seen.end());
        CHECK(std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "closestNPoints " << where << ": a point twice");

        search.closestWithinRadius(at, q.radius, r);
        std::vector<int> in(n, 0);
        for (const auto& v : r) {
            double d = is(v, "closestWithinRadius");
            CHECK(d < q.radius + EPS, "closestWithinRadius " << num(q.radius) << " " << where << ": a point at " << num(d));
            CHECK(!in[v.payload()]++, "closestWithinRadius " << where << ": a point twice");
        }
        for (size_t i = 0; i < n; ++i) {
            CHECK(in[i] || all[i] > q.radius - EPS, "closestWithinRadius " << num(q.radius) << " " << where << ": misses point " << i << " at " << num(all[i]));
        }
    }
}

struct Run {
    size_t grid   = 0;
    int loader    = 0;
    bool fast     = true;
    int crash     = -1;
    int processes = 1;
};

const char* LOADER[] = {"memory", "mapped-cache-file", "mapped-anonymous-memory"};

// the processes of a run; empty, or what one of them found wrong
std::string go(const Run& run, const Model& m, const std::vector<V>& pts, const std::vector<Query>& qs, const std::string& dir, bool* crashed) {
    std::vector<std::pair<pid_t, int>> kids;
    int gate[2];
    if (::pipe(gate) != 0) pbt::fail("pipe");
    std::cout.flush();
    for (int k = 0; k < run.processes; ++k) {
        int p[2];
        if (::pipe(p) != 0) pbt::fail("pipe");
        pid_t pid = ::fork();
        if (pid == 0) {
            ::close(p[0]);
            ::close(gate[1]);
            std::string wrong;
            try {
                ::setenv("ECKIT_GEO_CACHE_PATH", dir.c_str(), 1);
                ::setenv("ECKIT_GEO_CACHING", "1", 1);
                ::setenv("ECKIT_GEO_SEARCH_FAST_BUILD", run.fast ? "1" : "0", 1);
                GridPtr grid(GridFactory::make_from_string(m.spec));
                char c;
                if (run.processes > 1 && ::read(gate[0], &c, 1) < 0) _exit(97);
                if (k == 0) crashAt = run.crash;
                spec::Custom s;
                s.set("eckit-geo-search-trees", std::string(LOADER[run.loader]));
                const Search search(*grid, s);
                crashAt = -1;
                answers(search, m, pts, qs);
                wrong = "ok";
            }
            catch (std::exception& e) {
                crashAt = -1;
                wrong   = e.what();
                if (wrong.empty()) wrong = "an exception";
            }
            catch (const pbt::Failure& f) {
                crashAt = -1;
                wrong   = f.msg;
            }
            catch (...) {
                crashAt = -1;
                wrong   = "an exception";
            }
            if (::write(p[1], wrong.data(), wrong.size()) < 0) _exit(97);
            _exit(0);
        }
        ::close(p[1]);
        kids.push_back({pid, p[0]});
    }
    ::close(gate[0]);
    ::close(gate[1]);
    std::string wrong;
    for (size_t k = 0; k < kids.size(); ++k) {
        std::string out;
        char b[4096];
        ssize_t n;
        while ((n = ::read(kids[k].second, b, sizeof b)) > 0) out.append(b, size_t(n));
        ::close(kids[k].second);
        int status;
        ::waitpid(kids[k].first, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 99) {
            *crashed = true;
            continue;
        }
        if (!WIFEXITED(status) || WEXITSTATUS(status)) out = "the process ended with status " + std::to_string(status);
        if (out != "ok" && wrong.empty()) wrong = "process " + std::to_string(k) + ": " + out;
    }
    return wrong;
}

void forget(const std::string& dir) {  // the semaphores of the lock files
    if (!ownIPC) return;
    std::string cmd = dir + "/eckit/geo/search/2";
    PathName d(cmd);
    if (!d.exists()) return;
    std::vector<PathName> files, dirs;
    d.children(files, dirs);
    for (const auto& f : files) {
        if (f.asString().size() < 5 || f.asString().substr(f.asString().size() - 5) != ".lock") continue;
        key_t k = ::ftok(f.localPath(), 1);
        if (k == key_t(-1)) continue;
        int id = ::semget(k, 1, 0666);
        if (id >= 0) ::semctl(id, 0, IPC_RMID);
    }
}

}  // namespace

PBT(search, 1) {
    EPS = 1e-8 * R();
    const auto dir = g.freshDir() + "/cache";
    std::vector<Model> grids;
    const size_t ngrids = 1 + g.choice(1);
    for (size_t i = 0; i < ngrids; ++i) {
        Model m = aGrid(g);
        if (m.points.empty() || m.thin || m.points.size() > 2000) discard();
        if (i && g.chance(30) && m.order != grids[0].order && grids[0].healpix) g.label("same grid, other order");
        grids.push_back(m);
    }
    if (ngrids == 2 && grids[0].healpix && g.chance(50)) {
        grids[1] = Model(grids[0]);
        bool nested = grids[0].order == "ring";
        grids[1].order = nested ? "nested" : "ring";
        grids[1].spec  = "{grid: H" + std::to_string(grids[0].nside) + (nested ? ", order: nested}" : "}");
        if (nested && (grids[0].nside & (grids[0].nside - 1))) discard();
        grids[1].points.clear();
        if (nested) for (size_t i = 0; i < 12 * grids[0].nside * grids[0].nside; ++i) grids[1].points.push_back(healpix_nested(grids[0].nside, i));
        else grids[1].points = healpix_ring(grids[0].nside);
        g.label("both orders");
    }
    std::vector<std::vector<V>> pts(ngrids);
    for (size_t i = 0; i < ngrids; ++i) for (const auto& p : grids[i].points) pts[i].push_back(xyz(p));

    std::vector<Query> qs;
    const size_t nq = 1 + g.size(12);
    for (size_t i = 0; i < nq; ++i) {
        Query q;
        const auto& of = pts[g.idx(ngrids)];
        switch (g.weighted({3, 2, 1, 1})) {
            case 0: q.at = xyz({g.real(-180, 360), g.real(-90, 90)}); break;
            case 1: q.at = of[g.idx(of.size())]; break;
            case 2: {
                V a = of[g.idx(of.size())], b = of[g.idx(of.size())];
                q.at = {(a.x + b.x) / 2, (a.y + b.y) / 2, (a.z + b.z) / 2};
                break;
            }
            default: q.at = {R() * g.real(-1.5, 1.5), R() * g.real(-1.5, 1.5), R() * g.real(-1.5, 1.5)};
        }
        q.k      = 1 + g.size(of.size() + 2);
        q.radius = R() * (g.chance(20) ? g.real(0, 3.5) : g.real(0, 0.5));
        qs.push_back(q);
    }

    std::vector<Run> runs;
    const size_t nr = 1 + g.choice(4);
    for (size_t i = 0; i < nr; ++i) {
        Run r;
        r.grid      = g.idx(ngrids);
        r.loader    = int(g.weighted({1, 4, 1}));
        r.fast      = !g.chance(30);
        r.crash     = r.loader == 1 && g.chance(30) ? int(1 + g.choice(9)) : -1;
        r.processes = r.loader == 1 && g.chance(30) ? int(2 + g.choice(2)) : 1;
        runs.push_back(r);
    }

    std::string log;
    auto note = [&] { g.note([&](std::ostream& o) {
        for (const auto& m : grids) o << m.spec.substr(0, 400) << " (" << m.points.size() << " points); ";
        o << qs.size() << " queries; runs:" << log;
    }); };
    bool shared = false;
    std::vector<int> files(ngrids, 0);
    for (const auto& r : runs) {
        log += std::string(" [grid ") + std::to_string(r.grid) + " " + LOADER[r.loader] + (r.fast ? "" : " insert") + (r.crash > 0 ? " crash at " + std::to_string(r.crash) : "") + (r.processes > 1 ? " x" + std::to_string(r.processes) : "") + "]";
        note();
        if (r.loader == 1 && (files[r.grid]++ || r.processes > 1)) shared = true;
        bool crashed = false;
        auto wrong   = go(r, grids[r.grid], pts[r.grid], qs, dir, &crashed);
        if (crashed) g.label("crashed");
        CHECK(wrong.empty(), "grid " << r.grid << ", loader " << LOADER[r.loader] << ": " << wrong);
    }
    forget(dir);
    g.nontrivial(grids[0].points.size() > 8 && (shared || ngrids > 1));
}
