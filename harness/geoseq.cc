// C49: Gaussian latitudes and weights, rows of reduced grids, spaced values and the memory they are kept in, against
// their definitions.

#include <algorithm>
#include <atomic>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Exceptions.h"
#include "eckit/geo/Grid.h"
#include "eckit/geo/cache/MemoryCache.h"
#include "eckit/geo/cache/RecordCache.h"
#include "eckit/geo/grid/SphericalHarmonics.h"
#include "eckit/geo/util.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace pbt;
using namespace eckit;
using namespace eckit::geo;

PBT_INIT {
    eckit::Main::initialise(argc, argv);
}

namespace {

using ld = long double;

// P_n(x) and its derivative
void legendre(size_t n, ld x, ld& p, ld& d) {
    ld p0 = 1, p1 = x;
    if (n == 0) {
        p = 1, d = 0;
        return;
    }
    for (size_t k = 2; k <= n; ++k) {
        ld p2 = ((2 * ld(k) - 1) * x * p1 - (ld(k) - 1) * p0) / ld(k);
        p0    = p1;
        p1    = p2;
    }
    p = p1;
    d = ld(n) * (x * p1 - p0) / (x * x - 1);
}

size_t aNumber(Gen& g) {
    return g.thorough() ? 1 + g.size(700) : 1 + g.size(g.chance(10) ? 320 : 120);
}

size_t smooth(size_t n) {
    for (size_t f : {2, 3, 5})
        while (n > 1 && n % f == 0) n /= f;
    return n;
}

void rowsOf(const pl_type& pl, size_t N) {
    CHECK(pl.size() == 2 * N, pl.size() << " rows");
    for (size_t i = 0; i < N; ++i) CHECK(pl[i] == pl[2 * N - 1 - i], "row " << i << " unlike the one across the equator");
}

}  // namespace

PBT(gauss, 4) {
    const size_t N = aNumber(g);
    bool up        = g.boolean();
    g.note([&](std::ostream& o) { o << "N=" << N << (up ? " increasing" : ""); });
    if (g.chance(20)) cache::MemoryCache::total_purge();
    const auto lats = util::gaussian_latitudes(N, up);
    CHECK(lats.size() == 2 * N, lats.size() << " latitudes");
    for (size_t i = 0; i < 2 * N; ++i) {
        CHECK(lats[i] > -90 && lats[i] < 90, "latitude " << i);
        CHECK(lats[i] == -lats[2 * N - 1 - i], "no symmetry at " << i);
        if (i) CHECK(up ? lats[i] > lats[i - 1] : lats[i] < lats[i - 1], "no order at " << i);
    }
    const auto& other = util::gaussian_latitudes(N, !up);
    CHECK(std::equal(lats.begin(), lats.end(), other.rbegin(), other.rend()), "the other order differs");

    bool weighted = g.chance(70);
    std::vector<double> w;
    ld sum = 0, wsum = 0;
    if (weighted) {
        w = util::gaussian_quadrature_weights(N);
        CHECK(w.size() == 2 * N, w.size() << " weights");
        for (double x : w) wsum += x;
    }
    for (size_t i = 0; i < N; ++i) {
        ld phi = ld(lats[i]) * M_PIl / 180, x = sinl(phi), p, d;
        legendre(2 * N, x, p, d);
        ld dphi = p / (d * cosl(phi)) * 180 / M_PIl;  // from the nearest root, in degrees
        CHECK(std::abs(double(dphi)) < 1e-11, "latitude " << i << " is " << double(dphi) << " off a root");
        if (weighted) {
            x -= p / d;
            legendre(2 * N, x, p, d);
            ld e = 2 / ((1 - x * x) * d * d) / 2 * wsum;
            CHECK(std::abs(double((w[i] - e) / e)) < 1e-8, "weight " << i << " is " << w[i] << ", and not " << double(e));
            CHECK(w[i] == w[2 * N - 1 - i], "weights are not symmetric");
            sum += e;
        }
    }
    if (weighted) {
        // even powers up to the degree of exactness
        for (size_t t = 0; t < 3; ++t) {
            size_t k = 2 * g.idx(std::min<size_t>(2 * N, 60));
            ld s     = 0;
            for (size_t i = 0; i < 2 * N; ++i) s += w[i] * powl(sinl(ld(lats[i]) * M_PIl / 180), ld(k));
            ld e = 1 / ld(k + 1);
            CHECK(std::abs(double(s - e)) < 1e-10, "the mean of x^" << k << " is " << double(s) << ", and not " << double(e));
        }
    }
    g.nontrivial(N > 3);
}

PBT(rows, 3) {
    static const size_t KNOWN[] = {16, 24, 32, 48, 64, 80, 96, 128, 160, 200, 256, 320, 400, 512, 576, 640, 800, 1024, 1280, 1600, 2000, 4000, 8000};
    static const std::map<size_t, uint64_t> SUMS = {
        {16, 15734087011597089975ULL},
        {24, 17665840919431572071ULL},
        {32, 9732585365752917332ULL},
        {48, 1461810122481755285ULL},
        {64, 16213257184810066665ULL},
        {80, 14437460465226715324ULL},
        {96, 7490064152035179324ULL},
        {128, 14984392980185232ULL},
        {160, 2999184646683670638ULL},
        {200, 15308775121715810381ULL},
        {256, 411751291635152759ULL},
        {320, 9060902121882195159ULL},
        {400, 16238650411129665338ULL},
        {512, 6128436363506099449ULL},
        {576, 16755882904001283060ULL},
        {640, 15795519083694772948ULL},
        {800, 12553099246326542518ULL},
        {1024, 8747287161354839690ULL},
        {1280, 13613832312876541678ULL},
        {1600, 2945177672695553109ULL},
        {2000, 6951958521967976433ULL},
        {4000, 8939410937012160798ULL},
        {8000, 13386543839629526639ULL}
    };
    if (g.chance(20)) cache::MemoryCache::total_purge();
    if (g.boolean()) {
        size_t N        = 1 + g.size(3000);
        const auto& pl  = util::reduced_octahedral_pl(N);
        rowsOf(pl, N);
        for (size_t i = 0; i < N; ++i) CHECK(pl[i] == long(20 + 4 * i), "row " << i << " of O" << N);
        g.nontrivial(N > 2);
        return;
    }
    size_t N = g.chance(80) ? KNOWN[g.idx(sizeof(KNOWN) / sizeof(*KNOWN))] : 1 + g.size(3000);
    g.note([&](std::ostream& o) { o << "N" << N; });
    bool known = std::find(std::begin(KNOWN), std::end(KNOWN), N) != std::end(KNOWN);
    CHECK(util::reduced_classical_pl_known(N) == known, "known: " << N);
    if (!known) {
        CHECK(throws([&] { (void)util::reduced_classical_pl(N); }), "rows of an unknown N" << N);
        return;
    }
    const auto& pl = util::reduced_classical_pl(N);
    rowsOf(pl, N);
    for (size_t i = 0; i < N; ++i) {
        CHECK(pl[i] > 0 && (!i || pl[i] >= pl[i - 1]), "row " << i << " of N" << N << " is shorter than the one towards the pole");
        CHECK(smooth(size_t(pl[i])) == 1, "row " << i << " of N" << N << " has " << pl[i] << " points");
        CHECK(pl[i] <= long(4 * N), "row " << i << " of N" << N << " is too long");
    }
    CHECK(pl[N - 1] == long(4 * N), "the row at the equator");
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < N; ++i) h = (h ^ uint64_t(pl[i])) * 1099511628211ULL;
    auto e = SUMS.find(N);
    CHECK(e != SUMS.end() && e->second == h, "the rows of N" << N << " are other ones than those in use: " << h << "ULL");
    g.nontrivial(true);
}

PBT(spaced, 4) {
    // a few calls, so that what is kept of one is not given to another
    size_t calls = 1 + g.idx(5);
    for (size_t c = 0; c < calls; ++c) {
        if (g.chance(5)) cache::MemoryCache::total_purge();
        double a = g.chance(50) ? double(g.range(-20, 20)) : g.real(-1000, 1000), b = g.chance(50) ? double(g.range(-20, 20)) : g.real(-1000, 1000);
        if (a != b && std::abs(a - b) < 1e-3) discard();
        size_t n = g.size(60);
        g.note([&](std::ostream& o) { o << "linspace(" << a << ", " << b << ", " << n << ") "; });
        const auto& l = util::linspace(a, b, n);
        if (n == 0) {
            CHECK(l.empty(), "values of none");
            continue;
        }
        size_t m = a == b ? 1 : n;
        CHECK(l.size() == m, l.size() << " values, and not " << m);
        double tol = 1e-12 * (std::abs(a) + std::abs(b) + 1);
        for (size_t i = 0; i < m; ++i) {
            double e = m == 1 ? a : a + (b - a) * double(i) / double(m - 1);
            CHECK(std::abs(l[i] - e) <= tol, "value " << i << " is " << l[i] << ", and not " << e);
        }
    }
    g.nontrivial(calls > 1);
}

PBT(stepped, 3) {
    // eighths: no rounding
    double a = double(g.range(-400, 400)) / 8, b = double(g.range(-400, 400)) / 8, s = double(g.range(-60, 60)) / 8;
    g.note([&](std::ostream& o) { o << "arange(" << a << ", " << b << ", " << s << ")"; });
    auto l = util::arange(a, b, s);
    if (s == 0 || a == b || (b - a) * s < 0) {
        CHECK(l.size() == 1 && l[0] == a, "the start alone");
        return;
    }
    size_t n = size_t(std::floor((b - a) / s + 1e-9)) + 1;
    CHECK(l.size() == n, l.size() << " values, and not " << n);
    for (size_t i = 0; i < n; ++i) CHECK(l[i] == a + double(i) * s, "value " << i << " is " << l[i]);
    g.nontrivial(n > 2);
}

PBT(crop, 4) {
    size_t n = g.size(20);
    std::vector<double> v;
    double x = double(g.range(-10, 10));
    for (size_t i = 0; i < n; ++i) {
        v.push_back(x);
        x += double(g.idx(4)) / 2;
    }
    bool down = g.boolean();
    if (down) std::reverse(v.begin(), v.end());
    double lo = double(g.range(-24, 60)) / 4, hi = lo + double(g.range(-4, 60)) / 4;
    g.note([&](std::ostream& o) {
        for (double y : v) o << y << " ";
        o << "in " << lo << " to " << hi;
    });
    auto r = util::monotonic_crop(v, lo, hi);
    bool in = false;
    for (double y : v) in = in || (y >= lo && y <= hi);
    CHECK(r.first <= r.second && r.first >= 0 && size_t(r.second) <= v.size(), "a range of " << r.first << " to " << r.second);
    CHECK((r.first < r.second) == in, "a crop that is " << (in ? "empty" : "not empty"));
    for (size_t i = 0; i < n; ++i) {
        bool inside = long(i) >= r.first && long(i) < r.second;
        CHECK(inside == (v[i] >= lo && v[i] <= hi), v[i] << " is " << (inside ? "in" : "out"));
    }
    auto rev = util::reverse(v);
    CHECK(std::equal(v.begin(), v.end(), rev.rbegin(), rev.rend()), "reverse()");
    g.nontrivial(n > 2 && in);
}

// what is kept, how much it is, and that it can be dropped
PBT(kept, 2) {
    cache::MemoryCache::total_purge();
    CHECK(cache::MemoryCache::total_footprint() == 0, "something is left");
    std::set<std::pair<int, size_t>> others;
    size_t extra = 0, ops = 0;
    while (g.more(85) && ops < 30) {
        ++ops;
        size_t N = 1 + g.idx(6);
        int what = int(g.idx(5));
        size_t size = 0;
        switch (what) {
            case 0: size = 2 * N * sizeof(double); (void)util::gaussian_latitudes(N, true); break;
            case 1: size = 2 * N * sizeof(double); (void)util::gaussian_latitudes(N, false); break;
            case 2: size = 2 * N * sizeof(double); (void)util::gaussian_quadrature_weights(N); break;
            case 3: size = 2 * N * sizeof(long); (void)util::reduced_octahedral_pl(N); break;
            default:
                if (g.chance(20)) {
                    cache::MemoryCache::total_purge();
                    others.clear();
                    extra = 0;
                }
                else {
                    size = N * sizeof(double);
                    (void)util::linspace(0, double(N), N);
                }
        }
        if (size && others.insert({what, N}).second) extra += size;
        CHECK(cache::MemoryCache::total_footprint() == extra, "a footprint of " << cache::MemoryCache::total_footprint() << ", and not " << extra);
    }
    g.nontrivial(others.size() > 3);
}

// records that are loaded when they are asked for, and not always can be
struct Load : cache::RecordCacheT<std::vector<double>, std::string>::Loader {
    mutable std::map<std::string, int> loads;
    std::set<std::string> broken;
    double version = 0;
    void load(const std::string& k, std::vector<double>& r) const override {
        loads[k]++;
        if (k.size() % 2) r = {1., 2., 3.};  // has begun already
        if (broken.count(k)) throw eckit::geo::exception::GridError("no such record", Here());
        r = {double(k.size()), version};
    }
};

PBT(records, 2) {
    static Load load;
    static cache::RecordCacheT<std::vector<double>, std::string> c(load);
    c.purge();
    load.loads.clear();
    load.broken.clear();
    load.version = 0;
    std::map<std::string, std::vector<double>> m;
    std::map<std::string, int> loads;
    size_t ops = 0, failed = 0;
    while (g.more(90) && ops < 60) {
        ++ops;
        std::string k(1 + g.idx(5), 'k');
        switch (g.idx(8)) {
            case 0: {
                std::vector<double> v(g.idx(4), double(ops)), w = v;
                CHECK(c.set(k, std::move(w)) == v, "what was set");
                m[k] = v;
                break;
            }
            case 1: {
                if (!load.broken.erase(k)) load.broken.insert(k);
                break;
            }
            case 2: load.version++; break;
            case 3:
                if (g.chance(30)) c.purge(), m.clear();
                break;
            case 4: CHECK(c.has(k) == (m.count(k) > 0), "has(" << k << ")"); break;
            default: {
                bool fails = !m.count(k) && load.broken.count(k);
                if (!m.count(k)) {
                    loads[k]++;
                    if (!fails) m[k] = {double(k.size()), load.version};
                }
                failed += fails;
                std::vector<double> v;
                CHECK(throws([&] { v = c.get(k); }) == fails, "get(" << k << ") " << (fails ? "of a record that cannot be loaded" : "failed"));
                if (!fails) CHECK(v == m[k], "get(" << k << ") of " << v.size() << " values");
                CHECK(load.loads[k] == loads[k], "loaded " << load.loads[k] << " times");
                CHECK(c.has(k) == !fails, "kept");
            }
        }
    }
    g.nontrivial(ops > 5 && failed);
}

// several threads ask for the same values at once, none of which are kept yet
PBT(together, 1) {
    cache::MemoryCache::total_purge();
    const size_t threads = 2 + g.idx(3), N = 1 + g.idx(12), what = g.idx(5);
    const double b = double(1 + g.idx(50));
    g.note([&](std::ostream& o) { o << threads << " threads, " << what << " of " << N; });
    auto ask = [&]() -> std::vector<double> {
        switch (what) {
            case 0: return util::gaussian_latitudes(N, true);
            case 1: return util::gaussian_quadrature_weights(N);
            case 2: return util::linspace(0, b, N + 1);
            case 3: { auto& p = util::reduced_octahedral_pl(N); return {p.begin(), p.end()}; }
            default: { auto& p = util::reduced_classical_pl(N < 6 ? 16 : 32); return {p.begin(), p.end()}; }
        }
    };
    std::vector<std::vector<double>> r(threads);
    std::atomic<size_t> waiting{threads};
    std::vector<std::thread> t;
    for (size_t i = 0; i < threads; ++i)
        t.emplace_back([&, i] {
            --waiting;
            while (waiting) {}
            r[i] = ask();
        });
    for (auto& x : t) x.join();
    auto e = ask();
    for (size_t i = 0; i < threads; ++i) CHECK(r[i] == e, "thread " << i << " was given " << r[i].size() << " values unlike the " << e.size() << " there are");
    CHECK(!e.empty(), "no values");
    g.nontrivial(true);
}

PBT(harmonics, 1) {
    size_t T = 1 + g.size(4000);
    std::string name = (g.boolean() ? "T" : "t") + std::to_string(T);
    std::unique_ptr<const Grid> a;
    switch (g.idx(3)) {
        case 0: a.reset(GridFactory::make_from_string("{grid: " + name + "}")); break;
        case 1: a.reset(GridFactory::make_from_string("{type: sh, truncation: " + std::to_string(T) + "}")); break;
        default: a.reset(new grid::SphericalHarmonics(T));
    }
    CHECK(a->type() == "sh", "type");
    CHECK(a->spec_str() == "{\"grid\":\"T" + std::to_string(T) + "\"}", "spec " << a->spec_str());
    CHECK(grid::SphericalHarmonics::number_of_complex_coefficients(T) == (T + 1) * (T + 2) / 2, "coefficients");
    CHECK(throws([&] { (void)a->begin(); }), "points of harmonics");
    CHECK(a->uid() == grid::SphericalHarmonics(T).uid(), "uid");
    CHECK(a->uid() != grid::SphericalHarmonics(T + 1).uid(), "uid of another");
    size_t n = 0;
    for (size_t m = 0; m <= T; ++m) n += T - m + 1;
    CHECK(a->size() == n, "size " << a->size() << ", and not " << n);
    g.nontrivial(T > 1);
}
