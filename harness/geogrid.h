// C30, C31: what a grid specification means.
#pragma once
#include "pbt.h"
#include "eckit/geo/Grid.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/order/HEALPix.h"
#include "eckit/geo/util.h"
#include "eckit/runtime/Main.h"
#include "eckit/spec/Custom.h"
#include <cmath>
#include <algorithm>
#include <map>
#include <regex>
#include <memory>
#include <sstream>

using namespace pbt;
using namespace eckit;
using namespace eckit::geo;

namespace {

struct P {
    double lon, lat;
};

struct Model {
    std::string spec;           // what the user writes
    std::vector<P> points;      // what that means
    std::string order = "i+j-";
    bool thin      = false;     // a direction with fewer than two points: may be refused
    bool healpix   = false;
    size_t nside   = 0;
    size_t nx = 0, ny = 0;      // regular grids
    std::vector<size_t> rows;   // reduced grids
};

double mod360(double a) {
    double r = std::fmod(a, 360.);
    return r < 0 ? r + 360. : r;
}

bool sameLon(double a, double b, double eps = 1e-8) {
    double d = mod360(a - b);
    return d < eps || 360. - d < eps;
}

bool samePoint(const P& a, const P& b) {
    return std::abs(a.lat - b.lat) < 1e-8 && (sameLon(a.lon, b.lon) || std::abs(std::abs(a.lat) - 90.) < 1e-8);
}

std::string num(double v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}

std::string show(const P& p) {
    return "(" + num(p.lon) + ", " + num(p.lat) + ")";
}

// -- Gaussian latitudes, by Newton's method on the Legendre recurrence

const std::vector<double>& gaussian(size_t N) {
    static std::map<size_t, std::vector<double>> known;
    auto& v = known[N];
    if (v.empty()) {
        const size_t n = 2 * N;
        v.resize(n);
        for (size_t i = 0; i < N; ++i) {
            long double x = std::cos(M_PI * (i + 0.75L) / (n + 0.5L));
            for (int k = 0; k < 40; ++k) {
                long double p0 = 1, p1 = x;
                for (size_t m = 2; m <= n; ++m) {
                    long double p2 = ((2 * m - 1) * x * p1 - (m - 1) * p0) / m;
                    p0             = p1;
                    p1             = p2;
                }
                long double dp = n * (x * p1 - p0) / (x * x - 1);
                long double dx = p1 / dp;
                x -= dx;
                if (std::fabs(double(dx)) < 1e-19) break;
            }
            v[i]         = double(std::asin(x) * 180.0L / 3.14159265358979323846264338327950288L);
            v[n - 1 - i] = -v[i];
        }
    }
    return v;
}

// -- areas, in eighths of a degree

constexpr int U = 8;

struct A {
    int n = 90 * U, w = 0, s = -90 * U, e = 360 * U;
    bool given = false;
    std::string str() const {
        return "[" + num(n / double(U)) + ", " + num(w / double(U)) + ", " + num(s / double(U)) + ", " +
               num(e / double(U)) + "]";
    }
    bool has(const P& p) const {
        return has_lat(p.lat) && mod360(p.lon - w / double(U) + 1e-9) <= (e - w) / double(U) + 2e-9;
    }
    bool has_lat(double lat) const { return s / double(U) <= lat + 1e-9 && lat <= n / double(U) + 1e-9; }
};

A anArea(Gen& g) {
    A a;
    if (g.chance(35)) {
        return a;
    }
    a.given = true;
    switch (g.weighted({3, 1, 1})) {
        case 0:
            a.n = int(g.range(-89 * U, 90 * U));
            a.s = g.chance(30) ? -90 * U : int(g.range(-90 * U, a.n - 1));
            break;
        case 1:
            a.n = 15 * int(g.range(-5, 6)) * U;
            a.s = -90 * U + 15 * int(g.range(0, (a.n / U + 90) / 15 - 1)) * U;
            break;
        default: break;
    }
    switch (g.weighted({3, 1, 1})) {
        case 0:
            a.w = int(g.range(-180 * U, 180 * U));
            a.e = a.w + int(g.range(1, 360 * U));
            break;
        case 1:
            a.w = 15 * int(g.range(-12, 12)) * U;
            a.e = a.w + 15 * int(g.range(1, 24)) * U;
            break;
        default:
            a.w = int(g.range(-180 * U, 0));
            a.e = a.w + 360 * U;
            break;
    }
    return a;
}

std::string anOrder(Gen& g) {
    static const std::vector<std::string> ORDERS{"i+j-", "i+j+", "i-j-", "i-j+"};
    return g.pick(ORDERS);
}

long floordiv(long a, long b) {
    return a >= 0 ? a / b : -((-a + b - 1) / b);
}

// the longitudes ref + k*inc from w eastwards (or from e westwards), at most once round
std::vector<double> lons(double inc, double ref, double w, double e, bool east) {
    std::vector<double> r;
    const double eps = 1e-9;
    const auto n     = long(std::ceil(360. / inc - 1e-7));
    if (east) {
        double k = std::ceil((w - ref) / inc - eps);
        for (long i = 0; i < n && ref + (k + i) * inc <= e + 1e-8; ++i) r.push_back(ref + (k + i) * inc);
    }
    else {
        double k = std::floor((e - ref) / inc + eps);
        for (long i = 0; i < n && ref + (k - i) * inc >= w - 1e-8; ++i) r.push_back(ref + (k - i) * inc);
    }
    return r;
}

void regular(Model& m, const std::vector<double>& x, const std::vector<double>& y) {
    m.nx   = x.size();
    m.ny   = y.size();
    m.thin = m.nx < 2 || m.ny < 2;
    for (auto lat : y) {
        for (auto lon : x) m.points.push_back({lon, lat});
    }
}

Model regular_ll(Gen& g) {
    Model m;
    A a = anArea(g);
    if (g.chance(50)) m.order = anOrder(g);
    const bool east = m.order.find("i+") == 0, north = m.order.find("j+") != std::string::npos;

    // an increment that leaves at most 60 x 40 points
    auto inc = [&](int width, int most) {
        switch (g.weighted({4, 2})) {
            case 0: return int(g.range(std::max(1, width / most), std::max(2, std::min(width + U, 100 * U))));
            default: {
                std::vector<int> nice;
                for (int d : {1, 2, 4, 5, 8, 10, 15, 18, 20, 24, 30, 36, 45, 60, 90, 120})
                    if (d * U * most >= width) nice.push_back(d * U);
                return g.pick(nice);
            }
        }
    };
    const int dlon = inc(a.e - a.w, 60), dlat = inc(a.n - a.s, 40);
    int rlon = a.given ? a.w : 0, rlat = a.given ? a.s : 0;
    if (a.w >= 180 * U && (360 * U) % dlon) discard();   // each turn has lines of its own: which is meant?
    m.spec = "{grid: [" + num(dlon / double(U)) + ", " + num(dlat / double(U)) + "]";
    if (a.given) m.spec += ", area: " + a.str();
    if (g.chance(25)) {
        rlon = int(g.range(-180 * U, 180 * U));
        rlat = int(g.range(-90 * U, 90 * U));
        m.spec += ", reference: [" + num(rlon / double(U)) + ", " + num(rlat / double(U)) + "]";
    }
    if (m.order != "i+j-" || g.boolean()) m.spec += ", order: " + m.order;
    if (g.chance(30)) m.spec += ", type: regular_ll";
    m.spec += "}";

    std::vector<double> y;
    for (long k = -floordiv(-(a.s - rlat), dlat); rlat + k * dlat <= a.n; ++k) y.push_back((rlat + k * dlat) / double(U));
    if (!north) std::reverse(y.begin(), y.end());
    regular(m, lons(dlon / double(U), rlon / double(U), a.w / double(U), a.e / double(U), east), y);
    return m;
}

Model regular_gg(Gen& g) {
    Model m;
    A a            = anArea(g);
    const size_t N = 1 + g.size(15);
    if (g.chance(50)) m.order = anOrder(g);
    const bool east = m.order.find("i+") == 0, north = m.order.find("j+") != std::string::npos;
    m.spec = g.boolean() ? "{grid: " + std::string(g.boolean() ? "F" : "f") + std::to_string(N)
                         : "{type: regular_gg, N: " + std::to_string(N);
    if (a.given) m.spec += ", area: " + a.str();
    if (m.order != "i+j-") m.spec += ", order: " + m.order;
    m.spec += "}";
    std::vector<double> y;
    for (auto lat : gaussian(N)) {
        if (std::abs(lat - a.n / double(U)) < 1e-6 || std::abs(lat - a.s / double(U)) < 1e-6) discard();
        if (a.has_lat(lat)) y.push_back(lat);
    }
    if (north) std::reverse(y.begin(), y.end());
    regular(m, lons(90. / N, 0, a.w / double(U), a.e / double(U), east), y);
    return m;
}

Model reduced_gg(Gen& g) {
    Model m;
    A a      = anArea(g);
    size_t N = 1 + g.size(15);
    std::vector<long> pl(2 * N);
    switch (g.idx(2)) {
        case 0:
            for (size_t j = 0; j < N; ++j) pl[j] = pl[2 * N - 1 - j] = long(20 + 4 * j);
            m.spec = "{grid: O" + std::to_string(N);
            break;
        default:
            for (auto& p : pl) p = g.boolean() ? long(4 * g.range(1, 10)) : long(g.range(2, 40));
            if (g.chance(40)) {  // almost one that has a name
                for (size_t j = 0; j < N; ++j) pl[j] = pl[2 * N - 1 - j] = long(20 + 4 * j);
                for (int k = int(g.range(0, 2)); k; --k) pl[g.idx(pl.size())] += long(g.range(-2, 4));
                if (N > 1 && g.chance(40)) std::swap(pl[g.idx(pl.size())], pl[g.idx(pl.size())]);  // as many points in all
            }
            m.spec = "{type: reduced_gg, pl: [";
            for (size_t j = 0; j < pl.size(); ++j) m.spec += (j ? ", " : "") + std::to_string(pl[j]);
            m.spec += "]";
            break;
    }
    if (a.given) m.spec += ", area: " + a.str();
    m.spec += "}";
    const auto& lats = gaussian(N);
    for (size_t j = 0; j < lats.size(); ++j) {
        if (std::abs(lats[j] - a.n / double(U)) < 1e-6 || std::abs(lats[j] - a.s / double(U)) < 1e-6) discard();
        std::vector<double> x;
        if (a.has_lat(lats[j])) {
            x = lons(360. / double(pl[j]), 0, a.w / double(U), a.e / double(U), true);
            if (x.size() < 2) m.thin = true;
        }
        for (auto lon : x) m.points.push_back({lon, lats[j]});
        m.rows.push_back(x.size());
    }
    return m;
}

Model reduced_ll(Gen& g) {
    Model m;
    A a       = anArea(g);
    size_t Nj = size_t(g.range(2, 12));
    std::vector<long> pl(Nj);
    for (auto& p : pl) p = g.boolean() ? long(4 * g.range(1, 10)) : long(g.range(2, 40));
    m.spec = "{type: reduced_ll, pl: [";
    for (size_t j = 0; j < pl.size(); ++j) m.spec += (j ? ", " : "") + std::to_string(pl[j]);
    m.spec += "]";
    if (a.given) m.spec += ", area: " + a.str();
    m.spec += "}";
    const double w = a.w / double(U), e = a.e / double(U), n = a.n / double(U), s = a.s / double(U);
    // a row that goes all the way round has no second point on its first meridian
    const long most   = *std::max_element(pl.begin(), pl.end());
    const double gap  = 360. - (e - w);
    const bool round  = gap < 1e-9 || gap <= 360. / double(most - 1) + 1e-9;
    if (!(gap < 1e-9) && std::abs(gap - 360. / double(most - 1)) < 1e-6) discard();
    if (round && gap > 1e-9) discard();  // whether such an area closes is a convention
    for (size_t j = 0; j < Nj; ++j) {
        const double lat = n + (s - n) * double(j) / double(Nj - 1);
        for (long i = 0; i < pl[j]; ++i)
            m.points.push_back({round ? w + 360. * double(i) / double(pl[j]) : w + (e - w) * double(i) / double(pl[j] - 1), lat});
        m.rows.push_back(size_t(pl[j]));
    }
    return m;
}

P healpix_nested(size_t nside, size_t p) {  // Gorski et al. 2005, and the coordinates of a pixel within its face
    const size_t npface = nside * nside, f = p / npface;
    size_t ix = 0, iy = 0, k = p % npface;
    for (int b = 0; b < 20; ++b) {
        ix |= ((k >> (2 * b)) & 1) << b;
        iy |= ((k >> (2 * b + 1)) & 1) << b;
    }
    // position within the face, turned by 45 degrees: u eastwards, v northwards, in units of a face's half diagonal
    const double u = (double(ix) - double(iy)) / double(nside);
    const double v = (double(ix + iy) + 1) / double(nside) - 1;
    const double fy[12] = {1, 1, 1, 1, 0, 0, 0, 0, -1, -1, -1, -1};
    const double fx[12] = {1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7};
    const double Y = fy[f] + v, X = fx[f] + u;  // in units of 45 degrees of longitude; |Y| = 1 at the cap
    P r;
    if (std::abs(Y) <= 1 + 1e-12) {
        r.lat = std::asin(2. / 3. * Y) * 180 / M_PI;
        r.lon = 45. * X;
    }
    else {
        const double sigma = 2 - std::abs(Y);
        r.lat = (Y < 0 ? -1 : 1) * std::asin(1 - sigma * sigma / 3) * 180 / M_PI;
        const double xc = fx[f];
        r.lon = 45. * (xc + (X - xc) / sigma);
    }
    return r;
}

std::vector<P> healpix_ring(size_t nside) {
    std::vector<P> r;
    for (size_t i = 1; i < 4 * nside; ++i) {
        const size_t c = std::min(i, 4 * nside - i);
        double z;
        size_t n;
        double first;
        if (c < nside) {
            z     = 1 - double(c * c) / (3. * double(nside * nside));
            if (i > 2 * nside) z = -z;
            n     = 4 * c;
            first = 45. / double(c);
        }
        else {
            z     = 4. / 3 - 2. * double(i) / (3. * double(nside));
            n     = 4 * nside;
            first = (i - nside) % 2 ? 0 : 45. / double(nside);
        }
        for (size_t k = 0; k < n; ++k) r.push_back({first + 360. * double(k) / double(n), std::asin(z) * 180 / M_PI});
    }
    return r;
}

Model healpix(Gen& g) {
    Model m;
    m.healpix = true;
    m.order   = g.boolean() ? "ring" : "nested";
    m.nside   = m.order == "nested" || g.boolean() ? size_t(1) << g.range(0, 4) : size_t(g.range(1, 12));
    if (m.nside == 1 && m.order == "nested") m.nside = 2;
    const auto n = std::to_string(m.nside);
    switch (g.idx(3)) {
        case 0: m.spec = "{grid: " + std::string(g.boolean() ? "H" : "h") + n + ", order: " + m.order + "}"; break;
        case 1: m.spec = "{grid: H" + n + (m.order == "nested" ? "n" : g.boolean() ? "r" : "") + "}"; break;
        default: m.spec = "{type: healpix, Nside: " + n + ", order: " + m.order + "}"; break;
    }
    if (m.order == "ring") {
        m.points = healpix_ring(m.nside);
    }
    else {
        for (size_t i = 0; i < 12 * m.nside * m.nside; ++i) m.points.push_back(healpix_nested(m.nside, i));
    }
    return m;
}

Model unstructured(Gen& g) {
    Model m;
    m.order.clear();
    size_t n = 1 + g.size(40);
    std::string la, lo;
    for (size_t i = 0; i < n; ++i) {
        P p{g.boolean() ? double(g.range(-180, 360)) : g.real(-180, 360), g.boolean() ? double(g.range(-90, 90)) : g.real(-90, 90)};
        m.points.push_back(p);
        la += (i ? ", " : "") + num(p.lat);
        lo += (i ? ", " : "") + num(p.lon);
    }
    m.spec = "{latitudes: [" + la + "], longitudes: [" + lo + "]}";
    return m;
}

Model aGrid(Gen& g, bool withUnstructured = true) {
    static const bool once = ::setenv("ECKIT_GEO_CACHE_PATH", (g.scratch() + "/geocache").c_str(), 1) == 0;   // what grids leave behind
    if (!once) discard();
    switch (g.weighted({4, 3, 3, 2, 2, withUnstructured ? 1 : 0})) {
        case 0: g.label("regular_ll"); return regular_ll(g);
        case 1: g.label("regular_gg"); return regular_gg(g);
        case 2: g.label("reduced_gg"); return reduced_gg(g);
        case 3: g.label("reduced_ll"); return reduced_ll(g);
        case 4: g.label("healpix"); return healpix(g);
    }
    g.label("unstructured");
    return unstructured(g);
}

using GridPtr = std::unique_ptr<const Grid>;

GridPtr build(Gen& g, const Model& m) {
    if (!m.points.empty() && !m.thin) {
        return GridPtr(GridFactory::make_from_string(m.spec));
    }
    try {  // no points, or a single row or column: may be refused
        g.label("thin");
        GridPtr p(GridFactory::make_from_string(m.spec));
        if (m.points.empty()) CHECK(p->size() == 0, "a grid of " << p->size() << " points, where none is described");
        return p;
    }
    catch (const eckit::Exception&) {
        discard();
    }
    return {};
}

P lonlat(const Point& p) {
    const auto& q = std::get<PointLonLat>(p);
    return {q.lon(), q.lat()};
}

std::string box(const area::BoundingBox& b) {
    return "n/w/s/e " + num(b.north()) + "/" + num(b.west()) + "/" + num(b.south()) + "/" + num(b.east());
}

void compare(const std::vector<P>& got, const std::vector<P>& ref, const char* what) {
    CHECK(got.size() == ref.size(), what << ": " << got.size() << " points, expected " << ref.size());
    for (size_t i = 0; i < ref.size(); ++i) {
        CHECK(samePoint(got[i], ref[i]), what << ": point " << i << " of " << ref.size() << " is " << show(got[i])
                                              << ", expected " << show(ref[i]));
    }
}

std::vector<P> walk(const Grid& grid) {
    std::vector<P> r;
    for (const auto& p : grid) r.push_back(lonlat(p));
    return r;
}

}  // namespace

