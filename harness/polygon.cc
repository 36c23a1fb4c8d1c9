// C35: polygons are sets of points.
#include "pbt.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointXY.h"
#include "eckit/geo/area/BoundingBoxXY.h"
#include "eckit/geo/area/Polygon.h"
#include "eckit/geo/polygon/Polygon.h"
#include "eckit/geo/polygon/PolygonXY.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/polygon/LonLatPolygon.h"
#include "eckit/geometry/polygon/Polygon.h"
#include "eckit/runtime/Main.h"
#include "eckit/spec/Custom.h"
#include <algorithm>
#include <cmath>
#include <set>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

// Coordinates in units of half a degree: the arithmetic on them is exact.
constexpr int U = 2;

struct Pt {
    long x, y;
    bool operator==(const Pt& o) const { return x == o.x && y == o.y; }
    bool operator<(const Pt& o) const { return x != o.x ? x < o.x : y < o.y; }
};

using Poly = std::vector<Pt>;

std::ostream& operator<<(std::ostream& o, const Pt& p) {
    return o << "(" << double(p.x) / U << ", " << double(p.y) / U << ")";
}

std::ostream& operator<<(std::ostream& o, const Poly& p) {
    for (auto& q : p) o << q << " ";
    return o;
}

long cross(const Pt& a, const Pt& b, const Pt& c) {
    return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
}

bool between(long a, long v, long b) {
    return (a <= v && v <= b) || (b <= v && v <= a);
}

bool onEdge(const Pt& p, const Pt& a, const Pt& b) {
    return cross(a, b, p) == 0 && between(a.x, p.x, b.x) && between(a.y, p.y, b.y);
}

bool onBoundary(const Pt& p, const Poly& poly) {
    for (size_t i = 0; i < poly.size(); ++i)
        if (onEdge(p, poly[i], poly[(i + 1) % poly.size()])) return true;
    return false;
}

// the number of times that the polygon goes round the point, which is not on its boundary
int winding(const Pt& p, const Poly& poly) {
    int w = 0;
    for (size_t i = 0; i < poly.size(); ++i) {
        const auto &a = poly[i], &b = poly[(i + 1) % poly.size()];
        if (a.y <= p.y && b.y > p.y && cross(a, b, p) > 0) ++w;
        if (b.y <= p.y && a.y > p.y && cross(a, b, p) < 0) --w;
    }
    return w;
}

bool inside(const Pt& p, const Poly& poly) {
    return onBoundary(p, poly) || winding(p, poly) != 0;
}

bool collinear(const Poly& poly) {
    for (size_t i = 0; i < poly.size(); ++i)
        if (cross(poly[i], poly[(i + 1) % poly.size()], poly[(i + 2) % poly.size()]) == 0) return true;
    return false;
}

long area2(const Poly& poly) {
    long a = 0;
    for (size_t i = 0; i < poly.size(); ++i) {
        const auto &p = poly[i], &q = poly[(i + 1) % poly.size()];
        a += p.x * q.y - p.y * q.x;
    }
    return a;
}

bool sharesPoints(const Poly& poly) {
    return std::set<Pt>(poly.begin(), poly.end()).size() != poly.size();
}

bool crossing(const Pt& a, const Pt& b, const Pt& c, const Pt& d) {  // or touching
    if (onEdge(a, c, d) || onEdge(b, c, d) || onEdge(c, a, b) || onEdge(d, a, b)) return true;
    return (cross(a, b, c) > 0) != (cross(a, b, d) > 0) && (cross(c, d, a) > 0) != (cross(c, d, b) > 0);
}

bool simple(const Poly& poly) {
    const size_t n = poly.size();
    if (n < 3 || sharesPoints(poly)) return false;
    for (size_t i = 0; i < n; ++i) {
        const auto &a = poly[i], &b = poly[(i + 1) % n], &c = poly[(i + 2) % n];
        if (cross(a, b, c) == 0 && onEdge(c, a, b)) return false;
        if (cross(a, b, c) == 0 && onEdge(a, b, c)) return false;
        for (size_t j = i + 2; j < n; ++j) {
            if ((j + 1) % n == i) continue;
            if (crossing(a, b, poly[j], poly[(j + 1) % n])) return false;
        }
    }
    return true;
}

Poly hull(Poly p) {
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    Poly h(2 * p.size() + 2);
    size_t k = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        while (k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k;
        h[k++] = p[i];
    }
    for (size_t i = p.size() - 1, t = k + 1; i > 0; --i) {
        while (k >= t && cross(h[k - 2], h[k - 1], p[i - 1]) <= 0) --k;
        h[k++] = p[i - 1];
    }
    h.resize(k ? k - 1 : 0);
    return h;
}

struct Shape {
    Poly poly;
    bool isSimple = false, isConvex = false;
};

// small: few distinct coordinates, so that points and vertices line up
Shape shape(Gen& g, int kind, int reach, Pt centre) {
    Shape s;
    auto pt = [&] { return Pt{centre.x + long(g.range(-reach, reach)), centre.y + long(g.range(-reach, reach))}; };
    const int n = int(g.range(3, 8));
    Poly p;
    for (int i = 0; i < n; ++i) p.push_back(pt());
    if (kind == 2) {
        p = hull(p);
        s.isConvex = s.isSimple = true;
        if (p.size() < 3) discard();
    }
    else if (kind == 1) {  // around the centre
        std::sort(p.begin(), p.end(), [&](const Pt& a, const Pt& b) {
            double u = std::atan2(double(a.y - centre.y), double(a.x - centre.x)), v = std::atan2(double(b.y - centre.y), double(b.x - centre.x));
            return u != v ? u < v : a < b;
        });
        if (!simple(p)) discard();
        s.isSimple = true;
    }
    else {
        for (size_t i = 0; i < p.size(); ++i)
            if (p[i] == p[(i + 1) % p.size()]) discard();
        s.isSimple = simple(p);
    }
    if (g.boolean()) std::rotate(p.begin(), p.begin() + g.idx(p.size()), p.end());
    if (kind != 2 && g.boolean()) std::reverse(p.begin(), p.end());
    s.poly = p;
    return s;
}

long mod(long a, long m) {
    long r = a % m;
    return r < 0 ? r + m : r;
}

// on the sphere: longitudes are the same 360 degrees further
bool insideLon(const Pt& p, const Poly& poly, bool* boundary = nullptr) {
    bool in = false;
    for (long k = -8; k <= 8; ++k) {
        Pt q{p.x + k * 360 * U, p.y};
        if (boundary && onBoundary(q, poly)) *boundary = true;
        in = in || inside(q, poly);
    }
    return in;
}

Pt aPoint(Gen& g, const Poly& poly, int reach, Pt centre) {
    switch (g.weighted({4, 2, 2})) {
        case 0: return {centre.x + long(g.range(-reach - 2, reach + 2)), centre.y + long(g.range(-reach - 2, reach + 2))};
        case 1: return {centre.x + long(g.range(-reach - 2, reach + 2)), g.pick(poly).y};  // level with a vertex
        default: {
            const size_t i = g.idx(poly.size());
            const auto &a = poly[i], &b = poly[(i + 1) % poly.size()];
            return {(a.x + b.x) / 2, (a.y + b.y) / 2};
        }
    }
}

double deg(long v) {
    return double(v) / U;
}

geo::polygon::Polygon lonlat(const Poly& p) {
    geo::polygon::Polygon r;
    for (auto& q : p) r.push_back(geo::PointLonLat{deg(q.x), deg(q.y)});
    return r;
}

geo::polygon::PolygonXY xy(const Poly& p) {
    geo::polygon::PolygonXY r;
    for (auto& q : p) r.push_back(geo::PointXY{deg(q.x), deg(q.y)});
    return r;
}

}  // namespace

PBT(planar, 3) {
    const int reach = g.boolean() ? 4 : 40;
    const Pt c{long(g.range(-20, 20)), long(g.range(-20, 20))};
    auto s = shape(g, int(g.idx(3)), reach, c);
    auto p = aPoint(g, s.poly, reach, c);
    g.note([&](std::ostream& o) { o << s.poly << "and " << p; });
    const bool in = inside(p, s.poly);
    g.label(onBoundary(p, s.poly) ? "boundary" : in ? "inside" : "outside");
    g.nontrivial(s.poly.size() > 3);
    CHECK_EQ(xy(s.poly).contains(geo::PointXY{deg(p.x), deg(p.y)}), in, "PolygonXY::contains " << p);
}

PBT(sphere, 3) {
    const int reach = g.boolean() ? 4 : g.boolean() ? 60 : 150;
    const Pt c{long(g.range(-360 * U, 360 * U)), reach > 100 ? 0 : long(g.range(-40, 40))};
    auto s = shape(g, int(g.idx(3)), reach, c);
    auto p = aPoint(g, s.poly, reach, c);
    p.y    = std::max(-90L * U, std::min(90L * U, p.y));
    p.x += long(g.range(-1, 1)) * 360 * U;
    bool boundary = false;
    const bool in = insideLon(p, s.poly, &boundary);
    g.note([&](std::ostream& o) { o << s.poly << "and " << p; });
    g.label(boundary ? "boundary" : in ? "inside" : "outside");
    g.nontrivial(s.poly.size() > 3);

    CHECK_EQ(lonlat(s.poly).contains(geo::PointLonLat{deg(p.x), deg(p.y)}), in, "geo::polygon::Polygon::contains " << p);

    // LonLatPolygon is closed, and merges aligned edges
    if (collinear(s.poly)) return;
    std::vector<geometry::Point2> v;
    for (auto& q : s.poly) v.push_back({deg(q.x), deg(q.y)});
    v.push_back(v.front());
    geometry::polygon::LonLatPolygon old(v, g.boolean());
    CHECK_EQ(old.contains({deg(p.x), deg(p.y)}), in, "LonLatPolygon::contains " << p);
    const double turn = 360. * double(g.range(-2, 2));
    CHECK_EQ(old.contains({deg(p.x) + turn, deg(p.y)}, true), in, "LonLatPolygon::contains " << p << ", " << turn << " degrees further");
}

PBT(wide, 2) {  // as wide as the whole turn, and wider
    const int reach = int(g.range(1, 4));
    auto s = shape(g, int(g.idx(3)), reach, {0, 0});
    const long dx = long(g.pick<int>({1, 1, 2, 3})) * 180 * U / reach / long(g.pick<int>({1, 1, 1, 3})), dy = long(g.range(1, 90 * U / (reach + 2)));
    const long w = long(g.range(-360, 360)) * U;
    auto p = aPoint(g, s.poly, reach, {0, 0});
    for (auto& q : s.poly) q = {w + q.x * dx, q.y * dy};
    p = {w + p.x * dx, p.y * dy};
    if (g.boolean()) {  // on an edge or so
        const size_t i = g.idx(s.poly.size());
        const auto &a = s.poly[i], &b = s.poly[(i + 1) % s.poly.size()];
        p = {(a.x + b.x) / 2, (a.y + b.y) / 2 + long(g.range(-1, 1))};
    }
    p.x += long(g.range(-1, 1)) * 360 * U;
    p.y = std::max(-90L * U, std::min(90L * U, p.y));
    long lo = s.poly[0].x, hi = lo;
    for (auto& q : s.poly) lo = std::min(lo, q.x), hi = std::max(hi, q.x);
    bool boundary = false;
    const bool in = insideLon(p, s.poly, &boundary);
    g.note([&](std::ostream& o) { o << s.poly << "and " << p; });
    g.label(boundary ? "boundary" : in ? "inside" : "outside");
    g.nontrivial(hi - lo >= 360 * U);
    CHECK_EQ(lonlat(s.poly).contains(geo::PointLonLat{deg(p.x), deg(p.y)}), in, "geo::polygon::Polygon::contains " << p);
}

PBT(poles, 1) {  // a polygon that reaches a pole contains all of that point, if asked to
    const long w = long(g.range(-180, 180)) * U, width = long(g.range(1, 359)) * U;
    const bool north = g.boolean(), include = g.boolean();
    const long y = (north ? 1 : -1) * long(g.range(0, 89)) * U, pole = (north ? 90 : -90) * U;
    Poly poly{{w, y}, {w + width, y}, {w + width, pole}, {w, pole}};
    if (!north) std::reverse(poly.begin(), poly.end());
    std::vector<geometry::Point2> v;
    for (auto& q : poly) v.push_back({deg(q.x), deg(q.y)});
    v.push_back(v.front());
    geometry::polygon::LonLatPolygon old(v, include);
    Pt p{w + long(g.range(0, 359)) * U, g.chance(70) ? pole : g.boolean() ? -pole : long(g.range(-90 * U, 90 * U))};
    g.note([&](std::ostream& o) { o << poly << "and " << p << ", poles " << include; });
    g.nontrivial(p.y == pole);
    if (p.y == pole) {
        CHECK(!include || old.contains({deg(p.x), deg(p.y)}), "the pole is not in a polygon that includes it");
        return;
    }
    CHECK_EQ(old.contains({deg(p.x), deg(p.y)}), p.y != -pole && insideLon(p, poly), "LonLatPolygon::contains " << p);
}

PBT(rings, 1) {  // of several rings, those after the first are holes, islands in them, and so on
    std::vector<geo::polygon::Polygon> parts;
    std::vector<Poly> rings;
    const int n = int(g.range(1, 4));
    for (int i = 0; i < n; ++i) {
        rings.push_back(shape(g, 1 + int(g.idx(2)), 4 + 8 * i, {0, 0}).poly);
        parts.push_back(lonlat(rings.back()));
    }
    geo::area::Polygon area(parts);
    auto p    = aPoint(g, rings.front(), 4 + 4 * n, {0, 0});
    int count = 0;
    for (auto& r : rings) count += inside(p, r);
    g.note([&](std::ostream& o) {
        for (auto& r : rings) o << "[" << r << "] ";
        o << "and " << p;
    });
    g.nontrivial(count > 1);
    CHECK_EQ(area.contains(geo::Point{geo::PointLonLat{deg(p.x), deg(p.y)}}), count % 2 == 1, "area::Polygon::contains");
}

PBT(measure, 2) {
    const Pt c{long(g.range(-40, 40)), long(g.range(-40, 40))};
    auto s = shape(g, 1 + int(g.idx(2)), 30, c);
    g.note([&](std::ostream& o) { o << s.poly; });
    g.nontrivial(s.poly.size() > 3);
    auto poly      = lonlat(s.poly);
    const double a = double(area2(s.poly)) / 2 / (U * U);
    if (a == 0) discard();
    CHECK(std::abs(std::abs(poly.area()) - std::abs(a)) < 1e-8, "area " << poly.area() << ", expected " << a);
    auto reversed = s.poly;
    std::reverse(reversed.begin(), reversed.end());
    CHECK(std::abs(std::abs(lonlat(reversed).area(true)) - std::abs(a)) < 1e-8, "area " << lonlat(reversed).area(true) << ", expected " << -a);
    double cx = 0, cy = 0;
    for (size_t i = 0; i < s.poly.size(); ++i) {  // relative to the centre
        const Pt p{s.poly[i].x - c.x, s.poly[i].y - c.y}, q{s.poly[(i + 1) % s.poly.size()].x - c.x, s.poly[(i + 1) % s.poly.size()].y - c.y};
        const double w = double(p.x * q.y - p.y * q.x);
        cx += double(p.x + q.x) * w;
        cy += double(p.y + q.y) * w;
    }
    cx = (cx / 3 / double(area2(s.poly)) + double(c.x)) / U;
    cy = (cy / 3 / double(area2(s.poly)) + double(c.y)) / U;
    auto m = poly.centroid();
    CHECK(std::abs(m.lon() - cx) < 1e-6 && std::abs(m.lat() - cy) < 1e-6, "centroid " << m.lon() << ", " << m.lat() << ", expected " << cx << ", " << cy);
}

PBT(simplify, 2) {  // the same set with neither repeated nor aligned points
    auto s = shape(g, 1 + int(g.idx(2)), 12, {0, 0});
    if (area2(s.poly) == 0) discard();
    Poly p;  // the same, with more points than needed
    for (size_t i = 0; i < s.poly.size(); ++i) {
        const auto a = s.poly[i], b = s.poly[(i + 1) % s.poly.size()];
        for (int k = 0, n = int(g.idx(3)); k <= n; ++k) p.push_back(a);
        if (g.boolean() && (a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0) p.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2});
    }
    const auto at = g.idx(p.size());
    std::rotate(p.begin(), p.begin() + at, p.end());
    g.note([&](std::ostream& o) { o << s.poly << "as " << p; });
    g.nontrivial(p.size() > s.poly.size() + 1);
    Poly ref;
    for (size_t i = 0, n = s.poly.size(); i < n; ++i)
        if (cross(s.poly[(i + n - 1) % n], s.poly[i], s.poly[(i + 1) % n]) != 0) ref.push_back(s.poly[i]);

    auto a = lonlat(p);
    a.simplify();
    CHECK_EQ(a.size(), ref.size(), "vertices after simplify");
    CHECK(a == lonlat(ref), "simplify: " << a << ", expected " << ref);
    auto b = xy(p);
    b.simplify();
    CHECK_EQ(b.size(), ref.size(), "vertices after PolygonXY::simplify");
    CHECK(b == xy(ref), "PolygonXY::simplify, expected " << ref);
    a.simplify();
    CHECK(a == lonlat(ref), "simplify again: " << a);
}

PBT(same, 2) {  // polygons are equal if their points are, wherever they start
    const bool repeat = g.boolean();
    auto s = shape(g, 0, 3, {0, 0});
    if (!repeat && sharesPoints(s.poly)) discard();
    auto t = s.poly;
    std::rotate(t.begin(), t.begin() + g.idx(t.size()), t.end());
    if (g.boolean()) {
        switch (g.idx(3)) {
            case 0: std::swap(t[g.idx(t.size())], t[g.idx(t.size())]); break;
            case 1: t[g.idx(t.size())].x += 1; break;
            default: std::reverse(t.begin(), t.end()); break;
        }
    }
    if (g.chance(10)) t.resize(g.idx(t.size()));
    if (g.chance(3)) s.poly.clear();
    bool ref = t.size() == s.poly.size();
    if (ref && !t.empty()) {
        ref = false;
        for (size_t k = 0; k < t.size(); ++k) {
            auto u = t;
            std::rotate(u.begin(), u.begin() + k, u.end());
            ref = ref || u == s.poly;
        }
    }
    g.note([&](std::ostream& o) { o << "[" << s.poly << "] [" << t << "]"; });
    g.label(ref ? "equal" : "different");
    g.nontrivial(ref && t != s.poly);
    CHECK_EQ(lonlat(s.poly) == lonlat(t), ref, "geo::polygon::Polygon ==");
    CHECK_EQ(xy(s.poly) == xy(t), ref, "geo::polygon::PolygonXY ==");
    auto old = [](const Poly& p) {
        geometry::polygon::Polygon r;
        for (auto& q : p) r.push_back({deg(q.x), deg(q.y)});
        return r;
    };
    CHECK_EQ(old(s.poly).congruent(old(t)), ref, "geometry::polygon::Polygon::congruent");
    CHECK_EQ(old(s.poly).sameAs(old(t)), s.poly == t, "geometry::polygon::Polygon::sameAs");
}

PBT(clip, 3) {  // what is left is what is in both
    const int reach = g.boolean() ? 6 : 40;
    auto s = shape(g, 1 + int(g.idx(2)), reach, {0, 0});
    const Pt c{long(g.range(-reach, reach)), long(g.range(-reach, reach))};
    auto k = shape(g, 2, reach, c);  // convex, counter-clockwise
    if (area2(s.poly) == 0) discard();
    const bool convex = s.isConvex;
    g.note([&](std::ostream& o) { o << s.poly << "clipped by " << k.poly; });
    auto both = lonlat(s.poly);
    both.clip(lonlat(k.poly));
    const double a = std::abs(both.area());
    CHECK(a <= std::abs(double(area2(s.poly))) / 2 / (U * U) + 1e-6 && a <= std::abs(double(area2(k.poly))) / 2 / (U * U) + 1e-6,
          "area " << a << " of the intersection is larger");
    int in = 0;
    for (int i = 0; i < 20; ++i) {
        auto p = aPoint(g, s.poly, reach, {0, 0});
        // away from the edges, where rounding decides
        if (onBoundary(p, s.poly) || onBoundary(p, k.poly)) continue;
        const bool ref = inside(p, s.poly) && inside(p, k.poly);
        in += ref;
        CHECK_EQ(both.contains(geo::PointLonLat{deg(p.x), deg(p.y)}), ref, "the intersection contains " << p << " (is " << both << ")");
    }
    g.nontrivial(in > 0 && a > 0);
    if (convex) {
        auto other = lonlat(k.poly);
        other.clip(lonlat(s.poly));
        CHECK(std::abs(std::abs(other.area()) - a) < 1e-6, "area " << a << " clipped one way, " << other.area() << " the other");
    }
    // cut in two
    const long x = long(g.range(-reach, reach)), far = 4 * reach;
    auto left = lonlat(s.poly), right = left;
    left.clip(lonlat({{-far, -far}, {x, -far}, {x, far}, {-far, far}}));
    right.clip(lonlat({{x, -far}, {far, -far}, {far, far}, {x, far}}));
    const double sum = std::abs(left.area()) + std::abs(right.area());
    CHECK(std::abs(sum - std::abs(double(area2(s.poly))) / 2 / (U * U)) < 1e-6,
          "cut at " << deg(x) << " the parts have areas " << left.area() << " and " << right.area() << " of " << double(area2(s.poly)) / 2 / (U * U));
}

PBT(boxes, 2) {  // bounding boxes in the plane
    auto v = [&] { return g.boolean() ? double(g.range(-4, 4)) : double(g.range(-4000, 4000)) / 8; };
    double a = v(), b = v(), c = v(), d = v();
    if (a > b) std::swap(a, b);
    if (c > d) std::swap(c, d);
    geo::area::BoundingBoxXY box(a, c, b, d);
    double x = g.chance(30) ? a : v(), y = g.chance(30) ? d : v();
    g.note([&](std::ostream& o) { o << a << " " << c << " " << b << " " << d << " and " << x << ", " << y; });
    g.nontrivial(a < x && x < b && c < y && y < d);
    CHECK_EQ(box.contains(geo::Point{geo::PointXY{x, y}}), a <= x && x <= b && c <= y && y <= d, "contains point");
    CHECK_EQ(box.empty(), a == b || c == d, "empty");
    double e = v(), f = v(), h = v(), i = v();
    if (e > f) std::swap(e, f);
    if (h > i) std::swap(h, i);
    if (g.chance(40)) {
        e = std::max(e, a);
        f = std::max(e, std::min(f, b));
        h = std::max(h, c);
        i = std::max(h, std::min(i, d));
    }
    geo::area::BoundingBoxXY other(e, h, f, i);
    CHECK_EQ(box.contains(other), a <= e && f <= b && c <= h && i <= d, "contains box " << e << " " << h << " " << f << " " << i);
    spec::Custom spec;
    box.fill_spec(spec);
    geo::area::BoundingBoxXY back(spec);
    CHECK(back.deconstruct() == box.deconstruct(), "box from its specification");
}
