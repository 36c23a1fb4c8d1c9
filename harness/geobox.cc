// C33: bounding boxes are sets of points.
#include "pbt.h"
#include "eckit/geo/Figure.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/area/BoundingBox.h"
#include "eckit/geo/figure/Earth.h"
#include "eckit/geo/figure/OblateSpheroid.h"
#include "eckit/geo/figure/Sphere.h"
#include "eckit/geo/projection/Rotation.h"
#include "eckit/runtime/Main.h"
#include "eckit/spec/Custom.h"
#include <cmath>
#include <memory>
#include <sstream>

using namespace pbt;
using namespace eckit;
using namespace eckit::geo;
using area::BoundingBox;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

// All values are multiples of 1/U degree, so that the arithmetic on them is exact.
constexpr int U    = 8;
constexpr int FULL = 360 * U;

int mod(int a) {
    int r = a % FULL;
    return r < 0 ? r + FULL : r;
}

struct RefBox {  // the meridians w .. w+len and the parallels s .. n
    int n, s, w, len;
    bool lon(int x) const { return mod(x - w) <= len; }
    bool has(int x, int y) const {
        if (y == 90 * U || y == -90 * U) return s <= y && y <= n;  // all longitudes are the same point
        return s <= y && y <= n && lon(x);
    }
};

std::ostream& operator<<(std::ostream& o, const RefBox& b) {
    return o << "n/w/s/e " << b.n / double(U) << "/" << b.w / double(U) << "/" << b.s / double(U) << "/"
             << (b.w + b.len) / double(U);
}

int lat(Gen& g, int scale) {
    switch (g.weighted({6, 1, 1})) {
        case 1: return 90 * U;
        case 2: return -90 * U;
    }
    return scale == 0 ? int(g.range(-90 * U, 90 * U)) : int(g.range(-4, 4)) * 15 * U;
}

int lon(Gen& g, int scale, int turns) {
    return (scale == 0 ? int(g.range(0, FULL - 1)) : int(g.range(0, 15)) * (FULL / 16)) +
           FULL * int(g.range(-turns, turns));
}

double deg(int v) {
    return v / double(U);
}

RefBox refBox(Gen& g, int scale) {
    RefBox b;
    b.n = lat(g, scale);
    b.s = lat(g, scale);
    if (b.n < b.s) std::swap(b.n, b.s);
    b.w = lon(g, scale, 1);
    b.len = g.chance(15) ? FULL : (scale == 0 ? int(g.range(0, FULL - 1)) : int(g.range(0, 15)) * (FULL / 16));
    return b;
}

BoundingBox make(Gen& g, const RefBox& b) {
    const double n = deg(b.n), s = deg(b.s);
    // the eastern bound can be written in many ways, as long as an empty range and a full one are told apart
    int w = b.w, e = b.w + b.len;
    switch (g.weighted({4, 2, 2, 1, 1})) {
        case 0: return {n, deg(w), s, deg(e)};
        case 1: {
            if (b.len != 0 && b.len != FULL) e += FULL * int(g.range(-2, 0));
            return {n, deg(w), s, deg(e)};
        }
        case 2: {
            if (b.len != 0 && b.len != FULL) e += FULL * int(g.range(-2, 2));
            auto p = BoundingBox::make_from_area(n, deg(w), s, deg(e));
            return *p;
        }
        case 3: {
            spec::Custom c({{"area", std::vector<double>{n, deg(w), s, deg(e)}}});
            return BoundingBox(c);
        }
        default: {
            std::ostringstream o;
            o.precision(17);
            o << n << "/" << deg(w) << "/" << s << "/" << deg(e);
            spec::Custom c({{"area", o.str()}});
            return BoundingBox(c);
        }
    }
}

void same(const BoundingBox& b, const RefBox& r, const std::string& what) {
    CHECK(b.north() == deg(r.n) && b.south() == deg(r.s), what + ": latitudes");
    const double w = b.west() * U, e = b.east() * U;
    CHECK(w == std::floor(w) && e == std::floor(e), what + ": longitudes");
    CHECK(mod(int(w) - r.w) == 0, what + ": west");
    CHECK_EQ(int(e - w), r.len, what + ": the range of longitudes");
}

BoundingBox shifted(const BoundingBox& b, double d) {
    return {b.north(), b.west() + d, b.south(), b.east() + d};
}

}  // namespace

PBT(points, 3) {
    const int scale = g.chance(60) ? 1 : 0;
    RefBox r        = refBox(g, scale);
    BoundingBox b   = make(g, r);
    g.note([&](std::ostream& o) { o << r; });
    same(b, r, "the box made");
    CHECK_EQ(b.periodic(), r.len == FULL, "periodic");
    CHECK_EQ(b.empty(), r.n == r.s || r.len == 0, "empty");
    CHECK_EQ(b.global(), r.len == FULL && r.n == 90 * U && r.s == -90 * U, "global");
    size_t in = 0, out = 0;
    for (int i = 0; i < 40; ++i) {
        int x, y;
        switch (g.weighted({3, 2, 2})) {
            case 0: x = lon(g, scale, 2); y = lat(g, scale); break;
            case 1:  // on or next to an edge
                x = g.pick<int>({r.w, r.w + r.len, r.w - 1, r.w + r.len + 1, r.w + 1, r.w + r.len / 2}) +
                    FULL * int(g.range(-2, 2));
                y = g.boolean() ? (r.n + r.s) / 2 : int(g.range(r.s, r.n));
                break;
            default:
                x = r.w + int(g.range(0, r.len)) + FULL * int(g.range(-2, 2));
                y = g.pick<int>({r.n, r.s, std::min(r.n + 1, 90 * U), std::max(r.s - 1, -90 * U)});
        }
        const bool want = r.has(x, y);
        (want ? in : out)++;
        g.note([&](std::ostream& o) { o << "point " << deg(x) << " " << deg(y); });
        CHECK_EQ(b.contains(PointLonLat{deg(x), deg(y)}), want, "whether the box contains the point");
    }
    g.nontrivial(in > 2 && out > 2);
}

PBT(boxes, 4) {
    const int scale = g.chance(70) ? 1 : 0;
    RefBox r = refBox(g, scale), q = refBox(g, scale);
    switch (g.weighted({4, 3, 1, 2})) {
        case 1:  // within the first
            q.w   = r.w + int(g.range(0, r.len)) + FULL * int(g.range(-1, 1));
            q.len = int(g.range(0, r.len - mod(q.w - r.w) >= 0 ? r.len - mod(q.w - r.w) : 0));
            q.s   = int(g.range(r.s, r.n));
            q.n   = int(g.range(q.s, r.n));
            break;
        case 2: q = r; q.w += FULL * int(g.range(-1, 1)); break;
        case 3:  // sharing edges
            if (g.boolean()) q.w = r.w + r.len;
            if (g.boolean()) q.s = r.n, q.n = std::max(q.n, q.s);
            if (g.boolean()) q.n = r.s, q.s = std::min(q.n, q.s);
            break;
    }
    // what a box with a pole as a degenerate parallel covers is not settled: its meridians all meet there
    BoundingBox b = make(g, r), c = make(g, q);
    g.note([&](std::ostream& o) { o << "first " << r << " second " << q; });

    // equality
    {
        const bool eq = r.n == q.n && r.s == q.s && r.len == q.len && (mod(r.w - q.w) == 0);
        CHECK_EQ(b == c, eq, "equality");
        CHECK_EQ(b != c, !eq, "inequality");
        CHECK(b == shifted(b, 360) && b == shifted(b, -360), "a box is the same one after a turn");
    }

    // inclusion
    const int o = mod(q.w - r.w);
    const bool lonIn = r.len == FULL || o + q.len <= r.len || (o == 0 && q.len <= r.len);
    const bool latIn = r.s <= q.s && q.n <= r.n;
    const bool atPole = q.n == q.s && std::abs(q.n) == 90 * U;
    CHECK_EQ(b.contains(c), latIn && (lonIn || atPole), "whether the first contains the second");
    CHECK(b.contains(b), "a box contains itself");

    // intersection: the meridians shared are one range, two ranges or none
    const int s = std::max(r.s, q.s), n = std::min(r.n, q.n);
    std::vector<std::pair<int, int>> arcs;  // (start, length), starts relative to Greenwich
    if (r.len == FULL) arcs.push_back({q.w, q.len});
    else if (q.len == FULL) arcs.push_back({r.w, r.len});
    else {
        if (o <= r.len) arcs.push_back({q.w, std::min(q.len, r.len - o)});
        const int p = mod(r.w - q.w);
        if (p <= q.len && p != 0) arcs.push_back({r.w, std::min(r.len, q.len - p)});
    }
    // the two ranges may be adjacent
    BoundingBox x = c;
    const bool got = b.intersects(x);
    CHECK_EQ(got, s <= n && !arcs.empty(), "whether the boxes intersect");
    if (got) {
        CHECK(x.north() == deg(n) && x.south() == deg(s), "latitudes of the intersection");
        const double w = x.west() * U, e = x.east() * U;
        CHECK(w == std::floor(w) && e == std::floor(e), "longitudes of the intersection");
        if (arcs.size() == 1) {
            g.label("one range");
            CHECK_EQ(int(e - w), arcs[0].second, "range of longitudes of the intersection");
            if (arcs[0].second != FULL) CHECK_EQ(mod(int(w)), mod(arcs[0].first), "west of the intersection");
        }
        else {
            g.label("two ranges");
            bool either = false;
            for (auto& a : arcs) either = either || (int(e - w) == a.second && mod(int(w)) == mod(a.first));
            CHECK(either, "the intersection of longitudes is one of the two ranges");
        }
    }
    else
        g.label("none");
    BoundingBox y = b;
    CHECK_EQ(c.intersects(y), got, "intersection is symmetric");
    g.nontrivial(!b.empty() && !c.empty());
}

PBT(forms, 1) {
    RefBox r = refBox(g, g.chance(50));
    BoundingBox b = make(g, r);
    g.note([&](std::ostream& o) { o << r; });
    {
        std::unique_ptr<const Area> again(AreaFactory::build(b.spec()));
        auto* p = dynamic_cast<const BoundingBox*>(again.get());
        if (p) CHECK(*p == b, "the box made from the specification of a box");
        BoundingBox c(b.spec());
        CHECK(c == b, "the box made from the specification of a box");
        BoundingBox d(b), e;
        e = b;
        CHECK(d == b && e == b, "copies");
        auto a = b.deconstruct();
        CHECK(a[0] == b.north() && a[1] == b.west() && a[2] == b.south() && a[3] == b.east(), "deconstruct");
    }
    {   // bounds given one by one
        spec::Custom c;
        bool haveW = g.boolean(), haveE = g.boolean(), haveN = g.boolean(), haveS = g.boolean();
        if (haveN) c.set("north", deg(r.n));
        if (haveS) c.set("south", deg(r.s));
        if (haveW) c.set("west", deg(r.w));
        if (haveE) c.set("east", deg(r.w + r.len));
        RefBox want{haveN ? r.n : 90 * U, haveS ? r.s : -90 * U, haveW ? r.w : haveE ? r.w + r.len : 0,
                    haveW && haveE ? r.len : FULL};
        BoundingBox d(c);
        same(d, want, "the box made from single bounds");
    }
    // areas: additive, in proportion to the difference of the sines of the latitudes on a sphere
    const double R = 1. + g.range(0, 1000) / 10.;
    const double want = (r.len / double(FULL)) * 2 * M_PI * R * R *
                        (std::sin(deg(r.n) * M_PI / 180) - std::sin(deg(r.s) * M_PI / 180));
    figure::Sphere sphere(R);
    CHECK(std::abs(sphere.area(b) - want) <= 1e-11 * R * R, "area of the box on a sphere");
    // oblate spheroid: numerical integration of b^2 cos(phi) / (1 - e^2 sin^2 phi)^2
    {
        const double a  = R, bb = g.boolean() ? R * (1 - g.range(1, 900) / 1000.) : R * (1 - 1. / g.range(50, 500));
        const double e2 = 1 - bb * bb / (a * a);
        auto f = [&](double phi) { double q = 1 - e2 * std::sin(phi) * std::sin(phi); return std::cos(phi) / (q * q); };
        const double p0 = deg(r.s) * M_PI / 180, p1 = deg(r.n) * M_PI / 180;
        const int N = 2000;
        double sum = 0, h = (p1 - p0) / N;
        for (int i = 0; i <= N; ++i) sum += f(p0 + i * h) * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2);
        const double ref = bb * bb * (deg(r.len) * M_PI / 180) * sum * h / 3;
        figure::OblateSpheroid sph(a, bb);
        CHECK(std::abs(sph.area(b) - ref) <= 1e-6 * R * R, "area of the box on an oblate spheroid");
        CHECK(std::abs(sph.area(BoundingBox{90, 0, -90, 360}) - sph.area()) <= 1e-9 * R * R,
              "the area of the oblate spheroid is the area of the global box");
    }
    g.nontrivial(!b.empty());
}

PBT(rotated, 1) {
    // the box around a rotated one contains every point of it
    RefBox r;
    r.n   = int(g.range(-60, 60)) * U;
    r.s   = std::max(-80 * U, r.n - int(g.range(1, 40)) * U);
    r.w   = int(g.range(0, 359)) * U;
    r.len = int(g.range(1, 60)) * U;
    PointLonLat sp(double(g.range(-180, 179)), double(g.range(-90, 90)));
    const double angle = g.boolean() ? 0. : double(g.range(-180, 180));
    g.note([&](std::ostream& o) { o << r << " south pole " << sp << " angle " << angle; });
    projection::Rotation rot(sp, angle);
    // edges that pass near a pole have several extrema, of which the search finds one: not covered
    for (int i = 0; i <= 12; ++i)
        for (int j = 0; j <= 12; ++j)
            if (std::abs(rot.fwd(PointLonLat(deg(r.w) + deg(r.len) * i / 12, deg(r.s) + (deg(r.n) - deg(r.s)) * j / 12)).lat()) > 60) discard();
    auto box = BoundingBox::make_from_projection(PointLonLat{deg(r.w), deg(r.s)}, PointLonLat{deg(r.w + r.len), deg(r.n)}, rot);
    BoundingBox grown(std::min(90., box->north() + 1e-5), box->west() - 1e-5, std::max(-90., box->south() - 1e-5),
                      box->periodic() ? box->west() - 1e-5 + 360 : box->east() + 1e-5);
    g.note([&](std::ostream& o) { o.precision(12); o << "box " << box->north() << " " << box->west() << " " << box->south() << " " << box->east() << "\n"; });
    for (int i = 0; i <= 12; ++i)
        for (int j = 0; j <= 12; ++j) {
            PointLonLat p(deg(r.w) + deg(r.len) * i / 12, deg(r.s) + (deg(r.n) - deg(r.s)) * j / 12);
            auto q = rot.fwd(p);
            const bool in = grown.contains(q);
            if (!in) g.note([&](std::ostream& o) { o.precision(12); o << "point " << p << " is at " << q; });
            CHECK(in, "the box around the rotated box contains its points");
        }
    g.label(box->periodic() ? "periodic" : "not periodic");
    g.nontrivial(rot.rotated());
}
