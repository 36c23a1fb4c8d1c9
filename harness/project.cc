// C32: map projections.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/geo/Figure.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointXY.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/geo/Projection.h"
#include "eckit/geo/figure/OblateSpheroid.h"
#include "eckit/geo/figure/Sphere.h"
#include "eckit/geo/projection/AlbersEqualArea.h"
#include "eckit/geo/projection/Composer.h"
#include "eckit/geo/projection/EquidistantCylindrical.h"
#include "eckit/geo/projection/LambertAzimuthalEqualArea.h"
#include "eckit/geo/projection/LambertConformalConic.h"
#include "eckit/geo/projection/LonLatToXYZ.h"
#include "eckit/geo/projection/Mercator.h"
#include "eckit/geo/projection/PolarStereographic.h"
#include "eckit/geo/projection/Reverse.h"
#include "eckit/geo/projection/Rotation.h"
#include "eckit/geo/projection/Stretch.h"
#include "eckit/runtime/Main.h"
#include "eckit/spec/Custom.h"
#include <array>
#include <cmath>
#include <functional>
#include <memory>

using namespace pbt;
using namespace eckit;
using namespace eckit::geo;
using namespace eckit::geo::projection;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

constexpr double RAD = M_PI / 180.;
using V3 = std::array<double, 3>;

V3 xyz(double lon, double lat) {
    lon = std::remainder(lon, 360.);
    return {std::cos(lat * RAD) * std::cos(lon * RAD), std::cos(lat * RAD) * std::sin(lon * RAD), std::sin(lat * RAD)};
}
V3 xyz(const PointLonLat& p) { return xyz(p.lon(), p.lat()); }
double dist(const V3& a, const V3& b) {
    return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]));
}

PointXY fwd(const Projection& p, double lon, double lat) { return std::get<PointXY>(p.fwd(PointLonLat{lon, lat})); }
PointLonLat ll(const Point& p) { return std::get<PointLonLat>(p); }

struct Local {  // scales at a point, from finite differences: along the parallel, along the meridian, and the angle
    double h, k, cosine, area;
};
Local local(const Projection& p, double R, double e, double lon, double lat) {
    const double d = 2e-4;  // degree
    auto E = fwd(p, lon + d, lat), W = fwd(p, lon - d, lat), N = fwd(p, lon, lat + d), S = fwd(p, lon, lat - d);
    const double s = std::sin(lat * RAD), q = 1 - e * e * s * s;
    const double pr = R * std::cos(lat * RAD) / std::sqrt(q) * 2 * d * RAD;        // length of the parallel
    const double mr = R * (1 - e * e) / (q * std::sqrt(q)) * 2 * d * RAD;          // length of the meridian
    const double ax = (E.X() - W.X()) / pr, ay = (E.Y() - W.Y()) / pr, bx = (N.X() - S.X()) / mr, by = (N.Y() - S.Y()) / mr;
    Local l;
    l.k      = std::hypot(ax, ay);
    l.h      = std::hypot(bx, by);
    l.cosine = (ax * bx + ay * by) / (l.k * l.h);
    l.area   = ax * by - ay * bx;
    return l;
}

bool near(double a, double b, double eps) { return std::abs(a - b) <= eps * std::max(1., std::max(std::abs(a), std::abs(b))); }

// to the plane and back, and the same place whatever way it is written
void there(Gen& g, const Projection& p, double R, double lon, double lat, bool turns) {
    auto q = fwd(p, lon, lat);
    auto b = ll(p.inv(q));
    g.note([&](std::ostream& o) { o.precision(12); o << "point " << lon << " " << lat << " is at " << q << " and back at " << b; });
    CHECK(std::abs(b.lat() - lat) < 1e-6 && dist(xyz(b), xyz(lon, lat)) < 1e-8, "to the plane and back");
    if (turns) {
        const int n = int(g.range(-2, 2));
        auto t = fwd(p, lon + 360. * n, lat);
        g.note([&](std::ostream& o) { o.precision(12); o << n << " turns: at " << t; });
        CHECK(PointXY::distance(q, t) < 1e-6 * R, "turns do not matter");
    }
}

void respec(const Projection& p, const std::function<bool(const Projection&)>& same) {
    std::unique_ptr<const Projection> again(ProjectionFactory::build(p.spec()));
    CHECK(again->spec_str() == p.spec_str() && *again == p, "the specification of the projection made from a specification");
    CHECK(same(*again), "the projection made from the specification of one maps the same way");
}

double plainLon(Gen& g) { return g.chance(60) ? double(g.range(-180, 360)) : g.real(-180, 360); }

}  // namespace

PBT(conic, 3) {
    const double R = g.boolean() ? 1. : g.real(0.5, 7e6);
    const bool lcc = g.boolean();
    const int sign = g.boolean() ? 1 : -1;
    const double lon0 = plainLon(g), lat1 = sign * double(g.range(15, 75)), lat2 = g.chance(25) ? lat1 : sign * double(g.range(15, 75)),
                 lat0 = sign * double(g.range(0, 80));
    g.note([&](std::ostream& o) { o << (lcc ? "lcc" : "aea") << " lon_0 " << lon0 << " lat_0 " << lat0 << " lat_1 " << lat1 << " lat_2 " << lat2 << " R " << R; });
    std::unique_ptr<Projection> p;
    if (lcc) p.reset(new LambertConformalConic(lat1, lon0, lat0, lat2, new figure::Sphere(R)));
    else p.reset(new AlbersEqualArea(lon0, lat0, lat1, lat2, new figure::Sphere(R)));
    if (!lcc && g.boolean()) p->falseXY({g.real(-1e3, 1e3), g.real(-1e3, 1e3)});
    const auto f = p->falseXY();
    for (int i = 0; i < 5; ++i) {
        // not on the far meridian, where the map is cut
        const double lon = lon0 + (g.boolean() ? double(g.range(-170, 170)) : g.real(-179, 179)), lat = g.boolean() ? double(g.range(-75, 80)) * sign : g.real(-75, 80) * sign;
        there(g, *p, R, lon, lat, true);
        auto l = local(*p, R, 0, lon, lat);
        CHECK(std::abs(l.cosine) < 1e-5, "parallels and meridians cross at right angles");
        if (lcc) CHECK(near(l.h, l.k, 1e-5), "conformal: the scale is the same in all directions");
        else CHECK(near(l.area, 1, 1e-5), "areas are kept");
    }
    const double lon = lon0 + g.range(-170, 170);
    for (double y : {lat1, lat2}) {
        auto l = local(*p, R, 0, lon, y);
        CHECK(near(l.k, 1, 1e-5), "the scale is true along the standard parallels");
    }
    auto o = fwd(*p, lon0, lat0);
    CHECK(PointXY::distance(o, f) < 1e-7 * R, "the origin");
    auto m = fwd(*p, lon0, sign * 45.), n = fwd(*p, lon0, sign * 50.), e = fwd(*p, lon0 + 1, sign * 45.);
    CHECK(std::abs(m.X() - f.X()) < 1e-7 * R, "the central meridian");
    CHECK((n.Y() - m.Y()) * sign > 0 && e.X() > m.X(), "North is up and East is to the right");
    if (f == PointXY{0, 0})
        respec(*p, [&](const Projection& q) { return PointXY::distance(fwd(q, lon, 33. * sign), fwd(*p, lon, 33. * sign)) < 1e-9 * R; });
    g.nontrivial(lat1 != lat2);
}

PBT(mercator, 2) {
    const double a = g.boolean() ? 1. : g.real(0.5, 7e6);
    const bool oblate = g.boolean();
    const double b = oblate ? a * (1 - 1. / g.range(100, 400)) : a, e = std::sqrt(1 - b * b / (a * a));
    const double lon0 = double(g.range(-180, 180)), ts = double(g.range(-60, 60)), lon1 = double(g.range(-180, 180)), lat1 = double(g.range(-80, 80));
    g.note([&](std::ostream& o) { o << "lon_0 " << lon0 << " lat_ts " << ts << " first " << lon1 << " " << lat1 << " a " << a << " e " << e; });
    Figure* fig = oblate ? static_cast<Figure*>(new figure::OblateSpheroid(a, b)) : new figure::Sphere(a);
    Mercator p({lon0, ts}, {lon1, lat1}, fig);
    for (int i = 0; i < 5; ++i) {
        const double lon = plainLon(g), lat = g.boolean() ? double(g.range(-85, 85)) : g.real(-85, 85);
        there(g, p, a, lon, lat, false);
        auto l = local(p, a, e, lon, lat);
        CHECK(std::abs(l.cosine) < 1e-5 && near(l.h, l.k, 1e-5), "conformal: the scale is the same in all directions");
        CHECK(std::abs(fwd(p, lon, lat).Y() - fwd(p, lon + 10, lat).Y()) < 1e-9 * a, "parallels are horizontal");
        CHECK(near(local(p, a, e, lon, ts).k, 1, 1e-5), "the scale is true along the standard parallel");
        CHECK(fwd(p, lon, lat + 1).Y() > fwd(p, lon, lat).Y() && fwd(p, lon + 1, lat).X() > fwd(p, lon, lat).X(), "North is up and East is to the right");
    }
    CHECK(PointXY::distance(fwd(p, lon1, lat1), {0, 0}) < 1e-7 * a, "the first point is the origin");
    g.nontrivial(oblate);
}

PBT(azimuthal, 3) {
    const double R = g.boolean() ? 1. : g.real(0.5, 7e6);
    const bool laea = g.boolean();
    const double lon0 = plainLon(g);
    double lat0 = laea ? double(g.range(-90, 90)) : g.pick<double>({90, -90, 60, -60, 75});
    const double lon1 = lon0 + double(g.range(-20, 20)), lat1 = laea ? lat0 : (lat0 > 0 ? 1 : -1) * double(g.range(20, 80));
    g.note([&](std::ostream& o) { o << (laea ? "laea" : "stere") << " centre " << lon0 << " " << lat0 << " first " << lon1 << " " << lat1 << " R " << R; });
    std::unique_ptr<Projection> p;
    if (laea) p.reset(new LambertAzimuthalEqualArea({lon0, lat0}, {lon1, lat1}, new figure::Sphere(R)));
    else p.reset(new PolarStereographic({lon0, lat0}, {lon1, lat1}, new figure::Sphere(R)));
    const int sign = lat0 < 0 ? -1 : 1;
    for (int i = 0; i < 5; ++i) {
        const double lon = plainLon(g), lat = laea ? double(g.range(-85, 85)) : sign * double(g.range(-60, 89));
        if (laea && dist(xyz(lon, lat), xyz(lon0, lat0)) > 1.99) continue;  // the antipode of the centre
        there(g, *p, R, lon, lat, true);
        auto l = local(*p, R, 0, lon, lat);
        if (laea) CHECK(near(l.area, 1, 1e-4), "areas are kept");
        else CHECK(std::abs(l.cosine) < 1e-5 && near(l.h, l.k, 1e-5) && l.area > 0, "conformal: the scale is the same in all directions");
    }
    if (laea) {
        auto c = fwd(*p, lon0, lat0);
        CHECK(PointXY::distance(c, {0, 0}) < 1e-7 * R, "the centre is the origin");
        CHECK(dist(xyz(ll(p->inv(PointXY{0, 0}))), xyz(lon0, lat0)) < 1e-8, "the centre and back");
        // distance to the centre is the chord
        const double lon = plainLon(g), lat = double(g.range(-80, 80));
        if (dist(xyz(lon, lat), xyz(lon0, lat0)) < 1.99)
            CHECK(near(PointXY::distance(fwd(*p, lon, lat), {0, 0}) / R, dist(xyz(lon, lat), xyz(lon0, lat0)), 1e-7), "distances to the centre");
        respec(*p, [&](const Projection& q) { return PointXY::distance(fwd(q, lon0 + 20, 33.), fwd(*p, lon0 + 20, 33.)) < 1e-9 * R; });
    }
    else {
        CHECK(PointXY::distance(fwd(*p, lon1, lat1), {0, 0}) < 1e-7 * R, "the first point is the origin");
        if (std::abs(lat0) < 90) CHECK(near(local(*p, R, 0, lon0 + 33, lat0).k, 1, 1e-5), "the scale is true at the standard parallel");
        else CHECK(near(local(*p, R, 0, lon0 + 33, sign * 89.9).k, 1, 1e-5), "the scale is true at the pole");
    }
    g.nontrivial(laea ? lat0 != 0 && std::abs(lat0) != 90 : lat1 != 0);
}

PBT(sphere, 3) {
    // from the sphere to the sphere
    const double lonP = g.boolean() ? double(g.range(-180, 180)) : g.real(-180, 180), latP = g.weighted({3, 1, 1, 2}) == 0 ? g.real(-89, 89) : g.pick<double>({-90, 90, 0, -45, -30});
    const double angle = g.weighted({2, 1}) == 0 ? 0. : double(g.range(-180, 180));
    g.note([&](std::ostream& o) { o.precision(12); o << "south pole " << lonP << " " << latP << " angle " << angle; });
    Rotation r({lonP, latP}, angle);
    Reverse<Rotation> rev(PointLonLat{lonP, latP}, angle);
    std::unique_ptr<const Projection> s;
    if (r.rotated()) {
        s.reset(ProjectionFactory::build(r.spec()));
        CHECK(s->spec_str() == r.spec_str(), "the specification of the rotation made from a specification");
    }
    CHECK(dist(xyz(r.fwd(PointLonLat{0, -90})), xyz(lonP, latP)) < 1e-8, "the South pole of the rotation");
    PointLonLat last(0, 0), lastTo(0, 0);
    const double c = g.pick<double>({1., 2., 2.5, 0.4, 3.5, -2.}) ;
    Stretch st(std::abs(c));
    Rotation limit({lonP, -90 + 1e-6}, angle);
    for (int i = 0; i < 6; ++i) {
        const PointLonLat p(plainLon(g), g.boolean() ? double(g.range(-90, 90)) : g.real(-90, 90));
        const auto q = r.fwd(p);
        g.note([&](std::ostream& o) { o.precision(12); o << p << " is at " << q; });
        CHECK(dist(xyz(r.inv(q)), xyz(p)) < 1e-7, "rotated and back");
        CHECK(dist(xyz(r.fwd(r.inv(p))), xyz(p)) < 1e-7, "back and rotated");
        if (i) CHECK(std::abs(dist(xyz(p), xyz(last)) - dist(xyz(q), xyz(lastTo))) < 1e-7, "a rotation keeps distances");
        CHECK(dist(xyz(ll(rev.fwd(q))), xyz(p)) < 1e-7 && dist(xyz(ll(rev.inv(p))), xyz(q)) < 1e-7, "the reverse of a rotation");
        if (s) CHECK(dist(xyz(ll(s->fwd(p))), xyz(q)) < 1e-7, "the rotation made from the specification of one maps the same way");
        if (latP == -90) CHECK(dist(xyz(limit.fwd(p)), xyz(q)) < 1e-6, "a rotation is the limit of those nearby");
        last = p, lastTo = q;

        // stretching: tan of half the colatitude is divided by the factor
        const auto t = st.fwd(p);
        g.note([&](std::ostream& o) { o.precision(12); o << "stretched by " << std::abs(c) << ": " << t; });
        CHECK(std::abs(st.inv(t).lat() - p.lat()) < 1e-6 && dist(xyz(st.inv(t)), xyz(p)) < 1e-7, "stretched and back");
        const double half = std::tan((90 - p.lat()) * RAD / 2) / std::abs(c);
        if (std::abs(p.lat()) < 89.9) {
            CHECK(std::abs(2 * std::atan(half) / RAD - (90 - t.lat())) < 1e-6, "the latitude stretched");
            CHECK(std::abs(std::remainder(t.lon() - p.lon(), 360.)) < 1e-9, "the longitude is kept");
        }
    }
    g.nontrivial(r.rotated() && std::abs(latP) != 90);
}

PBT(others, 2) {
    const double ts = g.boolean() ? 0. : double(g.range(-80, 80)), lat0 = g.boolean() ? 0. : double(g.range(-80, 80));
    EquidistantCylindrical e(ts, lat0);
    const PointLonLat p(plainLon(g), g.boolean() ? double(g.range(-90, 90)) : g.real(-90, 90));
    g.note([&](std::ostream& o) { o << "lat_ts " << ts << " lat_0 " << lat0 << " point " << p; });
    const auto q = fwd(e, p.lon(), p.lat());
    CHECK(near(q.X(), p.lon() * std::cos(ts * RAD), 1e-12) && near(q.Y(), p.lat() - lat0, 1e-12), "equidistant cylindrical");
    const auto b = ll(e.inv(q));
    CHECK(near(b.lon(), p.lon(), 1e-12) && near(b.lat(), p.lat(), 1e-12), "to the plane and back");

    const double R = g.real(0.5, 10), bb = g.boolean() ? R : R * g.real(0.8, 1);
    LonLatToXYZ x(R, bb);
    auto c = x.fwd(p);
    CHECK(near((c.X() * c.X() + c.Y() * c.Y()) / (R * R) + c.Z() * c.Z() / (bb * bb), 1, 1e-9), "on the figure");
    if (bb == R) CHECK(dist(xyz(x.inv(c)), xyz(p)) < 1e-7, "to space and back");

    // composition: forward in order, back in the opposite order
    const double lonP = double(g.range(-180, 180)), latP = double(g.range(-89, 89));
    const double f = g.pick<double>({1., 2., 0.5, 3.});
    std::vector<Projection*> parts;
    auto mk = [&](int k) -> Projection* {
        if (k == 0) return new Rotation({lonP, latP}, 0.);
        if (k == 1) return new Stretch(f);
        return new Rotation({latP, lonP / 2.1}, 0.);
    };
    std::vector<int> kinds;
    size_t n = 1 + g.idx(4);
    Composer comp;
    Point w = p;
    std::vector<std::unique_ptr<Projection>> own;
    for (size_t i = 0; i < n; ++i) {
        int k = int(g.range(0, 2));
        kinds.push_back(k);
        comp.emplace_back(mk(k));
        own.emplace_back(mk(k));
        w = own.back()->fwd(w);
    }
    if (g.boolean()) {
        comp.emplace_back(new EquidistantCylindrical(ts, lat0));
        own.emplace_back(new EquidistantCylindrical(ts, lat0));
        w = own.back()->fwd(w);
        auto got = std::get<PointXY>(comp.fwd(p));
        CHECK(PointXY::distance(got, std::get<PointXY>(w)) < 1e-9, "composition");
    }
    else
        CHECK(dist(xyz(ll(comp.fwd(p))), xyz(ll(w))) < 1e-9, "composition");
    auto pts = comp.fwd_points(p);
    CHECK_EQ(pts.size(), own.size(), "the points of a composition");
    g.note([&](std::ostream& o) { o << "composition of"; for (int k : kinds) o << " " << k; });
    CHECK(dist(xyz(ll(comp.inv(comp.fwd(p)))), xyz(p)) < 1e-5, "composition and back");
    auto back = comp.inv_points(comp.fwd(p));
    CHECK(back.size() == own.size() && dist(xyz(ll(back.back())), xyz(p)) < 1e-5, "the points of the inverse of a composition");
    g.nontrivial(n > 1);
}
