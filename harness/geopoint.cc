// C34: points, spheres and great circles.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/geo/GreatCircle.h"
#include "eckit/geo/PointLonLat.h"
#include "eckit/geo/PointLonLatR.h"
#include "eckit/geo/PointXYZ.h"
#include "eckit/geo/figure/OblateSpheroid.h"
#include "eckit/geo/figure/Sphere.h"
#include "eckit/geometry/CoordinateHelpers.h"
#include "eckit/geometry/EllipsoidOfRevolution.h"
#include "eckit/geometry/GreatCircle.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"
#include "eckit/geometry/Sphere.h"
#include "eckit/runtime/Main.h"
#include <array>
#include <cmath>

using namespace pbt;
using namespace eckit;
using namespace eckit::geo;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

constexpr double RAD = M_PI / 180.;
using V3 = std::array<double, 3>;

V3 xyz(double lon, double lat) {
    // exact reduction of the angles first
    lon = std::remainder(lon, 360.);
    lat = std::remainder(lat, 360.);
    return {std::cos(lat * RAD) * std::cos(lon * RAD), std::cos(lat * RAD) * std::sin(lon * RAD), std::sin(lat * RAD)};
}
V3 xyz(const PointLonLat& p) { return xyz(p.lon(), p.lat()); }
V3 cross(const V3& a, const V3& b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double norm(const V3& a) { return std::sqrt(dot(a, a)); }
double dist(const V3& a, const V3& b) { return norm({a[0] - b[0], a[1] - b[1], a[2] - b[2]}); }
double angle(const V3& a, const V3& b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }

// degrees, on a grid of 1/8 (exact) or anything
double anyAngle(Gen& g, int range) {
    switch (g.weighted({4, 3, 2})) {
        case 0: return g.range(-range * 8, range * 8) / 8.;
        case 1: return double(g.range(-range / 45, range / 45)) * 45.;
        default: return g.real(-range, range);
    }
}
PointLonLat usual(Gen& g) {
    double lat = g.chance(50) ? g.range(-89, 89) : g.real(-89.9, 89.9);
    double lon = g.chance(50) ? g.range(-180, 360) : g.real(-180, 360);
    return {lon, lat};
}

}  // namespace

PBT(normal, 3) {
    const double a = anyAngle(g, 2000), m = g.pick<double>({0., -180., -90., 90., -360., 12.5});
    g.note([&](std::ostream& o) { o.precision(17); o << "angle " << a << " bound " << m; });
    const bool exact = a * 8 == std::floor(a * 8);
    {
        const double lo = PointLonLat::normalise_angle_to_minimum(a, m), hi = PointLonLat::normalise_angle_to_maximum(a, m);
        if (exact) {
            CHECK(m <= lo && lo < m + 360, "normalise_angle_to_minimum is in [minimum, minimum + 360[");
            CHECK(m - 360 < hi && hi <= m, "normalise_angle_to_maximum is in ]maximum - 360, maximum]");
            CHECK(std::remainder(lo - a, 360.) == 0 && std::remainder(hi - a, 360.) == 0, "normalised to the same angle");
        }
        else {
            CHECK(m - 1e-200 <= lo && lo <= m + 360, "normalise_angle_to_minimum is in [minimum, minimum + 360]");
            CHECK(m - 360 <= hi && hi <= m + 1e-200, "normalise_angle_to_maximum is in [maximum - 360, maximum]");
            CHECK(std::abs(std::remainder(lo - a, 360.)) < 1e-9 && std::abs(std::remainder(hi - a, 360.)) < 1e-9,
                  "normalised to the same angle");
        }
    }
    const double lon = anyAngle(g, 1000), lat = anyAngle(g, 800);
    g.note([&](std::ostream& o) { o.precision(17); o << "point " << lon << " " << lat; });
    const PointLonLat p(lon, lat), q = PointLonLat::make(lon, lat, m);
    CHECK(-90 <= q.lat() && q.lat() <= 90, "latitude of a normalised point");
    const bool pole = std::abs(q.lat()) == 90;
    CHECK(pole ? q.lon() == 0 : m - 1e-200 <= q.lon() && q.lon() <= m + 360, "longitude of a normalised point");
    CHECK(dist(xyz(p), xyz(q)) < 1e-9, "a normalised point is the same place");
    const auto r = PointLonLat::make(q.lon(), q.lat(), m);
    CHECK(r.lon() == q.lon() && r.lat() == q.lat(), "normalisation of a normalised point");
    const bool atNorth = dist(xyz(p), {0, 0, 1}) < 1e-12, atSouth = dist(xyz(p), {0, 0, -1}) < 1e-12;
    CHECK_EQ(p.north_pole(), atNorth, "north_pole");
    CHECK_EQ(p.south_pole(), atSouth, "south_pole");
    CHECK_EQ(p.pole(), atNorth || atSouth, "pole");
    {
        const auto a1 = p.antipode();
        V3 n = xyz(p);
        CHECK(dist(xyz(a1), {-n[0], -n[1], -n[2]}) < 1e-9, "the antipode is opposite");
        CHECK(points_equal(a1.antipode(), p), "the antipode of the antipode");
    }
    // the same place written in another way, and a place nearby
    {
        PointLonLat s = g.boolean() ? PointLonLat(lon + 360. * g.range(-2, 2), lat + 360. * g.range(-1, 1))
                                    : PointLonLat(lon + 180. + 360. * g.range(-1, 1), 180. - lat);
        CHECK(points_equal(p, s), "points_equal of two ways to write a point");
        const double d = g.pick<double>({1e-10, -1e-10, 2e-10});
        PointLonLat t(s.lon() + d, s.lat());
        g.note([&](std::ostream& o) { o.precision(17); o << "and " << t; });
        CHECK(points_equal(p, t) && points_equal(t, p), "points_equal of points nearer than the tolerance");
        const double f = g.pick<double>({1e-6, 1, 90, 180, -1e-6});
        PointLonLat u(s.lon() + (std::abs(q.lat()) < 89 ? f : 0), s.lat() + (std::abs(q.lat()) < 89 ? 0 : 1e-6));
        CHECK(!points_equal(p, u), "points_equal of points that differ");
    }
    {
        const auto rr = PointLonLatR::make_from_lonlat(q.lon(), q.lat());
        const auto back = PointLonLat::make_from_lonlatr(rr.lonr(), rr.latr());
        CHECK(dist(xyz(back), xyz(q)) < 1e-12, "degrees to radians and back");
    }
    g.nontrivial(std::abs(lat) > 90 && !pole);
}

PBT(sphere, 3) {
    const double R = g.boolean() ? 1. : g.real(0.5, 7e6);
    const PointLonLat p(anyAngle(g, 400), anyAngle(g, 200));
    PointLonLat q(anyAngle(g, 400), anyAngle(g, 200)), r = usual(g);
    if (g.chance(20)) q = PointLonLat(p.lon() + g.real(-1e-3, 1e-3), p.lat() + g.real(-1e-3, 1e-3));
    if (g.chance(10)) q = p.antipode();
    g.note([&](std::ostream& o) { o.precision(17); o << p << " " << q << " " << r << " R " << R; });
    const double want = angle(xyz(p), xyz(q)), got = figure::Sphere::centralAngle(p, q);
    CHECK(std::abs(got - want) < 1e-9, "central angle");
    CHECK(std::abs(figure::Sphere::centralAngle(q, p) - got) < 1e-12, "the central angle is symmetric");
    CHECK(figure::Sphere::centralAngle(p, p) == 0, "the central angle of a point with itself");
    CHECK(figure::Sphere::centralAngle(p, r) + figure::Sphere::centralAngle(r, q) >= got - 1e-9, "triangle inequality");
    CHECK(std::abs(figure::Sphere::distance(R, p, q) - R * want) < 1e-9 * R, "distance");
    const auto c = figure::Sphere::convertSphericalToCartesian(R, p), d = figure::Sphere::convertSphericalToCartesian(R, q);
    V3 v = xyz(p);
    CHECK(dist({c.X() / R, c.Y() / R, c.Z() / R}, v) < 1e-9, "Cartesian coordinates");
    const double chordAngle = figure::Sphere::centralAngle(R, c, d);
    if (want < 3.1) CHECK(std::abs(chordAngle - want) < 1e-7, "central angle from Cartesian coordinates");
    if (want < 3.1) CHECK(std::abs(figure::Sphere::distance(R, c, d) - R * want) < 1e-7 * R, "distance from Cartesian coordinates");
    const auto back = figure::Sphere::convertCartesianToSpherical(R, c);
    CHECK(dist(xyz(back), v) < 1e-7, "to Cartesian coordinates and back");
    const double h = g.real(0, 100);
    const auto e = figure::Sphere::convertSphericalToCartesian(R, p, h);
    CHECK(std::abs(std::sqrt(e.X() * e.X() + e.Y() * e.Y() + e.Z() * e.Z()) - (R + h)) < 1e-9 * (R + h), "height");
    {   // oblate: the point is on the ellipsoid, and the normal there has the latitude
        const double b = R * g.real(0.5, 1);
        const auto f = figure::OblateSpheroid::convertSphericalToCartesian(R, b, p, 0.);
        const double on = (f.X() * f.X() + f.Y() * f.Y()) / (R * R) + f.Z() * f.Z() / (b * b);
        CHECK(std::abs(on - 1) < 1e-9, "the point is on the ellipsoid");
        V3 n{f.X() / (R * R), f.Y() / (R * R), f.Z() / (b * b)};
        const double l = norm(n);
        CHECK(dist({n[0] / l, n[1] / l, n[2] / l}, v) < 1e-7, "the normal to the ellipsoid has the direction of the point");
        const auto k = figure::OblateSpheroid::convertSphericalToCartesian(R, b, p, h);
        CHECK(std::abs((k.X() - f.X()) - h * v[0]) < 1e-7 * R && std::abs((k.Y() - f.Y()) - h * v[1]) < 1e-7 * R &&
                  std::abs((k.Z() - f.Z()) - h * v[2]) < 1e-7 * R, "the height is along the normal");
    }
    g.nontrivial(want > 1e-3 && want < 3.1);
}

PBT(circle, 3) {
    PointLonLat a = usual(g), b = usual(g);
    bool meridian = false;
    switch (g.weighted({6, 2, 1, 1, 1, 1})) {
        case 1: meridian = true; a = PointLonLat(double(g.range(-180, 360)), a.lat()); if (g.chance(20)) b = PointLonLat(b.lon(), g.boolean() ? a.lat() : -a.lat());
            b = PointLonLat(a.lon() + g.pick<double>({0., 180., -180., 360.}), b.lat()); break;  // a meridian
        case 2: b = PointLonLat(b.lon(), a.lat()); break;
        case 3: a = PointLonLat(a.lon(), 0), b = PointLonLat(b.lon(), 0); break;  // the equator
        case 4: meridian = true; b = PointLonLat(b.lon(), g.boolean() ? 90. : -90.); break;
        case 5: meridian = true; a = PointLonLat(a.lon(), g.boolean() ? 90. : -90.); break;
    }
    const V3 A = xyz(a), B = xyz(b);
    V3 n = cross(A, B);
    const double l = norm(n);
    g.note([&](std::ostream& o) { o.precision(17); o << a << " " << b; });
    if (l < 1e-12) {
        if (!meridian || std::abs(a.lat()) != std::abs(b.lat())) discard();
        g.label("collinear");
        CHECK(throws([&] { GreatCircle c(a, b); }), "a great circle through a point and itself or its antipode");
        return;
    }
    if (l < 0.05) discard();
    for (auto& x : n) x /= l;
    const bool polar = meridian;
    if (!polar && std::abs(n[2]) < 1e-3) discard();  // too close to decide
    GreatCircle c(a, b);
    CHECK_EQ(c.crossesPoles(), polar, "crossesPoles");
    const double maxLat = std::acos(std::min(1., std::abs(n[2]))) / RAD;
    for (int i = 0; i < 6; ++i) {
        const double lon = g.boolean() ? g.range(-360, 360) : g.real(-360, 360);
        auto lats = c.latitude(lon);
        CHECK_EQ(lats.size(), size_t(polar ? 0 : 1), "latitudes at a longitude");
        for (auto y : lats) {
            g.note([&](std::ostream& o) { o.precision(17); o << "longitude " << lon << " latitude " << y; });
            CHECK(std::abs(dot(n, xyz(lon, y))) < 1e-8 / std::abs(n[2]) , "the point of given longitude is on the great circle");
        }
        const double lat = g.boolean() ? g.range(-89, 89) : g.real(-89, 89);
        if (maxLat < 1e-3 || std::abs(std::abs(lat) - maxLat) < 1e-3) continue;
        auto lons = c.longitude(lat);
        g.note([&](std::ostream& o) { o.precision(17); o << "latitude " << lat << " longitudes " << lons.size(); });
        CHECK_EQ(lons.size(), size_t(polar || std::abs(lat) < maxLat ? 2 : 0), "longitudes at a latitude");
        for (auto x : lons) {
            g.note([&](std::ostream& o) { o.precision(17); o << "latitude " << lat << " longitude " << x; });
            CHECK(std::abs(dot(n, xyz(x, lat))) < 1e-7, "the point of given latitude is on the great circle");
        }
        if (lons.size() == 2)
            CHECK(dist(xyz(lons[0], lat), xyz(lons[1], lat)) > 1e-7, "the two points of given latitude differ");
    }
    if (maxLat < 1e-9 && !polar) CHECK(c.longitude(0).empty(), "longitudes on the equator");
    // the course at A and B: direction of the shortest arc, clockwise from North
    if (std::abs(a.lat()) < 89.95 && std::abs(b.lat()) < 89.95) {
        auto course = c.course();
        auto bearing = [&](const PointLonLat& p, const V3& dir) {
            const double lo = p.lon() * RAD, la = p.lat() * RAD;
            V3 east{-std::sin(lo), std::cos(lo), 0}, north{-std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la)};
            return std::atan2(dot(dir, east), dot(dir, north)) / RAD;
        };
        V3 tA = cross(n, A), tB = cross(n, B);  // from A to B
        CHECK(std::abs(std::remainder(course.first - bearing(a, tA), 360.)) < 1e-6, "course at the first point");
        CHECK(std::abs(std::remainder(course.second - bearing(b, tB), 360.)) < 1e-6, "course at the second point");
    }
    g.nontrivial(!polar && maxLat > 1);
}

// ------------------------------------------------------------------ the older library of geometry

PBT(old_sphere, 2) {
    namespace G = eckit::geometry;
    const double R = g.boolean() ? 1. : g.real(0.5, 7e6);
    const G::Point2 p(anyAngle(g, 4000), anyAngle(g, 2000)), r(anyAngle(g, 400), anyAngle(g, 89));
    G::Point2 q(anyAngle(g, 400), anyAngle(g, 200));
    if (g.chance(20)) q = G::Point2(p[0] + g.real(-1e-3, 1e-3), p[1] + g.real(-1e-3, 1e-3));
    if (g.chance(10)) q = G::Point2(p[0] + 180., -p[1]);
    g.note([&](std::ostream& o) { o.precision(17); o << p << " " << q << " " << r << " R " << R; });
    auto vec = [](const G::Point2& x) { return xyz(x[0], x[1]); };
    {
        const double m = g.pick<double>({0., -180., -360., 12.5});
        const auto c = G::canonicaliseOnSphere(p, m);
        CHECK(dist(vec(c), vec(p)) < 1e-9, "canonicaliseOnSphere keeps the place: " << c);
        CHECK(c[0] >= m && c[0] < m + 360 && std::abs(c[1]) <= 90, "canonicaliseOnSphere meets the bounds: " << c);
        const double a = G::normalise_angle(p[0], m);
        CHECK(a >= m && a < m + 360 && std::abs(std::remainder(a - p[0], 360.)) < 1e-9, "normalise_angle " << a);
    }
    const double want = angle(vec(p), vec(q)), got = G::Sphere::centralAngle(p, q, true);
    CHECK(std::abs(got - want) < 1e-9, "central angle");
    CHECK(std::abs(G::Sphere::centralAngle(q, p, true) - got) < 1e-12, "the central angle is symmetric");
    CHECK(G::Sphere::centralAngle(p, r, true) + G::Sphere::centralAngle(r, q, true) >= got - 1e-9, "triangle inequality");
    CHECK(std::abs(G::Sphere::distance(R, p, q) - R * want) < 1e-9 * R, "distance");
    const bool refused = std::abs(p[1]) > 90 || std::abs(q[1]) > 90;
    CHECK_EQ(throws([&] { G::Sphere::centralAngle(p, q); }), refused, "a latitude beyond the poles is refused");
    const double h = g.boolean() ? 0. : g.real(0, 100);
    G::Point3 c, d;
    G::Sphere::convertSphericalToCartesian(R, p, c, h, true);
    G::Sphere::convertSphericalToCartesian(R, q, d, 0., true);
    const V3 v = vec(p);
    CHECK(dist({c[0] / (R + h), c[1] / (R + h), c[2] / (R + h)}, v) < 1e-7, "Cartesian coordinates");
    if (want < 3.1 && h == 0) {
        CHECK(std::abs(G::Sphere::centralAngle(R, c, d) - want) < 1e-7, "central angle from Cartesian coordinates");
        CHECK(std::abs(G::Sphere::distance(R, c, d) - R * want) < 1e-7 * R, "distance from Cartesian coordinates");
    }
    G::Point2 back;
    G::Sphere::convertCartesianToSpherical(R, d, back);
    CHECK(dist(vec(back), vec(q)) < 1e-7, "to Cartesian coordinates and back");
    {   // the area between parallels and meridians
        double n = g.range(-90, 90), s = g.range(-90, 90), w = g.range(-360, 360), e = w + g.range(0, 360);
        if (n < s) std::swap(n, s);
        const double part = G::Sphere::area(R, G::Point2(w, n), G::Point2(e + 360. * g.range(-1, 1), s));
        if (e - w > 0 && e - w < 360)
            CHECK(std::abs(part - 2 * M_PI * R * R * (std::sin(n * RAD) - std::sin(s * RAD)) * (e - w) / 360) < 1e-9 * R * R, "area of a part");
        CHECK(std::abs(G::Sphere::area(R, G::Point2(w, n), G::Point2(w + 360, s)) - 2 * M_PI * R * R * (std::sin(n * RAD) - std::sin(s * RAD))) < 1e-9 * R * R, "area of a band");
        CHECK(std::abs(G::Sphere::area(R) - 4 * M_PI * R * R) < 1e-9 * R * R, "area");
    }
    {
        const double b = R * g.real(0.5, 1);
        G::Point3 f, k;
        G::EllipsoidOfRevolution::convertSphericalToCartesian(R, b, p, f, 0., true);
        CHECK(std::abs((f[0] * f[0] + f[1] * f[1]) / (R * R) + f[2] * f[2] / (b * b) - 1) < 1e-7, "the point is on the ellipsoid");
        V3 n{f[0] / (R * R), f[1] / (R * R), f[2] / (b * b)};
        const double l = norm(n);
        CHECK(dist({n[0] / l, n[1] / l, n[2] / l}, v) < 1e-7, "the normal to the ellipsoid has the direction of the point");
        G::EllipsoidOfRevolution::convertSphericalToCartesian(R, b, p, k, h, true);
        CHECK(std::abs((k[0] - f[0]) - h * v[0]) < 1e-6 * (R + h) && std::abs((k[1] - f[1]) - h * v[1]) < 1e-6 * (R + h) &&
                  std::abs((k[2] - f[2]) - h * v[2]) < 1e-6 * (R + h), "the height is along the normal");
    }
    g.nontrivial(want > 1e-3 && want < 3.1);
}

PBT(old_circle, 2) {
    namespace G = eckit::geometry;
    PointLonLat a = usual(g), b = usual(g);
    bool meridian = false;
    switch (g.weighted({6, 2, 1, 1, 1, 1})) {
        case 1: meridian = true; a = PointLonLat(double(g.range(-180, 360)), a.lat());
            b = PointLonLat(a.lon() + g.pick<double>({0., 180., -180., 360.}), b.lat()); break;
        case 2: b = PointLonLat(b.lon(), a.lat()); break;
        case 3: a = PointLonLat(a.lon(), 0), b = PointLonLat(b.lon(), 0); break;
        case 4: meridian = true; b = PointLonLat(b.lon(), g.boolean() ? 90. : -90.); break;
        case 5: meridian = true; a = PointLonLat(a.lon(), g.boolean() ? 90. : -90.); break;
    }
    const V3 A = xyz(a), B = xyz(b);
    V3 n = cross(A, B);
    const double l = norm(n);
    g.note([&](std::ostream& o) { o.precision(17); o << a << " " << b; });
    const G::Point2 pa(a.lon(), a.lat()), pb(b.lon(), b.lat());
    if (l < 1e-12) {
        if (!meridian || std::abs(a.lat()) != std::abs(b.lat())) discard();
        CHECK(throws([&] { G::GreatCircle c(pa, pb); }), "a great circle through a point and itself or its antipode");
        return;
    }
    if (l < 0.05) discard();
    for (auto& x : n) x /= l;
    if (!meridian && std::abs(n[2]) < 1e-3) discard();
    G::GreatCircle c(pa, pb);
    CHECK_EQ(c.crossesPoles(), meridian, "crossesPoles");
    const double maxLat = std::acos(std::min(1., std::abs(n[2]))) / RAD;
    for (int i = 0; i < 6; ++i) {
        const double lon = g.boolean() ? g.range(-360, 360) : g.real(-360, 360);
        auto lats = c.latitude(lon);
        CHECK_EQ(lats.size(), size_t(meridian ? 0 : 1), "latitudes at a longitude");
        for (auto y : lats) {
            CHECK(std::abs(dot(n, xyz(lon, y))) < 1e-8 / std::abs(n[2]), "the point of longitude " << lon << " is on the great circle: " << y);
            CHECK(std::abs(G::Sphere::greatCircleLatitudeGivenLongitude(pa, pb, lon) - y) < 1e-9, "Sphere::greatCircleLatitudeGivenLongitude");
        }
        const double lat = g.boolean() ? g.range(-89, 89) : g.real(-89, 89);
        if (maxLat < 1e-3 || std::abs(std::abs(lat) - maxLat) < 1e-3) continue;
        auto lons = c.longitude(lat);
        CHECK_EQ(lons.size(), size_t(meridian || std::abs(lat) < maxLat ? 2 : 0), "longitudes at latitude " << lat);
        for (auto x : lons)
            CHECK(std::abs(dot(n, xyz(x, lat))) < 1e-7, "the point of latitude " << lat << " is on the great circle: " << x);
        if (lons.size() == 2) {
            CHECK(dist(xyz(lons[0], lat), xyz(lons[1], lat)) > 1e-7, "the two points of latitude " << lat << " differ");
            double x = 0, y = 0;
            G::Sphere::greatCircleLongitudeGivenLatitude(pa, pb, lat, x, y);
            CHECK(x == lons[0] && y == lons[1], "Sphere::greatCircleLongitudeGivenLatitude");
        }
    }
    if (maxLat < 1e-9 && !meridian) CHECK(c.longitude(0).empty(), "longitudes on the equator");
    g.nontrivial(!meridian && maxLat > 1);
}
