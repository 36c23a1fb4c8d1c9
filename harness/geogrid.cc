// C30: a grid is the set of points that its specification describes, in the order that it names.
#include "geogrid.h"

PBT_INIT { eckit::Main::initialise(argc, argv); }

PBT(points, 4) {
    Model m = aGrid(g);
    g.note([&](std::ostream& o) { o << m.spec; });
    auto grid = build(g, m);
    g.nontrivial(m.points.size() > 1 && (m.spec.find("area") != std::string::npos || m.order != "i+j-"));

    CHECK_EQ(grid->size(), m.points.size(), "the size");
    CHECK(grid->empty() == m.points.empty(), "empty()");
    if (!m.order.empty()) CHECK_EQ(grid->order(), m.order, "the order");
    size_t product = 1;
    for (auto n : grid->shape()) product *= n;
    CHECK_EQ(product, m.points.size(), "the product of the shape");
    if (m.nx) {
        CHECK(grid->shape() == (std::vector<size_t>{m.ny, m.nx}), "the shape is not ny, nx");
        auto x = grid->distinct_longitudes();
        auto y = grid->distinct_latitudes();
        CHECK(x.size() == m.nx && y.size() == m.ny, "the distinct longitudes and latitudes: " << x.size() << ", " << y.size());
        for (size_t i = 0; i < m.nx; ++i) CHECK(sameLon(x[i], m.points[i].lon), "distinct longitude " << i << ": " << x[i]);
        for (size_t j = 0; j < m.ny; ++j) CHECK(std::abs(y[j] - m.points[j * m.nx].lat) < 1e-8, "distinct latitude " << j << ": " << y[j]);
    }

    switch (g.idx(2)) {  // whichever comes first
        case 0: compare(walk(*grid), m.points, "iteration"); break;
        default: break;
    }
    {
        std::vector<P> got;
        for (const auto& p : grid->to_points()) got.push_back(lonlat(p));
        compare(got, m.points, "to_points");
    }
    {
        auto [lat, lon] = grid->to_latlons();
        CHECK(lat.size() == lon.size(), "to_latlons: " << lat.size() << " latitudes, " << lon.size() << " longitudes");
        std::vector<P> got;
        for (size_t i = 0; i < lat.size(); ++i) got.push_back({lon[i], lat[i]});
        compare(got, m.points, "to_latlons");
    }
    compare(walk(*grid), m.points, "iteration");
    compare({lonlat(grid->first_point()), lonlat(grid->last_point())}, {m.points.front(), m.points.back()}, "first and last point");
}

PBT(iterator, 3) {
    Model m = aGrid(g);
    if (m.points.empty()) discard();
    g.note([&](std::ostream& o) { o << m.spec; });
    auto grid    = build(g, m);
    const long n = long(m.points.size());

    auto it    = grid->begin();
    long at    = 0;
    int steps  = 0;
    bool left  = true;
    std::string log = "at 0";
    auto note  = [&] { g.note([&](std::ostream& o) { o << m.spec << " (" << n << " points): " << log; }); };
    while (left && steps < 40) {
        if (at < n) {
            CHECK(bool(it), "iterator at " << at << " of " << n << " is false");
            CHECK(it != grid->end(), "iterator at " << at << " of " << n << " is the end");
            CHECK_EQ(it.index(), size_t(at), "index");
            CHECK(samePoint(lonlat(*it), m.points[size_t(at)]), "point " << at << ": " << show(lonlat(*it)) << ", expected " << show(m.points[size_t(at)]));
            auto other = grid->begin();
            if (at) CHECK(other != it, "iterator at " << at << " is the beginning");
            other += at;
            CHECK(other == it, "begin() + " << at << " is not where the iterator got to");
        }
        else {
            CHECK(!bool(it), "iterator past the end is true");
            CHECK(it == grid->end(), "iterator past the end is not the end");
            if (g.chance(30)) break;
            // from the end, back
        }
        ++steps;
        left  = steps < 5 || g.more(90);
        if (!left) break;
        auto far = [&] {
            switch (g.weighted({4, 3, 1})) {
                case 0: return long(g.range(0, n - 1)) - at;
                case 1: return long(g.range(-3, 3));
                default: return long(g.range(-n - 1, n + 1));
            }
        };
        bool ok = false;
        long to = at;
        switch (g.weighted({5, 2, 3, 3})) {
            case 0: ok = ++it; to = at + 1; log += ", ++"; break;
            case 1: ok = --it; to = at - 1; log += ", --"; break;
            case 2: {
                long d = far();
                ok = it += d;
                to = at + d;
                log += ", += " + std::to_string(d);
                break;
            }
            default: {
                long d = -far();
                ok = it -= d;
                to = at - d;
                log += ", -= " + std::to_string(d);
                break;
            }
        }
        if (to < 0 || to > n) to = n;
        at = to;
        note();
        CHECK(ok == (at < n), "moving to " << at << " of " << n << " returned " << ok);
    }
    g.nontrivial(steps > 3);
}

PBT(healpix_order, 1) {
    const size_t nside = size_t(1) << g.range(1, 4);
    GridPtr ring(GridFactory::make_from_string("{grid: H" + std::to_string(nside) + "}"));
    GridPtr nest(GridFactory::make_from_string("{grid: H" + std::to_string(nside) + ", order: nested}"));
    auto to   = ring->reorder("nested");
    auto back = nest->reorder("ring");
    const size_t n = 12 * nside * nside;
    CHECK(to.size() == n && back.size() == n, "the permutations have " << to.size() << " and " << back.size() << " elements");
    for (size_t i = 0; i < n; ++i) {
        CHECK(to[i] < n, "ring to nested: " << i << " becomes " << to[i]);
        CHECK_EQ(back[to[i]], i, "ring to nested to ring");
    }
    auto same = ring->reorder("ring");
    for (size_t i = 0; i < n; ++i) CHECK_EQ(same[i], i, "ring to ring");
    GridPtr re(g.boolean() ? ring->make_grid_reordered("nested") : nest->make_grid_reordered("ring"));
    const bool nested = re->order() == "nested";
    auto pr = walk(nested ? *ring : *nest), pn = walk(*re);
    for (size_t i = 0; i < n; ++i) {
        const size_t k = nested ? to[i] : back[i];
        CHECK(samePoint(pr[i], pn[k]), "nside " << nside << ": point " << i << " " << show(pr[i]) << " is said to become "
                                                << k << ", which is " << show(pn[k]));
    }
    g.note([&](std::ostream& o) { o << "nside " << nside; });
    g.nontrivial();
}

PBT(box, 2) {  // the bounding box contains the points, and touches them unless it closes at a pole or goes round
    Model m = aGrid(g, false);
    g.note([&](std::ostream& o) { o << m.spec; });
    auto grid = build(g, m);
    const auto& b = grid->boundingBox();
    g.nontrivial(m.spec.find("area") != std::string::npos);
    double n = -90, s = 90;
    for (const auto& p : m.points) {
        n = std::max(n, p.lat);
        s = std::min(s, p.lat);
        CHECK(b.south() <= p.lat + 1e-6 && p.lat <= b.north() + 1e-6, "point " << show(p) << " is outside " << box(b));
        CHECK(mod360(p.lon - b.west() + 1e-6) <= b.east() - b.west() + 2e-6, "point " << show(p) << " is outside " << box(b));
    }
    std::ostringstream o;
    o << box(b);
    g.note([&](std::ostream& s) { s << m.spec << " -> " << o.str(); });
}

PBT(cropped, 2) {  // the points of a cropped grid are those of the grid that are in the area
    Model m;
    switch (g.idx(3)) {
        case 0: m = regular_ll(g); g.label("regular_ll"); break;
        case 1: m = regular_gg(g); g.label("regular_gg"); break;
        default: m = reduced_gg(g); g.label("reduced_gg"); break;
    }
    if (m.points.empty() || m.thin) discard();
    A a     = anArea(g);
    a.given = true;
    g.note([&](std::ostream& o) { o << m.spec << " cropped to " << a.str(); });
    auto grid = build(g, m);
    if (m.nx > 1) {   // each turn has points of its own
        const double inc = std::abs(m.points[1].lon - m.points[0].lon), west = std::min(m.points[0].lon, m.points[m.nx - 1].lon);
        if (std::abs(360 / inc - std::round(360 / inc)) > 1e-9 && (a.w / double(U) < west - 1e-9 || a.e / double(U) > west + 360)) discard();
    }
    {   // areas that meet in two places
        const auto gb   = grid->boundingBox();
        const double w = gb.west() + mod360(a.w / double(U) - gb.west()), span = (a.e - a.w) / double(U);
        if (gb.east() - gb.west() < 360 - 1e-9 && span < 360 && w <= gb.east() && w + span >= gb.west() + 360) discard();
    }
    std::vector<P> ref;
    std::map<double, int> rows;
    for (const auto& p : m.points) {
        for (int k : {-2, -1, 0, 1, 2}) {
            if (std::abs(p.lon + 360. * k - a.w / double(U)) < 1e-6 || std::abs(p.lon + 360. * k - a.e / double(U)) < 1e-6) discard();
        }
        if (std::abs(p.lat - a.n / double(U)) < 1e-6 || std::abs(p.lat - a.s / double(U)) < 1e-6) discard();
        if (a.has(p)) {
            ref.push_back(p);
            ++rows[p.lat];
        }
    }
    bool thin = rows.size() < 2;
    for (auto& r : rows) thin = thin || r.second < 2;
    g.nontrivial(!thin && ref.size() < m.points.size());
    GridPtr crop;
    try {
        crop.reset(grid->make_grid_cropped(area::BoundingBox(a.n / double(U), a.w / double(U), a.s / double(U), a.e / double(U))));
    }
    catch (const eckit::Exception& e) {
        if (thin) discard();
        throw;
    }
    auto got = walk(*crop);
    std::sort(ref.begin(), ref.end(), [](auto& a, auto& b) { return std::make_pair(std::round(a.lat * 1e6), std::round(mod360(a.lon + 1e-9) * 1e6)) < std::make_pair(std::round(b.lat * 1e6), std::round(mod360(b.lon + 1e-9) * 1e6)); });
    std::sort(got.begin(), got.end(), [](auto& a, auto& b) { return std::make_pair(std::round(a.lat * 1e6), std::round(mod360(a.lon + 1e-9) * 1e6)) < std::make_pair(std::round(b.lat * 1e6), std::round(mod360(b.lon + 1e-9) * 1e6)); });
    compare(got, ref, "cropped grid");
    CHECK_EQ(crop->order(), grid->order(), "order of the cropped grid");
}
