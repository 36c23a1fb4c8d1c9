// C31: the specification that a grid gives of itself describes that grid.
#include "geogrid.h"

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

std::vector<P> listed(const Grid& grid) {
    std::vector<P> r;
    for (const auto& p : grid.to_points()) r.push_back(lonlat(p));
    return r;
}

bool sameGrid(const std::vector<P>& a, const std::vector<P>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!samePoint(a[i], b[i])) return false;
    return true;
}

}  // namespace

PBT(again, 4) {
    Model m = aGrid(g);
    g.note([&](std::ostream& o) { o << m.spec; });
    auto grid = build(g, m);
    if (m.thin && grid->size() < 2) discard();
    if (m.nx > 1) {   // round the globe with an increment that does not divide it: each turn has points of its own
        const double inc = std::abs(m.points[1].lon - m.points[0].lon);
        if (std::abs(360 / inc - std::round(360 / inc)) > 1e-9 &&
            (inc * double(m.nx) > 360 - 1e-9 || std::min(m.points[0].lon, m.points[m.nx - 1].lon) > 180 - 1e-9)) discard();
    }
    g.nontrivial(m.spec.find("area") != std::string::npos || m.order != "i+j-");

    const auto text = grid->spec_str();
    g.note([&](std::ostream& o) { o << m.spec << " -> " << text; });
    GridPtr back(GridFactory::make_from_string(text));
    CHECK_EQ(back->size(), grid->size(), "size of the grid built from " << text);
    if (!m.order.empty()) CHECK_EQ(back->order(), grid->order(), "order of the grid built from " << text);
    auto a = listed(*grid), b = listed(*back);
    for (size_t i = 0; i < a.size(); ++i) {
        CHECK(samePoint(a[i], b[i]), "point " << i << " is " << show(a[i]) << ", and in the grid built from " << text << " " << show(b[i]));
    }
    if (m.thin) return;   // a single row or column has no increment to write
    CHECK_EQ(back->spec_str(), text, "specification of the grid built from its specification");
    CHECK(*back == *grid, "the grid built from " << text << " is not equal");
    CHECK_EQ(back->uid(), grid->uid(), "uid of the grid built from " << text);
    CHECK(Grid::is_uid(grid->uid()), "uid " << grid->uid() << " is not a uid");
    CHECK_EQ(back->type(), grid->type(), "type of the grid built from " << text);

    // and through the parsed specification
    GridPtr third(GridFactory::build(grid->spec()));
    CHECK(sameGrid(listed(*third), a), "the grid built from spec() " << text << " has other points");
}

PBT(distinct, 2) {  // grids that compare equal have the same points
    const int family = int(g.idx(5));
    auto make = [&]() -> Model {
        switch (family) {
            case 0: return regular_ll(g);
            case 1: return regular_gg(g);
            case 2: return reduced_gg(g);
            case 3: return reduced_ll(g);
        }
        return healpix(g);
    };
    Model m = make(), n = m;
    // the other: alike but for one number or word
    switch (g.weighted({1, 4})) {
        case 0: n = make(); break;
        default: {
            std::vector<size_t> digits;
            for (size_t i = 0; i < n.spec.size(); ++i)
                if (std::isdigit(n.spec[i])) digits.push_back(i);
            auto& c = n.spec[g.pick(digits)];
            c       = char('0' + g.idx(10));
            n.points.clear();
        }
    }
    g.note([&](std::ostream& o) { o << m.spec << " and " << n.spec; });
    GridPtr a, b;
    bool same = false;
    try {
        a.reset(GridFactory::make_from_string(m.spec));
        b.reset(GridFactory::make_from_string(n.spec));
        if (a->size() > 20000 || b->size() > 20000) discard();
        same = sameGrid(listed(*a), listed(*b));
    }
    catch (const std::exception&) {
        discard();
    }
    g.nontrivial(!same);
    g.label(same ? "same" : "different");
    const bool equal = *a == *b;
    CHECK(!equal || same, "grids that differ compare equal: both are " << a->spec_str());
    CHECK((a->uid() == b->uid()) == equal, "uids " << a->uid() << ", " << b->uid() << " but equal " << equal);
}

PBT(unknown, 1) {  // what names no grid is refused
    std::string name = g.str(8, "FOHNfohnrx0123456789 -./");
    static const std::vector<std::string> OK{"[fF][1-9][0-9]*", "[oO][1-9][0-9]*", "[nN][1-9][0-9]*", "[hH][rRnN]?[1-9][0-9]*[rRnN]?", ".*/.*"};
    for (auto& o : OK)
        if (std::regex_match(name, std::regex(o))) discard();
    g.note([&](std::ostream& o) { o << name; });
    g.nontrivial(!name.empty());
    spec::Custom s;
    s.set("grid", name);
    std::string what;
    CHECK(throws([&] { GridPtr p(GridFactory::build(s)); }, &what), "a grid was built from the name '" << name << "'");
}
