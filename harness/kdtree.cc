// C13: k-d trees against brute force
#include <algorithm>
#include <cmath>
#include <set>
#include "eckit/container/KDTree.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/geometry/Point2.h"
#include "eckit/geometry/Point3.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { eckit::Main::initialise(argc, argv); }

template <class P> struct TreeTraits { using Point = P; using Payload = size_t; };

template <class P>
static P point(pbt::Gen& g, int style) {
    double x[P::DIMS];
    for (size_t i = 0; i < P::DIMS; i++) {
        switch (style) {
            case 0: x[i] = double(g.range(-3, 3)); break;           // many ties and duplicates
            case 1: x[i] = g.real(-100, 100); break;
            case 2: x[i] = i == 0 ? g.real(-1, 1) : 5; break;        // on a line
            case 3: x[i] = double(g.range(0, 20)) / 10; break;
            default: x[i] = g.chance(50) ? double(g.range(-3, 3)) : g.real(-1, 1) * std::pow(10., double(g.range(-8, 8)));
        }
        x[i] = std::ldexp(std::nearbyint(std::ldexp(x[i], 60)), -60);  // squares of differences must not underflow
    }
    return P(static_cast<const double*>(x));
}
template <class P> static std::string show(const P& p) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < P::DIMS; i++) o << (i ? "," : "(") << p.x(i); o << ")"; return o.str(); }

template <class P, class Tree>
struct Model {
    std::vector<P> pts;
    std::vector<double> distances(const P& q) { std::vector<double> d; for (auto& p : pts) d.push_back(P::distance(q, p)); std::sort(d.begin(), d.end()); return d; }

    void node(const typename Tree::NodeInfo& n, const P& q, const std::string& what) {
        CHECK(n.payload() < pts.size(), what << ": payload");
        CHECK(P::equal(n.point(), pts[n.payload()]), what << ": point " << show(n.point()) << " has the payload of another");
        CHECK_EQ(n.distance(), P::distance(q, n.point()), what << ": distance");
    }
    void query(pbt::Gen& g, Tree& t, int style) {
        P q = !pts.empty() && g.chance(30) ? pts[g.idx(pts.size())] : point<P>(g, style);
        std::string what = show(q) + " among " + std::to_string(pts.size());
        auto d = distances(q);
        int op = int(g.idx(6));
        if (op == 0) {
            auto n = t.nearestNeighbour(q);
            node(n, q, "nearest to " + what);
            CHECK_EQ(n.distance(), d[0], "nearest to " << what);
            auto b = t.nearestNeighbourBruteForce(q);
            CHECK_EQ(b.distance(), d[0], "nearest (brute force) to " << what);
            CHECK_EQ(t.nodeByID(n.id()).payload(), n.payload(), "node by its id");
        }
        else if (op == 1 || op == 2) {
            size_t k = g.chance(10) ? pts.size() + g.size(3) : g.size(std::max<size_t>(pts.size(), 5));
            auto l = op == 1 || g.chance(80) ? t.kNearestNeighbours(q, k) : t.kNearestNeighboursBruteForce(q, k);
            std::string w = std::to_string(k) + " nearest to " + what;
            CHECK_EQ(l.size(), std::min(k, pts.size()), w);
            std::set<size_t> seen;
            for (size_t i = 0; i < l.size(); i++) {
                node(l[i], q, w);
                CHECK_EQ(l[i].distance(), d[i], w << ": number " << i);
                CHECK(seen.insert(l[i].payload()).second, w << ": twice the same");
            }
        }
        else if (op == 3 || op == 4) {
            double r = g.chance(50) && !d.empty() ? d[g.idx(d.size())] : g.chance(10) ? 0 : g.real(0, 10);
            auto l = op == 3 || g.chance(80) ? t.findInSphere(q, r) : t.findInSphereBruteForce(q, r);
            std::ostringstream w; w.precision(17); w << "within " << r << " of " << what;
            size_t n = size_t(std::upper_bound(d.begin(), d.end(), r) - d.begin());
            CHECK_EQ(l.size(), n, w.str());
            std::set<size_t> seen;
            for (size_t i = 0; i < l.size(); i++) {
                node(l[i], q, w.str());
                CHECK_EQ(l[i].distance(), d[i], w.str() << ": number " << i);
                CHECK(seen.insert(l[i].payload()).second, w.str() << ": twice the same");
            }
        }
        else all(t);
    }
    void all(Tree& t) {
        CHECK_EQ(t.size(), pts.size(), "size");
        CHECK_EQ(t.empty(), pts.empty(), "empty");
        std::set<size_t> seen;
        for (auto it = t.begin(); it != t.end(); ++it) {
            CHECK(it->payload() < pts.size() && P::equal(it->point(), pts[it->payload()]), "iteration: another point");
            CHECK(seen.insert(it->payload()).second, "iteration: twice the same");
        }
        CHECK_EQ(seen.size(), pts.size(), "points met by the iteration");
        struct V {
            size_t in = 0, out = 0; int depth = 0; bool ok = true;
            void enter(const P&, bool, int d) { in++; ok &= d == depth; depth++; }
            void leave(const P&, bool, int) { out++; depth--; }
        } v;
        if (pts.empty()) return;
        t.visit(v);
        CHECK(v.in == pts.size() && v.out == pts.size() && v.ok, "points visited: " << v.in);
    }
};

template <class P, class Tree>
static void fill(pbt::Gen& g, Tree& t, Model<P, Tree>& m, int style, size_t n, bool queries) {
    std::vector<typename Tree::Value> v;
    size_t built = g.chance(20) ? 0 : g.chance(30) ? g.idx(n + 1) : n;
    for (size_t i = 0; i < n; i++) m.pts.push_back(i && g.chance(10) ? m.pts[g.idx(i)] : point<P>(g, style));
    auto pts = m.pts;
    for (size_t i = 0; i < built; i++) v.emplace_back(pts[i], i);
    if (built) t.build(v);
    m.pts.assign(pts.begin(), pts.begin() + long(built));
    for (size_t i = built; i < n; i++) {
        if (queries && !m.pts.empty() && g.chance(20)) m.query(g, t, style);
        t.insert(typename Tree::Value(pts[i], i));
        m.pts.push_back(pts[i]);
    }
}

template <class P>
static void memory(pbt::Gen& g) {
    using Tree = KDTreeMemory<TreeTraits<P>>;
    int style = int(g.idx(5));
    size_t n = g.size(g.chance(5) ? 2000 : 60);
    g.note([&](std::ostream& o) { o << "memory, " << P::DIMS << " dimensions, style " << style << ", " << n << " points"; });
    g.nontrivial(n > 4);
    Tree t;
    Model<P, Tree> m;
    if (n == 0) { CHECK(t.empty() && t.size() == 0 && !(t.begin() != t.end()), "new tree"); return; }
    fill<P, Tree>(g, t, m, style, n, true);
    size_t q = 1 + g.size(20);
    for (size_t i = 0; i < q; i++) m.query(g, t, style);
    m.all(t);
}
template <class P>
static void mapped(pbt::Gen& g) {
    using Tree = KDTreeMapped<TreeTraits<P>>;
    int style = int(g.idx(5));
    size_t n = 1 + g.size(60);
    std::string p = g.freshDir() + "/tree";
    g.note([&](std::ostream& o) { o << "mapped, " << P::DIMS << " dimensions, style " << style << ", " << n << " points"; });
    g.nontrivial(n > 4);
    Model<P, Tree> m;
    P off = point<P>(g, 1), scale = point<P>(g, 1), o2, s2;
    size_t meta = sizeof(typename Tree::KDTree::Metadata);
    {
        Tree t(p, n, meta);
        fill<P, Tree>(g, t, m, style, n, g.boolean());
        t.setMetadata(off, scale);
        size_t q = g.size(5);
        for (size_t i = 0; i < q; i++) m.query(g, t, style);
    }
    for (int k = 0; k < 2; k++) {
        Tree t(p, 0, 0);
        t.getMetadata(o2, s2);
        CHECK(P::equal(o2, off) && P::equal(s2, scale), "metadata");
        size_t q = g.size(8);
        for (size_t i = 0; i < q; i++) m.query(g, t, style);
        m.all(t);
        CHECK(pbt::throws([&] { t.insert(typename Tree::Value(off, 0)); }), "a tree opened for reading was changed");
    }
}
PBT(memory, 10) { switch (g.idx(3)) { case 0: memory<geometry::Point2>(g); break; case 1: memory<geometry::Point3>(g); break; default: memory<geometry::KPoint<1>>(g); } }
PBT(mapped, 3) { if (g.boolean()) mapped<geometry::Point2>(g); else mapped<geometry::Point3>(g); }
