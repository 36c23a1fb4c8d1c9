// C43: index cubes, the choice of nodes, and 3 by 3 matrices.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/maths/Functions.h"
#include "eckit/maths/Matrix3.h"
#include "eckit/runtime/Main.h"
#include "eckit/utils/HyperCube.h"
#include "eckit/utils/RendezvousHash.h"
#include <algorithm>
#include <cmath>
#include <numeric>
#include <set>
#include <sstream>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

template <class V>
std::string list(const V& v) {
    std::ostringstream o;
    o << "[";
    size_t n = 0;
    for (const auto& x : v) o << (n++ ? ", " : "") << x;
    o << "]";
    return o.str();
}

HyperCube::Dimensions dims(Gen& g, size_t most) {
    HyperCube::Dimensions d;
    const size_t n = 1 + g.choice(4);
    size_t product = 1;
    for (size_t i = 0; i < n; ++i) {
        size_t x = 1 + g.size(std::max<size_t>(1, std::min<size_t>(most / product, 9)));
        x        = std::min(x, std::max<size_t>(1, most / product));
        product *= x;
        d.push_back(x);
    }
    return d;
}

}  // namespace

// the index of coordinates is their rank in lexicographic order, and back
PBT(cube, 3) {
    auto d = dims(g, 3000);
    g.note([&](std::ostream& o) { o << "dimensions " << list(d); });
    HyperCube c(d);
    size_t n = 1;
    for (auto x : d) n *= x;
    CHECK_EQ(c.count(), Ordinal(n), "count");
    CHECK_EQ(c.size(), Ordinal(d.size()), "number of dimensions");
    HyperCube::Coordinates at(d.size(), 0);
    for (size_t i = 0; i < n; ++i) {
        CHECK_EQ(c.index(at), Ordinal(i), "index of " << list(at));
        HyperCube::Coordinates back(d.size(), 77);
        c.coordinates(Ordinal(i), back);
        CHECK(back == at, "coordinates of " << i << ": " << list(back) << ", expected " << list(at));
        for (size_t k = d.size(); k-- > 0;) {
            if (++at[k] < d[k]) break;
            at[k] = 0;
        }
    }
    const size_t k = g.idx(d.size());
    at[k]          = d[k] + Ordinal(g.choice(3));
    CHECK(throws([&] { c.index(at); }), "the index of " << list(at) << ", outside, is given");
    HyperCube::Coordinates few(d.size() - 1, 0), out(d.size(), 0);
    CHECK(throws([&] { c.index(few); }), "the index of too few coordinates is given");
    CHECK(throws([&] { c.coordinates(Ordinal(n + g.size(1000)), out); }), "the coordinates of an index past the end are given");
    g.nontrivial(d.size() > 1 && n > 4);
}

// cubes too large to walk
PBT(large, 1) {
    HyperCube::Dimensions d;
    unsigned long long n = 1;
    const size_t k       = 1 + g.choice(4);
    for (size_t i = 0; i < k; ++i) {
        unsigned long long x = g.boolean() ? 1 + g.size(100000) : 1 + g.size(50);
        if (n * x > (1ull << 52)) break;
        n *= x;
        d.push_back(Ordinal(x));
    }
    if (n > (unsigned long long)(Ordinal(-1))) discard();
    g.note([&](std::ostream& o) { o << "dimensions " << list(d); });
    HyperCube c(d);
    CHECK_EQ((unsigned long long)(c.count()), n, "count");
    HyperCube::Coordinates at;
    for (auto x : d) at.push_back(Ordinal(g.boolean() ? x - 1 : g.size(x)));
    for (size_t i = 0; i < d.size(); ++i) at[i] = std::min(at[i], d[i] - 1);
    unsigned long long i = 0;
    for (size_t j = 0; j < d.size(); ++j) i = i * d[j] + at[j];
    CHECK_EQ((unsigned long long)(c.index(at)), i, "index of " << list(at));
    HyperCube::Coordinates back(d.size());
    c.coordinates(Ordinal(i), back);
    CHECK(back == at, "coordinates of " << i << ": " << list(back) << ", expected " << list(at));
    g.nontrivial(n > 100000);
}

// labels added to a dimension: where each element goes; several additions combine
PBT(grow, 3) {
    auto d = dims(g, 300);
    HyperCube c(d);
    std::string log = "dimensions " + list(d);
    // element -> its coordinates, as they move
    size_t n = c.count();
    std::vector<HyperCube::Coordinates> where;
    for (size_t i = 0; i < n; ++i) {
        HyperCube::Coordinates x(d.size());
        c.coordinates(Ordinal(i), x);
        where.push_back(x);
    }
    HyperCube::Remapping all, map;
    const bool fresh = g.boolean();
    const int steps = 1 + int(g.choice(2));
    for (int s = 0; s < steps; ++s) {
        const size_t which = g.idx(d.size());
        const size_t pos   = g.choice(d[which]);
        const size_t more  = 1 + g.choice(3);
        log += "; " + std::to_string(more) + " labels at " + std::to_string(pos) + " of dimension " + std::to_string(which);
        g.note([&](std::ostream& o) { o << log; });
        if (fresh) map = {};  // or what the last addition left in it
        HyperCube bigger = c.addToDimension(Ordinal(which), Ordinal(pos), Ordinal(more), map);
        CHECK_EQ(map.size(), size_t(c.count()), "elements remapped");
        d[which] += more;
        CHECK(bigger.dimensions() == d, "the dimensions become " << list(bigger.dimensions()) << ", expected " << list(d));
        for (auto& x : where) if (x[which] >= pos) x[which] += more;
        HyperCube::combine(all, map);
        CHECK_EQ(all.size(), n, "elements of the combination");
        for (size_t i = 0; i < n; ++i) CHECK_EQ(all[i], bigger.index(where[i]), "element " << i << ", now at " << list(where[i]));
        c = bigger;
    }
    g.nontrivial(n > 2 && steps > 1);
}

//---------------------------------------------------------------------------------------------------------------------

// the order of nodes for a key: of all nodes, the same whatever the other nodes and the order they were given in
PBT(rendezvous, 3) {
    std::set<std::string> names;
    const size_t n = 1 + g.size(10);
    while (names.size() < n) names.insert(g.boolean() ? "node" + std::to_string(g.choice(30)) : g.str(6, "abc/:+.0"));
    std::vector<std::string> nodes(names.begin(), names.end());
    auto perm = g.permutation(nodes.size());
    std::vector<std::string> shuffled;
    for (auto i : perm) shuffled.push_back(nodes[i]);

    std::vector<RendezvousHash::Key> keys;
    const size_t nk = 1 + g.choice(5);
    for (size_t i = 0; i < nk; ++i) {
        RendezvousHash::Key k;
        const size_t m = g.choice(3);
        for (size_t j = 0; j < m; ++j) k[g.str(4, "abc/:")] = g.str(5, "012/:+");
        keys.push_back(k);
    }
    g.note([&](std::ostream& o) { o << "nodes " << list(shuffled) << ", " << nk << " keys"; });

    RendezvousHash a(shuffled), b;
    for (const auto& x : nodes) CHECK(b.addNode(x), "addNode(" << esc(x) << ") says it was there");
    const auto again = nodes[g.idx(nodes.size())];
    CHECK(!b.addNode(again), "addNode(" << esc(again) << ") twice says it was not there");

    std::vector<std::vector<std::string>> orders;
    for (const auto& k : keys) {
        std::vector<std::string> oa{"junk"}, ob;
        a.hashOrder(k, oa);
        b.hashOrder(k, ob);
        CHECK(oa == ob, "the order depends on that of the nodes: " << list(oa) << " and " << list(ob));
        auto s = oa;
        std::sort(s.begin(), s.end());
        CHECK(s == nodes, "not the nodes: " << list(oa));
        std::vector<size_t> idx{9, 9, 9};
        a.hashOrder(k, idx);
        CHECK_EQ(idx.size(), oa.size(), "the indices");
        for (size_t i = 0; i < idx.size(); ++i) CHECK(idx[i] < shuffled.size() && shuffled[idx[i]] == oa[i], "index " << i << " is " << idx[i] << ", not that of node " << esc(oa[i]));
        // by definition: by the hash of the key and the node
        std::string flat;
        for (const auto& kv : k) flat += "/" + kv.first + ":" + kv.second;
        for (size_t i = 1; i < oa.size(); ++i)
            CHECK(RendezvousHash::md5(flat + "+" + oa[i - 1]) <= RendezvousHash::md5(flat + "+" + oa[i]), "the order " << list(oa) << " is not that of the hashes");
        orders.push_back(oa);
    }
    // nodes leave and join
    std::set<std::string> present(nodes.begin(), nodes.end());
    const size_t steps = g.choice(6);
    for (size_t s = 0; s < steps; ++s) {
        const auto x = g.chance(80) ? nodes[g.idx(nodes.size())] : g.str(3, "xyz");
        if (g.boolean()) CHECK_EQ(a.removeNode(x), present.erase(x) > 0, "removeNode(" << esc(x) << ")");
        else if (names.count(x)) CHECK_EQ(a.addNode(x), present.insert(x).second, "addNode(" << esc(x) << ")");
        for (size_t i = 0; i < keys.size(); ++i) {
            std::vector<std::string> got, expect;
            for (const auto& y : orders[i]) if (present.count(y)) expect.push_back(y);
            if (present.empty()) {
                CHECK(throws([&] { a.hashOrder(keys[i], got); }), "the order of no nodes is given");
                continue;
            }
            a.hashOrder(keys[i], got);
            CHECK(got == expect, "after nodes left or joined the others changed order: " << list(got) << ", expected " << list(expect));
        }
    }
    g.nontrivial(n > 2 && steps > 0);
}

//---------------------------------------------------------------------------------------------------------------------

PBT(matrix3, 2) {
    // small integers: exact
    using M = maths::Matrix3<double>;
    auto some = [&] { std::vector<double> v; for (int i = 0; i < 9; ++i) v.push_back(double(g.range(-9, 9))); return v; };
    auto make = [](const std::vector<double>& v) { return M(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); };
    auto flat = [](const M& m) { return std::vector<double>(m.begin(), m.end()); };
    auto mul  = [](const std::vector<double>& a, const std::vector<double>& b) {
        std::vector<double> r(9, 0);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[size_t(3 * i + j)] += a[size_t(3 * i + k)] * b[size_t(3 * k + j)];
        return r;
    };
    auto a = some(), b = some();
    g.note([&](std::ostream& o) { o << "A = " << list(a) << ", B = " << list(b); });
    const M A = make(a), B = make(b);
    CHECK(flat(A * B) == mul(a, b), "A * B = " << list(flat(A * B)) << ", expected " << list(mul(a, b)));
    CHECK(flat(A * M::identity()) == a && flat(M::identity() * A) == a, "the identity changes A");
    double det = 0;  // by permutations
    int p[3] = {0, 1, 2};
    do {
        int inv = (p[0] > p[1]) + (p[0] > p[2]) + (p[1] > p[2]);
        det += (inv % 2 ? -1 : 1) * a[size_t(p[0])] * a[size_t(3 + p[1])] * a[size_t(6 + p[2])];
    } while (std::next_permutation(p, p + 3));
    CHECK_EQ(A.determinant(), det, "determinant");
    geo::PointXYZ x{double(g.range(-9, 9)), double(g.range(-9, 9)), double(g.range(-9, 9))};
    auto y = A * x;
    CHECK(y.X() == a[0] * x.X() + a[1] * x.Y() + a[2] * x.Z() && y.Y() == a[3] * x.X() + a[4] * x.Y() + a[5] * x.Z() && y.Z() == a[6] * x.X() + a[7] * x.Y() + a[8] * x.Z(), "A * x");
    if (det == 0) {
        CHECK(throws([&] { A.inverse(); }), "a singular matrix is inverted");
    }
    else {
        auto i = flat(A * A.inverse()), j = flat(A.inverse() * A);
        for (size_t k = 0; k < 9; ++k) CHECK(std::abs(i[k] - (k % 4 == 0)) < 1e-9 && std::abs(j[k] - (k % 4 == 0)) < 1e-9, "A times its inverse is " << list(i));
    }
    M c(A);
    c = B;
    CHECK(flat(c) == b && flat(A) == a, "assignment");
    g.nontrivial(det != 0 && mul(a, b) != mul(b, a));

    const size_t m = 1 + g.size(1000), k = g.size(1000000);
    CHECK_EQ(eckit::round(k, m), (k / m + (k % m ? 1 : 0)) * m, "round(" << k << ", " << m << ")");
}
