// C07: values: a total order by content, copies that are independent, arithmetic and conversions of what they hold
#include <sstream>
#include "eckit/exception/Exceptions.h"
#include "eckit/runtime/Main.h"
#include "eckit/utils/MD5.h"
#include "eckit/value/Value.h"
#include "eckit/types/DateTime.h"
#include "eckit/value/Content.h"
#include "tree.h"

using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

static std::string show(const Value& v) { std::ostringstream o; v.dump(o); return o.str(); }
static int sgn(long long x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

// a tree close to the given one
static void tweak(Tree& t, pbt::Gen& g, const TreeOpts& o) {
    size_t n = t.list.size() + t.map.size();
    if (n && g.chance(75)) {
        size_t i = g.idx(n);
        if (g.chance(15)) { if (i < t.list.size()) t.list.erase(t.list.begin() + long(i)); else t.map.erase(t.map.begin() + long(i - t.list.size())); return; }
        if (i < t.list.size()) tweak(t.list[i], g, o);
        else if (g.chance(20)) { std::string k = genText(g, o, 4); if (!t.find(k)) t.map[i - t.list.size()].first = k; }
        else tweak(t.map[i - t.list.size()].second, g, o);
        return;
    }
    if (t.k == Tree::Int && g.boolean()) { t.i = g.boolean() ? t.i / 2 : -t.i; return; }
    if (t.k == Tree::Str && g.boolean()) { t.s += "a"; return; }
    t = genTree(g, o, o.depth - 1);
}
// mixing integers and doubles compares them as doubles: keep both exact there
static void exact(Tree& t) {
    if (t.k == Tree::Int) { while (t.i > (1LL << 52) || t.i < -(1LL << 52)) t.i /= 1024; }
    for (auto& x : t.list) exact(x);
    for (auto& x : t.map) exact(x.second);
}
static bool hasKind(const Tree& t, Tree::Kind k) {
    if (t.k == k) return true;
    for (auto& x : t.list) if (hasKind(x, k)) return true;
    for (auto& x : t.map) if (hasKind(x.second, k)) return true;
    return false;
}
static bool sameNumbers(const Tree& a, const Tree& b) {  // equality with numbers by value
    bool na = a.k == Tree::Int || a.k == Tree::Double, nb = b.k == Tree::Int || b.k == Tree::Double;
    if (na && nb) return (a.k == Tree::Int ? (long double)a.i : (long double)a.d) == (b.k == Tree::Int ? (long double)b.i : (long double)b.d);
    if (a.k != b.k) return false;
    if (a.k == Tree::List) { if (a.list.size() != b.list.size()) return false; for (size_t i = 0; i < a.list.size(); i++) if (!sameNumbers(a.list[i], b.list[i])) return false; return true; }
    if (a.k == Tree::Map || a.k == Tree::OMap) {
        auto x = a.k == Tree::Map ? a.sorted() : a.map, y = a.k == Tree::Map ? b.sorted() : b.map;
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); i++) if (x[i].first != y[i].first || !sameNumbers(x[i].second, y[i].second)) return false;
        return true;
    }
    return a == b;
}

PBT(order, 8) {
    TreeOpts o;
    o.depth = 2;
    o.date = true;
    o.width = 3;
    bool ints = g.boolean();
    if (ints) o.dbl = false;
    std::vector<Tree> t(3);
    for (size_t i = 0; i < 3; i++) {
        if (i && g.chance(60)) { t[i] = t[g.idx(i)]; size_t n = g.size(2); for (size_t k = 0; k < n; k++) tweak(t[i], g, o); }
        else { t[i] = genTree(g, o); if (g.chance(40)) orderMaps(t[i]); }
        if (!ints) exact(t[i]);
    }
    std::vector<Value> v;
    for (auto& x : t) v.push_back(toValue(x));
    g.note([&](std::ostream& s) { s << t[0] << "\n" << t[1] << "\n" << t[2]; });
    g.nontrivial(t[0].count() + t[1].count() + t[2].count() > 5);
    int c[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        c[i][j] = sgn(v[i].compare(v[j]));
        CHECK_EQ(c[i][j] == 0, sameNumbers(t[i], t[j]), "compare() is zero for equal content only: " << t[i] << " and " << t[j]);
        CHECK_EQ(v[i] == v[j], c[i][j] == 0, "== of " << t[i] << " and " << t[j]);
        CHECK_EQ(v[i] != v[j], c[i][j] != 0, "!=");
        CHECK_EQ(v[i] < v[j], c[i][j] < 0, "<");
        CHECK_EQ(v[i] > v[j], c[i][j] > 0, ">");
        CHECK_EQ(v[i] <= v[j], c[i][j] <= 0, "<=");
        CHECK_EQ(v[i] >= v[j], c[i][j] >= 0, ">=");
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        CHECK_EQ(c[i][j], -c[j][i], "compare() the other way round, " << t[i] << " with " << t[j]);
        for (int k = 0; k < 3; k++) if (c[i][j] <= 0 && c[j][k] <= 0) CHECK(c[i][k] <= 0, "order is transitive: " << t[i] << " , " << t[j] << " , " << t[k]);
    }
    // numbers and strings by what they are
    if (t[0].k == Tree::Int && t[1].k == Tree::Int) CHECK_EQ(c[0][1], t[0].i < t[1].i ? -1 : t[0].i > t[1].i, "order of integers");
    if (t[0].k == Tree::Str && t[1].k == Tree::Str) CHECK_EQ(c[0][1], sgn(t[0].s.compare(t[1].s)), "order of strings");
}

// equal values hash equally, and the hash tells different ones apart
PBT(hash, 3) {
    TreeOpts o;
    o.depth = 3;
    Tree t = genTree(g, o), u = t;
    if (g.boolean()) tweak(u, g, o);
    MD5 a, b;
    Value x = toValue(t), y = toValue(u);
    x.hash(a);
    y.hash(b);
    g.note([&](std::ostream& s) { s << t << "\n" << u; });
    g.nontrivial(t.count() > 2);
    if (t == u) CHECK_EQ(a.digest(), b.digest(), "hash of equal values");
    else if (t.k == Tree::Int && u.k == Tree::Int) CHECK(a.digest() != b.digest(), "hash of different numbers");
    else if (t.k == Tree::Str && u.k == Tree::Str) CHECK(a.digest() != b.digest(), "hash of different strings");
    Value z = x.clone();
    MD5 c;
    z.hash(c);
    CHECK_EQ(a.digest(), c.digest(), "hash of a clone");
}

// histories on several variables which share their content
PBT(histories, 8) {
    TreeOpts o;
    o.depth = 2;
    o.width = 3;
    size_t nv = 2 + g.idx(3), steps = 1 + g.size(14);
    std::vector<Tree> m(nv);
    std::vector<Value> v(nv);
    std::string log;
    for (size_t i = 0; i < nv; i++) {
        m[i].k = g.pick({Tree::List, Tree::Map, Tree::OMap});
        v[i] = m[i].k == Tree::List ? Value::makeList() : m[i].k == Tree::Map ? Value::makeMap() : Value::makeOrderedMap();
    }
    g.nontrivial(steps > 3);
    auto key = [&](const Tree& t, bool existing) -> std::string { if (existing || (!t.map.empty() && g.chance(40))) return t.map[g.idx(t.map.size())].first; return g.ident(2); };
    auto set = [](Tree& t, const std::string& k) -> Tree& { for (auto& p : t.map) if (p.first == k) return p.second; t.map.emplace_back(k, Tree()); return t.map.back().second; };
    for (size_t s = 0; s < steps; s++) {
        size_t i = g.idx(nv), j = g.idx(nv);
        std::ostringstream l;
        switch (g.idx(9)) {
            case 0: l << "v" << i << " = v" << j; v[i] = v[j]; m[i] = m[j]; break;
            case 1: { Tree t = genTree(g, o); l << "v" << i << " = " << t; v[i] = toValue(t); m[i] = t; break; }
            case 2: case 3: {  // element
                Tree t = genTree(g, o);
                if (m[i].k == Tree::List) { if (m[i].list.empty()) break; size_t k = g.idx(m[i].list.size()); l << "v" << i << "[" << k << "] = " << t; v[i][int(k)] = toValue(t); m[i].list[k] = t; }
                else if (m[i].k == Tree::Map || m[i].k == Tree::OMap) { std::string k = key(m[i], false); l << "v" << i << "[" << pbt::esc(k) << "] = " << t; if (g.boolean()) v[i][k] = toValue(t); else v[i][Value(k)] = toValue(t); set(m[i], k) = t; }
                break;
            }
            case 4: {  // of an element
                if (m[i].k != Tree::Map && m[i].k != Tree::OMap) break;
                std::string k = key(m[i], false), k2 = g.ident(2);
                Tree& e = set(m[i], k);
                if (e.k != Tree::Map && e.k != Tree::OMap) { e = Tree(); e.k = Tree::Map; v[i][k] = Value::makeMap(); }
                long n = g.range(0, 99);
                l << "v" << i << "[" << pbt::esc(k) << "][" << k2 << "] = " << n;
                v[i][k][k2] = Value(n);
                Tree& q = set(e, k2); q = Tree(); q.k = Tree::Int; q.i = n;
                break;
            }
            case 5: {
                if (m[i].k != Tree::List) break;
                if (i == j) break;
                l << "v" << i << ".append(v" << j << ")";
                v[i].append(v[j]); Tree c = m[j]; m[i].list.push_back(c);
                break;
            }
            case 6: {
                if ((m[i].k != Tree::Map && m[i].k != Tree::OMap) || m[i].map.empty()) break;
                std::string k = key(m[i], true);
                l << "v" << i << ".remove(" << pbt::esc(k) << ")";
                Value r = v[i].remove(Value(k));
                Tree want = *m[i].find(k);
                CHECK(fromValue(r) == want, "removed " << fromValue(r) << " after " << log << l.str());
                for (size_t p = 0; p < m[i].map.size(); p++) if (m[i].map[p].first == k) { m[i].map.erase(m[i].map.begin() + long(p)); break; }
                break;
            }
            case 7: {
                if (m[i].k != Tree::List || m[j].k != Tree::List || m[i].list.size() + m[j].list.size() > 30) break;
                l << "v" << i << " += v" << j;
                v[i] += v[j]; { auto c = m[j].list; m[i].list.insert(m[i].list.end(), c.begin(), c.end()); }
                break;
            }
            case 8: { l << "v" << i << " = clone(v" << j << ")"; v[i] = v[j].clone(); m[i] = m[j]; break; }
        }
        log += l.str() + "; ";
        for (size_t q = 0; q < nv; q++) {
            Tree got = fromValue(v[q]);
            CHECK(got == m[q], "v" << q << " is " << got << " instead of " << m[q] << " after " << log);
            const Value& cv = v[q];
            if (m[q].k == Tree::List) {
                CHECK_EQ(cv.size(), m[q].list.size(), "size of v" << q << " after " << log);
                CHECK_EQ(cv.contains(int(m[q].list.size())), false, "contains(size)");
                if (!m[q].list.empty()) { CHECK(cv.contains(int(m[q].list.size()) - 1), "contains(last)"); CHECK(fromValue(cv.head()) == m[q].list[0], "head()"); }
                if (m[q].list.size() > 1) { Tree tl; tl.k = Tree::List; tl.list.assign(m[q].list.begin() + 1, m[q].list.end()); CHECK(fromValue(cv.tail()) == tl, "tail()"); }
            }
            if (m[q].k == Tree::Map || m[q].k == Tree::OMap) {
                for (auto& p : m[q].map) CHECK(cv.contains(p.first), "contains(" << p.first << ") after " << log);
                CHECK_EQ(cv.contains("zzzz"), false, "contains of another");
            }
        }
    }
    g.note([&](std::ostream& s) { s << log; });
}

PBT(arithmetic, 5) {
    g.nontrivial();
    int k = int(g.idx(4));
    if (k == 0) {
        long long a = g.integer(-3000000000LL, 3000000000LL), b = g.integer(-3000000000LL, 3000000000LL);
        g.note([&](std::ostream& s) { s << a << " and " << b; });
        Value x(a), y(b);
        CHECK_EQ((long long)(x + y), a + b, "sum");
        CHECK_EQ((long long)(x - y), a - b, "difference");
        CHECK_EQ((long long)(x * y), a * b, "product");
        if (b) { CHECK_EQ((long long)(x / y), a / b, "quotient"); CHECK_EQ((long long)(x % y), a % b, "remainder"); }
        CHECK_EQ((long long)(-x), -a, "negated");
        Value z = x; z += y; CHECK_EQ((long long)z, a + b, "+="); z = x; z -= y; CHECK_EQ((long long)z, a - b, "-="); z = x; z *= y; CHECK_EQ((long long)z, a * b, "*=");
        if (b) { z = x; z /= y; CHECK_EQ((long long)z, a / b, "/="); z = x; z %= y; CHECK_EQ((long long)z, a % b, "%="); }
        CHECK_EQ((long long)x, a, "operands are left alone");
    }
    else if (k == 1) {
        double a = genNiceDouble(g), b = genNiceDouble(g);
        g.note([&](std::ostream& s) { s << a << " and " << b; });
        auto eq = [](double p, double q) { return p == q || (p != p && q != q); };
        CHECK(eq(double(Value(a) + Value(b)), a + b), "sum of " << a << " and " << b);
        CHECK(eq(double(Value(a) - Value(b)), a - b), "difference");
        CHECK(eq(double(Value(a) * Value(b)), a * b), "product");
        if (b != 0) CHECK(eq(double(Value(a) / Value(b)), a / b), "quotient");
        CHECK(eq(double(-Value(a)), -a), "negated");
    }
    else if (k == 2) {
        std::string a = g.str(8, "ab 1"), b = g.str(8, "ab 1");
        CHECK_EQ(std::string(Value(a) + Value(b)), a + b, "strings");
    }
    else {
        TreeOpts o; o.depth = 1;
        Tree a, b; a.k = b.k = Tree::List;
        size_t n = g.size(4), m = g.size(4);
        for (size_t i = 0; i < n; i++) a.list.push_back(genTree(g, o, 0));
        for (size_t i = 0; i < m; i++) b.list.push_back(genTree(g, o, 0));
        Value x = toValue(a), y = toValue(b);
        Tree c = a; c.list.insert(c.list.end(), b.list.begin(), b.list.end());
        CHECK(fromValue(x + y) == c, "lists added");
        CHECK(fromValue(x) == a && fromValue(y) == b, "operands are left alone");
    }
}

PBT(conversions, 4) {
    g.nontrivial();
    switch (g.idx(6)) {
        case 0: {
            long long a = g.integer(INT64_MIN + 1, INT64_MAX);
            g.note([&](std::ostream& s) { s << a; });
            Value v(a);
            CHECK_EQ((long long)v, a, "as long long");
            CHECK_EQ(std::string(v), std::to_string(a), "as string");
            CHECK_EQ(double(v), double(a), "as double");
            CHECK_EQ(bool(v), a != 0, "as bool");
            CHECK_EQ((long long)Value(std::string(v)), a, "of a string");
            if (a >= INT32_MIN && a <= INT32_MAX) CHECK_EQ(int(v), int(a), "as int");
            if (a >= 0) CHECK_EQ((unsigned long long)v, (unsigned long long)a, "as unsigned");
            break;
        }
        case 1: {
            double d = genNiceDouble(g);
            g.note([&](std::ostream& s) { s << d; });
            CHECK_EQ(double(Value(d)), d, "as double");
            bool whole = std::fabs(d) < 9e18 && d == std::floor(d);
            if (whole) CHECK_EQ((long long)Value(d), (long long)d, "a whole double as an integer");
            else CHECK(pbt::throws([&] { (void)(long long)(Value(d)); }), "a double which is no integer");
            break;
        }
        case 2: {
            std::string s = g.str(10, "abc xyz");
            CHECK_EQ(std::string(Value(s)), s, "as string");
            CHECK(pbt::throws([&] { double d = Value(s + "q"); (void)d; }), "text as a number");
            break;
        }
        case 3: {
            Date d = Date(1900, 1, 1) + long(g.integer(0, 800000));
            Time t(long(g.range(0, 86399)));
            CHECK(Date(static_cast<Date>(Value(d))) == d, "date");
            Time tb = Value(t);
            CHECK(tb == t, "time");
            DateTime dt(d, t);
            DateTime db = Value(dt);
            CHECK(db == dt, "date and time");
            break;
        }
        case 4: {
            ValueList l;
            Value x(long(g.range(0, 1000)));
            l.push_back(x);
            CHECK_EQ((long long)Value(l), (long long)x, "a list of one element");
            l.push_back(x);
            CHECK(pbt::throws([&] { (void)(long long)(Value(l)); }), "a list of two as a number");
            ValueList back = Value(l);
            CHECK_EQ(back.size(), size_t(2), "list");
            break;
        }
        case 5: {
            ValueMap m;
            size_t n = g.size(5);
            std::map<std::string, long> r;
            for (size_t i = 0; i < n; i++) { std::string k = g.ident(3); long x = g.range(0, 99); m[Value(k)] = Value(x); r[k] = x; }
            Value v(m);
            ValueMap back = v;
            CHECK_EQ(back.size(), r.size(), "size of a map");
            size_t i = 0;
            Value keys = v.keys();
            for (auto& p : r) { CHECK_EQ(std::string(keys[int(i)]), p.first, "keys in order"); CHECK_EQ(long(back[Value(p.first)]), p.second, "value of a key"); i++; }
            break;
        }
    }
}
