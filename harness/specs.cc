// C45: specifications (eckit::spec): typed values by case-insensitive name, layers, and the generators' registry.
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>
#include <type_traits>
#include <variant>
#include "eckit/log/JSON.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/parser/YAMLParser.h"
#include "eckit/spec/Custom.h"
#include "eckit/spec/Exceptions.h"
#include "eckit/spec/Generator.h"
#include "eckit/spec/Layered.h"
#include "eckit/spec/Spec.h"
#include "pbt.h"
#include "refjson.h"

using namespace pbt;
using namespace eckit;
using spec::Custom;

namespace {

struct MV;
using MM = std::map<std::string, MV>;  // keys in lower case
struct MV {
    enum K { S, B, I, D, VI, VD, VS, C } k = I;
    std::string s;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::vector<long long> vi;
    std::vector<double> vd;
    std::vector<std::string> vs;
    std::shared_ptr<MM> c;
};

std::string low(std::string s) {
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    return s;
}

template <typename T> constexpr bool isInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;

// what a value is as a T: 1 it is, 0 it is not one, -1 it is one, outside of T
template <typename T> int as(const MV& v, T& o) {
    if constexpr (std::is_same_v<T, std::string>) {
        switch (v.k) {
            case MV::S: o = v.s; return 1;
            case MV::I: o = std::to_string(v.i); return 1;
            case MV::D: o = std::to_string(v.d); return 1;
            default: return 0;
        }
    }
    else if constexpr (std::is_same_v<T, bool>) {
        if (v.k == MV::B) { o = v.b; return 1; }
        if (v.k == MV::I) { o = v.i != 0; return v.i == int(v.i) ? 1 : -1; }
        return 0;
    }
    else if constexpr (isInt<T>) {
        if (v.k != MV::I) return 0;
        o = T(v.i);
        return (long long)(o) == v.i && (o < T(0)) == (v.i < 0) ? 1 : -1;
    }
    else if constexpr (std::is_floating_point_v<T>) {
        if (v.k == MV::I) { o = T(v.i); return 1; }
        if (v.k == MV::D) { o = T(v.d); return 1; }
        return 0;
    }
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
        if (v.k == MV::VS) { o = v.vs; return 1; }
        return 0;
    }
    else {
        using E = typename T::value_type;
        int r = 1;
        o.clear();
        if (v.k == MV::VI) {
            for (auto x : v.vi) { MV e; e.i = x; E y{}; int q = as<E>(e, y); if (q < 0) r = -1; o.push_back(y); }
            return r;
        }
        if (v.k == MV::VD && std::is_floating_point_v<E>) { for (auto x : v.vd) o.push_back(E(x)); return 1; }
        return 0;
    }
}

std::string word(Gen& g) {
    std::string s = g.pick<std::string>({"a", "b", "grid", "area", "type", "nx", "shape", "North"});
    if (g.chance(20)) s += char('0' + g.idx(10));
    return s;
}
std::string caseOf(Gen& g, std::string s) {
    for (auto& c : s) if (isalpha((unsigned char)c) && g.boolean()) c = char(c ^ 0x20);
    return s;
}

double dbl(Gen& g) {
    switch (g.idx(4)) {
        case 0: return double(g.integer(-100, 100));
        case 1: return double(g.integer(-100000, 100000)) / 64;
        case 2: return g.real(-400, 400);
        default: return g.real(-1, 1) * std::pow(10., double(g.integer(-30, 30)));
    }
}
// a whole number of a text that does not fit an int is truncated: known finding spec-int
long long textNum(Gen& g);
long long num(Gen& g) { return g.chance(80) ? g.integer(-50, 1000) : g.integer(-(1LL << 62), 1LL << 62); }
long long textNum(Gen& g) {
    long long n = num(g);
    if (n == int(n)) return n;
    g.excluded("C45-int");
    return int(n);
}
std::string txt(Gen& g) { return g.chance(30) ? std::to_string(g.integer(-5, 20)) : g.str(6, "abcXYZ 019.-\"\\/"); }

MM genMap(Gen& g, int depth, size_t most);

// sets a generated value of any of the types both in the Custom and in the model
MV put(Gen& g, Custom& c, const std::string& name, int depth) {
    MV v;
    auto ints = [&](auto e) { using E = decltype(e); std::vector<E> x; size_t n = g.idx(4); for (size_t i = 0; i < n; ++i) { long long y = num(g); if (std::is_same_v<E, int>) y = int(y); if (std::is_unsigned_v<E>) y &= 0x7fffffffffffffffLL; x.push_back(E(y)); v.vi.push_back((long long)(E(y))); } v.k = MV::VI; c.set(name, x); };
    switch (g.idx(depth > 0 ? 19 : 17)) {
        case 0: v.k = MV::S; v.s = txt(g); c.set(name, v.s); break;
        case 1: v.k = MV::S; v.s = txt(g); c.set(name, v.s.c_str()); break;
        case 2: v.k = MV::B; v.b = g.boolean(); c.set(name, v.b); break;
        case 3: v.i = int(num(g)); c.set(name, int(v.i)); break;
        case 4: v.i = num(g); c.set(name, long(v.i)); break;
        case 5: v.i = num(g); c.set(name, v.i); break;
        case 6: v.i = num(g) & 0x7fffffffffffffffLL; c.set(name, size_t(v.i)); break;
        case 7: v.k = MV::D; v.d = float(dbl(g)); c.set(name, float(v.d)); break;
        case 8: v.k = MV::D; v.d = dbl(g); c.set(name, v.d); break;
        case 9: ints(int{}); break;
        case 10: ints(long{}); break;
        case 11: ints((long long)(0)); break;
        case 12: ints(size_t{}); break;
        case 13: { std::vector<float> x; size_t n = g.idx(4); for (size_t i = 0; i < n; ++i) { x.push_back(float(dbl(g))); v.vd.push_back(x.back()); } v.k = MV::VD; c.set(name, x); break; }
        case 14: { size_t n = g.idx(4); for (size_t i = 0; i < n; ++i) v.vd.push_back(dbl(g)); v.k = MV::VD; c.set(name, v.vd); break; }
        case 15: { size_t n = g.idx(4); for (size_t i = 0; i < n; ++i) v.vs.push_back(txt(g)); v.k = MV::VS; c.set(name, v.vs); break; }
        case 16: {  // by way of a Value
            switch (g.idx(6)) {
                case 0: v.i = textNum(g); c.set(name, Value(v.i)); break;
                case 1: v.k = MV::D; v.d = dbl(g); c.set(name, Value(v.d)); break;
                case 2: v.k = MV::S; v.s = txt(g); c.set(name, Value(v.s)); break;
                case 3: { ValueList l; size_t n = 1 + g.idx(4); for (size_t i = 0; i < n; ++i) { v.vi.push_back(textNum(g)); l.push_back(Value(v.vi.back())); } v.k = MV::VI; c.set(name, Value::makeList(l)); break; }
                case 4: { ValueList l; size_t n = 1 + g.idx(4); for (size_t i = 0; i < n; ++i) { v.vd.push_back(dbl(g)); l.push_back(Value(v.vd.back())); } v.k = MV::VD; c.set(name, Value::makeList(l)); break; }
                default: { ValueList l; size_t n = 1 + g.idx(4); for (size_t i = 0; i < n; ++i) { v.vs.push_back(txt(g)); l.push_back(Value(v.vs.back())); } v.k = MV::VS; c.set(name, Value::makeList(l)); break; }
            }
            break;
        }
        default: {
            v.k = MV::C;
            v.c = std::make_shared<MM>();
            auto sub = std::make_unique<Custom>();
            size_t n = g.idx(4);
            for (size_t i = 0; i < n; ++i) { std::string k = word(g); MV x = put(g, *sub, caseOf(g, k), depth - 1); (*v.c)[low(k)] = x; }
            if (g.boolean()) { const spec::Spec& s = *sub; c.set(name, s); }
            else c.set(name, sub.release());
        }
    }
    return v;
}

bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-14 * std::max(std::abs(a), std::abs(b)); }

// the JSON text denotes the model
bool denotes(const Tree& t, const MV& v);
bool denotes(const Tree& t, const MM& m) {
    if ((t.k != Tree::Map && t.k != Tree::OMap) || t.map.size() != m.size()) return false;
    for (auto& p : m) { auto* x = t.find(p.first); if (!x || !denotes(*x, p.second)) return false; }
    return true;
}
bool denotes(const Tree& t, const MV& v) {
    auto isnum = [](const Tree& t, double d) { return t.k == Tree::Double ? near(t.d, d) : t.k == Tree::Int && near(double(t.i), d); };
    switch (v.k) {
        case MV::S: return t.k == Tree::Str && t.s == v.s;
        case MV::B: return t.k == Tree::Bool && t.b == v.b;
        case MV::I: return t.k == Tree::Int && t.i == v.i;
        case MV::D: return isnum(t, v.d);
        case MV::C: return denotes(t, *v.c);
        default: break;
    }
    if (t.k != Tree::List) return false;
    size_t n = v.k == MV::VI ? v.vi.size() : v.k == MV::VD ? v.vd.size() : v.vs.size();
    if (t.list.size() != n) return false;
    for (size_t i = 0; i < n; ++i) {
        auto& e = t.list[i];
        if (v.k == MV::VI ? !(e.k == Tree::Int && e.i == v.vi[i]) : v.k == MV::VD ? !isnum(e, v.vd[i]) : !(e.k == Tree::Str && e.s == v.vs[i])) return false;
    }
    return true;
}

template <typename T> void getAs(const spec::Spec& c, const std::string& asked, const MV* v, const T& before, const char* type) {
    T want{}, got = before;
    int r = v ? as<T>(*v, want) : 0;
    bool ok = c.get(asked, got);
    CHECK(ok == (r != 0), "get of " << asked << " as " << type << " is " << ok);
    if (r == 1) CHECK(got == want, "value of " << asked << " as " << type);
    if (!ok) CHECK(got == before, "a get that fails changes the value: " << asked << " as " << type);
}
template <typename T, typename F, typename D> void getOr(const spec::Spec& c, const std::string& asked, const MV* v, const T& dflt, F get, D getd, const char* type) {
    T want{};
    int r = v ? as<T>(*v, want) : 0;
    if (r < 0) return;
    T got{};
    std::string why;
    bool thrown = throws([&] { got = get(); }, &why);
    CHECK(thrown == (r == 0), type << " of " << asked << (thrown ? " refused: " + why : " not refused"));
    if (!thrown) CHECK(got == want, type << " of " << asked);
    CHECK((getd(dflt) == (r ? want : dflt)), type << " of " << asked << " or a default");
}

void look(Gen& g, const spec::Spec& c, const std::string& asked, const MV* v) {
    switch (g.idx(16)) {
        case 0: getAs<std::string>(c, asked, v, "before", "string"); break;
        case 1: getAs<bool>(c, asked, v, g.boolean(), "bool"); break;
        case 2: getAs<int>(c, asked, v, -7, "int"); break;
        case 3: getAs<long>(c, asked, v, -7, "long"); break;
        case 4: getAs<long long>(c, asked, v, -7, "long long"); break;
        case 5: getAs<size_t>(c, asked, v, 7, "size_t"); break;
        case 6: getAs<float>(c, asked, v, -7, "float"); break;
        case 7: getAs<double>(c, asked, v, -7, "double"); break;
        case 8: getAs<std::vector<int>>(c, asked, v, {-7}, "ints"); break;
        case 9: getAs<std::vector<long>>(c, asked, v, {-7}, "longs"); break;
        case 10: getAs<std::vector<long long>>(c, asked, v, {-7}, "long longs"); break;
        case 11: getAs<std::vector<size_t>>(c, asked, v, {7}, "size_ts"); break;
        case 12: getAs<std::vector<float>>(c, asked, v, {-7}, "floats"); break;
        case 13: getAs<std::vector<double>>(c, asked, v, {-7}, "doubles"); break;
        case 14: getAs<std::vector<std::string>>(c, asked, v, {"before"}, "strings"); break;
        default:
            switch (g.idx(9)) {
#define GET(T, f, d) getOr<T>(c, asked, v, d, [&] { return c.f(asked); }, [&](const T& x) { return c.f(asked, x); }, #f); break
                case 0: GET(std::string, get_string, "dflt");
                case 1: GET(bool, get_bool, true);
                case 2: GET(int, get_int, 5);
                case 3: GET(long, get_long, 5);
                case 4: GET(size_t, get_unsigned, 5);
                case 5: GET(double, get_double, 5);
                case 6: GET(std::vector<long>, get_long_vector, std::vector<long>{5});
                case 7: GET(std::vector<size_t>, get_unsigned_vector, std::vector<size_t>{5});
                default: GET(std::vector<double>, get_double_vector, std::vector<double>{5});
            }
    }
}

void whole(const Custom& c, const MM& m, const std::string& when) {
    CHECK_EQ(c.container().size(), m.size(), when + ": size");
    CHECK_EQ(c.empty(), m.empty(), when + ": empty");
    std::string s = c.str();
    RefJson j(s);
    Tree t;
    CHECK(j.value(t), when << ": not JSON: " << s << ": " << j.err);
    CHECK(denotes(t, m), when << ": " << s);
    std::ostringstream o;
    o << c;
    CHECK_EQ(o.str(), s, when + ": printed");
}

// every value of a is one of b too, as far as the types can be compared
bool eq(const MV& a, const MV& b) {
    auto isnum = [](const MV& v) { return v.k == MV::I || v.k == MV::D; };
    auto isvec = [](const MV& v) { return v.k == MV::VI || v.k == MV::VD; };
    if (a.k == MV::C || b.k == MV::C) {
        if (a.k != b.k) return false;
        for (auto& p : *a.c) { auto x = b.c->find(p.first); if (x == b.c->end() || !eq(p.second, x->second)) return false; }
        return true;
    }
    if (a.k == MV::I && b.k == MV::I) return a.i == b.i;
    if (isnum(a) && isnum(b)) { double x, y; as(a, x); as(b, y); return x == y; }
    if (a.k == MV::VI && b.k == MV::VI) return a.vi == b.vi;
    if (isvec(a) && isvec(b)) { std::vector<double> x, y; as(a, x); as(b, y); return x == y; }
    if (a.k == MV::VS && b.k == MV::VS) return a.vs == b.vs;
    if (a.k == MV::S || b.k == MV::S) { std::string x, y; return as(a, x) && as(b, y) && x == y; }
    if (a.k == MV::B && b.k == MV::B) return a.b == b.b;
    return false;
}
bool mixed(const MV& a, const MV& b) {  // a flag and a number, or 64-bit numbers that are one as a double: not decided
    if (a.k == MV::C && b.k == MV::C) { for (auto& p : *a.c) { auto x = b.c->find(p.first); if (x != b.c->end() && mixed(p.second, x->second)) return true; } return false; }
    return (a.k == MV::B && b.k == MV::I) || (a.k == MV::I && b.k == MV::B) || (a.k == MV::I && b.k == MV::I && a.i != b.i && double(a.i) == double(b.i)) ||
           (a.k == MV::VI && b.k == MV::VI && a.vi != b.vi);
}
// flags, nested specifications, and numbers whose texts are the same are not compared well: known finding spec-equality
bool unclear(const MM& a, const MM& b) {
    for (auto& p : a) {
        auto x = b.find(p.first);
        if (x == b.end()) continue;
        const MV &v = p.second, &w = x->second;
        if ((v.k == MV::B && w.k == MV::B) || (v.k == MV::C && w.k == MV::C)) return true;
        std::string t, u;
        if ((v.k == MV::I || v.k == MV::D) && (w.k == MV::I || w.k == MV::D) && !eq(v, w) && as(v, t) && as(w, u) && t == u) return true;
    }
    return false;
}
bool within(const MM& a, const MM& b, bool& skip) {
    skip = false;
    bool r = true;
    for (auto& p : a) {
        auto x = b.find(p.first);
        if (x == b.end()) { r = false; continue; }
        if (mixed(p.second, x->second)) {
            if (p.second.k == MV::VI && std::vector<double>(p.second.vi.begin(), p.second.vi.end()) != std::vector<double>(x->second.vi.begin(), x->second.vi.end())) { r = false; continue; }
            skip = true;
            continue;
        }
        if (!eq(p.second, x->second)) r = false;
    }
    if (!r) skip = false;
    return r;
}

}  // namespace

PBT(histories, 8) {
    Custom c;
    MM m;
    size_t n = 1 + g.size(12), types = 0;
    std::ostringstream log;
    for (size_t i = 0; i < n; ++i) {
        std::string k = word(g), name = caseOf(g, k);
        switch (g.weighted({8, 2, 1, 1, 1})) {
            case 0: m[low(k)] = put(g, c, name, 2); types |= size_t(1) << m[low(k)].k; log << "set " << name << "; "; break;
            case 1: { bool had = m.erase(low(k)); log << "erase " << name << "; "; CHECK_EQ(c.erase(name), size_t(had), "erase"); break; }
            case 2: {
                Custom o;
                MM om;
                size_t q = g.idx(4);
                for (size_t a = 0; a < q; ++a) { std::string kk = word(g); om[low(kk)] = put(g, o, caseOf(g, kk), 1); }
                if (g.boolean()) { c.set(o); for (auto& p : om) m.insert(p); log << "set of " << q << "; "; }  // what is there stays
                else { c.set(o.container()); m = om; log << "set to " << q << "; "; }
                break;
            }
            case 3: if (g.chance(20)) { c.clear(); m.clear(); log << "clear; "; } break;
            default: { Custom d(c.container()); whole(d, m, "a copy"); Custom e{Custom::container_type(d.container())}; whole(e, m, "a copy of it"); }
        }
        std::string a = word(g), asked = caseOf(g, a);
        auto v = m.find(low(a));
        CHECK_EQ(c.has(asked), v != m.end(), "has " + asked);
        CHECK_EQ(c.only(asked), v != m.end() && m.size() == 1, "only " + asked);
        bool sub = v != m.end() && v->second.k == MV::C;
        CHECK_EQ(c.has_custom(asked), sub, "has_custom " + asked);
        CHECK(throws([&] { c.spec(asked); }) == !sub, "spec " << asked);
        CHECK(throws([&] { c.custom(asked); }) == !sub, "custom " << asked);
        if (sub) { whole(*c.custom(asked), *v->second.c, "nested"); CHECK(c.spec(asked).str() == c.custom(asked)->str(), "the nested one, twice"); }
        look(g, c, asked, v == m.end() ? nullptr : &v->second);
    }
    g.note([&](std::ostream& o) { o << log.str() << " -> " << c.str(); });
    g.nontrivial(m.size() > 2 && types != (types & -types));
    whole(c, m, "at the end");
    for (auto& p : m) look(g, c, caseOf(g, p.first), &p.second);
}

PBT(equality, 4) {
    Custom a, b;
    MM ma, mb;
    size_t n = g.idx(4);
    for (size_t i = 0; i < n; ++i) { std::string k = g.pick<std::string>({"a", "b", "c"}); ma[k] = put(g, a, caseOf(g, k), 2); }
    if (g.boolean()) {  // b has what a has and more, in other types
        b.set(a.container());
        mb = ma;
    }
    n = g.idx(3);
    for (size_t i = 0; i < n; ++i) {
        std::string k = g.pick<std::string>({"a", "b", "c", "d"});
        auto x = ma.find(k);
        if (x != ma.end() && g.chance(60)) {
            MV v = x->second;
            bool other = g.boolean();
            switch (v.k) {
                case MV::I: if (other) { v.i += g.boolean() ? 1 : 0; b.set(k, long(v.i)); } else { v.k = MV::D; v.d = double(v.i); b.set(k, v.d); } break;
                case MV::D: if (other) v.d = std::nextafter(v.d, g.boolean() ? 1e9 : -1e9); b.set(k, v.d); break;
                case MV::S: if (other) v.s += "x"; b.set(k, v.s); break;
                case MV::B: if (other) v.b = !v.b; b.set(k, v.b); break;
                case MV::VS: if (other) v.vs.push_back("z"); b.set(k, v.vs); break;
                case MV::VD: if (other && !v.vd.empty()) v.vd[g.idx(v.vd.size())] += 1; b.set(k, v.vd); break;
                case MV::VI: v.k = MV::VD; v.vd.assign(v.vi.begin(), v.vi.end()); if (other) v.vd.push_back(1); b.set(k, v.vd); break;
                default: {
                    std::unique_ptr<Custom> sub(new Custom(a.custom(k)->container()));
                    v.c = std::make_shared<MM>(*v.c);
                    if (other) { (*v.c)["zz"] = MV{}; (*v.c)["zz"].i = 3; sub->set("zz", 3); }
                    else if (!v.c->empty()) { auto d = v.c->begin()->first; sub->erase(d); v.c->erase(d); }
                    b.set(k, sub.release());
                }
            }
            mb[k] = v;
        }
        else mb[k] = put(g, b, caseOf(g, k), 1);
    }
    g.note([&](std::ostream& o) { o << a.str() << " and " << b.str(); });
    bool skip;
    bool w = within(ma, mb, skip);
    g.nontrivial(!ma.empty() && ma.size() <= mb.size());
    CHECK((a == b) != (a != b), "!=");
    if (unclear(ma, ma) || unclear(mb, mb) || unclear(ma, mb)) {
        g.excluded("C45-equality");
        return;
    }
    CHECK(a == a, "not equal to itself: " << a.str());
    CHECK(b == b, "not equal to itself: " << b.str());
    if (!skip) CHECK((a == b) == w, "== is " << (a == b) << ": " << a.str() << " and " << b.str());
    w = within(mb, ma, skip);
    if (!skip) CHECK((b == a) == w, "== is " << (b == a) << ": " << b.str() << " and " << a.str());
}

// from a text
PBT(texts, 4) {
    MM m;
    bool refused = false;
    auto esc = [](const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; };
    auto real = [](double d) { std::ostringstream o; o.precision(17); o << d; std::string s = o.str(); if (s.find_first_of(".e") == std::string::npos) s += ".0"; return s; };
    std::function<std::string(MM&, int)> object = [&](MM& m, int depth) {
        std::string s = "{";
        size_t n = g.idx(5);
        for (size_t i = 0; i < n; ++i) {
            std::string k = word(g), name = caseOf(g, k);
            if (m.count(low(k))) continue;
            MV v;
            std::string t;
            size_t q = 1 + g.idx(3);
            switch (g.weighted({4, 3, 3, 3, 3, 2, 2, depth > 0 ? 3 : 0, 1})) {
                case 0: v.i = textNum(g); t = std::to_string(v.i); break;
                case 1: v.k = MV::D; v.d = dbl(g); t = real(v.d); break;
                case 2: v.k = MV::S; v.s = txt(g); t = esc(v.s); break;
                case 3: v.k = MV::VI; for (size_t a = 0; a < q; ++a) { v.vi.push_back(textNum(g)); t += (a ? "," : "[") + std::to_string(v.vi.back()); } t += "]"; break;
                case 4: v.k = MV::VD; for (size_t a = 0; a < q; ++a) { v.vd.push_back(dbl(g)); t += (a ? "," : "[") + real(v.vd.back()); } t += "]"; break;
                case 5: v.k = MV::VS; for (size_t a = 0; a < q; ++a) { v.vs.push_back(txt(g)); t += (a ? "," : "[") + esc(v.vs.back()); } t += "]"; break;
                case 6: v.k = MV::VD; v.vd = {double(g.integer(0, 99)), dbl(g)}; t = "[" + std::to_string(int(v.vd[0])) + "," + real(v.vd[1]) + "]"; break;
                case 7: v.k = MV::C; v.c = std::make_shared<MM>(); t = object(*v.c, depth - 1); break;
                default: if (g.chance(80)) continue; refused = true; t = g.pick<std::string>({"null", "true", "[]", "[1,\"a\"]", "[[1]]", "[1,null]"});
            }
            m[low(k)] = v;
            s += (s.size() > 1 ? ", " : "") + esc(name) + ": " + t;
        }
        return s + "}";
    };
    std::string text = object(m, 2);
    g.note([&](std::ostream& o) { o << text; });
    g.nontrivial(m.size() > 1);
    Value v = g.boolean() ? JSONParser::decodeString(text) : YAMLParser::decodeString(text);
    std::unique_ptr<Custom> c;
    std::string why;
    bool thrown = throws([&] { c.reset(Custom::make_from_value(v)); }, &why);
    CHECK(thrown == refused, (thrown ? "refused: " + why : "not refused") << ": " << text);
    if (!thrown) {
        whole(*c, m, "from the text " + text);
        for (auto& p : m) look(g, *c, caseOf(g, p.first), &p.second);
    }
    std::string name = g.ident();
    std::unique_ptr<Custom> one(Custom::make_from_value(Value(name)));
    CHECK(one->only("grid") && one->get_string("grid") == name, "from the name of a grid");
}

PBT(layers, 6) {
    Custom base;
    MM mbase;
    auto fill = [&](Custom& c, MM& m) { size_t n = g.idx(4); for (size_t i = 0; i < n; ++i) { std::string k = word(g); m[low(k)] = put(g, c, caseOf(g, k), 1); } };
    bool noBase = g.chance(10);
    if (!noBase) fill(base, mbase);
    spec::Layered none;
    std::unique_ptr<spec::Layered> made(noBase ? new spec::Layered : new spec::Layered(base));
    spec::Layered& l = *made;
    std::vector<MM> layers{mbase};
    std::set<std::string> hidden;
    size_t n = g.size(8), pushed = 0, fronts = 0;
    std::ostringstream log;
    for (size_t i = 0; i < n; ++i) {
        std::string k = low(word(g));
        switch (g.weighted({3, 3, 2, 1})) {
            case 0: case 1: {
                auto* c = new Custom;
                MM m;
                fill(*c, m);
                bool front = g.boolean();
                log << (front ? "front " : "back ") << c->str() << "; ";
                if (front) { l.push_front(c); layers.insert(layers.begin(), m); fronts++; }
                else { l.push_back(c); layers.push_back(m); }
                pushed++;
                break;
            }
            case 2: l.hide(k); hidden.insert(k); log << "hide " << k << "; "; break;
            default: l.unhide(k); hidden.erase(k); log << "unhide " << k << "; ";
        }
        for (int q = 0; q < 3; ++q) {
            std::string a = low(word(g));
            std::vector<const MV*> found;
            if (!hidden.count(a)) for (auto& m : layers) { auto x = m.find(a); if (x != m.end()) found.push_back(&x->second); }
            CHECK_EQ(l.has(a), !found.empty(), "has " + a);
            // the first layer that has it as what is asked for
            auto first = [&](auto t) -> const MV* { decltype(t) o; for (auto* v : found) if (as(*v, o)) return v; return nullptr; };
            switch (g.idx(8)) {
                case 0: getAs<std::string>(l, a, first(std::string()), "before", "string"); break;
                case 1: getAs<bool>(l, a, first(bool()), true, "bool"); break;
                case 2: getAs<long>(l, a, first(long()), 3, "long"); break;
                case 3: getAs<double>(l, a, first(double()), 3, "double"); break;
                case 4: getAs<std::vector<double>>(l, a, first(std::vector<double>()), {3}, "doubles"); break;
                case 5: getAs<std::vector<std::string>>(l, a, first(std::vector<std::string>()), {"x"}, "strings"); break;
                case 6: getAs<std::vector<size_t>>(l, a, first(std::vector<size_t>()), {3}, "size_ts"); break;
                default: {
                    const spec::Spec& s = l;
                    size_t in = 0, at = 0;
                    for (size_t y = 0; y < layers.size(); ++y)
                        if (layers[y].count(a)) { ++in; at = y; }
                    if (in > 1 || (in == 1 && (at >= fronts || hidden.count(a)))) {  // known finding spec-layers
                        g.excluded("C45-layers");
                        break;
                    }
                    bool sub = !found.empty() && found[0]->k == MV::C;
                    std::string why;
                    bool thrown = throws([&] { s.spec(a); }, &why);
                    CHECK(thrown == !sub, "spec of " << a << (thrown ? " refused: " + why : " not refused"));
                    if (sub) whole(dynamic_cast<const Custom&>(s.spec(a)), *found[0]->c, "nested, in layers");
                }
            }
        }
    }
    g.note([&](std::ostream& o) { o << "base " << base.str() << "; " << log.str(); });
    g.nontrivial(pushed > 1 && !mbase.empty());
    std::ostringstream o;
    o << l;
    std::string text = o.str();
    RefJson j(text);
    Tree t;
    CHECK(j.value(t), "layers printed: not JSON: " << text << ": " << j.err);
}

// ---------------------------------------------------------------- generators
namespace {
struct One : spec::SpecGenerator {
    std::string key, kind;
    One(const std::string& k, const std::string& t) : key(k), kind(t) {}
    bool match(const Custom& s) const override { return s.get_string("kind", "") == kind; }
};
using Registry = spec::GeneratorT<One>;

struct Pattern { std::string text; bool (*matches)(const std::string&); };
bool digits(const std::string& s, size_t from) { if (from >= s.size()) return false; for (size_t i = from; i < s.size(); ++i) if (!isdigit((unsigned char)s[i])) return false; return true; }
const std::vector<Pattern> PATTERNS{
    {"f[0-9]+", [](const std::string& s) { return !s.empty() && low(s)[0] == 'f' && digits(s, 1); }},
    {"[no][0-9]+", [](const std::string& s) { return !s.empty() && (low(s)[0] == 'n' || low(s)[0] == 'o') && digits(s, 1); }},
    {"F12", [](const std::string& s) { return low(s) == "f12"; }},
    {"orca", [](const std::string& s) { return low(s) == "orca"; }},
    {"[0-9a-fA-F]{32}", [](const std::string& s) { if (s.size() != 32) return false; for (char c : s) if (!isxdigit((unsigned char)c)) return false; return true; }},
    {"h[0-9]+(r|n)?", [](const std::string& s) { std::string t = low(s); if (!t.empty() && (t.back() == 'r' || t.back() == 'n')) t.pop_back(); return !t.empty() && t[0] == 'h' && digits(t, 1); }},
    {"", [](const std::string& s) { return s.empty(); }},
};
}  // namespace

PBT(generators, 3) {
    auto& r = Registry::instance();
    struct Clear { ~Clear() { std::vector<std::string> k; for (auto& p : Registry::instance().store()) k.push_back(p.first); for (auto& x : k) Registry::instance().unregist(x); } } clear;
    std::map<std::string, std::pair<const Pattern*, std::string>> m;
    size_t n = 1 + g.size(10);
    std::ostringstream log;
    for (size_t i = 0; i < n; ++i) {
        auto& p = PATTERNS[g.idx(PATTERNS.size())];
        bool known = m.count(p.text);
        if (g.chance(75)) {
            std::string kind = g.pick<std::string>({"x", "y", "z", "w"});
            std::unique_ptr<One> one(new One(p.text, kind));
            bool thrown = throws([&] { r.regist(p.text, one.get()); });
            CHECK_EQ(thrown, known, "registered twice: " + p.text);
            if (!thrown) { one.release(); m[p.text] = {&p, kind}; }
            log << "+" << p.text << " " << kind << "; ";
        }
        else {
            CHECK(throws([&] { r.unregist(p.text); }) == !known, "unregister " << p.text);
            m.erase(p.text);
            log << "-" << p.text << "; ";
        }
        CHECK_EQ(r.store().size(), m.size(), "size");
        auto& q = PATTERNS[g.idx(PATTERNS.size())];
        CHECK_EQ(r.exists(q.text), m.count(q.text) > 0, "exists " + q.text);
        const One* got = nullptr;
        CHECK(throws([&] { got = &r.get(q.text); }) == (m.count(q.text) == 0), "get " << q.text);
        if (got) CHECK_EQ(got->key, q.text, "get");
        std::string name = caseOf(g, g.weighted({4, 1, 1}) == 0 ? g.pick<std::string>({"f", "n", "o", "h", "g"}) + std::to_string(g.idx(20)) + g.pick<std::string>({"", "", "r", "n", "x"}) : g.pick<std::string>({"orca", "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcde", "", "f12", "orcas"}));
        std::vector<std::string> which;
        for (auto& x : m) if (x.second.first->matches(name)) which.push_back(x.first);
        CHECK_EQ(r.matches(name), !which.empty(), "matches " + name);
        got = nullptr;
        bool thrown = throws([&] { got = &r.match(name); });
        CHECK(thrown == (which.size() != 1), "match of " << name << ", which " << which.size() << " patterns match");
        if (got) CHECK_EQ(got->key, which[0], "match of " + name);
        Custom s;
        std::string kind = g.pick<std::string>({"x", "y", "z", "w"}), found = "none";
        s.set("kind", kind);
        which.clear();
        for (auto& x : m) if (!x.first.empty() && x.second.second == kind) which.push_back(x.first);
        bool matched = false;
        thrown = throws([&] { matched = r.match(s, found); });
        CHECK(thrown == (which.size() > 1), "match of a specification that " << which.size() << " generators match");
        if (!thrown) { CHECK_EQ(matched, which.size() == 1, "match of a specification"); CHECK_EQ(found, matched ? which[0] : std::string("none"), "name of the match"); }
    }
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(m.size() > 1 && n > 3);
}

// known finding spec-equality
PBT(known_equality, 0) {
    Custom a, b, c, d;
    a.set("a", true);
    b.set("a", true);
    CHECK(a == b, "specifications of the same flag are not equal");
    c.set("a", 1.0);
    d.set("a", 1.00000001);
    CHECK(c != d, "specifications of unlike numbers are equal");
    Custom e, f;
    e.set("n", c);
    f.set("n", c);
    CHECK(e == f, "specifications of the same nested specification are not equal");
}

// known finding spec-int
PBT(known_int, 0) {
    std::unique_ptr<Custom> c(Custom::make_from_value(JSONParser::decodeString("{\"a\": 10000000000}")));
    CHECK_EQ(c->get_long("a"), 10000000000L, "a number of a text");
}

// known finding spec-layers
PBT(known_layers, 0) {
    Custom base, sub;
    sub.set("x", 1);
    base.set("n", static_cast<const spec::Spec&>(sub));
    spec::Layered l(base);
    const spec::Spec& s = l;
    std::string why;
    CHECK(!throws([&] { s.spec("n"); }, &why), "a nested specification of the base is not found: " << why);
}
