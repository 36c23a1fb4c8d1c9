// C11: text utilities against simple reference models
#include <cmath>
#include <cfloat>
#include <cstring>
#include <limits>
#include <set>
#include <sstream>
#include "eckit/exception/Exceptions.h"
#include "eckit/log/BigNum.h"
#include "eckit/log/Bytes.h"
#include "eckit/log/Seconds.h"
#include "eckit/parser/CSVParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/types/FixedString.h"
#include "eckit/types/FloatCompare.h"
#include "eckit/types/SemanticVersion.h"
#include "eckit/types/UUID.h"
#include "eckit/utils/Regex.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"
#include "eckit/value/Value.h"
#include <fstream>
#include "pbt.h"

using namespace eckit;
using pbt::esc;
PBT_INIT { eckit::Main::initialise(argc, argv); }

static std::string anyText(pbt::Gen& g, size_t mx) {
    static const std::string small = std::string("ab{} \t\n'\",.;=-/\xff\0", 18) + "é";
    return g.chance(70) ? g.str(mx, small) : g.bytes(mx);
}

// ---------------------------------------------------------------- StringTools
PBT(substitute, 3) {
    std::map<std::string, std::string> vars;
    size_t n = g.size(4);
    for (size_t i = 0; i < n; i++) vars[g.chance(10) ? "" : g.str(3, "abc $")] = g.str(5, "ab{}x");
    std::string text, want;
    std::vector<std::string> names;
    int bad = 0;  // 1 for both, 2 for substitute only
    size_t parts = g.size(8);
    for (size_t i = 0; i < parts; i++) {
        if (g.boolean()) { std::string s = g.str(6, "ab $x\n\xff"); text += s; want += s; continue; }
        if (!vars.empty() && g.chance(85)) { auto it = vars.begin(); std::advance(it, g.idx(vars.size())); text += "{" + it->first + "}"; want += it->second; names.push_back(it->first); continue; }
        int k = int(g.idx(5));
        if (k == 0) { text += "}"; bad = 1; }
        else if (k == 1) { text += "{a{b}"; bad = 1; }
        else if (k == 2) { text += "{zz}"; names.push_back("zz"); if (!bad) bad = 2; }
    }
    if (g.chance(10)) { text += "{a"; bad = 1; }
    g.note([&](std::ostream& o) { o << esc(text) << " with " << vars.size() << " variables"; });
    g.nontrivial(names.size() > 1);
    if (bad == 1) {
        CHECK(pbt::throws([&] { StringTools::substitute(text, vars); }), "malformed text accepted by substitute: " << esc(text));
        CHECK(pbt::throws([&] { StringTools::listVariables(text); }), "malformed text accepted by listVariables: " << esc(text));
        return;
    }
    CHECK(StringTools::listVariables(text) == names, "variables of " << esc(text));
    if (bad) CHECK(pbt::throws([&] { StringTools::substitute(text, vars); }), "missing variable accepted: " << esc(text));
    else CHECK_EQ(esc(StringTools::substitute(text, vars)), esc(want), "substitute in " << esc(text));
}

static bool in(const std::string& s, char c) { for (char x : s) if (x == c) return true; return false; }

PBT(strings, 4) {
    std::string s = anyText(g, 12), cs = g.chance(20) ? "" : g.str(3, " \tab\n");
    g.note([&](std::ostream& o) { o << esc(s) << " chars " << esc(cs); });
    g.nontrivial(s.size() > 2);
    auto ref = [&](const std::string& chars, bool front, bool back) {
        size_t b = 0, e = s.size();
        while (front && b < e && in(chars, s[b])) b++;
        while (back && e > b && in(chars, s[e - 1])) e--;
        return s.substr(b, e - b);
    };
    CHECK_EQ(esc(StringTools::trim(s)), esc(ref(" \t\n", true, true)), "trim " << esc(s));
    CHECK_EQ(esc(StringTools::front_trim(s)), esc(ref(" \t", true, false)), "front_trim " << esc(s));
    CHECK_EQ(esc(StringTools::back_trim(s)), esc(ref(" \t", false, true)), "back_trim " << esc(s));
    CHECK_EQ(esc(StringTools::trim(s, cs)), esc(ref(cs, true, true)), "trim " << esc(cs) << " from " << esc(s));
    CHECK_EQ(esc(StringTools::front_trim(s, cs)), esc(ref(cs, true, false)), "front_trim " << esc(cs) << " from " << esc(s));
    CHECK_EQ(esc(StringTools::back_trim(s, cs)), esc(ref(cs, false, true)), "back_trim " << esc(cs) << " from " << esc(s));
    std::string u = StringTools::upper(s), l = StringTools::lower(s);
    CHECK_EQ(u.size(), s.size(), "upper");
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        CHECK_EQ(int(u[i]), int(c >= 'a' && c <= 'z' ? c - 32 : c), "upper of " << int(c));
        CHECK_EQ(int(l[i]), int(c >= 'A' && c <= 'Z' ? c + 32 : c), "lower of " << int(c));
    }
    std::string t = g.chance(60) && !s.empty() ? (g.boolean() ? s.substr(0, 1 + g.idx(s.size())) : s.substr(g.idx(s.size()))) : anyText(g, 4);
    if (!t.empty()) {
        bool st = t.size() <= s.size() && memcmp(s.data(), t.data(), t.size()) == 0, en = t.size() <= s.size() && memcmp(s.data() + s.size() - t.size(), t.data(), t.size()) == 0;
        CHECK_EQ(StringTools::startsWith(s, t), st, esc(s) << " starts with " << esc(t));
        CHECK_EQ(StringTools::beginsWith(s, t), st, esc(s) << " begins with " << esc(t));
        CHECK_EQ(StringTools::endsWith(s, t), en, esc(s) << " ends with " << esc(t));
    }
    std::string q = g.pick<std::string>({"\"", "'"}), w = q + s + q;
    CHECK(StringTools::isQuoted(w), "quoted " << esc(w));
    CHECK_EQ(esc(StringTools::unQuote(w)), esc(s), "unQuote " << esc(w));
    bool quoted = s.size() > 1 && s[0] == s[s.size() - 1] && (s[0] == '"' || s[0] == '\'');
    CHECK_EQ(StringTools::isQuoted(s), quoted, esc(s));
    CHECK_EQ(esc(StringTools::unQuote(s)), esc(quoted ? s.substr(1, s.size() - 2) : s), "unQuote " << esc(s));
}

// ---------------------------------------------------------------- Tokenizer, split and join
PBT(tokens, 4) {
    std::string text = anyText(g, 20), seps = g.chance(10) ? "" : g.str(3, "ab,. \n\xff");
    bool keep = g.boolean();
    bool one = seps.size() == 1 && g.boolean();
    g.note([&](std::ostream& o) { o << esc(text) << " at " << esc(seps) << (keep ? " keep" : ""); });
    auto ref = [&](const std::string& t) {
        std::vector<std::string> v;
        size_t b = 0;
        for (size_t i = 0; i <= t.size(); i++)
            if (i == t.size() || in(seps, t[i])) { if (i > b || keep) v.push_back(t.substr(b, i - b)); b = i + 1; }
        return v;
    };
    Tokenizer tok = one ? Tokenizer(seps[0], keep) : Tokenizer(seps, keep);
    auto want = ref(text);
    g.nontrivial(want.size() > 2);
    std::vector<std::string> v;
    std::set<std::string> st;
    if (g.chance(20)) { v.push_back("there"); want.insert(want.begin(), "there"); }
    tok(text, v);
    CHECK(v == want, "tokens of " << esc(text) << ": " << v.size() << " instead of " << want.size());
    if (want.empty() || want[0] != "there") { tok(text, st); CHECK(st == std::set<std::string>(want.begin(), want.end()), "set of tokens of " << esc(text)); }
    // lines of a stream
    std::istringstream is(text);
    std::vector<std::string> lines;
    size_t b = 0;
    for (size_t i = 0; i <= text.size(); i++) if (i == text.size() || text[i] == '\n') { lines.push_back(text.substr(b, i - b)); b = i + 1; }
    for (auto& l : lines) {
        if (g.boolean()) { std::vector<std::string> r; tok(is, r); CHECK(r == ref(l), "tokens of the line " << esc(l) << " in " << esc(text)); }
        else { std::set<std::string> r; tok(is, r); auto w = ref(l); CHECK(r == std::set<std::string>(w.begin(), w.end()), "set of tokens of the line " << esc(l)); }
    }
    // split and join
    if (!keep) CHECK(StringTools::split(seps, text) == ref(text), "split " << esc(text));
    std::vector<std::string> words;
    size_t n = 1 + g.size(6);
    for (size_t i = 0; i < n; i++) words.push_back(g.str(4, "xyz "));
    for (auto& w : words) if (w.empty()) w = "w";
    std::string d = g.pick<std::string>({",", "/", ":"}), j = StringTools::join(d, words);
    CHECK(StringTools::split(d, j) == words, "split of what was joined: " << esc(j));
    CHECK_EQ(j, StringTools::join(d, words.begin(), words.end()), "join of a range");
}

// ---------------------------------------------------------------- Translator
template <class T>
static T from(const std::string& s) { return Translator<std::string, T>()(s); }
template <class T>
static std::string to(const T& v) { return Translator<T, std::string>()(v); }
template <class T>
static void roundtrip(T v, const char* name) {
    std::string s = Translator<T, std::string>()(v);
    std::ostringstream o; o << +v;
    CHECK_EQ(s, o.str(), name << " to text");
    CHECK(from<T>(s) == v, name << " from its text " << s);
}
PBT(translate, 4) {
    long long v = g.integer();
    g.note([&](std::ostream& o) { o << v; });
    g.nontrivial(v > 1000 || v < -1000);
    roundtrip<int>(int(v), "int"); roundtrip<unsigned>(unsigned(v), "unsigned int"); roundtrip<long>(v, "long"); roundtrip<long long>(v, "long long");
    roundtrip<unsigned long>((unsigned long)v, "unsigned long"); roundtrip<unsigned long long>((unsigned long long)v, "unsigned long long"); roundtrip<short>(short(v), "short");
    CHECK_EQ(to<bool>(v & 1), std::string(v & 1 ? "1" : "0"), "bool to text");
    long u = v & 255;
    CHECK_EQ(long(from<unsigned char>(std::to_string(u))), u, "unsigned char");
    // what does not fit is refused
    if (v != short(v)) CHECK(pbt::throws([&] { from<short>(std::to_string(v)); }), v << " accepted as short");
    if (v != (unsigned char)(v)) CHECK(pbt::throws([&] { from<unsigned char>(std::to_string(v)); }), v << " accepted as unsigned char");
    // multipliers
    static const struct { const char* s; int p; } mult[] = {{"b", 0}, {"k", 1}, {"m", 2}, {"g", 3}, {"t", 4}, {"p", 5}, {"e", 6}};
    auto m = mult[1 + g.idx(6)];
    long long room = (std::numeric_limits<long long>::max)() >> (10 * m.p), x = room ? (v % room) : 0;
    std::string un = g.boolean() ? std::string(m.s) + "b" : std::string(m.s) + "ib";
    if (g.boolean()) un[0] = char(toupper(un[0]));
    for (size_t i = 1; i < un.size(); i++) if (un[i] == 'b' && g.boolean()) un[i] = 'B';
    std::string t = std::to_string(x) + (g.boolean() ? " " : "") + un;
    long long want = x * (1LL << (10 * m.p));
    CHECK_EQ(from<long>(t), long(want), t);
    CHECK_EQ(from<long long>(t), want, t);
    if (x >= 0) { CHECK_EQ(from<unsigned long>(t), (unsigned long)(want), t); CHECK_EQ(from<unsigned long long>(t), (unsigned long long)(want), t); }
    if (want == int(want)) CHECK_EQ(from<int>(t), int(want), t);
    // words for booleans
    static const char* T[] = {"yes", "on", "true", "1"};
    static const char* F[] = {"no", "off", "false", "0"};
    size_t i = g.idx(4); bool yes = g.boolean();
    std::string w = (yes ? T : F)[i];
    CHECK_EQ(from<int>(w), int(yes), w);
    for (auto& c : w) if (g.boolean()) c = char(toupper(c));
    CHECK_EQ(from<bool>(w), yes, w);
    // lists
    std::vector<long> l(g.size(5));
    for (auto& e : l) e = long(g.integer());
    std::string ls = Translator<std::vector<long>, std::string>()(l);
    CHECK(from<std::vector<long>>(ls) == l, "list of numbers " << ls);
    std::vector<std::string> sv(g.size(5));
    for (auto& e : sv) e = g.ident(5);
    std::string ss = Translator<std::vector<std::string>, std::string>()(sv);
    CHECK(from<std::vector<std::string>>(ss) == sv, "list of strings " << ss);
    std::set<std::string> set(sv.begin(), sv.end());
    ss = Translator<std::set<std::string>, std::string>()(set);
    CHECK(from<std::set<std::string>>(ss) == set, "set of strings " << ss);
}

PBT(reals, 3) {
    double d = g.anyDouble();
    if (std::isnan(d)) d = 0;
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d);
    std::string s = buf;
    g.note([&](std::ostream& o) { o << s; });
    g.nontrivial(d != long(d));
    if (std::fpclassify(d) != FP_SUBNORMAL && !std::isinf(d)) CHECK(from<double>(s) == d, "double from " << s);
    float f = float(d);
    snprintf(buf, sizeof buf, "%.9g", f);
    if (std::fpclassify(f) != FP_SUBNORMAL && !std::isinf(f)) CHECK(from<float>(buf) == f, "float from " << buf);
    if (std::fpclassify(d) != FP_SUBNORMAL && !std::isinf(d) && std::fabs(d) < 1e308) {
        double e = from<double>(Translator<double, std::string>()(d));
        CHECK(std::fabs(e - d) <= 1e-5 * std::fabs(d), "text of " << s << " reads " << e);
    }
    // text that is not a number, or not only
    std::string bad = g.chance(50) ? s + g.pick<std::string>({" ", "x", ",1", "-1", " 1", "e", "..", "kB"}) : g.pick<std::string>({"", " ", "x", "1 2", "-", "+", ".", "e5", "1e", "--1", "0x", "1,5"});
    if (std::isinf(d)) return;
    if (g.chance(20)) bad = " " + s;
    CHECK(pbt::throws([&] { from<double>(bad); }), "accepted as double: " << esc(bad));
    CHECK(pbt::throws([&] { from<float>(bad); }), "accepted as float: " << esc(bad));
}

// ---------------------------------------------------------------- versions
PBT(versions, 2) {
    auto num = [&] { return g.chance(80) ? (unsigned long)g.idx(12) : (unsigned long)(g.integer() & 0x7fffffffffffffff); };
    unsigned long a[3] = {num(), num(), num()}, b[3];
    for (int i = 0; i < 3; i++) b[i] = g.chance(60) ? a[i] : num();
    auto text = [&](unsigned long* v) { std::string r; for (int i = 0; i < 3; i++) r += (i ? "." : "") + std::string(g.chance(10) ? g.size(3) : 0, '0') + std::to_string(v[i]); return r; };
    std::string sa = text(a), sb = text(b);
    g.note([&](std::ostream& o) { o << sa << " and " << sb; });
    g.nontrivial(a[0] == b[0]);
    SemanticVersion x(sa), y(sb);
    CHECK(x == SemanticVersion(a[0] , a[1] , a[2]), "version " << sa << " reads " << x);
    CHECK(SemanticVersion(std::string(x)) == x, "version from its text " << sa);
    bool lt = std::lexicographical_compare(a, a + 3, b, b + 3), eq = std::equal(a, a + 3, b);
    CHECK_EQ(x < y, lt, sa << " < " << sb); CHECK_EQ(x == y, eq, sa << " == " << sb); CHECK_EQ(x != y, !eq, sa << " != " << sb);
    CHECK_EQ(x <= y, lt || eq, sa << " <= " << sb); CHECK_EQ(x > y, !lt && !eq, sa << " > " << sb); CHECK_EQ(x >= y, !lt, sa << " >= " << sb);
    std::string bad = sa;
    switch (g.idx(6)) {
        case 0: bad += ".1"; break;
        case 1: bad = bad.substr(0, bad.rfind('.')); break;
        case 2: bad += g.pick<std::string>({"-rc1", "a", " ", "+"}); break;
        case 3: bad.insert(g.idx(bad.size()), g.pick<std::string>({"-", "x", " "})); break;
        case 4: bad = "v" + bad; break;
        case 5: bad = std::to_string(a[0]) + "..1"; break;
    }
    CHECK(pbt::throws([&] { SemanticVersion v(bad); }), "version accepted: " << esc(bad));
}

// ---------------------------------------------------------------- FixedString
template <int N>
static void fixed(pbt::Gen& g) {
    auto txt = [&] { std::string s = g.chance(30) ? std::string(N, 'x') + g.str(2, "ab") : g.str(N + 2, "ab\xff z"); return s; };
    std::string a = txt(), b = g.chance(30) ? a : txt();
    g.note([&](std::ostream& o) { o << N << " " << esc(a) << " " << esc(b); });
    for (auto& s : {a, b})
        if (s.size() > N) {
            CHECK(pbt::throws([&] { FixedString<N> f(s); }), "too long a string accepted");
            CHECK(pbt::throws([&] { FixedString<N> f(s.c_str()); }), "too long a string accepted");
            CHECK(pbt::throws([&] { FixedString<N> f; f = s; }), "too long a string assigned");
        }
    a.resize(std::min<size_t>(a.size(), N)); b.resize(std::min<size_t>(b.size(), N));
    FixedString<N> x(a), y(b.c_str());
    CHECK_EQ(x.length(), a.size(), "length of " << esc(a));
    CHECK_EQ(x.empty(), a.empty(), "empty");
    CHECK_EQ(esc(std::string(x)), esc(a), "string"); CHECK_EQ(esc(x.asString()), esc(a), "asString");
    CHECK_EQ(x.size(), size_t(N), "size");
    std::ostringstream o; o << x;
    CHECK_EQ(esc(o.str()), esc(a), "printed");
    int c = a.compare(b);
    CHECK_EQ(x < y, c < 0, esc(a) << " < " << esc(b)); CHECK_EQ(x > y, c > 0, esc(a) << " > " << esc(b)); CHECK_EQ(x == y, c == 0, esc(a) << " == " << esc(b));
    CHECK_EQ(x != y, c != 0, "!="); CHECK_EQ(x <= y, c <= 0, "<="); CHECK_EQ(x >= y, c >= 0, ">=");
    FixedString<N> z(x);
    z = b;
    CHECK(z == y, "assigned string");
    z = x;
    CHECK(z == x, "assigned");
    FixedString<N + 3> w(static_cast<std::string>(x));
    CHECK_EQ(esc(std::string(w)), esc(a), "of another size");
}
PBT(fixedString, 2) { g.nontrivial(); switch (g.idx(4)) { case 0: fixed<1>(g); break; case 1: fixed<4>(g); break; case 2: fixed<8>(g); break; default: fixed<13>(g); } }

// ---------------------------------------------------------------- approximate equality
template <class T, class I>
static void approx(pbt::Gen& g) {
    auto val = [&]() -> T {
        switch (g.idx(6)) {
            case 0: return T(g.range(-3, 3));
            case 1: { T m = std::numeric_limits<T>::min(); I n = I(g.idx(12)); T r = m; for (I i = 0; i < n; i++) r = std::nextafter(r, T(1)); return g.boolean() ? r : -r; }
            case 2: return g.pick<T>({T(0), -T(0), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()});
            default: return T(g.anyDouble());
        }
    };
    T a = val(), b = val();
    if (g.chance(60)) { b = a; int n = int(g.idx(24)); T to = g.boolean() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); for (int i = 0; i < n; i++) b = std::nextafter(b, to); }
    T eps = g.boolean() ? T(0) : g.boolean() ? T(1e-10) : std::numeric_limits<T>::epsilon();
    int ulps = int(g.chance(30) ? 10 : g.idx(24));
    g.note([&](std::ostream& o) { o.precision(17); o << a << " and " << b << " eps " << eps << " ulps " << ulps; });
    g.nontrivial(a != b);
    bool want;
    if (a == b) want = true;
    else if (!std::isfinite(a) || !std::isfinite(b)) want = false;
    else {
        auto pos = [](T x) -> __int128 {  // place on the axis of normal numbers
            if (std::fabs(x) < std::numeric_limits<T>::min()) return 0;
            T ax = std::fabs(x), m = std::numeric_limits<T>::min();
            I i, j; memcpy(&i, &ax, sizeof i); memcpy(&j, &m, sizeof j);
            __int128 p = __int128(i) - j + 1;
            return x < 0 ? -p : p;
        };
        auto flush = [](T x) { return std::fabs(x) < std::numeric_limits<T>::min() ? T(0) : x; };
        __int128 d = pos(a) - pos(b);
        want = std::fabs(flush(a) - flush(b)) <= eps || (d < 0 ? -d : d) <= ulps;
    }
    CHECK_EQ(types::is_approximately_equal<T>(a , b , eps , ulps), want, "approximate equality");
    CHECK_EQ(types::is_approximately_equal<T>(b , a , eps , ulps), want, "approximate equality the other way round");
}
PBT(almost, 3) { if (g.boolean()) approx<double, int64_t>(g); else approx<float, int32_t>(g); }

// ---------------------------------------------------------------- Regex
struct Atom { int k = 0; char c = 0; std::string set; bool neg = false; };  // 0 literal 1 ? 2 * 3 set
static bool glob(const std::vector<Atom>& p, size_t i, const std::string& s, size_t j) {
    if (i == p.size()) return j == s.size();
    if (p[i].k == 2) { for (size_t k = j; k <= s.size(); k++) if (glob(p, i + 1, s, k)) return true; return false; }
    if (j == s.size()) return false;
    bool ok = p[i].k == 1 || (p[i].k == 0 && s[j] == p[i].c) || (p[i].k == 3 && in(p[i].set, s[j]) != p[i].neg);
    return ok && glob(p, i + 1, s, j + 1);
}
PBT(globs, 4) {
    std::vector<Atom> p;
    std::string text, like;
    size_t n = g.size(7);
    for (size_t i = 0; i < n; i++) {
        Atom a;
        a.k = int(g.weighted({6, 1, 2, 1}));
        if (a.k == 0) { a.c = g.pick<char>({'a', 'b', '.', '-', '_', '1', ' '}); text += a.c; like += a.c; }
        if (a.k == 1) { text += '?'; like += 'b'; }
        if (a.k == 2) { text += '*'; like += g.str(3, "ab.1"); }
        if (a.k == 3) {
            a.neg = g.chance(30);
            text += a.neg ? "[^" : "[";
            if (g.boolean()) { text += "0-9"; a.set = "0123456789"; } else { text += "ab"; a.set = "ab"; }
            text += "]";
            like += a.neg ? '_' : a.set[1];
        }
        p.push_back(a);
    }
    std::string s = like;
    if (g.chance(50)) { size_t k = g.idx(3); if (k == 0) s += g.str(2, "ab.1"); else if (k == 1 && !s.empty()) s.erase(g.idx(s.size()), 1); else if (!s.empty()) s[g.idx(s.size())] = g.pick<char>({'a', 'b', '.', '1', 'X'}); }
    g.note([&](std::ostream& o) { o << esc(text) << " on " << esc(s); });
    g.nontrivial(n > 1);
    Regex r(text, true);
    bool want = glob(p, 0, s, 0);
    CHECK_EQ(r.match(s), want, "shell pattern " << esc(text) << " on " << esc(s));
    Regex c(r);
    CHECK_EQ(c.match(s), want, "copied pattern");
    CHECK(c == r, "copied pattern compares equal");
    Regex e(Regex::escape(s));
    CHECK(e.match(s), "escaped text matches itself: " << esc(s));
    Regex whole("^" + Regex::escape(like) + "$");
    CHECK_EQ(whole.match(s), s == like, "escaped " << esc(like) << " on " << esc(s));
    c = whole;
    CHECK_EQ(c.match(s), s == like, "assigned pattern");
    whole = whole;
    CHECK_EQ(whole.match(s), s == like, "pattern assigned to itself");
}
// patterns against a backtracking matcher: literals, ., classes, * + ?, groups of alternatives
struct Node { int k = 0; char c = 0; std::vector<std::vector<Node>> alts; char rep = 0; };
using Cont = std::function<bool(size_t)>;
static bool seq(const std::vector<Node>& v, size_t i, const std::string& s, size_t j, const Cont& k);
static bool once(const Node& n, const std::string& s, size_t j, const Cont& k) {
    if (n.k == 2) { for (auto& a : n.alts) if (seq(a, 0, s, j, k)) return true; return false; }
    return j < s.size() && (n.k == 1 || s[j] == n.c) && k(j + 1);
}
static bool many(const Node& n, const std::string& s, size_t j, size_t least, const Cont& k) {
    if (!least && k(j)) return true;
    return once(n, s, j, [&](size_t e) { return (least || e > j) && many(n, s, e, least ? least - 1 : 0, k); }) ;
}
static bool seq(const std::vector<Node>& v, size_t i, const std::string& s, size_t j, const Cont& k) {
    if (i == v.size()) return k(j);
    auto next = [&](size_t e) { return seq(v, i + 1, s, e, k); };
    if (v[i].rep == '*') return many(v[i], s, j, 0, next);
    if (v[i].rep == '+') return many(v[i], s, j, 1, next);
    if (v[i].rep == '?') return once(v[i], s, j, next) || next(j);
    return once(v[i], s, j, next);
}
static std::vector<Node> pattern(pbt::Gen& g, int depth, std::string& t) {
    std::vector<Node> r;
    size_t n = 1 + g.size(4);
    for (size_t i = 0; i < n; i++) {
        Node x;
        x.k = int(depth > 0 ? g.weighted({5, 2, 2}) : g.weighted({5, 2}));
        if (x.k == 0) { x.c = g.pick<char>({'a', 'b', 'c'}); t += x.c; }
        if (x.k == 1) t += '.';
        if (x.k == 2) { t += '('; size_t m = 1 + g.size(2); for (size_t k = 0; k < m; k++) { if (k) t += '|'; x.alts.push_back(pattern(g, depth - 1, t)); } t += ')'; }
        if (g.chance(30)) { x.rep = g.pick<char>({'*', '+', '?'}); t += x.rep; }
        r.push_back(x);
    }
    return r;
}
PBT(regexes, 3) {
    std::string t, s = g.str(8, "abc");
    auto p = pattern(g, 2, t);
    bool front = g.boolean(), back = g.boolean();
    if (front) t = "^" + t;
    if (back) t += "$";
    g.note([&](std::ostream& o) { o << t << " on " << s; });
    bool want = false;
    for (size_t j = 0; j <= (front ? 0 : s.size()) && !want; j++) want = seq(p, 0, s, j, [&](size_t e) { return !back || e == s.size(); });
    g.nontrivial(p.size() > 1);
    CHECK_EQ(Regex(t).match(s), want, "pattern " << t << " on " << esc(s));
}

// ---------------------------------------------------------------- UUID
PBT(uuid, 1) {
    std::string raw;
    for (int i = 0; i < 16; i++) raw += char(g.chance(30) ? 0 : g.idx(256));
    std::string hex = pbt::hexs(raw.data(), raw.size()), in = hex;
    for (auto& c : in) if (g.chance(30)) c = char(toupper(c));
    g.note([&](std::ostream& o) { o << in; });
    g.nontrivial();
    UUID u(in);
    CHECK_EQ(u.asString(), hex, "text"); CHECK_EQ(std::string(u), hex, "text");
    CHECK(std::equal(u.begin(), u.end(), reinterpret_cast<const unsigned char*>(raw.data())), "bytes of " << in);
    CHECK_EQ(u.isNil(), raw == std::string(16, '\0'), "nil");
    std::ostringstream o; o << u;
    CHECK_EQ(o.str(), hex, "printed");
    UUID v;
    CHECK(v.isNil(), "a new one is nil");
    std::istringstream is(in); is >> v;
    CHECK(v.asString() == hex, "read from a stream");
    std::string bad = in;
    switch (g.idx(3)) { case 0: bad.pop_back(); break; case 1: bad += "0"; break; default: bad[g.idx(32)] = g.pick<char>({'g', '-', '\xff', '{', 'x'}); }
    CHECK(pbt::throws([&] { UUID w(bad); }), "accepted as UUID: " << esc(bad));
}

// ---------------------------------------------------------------- printed quantities
PBT(quantities, 2) {
    long long v = g.integer();
    g.note([&](std::ostream& o) { o << v; });
    g.nontrivial(v > 999 || v < -999);
    std::string p = std::to_string(v), want;
    size_t b = p[0] == '-';
    for (size_t i = 0; i < p.size(); i++) { if (i > b && (p.size() - i) % 3 == 0) want += ','; want += p[i]; }
    std::ostringstream o; o << BigNum(v);
    CHECK_EQ(o.str(), want, "BigNum " << v);

    double x = g.boolean() ? double(v) : g.real(0, 1e7);
    if (std::fabs(x) < 1) x = 0;
    std::ostringstream bs; bs << Bytes(x);
    std::istringstream bi(bs.str());
    double num; std::string unit; bi >> num >> unit;
    static const std::string mag = "KMGTPEZY";
    double f = 1;
    size_t at = mag.find(unit[0]);
    if (unit[0] != 'b' ) { CHECK(at != std::string::npos, bs.str()); f = std::pow(1024., double(at + 1)); unit = unit.substr(1); }
    CHECK(std::fabs(num * f - x) <= 1e-5 * std::fabs(x), "Bytes " << x << " printed as " << bs.str());
    CHECK(unit == "byte" || unit == "bytes", bs.str());
    CHECK(std::fabs(num) < 1025, bs.str());
    std::string sh = Bytes(x).shorten();
    double sn = std::stod(sh); f = 1;
    CHECK(sh.size() > 1 && sh.size() <= (x < 0 ? 5u : 4u), "shortened " << sh);
    if (sh.back() != ' ') f = std::pow(1024., double(mag.find(sh.back()) + 1));
    double near = std::fabs(sn) >= 10 ? 0.5 : 0.05;
    if (sh.back() != ' ' || std::fabs(x) > 10) CHECK(std::fabs(sn * f - x) <= near * f * 1.001 + 1e-9, "shortened " << x << " to " << sh);

    // durations
    long n = long(std::llabs(v / 2) % (g.boolean() ? 100000 : 100000000));
    bool compact = g.boolean();
    std::ostringstream ss; ss << Seconds(double(n) + (g.boolean() ? 0.25 : 0), compact);
    long total = 0; long cur = 0; bool any = false;
    std::istringstream si(ss.str());
    if (n) {
        long k; std::string w;
        if (compact) { char c; while (si >> k >> c) { any = true; total += k * (c == 'w' ? 604800 : c == 'd' ? 86400 : c == 'h' ? 3600 : c == 'm' ? 60 : c == 's' ? 1 : 0); CHECK(k >= 0 && k < (c == 'w' ? 1000000 : c == 'd' ? 7 : c == 'h' ? 24 : 60), "too many of a unit: " << ss.str()); } }
        else while (si >> k >> w) { any = true; bool pl = w.back() == 's'; CHECK_EQ(pl, k != 1, ss.str()); if (pl) w.pop_back(); total += k * (w == "week" ? 604800 : w == "day" ? 86400 : w == "hour" ? 3600 : w == "minute" ? 60 : w == "second" ? 1 : 0); }
        CHECK(any, ss.str());
        CHECK_EQ(total, n, "duration printed as " << ss.str());
    }
    (void)cur;
}

// comma separated values
PBT(csv, 2) {
    size_t cols = 1 + g.idx(5), lines = g.size(8);
    bool header = g.boolean(), ragged = false;
    std::string alphabet = "ab1 \"#;'.\t";
    std::vector<std::vector<std::string>> rows;
    std::vector<std::string> names;
    std::string text;
    std::string eol = g.pick<std::string>({"\n", "\n", "\r\n", "\r"});
    auto field = [&] { return g.chance(25) ? std::string() : g.chance(15) ? g.str(5, "\x80\xff\x01\x7fz") : g.str(5, alphabet); };
    auto line = [&](const std::vector<std::string>& f) {
        while (g.chance(10)) text += eol;
        for (size_t i = 0; i < f.size(); ++i) text += (i ? "," : "") + f[i];
        text += eol;
    };
    if (header) {
        for (size_t i = 0; i < cols; ++i) names.push_back("n" + std::to_string(i) + (g.chance(20) ? " x" : ""));
        line(names);
    }
    size_t empties = 0;
    for (size_t i = 0; i < lines; ++i) {
        std::vector<std::string> f;
        size_t n = header && g.chance(97) ? cols : 1 + g.idx(5);
        if (header && n != cols) ragged = true;
        for (size_t j = 0; j < n; ++j) f.push_back(field());
        if (n == 1 && f[0].empty()) f[0] = "x";  // a blank line
        empties += f.back().empty();
        line(f);
        rows.push_back(f);
    }
    if (g.boolean()) {  // without an end of line
        if (text.size() && (rows.empty() || rows.back().size() > 1 || !rows.back()[0].empty())) text.resize(text.size() - eol.size());
    }
    else
        while (g.chance(20)) text += eol;
    g.note([&](std::ostream& o) { o << (header ? "header " : "") << esc(text); });
    Value v;
    std::string path;
    bool refused = pbt::throws([&] {
        if (g.chance(20)) {
            path = g.freshDir() + "/t.csv";
            std::ofstream(path, std::ios::binary) << text;
            v = CSVParser::decodeFile(path, header);
        }
        else v = CSVParser::decodeString(text, header);
    });
    CHECK(refused == ragged, (refused ? "refused" : "lines of another number of fields than the header"));
    if (refused) return;
    CHECK(v.isList() && v.size() == rows.size(), v.size() << " lines, and not " << rows.size());
    for (size_t i = 0; i < rows.size(); ++i) {
        Value l = v[int(i)];
        size_t fields = header ? l.keys().size() : l.size();
        CHECK(fields == rows[i].size(), "line " << i << " of " << fields << " fields, and not " << rows[i].size());
        for (size_t j = 0; j < rows[i].size(); ++j) {
            Value f = header ? l[names[j]] : l[int(j)];
            CHECK(f.isString() && std::string(f) == rows[i][j], "line " << i << ", field " << j << ": " << esc(std::string(f)));
        }
    }
    g.nontrivial(rows.size() > 1 && empties);
}
