// C10: rational arithmetic. Oracle: __int128 rationals.
#include <cmath>
#include <limits>
#include "eckit/exception/Exceptions.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/io/Buffer.h"
#include "eckit/types/Fraction.h"
#include "pbt.h"

using namespace eckit;
using i128 = __int128;
PBT_INIT { Main::initialise(argc, argv); }

static const long long MAX = std::numeric_limits<long long>::max();

static i128 gcd(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { i128 t = a % b; a = b; b = t; }
    return a;
}
struct Q {
    i128 n, d;
};
static Q mk(i128 n, i128 d) {
    if (d < 0) { n = -n; d = -d; }
    i128 g = gcd(n, d);
    if (g == 0) g = 1;
    return {n / g, d / g};
}
static int cmp(const Q& a, const Q& b) {
    i128 x = a.n * b.d, y = b.n * a.d;
    return x < y ? -1 : x > y ? 1 : 0;
}
static bool fits(i128 v) { return v <= MAX && v >= -i128(MAX); }

static long long genInt(pbt::Gen& g, int kind) {
    switch (kind) {
        case 0: return g.range(-20, 20);
        case 1: return g.integer(-1000000, 1000000);
        case 2: return g.integer(-3000000000ll, 3000000000ll);
        default: return g.integer(-MAX, MAX);
    }
}
static Fraction genF(pbt::Gen& g, int kind) {
    long long t = genInt(g, kind), b = genInt(g, kind);
    if (b == 0) b = 1;
    Fraction f(t, b);
    Q q = mk(t, b);
    CHECK(f.numerator() == (long long)q.n && f.denominator() == (long long)q.d, "canonical form of " << t << "/" << b << " is " << f);
    return f;
}
static Q q(const Fraction& f) { return mk(f.numerator(), f.denominator()); }
static std::string s(const Fraction& f) { std::ostringstream os; os << f; return os.str(); }

static void same(const Fraction& f, const Q& e, const std::string& what) {
    CHECK(f.numerator() == (long long)e.n && f.denominator() == (long long)e.d,
          what << " = " << f << ", expected " << (long long)e.n << "/" << (long long)e.d);
}

PBT(arith, 6) {
    int kind = int(g.weighted({3, 4, 4, 1}));
    Fraction a = genF(g, kind), b = genF(g, kind);
    g.note([&](std::ostream& o) { o << a << " op " << b; });
    Q x = q(a), y = q(b);
    g.nontrivial(x.d != 1 && y.d != 1);
    bool exactMul = fits(x.n * y.n) && fits(x.d * y.d);
    bool exactDiv = fits(x.n * y.d) && fits(x.d * y.n);
    bool exactAdd = fits(x.n * y.d) && fits(x.d * y.n) && fits(x.n * y.d + x.d * y.n) && fits(x.d * y.d);
    bool exactSub = fits(x.n * y.d) && fits(x.d * y.n) && fits(x.n * y.d - x.d * y.n) && fits(x.d * y.d);
    g.label(exactMul && exactAdd ? "exact" : "overflow");
    if (exactAdd) same(a + b, mk(x.n * y.d + x.d * y.n, x.d * y.d), s(a) + " + " + s(b));
    if (exactSub) same(a - b, mk(x.n * y.d - x.d * y.n, x.d * y.d), s(a) + " - " + s(b));
    if (exactMul) same(a * b, mk(x.n * y.n, x.d * y.d), s(a) + " * " + s(b));
    if (exactDiv && y.n != 0) same(a / b, mk(x.n * y.d, x.d * y.n), s(a) + " / " + s(b));
    if (exactAdd) { Fraction c(a); c += b; same(c, mk(x.n * y.d + x.d * y.n, x.d * y.d), "+="); }
    if (exactSub) { Fraction c(a); c -= b; same(c, mk(x.n * y.d - x.d * y.n, x.d * y.d), "-="); }
    if (exactMul) { Fraction c(a); c *= b; same(c, mk(x.n * y.n, x.d * y.d), "*="); }
    if (exactDiv && y.n != 0) { Fraction c(a); c /= b; same(c, mk(x.n * y.d, x.d * y.n), "/="); }
    // comparisons: exact when the cross products fit
    bool exactCmp = fits(x.n * y.d) && fits(x.d * y.n);
    int c = cmp(x, y);
    if (exactCmp) {
        CHECK((a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), a << " against " << b);
    }
    else {  // by their doubles, right unless they are very near each other
        long double u = (long double)x.n / x.d, v = (long double)y.n / y.d;
        if (fabsl(u - v) > 1e-14L * std::max(fabsl(u), fabsl(v)))
            CHECK((a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), a << " against " << b << " (products overflow)");
    }
    CHECK((a == b) == (c == 0) && (a != b) == (c != 0), a << " == " << b);
    long double scale = 0;
    auto near = [&](auto f, long double want, const char* op) {  // what does not fit is approximated, or refused
        try { Fraction r = f(); CHECK(fabsl((long double)r.numerator() / r.denominator() - want) <= 1e-5L * std::max(1.0L, std::max(fabsl(want), scale)), a << op << b << " = " << r << ", that is " << double(r) << " instead of " << double(want)); }
        catch (eckit::Exception&) {}
    };
    long double xu = (long double)x.n / x.d, yu = (long double)y.n / y.d;
    scale = std::max(fabsl(xu), fabsl(yu));
    if (!exactAdd) near([&] { return a + b; }, xu + yu, " + ");
    if (!exactSub) near([&] { return a - b; }, xu - yu, " - ");
    scale = 0;
    if (!exactMul) near([&] { return a * b; }, xu * yu, " * ");
    if (!exactDiv && y.n) near([&] { return a / b; }, xu / yu, " / ");
    same(-a, mk(-x.n, x.d), "negation");
    same(Fraction::abs(a), mk(x.n < 0 ? -x.n : x.n, x.d), "abs");
    if (x.n != 0) same(a.inverse(), mk(x.d, x.n), "inverse");
    else CHECK(pbt::throws([&] { a.inverse(); }), "inverse of zero");
    CHECK(a.integer() == (x.d == 1), "integer()");
    CHECK(a.integralPart() == (long long)(x.n / x.d), "integralPart");
    same(a.decimalPart(), mk(x.n - (x.n / x.d) * x.d, x.d), "decimalPart");
    if (x.d == 1) CHECK((long long)(a) == (long long)x.n, "conversion to integer");
    else CHECK(pbt::throws([&] { (void)a.operator Fraction::value_type(); }), "conversion of " << a << " to integer");
    // mixed with integers
    long long n = g.range(-1000, 1000);
    Q z{n, 1};
    if (fits(x.d * z.n) && fits(x.n + x.d * z.n) && fits(x.n - x.d * z.n)) {
        same(a + n, mk(x.n + x.d * z.n, x.d), "frac + int");
        same(n + a, mk(x.n + x.d * z.n, x.d), "int + frac");
        same(a - n, mk(x.n - x.d * z.n, x.d), "frac - int");
        same(n - a, mk(x.d * z.n - x.n, x.d), "int - frac");
        int k = cmp(x, z);
        CHECK((a < n) == (k < 0) && (n < a) == (k > 0) && (a == n) == (k == 0) && (a >= n) == (k >= 0) && (n >= a) == (k <= 0) && (n <= a) == (k >= 0), a << " against int " << n);
    }
    if (fits(x.n * n)) { same(a * n, mk(x.n * n, x.d), "frac * int"); same(n * a, mk(x.n * n, x.d), "int * frac"); }
    if (fits(x.n * n) && fits(x.d * n)) {
        if (n) same(a / n, mk(x.n, x.d * n), "frac / int");
        if (x.n) same(n / a, mk(x.d * n, x.n), "int / frac");
    }
}

PBT(text_stream, 2) {
    Fraction a = genF(g, int(g.range(0, 3)));
    g.note([&](std::ostream& o) { o << a; });
    g.nontrivial(a.denominator() != 1);
    std::string t = s(a);
    if (a.denominator() != 1 || std::abs(a.numerator()) < 1000000000) {
        Fraction b(t);
        CHECK(b == a, "text " << t << " read back as " << b);
        Fraction c(t.c_str());
        CHECK(c == a, "text " << t << " read back as " << c);
    }
    Buffer buf(1024);
    MemoryStream w(buf);
    w << a;
    MemoryStream r(buf);
    Fraction d;
    r >> d;
    CHECK(d == a, "stream");
    // decimal notation
    int digits = int(g.range(0, 8));
    long long n = g.integer(-1000000000ll, 1000000000ll);
    long long p = 1;
    for (int i = 0; i < digits; i++) p *= 10;
    std::string dec = std::to_string(std::abs(n) / p);
    if (digits) {
        std::string f = std::to_string(std::abs(n) % p);
        dec += "." + std::string(digits - f.size(), '0') + f;
    }
    if (n < 0) dec = "-" + dec;
    Fraction e = Fraction::fromString(dec);
    same(e, mk(n, p), "fromString " + dec);
    // reading a decimal through double finds the same simple fraction
    if (std::abs(n) < 10000000 && digits <= 3) {
        Fraction h{dec};
        same(h, mk(n, p), "Fraction(\"" + dec + "\")");
    }
}

PBT(from_double, 3) {
    // a fraction of moderate size survives conversion to double and back
    long long t = g.integer(-1000000, 1000000), b = g.integer(1, 10000);
    Fraction a(t, b);
    double v = double(a);
    g.note([&](std::ostream& o) { o << a << " as double"; });
    g.nontrivial(a.denominator() != 1);
    CHECK(v == double(a.numerator()) / double(a.denominator()), "double of " << a);
    Fraction c(v);
    CHECK(std::abs(double(c) - v) <= 1e-9 * std::max(1., std::abs(v)), "Fraction(" << v << ") = " << c);
    if (std::abs(t) < 100000 && b < 1000) CHECK(c == a, "Fraction(double(" << a << ")) = " << c);
    // any double: close, or rejected
    double x = g.boolean() ? g.real(-1e6, 1e6) : g.boolean() ? g.real(-1e10, 1e10) : g.anyDouble(false);
    try {
        Fraction d(x);
        CHECK(d.denominator() > 0 && gcd(d.numerator(), d.denominator()) <= 1, "canonical form of Fraction(" << x << ") = " << d);
        CHECK(std::abs(double(d) - x) <= 1e-5 * std::max(1., std::abs(x)), "Fraction(" << x << ") = " << d << " = " << double(d));
    }
    catch (BadValue&) {
        g.label("double rejected");
        CHECK(std::abs(x) > 1e9, "Fraction(" << x << ") rejected");
    }
}
