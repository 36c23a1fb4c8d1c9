// C09: Date, Time, DateTime, Month against the proleptic Gregorian calendar
#include <cmath>
#include <ctime>
#include <iomanip>
#include <sstream>
#include "eckit/exception/Exceptions.h"
#include "eckit/runtime/Main.h"
#include "eckit/types/ClimateDate.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/DayOfYear.h"
#include "eckit/types/Hour.h"
#include "eckit/types/Month.h"
#include "eckit/types/Time.h"
#include "eckit/types/TimeInterval.h"
#include "eckit/utils/MD5.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { eckit::Main::initialise(argc, argv); }

// independent calendar
static bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int mdays(long y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static long dayNo(long y, int m, int d) {  // days since 0001-01-01
    long n = 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400;
    for (int i = 1; i < m; i++) n += mdays(y, i);
    return n + d - 1;
}
static const long J0 = 1721426;  // julian number of 0001-01-01
struct Ymd { long y; int m, d; };
static Ymd fromDay(long n) {
    long y = n / 366 + 1;
    while (dayNo(y + 1, 1, 1) <= n) y++;
    n -= dayNo(y, 1, 1);
    int m = 1;
    while (n >= mdays(y, m)) n -= mdays(y, m++);
    return {y, m, int(n) + 1};
}
static std::string pad(long n, int w) { std::ostringstream o; o << std::setw(w) << std::setfill('0') << n; return o.str(); }
static const long LO = dayNo(101, 1, 1), HI = dayNo(9999, 12, 31);

static long genDay(pbt::Gen& g) {
    switch (g.idx(4)) {
        case 0: { long y = g.pick({1600L, 1700L, 1800L, 1900L, 2000L, 2100L, 2004L, 2023L, 400L, 101L, 9998L}); int m = g.pick({1, 2, 2, 3, 12}); return dayNo(y, m, g.boolean() ? 1 : mdays(y, m)) + g.range(-2, 2); }
        case 1: return dayNo(1900, 1, 1) + g.range(0, 73000);
        default: return g.integer(LO + 10, HI - 10);
    }
}
static void checkDate(const Date& d, long n, const char* what) {
    Ymd e = fromDay(n);
    std::ostringstream o;
    o << d;
    CHECK_EQ(o.str(), std::to_string(e.y) + "-" + pad(e.m, 2) + "-" + pad(e.d, 2), what);
    CHECK(d.year() == e.y && d.month() == e.m && d.day() == e.d, what << ": year, month, day");
    CHECK_EQ(d.yyyymmdd(), e.y * 10000 + e.m * 100 + e.d, what << ": yyyymmdd");
    CHECK_EQ(d.julian(), n + J0, what << ": julian");
    CHECK_EQ(d.dayOfWeek(), n % 7, what << ": day of the week");  // 0001-01-01 was a Monday
}

PBT(dates, 4) {
    long n = genDay(g);
    Ymd e = fromDay(n);
    long add = g.chance(50) ? g.range(-400, 400) : g.range(-100000, 100000);
    if (n + add < LO) add = LO - n;
    if (n + add > HI) add = HI - n;
    g.note([&](std::ostream& o) { o << e.y << "-" << e.m << "-" << e.d << " + " << add; });
    g.nontrivial(e.m == 2 || e.m == 12 || e.d > 27 || add != 0);
    long v = e.y * 10000 + e.m * 100 + e.d;
    Date d(e.y, e.m, e.d);
    checkDate(d, n, "Date(y, m, d)");
    checkDate(Date(v), n, "Date(yyyymmdd)");
    long doy = n - dayNo(e.y, 1, 1) + 1;
    checkDate(Date(e.y, doy), n, "Date(year, day of the year)");
    std::string y4 = pad(e.y, 4), m2 = pad(e.m, 2), d2 = pad(e.d, 2);
    checkDate(Date(y4 + "-" + m2 + "-" + d2), n, "Date(yyyy-mm-dd)");
    if (e.y > 999) checkDate(Date(std::string(d)), n, "Date(its text)");
    if (e.y > 999) checkDate(Date(y4 + m2 + d2), n, "Date(yyyymmdd text)");
    checkDate(Date(y4 + "-" + pad(doy, 3)), n, "Date(yyyy-ddd)");
    if (e.y >= 1900 && e.y <= 1999) {
        if (e.y > 1900) checkDate(Date(y4.substr(2) + m2 + d2), n, "Date(yymmdd text)");
        if (e.y > 1900) checkDate(Date(v - 19000000), n, "Date(yymmdd)");
        checkDate(Date(y4.substr(2) + "-" + m2 + "-" + d2), n, "Date(yy-mm-dd)");
    }
    checkDate(Date(m2 + "-" + d2), dayNo(2004, e.m, e.m == 2 && e.d > 28 ? 29 : e.d), "Date(mm-dd) is of 2004");
    static const char* mn[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    CHECK_EQ(d.monthName(), std::string(mn[e.m - 1]), "monthName");
    checkDate(Date(mn[e.m - 1]), dayNo(1900, e.m, 1), "Date(name of a month)");
    checkDate(d + add, n + add, "date + days");
    checkDate(add + d, n + add, "days + date");
    CHECK_EQ((d + add) - d, add, "difference");
    { Date x(d); x += add; checkDate(x, n + add, "+="); x -= add; checkDate(x, n, "-="); ++x; checkDate(x, n + 1, "++"); --x; --x; checkDate(x, n - 1, "--"); }
    Date o = d + add;
    CHECK((d < o) == (add > 0) && (d > o) == (add < 0) && (d == o) == (add == 0) && (d != o) == (add != 0) && (d <= o) == (add >= 0) && (d >= o) == (add <= 0), "comparison");
    MD5 h1, h2;
    d.hash(h1), o.hash(h2);
    CHECK_EQ(h1.digest() == h2.digest(), add == 0, "hash");
    int r = int(g.range(1, 40));
    Date rd = d.round(r);
    CHECK(rd <= d && d - rd < r && rd.julian() % r == 0, "round(" << r << ")");
    // months
    Month mo(d), mo2(e.y, e.m), mo3(y4 + "-" + m2), mo4(y4 + "-" + m2 + "-" + d2);
    CHECK(mo == mo2 && mo == mo3 && mo == mo4 && !(mo < mo4) && !(mo != mo4), "Month of " << d);
    CHECK_EQ(std::string(mo), std::to_string(e.y) + "-" + m2, "Month as text");
    if (e.y > 999) CHECK(Month(y4 + m2 + d2) == mo, "Month of yyyymmdd");
    Ymd f = fromDay(n + add);
    CHECK_EQ(Month(o) < mo, (f.y * 12 + f.m) < (e.y * 12 + e.m), "comparison of months");
}

PBT(badDates, 2) {
    g.nontrivial();
    long y = g.range(1000, 9999), m = g.range(0, 99), d = g.range(0, 99);
    if (g.boolean()) m = g.range(1, 12);
    if (g.boolean()) d = g.pick({29L, 30L, 31L, 32L});
    bool ok = m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, int(m));
    std::string t = pad(y, 4) + pad(m, 2) + pad(d, 2), u = pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2);
    g.note([&](std::ostream& o) { o << u; });
    auto accepts = [&](auto f) { try { f(); return true; } catch (Exception&) { return false; } };
    CHECK_EQ(accepts([&] { Date(y, m, d); }), ok, "Date(" << y << "," << m << "," << d << ")");
    CHECK_EQ(accepts([&] { Date x(y * 10000 + m * 100 + d); }), ok, "Date(" << t << ")");
    if (d) {  // day 0 stands for a monthly mean
        CHECK_EQ(accepts([&] { Date x(t); }), ok, "Date(\"" << t << "\")");
        CHECK_EQ(accepts([&] { Date x(u); }), ok, "Date(\"" << u << "\")");
    }
    else if (m >= 1 && m <= 12) checkDate(Date(u), dayNo(y, int(m), 1), "day 0 is the first");
    long doy = g.range(0, 400);
    CHECK_EQ(accepts([&] { Date x(y, doy); }), doy >= 1 && doy <= (leap(y) ? 366 : 365), "Date(" << y << ", " << doy << ")");
    // damaged text
    std::string s = g.boolean() ? t : u;
    static const std::string abc = "0123456789-:abc .+xT/";
    size_t k = 1 + g.idx(2);
    for (size_t i = 0; i < k; i++) {
        size_t p = g.idx(s.size() + 1);
        switch (g.idx(3)) {
            case 0: s.insert(p, 1, abc[g.idx(abc.size())]); break;
            case 1: if (p < s.size()) s[p] = abc[g.idx(abc.size())]; break;
            case 2: if (p < s.size()) s.erase(p, 1); break;
        }
        if (s.empty()) return;
    }
    bool good = accepts([&] { Date x(s); });
    // what is accepted consists of digits and dashes only
    if (good && s.find_first_not_of("0123456789-") != s.npos) pbt::fail("Date(\"" + s + "\") is accepted: " + std::string(Date(s)));
    (void)accepts([&] { Month x(s); });
    if (accepts([&] { Month x(s); })) CHECK(std::string(Month(s)).size() <= 7 && s.size() >= 4, "Month(" << s << ") is " << Month(s));
}

static std::string hms(long s) {
    bool neg = s < 0;
    if (neg) s = -s;
    return (neg ? "-" : "") + pad(s / 3600, 2) + ":" + pad(s / 60 % 60, 2) + ":" + pad(s % 60, 2);
}

PBT(times, 4) {
    bool ext = g.boolean();
    long s = ext ? (g.boolean() ? g.range(-200, 1000) * 3600 + (g.boolean() ? g.range(0, 3599) : 0) : g.range(-400000, 4000000)) : g.range(0, 86399);
    g.note([&](std::ostream& o) { o << s << " s = " << hms(s) << (ext ? " extended" : ""); });
    g.nontrivial(s % 3600 != 0);
    bool neg = s < 0;
    long a = std::labs(s), h = a / 3600, m = a / 60 % 60, c = a % 60, sg = neg ? -1 : 1;
    std::string minus = neg ? "-" : "";
    auto chk = [&](const Time& t, const std::string& what) {
        CHECK_EQ(double(t), double(s), what);
        CHECK_EQ(t.hours(), sg * h, what << " hours");
        CHECK_EQ(t.minutes(), sg * m, what << " minutes");
        CHECK_EQ(t.seconds(), sg * c, what << " seconds");
        CHECK_EQ(t.hhmmss(), sg * (h * 10000 + m * 100 + c), what << " hhmmss");
        CHECK_EQ(std::string(t), hms(s), what << " as text");
    };
    chk(Time(sg * h, sg * m, sg * c, ext), "Time(h, m, s)");
    if (!neg) { chk(Time(double(s), ext), "Time(double)"); chk(Time(long(s), ext), "Time(long)"); chk(Time(int(s), ext), "Time(int)"); }
    chk(Time(hms(s), ext), "Time(hh:mm:ss)");
    if (c == 0) { chk(Time(minus + pad(h, 2) + ":" + pad(m, 2), ext), "Time(hh:mm)"); chk(Time(minus + std::to_string(h) + ":" + std::to_string(m), ext), "Time(h:m)"); }
    if (!ext) {
        chk(Time(pad(h * 10000 + m * 100 + c, 6)), "Time(hhmmss)");
        if (h) chk(Time(pad(h * 10000 + m * 100 + c, 5)), "Time(hmmss)");
        if (c == 0) { chk(Time(pad(h * 100 + m, 4)), "Time(hhmm)"); chk(Time(pad(h * 100 + m, 3)), "Time(hmm)"); if (m == 0) { chk(Time(std::to_string(h)), "Time(h)"); chk(Time(pad(h, 2)), "Time(hh)"); } }
    }
    else if (m == 0 && c == 0) chk(Time(minus + std::to_string(h), true), "Time(hours)");
    {  // units, any of them may be more than usual
        std::string u = minus;
        long left = a;
        static const char* low = "dhms";
        static const char* up = "DHMS";
        static const long w[] = {86400, 3600, 60, 1};
        for (int i = 0; i < 4; i++) {
            bool use = i == 3 ? left > 0 || u == minus : g.boolean() && left >= w[i];
            if (!use) continue;
            long q = i == 3 ? left : left / w[i];
            if (i < 3 && q && g.chance(20)) q -= 1;
            left -= q * w[i];
            u += std::to_string(q) + (g.chance(20) ? up[i] : low[i]);
        }
        CHECK(left == 0, "units");
        chk(Time(u, ext), "Time(" + u + ")");
        // digits after the last unit mean nothing
        std::string bad = u + std::to_string(g.range(0, 70));
        CHECK(pbt::throws([&] { Time x(bad, ext); }), "Time(\"" << bad << "\") is accepted: " << Time(bad, ext));
    }
    {  // decimal hours
        std::ostringstream o;
        o << minus << std::fixed << std::setprecision(int(g.range(6, 9))) << a / 3600.0;
        chk(Time(o.str(), ext), "Time(" + o.str() + ")");
    }
    long s2 = g.chance(30) ? s : g.range(0, 86399);
    Time t1(0, 0, s >= 0 ? 0 : 0, true), t2 = s2 == s ? Time(sg * h, sg * m, sg * c, true) : Time(double(s2), true);
    t1 = Time(sg * h, sg * m, sg * c, true);
    CHECK((t1 < t2) == (s < s2) && (t1 > t2) == (s > s2) && (t1 == t2) == (s == s2) && (t1 != t2) == (s != s2) && (t1 <= t2) == (s <= s2) && (t1 >= t2) == (s >= s2), "comparison");
    CHECK_EQ(t1 - t2, double(s - s2), "difference");
    { Time x(t1); x += 60; CHECK_EQ(double(x), double(s + 60), "+="); x -= 61; CHECK_EQ(double(x), double(s - 1), "-="); }
    // what is out of range
    long over = g.range(86400, 1000000);
    CHECK(pbt::throws([&] { Time x(double(over), false); }) && pbt::throws([&] { Time x(hms(over)); }) && pbt::throws([&] { Time x(std::to_string(over) + "s"); }) && pbt::throws([&] { Time x(over / 3600, over / 60 % 60, over % 60); }), "a time of " << over << " seconds");
    CHECK(pbt::throws([&] { Time x(-1.0 * double(g.range(1, 1000)), false); }) && pbt::throws([&] { Time x(hms(-g.range(1, 80000))); }), "a negative time");
    long bad = g.range(60, 99);
    CHECK(pbt::throws([&] { Time x("01:" + std::to_string(bad) + ":00"); }) && pbt::throws([&] { Time x("01:02:" + std::to_string(bad)); }) && pbt::throws([&] { Time x("01" + std::to_string(bad)); }) && pbt::throws([&] { Time x(1, bad, 0); }) && pbt::throws([&] { Time x(1, 0, bad); }), bad << " minutes or seconds");
}

PBT(badTimes, 1) {
    g.nontrivial();
    static const std::string abc = "0123456789:-dhmsDHMS.+ x";
    std::string s = g.boolean() ? hms(g.range(0, 86399)) : std::to_string(g.range(0, 23)) + "h" + std::to_string(g.range(0, 59)) + "m";
    size_t k = 1 + g.idx(3);
    for (size_t i = 0; i < k; i++) {
        size_t p = g.idx(s.size() + 1);
        switch (g.idx(3)) {
            case 0: s.insert(p, 1, abc[g.idx(abc.size())]); break;
            case 1: if (p < s.size()) s[p] = abc[g.idx(abc.size())]; break;
            case 2: if (p < s.size()) s.erase(p, 1); break;
        }
    }
    if (s.empty()) return;
    bool ext = g.boolean();
    g.note([&](std::ostream& o) { o << "'" << s << "'"; });
    // what is accepted is in one notation, and the value is that of a reader of our own
    try {
        Time t(s, ext);
        std::string r = s;
        long sg = 1;
        if (r[0] == '-') { sg = -1; r.erase(0, 1); }
        CHECK(r.find('-') == r.npos && r.find_first_of(" +x") == r.npos, "Time(\"" << s << "\") is accepted: " << t);
        bool colon = r.find(':') != r.npos, units = r.find_first_of("dhmsDHMS") != r.npos, point = r.find('.') != r.npos;
        CHECK(colon + units + point <= 1, "Time(\"" << s << "\") is accepted: " << t);
        if (colon) {
            std::vector<long> v(1, 0);
            for (char c : r) if (c == ':') v.push_back(0); else v.back() = v.back() * 10 + (c - '0');
            v.resize(3, 0);
            CHECK_EQ(double(t), double(sg * (v[0] * 3600 + v[1] * 60 + v[2])), "Time(\"" << s << "\")");
        }
        else if (units) {
            double v = 0, n = 0;
            for (char c : r) switch (tolower(c)) { case 'd': v += n * 86400; n = 0; break; case 'h': v += n * 3600; n = 0; break; case 'm': v += n * 60; n = 0; break; case 's': v += n; n = 0; break; default: n = n * 10 + (c - '0'); }
            CHECK_EQ(n, 0, "Time(\"" << s << "\") is accepted: " << t);
            CHECK_EQ(double(t), sg * v, "Time(\"" << s << "\")");
        }
    }
    catch (Exception&) {}
    catch (std::logic_error&) {}
}

PBT(datetimes, 4) {
    long n = genDay(g), s = g.boolean() ? g.range(0, 86399) : g.pick({0L, 1L, 86399L, 43200L, 3600L});
    long add;
    switch (g.idx(4)) {
        case 0: add = g.range(-86400, 86400); break;
        case 1: add = g.pick({0L, 1L, -1L, 86400L, -86400L, 86399L, -86399L, -s, 86400 - s}); break;
        case 2: add = g.range(-1000, 1000) * 3600; break;
        default: add = g.integer(-2000000000, 2000000000);
    }
    long tot = n * 86400 + s;
    if (tot + add < LO * 86400) add = LO * 86400 - tot;
    if (tot + add > HI * 86400) add = HI * 86400 - tot;
    Ymd e = fromDay(n);
    g.note([&](std::ostream& o) { o << e.y << "-" << e.m << "-" << e.d << " " << hms(s) << " + " << add; });
    g.nontrivial(add != 0);
    auto chk = [&](const DateTime& t, long secs, const char* what) {
        checkDate(t.date(), secs / 86400, what);
        CHECK_EQ(double(t.time()), double(secs % 86400), what);
    };
    DateTime d(Date(e.y, e.m, e.d), Time(double(s)));
    chk(d, tot, "DateTime(date, time)");
    DateTime o = d + double(add);
    chk(o, tot + add, "date and time + seconds");
    CHECK_EQ(o - d, double(add), "difference");
    CHECK((d < o) == (add > 0) && (d > o) == (add < 0) && (d == o) == (add == 0) && (d != o) == (add != 0) && (d <= o) == (add >= 0) && (d >= o) == (add <= 0), "comparison");
    double frac = g.range(-99, 99) / 100.0;
    if (tot > LO * 86400 + 10) { DateTime f = d + frac; CHECK(std::fabs((f - d) - frac) < 1e-6, "+ " << frac << " seconds is " << (f - d) << " later"); CHECK(double(f.time()) >= 0 && double(f.time()) < 86400, "time of day"); }
    std::string ds = std::to_string(e.y) + "-" + pad(e.m, 2) + "-" + pad(e.d, 2);
    CHECK_EQ(std::string(d), ds + " " + hms(s), "as text");
    CHECK_EQ(d.iso(), ds + "T" + hms(s) + "Z", "iso");
    CHECK_EQ(d.iso(false), ds + "T" + hms(s), "iso without Z");
    if (e.y > 999) chk(DateTime(ds + " " + hms(s)), tot, "DateTime(text)");
    time_t u = (n - dayNo(1970, 1, 1)) * 86400 + s;
    chk(DateTime(u), tot, "DateTime(time_t)");
    if (e.y > 999) {
        struct tm tm;
        gmtime_r(&u, &tm);
        char b[200];
        for (const char* f : {"%Y-%m-%d %H:%M:%S", "%a %d %b %Y", "%w %y%m", "%A %B"}) { strftime(b, sizeof(b), f, &tm); CHECK_EQ(d.format(f), std::string(b), "format(" << f << ")"); }
    }
    DateTime j(double(n + J0) + double(s) / 86400);
    CHECK(std::fabs(j - d) < 1e-3, "DateTime(julian number)");
    long r = g.pick({60L, 3600L, 10800L, 21600L, 43200L, 86400L});
    chk(d.round(double(r)), tot / r * r, "round");
    MD5 h1, h2;
    d.hash(h1), o.hash(h2);
    CHECK_EQ(h1.digest() == h2.digest(), add == 0, "hash");
}

// ------------------------------------------------------------------ other kinds of dates and times

static std::string hourText(long s) {
    std::string r = std::to_string(s / 3600);
    if (s % 3600) r += ":" + pad(s / 60 % 60, 2);
    if (s % 60) r += ":" + pad(s % 60, 2);
    return r;
}

PBT(hours, 2) {
    const long a = g.boolean() ? long(g.range(0, 100)) * g.pick({1L, 60L, 3600L}) : g.integer(0, 1000000), b = g.boolean() ? a + long(g.range(-2, 2)) : g.integer(0, 1000000);
    if (b < 0) pbt::discard();
    std::string t = g.chance(70) ? std::to_string(a / 3600) : pad(a / 3600, 4);
    if (a % 3600 || g.chance(30)) t += ":" + pad(a / 60 % 60, g.chance(70) ? 2 : 1);
    if (t.find(':') != std::string::npos && (a % 60 || g.chance(30))) t += ":" + pad(a % 60, g.chance(70) ? 2 : 1);
    g.note([&](std::ostream& o) { o << a << " s, " << b << " s, text " << t; });
    g.nontrivial(a % 60 != 0);
    const Hour x(t), y(double(b) / 3600);
    CHECK_EQ(x.asString(), hourText(a), "text of an Hour");
    CHECK_EQ(std::string(y), hourText(b), "text of an Hour from a number");
    CHECK(Hour(x.asString()) == x, "an Hour from its text");
    CHECK_EQ(x < y, a < b, "<");
    CHECK_EQ(x > y, a > b, ">");
    CHECK_EQ(x <= y, a <= b, "<=");
    CHECK_EQ(x >= y, a >= b, ">=");
    CHECK_EQ(x == y, a == b, "==");
    CHECK_EQ(x != y, a != b, "!=");
    // what is not an hour
    std::string bad = t;
    switch (g.idx(5)) {
        case 0: bad = std::to_string(g.range(0, 99)) + ":" + std::to_string(g.range(60, 200)); break;
        case 1: bad = std::to_string(g.range(0, 99)) + ":" + std::to_string(g.range(0, 59)) + ":" + std::to_string(g.range(60, 200)); break;
        case 2: bad = "1:2:3:" + std::to_string(g.range(0, 59)); break;
        case 3: bad = "-" + std::to_string(g.range(1, 99)); break;
        default: bad = g.boolean() ? "" : ":"; break;
    }
    CHECK(pbt::throws([&] { Hour h(bad); }), "accepted as an hour: '" << bad << "'");
    CHECK(pbt::throws([&] { Hour h(-double(g.range(1, 1000))); }), "accepted as an hour: a negative number");
}

PBT(others, 2) {
    const long n = genDay(g), k = g.chance(70) ? n + long(g.range(-800, 800)) : genDay(g);
    if (k < LO || k > HI) pbt::discard();
    const Ymd a = fromDay(n), b = fromDay(k);
    g.note([&](std::ostream& o) { o << a.y << "-" << a.m << "-" << a.d << ", " << b.y << "-" << b.m << "-" << b.d; });
    g.nontrivial(a.m == 2 || a.y != b.y);
    const Date da(a.y, a.m, a.d), db(b.y, b.m, b.d);
    {   // the days of any year: the 29th of February has its place in each
        const DayOfYear x(da), y(g.boolean() ? DayOfYear(db) : DayOfYear(pad(b.y, 4) + "-" + pad(b.m, 2) + "-" + pad(b.d, 2)));
        CHECK_EQ(std::string(x), pad(a.m, 2) + "-" + pad(a.d, 2), "text of a DayOfYear");
        CHECK_EQ(std::string(y), pad(b.m, 2) + "-" + pad(b.d, 2), "text of a DayOfYear");
        const int p = a.m * 100 + a.d, q = b.m * 100 + b.d;
        CHECK(((x < y) == (p < q)) && ((x > y) == (p > q)) && ((x == y) == (p == q)) && ((x <= y) == (p <= q)) && ((x >= y) == (p >= q)) && ((x != y) == (p != q)),
              "the order of two DayOfYear");
    }
    {   // twelve months of thirty days
        const long y1 = g.integer(1000, 9998), m1 = g.range(1, 12), d1 = g.range(1, 30), y2 = g.boolean() ? y1 : g.integer(1000, 9998), m2 = g.range(1, 12), d2 = g.range(1, 30);
        g.note([&](std::ostream& o) { o << "climate dates " << y1 << " " << m1 << " " << d1 << ", " << y2 << " " << m2 << " " << d2; });
        const ClimateDate x(y1, m1, d1), y(y2, m2, d2);
        const long p = y1 * 1000 + (m1 - 1) * 30 + d1, q = y2 * 1000 + (m2 - 1) * 30 + d2;
        CHECK_EQ(std::string(x), pad(y1, 1) + "-" + pad(p % 1000, 3), "text of a ClimateDate");
        CHECK(((x < y) == (p < q)) && ((x > y) == (p > q)) && ((x == y) == (p == q)) && ((x <= y) == (p <= q)) && ((x >= y) == (p >= q)) && ((x != y) == (p != q)),
              "the order of two ClimateDates");
        CHECK(ClimateDate(std::string(x)) == x, "a ClimateDate from its text");
        CHECK(pbt::throws([&] { ClimateDate c(y1, m1, g.boolean() ? 31 : 0); }), "a ClimateDate with a day that is not one of thirty");
        CHECK(pbt::throws([&] { ClimateDate c(y1, g.boolean() ? 13 : 0, d1); }), "a ClimateDate with a month that is not one of twelve");
    }
    {   // intervals
        auto at = [&] { return long(g.range(0, 12)); };
        const long p[4] = {at(), at(), at(), at()};
        auto t = [&](long h) { return DateTime(da, Time(0)) + Second(h * 3600.); };
        const TimeInterval x(t(p[0]), t(p[1])), y(t(p[2]), t(p[3])), z = x.intersect(y);
        const long lo = std::max(p[0], p[2]), hi = std::min(p[1], p[3]);
        CHECK_EQ(x.empty(), p[0] > p[1], "empty");
        CHECK_EQ(z.empty(), lo > hi, "an intersection is empty");
        CHECK(z.begin() == t(lo) && z.end() == t(hi), "intersection");
        CHECK(z == y.intersect(x), "the intersection is symmetric");
        CHECK_EQ(x < y, p[0] < p[2], "the order of intervals");
    }
}
