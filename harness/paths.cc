// C21: path names as text.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathExpander.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <unistd.h>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

// What a path denotes: where it starts and which names it goes through.
struct Canon {
    bool abs = false;
    std::vector<std::string> c;
    bool operator==(const Canon& o) const { return abs == o.abs && c == o.c; }
};

Canon canon(const std::string& p) {
    Canon r;
    r.abs = !p.empty() && p[0] == '/';
    size_t i = 0;
    while (i <= p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string s = p.substr(i, j - i);
        if (s == "..") {
            if (!r.c.empty() && r.c.back() != "..") r.c.pop_back();
            else if (!r.abs) r.c.push_back(s);
        }
        else if (!s.empty() && s != ".") r.c.push_back(s);
        i = j + 1;
    }
    return r;
}

std::string show(const Canon& c) {
    std::string s = c.abs ? "/" : "(here)";
    for (auto& x : c.c) s += " " + x;
    return s;
}

std::string genPath(Gen& g, int kind = 0) {  // 1: absolute
    std::string s;
    size_t n = g.size(9);
    bool abs = kind == 1 || g.boolean();
    if (abs) s = g.chance(10) ? "//" : "/";
    for (size_t i = 0; i < n; ++i) {
        if (i) s += g.chance(12) ? "//" : "/";
        switch (g.weighted({5, 2, 2, 3})) {
            case 0: s += std::string(1, char('a' + g.idx(3))); break;
            case 1: s += "."; break;
            case 2: s += ".."; break;
            default: s += g.pick<std::string>({"x.y", ".hid", "a.b.c", "...", "..a", "a..", "-", "sp ace", "a~b", "q:r", "data.tar.gz", "v1.", "*", "\xc3\xa9"});
        }
    }
    if (n && g.chance(25)) s += "/";
    return s;
}

// the text of a path is as short as it can be
void tidy(const std::string& s, const std::string& what) {
    CHECK(s.find("//") == std::string::npos, what + ": empty component in " + s);
    std::vector<std::string> c;
    size_t i = !s.empty() && s[0] == '/' ? 1 : 0;
    bool abs = i == 1;
    while (i < s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        c.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    for (size_t k = 0; k < c.size(); ++k) {
        if (c[k] == ".") CHECK(k == 0 && !abs, what + ": '.' in " + s);
        if (c[k] == "..") CHECK(!abs && (k == 0 || c[k - 1] == ".."), what + ": '..' in " + s);
    }
}

void is(const PathName& p, const std::string& text, const std::string& what) {
    std::string got = p.asString();
    CHECK(canon(got) == canon(text), what + ": '" + text + "' became '" + got + "', which is " + show(canon(got)) + " and not " + show(canon(text)));
    tidy(got, what);
    if (!text.empty() && !canon(text).c.empty())
        CHECK_EQ(got.back() == '/', text.back() == '/', what + ": trailing slash of '" + text + "' -> '" + got + "'");
}

}  // namespace

PBT(names, 10) {
    std::string a = genPath(g);
    g.note([&](std::ostream& o) { o << "'" << a << "'\n"; });
    auto dots = [](const std::string& s) { return s.find("..") != std::string::npos; };
    g.nontrivial(dots(a) && canon(a).c.size() >= 1 && std::count(a.begin(), a.end(), '/') >= 2);
    PathName p(a);
    is(p, a, "construction");
    std::string s = p.asString();
    if (s.empty() || s[0] != '~') {
        CHECK_EQ(PathName(s).asString(), s, "the text of a path gives the same path");
        CHECK_EQ(LocalPathName(a).path(), s, "LocalPathName");
    }
    CHECK_EQ(p.path(), s, "path()");
    CHECK_EQ(std::string(p), s, "conversion");
    CHECK_EQ(std::string(p.localPath()), s, "localPath()");
    // parts
    size_t sl = s.rfind('/');
    std::string base = sl == std::string::npos ? s : s.substr(sl + 1);
    CHECK_EQ(p.baseName().asString(), base, "baseName");
    CHECK_EQ(p.baseName(true).asString(), base, "baseName(true)");
    if (base != "." && base != "..") {
        std::string stem = base.substr(0, base.find('.'));
        CHECK_EQ(p.baseName(false).asString(), stem, "baseName(false)");
        size_t dot = base.rfind('.');
        CHECK_EQ(p.extension(), dot == std::string::npos ? std::string() : base.substr(dot), "extension");
    }
    std::string dir = sl == std::string::npos ? "." : sl == 0 ? "/" : s.substr(0, sl);
    is(p.dirName(), dir, "dirName");
    if (!base.empty()) is(PathName(p.dirName().asString() + "/" + base), s, "dirName and baseName together");
    // full name
    char cwd[4096];
    CHECK(::getcwd(cwd, sizeof cwd) != nullptr, "getcwd");
    if (!s.empty()) is(p.fullName(), s[0] == '/' ? s : std::string(cwd) + "/" + s, "fullName");
    // stream
    Buffer b(size_t(4096));
    MemoryStream out(b);
    out << p;
    out << p.asString();
    MemoryStream in(b.data(), out.position());
    PathName q("before");
    in >> q;
    CHECK_EQ(q.asString(), s, "through a stream");
    // appending
    std::string t = genPath(g);
    if (!t.empty() && t[0] == '/' && g.chance(80)) t = t.substr(1);
    g.note([&](std::ostream& o) { o << "with '" << t << "'\n"; });
    if (!s.empty()) {  // an empty path is not the current directory
        is(p / t, s + "/" + t, "p / std::string");
        is(p / t.c_str(), s + "/" + t, "p / const char*");
        PathName r(p);
        r /= t;
        is(r, s + "/" + t, "p /= std::string");
        r = p;
        r /= t.c_str();
        is(r, s + "/" + t, "p /= const char*");
        // (put together as it stands)
        CHECK(canon((LocalPathName(s) / t.c_str()).path()) == canon(s + "/" + t), "LocalPathName / const char*");
        CHECK(canon((LocalPathName(s) / LocalPathName(t)).path()) == canon(s + "/" + LocalPathName(t).path()),
              "LocalPathName / LocalPathName");
    }
    {
        is(p + t, s + t, "p + std::string");
        PathName r(p);
        r += t;
        is(r, s + t, "p += std::string");
        r = p;
        r += 'x';
        is(r, s + "x", "p += char");
        CHECK_EQ(p.asString(), s, "the operand");
    }
    // order
    PathName u(t);
    std::string us = u.asString();
    CHECK_EQ(p < u, s < us, "<");
    CHECK_EQ(p > u, s > us, ">");
    CHECK_EQ(p <= u, s <= us, "<=");
    CHECK_EQ(p >= u, s >= us, ">=");
    CHECK_EQ(p == u, s == us, "==");
    CHECK_EQ(p != u, s != us, "!=");
    PathName v;
    v = u;
    v = p;
    CHECK_EQ(v.asString(), s, "assignment");
    CHECK_EQ(u.asString(), us, "assignment leaves the source");
}

PBT(relative, 4) {
    std::string a = genPath(g, 1), b = genPath(g, 1);
    if (g.boolean()) {
        std::string c = genPath(g, 1);
        a = c + a;
        b = c + b;
    }
    g.note([&](std::ostream& o) { o << "'" << a << "' from '" << b << "'\n"; });
    LocalPathName p(a), q(b);
    LocalPathName r = p.relativePath(q);
    std::string s   = r.path();
    g.nontrivial(canon(a).c.size() >= 2 && canon(b).c.size() >= 2);
    CHECK(!s.empty() && s[0] != '/', "the relative path is empty or absolute: " + s);
    CHECK(canon(b + "/" + s) == canon(a), "'" + s + "' from '" + b + "' leads to " + show(canon(b + "/" + s)));
    tidy(s, "relativePath");
}

PBT(expand, 2) {
    std::string in, want;
    bool bad = false;
    size_t n = 1 + g.idx(4), vars = 0;
    char cwd[4096];
    CHECK(::getcwd(cwd, sizeof cwd) != nullptr, "getcwd");
    std::string dir = g.freshDir();
    for (size_t i = 0; i < n; ++i) {
        switch (g.weighted({3, 3, 2, 1, 1})) {
            case 0: {
                std::string s = g.pick<std::string>({"/a", "b/", "c", "/d e", "-", "?x", "/q:1"});
                in += s;
                want += s;
                break;
            }
            case 1: {
                std::string k = "PBT_VAR_" + std::to_string(g.idx(3)), v = genPath(g);
                if (in.find("{ENVVAR?" + k + "}") != std::string::npos) v = ::getenv(k.c_str());
                ::setenv(k.c_str(), v.c_str(), 1);
                in += "{ENVVAR?" + k + "}";
                want += v;
                ++vars;
                break;
            }
            case 2: {
                std::string f = dir + "/f" + std::to_string(i), v = genPath(g);
                std::ofstream(f) << v << "\nsecond line\n";
                in += "{FILE?" + f + "}";
                want += v;
                ++vars;
                break;
            }
            case 3: in += "{CWD}"; want += cwd; ++vars; break;
            default: {
                if (!g.chance(25)) break;
                bad = true;
                in += g.pick<std::string>({"{ENVVAR?PBT_NOT_SET}", "{ENVVAR}", "{NOSUCH}", "{NOSUCH?a}", "{}"});
            }
        }
    }
    g.note([&](std::ostream& o) { o << "'" << in << "'\n"; });
    g.nontrivial(vars >= 2);
    std::string got, why;
    bool threw = throws([&] { got = PathExpander::expand(in); }, &why);
    CHECK_EQ(threw, bad, "an unknown variable is an error, and only that: " + why);
    if (!bad) CHECK_EQ(got, want, "expansion");
}
