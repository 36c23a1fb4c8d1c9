// C23: URIs.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/net/Endpoint.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include <map>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

struct U {
    std::string scheme, user, host, name, fragment;
    int port = -1;
    std::map<std::string, std::string> query;
};

// percent-encoding as RFC 3986 has it
std::string enc(const std::string& s) {
    static const char* hex = "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : s) {
        bool ok = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
        if (ok) r += char(c);
        else { r += '%'; r += hex[c >> 4]; r += hex[c & 15]; }
    }
    return r;
}

std::string text(const U& u) {
    std::string s = u.scheme + ":";
    if (!u.host.empty()) {
        s += "//";
        if (!u.user.empty()) s += u.user + "@";
        s += u.host;
        if (u.port > 0) s += ":" + std::to_string(u.port);
    }
    s += u.name;
    const char* sep = "?";
    for (auto& q : u.query) {
        s += sep + q.first + "=" + enc(q.second);
        sep = "&";
    }
    if (!u.fragment.empty()) s += "#" + u.fragment;
    return s;
}

void same(const URI& r, const U& u, const std::string& what) {
    CHECK_EQ(r.scheme(), u.scheme, what + ": scheme");
    CHECK_EQ(r.user(), u.user, what + ": user");
    CHECK_EQ(r.host(), u.host, what + ": host");
    CHECK_EQ(r.port(), u.port, what + ": port");
    CHECK_EQ(r.name(), u.name, what + ": name");
    CHECK_EQ(r.fragment(), u.fragment, what + ": fragment");
    for (auto& q : u.query) CHECK_EQ(r.query(q.first), q.second, what + ": query value of " + q.first);
    CHECK_EQ(r.query("nosuchkey"), std::string(), what + ": query value that is not there");
    std::string q;
    for (auto& x : u.query) q += (q.empty() ? "" : "&") + x.first + "=" + enc(x.second);
    CHECK_EQ(r.query(), q, what + ": query");
    std::string hp = u.host.empty() ? "" : u.host + (u.port > 0 ? ":" + std::to_string(u.port) : "");
    CHECK_EQ(r.hostport(), hp, what + ": hostport");
    CHECK_EQ(r.authority(), u.user.empty() || hp.empty() ? hp : u.user + "@" + hp, what + ": authority");
}

std::string word(Gen& g, const std::string& alphabet, size_t max) {
    std::string s;
    size_t n = 1 + g.idx(max);
    for (size_t i = 0; i < n; ++i) s += alphabet[g.idx(alphabet.size())];
    return s;
}

U genU(Gen& g) {
    U u;
    u.scheme = g.pick<std::string>({"http", "https", "file", "http"});
    bool authority = u.scheme != "file";
    if (authority && g.chance(80)) {
        u.host = word(g, "abz09-.", 8);
        if (g.chance(40)) u.user = word(g, "abU9-._:%", 6);
        if (g.chance(50)) u.port = int(g.integer(1, 65535));
    }
    size_t n = g.idx(4);
    for (size_t i = 0; i < n; ++i) u.name += "/" + word(g, "abcXYZ019-_.~:@!$'()*+,;=% ", 8);
    if (u.host.empty() && n == 0) u.name = "/" + word(g, "abc", 3);
    if (n && g.chance(10)) u.name += "/";
    size_t q = g.size(4);
    for (size_t i = 0; i < q; ++i) {
        std::string k = word(g, "abcdK_-.0", 5);
        std::string v = g.boolean() ? word(g, "ab01,.:", 8) : std::string();
        if (v.empty()) {
            v = g.bytes(12);
            std::string w;
            for (char c : v) if (c) w += c;
            v = w.empty() ? "x" : w;
        }
        u.query[k] = v;
    }
    if (g.chance(40)) u.fragment = word(g, "abc019-_./:=,~?&@%", 8);
    return u;
}

}  // namespace

PBT(text_, 10) {
    U u = genU(g);
    std::string s = text(u);
    g.note([&](std::ostream& o) { o << s << "\n"; });
    g.nontrivial(!u.query.empty() && !u.name.empty() && (!u.host.empty() || !u.fragment.empty()));
    URI r(s);
    same(r, u, "parsed");
    CHECK_EQ(r.asRawString(), s, "the text of what was parsed");
    URI again(r.asRawString());
    CHECK(again == r, "parsed again");
    CHECK(!(again != r), "!= of equals");
    if (u.scheme != "file") CHECK_EQ(r.asString(), s, "asString");
    else CHECK_EQ(r.asString(), u.name, "asString of a file");
    // stream
    Buffer b(size_t(16384));
    MemoryStream out(b);
    out << r;
    out << 42;
    MemoryStream in(b.data(), out.position());
    URI back;
    if (g.boolean()) back = URI("http://other:1/x?a=b#c");
    in >> back;
    int e;
    in >> e;
    CHECK_EQ(e, 42, "what follows in the stream");
    same(back, u, "through a stream");
    CHECK(back == r, "through a stream: equality");
    // setters
    size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i) {
        switch (g.idx(6)) {
            case 0: {
                std::string k = word(g, "abcd", 2), v = g.bytes(6);
                v.erase(std::remove(v.begin(), v.end(), '\0'), v.end());
                r.query(k, v);
                if (v.empty()) u.query.erase(k);
                else u.query[k] = v;
                break;
            }
            case 1: u.fragment = word(g, "abc?/", 3); r.fragment(u.fragment); break;
            case 2: if (u.scheme != "file") { u.host = word(g, "xyz.", 5); r.host(u.host); } break;
            case 3: if (u.scheme != "file" && !u.host.empty()) { u.port = int(g.integer(1, 99999)); r.port(u.port); } break;
            case 4: u.name = "/" + word(g, "pqr/", 6); r.path(u.name); if (u.name.substr(0, 2) == "//") { u.name = "/p"; r.path(u.name); } break;
            default: if (u.scheme != "file") {
                u.host = word(g, "mn", 3); u.port = int(g.integer(1, 9999));
                r.endpoint(eckit::net::Endpoint(u.host, u.port));
                CHECK_EQ(r.endpoint().host(), u.host, "endpoint");
                CHECK_EQ(r.endpoint().port(), u.port, "endpoint");
            }
        }
        same(r, u, "after a setter");
        same(URI(r.asRawString()), u, "after a setter, through the text");
    }
    // other constructors
    URI o1("https", r);
    U v = u;
    v.scheme = "https";
    same(o1, v, "URI(scheme, uri)");
    URI o2("http", r, "hh", 77);
    v.scheme = "http"; v.host = "hh"; v.port = 77;
    same(o2, v, "URI(scheme, uri, host, port)");
    U w; w.scheme = "http"; w.host = "h2"; w.port = 5;
    same(URI("http", "h2", 5), w, "URI(scheme, host, port)");
    w.name = u.name;
    same(URI("http", eckit::net::Endpoint("h2", 5), u.name), w, "URI(scheme, endpoint, name)");
    // the order is total and agrees with the text
    U x = genU(g);
    URI rx(text(x));
    CHECK_EQ(r < rx, r.asString() < rx.asString(), "<");
    CHECK_EQ(r == rx, r.asRawString() == rx.asRawString(), "==");
}

// anything without a known scheme is a local path, to the letter
PBT(plain, 4) {
    std::string s;
    size_t n = 1 + g.idx(8);
    for (size_t i = 0; i < n; ++i) s += g.pick<std::string>({"/", "a", "b.c", ":", "#", "?", "@", "//", "x=1", "&", " ", "%20", "mailto", "ftp", "%"});
    g.note([&](std::ostream& o) { o << s << "\n"; });
    std::string scheme = s.substr(0, s.find(':'));
    bool known = s.find(':') != std::string::npos && (scheme == "unix" || scheme == "file" || scheme == "http" || scheme == "https");
    if (known) discard();
    bool empty = s[0] == ':';
    g.nontrivial(s.find_first_of("#?@") != std::string::npos && s.find(':') != std::string::npos);
    URI u(s);
    CHECK_EQ(u.scheme(), std::string("unix"), "scheme");
    if (!empty) CHECK_EQ(u.name(), s, "name");
    else CHECK(u.name() == s || u.name() == s.substr(1), "name: " + u.name());
    CHECK_EQ(u.fragment(), std::string(), "fragment");
    CHECK_EQ(u.query(), std::string(), "query");
    CHECK_EQ(u.host(), std::string(), "host");
    CHECK_EQ(u.asString(), u.name(), "asString");
    if (!empty) {
        URI v("unix:" + s);
        CHECK_EQ(v.name(), s, "with the scheme");
        CHECK_EQ(URI(u.asRawString()).name(), s, "round trip");
    }
}

// any text at all is taken or refused with an exception
PBT(anything, 3) {
    std::string s = g.pick<std::string>({"", "http:", "http://", "https://a", "file:"});
    s += g.boolean() ? g.bytes(20) : g.str(20, ":/?#@&=%0aF.");
    g.note([&](std::ostream& o) { o << esc(s) << "\n"; });
    g.nontrivial(s.size() > 8);
    std::string why;
    throws([&] {
        URI u(s);
        std::string t = u.asRawString();
        u.query("a");
        u.hostport();
    }, &why);
}
