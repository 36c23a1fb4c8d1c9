// C40: web requests and answers: what a resource is given, what a client gets.
#include "pbt.h"
#include "sockpair.h"
#include "eckit/config/Resource.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/log/JSON.h"
#include "eckit/log/Log.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/HttpHeader.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/thread/ThreadControler.h"
#include "eckit/utils/Translator.h"
#include "eckit/web/FileResource.h"
#include "eckit/web/Html.h"
#include "eckit/web/HtmlResource.h"
#include "eckit/web/HttpResource.h"
#include "eckit/web/HttpStream.h"
#include "eckit/web/HttpUser.h"
#include "eckit/web/JSONResource.h"
#include "eckit/web/Url.h"
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <strings.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace eckit;

namespace eckit {
class ConfigCmd {
public:
    static void set(const std::string& name, const std::string& value) { ResourceMgr::instance().set(name, value); }
};
}  // namespace eckit

PBT_INIT {
    ::setenv("AUTO_LOAD_PLUGINS", "0", 1);
    eckit::Main::initialise(argc, argv);
}

namespace {

const char* const NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-";

bool plain(unsigned char c) { return c < 128 && (::isalnum(c) || c == '_' || c == '.' || c == '-' || c == '~'); }

std::string hex2(unsigned char c, bool upper) {
    char b[4];
    ::snprintf(b, sizeof(b), upper ? "%02X" : "%02x", c);
    return b;
}

// the text, in the form it has in a request
std::string encode(Gen& g, const std::string& s, bool param) {
    std::string t;
    int lower = g.chance(30);
    for (unsigned char c : s) {
        if (plain(c) && !g.chance(5)) {
            t += char(c);
        }
        else if (param && c == ' ' && g.boolean()) {
            t += '+';
        }
        else {
            t += '%' + hex2(c, !lower);
        }
    }
    return t;
}

std::string text(Gen& g, size_t max, bool nonEmpty) {
    std::string s;
    switch (g.choice(3)) {
        case 0: s = g.str(max, NAME); break;
        case 1: s = g.str(max, "ab 1+/%&=?:;,<>\"'#"); break;
        case 2: s = g.bytes(max); break;
        default: s = g.str(max, "aAfF09%+"); break;
    }
    if (nonEmpty && s.empty()) s = "x";
    return s;
}

struct NoCase {
    bool operator()(const std::string& a, const std::string& b) const { return ::strcasecmp(a.c_str(), b.c_str()) < 0; }
};

struct Request {
    std::string method = "GET";
    std::vector<std::string> path;
    std::map<std::string, std::string> params;
    std::map<std::string, std::string, NoCase> headers;
    std::string body;
    bool form = false;
    std::string raw;
};

std::string paramText(Gen& g, std::map<std::string, std::string>& m, size_t n, bool query) {
    std::string t;
    for (size_t i = 0; i < n; ++i) {
        std::string k = text(g, 8, true);
        std::string v = g.chance(20) ? "" : text(g, 20, false);
        if (i) t += "&";
        std::string ev = encode(g, v, true);
        t += encode(g, k, true) + "=";
        // these need not be encoded in a value
        if (g.chance(15)) {
            size_t at = g.choice(ev.size());
            while (at && at < ev.size() && (ev[at - 1] == '%' || (at > 1 && ev[at - 2] == '%'))) --at;
            const std::string extra = g.pick(std::vector<std::string>{"=", "/", ":", "==", "?", "a=b", ",", "x?y"});
            // where the value is cut in two
            std::string left = ev.substr(0, at), right = ev.substr(at);
            ev = left + extra + right;
            v.clear();
            // decode what is there now
            for (size_t j = 0; j < ev.size(); ++j) {
                if (ev[j] == '+') v += ' ';
                else if (ev[j] == '%') { v += char(std::stoi(ev.substr(j + 1, 2), nullptr, 16)); j += 2; }
                else v += ev[j];
            }
        }
        t += ev;
        m[k] = v;
    }
    (void)query;
    return t;
}

Request request(Gen& g, const std::vector<std::string>* methods = nullptr) {
    Request r;
    static const std::vector<std::string> M = {"GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "OPTIONS", "CONNECT", "PATCH"};
    r.method = g.pick(methods ? *methods : M);
    std::string url;
    size_t n = g.idx(5);
    for (size_t i = 0; i < n; ++i) {
        r.path.push_back(text(g, 12, true));
        url += "/" + encode(g, r.path.back(), false);
        if (g.chance(5)) url += "/";
    }
    if (url.empty()) url = "/";
    else if (g.chance(10)) url += "/";
    if (g.chance(60)) url += "?" + paramText(g, r.params, g.idx(5), true);
    std::string head;
    size_t h = g.idx(6);
    for (size_t i = 0; i < h; ++i) {
        std::string k = "X-" + g.str(10, NAME), v = g.chance(15) ? "" : text(g, 30, false);
        for (auto& c : v) {
            if (c == '\r' || c == '\n' || c == 0) c = '_';
        }
        while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
        if (r.headers.count(k)) continue;
        r.headers[k] = v;
        head += k + ":" + std::string(g.chance(80) ? 1 : g.idx(4), ' ') + v + "\r\n";
    }
    int b = g.choice(3);
    if (b == 1) {
        r.form = true;
        r.body = paramText(g, r.params, 1 + g.idx(4), false);
    }
    else if (b == 2) {
        r.body = g.chance(50) ? g.bytes(200) : g.bytes(9000);
    }
    if (!r.body.empty()) {
        std::string t = r.form ? "application/x-www-form-urlencoded" : "application/octet-stream";
        std::string l = "Content-Length: " + std::to_string(r.body.size()) + "\r\n", c = "Content-Type: " + t + "\r\n";
        r.headers["Content-Type"]   = t;
        r.headers["Content-Length"] = std::to_string(r.body.size());
        if (g.boolean()) head = l + head + c;
        else head = c + l + head;
    }
    r.raw = r.method + " " + url + " HTTP/1." + (g.boolean() ? "0" : "1") + "\r\n" + head + "\r\n" + r.body;
    return r;
}

void checkUrl(Url& u, const Request& r) {
    CHECK_EQ(u.method(), r.method, "method");
    CHECK_EQ(u.size(), int(r.path.size()), "number of segments");
    std::string name;
    for (size_t i = 0; i < r.path.size(); ++i) {
        CHECK_EQ(u[int(i)], r.path[i], "segment " << i);
        name += "/" + r.path[i];
    }
    CHECK_EQ(u.name(), name, "name");
    // all of them, and no others
    std::ostringstream s, e;
    u.cgiParam(s, '\n');
    char c = ' ';
    for (auto& p : r.params) {
        e << c << p.first << '=' << p.second;
        c = '\n';
    }
    CHECK_EQ(esc(s.str()), esc(e.str()), "parameters");
    for (auto& p : r.params) CHECK_EQ(esc(u.get(p.first)), esc(p.second), "parameter " << esc(p.first));
    for (auto& h : r.headers) {
        std::string k = h.first;
        for (size_t i = 0; i < k.size(); ++i) k[i] = (i % 2) ? char(::toupper(k[i])) : char(::tolower(k[i]));
        CHECK_EQ(esc(u.headerIn().getHeader(h.first)), esc(h.second), "header " << h.first);
        CHECK_EQ(esc(u.headerIn().getHeader(k)), esc(h.second), "header " << k);
    }
    CHECK_EQ(u.headerIn().contentLength(), long(r.body.size()), "content length");
    CHECK(u.headerIn().content() == r.body, "content: " << esc(u.headerIn().content().substr(0, 100)));
}

}  // namespace

// What a client asks is what the resource sees.
PBT(request, 4) {
    Request r = request(g);
    // what follows belongs to the next request
    std::string next = g.chance(50) ? "" : g.bytes(20);
    g.note([&](std::ostream& o) { o << "request " << esc(r.raw) << (next.empty() ? "" : ", then " + esc(next)) << "\n"; });
    g.nontrivial(r.path.size() > 1 && r.params.size() + r.headers.size() > 1);
    g.label(r.body.empty() ? "no body" : r.form ? "form" : "body");
    std::istringstream in(r.raw + next);
    Url u(in);
    checkUrl(u, r);
    std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    CHECK_EQ(esc(rest), esc(next), "what follows the request");
    // the same, as a text
    if (r.body.empty() && r.method == "GET") {
        std::string t = r.raw.substr(4, r.raw.find(' ', 4) - 4);
        Url v(t);
        r.headers.clear();
        checkUrl(v, r);
    }
}

// A request that is cut short, or is none, is refused or seen as far as it goes; it is always answered.
PBT(broken, 2) {
    Request r     = request(g);
    std::string t = r.raw;
    int what      = g.choice(3);
    size_t cut    = t.size();
    if (what <= 1) {
        cut = g.choice(t.size());
        t   = t.substr(0, cut);
    }
    else if (what == 2) {
        for (size_t i = 0, n = 1 + g.idx(4); i < n && !t.empty(); ++i) {
            size_t at = g.idx(t.size());
            switch (g.choice(2)) {
                case 0: t[at] = g.pick(std::vector<char>{'%', ':', '\r', '\n', ' ', '+', '=', '&', '?', '/', 0, char(255)}); break;
                case 1: t.erase(at, 1 + g.idx(4)); break;
                default: t.insert(at, g.pick(std::vector<std::string>{"%", "%4", "\r\n", ":", "\r\n\r\n", "Content-Length: 12\r\n"})); break;
            }
        }
    }
    else {
        size_t at = t.find("Content-Length: ");
        if (at != std::string::npos) {
            std::string v = g.pick(std::vector<std::string>{"-1", "-100000", "abc", "", "1000000", "99999", "1", "0"});
            t             = t.substr(0, at + 16) + v + t.substr(t.find('\r', at));
        }
    }
    g.note([&](std::ostream& o) { o << "request " << esc(t) << "\n"; });
    g.nontrivial(t.size() > 20);
    std::istringstream in(t);
    try {
        Url u(in);
        g.label("seen");
        (void)u.str();
        std::string c = u.headerIn().content();
        // nothing that was not sent
        CHECK(c.size() <= t.size() && t.find(c) != std::string::npos,
              "content of " << c.size() << " bytes was not sent: " << esc(c.substr(c.size() > 40 ? c.size() - 40 : 0)));
        if (what <= 1 && cut > r.raw.find("\r\n")) {
            CHECK_EQ(u.method(), r.method, "method");
            CHECK_EQ(u.size(), int(r.path.size()), "segments");
        }
    }
    catch (std::exception& e) {
        g.label("refused");
    }
}

// Texts in an address: the encoding and its inverse; a link leads to where it was made for.
PBT(hex, 2) {
    std::string s = text(g, 40, false);
    g.note([&](std::ostream& o) { o << "text " << esc(s) << " = " << esc(Html::addHex(s)) << "\n"; });
    g.nontrivial(s.size() > 3);
    std::string t = Html::addHex(s);
    CHECK_EQ(esc(Html::removeHex(t)), esc(s), "decoded");
    for (unsigned char c : t) CHECK(c < 128 && (::isalnum(c) || ::strchr("%+&/=?", c)), "character " << int(c) << " in an address");
    std::string e = encode(g, s, true);
    CHECK_EQ(esc(Html::removeHex(e)), esc(s), "decoded " << e);
    // incomplete escapes
    std::string x = s + g.pick(std::vector<std::string>{"%", "%4", "%g1", "%%", "%4g"});
    (void)Html::removeHex(x);

    // links
    Url u("/a/b");
    std::vector<std::string> seg = {"a", "b"};
    std::map<std::string, std::string> m;
    for (size_t i = 0, n = g.idx(4); i < n; ++i) {
        std::string k = text(g, 6, true), v = text(g, 12, false);
        for (auto* p : {&k, &v})
            for (auto& c : *p)
                if (::strchr("&=?/", c)) c = '_';
        if (k.empty()) k = "k";
        u.set(k, v);
        m[k] = v;
    }
    HttpStream out;
    out << Html::Link(u) << Html::Link();
    std::ostringstream b;
    Url dummy("/");
    MemoryHandle h;
    out.write(b, dummy, h);
    std::string d = b.str(), q = "<A HREF=\"";
    d             = d.substr(d.find("\r\n\r\n") + 4);
    CHECK(d.substr(0, q.size()) == q && d.substr(d.size() - 6) == "\"></A>", "link " << esc(d));
    std::string a = d.substr(q.size(), d.size() - q.size() - 6);
    Url v(a);
    CHECK_EQ(v.name(), u.name(), "link " << a);
    std::ostringstream p1, p2;
    u.cgiParam(p1, '\n');
    v.cgiParam(p2, '\n');
    CHECK_EQ(esc(p2.str()), esc(p1.str()), "parameters of the link " << a);
}

namespace {

std::string html(const std::string& s) {
    std::string t;
    for (char c : s) {
        if (c == '<') t += "&lt;";
        else if (c == '>') t += "&gt;";
        else if (c == '&') t += "&amp;";
        else if (c == '\n') t += "<BR>\n";
        else t += c;
    }
    return t;
}

struct Answer {
    std::string version, message, body;
    long status = 0;
    std::map<std::string, std::string, NoCase> headers;
};

Answer answer(const std::string& raw) {
    Answer a;
    size_t end = raw.find("\r\n\r\n");
    CHECK(end != std::string::npos, "no end of the headers in " << esc(raw.substr(0, 300)));
    std::istringstream in(raw.substr(0, end + 2));
    std::string line;
    std::getline(in, line);
    std::istringstream l(line);
    l >> a.version >> a.status;
    std::getline(l, a.message);
    CHECK(a.version.substr(0, 5) == "HTTP/" && a.status >= 100 && a.status < 600, "status line " << esc(line));
    while (std::getline(in, line)) {
        CHECK(!line.empty() && line.back() == '\r', "line " << esc(line));
        line.pop_back();
        size_t c = line.find(':');
        CHECK(c != std::string::npos, "header " << esc(line));
        std::string v = line.substr(c + 1);
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        CHECK(!a.headers.count(line.substr(0, c)), "header twice: " << esc(line));
        a.headers[line.substr(0, c)] = v;
    }
    a.body = raw.substr(end + 4);
    CHECK_EQ(a.headers["Content-Length"], std::to_string(a.body.size()), "Content-Length");
    return a;
}

// what is written to a page, and what should be in it
struct Page {
    std::vector<std::pair<int, std::string>> ops;
    std::string body;
};

Page page(Gen& g, size_t max) {
    Page p;
    bool enc = true;
    for (size_t i = 0, n = g.idx(max); i < n; ++i) {
        int k = g.choice(6);
        std::string s;
        if (k <= 2) {
            s = g.chance(10) ? g.bytes(12000) : text(g, 60, false);
            p.body += enc ? html(s) : s;
        }
        else if (k == 3) {
            enc = !enc;
            s   = enc ? "1" : "0";
        }
        else if (k == 4) {
            if (!enc) continue;
            s = g.pick(std::vector<std::string>{"<HR>", "<PRE>", "</PRE>", "<B>", "</B>", "<H1>", "</H1>"});
            p.body += s;
        }
        else if (k == 6) {
            long v = g.integer(-1000, 100000);
            s      = std::to_string(v);
            p.body += s;
        }
        p.ops.push_back({k, s});
    }
    if (!enc) p.ops.push_back({3, "1"});
    return p;
}

void play(const Page& p, std::ostream& out) {
    for (auto& o : p.ops) {
        switch (o.first) {
            case 0: out << o.second; break;
            case 1: out.write(o.second.data(), std::streamsize(o.second.size())); break;
            case 2: for (char c : o.second) out.put(c); break;
            case 3: out << (o.second == "1" ? HttpStream::doEncode : HttpStream::dontEncode); break;
            case 4: {
                if (o.second == "<HR>") out << Html::Line();
                if (o.second == "<PRE>") out << Html::BeginFormatted();
                if (o.second == "</PRE>") out << Html::EndFormatted();
                if (o.second == "<B>") out << Html::BeginBold();
                if (o.second == "</B>") out << Html::EndBold();
                if (o.second == "<H1>") out << Html::BeginH1();
                if (o.second == "</H1>") out << Html::EndH1();
                break;
            }
            case 5: out << std::flush; break;
            case 6: out << std::stol(o.second); break;
        }
    }
}

void notePage(const Page& p, std::ostream& o) {
    static const char* K[] = {"text", "write", "put", "encode", "tag", "flush", "number"};
    for (auto& x : p.ops) o << K[x.first] << " " << esc(x.second.substr(0, 200)) << (x.second.size() > 200 ? "..." : "") << "\n";
}

}  // namespace

// An answer: its headers, its length and its body are what the resource wrote.
PBT(page, 3) {
    Page p     = page(g, 12);
    long code  = g.pick(std::vector<long>{200, 200, 201, 202, 204, 303, 400, 401, 404, 413, 500, 501});
    auto msg   = g.chance(30) ? g.str(12, NAME) : std::string();
    bool inject = g.chance(10);
    if (inject) msg += g.pick(std::vector<std::string>{"\r\nX-Evil: 1", "\nX-Evil: 1", "\r\n\r\nbody", "\r"}) + g.str(5, NAME);
    auto type  = g.pick(std::vector<std::string>{"text/html", "text/plain", "application/json"});
    bool tick  = g.chance(30);
    bool redir = g.chance(20);
    bool part  = g.chance(25);
    std::string data = part ? g.bytes(20000) : std::string();
    g.note([&](std::ostream& o) {
        notePage(p, o);
        o << "status " << code << " " << esc(msg) << " type " << type << (tick ? " retry after 7" : "") << (redir ? " forward" : "")
          << (part ? " data of " + std::to_string(data.size()) : std::string()) << "\n";
    });
    g.nontrivial(p.ops.size() > 2 || data.size() > 10);
    HttpStream out;
    if (g.chance(20)) {
        // forgotten
        Page q = page(g, 4);
        play(q, out);
        out.reset();
    }
    Url u("/x/y");
    u.status(int(code), msg);
    u.type(type);
    if (tick) u.retryAfter(7);
    if (redir) u.location("/other/place");
    play(p, out);
    std::ostringstream o;
    MemoryHandle stream;
    std::string raw;
    if (part) {
        auto* h = new MemoryHandle(data.data(), data.size());
        u.streamFrom(h, "application/x-data");
        std::string got;
        MemoryHandle sink;
        sink.openForWrite(0);
        sink.close();
        MemoryHandle to(1024, true);
        out.write(o, u, to);
        raw = o.str() + std::string(static_cast<const char*>(to.data()), size_t(to.size()));
    }
    else {
        out.write(o, u, stream);
        raw = o.str();
    }
    Answer a = answer(raw);
    CHECK_EQ(a.status, code, "status");
    if (!msg.empty() && !inject) CHECK_EQ(a.message, " " + msg + "\r", "message");
    CHECK(!a.headers.count("X-Evil"), "the message has become a header");
    CHECK_EQ(a.headers["Content-Type"], part ? "application/x-data" : type, "type");
    if (tick) CHECK_EQ(a.headers["Retry-After"], "7", "retry");
    if (redir) CHECK_EQ(a.headers["Location"], "/other/place", "location");
    const std::string& want = part ? data : p.body;
    size_t d = 0;
    while (d < want.size() && d < a.body.size() && want[d] == a.body[d]) ++d;
    CHECK(a.body == want, "body of " << a.body.size() << " bytes rather than " << want.size() << ", differs at " << d << ": "
                                     << esc(a.body.substr(d, 60)) << " rather than " << esc(want.substr(d, 60)));
}

// A page that is made from a file, with texts put in.
PBT(include, 1) {
    std::string dir = g.freshDir();
    ConfigCmd::set("htmlPath", dir);
    std::map<std::string, std::string> m;
    for (size_t i = 0, n = g.idx(4); i < n; ++i) {
        std::string k = g.ident();
        m[k]          = text(g, 20, false);
    }
    std::string file, want;
    bool sub = g.chance(80);
    for (size_t i = 0, n = g.idx(8); i < n; ++i) {
        if (g.boolean()) {
            std::string s = g.boolean() ? g.str(20, "<>&ab c\n\"") : g.bytes(100);
            for (auto& c : s)
                if (c == '%') c = '_';
            file += s;
            want += s;
        }
        else {
            std::string k = g.ident();
            if (!m.empty() && g.chance(70)) {
                auto j = m.begin();
                std::advance(j, g.idx(m.size()));
                k = j->first;
            }
            file += "%" + k + "%";
            want += sub && m.count(k) ? html(m[k]) : "%" + k + "%";
        }
    }
    g.note([&](std::ostream& o) {
        o << "file " << esc(file) << "\n";
        for (auto& k : m) o << k.first << " = " << esc(k.second) << "\n";
    });
    g.nontrivial(file.size() > 10 && !m.empty());
    std::ofstream(dir + "/f.html") << file;
    Html::Substitute s;
    for (auto& k : m) s[k.first] = k.second;
    HttpStream out;
    if (sub) out << Html::Include("f.html", s);
    else out << Html::Include("f.html");
    out << "<";
    std::ostringstream o;
    Url u("/");
    MemoryHandle h;
    out.write(o, u, h);
    Answer a = answer(o.str());
    CHECK_EQ(esc(a.body), esc(want + "&lt;"), "page");
}

namespace {

const std::vector<std::string> METHODS = {"GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "OPTIONS", "CONNECT", "PATCH"};

struct Seen {
    std::string resource, method;
    std::vector<std::string> remaining;
    std::string content;
};

enum Fails { NONE, HTTP, USER, NOTIMPL, OTHER };

struct Res : HttpResource {
    Seen& seen_;
    Page page_;
    Fails fails_ = NONE;
    std::set<std::string> supports_;
    bool restricted_ = false;
    bool data_       = false;
    std::string bytes_;
    Res(const std::string& n, Seen& s) : HttpResource(n), seen_(s) {}
    bool restricted() override { return restricted_; }
    void serve(std::ostream& out, Url& url, const char* m) {
        if (!supports_.count(m)) NOTIMP;
        seen_ = {resourceUrl(), m, url.remaining(), url.headerIn().content()};
        play(page_, out);
        switch (fails_) {
            case HTTP: throw HttpError(413, "too much");
            case USER: throw UserError("wrong");
            case NOTIMPL: throw NotImplemented("later", Here());
            case OTHER: throw SeriousBug("bug");
            default: break;
        }
        url.type("text/x-test");
        if (data_) url.streamFrom(new MemoryHandle(bytes_.data(), bytes_.size()), "application/x-data");
    }
    void GET(std::ostream& o, Url& u) override { serve(o, u, "GET"); }
    void HEAD(std::ostream& o, Url& u) override { serve(o, u, "HEAD"); }
    void POST(std::ostream& o, Url& u) override { serve(o, u, "POST"); }
    void PUT(std::ostream& o, Url& u) override { serve(o, u, "PUT"); }
    void DELETE(std::ostream& o, Url& u) override { serve(o, u, "DELETE"); }
    void TRACE(std::ostream& o, Url& u) override { serve(o, u, "TRACE"); }
    void OPTIONS(std::ostream& o, Url& u) override { serve(o, u, "OPTIONS"); }
    void CONNECT(std::ostream& o, Url& u) override { serve(o, u, "CONNECT"); }
    void PATCH(std::ostream& o, Url& u) override { serve(o, u, "PATCH"); }
};

struct Echo : JSONResource {
    Echo(const std::string& n) : JSONResource(n) {}
    void json(JSON& s, const Value& v) override { s << v; }
};

std::string base64(const std::string& s) {
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string t;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = (unsigned char)s[i] << 16;
        if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8;
        if (i + 2 < s.size()) v |= (unsigned char)s[i + 2];
        t += T[v >> 18];
        t += T[(v >> 12) & 63];
        t += i + 1 < s.size() ? T[(v >> 6) & 63] : '=';
        t += i + 2 < s.size() ? T[v & 63] : '=';
    }
    return t;
}

// the server and the client, over a connection
struct Service {
    std::string call(const std::string& raw, Gen& g) {
        size_t chunk = g.chance(50) ? raw.size() + 1 : 1 + g.size(2000);
        std::exception_ptr err;
        std::thread client;
        std::string got;
        int fd[2];
        socketPair(fd);
        client = std::thread([&] {
            try {
                PairSocket c(fd[0]);
                for (size_t i = 0; i < raw.size(); i += chunk) {
                    long n = long(std::min(chunk, raw.size() - i));
                    if (c.write(raw.data() + i, n) != n) throw WriteError("request");
                }
                char b[4096];
                long n;
                while ((n = c.read(b, 4096)) > 0) got.append(b, size_t(n));
            }
            catch (...) {
                err = std::current_exception();
            }
        });
        {
            PairSocket s(fd[1]);
            ThreadControler user(new HttpUser(s), false);
            user.start();
            user.wait();
        }
        client.join();
        if (err) std::rethrow_exception(err);
        return got;
    }
};

}  // namespace

// Each request goes to the resource with the shortest address that leads to it, by its method; its answer, or its
// failure, comes back.
PBT(service, 2) {
    Seen seen;
    std::vector<std::unique_ptr<Res>> res;
    std::set<std::string> names;
    std::vector<std::vector<std::string>> known;
    for (size_t i = 0, n = g.idx(6); i < n; ++i) {
        std::vector<std::string> p;
        for (size_t j = 0, m = 1 + g.idx(3); j < m; ++j) p.push_back(g.pick(std::vector<std::string>{"one", "two", "three"}));
        std::string s;
        for (auto& x : p) s += "/" + x;
        if (!names.insert(s).second) continue;
        known.push_back(p);
        res.emplace_back(new Res(s, seen));
        Res& r = *res.back();
        r.page_ = page(g, 5);
        if (g.chance(30)) r.fails_ = Fails(1 + g.idx(4));
        for (auto& m : METHODS)
            if (g.chance(80)) r.supports_.insert(m);
        r.restricted_ = g.chance(10);
        if (g.chance(20)) {
            r.data_  = true;
            r.bytes_ = g.bytes(10000);
        }
    }
    Echo echo("/echo");
    static const std::vector<std::string> M = {"GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "OPTIONS", "CONNECT", "PATCH", "GET", "POST", "BREW"};
    std::unique_ptr<Service> net;
    if (g.chance(30)) net.reset(new Service);
    g.label(net ? "connection" : "direct");
    for (size_t i = 0, n = 1 + g.idx(4); i < n; ++i) {
        Request r = request(g, &M);
        std::vector<std::string> p;
        bool e = g.chance(15);
        if (e) p = {"echo"};
        else if (!known.empty() && g.chance(80)) p = g.pick(known);
        else p = {g.pick(std::vector<std::string>{"one", "two", "four", "echo1", "on"})};
        while (g.chance(30)) p.push_back(g.pick(std::vector<std::string>{"one", "two", "three", "a b", "x"}));
        r.path = p;
        std::string url;
        for (auto& x : p) url += "/" + encode(g, x, false);
        size_t a = r.raw.find(' ') + 1, b = r.raw.find_first_of(" ?", a);
        r.raw    = r.raw.substr(0, a) + url + r.raw.substr(b);
        bool auth = g.chance(30), good = g.boolean();
        if (auth) {
            std::string pw = good ? "mars:clave" : g.pick(std::vector<std::string>{"mars:clav", "mars:", "", "root:clave", "mars:clave1", ":", "marsclave"});
            size_t at      = r.raw.find("\r\n") + 2;
            std::string h  = "Authorization: Basic " + base64(pw) + "\r\n";
            r.raw.insert(at, h);
        }
        g.note([&](std::ostream& o) {
            if (i == 0) {
                for (auto& x : res) {
                    o << "resource " << x->resourceUrl() << (x->restricted_ ? " restricted" : "") << (x->data_ ? " data" : "") << " fails " << x->fails_ << " supports ";
                    for (auto& m : x->supports_) o << m << " ";
                    o << "\n";
                    notePage(x->page_, o);
                }
            }
            o << "request " << esc(r.raw) << "\n";
        });
        g.nontrivial(res.size() > 1 && n > 1);
        Res* target = nullptr;
        std::vector<std::string> remaining;
        std::string s;
        for (size_t k = 0; k < p.size() && !target; ++k) {
            s += "/" + p[k];
            for (auto& x : res)
                if (x->resourceUrl() == s) {
                    target    = x.get();
                    remaining = {p.begin() + long(k) + 1, p.end()};
                }
        }
        seen = Seen();
        std::string raw;
        if (net) {
            raw = net->call(r.raw, g);
        }
        else {
            std::istringstream in(r.raw);
            std::ostringstream o;
            HttpStream http;
            Url u(in);
            MemoryStream ms("", 0);
            HttpResource::dispatch(ms, in, http, u);
            MemoryHandle to(1024, true);
            http.write(o, u, to);
            raw = o.str();
            if (u.streamFrom()) raw += std::string(static_cast<const char*>(to.data()), size_t(to.size()));
        }
        Answer w = answer(raw);
        if (e) {
            if (r.method == "GET" || r.method == "POST") {
                if (r.body.empty()) {
                    CHECK_EQ(w.status, 200, "echo");
                    CHECK_EQ(w.headers["Content-Type"], "application/json", "type");
                }
            }
            continue;
        }
        if (!target) {
            CHECK_EQ(w.status, 404, "no resource at " << s);
            CHECK(seen.resource.empty(), "resource " << seen.resource << " was called");
            continue;
        }
        bool known = std::find(METHODS.begin(), METHODS.end(), r.method) != METHODS.end();
        long want  = 200;
        bool called = true;
        if (target->restricted_ && !(auth && good)) {
            want   = 401;
            called = false;
        }
        else if (!known || !target->supports_.count(r.method)) {
            want   = 501;
            called = false;
        }
        else {
            static const long C[] = {200, 413, 400, 501, 500};
            want                  = C[target->fails_];
        }
        CHECK_EQ(w.status, want, "status of " << r.method << " " << s);
        CHECK_EQ(seen.resource, called ? target->resourceUrl() : "", "resource that was called");
        if (called) {
            CHECK_EQ(seen.method, r.method, "method");
            CHECK(seen.remaining == remaining, "remaining");
            CHECK(seen.content == r.body, "content");
        }
        if (want == 200) {
            CHECK(w.body == (target->data_ ? target->bytes_ : target->page_.body), "body " << esc(w.body.substr(0, 300)));
            CHECK_EQ(w.headers["Content-Type"], target->data_ ? "application/x-data" : "text/x-test", "type");
        }
        else if (called) {
            // why, and none of what had been written
            CHECK(w.body.find("error") != std::string::npos && w.body.size() < 2000, "body " << esc(w.body.substr(0, 300)));
        }
        if (want == 401) CHECK(w.headers["WWW-Authenticate"].substr(0, 5) == "Basic", "authentication");
    }
}

// What a page shows of the files of the service: each, as it is, and no others.
PBT(files, 1) {
    std::string dir = g.freshDir();
    const_cast<std::string&>(Main::instance().home()) = dir;
    ::mkdir((dir + "/http").c_str(), 0755);
    ::mkdir((dir + "/http/files").c_str(), 0755);
    ::mkdir((dir + "/http/files/sub").c_str(), 0755);
    std::string secret = "secret " + g.str(10, NAME);
    std::ofstream(dir + "/secret") << secret;
    std::string in = g.chance(30) ? g.bytes(5000) : g.str(3000, "<a>&b\n c");
    bool sub       = g.boolean();
    std::ofstream(dir + "/http/files/" + (sub ? "sub/" : "") + "f") << in;
    std::vector<std::string> p = {"files"};
    bool out = g.chance(30);
    if (out) {
        if (g.boolean()) p.push_back("sub");
        std::string s;
        for (size_t i = 0, n = 1 + g.idx(4); i < n; ++i) {
            p.push_back("..");
            s += "../";
        }
        p.push_back("secret");
        if (g.chance(30)) p = {"files", (sub ? "sub/" : "") + s + "secret"};
    }
    else {
        if (sub) p.push_back("sub");
        p.push_back("f");
    }
    std::string url;
    for (auto& x : p) url += "/" + encode(g, x, false);
    g.note([&](std::ostream& o) { o << "url " << url << " file " << esc(in.substr(0, 200)) << "\n"; });
    g.nontrivial(in.size() > 20);
    HttpStream http;
    Url u(url);
    MemoryStream ms("", 0);
    std::istringstream is;
    std::ostringstream o;
    HttpResource::dispatch(ms, is, http, u);
    MemoryHandle to;
    http.write(o, u, to);
    Answer w = answer(o.str());
    if (out) {
        CHECK(w.body.find(secret) == std::string::npos, "the file outside is shown");
        CHECK(w.status != 200, "status " << w.status);
    }
    else {
        CHECK_EQ(w.status, 200, "status");
        CHECK(w.body == in, "file of " << in.size() << " bytes shown as " << w.body.size());
    }
}

// A header that is written is read back by the other side.
PBT(header, 1) {
    HttpHeader h;
    std::map<std::string, std::string, NoCase> m;
    long code = g.pick(std::vector<long>{200, 201, 303, 404, 500, 413, 599});
    std::string msg = g.str(20, "abc def:");
    h.status(code, msg);
    for (size_t i = 0, n = g.idx(6); i < n; ++i) {
        std::string k = "X-" + g.str(8, NAME), v = g.str(g.chance(10) ? 20000 : 20, "ab:c, =;\"%");
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        h.setHeader(k, v);
        m[k] = v;
    }
    std::string body = g.chance(50) ? g.bytes(300) : std::string();
    bool len         = g.boolean();
    if (!body.empty() || len) h.content(body.data(), long(body.size()));
    std::string next = g.bytes(10);
    std::ostringstream o;
    o << h;
    g.note([&](std::ostream& os) { os << esc(o.str()) << "\n"; });
    g.nontrivial(m.size() > 1);
    Answer a = answer(o.str());
    CHECK(a.body == body, "content");
    int fd[2];
    socketPair(fd);
    std::string all = o.str() + next;
    std::thread t([&] {
        PairSocket c(fd[0]);
        c.write(all.data(), long(all.size()));
    });
    std::string why, rest;
    try {
        PairSocket s(fd[1]);
        HttpHeader r(s);
        for (auto& x : m)
            if (esc(r.getHeader(x.first)) != esc(x.second)) why += "header " + x.first + " is " + esc(r.getHeader(x.first)) + " rather than " + esc(x.second) + "\n";
        if (r.getHeader("content-length") != std::to_string(body.size())) why += "length " + r.getHeader("content-length");
        char b[100];
        long n;
        while ((n = s.read(b, 100)) > 0) rest.append(b, size_t(n));
        bool ok = true;
        try {
            r.checkForStatus();
        }
        catch (std::exception&) {
            ok = false;
        }
        if (ok != (code == 200)) why += "status";
    }
    catch (std::exception& e) {
        why += e.what();
    }
    t.join();
    CHECK(why.empty(), why);
    CHECK_EQ(esc(rest), esc(body + next), "what follows the header");
}
