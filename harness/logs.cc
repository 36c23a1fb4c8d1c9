// C41: what is written to log channels arrives at their targets, whole and in order; what is printed of numbers and times.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/log/BigNum.h"
#include "eckit/log/Bytes.h"
#include "eckit/log/CallbackTarget.h"
#include "eckit/log/Channel.h"
#include "eckit/log/Colour.h"
#include "eckit/log/ColouringTarget.h"
#include "eckit/log/ETA.h"
#include "eckit/log/FileTarget.h"
#include "eckit/log/IndentTarget.h"
#include "eckit/log/LineBasedTarget.h"
#include "eckit/log/Log.h"
#include "eckit/log/Number.h"
#include "eckit/log/OStreamTarget.h"
#include "eckit/log/Plural.h"
#include "eckit/log/PrefixTarget.h"
#include "eckit/log/RotationTarget.h"
#include "eckit/log/Seconds.h"
#include "eckit/log/Statistics.h"
#include "eckit/log/SysLog.h"
#include "eckit/log/TeeTarget.h"
#include "eckit/log/TimeStamp.h"
#include "eckit/log/TimeStampTarget.h"
#include "eckit/log/UserChannel.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace eckit;

// the friend of ResourceMgr that may set resources
namespace eckit {
class ConfigCmd {
public:
    static void set(const std::string& n, const std::string& v) { ResourceMgr::instance().set(n, v); }
};
}  // namespace eckit

static time_t fakeTime = 0;  // 0: the real clock
extern "C" time_t time(time_t* p) {
    time_t t = fakeTime;
    if (!t) {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        t = ts.tv_sec;
    }
    if (p) *p = t;
    return t;
}

PBT_INIT { Main::initialise(argc, argv); }

namespace {

std::string slurp(const std::string& path) {
    std::ifstream in(path, std::ios::binary);
    return {std::istreambuf_iterator<char>(in), {}};
}

std::string chunk(Gen& g, bool longer = true) {
    if (longer && g.chance(6)) {  // a long line, in one piece or with a newline at some place
        std::string s(g.range(900, 9000), char('a' + g.idx(26)));
        for (size_t i = 0; i < s.size(); i += 97) s[i] = char('A' + i % 26);
        if (g.boolean()) s[g.idx(s.size())] = '\n';
        return s;
    }
    return g.str(12, "ab \n");
}

std::vector<std::string> lines(const std::string& s, bool rest = true) {
    std::vector<std::string> v;
    std::string cur;
    for (char c : s) {
        if (c == '\n') v.push_back(cur), cur.clear();
        else cur += c;
    }
    if (rest && !cur.empty()) v.push_back(cur);
    return v;
}

// The model of a target: where a text goes
struct Node {
    virtual ~Node() {}
    virtual void write(const std::string& s) = 0;
};
using N = std::shared_ptr<Node>;

struct Leaf : Node {
    std::string text;
    std::function<std::string()> real;
    bool lineBased = false;
    void write(const std::string& s) override { text += s; }
};

struct Wrap : Node {
    std::string before, after;
    N to;
    bool start = true;
    void write(const std::string& s) override {
        std::string out;
        for (char c : s) {
            if (c == '\n') out += after + c, start = true;
            else {
                if (start) out += before;
                start = false;
                out += c;
            }
        }
        to->write(out);
    }
};

struct Tee : Node {
    N a, b;
    void write(const std::string& s) override {
        if (a) a->write(s);
        if (b) b->write(s);
    }
};

int alive = 0;

struct Probe : LogTarget {
    std::shared_ptr<std::string> text;
    explicit Probe(std::shared_ptr<std::string> t) : text(t) { ++alive; }
    ~Probe() override { --alive; }
    void write(const char* a, const char* b) override { if (a < b) text->append(a, b); }
    void flush() override {}
    void print(std::ostream& s) const override { s << "Probe"; }
};

struct Sink {
    std::vector<std::string> lines;
};
void callback(void* p, const char* line) { static_cast<Sink*>(p)->lines.push_back(line); }

struct World {
    std::vector<std::shared_ptr<Leaf>> leaves;
    std::vector<std::unique_ptr<std::ostringstream>> streams;
    std::vector<std::unique_ptr<Sink>> sinks;
    std::string dir;
    std::ostringstream desc;
};

// a target and its model
std::pair<LogTarget*, N> leaf(Gen& g, World& w) {
    auto l = std::make_shared<Leaf>();
    w.leaves.push_back(l);
    switch (g.idx(4)) {
        case 0: {
            w.streams.emplace_back(new std::ostringstream);
            auto* s = w.streams.back().get();
            l->real = [s] { return s->str(); };
            w.desc << "Stream";
            return {new OStreamTarget(*s), l};
        }
        case 1: {
            std::string path = w.dir + "/f" + std::to_string(w.leaves.size());
            l->real          = [path] { return slurp(path); };
            w.desc << "File";
            if (g.boolean()) return {new FileTarget(path), l};
            return {new FileTarget(path, g.size(300)), l};
        }
        case 2: {
            w.sinks.emplace_back(new Sink);
            auto* s      = w.sinks.back().get();
            l->lineBased = true;
            l->real      = [s] {
                std::string r;
                for (auto& x : s->lines) r += x + "\n";
                return r;
            };
            w.desc << "Lines";
            return {new CallbackTarget(&callback, s), l};
        }
        default: {
            auto t  = std::make_shared<std::string>();
            l->real = [t] { return *t; };
            w.desc << "Probe";
            return {new Probe(t), l};
        }
    }
}

std::pair<LogTarget*, N> target(Gen& g, World& w, int depth) {
    int k = depth > 3 ? 0 : g.weighted({4, 2, 2, 2, 2});
    if (k == 0) return leaf(g, w);
    if (k == 4) {
        w.desc << "Tee(";
        auto t     = std::make_shared<Tee>();
        LogTarget *a = nullptr, *b = nullptr;
        if (!g.chance(10)) std::tie(a, t->a) = target(g, w, depth + 1);
        w.desc << ",";
        if (!g.chance(10)) std::tie(b, t->b) = target(g, w, depth + 1);
        w.desc << ")";
        return {new TeeTarget(a, b), t};
    }
    auto n = std::make_shared<Wrap>();
    w.desc << (k == 1 ? "Prefix(" : k == 2 ? "Indent(" : "Colour(");
    auto to = target(g, w, depth + 1);
    w.desc << ")";
    n->to = to.second;
    if (k == 3) {
        std::ostringstream b, e;
        b << &Colour::red, e << &Colour::reset;
        n->before = b.str(), n->after = e.str();
        return {new ColouringTarget(to.first, &Colour::red, &Colour::reset), n};
    }
    std::string p       = g.str(3, "pq ");
    static const char* spaces[] = {" ", "", "--"};
    const char* space   = spaces[g.idx(3)];
    n->before           = (k == 2 ? "   " : "") + p + space;
    if (k == 1) return {new PrefixTarget(p, to.first, space), n};
    return {new IndentTarget(p, to.first, space), n};
}

void compare(World& w, const std::string& when) {
    for (auto& l : w.leaves) {
        std::string want = l->text, got = l->real();
        if (l->lineBased) want = want.substr(0, want.rfind('\n') + 1);
        if (want == got) continue;
        size_t i = 0;
        while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
        fail(when + ": " + std::to_string(got.size()) + " characters, not " + std::to_string(want.size()) + ", other from " + std::to_string(i) + " on: " +
             esc(got.substr(i, 60)) + ", not " + esc(want.substr(i, 60)));
    }
}

}  // namespace

PBT(targets, 4) {
    World w;
    w.dir      = g.freshDir();
    int before = alive;
    size_t steps = 0, written = 0;
    {
        N root;  // what the channel writes to
        std::vector<std::pair<N, std::shared_ptr<Wrap>>> indents;
        Channel ch;
        CHECK(!ch, "a channel without target");
        bool over = false;
        while (g.more(92)) {
            ++steps;
            switch (g.weighted({8, 2, 1, 2, 2, 2, 1})) {
                case 0: {
                    std::string s = chunk(g);
                    w.desc << " write" << (s.size() < 30 ? esc(s) : std::to_string(s.size()));
                    ch << s;
                    if (root) root->write(s), written += s.size();
                    break;
                }
                case 1:
                    w.desc << " flush";
                    ch.flush();
                    compare(w, "after a flush");
                    break;
                case 2:
                    w.desc << " reset";
                    ch.reset();
                    root.reset();
                    indents.clear();
                    break;
                case 3: {
                    w.desc << " set ";
                    auto t = target(g, w, 0);
                    ch.setTarget(t.first);
                    root = t.second;
                    indents.clear();
                    break;
                }
                case 4: {
                    w.desc << " add ";
                    auto tee = std::make_shared<Tee>();
                    tee->a   = root;
                    if (g.boolean()) {
                        auto t = target(g, w, 1);
                        ch.addTarget(t.first);
                        tee->b = t.second;
                    }
                    else {
                        auto l = std::make_shared<Leaf>();
                        w.leaves.push_back(l);
                        switch (g.idx(3)) {
                            case 0: {
                                w.streams.emplace_back(new std::ostringstream);
                                auto* s = w.streams.back().get();
                                l->real = [s] { return s->str(); };
                                ch.addStream(*s);
                                break;
                            }
                            case 1: {
                                std::string path = w.dir + "/f" + std::to_string(w.leaves.size());
                                l->real          = [path] { return slurp(path); };
                                ch.addFile(path);
                                break;
                            }
                            default: {
                                w.sinks.emplace_back(new Sink);
                                auto* s      = w.sinks.back().get();
                                l->lineBased = true;
                                l->real      = [s] {
                                    std::string r;
                                    for (auto& x : s->lines) r += x + "\n";
                                    return r;
                                };
                                ch.addCallback(&callback, s);
                            }
                        }
                        tee->b = l;
                        w.desc << "leaf";
                    }
                    root = tee;
                    indents.clear();
                    break;
                }
                case 5: {
                    w.desc << " indent";
                    static const char* spaces[] = {"", "  ", "> "};
                    const char* sp              = spaces[g.idx(3)];
                    ch.indent(sp);
                    if (!root) break;
                    auto n    = std::make_shared<Wrap>();
                    n->before = std::string("   ") + sp + " ";
                    n->to     = root;
                    root      = n;
                    indents.push_back({n, n});
                    break;
                }
                default:
                    if (!root) {
                        ch.unindent();
                        break;
                    }
                    if (indents.empty()) break;  // an error, unless the target set is itself an IndentTarget
                    w.desc << " unindent";
                    ch.unindent();
                    root = indents.back().second->to;
                    indents.pop_back();
            }
            CHECK(bool(ch) == bool(root), "the channel is " << (bool(ch) ? "" : "not ") << "active");
            if (over) break;
        }
        g.note([&](std::ostream& o) { o << w.desc.str(); });
        g.nontrivial(w.leaves.size() > 1 && written > 10);
        if (g.boolean()) {
            ch.flush();
            compare(w, "at the end");
        }
        g.label("leaves " + std::to_string(std::min<size_t>(w.leaves.size(), 5)));
    }
    // files are complete and targets are gone with the channel
    compare(w, "after the end");
    CHECK_EQ(alive, before, "targets left over");
}

// A target on its own, without a channel that flushes it: everything arrives when it ends
PBT(alone, 1) {
    World w;
    w.dir  = g.freshDir();
    auto t = target(g, w, 0);
    t.first->attach();
    size_t n = 0;
    while (g.more(90)) {
        std::string s = chunk(g);
        t.first->write(s.data(), s.data() + s.size());
        t.second->write(s);
        n += s.size();
        if (g.chance(10)) t.first->flush();
    }
    g.note([&](std::ostream& o) { o << w.desc.str() << " " << n << " characters"; });
    g.nontrivial(n > 20);
    t.first->detach();
    compare(w, "after the end of the target");
}

// Threads, or processes, write lines to one file: no line is lost or torn
PBT(shared, 1) {
    std::string path = g.freshDir() + "/log";
    bool processes = g.chance(40), common = !processes && g.boolean();
    size_t n = size_t(g.range(2, 6));
    std::vector<std::vector<std::string>> todo(n);
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0, m = g.size(40); k < m; ++k) todo[i].push_back(std::to_string(i) + ":" + std::to_string(k) + ":" + std::string(g.size(900), char('a' + i)));
    g.note([&](std::ostream& o) { o << (processes ? "processes" : "threads") << (common ? ", one target" : "") << ":"; for (auto& t : todo) o << " " << t.size(); });
    g.nontrivial(n > 2 && todo[0].size() > 3);
    g.label(processes ? "processes" : common ? "one target" : "threads");
    if (common) {  // a target is not locked: only one thread at a time, but they share it, and its life
        auto text   = std::make_shared<std::string>();
        int before  = alive;
        LogTarget* t = new Probe(text);
        t->attach();
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i] {
            for (auto& l : todo[i]) {
                Channel c(t);
                (void)l;
            }
        });
        for (auto& x : ts) x.join();
        CHECK_EQ(alive, before + 1, "targets while one is attached");
        t->detach();
        CHECK_EQ(alive, before, "targets left over");
        return;
    }
    auto work = [&](size_t i) {
        if (todo[i].size() % 2) {
            Log::info().setFile(path);
            for (auto& l : todo[i]) Log::info() << l << std::endl;
            Log::info().reset();
            return;
        }
        Channel c(new FileTarget(path));
        for (auto& l : todo[i]) c << l << std::endl;
    };
    if (processes) {
        std::vector<pid_t> p;
        for (size_t i = 0; i < n; ++i) {
            pid_t q = fork();
            if (!q) {
                work(i);
                _exit(0);
            }
            p.push_back(q);
        }
        for (pid_t q : p) {
            int st;
            waitpid(q, &st, 0);
            CHECK(st == 0, "a process that writes fails with " << st);
        }
    }
    else {
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; ++i) ts.emplace_back(work, i);
        for (auto& x : ts) x.join();
    }
    std::vector<std::vector<std::string>> got(n);
    for (auto& l : lines(slurp(path))) {
        size_t i = l.empty() ? n : size_t(l[0] - '0');
        CHECK(i < n, "a line that nobody wrote: " << esc(l.substr(0, 100)));
        got[i].push_back(l);
    }
    for (size_t i = 0; i < n; ++i) CHECK(got[i] == todo[i], "writer " << i << ": " << got[i].size() << " lines, not " << todo[i].size() << ", or others");
}

// Messages for the user
PBT(user, 1) {
    struct Msg : UserMsg {
        std::vector<std::string> got;
        void infoMsg(const std::string& s) override { got.push_back("I" + s); }
        void warningMsg(const std::string& s) override { got.push_back("W" + s); }
        void errorMsg(const std::string& s) override { got.push_back("E" + s); }
        void notifyClient(const std::string& s) override { got.push_back("N" + s); }
    } m;
    std::vector<std::string> want;
    UserChannel& u = Log::user();
    u.userMsg(&m);
    struct Off { UserChannel& u; ~Off() { u.userMsg(nullptr); } } off{u};
    std::string desc;
    while (g.more(88)) {
        int k = g.weighted({3, 3, 3, 1});
        std::string s;
        for (size_t n = g.idx(3) + 1; n; --n) {
            s += g.str(10, "abc ");
            if (s.empty() || s.back() == '\n') s += "x";
            if (n > 1) s += "\n";
        }
        desc += " " + std::string("IWEN").substr(size_t(k), 1) + esc(s);
        if (k == 3) {
            Log::notifyClient(s);
            want.push_back("N" + s);
            continue;
        }
        std::ostream& o = k == 0 ? Log::userInfo() : k == 1 ? Log::userWarning() : Log::userError();
        if (g.boolean()) o << s << std::endl;
        else o << s << std::flush;
        for (auto& l : lines(s)) want.push_back("IWE"[k] + l);
    }
    g.note([&](std::ostream& o) { o << desc; });
    g.nontrivial(want.size() > 2);
    auto all = [](const std::vector<std::string>& v) {
        std::string r;
        for (auto& x : v) r += esc(x) + " ";
        return r;
    };
    CHECK(m.got == want, "the user gets " << all(m.got) << ", not " << all(want));
}

// Files by day
PBT(rotation, 1) {
    static int number = 0;
    std::string dir = g.freshDir(), format = dir + (g.boolean() ? "/%Y-%m-%d/out" : "/log/" + std::string(g.size(90), 'x') + "/%Y/%j");
    ConfigCmd::set("logfileFormat", format);
    std::string name = "rot" + std::to_string(getpid()) + "-" + std::to_string(number++);
    std::map<std::string, std::string> want;
    fakeTime = 1600000000 + g.range(0, 100000000);
    struct Real { ~Real() { fakeTime = 0; } } real;
    RotationTarget* t = new RotationTarget(name);
    t->attach();
    Channel ch(t);
    size_t days = 0;
    while (g.more(90)) {
        if (g.chance(30)) {
            ch.flush();
            fakeTime += g.range(1, 200000);
            ++days;
        }
        std::string s = g.str(20, "ab\n") + (g.chance(20) ? std::string(g.range(1000, 6000), 'z') : "");
        ch << s;
        ch.flush();
        if (s.empty()) continue;
        tm b;
        char buf[400];
        gmtime_r(&fakeTime, &b);
        strftime(buf, sizeof buf, format.c_str(), &b);
        want[buf] += s;
    }
    ch.flush();
    g.note([&](std::ostream& o) { o << format << " files " << want.size(); });
    g.nontrivial(want.size() > 1);
    for (auto& f : want) CHECK(slurp(f.first + "/" + name) == f.second, "file " << f.first << " has " << slurp(f.first + "/" + name).size() << " characters, not " << f.second.size() << ", or others");
    t->detach();
}

// Numbers with units, and times
PBT(numbers, 2) {
    std::ostringstream o;
    bool fixedStream = g.boolean();
    o.fill('*');
    auto take = [&] {
        std::string s = o.str();
        o.str("");
        return s;
    };
    switch (g.idx(8)) {
        case 0: {
            long long v = g.integer(INT64_MIN, INT64_MAX);
            g.note([&](std::ostream& out) { out << "BigNum " << v; });
            o << BigNum(v);
            std::string s = take(), d;
            CHECK(std::regex_match(s, std::regex("-?[0-9]{1,3}(,[0-9]{3})*")), "BigNum " << v << " is " << s);
            for (char c : s) if (c != ',') d += c;
            CHECK_EQ(d, std::to_string(v), "BigNum");
            g.nontrivial(v > 99999 || v < -99999);
            break;
        }
        case 1: {
            int exp10 = int(g.range(-2, 28));
            double v = g.real(0.1, 10) * std::pow(10, exp10);
            if (g.chance(30)) v = std::floor(v);
            if (g.chance(30)) v = std::pow(2.0, double(g.range(0, 89)));
            if (g.chance(20)) v = -v;
            g.note([&](std::ostream& out) { out.precision(17), out << "Bytes " << v; });
            o << Bytes(v);
            std::string s = take();
            std::smatch m;
            CHECK(std::regex_match(s, m, std::regex("(-?[-+0-9.e]+) ([KMGTPEZY]?)byte(s?)")), "Bytes " << v << " is " << s);
            static const std::string M = "KMGTPEZY";
            size_t n = m[2].length() ? M.find(m[2].str()) + 1 : 0;
            double x = std::stod(m[1]);
            CHECK(std::abs(x * std::pow(1024.0, double(n)) - v) <= 1e-5 * std::abs(v), "Bytes " << v << " is " << s);
            CHECK((std::abs(x) <= 1024 || n == 8) && (std::abs(x) >= 1 || n == 0), "Bytes " << v << " is " << s);
            CHECK_EQ(std::string(Bytes(v)), s, "Bytes as a string");
            CHECK_EQ(Bytes(v).value(), v, "value of Bytes");
            // the short form: three significant characters at most
            double big = std::pow(1024.0, 8) * 99;
            std::string t = Bytes(v).shorten();
            CHECK(std::regex_match(t, m, std::regex("(-?[0-9.]+)([ KMGTPEZY])")), "short Bytes " << v << " is " << t);
            x = std::stod(m[1]);
            n = m[2] == " " ? 0 : M.find(m[2].str()) + 1;
            CHECK(std::abs(x) <= 100 && t.size() <= 5, "short Bytes " << v << " is " << t);
            if (std::abs(v) <= std::pow(1024.0, 8)) CHECK(std::abs(x * std::pow(1024.0, double(n)) - v) <= (std::abs(x) >= 10 ? 0.5 : 0.05) * 1.0001 * std::pow(1024.0, double(n)), "short Bytes " << v << " is " << t);
            else CHECK(x == (v > 0 ? 99 : -99) && m[2] == "Y", "short Bytes " << v << " is " << t);
            (void)big;
            g.nontrivial(std::abs(v) > 2000);
            // rates
            double e = g.chance(20) ? 0 : g.real(0.001, 1000);
            o << Bytes(v, e);
            s = take();
            if (e > 0) {
                CHECK(s.size() > 11 && s.substr(s.size() - 11) == " per second", "rate " << s);
                std::string same = std::string(Bytes(v / e)) + " per second";
                CHECK_EQ(s, same, "rate of " << v << " in " << e);
            }
            break;
        }
        case 2: {
            double v = g.chance(20) ? g.real(0, 1) : g.chance(50) ? double(g.uinteger(0, 5000000)) : g.real(0, 5000000);
            g.note([&](std::ostream& out) { out.precision(17), out << "Seconds " << v; });
            bool compact = g.boolean();
            o << Seconds(v, compact);
            std::string s = take();
            long n = std::lround(v), total = 0;
            static const std::vector<std::pair<long, std::string>> U = {{604800, "week"}, {86400, "day"}, {3600, "hour"}, {60, "minute"}, {1, "second"}};
            if (n == 0) {
                std::ostringstream w;
                w << v << (compact ? "s" : " second");
                CHECK_EQ(s, w.str(), "Seconds " << v);
                break;
            }
            std::string rest = s, rebuilt;
            long left = n;
            bool any = false;
            for (auto& u : U) {
                long k = left / u.first;
                left %= u.first;
                total += k * u.first;
                if (compact) {
                    if (k || any) rebuilt += std::to_string(k) + u.second[0], any = true;
                }
                else if (k) rebuilt += (any ? " " : "") + std::to_string(k) + " " + u.second + (k > 1 ? "s" : ""), any = true;
            }
            CHECK_EQ(s, rebuilt, "Seconds " << v);
            CHECK_EQ(std::string(Seconds(v, compact)), s, "Seconds as a string");
            timeval tv{time_t(n), suseconds_t(g.range(0, 999999))};
            CHECK_EQ(std::string(Seconds(tv)), std::string(Seconds(double(tv.tv_sec) + double(tv.tv_usec) / 1e6)), "Seconds of a timeval");
            g.nontrivial(n > 100);
            break;
        }
        case 3: {
            double v = double(g.uinteger(0, 1000000)) + g.real(0, 0.99);
            g.note([&](std::ostream& out) { out << "ETA " << v; });
            o << ETA(v);
            std::string s = take();
            std::smatch m;
            CHECK(std::regex_match(s, m, std::regex("([0-9]+):([0-5][0-9]):([0-5][0-9])")), "ETA " << v << " is " << s);
            CHECK_EQ(std::stol(m[1]) * 3600 + std::stol(m[2]) * 60 + std::stol(m[3]), long(v), "ETA");
            fixedStream = false;
            g.nontrivial(v > 4000);
            break;
        }
        case 4: {
            int n = int(g.integer(0, INT32_MAX));
            g.note([&](std::ostream& out) { out << "Plural " << n; });
            o << Plural(n, "word");
            std::string s = take();
            std::ostringstream w;
            w << BigNum(n) << " word" << (n > 1 ? "s" : "");
            CHECK_EQ(s, w.str(), "Plural " << n);
            g.nontrivial(n > 1);
            break;
        }
        case 5: {
            long long v = g.integer(INT64_MIN, INT64_MAX);
            g.note([&](std::ostream& out) { out << "Number " << v; });
            std::string b = log::Number::printBinary(v), h = log::Number::printHexadecimal(v);
            CHECK((b == "0" || b[0] == '1') && (h == "0" || h[0] != '0'), "leading zeros " << b << " " << h);
            CHECK_EQ(std::stoull(b, nullptr, 2), (unsigned long long)(v), "binary");
            CHECK_EQ(std::stoull(h, nullptr, 16), (unsigned long long)(v), "hexadecimal");
            log::Number::printHexadecimal(o, v);
            CHECK_EQ(take(), h, "hexadecimal on a stream");
            g.nontrivial(v > 16);
            break;
        }
        case 6: {
            time_t t = time_t(g.integer(0, 4000000000LL));
            std::string f = g.pick(std::vector<std::string>{"", "hex", "%Y%m%d", "%H:%M:%S", "%Y-%m-%dT%H:%M:%SZ", "%j"});
            if (g.chance(20)) f += std::string(g.size(200), 'y') + "%Y";
            g.note([&](std::ostream& out) { out << "TimeStamp " << t << " " << f; });
            tm b;
            gmtime_r(&t, &b);
            char buf[1000], hex[32];
            strftime(buf, sizeof buf, f.empty() ? "%Y-%m-%d %H:%M:%S" : f.c_str(), &b);
            snprintf(hex, sizeof hex, "%016llx", (unsigned long long)t);
            std::string want = f == "hex" ? hex : buf;
            if (f.empty()) {
                TimeStamp s(t);
                o << s;
            }
            else {
                TimeStamp s(t, std::string(f));
                std::string other = "another text of some length, where the format may have been";
                o << s;
                CHECK_EQ(std::string(s), want, "TimeStamp as a string");
            }
            CHECK_EQ(take(), want, "TimeStamp");
            g.nontrivial(f.size() > 4);
            break;
        }
        default: {  // sums of times
            auto one = [&] { return Timing(double(g.range(0, 1000)) / 8, double(g.range(0, 1000)) / 8, size_t(g.range(0, 100))); };
            Timing a = one(), b = one();
            g.note([&](std::ostream& out) { out << "Timing " << a.elapsed_ << " " << a.cpu_ << " " << a.updates_ << ", " << b.elapsed_ << " " << b.cpu_ << " " << b.updates_; });
            Timing s = a;
            s += b;
            CHECK(s.elapsed_ == a.elapsed_ + b.elapsed_ && s.cpu_ == a.cpu_ + b.cpu_ && s.updates_ == a.updates_ + b.updates_, "sum");
            Timing d = s;
            d -= b;
            CHECK(d.elapsed_ == a.elapsed_ && d.cpu_ == a.cpu_ && d.updates_ == s.updates_, "difference (the updates stay)");
            Timing m = s - b;
            CHECK(m.elapsed_ == a.elapsed_ && m.cpu_ == a.cpu_, "difference");
            size_t n = size_t(g.range(1, 64));
            Timing q = s;
            q /= n;
            CHECK(q.elapsed_ == s.elapsed_ / double(n) && q.cpu_ == s.cpu_ / double(n), "mean");
            CHECK_EQ(q.updates_, s.updates_ ? std::max<size_t>(1, s.updates_ / n) : 0, "updates of the mean");
            Buffer buf(1000);
            MemoryStream out(buf);
            out << s;
            MemoryStream in(buf);
            Timing r;
            in >> r;
            CHECK(r.elapsed_ == s.elapsed_ && r.cpu_ == s.cpu_ && r.updates_ == s.updates_, "through a stream");
            g.nontrivial(s.updates_ > 1);
        }
    }
    // the stream is as it was
    if (fixedStream) {
        o << std::setw(5) << 26;
        std::string s = take();
        CHECK_EQ(s, std::string("***26"), "numbers printed afterwards");
    }
}

// Messages for syslog follow RFC 5424
PBT(syslog, 1) {
    auto f = SysLog::Facility(g.idx(24));
    auto sev = SysLog::Severity(g.idx(8));
    std::string msg = g.str(30, "ab \"]\\[=\n<>"), app = g.ident(), soft = g.chance(50) ? g.str(8, "ab\"]\\ .") : "", ver = g.chance(50) ? g.str(4, "1.2\"]") : "", ent = g.chance(50) ? g.str(4, "123") : "";
    int id = int(g.integer(0, 100000));
    fakeTime = g.boolean() ? 0 : time_t(g.range(1000, 4000000000LL));
    struct Real { ~Real() { fakeTime = 0; } } real;
    time_t t0 = ::time(nullptr);
    SysLog s(g.boolean() ? msg : std::string("other"), id, f, sev);
    s.message(msg);
    s.appName(app);
    s.software(soft), s.swVersion(ver), s.enterpriseId(ent);
    std::string text = s;
    g.note([&](std::ostream& o) { o << esc(text); });
    g.nontrivial(!soft.empty() && !msg.empty());
    // a parser of the header
    size_t p = 0;
    auto upTo = [&](char c) {
        size_t q = text.find(c, p);
        CHECK(q != std::string::npos, "no " << c << " after " << p << " in " << esc(text));
        std::string r = text.substr(p, q - p);
        p = q + 1;
        return r;
    };
    CHECK_EQ(text[p++], '<', "first character");
    CHECK_EQ(upTo('>'), std::to_string(int(f) * 8 + int(sev)), "priority");
    CHECK_EQ(upTo(' '), std::string("1"), "version");
    std::string stamp = upTo(' ');
    bool timely = false;
    for (time_t t = t0; t <= t0 + 2 && !timely; ++t) {
        tm b;
        char buf[40];
        gmtime_r(&t, &b);
        strftime(buf, sizeof buf, "%Y-%m-%dT%H:%M:%SZ", &b);
        timely = stamp == buf;
    }
    CHECK(timely, "time stamp " << stamp);
    CHECK(!upTo(' ').empty(), "no host");
    CHECK_EQ(upTo(' '), app, "application");
    CHECK_EQ(upTo(' '), std::to_string(getpid()), "process");
    CHECK_EQ(upTo(' '), std::to_string(id), "message identifier");
    if (soft.empty() && ver.empty() && ent.empty()) CHECK_EQ(upTo(' '), std::string("-"), "structured data");
    else {
        CHECK_EQ(text.substr(p, 7), std::string("[origin"), "structured data");
        p += 7;
        std::map<std::string, std::string> got;
        while (p < text.size() && text[p] == ' ') {
            ++p;
            std::string name = upTo('='), value;
            CHECK(text[p++] == '"', "no quote after " << name);
            while (p < text.size() && text[p] != '"') {
                if (text[p] == '\\' && p + 1 < text.size() && (text[p + 1] == '"' || text[p + 1] == '\\' || text[p + 1] == ']')) ++p;
                else CHECK(text[p] != ']', "] in a value is not escaped");
                value += text[p++];
            }
            CHECK(p < text.size(), "a value without end");
            ++p;
            CHECK(got.emplace(name, value).second, "a second " << name);
        }
        CHECK(p + 1 < text.size() && text[p] == ']' && text[p + 1] == ' ', "structured data go on: " << esc(text.substr(p)));
        p += 2;
        CHECK(got.count("ip"), "no ip");
        got.erase("ip");
        std::map<std::string, std::string> want;
        if (!ent.empty()) want["enterpriseId"] = ent;
        if (!soft.empty()) {
            want["software"] = soft;
            if (!ver.empty()) want["swVersion"] = ver;
        }
        CHECK(got == want, "structured data are others in " << esc(text));
    }
    CHECK_EQ(text.substr(p), msg, "message");
}
