// C50: metrics (runtime/Metrics) against a model, over histories of values, prefixes, groups and items, nested, sent and
// received.

#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/log/Log.h"
#include "eckit/runtime/Main.h"
#include "eckit/runtime/Metrics.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/value/Value.h"
#include "pbt.h"

using namespace pbt;
using namespace eckit;

PBT_INIT {
    eckit::Main::initialise(argc, argv);
    eckit::Log::warning().reset();
}

namespace {

// names with dots are paths
struct Tree {
    std::map<std::string, Tree> below;
    std::string leaf;
    void add(const std::string& path, const std::string& v) {
        size_t d = path.find('.');
        if (d == std::string::npos) below[path].leaf = v;
        else below[path.substr(0, d)].add(path.substr(d + 1), v);
    }
    std::string str() const {
        if (!leaf.empty()) return leaf;
        std::string r = "{";
        for (auto& b : below) r += (r.size() > 1 ? "," : "") + ("\"" + b.first + "\":") + b.second.str();
        return r + "}";
    }
};

using Values = std::map<std::string, std::string>;  // full name, JSON

std::string tree(const Values& v) {
    Tree t;
    for (auto& x : v) t.add(x.first, x.second);
    return t.str();
}

struct Frame {
    bool group = false, item = false;
    std::string name;
    std::string full;
    std::vector<std::string> values;
    Values next;
};

std::string list(const std::vector<std::string>& v) {
    std::string r = "[";
    for (auto& x : v) r += (r.size() > 1 ? "," : "") + x;
    return r + "]";
}

struct Model {
    Values top;
    std::map<std::string, std::vector<std::string>> groups;  // lists of the top level
    std::vector<Frame> frames;
    std::map<size_t, std::map<std::string, std::vector<std::string>>> nested;  // of the item that is open, by frame

    int group() const {
        for (int i = int(frames.size()) - 1; i >= 0; --i)
            if (frames[i].group) return i;
        return -1;
    }
    std::string full(const std::string& n) const {
        std::string r;
        for (size_t i = size_t(group() + 1); i < frames.size(); ++i)
            if (!frames[i].item) r += frames[i].name + ".";
        return r + n;
    }
    void set(const std::string& n, const std::string& v) {
        int i = group();
        (i < 0 ? top : frames[i].next)[full(n)] = v;
    }
    void item() {
        int i = group();
        if (i < 0) return;
        Frame& f = frames[i];
        if (!f.next.empty()) f.values.push_back(tree(f.next));
        f.next.clear();
        nested.erase(size_t(i));
    }
    void push(const std::string& n, bool group) {
        Frame f;
        f.full  = full(n);
        f.name  = n;
        f.group = group;
        if (group && this->group() < 0) groups[f.full], top[f.full] = list(groups[f.full]);
        frames.push_back(f);
    }
    void pop() {
        if (frames.back().item) {
            frames.pop_back();
            item();
            return;
        }
        if (frames.back().group) {
            item();
            Frame f = frames.back();
            frames.pop_back();
            int i = group();
            auto& l = i < 0 ? groups[f.full] : nested[size_t(i)][f.full];
            l.insert(l.end(), f.values.begin(), f.values.end());
            (i < 0 ? top : frames[i].next)[f.full] = list(l);
            return;
        }
        frames.pop_back();
    }
};

struct Scope {
    std::unique_ptr<MetricsPrefix> p;
    std::unique_ptr<MetricsGroup> g;
    std::unique_ptr<MetricsGroupItem> i;
};

std::string reported(const CollectMetrics& m, long& run, long& queue) {
    std::ostringstream o;
    o << m;
    const std::string s = o.str(), r = "\"run_time\":", q = ",\"queue_time\":";
    size_t p = s.find(r);
    if (p == std::string::npos || s.compare(0, 11, "{\"process\":")) fail("no head: " + s);
    p += r.size();
    size_t e = s.find_first_of(",}", p);
    run      = std::stol(s.substr(p, e - p));
    queue    = -1;
    if (s.compare(e, q.size(), q) == 0) {
        p     = e + q.size();
        e     = s.find_first_of(",}", p);
        queue = std::stol(s.substr(p, e - p));
    }
    return s[e] == ',' ? "{" + s.substr(e + 1) : "{" + s.substr(e);
}

std::string anyValue(Gen& g, const std::string& n) {
    bool over = g.boolean();
    switch (g.idx(12)) {
        case 0: { bool v = g.boolean(); Metrics::set(n, v, over); return v ? "true" : "false"; }
        case 1: { int v = int(g.range(INT32_MIN, INT32_MAX)); Metrics::set(n, v, over); return std::to_string(v); }
        case 2: { unsigned v = unsigned(g.range(0, UINT32_MAX)); Metrics::set(n, v, over); return std::to_string(v); }
        case 3: { long v = g.integer(INT64_MIN, INT64_MAX); Metrics::set(n, v, over); return std::to_string(v); }
        case 4: { unsigned long v = (unsigned long)(g.range(0, INT64_MAX)); Metrics::set(n, v, over); return std::to_string(v); }
        case 5: { long long v = g.range(INT64_MIN, INT64_MAX); Metrics::set(n, v, over); return std::to_string(v); }
        case 6: { unsigned long long v = (unsigned long long)(g.range(0, INT64_MAX)); Metrics::set(n, v, over); return std::to_string(v); }
        case 7: { double v = double(g.range(-99, 99)) + 0.5; Metrics::set(n, v, over); std::ostringstream o; o << v; return o.str(); }
        case 8: {
            long long v = g.range(0, INT64_MAX);
            if (g.boolean()) Metrics::set(n, Length(v), over);
            else Metrics::set(n, Offset(v), over);
            return std::to_string(v);
        }
        case 9: {
            std::vector<std::string> v;
            std::string e = "[";
            for (size_t i = g.idx(4); i--;) {
                v.push_back(g.str(4, "ab c"));
                if (v.back().empty()) v.back() = "x";
            }
            std::set<std::string> s(v.begin(), v.end());
            if (g.boolean()) {
                Metrics::set(n, s, over);
                v.assign(s.begin(), s.end());
            }
            else Metrics::set(n, v, over);
            for (auto& x : v) e += (e.size() > 1 ? ",\"" : "\"") + x + "\"";
            return e + "]";
        }
        case 10: {
            std::map<std::string, unsigned long long> v;
            for (size_t i = g.idx(4); i--;) v[g.str(3, "abc") + "k"] = (unsigned long long)g.range(0, 1000);
            Metrics::set(n, v, over);
            std::string e = "{";
            for (auto& x : v) e += (e.size() > 1 ? ",\"" : "\"") + x.first + "\":" + std::to_string(x.second);
            return e + "}";
        }
        default: {
            std::string v = g.str(6, "abc d");
            Metrics::set(n, Value(v), over);
            return "\"" + v + "\"";
        }
    }
}

const std::vector<std::string> NAMES{"a", "b", "c.d", "c.e", "c.f.g"}, PREFIXES{"p", "q", "q.r"}, GROUPS{"g", "h", "i.j"};

}  // namespace

PBT(metrics, 6) {
    const time_t t0 = ::time(nullptr);
    CollectMetrics m;
    Model e;
    std::vector<Scope> scopes;
    size_t ops = 0, deep = 0;
    time_t received = 0;
    std::string log;
    g.note([&](std::ostream& o) { o << "see the log"; });
    auto check = [&] {
        long run, queue;
        std::string s = reported(m, run, queue), x = tree(e.top);
        CHECK(s == x, "after " << log << ": reported " << s << ", and not " << x);
        const time_t t1 = ::time(nullptr);
        CHECK(run >= 0 && run <= t1 - t0, "run time " << run);
        if (received) CHECK(queue >= t0 - received && queue <= t1 - received, "queue time " << queue);
        else CHECK(queue == -1, "a queue time");
    };
    while (g.more(93) && ops < 80) {
        ++ops;
        switch (g.weighted({8, 3, 4, 3, 6, 1, 1, 1})) {
            case 0: {
                const std::string& n = NAMES[g.idx(NAMES.size())];
                log += " " + n;
                e.set(n, anyValue(g, n));
                break;
            }
            case 1: {
                if (scopes.size() > 6) break;
                const std::string& n = PREFIXES[g.idx(PREFIXES.size())];
                log += " (" + n;
                scopes.emplace_back();
                scopes.back().p.reset(new MetricsPrefix(n));
                e.push(n, false);
                break;
            }
            case 2: {
                if (scopes.size() > 6) break;
                const std::string& n = GROUPS[g.idx(GROUPS.size())];
                log += " [" + n;
                scopes.emplace_back();
                scopes.back().g.reset(new MetricsGroup(n));
                e.push(n, true);
                size_t d = 0;
                for (auto& f : e.frames) d += f.group;
                deep = std::max(deep, d);
                break;
            }
            case 3:
                if (g.boolean() || scopes.size() > 6) {
                    log += " ;";
                    MetricsGroupItem i;
                    e.item();
                }
                else {
                    log += " <";
                    scopes.emplace_back();
                    scopes.back().i.reset(new MetricsGroupItem);
                    e.item();
                    Frame f;
                    f.item = true;
                    e.frames.push_back(f);
                }
                break;
            case 4:
                if (scopes.empty()) break;
                log += " )";
                scopes.pop_back();
                e.pop();
                break;
            case 5: {
                time_t t = time_t(g.range(1, 2000000000));
                bool r   = g.boolean();
                char buf[80];
                ::strftime(buf, sizeof(buf), "\"%Y-%m-%dT%H:%M:%SZ\"", ::gmtime(&t));
                std::string n = r ? "received" : "other";
                log += " " + n;
                Metrics::timestamp(n, t, g.boolean());
                if (r) received = t;
                e.set(n, buf);
                break;
            }
            case 6: {
                log += " error";
                Metrics::error(std::runtime_error("broken"));
                e.set("error", "\"broken\"");
                break;
            }
            default: {
                CHECK(throws([] { CollectMetrics another; }), "two collectors");
                log += " two";
            }
        }
        if (g.chance(30) || e.frames.empty()) check();
    }
    while (!scopes.empty()) {
        scopes.pop_back();
        e.pop();
    }
    check();
    g.nontrivial(ops > 6 && deep);
    g.label(deep > 1 ? "nested groups" : deep ? "groups" : "none");
}

// from one process to another, within prefixes
PBT(sent, 2) {
    Buffer b(64);
    Values from, into;
    std::map<std::string, std::string> all;
    {
        CollectMetrics m;
        for (size_t i = g.idx(6); i--;) {
            const std::string& n = NAMES[g.idx(NAMES.size())];
            from[n]              = anyValue(g, n);
        }
        if (g.boolean()) {
            std::vector<std::string> items;
            MetricsGroup grp("g");
            for (size_t i = g.idx(3); i--;) {
                MetricsGroupItem it;
                items.push_back("{\"x\":" + anyValue(g, "x") + "}");
            }
            from["g"] = list(items);
        }
        ResizableMemoryStream s(b);
        Metrics::send(s);
        s << std::string("behind");
    }
    {
        MemoryStream none(b);
        CHECK(!throws([&] { Metrics::set("a", 1); MetricsPrefix p("a"); MetricsGroup q("a"); }), "without a collector");
    }
    CollectMetrics m;
    size_t own = g.idx(3);
    for (size_t i = 0; i < own; ++i) {
        const std::string& n = NAMES[g.idx(NAMES.size())];
        into[n]              = anyValue(g, n);
    }
    std::string prefix;
    {
        std::unique_ptr<MetricsPrefix> p;
        if (g.boolean()) {
            prefix = PREFIXES[g.idx(PREFIXES.size())];
            p.reset(new MetricsPrefix(prefix));
            prefix += ".";
        }
        MemoryStream s(b);
        Metrics::receive(s);
        std::string behind;
        s >> behind;
        CHECK(behind == "behind", "what follows");
    }
    for (auto& f : from) into[prefix + f.first] = f.second;
    long run, queue;
    std::string r = reported(m, run, queue), x = tree(into);
    CHECK(r == x, "received " << r << ", and not " << x);
    g.nontrivial(from.size() > 1);
}

// of threads at once
PBT(threads, 1) {
    CollectMetrics m;
    const size_t n = 2 + g.idx(3), k = 1 + g.size(20);
    std::vector<std::thread> t;
    Values e;
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < k; ++j) e["t" + std::to_string(i) + ".n" + std::to_string(j)] = std::to_string(j);
        t.emplace_back([=] {
            for (size_t j = 0; j < k; ++j) Metrics::set("t" + std::to_string(i) + ".n" + std::to_string(j), j);
        });
    }
    for (auto& x : t) x.join();
    long run, queue;
    std::string r = reported(m, run, queue);
    CHECK(r == tree(e), "reported " << r);
    g.nontrivial(k > 3);
}
