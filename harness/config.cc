// C08: configurations hold what was set under the names it was set, resources follow their order of precedence
#include <unistd.h>
#include <fstream>
#include <sstream>
#include "eckit/config/EtcTable.h"
#include "eckit/config/JSONConfiguration.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/Resource.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/log/JSON.h"
#include "eckit/runtime/Main.h"
#include "eckit/value/CompositeParams.h"
#include "eckit/value/Params.h"
#include "eckit/value/Properties.h"
#include "eckit/value/ScopeParams.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/io/Buffer.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/Translator.h"
#include "tree.h"
#include "refjson.h"

namespace eckit {
class ConfigCmd {  // the friend which may change resources
public:
    static void reset() { ResourceMgr::instance().reset(); }
    static void set(const std::string& n, const std::string& v) { ResourceMgr::instance().set(n, v); }
};
}
using namespace eckit;

static const int SLOTS = 9;
static char slot[SLOTS][200];

PBT_INIT {
    static char* av[SLOTS + 1];
    strcpy(slot[0], "harness");
    for (int i = 0; i < SLOTS; i++) { if (i) strcpy(slot[i], "_"); av[i] = slot[i]; }
    setenv("VERIF_HOME_DIR", "/proc/self/cwd", 1);  // the home is wherever a case is
    eckit::Main::initialise(SLOTS, av, "VERIF_HOME_DIR");
}

static Tree& at(Tree& t, const std::string& k) {
    for (auto& p : t.map) if (p.first == k) return p.second;
    t.map.emplace_back(k, Tree());
    return t.map.back().second;
}
static Tree mk(long long i) { Tree t; t.k = Tree::Int; t.i = i; return t; }
static Tree mk(double i) { Tree t; t.k = Tree::Double; t.d = i; return t; }
static Tree mk(const std::string& i) { Tree t; t.k = Tree::Str; t.s = i; return t; }
static Tree mk(bool i) { Tree t; t.k = Tree::Bool; t.b = i; return t; }

static std::string genPath(pbt::Gen& g, size_t deep) {  // 'deep' names joined by spaces
    std::string r;
    for (size_t i = 0; i < deep; i++) r += (i ? " " : "") + std::string(1, char('a' + g.idx(4))) + (g.chance(20) ? "x" : "");
    return r;
}
static std::vector<std::string> parts(const std::string& p) { std::vector<std::string> v; std::istringstream in(p); std::string s; while (in >> s) v.push_back(s); return v; }
static std::string join(const std::string& p, char sep) { std::string r = p; for (auto& c : r) if (c == ' ') c = sep; return r; }
// a path through a value which is not a map cannot be set
static bool settable(const Tree& t, const std::vector<std::string>& p) {
    const Tree* q = &t;
    for (size_t i = 0; i + 1 < p.size(); i++) { q = q->find(p[i]); if (!q) return true; if (q->k != Tree::OMap) return false; }
    return true;
}
static Tree& walk(Tree& t, const std::vector<std::string>& p) {
    Tree* q = &t;
    for (auto& k : p) { q = &at(*q, k); if (&k != &p.back() && q->k != Tree::OMap) { *q = Tree(); q->k = Tree::OMap; } }
    return *q;
}
static const Tree* find(const Tree& t, const std::vector<std::string>& p) {
    const Tree* q = &t;
    for (auto& k : p) { if (q->k != Tree::OMap) return nullptr; q = q->find(k); if (!q) return nullptr; }
    return q;
}
struct Probe : LocalConfiguration {
    explicit Probe(const Configuration& c) : LocalConfiguration(c) {}
    Value all() const { return *this; }
};
static Tree tree(const Configuration& c) { std::ostringstream o; { JSON j(o); j.precision(17); j << c; } Tree t; std::string js_ = o.str(); RefJson r(js_); CHECK(r.parse(t), "configuration written as " << js_); return t; }
static bool sameJ(const Tree& a, const Tree& b) {
    bool na = a.k == Tree::Int || a.k == Tree::Double, nb = b.k == Tree::Int || b.k == Tree::Double;
    if (na && nb) return (a.k == Tree::Int ? (long double)a.i : (long double)a.d) == (b.k == Tree::Int ? (long double)b.i : (long double)b.d);
    if (a.k != b.k) return false;
    if (a.k == Tree::List) { if (a.list.size() != b.list.size()) return false; for (size_t i = 0; i < a.list.size(); i++) if (!sameJ(a.list[i], b.list[i])) return false; return true; }
    if (a.k == Tree::OMap) { if (a.map.size() != b.map.size()) return false; for (size_t i = 0; i < a.map.size(); i++) if (a.map[i].first != b.map[i].first || !sameJ(a.map[i].second, b.map[i].second)) return false; return true; }
    return a == b;
}

static void checkType(const Configuration& c, const std::string& n, const Tree& t) {
    CHECK_EQ(c.isIntegral(n), t.k == Tree::Int, "isIntegral(" << n << ")");
    CHECK_EQ(c.isBoolean(n), t.k == Tree::Bool, "isBoolean(" << n << ")");
    CHECK_EQ(c.isFloatingPoint(n), t.k == Tree::Double, "isFloatingPoint(" << n << ")");
    CHECK_EQ(c.isString(n), t.k == Tree::Str, "isString(" << n << ")");
    CHECK_EQ(c.isList(n), t.k == Tree::List, "isList(" << n << ")");
    CHECK_EQ(c.isSubConfiguration(n), t.k == Tree::OMap, "isSubConfiguration(" << n << ")");
    CHECK_EQ(c.isNull(n), t.k == Tree::Nil, "isNull(" << n << ")");
    switch (t.k) {
        case Tree::Int: {
            CHECK_EQ(c.getInt64(n), int64_t(t.i), "getInt64(" << n << ")");
            CHECK_EQ(c.getLong(n, 77), long(t.i), "getLong(" << n << ", default)");
            long long ll = 0; CHECK(c.get(n, ll), "get"); CHECK_EQ(ll, t.i, "get long long");
            int i = 0;
            if (t.i == int(t.i)) { CHECK_EQ(c.getInt(n), int(t.i), "getInt"); CHECK(c.get(n, i), "get int"); CHECK_EQ(i, int(t.i), "get int"); CHECK_EQ(c.getInt32(n), int(t.i), "getInt32"); }
            else { CHECK(pbt::throws([&] { (void)c.getInt(n); }), "getInt of " << t.i << " which is no int"); }
            if (t.i >= 0) CHECK_EQ(c.getUnsigned(n), size_t(t.i), "getUnsigned");
            CHECK_EQ(c.getString(n), std::to_string(t.i), "getString of a number");
            CHECK_EQ(c.getDouble(n), double(t.i), "getDouble of an integer");
            break;
        }
        case Tree::Bool: CHECK_EQ(c.getBool(n), t.b, "getBool(" << n << ")"); break;
        case Tree::Double: CHECK_EQ(c.getDouble(n), t.d, "getDouble(" << n << ")"); CHECK_EQ(c.getDouble(n, 3.5), t.d, "getDouble"); if (std::fabs(t.d) < 1e30) CHECK_EQ(c.getFloat(n), float(t.d), "getFloat"); break;
        case Tree::Str: CHECK_EQ(c.getString(n), t.s, "getString(" << n << ")"); CHECK_EQ(c.getString(n, "zz"), t.s, "getString"); break;
        case Tree::OMap: CHECK(sameJ(tree(c.getSubConfiguration(n)), t), "getSubConfiguration(" << n << ") is " << tree(c.getSubConfiguration(n)) << " instead of " << t); break;
        case Tree::List: {
            bool ints = true, strs = true, dbls = true, maps = true;
            for (auto& x : t.list) { ints &= x.k == Tree::Int; strs &= x.k == Tree::Str; dbls &= x.k == Tree::Double; maps &= x.k == Tree::OMap; }
            if (t.list.empty()) { CHECK(c.isIntegralList(n) && c.isStringList(n) && c.isSubConfigurationList(n), "an empty list"); }
            if (ints) { auto v = c.getLongVector(n); CHECK_EQ(v.size(), t.list.size(), "getLongVector"); auto w = c.getInt64Vector(n); for (size_t i = 0; i < v.size(); i++) { CHECK_EQ(v[i], long(t.list[i].i), "getLongVector"); CHECK_EQ(w[i], v[i], "getInt64Vector"); } CHECK(c.isIntegralList(n), "isIntegralList"); }
            if (strs) { auto v = c.getStringVector(n); CHECK_EQ(v.size(), t.list.size(), "getStringVector"); for (size_t i = 0; i < v.size(); i++) CHECK_EQ(v[i], t.list[i].s, "getStringVector"); CHECK(c.isStringList(n), "isStringList"); }
            if (dbls) { auto v = c.getDoubleVector(n); CHECK_EQ(v.size(), t.list.size(), "getDoubleVector"); for (size_t i = 0; i < v.size(); i++) CHECK_EQ(v[i], t.list[i].d, "getDoubleVector"); CHECK(c.isFloatingPointList(n), "isFloatingPointList"); }
            if (maps) { auto v = c.getSubConfigurations(n); CHECK_EQ(v.size(), t.list.size(), "getSubConfigurations"); for (size_t i = 0; i < v.size(); i++) CHECK(sameJ(tree(v[i]), t.list[i]), "getSubConfigurations"); CHECK(c.isSubConfigurationList(n), "isSubConfigurationList"); }
            break;
        }
        default: break;
    }
    if (t.k == Tree::Str || t.k == Tree::Int || t.k == Tree::OMap) { std::vector<long> v; CHECK(pbt::throws([&] { c.get(n, v); }), "a vector from what is no list"); }
}

PBT(histories, 8) {
    size_t nc = 1 + g.idx(3), steps = 1 + g.size(14);
    char sep = g.pick({'.', '.', '/', ':', '|'});
    std::vector<LocalConfiguration> c;
    std::vector<Tree> m(nc);
    for (size_t i = 0; i < nc; i++) { c.emplace_back(sep); m[i].k = Tree::OMap; }
    std::string log = std::string("separator ") + sep + ": ";
    g.nontrivial(steps > 3);
    TreeOpts o;
    for (size_t s = 0; s < steps; s++) {
        size_t i = g.idx(nc), j = g.idx(nc);
        std::string p = genPath(g, 1 + g.size(2)), n = join(p, sep);
        auto pv = parts(p);
        std::ostringstream l;
        int op = int(g.idx(10));
        if (op < 7 && !settable(m[i], pv)) continue;
        Tree t;
        switch (op) {
            case 0: { long long x = g.integer(INT64_MIN + 1, INT64_MAX); t = mk(x); int w = int(g.idx(4)); if (w == 0 && x == int(x)) c[i].set(n, int(x)); else if (w == 1) c[i].set(n, long(x)); else if (w == 2 && x >= 0) c[i].set(n, size_t(x)); else c[i].set(n, x); break; }
            case 1: { double d = genNiceDouble(g); if (g.chance(20) && std::fabs(d) < 1e30) { c[i].set(n, float(d)); d = double(float(d)); } else c[i].set(n, d); t = mk(d); break; }
            case 2: { std::string x = genText(g, o); if (x.find('\0') == x.npos && g.boolean()) c[i].set(n, x.c_str()); else c[i].set(n, x); t = mk(x); break; }
            case 3: { bool b = g.boolean(); c[i].set(n, b); t = mk(b); break; }
            case 4: {
                t.k = Tree::List;
                size_t k = g.size(4);
                switch (g.idx(7)) {
                    case 0: { std::vector<int> v; for (size_t q = 0; q < k; q++) { v.push_back(int(g.range(-100, 100))); t.list.push_back(mk((long long)v.back())); } c[i].set(n, v); break; }
                    case 1: { std::vector<long> v; for (size_t q = 0; q < k; q++) { v.push_back(long(g.integer(-1000000000000, 1000000000000))); t.list.push_back(mk((long long)v.back())); } c[i].set(n, v); break; }
                    case 2: { std::vector<long long> v; for (size_t q = 0; q < k; q++) { v.push_back(g.integer(-1000000000000, 1000000000000)); t.list.push_back(mk(v.back())); } c[i].set(n, v); break; }
                    case 3: { std::vector<size_t> v; for (size_t q = 0; q < k; q++) { v.push_back(size_t(g.integer(0, 1000000000000))); t.list.push_back(mk((long long)v.back())); } c[i].set(n, v); break; }
                    case 4: { std::vector<double> v; for (size_t q = 0; q < k; q++) { v.push_back(genNiceDouble(g)); t.list.push_back(mk(v.back())); } c[i].set(n, v); break; }
                    case 5: { std::vector<std::string> v; for (size_t q = 0; q < k; q++) { v.push_back(genText(g, o)); t.list.push_back(mk(v.back())); } c[i].set(n, v); break; }
                    case 6: { std::vector<LocalConfiguration> v; for (size_t q = 0; q < k; q++) { size_t w = g.idx(nc); v.push_back(c[w]); t.list.push_back(m[w]); } if (t.count() > 60) { t = Tree(); t.k = Tree::List; v.clear(); } c[i].set(n, v); break; }
                }
                break;
            }
            case 5: case 6: { if (m[j].count() > 40) { continue; } t = m[j]; c[i].set(n, c[j]); break; }
            case 7: { l << "c" << i << " = c" << j; c[i] = c[j]; m[i] = m[j]; break; }
            case 8: { if (m[i].map.empty() || g.chance(20)) { l << "remove(none)"; c[i].remove("nothere"); break; } std::string k = m[i].map[g.idx(m[i].map.size())].first; l << "c" << i << ".remove(" << k << ")"; c[i].remove(k); for (size_t q = 0; q < m[i].map.size(); q++) if (m[i].map[q].first == k) { m[i].map.erase(m[i].map.begin() + long(q)); break; } break; }
            case 9: { if (i == j || m[i].count() + m[j].count() > 60) continue; l << "c" << i << ".set(c" << j << ")"; c[i].set(c[j]); for (auto& q : m[j].map) at(m[i], q.first) = q.second; break; }
        }
        if (op < 7) { l << "c" << i << ".set(" << n << ", " << t << ")"; walk(m[i], pv) = t; }
        log += l.str() + "; ";
        for (size_t q = 0; q < nc; q++) {
            Tree got = tree(c[q]);
            CHECK(sameJ(got, m[q]), "c" << q << " is " << got << " instead of " << m[q] << " after " << log);
            CHECK_EQ(c[q].empty(), m[q].map.empty(), "empty() after " << log);
            auto k = c[q].keys();
            CHECK_EQ(k.size(), m[q].map.size(), "keys() after " << log);
            for (size_t z = 0; z < k.size(); z++) CHECK_EQ(k[z], m[q].map[z].first, "keys() after " << log);
        }
        // look around
        std::string p2 = g.chance(40) ? p : genPath(g, 1 + g.size(2)), n2 = join(p2, sep);
        const Tree* f = find(m[i], parts(p2));
        CHECK_EQ(c[i].has(n2), f != nullptr, "has(" << n2 << ") after " << log);
        if (f) checkType(c[i], n2, *f);
        else {
            CHECK(pbt::throws([&] { (void)c[i].getString(n2); }), "getString of what is not there");
            CHECK_EQ(c[i].getInt(n2, 4711), 4711, "default");
            CHECK_EQ(c[i].getString(n2, "dflt"), std::string("dflt"), "default");
            CHECK(c[i].getSubConfiguration(n2).empty(), "a sub configuration which is not there");
            long x = 5;
            CHECK(!c[i].get(n2, x) && x == 5, "get of what is not there");
            CHECK(!c[i].isString(n2) && !c[i].isIntegral(n2) && !c[i].isNull(n2) && !c[i].isList(n2), "is... of what is not there");
        }
        // a sub configuration is a copy
        if (f && f->k == Tree::OMap) { LocalConfiguration sub(c[i], n2); sub.set("q", 1); Tree got = tree(c[i]); CHECK(sameJ(got, m[i]), "setting in a sub configuration changed its origin: " << got << " after " << log); }
    }
    g.note([&](std::ostream& s) { s << log; });
    // there and back
    size_t i = g.idx(nc);
    std::ostringstream js;
    { JSON j(js); j.precision(17); j << c[i]; }
    YAMLConfiguration y(js.str(), sep);
    CHECK(sameJ(tree(y), m[i]), "as YAML: " << js.str());
    std::string f = g.freshDir() + "/c.json";
    std::ofstream(f) << js.str();
    YAMLConfiguration yf{PathName(f)};
    CHECK(sameJ(tree(yf), m[i]), "of a YAML file");
    JSONConfiguration jc(js.str());
    CHECK(sameJ(tree(jc), m[i]), "as JSON");
    Buffer b(1024);
    ResizableMemoryStream st(b);
    st << Probe(c[i]).all();
    st.rewind();
    LocalConfiguration r(st);
    CHECK(sameJ(tree(r), m[i]), "through a stream");
    MD5 h1, h2;
    c[i].hash(h1);
    LocalConfiguration copy(c[i]);
    copy.hash(h2);
    CHECK_EQ(h1.digest(), h2.digest(), "hash of a copy");
    Tree before = m[i];
    copy.set("added", 1);
    CHECK(sameJ(tree(c[i]), before), "setting in a copy changed the original");
}

// command line, environment, configuration, default - in this order
PBT(resources, 5) {
    std::string dir = g.freshDir();
    CHECK(chdir(dir.c_str()) == 0, "chdir");
    g.nontrivial();
    int n = 0;
    ConfigCmd::reset();
    std::string name = "r" + g.ident(5), opt = "-" + name, env = "VERIF_" + g.ident(4);
    for (int i = 1; i < SLOTS; i++) strcpy(slot[i], "_");
    auto val = [&](int k) { return long(1000 * (k + 1) + g.range(0, 9)); };
    long dflt = val(0), want = dflt;
    std::string log;
    std::string text;
    bool inMgr = g.chance(50), inFile = g.chance(40), inEnv = g.chance(40), onCmd = g.chance(40);
    if (inFile) {
        long v = val(1);
        size_t lines = g.size(5);
        auto other = [&] { std::string o = g.chance(20) ? "# " + name + ": 1" : g.chance(20) ? "" : "o" + g.ident(4) + ": " + (g.chance(10) ? std::string(2000, 'y') : g.ident(6)); text += o + "\n"; };
        for (size_t i = 0; i < lines; i++) other();
        text += std::string(g.size(2), ' ') + name + std::string(g.size(2), ' ') + ":" + std::string(g.size(3), ' ') + std::to_string(v) + std::string(g.size(2), ' ') + "\n";
        lines = g.size(3);
        for (size_t i = 0; i < lines; i++) other();
        CHECK(system("mkdir -p etc/config") == 0, "mkdir");
        bool local = g.boolean();
        std::ofstream(local ? "etc/config/local" : "etc/config/general") << text;
        if (local && g.boolean()) std::ofstream("etc/config/general") << name << ": 5\n";
        want = v;
        log += "file=" + std::to_string(v) + " ";
    }
    if (inMgr) {
        long v = val(2);
        { Resource<long> warm("warmup;-nosuch", 1); (void)long(warm); }
        ConfigCmd::set(name, std::to_string(v));
        want = v;
        log += "set=" + std::to_string(v) + " ";
    }
    if (inEnv) { long v = val(3); setenv(env.c_str(), std::to_string(v).c_str(), 1); want = v; log += "env=" + std::to_string(v) + " "; }
    else unsetenv(env.c_str());
    if (onCmd) {
        long v = val(4);
        int at = 1 + int(g.idx(SLOTS - 2));
        if (g.chance(20)) { strcpy(slot[at], "-something"); at = std::min(at + 1, SLOTS - 2); }
        strcpy(slot[at], opt.c_str());
        strcpy(slot[at + 1], std::to_string(v).c_str());
        want = v;
        log += "cmd=" + std::to_string(v) + " ";
    }
    g.note([&](std::ostream& o) { o << log << "default=" << dflt; });
    std::string spec;
    std::vector<std::string> pieces{name, opt, "$" + env};
    auto perm = g.permutation(3);
    for (size_t i = 0; i < 3; i++) spec += (i ? ";" : "") + pieces[perm[i]];
    Resource<long> r(spec, dflt);
    CHECK_EQ(long(r), want, "resource with " << log);
    Resource<std::string> rs(spec, std::to_string(dflt));
    CHECK_EQ(std::string(rs), std::to_string(want), "the same as a string");
    CHECK_EQ(long(r), want, "asked twice");
    // later changes do not matter for this one
    setenv(env.c_str(), "1", 1);
    CHECK_EQ(long(r), want, "asked after a change of the environment");
    unsetenv(env.c_str());
    (void)n;
    CHECK(chdir("/") == 0, "chdir");
}

// tables of lines of words
PBT(tables, 2) {
    std::string dir = g.freshDir();
    CHECK(chdir(dir.c_str()) == 0, "chdir");
    CHECK(system("mkdir -p etc") == 0, "mkdir");
    size_t n = g.size(8), width = 1 + g.idx(4);
    std::vector<std::vector<std::string>> want;
    std::string text;
    for (size_t i = 0; i < n; i++) {
        size_t w = g.chance(80) ? width : 1 + g.idx(5);
        std::vector<std::string> l;
        for (size_t k = 0; k < w; k++) l.push_back(g.chance(3) ? std::string(1500, 'x') : g.ident(5));
        bool comment = g.chance(10);
        text += comment ? "# " : "";
        for (size_t k = 0; k < w; k++) text += l[k] + std::string(1 + g.size(2), ' ');
        text += "\n";
        if (g.chance(10)) text += "\n";
        if (!comment && w == width) want.push_back(l);
    }
    std::ofstream("etc/tab") << text;
    g.note([&](std::ostream& o) { o << width << " words:\n" << text; });
    g.nontrivial(n > 1);
    EtcKeyTable t("tab", int(width), "etc");
    auto got = t.lines();
    CHECK_EQ(got.size(), want.size(), "lines of a table");
    for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "line " << i << " of a table");
    auto keys = t.keys();
    for (size_t i = 0; i < want.size(); i++) { CHECK_EQ(keys[i], want[i][0], "key"); size_t first = i; for (size_t k = 0; k < i; k++) if (want[k][0] == want[i][0]) { first = k; break; } CHECK(t.lookUp(want[i][0]) == want[first], "lookUp of " << want[i][0]); }
    CHECK(t.lookUp("-nothere-").empty(), "lookUp of what is not there");
    CHECK(chdir("/") == 0, "chdir");
}

// parameters: sets of properties, in scopes, one before the other
namespace {
struct PNode {
    int kind = 0;  // properties, scope, composite
    std::map<std::string, long> props;
    std::string scope;
    std::vector<PNode> below;
    bool get(const std::string& k, long& v) const {
        if (kind == 0) {
            auto i = props.find(k);
            if (i != props.end()) v = i->second;
            return i != props.end();
        }
        if (kind == 1) return k.compare(0, scope.size() + 1, scope + ".") == 0 && below[0].get(k.substr(scope.size() + 1), v);
        for (auto& b : below)
            if (b.get(k, v)) return true;
        return false;
    }
    void print(std::ostream& o) const {
        if (kind == 0)
            for (auto& p : props) o << p.first << "=" << p.second << " ";
        if (kind == 1) o << scope << ".";
        if (kind) o << "{";
        for (auto& b : below) b.print(o), o << ";";
        if (kind) o << "}";
    }
};

eckit::Properties properties(const PNode& n) {
    eckit::Properties p;
    for (auto& x : n.props) p.set(x.first, x.second);
    return p;
}

eckit::Params makeParams(pbt::Gen& g, PNode& n, size_t depth, const std::vector<std::string>& keys, const std::vector<std::string>& scopes) {
    n.kind = depth == 0 ? 0 : int(g.weighted({2, 3, 3}));
    if (n.kind == 0) {
        for (size_t i = g.idx(4); i--;) n.props[keys[g.idx(keys.size())]] = g.range(0, 1000);
        return eckit::Params(properties(n));
    }
    if (n.kind == 1) {
        n.scope = scopes[g.idx(scopes.size())];
        n.below.resize(1);
        return eckit::Params(eckit::ScopeParams(n.scope, makeParams(g, n.below[0], depth - 1, keys, scopes)));
    }
    eckit::CompositeParams c;
    if (g.chance(30)) {
        eckit::Params::List l;
        for (size_t i = g.idx(3); i--;) {
            n.below.emplace_back();
            l.push_back(makeParams(g, n.below.back(), depth - 1, keys, scopes));
        }
        c = eckit::CompositeParams(l);
    }
    for (size_t i = g.idx(4); i--;) {
        PNode b;
        eckit::Params p = makeParams(g, b, depth - 1, keys, scopes);
        if (g.boolean()) c.push_back(p), n.below.push_back(b);
        else c.push_front(p), n.below.insert(n.below.begin(), b);
    }
    return eckit::Params(c);
}
}  // namespace

PBT(parameters, 2) {
    static const std::vector<std::string> keys{"a", "b", "s.a", "s.b", "st.a", "s.s.a", "s.st.b"}, scopes{"s", "st", "a", "s.s"};
    static const std::vector<std::string> asked{"a",     "b",      "s.a",   "s.b",   "st.a", "s.s.a", "s.st.b", "s.s.s.a", "a.a", "a.b", "a.s.a", "st.st.a",
                                                "s.a.a", "st.s.a", "s",     "s.",    "",     "st",    "sta",    "s.s.b",   "x",   "s.s.st.a"};
    PNode n;
    eckit::Params p = makeParams(g, n, 1 + g.idx(3), keys, scopes);
    g.note([&](std::ostream& o) { n.print(o); });
    size_t found = 0;
    auto same = [&](const eckit::Params& q, const char* how) {
        for (auto& k : asked) {
            long v = 0;
            bool has = n.get(k, v);
            found += has;
            CHECK(q.has(k) == has, how << ": has(" << k << ")");
            if (has) CHECK(long(q[k]) == v, how << ": " << k << " is " << long(q[k]) << ", and not " << v);
            else if (g.chance(3)) CHECK(pbt::throws([&] { (void)q[k]; }), how << ": " << k << " has a value");
        }
    };
    same(p, "as made");
    PNode other;
    {
        eckit::Params q(p), r = makeParams(g, other, 1, keys, scopes);
        same(q, "a copy");
        r = q;
        q = r;
        same(r, "assigned");
        p = r;
    }
    same(p, "after the end of the copies");
    eckit::Buffer b(16);
    {
        ResizableMemoryStream s(b);
        s << p << std::string("behind");
    }
    MemoryStream in(b);
    eckit::Params q = eckit::Params::decode(in);
    std::string behind;
    in >> behind;
    CHECK(behind == "behind", "what follows in the stream is " << behind);
    same(q, "from a stream");
    std::ostringstream o1, o2;
    o1 << p;
    o2 << q;
    CHECK(o1.str() == o2.str(), "printed " << o1.str() << " and " << o2.str());

    // properties alone: a map
    PNode m;
    eckit::Properties x;
    size_t ops = 0;
    while (g.more(85) && ops < 30) {
        ++ops;
        const std::string& k = keys[g.idx(keys.size())];
        switch (g.idx(4)) {
            case 0: {
                long v = g.range(0, 9);
                x.set(k, v);
                m.props[k] = v;
                break;
            }
            case 1: CHECK(x.remove(k) == (m.props.erase(k) > 0), "remove(" << k << ")"); break;
            case 2: {
                PNode y;
                for (size_t i = g.idx(3); i--;) y.props[keys[g.idx(keys.size())]] = g.range(0, 9);
                x.set(properties(y));
                for (auto& e : y.props) m.props[e.first] = e.second;
                break;
            }
            default: {
                eckit::Value v = x;
                x = eckit::Properties(v);
            }
        }
        for (auto& k2 : keys) {
            auto i = m.props.find(k2);
            CHECK(x.has(k2) == (i != m.props.end()), "has(" << k2 << ")");
            CHECK(x.get(k2).isNil() == (i == m.props.end()), "get(" << k2 << ")");
            if (i != m.props.end()) CHECK(long(x.get(k2)) == i->second, "value of " << k2);
        }
        std::ostringstream j, e;
        {
            eckit::JSON s(j);
            s << x;
        }
        e << "{";
        for (auto& y : m.props) e << (e.str().size() > 1 ? "," : "") << "\"" << y.first << "\":" << y.second;
        e << "}";
        CHECK(j.str() == e.str(), "as JSON " << j.str());
    }
    g.nontrivial(found > 6 || ops > 5);
}
