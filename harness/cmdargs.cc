// C42: command lines: what options and arguments a tool sees.
#include "pbt.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/log/Log.h"
#include "eckit/option/CmdArgs.h"
#include "eckit/option/FactoryOption.h"
#include "eckit/option/MultiValueOption.h"
#include "eckit/option/Separator.h"
#include "eckit/option/SimpleOption.h"
#include "eckit/option/VectorOption.h"
#include "eckit/runtime/Main.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace pbt;
using namespace eckit;
using namespace eckit::option;

PBT_INIT { ::setenv("AUTO_LOAD_PLUGINS", "0", 1); }

namespace {

struct TheMain : Main {
    TheMain(int argc, char** argv) : Main(argc, argv, nullptr) {}
};

struct Fact {
    static void list(std::ostream& out) { out << "red, green"; }
};

enum Kind { FLAG, LONG, SIZE, REAL, TEXT, PATH, LONGS, REALS, TEXTS, MULTI, FACTORY, KINDS };

// the value of an option
struct Val {
    bool b = false;
    long l = 0;
    double d = 0;
    std::string s;
    std::vector<long> ls;
    std::vector<double> ds;
    std::vector<std::string> ss;
};

struct Opt {
    Kind kind;
    std::string name, help, sep = "/";
    size_t size = 0, mandatory = 0, optional = 0;
    bool hasDefault = false;
    Val def;
};

std::string numberText(Gen& g, bool real) {
    if (!real) return std::to_string(g.integer(-1000000000000LL, 1000000000000LL));
    static const std::vector<std::string> R = {"0", "1.5", "-2.25", "1e10", "-0.125", "1234567.5", "3e-3", "1e-300", "7"};
    return g.pick(R);
}

std::string text(Gen& g, const std::string& without = "") {
    std::string t = g.str(6, "ab-=/,:. 1*");
    std::string r;
    for (char c : t) if (without.find(c) == std::string::npos) r += c;
    return r;
}

std::string join(const std::vector<std::string>& v, char sep) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) r += (i ? std::string(1, sep) : "") + v[i];
    return r;
}

// a text for the value of an option with one text
std::string valueText(Gen& g, const Opt& o) {
    switch (o.kind) {
        case FLAG: {
            static const std::vector<std::string> B = {"yes", "no", "on", "off", "true", "false", "1", "0", "True", "OFF", "Yes", "2"};
            return g.pick(B);
        }
        case LONG: return numberText(g, false);
        case SIZE: return std::to_string(g.integer(0, 1000000000000LL));
        case REAL: return numberText(g, true);
        case LONGS:
        case REALS:
        case TEXTS: {
            size_t n = o.size && !g.chance(10) ? o.size : g.idx(5);
            std::vector<std::string> v;
            for (size_t i = 0; i < n; ++i) {
                std::string t = o.kind == TEXTS ? text(g, o.sep) : numberText(g, o.kind == REALS);
                if (t.empty()) t = "x";
                v.push_back(t);
            }
            return join(v, o.sep[0]);
        }
        default: return text(g);
    }
}

std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> v;
    std::string cur;
    for (char c : s + sep) {
        if (c == sep) {
            if (!cur.empty()) v.push_back(cur);
            cur.clear();
        }
        else cur += c;
    }
    return v;
}

bool number(const std::string& s, double& d) {
    if (s.empty() || s[0] == ' ') return false;
    char* e;
    d = strtod(s.c_str(), &e);
    return !*e;
}

bool wholeNumber(const std::string& s) {
    size_t i = !s.empty() && s[0] == '-';
    if (i == s.size()) return false;
    for (; i < s.size(); ++i) if (!isdigit(s[i])) return false;
    return s.size() < 18;
}

// The model: the value of a text. 0: refused, 1: good, -1: not said
int read(const Opt& o, const std::string& t, Val& v) {
    switch (o.kind) {
        case FLAG: {
            std::string l;
            for (char c : t) l += char(tolower(c));
            static const std::set<std::string> yes = {"yes", "on", "true", "1", "2"}, no = {"no", "off", "false", "0"};
            if (!yes.count(l) && !no.count(l)) return -1;
            v.b = yes.count(l);
            return 1;
        }
        case LONG:
        case SIZE:
            if (!wholeNumber(t) || (o.kind == SIZE && t[0] == '-')) return -1;
            v.l = std::stol(t);
            return 1;
        case REAL: return number(t, v.d);
        case LONGS:
            v.ls.clear();
            for (const auto& x : split(t, o.sep[0])) {
                if (!wholeNumber(x)) return -1;
                v.ls.push_back(std::stol(x));
            }
            return !o.size || v.ls.size() == o.size;
        case REALS: {
            v.ds.clear();
            for (const auto& x : split(t, o.sep[0])) {
                double d;
                if (!number(x, d)) return 0;
                v.ds.push_back(d);
            }
            return !o.size || v.ds.size() == o.size;
        }
        case TEXTS:
            v.ss = split(t, o.sep[0]);
            return !o.size || v.ss.size() == o.size;
        case PATH:
            if (t.empty() || t.find(':') != std::string::npos) return -1;  // a scheme
            v.s = PathName(t).asString();
            return 1;
        default: v.s = t; return 1;
    }
}

Option* make(const Opt& o) {
    const auto& n = o.name;
    const auto& h = o.help;
    const auto& d = o.def;
    bool x        = o.hasDefault;
    switch (o.kind) {
        case FLAG: return x ? new SimpleOption<bool>(n, h, d.b) : new SimpleOption<bool>(n, h);
        case LONG: return x ? new SimpleOption<long>(n, h, d.l) : new SimpleOption<long>(n, h);
        case SIZE: return x ? new SimpleOption<size_t>(n, h, size_t(d.l)) : new SimpleOption<size_t>(n, h);
        case REAL: return x ? new SimpleOption<double>(n, h, d.d) : new SimpleOption<double>(n, h);
        case TEXT: return x ? new SimpleOption<std::string>(n, h, d.s) : new SimpleOption<std::string>(n, h);
        case PATH: return x ? new SimpleOption<PathName>(n, h, PathName(d.s)) : new SimpleOption<PathName>(n, h);
        case LONGS: return x ? new VectorOption<long>(n, h, o.size, d.ls, o.sep.c_str()) : new VectorOption<long>(n, h, o.size, o.sep.c_str());
        case REALS: return x ? new VectorOption<double>(n, h, o.size, d.ds, o.sep.c_str()) : new VectorOption<double>(n, h, o.size, o.sep.c_str());
        case TEXTS: return x ? new VectorOption<std::string>(n, h, o.size, d.ss, o.sep.c_str()) : new VectorOption<std::string>(n, h, o.size, o.sep.c_str());
        case MULTI: return x ? new MultiValueOption(n, h, o.mandatory, o.optional, d.ss) : new MultiValueOption(n, h, o.mandatory, o.optional);
        default: return x ? new FactoryOption<Fact>(n, h, d.s) : new FactoryOption<Fact>(n, h);
    }
}

void compare(const Configuration& c, const Opt& o, const std::map<std::string, Val>& want, const std::string& what) {
    auto w        = want.find(o.name);
    std::string t = what + ", option " + o.name;
    CHECK(c.has(o.name) == (w != want.end()), t << " is " << (c.has(o.name) ? "" : "not ") << "there");
    if (w == want.end()) return;
    const Val& v = w->second;
    switch (o.kind) {
        case FLAG: CHECK_EQ(c.getBool(o.name), v.b, t); break;
        case LONG: CHECK_EQ(c.getLong(o.name), v.l, t); break;
        case SIZE: CHECK_EQ(c.getUnsigned(o.name), size_t(v.l), t); break;
        case REAL: CHECK_EQ(c.getDouble(o.name), v.d, t); break;
        case LONGS: CHECK(c.getLongVector(o.name) == v.ls, t << ": other integers"); break;
        case REALS: CHECK(c.getDoubleVector(o.name) == v.ds, t << ": other numbers"); break;
        case TEXTS:
        case MULTI: {
            auto got = c.getStringVector(o.name);
            CHECK(got == v.ss, t << ": " << esc(join(got, '|')) << ", not " << esc(join(v.ss, '|')));
            break;
        }
        default: CHECK_EQ(c.getString(o.name), v.s, t);
    }
}

}  // namespace

PBT(line, 1) {
    static const std::vector<std::string> names = {"a", "b", "width", "wid", "x-y", "level", "q.r", "q.s", "a1", "no-a", "out_dir"};
    std::vector<Opt> opts;
    std::set<std::string> used;
    for (size_t n = g.idx(6); n > 0; --n) {
        Opt o;
        o.name = g.pick(names);
        if (!used.insert(o.name).second) continue;
        o.help = "help for " + o.name;
        o.kind = Kind(g.idx(KINDS));
        if (o.kind >= LONGS && o.kind <= TEXTS) {
            o.sep  = g.pick(std::vector<std::string>{"/", ",", ":"});
            o.size = g.chance(50) ? g.idx(3) + 1 : 0;
        }
        if (o.kind == MULTI) o.mandatory = g.idx(3) + 1, o.optional = g.idx(4);
        if (g.chance(35)) {
            o.hasDefault = true;
            if (o.kind == MULTI) {
                for (size_t i = 0; i < o.mandatory; ++i) o.def.ss.push_back(text(g));
            }
            else if (read(o, valueText(g, o), o.def) != 1) o.hasDefault = false;
        }
        opts.push_back(o);
    }
    // the command line
    std::vector<std::string> argv = {g.pick(std::vector<std::string>{"exe", "/usr/bin/tool", "./some-tool", "dir/tool.x"})};
    for (size_t n = g.idx(9); n > 0; --n) {
        int w = g.weighted({5, 4, 1});
        if (w == 0 && !opts.empty()) {
            const Opt& o = opts[g.idx(opts.size())];
            if (o.kind == MULTI) {
                size_t k = g.chance(90) ? o.mandatory + g.idx(o.optional + 1) : g.idx(3);
                bool eq  = g.boolean() && k;
                for (size_t i = 0; i < k; ++i) {
                    std::string t = text(g);
                    if (i == 0 && eq) argv.push_back("--" + o.name + "=" + t);
                    else {
                        if (i == 0) argv.push_back("--" + o.name);
                        argv.push_back(t);
                    }
                }
                if (!k) argv.push_back("--" + o.name);
            }
            else if (o.kind == FLAG ? g.boolean() : g.chance(3)) argv.push_back("--" + o.name);
            else if (o.kind == FLAG || g.chance(60)) argv.push_back("--" + o.name + "=" + valueText(g, o));
            else argv.push_back("--" + o.name), argv.push_back(valueText(g, o));
        }
        else if (w == 1 || opts.empty()) argv.push_back(text(g));
        else if (g.chance(30)) argv.push_back(g.pick(std::vector<std::string>{"--none", "--", "--none=1", "--=", "--aa", "--wi=3"}));
        else argv.push_back(g.pick(std::vector<std::string>{"-a", "-", "a=b", "=", "-1", "-x=2"}));
    }
    // what it means
    std::map<std::string, Val> want;
    std::vector<std::string> args;
    bool error = false, open = false;
    for (const auto& o : opts) if (o.hasDefault) want[o.name] = o.def;
    for (size_t i = 1; i < argv.size();) {
        std::string a = argv[i++];
        if (a.compare(0, 2, "--") != 0) {
            args.push_back(a);
            continue;
        }
        a          = a.substr(2);
        size_t eq  = a.find('=');
        auto name  = a.substr(0, eq);
        const Opt* o = nullptr;
        for (const auto& x : opts) if (x.name == name) o = &x;
        if (!o) {
            error = true;
            continue;
        }
        Val v;
        if (o->kind == FLAG && eq == std::string::npos) {
            v.b        = true;
            want[name] = v;
            continue;
        }
        std::vector<std::string> rest;
        if (eq != std::string::npos) rest.push_back(a.substr(eq + 1));
        size_t own = rest.size();
        rest.insert(rest.end(), argv.begin() + long(i), argv.end());
        if (o->kind == MULTI) {
            if (rest.size() < o->mandatory) {
                error = true;
                continue;
            }
            size_t k = 0;
            for (; k < o->mandatory; ++k) v.ss.push_back(rest[k]);
            for (; k < o->mandatory + o->optional && k < rest.size() && rest[k].compare(0, 2, "--") != 0; ++k) v.ss.push_back(rest[k]);
            i += k - own;
            want[name] = v;
            continue;
        }
        if (rest.empty()) {
            error = true;
            continue;
        }
        int r = read(*o, rest[0], v);
        if (r < 0) open = true;
        if (r == 0) error = true;
        if (r == 1) want[name] = v;
        if (r != 0) i += 1 - own;
    }
    int count = -1, minimum = 0;
    if (g.chance(30)) count = int(g.chance(70) ? args.size() : g.idx(6));
    if (g.chance(30)) minimum = int(g.chance(70) ? g.idx(args.size() + 1) : g.idx(6));
    bool counted = (count >= 0 && args.size() != size_t(count)) || (minimum >= 0 && args.size() < size_t(minimum));
    if (counted) error = true;
    g.note([&](std::ostream& o) {
        for (const auto& x : opts) o << "option " << x.name << " kind " << x.kind << " size " << x.size << " values " << x.mandatory << "+" << x.optional << " sep " << x.sep << (x.hasDefault ? " default" : "") << "\n";
        for (const auto& x : argv) o << " " << esc(x);
        o << "\ncount " << count << " minimum " << minimum;
    });
    g.label(error ? "refused" : "accepted");
    if (open) discard();
    g.nontrivial(!error && want.size() > 1 && argv.size() > 3);

    std::vector<char*> av;
    for (auto& x : argv) av.push_back(x.data());
    TheMain main(int(av.size()), av.data());
    std::ostringstream log;
    Log::info().setStream(log);
    struct Restore { ~Restore() { Log::info().reset(); } } restore;

    std::vector<Option*> os;
    bool heading = g.boolean();
    for (size_t i = 0; i < opts.size(); ++i) {
        if (heading && i == opts.size() / 2) os.push_back(new Separator("a heading"));
        os.push_back(make(opts[i]));
    }
    std::string tool = argv[0].substr(argv[0].rfind('/') + 1);
    tool             = tool.substr(0, tool.find('.'));
    int usages = 0;
    std::string usageName;
    std::function<void(const std::string&)> usage = [&](const std::string& n) { ++usages, usageName = n; };
    std::unique_ptr<CmdArgs> c;
    std::string ex;
    try {
        c.reset(new CmdArgs(usage, os, count, minimum, true));
    }
    catch (Exception& e) {
        ex = std::string("refused: ") + e.what();
    }
    CHECK(ex.empty() == !error, (error ? "accepted" : "refused") << " " << ex << log.str());
    if (error) {
        // an error of a number (BadParameter) ends it at once; otherwise the usage is shown
        if (usages) {
            CHECK_EQ(usages, 1, "times that the usage is shown");
            CHECK_EQ(usageName, tool, "name of the tool for the usage");
            for (const auto& o : opts) CHECK(log.str().find("--" + o.name) != std::string::npos && log.str().find(o.help) != std::string::npos, "no description of " << o.name << " in " << log.str());
        }
        return;
    }
    CHECK_EQ(usages, 0, "usage shown without need");
    CHECK_EQ(c->tool(), tool, "tool");
    CHECK_EQ(c->count(), args.size(), "number of arguments");
    for (size_t i = 0; i < args.size(); ++i) CHECK_EQ((*c)(i), args[i], "argument " << i);
    CHECK(std::vector<std::string>(c->begin(), c->end()) == args, "arguments by iterator");
    CHECK(throws([&] { (*c)(args.size()); }), "an argument after the last");
    LocalConfiguration copy;
    c->configure(copy);
    for (const auto& o : opts) compare(*c, o, want, "command line"), compare(copy, o, want, "configured from the command line");
    std::set<std::string> keys;
    for (const auto& w : want) keys.insert(w.first.substr(0, w.first.find('.')));
    auto k = copy.keys();
    CHECK(std::set<std::string>(k.begin(), k.end()) == keys, "keys of the configuration: " << join(k, ' '));
}
