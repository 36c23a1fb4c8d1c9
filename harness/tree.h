// A JSON-like tree: the reference model for Value, JSON, YAML and Configuration checks.
#pragma once
#include <cmath>
#include <string>
#include <utility>
#include <vector>
#include "eckit/value/Value.h"
#include "eckit/types/Date.h"
#include "eckit/types/Time.h"
#include "eckit/types/DateTime.h"
#include "pbt.h"

struct Tree {
    enum Kind { Nil, Bool, Int, Double, Str, List, Map, OMap, DateK, TimeK };
    Kind k = Nil;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::string s;
    std::vector<Tree> list;
    std::vector<std::pair<std::string, Tree>> map;   // insertion order, unique keys

    bool operator==(const Tree& o) const {
        if (k != o.k) return false;
        switch (k) {
            case Nil: return true;
            case Bool: return b == o.b;
            case Int: case DateK: case TimeK: return i == o.i;
            case Double: return d == o.d || (d != d && o.d != o.d);
            case Str: return s == o.s;
            case List: return list == o.list;
            case OMap: return map == o.map;
            case Map: {
                if (map.size() != o.map.size()) return false;
                auto x = sorted(), y = o.sorted();
                return x == y;
            }
        }
        return false;
    }
    std::vector<std::pair<std::string, Tree>> sorted() const {
        auto x = map;
        std::sort(x.begin(), x.end(), [](auto& p, auto& q) { return p.first < q.first; });
        return x;
    }
    const Tree* find(const std::string& key) const {
        for (auto& p : map) if (p.first == key) return &p.second;
        return nullptr;
    }
    size_t count() const {
        size_t n = 1;
        for (auto& t : list) n += t.count();
        for (auto& p : map) n += p.second.count();
        return n;
    }
    size_t depth() const {
        size_t n = 0;
        for (auto& t : list) n = std::max(n, t.depth());
        for (auto& p : map) n = std::max(n, p.second.depth());
        return n + 1;
    }
};

inline std::ostream& operator<<(std::ostream& o, const Tree& t) {
    switch (t.k) {
        case Tree::Nil: return o << "nil";
        case Tree::Bool: return o << (t.b ? "true" : "false");
        case Tree::Int: return o << t.i;
        case Tree::DateK: return o << "date#" << t.i;
        case Tree::TimeK: return o << "time#" << t.i;
        case Tree::Double: { auto p = o.precision(17); o << t.d << "d"; o.precision(p); return o; }
        case Tree::Str: return o << '"' << pbt::esc(t.s) << '"';
        case Tree::List: { o << '['; const char* c = ""; for (auto& x : t.list) { o << c << x; c = ", "; } return o << ']'; }
        case Tree::Map: case Tree::OMap: {
            o << (t.k == Tree::Map ? "{" : "{|"); const char* c = "";
            for (auto& x : t.map) { o << c << '"' << pbt::esc(x.first) << "\": " << x.second; c = ", "; } return o << (t.k == Tree::Map ? "}" : "|}");
        }
    }
    return o;
}

struct TreeOpts {
    bool nil = true, boolean = true, dbl = true, date = false, map = true, list = true, omap = false, utf8 = true, control = true;
    int depth = 4, width = 4;
    std::string alphabet;                      // restricts strings and keys if non-empty
    bool emptyKey = true;
    bool mergeKey = true;                      // "<<" may be a key
};

inline std::string genText(pbt::Gen& g, const TreeOpts& o, size_t maxlen = 12) {
    if (!o.alphabet.empty()) return g.str(maxlen, o.alphabet);
    std::string r;
    size_t n = g.size(maxlen);
    for (size_t i = 0; i < n; i++) {
        switch (g.weighted({10, 3, o.utf8 ? 2 : 0, o.control ? 2 : 0})) {
            case 0: r += char(g.range('a', 'z')); break;
            case 1: r += g.pick<std::string>({" ", "\"", "\\", "/", "0", "1", ".", "-", ":", ",", "{", "}", "[", "]", "#", "'", "_", "A", "Z", "%", "&", "=", "~", "$", "<", ">"}); break;
            case 2: r += g.pick<std::string>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xce\xb1", "\xdf\xbf", "\xef\xbf\xbd"}); break;
            case 3: r += g.pick<std::string>({"\n", "\t", "\r", "\b", "\f"}); break;
        }
    }
    return r;
}

inline double genNiceDouble(pbt::Gen& g) {
    switch (g.weighted({3, 3, 2})) {
        case 0: return double(g.range(-1000, 1000)) / 8.0 ;
        case 1: { double d = g.real(-1e6, 1e6); return d; }
        default: { double d = g.anyDouble(false); return d; }
    }
}

inline Tree genTree(pbt::Gen& g, const TreeOpts& o, int depth = 0) {
    Tree t;
    bool leaf = depth >= o.depth;
    switch (g.weighted({o.nil ? 1 : 0, o.boolean ? 2 : 0, 4, o.dbl ? 3 : 0, 4, !leaf && o.list ? 3 : 0, !leaf && o.map ? 4 : 0, !leaf && o.omap ? 3 : 0, o.date ? 1 : 0, o.date ? 1 : 0})) {
        case 0: break;
        case 1: t.k = Tree::Bool; t.b = g.boolean(); break;
        case 2: t.k = Tree::Int; t.i = g.integer(INT64_MIN + 1, INT64_MAX); break;
        case 3: t.k = Tree::Double; t.d = genNiceDouble(g); break;
        case 4: t.k = Tree::Str; t.s = genText(g, o); break;
        case 5: { t.k = Tree::List; size_t n = g.size(o.width); for (size_t i = 0; i < n; i++) t.list.push_back(genTree(g, o, depth + 1)); break; }
        case 6: case 7: {
            t.k = Tree::Map;
            size_t n = g.size(o.width);
            for (size_t i = 0; i < n; i++) {
                std::string key = g.chance(25) ? genText(g, o, 8) : g.ident(4);
                if (key.empty() && !o.emptyKey) continue;
                if (key == "<<" && !o.mergeKey) continue;
                if (t.find(key)) continue;
                t.map.emplace_back(key, genTree(g, o, depth + 1));
            }
            break;
        }
        case 8: t.k = Tree::DateK; t.i = g.integer(2299161, 2299161 + 800000); break;
        case 9: t.k = Tree::TimeK; t.i = g.range(0, 86399); break;
    }
    return t;
}
// maps built by the generator are plain maps; turns all or some of them into ordered maps
inline void orderMaps(Tree& t) {
    if (t.k == Tree::Map) t.k = Tree::OMap;
    for (auto& x : t.list) orderMaps(x);
    for (auto& x : t.map) orderMaps(x.second);
}

inline eckit::Value toValue(const Tree& t) {
    using eckit::Value;
    switch (t.k) {
        case Tree::Nil: return Value();
        case Tree::Bool: return Value(t.b);
        case Tree::Int: return Value(t.i);
        case Tree::Double: return Value(t.d);
        case Tree::Str: return Value(t.s);
        case Tree::DateK: return Value(eckit::Date(1900, 1, 1) + (long(t.i) - eckit::Date(1900, 1, 1).julian()));
        case Tree::TimeK: return Value(eckit::Time(long(t.i)));
        case Tree::List: { Value v = Value::makeList(); for (auto& x : t.list) v.append(toValue(x)); return v; }
        case Tree::Map: { Value v = Value::makeMap(); for (auto& x : t.map) v[x.first] = toValue(x.second); return v; }
        case Tree::OMap: { Value v = Value::makeOrderedMap(); for (auto& x : t.map) v[x.first] = toValue(x.second); return v; }
    }
    return Value();
}

// ordered: report the insertion order of ordered maps as OMap
inline Tree fromValue(const eckit::Value& v) {
    Tree t;
    if (v.isNil()) return t;
    if (v.isBool()) { t.k = Tree::Bool; t.b = v; return t; }
    if (v.isDouble()) { t.k = Tree::Double; t.d = v; return t; }
    if (v.isNumber()) { t.k = Tree::Int; t.i = v; return t; }
    if (v.isString()) { t.k = Tree::Str; t.s = std::string(v); return t; }
    if (v.isDate()) { t.k = Tree::DateK; eckit::Date d = v; t.i = d.julian(); return t; }
    if (v.isTime()) { t.k = Tree::TimeK; eckit::Time d = v; t.i = long(eckit::Second(d)); return t; }
    if (v.isList()) { t.k = Tree::List; for (size_t i = 0; i < v.size(); i++) t.list.push_back(fromValue(v[int(i)])); return t; }
    if (v.isMap() || v.isOrderedMap()) {
        t.k = v.isOrderedMap() ? Tree::OMap : Tree::Map;
        eckit::Value keys = v.keys();
        for (size_t i = 0; i < keys.size(); i++) { std::string k = keys[int(i)]; t.map.emplace_back(k, fromValue(v[k])); }
        return t;
    }
    pbt::fail("a value of type " + v.typeName() + " came back");
}
