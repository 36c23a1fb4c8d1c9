// C06: YAML text in all the notations the parser knows reads as the value it denotes; nothing makes it crash
#include <fstream>
#include <functional>
#include <set>
#include <sstream>
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/parser/YAMLParser.h"
#include "eckit/runtime/Main.h"
#include "refjson.h"

using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

static const std::set<std::string> words = {"null", "Null", "NULL", "no", "on", "off", "yes", "true", "True", "TRUE", "false", "False", "FALSE", "nan", "inf", "infinity", "NaN", "Inf"};

struct Yaml {
    pbt::Gen& g;
    std::string out;
    std::vector<std::pair<std::string, Tree>> anchors;
    bool decorate;

    static bool plainOk(const std::string& s) {
        if (s.empty() || !isalpha((unsigned char)s[0]) || s.back() == ' ' || words.count(s)) return false;
        for (size_t i = 0; i < s.size(); i++) { unsigned char c = (unsigned char)s[i]; if (!(isalnum(c) || c == '_' || c == '-' || c == '/' || c == '.' || c >= 0x80 || (c == ' ' && s[i - 1] != ' '))) return false; }
        return true;
    }
    std::string str(const std::string& s, bool key) {
        if (plainOk(s) && g.chance(70)) return s;
        if (g.chance(30) && s.find_first_of("\n\r\\") == std::string::npos) {
            std::string r = "'";
            for (char c : s) { r += c; if (c == '\'') r += c; }
            return r + "'";
        }
        JsonText j{g, true};
        (void)key;
        return j.str(s);
    }
    std::string scalar(const Tree& t) {
        switch (t.k) {
            case Tree::Nil: return g.pick<std::string>({"null", "~", "Null", "NULL"});
            case Tree::Bool: return t.b ? g.pick<std::string>({"true", "True", "TRUE", "yes", "on"}) : g.pick<std::string>({"false", "False", "FALSE", "no", "off"});
            case Tree::Int: {
                if (t.i >= 0 && g.chance(15)) { char b[40]; snprintf(b, sizeof b, g.boolean() ? "0x%llx" : "0x%llX", t.i); return b; }
                if (t.i >= 0 && g.chance(10)) { char b[40]; snprintf(b, sizeof b, "0o%llo", t.i); return b; }
                std::string s = std::to_string(t.i);
                if (t.i >= 0 && g.chance(8)) s = "+" + s;
                if (s.size() > 4 && g.chance(10)) s.insert(s.size() - 3, "_");
                return s;
            }
            case Tree::Double: { JsonText j{g, true}; return j.num(t.d); }
            default: return str(t.s, false);
        }
    }
    // on one line, in brackets
    std::string flow(const Tree& t) {
        if (t.k == Tree::List) {
            std::string r = "[";
            const char* c = "";
            for (auto& x : t.list) { r += c + sp() + flow(x) + sp(); c = ","; }
            return r + "]";
        }
        if (t.k == Tree::OMap) {
            std::string r = "{";
            const char* c = "";
            JsonText j{g, true};
            for (auto& x : t.map) { r += c + sp() + j.str(x.first) + sp() + ":" + sp() + flow(x.second) + sp(); c = ","; }
            return r + "}";
        }
        JsonText j{g, true};
        switch (t.k) {
            case Tree::Nil: return "null";
            case Tree::Bool: return t.b ? "true" : "false";
            case Tree::Int: return std::to_string(t.i);
            case Tree::Double: return j.num(t.d);
            default: return j.str(t.s);
        }
    }
    std::string sp() { return g.chance(70) ? "" : g.chance(70) ? " " : "\n    "; }
    std::string eol() {
        std::string r;
        if (decorate && g.chance(15)) r += g.pick<std::string>({"   ", "\t# tab", " # a comment: with 'things' [in it", "\t"});
        r += "\n";
        if (decorate && g.chance(10)) r += g.pick<std::string>({"\n", "   \n", "# comment\n", "      # another - one\n"});
        return r;
    }
    // after "key:" or "-", whose text starts at column `col`; a block goes to columns > col (>= for lists in maps)
    void value(const Tree& t, size_t col, bool inMap, const std::string& lead) {
        bool container = t.k == Tree::List || t.k == Tree::OMap;
        bool empty = container && t.list.empty() && t.map.empty();
        if (!inMap || true) {
            for (auto& a : anchors) if (a.second == t && g.chance(30)) { out += lead + "*" + a.first + eol(); return; }
        }
        std::string anchor;
        if (decorate && g.chance(6) && !(container && !empty)) { if (!anchors.empty() && g.chance(40)) { auto& a = anchors[g.idx(anchors.size())]; anchor = a.first; a.second = t; } else { anchor = "a" + std::to_string(anchors.size()); anchors.emplace_back(anchor, t); } out += lead + "&" + anchor + " " + (empty ? flow(t) : t.k == Tree::Str ? JsonText{g, true}.str(t.s) : scalar(t)) + eol(); return; }
        if (!container) {
            if (t.k == Tree::Nil && g.chance(30)) { out += eol(); return; }
            if (t.k == Tree::Str && inMap && literal(t.s, col)) return;
            out += lead + scalar(t) + eol();
            return;
        }
        if (empty || g.chance(20)) { out += lead + flow(t) + eol(); return; }
        if (t.k == Tree::List && inMap) {
            size_t c = g.chance(40) ? col : col + 1 + g.idx(3);
            out += eol();
            block(t, c, false);
        }
        else if (inMap || g.chance(30)) {
            out += eol();
            block(t, col + (inMap ? 1 : 2) + g.idx(3), false);  // the parser wants two columns more than a dash
        }
        else {  // compact: on the line of the "-"
            size_t pad = 1 + g.idx(3);
            out += std::string(pad, ' ');
            block(t, col + 1 + pad, true);
        }
    }
    bool literal(const std::string& s, size_t col) {
        if (s.empty() || !g.chance(50)) return false;
        std::vector<std::string> lines;
        std::istringstream in(s);
        std::string l;
        while (std::getline(in, l)) lines.push_back(l);
        if (s.find('\n') == std::string::npos || s.back() != '\n') return false;
        for (auto& x : lines) if (!plainOk(x)) return false;
        out += " |\n";
        size_t c = col + 1 + g.idx(3);
        for (auto& x : lines) out += std::string(c, ' ') + x + "\n";
        return true;
    }
    void block(const Tree& t, size_t col, bool first) {
        if (t.k == Tree::List)
            for (auto& x : t.list) { if (!first) out += std::string(col, ' '); first = false; out += "-"; value(x, col, false, " "); }
        else
            for (auto& x : t.map) { if (!first) out += std::string(col, ' '); first = false; std::string key = str(x.first, true); out += key + (isalpha((unsigned char)key[0]) && g.chance(5) && decorate ? " :" : ":"); value(x.second, col, true, g.chance(10) ? "   " : " "); }
    }
};

static void numbers(Tree&) {}

PBT(parse, 10) {
    TreeOpts o;
    o.mergeKey = false;
    o.depth = 4;
    Tree t = genTree(g, o);
    orderMaps(t);
    // some strings of several lines
    std::function<void(Tree&)> lines = [&](Tree& x) {
        if (x.k == Tree::Str && g.chance(15)) { x.s.clear(); size_t n = 1 + g.size(3); for (size_t i = 0; i < n; i++) x.s += g.ident(8) + "\n"; }
        for (auto& c : x.list) lines(c);
        for (auto& c : x.map) lines(c.second);
    };
    lines(t);
    numbers(t);
    Yaml y{g, "", {}, g.chance(60)};
    if (y.decorate && g.chance(30)) y.out += g.pick<std::string>({"---\n", "# head\n", "\n", "---\n# x\n"});
    if ((t.k == Tree::List && !t.list.empty()) || (t.k == Tree::OMap && !t.map.empty())) { if (g.chance(90)) y.block(t, g.chance(10) ? 2 : 0, false); else y.out += y.flow(t) + "\n"; }
    else if (t.k == Tree::List || t.k == Tree::OMap) y.out += y.flow(t) + "\n";
    else y.out += y.scalar(t) + y.eol();
    if (y.out.find(" |\n") == std::string::npos && g.chance(20)) while (!y.out.empty() && y.out.back() == '\n') y.out.pop_back();
    g.note([&](std::ostream& s) { s << t << " as\n" << y.out; });
    g.nontrivial(t.count() > 2);
    Value v;
    try { v = YAMLParser::decodeString(y.out); }
    catch (eckit::Exception& e) { pbt::fail(std::string("refused: ") + e.what()); }
    Tree got = fromValue(v);
    CHECK(got == t, "parsed as " << got << " instead of " << t);
}

// JSON is YAML
PBT(json, 5) {
    TreeOpts o;
    o.mergeKey = false;
    o.depth = 5;
    Tree t = genTree(g, o);
    orderMaps(t);
    JsonText j{g, g.chance(70)};
    std::string text = j.text(t);
    g.note([&](std::ostream& s) { s << pbt::esc(text); });
    g.nontrivial(t.count() > 2);
    Tree got = fromValue(YAMLParser::decodeString(text));
    CHECK(got == t, "parsed as " << got << " instead of " << t);
}

// several documents
PBT(documents, 2) {
    TreeOpts o;
    o.mergeKey = false;
    o.depth = 2;
    size_t n = 2 + g.size(3);
    Tree all;
    all.k = Tree::List;
    std::string text;
    for (size_t i = 0; i < n; i++) {
        Tree t = genTree(g, o);
        orderMaps(t);
        Yaml y{g, "", {}, false};
        if (i || g.boolean()) y.out += "---\n";
        if ((t.k == Tree::List && !t.list.empty()) || (t.k == Tree::OMap && !t.map.empty())) y.block(t, 0, false); else y.out += y.flow(t) + "\n";
        text += y.out;
        all.list.push_back(t);
    }
    (void)all;
    g.note([&](std::ostream& s) { s << text; });
    g.nontrivial();
    try { Value v = YAMLParser::decodeString(text); (void)v; }
    catch (eckit::Exception&) {}
}

// merges of maps: << takes what the anchor has, keys given later win
PBT(merge, 2) {
    g.nontrivial();
    size_t n = 1 + g.size(4), m = g.size(4);
    std::map<std::string, int> base, all;
    std::string text = "base: &b {";
    for (size_t i = 0; i < n; i++) { std::string k(1, char('a' + g.idx(6))); if (base.count(k)) continue; base[k] = int(g.range(0, 99)); text += (base.size() > 1 ? ", " : "") + ("\"" + k + "\": ") + std::to_string(base[k]); }
    text += "}\nother:\n  <<: *b\n";
    all = base;
    std::set<std::string> done;
    for (size_t i = 0; i < m; i++) { std::string k(1, char('a' + g.idx(8))); if (!done.insert(k).second) continue; all[k] = int(g.range(100, 199)); text += "  " + k + ": " + std::to_string(all[k]) + "\n"; }
    g.note([&](std::ostream& s) { s << text; });
    Value v = YAMLParser::decodeString(text);
    Value other = v["other"], b = v["base"];
    CHECK_EQ(size_t(other.keys().size()), all.size(), "number of keys merged");
    for (auto& p : all) CHECK_EQ(int(other[p.first]), p.second, "value of " << p.first);
    for (auto& p : base) CHECK_EQ(int(b[p.first]), p.second, "the map merged from");
}

// block scalars
PBT(blocks, 3) {
    size_t n = 1 + g.size(5);
    size_t ind = 1 + g.idx(4);
    std::string text = "x: |\n", want;
    for (size_t i = 0; i < n; i++) {
        std::string l = g.ident(6);
        size_t extra = i && g.chance(30) ? 1 + g.idx(4) : 0;
        size_t words = g.size(3);
        for (size_t k = 0; k < words; k++) l += " " + g.ident(5);
        text += std::string(ind + extra, ' ') + l + "\n";
        want += std::string(extra, ' ') + l + "\n";
    }
    bool more = g.boolean();
    if (more) text += "y: 1\n";
    g.note([&](std::ostream& s) { s << text; });
    g.nontrivial(n > 1);
    Value v = YAMLParser::decodeString(text);
    CHECK_EQ(std::string(v["x"]), want, "literal block");
    if (more) CHECK_EQ(int(v["y"]), 1, "what follows the block");
}

PBT(special_numbers, 1) {
    g.nontrivial();
    std::string s = g.pick<std::string>({".inf", "-.inf", "+.inf", ".Inf", ".INF", ".nan", ".NaN", ".NAN", ".5", "5.", "+.5", "1e3", "1E-3", "-1.5e+10", "1_000", "0x1F", "0o17", "1_0.5"});
    double want;
    if (s.find("in") != s.npos || s.find("In") != s.npos || s.find("IN") != s.npos) want = s[0] == '-' ? -INFINITY : INFINITY;
    else if (s.find('n') != s.npos || s.find('N') != s.npos) want = NAN;
    else if (s == "0x1F") want = 31; else if (s == "0o17") want = 15; else if (s == "1_000") want = 1000; else if (s == "1_0.5") want = 10.5;
    else want = strtod(s.c_str(), nullptr);
    g.note([&](std::ostream& o) { o << s; });
    Value v = YAMLParser::decodeString("x: " + s + "\n");
    CHECK(v["x"].isNumber() || v["x"].isDouble(), s << " is a number, got " << v["x"].typeName());
    double d = v["x"];
    CHECK(d == want || (d != d && want != want), s << " read as " << d);
}

PBT(garbage, 4) {
    std::string text;
    if (g.boolean()) {
        TreeOpts o;
    o.mergeKey = false;
        o.depth = 2;
        Tree t = genTree(g, o);
        orderMaps(t);
        Yaml y{g, "", {}, true};
        if ((t.k == Tree::List && !t.list.empty()) || (t.k == Tree::OMap && !t.map.empty())) y.block(t, 0, false); else y.out += y.flow(t) + "\n";
        text = y.out;
        size_t n = 1 + g.size(3);
        for (size_t i = 0; i < n; i++) {
            size_t at = g.idx(text.size() + 1);
            switch (g.idx(3)) {
                case 0: if (at < text.size()) text.erase(at, 1 + g.size(3)); break;
                case 1: text.insert(at, g.pick<std::string>({"{", "}", "[", "]", ",", ":", ": ", "\"", "\\", "- ", "-", "?", "|", ">", "&", "*", "'", " ", "\n", "#", "<<: ", "---", "...", "---\n", "--- ", "...\n", "- - ", "\n---\n"})); break;
                case 2: text.resize(at); break;
            }
        }
    }
    else text = g.str(60, "abc:-  \n\n[]{},\"'#|>&*0123.~\\");
    g.note([&](std::ostream& s) { s << pbt::esc(text); });
    g.nontrivial(text.size() > 2);
    try { Value v = YAMLParser::decodeString(text); std::ostringstream o; o << v; }
    catch (eckit::Exception&) {}
}
