// C05: JSON text and values: everything written is JSON and reads back as the same value; what is not JSON is refused
#include <sstream>
#include <set>
#include <sys/time.h>
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/log/JSON.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/runtime/Main.h"
#include "eckit/config/LocalConfiguration.h"
#include "refjson.h"
#include <fstream>

using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

static bool isNum(const Tree& t) { return t.k == Tree::Int || t.k == Tree::Double; }
// writing a double may give the text of an integer; numbers are compared by value
static bool same(const Tree& a, const Tree& b) {
    if (isNum(a) && isNum(b)) {
        if (a.k == b.k) return a == b;
        const Tree& d = a.k == Tree::Double ? a : b; const Tree& i = a.k == Tree::Double ? b : a;
        return d.d == double(i.i);
    }
    if (a.k != b.k) return false;
    if (a.k == Tree::List) { if (a.list.size() != b.list.size()) return false; for (size_t i = 0; i < a.list.size(); i++) if (!same(a.list[i], b.list[i])) return false; return true; }
    if (a.k == Tree::OMap) { if (a.map.size() != b.map.size()) return false; for (size_t i = 0; i < a.map.size(); i++) if (a.map[i].first != b.map[i].first || !same(a.map[i].second, b.map[i].second)) return false; return true; }
    return a == b;
}
static Tree readBack(const std::string& text) {
    Tree r;
    RefJson ref(text);
    CHECK(ref.parse(r), "what was written is not JSON (" << ref.err << "): " << pbt::esc(text));
    return r;
}

PBT(parse, 10) {
    TreeOpts o;
    o.depth = 5;
    Tree t = genTree(g, o);
    orderMaps(t);
    JsonText j{g, g.boolean()};
    std::string text = j.text(t);
    g.note([&](std::ostream& s) { s << pbt::esc(text); });
    g.nontrivial(t.count() > 2);
    Tree ref;
    RefJson rp(text);
    CHECK(rp.parse(ref) && ref == t, "the harness disagrees with itself about " << pbt::esc(text) << " " << rp.err);
    Value v;
    if (g.chance(10)) { std::string f = g.freshDir() + "/j"; std::ofstream(f, std::ios::binary) << text; v = JSONParser::decodeFile(f); }
    else if (g.boolean()) { std::istringstream in(text); v = JSONParser(in).parse(); }
    else v = JSONParser::decodeString(text);
    Tree got = fromValue(v);
    CHECK(got == t, "parsed as " << got << " instead of " << t);
}

static void write(JSON& j, const Tree& t, pbt::Gen& g) {
    switch (t.k) {
        case Tree::Nil: j.null(); break;
        case Tree::Bool: j << t.b; break;
        case Tree::Int:
            if (t.i >= INT32_MIN && t.i <= INT32_MAX && g.boolean()) j << int(t.i);
            else if (t.i >= 0 && t.i <= UINT32_MAX && g.boolean()) j << unsigned(t.i);
            else if (t.i >= 0 && g.boolean()) j << (unsigned long long)t.i;
            else if (t.i >= 0 && g.boolean()) j << (unsigned long)t.i;
            else if (g.boolean()) j << long(t.i);
            else j << t.i;
            break;
        case Tree::Double: if (double(float(t.d)) == t.d && g.boolean()) j << float(t.d); else j << t.d; break;
        case Tree::Str:
            if (t.s.size() == 1 && g.boolean()) { if (g.boolean()) j << t.s[0]; else j << (unsigned char)t.s[0]; }
            else if (t.s.find('\0') == std::string::npos && g.boolean()) j << t.s.c_str();
            else j << t.s;
            break;
        case Tree::List: {
            bool ints = !t.list.empty(), strs = !t.list.empty();
            for (auto& x : t.list) { ints &= x.k == Tree::Int; strs &= x.k == Tree::Str; }
            if (ints && g.boolean()) { std::vector<long long> v; for (auto& x : t.list) v.push_back(x.i); j << v; break; }
            if (strs && g.boolean()) { std::vector<std::string> v; for (auto& x : t.list) v.push_back(x.s); j << v; break; }
            j.startList(); for (auto& x : t.list) write(j, x, g); j.endList();
            break;
        }
        default: j.startObject(); for (auto& x : t.map) { j << x.first; write(j, x.second, g); } j.endObject(); break;
    }
}

PBT(writer, 6) {
    TreeOpts o;
    o.depth = 5;
    Tree t = genTree(g, o);
    if (g.chance(8)) { t.k = Tree::Str; t.s = std::string(1, char(g.range(0, 127))); }
    if (g.chance(5)) { Tree u; u.k = Tree::Str; u.s = g.str(6, std::string("ab\0\x01\x1f\x7f\"\\", 8)); t = u; }
    orderMaps(t);
    std::ostringstream out;
    int flags = int(g.pick({0, 0, int(JSON::Formatting::INDENT_DICT), int(JSON::Formatting::INDENT_LIST), int(JSON::Formatting::INDENT_ALL)}));
    int indent = int(g.range(0, 8));
    {
        JSON j(out, JSON::Formatting(flags, indent));
        j.precision(17);
        write(j, t, g);
    }
    g.note([&](std::ostream& s) { s << t << " formatted " << flags << "/" << indent; });
    g.nontrivial(t.count() > 2);
    Tree r = readBack(out.str());
    CHECK(same(r, t), "written as " << pbt::esc(out.str()) << " which is " << r);
    Tree e = fromValue(JSONParser::decodeString(out.str()));
    CHECK(same(e, t), "read back from " << pbt::esc(out.str()) << " as " << e);
    // the layout changes white space only
    if (flags) {
        std::string a;
        bool in = false;
        for (size_t i = 0; i < out.str().size(); i++) { char c = out.str()[i]; if (in && c == '\\') { a += c; a += out.str()[++i]; continue; } if (c == '"') in = !in; if (in || (c != ' ' && c != '\n')) a += c; }
        CHECK(same(readBack(a), t), "without white space: " << pbt::esc(a));
    }
}

PBT(empty_writer, 1) {
    g.nontrivial();
    std::ostringstream out;
    { JSON j(out); }
    CHECK_EQ(out.str(), std::string("null"), "nothing written");
    // several documents into the same stream
    std::ostringstream two;
    bool obj = g.boolean();
    { JSON j(two); if (obj) j.startObject().endObject(); else j.startList().endList(); }
    CHECK_EQ(two.str(), std::string(obj ? "{}" : "[]"), "an empty container");
}

PBT(values, 6) {
    TreeOpts o;
    o.depth = 5;
    Tree t = genTree(g, o);
    bool ordered = g.boolean();
    if (ordered) orderMaps(t);
    Value v = toValue(t);
    g.note([&](std::ostream& s) { s << t; });
    g.nontrivial(t.count() > 2);
    std::ostringstream out;
    { JSON j(out); j.precision(17); j << v; }
    Tree r = readBack(out.str());
    Tree e = t;
    orderMaps(e);
    std::function<void(Tree&)> sortm = [&](Tree& x) { if (!ordered) x.map = x.sorted(); for (auto& c : x.list) sortm(c); for (auto& c : x.map) sortm(c.second); };
    sortm(e);
    sortm(r);
    CHECK(same(r, e), "a value was written as " << pbt::esc(out.str()));
    Value back = JSONParser::decodeString(out.str());
    std::ostringstream again;
    { JSON j(again); j.precision(17); j << back; }
    CHECK(same(readBack(again.str()), readBack(out.str())), "writing what was read: " << pbt::esc(again.str()));
}

// damaged texts: refused unless still JSON, and then read as what they say
PBT(damage, 10) {
    TreeOpts o;
    o.depth = 3;
    o.width = 3;
    Tree t = genTree(g, o);
    orderMaps(t);
    JsonText j{g, true};
    std::string text = j.text(t), log;
    size_t n = 1 + g.size(3);
    for (size_t i = 0; i < n; i++) {
        size_t at = g.idx(text.size() + 1);
        switch (g.idx(4)) {
            case 0: if (at < text.size()) text.erase(at, 1 + g.size(3)); break;
            case 1: text.insert(at, g.pick<std::string>({"{", "}", "[", "]", ",", ":", "\"", "\\", "-", "0", "1", "e", ".", "+", "t", "n", "'", "\\u", "\\x", " ", "null", "//", "#", "1 2", "\xff", "0x"})); break;
            case 2: text.resize(at); break;
            case 3: if (at < text.size()) text[at] = char(g.range(32, 126)); break;
        }
    }
    g.note([&](std::ostream& s) { s << pbt::esc(text); });
    g.nontrivial(text.size() > 3);
    Tree ref;
    RefJson rp(text);
    bool ok = rp.parse(ref);
    bool threw = false;
    Tree got;
    try { got = fromValue(JSONParser::decodeString(text)); }
    catch (eckit::Exception&) { threw = true; }
    if (ok) { CHECK(!threw, "JSON was refused: " << pbt::esc(text)); CHECK(got == ref, "read as " << got << " instead of " << ref); return; }
    if (threw) return;
    // accepted although not JSON: white space inside the words, control characters and other spaces are tolerated
    std::string w, u;
    bool in = false;
    for (size_t i = 0; i < text.size(); i++) {
        char c = text[i];
        if (in) { if (c == '\\') { w += c; if (++i < text.size()) w += text[i]; continue; } if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); w += b; continue; } if (c == '"') in = false; w += c; continue; }
        if (c == '"') { in = true; w += c; continue; }
        if (c == '\0') { w += c; continue; }
        if (isspace((unsigned char)c) && !w.empty() && isalpha((unsigned char)w.back())) continue;
        w += c == '\v' || c == '\f' ? ' ' : c;
    }
    RefJson rl(w);
    rl.saturate = true;
    Tree lenient;
    CHECK(rl.parse(lenient) && same(lenient, got), "accepted although it is not JSON (" << rp.err << "): " << pbt::esc(text) << " as " << got);
}

// arbitrary bytes never do anything but parse or be refused
PBT(garbage, 4) {
    std::string text = g.boolean() ? g.bytes(40) : g.str(40, "{}[]\",:0123456789truefalsn -.eE\\u/ \n");
    g.note([&](std::ostream& s) { s << pbt::esc(text); });
    g.nontrivial(text.size() > 2);
    try { Value v = JSONParser::decodeString(text); Tree r; RefJson rp(text); if (rp.parse(r)) CHECK(fromValue(v) == r, "read as " << fromValue(v) << " instead of " << r); }
    catch (eckit::Exception&) { Tree r; RefJson rp(text); CHECK(!rp.parse(r), "JSON was refused: " << pbt::esc(text)); }
}
