// C25: SQL engine: generated tables and queries, run by eckit::sql and by a small reference evaluator.
#include "pbt.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>

#include "eckit/runtime/Main.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLStatement.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/expression/SQLExpressions.h"
#include "eckit/sql/type/SQLBitfield.h"
#include "eckit/sql/type/SQLType.h"

using namespace pbt;
namespace sql = eckit::sql;

PBT_INIT {
    eckit::Main::initialise(argc, argv);
}

namespace {

//---------------------------------------------------------------------------------------------------------------- model

struct Val {
    bool missing = false;
    bool isStr   = false;
    double d     = 0;
    std::string s;
    bool operator<(const Val& o) const { return std::tie(missing, isStr, d, s) < std::tie(o.missing, o.isStr, o.d, o.s); }
    bool operator==(const Val& o) const {
        if (missing || o.missing) {
            return missing == o.missing;
        }
        if (isStr != o.isStr) {
            return false;
        }
        if (isStr) {
            return s == o.s;
        }
        return d == o.d || std::abs(d - o.d) <= 1e-9 * std::max({1., std::abs(d), std::abs(o.d)});
    }
};
using Row = std::vector<Val>;

Val num(double d) {
    Val v;
    v.d = d;
    return v;
}
Val miss() {
    Val v;
    v.missing = true;
    return v;
}

std::string show(const Row& r) {
    std::ostringstream o;
    o << "(";
    for (size_t i = 0; i < r.size(); i++) {
        o << (i ? "," : "");
        if (r[i].missing) {
            o << "NULL";
        }
        else if (r[i].isStr) {
            o << "'" << r[i].s << "'";
        }
        else {
            o << r[i].d;
        }
    }
    o << ")";
    return o.str();
}
std::string show(const std::vector<Row>& rs) {
    std::string s;
    for (auto& r : rs) {
        s += show(r) + " ";
    }
    return "[" + s + "]";
}

enum Kind { INT, REAL, DBL, STR, BITS };

struct Col {
    std::string name;
    Kind kind;
    size_t width = 1;  // doubles
    bool hasMissing = false;
    double marker   = 0;
    std::vector<std::string> bf;
    std::vector<int32_t> bfSize;
};

struct Table {
    std::string name;
    std::vector<Col> cols;
    std::vector<Row> rows;  // Val.missing set where the cell is missing
    size_t relayout = 0;    // row at which the layout changes (0: never)
};

struct Ctx {
    const std::vector<Table>* tables;
    std::vector<const Row*> rows;
};

struct Ex;
using E = std::shared_ptr<Ex>;
struct Ex {
    std::string op;
    std::vector<E> kids;
    double d = 0;
    std::string s;
    size_t t = 0, c = 0;
    int bit = -1;
};

bool ambiguous;  // the case depends on three-valued corner cases the property leaves open

std::string rtrim(std::string s) {
    const char* ws = "\t\n\v\f\r ";
    size_t a = s.find_first_not_of(ws);
    if (a == std::string::npos) {
        return "";
    }
    return s.substr(a, s.find_last_not_of(ws) - a + 1);
}

Val eval(const Ex& e, const Ctx& x) {
    auto k = [&](size_t i) { return eval(*e.kids[i], x); };
    const std::string& op = e.op;
    if (op == "num") {
        return num(e.d);
    }
    if (op == "str") {
        Val v;
        v.isStr = true;
        v.s     = e.s;
        return v;
    }
    if (op == "col") {
        Val v = (*x.rows[e.t])[e.c];
        if (e.bit >= 0 && !v.missing) {
            const Col& c = (*x.tables)[e.t].cols[e.c];
            int shift = 0;
            for (int i = 0; i < e.bit; i++) {
                shift += c.bfSize[i];
            }
            v.d = double((long(v.d) >> shift) & ((1L << c.bfSize[e.bit]) - 1));
        }
        return v;
    }
    if (op == "and" || op == "or") {
        Val a = k(0);
        if (a.missing) {
            Val b = k(1);
            if (!b.missing && (b.d != 0) == (op == "or")) {
                ambiguous = true;  // false and missing, true or missing
            }
            return miss();
        }
        if ((a.d != 0) == (op == "or")) {
            return num(op == "or");
        }
        Val b = k(1);
        return b.missing ? miss() : num(b.d != 0);
    }
    if (op == "not") {
        Val a = k(0);
        return a.missing ? a : num(!a.d);
    }
    if (op == "null") {
        return num(k(0).missing);
    }
    if (op == "not_null") {
        return num(!k(0).missing);
    }
    if (op == "nvl") {
        Val a = k(0);
        return a.missing ? k(1) : a;
    }
    if (op == "in" || op == "not_in") {
        Val a = k(0);
        bool found = false, anyMissing = a.missing;
        for (size_t i = 1; i < e.kids.size(); i++) {
            Val b = k(i);
            if (b.missing) {
                anyMissing = true;
                continue;
            }
            if (!a.missing && (a.isStr ? rtrim(a.s) == rtrim(b.s) : a.d == b.d)) {
                found = true;
            }
        }
        if (anyMissing) {
            ambiguous = true;
        }
        return num(found == (op == "in"));
    }
    std::vector<Val> v;
    for (size_t i = 0; i < e.kids.size(); i++) {
        v.push_back(k(i));
    }
    bool anyMissing = false;
    for (auto& y : v) {
        anyMissing |= y.missing;
    }
    if (op == "*" && anyMissing) {
        for (auto& y : v) {
            if (!y.missing && y.d == 0) {
                ambiguous = true;  // 0 * missing
            }
        }
    }
    if (anyMissing) {
        return miss();
    }
    double a = v[0].d, b = v.size() > 1 ? v[1].d : 0, c = v.size() > 2 ? v[2].d : 0;
    if (v[0].isStr) {
        bool eq = rtrim(v[0].s) == rtrim(v[1].s);
        return num(op == "=" ? eq : !eq);
    }
    if (op == "neg") return num(-a);
    if (op == "+") return num(a + b);
    if (op == "-") return num(a - b);
    if (op == "*") return num(a * b);
    if (op == "/") return num(a / b);
    if (op == "=") return num(a == b);
    if (op == "<>") return num(a != b);
    if (op == "<") return num(a < b);
    if (op == ">") return num(a > b);
    if (op == "<=") return num(a <= b);
    if (op == ">=") return num(a >= b);
    if (op == "between") return num(a >= b && a <= c);
    if (op == "not_between") return num(a < b || a > c);
    if (op == "abs") return num(std::abs(a));
    if (op == "sqrt") return num(std::sqrt(std::abs(a)));
    if (op == "mod") return num(std::fmod(a, b));
    if (op == "floor") return num(std::floor(a));
    if (op == "ceil") return num(std::ceil(a));
    if (op == "trunc") return num(std::trunc(a));
    if (op == "nint") return num(std::round(a));
    fail("harness: unknown operator " + op);
    return miss();
}

bool isAgg(const Ex& e) {
    if (e.op.rfind("agg:", 0) == 0) {
        return true;
    }
    for (auto& k : e.kids) {
        if (isAgg(*k)) {
            return true;
        }
    }
    return false;
}

Val evalAgg(const Ex& e, const std::vector<Ctx>& group) {
    if (e.op.rfind("agg:", 0) == 0) {
        std::string f = e.op.substr(4);
        if (f == "count*") {
            return num(double(group.size()));
        }
        std::vector<double> vs, ws;
        for (auto& x : group) {
            Val a = eval(*e.kids[0], x);
            if (f == "dotp") {
                Val b = eval(*e.kids[1], x);
                if (a.missing || b.missing) {
                    continue;
                }
                ws.push_back(b.d);
            }
            if (!a.missing) {
                vs.push_back(a.d);
            }
        }
        if (f == "count") {
            return num(double(vs.size()));
        }
        if (vs.empty()) {
            return miss();
        }
        double s = 0, q = 0, dp = 0;
        for (size_t i = 0; i < vs.size(); i++) {
            s += vs[i];
            q += vs[i] * vs[i];
            dp += ws.empty() ? 0 : vs[i] * ws[i];
        }
        double n = double(vs.size());
        if (f == "sum") return num(s);
        if (f == "avg") return num(s / n);
        if (f == "min") return num(*std::min_element(vs.begin(), vs.end()));
        if (f == "max") return num(*std::max_element(vs.begin(), vs.end()));
        if (f == "var") return num(q / n - (s / n) * (s / n));
        if (f == "stdev") return num(std::sqrt(std::max(0., q / n - (s / n) * (s / n))));
        if (f == "rms") return num(std::sqrt(q / n));
        if (f == "dotp") return num(dp);
        fail("harness: unknown aggregate " + f);
    }
    if (!isAgg(e)) {
        return eval(e, group[0]);
    }
    // arithmetic on aggregates: fold the aggregates into constants
    Ex c = e;
    bool anyMissing = false;
    for (auto& k : c.kids) {
        Val v  = evalAgg(*k, group);
        auto n = std::make_shared<Ex>();
        n->op  = "num";
        n->d   = v.d;
        k       = n;
        anyMissing |= v.missing;
    }
    if (anyMissing) {
        ambiguous |= e.op == "*";  // 0 * missing
        return miss();
    }
    return eval(c, group[0]);
}

//------------------------------------------------------------------------------------------------------------- printing

std::string literal(double d) {
    std::ostringstream o;
    o.precision(17);
    o << std::abs(d);
    return o.str();
}

struct Printer {
    Gen& g;
    const std::vector<Table>& tables;

    std::string kw(const std::string& s) {
        if (!g.chance(15)) {
            return s;
        }
        std::string u = s;
        for (auto& ch : u) {
            ch = char(toupper(ch));
        }
        return u;
    }

    // levels: or 0, and 1, condition 2, term 3, factor 4, atom 5
    std::string p(const Ex& e, int level) {
        int mine = 5;
        std::string s;
        auto sub = [&](size_t i, int l) { return p(*e.kids[i], l); };
        const std::string& op = e.op;
        if (op == "num") {
            if (e.d < 0 || std::signbit(e.d)) {
                return "(-" + literal(e.d) + ")";
            }
            return literal(e.d);
        }
        if (op == "str") {
            return g.boolean() ? "'" + e.s + "'" : "\"" + e.s + "\"";
        }
        if (op == "col") {
            const Col& c = tables[e.t].cols[e.c];
            return e.bit >= 0 ? c.name + "." + c.bf[e.bit] : c.name;
        }
        if (op == "or") {
            mine = 0;
            s    = sub(0, 0) + " " + kw("or") + " " + sub(1, 1);
        }
        else if (op == "and") {
            mine = 1;
            s    = sub(0, 1) + " " + kw("and") + " " + sub(1, 2);
        }
        else if (op == "not") {
            mine = -1;
            s    = (g.boolean() ? kw("not") + " " : std::string("!")) + "(" + sub(0, 0) + ")";
        }
        else if (op == "null" || op == "not_null") {
            mine = 2;
            s    = sub(0, 3) + " " + kw("is") + (op == "null" ? " " : " " + kw("not") + " ") + kw(g.boolean() ? "null" : "missing");
        }
        else if (op == "between" || op == "not_between") {
            mine = 2;
            s    = sub(0, 3) + (op == "between" ? " " : " " + kw("not") + " ") + kw("between") + " " + sub(1, 3) + " " + kw("and") + " " + sub(2, 3);
        }
        else if (op == "in" || op == "not_in") {
            mine = 2;
            s    = sub(0, 3) + (op == "in" ? " " : " " + kw("not") + " ") + kw("in") + " (";
            for (size_t i = 1; i < e.kids.size(); i++) {
                s += (i > 1 ? ", " : "") + sub(i, 0);
            }
            s += ")";
        }
        else if (op == "=" || op == "<>" || op == "<" || op == ">" || op == "<=" || op == ">=") {
            mine          = 2;
            std::string o = op == "=" && g.boolean() ? "==" : op == "<>" && g.boolean() ? "!=" : op;
            std::string sp = g.boolean() ? " " : "";
            s             = sub(0, 3) + sp + o + " " + sub(1, 3);
        }
        else if (op == "+" || op == "-") {
            mine = 3;
            s    = sub(0, 3) + " " + op + " " + sub(1, 4);
        }
        else if (op == "*" || op == "/") {
            mine = 4;
            s    = sub(0, 4) + (g.boolean() ? op : " " + op + " ") + sub(1, 5);
        }
        else if (op == "neg") {
            mine = g.chance(50) ? 5 : -1;
            s    = "-" + sub(0, 5);
            if (s[1] == '-') {
                s = "-(" + s.substr(1) + ")";
            }
        }
        else if (op == "agg:count*") {
            s = kw("count") + "(*)";
        }
        else {
            std::string f = op.rfind("agg:", 0) == 0 ? op.substr(4) : op;
            s             = f + "(";
            if (op == "sqrt") {
                s += "abs(" + sub(0, 0) + ")";
            }
            else {
                for (size_t i = 0; i < e.kids.size(); i++) {
                    s += (i ? ", " : "") + sub(i, 0);
                }
            }
            s += ")";
        }
        if (mine < level || g.chance(10)) {
            s = "(" + s + ")";
        }
        return s;
    }
};

//----------------------------------------------------------------------------------------------------------- generation

struct Builder {
    Gen& g;
    const std::vector<Table>& tables;
    bool noMissing = false;

    E mk(const std::string& op, std::vector<E> kids = {}) {
        auto e  = std::make_shared<Ex>();
        e->op   = op;
        e->kids = std::move(kids);
        return e;
    }
    E number() {
        auto e = mk("num");
        e->d   = double(g.integer(-4, 9));
        if (g.chance(20)) {
            e->d += 0.5;
        }
        return e;
    }
    E positive() {
        auto e = mk("num");
        e->d   = double(g.integer(1, 4));
        return e;
    }
    E column(bool str) {
        std::vector<std::pair<size_t, size_t>> c;
        for (size_t t = 0; t < tables.size(); t++) {
            for (size_t i = 0; i < tables[t].cols.size(); i++) {
                if ((tables[t].cols[i].kind == STR) == str) {
                    c.push_back({t, i});
                }
            }
        }
        if (c.empty()) {
            return nullptr;
        }
        auto w = c[g.idx(c.size())];
        auto e = mk("col");
        e->t   = w.first;
        e->c   = w.second;
        const Col& col = tables[e->t].cols[e->c];
        if (col.kind == BITS && g.chance(70)) {
            e->bit = int(g.idx(col.bf.size()));
        }
        return e;
    }
    E numeric(int depth) {
        if (depth <= 0 || g.chance(30)) {
            E c = g.chance(75) ? column(false) : nullptr;
            return c ? c : number();
        }
        switch (g.weighted({4, 4, 3, 2, 2, 2, 2, 1, 2, 3, 2})) {
            case 0: return mk("+", {numeric(depth - 1), numeric(depth - 1)});
            case 1: return mk("-", {numeric(depth - 1), numeric(depth - 1)});
            case 2: return mk("*", {numeric(depth - 1), numeric(depth - 1)});
            case 3: return mk("/", {numeric(depth - 1), positive()});
            case 4: return mk("neg", {numeric(depth - 1)});
            case 5: return mk("abs", {numeric(depth - 1)});
            case 6: return mk("mod", {numeric(depth - 1), positive()});
            case 7: return mk("sqrt", {numeric(depth - 1)});
            case 8: return mk("nvl", {numeric(depth - 1), number()});
            case 9: return mk(g.pick<std::string>({"floor", "ceil", "trunc", "nint"}), {numeric(depth - 1)});
            default: return boolean(depth - 1);
        }
    }
    E boolean(int depth) {
        size_t k = g.weighted({8, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u, depth > 0 ? 2u : 0u, 2, 2, 2, 2, 3});
        std::vector<E> a;
        switch (k) {
            case 0: return mk(g.pick<std::string>({"=", "<>", "<", ">", "<=", ">="}), {numeric(depth - 1), numeric(depth - 1)});
            case 1: return mk("and", {boolean(depth - 1), boolean(depth - 1)});
            case 2: return mk("or", {boolean(depth - 1), boolean(depth - 1)});
            case 3: return mk("not", {boolean(depth - 1)});
            case 4: return mk(g.boolean() ? "null" : "not_null", {numeric(depth - 1)});
            case 5: return mk(g.boolean() ? "between" : "not_between", {numeric(depth - 1), numeric(depth - 1), numeric(depth - 1)});
            case 6:
            case 7: {
                a.push_back(numeric(depth - 1));
                size_t n = 1 + g.idx(4);
                for (size_t i = 0; i < n; i++) {
                    a.push_back(numeric(depth - 2));
                }
                return mk(g.boolean() ? "in" : "not_in", a);
            }
            default: {
                E c = column(true);
                if (!c) {
                    return mk("=", {numeric(depth - 1), numeric(depth - 1)});
                }
                E o = g.boolean() ? column(true) : nullptr;
                if (!o) {
                    o    = mk("str");
                    o->s = g.pick<std::string>({"", "a", "b", "ab", "abcdefgh", "abcdefghi", "a b"});
                }
                return mk(g.boolean() ? "=" : "<>", {c, o});
            }
        }
    }
    E aggregate(int depth) {
        if (depth > 0 && g.chance(15)) {
            return mk(g.pick<std::string>({"+", "-", "*"}), {aggregate(0), g.boolean() ? aggregate(0) : positive()});
        }
        std::string f = g.pick<std::string>({"count*", "count", "sum", "avg", "min", "max", "var", "stdev", "rms", "dotp"});
        if (f == "count*") {
            return mk("agg:count*");
        }
        if (f == "dotp") {
            return mk("agg:dotp", {numeric(1), numeric(1)});
        }
        return mk("agg:" + f, {numeric(1)});
    }
};

//-------------------------------------------------------------------------------------------------------------- adapter

struct Tab : sql::SQLTable {
    const Table& t;
    Tab(sql::SQLDatabase& db, const Table& tab) : SQLTable(db, tab.name + ".path", tab.name), t(tab) {
        using sql::type::SQLType;
        for (size_t i = 0; i < t.cols.size(); i++) {
            const Col& c = t.cols[i];
            switch (c.kind) {
                case INT: addColumn(c.name, int(i), SQLType::lookup("integer"), c.hasMissing, c.marker); break;
                case REAL: addColumn(c.name, int(i), SQLType::lookup("real"), c.hasMissing, c.marker); break;
                case DBL: addColumn(c.name, int(i), SQLType::lookup("double"), c.hasMissing, c.marker); break;
                case STR: addColumn(c.name, int(i), SQLType::lookup("string", c.width), false, 0); break;
                case BITS: {
                    std::string ty = sql::type::SQLBitfield::make("Bitfield", c.bf, c.bfSize, "dummy");
                    addColumn(c.name, int(i), SQLType::lookup(ty), c.hasMissing, c.marker, true, std::make_pair(c.bf, c.bfSize));
                    break;
                }
            }
        }
    }
    struct It : sql::SQLTableIterator {
        const Table& t;
        std::vector<size_t> cols;
        std::function<void(sql::SQLTableIterator&)> update;
        size_t at = 0;
        bool shifted = false;
        std::vector<double> buf;
        std::vector<size_t> offsets(bool shift) const {
            std::vector<size_t> o(t.cols.size());
            size_t n = shift ? 2 : 0;
            // the shifted layout stores the columns the other way round
            for (size_t i = 0; i < t.cols.size(); i++) {
                size_t c = shift ? t.cols.size() - 1 - i : i;
                o[c]     = n;
                n += t.cols[c].width;
            }
            return o;
        }
        It(const Table& tab, const std::vector<std::reference_wrapper<const sql::SQLColumn>>& cs,
           std::function<void(sql::SQLTableIterator&)> u) : t(tab), update(u) {
            size_t n = 2;
            for (auto& c : t.cols) {
                n += c.width;
            }
            buf.assign(n + 1, 0.);
            for (auto& c : cs) {
                cols.push_back(c.get().index());
            }
        }
        void layout(bool s) {
            if (s != shifted) {
                shifted = s;
                update(*this);
            }
        }
        void rewind() override { at = 0; }
        bool next() override {
            if (at >= t.rows.size()) {
                return false;
            }
            layout(t.relayout && at >= t.relayout);
            auto o = offsets(shifted);
            std::fill(buf.begin(), buf.end(), 12345.);
            for (size_t i = 0; i < t.cols.size(); i++) {
                const Val& v = t.rows[at][i];
                if (t.cols[i].kind == STR) {
                    ::memset(&buf[o[i]], 0, 8 * t.cols[i].width);
                    ::memcpy(&buf[o[i]], v.s.data(), v.s.size());
                }
                else {
                    buf[o[i]] = v.missing ? t.cols[i].marker : v.d;
                }
            }
            at++;
            return true;
        }
        std::vector<size_t> columnOffsets() const override {
            auto o = offsets(shifted);
            std::vector<size_t> r;
            for (auto c : cols) {
                r.push_back(o[c]);
            }
            return r;
        }
        std::vector<size_t> doublesDataSizes() const override {
            std::vector<size_t> r;
            for (auto c : cols) {
                r.push_back(t.cols[c].width);
            }
            return r;
        }
        std::vector<char> columnsHaveMissing() const override {
            std::vector<char> r;
            for (auto c : cols) {
                r.push_back(t.cols[c].hasMissing);
            }
            return r;
        }
        std::vector<double> missingValues() const override {
            std::vector<double> r;
            for (auto c : cols) {
                r.push_back(t.cols[c].marker);
            }
            return r;
        }
        const double* data() const override { return buf.data(); }
    };
    sql::SQLTableIterator* iterator(const std::vector<std::reference_wrapper<const sql::SQLColumn>>& cs,
                                    std::function<void(sql::SQLTableIterator&)> u) const override {
        return new It(t, cs, u);
    }
};

struct Out : sql::SQLOutput {
    std::vector<Row> rows;
    Row cur;
    bool flushed = false;
    void cleanup(sql::SQLSelect&) override {}
    void reset() override {}
    void flush() override { flushed = true; }
    void prepare(sql::SQLSelect&) override {}
    bool output(const sql::expression::Expressions& r) override {
        cur.clear();
        for (const auto& e : r) {
            e->output(*this);
        }
        rows.push_back(cur);
        return true;
    }
    void put(double d, bool m) {
        Val v;
        v.missing = m;
        v.d       = m ? 0 : d;
        cur.push_back(v);
    }
    void outputReal(double d, bool m) override { put(d, m); }
    void outputDouble(double d, bool m) override { put(d, m); }
    void outputInt(double d, bool m) override { put(d, m); }
    void outputUnsignedInt(double d, bool m) override { put(d, m); }
    void outputBitfield(double d, bool m) override { put(d, m); }
    void outputString(const char* s, size_t l, bool m) override {
        Val v;
        v.missing = m;
        v.isStr   = true;
        if (!m) {
            v.s.assign(s, l);
        }
        cur.push_back(v);
    }
    unsigned long long count() override { return rows.size(); }
};

Table makeTable(Gen& g, size_t n) {
    Table t;
    t.name     = "tab" + std::to_string(n);
    size_t nc  = 1 + g.idx(5);
    std::string prefix(1, char('a' + n));
    for (size_t i = 0; i < nc; i++) {
        Col c;
        c.name = prefix + "c" + std::to_string(i);
        c.kind = Kind(g.weighted({5, 2, 3, 3, 2}));
        if (c.kind == STR) {
            c.width = 1 + g.idx(2);
        }
        else {
            c.hasMissing = g.chance(50);
            c.marker     = c.kind == BITS ? 2147483647. : g.pick<double>({2147483647., -2147483647., 3., 0., -99.});
        }
        if (c.kind == BITS) {
            size_t k = 1 + g.idx(3);
            for (size_t j = 0; j < k; j++) {
                c.bf.push_back("f" + std::to_string(j));
                c.bfSize.push_back(int32_t(1 + g.idx(3)));
            }
        }
        t.cols.push_back(c);
    }
    size_t rows = g.size(n ? 6 : 14);
    for (size_t r = 0; r < rows; r++) {
        Row row;
        for (auto& c : t.cols) {
            Val v;
            if (c.kind == STR) {
                v.isStr = true;
                v.s     = g.pick<std::string>({"", "a", "b", "ab", "abcdefgh", "abcdefghi", "a b", "b"});
                if (v.s.size() > 8 * c.width) {
                    v.s = "ab";
                }
            }
            else if (c.hasMissing && g.chance(25)) {
                v.missing = true;
            }
            else {
                v.d = c.kind == BITS ? double(g.integer(0, 255)) : double(g.integer(-4, 5));
                if (c.kind != INT && c.kind != BITS && g.chance(30)) {
                    v.d += 0.25;
                }
                if (c.hasMissing && v.d == c.marker) {
                    v.missing = true;
                    v.d       = 0;
                }
            }
            row.push_back(v);
        }
        t.rows.push_back(row);
    }
    if (rows > 1 && g.chance(25)) {
        t.relayout = 1 + g.idx(rows - 1);
    }
    return t;
}

bool touches(const Ex& e, size_t t) {
    if (e.op == "col" && e.t == t) {
        return true;
    }
    for (auto& k : e.kids) {
        if (touches(*k, t)) {
            return true;
        }
    }
    return false;
}

bool keyLess(const Val& a, const Val& b, bool& decided) {
    decided = true;
    if (a.missing != b.missing) {
        return a.missing;
    }
    if (a.missing) {
        decided = false;
        return false;
    }
    if (a.isStr) {
        std::string x = rtrim(a.s), y = rtrim(b.s);
        if (x != y) {
            return x < y;
        }
    }
    else if (a.d != b.d) {
        return a.d < b.d;
    }
    decided = false;
    return false;
}

std::vector<Row> sorted(std::vector<Row> v) {
    std::sort(v.begin(), v.end());
    return v;
}

void run(Gen& g, size_t ntab) {
    std::vector<Table> tables;
    for (size_t i = 0; i < ntab; i++) {
        tables.push_back(makeTable(g, i));
    }
    Builder b{g, tables};
    Printer pr{g, tables};

    enum Mode { PLAIN, AGG, MIXED };
    Mode mode = Mode(g.weighted({6, 2, 2}));
    std::vector<E> list;
    std::string text = pr.kw("select") + " ";
    bool distinct    = mode == PLAIN && g.chance(25);
    if (distinct) {
        text += pr.kw("distinct") + " ";
    }
    bool star = mode == PLAIN && ntab == 1 && g.chance(10);
    if (star) {
        text += "*";
        for (size_t c = 0; c < tables[0].cols.size(); c++) {
            auto e = b.mk("col");
            e->c   = c;
            list.push_back(e);
        }
    }
    else {
        size_t n = 1 + g.idx(3) + (mode == MIXED ? 1 : 0);
        for (size_t i = 0; i < n; i++) {
            bool agg = mode == AGG || (mode == MIXED && (i == 0 ? g.boolean() : i + 1 == n ? !isAgg(*list[0]) : g.boolean()));
            E e;
            if (agg) {
                e = b.aggregate(1);
            }
            else {
                e = g.chance(25) ? b.column(true) : g.chance(40) ? b.column(false) : nullptr;
                if (!e) {
                    e = b.numeric(2);
                }
            }
            list.push_back(e);
            text += (i ? "," : "") + std::string(i && g.boolean() ? " " : "") + pr.p(*e, 0);
            if (g.chance(10)) {
                text += " " + pr.kw("as") + " alias" + std::to_string(i);
            }
        }
        if (mode == MIXED) {
            bool a = false, s = false;
            for (auto& e : list) {
                (isAgg(*e) ? a : s) = true;
            }
            if (!a || !s) {
                mode = a ? AGG : PLAIN;
            }
        }
    }
    text += " " + pr.kw("from") + " ";
    for (size_t i = 0; i < ntab; i++) {
        text += (i ? ", " : "") + tables[i].name;
    }
    E where;
    if (g.chance(65)) {
        where = b.boolean(3);
        if (ntab > 1 && g.chance(60)) {
            // an equi-join
            E x = b.mk("col"), y = b.mk("col");
            for (size_t i = 0; i < 2; i++) {
                E& e = i ? y : x;
                e->t = i;
                e->c = g.idx(tables[i].cols.size());
            }
            if (tables[0].cols[x->c].kind != STR && tables[1].cols[y->c].kind != STR) {
                E j   = b.mk("=", {x, y});
                where = g.boolean() ? j : g.boolean() ? b.mk("and", {j, where}) : b.mk("and", {where, j});
            }
        }
        text += " " + pr.kw("where") + " " + pr.p(*where, 0);
    }
    // every table must be used by the query
    for (size_t t = 0; t < ntab; t++) {
        bool used = where && touches(*where, t);
        for (auto& e : list) {
            used |= touches(*e, t);
        }
        if (!used && (ntab > 1)) {
            discard();
        }
    }
    std::vector<std::pair<E, bool>> order;
    std::vector<size_t> orderIdx;
    if (g.chance(mode == PLAIN ? 40 : 20)) {
        size_t n = 1 + g.idx(2);
        text += " " + pr.kw("order") + " " + pr.kw("by") + " ";
        for (size_t i = 0; i < n; i++) {
            size_t k = g.idx(list.size());
            bool asc = g.boolean();
            E e      = list[k];
            std::string s;
            if (mode == PLAIN && !distinct && ntab == 1 && g.chance(40)) {
                e = g.boolean() ? b.column(g.boolean()) : nullptr;
                if (!e) {
                    e = b.column(false);
                }
                if (!e) {
                    e = b.column(true);
                }
                k = size_t(-1);
                s = pr.p(*e, 0);
            }
            else {
                s = std::to_string(k + 1);
            }
            order.push_back({e, asc});
            orderIdx.push_back(k);
            text += (i ? ", " : "") + s + (asc ? (g.boolean() ? " " + pr.kw("asc") : "") : " " + pr.kw("desc"));
        }
    }
    text += ";";

    g.note([&](std::ostream& o) {
        for (auto& t : tables) {
            o << t.name << ":";
            for (auto& c : t.cols) {
                o << " " << c.name << "/" << "IRDSB"[c.kind] << c.width;
                if (c.hasMissing) {
                    o << "/missing=" << c.marker;
                }
                for (size_t i = 0; i < c.bf.size(); i++) {
                    o << "." << c.bf[i] << ":" << c.bfSize[i];
                }
            }
            o << " relayout=" << t.relayout << "\n  " << show(t.rows) << "\n";
        }
        o << text << "\n";
    });

    // reference
    ambiguous = false;
    std::vector<Ctx> rows;
    if (ntab == 1) {
        for (auto& r : tables[0].rows) {
            rows.push_back(Ctx{&tables, {&r}});
        }
    }
    else {
        for (auto& r : tables[0].rows) {
            for (auto& s : tables[1].rows) {
                rows.push_back(Ctx{&tables, {&r, &s}});
            }
        }
    }
    size_t total = rows.size();
    if (where) {
        std::vector<Ctx> keep;
        for (auto& x : rows) {
            Val v = eval(*where, x);
            if (!v.missing && v.d != 0) {
                keep.push_back(x);
            }
        }
        rows = keep;
    }
    std::vector<Row> expect;
    std::vector<Row> keys;
    if (mode == PLAIN) {
        std::set<Row> seen;
        for (auto& x : rows) {
            Row r, k;
            for (auto& e : list) {
                r.push_back(eval(*e, x));
            }
            for (auto& o : order) {
                k.push_back(eval(*o.first, x));
            }
            if (distinct) {
                Row c = r;
                for (auto& v : c) {
                    if (v.missing) {
                        v.d = 0;
                        v.s = "";
                    }
                    ambiguous |= v.d == 0 && std::signbit(v.d);  // -0 and 0 are two values or one
                }
                if (!seen.insert(c).second) {
                    continue;
                }
            }
            expect.push_back(r);
            keys.push_back(k);
        }
    }
    else if (mode == AGG) {
        if (rows.empty()) {
            // an aggregate of nothing: one row or none, nothing else is stated
        }
        else {
            Row r;
            for (auto& e : list) {
                r.push_back(evalAgg(*e, rows));
            }
            expect.push_back(r);
        }
    }
    else {
        std::map<Row, std::vector<Ctx>> groups;
        for (auto& x : rows) {
            Row k;
            for (auto& e : list) {
                if (!isAgg(*e)) {
                    Val v = eval(*e, x);
                    if (v.missing) {
                        v.d = 0;
                        v.s = "";
                    }
                    if (v.isStr) {
                        v.s = rtrim(v.s);
                    }
                    k.push_back(v);
                }
            }
            groups[k].push_back(x);
        }
        for (auto& kv : groups) {
            Row r;
            for (auto& e : list) {
                r.push_back(evalAgg(*e, kv.second));
            }
            expect.push_back(r);
        }
    }
    if (ambiguous) {
        discard();
    }
    g.nontrivial(total > 1 && !rows.empty());
    g.label(mode == PLAIN ? "plain" : mode == AGG ? "aggregate" : "grouped");
    if (distinct) {
        g.label("distinct");
    }
    if (!order.empty()) {
        g.label("order by");
    }
    if (where) {
        g.label(rows.empty() ? "where: nothing" : rows.size() == total ? "where: everything" : "where: some");
    }

    // the engine
    sql::SQLSession session(std::unique_ptr<sql::SQLOutput>(new Out), std::unique_ptr<sql::SQLOutputConfig>());
    for (auto& t : tables) {
        session.currentDatabase().addTable(new Tab(session.currentDatabase(), t));
    }
    Out& out = static_cast<Out&>(session.output());
    sql::SQLParser().parseString(session, text);
    size_t runs = g.chance(50) ? 2 : 1;
    for (size_t run = 0; run < runs; run++) {
        out.rows.clear();
        out.flushed          = false;
        std::ostringstream stray;
        auto* was            = std::cout.rdbuf(stray.rdbuf());
        unsigned long long n = 0;
        try {
            n = session.statement().execute();
        }
        catch (...) {
            std::cout.rdbuf(was);
            throw;
        }
        std::cout.rdbuf(was);
        CHECK_EQ(stray.str(), std::string(), "written to the standard output");
        std::vector<Row> got = out.rows;
        std::string when     = run ? " (second execution)" : "";
        if (mode == AGG && rows.empty()) {
            CHECK(got.size() <= 1, "an aggregate of nothing gives several rows" + when + ": " + show(got));
            continue;
        }
        CHECK_EQ(size_t(n), got.size(), "the count returned is not the number of rows" + when);
        std::string both = when + ": got " + show(got) + " expected " + show(expect);
        CHECK_EQ(got.size(), expect.size(), "wrong number of rows" + both);
        if (ntab == 1 && mode == PLAIN) {
            std::vector<size_t> perm(expect.size());
            for (size_t i = 0; i < perm.size(); i++) {
                perm[i] = i;
            }
            std::stable_sort(perm.begin(), perm.end(), [&](size_t x, size_t y) {
                for (size_t i = 0; i < order.size(); i++) {
                    bool decided;
                    bool asc = order[i].second;
                    bool l   = keyLess(asc ? keys[x][i] : keys[y][i], asc ? keys[y][i] : keys[x][i], decided);
                    if (decided) {
                        return l;
                    }
                }
                return false;
            });
            for (size_t i = 0; i < perm.size(); i++) {
                CHECK(got[i] == expect[perm[i]], "row " + std::to_string(i) + " is wrong" + both);
            }
        }
        else {
            auto a = sorted(got), e = sorted(expect);
            std::vector<bool> used(e.size());
            for (auto& r : got) {
                bool found = false;
                for (size_t i = 0; i < e.size() && !found; i++) {
                    if (!used[i] && e[i] == r) {
                        used[i] = found = true;
                    }
                }
                CHECK(found, "row " + show(r) + " should not be there" + both);
            }
            for (size_t i = 1; i < got.size(); i++) {
                for (size_t k = 0; k < order.size(); k++) {
                    const Val& x = got[i - 1][orderIdx[k]];
                    const Val& y = got[i][orderIdx[k]];
                    bool decided;
                    bool asc = order[k].second;
                    bool bad = keyLess(asc ? y : x, asc ? x : y, decided);
                    if (decided) {
                        CHECK(!bad, "the rows are not sorted" + both);
                        break;
                    }
                }
            }
        }
    }
}

}  // namespace

PBT(select, 6) {
    run(g, 1);
}

PBT(join, 2) {
    run(g, 2);
}
