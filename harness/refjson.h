// A strict JSON parser (RFC 8259) into the reference tree; the independent oracle for what is written as JSON.
#pragma once
#include <cstdlib>
#include <string>
#include "tree.h"

struct RefJson {
    const std::string& t;
    size_t p = 0;
    std::string err;
    bool saturate = false;  // integers outside of 64 bits are the nearest one within
    explicit RefJson(const std::string& s) : t(s) {}
    bool bad(const char* w) { if (err.empty()) err = std::string(w) + " at " + std::to_string(p); return false; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    static void utf8(std::string& o, uint32_t c) {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    }
    bool hex4(uint32_t& v) {
        v = 0;
        for (int i = 0; i < 4; i++, p++) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("hex digit"); v = v * 16 + uint32_t(strtol(t.substr(p, 1).c_str(), nullptr, 16)); }
        return true;
    }
    bool str(std::string& o) {
        if (p >= t.size() || t[p] != '"') return bad("string");
        p++;
        for (;;) {
            if (p >= t.size()) return bad("unterminated string");
            unsigned char c = (unsigned char)t[p++];
            if (c == '"') return true;
            if (c < 0x20) return bad("control character in string");
            if (c != '\\') { o += char(c); continue; }
            if (p >= t.size()) return bad("escape");
            switch (t[p++]) {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break;
                case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': {
                    uint32_t v, w;
                    if (!hex4(v)) return false;
                    if (v >= 0xdc00 && v < 0xe000) return bad("lone surrogate");
                    if (v >= 0xd800 && v < 0xdc00) { if (t.compare(p, 2, "\\u")) return bad("lone surrogate"); p += 2; if (!hex4(w)) return false; if (w < 0xdc00 || w > 0xdfff) return bad("surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
                    utf8(o, v);
                    break;
                }
                default: return bad("escape");
            }
        }
    }
    bool value(Tree& o, int depth = 0) {
        if (depth > 200) return bad("depth");
        ws();
        if (p >= t.size()) return bad("value");
        char c = t[p];
        if (c == '{') {
            o.k = Tree::OMap; p++; ws();
            if (p < t.size() && t[p] == '}') { p++; return true; }
            for (;;) {
                ws();
                std::string k; if (!str(k)) return false;
                ws(); if (p >= t.size() || t[p] != ':') return bad("colon"); p++;
                Tree v; if (!value(v, depth + 1)) return false;
                bool done = false;
                for (auto& x : o.map) if (x.first == k) { x.second = v; done = true; }
                if (!done) o.map.emplace_back(k, v);
                ws(); if (p >= t.size()) return bad("object"); if (t[p] == '}') { p++; return true; } if (t[p++] != ',') return bad("comma");
            }
        }
        if (c == '[') {
            o.k = Tree::List; p++; ws();
            if (p < t.size() && t[p] == ']') { p++; return true; }
            for (;;) {
                Tree v; if (!value(v, depth + 1)) return false;
                o.list.push_back(v);
                ws(); if (p >= t.size()) return bad("array"); if (t[p] == ']') { p++; return true; } if (t[p++] != ',') return bad("comma");
            }
        }
        if (c == '"') { o.k = Tree::Str; return str(o.s); }
        if (t.compare(p, 4, "true") == 0) { o.k = Tree::Bool; o.b = true; p += 4; return true; }
        if (t.compare(p, 5, "false") == 0) { o.k = Tree::Bool; p += 5; return true; }
        if (t.compare(p, 4, "null") == 0) { p += 4; return true; }
        size_t b = p;
        bool real = false;
        auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
        if (t[p] == '-') p++;
        if (!dig()) return bad("value");
        if (t[p] == '0') p++; else while (dig()) p++;
        if (p < t.size() && t[p] == '.') { real = true; p++; if (!dig()) return bad("digit"); while (dig()) p++; }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { real = true; p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) return bad("digit"); while (dig()) p++; }
        std::string n = t.substr(b, p - b);
        if (real) { errno = 0; o.k = Tree::Double; o.d = strtod(n.c_str(), nullptr); if (std::isinf(o.d) || (o.d == 0 && errno == ERANGE)) return bad("range"); }
        else { errno = 0; o.k = Tree::Int; o.i = strtoll(n.c_str(), nullptr, 10); if (errno && !saturate) return bad("range"); }
        return true;
    }
    bool parse(Tree& o) {
        if (!value(o)) return false;
        ws();
        return p == t.size() || bad("trailing characters");
    }
};

// the text of a tree, with generated white space, escapes and number notations
struct JsonText {
    pbt::Gen& g;
    bool plain;  // least white space
    std::string ws() {
        if (plain || g.chance(60)) return "";
        return g.pick<std::string>({" ", "\n", "  ", "\t", "\r\n", " \n "});
    }
    std::string str(const std::string& s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size();) {
            unsigned char c = (unsigned char)s[i];
            size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            if (i + n > s.size()) n = 1;
            bool must = c < 0x20 || c == '"' || c == '\\';
            if (must || g.chance(8)) {
                static const char* sh = "\"\\/\b\f\n\r\t";
                static const char* nm = "\"\\/bfnrt";
                const char* q = c ? strchr(sh, c) : nullptr;
                if (q && g.chance(70)) { r += '\\'; r += nm[q - sh]; }
                else {
                    uint32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
                    for (size_t k = 1; k < n; k++) v = v << 6 | ((unsigned char)s[i + k] & 63);
                    char b[20];
                    const char* f = g.boolean() ? "\\u%04x" : "\\u%04X";
                    if (v >= 0x10000) { snprintf(b, sizeof b, f, 0xd800 + ((v - 0x10000) >> 10)); r += b; snprintf(b, sizeof b, f, 0xdc00 + ((v - 0x10000) & 0x3ff)); r += b; }
                    else { snprintf(b, sizeof b, f, v); r += b; }
                }
            }
            else r.append(s, i, n);
            i += n;
        }
        return r + '"';
    }
    std::string num(double d) {
        char b[64];
        if (g.boolean()) snprintf(b, sizeof b, "%.17g", d); else snprintf(b, sizeof b, "%.16e", d);
        std::string s = b;
        if (s.find_first_of(".eE") == std::string::npos) s += g.boolean() ? ".0" : "e0";
        if (g.chance(30)) for (auto& c : s) if (c == 'e') c = 'E';
        return s;
    }
    std::string text(const Tree& t) {
        std::string r = ws();
        switch (t.k) {
            case Tree::Nil: r += "null"; break;
            case Tree::Bool: r += t.b ? "true" : "false"; break;
            case Tree::Int: r += std::to_string(t.i); break;
            case Tree::Double: r += num(t.d); break;
            case Tree::Str: r += str(t.s); break;
            case Tree::List: { r += "["; const char* c = ""; for (auto& x : t.list) { r += c + text(x); c = ","; } if (t.list.empty()) r += ws(); r += "]"; break; }
            default: { r += "{"; const char* c = ""; for (auto& x : t.map) { r += c + ws() + str(x.first) + ws() + ":" + text(x.second); c = ","; } if (t.map.empty()) r += ws(); r += "}"; }
        }
        return r + ws();
    }
};
