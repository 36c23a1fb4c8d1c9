// C01: Stream serialisation. Oracle: an independent encoder of the documented wire format (tag byte, big-endian 32-bit words)
// and the list of items that was written.
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <thread>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <limits>
#include <set>
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/io/Length.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/persist/Exporter.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/FileStream.h"
#include "eckit/serialisation/FstreamStream.h"
#include "eckit/serialisation/HandleStream.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/PipeStream.h"
#include "eckit/serialisation/Reanimator.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/types/Fraction.h"
#include "eckit/types/Types.h"
#include "eckit/value/Properties.h"
#include "tree.h"

using namespace eckit;
PBT_INIT { Main::initialise(argc, argv); }

enum T { CHAR, UCHAR, BOOL, INT, UINT, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG, DOUBLE, STRING, CSTRING, BUFFER, LBLOB, SMAP, VINT, VSTR, SETSTR, OFFSET, LENGTH, FRAC, PATH, NT };
static const char* names[] = {"char", "uchar", "bool", "int", "uint", "short", "ushort", "long", "ulong", "llong", "ullong", "double", "string", "cstring", "buffer", "largeblob", "map", "vector<int>", "vector<string>", "set<string>", "offset", "length", "fraction", "path"};

struct Item {
    T t;
    long long i = 0;
    unsigned long long u = 0;
    double d = 0;
    std::string s;
    std::map<std::string, std::string> m;
    std::vector<int> vi;
    std::vector<std::string> vs;
};
static std::ostream& operator<<(std::ostream& o, const Item& x) {
    o << names[x.t] << "(";
    switch (x.t) {
        case DOUBLE: { o << x.d; break; }
        case STRING: case CSTRING: case BUFFER: case LBLOB: case PATH: o << '"' << pbt::esc(x.s, 60) << '"'; break;
        case SMAP: o << x.m.size() << " entries"; break;
        case VINT: o << x.vi.size() << " ints"; break;
        case VSTR: case SETSTR: o << x.vs.size() << " strings"; break;
        case UINT: case ULONG: case ULLONG: o << x.u; break;
        default: o << x.i;
    }
    return o << ")";
}

static Item genItem(pbt::Gen& g) {
    Item x;
    x.t = T(g.idx(NT));
    auto shortstr = [&] { return g.bytes(10); };
    switch (x.t) {
        case CHAR: x.i = g.range(-128, 127); break;
        case UCHAR: x.i = g.range(0, 255); break;
        case BOOL: x.i = g.boolean(); break;
        case INT: x.i = g.integer(INT32_MIN, INT32_MAX); break;
        case UINT: x.u = g.uinteger(0, UINT32_MAX); break;
        case SHORT: x.i = g.integer(INT16_MIN, INT16_MAX); break;
        case USHORT: x.i = g.integer(0, UINT16_MAX); break;
        case LONG: x.i = g.integer(INT32_MIN, INT32_MAX); break;     // the wire carries 32 bits
        case ULONG: x.u = g.uinteger(0, UINT32_MAX); break;
        case LLONG: case OFFSET: case LENGTH: x.i = g.integer(INT64_MIN, INT64_MAX); if (x.t == LENGTH && x.i < 0) x.i = -(x.i + 1); break;
        case ULLONG: x.u = g.uinteger(0, UINT64_MAX); break;
        case FRAC: x.i = g.integer(-1000000000, 1000000000); x.u = g.uinteger(1, 1000000000); break;
        case DOUBLE: x.d = g.anyDouble(true); break;
        case STRING: case BUFFER: case LBLOB: x.s = g.bytes(g.chance(10) ? 5000 : 40); if (x.t == BUFFER && x.s.empty()) x.s = "b"; break;    // an empty Buffer has no address: FileHandle refuses it
        case CSTRING: x.s = g.str(20, "abc xyz\n\"\\\xff\x80"); break;
        case PATH: x.s = "/" + g.str(10, "abc.d"); break;
        case SMAP: { size_t n = g.size(5); for (size_t i = 0; i < n; i++) { auto k = shortstr(); x.m[k] = shortstr(); } break; }
        case VINT: { size_t n = g.size(8); for (size_t i = 0; i < n; i++) x.vi.push_back(int(g.integer(INT32_MIN, INT32_MAX))); break; }
        case VSTR: { size_t n = g.size(6); for (size_t i = 0; i < n; i++) x.vs.push_back(shortstr()); break; }
        case SETSTR: { std::set<std::string> s; size_t n = g.size(6); for (size_t i = 0; i < n; i++) s.insert(shortstr()); x.vs.assign(s.begin(), s.end()); break; }
        default: break;
    }
    return x;
}

static void write(Stream& s, const Item& x) {
    switch (x.t) {
        case CHAR: s << char(x.i); break;
        case UCHAR: s << (unsigned char)(x.i); break;
        case BOOL: s << bool(x.i); break;
        case INT: s << int(x.i); break;
        case UINT: s << (unsigned int)(x.u); break;
        case SHORT: s << short(x.i); break;
        case USHORT: s << (unsigned short)(x.i); break;
        case LONG: s << long(x.i); break;
        case ULONG: s << (unsigned long)(x.u); break;
        case LLONG: s << (long long)(x.i); break;
        case ULLONG: s << (unsigned long long)(x.u); break;
        case OFFSET: s << Offset(x.i); break;
        case LENGTH: s << Length(x.i); break;
        case FRAC: s << Fraction(x.i, (long long)x.u); break;
        case DOUBLE: s << x.d; break;
        case STRING: s << x.s; break;
        case CSTRING: s << x.s.c_str(); break;
        case PATH: s << PathName(x.s); break;
        case BUFFER: { Buffer b(x.s.data(), x.s.size()); s << b; break; }
        case LBLOB: s.writeLargeBlob(x.s.data(), x.s.size()); break;
        case SMAP: {
            s << (unsigned long)(x.m.size());
            for (auto& p : x.m) s << p.first << p.second;
            break;
        }
        case VINT: s << x.vi; break;
        case VSTR: s << x.vs; break;
        case SETSTR: s << std::set<std::string>(x.vs.begin(), x.vs.end()); break;
        default: break;
    }
}

// reads an item of the type and compares
static void read(Stream& s, const Item& x, const std::string& ctx) {
    auto bad = [&](auto got) { std::ostringstream o; o.precision(17); o << ctx << ": wrote " << x << ", read back " << got; pbt::fail(o.str()); };
    switch (x.t) {
        case CHAR: { char v; s >> v; if (v != char(x.i)) bad(int(v)); break; }
        case UCHAR: { unsigned char v; s >> v; if (v != x.i) bad(int(v)); break; }
        case BOOL: { bool v; s >> v; if (v != bool(x.i)) bad(v); break; }
        case INT: { int v; s >> v; if (v != x.i) bad(v); break; }
        case UINT: { unsigned int v; s >> v; if (v != x.u) bad(v); break; }
        case SHORT: { short v; s >> v; if (v != x.i) bad(v); break; }
        case USHORT: { unsigned short v; s >> v; if (v != x.i) bad(v); break; }
        case LONG: { long v; s >> v; if (v != x.i) bad(v); break; }
        case ULONG: { unsigned long v; s >> v; if (v != x.u) bad(v); break; }
        case LLONG: { long long v; s >> v; if (v != x.i) bad(v); break; }
        case ULLONG: { unsigned long long v; s >> v; if (v != x.u) bad(v); break; }
        case OFFSET: { Offset v; s >> v; if ((long long)(v) != x.i) bad((long long)(v)); break; }
        case LENGTH: { Length v; s >> v; if ((long long)(v) != x.i) bad((long long)(v)); break; }
        case FRAC: { Fraction v; s >> v; if (!(v == Fraction(x.i, (long long)x.u))) bad(v); break; }
        case DOUBLE: { double v; s >> v; if (memcmp(&v, &x.d, 8) != 0) bad(v); break; }
        case STRING: case CSTRING: { std::string v = "junk"; s >> v; if (v != x.s) bad(pbt::esc(v)); break; }
        case PATH: { PathName v; s >> v; if (!(v == PathName(x.s))) bad(v); break; }
        case BUFFER: { Buffer b(x.s.size()); s >> b; if (b.size() != x.s.size() || memcmp(b.data(), x.s.data(), x.s.size())) bad("other bytes"); break; }
        case LBLOB: { std::vector<char> b(x.s.size()); s.readLargeBlob(b.data(), b.size()); if (std::string(b.begin(), b.end()) != x.s) bad("other bytes"); break; }
        case SMAP: { std::map<std::string, std::string> v{{"old", "content"}}; s >> v; if (v != x.m) bad(std::to_string(v.size()) + " entries"); break; }
        case VINT: { std::vector<int> v{1, 2}; s >> v; if (v != x.vi) bad(std::to_string(v.size()) + " ints"); break; }
        case VSTR: { std::vector<std::string> v{"x"}; s >> v; if (v != x.vs) bad(std::to_string(v.size()) + " strings"); break; }
        case SETSTR: { std::set<std::string> v{"x"}; s >> v; if (v != std::set<std::string>(x.vs.begin(), x.vs.end())) bad(std::to_string(v.size()) + " strings"); break; }
        default: break;
    }
}

// ---- independent encoder
static void w32(std::string& o, uint32_t v) { for (int k = 3; k >= 0; k--) o += char(v >> (8 * k)); }
static void w64(std::string& o, uint64_t v) { w32(o, uint32_t(v >> 32)); w32(o, uint32_t(v)); }
static void wstr(std::string& o, const std::string& s) { o += char(15); w32(o, uint32_t(s.size())); o += s; }
static void wulong(std::string& o, unsigned long v) { o += char(10); w32(o, uint32_t(v)); }
static bool encode(std::string& o, const Item& x) {
    switch (x.t) {
        case CHAR: o += char(3); o += char(x.i); return true;
        case UCHAR: o += char(4); o += char(x.i); return true;
        case BOOL: case INT: o += char(5); w32(o, uint32_t(int32_t(x.i))); return true;
        case UINT: o += char(6); w32(o, uint32_t(x.u)); return true;
        case SHORT: o += char(7); w32(o, uint16_t(x.i)); return true;
        case USHORT: o += char(8); w32(o, uint16_t(x.i)); return true;
        case LONG: o += char(9); w32(o, uint32_t(int32_t(x.i))); return true;
        case ULONG: wulong(o, x.u); return true;
        case LLONG: o += char(11); w64(o, uint64_t(x.i)); return true;
        case ULLONG: o += char(12); w64(o, x.u); return true;
        case DOUBLE: { uint32_t h[2]; memcpy(h, &x.d, 8); o += char(14); w32(o, h[0]); w32(o, h[1]); return true; }
        case STRING: case CSTRING: wstr(o, x.s); return true;
        case BUFFER: o += char(16); w32(o, uint32_t(x.s.size())); o += x.s; return true;
        case LBLOB: o += char(21); w64(o, x.s.size()); o += x.s; return true;
        case SMAP: wulong(o, x.m.size()); for (auto& p : x.m) { wstr(o, p.first); wstr(o, p.second); } return true;
        case VINT: wulong(o, x.vi.size()); for (int v : x.vi) { o += char(5); w32(o, uint32_t(v)); } return true;
        case VSTR: case SETSTR: wulong(o, x.vs.size()); for (auto& v : x.vs) wstr(o, v); return true;
        default: return false;     // layout not fixed here
    }
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static void spew(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }

static const char* kinds[] = {"memory", "resizable", "file", "memoryhandle", "filehandle", "pipe", "fstream"};

// writes through a stream of the kind; returns the bytes that arrived
template <class F> static std::string through(pbt::Gen& g, int kind, size_t cap, const std::string& dir, F f) {
    auto run = [&](Stream& s) { long long b = s.bytesWritten(); CHECK_EQ(b, 0ll, "fresh stream"); f(s); return s.bytesWritten(); };
    std::string p = dir + "/w";
    switch (kind) {
        case 0: { Buffer b(cap + 16); MemoryStream s(b); long long n = run(s); CHECK_EQ(size_t(n), s.position(), "MemoryStream position"); return std::string((const char*)b.data(), s.position()); }
        case 1: { Buffer b(g.size(64)); ResizableMemoryStream s(b); long long n = run(s); CHECK_EQ(size_t(n), s.position(), "ResizableMemoryStream position"); CHECK(s.position() <= b.size(), "buffer too small"); return std::string((const char*)b.data(), s.position()); }
        case 2: { { FileStream s(p, "w"); run(s); s.close(); } return slurp(p); }
        case 3: { MemoryHandle h(size_t(16), true); h.openForWrite(0); HandleStream s(h); run(s); std::string r((const char*)h.data(), size_t(h.position())); h.close(); return r; }
        case 4: { FileHandle h(p); h.openForWrite(0); HandleStream s(h); run(s); h.close(); return slurp(p); }
        case 5: {
            int fd[2];
            ASSERT(::pipe(fd) == 0);
            std::string r;
            std::thread t([&] { char b[512]; ssize_t n; while ((n = ::read(fd[0], b, sizeof b)) > 0) r.append(b, n); });
            std::exception_ptr e;
            { PipeStream s(-1, fd[1]); try { run(s); } catch (...) { e = std::current_exception(); } }
            t.join();
            ::close(fd[0]);
            if (e) std::rethrow_exception(e);
            return r;
        }
        default: { { std::fstream fs(p, std::ios::out | std::ios::binary | std::ios::trunc); FstreamStream s(fs); run(s); } return slurp(p); }
    }
}
// reads the bytes through a stream of the kind
template <class F> static void from(pbt::Gen& g, int kind, const std::string& bytes, const std::string& dir, F f) {
    std::string p = dir + "/r";
    switch (kind) {
        case 0: { std::vector<char> v(bytes.begin(), bytes.end()); MemoryStream s((const void*)v.data(), v.size()); f(s); break; }
        case 1: { Buffer b(bytes.data(), bytes.size()); ResizableMemoryStream s(b); f(s); break; }
        case 2: { spew(p, bytes); FileStream s(p, "r"); f(s); s.close(); break; }
        case 3: { MemoryHandle h(bytes.data(), bytes.size()); h.openForRead(); HandleStream s(h); f(s); h.close(); break; }
        case 4: { spew(p, bytes); FileHandle h(p); h.openForRead(); HandleStream s(h); f(s); h.close(); break; }
        case 5: {
            int fd[2];
            ASSERT(::pipe(fd) == 0);
            std::thread t([&] {
                size_t done = 0; uint64_t r = bytes.size();
                while (done < bytes.size()) {     // short chunks: reads arrive in pieces
                    r = r * 6364136223846793005ull + 1442695040888963407ull;
                    size_t n = std::min<size_t>(bytes.size() - done, 1 + (r >> 40) % 97);
                    ssize_t k = ::write(fd[1], bytes.data() + done, n);
                    if (k <= 0) break;
                    done += k;
                }
                ::close(fd[1]);
            });
            std::exception_ptr e;
            { PipeStream s(fd[0], -1); try { f(s); } catch (...) { e = std::current_exception(); char b[512]; while (::read(fd[0], b, sizeof b) > 0) ; } }
            t.join();
            if (e) std::rethrow_exception(e);
            break;
        }
        default: { spew(p, bytes); std::fstream fs(p, std::ios::in | std::ios::binary); FstreamStream s(fs); f(s); break; }
    }
}

PBT(roundtrip, 8) {
    int wk = int(g.weighted({4, 4, 2, 3, 2, 2, 1})), rk = int(g.weighted({4, 3, 2, 3, 2, 2, 1}));
    size_t n = 1 + g.size(8);
    std::vector<Item> items;
    for (size_t i = 0; i < n; i++) items.push_back(genItem(g));
    // object brackets around some items: readers skip the trailing end markers
    std::vector<int> open(n + 1), close(n + 1);
    g.note([&](std::ostream& o) { o << kinds[wk] << " -> " << kinds[rk] << ":"; for (auto& x : items) o << " " << x; });
    g.nontrivial(n >= 2);
    g.label(std::string("w:") + kinds[wk]); g.label(std::string("r:") + kinds[rk]);
    std::string expect; bool known = true;
    std::vector<size_t> ends;
    for (auto& x : items) known = encode(expect, x) && known;
    size_t cap = 0;
    for (auto& x : items) { std::string e; cap += 200 + 2 * x.s.size() + 20 * x.vi.size(); for (auto& v : x.vs) cap += v.size() + 10; for (auto& p : x.m) cap += p.first.size() + p.second.size() + 20; }
    std::string dir = g.freshDir();
    long long counted = 0;
    std::string bytes = through(g, wk, cap, dir, [&](Stream& s) { for (auto& x : items) { write(s, x); ends.push_back(size_t(s.bytesWritten())); } counted = s.bytesWritten(); });
    CHECK_EQ(bytes.size(), size_t(counted), "bytesWritten");
    if (known) CHECK(bytes == expect, "wire bytes " << pbt::hexs(bytes.data(), bytes.size()) << " instead of " << pbt::hexs(expect.data(), expect.size()));
    from(g, rk, bytes, dir, [&](Stream& s) {
        for (auto& x : items) read(s, x, std::string(kinds[wk]) + " -> " + kinds[rk]);
        if (rk != 6) { std::string more; CHECK(!s.next(more), "a string at the end of the stream"); }
    });
    // truncation anywhere: everything before the cut comes back, the cut item raises, nothing is invented
    if (!bytes.empty() && rk != 6) {
        size_t cut = g.idx(bytes.size());
        size_t whole = 0;
        while (ends[whole] <= cut) whole++;
        from(g, rk, bytes.substr(0, cut), dir, [&](Stream& s) {
            for (size_t i = 0; i < whole; i++) read(s, items[i], "before the cut");
            CHECK(pbt::throws([&] { read(s, items[whole], "cut"); }), "stream cut at byte " << cut << " of " << bytes.size() << " inside " << items[whole] << ", read without an error");
        });
    }
}

static int tagOf(T t) {
    switch (t) { case BOOL: return INT; case CSTRING: case PATH: return STRING; case SMAP: case VINT: case VSTR: case SETSTR: return ULONG; case OFFSET: case LENGTH: case FRAC: return LLONG; default: return t; }
}
PBT(mismatch, 2) {
    Item a = genItem(g), b = genItem(g);
    b.t = T(g.idx(NT));
    if (tagOf(a.t) == tagOf(b.t)) pbt::discard();
    if (a.t == LENGTH || a.t == OFFSET || b.t == LENGTH || b.t == OFFSET || a.t == FRAC || b.t == FRAC) pbt::discard();
    g.note([&](std::ostream& o) { o << "wrote " << a << ", read as " << names[b.t]; });
    g.nontrivial();
    std::string dir = g.freshDir();
    Buffer buf(64);
    ResizableMemoryStream w(buf);
    write(w, a);
    std::vector<char> v((const char*)buf.data(), (const char*)buf.data() + w.position());
    MemoryStream s((const void*)v.data(), v.size());
    bool raised = false;
    try { read(s, b, "mismatch"); } catch (pbt::Failure&) {} catch (std::exception& e) { raised = true; }
    CHECK(raised, "a " << names[a.t] << " was read as a " << names[b.t]);
}

// remote exceptions, objects and end-of-object markers, next()
PBT(objects, 3) {
    size_t n = 1 + g.size(6);
    struct O { std::vector<Item> items; int style; int extra; };
    std::vector<O> objs;
    for (size_t i = 0; i < n; i++) {
        O o; o.style = int(g.idx(3)); o.extra = int(g.size(3));
        size_t k = g.size(4);
        for (size_t j = 0; j < k; j++) o.items.push_back(genItem(g));
        objs.push_back(o);
    }
    bool ex = g.chance(30);
    std::string what = g.str(20, "abc def");
    g.nontrivial(n > 1);
    g.note([&](std::ostream& o) { o << n << " objects"; for (auto& x : objs) { o << " {"; for (auto& y : x.items) o << " " << y; o << " }"; } if (ex) o << " then exception '" << what << "'"; });
    Buffer buf(16);
    ResizableMemoryStream w(buf);
    for (auto& o : objs) {
        w.startObject();
        for (auto& x : o.items) write(w, x);
        for (int e = 0; e < 1 + o.extra; e++) w.endObject();
    }
    if (ex) { std::runtime_error e(what); w << e; }
    std::vector<char> v((const char*)buf.data(), (const char*)buf.data() + w.position());
    MemoryStream s((const void*)v.data(), v.size());
    for (auto& o : objs) {
        CHECK(s.next(), "start of an object expected");
        for (size_t k = 0; k < o.items.size(); k++) {
            CHECK(!s.endObjectFound(), "end of object before its last item");
            read(s, o.items[k], "in object");
        }
        if (o.style == 0) { CHECK(s.endObjectFound(), "end of object"); CHECK(s.endObjectFound(), "end of object, asked twice"); s.skipEndObject(); }
        else if (o.style == 1) { s.skipEndObject(); }
    }
    if (ex) {
        std::string msg;
        bool r = false;
        int k;
        try { s >> k; } catch (eckit::RemoteException& e) { r = true; msg = e.what(); }
        CHECK(r, "a streamed exception was not raised");
        CHECK(msg.find(what) != std::string::npos, "streamed exception '" << what << "' arrived as '" << msg << "'");
    }
    else CHECK(!s.next(), "end of stream");
    // next(int), next(bool), next(string)
    Buffer b2(64);
    ResizableMemoryStream w2(b2);
    int iv = int(g.integer(INT32_MIN, INT32_MAX)); bool bv = g.boolean(); std::string sv = g.bytes(30);
    w2 << iv << bv << sv;
    MemoryStream r2((const void*)b2.data(), w2.position());
    int i2; bool bb; std::string ss;
    CHECK(r2.next(i2) && i2 == iv, "next(int)");
    CHECK(r2.next(bb) && bb == bv, "next(bool)");
    CHECK(r2.next(ss) && ss == sv, "next(string)");
    CHECK(!r2.next(i2) && !r2.next(bb) && !r2.next(ss), "next() at the end");
    // rewind
    r2.rewind();
    CHECK(r2.next(i2) && i2 == iv && r2.position() == 5, "after rewind");
}

// bounded memory stream: writing beyond the end raises, never overruns
PBT(bounded, 1) {
    size_t cap = g.size(60);
    std::vector<char> v(cap);
    MemoryStream s((void*)v.data(), v.size());
    size_t n = 1 + g.size(10), done = 0;
    std::string expect;
    g.nontrivial();
    for (size_t i = 0; i < n; i++) {
        Item x = genItem(g);
        std::string e;
        if (!encode(e, x)) continue;
        if (expect.size() + e.size() <= cap) {
            write(s, x); expect += e;
            CHECK_EQ(s.position(), expect.size(), "position");
        }
        else {
            CHECK(pbt::throws([&] { write(s, x); }), x << " of " << e.size() << " bytes written at " << expect.size() << " of " << cap);
            g.label("full");
            break;
        }
    }
    CHECK(std::string(v.begin(), v.begin() + expect.size()) == expect, "content");
}

// Value trees, Properties, URIs and reanimated handles
PBT(values, 4) {
    TreeOpts o; o.date = true; o.omap = true;
    Tree t = genTree(g, o);
    if (g.chance(30)) orderMaps(t);
    g.note([&](std::ostream& os) { os << t; });
    g.nontrivial(t.count() > 2);
    Value v = toValue(t);
    Buffer buf(8);
    ResizableMemoryStream w(buf);
    w << v;
    int after = int(g.integer(INT32_MIN, INT32_MAX));
    w << after;
    MemoryStream r((const void*)buf.data(), w.position());
    Value u(r);
    Tree back = fromValue(u);
    CHECK(back == t, "value " << t << " came back as " << back);
    int a2;
    r >> a2;
    CHECK_EQ(a2, after, "item after a value");
    if (t.k == Tree::Map) {
        Properties p(v);
        Buffer b2(8);
        ResizableMemoryStream w2(b2);
        w2 << p;
        MemoryStream r2((const void*)b2.data(), w2.position());
        Properties q(r2);
        for (auto& kv : t.map) CHECK(fromValue(q.get(kv.first)) == kv.second, "property " << kv.first);
        CHECK(!q.has("no such key at all"), "has()");
    }
    // a value cut anywhere raises
    size_t cut = g.idx(w.position() - 5), need = w.position() - 5;
    while (need > 0 && ((const char*)buf.data())[need - 1] == 2) need--;      // trailing end-of-object markers are not needed
    if (cut < need) {
        MemoryStream rc((const void*)buf.data(), cut);
        CHECK(pbt::throws([&] { Value x(rc); }), "value " << t << " cut at byte " << cut << " of " << w.position() - 5);
    }
}

PBT(uri, 1) {
    std::string scheme = g.pick<std::string>({"http", "https", "file", "fdb", "posix"});
    std::string host = g.pick<std::string>({"localhost", "example.org", "10.1.2.3"});
    int port = int(g.range(1, 65535));
    URI u(scheme, host, port);
    u.path("/" + g.str(10, "abc/.-_"));
    size_t n = g.size(4);
    for (size_t i = 0; i < n; i++) u.query(g.ident(), g.str(6, "abc123-_"));
    if (g.boolean()) u.fragment(g.ident());
    g.note([&](std::ostream& o) { o << u.asRawString(); });
    g.nontrivial(n > 0);
    Buffer buf(8);
    ResizableMemoryStream w(buf);
    w << u;
    MemoryStream r((const void*)buf.data(), w.position());
    URI v(r);
    CHECK(u == v && !(u != v), u.asRawString() << " came back as " << v.asRawString());
    CHECK_EQ(u.asRawString(), v.asRawString(), "text of the URI");
}

PBT(reanimate, 2) {
    std::string dir = g.freshDir();
    size_t nf = 1 + g.size(3);
    std::vector<std::string> files, content;
    for (size_t i = 0; i < nf; i++) { files.push_back(dir + "/f" + std::to_string(i)); content.push_back(g.bytes(200)); if (content.back().empty()) content.back() = "x"; spew(files.back(), content.back()); }
    std::string expect;
    auto leaf = [&]() -> DataHandle* {
        size_t f = g.idx(nf);
        if (g.boolean()) { expect += content[f]; return new FileHandle(files[f]); }
        OffsetList ol; LengthList ll;
        size_t n = 1 + g.size(4);
        for (size_t i = 0; i < n; i++) { size_t o = g.idx(content[f].size()), l = g.size(content[f].size() - o); ol.push_back((long long)o); ll.push_back((long long)l); expect += content[f].substr(o, l); }
        return new PartFileHandle(files[f], ol, ll);
    };
    std::unique_ptr<DataHandle> h;
    bool multi = g.boolean();
    if (multi) { auto* m = new MultiHandle(); size_t n = 1 + g.size(4); for (size_t i = 0; i < n; i++) *m += leaf(); h.reset(m); }
    else h.reset(leaf());
    g.nontrivial(multi);
    g.note([&](std::ostream& o) { o << *h; });
    Buffer buf(8);
    ResizableMemoryStream w(buf);
    w << *h;
    w << 42;
    MemoryStream r((const void*)buf.data(), w.position());
    std::unique_ptr<DataHandle> k(Reanimator<DataHandle>::reanimate(r));
    CHECK(k.get(), "no handle came back");
    CHECK_EQ(k->className(), h->className(), "class");
    int x; r >> x; CHECK_EQ(x, 42, "item after a handle");
    auto readAll = [&](DataHandle& d) { long long len = d.openForRead(); AutoClose c(d); std::string s; char b[64]; long n; while ((n = d.read(b, 64)) > 0) s.append(b, n); CHECK_EQ(size_t(len), s.size(), "length announced by openForRead of " << d); return s; };
    std::string got = readAll(*k);
    CHECK(got == expect, "reanimated handle " << *k << " reads " << pbt::esc(got, 100) << " instead of " << pbt::esc(expect, 100));
    // unknown class names and classes of another hierarchy do not come back as handles
    Buffer b2(64);
    ResizableMemoryStream w2(b2);
    w2 << toValue(Tree());
    MemoryStream r2((const void*)b2.data(), w2.position());
    bool ok = false;
    try { std::unique_ptr<DataHandle> z(Reanimator<DataHandle>::reanimate(r2)); ok = z == nullptr; } catch (std::exception&) { ok = true; }
    CHECK(ok, "a Value was reanimated as a DataHandle");
    Buffer b3(64);
    ResizableMemoryStream w3(b3);
    w3.startObject(); w3 << std::string("NoSuchClass"); w3.endObject();
    MemoryStream r3((const void*)b3.data(), w3.position());
    CHECK(pbt::throws([&] { Reanimator<DataHandle>::reanimate(r3); }), "an unknown class was reanimated");
}

// what is exported, is imported: databases of objects of parts, whose members are met by the path of their classes and names
namespace {

bool sameBits(double a, double b) { return !std::memcmp(&a, &b, sizeof(a)) || (a != a && b != b); }

struct Member {
    std::vector<std::pair<std::string, std::string>> path;  // classes, and the member in each (none in a last one)
    char kind;
    long long i;
    unsigned long long u;
    double d;
    std::string key() const {
        std::string k;
        for (auto& p : path) k += (k.empty() ? "" : ".") + p.first + (p.second.empty() ? "" : "." + p.second);
        return k;
    }
};
struct Thing {
    unsigned long long type, location, id, count;
    std::vector<std::vector<Member>> parts;
};
struct Base {
    std::string name;
    unsigned long id;
    unsigned long long count;
    std::vector<Thing> things;
};

void readAll(Exporter& in, const std::vector<Base>& bases, pbt::Gen* g) {
    for (auto& b : bases) {
        std::string name;
        unsigned long long id = 0, count = 0;
        CHECK(in.nextDatabase(name, id, count), "a database is missing");
        CHECK_EQ(name, b.name, "name of a database");
        CHECK_EQ(id, b.id, "id of a database");
        CHECK_EQ(count, b.count, "count of a database");
        for (auto& t : b.things) {
            CHECK_EQ(in.nextObject(), t.count, "count of an object");
            CHECK_EQ(in.type(), t.type, "type of an object");
            CHECK_EQ(in.location(), t.location, "location of an object");
            CHECK_EQ(in.objectId(), t.id, "id of an object");
            for (auto& p : t.parts) {
                in.nextSubObject();
                for (auto& m : p) {
                    std::string k = m.key();
                    if (g && g->boolean()) {
                        // by the way of classes that are evolved
                        Evolve* e = new Evolve(in);
                        std::vector<std::unique_ptr<Evolve>> keep;
                        keep.emplace_back(e);
                        for (auto& x : m.path) {
                            e = new Evolve((*e)(x.first.c_str(), x.second.empty() ? nullptr : x.second.c_str()));
                            keep.emplace_back(e);
                        }
                        if (m.kind == 's') CHECK_EQ((long long)(*e), m.i, k);
                        else if (m.kind == 'u') CHECK_EQ((unsigned long long)(*e), m.u, k);
                        else CHECK(sameBits(double(*e), m.d), k << " is another number");
                    }
                    else if (m.kind == 's') CHECK_EQ(in.getSignedMember(k), m.i, k);
                    else if (m.kind == 'u') CHECK_EQ(in.getUnsignedMember(k), m.u, k);
                    else CHECK(sameBits(in.getDoubleMember(k), m.d), k << " is another number");
                }
            }
            in.endObject();
        }
        CHECK_EQ(in.nextObject(), 0u, "more objects than there are");
    }
    std::string name;
    unsigned long long id, count;
    CHECK(!in.nextDatabase(name, id, count), "more databases than there are");
}

}  // namespace

PBT(exports, 2) {
    std::vector<Base> bases(g.size(3));
    size_t members = 0, things = 0;
    std::ostringstream log;
    for (auto& b : bases) {
        b.name  = "/" + g.str(12, "ab/ ");
        b.id    = (unsigned long)g.uinteger(0, ~0ul);
        b.count = g.uinteger(0, ~0ull);
        b.things.resize(g.size(4));
        log << "database " << pbt::esc(b.name) << "\n";
        for (auto& t : b.things) {
            t = {g.uinteger(0, ~0ull), g.uinteger(0, ~0ull), g.uinteger(0, ~0ull), g.uinteger(1, 1000000), {}};
            ++things;
            t.parts.resize(1 + g.size(3));
            log << " object " << t.type << " " << t.id << "\n";
            for (auto& p : t.parts) {
                std::set<std::string> used;
                log << "  part";
                for (size_t n = g.size(6); n; --n) {
                    Member m;
                    for (size_t k = 1 + g.idx(3); k; --k) m.path.push_back({g.ident(), k == 1 && g.chance(20) ? "" : g.ident()});
                    if (!used.insert(m.key()).second) continue;
                    m.kind = "sud"[g.idx(3)];
                    m.i    = g.integer(std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max());
                    m.u    = g.uinteger(0, ~0ull);
                    m.d    = g.anyDouble(true);
                    log << " " << m.key() << "=" << m.kind;
                    p.push_back(m);
                    ++members;
                }
                log << "\n";
            }
        }
    }
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(things > 1 && members > 1);
    std::string path = g.freshDir() + "/export";
    {
        FileHandle h(path, true);
        Exporter out(h);
        out.openForWrite();
        for (auto& b : bases) {
            out.startDatabase(b.name, b.id, b.count);
            for (auto& t : b.things) {
                _startObject(out, t.type, t.location, t.id, size_t(t.count));
                for (auto& p : t.parts) {
                    _startSubObject(out);
                    for (auto& m : p) {
                        for (auto& x : m.path) {
                            _startClass(out, x.first.c_str());
                            if (!x.second.empty()) _startMember(out, x.second.c_str());
                        }
                        if (m.kind == 's') out.writeSigned(m.i);
                        else if (m.kind == 'u') out.writeUnsigned(m.u);
                        else out.writeDouble(m.d);
                        for (auto x = m.path.rbegin(); x != m.path.rend(); ++x) {
                            if (!x->second.empty()) _endMember(out, x->second.c_str());
                            _endClass(out, x->first.c_str());
                        }
                    }
                    _endSubObject(out);
                }
                _endObject(out, t.type, t.location, t.id, size_t(t.count));
            }
            out.endDatabase(b.name, b.id);
        }
        out.close();
    }
    {
        FileHandle h(path);
        h.openForRead();
        AutoClose c(h);
        Exporter in(h);
        readAll(in, bases, &g);
    }
    // a part of an export is not taken for all of it
    off_t all = PathName(path).size();
    if (::truncate(path.c_str(), off_t(g.range(0, long(all) - 1)))) pbt::fail("truncate");
    FileHandle h(path);
    h.openForRead();
    AutoClose c(h);
    Exporter in(h);
    bool done = false;
    try {
        readAll(in, bases, nullptr);
        done = true;
    }
    catch (Exception&) {}
    CHECK(!done, "a part of an export is taken for all of it");
}
