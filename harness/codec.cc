// C02: records written by eckit::codec read back exactly, wherever they lie and whatever the compression; damage is noticed
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <sstream>

#include "eckit/codec/codec.h"
#include "eckit/codec/RecordItemReader.h"
#include "eckit/codec/RecordPrinter.h"
#include "eckit/codec/detail/ParsedRecord.h"
#include "eckit/codec/detail/RecordSections.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

template <typename T>
struct Matrix {
    std::vector<T> v;
    size_t r = 0, c = 0;
};
template <typename T>
void interprete(const Matrix<T>& in, codec::ArrayReference& out) {
    out = codec::ArrayReference(in.v.data(), codec::make_datatype<T>(), codec::ArrayShape{in.r, in.c});
}
template <typename T>
void decode(const codec::Metadata& m, const codec::Data& d, Matrix<T>& out) {
    codec::ArrayMetadata a(m);
    CHECK_EQ(a.rank(), 2, "rank of a matrix");
    CHECK(a.datatype() == codec::make_datatype<T>(), "datatype of a matrix");
    out.r = a.shape(0);
    out.c = a.shape(1);
    out.v.resize(out.r * out.c);
    CHECK_EQ(d.size(), out.v.size() * sizeof(T), "data size of a matrix");
    if (d.size()) memcpy(out.v.data(), d, d.size());
}

enum Kind { INT, LONG, LLONG, ULONG, FLOAT, DOUBLE, STRING, VINT, VLONG, VFLOAT, VDOUBLE, ARR, VARR, MAT, VULONG, NKIND };
static const char* kindName[] = {"int", "long", "long long", "unsigned long", "float", "double", "string", "vector<int>", "vector<long>", "vector<float>", "vector<double>", "array<int,5>", "vector<array<double,2>>", "matrix<double>", "vector<size_t>"};

struct Item {
    std::string key;
    Kind kind;
    long l = 0;
    unsigned long ul = 0;
    double d = 0;
    float f = 0;
    std::string s, comp;  // comp empty: the writer's
    std::vector<int> vi;
    std::vector<long> vl;
    std::vector<unsigned long> vu;
    std::vector<float> vf;
    std::vector<double> vd;
    std::array<int, 5> a{};
    std::vector<std::array<double, 2>> va;
    Matrix<double> m;
    bool useRef = false;
    size_t bytes() const {  // payload bytes in a data section (0: none)
        switch (kind) {
            case VINT: return vi.size() * 4;
            case VLONG: return vl.size() * 8;
            case VULONG: return vu.size() * 8;
            case VFLOAT: return vf.size() * 4;
            case VDOUBLE: return vd.size() * 8;
            case ARR: return 20;
            case VARR: return va.size() * 16;
            case MAT: return m.v.size() * 8;
            default: return 0;
        }
    }
    bool array() const { return kind >= VINT; }
};

static size_t count(pbt::Gen& g) { return g.chance(4) ? 1000 + g.size(20000) : g.size(40); }
template <typename T, typename F>
static void fill(pbt::Gen& g, std::vector<T>& v, F f) {
    size_t n = count(g);
    v.resize(n);
    size_t distinct = 1 + g.size(20);
    for (size_t i = 0; i < n; i++) v[i] = i < distinct ? f() : v[i % distinct];
}

static const std::vector<std::string> comps{"none", "lz4", "snappy", "bzip2"};

static Item genItem(pbt::Gen& g, const std::string& key) {
    Item i;
    i.key = key;
    i.kind = Kind(g.idx(NKIND));
    switch (i.kind) {
        case INT: i.l = g.integer(INT32_MIN, INT32_MAX); break;
        case LONG: case LLONG: i.l = g.integer(INT64_MIN, INT64_MAX); break;
        case ULONG: i.ul = g.uinteger(0, UINT64_MAX); break;
        case FLOAT: i.f = float(g.anyDouble(true)); break;
        case DOUBLE: i.d = g.anyDouble(true); break;
        case STRING: i.s = g.chance(20) ? g.str(300, "abcXYZ 019") : g.str(30, std::string(" \n\t\"'\\:{}[],#&*!|>%@`-~?ab1.\xc3\xa9")); break;
        case VINT: fill(g, i.vi, [&] { return int(g.integer(INT32_MIN, INT32_MAX)); }); break;
        case VLONG: fill(g, i.vl, [&] { return long(g.integer(INT64_MIN, INT64_MAX)); }); break;
        case VULONG: fill(g, i.vu, [&] { return (unsigned long)(g.uinteger(0, UINT64_MAX)); }); break;
        case VFLOAT: fill(g, i.vf, [&] { return float(g.anyDouble(true)); }); break;
        case VDOUBLE: fill(g, i.vd, [&] { return g.anyDouble(true); }); break;
        case ARR: for (auto& x : i.a) x = int(g.integer(INT32_MIN, INT32_MAX)); break;
        case VARR: { size_t n = count(g); for (size_t k = 0; k < n; k++) i.va.push_back({k < 10 ? g.anyDouble(true) : double(k), 1.5}); break; }
        case MAT: { i.m.r = g.range(0, 6); i.m.c = g.range(0, 6); i.m.v.resize(i.m.r * i.m.c); for (auto& x : i.m.v) x = g.anyDouble(true); break; }
        default: break;
    }
    if (g.chance(35)) i.comp = g.pick(comps);
    i.useRef = g.boolean();
    return i;
}

static void put(codec::RecordWriter& w, const Item& i) {
    eckit::LocalConfiguration c;
    if (!i.comp.empty()) c.set("compression", i.comp);
    auto arr = [&](const auto& v) {
        if (i.useRef) { w.set(i.key, codec::ref(v), c); }
        else { w.set(i.key, codec::copy(v), c); }
    };
    switch (i.kind) {
        case INT: w.set(i.key, int(i.l), c); break;
        case LONG: w.set(i.key, long(i.l), c); break;
        case LLONG: w.set(i.key, (long long)(i.l), c); break;
        case ULONG: w.set(i.key, (unsigned long)(i.ul), c); break;
        case FLOAT: w.set(i.key, float(i.f), c); break;
        case DOUBLE: w.set(i.key, double(i.d), c); break;
        case STRING: if (i.useRef) w.set(i.key, i.s, c); else if (i.s.find('\0') == std::string::npos) w.set(i.key, i.s.c_str(), c); else w.set(i.key, i.s, c); break;
        case VINT: arr(i.vi); break;
        case VLONG: arr(i.vl); break;
        case VULONG: arr(i.vu); break;
        case VFLOAT: arr(i.vf); break;
        case VDOUBLE: arr(i.vd); break;
        case ARR: arr(i.a); break;
        case VARR: arr(i.va); break;
        case MAT: arr(i.m); break;
        default: break;
    }
}

// a reader's destinations must outlive the request
struct Dest {
    int i = 0; long l = 0; long long ll = 0; unsigned long ul = 0; float f = 0; double d = 0; std::string s = "unset";
    std::vector<int> vi{7}; std::vector<long> vl; std::vector<unsigned long> vu; std::vector<float> vf; std::vector<double> vd{1, 2, 3};
    std::array<int, 5> a{}; std::vector<std::array<double, 2>> va; Matrix<double> m;
};
static void ask(codec::RecordReader& r, const Item& i, Dest& d) {
    switch (i.kind) {
        case INT: r.read(i.key, d.i); break;
        case LONG: r.read(i.key, d.l); break;
        case LLONG: r.read(i.key, d.ll); break;
        case ULONG: r.read(i.key, d.ul); break;
        case FLOAT: r.read(i.key, d.f); break;
        case DOUBLE: r.read(i.key, d.d); break;
        case STRING: r.read(i.key, d.s); break;
        case VINT: r.read(i.key, d.vi); break;
        case VLONG: r.read(i.key, d.vl); break;
        case VULONG: r.read(i.key, d.vu); break;
        case VFLOAT: r.read(i.key, d.vf); break;
        case VDOUBLE: r.read(i.key, d.vd); break;
        case ARR: r.read(i.key, d.a); break;
        case VARR: r.read(i.key, d.va); break;
        case MAT: r.read(i.key, d.m); break;
        default: break;
    }
}
template <typename T>
static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0 || a == b || (a != a && b != b); }
template <typename T>
static bool same(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0); }
static bool matches(const Item& i, const Dest& d) {
    switch (i.kind) {
        case INT: return d.i == int(i.l);
        case LONG: return d.l == i.l;
        case LLONG: return d.ll == i.l;
        case ULONG: return d.ul == i.ul;
        case FLOAT: return same(d.f, i.f);
        case DOUBLE: return same(d.d, i.d);
        case STRING: return d.s == i.s;
        case VINT: return same(d.vi, i.vi);
        case VLONG: return same(d.vl, i.vl);
        case VULONG: return same(d.vu, i.vu);
        case VFLOAT: return same(d.vf, i.vf);
        case VDOUBLE: return same(d.vd, i.vd);
        case ARR: return d.a == i.a;
        case VARR: return same(d.va, i.va);
        case MAT: return d.m.r == i.m.r && d.m.c == i.m.c && same(d.m.v, i.m.v);
        default: return false;
    }
}
static std::string show(const Item& i) {
    std::ostringstream o;
    o << i.key << ":" << kindName[i.kind];
    if (i.array()) o << " " << i.bytes() << " bytes";
    else if (i.kind == STRING) o << " \"" << pbt::esc(i.s) << "\"";
    else if (i.kind == ULONG) o << " " << i.ul;
    else if (i.kind == FLOAT) o << " " << i.f;
    else if (i.kind == DOUBLE) { o.precision(17); o << " " << i.d; }
    else o << " " << i.l;
    if (!i.comp.empty()) o << " compression=" << i.comp;
    return o.str();
}

struct Rec {
    std::vector<Item> items;
    std::string comp;
    bool sum = true;
    size_t offset = 0, size = 0;
};
static Rec genRec(pbt::Gen& g, size_t maxItems) {
    Rec r;
    size_t n = maxItems > 2 && g.chance(6) ? g.size(40) : g.size(maxItems);
    for (size_t i = 0; i < n; i++) {
        std::string k = g.chance(80) ? "k" + std::to_string(i) : g.ident() + std::to_string(i);
        if (g.chance(10)) k = "grp" + std::to_string(i) + "." + k;
        r.items.push_back(genItem(g, k));
    }
    if (g.chance(60)) r.comp = g.pick(comps);
    r.sum = g.chance(75);
    return r;
}
static void prepare(codec::RecordWriter& w, const Rec& r) {
    if (r.comp == "none" && r.items.size() % 2) w.compression(false);
    else if (!r.comp.empty()) w.compression(r.comp);
    w.checksum(r.sum);
    for (const Item& i : r.items) put(w, i);
}
static bool uncompressed(const Rec& r) {
    for (const Item& i : r.items) {
        if (i.array() && (i.comp.empty() ? r.comp : i.comp) != "none") return false;
    }
    return true;
}
// keys come back sorted by path component (metadata is a map)
static std::vector<std::string> sortedKeys(const Rec& r) {
    std::vector<std::string> k;
    for (const Item& i : r.items) k.push_back(i.key);
    std::sort(k.begin(), k.end());
    return k;
}

static void checkMeta(codec::Metadata m, const Item& i, const Rec& r) {
    if (i.array()) {
        CHECK_EQ(std::string(m.type()), std::string("array"), "type of " << show(i));
        codec::ArrayMetadata a(m);
        std::vector<size_t> sh;
        for (int k = 0; k < a.rank(); k++) sh.push_back(a.shape(k));
        size_t n = 1;
        for (size_t x : sh) n *= x;
        size_t el = i.kind == VINT || i.kind == ARR || i.kind == VFLOAT ? 4 : 8;
        CHECK_EQ(n * el, i.bytes(), "shape of " << show(i));
        CHECK_EQ(a.rank(), i.kind == MAT || i.kind == VARR ? 2 : 1, "rank of " << show(i));
        CHECK_EQ(a.size(), n, "number of elements of " << show(i));
        std::string dt = i.kind == VINT || i.kind == ARR ? "int32" : i.kind == VLONG ? "int64" : i.kind == VULONG ? "uint64" : i.kind == VFLOAT ? "real32" : "real64";
        CHECK_EQ(a.datatype().str(), dt, "datatype of " << show(i));
        CHECK_EQ(m.data.section() != 0, i.bytes() != 0, "data section of " << show(i));
        if (!i.bytes()) return;
        std::string c = i.comp.empty() ? r.comp : i.comp;
        if (!c.empty()) CHECK_EQ(std::string(m.data.compression()), c, "compression of " << show(i));
        CHECK_EQ(m.data.size(), i.bytes(), "uncompressed size of " << show(i));
        if (m.data.compression() == "none") CHECK_EQ(m.data.compressed_size(), i.bytes(), "stored size of " << show(i));
    }
    else if (i.kind == STRING) CHECK_EQ(std::string(m.type()), std::string("string"), "type of " << show(i));
    else CHECK_EQ(std::string(m.type()), std::string("scalar"), "type of " << show(i));
}

PBT(roundtrip, 10) {
    size_t nr = 1 + g.size(3);
    std::vector<Rec> recs;
    for (size_t i = 0; i < nr; i++) recs.push_back(genRec(g, 7));
    int where = int(g.idx(4));  // 0: path append mode, 1: one OutputFileStream, 2: MemoryHandle, 3: a FileHandle
    int how = int(g.idx(4));
    std::string dir = g.freshDir();
    std::string file = dir + "/r.codec";
    g.note([&](std::ostream& o) {
        for (auto& r : recs) { o << "record comp=" << r.comp << " checksum=" << r.sum << "\n"; for (auto& i : r.items) o << "   " << show(i) << "\n"; }
        o << "where " << where << " how " << how;
    });
    size_t items = 0;
    for (auto& r : recs) items += r.items.size();
    g.nontrivial(items >= 2);
    size_t total = 0;
    MemoryHandle mem(1024, true);
    std::unique_ptr<codec::OutputFileStream> os;
    std::unique_ptr<FileHandle> fh;
    if (where == 1) os.reset(new codec::OutputFileStream(file));
    if (where == 2) mem.openForWrite(0);
    if (where == 3) { fh.reset(new FileHandle(file, true)); fh->openForWrite(0); }
    for (auto& r : recs) {
        codec::RecordWriter w;
        prepare(w, r);
        r.offset = total;
        size_t est = w.estimateMaximumSize();
        switch (where) {
            case 0: r.size = w.write(PathName(file), r.offset == 0 ? codec::Mode::write : codec::Mode::append); break;
            case 1: r.size = w.write(*os); break;
            case 2: r.size = w.write(mem); break;
            case 3: r.size = w.write(*fh); break;
        }
        if (uncompressed(r) && r.comp == "none") CHECK_EQ(est, r.size, "estimate of the size of an uncompressed record");
        CHECK(est >= r.size, "estimated maximum size " << est << " < " << r.size);
        total += r.size;
    }
    if (os) { CHECK_EQ(size_t(os->position()), total, "position after writing"); os->close(); os.reset(); }
    if (fh) { fh->close(); fh.reset(); }
    if (where == 2) {
        CHECK_EQ(size_t(mem.position()), total, "position of the memory handle");
        mem.close();
        std::ofstream(file, std::ios::binary).write(static_cast<const char*>(mem.data()), std::streamsize(total));
    }
    CHECK_EQ(size_t(PathName(file).size()), total, "size of the file against the sum of the record sizes");
    std::unique_ptr<codec::InputFileStream> in;
    // read in a generated order
    auto perm = g.permutation(nr);
    for (size_t q : perm) {
        const Rec& r = recs[q];
        {
            codec::Record rec;
            codec::InputFileStream is(file);
            is.seek(r.offset);
            codec::Stream& s = is;
            rec.read(s, g.boolean());
            CHECK_EQ(size_t(rec.size()), r.size, "size of the record as read");
            auto ks = rec.keys();
            std::sort(ks.begin(), ks.end());
            CHECK(ks == sortedKeys(r), "keys of the record");
            for (auto& i : r.items) { CHECK(rec.has(i.key), "has " << i.key); checkMeta(rec.metadata(i.key), i, r); }
            CHECK(!rec.has("absent"), "has a key that is absent");
        }
        std::vector<Dest> d(r.items.size());
        auto order = g.permutation(r.items.size());
        auto run = [&](codec::RecordReader& rd) {
            if (g.chance(20)) rd.checksum(g.boolean());
            bool one = g.boolean();
            for (size_t k : order) {
                ask(rd, r.items[k], d[k]);
                if (one) rd.wait(r.items[k].key);
            }
            if (!one) rd.wait();
            for (size_t k : order) CHECK(matches(r.items[k], d[k]), "value read back for " << show(r.items[k]));
            for (size_t k : order) checkMeta(rd.metadata(r.items[k].key), r.items[k], r);
            int x = 0;
            if (g.chance(20)) CHECK(pbt::throws([&] { rd.read("absent", x); rd.wait("absent"); }), "reading an absent key");
        };
        switch (how) {
            case 0: { codec::RecordReader rd(file, r.offset); run(rd); break; }
            case 1: { codec::RecordReader rd(codec::Record::URI(file, r.offset)); run(rd); break; }
            case 2: { codec::InputFileStream is(file); codec::RecordReader rd(is, r.offset); run(rd); break; }
            case 3: {
                Buffer b(total);
                { FileHandle f(file); f.openForRead(); f.read(b, total); f.close(); }
                MemoryHandle mh(b);
                mh.openForRead();
                codec::RecordReader rd(codec::Stream(mh), r.offset);
                run(rd);
                break;
            }
        }
    }
}

// what is not written with a scalar type cannot be read as another one
PBT(wrong_type, 2) {
    Item i = genItem(g, "x");
    std::string file = g.freshDir() + "/t.codec";
    codec::RecordWriter w;
    put(w, i);
    w.write(PathName(file));
    g.note([&](std::ostream& o) { o << show(i); });
    g.nontrivial();
    Item j = i;
    j.kind = Kind(g.idx(NKIND));
    auto cls = [](Kind k) { return k == STRING ? 1 : k < STRING ? 0 : k == VARR || k == MAT ? 3 : 2; };
    if (cls(j.kind) == cls(i.kind)) pbt::discard();
    if (cls(i.kind) >= 2 && cls(j.kind) >= 2) pbt::discard();  // user supplied decode()
    Dest d;
    CHECK(pbt::throws([&] { codec::RecordReader rd(file); ask(rd, j, d); rd.wait(); }), "reading a " << kindName[i.kind] << " as a " << kindName[j.kind]);
}

PBT(links, 4) {
    std::string dir = g.freshDir();
    size_t nr = 1 + g.size(3);
    std::vector<Rec> recs;
    std::vector<std::string> files;
    for (size_t i = 0; i < nr; i++) {
        Rec r;
        size_t n = 1 + g.size(3);
        for (size_t k = 0; k < n; k++) r.items.push_back(genItem(g, "k" + std::to_string(k)));
        if (g.boolean()) r.comp = g.pick(comps);
        std::string sub = g.boolean() ? "" : "sub" + std::to_string(i) + "/";
        if (!sub.empty()) PathName(dir + "/" + sub).mkdir();
        files.push_back(sub + "f" + std::to_string(i) + ".codec");
        codec::RecordWriter w;
        prepare(w, r);
        std::string p = dir + "/" + files.back();
        if (g.chance(40)) {  // something before it
            codec::RecordWriter pre;
            pre.set("k0", int(4242));
            r.offset = pre.write(PathName(p));
            w.write(PathName(p), codec::Mode::append);
        }
        else w.write(PathName(p));
        recs.push_back(r);
    }
    // a master of links, and a master of the master
    struct L { size_t rec, item; std::string key; };
    std::vector<L> ls;
    codec::RecordWriter m;
    size_t n = 1 + g.size(4);
    for (size_t i = 0; i < n; i++) {
        L l{g.idx(nr), 0, "l" + std::to_string(i)};
        l.item = g.idx(recs[l.rec].items.size());
        std::string path = g.boolean() ? files[l.rec] : dir + "/" + files[l.rec];
        std::string uri = "file:" + path + "?";
        if (recs[l.rec].offset || g.boolean()) uri += "offset=" + std::to_string(recs[l.rec].offset) + "&";
        uri += "key=" + recs[l.rec].items[l.item].key;
        m.set(l.key, codec::link(uri));
        ls.push_back(l);
    }
    m.write(PathName(dir + "/master.codec"));
    bool twice = g.boolean();
    std::string top = dir + "/master.codec";
    if (twice) {
        PathName(dir + "/deep/er").mkdir();
        codec::RecordWriter mm;
        for (auto& l : ls) mm.set(l.key, codec::link("file:../../master.codec?key=" + l.key));
        mm.write(PathName(dir + "/deep/er/top.codec"));
        top = dir + "/deep/er/top.codec";
    }
    g.nontrivial(n > 1);
    g.note([&](std::ostream& o) { o << nr << " records, " << n << " links" << (twice ? ", two levels" : ""); for (auto& l : ls) o << "\n  " << l.key << " -> " << files[l.rec] << "@" << recs[l.rec].offset << " " << show(recs[l.rec].items[l.item]); });
    codec::RecordReader rd(top);
    std::vector<Dest> d(ls.size());
    for (size_t i = 0; i < ls.size(); i++) { Item it = recs[ls[i].rec].items[ls[i].item]; it.key = ls[i].key; ask(rd, it, d[i]); }
    rd.wait();
    for (size_t i = 0; i < ls.size(); i++) {
        const Item& it = recs[ls[i].rec].items[ls[i].item];
        CHECK(matches(it, d[i]), "value read through the link " << ls[i].key << " to " << show(it));
        codec::Metadata md = rd.metadata(ls[i].key);
        checkMeta(md, it, recs[ls[i].rec]);
    }
    CHECK(pbt::throws([&] { codec::RecordWriter x; x.set("a", codec::link("file:nowhere.codec?key=b")); x.write(PathName(dir + "/dangling.codec")); codec::RecordReader r2(dir + "/dangling.codec"); int v; r2.read("a", v); r2.wait(); }), "a dangling link");
}

// a changed byte of a payload or of the metadata, or a truncation, never yields another value silently
PBT(damage, 6) {
    Rec r;
    size_t n = 1 + g.size(4);
    for (size_t i = 0; i < n; i++) r.items.push_back(genItem(g, "k" + std::to_string(i)));
    if (g.chance(60)) r.comp = g.pick(comps);
    r.sum = true;
    std::string file = g.freshDir() + "/d.codec";
    codec::RecordWriter w;
    prepare(w, r);
    size_t size = w.write(PathName(file));
    std::string bytes;
    { std::ifstream f(file, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); bytes = ss.str(); }
    CHECK_EQ(bytes.size(), size, "size");
    codec::Record rec;
    { codec::InputFileStream is(file); codec::Stream& s = is; rec.read(s); }
    int mode = int(g.idx(3));
    size_t at = 0;
    int hitItem = -1;
    if (mode == 0) {  // payload
        std::vector<size_t> c;
        for (size_t i = 0; i < n; i++) if (r.items[i].array() && r.items[i].bytes()) c.push_back(i);
        if (c.empty()) pbt::discard();
        hitItem = int(c[g.idx(c.size())]);
        // data sections in order of the keys set: find by counting markers
        const auto& md = rec.metadata(r.items[size_t(hitItem)].key);
        size_t sec = size_t(md.data.section());
        const auto& parsed = static_cast<const codec::ParsedRecord&>(rec);
        const auto& ds = parsed.data_sections[sec - 1];
        size_t begin = ds.offset + sizeof(codec::RecordDataSection::Begin), end = ds.offset + ds.length - sizeof(codec::RecordDataSection::End);
        at = begin + g.idx(end - begin);
    }
    else if (mode == 1) {
        const auto& h = static_cast<const codec::ParsedRecord&>(rec).head;
        size_t begin = h.metadata_offset + sizeof(codec::RecordMetadataSection::Begin), end = h.metadata_offset + h.metadata_length - sizeof(codec::RecordMetadataSection::End);
        at = begin + g.idx(end - begin);
    }
    std::string bad = bytes;
    if (mode < 2) bad[at] = char(uint8_t(bad[at]) ^ (1 + g.idx(255)));
    else bad.resize(g.idx(bytes.size()));
    std::ofstream(file, std::ios::binary).write(bad.data(), std::streamsize(bad.size()));
    g.nontrivial();
    g.label(mode == 0 ? "payload" : mode == 1 ? "metadata" : "truncated");
    g.note([&](std::ostream& o) { for (auto& i : r.items) o << show(i) << "\n"; o << "comp=" << r.comp << " mode " << mode << " at " << at << " of " << size << (mode == 2 ? " cut to " + std::to_string(bad.size()) : ""); });
    bool anyThrow = false;
    for (size_t i = 0; i < n; i++) {
        Dest d;
        bool t = pbt::throws([&] { codec::RecordReader rd(file); if (g.boolean()) rd.checksum(true); ask(rd, r.items[i], d); rd.wait(); });
        anyThrow |= t;
        if (!t) CHECK(matches(r.items[i], d), "a wrong value was read silently for " << show(r.items[i]));
        if (mode == 0 && int(i) == hitItem) CHECK(t, "changed payload of " << show(r.items[i]) << " was not noticed");
    }
    if (mode == 1) CHECK(anyThrow, "changed metadata was not noticed");
    if (mode == 2 && bad.size() < size) CHECK(pbt::throws([&] { codec::Record rr; codec::InputFileStream is(file); codec::Stream& s = is; rr.read(s, true); }), "reading a truncated record to its end");
}

// items written without checksum or with reading of checksums off still have the right values; RecordItemReader agrees with RecordReader
PBT(item_reader, 3) {
    Rec r = genRec(g, 5);
    std::string file = g.freshDir() + "/i.codec";
    codec::RecordWriter w;
    prepare(w, r);
    size_t off = 0;
    if (g.boolean()) { codec::RecordWriter p; p.set("x", std::string("pre")); off = p.write(PathName(file)); w.write(PathName(file), codec::Mode::append); }
    else w.write(PathName(file));
    g.nontrivial(r.items.size() > 1);
    g.note([&](std::ostream& o) { for (auto& i : r.items) o << show(i) << "\n"; });
    for (auto& i : r.items) {
        codec::RecordItem::URI u(file, off, i.key);
        codec::RecordItem::URI v(u.str());
        CHECK(v.path == u.path && v.offset == u.offset && v.key == u.key, "URI of an item: " << u.str());
        codec::RecordItem item;
        codec::RecordItemReader(u.str()).read(item);
        checkMeta(item.metadata(), i, r);
        item.decompress();
        CHECK_EQ(size_t(item.data().size()), i.bytes(), "decompressed size of " << show(i));
        const void* p = i.kind == VINT ? (const void*)i.vi.data() : i.kind == VLONG ? (const void*)i.vl.data() : i.kind == VULONG ? (const void*)i.vu.data() : i.kind == VFLOAT ? (const void*)i.vf.data() : i.kind == VDOUBLE ? (const void*)i.vd.data() : i.kind == ARR ? (const void*)i.a.data() : i.kind == VARR ? (const void*)i.va.data() : (const void*)i.m.v.data();
        if (i.bytes()) CHECK(memcmp(item.data(), p, i.bytes()) == 0, "payload of " << show(i));
        codec::Metadata m;
        codec::InputFileStream is(file);
        codec::RecordItemReader(is, off, i.key).read(m);
        checkMeta(m, i, r);
    }
    CHECK(pbt::throws([&] { codec::RecordItemReader x(codec::RecordItem::URI(file, off, "absent").str()); }), "an absent item");
    std::ostringstream o1, o2;
    codec::RecordPrinter pr(codec::Record::URI(file, off));
    pr.print(o1);
    pr.print(o2);
    CHECK(o1.str() == o2.str(), "printing twice");
    for (auto& i : r.items) if (i.key.find('.') == std::string::npos) CHECK(o1.str().find(i.key) != std::string::npos, "printed record names " << i.key);
}
