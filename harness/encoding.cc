// C03: compressors, Base64, run-length and difference encoding, bit streams, LZW. Oracles: round trip, reference encoders.
#include <memory>
#include <vector>
#include "eckit/codec/detail/Base64.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Base64.h"
#include "eckit/io/BitIO.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/Compress.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/types/Types.h"
#include "eckit/utils/Compressor.h"
#include "eckit/utils/RLE.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { Main::initialise(argc, argv); }

static std::string payload(pbt::Gen& g) {
    switch (g.weighted({4, 3, 2, 1})) {
        case 0: return g.bytes(60);
        case 1: { std::string u = g.bytes(12), s; size_t n = g.size(200); for (size_t i = 0; i < n; i++) s += u; return s; }       // compressible
        case 2: { size_t n = g.size(4000); std::string s; uint64_t r = g.choice(~0ull >> 1); int mask = int(g.pick({1, 3, 15, 255})); for (size_t i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; s += char((r >> 56) & mask); } return s; }
        default: { size_t n = g.size(g.thorough() ? 300000 : 40000); std::string s; uint64_t r = g.choice(~0ull >> 1); for (size_t i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; s += char(r >> 56); } return s; }
    }
}

PBT(compressor, 5) {
    auto keys = CompressorFactory::instance().keys();
    std::string name = keys[g.idx(keys.size())];
    std::unique_ptr<Compressor> c(CompressorFactory::instance().build(g.boolean() ? name : [&] { std::string u; for (char k : name) u += char(toupper(k)); return u; }()));
    std::string d = payload(g);
    if (d.empty() && name == "none") d = "x";
    g.note([&](std::ostream& o) { o << name << ", " << d.size() << " bytes " << pbt::hexs(d.data(), d.size(), 40); });
    g.label(name);
    g.nontrivial(d.size() > 4);
    Buffer out(g.size(d.size() + 100));
    if (out.size()) memset(out.data(), 0x5a, out.size());
    size_t n = c->compress(d.data(), d.size(), out);
    CHECK(n <= out.size(), "compressed size " << n << " of a buffer of " << out.size());
    std::string z((const char*)out.data(), n);
    std::vector<char> exact(z.begin(), z.end());
    // the caller's buffer may be smaller, larger or exactly right
    Buffer back(g.boolean() ? g.size(2 * d.size() + 50) : d.size());
    c->uncompress(exact.data(), exact.size(), back, d.size());
    CHECK(back.size() >= d.size(), "uncompressed into a buffer of " << back.size() << " bytes");
    CHECK(memcmp(back.data(), d.data(), d.size()) == 0, name << ": " << d.size() << " bytes did not come back");
    // a second use of the same compressor and buffers
    std::string e = g.bytes(40);
    if (e.empty()) e = "y";
    size_t n2 = c->compress(e.data(), e.size(), out);
    c->uncompress(std::string((const char*)out.data(), n2).data(), n2, back, e.size());
    CHECK(memcmp(back.data(), e.data(), e.size()) == 0, name << ": second use");
    // damaged or truncated input: an exception or some output, never an access outside the buffers
    if (name != "none" && !exact.empty()) {
        std::vector<char> bad(exact);
        if (g.boolean()) bad.resize(g.idx(bad.size()));
        else { size_t k = 1 + g.size(3); for (size_t i = 0; i < k; i++) bad[g.idx(bad.size())] ^= char(1 << g.idx(8)); }
        Buffer b2(d.size());
        try { c->uncompress(bad.data(), bad.size(), b2, d.size()); if (bad.size() < exact.size()) CHECK(b2.size() == 0 || memcmp(b2.data(), d.data(), d.size()) == 0 , "truncated " << name << " stream of " << bad.size() << " of " << exact.size() << " bytes accepted with other content"); }
        catch (pbt::Failure&) { throw; }
        catch (std::exception&) { g.label("damage detected"); }
    }
}

static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string refB64(const std::string& s, const char* tab) {
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        uint32_t v = uint8_t(s[i]) << 16;
        if (i + 1 < s.size()) v |= uint8_t(s[i + 1]) << 8;
        if (i + 2 < s.size()) v |= uint8_t(s[i + 2]);
        o += tab[v >> 18];
        o += tab[v >> 12 & 63];
        o += i + 1 < s.size() ? tab[v >> 6 & 63] : '=';
        o += i + 2 < s.size() ? tab[v & 63] : '=';
    }
    return o;
}
static std::string run(const std::string& in, const std::function<size_t(DataHandle&, DataHandle&)>& f, size_t* n = nullptr) {
    std::vector<char> exact(in.begin(), in.end());
    exact.reserve(1);
    MemoryHandle i(exact.data(), exact.size());
    MemoryHandle o(size_t(64), true);
    size_t k = f(i, o);
    if (n) *n = k;
    return std::string((const char*)o.data(), size_t(o.size()) < k ? size_t(o.size()) : k);
}

PBT(base64, 3) {
    std::string d = g.bytes(g.chance(10) ? 2000 : 30);
    g.nontrivial(d.size() > 2);
    g.note([&](std::ostream& o) { o << pbt::hexs(d.data(), d.size()); });
    std::string r = refB64(d, B64);
    std::vector<char> exact(d.begin(), d.end());
    std::string e = codec::Base64::encode(exact.data(), exact.size());
    CHECK_EQ(e, r, "codec::Base64::encode");
    std::vector<char> ex(e.begin(), e.end());
    CHECK(codec::Base64::decode(ex.data(), ex.size()) == d, "codec::Base64::decode(" << e << ")");
    std::string nopad = r.substr(0, r.find('='));
    std::vector<char> np(nopad.begin(), nopad.end());
    if (nopad.size() % 4) CHECK(codec::Base64::decode(np.data(), np.size()) == d, "codec::Base64::decode(" << nopad << ") without padding");
    if (d.empty()) return;
    bool url = g.boolean();
    std::string tab = B64;
    if (url) { tab[62] = '-'; tab[63] = '_'; }
    size_t n = 0;
    std::string io = run(d, [&](DataHandle& i, DataHandle& o) { Base64 b(url); return b.encode(i, o); }, &n);
    CHECK_EQ(io, refB64(d, tab.c_str()), "Base64::encode url=" << url);
    CHECK_EQ(n, io.size(), "byte count");
    std::string back = run(io, [&](DataHandle& i, DataHandle& o) { Base64 b(url); return b.decode(i, o); }, &n);
    CHECK(back == d, "Base64::decode(" << io << ") = " << pbt::hexs(back.data(), back.size()));
}

PBT(lzw, 3) {
    std::string d = payload(g);
    size_t bits = size_t(g.range(9, 16));
    g.note([&](std::ostream& o) { o << d.size() << " bytes, maxBits " << bits << ": " << pbt::hexs(d.data(), d.size(), 60); });
    g.nontrivial(d.size() > 3);
    g.label("bits " + std::to_string(bits));
    std::string z = run(d, [&](DataHandle& i, DataHandle& o) { Compress c(bits); return c.encode(i, o); });
    std::string back = run(z, [&](DataHandle& i, DataHandle& o) { Compress c(bits); return c.decode(i, o); });
    CHECK(back == d, "LZW: " << d.size() << " bytes came back as " << back.size());
}

PBT(bitio, 3) {
    size_t n = 1 + g.size(60);
    std::vector<std::pair<size_t, size_t>> w;
    std::string bits;
    for (size_t i = 0; i < n; i++) {
        size_t nb = 1 + g.idx(g.chance(30) ? 40 : 16);
        size_t v = size_t(g.uinteger(0, (1ull << nb) - 1));
        w.push_back({v, nb});
        for (size_t k = nb; k-- > 0;) bits += char('0' + (v >> k & 1));
    }
    g.note([&](std::ostream& o) { for (auto& p : w) o << " " << p.first << ":" << p.second; });
    g.nontrivial(n > 2);
    MemoryHandle h(size_t(16), true);
    size_t total = bits.size();
    {
        BitIO b(h);
        for (auto& p : w) b.write(p.first | (g.boolean() ? size_t(1) << 50 : 0), p.second);     // higher bits are ignored
        CHECK_EQ(b.bitCount(), total, "bits written");
        CHECK_EQ(b.byteCount(), (total + 7) / 8, "bytes written");
    }
    std::string out((const char*)h.data(), (total + 7) / 8);
    while (bits.size() % 8) bits += '0';
    std::string expect;
    for (size_t i = 0; i < bits.size(); i += 8) expect += char(std::stoi(bits.substr(i, 8), nullptr, 2));
    CHECK(out == expect, "bytes " << pbt::hexs(out.data(), out.size()) << " instead of " << pbt::hexs(expect.data(), expect.size()));
    // reading back with the same widths, then the rest bit by bit, then end of data
    MemoryHandle r(out.data(), out.size());
    BitIO b(r);
    for (auto& p : w) CHECK_EQ(b.read(p.second), p.first, "reading " << p.second << " bits");
    for (size_t k = total; k < out.size() * 8; k++) CHECK_EQ(b.read(1), size_t(0), "padding");
    CHECK_EQ(b.read(5, 777), size_t(777), "end marker");
    CHECK(pbt::throws([&] { b.read(3); }), "reading past the end");
    CHECK_EQ(b.bitCount(), out.size() * 8, "bits read");
    // another split of the same bits; a padded reader completes the last group with zeros
    MemoryHandle r2(out.data(), out.size());
    BitIO p(r2, true);
    size_t at = 0, nb = 1 + g.idx(13);
    while (at < bits.size()) {
        std::string part = bits.substr(at, nb);
        part.resize(nb, '0');
        CHECK_EQ(p.read(nb, 1 << 20), std::stoull(part, nullptr, 2), "bits " << at << ".." << at + nb);
        at += nb;
    }
    CHECK_EQ(p.read(nb, 1 << 20), size_t(1 << 20), "end marker after padding");
}

static std::vector<long long> seq(pbt::Gen& g, bool sorted) {
    std::vector<long long> v;
    size_t n = g.size(g.chance(20) ? 120 : 24);
    long long cur = 0;
    while (v.size() < n) {
        switch (g.weighted({3, 4, 3})) {
            case 0: cur = sorted ? cur + g.integer(0, 1000) : g.integer(0, 1ll << 40); v.push_back(cur); break;
            case 1: { long long step = sorted ? g.range(0, 5) : 0; size_t k = g.size(10); for (size_t i = 0; i < k; i++) { cur += step; v.push_back(cur); } break; }
            case 2: { size_t p = 1 + g.size(4), k = 1 + g.size(6); if (p > v.size()) p = v.size(); if (!p) { v.push_back(0); break; } if (sorted) { for (size_t i = 0; i < k * p; i++) { cur += g.range(0, 2); v.push_back(cur); } break; } std::vector<long long> u(v.end() - p, v.end()); for (size_t i = 0; i < k; i++) v.insert(v.end(), u.begin(), u.end()); break; }
        }
    }
    return v;
}

PBT(rle, 5) {
    auto v = seq(g, g.boolean());
    long long maxLoop = g.pick({1ll, 2ll, 5ll, 50ll, 100000ll});
    g.note([&](std::ostream& o) { o << "maxLoop " << maxLoop << ":"; for (auto x : v) o << " " << x; });
    g.nontrivial(v.size() > 3);
    std::vector<long long> e, d;
    std::vector<long long> exact(v);
    exact.shrink_to_fit();
    long long n = 0;
    int kind = int(g.idx(3));
    if (kind == 0) n = RLEencode2(exact.begin(), exact.end(), std::back_inserter(e), maxLoop);
    else if (kind == 1) n = RLEencode2(exact.begin(), exact.end(), std::back_inserter(e), maxLoop, std::chrono::seconds(10), long(g.range(0, 5)));
    else n = RLEencode2(exact.begin(), exact.end(), std::back_inserter(e), maxLoop, std::chrono::nanoseconds(g.range(0, 30000)), long(g.pick({0, 1, 2, 1000})));
    g.label("variant " + std::to_string(kind));
    CHECK_EQ(size_t(n), e.size(), "returned length");
    CHECK(e.size() <= v.size() || v.empty() || kind != 0, "encoding of " << v.size() << " numbers takes " << e.size());
    RLEdecode2(e.begin(), e.end(), std::back_inserter(d));
    CHECK(d == v, "RLE: " << v.size() << " numbers came back as " << d.size());
    // difference encoding
    std::vector<long long> df, db;
    bool sorted = std::is_sorted(v.begin(), v.end());
    bool ok = DIFFencode(v.begin(), v.end(), std::back_inserter(df));
    CHECK_EQ(ok, sorted, "DIFFencode succeeds for sorted input only");
    if (ok) {
        DIFFdecode(df.begin(), df.end(), std::back_inserter(db));
        CHECK(db == v, "DIFF round trip");
    }
    // through a stream
    Buffer b(64);
    ResizableMemoryStream w(b);
    RLEwrite(w, v.begin(), v.end(), maxLoop);
    RLEDIFFwrite(w, v.begin(), v.end(), maxLoop);
    w << 7;
    MemoryStream r((const void*)b.data(), w.position());
    std::vector<long long> a1, a2;
    RLEread(r, std::back_inserter(a1), (long long*)nullptr);
    RLEDIFFread(r, std::back_inserter(a2), (long long*)nullptr);
    int seven; r >> seven;
    CHECK(a1 == v, "RLEread");
    CHECK(a2 == v, "RLEDIFFread");
    CHECK_EQ(seven, 7, "item after");
    // printed form: length expansions are textual; check that it is well formed
    std::ostringstream os;
    RLEprint(os, e.begin(), e.end());
    std::string t = os.str();
    CHECK_EQ(std::count(t.begin(), t.end(), '('), std::count(t.begin(), t.end(), ')'), "printed " << t);
}

// a time limit may only change how well the sequence is compressed, wherever it strikes
PBT(rle_deadline, 1) {
    std::vector<long long> u, v;
    size_t blocks = 1 + g.size(6), reps = 2 + g.idx(4);
    for (size_t i = 0; i < blocks; i++) { long long x = g.range(0, 4); size_t k = 1 + g.idx(20); u.insert(u.end(), k, x); }
    for (size_t i = 0; i < reps; i++) v.insert(v.end(), u.begin(), u.end());
    g.note([&](std::ostream& o) { o << reps << " x"; for (auto x : u) o << " " << x; });
    g.nontrivial(v.size() > 20);
    auto t0 = EncodingClock::now();
    std::vector<long long> full;
    RLEencode2(v.begin(), v.end(), std::back_inserter(full), 1000);
    auto t = EncodingClock::now() - t0;
    for (int k = 0; k < 25; k++) {
        std::vector<long long> e, d;
        long long n = RLEencode2(v.begin(), v.end(), std::back_inserter(e), 1000, t * k / 25, 1000l);
        CHECK_EQ(size_t(n), e.size(), "returned length");
        RLEdecode2(e.begin(), e.end(), std::back_inserter(d));
        CHECK(d == v, "RLE with a time limit: " << v.size() << " numbers came back as " << d.size());
    }
}
