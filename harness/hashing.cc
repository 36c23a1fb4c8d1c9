// C04: hashes. Oracle: own implementations of MD5, MD4, SHA-1 and XXH64.
#include <memory>
#include <vector>
#include "eckit/codec/detail/Checksum.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/runtime/Main.h"
#include "eckit/utils/Hash.h"
#include "eckit/utils/MD4.h"
#include "eckit/utils/MD5.h"
#include "eckit/utils/SHA1.h"
#include "eckit/utils/xxHashing.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { Main::initialise(argc, argv); }

static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint64_t rol64(uint64_t x, int n) { return x << n | x >> (64 - n); }
static std::string hexd(const std::vector<uint8_t>& v) { static const char* h = "0123456789abcdef"; std::string s; for (uint8_t b : v) { s += h[b >> 4]; s += h[b & 15]; } return s; }
static std::vector<uint8_t> padded(const std::string& m, bool big) {
    std::vector<uint8_t> v(m.begin(), m.end());
    v.push_back(0x80);
    while (v.size() % 64 != 56) v.push_back(0);
    uint64_t bits = uint64_t(m.size()) * 8;
    for (int i = 0; i < 8; i++) v.push_back(uint8_t(bits >> (big ? 56 - 8 * i : 8 * i)));
    return v;
}
static uint32_t le(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t(p[3]) << 24; }
static std::string outLe(const uint32_t* s, int n) { std::vector<uint8_t> v; for (int i = 0; i < n; i++) for (int k = 0; k < 4; k++) v.push_back(uint8_t(s[i] >> (8 * k))); return hexd(v); }
#include <cmath>
static std::string md5(const std::string& m) {
    static const int r[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    auto p = padded(m, false);
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; i++) {
            uint32_t f; int g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; }
            else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
            else { f = c ^ (b | ~d); g = (7 * i) % 16; }
            uint32_t k = uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0));
            uint32_t t = d; d = c; c = b;
            b = b + rol(a + f + k + le(&p[o + 4 * g]), r[(i / 16) * 4 + i % 4]);
            a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    return outLe(h, 4);
}
static std::string md4(const std::string& m) {
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    auto p = padded(m, false);
    static const int k3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t s[4] = {h[0], h[1], h[2], h[3]};
        for (int i = 0; i < 48; i++) {
            int n = (48 - i) % 4;           // register updated in this step
            uint32_t &a = s[n], b = s[(n + 1) % 4], c = s[(n + 2) % 4], d = s[(n + 3) % 4];
            int round = i / 16, j = i % 16;
            static const int sh[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
            uint32_t f = round == 0 ? ((b & c) | (~b & d)) : round == 1 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
            int x = round == 0 ? j : round == 1 ? (j % 4) * 4 + j / 4 : k3[j];
            uint32_t add = round == 0 ? 0 : round == 1 ? 0x5a827999 : 0x6ed9eba1;
            a = rol(a + f + le(&p[o + 4 * x]) + add, sh[round][j % 4]);
        }
        for (int i = 0; i < 4; i++) h[i] += s[i];
    }
    return outLe(h, 4);
}
static std::string sha1(const std::string& m) {
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    auto p = padded(m, true);
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++) { const uint8_t* q = &p[o + 4 * i]; w[i] = uint32_t(q[0]) << 24 | q[1] << 16 | q[2] << 8 | q[3]; }
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
            else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
            else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
            else { f = b ^ c ^ d; k = 0xca62c1d6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::vector<uint8_t> v;
    for (uint32_t x : h) for (int k = 3; k >= 0; k--) v.push_back(uint8_t(x >> (8 * k)));
    return hexd(v);
}
static std::string xxh(const std::string& m) {
    const uint64_t P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull;
    auto rd64 = [&](size_t i) { uint64_t v; memcpy(&v, m.data() + i, 8); return v; };
    auto rd32 = [&](size_t i) { uint32_t v; memcpy(&v, m.data() + i, 4); return v; };
    auto round = [&](uint64_t a, uint64_t x) { return rol64(a + x * P2, 31) * P1; };
    size_t i = 0, n = m.size();
    uint64_t h;
    if (n >= 32) {
        uint64_t v[4] = {P1 + P2, P2, 0, 0 - P1};
        for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; k++) v[k] = round(v[k], rd64(i + 8 * k));
        h = rol64(v[0], 1) + rol64(v[1], 7) + rol64(v[2], 12) + rol64(v[3], 18);
        for (int k = 0; k < 4; k++) h = (h ^ round(0, v[k])) * P1 + P4;
    }
    else h = P5;
    h += n;
    for (; i + 8 <= n; i += 8) h = rol64(h ^ round(0, rd64(i)), 27) * P1 + P4;
    if (i + 4 <= n) { h = rol64(h ^ (uint64_t(rd32(i)) * P1), 23) * P2 + P3; i += 4; }
    for (; i < n; i++) h = rol64(h ^ (uint8_t(m[i]) * P5), 11) * P1;
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    std::vector<uint8_t> v;
    for (int k = 7; k >= 0; k--) v.push_back(uint8_t(h >> (8 * k)));
    return hexd(v);
}

struct Alg { const char* name; std::string (*ref)(const std::string&); size_t hexlen; };
static const Alg algs[] = {{"MD5", md5, 32}, {"MD4", md4, 32}, {"SHA1", sha1, 40}, {"xxh64", xxh, 16}, {"xxHash", xxh, 16}};

static std::string data(pbt::Gen& g) {
    // lengths near block boundaries matter
    if (g.chance(40)) {
        size_t n = size_t(g.pick({31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 256}));
        std::string s(n, '\0');
        uint64_t r = g.choice(1000);
        for (auto& c : s) { r = r * 6364136223846793005ull + 1442695040888963407ull; c = char(r >> 56); }
        return s;
    }
    return g.bytes(g.chance(10) ? 3000 : 150);
}

PBT(incremental, 8) {
    const Alg& a = algs[g.idx(5)];
    std::unique_ptr<Hash> h(HashFactory::instance().build(g.boolean() ? a.name : std::string(a.name).substr(0, 2) + std::string(a.name).substr(2)));
    std::string acc;
    size_t n = 1 + g.size(8);
    size_t mid = 0;
    bool spent = false;  // known finding md5-after-digest: MD5::digest() wipes the context
    std::string log;
    for (size_t i = 0; i < n; i++) {
        size_t op = g.weighted({6, 2, 2, 1, 3, 1});
        if (spent && op != 1 && op != 2) op = 3;
        switch (op) {
            case 0: { std::string d = data(g); h->add(d.data(), long(d.size())); acc += d; log += " add(" + std::to_string(d.size()) + ")"; break; }
            case 1: { CHECK_EQ(h->digest(), a.ref(acc), a.name << " of " << acc.size() << " bytes after" << log); mid++; spent = std::string(a.name) == "MD5"; log += " digest"; break; }
            case 2: { std::string d = data(g); CHECK_EQ(h->compute(d.data(), long(d.size())), a.ref(d), a.name << "::compute of " << d.size() << " bytes"); log += " compute"; break; }
            case 3: { h->reset(); acc.clear(); spent = false; log += " reset"; break; }
            case 4: {
                auto raw = [&](auto v) { h->add(v); acc.append(reinterpret_cast<const char*>(&v), sizeof v); };
                switch (g.idx(9)) {
                    case 0: raw(char(g.range(-128, 127))); break;
                    case 1: raw(int(g.integer(INT32_MIN, INT32_MAX))); break;
                    case 2: raw((unsigned int)(g.uinteger(0, UINT32_MAX))); break;
                    case 3: raw(short(g.range(-30000, 30000))); break;
                    case 4: raw(long(g.integer(INT64_MIN, INT64_MAX))); break;
                    case 5: raw((unsigned long long)(g.uinteger(0, UINT64_MAX))); break;
                    case 6: raw(g.anyDouble(true)); break;
                    case 7: raw(float(g.real(-10, 10))); break;
                    case 8: raw(g.boolean()); break;
                }
                log += " scalar";
                break;
            }
            case 5: { std::string d = g.str(20, "abc \n"); if (g.boolean()) h->add(d); else h->add(d.c_str()); acc += d; log += " string"; break; }
        }
    }
    g.note([&](std::ostream& o) { o << a.name << log; });
    g.nontrivial(n > 1 && !acc.empty());
    g.label(a.name);
    if (mid) g.label("digest in the middle");
    std::string d = h->digest();
    CHECK_EQ(d, a.ref(acc), a.name << " of " << acc.size() << " bytes after" << log);
    CHECK_EQ(h->digest(), d, a.name << " digest asked twice");
    CHECK_EQ(d.size(), a.hexlen, "length of the digest");
    CHECK_EQ(std::string(*h), d, "conversion to string");
}

PBT(direct, 3) {
    std::string d = data(g);
    g.nontrivial(d.size() > 1);
    g.note([&](std::ostream& o) { o << d.size() << " bytes " << pbt::hexs(d.data(), d.size(), 32); });
    MD5 m(d); CHECK_EQ(m.digest(), md5(d), "MD5(string)");
    unsigned char raw[16];
    MD5 m2(d.data(), d.size());
    m2.numericalDigest(raw);
    CHECK_EQ(hexd(std::vector<uint8_t>(raw, raw + 16)), md5(d), "numericalDigest");
    m2.numericalDigest(raw);
    CHECK_EQ(hexd(std::vector<uint8_t>(raw, raw + 16)), md5(d), "numericalDigest again");
    CHECK_EQ(m2.digest(), md5(d), "digest after numericalDigest");
    CHECK_EQ(eckit::SHA1(d).digest(), sha1(d), "SHA1(string)");
    CHECK_EQ(eckit::SHA1(d.data(), d.size()).digest(), sha1(d), "SHA1(data)");
    CHECK_EQ(eckit::MD4(d).digest(), md4(d), "MD4(string)");
    CHECK_EQ(eckit::MD4(d.data(), d.size()).digest(), md4(d), "MD4(data)");
    CHECK_EQ(eckit::xxHash(d).digest(), xxh(d), "xxHash(string)");
    CHECK_EQ(xxHash(d.data(), d.size()).digest(), xxh(d), "xxHash(data)");
    std::string z = d.c_str();
    CHECK_EQ(eckit::MD5(z.c_str()).digest(), md5(z), "MD5(const char*)");
    CHECK_EQ(eckit::SHA1(z.c_str()).digest(), sha1(z), "SHA1(const char*)");
    CHECK_EQ(eckit::MD4(z.c_str()).digest(), md4(z), "MD4(const char*)");
    CHECK_EQ(xxHash(z.c_str()).digest(), xxh(z), "xxHash(const char*)");
    MD5 s; s << std::string("a") << 1 << d;
    int one = 1;
    CHECK_EQ(s.digest(), md5("a" + std::string((const char*)&one, 4) + d), "MD5 <<");
    // alignment of the source must not matter
    std::string shifted = std::string(g.range(1, 7), 'x');
    size_t off = shifted.size();
    shifted += d;
    CHECK_EQ(eckit::MD5(shifted.data() + off, d.size()).digest(), md5(d), "MD5 of unaligned data");
    CHECK_EQ(xxHash(shifted.data() + off, d.size()).digest(), xxh(d), "xxHash of unaligned data");
    // codec checksums
    for (const Alg& a : algs) CHECK_EQ(codec::checksum(d.data(), d.size(), a.name), std::string(a.name) + ":" + a.ref(d), "codec checksum");
    CHECK_EQ(codec::checksum(d.data(), d.size(), "no-such-algorithm"), std::string("none:"), "codec checksum of an unknown algorithm");
    codec::Checksum c(codec::checksum(d.data(), d.size(), "md5"));
    CHECK(c.available() && c.str() == "md5:" + md5(d) && c.algorithm() == "md5", "Checksum parsed back");
    CHECK_EQ(c.str(6), "md5:" + md5(d).substr(0, 6), "shortened checksum");
    CHECK(!codec::Checksum("none:").available(), "no checksum");
}
// known finding md5-after-digest: the fixed input behind it
PBT(known_md5_after_digest, 0) {
    MD5 m;
    m.add("a", 1);
    m.digest();
    m.add("b", 1);
    CHECK_EQ(m.digest(), md5("ab"), "MD5 of 'a', digest(), 'b'");
}
PBT(factory, 1) {
    std::string n = g.pick<std::string>({"md5", "Md5", "MD5", "sha1", "sHa1", "md4", "XXH64", "xxhash", "none", "NoHash", "bogus", ""});
    std::string init = g.bytes(40);
    g.nontrivial();
    bool known = n != "bogus" && n != "";
    CHECK_EQ(HashFactory::instance().has(n), known, "has(" << n << ")");
    if (!known) { CHECK(pbt::throws([&] { std::unique_ptr<Hash> h(HashFactory::instance().build(n)); }), "building " << n); return; }
    std::unique_ptr<Hash> h(HashFactory::instance().build(n, init)), e(HashFactory::instance().build(n));
    e->add(init);
    CHECK_EQ(h->digest(), e->digest(), "initialised " << n);
    if (n == "none" || n == "NoHash") CHECK_EQ(h->digest(), std::string(), "no hash");
}
