// C26: messages taken from a stream of data.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/message/Decoder.h"
#include "eckit/message/Message.h"
#include "eckit/message/MessageContent.h"
#include "eckit/message/Reader.h"
#include "eckit/message/Splitter.h"
#include "eckit/runtime/Main.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>

using namespace pbt;
using namespace eckit;

PBT_INIT {
    ::setenv("READER_BUFFER", "97", 1);
    eckit::Main::initialise(argc, argv);
}

namespace {

int alive = 0;

struct Blob : message::MessageContent {
    std::string d;
    Offset off;
    Blob(std::string x, Offset o) : d(std::move(x)), off(o) { ++alive; }
    ~Blob() override { --alive; }
    void write(DataHandle& h) const override { h.write(d.data(), long(d.size())); }
    size_t length() const override { return d.size(); }
    Offset offset() const override { return off; }
    const void* data() const override { return d.data(); }
    DataHandle* readHandle() const override { return new MemoryHandle(d.data(), d.size()); }
    std::string getString(const std::string& k) const override { return k + "=" + std::to_string(d.size()); }
    void print(std::ostream& s) const override { s << "Blob[" << d.size() << "]"; }
};

// Three formats. A: "AAAA" and the length in four bytes. B: "BB", text up to "\n.\n". C: "C" and one byte of length.
struct SA : message::Splitter {
    using Splitter::Splitter;
    message::Message next() override {
        unsigned char h[8];
        Offset o = handle_.position();
        long n   = handle_.read(h, 8);
        if (n <= 0) return message::Message();
        if (n < 8) throw ShortFile("A header");
        if (memcmp(h, "AAAA", 4)) throw SeriousBug("not an A message");
        size_t len = size_t(h[4]) << 24 | size_t(h[5]) << 16 | size_t(h[6]) << 8 | h[7];
        std::string d(reinterpret_cast<char*>(h), 8);
        d.resize(8 + len);
        if (len && handle_.read(&d[8], long(len)) != long(len)) throw ShortFile("A body");
        return message::Message(new Blob(d, o));
    }
    void print(std::ostream& s) const override { s << "SA"; }
};
struct SB : message::Splitter {
    using Splitter::Splitter;
    message::Message next() override {
        std::string d;
        Offset o = handle_.position();
        char c[3];
        long n = handle_.peek(c, 3, 0);
        if (n <= 0) return message::Message();
        // look for the end without taking anything
        size_t i = 0;
        for (;;) {
            long k = handle_.peek(c, 3, i);
            if (k < 3) throw ShortFile("B message");
            if (!memcmp(c, "\n.\n", 3)) break;
            ++i;
        }
        d.resize(i + 3);
        if (handle_.read(&d[0], long(d.size())) != long(d.size())) throw ShortFile("B message");
        return message::Message(new Blob(d, o));
    }
    void print(std::ostream& s) const override { s << "SB"; }
};
struct SC : message::Splitter {
    using Splitter::Splitter;
    message::Message next() override {
        Offset o = handle_.position();
        unsigned char c[2];
        long n = handle_.peek(c, 2, 0);
        if (n <= 0) return message::Message();
        if (n < 2) throw ShortFile("C header");
        if (c[0] != 'C' || handle_.peek(1) != c[1]) throw SeriousBug("not a C message");
        std::string d(2 + c[1], 0);
        if (handle_.read(&d[0], long(d.size())) != long(d.size())) throw ShortFile("C body");
        return message::Message(new Blob(d, o));
    }
    void print(std::ostream& s) const override { s << "SC"; }
};

}  // namespace

namespace eckit::message {
template <> bool SplitterBuilder<SA>::match(PeekHandle& h) const { return h.peek(0) == 'A' && h.peek(3) == 'A'; }
template <> bool SplitterBuilder<SB>::match(PeekHandle& h) const {
    char c[2];
    return h.peek(c, 2, 0) == 2 && c[0] == 'B' && c[1] == 'B';
}
template <> bool SplitterBuilder<SC>::match(PeekHandle& h) const { return h.peek(0) == 'C'; }
}  // namespace eckit::message

namespace {

message::SplitterBuilder<SA> ba;
message::SplitterBuilder<SB> bb;
message::SplitterBuilder<SC> bc;

struct Dec : message::MessageDecoder {
    char c;
    Dec(char x) : c(x) {}
    void getMetadata(const message::Message&, message::MetadataGatherer&, const message::GetMetadataOptions&) const override {}
    Buffer decode(const message::Message& m) const override {
        Buffer b(m.length() + 1);
        static_cast<char*>(b.data())[0] = char(c + 32);
        memcpy(static_cast<char*>(b.data()) + 1, m.data(), m.length());
        return b;
    }
    bool match(const message::Message& m) const override { return static_cast<const char*>(m.data())[0] == c; }
    void print(std::ostream& s) const override { s << c; }
};
Dec da('A'), db('B'), dc('C');

std::string genMessage(Gen& g, char kind) {
    size_t n = g.chance(5) ? g.idx(3000) : g.idx(120);
    std::string d;
    unsigned k = unsigned(g.idx(50));
    for (size_t i = 0; i < n; ++i) d += char((i * 11 + k) % 256);
    switch (kind) {
        case 'A': {
            std::string h = "AAAA";
            for (int s = 24; s >= 0; s -= 8) h += char((n >> s) & 255);
            return h + d;
        }
        case 'B': {
            for (auto& c : d) if (c == '\n') c = ' ';
            return "BB" + d + "\n.\n";
        }
        default: {
            d.resize(std::min<size_t>(d.size(), 255));
            return std::string("C") + char(d.size()) + d;
        }
    }
}

// gives less than it is asked for
struct Short : DataHandle {
    std::string d;
    size_t pos = 0;
    std::vector<size_t> sizes;
    size_t k = 0;
    Short(std::string x, std::vector<size_t> s) : d(std::move(x)), sizes(std::move(s)) {}
    Length openForRead() override { pos = 0; return Length(d.size()); }
    void openForWrite(const Length&) override { NOTIMP; }
    void openForAppend(const Length&) override { NOTIMP; }
    long read(void* b, long n) override {
        size_t m = std::min({size_t(n), d.size() - pos, sizes[k++ % sizes.size()]});
        memcpy(b, d.data() + pos, m);
        pos += m;
        return long(m);
    }
    long write(const void*, long) override { NOTIMP; }
    void close() override {}
    Offset position() override { return Offset(pos); }
    void print(std::ostream& s) const override { s << "Short"; }
};

}  // namespace

PBT(reader, 10) {
    char kind = g.pick<char>(std::vector<char>{'A', 'B', 'C'});
    size_t n  = 1 + g.size(12);
    std::vector<std::string> m;
    std::string all;
    for (size_t i = 0; i < n; ++i) {
        m.push_back(genMessage(g, kind));
        all += m.back();
    }
    bool cut = g.chance(15);
    size_t whole = n;
    if (cut) {
        size_t keep = 1 + g.idx(all.size());
        if (keep < 8) keep = std::min<size_t>(8, all.size());
        all.resize(keep);
        whole = 0;
        size_t s = 0;
        while (whole < n && s + m[whole].size() <= keep) s += m[whole++].size();
        cut = s < keep;
        n   = whole;
    }
    int how = int(g.idx(5));
    std::vector<size_t> pieces;
    for (int i = 0; i < 5; ++i) pieces.push_back(1 + g.idx(200));
    g.note([&](std::ostream& o) {
        o << kind << " messages of";
        for (auto& x : m) o << " " << x.size();
        o << (cut ? " (cut)" : "") << ", source " << how << ", pieces";
        for (auto p : pieces) o << " " << p;
        o << "\n";
    });
    g.nontrivial(n >= 3 && all.size() > 97);
    std::unique_ptr<message::Reader> r;
    std::unique_ptr<DataHandle> keep;
    int before = alive;
    switch (how) {
        case 0: {
            std::string f = g.freshDir() + "/m";
            std::ofstream(f, std::ios::binary) << all;
            r = std::make_unique<message::Reader>(PathName(f));
            break;
        }
        case 1: r = std::make_unique<message::Reader>(new MemoryHandle(all.data(), all.size())); break;
        case 2: r = std::make_unique<message::Reader>(new Short(all, pieces)); break;
        case 3: {
            auto* mh = new MultiHandle();
            size_t i = 0, k = 0;
            while (i < all.size()) {
                size_t len = std::min(pieces[k++ % pieces.size()], all.size() - i);
                *mh += new MemoryHandle(all.data() + i, len);
                i += len;
            }
            r = std::make_unique<message::Reader>(mh);
            break;
        }
        default: {
            keep.reset(new MemoryHandle(all.data(), all.size()));
            bool opened = g.boolean();
            if (opened) keep->openForRead();
            r = std::make_unique<message::Reader>(*keep, opened);
        }
    }
    std::vector<message::Message> got;
    size_t off = 0;
    for (size_t i = 0; i < n; ++i) {
        message::Message x = r->next();
        CHECK(bool(x), "message " + std::to_string(i) + " is missing");
        CHECK_EQ(x.length(), m[i].size(), "length of message " + std::to_string(i));
        CHECK(!memcmp(x.data(), m[i].data(), m[i].size()), "content of message " + std::to_string(i));
        CHECK_EQ((long long)(x.offset()), (long long)off, "offset of message " + std::to_string(i));
        off += m[i].size();
        CHECK_EQ((long long)(r->position()), (long long)off, "position after message " + std::to_string(i));
        if (g.boolean()) got.push_back(x);
    }
    if (cut) {
        std::string why;
        CHECK(throws([&] { r->next(); }, &why), "a message that is cut short is handed out");
    }
    else {
        message::Message end = r->next();
        CHECK(!end, "a message after the last one");
        CHECK(!r->next(), "a message after the last one");
        CHECK(throws([&] { end.length(); }), "length of no message");
    }
    r.reset();
    // messages live longer than the reader; copies share
    std::vector<message::Message> copy;
    for (auto& x : got) copy.push_back(g.boolean() ? message::Message(x) : x);
    if (!copy.empty()) {
        copy[0] = copy[0];
        copy[g.idx(copy.size())] = copy[g.idx(copy.size())];
        got[g.idx(got.size())]   = message::Message();
    }
    for (auto& x : copy) {
        std::string d(static_cast<const char*>(x.data()), x.length());
        CHECK(std::find(m.begin(), m.end(), d) != m.end(), "a message that was kept");
        CHECK_EQ(x.getString("k"), "k=" + std::to_string(d.size()), "getString");
        Buffer b = x.decode();
        CHECK_EQ(b.size(), d.size() + 1, "decode: size");
        CHECK_EQ(std::string(static_cast<const char*>(b.data()), b.size()), char(kind + 32) + d, "decode");
        std::unique_ptr<DataHandle> h(x.readHandle());
        h->openForRead();
        std::string e(d.size() + 1, 0);
        long k = h->read(&e[0], long(e.size()));
        CHECK_EQ(e.substr(0, size_t(std::max(k, 0L))), d, "readHandle");
        MemoryHandle w(size_t(10), true);
        w.openForWrite(0);
        x.write(w);
        CHECK_EQ(std::string(static_cast<const char*>(w.data()), size_t((long long)w.position())), d, "write");
    }
    got.clear();
    copy.clear();
    CHECK_EQ(alive, before, "messages that are never freed");
}

// several formats, one reader each
PBT(formats, 2) {
    size_t n = 2 + g.idx(5);
    for (size_t i = 0; i < n; ++i) {
        char kind = g.pick<char>(std::vector<char>{'A', 'B', 'C', 'Z'});
        std::string d = kind == 'Z' ? "Zzzzzz" : genMessage(g, kind);
        g.note([&](std::ostream& o) { o << kind << " " << d.size() << "\n"; });
        if (kind == 'Z') {
            CHECK(throws([&] { message::Reader r(new MemoryHandle(d.data(), d.size())); }), "an unknown format is accepted");
            continue;
        }
        message::Reader r(new MemoryHandle(d.data(), d.size()));
        message::Message m = r.next();
        CHECK(bool(m), "no message");
        CHECK_EQ(std::string(static_cast<const char*>(m.data()), m.length()), d, "message");
        CHECK(!r.next(), "a second message");
    }
    g.nontrivial(n >= 3);
}

// looking ahead, in any pieces, takes nothing from what is read
PBT(peeks, 3) {
    std::string d;
    size_t len = g.size(400);
    for (size_t i = 0; i < len; ++i) d += char(g.boolean() ? i % 251 : 'a' + i % 7);
    std::vector<size_t> pieces;
    for (int i = 0; i < 4; ++i) pieces.push_back(1 + (g.boolean() ? g.idx(6) : g.idx(200)));
    std::unique_ptr<DataHandle> under;
    if (g.boolean()) under.reset(new Short(d, pieces));
    else under.reset(new MemoryHandle(d.data(), d.size()));
    bool owns = g.boolean();
    std::unique_ptr<PeekHandle> h(owns ? new PeekHandle(under.release()) : new PeekHandle(*under));
    h->openForRead();
    size_t pos = 0, ahead = 0, n = 0, deep = 0;  // ahead: bytes that have been looked at beyond pos
    std::ostringstream log;
    log << d.size() << " bytes in pieces";
    for (auto x : pieces) log << " " << x;
    while (g.more(90) && n < 60) {
        ++n;
        switch (g.weighted({3, 5, 5, 2, 1})) {
            case 0: {
                size_t k = g.chance(80) ? g.idx(20) : g.idx(len + 5);
                log << " peek(" << k << ")";
                if (pos + k >= d.size()) {
                    CHECK(throws([&] { h->peek(k); }), "a peek beyond the end:" << log.str());
                    ahead = std::max(ahead, d.size() - pos);
                }
                else {
                    CHECK_EQ(int(h->peek(k)), int((unsigned char)d[pos + k]), "peek:" << log.str());
                    ahead = std::max(ahead, k + 1);
                }
                break;
            }
            case 1: {
                size_t size = 1 + g.size(60), at = g.chance(60) ? 0 : g.idx(30);
                if (pos + at > d.size()) continue;
                log << " peek " << size << " at " << at;
                std::vector<char> b(size + 1, 'Z');
                long k   = h->peek(b.data(), size, at);
                size_t e = std::min(size, d.size() - pos - at);
                CHECK_EQ(k, long(e), "bytes of a peek:" << log.str());
                CHECK(std::string(b.data(), e) == d.substr(pos + at, e) && b[size] == 'Z', "content of a peek:" << log.str());
                ahead = std::max(ahead, at + e);
                if (at) ++deep;
                break;
            }
            case 2: {
                size_t size = g.size(80);
                log << " read " << size;
                std::vector<char> b(size + 1, 'Z');
                long k = h->read(b.data(), long(size));
                CHECK(k >= 0 && size_t(k) <= std::min(size, d.size() - pos), "bytes of a read:" << log.str() << " gave " << k);
                CHECK(size_t(k) >= std::min({size, ahead}), "less than was looked at:" << log.str() << " gave " << k);
                CHECK(k > 0 || !size || pos == d.size(), "the end too early:" << log.str());
                CHECK(std::string(b.data(), size_t(k)) == d.substr(pos, size_t(k)) && b[size] == 'Z', "content of a read:" << log.str());
                pos += size_t(k);
                ahead -= std::min(ahead, size_t(k));
                break;
            }
            case 3: {
                size_t k = g.boolean() ? ahead : g.idx(ahead + 1);
                log << " skip " << k;
                h->skip(Length(k));
                pos += k;
                ahead -= k;
                break;
            }
            default: CHECK_EQ(h->peeked(), ahead, "peeked:" << log.str());
        }
        CHECK_EQ(size_t((long long)h->position()), pos, "position:" << log.str());
        CHECK_EQ(h->peeked(), ahead, "peeked:" << log.str());
    }
    h->close();
    g.note([&](std::ostream& o) { o << log.str() << "\n"; });
    g.nontrivial(n > 4 && deep);
}
