// C18: any composition of data handles reads as the byte sequence it denotes: reads, seeks, skips, rewinds, restarts, positions, sizes, clones, streamed copies
#include <fcntl.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/EmptyHandle.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/MMappedFileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/Offset.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PartHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SeekableHandle.h"
#include "eckit/io/SharedHandle.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "pbt.h"

using namespace eckit;

PBT_INIT {
    setenv("ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE", "61", 1);
    setenv("ECKIT_DATAHANDLE_COPYTO_BUFFER_SIZE", "53", 1);
    static char n[] = "harness", o[] = "-compareBufferSize=47";
    static char* av[] = {n, o, nullptr};
    eckit::Main::initialise(2, av);
}

struct Node {
    std::unique_ptr<DataHandle> h;
    std::string c;     // what it denotes
    std::string desc;
    bool seek = false, pos = false, rewind = false, skip = false, clone = false, stream = false, restart = false;
    bool size = false;      // size() right, also when closed
    bool est = false;       // estimate() right, also when closed
    bool reopen = true;
    bool canSeekKnown = true;
    bool merge = false;
};

struct Ctx {
    std::string dir;
    int files = 0;
    std::vector<std::shared_ptr<std::string>> mem;
    std::vector<std::pair<std::string, std::string>> made;
};

static std::string content(pbt::Gen& g) {
    size_t n = g.chance(8) ? 500 + g.size(9000) : g.size(120);
    std::string s(n, '\0');
    uint64_t r = g.choice(100000);
    for (auto& c : s) { r = r * 6364136223846793005ull + 1442695040888963407ull; c = char(r >> 56); }
    return s;
}
static std::pair<std::string, std::string> makeFile(pbt::Gen& g, Ctx& x) {
    if (!x.made.empty() && g.chance(35)) return x.made[g.idx(x.made.size())];
    std::string p = x.dir + "/f" + std::to_string(x.files++), c = content(g);
    std::ofstream(p, std::ios::binary).write(c.data(), std::streamsize(c.size()));
    x.made.push_back({p, c});
    return {p, c};
}
static void parts(pbt::Gen& g, const std::string& c, OffsetList& ol, LengthList& ll, std::string& out, std::string& d) {
    size_t n = g.size(5);
    size_t prev = 0;
    for (size_t i = 0; i < n; i++) {
        size_t o = g.chance(30) ? std::min(prev, c.size()) : g.idx(c.size() + 1);
        size_t l = g.chance(12) ? 0 : g.idx(c.size() - o + 1);
        ol.push_back(o);
        ll.push_back(l);
        out += c.substr(o, l);
        d += " " + std::to_string(o) + "+" + std::to_string(l);
        prev = o + l;
    }
}

static Node gen(pbt::Gen& g, Ctx& x, int depth) {
    Node n;
    int k = depth <= 0 ? int(g.idx(8)) : int(g.idx(14));
    switch (k) {
        case 0: {
            auto f = makeFile(g, x);
            n.h.reset(new FileHandle(f.first));
            n.c = f.second; n.desc = "File(" + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.rewind = n.skip = n.clone = n.stream = n.restart = n.size = n.est = true;
            break;
        }
        case 1: {
            auto f = makeFile(g, x);
            OffsetList ol; LengthList ll; std::string d;
            parts(g, f.second, ol, ll, n.c, d);
            if (ol.size() == 1 && g.boolean()) n.h.reset(new PartFileHandle(PathName(f.first), ol[0], ll[0]));
            else n.h.reset(new PartFileHandle(PathName(f.first), ol, ll));
            n.desc = "PartFile(" + f.first.substr(f.first.rfind('/') + 1) + d + ")";
            n.seek = n.pos = n.rewind = n.skip = n.clone = n.stream = n.restart = n.size = n.est = true;
            break;
        }
        case 2: {
            auto c = std::make_shared<std::string>(content(g));
            if (c->empty()) *c = "q";
            x.mem.push_back(c);
            if (g.boolean()) n.h.reset(new MemoryHandle(static_cast<const void*>(c->data()), c->size()));
            else {
                auto* m = new MemoryHandle(1 + g.size(50), true);
                n.h.reset(m);
                m->openForWrite(0);
                for (size_t p = 0; p < c->size();) { size_t w = std::min(c->size() - p, 1 + g.size(100)); CHECK_EQ(m->write(c->data() + p, long(w)), long(w), "MemoryHandle::write"); p += w; }
                m->close();
            }
            n.c = *c; n.desc = "Memory(" + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.rewind = n.skip = n.clone = n.size = n.est = true;
            break;
        }
        case 3: {
            auto f = makeFile(g, x);
            n.h.reset(new PooledHandle(PathName(f.first)));
            n.c = f.second; n.desc = "Pooled(" + f.first.substr(f.first.rfind('/') + 1) + " " + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.skip = true;
            break;
        }
        case 4: {
            auto f = makeFile(g, x);
            if (f.second.empty()) pbt::discard();  // nothing to map
            n.h.reset(new MMappedFileHandle(f.first));
            n.c = f.second; n.desc = "MMapped(" + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.rewind = n.skip = n.clone = n.stream = true;
            break;
        }
        case 5: {
            auto f = makeFile(g, x);
            n.h.reset(new FileDescHandle(::open(f.first.c_str(), O_RDONLY), true));
            n.c = f.second; n.desc = "FileDesc(" + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.skip = true;
            n.reopen = false;
            break;
        }
        case 6: {
            auto f = makeFile(g, x);
            n.h.reset(new RawFileHandle(f.first));
            n.c = f.second; n.desc = "RawFile(" + std::to_string(n.c.size()) + ")";
            n.seek = n.pos = n.skip = true;
            break;
        }
        case 7: {
            n.h.reset(new EmptyHandle());
            n.desc = "Empty";
            n.seek = n.pos = n.rewind = n.stream = n.est = true;
            break;
        }
        case 8: case 9: {
            auto* m = new MultiHandle();
            n.h.reset(m);
            size_t cnt = g.size(5);
            n.desc = "Multi[";
            n.seek = n.pos = n.rewind = n.clone = n.stream = n.restart = n.size = n.est = true;
            for (size_t i = 0; i < cnt; i++) {
                Node ch = gen(g, x, depth - 1);
                if (!ch.est || !ch.reopen || ch.desc.compare(0, 5, "Stats") == 0) { /* StatsHandle::merge is NOTIMP */ if (x.files > 40 || x.mem.size() > 40) break; continue; }
                n.c += ch.c;
                n.desc += (i ? ", " : "") + ch.desc;
                n.seek &= ch.seek && ch.size; n.pos &= ch.pos && ch.size; n.clone &= ch.clone; n.stream &= ch.stream; n.size &= ch.size; n.restart &= ch.restart;
                n.canSeekKnown &= ch.canSeekKnown;
                *m += ch.h.release();
            }
            n.skip = n.seek && n.pos;
            n.desc += "]";
            break;
        }
        case 10: {
            Node ch = gen(g, x, depth - 1);
            size_t bs = g.boolean() ? 1 + g.size(20) : 1 + g.size(2000);
            n.c = ch.c; n.desc = "Buffered<" + std::to_string(bs) + ">(" + ch.desc + ")";
            n.seek = ch.seek; n.pos = true; n.rewind = ch.rewind; n.skip = ch.seek; n.clone = ch.clone; n.est = ch.est; n.reopen = ch.reopen; n.canSeekKnown = ch.canSeekKnown;
            n.h.reset(new BufferedHandle(ch.h.release(), bs));
            break;
        }
        case 11: {
            Node ch = gen(g, x, depth - 1);
            n.c = ch.c; n.desc = "Peek(" + ch.desc + ")";
            n.seek = ch.seek; n.pos = ch.pos; n.rewind = ch.rewind; n.est = ch.est; n.size = ch.size; n.reopen = ch.reopen; n.canSeekKnown = ch.canSeekKnown;
            n.h.reset(new PeekHandle(ch.h.release()));
            break;
        }
        case 12: {
            Node ch = gen(g, x, depth - 1);
            if (!ch.seek) { n = std::move(ch); break; }
            OffsetList ol; LengthList ll; std::string d;
            parts(g, ch.c, ol, ll, n.c, d);
            n.desc = "Part(" + ch.desc + d + ")";
            n.rewind = n.est = n.restart = true;
            n.stream = ch.stream; n.reopen = ch.reopen;
            n.canSeekKnown = false;
            if (ol.size() == 1 && g.boolean()) n.h.reset(new PartHandle(ch.h.release(), ol[0], ll[0]));
            else n.h.reset(new PartHandle(ch.h.release(), ol, ll));
            break;
        }
        case 13: {
            Node ch = gen(g, x, depth - 1);
            n.c = ch.c; n.desc = "Stats(" + ch.desc + ")";
            n.seek = ch.seek; n.pos = ch.pos; n.rewind = ch.rewind; n.skip = ch.skip; n.restart = ch.restart; n.est = ch.est; n.reopen = ch.reopen; n.canSeekKnown = ch.canSeekKnown;
            n.h.reset(new StatsHandle(ch.h.release()));
            break;
        }
    }
    return n;
}

// one session: open, a history of operations, close. The position is part of the model.
static void session(pbt::Gen& g, DataHandle& h, const Node& n, std::string& log) {
    Length l = h.openForRead();
    if (n.est) CHECK_EQ(size_t((long long)l), n.c.size(), "openForRead of " << n.desc);
    size_t pos = 0;
    PeekHandle* pk = dynamic_cast<PeekHandle*>(&h);
    size_t steps = g.size(12);
    bool broken = false;
    for (size_t i = 0; i <= steps && !broken; i++) {
        int op = i == steps ? 99 : int(g.idx(pk ? 10 : 8));
        switch (op) {
            case 0: case 1: case 99: {
                size_t want = op == 99 ? n.c.size() + 10 : g.chance(10) ? 0 : g.boolean() ? 1 + g.size(20) : 1 + g.size(n.c.size() + 5);
                std::vector<char> b(want + 1, 'Z');
                log += " read(" + std::to_string(want) + ")";
                long k = h.read(b.data(), long(want));
                size_t exp = std::min(want, n.c.size() - pos);
                CHECK_EQ(k, long(exp), "bytes read at " << pos << " by" << log << " of " << n.desc);
                CHECK(std::string(b.data(), exp) == n.c.substr(pos, exp), "content read at " << pos << " by" << log << " of " << n.desc);
                CHECK(b[exp] == 'Z', "read wrote behind what it returned:" << log << " of " << n.desc);
                pos += exp;
                if (want == 0 && op != 99) break;
                break;
            }
            case 2: {
                if (!n.seek) break;
                size_t to = g.chance(20) ? n.c.size() : g.idx(n.c.size() + 1);
                log += " seek(" + std::to_string(to) + ")";
                Offset o = h.seek(Offset((long long)to));
                if (n.desc != "Empty") CHECK_EQ(size_t((long long)o), to, "seek returned:" << log << " of " << n.desc);
                pos = to;
                break;
            }
            case 3: {
                if (!n.rewind) break;
                log += " rewind";
                h.rewind();
                pos = 0;
                break;
            }
            case 4: {
                if (!n.skip && !pk) break;
                size_t lim = n.c.size() - pos;
                if (!n.skip) lim = std::min(lim, pk->peeked());
                size_t by = g.idx(lim + 1);
                log += " skip(" + std::to_string(by) + ")";
                h.skip(Length((long long)by));
                pos += by;
                break;
            }
            case 5: {
                if (!n.restart || n.c.empty()) break;
                size_t to = g.idx(n.c.size());
                log += " restart(" + std::to_string(to) + ")";
                h.restartReadFrom(Offset((long long)to));
                pos = to;
                break;
            }
            case 6: if (n.est) CHECK_EQ(size_t((long long)h.estimate()), n.c.size(), "estimate after" << log << " of " << n.desc); break;
            case 7: if (n.size) CHECK_EQ(size_t((long long)h.size()), n.c.size(), "size after" << log << " of " << n.desc); break;
            case 8: {
                if (pos == n.c.size()) { CHECK(pbt::throws([&] { pk->peek(pk->peeked()); }), "peek at the end of" << log << " of " << n.desc); break; }
                size_t at = g.idx(n.c.size() - pos);
                log += " peek(" + std::to_string(at) + ")";
                CHECK_EQ(int(pk->peek(at)), int((unsigned char)(n.c[pos + at])), "byte peeked:" << log << " of " << n.desc);
                break;
            }
            case 9: {
                size_t at = g.idx(pk->peeked() + 1);
                size_t want = g.size(30);
                log += " peek(" + std::to_string(want) + "@" + std::to_string(at) + ")";
                std::vector<char> b(want + 1, 'Z');
                long k = pk->peek(b.data(), want, at);
                size_t exp = std::min(want, n.c.size() - pos - at);
                CHECK_EQ(k, long(exp), "bytes peeked by" << log << " of " << n.desc);
                CHECK(std::string(b.data(), exp) == n.c.substr(pos + at, exp), "content peeked by" << log << " of " << n.desc);
                CHECK(b[want] == 'Z', "peek wrote too far");
                break;
            }
        }
        if (n.pos && n.desc != "Empty") CHECK_EQ(size_t((long long)h.position()), pos, "position after" << log << " of " << n.desc);
    }
    h.close();
    log += " close";
}

PBT(history, 10) {
    Ctx x{g.freshDir()};
    Node n = gen(g, x, int(g.idx(4)));
    g.note([&](std::ostream& o) { o << n.desc; });
    g.nontrivial(n.c.size() > 1 && n.desc.find('(') != n.desc.rfind('('));
    std::string log;
    if (n.canSeekKnown && n.seek) CHECK(n.h->canSeek(), "canSeek of " << n.desc);
    size_t sessions = n.reopen ? 1 + g.size(2) : 1;
    for (size_t s = 0; s < sessions; s++) session(g, *n.h, n, log);
    g.note([&](std::ostream& o) { o << log; });
    if (n.clone && g.boolean()) {
        std::unique_ptr<DataHandle> c(n.h->clone());
        log += " | clone:";
        session(g, *c, n, log);
    }
    if (n.stream && g.boolean()) {
        Buffer b(1000);
        ResizableMemoryStream s(b);
        s << *n.h;
        MemoryStream r(b);
        std::unique_ptr<DataHandle> c(Reanimator<DataHandle>::reanimate(r));
        CHECK(bool(c), "reanimated " << n.desc);
        log += " | streamed:";
        session(g, *c, n, log);
    }
}

// handles on the same file do not disturb each other
PBT(interleaved, 4) {
    Ctx x{g.freshDir()};
    size_t k = 2 + g.size(3);
    std::vector<Node> ns;
    for (size_t i = 0; i < k; i++) ns.push_back(gen(g, x, 1));
    g.nontrivial();
    g.note([&](std::ostream& o) { for (auto& n : ns) o << n.desc << "\n"; });
    std::vector<size_t> pos(k, 0);
    for (auto& n : ns) n.h->openForRead();
    std::string log;
    size_t steps = 1 + g.size(20);
    for (size_t i = 0; i < steps; i++) {
        size_t w = g.idx(k);
        Node& n = ns[w];
        if (n.seek && g.chance(30)) {
            size_t to = g.idx(n.c.size() + 1);
            n.h->seek(Offset((long long)to));
            pos[w] = to;
            log += " " + std::to_string(w) + ":seek(" + std::to_string(to) + ")";
        }
        else {
            size_t want = 1 + g.size(30);
            std::vector<char> b(want);
            long r = n.h->read(b.data(), long(want));
            size_t e = std::min(want, n.c.size() - pos[w]);
            log += " " + std::to_string(w) + ":read(" + std::to_string(want) + ")";
            CHECK(r == long(e) && std::string(b.data(), e) == n.c.substr(pos[w], e), "interleaved read:" << log << " (" << n.desc << ")");
            pos[w] += e;
        }
        for (size_t j = 0; j < k; j++) if (ns[j].pos && ns[j].desc != "Empty") CHECK_EQ(size_t((long long)ns[j].h->position()), pos[j], "position of handle " << j << " after" << log << " (" << ns[j].desc << ")");
    }
    for (auto& n : ns) n.h->close();
}

// whole transfers
struct Watch : TransferWatcher {
    std::string got;
    void watch(const void* p, long n) override { if (p) got.append(static_cast<const char*>(p), size_t(n)); }
};
PBT(transfer, 5) {
    Ctx x{g.freshDir()};
    Node n = gen(g, x, int(g.idx(4)));
    g.note([&](std::ostream& o) { o << n.desc; });
    g.nontrivial(n.c.size() > 60);
    int how = int(g.idx(5));
    Watch w;
    switch (how) {
        case 0: {
            MemoryHandle m(10, true);
            Length l = n.h->saveInto(m, w);
            CHECK_EQ(size_t((long long)l), n.c.size(), "saveInto of " << n.desc);
            CHECK(m.str() == n.c, "saved content of " << n.desc);
            CHECK(n.desc.compare(0, 5, "Stats") == 0 || w.got == n.c, "watched content of " << n.desc);
            break;
        }
        case 1: {
            PathName p(x.dir + "/out");
            CHECK_EQ(size_t((long long)n.h->saveInto(p)), n.c.size(), "saveInto a path of " << n.desc);
            CHECK_EQ(size_t((long long)p.size()), n.c.size(), "size of the file saved");
            FileHandle f(p);
            MemoryHandle m(10, true);
            f.copyTo(m);
            CHECK(m.str() == n.c, "content of the file saved from " << n.desc);
            break;
        }
        case 2: {
            MemoryHandle m(10, true);
            long bs = g.boolean() ? -1 : 1 + long(g.size(100));
            CHECK_EQ(size_t((long long)n.h->copyTo(m, bs, Length(-1), w)), n.c.size(), "copyTo of " << n.desc);
            CHECK(m.str() == n.c && w.got == n.c, "copied content of " << n.desc);
            break;
        }
        case 3: {
            if (!n.est || n.c.empty()) pbt::discard();
            MemoryHandle m(10, true);
            size_t mx = 1 + g.idx(n.c.size() + 5);
            CHECK_EQ(size_t((long long)n.h->copyTo(m, g.boolean() ? -1 : 1 + long(g.size(100)), Length((long long)mx))), std::min(mx, n.c.size()), "copyTo with a maximum of " << mx << " of " << n.desc);
            CHECK(m.str() == n.c.substr(0, mx), "copied content of " << n.desc << " with a maximum of " << mx);
            break;
        }
        case 4: {
            if (!n.est) pbt::discard();
            std::string other = n.c;
            if (g.boolean() && !other.empty()) { size_t at = g.idx(other.size()); switch (g.idx(3)) { case 0: other[at] = char(other[at] + 1 + int(g.idx(255))); break; case 1: other.erase(at, 1); break; case 2: other.insert(at, 1, 'x'); break; } }
            if (other.empty()) other = "";
            std::string p = x.dir + "/other";
            std::ofstream(p, std::ios::binary).write(other.data(), std::streamsize(other.size()));
            FileHandle f(p);
            bool swap = g.boolean();
            CHECK_EQ(swap ? f.compare(*n.h) : n.h->compare(f), other == n.c, "compare of " << n.desc);
            break;
        }
    }
}

// what was peeked can be gone back to
PBT(seekable, 3) {
    Ctx x{g.freshDir()};
    Node n = gen(g, x, 1);
    bool own = g.boolean();
    std::unique_ptr<PeekHandle> pk(new PeekHandle(n.h.release()));
    std::unique_ptr<SeekableHandle> s(own ? new SeekableHandle(pk.get()) : new SeekableHandle(*pk));
    PeekHandle* p = pk.get();
    if (own) pk.release();
    std::string log;
    s->openForRead();
    size_t start = 0, pos = 0, far = 0;
    size_t steps = 1 + g.size(15);
    g.nontrivial(steps > 4 && n.c.size() > 3);
    for (size_t i = 0; i < steps; i++) {
        switch (g.idx(5)) {
            case 0: case 1: {
                size_t want = g.size(25);
                std::vector<char> b(want + 1, 'Z');
                log += " read(" + std::to_string(want) + ")";
                size_t e = std::min(want, n.c.size() - pos);
                long k = s->read(b.data(), long(want));
                CHECK(k == long(e) && std::string(b.data(), e) == n.c.substr(pos, e) && b[want] == 'Z', "read of a SeekableHandle:" << log << " gave " << k << " bytes at " << pos << " of " << n.desc);
                pos += e;
                far = std::max(far, pos);
                break;
            }
            case 2: {
                size_t to = start + g.idx(start + p->peeked() - start + 1);
                log += " seek(" + std::to_string(to) + ")";
                CHECK_EQ(size_t((long long)s->seek(Offset((long long)to))), to, "seek returned:" << log);
                pos = to;
                break;
            }
            case 3: {
                log += " clear";
                start += p->peeked();
                s->clear();
                pos = start;
                break;
            }
            case 4: {
                if (start) { CHECK(pbt::throws([&] { s->rewind(); }), "rewind to bytes that are gone"); CHECK(pbt::throws([&] { s->seek(Offset((long long)(start - 1))); }), "seek to bytes that are gone"); break; }
                log += " rewind";
                s->rewind();
                pos = 0;
                break;
            }
        }
        CHECK_EQ(size_t((long long)s->position()), pos, "position of a SeekableHandle after" << log << " of " << n.desc);
        CHECK(start + p->peeked() <= n.c.size(), "peeked");
    }
    g.note([&](std::ostream& o) { o << n.desc << log; });
    s->close();
    s.reset();
}

// a SharedHandle does not close or reopen what it shares; C++ streams over handles
PBT(shared_and_streambuf, 2) {
    Ctx x{g.freshDir()};
    Node n = gen(g, x, 2);
    g.note([&](std::ostream& o) { o << n.desc; });
    g.nontrivial(n.c.size() > 1);
    n.h->openForRead();
    if (n.rewind) {
        n.desc = "Shared(" + n.desc + ")";
        std::string log;
        SharedHandle s(*n.h);
        Node m;
        m.c = n.c; m.desc = n.desc; m.seek = n.seek; m.pos = n.pos; m.rewind = n.rewind; m.skip = n.skip; m.est = n.est; m.size = n.size; m.restart = n.restart;
        if (n.desc == "Shared(Empty)") m.pos = m.seek = false;
        session(g, s, m, log);
        session(g, s, m, log);
        n.h->rewind();
    }
    {
        HandleBuf hb(*n.h);
        std::istream in(&hb);
        std::string all, line;
        if (g.boolean()) {
            char c;
            while (in.get(c)) all.push_back(c);
        }
        else {
            std::stringstream ss;
            ss << in.rdbuf();
            all = ss.str();
        }
        CHECK(all == n.c, "read through a stream: " << all.size() << " of " << n.c.size() << " bytes of " << n.desc);
    }
    n.h->close();
}

// lists of parts: merging neighbours does not change what they denote
PBT(offsets, 2) {
    OffsetList o; LengthList l;
    size_t n = g.size(12);
    std::vector<size_t> bytes;
    for (size_t i = 0, p = 0; i < n; i++) {
        if (!g.chance(50)) p = g.size(60);
        size_t k = g.size(10);
        o.push_back((long long)p); l.push_back((long long)k);
        for (size_t j = 0; j < k; j++) bytes.push_back(p + j);
        p += k;
    }
    g.nontrivial(n > 2);
    OffsetList o0 = o; LengthList l0 = l;
    bool c = compress(o, l);
    std::vector<size_t> b2;
    for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < size_t((long long)l[i]); j++) b2.push_back(size_t((long long)o[i]) + j);
    CHECK(bytes == b2, "compress(offsets, lengths) changed what is denoted");
    CHECK_EQ(c, o.size() < o0.size(), "compress says whether it did something");
    for (size_t i = 0; i + 1 < o.size(); i++) CHECK(!(o[i] + l[i] == o[i + 1]), "neighbours left after compress");
    OffsetList acc;
    accumulate(l0, acc, Offset(7));
    CHECK_EQ(acc.size(), l0.size(), "accumulate");
    long long s = 7;
    for (size_t i = 0; i < acc.size(); i++) { CHECK_EQ((long long)acc[i], s, "accumulated offset " << i); s += (long long)l0[i]; }
    OffsetList so = o0; LengthList sl = l0;
    if (so.size()) {
        eckit::sort(so, sl);
        std::vector<std::pair<long long, long long>> a, b;
        for (size_t i = 0; i < so.size(); i++) { a.push_back({(long long)o0[i], (long long)l0[i]}); b.push_back({(long long)so[i], (long long)sl[i]}); if (i) CHECK((long long)so[i - 1] <= (long long)so[i], "sorted offsets"); }
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        CHECK(a == b, "sort keeps offsets and lengths together");
    }
}
