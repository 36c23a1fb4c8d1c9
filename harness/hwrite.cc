// C19: what is written through any composition of data handles is what ends up in every target; transfers are complete or report failure
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/AIOHandle.h"
#include "eckit/io/AsyncHandle.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferCache.h"
#include "eckit/io/BufferList.h"
#include "eckit/io/BufferedHandle.h"
#include "eckit/io/DblBuffer.h"
#include "eckit/io/FileDescHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/HandleBuf.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/RawFileHandle.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/io/StatsHandle.h"
#include "eckit/io/TeeHandle.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace eckit;

PBT_INIT {
    setenv("ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE", "61", 1);
    setenv("ECKIT_DATAHANDLE_COPYTO_BUFFER_SIZE", "53", 1);
    static char n[] = "harness", o[] = "-fileHandleSyncsParentDir=0";
    static char* av[] = {n, o, nullptr};
    eckit::Main::initialise(2, av);
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    CHECK(bool(f), "no file " << p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static std::string content(pbt::Gen& g, size_t n) {
    std::string s(n, '\0');
    uint64_t r = g.choice(100000);
    for (auto& c : s) { r = r * 6364136223846793005ull + 1442695040888963407ull; c = char(r >> 56); }
    return s;
}

struct Sink {
    std::unique_ptr<DataHandle> h;
    std::string desc;
    bool seek = false, pos = false, flush = true, aio = false, nozero = false;
    std::function<void(const std::string&)> verify;  // the whole content
};
struct Ctx {
    std::string dir;
    int files = 0;
};

static Sink gen(pbt::Gen& g, Ctx& x, int depth, size_t total, bool exact) {
    Sink s;
    int k = depth <= 0 ? int(g.idx(6)) : int(g.idx(12));
    if (k == 11 && !exact) k = 6;
    std::string p = x.dir + "/o" + std::to_string(x.files++);
    switch (k) {
        case 0: {
            bool was = g.chance(30);
            if (was) std::ofstream(p) << content(g, g.size(300));
            s.h.reset(new FileHandle(p));
            s.desc = "File";
            s.seek = s.pos = true;
            s.verify = [p](const std::string& e) { CHECK(slurp(p) == e, "content of the file written"); };
            break;
        }
        case 1: {
            bool grow = !exact || g.boolean();
            if (!grow) {
                auto b = std::make_shared<std::string>(total + 3, '!');
                s.h.reset(new MemoryHandle(const_cast<char*>(b->data()), total));
                s.desc = "Memory[" + std::to_string(total) + "]";
                s.verify = [b, total](const std::string& e) { CHECK(b->substr(0, e.size()) == e, "content of the memory written"); CHECK(b->substr(total) == "!!!", "written behind the memory"); };
            }
            else {
                auto* m = new MemoryHandle(1 + g.size(200), true);
                s.h.reset(m);
                s.desc = "Memory+";
                s.verify = [m](const std::string& e) { CHECK_EQ(size_t((long long)m->size()), e.size(), "size of the memory written"); CHECK(std::string(static_cast<const char*>(m->data()), e.size()) == e, "content of the memory written"); };
                s.seek = true;
            }
            s.pos = true;
            break;
        }
        case 2: {
            s.h.reset(new RawFileHandle(p));
            s.desc = "RawFile";
            s.seek = s.pos = true;
            s.flush = false;
            s.verify = [p](const std::string& e) { CHECK(slurp(p) == e, "content of the raw file written"); };
            break;
        }
        case 3: {
            s.h.reset(new FileDescHandle(::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666), true));
            s.desc = "FileDesc";
            s.seek = s.pos = true;
            s.flush = false;
            s.verify = [p](const std::string& e) { CHECK(slurp(p) == e, "content written to the file descriptor"); };
            break;
        }
        case 4: {
            size_t cnt = 1 + g.size(6);
            s.h.reset(new AIOHandle(PathName(p), cnt, 1024 * 1024, g.chance(20)));
            s.desc = "AIO<" + std::to_string(cnt) + ">";
            s.pos = true;
            s.aio = true;
            s.verify = [p](const std::string& e) { CHECK(slurp(p) == e, "content of the file written asynchronously"); };
            break;
        }
        case 5: {  // onto what is there
            std::string was = content(g, g.size(100));
            std::ofstream(p, std::ios::binary).write(was.data(), std::streamsize(was.size()));
            struct Append : FileHandle {
                using FileHandle::FileHandle;
                void openForWrite(const Length& l) override { openForAppend(l); }
            };
            s.h.reset(new Append(p));
            s.desc = "Append(" + std::to_string(was.size()) + ")";
            s.verify = [p, was](const std::string& e) { CHECK(slurp(p) == was + e, "content of the file appended to"); };
            break;
        }
        case 6: case 7: {
            Sink c = gen(g, x, depth - 1, total, exact);
            size_t bs = g.boolean() ? 1 + g.size(15) : 1 + g.size(500);
            s.h.reset(new BufferedHandle(c.h.release(), bs));
            s.desc = "Buffered<" + std::to_string(bs) + ">(" + c.desc + ")";
            s.seek = c.seek; s.pos = true; s.flush = c.flush;
            s.verify = c.verify; s.aio = c.aio;
            break;
        }
        case 8: {
            Sink c = gen(g, x, depth - 1, total, exact);
            if (!c.flush) { s = std::move(c); break; }  // AsyncHandle flushes what it holds
            size_t mx = 1 + g.size(300), r = 1 + g.size(64);
            s.h.reset(new AsyncHandle(c.h.release(), mx, r));
            s.desc = "Async<" + std::to_string(mx) + "," + std::to_string(r) + ">(" + c.desc + ")";
            s.verify = c.verify; s.aio = c.aio;
            s.nozero = true;
            break;
        }
        case 9: {
            Sink c = gen(g, x, depth - 1, total, exact);
            s.desc = "Stats(" + c.desc + ")";
            s.seek = c.seek; s.pos = c.pos; s.flush = c.flush; s.verify = c.verify; s.aio = c.aio; s.nozero = c.nozero;
            s.h.reset(new StatsHandle(c.h.release()));
            break;
        }
        case 10: {
            size_t n = 1 + g.size(3);
            std::vector<DataHandle*> v;
            std::vector<std::function<void(const std::string&)>> vs;
            s.desc = "Tee[";
            for (size_t i = 0; i < n; i++) {
                Sink c = gen(g, x, depth - 1, total, exact);
                s.flush &= c.flush; s.aio |= c.aio; s.nozero |= c.nozero;
                v.push_back(c.h.release()); vs.push_back(c.verify); s.desc += (i ? ", " : "") + c.desc;
            }
            s.desc += "]";
            s.h.reset(new TeeHandle(v));
            s.verify = [vs](const std::string& e) { for (auto& f : vs) f(e); };
            break;
        }
        case 11: {
            size_t n = 1 + g.size(4);
            std::vector<DataHandle*> hs;
            std::vector<std::function<void(const std::string&)>> vs;
            std::vector<size_t> ls;
            size_t left = total;
            s.desc = "Multi[";
            for (size_t i = 0; i < n; i++) {
                size_t l = i + 1 == n ? left : g.idx(left + 1);
                left -= l;
                Sink c = gen(g, x, depth - 1, l, true);
                s.flush &= c.flush; s.aio |= c.aio; s.nozero |= c.nozero;
                hs.push_back(c.h.release());
                ls.push_back(l); vs.push_back(c.verify); s.desc += (i ? ", " : "") + std::to_string(l) + ":" + c.desc;
            }
            s.desc += "]";
            s.flush = false;
            auto* m = new MultiHandle(hs);  // += leaves out empty files, which is for reading
            s.h.reset(m);
            for (size_t l : ls) *m += Length((long long)l);
            s.verify = [vs, ls](const std::string& e) { size_t p = 0; for (size_t i = 0; i < vs.size(); i++) { vs[i](e.substr(p, ls[i])); p += ls[i]; } };
            break;
        }
    }
    return s;
}

PBT(writes, 10) {
    Ctx x{g.freshDir()};
    size_t n = g.size(12);
    std::vector<size_t> lens;
    size_t total = 0;
    for (size_t i = 0; i < n; i++) { lens.push_back(g.chance(5) ? 1000 + g.size(20000) : g.chance(8) ? 0 : g.size(150)); total += lens.back(); }
    bool exact = g.boolean();  // no seeking, the length is known
    Sink s = gen(g, x, int(g.idx(4)), total, exact);
    std::string log, model;
    size_t pos = 0;
    g.note([&](std::ostream& o) { o << s.desc << " total " << total; });
    g.nontrivial(n > 2);
    s.h->openForWrite(Length((long long)(exact ? total : 0)));
    for (size_t len : lens) {
        if (s.seek && !exact && g.chance(25)) {
            size_t to = g.idx(model.size() + 1);
            log += " seek(" + std::to_string(to) + ")";
            CHECK_EQ(size_t((long long)s.h->seek(Offset((long long)to))), to, "seek:" << log << " on " << s.desc);
            pos = to;
        }
        if (s.flush && g.chance(20)) {
            log += " flush";
            s.h->flush();
            if (pos == model.size()) s.verify(model);  // what was written is there
        }
        if (len == 0 && s.nozero) continue;  // known finding: see async_zero
        std::string d = content(g, len);
        log += " write(" + std::to_string(len) + ")";
        long w = s.h->write(d.data(), long(len));
        CHECK_EQ(w, long(len), "bytes written:" << log << " to " << s.desc);
        if (model.size() < pos + len) model.resize(pos + len);
        model.replace(pos, len, d);
        pos += len;
        if (s.pos) CHECK_EQ(size_t((long long)s.h->position()), pos, "position after" << log << " on " << s.desc);
    }
    g.note([&](std::ostream& o) { o << log; });
    if (s.seek && !exact) { s.h->seek(Offset((long long)model.size())); }
    s.h->close();
    s.verify(model);
    if (g.boolean()) { s.h.reset(); if (s.desc.find("Memory") == std::string::npos) s.verify(model); }
}

// an underlying handle that fails
struct Failing : DataHandle {
    std::string got;
    size_t limit;
    int how;  // 0 throws, 1 short write, 2 nothing
    bool closed = false, failed = false;
    int opens = 0;
    unsigned delay = 0;
    Failing(size_t l, int h) : limit(l), how(h) {}
    void print(std::ostream& o) const override { o << "Failing"; }
    void openForWrite(const Length&) override { opens++; }
    long write(const void* p, long n) override {
        if (delay) usleep(delay);
        if (got.size() + size_t(n) <= limit) { got.append(static_cast<const char*>(p), size_t(n)); return n; }
        failed = true;
        if (how == 0) throw WriteError("injected failure");
        size_t k = how == 1 && limit > got.size() ? limit - got.size() : 0;
        got.append(static_cast<const char*>(p), k);
        return long(k);
    }
    void flush() override {}
    void close() override { closed = true; }
};
struct Source : DataHandle {
    std::string c;
    size_t pos = 0;
    size_t failAt;     // throws or returns -1 there
    int how;
    std::vector<std::pair<size_t, size_t>> restarts;  // at -> from
    size_t chunk = 1000;
    bool known = true;
    bool closed = false;
    unsigned delay = 0;
    explicit Source(const std::string& s, size_t f = size_t(-1), int h = 0) : c(s), failAt(f), how(h) {}
    void print(std::ostream& o) const override { o << "Source"; }
    Length openForRead() override { pos = 0; return known ? Length((long long)c.size()) : Length(0); }
    Length estimate() override { return known ? Length((long long)c.size()) : Length(0); }
    long read(void* p, long n) override {
        if (!restarts.empty() && pos >= restarts[0].first) {
            size_t f = restarts[0].second;
            restarts.erase(restarts.begin());
            throw RestartTransfer(Offset((long long)f));
        }
        if (delay) usleep(delay);
        if (pos >= failAt) { if (how == 0) throw ReadError("injected failure"); return -1; }
        size_t k = std::min({size_t(n), c.size() - pos, chunk, failAt - pos});
        if (!restarts.empty() && pos + k > restarts[0].first) k = restarts[0].first - pos;
        memcpy(p, c.data() + pos, k);
        pos += k;
        return long(k);
    }
    void restartReadFrom(const Offset& o) override { pos = size_t((long long)o); }
    void close() override { closed = true; }
};

PBT(failing_writes, 4) {
    size_t total = 1 + g.size(400);
    size_t limit = g.idx(total);
    int how = int(g.idx(3));
    std::string d = content(g, total);
    Failing* f = new Failing(limit, how);
    if (g.chance(20)) f->delay = unsigned(1 + g.size(300));
    std::unique_ptr<DataHandle> h;
    int k = int(g.idx(6));
    std::string desc;
    std::string seen;
    bool noticed = false;
    static const char* names[] = {"Buffered", "Async", "Tee", "Multi", "saveInto", "copyTo"};
    desc = names[k];
    g.note([&](std::ostream& o) { o << desc << " fails after " << limit << " of " << total << " bytes, how " << how; });
    g.nontrivial(total > 5);
    std::unique_ptr<Failing> own;
    auto drive = [&] {
        h->openForWrite(Length((long long)total));
        for (size_t p = 0; p < total && !noticed;) {
            size_t n = std::min(total - p, 1 + g.size(60));
            long w = h->write(d.data() + p, long(n));
            if (w != long(n)) { noticed = true; break; }
            p += n;
        }
        h->close();
    };
    bool threw = false;
    try {
        switch (k) {
            case 0: h.reset(new BufferedHandle(*f, 1 + g.size(50))); own.reset(f); drive(); break;
            case 1: h.reset(new AsyncHandle(*f, 1 + g.size(200), 1 + g.size(16))); own.reset(f); drive(); break;
            case 2: { auto* a = new MemoryHandle(10, true); std::vector<DataHandle*> v; if (g.boolean()) v = {f, a}; else v = {a, f}; h.reset(new TeeHandle(v)); drive(); break; }
            case 3: { auto* m = new MultiHandle(); size_t first = g.idx(total + 1); *m += new MemoryHandle(10, true); *m += Length((long long)first); *m += f; *m += Length((long long)(total - first)); h.reset(m); f->limit = f->limit * (total - first) / total; if (first == total) { noticed = true; break; } drive(); break; }
            case 4: { own.reset(f); Source s(d); s.saveInto(*f); break; }
            case 5: { own.reset(f); Source s(d); s.copyTo(*f, 1 + long(g.size(60))); break; }
        }
    }
    catch (eckit::Exception&) { threw = true; }
    CHECK(threw || noticed, desc << " did not report that the write failed after " << limit << " of " << total << " bytes");
    h.reset();
    if (own) CHECK(d.compare(0, own->got.size(), own->got) == 0, desc << " wrote bytes after the failure");
    if (k >= 4) CHECK(own->closed, desc << " left the target open");
}

PBT(failing_reads, 3) {
    size_t total = 1 + g.size(400);
    std::string d = content(g, total);
    Source s(d, g.idx(total), int(g.idx(2)));
    s.chunk = 1 + g.size(60);
    s.known = g.chance(70);
    int k = int(g.idx(3));
    if (k == 2 && s.how == 1) s.how = 0;  // DblBuffer: a handle that answers -1 without an exception is outside what it handles
    g.note([&](std::ostream& o) { o << "source fails at " << s.failAt << " of " << total << " how " << s.how << " by " << k; });
    g.nontrivial(total > 3);
    MemoryHandle m(10, true);
    bool t = pbt::throws([&] {
        switch (k) {
            case 0: s.saveInto(m); break;
            case 1: s.copyTo(m, 1 + long(g.size(60))); break;
            case 2: { DblBuffer b(1 + long(g.size(4)), 1 + long(g.size(50))); b.copy(s, m); break; }
        }
    });
    CHECK(t, "a failing read was not reported");
    CHECK(s.closed, "the source was left open");
    std::string got(static_cast<const char*>(m.data()), size_t((long long)m.size()));
    CHECK(d.compare(0, got.size(), got) == 0, "bytes that were never read were written");
}

PBT(restarts, 3) {
    size_t total = 1 + g.size(400);
    std::string d = content(g, total);
    Source s(d);
    s.chunk = 1 + g.size(60);
    size_t n = 1 + g.size(3);
    for (size_t i = 0; i < n; i++) { size_t at = g.idx(total); s.restarts.push_back({at, g.idx(at + 1)}); }
    bool dbl = g.boolean();
    if (g.chance(20)) s.delay = unsigned(1 + g.size(300));
    std::string p = g.freshDir() + "/r";
    g.note([&](std::ostream& o) { o << total << " bytes" << (dbl ? " double buffered" : "") << ", restarts"; for (auto& r : s.restarts) o << " at " << r.first << " from " << r.second; });
    g.nontrivial(n > 1);
    FileHandle f(p);
    Length l = 0;
    if (dbl) { DblBuffer b(1 + long(g.size(4)), 1 + long(g.size(50))); l = b.copy(s, f); }
    else l = s.saveInto(f);
    CHECK(slurp(p) == d, "content after a restarted transfer");
    CHECK_EQ(size_t((long long)l), total, "length a restarted transfer reports");
}

PBT(double_buffer, 3) {
    size_t total = g.chance(10) ? 5000 + g.size(50000) : g.size(500);
    std::string d = content(g, total);
    Source s(d);
    s.chunk = 1 + g.size(300);
    s.known = g.boolean();
    MemoryHandle m(10, true);
    long count = 1 + long(g.size(5)), size = 1 + long(g.size(200));
    g.note([&](std::ostream& o) { o << total << " bytes through " << count << " buffers of " << size; });
    g.nontrivial(total > size_t(size));
    DblBuffer b(count, size);
    CHECK_EQ(size_t((long long)b.copy(s, m)), total, "DblBuffer::copy");
    CHECK(std::string(static_cast<const char*>(m.data()), size_t((long long)m.size())) == d, "content double buffered");
    if (total) {  // a failing target
        Failing f(g.idx(total), int(g.idx(3)));
        if (total < 1000 && g.chance(20)) f.delay = unsigned(1 + g.size(300));
        Source s2(d);
        s2.chunk = s.chunk;
        CHECK(pbt::throws([&] { DblBuffer b2(count, size); b2.copy(s2, f); }), "a failing write was not reported by DblBuffer");
        CHECK(d.compare(0, f.got.size(), f.got) == 0, "bytes after the failure");
    }
}

// C stdio on a handle
PBT(openf, 3) {
    bool wr = g.boolean();
    std::string dir = g.freshDir(), p = dir + "/f";
    std::string c = content(g, g.chance(20) ? 16000 + g.size(40000) : g.size(300)), log;
    g.nontrivial(c.size() > 10);
    if (!wr) {
        std::ofstream(p, std::ios::binary).write(c.data(), std::streamsize(c.size()));
        std::unique_ptr<DataHandle> h;
        switch (g.idx(3)) {
            case 0: h.reset(new FileHandle(p)); break;
            case 1: h.reset(c.empty() ? static_cast<DataHandle*>(new FileHandle(p)) : new MemoryHandle(static_cast<const void*>(c.data()), c.size())); break;
            case 2: h.reset(new PartFileHandle(PathName(p), Offset(0), Length((long long)c.size()))); break;
        }
        g.note([&](std::ostream& o) { o << "reading " << c.size() << " bytes of " << *h; });
        bool del = g.boolean();
        FILE* f = h->openf("r", del);
        DataHandle* hp = h.get();
        if (del) h.release();
        CHECK(f != nullptr, "openf");
        size_t pos = 0, steps = 1 + g.size(10);
        for (size_t i = 0; i < steps; i++) {
            if (g.boolean()) {
                std::vector<char> b(1 + g.size(c.size() + 5));
                size_t e = std::min(b.size(), c.size() - pos);
                log += " fread(" + std::to_string(b.size()) + ")";
                size_t k = fread(b.data(), 1, b.size(), f);
                CHECK(k == e && std::string(b.data(), e) == c.substr(pos, e), "fread at " << pos << ":" << log << " gave " << k << " of " << *hp);
                pos += e;
            }
            else {
                size_t to = g.idx(c.size() + 1);
                int wh = int(g.idx(3));
                log += " fseek(" + std::to_string(to) + "," + (wh == 0 ? "SET" : wh == 1 ? "CUR" : "END") + ")";
                long off = wh == 0 ? long(to) : wh == 1 ? long(to) - long(pos) : long(to) - long(c.size());
                CHECK_EQ(fseek(f, off, wh == 0 ? SEEK_SET : wh == 1 ? SEEK_CUR : SEEK_END), 0, "fseek:" << log);
                pos = to;
            }
            CHECK_EQ(size_t(ftell(f)), pos, "ftell after" << log << " on " << *hp);
        }
        fclose(f);
    }
    else {
        g.note([&](std::ostream& o) { o << "writing"; });
        FileHandle h(p);
        FILE* f = h.openf("w", false);
        std::string model;
        size_t steps = 1 + g.size(10);
        for (size_t i = 0; i < steps; i++) {
            std::string d = content(g, 1 + g.size(200));
            CHECK_EQ(fwrite(d.data(), 1, d.size(), f), d.size(), "fwrite");
            model += d;
            if (g.chance(20)) CHECK_EQ(fflush(f), 0, "fflush");
        }
        CHECK_EQ(fclose(f), 0, "fclose");
        CHECK(slurp(p) == model, "content written with stdio");
        // C++ stream
        FileHandle h2(p);
        h2.openForWrite(0);
        {
            HandleBuf hb(h2);
            std::ostream o(&hb);
            for (size_t k = 0; k < model.size();) { size_t n = std::min(model.size() - k, 1 + g.size(300)); if (n == 1) o.put(model[k]); else o.write(model.data() + k, std::streamsize(n)); k += n; }
        }
        h2.close();
        CHECK(slurp(p) == model, "content written with a C++ stream");
    }
}

// memory
PBT(buffers, 3) {
    g.nontrivial();
    size_t n = g.size(100);
    std::string m = content(g, n);
    switch (g.idx(4)) {
        case 0: {
            Buffer b(m.data(), m.size());
            std::string log;
            size_t steps = 1 + g.size(8);
            std::vector<int> known(m.size(), 1);  // bytes with a known value
            for (size_t i = 0; i < steps; i++) {
                switch (g.idx(5)) {
                    case 0: { size_t k = g.size(150); b.resize(k, true); m.resize(k); known.resize(k, 0); log += " resize+(" + std::to_string(k) + ")"; break; }
                    case 1: { size_t k = g.size(150); if (k != m.size()) known.assign(k, 0); b.resize(k); m.resize(k); log += " resize(" + std::to_string(k) + ")"; break; }
                    case 2: { b.zero(); m.assign(m.size(), '\0'); known.assign(m.size(), 1); log += " zero"; break; }
                    case 3: { size_t at = g.idx(m.size() + 1), k = g.idx(m.size() - at + 1); std::string d = content(g, k); b.copy(d.data(), k, at); m.replace(at, k, d); std::fill(known.begin() + long(at), known.begin() + long(at + k), 1); CHECK(pbt::throws([&] { b.copy(d.data(), k, b.size() - k + 1); }), "copy past the end"); log += " copy"; break; }
                    case 4: { Buffer c(std::move(b)); CHECK_EQ(b.size(), size_t(0), "moved from"); if (g.boolean()) b = std::move(c); else { Buffer e(3); e = std::move(c); b = std::move(e); } log += " move"; break; }
                }
                CHECK_EQ(b.size(), m.size(), "size after" << log);
                for (size_t k = 0; k < m.size(); k++) if (known[k]) CHECK_EQ(int(static_cast<const char*>(b.data())[k]), int(m[k]), "byte " << k << " after" << log);
                CHECK(b.view().size() == m.size(), "view");
            }
            break;
        }
        case 1: {
            BufferCache c(1 + g.size(40));
            std::string acc;
            size_t steps = 1 + g.size(8);
            for (size_t i = 0; i < steps; i++) {
                if (g.chance(8)) { c.reset(); acc.clear(); }
                std::string d = content(g, g.chance(10) ? 1000 + g.size(2000) : g.size(60));
                c.add(d.data(), d.size());
                acc += d;
                if (g.chance(20)) { BufferCache e(c); CHECK(!(e < c) && !(c < e), "a copy is equal"); c = e; }
                CHECK_EQ(c.count(), acc.size(), "count of a BufferCache");
                CHECK(memcmp(c.buffer(), acc.data(), acc.size()) == 0, "content of a BufferCache of " << acc.size() << " bytes");
            }
            std::string other = acc;
            if (!other.empty() && g.boolean()) other[g.idx(other.size())] = 'x';
            BufferCache o(3);
            o.add(other.data(), other.size());
            CHECK_EQ(c < o, memcmp(acc.data(), other.data(), acc.size()) < 0, "order of BufferCaches");
            break;
        }
        case 2: {
            BufferList l;
            std::string acc;
            size_t k = g.size(6);
            for (size_t i = 0; i < k; i++) { std::string d = content(g, g.size(50)); l.append(Buffer(d.data(), d.size())); acc += d; }
            CHECK_EQ(l.count(), k, "count of a BufferList");
            CHECK_EQ(size_t((long long)l.size()), acc.size(), "size of a BufferList");
            Buffer b = l.consolidate();
            CHECK(b.size() == acc.size() && (acc.empty() || memcmp(b.data(), acc.data(), acc.size()) == 0), "consolidated content");
            CHECK_EQ(l.count(), size_t(0), "a consolidated list is empty");
            break;
        }
        case 3: {
            Buffer b(m.c_str());
            SharedBuffer s(n + 1);
            memcpy(s.data(), (m + "z").data(), n + 1);
            SharedBuffer t(s), u(5);
            u = t;
            t = SharedBuffer(2);
            CHECK_EQ(u.size(), n + 1, "shared size");
            CHECK(u.str() == m + "z" && s.str() == m + "z", "shared content");
            static_cast<char*>(u.data())[n] = 'y';
            CHECK(s.str() == m + "y", "sharing is sharing");
            break;
        }
    }
}
