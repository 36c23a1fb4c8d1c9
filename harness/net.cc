// C39: what one side sends is what the other side gets: sockets, streams, handles, datagrams, services.
#include "pbt.h"
#include "sockpair.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/URI.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/MultiSocketHandle.h"
#include "eckit/io/SockBuf.h"
#include "eckit/io/TCPHandle.h"
#include "eckit/io/TCPSocketHandle.h"
#include "eckit/net/Endpoint.h"
#include "eckit/net/HttpHeader.h"
#include "eckit/net/IPAddress.h"
#include "eckit/net/MultiSocket.h"
#include "eckit/net/NetMask.h"
#include "eckit/net/NetService.h"
#include "eckit/net/NetUser.h"
#include "eckit/net/ProxiedTCPClient.h"
#include "eckit/net/ProxiedTCPServer.h"
#include "eckit/net/TCPClient.h"
#include "eckit/net/TCPServer.h"
#include "eckit/net/TCPStream.h"
#include "eckit/net/UDPClient.h"
#include "eckit/net/UDPServer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <dirent.h>
#include <functional>
#include <memory>
#include <netinet/in.h>
#include <sstream>
#include <sys/socket.h>
#include <sys/un.h>
#include <cstddef>
#include <thread>
#include <unistd.h>

using namespace pbt;
using namespace eckit;
using namespace eckit::net;

PBT_INIT {
    ::setenv("AUTO_LOAD_PLUGINS", "0", 1);
    Main::initialise(argc, argv);
}

namespace {

size_t openFiles() {
    size_t n = 0;
    DIR* d   = ::opendir("/proc/self/fd");
    if (!d) return 0;
    while (::readdir(d)) ++n;
    ::closedir(d);
    return n;
}

// fails when the case leaves files open
struct NoLeak {
    size_t before = openFiles();
    void check() const {
        size_t after = openFiles();
        // of threads that end
        for (int i = 0; i < 200 && after > before; ++i) {
            ::usleep(10000);
            after = openFiles();
        }
        CHECK(after <= before, "open files: " << after << " after, " << before << " before");
    }
};

struct Threads {
    std::vector<std::thread> t;
    std::vector<std::string> why;
    std::vector<std::unique_ptr<std::string>> errs;
    void run(const char* name, std::function<void()> f) {
        errs.emplace_back(new std::string);
        std::string* e = errs.back().get();
        t.emplace_back([=] {
            try {
                f();
            }
            catch (std::exception& x) {
                *e = std::string(name) + ": " + x.what();
            }
        });
    }
    std::string join() {
        for (auto& x : t) x.join();
        t.clear();
        std::string s;
        for (auto& e : errs)
            if (!e->empty()) s += *e + "\n";
        return s;
    }
    ~Threads() {
        for (auto& x : t)
            if (x.joinable()) x.join();
    }
};

#define NEED(c, m)                                       \
    do {                                                 \
        if (!(c)) {                                      \
            std::ostringstream o_;                       \
            o_ << #c << " violated: " << m;              \
            throw std::runtime_error(o_.str());          \
        }                                                \
    } while (0)

std::string data(Gen& g, size_t max) {
    size_t n = g.size(max);
    uint64_t seed = g.choice(1000000);
    std::string s(n, 0);
    for (auto& c : s) {
        seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
        c    = char(seed >> 56);
    }
    return s;
}

std::vector<size_t> chunks(Gen& g, size_t total) {
    std::vector<size_t> v;
    size_t most = 1 + g.size(total < 200 ? 50 : total);
    if (total / most > 3000) most = total / 3000 + 1;
    size_t n = 0;
    uint64_t seed = g.choice(1000000);
    bool zeros = g.chance(20);
    while (n < total) {
        seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
        size_t k = std::min(total - n, 1 + size_t(seed >> 33) % most);
        if (zeros && (seed >> 20) % 10 == 0) k = 0;
        v.push_back(k);
        n += k;
    }
    return v;
}

void differs(const std::string& got, const std::string& want, const char* what) {
    if (got == want) return;
    size_t d = 0;
    while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
    NEED(false, what << ": " << got.size() << " bytes rather than " << want.size() << ", differs at " << d << " "
                     << esc(got.substr(d, 20)) << " rather than " << esc(want.substr(d, 20)));
}

template <class S>
void send(S& s, const std::string& d, const std::vector<size_t>& c) {
    size_t at = 0;
    for (size_t n : c) {
        long w = s.write(d.data() + at, long(n));
        NEED(w == long(n), "wrote " << w << " of " << n);
        at += n;
    }
}

// everything until the end
template <class S>
std::string receive(S& s, const std::vector<size_t>& c, bool whole = true) {
    std::string d;
    size_t i = 0;
    for (;;) {
        size_t n = c.empty() ? 1000 : c[i++ % c.size()];
        if (n == 0) n = 1;
        std::vector<char> b(n + 1, 'Z');
        long r = s.read(b.data(), long(n));
        NEED(r >= 0 && r <= long(n), "read of " << n << " is " << r);
        NEED(b[n] == 'Z', "read of " << n << " overwrites");
        d.append(b.data(), size_t(r));
        if (r == 0) return d;
        if (whole && r < long(n)) {
            // the end
            char x;
            NEED(s.read(&x, 1) == 0, "more, after a read of " << n << " that gave " << r);
            return d;
        }
    }
}

// a port that no other process of ours takes
struct FreePort {
    int port = 0, lock = -1;
    explicit FreePort(Gen& g) {
        static unsigned n = unsigned(::getpid()) * 37;
        for (;;) {
            port = 12000 + int(n++ % 18000);
            lock = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_un u;
            ::memset(&u, 0, sizeof(u));
            u.sun_family = AF_UNIX;
            int l        = ::snprintf(u.sun_path + 1, sizeof(u.sun_path) - 1, "verif-port-%d", port);
            if (::bind(lock, reinterpret_cast<sockaddr*>(&u), socklen_t(offsetof(sockaddr_un, sun_path) + 1 + size_t(l))) == 0) {
                int s = ::socket(AF_INET, SOCK_STREAM, 0);
                sockaddr_in a;
                ::memset(&a, 0, sizeof(a));
                a.sin_family = AF_INET;
                a.sin_port   = htons(uint16_t(port));
                int e        = ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof(a));
                ::close(s);
                if (e == 0) return;
            }
            ::close(lock);
        }
    }
    ~FreePort() { ::close(lock); }
    bool listened() const {
        char want[32], line[300];
        ::snprintf(want, sizeof(want), ":%04X 00000000:0000 0A", port);
        FILE* f  = ::fopen("/proc/net/tcp", "r");
        bool yes = false;
        while (f && !yes && ::fgets(line, sizeof(line), f)) yes = ::strstr(line, want) != nullptr;
        if (f) ::fclose(f);
        return yes;
    }
};

}  // namespace

// A connection carries the bytes of both sides, in order, and their end; whoever owns it.
PBT(connection, 4) {
    spareThePorts();
    NoLeak leak;
    {
        std::string ab = data(g, g.chance(20) ? 2000000 : 3000), ba = data(g, g.chance(20) ? 2000000 : 3000);
        auto ca = chunks(g, ab.size()), cb = chunks(g, ba.size()), ra = chunks(g, ba.size()), rb = chunks(g, ab.size());
        int small    = g.chance(30) ? int(g.range(4096, 20000)) : 0;
        if (small) {
            // slow: the system waits for room
            if (ab.size() > 30000) ab.resize(30000);
            if (ba.size() > 30000) ba.resize(30000);
            ca = chunks(g, ab.size());
            cb = chunks(g, ba.size());
        }
        int moves    = int(g.choice(3));
        bool assign  = g.boolean();
        bool half    = g.boolean();  // the ends close their output, or one closes all
        bool host    = g.boolean();
        g.note([&](std::ostream& o) {
            o << "client sends " << ab.size() << " in " << ca.size() << ", server " << ba.size() << " in " << cb.size() << ", buffers " << small << ", moves "
              << moves << (assign ? " by assignment" : "") << (half ? ", half closed" : "") << "\n";
        });
        g.nontrivial(ab.size() + ba.size() > 100 && ca.size() + cb.size() > 3);
        EphemeralTCPServer server;
        TCPClient client;
        if (small) {
            client.bufferSize(small);
            server.bufferSize(small);
        }
        int port = server.localPort();
        CHECK(port > 0 && port < 65536, "port " << port);
        TCPSocket& conn = client.connect(host ? "localhost" : "127.0.0.1", port, 1, 0, 0);
        CHECK(&conn == &client && client.isConnected(), "connected");
        std::unique_ptr<TCPSocket> peer(new TCPSocket(server.accept()));
        CHECK(!server.isConnected(), "the server keeps the connection");
        CHECK_EQ(peer->remotePort(), client.localPort(), "port of the client");
        CHECK_EQ(client.remotePort(), port, "port of the server");
        CHECK_EQ(client.remoteAddr().s_addr, htonl(INADDR_LOOPBACK), "address");
        CHECK_EQ(peer->remoteAddr().s_addr, htonl(INADDR_LOOPBACK), "address");
        int remote = peer->remotePort();
        for (int i = 0; i < moves; ++i) {
            if (assign) {
                std::unique_ptr<TCPSocket> q(new TCPSocket);
                if (i == 1) {
                    // it has another connection
                    TCPClient other;
                    other.connect("127.0.0.1", port, 1, 0, 0);
                    *q = server.accept();
                    *q = *peer;
                    char x;
                    CHECK_EQ(other.read(&x, 1), 0, "the connection that was replaced is closed");
                }
                else {
                    *q = *peer;
                }
                CHECK(!peer->isConnected() && q->isConnected(), "ownership");
                peer = std::move(q);
            }
            else {
                std::unique_ptr<TCPSocket> q(new TCPSocket(*peer));
                CHECK(!peer->isConnected() && q->isConnected(), "ownership");
                peer = std::move(q);
            }
            CHECK_EQ(peer->remotePort(), remote, "port after a move");
        }
        if (assign && moves) {
            TCPSocket& self = *peer;
            *peer           = self;
            CHECK(peer->isConnected(), "assigned to itself");
        }
        Threads t;
        t.run("client", [&] {
            send(client, ab, ca);
            if (half) client.closeOutput();
        });
        t.run("server", [&] {
            send(*peer, ba, cb);
            if (half) peer->closeOutput();
        });
        if (half) {
            t.run("client reads", [&] { differs(receive(client, ra), ba, "server to client"); });
            t.run("server reads", [&] { differs(receive(*peer, rb), ab, "client to server"); });
            std::string e = t.join();
            CHECK(e.empty(), e);
            CHECK(client.isConnected() && peer->isConnected(), "still connected");
            client.close();
        }
        else {
            t.run("client reads", [&] {
                std::string s(ba.size(), 0);
                if (!s.empty()) NEED(client.read(&s[0], long(s.size())) == long(s.size()), "short read");
                differs(s, ba, "server to client");
            });
            t.run("server reads", [&] {
                std::string s(ab.size(), 0);
                if (!s.empty()) NEED(peer->read(&s[0], long(s.size())) == long(s.size()), "short read");
                differs(s, ab, "client to server");
            });
            std::string e = t.join();
            CHECK(e.empty(), e);
            client.close();
            char x;
            CHECK_EQ(peer->read(&x, 1), 0, "end");
        }
        CHECK(!client.isConnected(), "closed");
        CHECK_EQ(client.remotePort(), -1, "port when closed");
        // nobody is there: no signal
        std::string junk(1000, 'x');
        for (int i = 0; i < 3; ++i) peer->write(junk.data(), 1000);
    }
    leak.check();
}

// Nobody answers, or nobody comes: reported, and nothing is left behind.
PBT(nobody, 1) {
    spareThePorts();
    NoLeak leak;
    {
        int what = int(g.choice(g.chance(3) ? 2 : 1));
        g.note([&](std::ostream& o) { o << "case " << what << "\n"; });
        if (what == 0) {
            FreePort nobody(g);
            int port = nobody.port, retries = int(1 + g.idx(3));
            TCPClient c;
            bool thrown = false;
            try {
                c.connect("127.0.0.1", port, retries, 0, 0);
            }
            catch (TooManyRetries&) {
                thrown = true;
            }
            CHECK(thrown, "connected to a port that nobody listens to");
            CHECK(!c.isConnected(), "connected");
            // it may be used again
            EphemeralTCPServer server;
            c.connect("127.0.0.1", server.localPort(), 1, 0, 0);
            TCPSocket s(server.accept());
            CHECK_EQ(s.write("abc", 3), 3, "write");
            char b[4] = {};
            CHECK_EQ(c.read(b, 3), 3, "read");
            CHECK(!::strcmp(b, "abc"), "text " << b);
        }
        else if (what == 1) {
            // the other side leaves: an answer that was sent before is still read
            EphemeralTCPServer server;
            TCPClient c;
            std::string d = data(g, 20000);
            c.connect("127.0.0.1", server.localPort(), 1, 0, 0);
            {
                TCPSocket s(server.accept());
                CHECK_EQ(s.write(d.data(), long(d.size())), long(d.size()), "write");
            }
            g.nontrivial(d.size() > 10);
            std::string got = receive(c, chunks(g, d.size()));
            CHECK(got == d, "got " << got.size() << " of " << d.size());
        }
        else {
            EphemeralTCPServer server;
            bool connected = true;
            server.accept("waiting", 1, &connected);
            CHECK(!connected, "nobody came");
            std::string why;
            CHECK(throws([&] { server.accept("waiting", 1); }, &why), "no time out");
            TCPClient c;
            c.connect("127.0.0.1", server.localPort(), 1, 0, 0);
            TCPSocket s(server.accept("waiting", 1, &connected));
            CHECK(connected && s.isConnected(), "somebody came");
        }
    }
    leak.check();
}

namespace {

struct Val {
    int kind;
    long long i = 0;
    double d    = 0;
    std::string s;
};

Val val(Gen& g) {
    Val v;
    v.kind = int(g.choice(10));
    v.i    = g.integer(-1000000000000LL, 1000000000000LL);
    v.d    = g.anyDouble(false);
    v.s    = v.kind == 9 ? data(g, 5000) : g.chance(10) ? data(g, 200000) : g.bytes(30);
    return v;
}

void put(Stream& s, const Val& v) {
    switch (v.kind) {
        case 0: s << int(v.i); break;
        case 1: s << long(int(v.i)); break;  // 32 bits, by the format
        case 2: s << (long long)(v.i); break;
        case 3: s << (unsigned long)(unsigned(v.i)); break;
        case 4: s << v.d; break;
        case 5: s << bool(v.i & 1); break;
        case 6: s << char(v.i); break;
        case 7: s << v.s; break;
        case 8: s << std::vector<std::string>{v.s, "", v.s}; break;
        case 9: s.writeBlob(v.s.data(), v.s.size()); break;
        default: s << short(v.i); break;
    }
}

template <class T>
void same(Stream& s, T want, const char* what) {
    T t{};
    s >> t;
    NEED(t == want, what << " is " << t << " rather than " << want);
}

void get(Stream& s, const Val& v) {
    switch (v.kind) {
        case 0: same(s, int(v.i), "int"); break;
        case 1: same(s, long(int(v.i)), "long"); break;
        case 2: same(s, (long long)(v.i), "long long"); break;
        case 3: same(s, (unsigned long)(unsigned(v.i)), "unsigned long"); break;
        case 4: same(s, v.d, "double"); break;
        case 5: same(s, bool(v.i & 1), "bool"); break;
        case 6: same(s, char(v.i), "char"); break;
        case 7: {
            std::string t;
            s >> t;
            differs(t, v.s, "string");
            break;
        }
        case 8: {
            std::vector<std::string> t;
            s >> t;
            NEED(t.size() == 3, "strings");
            differs(t[0], v.s, "string 0");
            differs(t[1], "", "string 1");
            differs(t[2], v.s, "string 2");
            break;
        }
        case 9: {
            std::string t(v.s.size(), 0);
            s.readBlob(&t[0], t.size());
            differs(t, v.s, "blob");
            break;
        }
        default: same(s, short(v.i), "short"); break;
    }
}

}  // namespace

// Values over a connection, asked for and answered.
PBT(values, 3) {
    NoLeak leak;
    {
        std::vector<std::vector<Val>> turns;
        size_t n = 0;
        for (size_t i = 0, m = 1 + g.idx(6); i < m; ++i) {
            turns.emplace_back();
            for (size_t j = 0, k = g.idx(6); j < k; ++j) turns.back().push_back(val(g)), ++n;
        }
        bool owner = g.boolean();
        g.note([&](std::ostream& o) {
            for (auto& t : turns) {
                for (auto& v : t) o << v.kind << ":" << v.i << "," << v.d << "," << v.s.size() << " ";
                o << "\n";
            }
        });
        g.nontrivial(n > 5 && turns.size() > 1);
        int fd[2];
        socketPair(fd);
        PairSocket client(fd[0]), peer(fd[1]);
        auto side = [&](TCPSocket& socket, size_t me, bool own) {
            std::unique_ptr<Stream> s;
            if (own) s.reset(new TCPStream(socket));
            else s.reset(new InstantTCPStream(socket));
            for (size_t i = 0; i < turns.size(); ++i) {
                if (i % 2 == me) {
                    for (auto& v : turns[i]) put(*s, v);
                    *s << "end of turn";
                }
                else {
                    for (auto& v : turns[i]) get(*s, v);
                    std::string t;
                    *s >> t;
                    differs(t, "end of turn", "turn");
                }
            }
        };
        Threads t;
        t.run("client", [&] { side(client, 0, owner); });
        t.run("server", [&] { side(peer, 1, !owner); });
        std::string e = t.join();
        CHECK(e.empty(), e);
        CHECK_EQ(client.isConnected(), !owner, "client's connection");
        CHECK_EQ(peer.isConnected(), owner, "server's connection");
    }
    leak.check();
}

// Texts, line by line, over a connection.
PBT(lines, 1) {
    NoLeak leak;
    {
        std::vector<std::string> out;
        for (size_t i = 0, n = g.idx(8); i < n; ++i) {
            out.push_back(g.chance(20) ? g.str(500, "abc def\t") : g.bytes(20));
            for (auto& c : out.back())
                if (c == '\n') c = '_';
        }
        g.note([&](std::ostream& o) {
            for (auto& l : out) o << esc(l) << "\n";
        });
        g.nontrivial(out.size() > 2);
        int fd[2];
        socketPair(fd);
        PairSocket client(fd[0]), peer(fd[1]);
        Threads t;
        t.run("client", [&] {
            SockBuf b(client);
            std::ostream o(&b);
            std::istream in(&b);
            for (auto& l : out) {
                o << l << "\n" << std::flush;
                std::string e;
                NEED(std::getline(in, e), "no echo");
                differs(e, l + "!", "echo");
            }
            o.flush();
            client.closeOutput();
        });
        std::vector<std::string> got;
        t.run("server", [&] {
            SockBuf b(peer);
            std::ostream o(&b);
            std::istream in(&b);
            std::string l;
            while (std::getline(in, l)) {
                got.push_back(l);
                o << l << "!" << std::endl;
            }
        });
        std::string e = t.join();
        CHECK(e.empty(), e);
        CHECK(got == out, "lines");
    }
    leak.check();
}

// Handles on connections are handles like others.
PBT(handles, 3) {
    NoLeak leak;
    {
        int kind      = int(g.choice(3));
        std::string d = data(g, g.chance(15) ? 1000000 : 20000);
        auto c        = chunks(g, d.size());
        auto r        = chunks(g, d.size());
        bool streamed = g.boolean();
        bool half     = g.boolean();
        g.note([&](std::ostream& o) { o << "kind " << kind << " bytes " << d.size() << " in " << c.size() << (streamed ? " streamed" : "") << "\n"; });
        g.nontrivial(d.size() > 20 && c.size() > 2);
        if (kind <= 1) {
            spareThePorts();
            EphemeralTCPServer server;
            int port = server.localPort();
            // what connects: to be read, to be written
            std::unique_ptr<DataHandle> h(new TCPHandle("localhost", port));
            if (streamed) {
                Buffer b(10000);
                ResizableMemoryStream s(b);
                s << *h;
                s.rewind();
                h.reset(Reanimator<DataHandle>::reanimate(s));
                CHECK(h, "handle from a stream");
            }
            else if (half) {
                h.reset(h->clone());
            }
            std::string got;
            Threads t;
            if (kind == 0) {
                t.run("server", [&] {
                    TCPSocket s(server.accept());
                    send(s, d, c);
                });
                t.run("client", [&] {
                    h->openForRead();
                    got = receive(*h, r);
                    h->close();
                });
            }
            else {
                t.run("server", [&] {
                    TCPSocket s(server.accept());
                    got = receive(s, r);
                });
                t.run("client", [&] {
                    h->openForWrite(Length(d.size()));
                    send(*h, d, c);
                    h->close();
                });
            }
            std::string e = t.join();
            CHECK(e.empty(), e);
            CHECK(got == d, "got " << got.size() << " bytes of " << d.size());
        }
        else {
            // of a connection: read, with parts that are left out
            int fd[2];
            socketPair(fd);
            PairSocket client(fd[0]), peer(fd[1]);
            Threads t;
            t.run("server", [&] {
                send(peer, d, c);
                peer.close();
            });
            std::vector<std::pair<size_t, size_t>> parts;
            size_t at = 0;
            while (at < d.size() && parts.size() < 10) {
                size_t skip = g.chance(30) ? 0 : g.size(d.size() / 2 + 1), n = 1 + g.size(d.size() / 2 + 1);
                if (g.chance(5)) skip = d.size();  // beyond the end
                parts.push_back({at + skip, n});
                at += skip + n;
            }
            std::string why;
            try {
                std::unique_ptr<InstantTCPSocketHandle> h;
                if (kind == 2) h.reset(new InstantTCPSocketHandle(client));
                else h.reset(new TCPSocketHandle(client));
                NEED(client.isConnected() == (kind == 2), "ownership");
                h->openForRead();
                for (auto& p : parts) {
                    try {
                        h->seek(Offset(p.first));
                    }
                    catch (std::exception&) {
                        NEED(p.first > d.size(), "seek to " << p.first << " of " << d.size() << " fails");
                        break;
                    }
                    std::string b(p.second, 0);
                    long n = h->read(&b[0], long(b.size()));
                    std::string want = p.first < d.size() ? d.substr(p.first, p.second) : std::string();
                    NEED(n == long(want.size()), "read " << n << " at " << p.first << " rather than " << want.size());
                    differs(b.substr(0, size_t(n)), want, "part");
                }
                // what is left
                char x[4096];
                while (h->read(x, 4096) > 0) {}
                h->close();
            }
            catch (std::exception& e) {
                why = e.what();
                client.close();
            }
            std::string e = t.join();
            CHECK(why.empty(), why);
            CHECK(e.empty(), e);
        }
    }
    leak.check();
}

// Several connections used as one.
PBT(multi, 3) {
    spareThePorts();
    NoLeak leak;
    {
        struct Round {
            size_t streams, message;
            std::string ab, ba;
            std::vector<size_t> ca, cb, ra, rb;
            int how;
            bool move;
        };
        std::vector<Round> rounds;
        for (size_t i = 0, n = 1 + g.idx(3); i < n; ++i) {
            Round r;
            r.streams = 1 + g.idx(6);
            r.message = 1 + g.size(g.boolean() ? 10 : 100000);
            r.ab      = data(g, 20000);
            r.ba      = data(g, 20000);
            if (r.ab.size() / r.message > 5000) r.ab.resize(r.message * 5000);
            if (r.ba.size() / r.message > 5000) r.ba.resize(r.message * 5000);
            r.ca   = chunks(g, r.ab.size());
            r.cb   = chunks(g, r.ba.size());
            r.ra   = chunks(g, r.ba.size());
            r.rb   = chunks(g, r.ab.size());
            r.how  = int(g.choice(3));  // 0 both ways, 1 handle that reads, 2 handle that writes, 3 both ways
            r.move = g.boolean();
            rounds.push_back(r);
        }
        g.note([&](std::ostream& o) {
            for (auto& r : rounds)
                o << r.streams << " streams, messages of " << r.message << ", " << r.ab.size() << " in " << r.ca.size() << ", " << r.ba.size() << " in "
                  << r.cb.size() << ", how " << r.how << "\n";
        });
        g.nontrivial(rounds[0].streams > 1 && rounds[0].ab.size() > rounds[0].message);
        std::unique_ptr<MultiSocket> server;
        FreePort mine(g);
        int port = mine.port;
        server.reset(new MultiSocket(port));
        Threads t;
        std::atomic<bool> failed{false};
        t.run("server", [&] {
            try {
                for (auto& r : rounds) {
                    std::unique_ptr<MultiSocket> own;
                    MultiSocket* s = &server->accept();
                    own.reset(new MultiSocket(*s));
                    s = own.get();
                    if (r.how != 1) {
                        std::string b(r.ab.size(), 0);
                        size_t at = 0, i = 0;
                        while (at < b.size()) {
                            size_t n = std::min(b.size() - at, std::max<size_t>(1, r.rb[i++ % r.rb.size()]));
                            long k   = s->read(&b[at], long(n));
                            NEED(k == long(n), "read " << k << " of " << n);
                            at += n;
                        }
                        differs(b, r.ab, "client to server");
                        if (r.how == 2) {
                            char x;
                            NEED(s->read(&x, 1) == 0, "no end");
                        }
                    }
                    if (r.how != 2) send(*s, r.ba, r.cb);
                    s->close();
                }
            }
            catch (...) {
                failed = true;
                server.reset();
                throw;
            }
        });
        t.run("client", [&] {
            while (!mine.listened() && !failed) ::usleep(200);
            for (auto& r : rounds) {
                if (failed) return;
                if (r.how == 1 || r.how == 2) {
                    std::unique_ptr<DataHandle> h(new MultiSocketHandle("localhost", port, r.streams, r.message, 8192));
                    if (r.move) {
                        Buffer b(10000);
                        ResizableMemoryStream s(b);
                        s << *h;
                        s.rewind();
                        h.reset(Reanimator<DataHandle>::reanimate(s));
                    }
                    else {
                        h.reset(h->clone());
                    }
                    if (r.how == 1) {
                        h->openForRead();
                        std::string got = receive(*h, r.ra);
                        h->close();
                        differs(got, r.ba, "server to client");
                    }
                    else {
                        h->openForWrite(Length(r.ab.size()));
                        send(*h, r.ab, r.ca);
                        h->close();
                    }
                }
                else {
                    MultiSocket c(r.streams, r.message);
                    c.connect("localhost", port, 3, 0);
                    std::unique_ptr<MultiSocket> m(r.move ? new MultiSocket(c) : nullptr);
                    MultiSocket& s = r.move ? *m : c;
                    send(s, r.ab, r.ca);
                    differs(receive(s, r.ra), r.ba, "server to client");
                    s.close();
                }
            }
        });
        std::string e = t.join();
        server.reset();
        CHECK(e.empty(), e);
    }
    leak.check();
}

namespace {

std::atomic<int> users{0}, served{0};

struct EchoUser : NetUser {
    EchoUser(TCPSocket& s) : NetUser(s) { ++users; }
    ~EchoUser() override { --users; }
    void serve(Stream& s, std::istream&, std::ostream&) override {
        for (;;) {
            std::string t;
            s >> t;
            if (t == "stop") break;
            long n;
            s >> n;
            s << (t + t) << (n + 1);
        }
        ++served;
    }
};

struct EchoService : NetService {
    EchoService() : NetService(0, false, SocketOptions::data()) {}
    NetUser* newUser(TCPSocket& s) const override { return new EchoUser(s); }
    std::string name() const override { return "echo"; }
};

}  // namespace

// A service answers each of its clients, at the same time.
PBT(service, 2) {
    spareThePorts();
    NoLeak leak;
    {
        size_t clients = 1 + g.idx(8);
        std::vector<std::vector<std::string>> texts;
        for (size_t i = 0; i < clients; ++i) {
            texts.emplace_back();
            for (size_t j = 0, n = g.idx(6); j < n; ++j) texts.back().push_back("c" + std::to_string(i) + data(g, g.chance(10) ? 100000 : 100));
        }
        g.note([&](std::ostream& o) {
            for (auto& t : texts) {
                for (auto& x : t) o << x.size() << " ";
                o << "\n";
            }
        });
        g.nontrivial(clients > 2);
        EchoService service;
        int port = service.port();
        users = served = 0;
        std::atomic<bool> over{false};
        std::thread run([&] {
            try {
                service.run();
            }
            catch (std::exception& e) {
            }
            over = true;
        });
        Threads t;
        for (size_t i = 0; i < clients; ++i) {
            t.run("client", [&, i] {
                TCPClient c;
                c.connect("localhost", port, 3, 0, 0);
                InstantTCPStream s(c);
                long n = long(i) * 1000;
                for (auto& x : texts[i]) {
                    s << x << n;
                    std::string e;
                    long m;
                    s >> e >> m;
                    differs(e, x + x, "answer");
                    NEED(m == n + 1, "number " << m << " rather than " << n + 1);
                    n = m;
                }
                s << "stop";
                char x;
                NEED(c.read(&x, 1) == 0, "no end");
            });
        }
        std::string e = t.join();
        service.stop();
        while (!over) {
            try {
                TCPClient c;
                c.connect("localhost", port, 1, 0, 0);
                InstantTCPStream s(c);
                s << "stop";
            }
            catch (std::exception&) {
            }
            ::usleep(100);
        }
        run.join();
        for (int i = 0; i < 1000 && users; ++i) ::usleep(10000);
        CHECK(e.empty(), e);
        CHECK_EQ(int(users), 0, "users that are left");
        CHECK(served >= int(clients), "served " << served << " of " << clients);
    }
    leak.check();
}

// Datagrams.
PBT(datagrams, 1) {
    NoLeak leak;
    {
        std::vector<std::string> d;
        std::vector<size_t> room;
        for (size_t i = 0, n = 1 + g.idx(6); i < n; ++i) {
            d.push_back(g.chance(20) ? data(g, 60000) : data(g, 200));
            room.push_back(g.chance(20) ? 1 + g.size(d.back().size() + 1) : 70000);
        }
        bool config = g.boolean();
        g.note([&](std::ostream& o) {
            for (size_t i = 0; i < d.size(); ++i) o << d[i].size() << " into " << room[i] << "\n";
        });
        g.nontrivial(d.size() > 1);
        int s = ::socket(AF_INET, SOCK_DGRAM, 0);
        sockaddr_in a;
        ::memset(&a, 0, sizeof(a));
        a.sin_family = AF_INET;
        ::bind(s, reinterpret_cast<sockaddr*>(&a), sizeof(a));
        socklen_t l = sizeof(a);
        ::getsockname(s, reinterpret_cast<sockaddr*>(&a), &l);
        ::close(s);
        int port = ntohs(a.sin_port);
        std::unique_ptr<UDPServer> server;
        try {
            server.reset(new UDPServer(port));
        }
        catch (FailedSystemCall&) {
            discard();  // taken meanwhile
        }
        std::unique_ptr<UDPClient> client;
        if (config) {
            LocalConfiguration c;
            c.set("host", "127.0.0.1");
            c.set("port", port);
            client.reset(new UDPClient(c));
        }
        else {
            client.reset(new UDPClient("127.0.0.1", port));
        }
        for (size_t i = 0; i < d.size(); ++i) {
            client->send(d[i].data(), d[i].size());
            Buffer b(room[i] + 1);
            static_cast<char*>(b)[room[i]] = 'Z';
            size_t n = server->receive(b.data(), long(room[i]));
            size_t w = std::min(room[i], d[i].size());
            CHECK_EQ(n, w, "datagram " << i << " of " << d[i].size() << " into " << room[i]);
            CHECK(std::string(b, n) == d[i].substr(0, w), "datagram " << i);
            CHECK_EQ(static_cast<char*>(b)[room[i]], 'Z', "overwritten");
        }
        std::string big(70000, 'x');
        CHECK(throws([&] { client->send(big.data(), big.size()); }), "a datagram that is too long was sent");
    }
    leak.check();
}

// Through a proxy.
PBT(proxy, 1) {
    spareThePorts();
    NoLeak leak;
    {
        std::string ab = data(g, 3000), ba = data(g, 3000);
        bool good      = g.chance(80);
        long code      = good ? 200 : g.pick(std::vector<long>{201, 403, 404, 500, 502});
        std::string head = "HTTP/1.0 " + std::to_string(code) + " some text\r\n";
        for (size_t i = 0, n = g.idx(4); i < n; ++i) {
            std::string v = g.bytes(20);
            for (auto& c : v)
                if (c == '\r' || c == '\n') c = '_';
            head += "X-" + g.ident() + ": " + v + "\r\n";
        }
        head += "\r\n";
        bool together = g.boolean();
        bool server   = g.boolean();  // what is tried: the server that is behind a proxy, or the client
        g.note([&](std::ostream& o) { o << "header " << esc(head) << (together ? " with data" : "") << (server ? " server" : " client") << "\n"; });
        g.nontrivial(ab.size() > 10 && ba.size() > 10);
        Threads t;
        if (server) {
            ProxiedTCPServer s(0, SocketOptions::data());
            int port = s.localPort();
            t.run("client", [&] {
                TCPClient c;
                c.connect("127.0.0.1", port, 1, 0, 0);
                std::string all = head + ab;
                if (together) {
                    send(c, all, {all.size()});
                }
                else {
                    send(c, head, {head.size() / 2, head.size() - head.size() / 2});
                    send(c, ab, {ab.size()});
                }
                c.closeOutput();
                differs(receive(c, {}), ba, "server to client");
            });
            std::string why;
            try {
                TCPSocket p(s.accept());
                differs(receive(p, {}), ab, "client to server");
                send(p, ba, {ba.size()});
            }
            catch (std::exception& e) {
                why = e.what();
                s.close();
            }
            std::string e = t.join();
            CHECK(why.empty(), why);
            CHECK(e.empty(), e);
        }
        else {
            EphemeralTCPServer s;
            int port = s.localPort();
            t.run("proxy", [&] {
                TCPSocket p(s.accept());
                std::string r;
                char c;
                while (r.size() < 4 || r.substr(r.size() - 4) != "\r\n\r\n") {
                    NEED(p.read(&c, 1) == 1, "request cut short");
                    r += c;
                }
                std::string l = r.substr(0, r.find("\r\n"));
                differs(l.substr(0, l.rfind(' ')), "CONNECT somewhere:1234", "request");
                std::string all = head + ba;
                if (together) {
                    send(p, all, {all.size()});
                }
                else {
                    send(p, head, {head.size() / 2, head.size() - head.size() / 2});
                    send(p, ba, {ba.size()});
                }
                if (good) {
                    p.closeOutput();
                    differs(receive(p, {}), ab, "client to server");
                }
            });
            std::string why;
            {
                ProxiedTCPClient c("127.0.0.1", port, 0);
                bool connected = true;
                try {
                    c.connect("somewhere", 1234, 1, 0, 0);
                }
                catch (std::exception& e) {
                    connected = false;
                    if (good) why = std::string("not connected: ") + e.what();
                }
                if (connected && !good) why = "connected";
                try {
                    if (connected) {
                        send(c, ab, {ab.size()});
                        c.closeOutput();
                        differs(receive(c, {}), ba, "server to client");
                    }
                }
                catch (std::exception& e) {
                    why = e.what();
                }
                c.close();
            }
            std::string e = t.join();
            CHECK(why.empty(), why);
            CHECK(e.empty(), e);
        }
    }
    leak.check();
}

// Addresses.
PBT(addresses, 2) {
    // endpoints
    std::string host = g.pick(std::vector<std::string>{"localhost", "127.0.0.1", "host", "a.b.c", "h-1.example"});
    long port        = g.chance(80) ? g.integer(0, 65535) : g.pick(std::vector<long>{65536, -1, 100000, 70000, 2147483647, -65535});
    bool valid       = port >= 0 && port <= 65535;
    uint32_t a = uint32_t(g.choice(0xffffffffULL)), b = g.chance(60) ? a ^ (1u << g.idx(32)) : uint32_t(g.choice(0xffffffffULL));
    unsigned bits = unsigned(g.integer(0, 33));
    g.note([&](std::ostream& o) { o << host << ":" << port << " " << std::hex << a << " " << b << std::dec << "/" << bits << "\n"; });
    g.nontrivial(valid && bits > 0 && bits < 32);
    CHECK_EQ(throws([&] { Endpoint e(host, int(port)); }), !valid, "endpoint");
    CHECK_EQ(throws([&] { Endpoint e(host + ":" + std::to_string(port)); }), !valid, "endpoint text");
    if (valid) {
        Endpoint e(host, int(port));
        CHECK_EQ(e.port(), int(port), "port");
        CHECK_EQ(e.host(), host, "host");
        Endpoint f(host + ":" + std::to_string(port));
        CHECK(e == f, "endpoint from text");
        CHECK_EQ(f.host(), host, "host");
        Buffer buf(1000);
        MemoryStream s(buf);
        s << e;
        s.rewind();
        Endpoint h(s);
        CHECK(h == e && h.host() == host && h.port() == port, "endpoint from stream");
        if (port) {
            Endpoint u(URI("http://" + host + ":" + std::to_string(port) + "/x"));
            CHECK(u == e, "endpoint from uri " << u);
        }
        Endpoint other(host, int(port ? port - 1 : 1));
        CHECK(!(other == e), "equal to another port");
        CHECK(!(Endpoint(host + "x", int(port)) == e), "equal to another host");
    }
    CHECK(throws([&] { Endpoint e(host); }), "no port");
    CHECK(throws([&] { Endpoint e(host + ":1:2"); }), "two ports");
    // addresses
    auto dots = [](uint32_t x) {
        std::ostringstream o;
        o << (x >> 24) << "." << ((x >> 16) & 255) << "." << ((x >> 8) & 255) << "." << (x & 255);
        return o.str();
    };
    IPAddress x(dots(a)), y(dots(b));
    CHECK_EQ(x.asString(), dots(a), "address");
    std::ostringstream o;
    o << x;
    CHECK_EQ(o.str(), dots(a), "address");
    CHECK_EQ(x == y, a == b, "equal");
    CHECK(IPAddress(dots(a).c_str()) == x, "equal to itself");
    CHECK(throws([&] { IPAddress z(dots(a) + ".1"); }), "five parts");
    CHECK(throws([&] { IPAddress z("x" + dots(a)); }), "no number");
    // networks
    std::string cidr = dots(a) + "/" + std::to_string(bits);
    if (bits == 0 || bits > 31) {
        CHECK(throws([&] { NetMask m(cidr); }), "network " << cidr);
    }
    else {
        NetMask m(cidr);
        bool in = (a >> (32 - bits)) == (b >> (32 - bits));
        CHECK_EQ(m.contains(y), in, dots(b) << " in " << cidr);
        CHECK(m.contains(x), dots(a) << " in " << cidr);
        std::ostringstream p;
        p << m;
        CHECK_EQ(p.str(), cidr, "network");
    }
}
