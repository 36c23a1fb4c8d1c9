// C37: communicators of one process: collectives, messages, registry.
#include <algorithm>
#include <complex>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <thread>
#include "eckit/filesystem/PathName.h"
#include "eckit/io/SharedBuffer.h"
#include "eckit/mpi/Buffer.h"
#include "eckit/mpi/Comm.h"
#include "eckit/mpi/Group.h"
#include "eckit/runtime/Main.h"
#include "pbt.h"

using namespace pbt;
using namespace eckit;

namespace {

PBT_INIT {
    ::setenv("ECKIT_MPI_FORCE", "serial", 1);
    eckit::Main::initialise(argc, argv);
}

template <typename T> struct Make { static T of(Gen& g) { return T(g.integer(-100, 100)); } };
template <> struct Make<size_t> { static size_t of(Gen& g) { return size_t(g.integer(0, 1LL << 62)); } };
template <typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> of(Gen& g) { return {Make<A>::of(g), Make<B>::of(g)}; } };
template <typename A> struct Make<std::complex<A>> { static std::complex<A> of(Gen& g) { return {Make<A>::of(g), Make<A>::of(g)}; } };
template <typename T> std::vector<T> some(Gen& g, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(Make<T>::of(g)); return v; }

mpi::Operation::Code anyOp(Gen& g) {
    return g.pick<mpi::Operation::Code>({mpi::sum(), mpi::prod(), mpi::max(), mpi::min()});
}

template <typename T> void collectives(Gen& g, const char* type) {
    auto& c = mpi::comm();
    size_t n = g.size(20);
    const auto send = some<T>(g, n), old = some<T>(g, n + 8);
    const int at = int(g.idx(5)), from = int(g.idx(4));
    std::vector<T> room(old.begin(), old.begin() + long(n));
    const int which = int(g.idx(22));
    g.note([&](std::ostream& o) { o << "collective " << which << " of " << n << " " << type << ", to " << at << ", from " << from; });
    g.nontrivial(n > 1);
    std::vector<int> counts{int(n)}, displs{at}, sdispls{from};
    std::string what = "collective " + std::to_string(which) + " of " + std::to_string(n) + " " + type;
    // what of old becomes send, from a position on
    auto placed = [&](const std::vector<T>& got, size_t pos, const std::vector<T>& data) {
        CHECK_EQ(got.size(), old.size(), what);
        for (size_t i = 0; i < got.size(); ++i) CHECK(got[i] == (i >= pos && i < pos + data.size() ? data[i - pos] : old[i]), what << ": element " << i << ", of " << data.size() << " at " << pos);
    };
    std::vector<T> wide(old);
    const T one = Make<T>::of(g);
    switch (which) {
        case 0: { auto v = send; if (n) { c.broadcast(v, 0); c.broadcast(v.begin(), v.end(), 0); c.broadcast(v.data(), v.data() + n, 0); c.broadcast(v.data(), n, 0); } CHECK(v == send, what); break; }
        case 1: { T v = one; c.broadcast(v, 0); CHECK(v == one, what); break; }
        case 2: c.gather(send, room, 0); CHECK(room == send, what); break;
        case 3: c.gather(send.begin(), send.end(), room.begin(), room.end(), 0); CHECK(room == send, what); break;
        case 4: { std::vector<T> r(1); c.gather(one, r, 0); CHECK(r[0] == one, what); break; }
        case 5: c.gatherv(send, wide, counts, displs, 0); placed(wide, size_t(at), send); break;
        case 6: c.gatherv(send.data(), n, wide.data(), counts.data(), displs.data(), 0); placed(wide, size_t(at), send); break;
        case 7: c.gatherv(send.begin(), send.end(), wide.begin(), wide.end(), counts, displs, 0); placed(wide, size_t(at), send); break;
        case 8: c.scatter(send, room, 0); CHECK(room == send, what); break;
        case 9: { T r = Make<T>::of(g); c.scatter(std::vector<T>{one}, r, 0); CHECK(r == one, what); break; }
        case 10: case 11: {
            std::vector<T> src(old), r(n);
            std::copy(send.begin(), send.end(), src.begin() + from);
            if (which == 10) c.scatterv(src.data(), counts.data(), sdispls.data(), r.data(), int(n), 0);
            else c.scatterv(src.begin(), src.end(), counts, sdispls, r.begin(), r.end(), 0);
            CHECK(r == send, what);
            break;
        }
        case 12: c.reduce(send.data(), room.data(), n, anyOp(g), 0); CHECK(room == send, what); break;
        case 13: { T r = Make<T>::of(g); c.reduce(one, r, anyOp(g), 0); CHECK(r == one, what); break; }
        case 14: c.allReduce(send, room, anyOp(g)); CHECK(room == send, what); break;
        case 15: { T r = Make<T>::of(g); c.allReduce(one, r, anyOp(g)); CHECK(r == one, what); c.allReduceInPlace(r, anyOp(g)); c.reduceInPlace(r, anyOp(g), 0); CHECK(r == one, what); break; }
        case 16: { auto v = send; c.allReduceInPlace(v.data(), n, anyOp(g)); c.reduceInPlace(v.data(), n, anyOp(g), 0); CHECK(v == send, what); break; }
        case 17: { std::vector<T> r(1); c.allGather(one, r.begin(), r.end()); CHECK(r[0] == one, what); break; }
        case 18: c.allGatherv(send.begin(), send.end(), wide.begin(), counts.data(), displs.data()); placed(wide, size_t(at), send); break;
        case 19: { mpi::Buffer<T> b(1); c.allGatherv(send.begin(), send.end(), b); CHECK(b.buffer == send && b.cnt == int(n) && b.counts[0] == int(n) && b.displs[0] == 0, what); break; }
        case 20: { c.allToAll(send, room); CHECK(room == send, what); std::vector<std::vector<T>> a{send}, b(1); c.allToAll(a, b); CHECK(b[0] == send, what); break; }
        default: {
            std::vector<T> src(old);
            std::copy(send.begin(), send.end(), src.begin() + from);
            c.allToAllv(src.data(), counts.data(), sdispls.data(), wide.data(), counts.data(), displs.data());
            placed(wide, size_t(at), send);
        }
    }
    // sizes that do not fit, roots that are not there
    if (g.chance(20)) {
        std::vector<T> longer(n + 1);
        CHECK(throws([&] { c.gather(send, longer, 0); }), "gather into a longer vector");
        CHECK(throws([&] { c.scatter(send, longer, 0); }), "scatter into a longer vector");
        CHECK(throws([&] { c.allReduce(send, longer, mpi::sum()); }), "allReduce into a longer vector");
        CHECK(throws([&] { auto v = longer; c.broadcast(v, 1); }), "broadcast from a process that is not there");
        CHECK(throws([&] { auto v = send; c.gather(send, v, 1); }), "gather to a process that is not there");
    }
}

}  // namespace

PBT(collectives_, 4) {
    switch (g.idx(14)) {
        case 0: collectives<char>(g, "char"); break;
        case 1: collectives<int>(g, "int"); break;
        case 2: collectives<long>(g, "long"); break;
        case 3: collectives<long long>(g, "long long"); break;
        case 4: collectives<float>(g, "float"); break;
        case 5: collectives<double>(g, "double"); break;
        case 6: collectives<size_t>(g, "size_t"); break;
        case 7: collectives<std::pair<int, int>>(g, "int, int"); break;
        case 8: collectives<std::pair<long, long>>(g, "long, long"); break;
        case 9: collectives<std::pair<long long, long long>>(g, "long long, long long"); break;
        case 10: collectives<std::pair<long, int>>(g, "long, int"); break;
        case 11: collectives<std::pair<float, int>>(g, "float, int"); break;
        case 12: collectives<std::pair<double, int>>(g, "double, int"); break;
        default: collectives<std::complex<double>>(g, "complex");
    }
}

// ---------------------------------------------------------------- messages of a process to itself
namespace {
struct Msg { int tag; int type; std::string bytes; size_t count; };
size_t width(int type) { return type == 0 ? sizeof(char) : type == 1 ? sizeof(int) : sizeof(double); }
void drain() {
    auto& c = mpi::comm();
    for (;;) {
        mpi::Status s = c.iProbe(c.anySource(), c.anyTag());
        if (!s) return;
        std::vector<double> b(c.getCount<double>(s) + 1);
        c.receive(b.data(), c.getCount<double>(s), c.anySource(), s.tag());
    }
}
}  // namespace

PBT(messages, 6) {
    auto& c = mpi::comm();
    drain();
    std::deque<Msg> m;
    std::vector<std::pair<mpi::Request, bool>> sent;  // and whether it was waited for
    std::ostringstream log;
    size_t n = g.chance(10) ? 130 + g.idx(100) : 2 + g.size(40), received = 0, most = 0;
    const bool many = n > 100;
    auto find = [&](int tag) { return std::find_if(m.begin(), m.end(), [&](const Msg& x) { return tag == c.anyTag() || x.tag == tag; }); };
    auto check = [&](mpi::Status s, const Msg& w, const std::string& what) {
        CHECK_EQ(s.tag(), w.tag, what + ": tag");
        CHECK_EQ(s.source(), 0, what + ": source");
        CHECK_EQ(s.error(), 0, what + ": error");
        CHECK_EQ(w.type == 0 ? c.getCount<char>(s) : w.type == 1 ? c.getCount<int>(s) : c.getCount<double>(s), w.count, what + ": count");
    };
    const std::string GUARD(16, '#');
    for (size_t i = 0; i < n; ++i) {
        int tag = int(g.idx(4)), ask = g.chance(30) ? c.anyTag() : int(g.idx(4));
        int source = g.boolean() ? 0 : c.anySource();
        auto f = find(ask);
        switch (g.weighted({many ? size_t(30) : size_t(6), 5, 3, 2, 2, 1, 1})) {
            case 0: {
                Msg x{tag, int(g.idx(3)), "", g.idx(6)};
                for (size_t k = 0; k < x.count * width(x.type); ++k) x.bytes += char(g.idx(256));
                std::string copy = x.bytes + " ";
                char* p = &copy[0];
                int how = int(g.idx(3));
                auto go = [&](auto* q) {
                    if (how == 0) c.send(q, x.count, 0, tag);
                    else if (how == 1) c.synchronisedSend(q, x.count, 0, tag);
                    else sent.push_back({c.iSend(q, x.count, 0, tag), false});
                };
                if (x.type == 0) go(p); else if (x.type == 1) go(reinterpret_cast<int*>(p)); else go(reinterpret_cast<double*>(p));
                std::fill(copy.begin(), copy.end(), '*');  // the sender may use its buffer again
                m.push_back(x);
                most = std::max(most, m.size());
                log << "send " << x.count << " with tag " << tag << "; ";
                break;
            }
            case 1: case 2: {
                if (f == m.end()) {
                    if (ask != c.anyTag()) { int x; CHECK(throws([&] { c.receive(x, source, ask); }), "received a message with tag " << ask << " that was not sent: " << log.str()); }
                    break;
                }
                Msg x = *f;
                std::string b(x.bytes.size(), '-');
                b += GUARD;
                char* p = &b[0];
                std::string what = "message with tag " + std::to_string(x.tag) + " asked by " + std::to_string(ask) + " after " + log.str();
                if (g.boolean()) {
                    check(x.type == 0 ? c.receive(p, x.count, source, ask) : x.type == 1 ? c.receive(reinterpret_cast<int*>(p), x.count, source, ask) : c.receive(reinterpret_cast<double*>(p), x.count, source, ask), x, what);
                }
                else {
                    size_t more = g.idx(2);
                    b += std::string(more * 8, '-');
                    p = &b[0];
                    mpi::Request r = x.type == 0 ? c.iReceive(p, x.count + more, source, ask) : x.type == 1 ? c.iReceive(reinterpret_cast<int*>(p), x.count + more, source, ask) : c.iReceive(reinterpret_cast<double*>(p), x.count + more, source, ask);
                    CHECK(r.test(), "test");
                    mpi::Request same = c.request(r.request());
                    CHECK_EQ(same.request(), r.request(), "the request of the number");
                    int how = int(g.idx(3));
                    if (how == 0) check(c.wait(r), x, what);
                    else if (how == 1) { std::vector<mpi::Request> v{r}; auto s = c.waitAll(v); CHECK_EQ(s.size(), size_t(1), "waitAll"); check(s[0], x, what); }
                    else { std::vector<mpi::Request> v{r}; int k = -5; check(c.waitAny(v, k), x, what); CHECK_EQ(k, 0, "waitAny"); c.waitAny(v, k); CHECK_EQ(k, c.undefined(), "waitAny of what is complete"); }
                    b.resize(x.bytes.size() + GUARD.size());
                    std::string now = b;
                    c.wait(r);  // once is enough
                    CHECK(b == now, "waiting twice changes the buffer");
                }
                CHECK(b == x.bytes + GUARD, "bytes of the " << what);
                m.erase(f);
                received++;
                log << "receive " << ask << "; ";
                break;
            }
            case 3: {
                if (!sent.empty()) { auto& q = sent[g.idx(sent.size())]; c.wait(q.first); q.second = true; }
                break;
            }
            case 4: {
                mpi::Status s = c.iProbe(source, ask);
                CHECK(bool(s) == (f != m.end()), "iProbe of tag " << ask << " is " << bool(s) << " after " << log.str());
                if (s) { check(s, *f, "iProbe after " + log.str()); check(c.probe(source, ask), *f, "probe after " + log.str()); }
                break;
            }
            case 5: {  // to itself and back
                auto mine = find(tag);
                if (mine != m.end()) break;
                std::vector<int> v = some<int>(g, 1 + g.idx(4)), w = v;
                mpi::Status s = c.sendReceiveReplace(v.data(), v.size(), 0, tag, source, tag);
                CHECK(v == w, "sendReceiveReplace changed what it sent to itself");
                CHECK_EQ(s.tag(), tag, "sendReceiveReplace");
                break;
            }
            default: { c.barrier(); if (g.boolean() && f != m.end() && f->count) {
                // one that is too long for the buffer
                std::string b(f->bytes.size(), '-');
                b += GUARD;
                bool thrown = g.boolean() ? throws([&] { c.receive(&b[0], f->count - 1, source, ask); }) : throws([&] { mpi::Request r = c.iReceive(&b[0], f->count - 1, source, ask); c.wait(r); });
                CHECK(thrown, "a message of " << f->count << " was received by a buffer of " << f->count - 1);
                CHECK(b.substr(f->bytes.size()) == GUARD, "written beyond the buffer");
                drain();
                m.clear();
                log << "overflow; ";
            } }
        }
    }
    while (!m.empty()) {  // what is left is still there, in order
        Msg x = m.front();
        m.pop_front();
        std::string b(x.bytes.size() + 1, '-');
        char* p = &b[0];
        check(x.type == 0 ? c.receive(p, x.count, 0, c.anyTag()) : x.type == 1 ? c.receive(reinterpret_cast<int*>(p), x.count, 0, c.anyTag()) : c.receive(reinterpret_cast<double*>(p), x.count, 0, c.anyTag()), x, "at the end of " + log.str());
        b.pop_back();
        CHECK(b == x.bytes, "bytes at the end of " << log.str());
        received++;
    }
    CHECK(!bool(c.iProbe(c.anySource(), c.anyTag())), "a message is left");
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(received > 3 && most > 2);
}

PBT(barrier, 1) {
    auto& c = mpi::comm();
    CHECK_EQ(c.size(), size_t(1), "size");
    CHECK_EQ(c.rank(), size_t(0), "rank");
    mpi::Request r = c.iBarrier();
    CHECK(r.test(), "test");
    c.wait(r);
    std::vector<mpi::Request> v(1 + g.idx(3), r);
    CHECK_EQ(c.waitAll(v).size(), v.size(), "waitAll");
    // a file for all
    std::string dir = g.freshDir(), bytes = g.bytes(3000);
    std::string path = dir + "/f";
    { std::ofstream o(path, std::ios::binary); o << bytes; }
    g.nontrivial(!bytes.empty());
    if (bytes.empty()) CHECK(throws([&] { c.broadcastFile(path, 0); }), "an empty file");
    else {
        SharedBuffer b = c.broadcastFile(path, 0);
        CHECK_EQ(size_t(b->size()), bytes.size(), "size of the file");
        CHECK(!std::memcmp(b->data(), bytes.data(), bytes.size()), "bytes of the file");
    }
    CHECK(throws([&] { c.broadcastFile(dir + "/none", 0); }), "a file that is not there");
}

// each thread gets its own messages
PBT(threads, 1) {
    auto& c = mpi::comm();
    drain();
    size_t n = 2 + g.idx(4), k = 1 + g.size(60);
    std::vector<std::string> errors(n);
    std::vector<unsigned> seeds;
    for (size_t t = 0; t < n; ++t) seeds.push_back(unsigned(g.idx(1000)));
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
            unsigned s = seeds[t];
            std::deque<int> out;
            try {
                for (size_t i = 0; i < 2 * k; ++i) {
                    s = s * 1103515245u + 12345u;
                    if ((s >> 16) % 2 && out.size() < k) { int x = int(s); c.send(x, 0, int(t)); out.push_back(x); }
                    else if (!out.empty()) {
                        int x = 0;
                        if ((s >> 17) % 2) c.receive(x, 0, int(t));
                        else { mpi::Request r = c.iReceive(x, 0, int(t)); c.wait(r); }
                        if (x != out.front()) errors[t] = "another message than the first one";
                        out.pop_front();
                    }
                }
                while (!out.empty()) { int x = 0; c.receive(x, 0, int(t)); if (x != out.front()) errors[t] = "another message at the end"; out.pop_front(); }
            }
            catch (std::exception& e) { errors[t] = e.what(); }
        });
    for (auto& t : ts) t.join();
    g.note([&](std::ostream& o) { o << n << " threads, " << k << " messages"; });
    g.nontrivial(k > 3);
    for (auto& e : errors) CHECK(e.empty(), "thread: " << e);
    CHECK(!bool(c.iProbe(c.anySource(), c.anyTag())), "a message is left");
}

// ---------------------------------------------------------------- the registry
PBT(registry, 3) {
    mpi::finaliseAllComms();
    mpi::comm();
    std::set<std::string> names{"world", "self"};
    std::string dflt = "world";
    size_t n = 1 + g.size(20);
    std::ostringstream log;
    for (size_t i = 0; i < n; ++i) {
        std::string name = g.pick<std::string>({"a", "b", "c", "ab", "world", "self", "none"});
        bool known = names.count(name);
        std::string why;
        switch (g.idx(7)) {
            case 0: CHECK(throws([&] { mpi::addComm(name, 0); }) == known, "addComm " << name << " after " << log.str()); names.insert(name); log << "add " << name << "; "; break;
            case 1: {
                bool thrown = throws([&] { auto& c = mpi::comm().split(int(g.idx(3)), name); CHECK_EQ(c.name(), name, "split"); CHECK_EQ(c.size(), size_t(1), "split"); CHECK(&c == &mpi::comm(name), "split: another one"); }, &why);
                CHECK(thrown == known, "split " << name << " after " << log.str() << ": " << why);
                names.insert(name);
                log << "split " << name << "; ";
                break;
            }
            case 2: case 3: {
                bool ok = known && name != dflt && name != "world" && name != "self";
                bool free = g.boolean();
                CHECK(throws([&] { if (free) mpi::deleteComm(name); else mpi::unregisterComm(name); }) == !ok, "delete " << name << " after " << log.str());
                if (ok) names.erase(name);
                log << "delete " << name << "; ";
                break;
            }
            case 4: CHECK(throws([&] { mpi::setCommDefault(name); }) == !known, "setCommDefault " << name << " after " << log.str()); if (known) dflt = name; log << "default " << name << "; "; break;
            default: {
                bool thrown = throws([&] { CHECK_EQ(mpi::comm(name).name(), name, "name"); CHECK_EQ(mpi::comm(name).rank(), size_t(0), "rank"); }, &why);
                CHECK(thrown == !known, "comm " << name << " after " << log.str() << ": " << why);
            }
        }
        CHECK_EQ(mpi::hasComm(name), names.count(name) > 0, "hasComm " + name);
        CHECK_EQ(mpi::comm().name(), dflt, "the default after " + log.str());
        CHECK_EQ(mpi::self().name(), std::string("self"), "self");
        auto l = mpi::listComms();
        CHECK(std::set<std::string>(l.begin(), l.end()) == names && l.size() == names.size(), "list after " << log.str());
    }
    g.note([&](std::ostream& o) { o << log.str(); });
    g.nontrivial(n > 4 && names.size() > 2);
    mpi::finaliseAllComms();
    CHECK(mpi::listComms().empty(), "not all are finalised");
    CHECK_EQ(mpi::comm().name(), std::string("world"), "the default, again");
}
