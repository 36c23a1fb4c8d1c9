// C12: BTree against std::map, with reopening
#include <fstream>
#include <map>
#include <sstream>
#include "eckit/container/BTree.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/runtime/Main.h"
#include "eckit/types/FixedString.h"
#include "pbt.h"

using namespace eckit;
PBT_INIT { eckit::Main::initialise(argc, argv); }

template <class K> K key(long i);
template <> int key<int>(long i) { return int(i); }
template <> long key<long>(long i) { return i * 1000000007L; }
template <> FixedString<8> key<FixedString<8>>(long i) { char b[32]; snprintf(b, sizeof b, "%06ld", i + 500000); return FixedString<8>(std::string(b)); }
template <> FixedString<20> key<FixedString<20>>(long i) { char b[32]; snprintf(b, sizeof b, "key/%06ld/%ld", i + 500000, i % 7); return FixedString<20>(std::string(b)); }

template <class K, class V, int S, class L>
static void run(pbt::Gen& g, const char* name) {
    using Tree = BTree<K, V, S, L>;
    std::string p = g.freshDir() + "/tree";
    size_t offset = 0;
    std::string prefix;
    if (g.chance(30)) { offset = 1 + g.size(700); prefix.assign(offset, '#'); std::ofstream(p) << prefix; }
    std::map<K, V> model;
    std::vector<long> ids;
    std::unique_ptr<Tree> t(new Tree(p, false, off_t(offset)));
    bool ro = false;
    size_t n = g.thorough() && g.chance(3) ? g.size(3000) : g.chance(10) ? g.size(400) : g.size(60);
    int order = int(g.idx(4));  // up, down, anywhere, in a small range
    long span = order == 3 ? 1 + long(g.size(30)) : 1 + long(g.size(2000));
    long next = 0;
    std::string log;
    auto id = [&]() -> long {
        if (order == 0) return next += 1 + (g.chance(30) ? long(g.size(3)) : 0);
        if (order == 1) return next -= 1 + (g.chance(30) ? long(g.size(3)) : 0);
        return g.range(-span, span);
    };
    auto probe = [&]() -> long { return !ids.empty() && g.chance(70) ? ids[g.idx(ids.size())] + g.range(-1, 1) : g.range(-span - 2, span + 2); };
    auto add = [&](const std::string& s) { if (log.size() < 4000) log += s; };
    g.note([&](std::ostream& o) { o << name << " page " << S << " offset " << offset << " order " << order; });
    for (size_t i = 0; i < n; i++) {
        int op = int(g.weighted({12, 3, 3, 1, 1, 1, 1}));
        if (op == 0) {
            size_t burst = 1 + g.size(8);
            for (size_t b = 0; b < burst; b++) {
                long k = g.chance(15) && !ids.empty() ? ids[g.idx(ids.size())] : id();
                V v = key<V>(long(g.idx(100000)));
                add(" set(" + std::to_string(k) + ")");
                if (ro) { CHECK(pbt::throws([&] { t->set(key<K>(k), v); }), "a read-only tree was changed:" << log); continue; }
                bool was = model.count(key<K>(k));
                CHECK_EQ(t->set(key<K>(k), v), was, "set replaces:" << log);
                model[key<K>(k)] = v;
                if (!was) ids.push_back(k);
            }
        }
        else if (op == 1) {
            long k = probe();
            V v = key<V>(77), was = v;
            auto it = model.find(key<K>(k));
            bool found = t->get(key<K>(k), v);
            CHECK_EQ(found, it != model.end(), "get(" << k << ") after" << log);
            CHECK(v == (found ? it->second : was), "value of " << k << " after" << log);
        }
        else if (op == 2) {
            long a = probe(), b = g.chance(80) ? a + long(g.size(40)) : probe();
            std::vector<std::pair<K, V>> r(3), w;
            t->range(key<K>(a), key<K>(b), r);
            for (auto it = model.lower_bound(key<K>(a)); it != model.end() && !(key<K>(b) < it->first); ++it) w.push_back(*it);
            CHECK_EQ(r.size(), w.size(), "number of entries in the range " << a << " to " << b << " after" << log);
            for (size_t j = 0; j < r.size(); j++) CHECK(r[j].first == w[j].first && r[j].second == w[j].second, "entry " << j << " of the range " << a << " to " << b << " after" << log);
        }
        else if (op == 3) CHECK_EQ(t->count(), model.size(), "count after" << log);
        else if (op == 4) {
            ro = g.chance(30);
            add(ro ? " reopen(ro)" : " reopen");
            t.reset();
            t.reset(new Tree(p, ro, off_t(offset)));
            if (g.boolean()) t->preload();
        }
        else if (op == 5) {
            add(" flush");
            t->flush();
            if (!ro && g.boolean()) t->sync();
            Tree other(p, true, off_t(offset));
            CHECK_EQ(other.count(), model.size(), "count seen by another reader after" << log);
            if (!ids.empty()) {
                long k = ids[g.idx(ids.size())];
                V v;
                CHECK(other.get(key<K>(k), v) && v == model[key<K>(k)], "value of " << k << " seen by another reader after" << log);
            }
        }
        else {
            std::ostringstream o;
            t->dump(o);
            CHECK(!o.str().empty(), "dump");
        }
    }
    // everything, in order, at the end
    if (g.boolean()) { t.reset(); t.reset(new Tree(p, true, off_t(offset))); }
    std::vector<std::pair<K, V>> all;
    if (!model.empty()) {
        t->range(model.begin()->first, model.rbegin()->first, all);
        CHECK_EQ(all.size(), model.size(), "all entries after" << log);
        auto it = model.begin();
        for (auto& e : all) { CHECK(e.first == it->first && e.second == it->second, "entry out of place after" << log); ++it; }
    }
    t.reset();
    g.nontrivial(model.size() > size_t(S / 24));
    std::ifstream in(p, std::ios::binary);
    std::string head(offset, ' ');
    in.read(&head[0], std::streamsize(offset));
    CHECK(head == prefix, "what was in front of the tree was overwritten");
}

PBT(histories, 10) {
    switch (g.idx(6)) {
        case 0: run<int, int, 128, BTreeNoLock>(g, "int->int"); break;
        case 1: run<int, long, 256, BTreeLock>(g, "int->long, locked"); break;
        case 2: run<FixedString<8>, int, 144, BTreeNoLock>(g, "FixedString<8>->int"); break;
        case 3: run<FixedString<20>, FixedString<8>, 256, BTreeNoLock>(g, "FixedString<20>->FixedString<8>"); break;
        case 4: run<long, FixedString<20>, 200, BTreeNoLock>(g, "long->FixedString<20>"); break;
        case 5: run<long, long, 65536, BTreeNoLock>(g, "long->long"); break;
    }
}
