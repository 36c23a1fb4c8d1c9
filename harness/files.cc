// C22: file system operations against a model of a directory tree. Runs as an unprivileged user on its own scratch files.
#include "pbt.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/FileMode.h"
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/TmpDir.h"
#include "eckit/filesystem/TmpFile.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/runtime/Main.h"
#include <algorithm>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using namespace eckit;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

constexpr uid_t NOBODY = 65534;

// Whatever the code under test does to files, it does as a user who owns nothing but the scratch directory.
struct Unprivileged {
    bool root = ::geteuid() == 0;
    explicit Unprivileged(const std::string& dir) {
        if (!root) return;
        for (std::string p = dir; p.size() > 5 && p != "/tmp"; p = p.substr(0, p.rfind('/'))) {
            struct stat st;
            if (!::stat(p.c_str(), &st)) ::chmod(p.c_str(), (st.st_mode & 0777) | 0111);
        }
        if (::chown(dir.c_str(), NOBODY, NOBODY)) pbt::fail("chown");
        if (::setresgid(NOBODY, NOBODY, 0) || ::setresuid(NOBODY, NOBODY, 0)) pbt::fail("setresuid");
    }
    ~Unprivileged() {
        if (!root) return;
        if (::setresuid(0, 0, 0) || ::setresgid(0, 0, 0)) ::_exit(99);
    }
};

struct Node {
    char kind = 'f';  // f d l
    std::string text; // content of a file (shared between hard links), target of a link
    mode_t mode = 0;
};

using Tree = std::map<std::string, std::shared_ptr<Node>>;  // relative path -> node

std::string slurp(const std::string& p) {
    std::ifstream in(p, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}

void walk(const std::string& dir, const std::string& rel, std::map<std::string, std::pair<char, std::string>>& out) {
    DIR* d = opendir(dir.c_str());
    if (!d) pbt::fail("opendir " + dir);
    std::vector<std::string> names;
    while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
    }
    closedir(d);
    for (auto& n : names) {
        struct stat st;
        std::string p = dir + "/" + n;
        if (::lstat(p.c_str(), &st)) pbt::fail("lstat " + p);
        if (S_ISDIR(st.st_mode)) {
            out[rel + n] = {'d', ""};
            walk(p, rel + n + "/", out);
        }
        else if (S_ISLNK(st.st_mode)) {
            char buf[4096];
            ssize_t k = ::readlink(p.c_str(), buf, sizeof buf);
            out[rel + n] = {'l', std::string(buf, size_t(k))};
        }
        else out[rel + n] = {'f', slurp(p)};
    }
}

std::string parent(const std::string& p) {
    size_t i = p.rfind('/');
    return i == std::string::npos ? "" : p.substr(0, i);
}
std::string leaf(const std::string& p) { return p.substr(p.rfind('/') + 1); }

struct World {
    std::string dir;
    Tree t;
    Node* at(const std::string& p) {
        auto it = t.find(p);
        return it == t.end() ? nullptr : it->second.get();
    }
    bool isDir(const std::string& p) { return p.empty() || (at(p) && at(p)->kind == 'd'); }
    bool hasChildren(const std::string& p) {
        auto it = t.upper_bound(p + "/");
        return it != t.end() && it->first.compare(0, p.size() + 1, p + "/") == 0;
    }
    void check(const std::string& what) {
        std::map<std::string, std::pair<char, std::string>> got;
        walk(dir, "", got);
        for (auto& x : t) {
            auto f = got.find(x.first);
            CHECK(f != got.end(), what + ": " + x.first + " is gone");
            CHECK_EQ(std::string(1, f->second.first), std::string(1, x.second->kind), what + ": kind of " + x.first);
            if (x.second->kind != 'd') CHECK_EQ(f->second.second, x.second->text, what + ": content of " + x.first);
        }
        for (auto& x : got) CHECK(t.count(x.first), what + ": " + x.first + " appeared");
    }
    // the missing directories on the way to p
    bool mkdirs(const std::string& p) {
        std::string s;
        size_t i = 0;
        while (i <= p.size() && !p.empty()) {
            size_t j = p.find('/', i);
            if (j == std::string::npos) j = p.size();
            s = p.substr(0, j);
            if (!at(s)) {
                t[s]       = std::make_shared<Node>();
                t[s]->kind = 'd';
            }
            else if (at(s)->kind != 'd') return false;
            i = j + 1;
        }
        return true;
    }
};

std::string genName(Gen& g) { return g.pick<std::string>({"a", "b", "c.x", "d.y", ".h", "..b", "...", "e f", "ab", "a.x"}); }

std::string genPath(Gen& g, World& w, bool fresh = false) {
    std::vector<std::string> dirs{""};
    std::vector<std::string> all;
    for (auto& x : w.t) {
        all.push_back(x.first);
        if (x.second->kind == 'd') dirs.push_back(x.first);
    }
    if (!fresh && !all.empty() && g.chance(75)) return all[g.idx(all.size())];
    std::string d = dirs[g.idx(dirs.size())];
    std::string p = d + (d.empty() ? "" : "/") + genName(g);
    while (g.chance(12)) p += "/" + genName(g);
    return p;
}

// links in a path are not followed by the model
bool crossesLink(World& w, const std::string& p) {
    for (std::string q = parent(p); !q.empty(); q = parent(q))
        if (w.at(q) && w.at(q)->kind == 'l') return true;
    return false;
}
bool crossesFile(World& w, const std::string& p) {
    for (std::string q = parent(p); !q.empty(); q = parent(q))
        if (w.at(q) && w.at(q)->kind != 'd') return true;
    return false;
}

std::string data(Gen& g) {
    size_t n = g.chance(10) ? g.idx(200000) : g.idx(60);
    std::string s(n, ' ');
    unsigned k = unsigned(g.idx(1000));
    for (size_t i = 0; i < n; ++i) s[i] = char((i * 7 + k) % 251);
    return s;
}

}  // namespace

PBT(tree, 10) {
    World w;
    w.dir = g.freshDir();
    Unprivileged guard(w.dir);
    auto P = [&](const std::string& r) { return PathName(w.dir + (r.empty() ? "" : "/" + r)); };
    size_t n = 3 + g.size(g.thorough() ? 60 : 30), changes = 0;
    std::set<std::string> uniques;
    for (size_t s = 0; s < n; ++s) {
        std::string p = genPath(g, w), q = genPath(g, w, true);
        if (crossesLink(w, p) || crossesLink(w, q)) continue;
        std::string what, why;
        auto say = [&](const std::string& x) {
            what = x;
            g.note([&](std::ostream& o) { o << x << "\n"; });
        };
        Node* np = w.at(p);
        bool good = true, threw = false;  // expected and actual outcome
        Tree before = w.t;
        switch (g.weighted({4, 4, 5, 3, 3, 3, 3, 2, 2, 2, 2, 2, 4, 2, 2, 2, 1})) {
            case 0: {  // mkdir
                std::string d = g.boolean() ? q : p;
                if (w.at(d) && w.at(d)->kind == 'l') continue;
                say("mkdir " + d);
                good = !crossesFile(w, d);  // something that is there already is not an error
                if (good && !w.at(d)) good = w.mkdirs(d);
                if (!good) {  // the directories before the obstacle may be there
                    w.t = before;
                }
                threw = throws([&] { P(d).mkdir(); }, &why);
                break;
            }
            case 1: {  // touch
                std::string f = g.boolean() ? q : p;
                if (w.at(f) && w.at(f)->kind == 'l') continue;
                say("touch " + f);
                good = !crossesFile(w, f);
                if (good && !w.at(f)) {
                    w.mkdirs(parent(f));
                    w.t[f] = std::make_shared<Node>();
                }
                threw = throws([&] { P(f).touch(); }, &why);
                break;
            }
            case 2: {  // write
                std::string f = g.boolean() ? q : p;
                if (!w.isDir(parent(f)) || (w.at(f) && w.at(f)->kind != 'f')) continue;
                std::string x = data(g);
                say("write " + std::to_string(x.size()) + " bytes to " + f);
                std::unique_ptr<DataHandle> h(P(f).fileHandle());
                h->openForWrite(Length(0));
                CHECK_EQ(long(h->write(x.data(), long(x.size()))), long(x.size()), "write");
                h->close();
                if (!w.at(f)) w.t[f] = std::make_shared<Node>();
                w.at(f)->text = x;
                break;
            }
            case 3: {  // unlink
                say("unlink " + p);
                good = !(np && np->kind == 'd');
                if (crossesFile(w, p)) good = false;
                if (good) w.t.erase(p);  // nothing there is not an error
                threw = throws([&] { P(p).unlink(g.boolean()); }, &why);
                break;
            }
            case 4: {  // rmdir
                say("rmdir " + p);
                good = !np || (np->kind == 'd' && !w.hasChildren(p));
                if (crossesFile(w, p)) good = false;
                if (good) w.t.erase(p);
                threw = throws([&] { P(p).rmdir(g.boolean()); }, &why);
                break;
            }
            case 5: {  // rename
                std::string to = g.chance(70) ? q : genPath(g, w);
                if (crossesLink(w, to) || to == p) continue;
                say("rename " + p + " to " + to);
                Node* nt = w.at(to);
                good     = np && w.isDir(parent(to));
                if (good && np->kind == 'd') {
                    good = !(nt && (nt->kind != 'd' || w.hasChildren(to))) && to.compare(0, p.size() + 1, p + "/") != 0;
                }
                else if (good) good = !(nt && nt->kind == 'd');
                if (good && nt && w.t[p] == w.t[to]) {
                    // two names of the same file: nothing happens
                }
                else if (good) {
                    Tree t2;
                    for (auto& x : w.t) {
                        if (x.first == to) continue;
                        if (x.first == p) t2[to] = x.second;
                        else if (x.first.compare(0, p.size() + 1, p + "/") == 0) t2[to + x.first.substr(p.size())] = x.second;
                        else t2[x.first] = x.second;
                    }
                    w.t = t2;
                }
                threw = throws([&] { PathName::rename(P(p), P(to)); }, &why);
                break;
            }
            case 6: {  // copy
                std::string to = g.chance(60) ? q : genPath(g, w);
                if (crossesLink(w, to) || to == p || (w.at(to) && w.at(to)->kind == 'l')) continue;
                if (np && np->kind != 'f') continue;
                if (np && w.at(to) && w.t[p] == w.t[to]) { g.excluded("C22-copy-onto-itself"); continue; }
                if (!np && w.isDir(parent(to)) && (!w.at(to) || w.at(to)->kind == 'f')) continue;  // no source: the target is unspecified
                say("copy " + p + " to " + to);
                good = np && w.isDir(parent(to)) && !(w.at(to) && w.at(to)->kind == 'd');
                if (good) {
                    if (!w.at(to)) w.t[to] = std::make_shared<Node>();
                    w.at(to)->text = np->text;
                }
                threw = throws([&] { LocalPathName(P(p)).copy(LocalPathName(P(to))); }, &why);
                break;
            }
            case 7: {  // hard link
                say("link " + p + " to " + q);
                good = np && np->kind == 'f' && w.isDir(parent(q)) && !w.at(q);
                if (np && np->kind == 'l') continue;
                if (good) w.t[q] = w.t[p];
                threw = throws([&] { PathName::link(P(p), P(q)); }, &why);
                break;
            }
            case 8: {  // symbolic link (made by somebody else)
                if (w.at(q) || !w.isDir(parent(q)) || p.empty()) continue;
                say("symbolic link " + q + " -> " + p);
                std::string target = w.dir + "/" + p;
                CHECK_EQ(::symlink(target.c_str(), (w.dir + "/" + q).c_str()), 0, "symlink");
                w.t[q]       = std::make_shared<Node>();
                w.t[q]->kind = 'l';
                w.t[q]->text = target;
                break;
            }
            case 9: {  // empty, truncate
                if (np && np->kind == 'l') continue;
                if (g.boolean()) {
                    if (!np) continue;
                    say("empty " + p);
                    good = np->kind == 'f';
                    if (good) np->text.clear();
                    threw = throws([&] { LocalPathName(P(p)).empty(); }, &why);
                }
                else {
                    size_t len = g.idx(100);
                    say("truncate " + p + " " + std::to_string(len));
                    good = np && np->kind == 'f';
                    if (good) np->text.resize(len);
                    threw = throws([&] { LocalPathName(P(p)).truncate(Length(len)); }, &why);
                }
                break;
            }
            case 10: {  // unique
                std::string base = g.chance(50) ? q : p;
                if (crossesFile(w, base) || crossesLink(w, base)) continue;
                say("unique " + base);
                PathName u = PathName::unique(P(base));
                std::string us = u.asString();
                CHECK_EQ(us.substr(0, w.dir.size() + base.size() + 1), w.dir + "/" + base, "unique: prefix of " + us);
                CHECK(uniques.insert(us).second, "unique gives the same name again: " + us);
                CHECK(::access(us.c_str(), F_OK) != 0, "unique gives the name of something there: " + us);
                CHECK_EQ(parent(us), parent(w.dir + "/" + base), "unique: directory");
                w.mkdirs(parent(base));
                if (g.boolean()) {
                    std::ofstream(us) << "u";
                    std::string r = us.substr(w.dir.size() + 1);
                    w.t[r]        = std::make_shared<Node>();
                    w.t[r]->text  = "u";
                }
                break;
            }
            case 11: {  // backup
                if (!np || np->kind != 'f') continue;
                say("backup " + p);
                LocalPathName(P(p)).backup();
                // one new file beside it
                std::map<std::string, std::pair<char, std::string>> got;
                walk(w.dir, "", got);
                size_t fresh = 0;
                for (auto& x : got)
                    if (!w.at(x.first)) {
                        ++fresh;
                        CHECK_EQ(x.first.substr(0, p.size() + 1), p + ".", "backup: name");
                        w.t[x.first]       = std::make_shared<Node>();
                        w.t[x.first]->text = np->text;
                    }
                CHECK_EQ(fresh, size_t(1), "backup: number of new files");
                break;
            }
            case 12: {  // questions
                say("ask about " + p);
                PathName x = P(p);
                if (np && np->kind == 'l') {
                    CHECK(x.isLink(), "isLink of a link");
                    break;
                }
                CHECK_EQ(x.exists(), np != nullptr, "exists " + p);
                if (!np) {
                    CHECK(throws([&] { x.size(); }, &why), "size of nothing");
                    CHECK(throws([&] { x.isDir(); }, &why), "isDir of nothing");
                    CHECK(throws([&] { x.lastModified(); }, &why), "lastModified of nothing");
                    break;
                }
                CHECK_EQ(x.isDir(), np->kind == 'd', "isDir " + p);
                CHECK(!x.isLink(), "isLink " + p);
                if (np->kind == 'f') {
                    CHECK_EQ((long long)(x.size()), (long long)(np->text.size()), "size " + p);
                    std::unique_ptr<DataHandle> h(x.fileHandle());
                    h->openForRead();
                    std::string got(np->text.size() + 10, 0);
                    long k = h->read(&got[0], long(got.size()));
                    h->close();
                    CHECK_EQ(got.substr(0, size_t(std::max(0L, k))), np->text, "content read through the handle");
                    if (np->text.size() > 2) {
                        size_t off = g.idx(np->text.size()), len = g.idx(np->text.size() - off + 1);
                        std::unique_ptr<DataHandle> ph(x.partHandle(Offset(off), Length(len)));
                        ph->openForRead();
                        std::string part(len + 5, 0);
                        long z = ph->read(&part[0], long(part.size()));
                        ph->close();
                        CHECK_EQ(part.substr(0, size_t(std::max(0L, z))), np->text.substr(off, len), "partHandle");
                    }
                }
                struct stat st;
                CHECK_EQ(::stat(x.localPath(), &st), 0, "stat");
                CHECK_EQ(x.lastModified(), st.st_mtime, "lastModified");
                CHECK_EQ(x.created(), st.st_ctime, "created");
                CHECK_EQ(x.lastAccess(), st.st_atime, "lastAccess");
                CHECK_EQ(x.owner(), st.st_uid, "owner");
                CHECK_EQ(x.realName().asString(), x.asString(), "realName");
                break;
            }
            case 13: {  // children
                std::vector<PathName> fs, ds;
                bool rec = g.boolean();
                std::string d = np && np->kind == 'd' ? p : "";
                say(std::string("children ") + (rec ? "recursive " : "") + d);
                if (rec) P(d).childrenRecursive(fs, ds);
                else P(d).children(fs, ds);
                std::set<std::string> wf, wd, gf, gd;
                std::string pre = d.empty() ? "" : d + "/";
                for (auto& x : w.t) {
                    if (x.first.compare(0, pre.size(), pre) != 0 || x.first == d) continue;
                    if (!rec && x.first.find('/', pre.size()) != std::string::npos) continue;
                    (x.second->kind == 'd' ? wd : wf).insert(w.dir + "/" + x.first);
                }
                for (auto& x : fs) CHECK(gf.insert(x.asString()).second, "children: twice " + x.asString());
                for (auto& x : ds) CHECK(gd.insert(x.asString()).second, "children: twice " + x.asString());
                CHECK(gf == wf, "children of '" + d + "': files " + std::to_string(gf.size()) + ", expected " + std::to_string(wf.size()));
                CHECK(gd == wd, "children of '" + d + "': directories " + std::to_string(gd.size()) + ", expected " + std::to_string(wd.size()));
                break;
            }
            case 14: {  // match
                std::string d   = np && np->kind == 'd' ? p : "";
                std::string pat = g.pick<std::string>({"a*", "*.x", "?", "*.?", "ab", "[ab]", "c.x", "nosuch*", "e f", "a?", "*", "*h"});
                bool rec        = g.boolean();
                say("match " + d + "/" + pat + (rec ? " recursive" : ""));
                bool dangling = false;
                for (auto& x : w.t)
                    if (x.second->kind == 'l') dangling = true;
                if (rec && dangling) { g.excluded("C22-match-links"); continue; }
                std::vector<PathName> v;
                PathName::match(P(d) / pat, v, rec);
                std::set<std::string> want, got;
                std::string pre = d.empty() ? "" : d + "/";
                for (auto& x : w.t) {
                    if (x.first.compare(0, pre.size(), pre) != 0 || x.first == d) continue;
                    std::string rest = x.first.substr(pre.size());
                    if (!rec && rest.find('/') != std::string::npos) continue;
                    if (rec && (rest[0] == '.' && rest.find('/') != std::string::npos)) continue;
                    if (rec && rest.find("/.") != std::string::npos) {
                        size_t k = rest.find("/.");
                        if (rest.find('/', k + 1) != std::string::npos) continue;  // hidden directories are not entered
                    }
                    if (fnmatch(pat.c_str(), leaf(rest).c_str(), 0) == 0) want.insert(w.dir + "/" + x.first);
                }
                for (auto& x : v) got.insert(x.asString());
                for (auto& x : want) CHECK(got.count(x), "match: " + x + " is missing");
                for (auto& x : got) CHECK(want.count(x), "match: " + x + " does not match " + pat + " in '" + d + "'");
                break;
            }
            case 15: {  // permissions
                if (!np || np->kind != 'f') continue;
                mode_t m = mode_t(0600 | g.idx(0200));
                say("chmod " + p + " " + std::to_string(m));
                FileMode fm(m);
                P(p).chmod(fm);
                struct stat st;
                CHECK_EQ(::stat((w.dir + "/" + p).c_str(), &st), 0, "stat");
                CHECK_EQ(mode_t(st.st_mode & 0777), m, "mode");
                CHECK_EQ(FileMode::fromPath(P(p)).mode(), m, "fromPath");
                break;
            }
            default: {  // the same file
                if (np && np->kind == 'l') continue;
                std::string r = genPath(g, w);
                if (crossesLink(w, r) || (w.at(r) && w.at(r)->kind == 'l')) continue;
                say("same " + p + " " + r);
                CHECK_EQ(P(p).sameAs(P(r)), np && w.at(r) && w.t[p] == w.t[r], "sameAs");
                if (np && np->kind == 'f' && g.boolean()) {
                    if (w.at(q) || !w.isDir(parent(q))) break;
                    size_t len = g.idx(5000);
                    P(q).reserve(Length(len));
                    w.t[q]       = std::make_shared<Node>();
                    w.t[q]->text = std::string(len, '\0');
                }
            }
        }
        if (good) CHECK(!threw, what + " fails: " + why);
        else CHECK(threw, what + " succeeds");
        if (!good) {
            // parents may have been made on the way to a failure
            std::map<std::string, std::pair<char, std::string>> got;
            walk(w.dir, "", got);
            for (auto& x : got)
                if (!before.count(x.first) && x.second.first == 'd') before[x.first] = std::make_shared<Node>(Node{'d', ""});
            w.t = before;
        }
        else if (w.t.size() != before.size()) ++changes;
        w.check(what);
    }
    g.nontrivial(changes >= 3);
}

PBT(modes, 2) {
    mode_t m = mode_t(g.idx(01000));
    g.note([&](std::ostream& o) { o << std::oct << m << std::dec << "\n"; });
    g.nontrivial((m & 0111) && (m & 0222));
    FileMode f(m);
    std::string want;
    for (int k = 8; k >= 0; --k) {
        want += (m >> k) & 1 ? "xwr"[k % 3] : '-';
        if (k == 6 || k == 3) want += ',';
    }
    CHECK_EQ(f.str(), want, "text of a mode");
    CHECK_EQ(FileMode(want).mode(), m, "mode of a text");
    char oct[8];
    snprintf(oct, sizeof oct, "0%o", unsigned(m));
    CHECK_EQ(FileMode(std::string(oct)).mode(), m, "mode of an octal number");
    CHECK(FileMode(want) == f, "==");
    FileMode h(0777);
    h = want;
    CHECK_EQ(h.mode(), m, "assignment");
    mode_t t = mode_t(g.idx(01000));
    CHECK_EQ(f.mask(FileMode(t)), mode_t(t & ~m), "mask");
    std::string bad = want, why;
    size_t i = g.idx(bad.size());
    bad[i]   = g.pick<char>(std::vector<char>{'q', 'R', '8', ' ', ';'});
    CHECK(throws([&] { FileMode x(bad); }, &why), "accepts " + bad);
}

// names from several processes at once
PBT(unique, 1) {
    std::string dir = g.freshDir();
    Unprivileged guard(dir);
    size_t np = 2 + g.idx(4), n = 1 + g.idx(10);
    std::string warm = g.boolean() ? PathName::unique(PathName(dir + "/x")).asString() : "";
    g.nontrivial(true);
    g.note([&](std::ostream& o) { o << np << " processes, " << n << " names each" << (warm.empty() ? "" : ", after one in the parent") << "\n"; });
    std::vector<pid_t> pids;
    for (size_t i = 0; i < np; ++i) {
        pid_t pid = ::fork();
        if (pid == 0) {
            std::ofstream out(dir + "/names" + std::to_string(i));
            for (size_t k = 0; k < n; ++k) out << PathName::unique(PathName(dir + "/x")).asString() << "\n";
            out.close();
            ::_exit(0);
        }
        pids.push_back(pid);
    }
    for (auto p : pids) {
        int st = 0;
        ::waitpid(p, &st, 0);
        CHECK_EQ(st, 0, "a process fails");
    }
    std::set<std::string> all;
    if (!warm.empty()) all.insert(warm);
    for (size_t i = 0; i < np; ++i) {
        std::ifstream in(dir + "/names" + std::to_string(i));
        std::string s;
        size_t k = 0;
        while (std::getline(in, s)) {
            ++k;
            CHECK(all.insert(s).second, "two calls give the name " + s);
        }
        CHECK_EQ(k, n, "names of a process");
    }
}
