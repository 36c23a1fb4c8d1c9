#include "pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <unordered_set>

// ---------------------------------------------------------------------------------- coverage
static constexpr size_t COVSZ = 1 << 16;
static uint8_t covmap[COVSZ];
static uint64_t covTotal = 0;
static thread_local bool covOn = false;  // only the thread that runs the case counts: other threads would make guidance nondeterministic

extern "C" __attribute__((no_sanitize("address", "thread", "undefined"))) void __sanitizer_cov_trace_pc() {
    if (!covOn) {
        return;
    }
    uintptr_t pc = uintptr_t(__builtin_return_address(0));
    uint32_t h   = uint32_t((pc * 0x9E3779B97F4A7C15ull) >> 48);
    uint8_t& c   = covmap[h];
    if (c != 255) {
        c++;
    }
    covTotal++;
}

namespace pbt {

void (*processInit)(int, char**) = nullptr;

std::vector<Prop>& registry() {
    static std::vector<Prop> r;
    return r;
}

void fail(const std::string& msg) {
    throw Failure{msg};
}
void discard() {
    throw Discard{};
}

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) {
        h = (h ^ b[i]) * 1099511628211ull;
    }
    return h;
}

static uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

std::string esc(const std::string& s, size_t max) {
    std::string r;
    char buf[8];
    for (size_t i = 0; i < s.size() && r.size() < max; i++) {
        unsigned char c = s[i];
        if (c == '\\' || c == '"') {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 32 || c > 126) {
            snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        }
        else {
            r += char(c);
        }
    }
    if (r.size() >= max) {
        r += "...(" + std::to_string(s.size()) + " bytes)";
    }
    return r;
}

std::string hexs(const void* p, size_t n, size_t max) {
    std::string r;
    char buf[4];
    for (size_t i = 0; i < n && i < max; i++) {
        snprintf(buf, sizeof buf, "%02x", static_cast<const unsigned char*>(p)[i]);
        r += buf;
    }
    return r;
}

// ---------------------------------------------------------------------------------- shared memory
static constexpr size_t MAXCH  = 1 << 20;   // choices of one case
static constexpr size_t NLABEL = 256;
static constexpr size_t HSZ    = 1 << 20;   // hash table of distinct non-trivial cases

struct Label {
    char name[64];
    uint64_t n;
};

struct Shm {
    volatile uint64_t caseNo;      // cases started
    volatile uint64_t done;        // cases completed
    volatile uint64_t discards;
    volatile uint64_t nontrivial;  // distinct non-trivial
    volatile uint64_t startMs;     // start of the running case, 0: none
    volatile uint64_t guided;
    volatile uint64_t corpus;
    volatile uint64_t edges;
    volatile int sub;
    volatile int state;            // 1 failed (msg valid), 2 finished
    volatile size_t nch;
    char msg[8192];
    char notes[65536];
    char sample[4][3000];
    volatile int nsample;
    Label labels[NLABEL];
    volatile int nlabel;
    uint64_t hset[HSZ];
    uint64_t ch[MAXCH];
};

static Shm* shm = nullptr;

static Shm* newShm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return static_cast<Shm*>(p);
}

static uint64_t nowMs() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
}

// ---------------------------------------------------------------------------------- Gen
uint64_t Gen::next() {
    rng_ += 0x9E3779B97F4A7C15ull;
    uint64_t x = rng_;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

uint64_t Gen::choice(uint64_t max) {
    uint64_t v;
    if (pos_ < inLen_) {
        v = in_[pos_];
        if (v > max) {
            v = (max == ~0ull) ? v : v % (max + 1);
        }
    }
    else if (extend_) {
        v = max == ~0ull ? next() : uint64_t((static_cast<unsigned __int128>(next()) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
    }
    else {
        v = 0;
    }
    if (pos_ >= MAXCH) {
        throw Discard{};
    }
    shm->ch[pos_++] = v;
    shm->nch        = pos_;
    return v;
}

size_t Gen::size(size_t max) {
    if (max == 0) {
        return 0;
    }
    int bits = 0;
    while ((max >> bits) != 0) {
        bits++;
    }
    uint64_t b = choice(bits);
    uint64_t hi = (b >= 64) ? max : std::min<uint64_t>(max, (1ull << b) - 1);
    return size_t(choice(hi));
}

uint64_t Gen::uinteger(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    switch (choice(4)) {
        case 0:
            return lo + choice(std::min<uint64_t>(span, 16));
        case 1:
            return lo + choice(span);
        case 2: {  // log-uniform
            int bits = 0;
            while (bits < 64 && (span >> bits) != 0) {
                bits++;
            }
            uint64_t b = choice(bits);
            uint64_t m = b >= 64 ? span : std::min<uint64_t>(span, (1ull << b) - 1);
            return lo + choice(m);
        }
        case 3:
            return hi - choice(std::min<uint64_t>(span, 3));
        default: {  // near powers of two
            uint64_t b = choice(63);
            uint64_t v = (1ull << b) + choice(2) - 1;
            return (v >= lo && v <= hi) ? v : lo + (span == ~0ull ? v : v % (span + 1));
        }
    }
}

int64_t Gen::integer(int64_t lo, int64_t hi) {
    if (lo < 0 && hi > 0) {
        bool neg = choice(1);
        return neg ? -1 - int64_t(uinteger(0, uint64_t(-(lo + 1)))) : int64_t(uinteger(0, uint64_t(hi)));
    }
    return int64_t(uinteger(uint64_t(lo) - uint64_t(lo), uint64_t(hi) - uint64_t(lo)) + uint64_t(lo));
}

double Gen::real(double lo, double hi) {
    double v = lo;
    switch (choice(5)) {
        case 0: {  // integers
            double a = std::ceil(lo), b = std::floor(hi);
            if (a <= b) {
                v = a + double(choice(uint64_t(std::min(b - a, 1e15))));
            }
            break;
        }
        case 1:
            v = lo + (hi - lo) * double(choice(1000)) / 1000.;
            break;
        case 2:
            v = lo + (hi - lo) * (double(choice((1ull << 53) - 1)) / double(1ull << 53));
            break;
        case 3:
            v = choice(1) ? hi : lo;
            break;
        case 4: {  // quarter multiples
            double a = std::ceil(lo * 4), b = std::floor(hi * 4);
            if (a <= b) {
                v = (a + double(choice(uint64_t(std::min(b - a, 1e15))))) / 4;
            }
            break;
        }
        default: {  // boundaries of interest +- ulps
            v        = choice(1) ? std::round(lo + (hi - lo) * double(choice(16)) / 16) : lo + (hi - lo) * double(choice(16)) / 16;
            int n    = int(choice(4)) - 2;
            for (int i = 0; i < std::abs(n); i++) {
                v = std::nextafter(v, n < 0 ? -1e300 : 1e300);
            }
        }
    }
    return std::min(hi, std::max(lo, v));
}

double Gen::anyDouble(bool special) {
    switch (choice(special ? 6 : 5)) {
        case 0:
            return double(integer(-1000, 1000));
        case 1:
            return double(integer(-1000000, 1000000)) / 1000.;
        case 2:
            return real(-1e6, 1e6);
        case 3: {
            double m = double(choice((1ull << 53) - 1)) / double(1ull << 52);
            int e    = int(range(-1070, 1023));
            double v = std::ldexp(m, e);
            if (!std::isfinite(v)) {
                v = std::numeric_limits<double>::max();
            }
            return choice(1) ? -v : v;
        }
        case 4:
            return double(integer(std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()));
        case 5: {
            static const double t[] = {0., -0., 1., -1., 0.1, 1e-300, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1. / 3, 3.4028234663852886e38, 9007199254740993., 1e22, 1e21, 123456789012345680., 0.30000000000000004};
            return t[choice(sizeof t / sizeof *t - 1)];
        }
        default: {
            static const double t[] = {INFINITY, -INFINITY, NAN};
            return t[choice(2)];
        }
    }
}

size_t Gen::weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) {
        t += x;
    }
    int c = int(choice(t - 1));
    size_t i = 0;
    for (int x : w) {
        if (c < x) {
            return i;
        }
        c -= x;
        i++;
    }
    return 0;
}

std::string Gen::str(size_t maxlen, const std::string& alphabet) {
    size_t n = size(maxlen);
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += alphabet[idx(alphabet.size())];
    }
    return s;
}

std::string Gen::bytes(size_t maxlen) {
    size_t n = size(maxlen);
    std::string s;
    s.reserve(n);
    switch (choice(3)) {
        case 0:  // constant
            s.assign(n, char(choice(255)));
            break;
        case 1: {  // few symbols, from a sub-seed (long strings would use up the choices)
            uint64_t r = choice(~0ull >> 1);
            int k      = 1 + int(choice(6));
            for (size_t i = 0; i < n; i++) {
                s += char('a' + mix(r + i) % k);
            }
            break;
        }
        case 2: {
            uint64_t r = choice(~0ull >> 1);
            for (size_t i = 0; i < n; i++) {
                s += char(mix(r + i));
            }
            break;
        }
        default:
            if (n <= 64) {
                for (size_t i = 0; i < n; i++) {
                    s += char(choice(255));
                }
            }
            else {
                uint64_t r = choice(~0ull >> 1);
                size_t p   = 1 + choice(40);
                for (size_t i = 0; i < n; i++) {
                    s += char(mix(r + i % p));
                }
            }
    }
    return s;
}

std::string Gen::ident(size_t maxlen) {
    std::string s(1, char('a' + choice(25)));
    size_t n = size(maxlen - 1);
    static const std::string a = "abcdefghijklmnopqrstuvwxyz0123456789_";
    for (size_t i = 0; i < n; i++) {
        s += a[idx(a.size())];
    }
    return s;
}

std::vector<size_t> Gen::permutation(size_t n) {
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; i++) {
        p[i] = i;
    }
    for (size_t i = 0; i + 1 < n; i++) {
        std::swap(p[i], p[i + choice(n - 1 - i)]);
    }
    return p;
}

void Gen::label(const std::string& l) {
    static std::map<std::string, int> known;
    static Shm* owner = nullptr;
    if (owner != shm) {
        known.clear();
        owner = shm;
    }
    auto i = known.find(l);
    if (i == known.end()) {
        int n = shm->nlabel;
        if (n >= int(NLABEL)) {
            return;
        }
        strncpy(shm->labels[n].name, l.c_str(), sizeof shm->labels[n].name - 1);
        shm->labels[n].n = 0;
        shm->nlabel      = n + 1;
        i                = known.insert({l, n}).first;
    }
    shm->labels[i->second].n++;
}

void Gen::addNote(const std::string& s) {
    if (notes_.size() < 60000) {
        notes_ += s;
        notes_ += '\n';
        size_t n = std::min(notes_.size(), sizeof shm->notes - 1);
        memcpy(shm->notes, notes_.data(), n);
        shm->notes[n] = 0;
    }
}

static void rmrf(const std::string& p) {
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) {
        return;
    }
    if (S_ISDIR(st.st_mode)) {
        chmod(p.c_str(), 0700);
        if (DIR* d = opendir(p.c_str())) {
            while (auto* e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") {
                    rmrf(p + "/" + n);
                }
            }
            closedir(d);
        }
        rmdir(p.c_str());
    }
    else {
        unlink(p.c_str());
    }
}

std::string Gen::freshDir() {
    static unsigned n = 0;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        n     = 0;
    }
    if (n > 0) {
        rmrf(scratch_ + "/d" + std::to_string(n));
    }
    n++;
    std::string d = scratch_ + "/d" + std::to_string(n);
    rmrf(d);
    mkdir(d.c_str(), 0755);
    return d;
}

// ---------------------------------------------------------------------------------- options
struct Options {
    uint64_t seed = 1;
    uint64_t cases = 10000;   // per run
    double seconds = 60;
    int workers = 8;
    int guidedPct = 50;       // share of the workers which use coverage guidance
    bool thorough = false;
    std::string scratch, out, replay, replayOut, only;
    int caseMs = 60000;
    int shrinkSec = 25;
    int retries = 3;          // replays that must fail
    bool flaky = false;       // schedule-dependent property: one failing replay in `retries*20` is enough
    bool hangIsFailure = true;
    bool verbose = false;
};
static Options opt;
static int g_argc;
static char** g_argv;

static const Prop* propByName(const std::string& n, int* ix = nullptr) {
    for (size_t i = 0; i < registry().size(); i++) {
        if (n == registry()[i].name) {
            if (ix) {
                *ix = int(i);
            }
            return &registry()[i];
        }
    }
    return nullptr;
}

// runs one case in this process; true: failed (shm->msg)
static bool runCase(Gen& g, int sub) {
    shm->sub     = sub;
    shm->nch     = 0;
    shm->startMs = nowMs();
    shm->caseNo  = shm->caseNo + 1;
    std::string msg;
    bool failed = false;
    try {
        covOn = true;
        registry()[sub].fn(g);
        covOn = false;
    }
    catch (Failure& f) {
        covOn  = false;
        failed = true;
        msg    = f.msg;
    }
    catch (Discard&) {
        covOn         = false;
        g.nontrivial_ = false;
        shm->discards = shm->discards + 1;
    }
    catch (std::exception& e) {
        covOn  = false;
        failed = true;
        msg    = std::string("uncaught exception: ") + e.what();
    }
    catch (...) {
        covOn  = false;
        failed = true;
        msg    = "uncaught exception of unknown type";
    }
    shm->startMs = 0;
    if (failed) {
        strncpy(shm->msg, msg.c_str(), sizeof shm->msg - 1);
        shm->state = 1;
        return true;
    }
    shm->done = shm->done + 1;
    if (g.nontrivial_) {
        uint64_t h = fnv(shm->ch, g.pos_ * 8, 1469598103934665603ull + sub);
        if (h == 0) {
            h = 1;
        }
        size_t i = h & (HSZ - 1);
        for (int k = 0; k < 32; k++) {
            if (shm->hset[i] == h) {
                break;
            }
            if (shm->hset[i] == 0) {
                shm->hset[i]    = h;
                shm->nontrivial = shm->nontrivial + 1;
                break;
            }
            i = (i + 1) & (HSZ - 1);
        }
    }
    return false;
}

static void redirect(const std::string& file) {
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    close(n);
}

static void childInit() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    if (processInit) {
        processInit(g_argc, g_argv);
    }
}

static int pickSub(uint64_t r) {
    int total = 0;
    for (auto& p : registry()) {
        if (opt.only.empty() || opt.only == p.name) {
            total += p.weight;
        }
    }
    int64_t c = int64_t(r % total);
    for (size_t i = 0; i < registry().size(); i++) {
        if (!opt.only.empty() && opt.only != registry()[i].name) {
            continue;
        }
        if (c < registry()[i].weight) {
            return int(i);
        }
        c -= registry()[i].weight;
    }
    return 0;
}

struct Corpus {
    std::vector<std::vector<uint64_t>> items;
};

static uint8_t bucket(uint8_t c) {
    return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
}

static std::vector<uint64_t> mutate(Gen& r, const Corpus& c) {
    std::vector<uint64_t> v = c.items[r.next() % c.items.size()];
    int n = 1 + int(r.next() % 4);
    for (int k = 0; k < n; k++) {
        if (v.empty()) {
            break;
        }
        size_t p = r.next() % v.size();
        switch (r.next() % 8) {
            case 0:
                v[p] = r.next();
                break;
            case 1:
                v[p] = r.next() % 4;
                break;
            case 2:
                v[p] += r.next() % 3;
                break;
            case 3:
                v[p] = v[p] ? v[p] - 1 : 0;
                break;
            case 4: {  // duplicate a chunk
                size_t l = 1 + r.next() % std::min<size_t>(16, v.size() - p);
                std::vector<uint64_t> t(v.begin() + p, v.begin() + p + l);
                size_t q = r.next() % v.size();
                v.insert(v.begin() + q, t.begin(), t.end());
                break;
            }
            case 5: {
                size_t l = 1 + r.next() % std::min<size_t>(16, v.size() - p);
                v.erase(v.begin() + p, v.begin() + p + l);
                break;
            }
            case 6: {  // splice
                auto& o = c.items[r.next() % c.items.size()];
                if (!o.empty()) {
                    size_t q = r.next() % o.size();
                    v.resize(p);
                    v.insert(v.end(), o.begin() + q, o.end());
                }
                break;
            }
            case 7:
                v.resize(p);
                break;
        }
        if (v.size() > 20000) {
            v.resize(20000);
        }
    }
    return v;
}

// A worker: runs its share of the cases. upTo: stop after that case number (history replay).
static void workerMain(int w, uint64_t upTo) {
    childInit();
    bool guided = opt.guidedPct > 0 && w >= opt.workers - (opt.workers * opt.guidedPct + 99) / 100;
    std::string dir = opt.scratch + "/w" + std::to_string(w);
    mkdir(dir.c_str(), 0755);
    std::vector<Corpus> corpora(registry().size());
    std::vector<uint8_t> virgin(COVSZ * (guided ? 1 : 0));
    uint64_t deadline = nowMs() + uint64_t(opt.seconds * 1000);
    uint64_t edges = 0, discarded = 0;
    int samples = 0;
    for (uint64_t i = w; i < opt.cases; i += opt.workers) {
        if (upTo == 0 && nowMs() > deadline) {
            break;
        }
        uint64_t s = mix(mix(opt.seed) ^ (i * 2654435761ull));
        int sub    = pickSub(mix(s + 77) >> 16);
        Gen g;
        g.scratch_  = dir;
        g.thorough_ = opt.thorough;
        g.rng_      = s;
        std::vector<uint64_t> in;
        Gen r;
        r.rng_ = mix(s + 99);
        if (guided && !corpora[sub].items.empty() && r.next() % 4 != 0) {
            in       = mutate(r, corpora[sub]);
            g.in_    = in.data();
            g.inLen_ = in.size();
            shm->guided = shm->guided + 1;
        }
        g.noting_ = (samples < 4 && (i / opt.workers) % 37 == 5);
        shm->notes[0] = 0;
        if (guided) {
            memset(covmap, 0, sizeof covmap);
        }
        uint64_t before = shm->discards;
        if (runCase(g, sub)) {
            _exit(99);
        }
        discarded += shm->discards - before;
        if (upTo && shm->caseNo >= upTo) {
            _exit(0);
        }
        if (g.noting_ && g.nontrivial_) {
            std::string t = std::string(registry()[sub].name) + ": " + g.notes_;
            strncpy(shm->sample[samples], t.c_str(), sizeof shm->sample[0] - 1);
            shm->nsample = ++samples;
        }
        if (guided) {
            bool fresh   = false;
            auto* words  = reinterpret_cast<const uint64_t*>(covmap);
            for (size_t k = 0; k < COVSZ / 8; k++) {
                if (words[k]) {
                    for (size_t b = k * 8; b < k * 8 + 8; b++) {
                        uint8_t q = bucket(covmap[b]);
                        if (q & ~virgin[b]) {
                            if (!virgin[b]) {
                                edges++;
                            }
                            virgin[b] |= q;
                            fresh = true;
                        }
                    }
                }
            }
            if (fresh && shm->discards == before && g.pos_ < 20000) {
                corpora[sub].items.emplace_back(shm->ch, shm->ch + g.pos_);
                shm->corpus = shm->corpus + 1;
                shm->edges  = edges;
            }
        }
    }
    shm->state = 2;
    _exit(0);
}

enum Outcome { PASS, FAIL, HANG };

static std::string tail(const std::string& file, size_t n) {
    std::ifstream in(file, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    // an ASan report: keep its head
    auto p = s.find("==ERROR: AddressSanitizer");
    if (p == std::string::npos) {
        p = s.find("WARNING: ThreadSanitizer");
    }
    if (p == std::string::npos) {
        p = s.find("runtime error:");
    }
    if (p != std::string::npos) {
        return s.substr(p, n);
    }
    return s.size() > n ? s.substr(s.size() - n) : s;
}

static std::string childLog() {
    return opt.scratch + "/child.log";
}

static Outcome waitChild(pid_t pid, Shm* s, uint64_t limitMs, std::string* why) {
    uint64_t t0 = nowMs();
    int st = 0;
    for (int spin = 0;; spin++) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            break;
        }
        if (nowMs() - t0 > limitMs) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            *why = "no result within " + std::to_string(limitMs) + " ms (hang)";
            return HANG;
        }
        usleep(spin < 20 ? 500 : 3000);
    }
    kill(-pid, SIGKILL);  // whatever the case left behind
    if (s->state == 1) {
        *why = s->msg;
        return FAIL;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return PASS;
    }
    std::ostringstream os;
    if (WIFSIGNALED(st)) {
        os << "process died with signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
    }
    else {
        os << "process exited with status " << WEXITSTATUS(st) << " in the middle of a case";
    }
    *why = os.str();
    return FAIL;
}

// one case, in a process of its own; the choices it used are left in `used`
static Outcome evalCase(int sub, const std::vector<uint64_t>& in, std::vector<uint64_t>* used, std::string* why, std::string* notes,
                        std::string* log, uint64_t limitMs) {
    static Shm* s = newShm();
    s->state = 0;
    s->nch   = 0;
    s->nlabel = 0;
    s->notes[0] = s->msg[0] = 0;
    std::string dir = opt.scratch + "/r";
    rmrf(dir);
    mkdir(dir.c_str(), 0755);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        shm = s;
        redirect(childLog());
        childInit();
        Gen g;
        g.scratch_  = dir;
        g.thorough_ = opt.thorough;
        g.extend_   = false;
        g.noting_   = notes != nullptr;
        g.in_       = in.data();
        g.inLen_    = in.size();
        bool f      = runCase(g, sub);
        _exit(f ? 99 : 0);
    }
    Outcome o = waitChild(pid, s, limitMs, why);
    if (used) {
        used->assign(s->ch, s->ch + s->nch);
    }
    if (notes) {
        *notes = s->notes;
    }
    if (log) {
        *log = tail(childLog(), 6000);
    }
    rmrf(dir);
    return o;
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

static std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> best, uint64_t limitMs, uint64_t* tried) {
    uint64_t end = nowMs() + uint64_t(opt.shrinkSec) * 1000;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (nowMs() > end) {
            return false;
        }
        (*tried)++;
        std::vector<uint64_t> used;
        std::string why;
        if (evalCase(sub, c, &used, &why, nullptr, nullptr, limitMs) != PASS) {
            // `used` may be longer than c (zeros appended)
            while (!used.empty() && used.back() == 0) {
                used.pop_back();
            }
            if (simpler(used, best)) {
                best = used;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && nowMs() < end) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.size() && nowMs() < end;) {
                size_t l = std::min(chunk, best.size() - i);
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + l);
                if (attempt(c)) {
                    progress = true;
                    continue;
                }
                bool allZero = std::all_of(best.begin() + i, best.begin() + i + l, [](uint64_t x) { return x == 0; });
                if (!allZero) {
                    c = best;
                    std::fill(c.begin() + i, c.begin() + i + l, 0);
                    if (attempt(c)) {
                        progress = true;
                    }
                }
                // a length choice followed by its elements
                if (chunk <= 8 && i > 0 && i < best.size() && best[i - 1] > 0) {
                    c = best;
                    l = std::min(chunk, best.size() - i);
                    c[i - 1]--;
                    c.erase(c.begin() + i, c.begin() + i + l);
                    if (attempt(c)) {
                        progress = true;
                        continue;
                    }
                }
                i += chunk;
            }
        }
        for (size_t i = 0; i < best.size() && nowMs() < end; i++) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && nowMs() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best);
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    if (i >= best.size()) {
                        break;
                    }
                    hi = std::min(mid, best[i]);
                }
                else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += char(c);
        }
    }
    return r + "\"";
}

struct Found {
    int worker;
    uint64_t caseNo;
    int sub;
    std::vector<uint64_t> ch;
    std::string why;
    bool hang;
};

// --- replay file: a plain text format
//   sub NAME / kind case|history / seed N / worker W / case N / choices ...
static void writeReplay(const std::string& file, const Found& f, bool history, const std::string& why, const std::string& notes,
                        const std::string& log) {
    std::ofstream o(file);
    o << "sub " << registry()[f.sub].name << "\n";
    o << "kind " << (history ? "history" : "case") << "\n";
    o << "seed " << opt.seed << "\nworkers " << opt.workers << "\nguided " << opt.guidedPct << "\nthorough " << opt.thorough << "\nworker " << f.worker
      << "\ncase " << f.caseNo << "\ncases " << opt.cases << "\n";
    o << "choices " << f.ch.size();
    for (auto c : f.ch) {
        o << ' ' << c;
    }
    o << "\n---\nfailure: " << why << "\n--- case\n" << notes << "--- log\n" << log << "\n";
}

static Outcome evalHistory(int w, uint64_t caseNo, std::string* why) {
    Shm* s = newShm();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        shm = s;
        redirect(childLog());
        workerMain(w, caseNo);
    }
    Outcome o = waitChild(pid, s, uint64_t(opt.seconds * 1000) * 2 + 60000, why);
    munmap(s, sizeof *s);
    return o;
}

static int doReplay() {
    std::ifstream in(opt.replay);
    if (!in) {
        std::cerr << "cannot read " << opt.replay << std::endl;
        return 3;
    }
    std::string key, sub, kind;
    Found f{};
    while (in >> key && key != "choices") {
        if (key == "sub") {
            in >> sub;
        }
        else if (key == "kind") {
            in >> kind;
        }
        else if (key == "seed") {
            in >> opt.seed;
        }
        else if (key == "workers") {
            in >> opt.workers;
        }
        else if (key == "guided") {
            in >> opt.guidedPct;
        }
        else if (key == "thorough") {
            in >> opt.thorough;
        }
        else if (key == "worker") {
            in >> f.worker;
        }
        else if (key == "case") {
            in >> f.caseNo;
        }
        else if (key == "cases") {
            in >> opt.cases;
        }
    }
    size_t n = 0;
    in >> n;
    f.ch.resize(n);
    for (auto& c : f.ch) {
        in >> c;
    }
    if (!propByName(sub, &f.sub)) {
        std::cerr << "unknown sub-property " << sub << std::endl;
        return 3;
    }
    std::string why, notes, log;
    Outcome o = PASS;
    int tries = opt.flaky ? opt.retries * 20 : 1;
    for (int i = 0; i < tries && o == PASS; i++) {
        o = kind == "history" ? evalHistory(f.worker, f.caseNo, &why) : evalCase(f.sub, f.ch, nullptr, &why, &notes, &log, opt.caseMs);
    }
    std::cout << "--- case (" << sub << ")\n" << notes << "--- log\n" << log << "\n";
    if (o == PASS) {
        std::cout << "REPLAY: pass" << std::endl;
        return 0;
    }
    std::cout << "REPLAY: FAIL: " << why << std::endl;
    return 1;
}

static int driver() {
    std::vector<Shm*> shms;
    std::vector<pid_t> pids;
    uint64_t t0 = nowMs();
    for (int w = 0; w < opt.workers; w++) {
        shms.push_back(newShm());
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            shm = shms[w];
            redirect(opt.scratch + "/log" + std::to_string(w));
            workerMain(w, 0);
        }
        pids.push_back(pid);
    }
    int alive = opt.workers;
    bool found = false, infra = false;
    Found f{};
    std::vector<bool> live(opt.workers, true);
    uint64_t trunc = nowMs();
    while (alive > 0 && !found) {
        usleep(2000);
        for (int w = 0; w < opt.workers && !found; w++) {
            if (!live[w]) {
                continue;
            }
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            Shm* s  = shms[w];
            bool bad = false;
            std::string why;
            bool hang = false;
            if (r == pids[w]) {
                live[w] = false;
                alive--;
                if (s->state == 1) {
                    bad = true;
                    why = s->msg;
                }
                else if (s->state != 2) {
                    if (s->caseNo == 0) {
                        infra = true;  // died in its set-up
                    }
                    bad = s->caseNo > 0;
                    std::ostringstream os;
                    if (WIFSIGNALED(st)) {
                        os << "process died with signal " << WTERMSIG(st);
                    }
                    else {
                        os << "process exited with status " << WEXITSTATUS(st) << " in the middle of a case";
                    }
                    why = os.str();
                }
            }
            else {
                uint64_t b = s->startMs;
                if (b && nowMs() > b + uint64_t(opt.caseMs)) {
                    if (s->startMs == b) {
                        bad = hang = true;
                        why = "no result within " + std::to_string(opt.caseMs) + " ms (hang)";
                    }
                }
            }
            if (bad) {
                found = true;
                f     = Found{w, s->caseNo, s->sub, std::vector<uint64_t>(s->ch, s->ch + s->nch), why, hang};
            }
        }
        if (nowMs() - trunc > 5000) {  // keep the logs small
            trunc = nowMs();
            for (int w = 0; w < opt.workers; w++) {
                std::string l = opt.scratch + "/log" + std::to_string(w);
                struct stat sb;
                if (live[w] && stat(l.c_str(), &sb) == 0 && sb.st_size > (64 << 20)) {
                    truncate(l.c_str(), 0);
                }
            }
        }
    }
    for (int w = 0; w < opt.workers; w++) {
        if (live[w]) {
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], nullptr, 0);
        }
        else {
            kill(-pids[w], SIGKILL);
        }
    }
    std::string workerLog = found ? tail(opt.scratch + "/log" + std::to_string(f.worker), 6000) : "";
    if (infra) {
        for (int w = 0; w < opt.workers; w++) {
            std::cerr << tail(opt.scratch + "/log" + std::to_string(w), 3000) << std::endl;
        }
    }

    // --- confirm and shrink
    std::string verdict = "pass", why, notes, log;
    uint64_t shrinks = 0;
    bool history = false;
    if (found) {
        std::cout << "candidate failure in " << registry()[f.sub].name << ": " << f.why << std::endl;
        int failures = 0, need = opt.flaky ? 1 : opt.retries, tries = opt.flaky ? opt.retries * 20 : opt.retries;
        for (int i = 0; i < tries && failures < need; i++) {
            std::string w2;
            if (evalCase(f.sub, f.ch, nullptr, &w2, nullptr, nullptr, opt.caseMs) != PASS) {
                failures++;
            }
            else if (!opt.flaky) {
                break;
            }
        }
        if (failures >= need) {
            if (!f.hang && !opt.flaky) {
                auto best = shrink(f.sub, f.ch, opt.caseMs, &shrinks);
                // the shrunk case has to fail each time as well
                bool ok = true;
                for (int i = 0; i < opt.retries && ok; i++) {
                    ok = evalCase(f.sub, best, nullptr, &why, &notes, &log, opt.caseMs) != PASS;
                }
                if (ok) {
                    f.ch = best;
                }
            }
            for (int i = 0; i < tries; i++) {
                if (evalCase(f.sub, f.ch, nullptr, &why, &notes, &log, opt.caseMs) != PASS) {
                    break;
                }
            }
            verdict = "violation";
        }
        else if (!opt.flaky && !f.hang) {
            // does the case need what ran before it in the same process?
            int hf = 0;
            for (int i = 0; i < opt.retries; i++) {
                std::string w2;
                if (evalHistory(f.worker, f.caseNo, &w2) == PASS) {
                    break;
                }
                hf++;
                why = w2;
            }
            log = tail(childLog(), 6000);
            if (hf >= opt.retries) {
                verdict = "violation";
                history = true;
            }
            else {
                verdict = "unreproduced";
            }
        }
        else {
            verdict = "unreproduced";
        }
        if (why.empty()) {
            why = f.why;
        }
        if (log.empty()) {
            log = workerLog;
        }
        if (!opt.replayOut.empty()) {
            writeReplay(opt.replayOut, f, history, why, notes, log);
        }
    }

    // --- results
    std::map<std::string, uint64_t> labels;
    uint64_t cases = 0, nont = 0, disc = 0, guided = 0, corpus = 0, edges = 0;
    std::unordered_set<uint64_t> distinct;
    for (auto* s : shms) {
        cases += s->done;
        disc += s->discards;
        guided += s->guided;
        corpus += s->corpus;
        edges = std::max<uint64_t>(edges, uint64_t(s->edges));
        for (int i = 0; i < s->nlabel; i++) {
            labels[s->labels[i].name] += s->labels[i].n;
        }
        for (size_t i = 0; i < HSZ; i++) {
            if (s->hset[i]) {
                distinct.insert(s->hset[i]);
            }
        }
    }
    nont = distinct.size();
    if (!opt.out.empty()) {
        std::ofstream o(opt.out);
        o << "{\"cases\":" << cases << ",\"distinct_nontrivial\":" << nont << ",\"discarded\":" << disc << ",\"guided_cases\":" << guided
          << ",\"corpus\":" << corpus << ",\"edges\":" << edges << ",\"wall_ms\":" << (nowMs() - t0) << ",\"infra\":" << (infra ? "true" : "false")
          << ",\"verdict\":" << jstr(verdict) << ",\"why\":" << jstr(why) << ",\"sub\":" << jstr(found ? registry()[f.sub].name : "")
          << ",\"shrink_evals\":" << shrinks << ",\"labels\":{";
        bool first = true;
        for (auto& l : labels) {
            o << (first ? "" : ",") << jstr(l.first) << ":" << l.second;
            first = false;
        }
        o << "},\"samples\":[";
        first = true;
        int cnt = 0;
        for (auto* s : shms) {
            for (int i = 0; i < s->nsample && cnt < 10; i++, cnt++) {
                o << (first ? "" : ",") << jstr(s->sample[i]);
                first = false;
            }
        }
        o << "]}\n";
    }
    std::cout << verdict << ": " << cases << " cases, " << nont << " distinct non-trivial, " << disc << " discarded, edges " << edges << ", corpus "
              << corpus << ", " << (nowMs() - t0) << " ms" << std::endl;
    if (opt.verbose) {
        for (auto& l : labels) {
            std::cout << "  " << l.first << " " << l.second << std::endl;
        }
    }
    if (infra) {
        return 3;
    }
    if (verdict == "violation") {
        std::cout << "FAILURE in " << registry()[f.sub].name << ": " << why << "\n--- case\n" << notes << "--- log\n" << log.substr(0, 3000) << std::endl;
        return 1;
    }
    return verdict == "unreproduced" ? 2 : 0;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
    // fixed addresses: coverage guidance must not depend on the address space layout
    if (!getenv("PBT_NOASLR")) {
        setenv("PBT_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    static char arg0[] = "pbt";
    static char* fake[] = {arg0, nullptr};
    g_argc = 1;
    g_argv = fake;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i], k = a, v;
        auto e = a.find('=');
        if (e != std::string::npos) {
            k = a.substr(0, e);
            v = a.substr(e + 1);
        }
        if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases") opt.cases = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--seconds") opt.seconds = atof(v.c_str());
        else if (k == "--workers") opt.workers = atoi(v.c_str());
        else if (k == "--guided") opt.guidedPct = atoi(v.c_str());
        else if (k == "--thorough") opt.thorough = true;
        else if (k == "--scratch") opt.scratch = v;
        else if (k == "--out") opt.out = v;
        else if (k == "--replay") opt.replay = v;
        else if (k == "--replay-out") opt.replayOut = v;
        else if (k == "--only") opt.only = v;
        else if (k == "--case-ms") opt.caseMs = atoi(v.c_str());
        else if (k == "--shrink") opt.shrinkSec = atoi(v.c_str());
        else if (k == "--flaky") opt.flaky = true;
        else if (k == "-v") opt.verbose = true;
        else if (k == "--list") {
            for (auto& p : registry()) std::cout << p.name << " " << p.weight << "\n";
            return 0;
        }
        else {
            std::cerr << "unknown option " << a << std::endl;
            return 3;
        }
    }
    bool own = opt.scratch.empty();
    if (own) {
        char t[] = "/tmp/pbt.XXXXXX";
        opt.scratch = mkdtemp(t);
    }
    int rc = opt.replay.empty() ? driver() : doReplay();
    if (own) {
        rmrf(opt.scratch);
    }
    return rc;
}
