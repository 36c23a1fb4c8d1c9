// Property-based testing engine: choice-sequence generators, coverage-guided mutation of choice
// sequences, crash isolation by fork, shrinking, replay.
//
// Every random decision of a case is drawn from Gen, as an integer in [0,max]; a case is therefore
// determined by its list of choices. 0 is the simplest choice, so shrinking deletes and lowers choices.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

[[noreturn]] void fail(const std::string& msg);
[[noreturn]] void discard();

class Gen {
public:
    // --- primitive: an integer in [0,max]
    uint64_t choice(uint64_t max);

    // --- derived generators (all reduce to choice())
    bool boolean() { return choice(1) != 0; }
    bool chance(int percent) { return choice(99) >= uint64_t(100 - percent); }        // shrinks to false
    int64_t range(int64_t lo, int64_t hi) { return int64_t(uint64_t(lo) + choice(uint64_t(hi) - uint64_t(lo))); }  // uniform
    size_t idx(size_t n) { return size_t(choice(n - 1)); }
    size_t size(size_t max);                  // log-uniform in [0,max]
    bool more(int percent = 75) { return chance(percent); }
    int64_t integer(int64_t lo, int64_t hi);  // mixture: small, uniform, near limits, powers of two
    int64_t integer() { return integer(INT64_MIN, INT64_MAX); }
    uint64_t uinteger(uint64_t lo, uint64_t hi);
    double real(double lo, double hi);        // "nice" values, uniform, boundaries, tiny perturbations
    double anyDouble(bool special = false);           // arbitrary finite bit patterns; NaN/Inf if special
    template <class T> const T& pick(const std::vector<T>& v) { return v[idx(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + idx(v.size())); }
    size_t weighted(std::initializer_list<int> w);
    std::string str(size_t maxlen, const std::string& alphabet);
    std::string bytes(size_t maxlen);         // mixture of random / repetitive content
    std::string ident(size_t maxlen = 6);     // [a-z][a-z0-9_]*
    std::vector<size_t> permutation(size_t n);

    // --- reporting
    void label(const std::string& l);                  // classification counter
    void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
    bool noting() const { return noting_; }
    template <class F> void note(F f) { if (noting_) { std::ostringstream os; f(os); addNote(os.str()); } }
    void addNote(const std::string& s);
    void excluded(const std::string& id) { label("excluded:" + id); }

    // --- per process
    const std::string& scratch() const { return scratch_; }   // private scratch directory of the worker, emptied before each case on request
    std::string freshDir();                                    // an empty directory below scratch()
    bool thorough() const { return thorough_; }

    // engine internals
    const uint64_t* in_ = nullptr;
    size_t inLen_ = 0;
    size_t pos_ = 0;
    bool extend_ = true;
    uint64_t rng_ = 0;
    bool nontrivial_ = false, noting_ = false, thorough_ = false;
    std::string scratch_, notes_;
    uint64_t next();
};

struct Prop {
    const char* name;
    int weight;
    std::function<void(Gen&)> fn;
};
std::vector<Prop>& registry();
struct Reg {
    Reg(const char* n, int w, std::function<void(Gen&)> f) { registry().push_back({n, w, f}); }
};

// Called once in each worker process before any case.
extern void (*processInit)(int, char**);
struct RegInit {
    RegInit(void (*f)(int, char**)) { processInit = f; }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT(name, weight)                                                   \
    static void PBT_CAT(pbt_fn_, name)(pbt::Gen & g);                       \
    static pbt::Reg PBT_CAT(pbt_reg_, name)(#name, weight, PBT_CAT(pbt_fn_, name)); \
    static void PBT_CAT(pbt_fn_, name)(pbt::Gen & g)
#define PBT_INIT static void pbt_init_(int argc, char** argv); static pbt::RegInit pbt_reginit_(pbt_init_); static void pbt_init_(int argc, char** argv)

#define CHECK(cond, msg)                                                              \
    do {                                                                              \
        if (!(cond)) {                                                                \
            std::ostringstream pbt_os_;                                               \
            pbt_os_.precision(17);                                                    \
            pbt_os_ << #cond << " violated: " << msg << "  [" << __FILE__ << ":" << __LINE__ << "]"; \
            pbt::fail(pbt_os_.str());                                                 \
        }                                                                             \
    } while (0)
#define CHECK_EQ(a, b, msg)                                                           \
    do {                                                                              \
        auto pbt_a_ = (a);                                                          \
        auto pbt_b_ = (b);                                                          \
        if (!(pbt_a_ == pbt_b_)) {                                                    \
            std::ostringstream pbt_os_;                                               \
            pbt_os_.precision(17);                                                    \
            pbt_os_ << #a << " == " << #b << " violated: " << pbt_a_ << " vs " << pbt_b_ << ": " << msg << "  [" << __FILE__ << ":" << __LINE__ << "]"; \
            pbt::fail(pbt_os_.str());                                                 \
        }                                                                             \
    } while (0)

// printable form of arbitrary bytes
std::string esc(const std::string& s, size_t max = 400);
std::string hexs(const void* p, size_t n, size_t max = 200);
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
// expects that f throws an exception derived from std::exception; false when it returned
template <class F> bool throws(F f, std::string* what = nullptr) {
    try { f(); } catch (Failure&) { throw; } catch (Discard&) { throw; }
    catch (std::exception& e) { if (what) *what = e.what(); return true; }
    return false;
}

}  // namespace pbt
