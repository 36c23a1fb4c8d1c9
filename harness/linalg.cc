// C27: sparse and dense linear algebra against a dense reference.
#include "pbt.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/linalg/LinearAlgebraDense.h"
#include "eckit/linalg/LinearAlgebraSparse.h"
#include "eckit/linalg/Matrix.h"
#include "eckit/linalg/SparseMatrix.h"
#include "eckit/linalg/Tensor.h"
#include "eckit/linalg/Triplet.h"
#include "eckit/linalg/Vector.h"
#include "eckit/memory/MemoryBuffer.h"
#include "eckit/runtime/Main.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

using namespace pbt;
using namespace eckit;
using namespace eckit::linalg;

PBT_INIT { eckit::Main::initialise(argc, argv); }

namespace {

struct Ref {
    size_t rows = 0, cols = 0;
    // the stored entries, in storage order within a row
    std::vector<std::vector<std::pair<size_t, double>>> e;
    size_t nnz() const {
        size_t n = 0;
        for (auto& r : e) n += r.size();
        return n;
    }
    double at(size_t i, size_t j) const {
        double s = 0;
        for (auto& p : e[i])
            if (p.first == j) s += p.second;
        return s;
    }
};

std::ostream& operator<<(std::ostream& o, const Ref& r) {
    o << r.rows << "x" << r.cols << " [";
    for (size_t i = 0; i < r.rows; ++i)
        for (auto& p : r.e[i]) o << " (" << i << "," << p.first << ")=" << p.second;
    return o << " ]";
}

double value(Gen& g) { return double(g.integer(-9, 9)); }

std::vector<Triplet> genTriplets(Gen& g, Ref& r) {
    r.rows = size_t(g.integer(1, g.thorough() ? 24 : 12));
    r.cols = size_t(g.integer(1, g.thorough() ? 24 : 12));
    r.e.assign(r.rows, {});
    std::vector<Triplet> t;
    bool tidy  = g.chance(70);  // columns ascending within a row
    int style  = int(g.idx(3));
    for (size_t i = 0; i < r.rows; ++i) {
        if (style == 0 ? g.chance(50) : style == 1 ? g.chance(85) : g.chance(15)) continue;  // an empty row
        std::vector<size_t> cs;
        for (size_t j = 0; j < r.cols; ++j)
            if (g.chance(style == 2 ? 70 : 35)) cs.push_back(j);
        if (!tidy) {
            auto p = g.permutation(cs.size());
            std::vector<size_t> d;
            for (auto k : p) d.push_back(cs[k]);
            cs = d;
        }
        for (auto j : cs) {
            double v = g.chance(12) ? 0. : value(g);
            t.emplace_back(i, j, v);
            if (v != 0.) r.e[i].emplace_back(j, v);
        }
    }
    if (r.nnz() == 0) {  // a matrix has at least one entry
        t.clear();
        size_t i = g.idx(r.rows), j = g.idx(r.cols);
        t.emplace_back(i, j, 3.);
        r.e[i].emplace_back(j, 3.);
    }
    return t;
}

void same(const SparseMatrix& m, const Ref& r, const std::string& what) {
    CHECK_EQ(m.rows(), r.rows, what + ": rows");
    CHECK_EQ(m.cols(), r.cols, what + ": cols");
    CHECK_EQ(m.nonZeros(), r.nnz(), what + ": number of non-zeros");
    CHECK_EQ(m.empty(), r.nnz() == 0, what + ": empty()");
    // compressed rows
    const auto* o = m.outerIndex();
    size_t k      = 0;
    for (size_t i = 0; i < r.rows; ++i) {
        CHECK_EQ(size_t(o[i]), k, what + ": outer index of row " + std::to_string(i));
        for (auto& p : r.e[i]) {
            CHECK_EQ(size_t(m.inner()[k]), p.first, what + ": column of entry " + std::to_string(k));
            CHECK_EQ(m.data()[k], p.second, what + ": value of entry " + std::to_string(k));
            ++k;
        }
    }
    CHECK_EQ(size_t(o[r.rows]), k, what + ": last outer index");
    CHECK(m.footprint() >= k * (sizeof(Scalar) + sizeof(Index)), what + ": footprint");
}

void iterate(const SparseMatrix& m, const Ref& r, const std::string& what) {
    std::vector<std::pair<size_t, std::pair<size_t, double>>> want, got;
    for (size_t i = 0; i < r.rows; ++i)
        for (auto& p : r.e[i]) want.push_back({i, p});
    for (auto it = m.begin(); it != m.end(); ++it) {
        got.push_back({it.row(), {it.col(), *it}});
        if (got.size() > want.size()) break;
    }
    CHECK_EQ(got.size(), want.size(), what + ": iteration visits every stored entry once");
    for (size_t k = 0; k < want.size(); ++k) {
        CHECK_EQ(got[k].first, want[k].first, what + ": row of entry " + std::to_string(k) + " of the iteration");
        CHECK_EQ(got[k].second.first, want[k].second.first, what + ": column of entry of the iteration");
        CHECK_EQ(got[k].second.second, want[k].second.second, what + ": value of entry of the iteration");
    }
    // by bool, with post-increment
    size_t n = 0;
    for (auto it = m.begin(); it && n <= want.size(); it++) {
        if (n < want.size()) CHECK_EQ(it.row(), want[n].first, what + ": row (bool loop)");
        ++n;
    }
    CHECK_EQ(n, want.size(), what + ": bool loop");
    for (size_t i = 0; i < r.rows; ++i) {
        size_t c = 0;
        for (auto it = m.begin(i), e = m.end(i); it != e; ++it, ++c) {
            if (c >= r.e[i].size()) break;
            CHECK_EQ(it.row(), i, what + ": row of a row iteration");
            CHECK_EQ(it.col(), r.e[i][c].first, what + ": column of a row iteration");
            CHECK_EQ(*it, r.e[i][c].second, what + ": value of a row iteration");
        }
        CHECK_EQ(c, r.e[i].size(), what + ": length of row " + std::to_string(i));
    }
    // dump: one line per non-empty row
    std::ostringstream os, es;
    m.dump(os);
    for (size_t i = 0; i < r.rows; ++i) {
        if (r.e[i].empty()) continue;
        es << i;
        for (auto& p : r.e[i]) es << " " << p.first << " " << p.second;
        es << "\n";
    }
    CHECK_EQ(os.str(), es.str(), what + ": dump");
}

Ref transposed(const Ref& r) {
    Ref t;
    t.rows = r.cols;
    t.cols = r.rows;
    t.e.assign(t.rows, {});
    for (size_t i = 0; i < r.rows; ++i)
        for (auto& p : r.e[i]) t.e[p.first].emplace_back(i, p.second);
    return t;
}

std::vector<std::string> backends(bool sparse) {
    std::vector<std::string> out;
    for (const char* n : {"generic", "openmp", "eigen", "lapack", "mkl", "torch"})
        if (sparse ? LinearAlgebraSparse::hasBackend(n) : LinearAlgebraDense::hasBackend(n)) out.push_back(n);
    return out;
}

}  // namespace

PBT(sparse, 10) {
    Ref r;
    auto t = genTriplets(g, r);
    g.note([&](std::ostream& o) { o << "triplets give " << r << "\n"; });
    auto m  = std::make_unique<SparseMatrix>(Size(r.rows), Size(r.cols), t);
    bool gap = false, seen = false, hole = false;
    for (auto& row : r.e) {
        if (row.empty()) { if (seen) hole = true; }
        else { if (hole) gap = true; seen = true; }
    }
    g.nontrivial(r.nnz() >= 3 && gap);
    same(*m, r, "construction");
    iterate(*m, r, "construction");
    std::vector<std::unique_ptr<MemoryBuffer>> bufs;
    std::vector<std::vector<char>> images;
    bool shared = false;
    std::vector<std::pair<std::unique_ptr<SparseMatrix>, Ref>> kept;  // must not change when others do
    size_t n = g.size(8);
    for (size_t s = 0; s < n; ++s) {
        switch (g.weighted({2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 1})) {
            case 0: {
                g.note([&](std::ostream& o) { o << "transpose\n"; });
                m->transpose();
                r = transposed(r);
                shared = false;
                // order within a row of the transpose is by column
                break;
            }
            case 1: {
                double v = g.chance(60) ? 0. : value(g);
                size_t left = 0;
                for (auto& row : r.e) for (auto& p : row) left += p.second != v;
                if (!left) { g.excluded("C27-prune-all"); break; }
                g.note([&](std::ostream& o) { o << "prune " << v << "\n"; });
                m->prune(v);
                for (auto& row : r.e)
                    row.erase(std::remove_if(row.begin(), row.end(), [&](auto& p) { return p.second == v; }), row.end());
                shared = false;
                break;
            }
            case 2: {
                size_t k = 1 + g.idx(r.rows);
                std::vector<size_t> p;
                Ref q;
                q.cols = r.cols;
                q.rows = k;
                for (size_t i = 0; i < k; ++i) {
                    p.push_back(g.idx(r.rows));
                    q.e.push_back({});
                    for (auto& x : r.e[p.back()])
                        if (x.second != 0) q.e.back().push_back(x);
                }
                if (!q.nnz()) { g.excluded("C27-empty-reduction"); break; }
                g.note([&](std::ostream& o) { o << "rowReduction"; for (auto x : p) o << " " << x; o << "\n"; });
                *m = m->rowReduction(p);
                r  = q;
                shared = false;
                break;
            }
            case 3: {
                g.note([&](std::ostream& o) { o << "copy\n"; });
                kept.emplace_back(std::make_unique<SparseMatrix>(*m), r);
                break;
            }
            case 4: {
                g.note([&](std::ostream& o) { o << "copy assignment and back\n"; });
                SparseMatrix c;
                c = *m;
                same(c, r, "copy assignment");
                *m = std::move(c);
                shared = false;
                break;
            }
            case 5: {
                g.note([&](std::ostream& o) { o << "move\n"; });
                m = std::make_unique<SparseMatrix>(std::move(*m));
                break;
            }
            case 6: {
                g.note([&](std::ostream& o) { o << "stream\n"; });
                Buffer b(size_t(4096));
                ResizableMemoryStream ms(b);
                ms << *m;
                ms << std::string("end");
                MemoryStream in(b.data(), ms.position());
                if (g.boolean()) {
                    m = std::make_unique<SparseMatrix>(in);
                }
                else {
                    SparseMatrix c(in);
                    m->swap(c);
                }
                std::string e;
                in >> e;
                CHECK_EQ(e, std::string("end"), "what follows the matrix in the stream");
                shared = false;
                break;
            }
            case 7: {
                g.note([&](std::ostream& o) { o << "save, load\n"; });
                PathName p(g.freshDir() + "/m");
                m->save(p);
                SparseMatrix c;
                if (g.boolean()) {  // over another matrix
                    SparseMatrix d(2, 3, std::vector<Triplet>{{0, 0, 1.}, {1, 2, 5.}});
                    c = d;
                }
                c.load(p);
                same(c, r, "load");
                m->swap(c);
                shared = false;
                break;
            }
            case 8: {
                size_t need = 6 * sizeof(size_t) + r.nnz() * (sizeof(Scalar) + sizeof(Index)) + (r.rows + 1) * sizeof(std::remove_cv_t<std::remove_pointer_t<decltype(m->outerIndex())>>);
                size_t size = need + (g.boolean() ? 0 : g.idx(100));
                g.note([&](std::ostream& o) { o << "dump to a buffer of " << size << " (needs " << need << ")\n"; });
                auto buf = std::make_unique<MemoryBuffer>(size);
                m->dump(*buf);
                SparseMatrix c(*buf);
                images.emplace_back(static_cast<const char*>(buf->data()), static_cast<const char*>(buf->data()) + need);
                bufs.push_back(std::move(buf));
                same(c, r, "matrix on a buffer");
                m->swap(c);
                shared = true;
                break;
            }
            case 9: {
                if (shared) break;
                size_t a = 1 + g.idx(6), b = 1 + g.idx(6);
                g.note([&](std::ostream& o) { o << "setIdentity " << a << " " << b << "\n"; });
                m->setIdentity(a, b);
                r.rows = a;
                r.cols = b;
                r.e.assign(a, {});
                for (size_t i = 0; i < std::min(a, b); ++i) r.e[i].emplace_back(i, 1.);
                break;
            }
            case 10: {
                size_t more = r.cols + g.idx(3);
                g.note([&](std::ostream& o) { o << "cols " << more << "\n"; });
                m->cols(more);
                r.cols = more;
                break;
            }
            case 11: {
                if (shared || !r.nnz()) break;
                // through the mutable iterator
                double add = value(g);
                g.note([&](std::ostream& o) { o << "add " << add << " through the iterator\n"; });
                if (g.boolean()) {
                    auto end = m->end();
                    for (auto it = m->begin(); it != end; ++it) *it += add;
                    for (auto& row : r.e) for (auto& p : row) p.second += add;
                }
                else {
                    size_t i = g.idx(r.rows);
                    auto end = m->end(i);
                    for (auto it = m->begin(i); it != end; ++it) *it += add;
                    for (auto& p : r.e[i]) p.second += add;
                }
                break;
            }
            default: {
                if (kept.empty()) break;
                size_t k = g.idx(kept.size());
                g.note([&](std::ostream& o) { o << "swap with copy " << k << "\n"; });
                if (shared) break;
                m->swap(*kept[k].first);
                std::swap(r, kept[k].second);
            }
        }
        // a transpose or a construction drops entries stored as zero
        if (m->nonZeros() != r.nnz()) {
            size_t nz = 0;
            for (auto& row : r.e) for (auto& p : row) nz += p.second != 0;
            if (nz == m->nonZeros())
                for (auto& row : r.e)
                    row.erase(std::remove_if(row.begin(), row.end(), [&](auto& p) { return p.second == 0; }), row.end());
        }
        if (r.nnz() == 0) return;
        same(*m, r, "after the step");
        iterate(*m, r, "after the step");
        for (auto& k : kept) same(*k.first, k.second, "a copy made before");
        for (size_t k = 0; k < bufs.size(); ++k)
            CHECK(std::equal(images[k].begin(), images[k].end(), static_cast<const char*>(bufs[k]->data())),
                  "the image in a buffer changed");
        bool zeros = false;
        for (auto& row : r.e) for (auto& p : row) zeros = zeros || p.second == 0;
        if (zeros) {  // make the next transpose/rowReduction well-defined
            size_t left = 0;
            for (auto& row : r.e) for (auto& p : row) left += p.second != 0;
            if (!left) return;
            m->prune();
            for (auto& row : r.e)
                row.erase(std::remove_if(row.begin(), row.end(), [&](auto& p) { return p.second == 0; }), row.end());
            shared = false;
            same(*m, r, "prune");
        }
    }
}

PBT(product, 8) {
    Ref r;
    auto t = genTriplets(g, r);
    SparseMatrix A(Size(r.rows), Size(r.cols), t);
    size_t nk = 1 + g.idx(6);
    Vector x(r.cols), y(r.rows), z(r.rows), w(r.cols);
    for (size_t i = 0; i < r.cols; ++i) { x[i] = value(g); w[i] = value(g); }
    for (size_t i = 0; i < r.rows; ++i) { y[i] = 77; z[i] = value(g); }
    Matrix B(r.cols, nk), C(r.rows, nk);
    for (size_t i = 0; i < r.cols; ++i) for (size_t k = 0; k < nk; ++k) B(i, k) = value(g);
    C.fill(55);
    g.note([&](std::ostream& o) {
        o << r << "\n x";
        for (auto v : x) o << " " << v;
        o << "\n B (by columns)";
        for (auto v : B) o << " " << v;
        o << "\n left";
        for (auto v : z) o << " " << v;
        o << "\n right";
        for (auto v : w) o << " " << v;
        o << "\n";
    });
    g.nontrivial(r.nnz() >= 3 && r.rows > 1 && r.cols > 1);
    for (auto& name : backends(true)) {
        auto& la = LinearAlgebraSparse::getBackend(name);
        la.spmv(A, x, y);
        for (size_t i = 0; i < r.rows; ++i) {
            double s = 0;
            for (auto& p : r.e[i]) s += p.second * x[p.first];
            CHECK_EQ(y[i], s, name + ": spmv, row " + std::to_string(i));
        }
        la.spmm(A, B, C);
        for (size_t i = 0; i < r.rows; ++i)
            for (size_t k = 0; k < nk; ++k) {
                double s = 0;
                for (auto& p : r.e[i]) s += p.second * B(p.first, k);
                CHECK_EQ(C(i, k), s, name + ": spmm");
            }
        SparseMatrix D;
        if (g.boolean()) {
            SparseMatrix o(1, 1, std::vector<Triplet>{{0, 0, 1.}});
            D = o;
        }
        la.dsptd(z, A, w, D);
        CHECK_EQ(D.rows(), r.rows, name + ": dsptd rows");
        CHECK_EQ(D.cols(), r.cols, name + ": dsptd cols");
        std::map<std::pair<size_t, size_t>, double> got;
        for (auto it = D.begin(); it != D.end(); ++it) got[{it.row(), it.col()}] += *it;
        for (size_t i = 0; i < r.rows; ++i)
            for (size_t j = 0; j < r.cols; ++j) {
                auto f   = got.find({i, j});
                double v = f == got.end() ? 0 : f->second;
                CHECK_EQ(v, z[i] * r.at(i, j) * w[j], name + ": dsptd");
            }
        same(A, r, name + ": the operand");
    }
    // sizes that do not fit are refused
    auto& la = LinearAlgebraSparse::getBackend("generic");
    Vector bad(r.cols + 1), badY(r.rows + 1);
    std::string why;
    CHECK(throws([&] { la.spmv(A, bad, y); }, &why), "spmv accepts a vector of the wrong size");
    CHECK(throws([&] { la.spmv(A, x, badY); }, &why), "spmv accepts a result of the wrong size");
}

PBT(dense, 7) {
    size_t ni = size_t(g.integer(1, 9)), nj = size_t(g.integer(1, 9)), nk = size_t(g.integer(1, 9));
    std::vector<double> a(ni * nj), b(nj * nk), v(nj);
    for (auto& q : a) q = value(g);
    for (auto& q : b) q = value(g);
    for (auto& q : v) q = value(g);
    g.note([&](std::ostream& o) {
        o << ni << " " << nj << " " << nk << "\n a";
        for (auto q : a) o << " " << q;
        o << "\n b";
        for (auto q : b) o << " " << q;
        o << "\n v";
        for (auto q : v) o << " " << q;
        o << "\n";
    });
    g.nontrivial(ni > 1 && nj > 1 && nk > 1 && ni != nj);
    Matrix A(a.data(), ni, nj), B(b.data(), nj, nk), C(ni, nk);
    Vector V(v.data(), nj), W(b.data(), nj), Y(ni);
    C.fill(5);
    Y.fill(5);
    for (size_t i = 0; i < ni; ++i)
        for (size_t j = 0; j < nj; ++j) CHECK_EQ(A(i, j), a[j * ni + i], "column-major access");
    for (auto& name : backends(false)) {
        auto& la = LinearAlgebraDense::getBackend(name);
        double s = 0;
        for (size_t j = 0; j < nj; ++j) s += v[j] * b[j];
        CHECK_EQ(la.dot(V, W), s, name + ": dot");
        la.gemv(A, V, Y);
        for (size_t i = 0; i < ni; ++i) {
            s = 0;
            for (size_t j = 0; j < nj; ++j) s += a[j * ni + i] * v[j];
            CHECK_EQ(Y[i], s, name + ": gemv");
        }
        la.gemm(A, B, C);
        for (size_t i = 0; i < ni; ++i)
            for (size_t k = 0; k < nk; ++k) {
                s = 0;
                for (size_t j = 0; j < nj; ++j) s += a[j * ni + i] * b[k * nj + j];
                CHECK_EQ(C(i, k), s, name + ": gemm");
            }
    }
    auto& la = LinearAlgebraDense::getBackend("generic");
    std::string why;
    Matrix bad(ni + 1, nk);
    Vector badv(nj + 1);
    CHECK(throws([&] { la.gemm(A, B, bad); }, &why), "gemm accepts a result of the wrong size");
    CHECK(throws([&] { la.gemv(A, badv, Y); }, &why), "gemv accepts a vector of the wrong size");
    CHECK(throws([&] { la.dot(badv, V); }, &why), "dot accepts vectors of different sizes");
    // copies, assignment, swap, stream
    Matrix M(A), N;
    a[0] += 1;  // the view sees it, the copy does not
    CHECK_EQ(A(0, 0), a[0], "a matrix on existing data");
    CHECK_EQ(M(0, 0), a[0] - 1, "a copy of a matrix");
    Matrix K(nj + 2, 2);
    K = A;
    CHECK_EQ(K.rows(), ni, "assignment: rows");
    CHECK_EQ(K.cols(), nj, "assignment: cols");
    CHECK(std::equal(K.begin(), K.end(), a.begin()), "assignment");
    Vector U(V);
    v[0] += 1;
    CHECK_EQ(U[0], v[0] - 1, "a copy of a vector");
    Vector T(3);
    T = V;
    CHECK_EQ(T.size(), nj, "assignment of a vector: size");
    CHECK(std::equal(T.begin(), T.end(), v.begin()), "assignment of a vector");
    Buffer buf(size_t(16384));
    MemoryStream out(buf);
    out << A;
    V.encode(out);
    out << 42;
    MemoryStream in(buf.data(), out.position());
    Matrix A2(in);
    Vector V2(in);
    int end;
    in >> end;
    CHECK_EQ(end, 42, "what follows in the stream");
    CHECK_EQ(A2.rows(), ni, "stream: rows");
    CHECK_EQ(A2.cols(), nj, "stream: cols");
    CHECK(std::equal(A2.begin(), A2.end(), a.begin()), "matrix through a stream");
    CHECK_EQ(V2.size(), nj, "stream: vector size");
    CHECK(std::equal(V2.begin(), V2.end(), v.begin()), "vector through a stream");
    A2.swap(K);
    A2.setZero();
    CHECK(std::all_of(A2.begin(), A2.end(), [](double q) { return q == 0; }), "setZero");
    CHECK(std::equal(K.begin(), K.end(), a.begin()), "swap");
    K.resize(nk, ni + nj);
    CHECK_EQ(K.size(), nk * (ni + nj), "resize");
    K.fill(3);
    CHECK_EQ(K(nk - 1, ni + nj - 1), 3., "fill");
}

// --------------------------------------------------------------------------------------------------------------------

namespace {

using T = TensorDouble;

struct RT {
    std::vector<size_t> shape;
    bool right = false;  // row major
    std::vector<double> logical;  // by multi-index, last index fastest
};

size_t flat(const std::vector<size_t>& s) {
    size_t n = 1;
    for (auto v : s) n *= v;
    return n;
}

void eachIndex(const std::vector<size_t>& shape, const std::function<void(const std::vector<size_t>&, size_t)>& f) {
    std::vector<size_t> ix(shape.size(), 0);
    size_t n = flat(shape);
    for (size_t k = 0; k < n; ++k) {
        f(ix, k);
        for (size_t d = shape.size(); d-- > 0;) {
            if (++ix[d] < shape[d]) break;
            ix[d] = 0;
        }
    }
}

double& el(T& t, const std::vector<size_t>& i) {
    switch (i.size()) {
        case 1: return t(i[0]);
        case 2: return t(i[0], i[1]);
        case 3: return t(i[0], i[1], i[2]);
        default: return t(i[0], i[1], i[2], i[3]);
    }
}

size_t linear(const std::vector<size_t>& shape, bool right, const std::vector<size_t>& i) {
    size_t k = 0;
    if (right)
        for (size_t d = 0; d < shape.size(); ++d) k = k * shape[d] + i[d];
    else
        for (size_t d = shape.size(); d-- > 0;) k = k * shape[d] + i[d];
    return k;
}

void same(T& t, const RT& r, const std::string& what) {
    CHECK(t.shape() == r.shape, what + ": shape");
    CHECK_EQ(t.size(), flat(r.shape), what + ": size");
    CHECK_EQ(t.layout() == T::Layout::RowMajor, r.right, what + ": layout");
    eachIndex(r.shape, [&](const std::vector<size_t>& ix, size_t k) {
        CHECK_EQ(el(t, ix), r.logical[k], what + ": element");
        CHECK_EQ(t[linear(r.shape, r.right, ix)], r.logical[k], what + ": linear storage");
    });
    CHECK_EQ(size_t(t.end() - t.begin()), t.size(), what + ": iterators");
}

RT genRT(Gen& g) {
    RT r;
    size_t d = 1 + g.idx(4);
    for (size_t i = 0; i < d; ++i) r.shape.push_back(1 + g.idx(4));
    r.right = g.boolean();
    r.logical.resize(flat(r.shape));
    for (auto& v : r.logical) v = double(g.integer(-99, 99));
    return r;
}

void fill(T& t, const RT& r) {
    eachIndex(r.shape, [&](const std::vector<size_t>& ix, size_t k) { el(t, ix) = r.logical[k]; });
}

T::Layout lay(bool right) { return right ? T::Layout::RowMajor : T::Layout::ColMajor; }

}  // namespace

PBT(tensor, 7) {
    RT r = genRT(g);
    auto show = [&](const char* what) {
        g.note([&](std::ostream& o) {
            o << what << (r.right ? " row-major" : " column-major");
            for (auto s : r.shape) o << " " << s;
            o << "\n";
        });
    };
    show("tensor");
    size_t big = 0;
    for (auto s : r.shape) big += s > 1;
    g.nontrivial(big >= 2);
    auto t = std::make_unique<T>(r.shape, lay(r.right));
    fill(*t, r);
    same(*t, r, "construction");
    std::vector<std::pair<std::unique_ptr<T>, RT>> kept;
    std::vector<std::unique_ptr<std::vector<double>>> store;
    size_t n = g.size(8);
    for (size_t s = 0; s < n; ++s) {
        switch (g.idx(10)) {
            case 0: {
                T c(*t);
                same(c, r, "copy");
                kept.emplace_back(std::make_unique<T>(*t), r);
                show("copy");
                break;
            }
            case 1: {
                T c(std::move(*t));
                CHECK_EQ(t->size(), size_t(0), "moved-from tensor");
                *t = std::move(c);
                show("move");
                break;
            }
            case 2: {  // assigned to another one of any shape
                RT q = genRT(g);
                std::unique_ptr<T> c;
                if (g.boolean()) c = std::make_unique<T>(q.shape, lay(q.right));
                else c = std::make_unique<T>(lay(q.right));
                *c = *t;
                same(*c, r, "assignment");
                t.swap(c);
                show("assignment");
                break;
            }
            case 3: {
                RT q;
                T c = r.right ? t->transformRowMajorToColMajor() : t->transformColMajorToRowMajor();
                r.right = !r.right;
                same(c, r, "change of layout");
                t->swap(c);
                show("change of layout");
                break;
            }
            case 4: {
                Buffer b(size_t(16384));
                MemoryStream out(b);
                t->encode(out);
                out << 42;
                MemoryStream in(b.data(), out.position());
                T c(in);
                int e;
                in >> e;
                CHECK_EQ(e, 42, "what follows in the stream");
                same(c, r, "stream");
                t->swap(c);
                show("stream");
                break;
            }
            case 5: {  // same number of elements: data stay where they are
                std::vector<size_t> shape;
                size_t left = flat(r.shape);
                while (left > 1 && shape.size() < 3) {
                    std::vector<size_t> div;
                    for (size_t d = 1; d <= left; ++d) if (left % d == 0) div.push_back(d);
                    shape.push_back(div[g.idx(div.size())]);
                    left /= shape.back();
                }
                shape.push_back(left);
                std::vector<double> lin(t->begin(), t->end());
                t->resize(shape);
                RT q;
                q.shape = shape;
                q.right = r.right;
                q.logical.resize(lin.size());
                eachIndex(shape, [&](const std::vector<size_t>& ix, size_t k) { q.logical[k] = lin[linear(shape, q.right, ix)]; });
                r = q;
                show("reshape");
                break;
            }
            case 6: {
                RT q = genRT(g);
                q.right = r.right;
                t->resize(q.shape);
                fill(*t, q);
                r = q;
                show("resize");
                break;
            }
            case 7: {  // on existing data
                store.push_back(std::make_unique<std::vector<double>>(t->begin(), t->end()));
                auto c = std::make_unique<T>(store.back()->data(), r.shape, lay(r.right));
                same(*c, r, "a tensor on existing data");
                t.swap(c);
                show("view");
                break;
            }
            case 8: {
                double v = double(g.integer(-9, 9));
                size_t k = g.idx(r.logical.size());
                eachIndex(r.shape, [&](const std::vector<size_t>& ix, size_t q) { if (q == k) el(*t, ix) = v; });
                r.logical[k] = v;
                show("write");
                break;
            }
            default: {
                if (g.boolean()) { t->zero(); std::fill(r.logical.begin(), r.logical.end(), 0.); }
                else { t->fill(3.5); std::fill(r.logical.begin(), r.logical.end(), 3.5); }
                show("fill");
            }
        }
        same(*t, r, "after the step");
        for (auto& k : kept) same(*k.first, k.second, "a copy made before");
    }
}
