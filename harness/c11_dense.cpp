// C11: dense matrix helpers compute what they are named after, for all shapes.
#include "hier.h"
using hier::val;

static Eigen::MatrixXd fill(long r, long cl, int salt)
{
    Eigen::MatrixXd M(r, cl);
    for (long i = 0; i < r; ++i) for (long j = 0; j < cl; ++j) M(i, j) = val(salt, i, j) + 10 * i + 0.25 * j;
    return M;
}
static double dotc(const Eigen::MatrixXd &A, long i, long j) { double s = 0; for (long k = 0; k < A.rows(); ++k) s += A(k, i) * A(k, j); return s; }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

// lower triangular parts only are defined by the functions
static void lower(mc::Ctx &c, const Eigen::MatrixXd &got, const Eigen::MatrixXd &exp, const char *key)
{
    c.check(got.rows() == exp.rows() && got.cols() == exp.cols(), key, "wrong size");
    for (long i = 0; i < exp.rows(); ++i) for (long j = 0; j <= i && j < exp.cols(); ++j) c.near(got(i, j), exp(i, j), key, "lower triangular part");
}
MC_SCENARIO(ata, 2, 2)
{
    long r = c.range(0, 4, "rows"), n = c.range(0, 4, "cols");
    Eigen::MatrixXd A = fill(r, n, 1 + c.choose(2, "salt"));
    Eigen::MatrixXd L(n, n);
    for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) L(i, j) = dotc(A, i, j);
    Eigen::MatrixXd out;
    int reused = c.choose(3, "reused");
    if (reused) out = reused == 1 ? fill(3, 2, 1) : fill(n, n, 1);
    switch (c.choose(4, "function"))
    {
        case 0:
            etools::getATA(out, A);
            lower(c, out, L, "getATA");
            etools::convertLLTtoSymmetric(out);
            c.nearM(out, L, "symmetric", "convertLLTtoSymmetric");
            break;
        case 1:
        {
            long extra = c.range(0, 2, "extra"), off = c.choose(extra + 1, "offset");
            Eigen::MatrixXd E = Eigen::MatrixXd::Zero(n + extra, n + extra);
            for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) E(off + i, off + j) = L(i, j);
            if (reused == 2) out = fill(n + extra, n + extra, 1);
            etools::getATA(out, A, off, n + extra);
            lower(c, out, E, "getATA-offset");
            etools::convertLLTtoSymmetric(out);
            c.nearM(out, E, "symmetric", "convertLLTtoSymmetric");
            break;
        }
        case 2:
        {
            Eigen::MatrixXd H = fill(n, n, 5), E = H;
            for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) E(i, j) += L(i, j);
            etools::addATA(H, A);
            c.nearM(H, E, "addATA", "only the lower triangular part changes");
            break;
        }
        default:
        {
            long extra = c.range(0, 2, "extra"), off = c.choose(extra + 1, "offset");
            Eigen::MatrixXd H = fill(n + extra, n + extra, 5), E = H;
            for (long i = 0; i < n; ++i) for (long j = 0; j <= i; ++j) E(off + i, off + j) += L(i, j);
            etools::addATA(H, A, off);
            c.nearM(H, E, "addATA-offset", "only the addressed lower triangular part changes");
        }
    }
    c.step("A'A");
    std::stringstream s; s << r << n << out; c.state(s.str());
}
MC_SCENARIO(block_diagonal, 2, 2)
{
    if (c.flip("copies"))
    {
        long r = c.range(0, 3, "rows"), n = c.range(0, 3, "cols"), k = c.range(0, 4, "copies");
        Eigen::MatrixXd A = fill(r, n, 1), E = Eigen::MatrixXd::Zero(k * r, k * n);
        for (long q = 0; q < k; ++q) for (long i = 0; i < r; ++i) for (long j = 0; j < n; ++j) E(q * r + i, q * n + j) = A(i, j);
        Eigen::MatrixXd out = etools::makeBlockDiagonal(A, k);
        c.step("makeBlockDiagonal");
        c.nearM(out, E, "copies", "makeBlockDiagonal(matrix, copies)");
        std::stringstream s; s << "c" << r << n << k; c.state(s.str());
        return;
    }
    long k = c.range(0, 4, "matrices"), R = 0, C = 0;
    std::vector<Eigen::MatrixXd> v;
    std::stringstream s;
    for (long q = 0; q < k; ++q)
    {
        static const long sh[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 3}, {0, 2}, {2, 0}, {0, 0}};
        const long *x = sh[c.choose(7, "shape")];
        v.push_back(fill(x[0], x[1], q + 1));
        R += x[0]; C += x[1];
        s << x[0] << "x" << x[1] << " ";
    }
    Eigen::MatrixXd E = Eigen::MatrixXd::Zero(R, C);
    long a = 0, b = 0;
    for (long q = 0; q < k; ++q)
    {
        for (long i = 0; i < v[q].rows(); ++i) for (long j = 0; j < v[q].cols(); ++j) E(a + i, b + j) = v[q](i, j);
        a += v[q].rows(); b += v[q].cols();
    }
    Eigen::MatrixXd out = etools::makeBlockDiagonal(v);
    c.step("makeBlockDiagonal");
    c.nearM(out, E, "list", "makeBlockDiagonal(list)");
    c.state(s.str());
}
MC_SCENARIO(stacking, 8, 3)
{
    long k = c.range(0, c.thorough ? 6 : 5, "matrices"), cols = -1, R = 0;
    bool ok = true;
    std::vector<Eigen::MatrixXd> v;
    std::stringstream s;
    for (long q = 0; q < k; ++q)
    {
        static const long sh[][2] = {{0, 0}, {1, 2}, {2, 2}, {0, 2}, {1, 3}, {2, 0}};
        const long *x = sh[c.choose(6, "shape")];
        v.push_back(fill(x[0], x[1], q + 1));
        s << x[0] << "x" << x[1] << " ";
        if (x[0] * x[1] == 0) continue;
        if (cols < 0) cols = x[1]; else if (cols != x[1]) ok = false;
        R += x[0];
    }
    Eigen::MatrixXd out;
    int reused = c.choose(3, "reused");
    if (reused) out = reused == 1 ? fill(4, 1, 1) : fill(R, std::max(0l, cols), 1);
    bool thrown = throws([&]() { etools::concatenateMatricesVertically(out, v); });
    c.step("concatenateMatricesVertically");
    c.check(thrown == !ok, "stack-check", "matrices are stacked if and only if all nonempty ones have the same number of columns");
    c.state(s.str());
    if (!ok) return;
    if (cols < 0) { c.check(out.size() == 0, "stack-empty", "nothing to stack"); return; }
    Eigen::MatrixXd E(R, cols);
    long a = 0;
    for (long q = 0; q < k; ++q)
    {
        if (v[q].size() == 0) continue;
        for (long i = 0; i < v[q].rows(); ++i) for (long j = 0; j < cols; ++j) E(a + i, j) = v[q](i, j);
        a += v[q].rows();
    }
    c.nearM(out, E, "stack", "concatenateMatricesVertically");
}
MC_SCENARIO(side_by_side, 2, 2)
{
    int k = c.range(2, 3, "matrices");
    std::vector<Eigen::MatrixXd> v;
    long R = 0, C = 0;
    bool ok = true;
    std::stringstream s;
    for (int q = 0; q < k; ++q)
    {
        static const long sh[][2] = {{0, 0}, {1, 1}, {1, 2}, {2, 2}, {2, 1}, {2, 3}};
        const long *x = sh[c.choose(6, "shape")];
        s << x[0] << "x" << x[1] << " ";
        v.push_back(fill(x[0], x[1], q + 1));
        if (x[0] == 0) continue;
        if (R == 0) R = x[0]; else if (R != x[0]) ok = false;
        C += x[1];
    }
    int reused = c.choose(3, "reused");
    Eigen::MatrixXd out = reused == 1 ? fill(4, 1, 1) : reused == 2 ? fill(R, C, 1) : Eigen::MatrixXd();
    bool thrown = throws([&]() { if (k == 2) etools::concatenateMatricesHorizontally(out, v[0], v[1]); else etools::concatenateMatricesHorizontally(out, v[0], v[1], v[2]); });
    c.step("concatenateMatricesHorizontally");
    c.state(s.str());
    c.check(thrown == !ok, "side-check", "matrices are joined if and only if all nonempty ones have the same number of rows");
    if (!ok) return;
    Eigen::MatrixXd E(R, C);
    long a = 0;
    for (int q = 0; q < k; ++q)
    {
        if (v[q].rows() == 0) continue;
        for (long i = 0; i < R; ++i) for (long j = 0; j < v[q].cols(); ++j) E(i, a + j) = v[q](i, j);
        a += v[q].cols();
    }
    c.nearM(out, E, "side", "concatenateMatricesHorizontally");
}
// all sequences of removals
MC_SCENARIO(removal, 8, 3)
{
    long r = c.range(0, 4, "rows"), n = c.range(0, 4, "cols");
    Eigen::MatrixXd M = fill(r, n, 2), ref = M;
    int depth = c.thorough ? 4 : 3;
    for (int k = 0; k < depth; ++k)
    {
        bool row = c.flip("row");
        long size = row ? ref.rows() : ref.cols();
        long i = c.choose(size + 2, "index");
        Eigen::MatrixXd before = M;
        bool thrown = throws([&]() { if (row) etools::removeRow(M, i); else etools::removeColumn(M, i); });
        c.step(row ? "removeRow" : "removeColumn");
        c.check(thrown == (i >= size), "remove-check", "an index is accepted if and only if there is such a row/column");
        if (thrown) { c.nearM(M, before, "remove-rejected", "a rejected removal changes the matrix"); return; }
        Eigen::MatrixXd E(ref.rows() - (row ? 1 : 0), ref.cols() - (row ? 0 : 1));
        for (long a = 0; a < E.rows(); ++a) for (long b = 0; b < E.cols(); ++b) E(a, b) = ref(a + ((row && a >= i) ? 1 : 0), b + ((!row && b >= i) ? 1 : 0));
        ref = E;
        c.nearM(M, ref, "remove", "removeRow/removeColumn");
        std::stringstream s; s << ref; c.state(s.str());
    }
}
MC_SCENARIO(selection, 1, 1)
{
    long r = c.range(1, 6, "rows"), n = c.range(0, 3, "cols"), step = c.range(1, 4, "step"), first = c.choose(r, "first");
    Eigen::MatrixXd M = fill(r, n, 2);
    long k = 0;
    for (long i = first; i < r; i += step) ++k;
    Eigen::MatrixXd E(k, n);
    k = 0;
    for (long i = first; i < r; i += step, ++k) E.row(k) = M.row(i);
    c.nearM(Eigen::MatrixXd(etools::selectRows(M, step, first)), E, "select", "selectRows");
    c.nearM(Eigen::MatrixXd(etools::SelectionMatrix(step, first) * M), E, "select", "SelectionMatrix * matrix");
    c.step("selectRows");
    if (first == 0) c.nearM(Eigen::MatrixXd(etools::selectRows(M, step)), E, "select", "selectRows (default)");
    Eigen::VectorXd v = fill(r, 1, 3);
    Eigen::VectorXd ev(k);
    k = 0;
    for (long i = first; i < r; i += step, ++k) ev(k) = v(i);
    c.nearM(Eigen::MatrixXd(etools::SelectionMatrix(step, first) * v), ev, "select", "SelectionMatrix * vector");
    c.state(mc::mix(mc::mix(r, n), mc::mix(step, first)));
}
MC_SCENARIO(geometry, 4, 3)
{
    double g[] = {-2, 0, 1, 3};
    etools::Vector3 a, b;
    for (int i = 0; i < 3; ++i) a(i) = c.pick(g, "a");
    for (int i = 0; i < 3; ++i) b(i) = c.pick(g, "b");
    etools::Vector3 x;
    x << a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0);
    etools::CrossProductMatrix X(a);
    c.nearM(X.eval() * b, x, "cross", "eval()*b");
    c.nearM(etools::CrossProductMatrix::eval(a) * b, x, "cross", "eval(a)*b");
    c.nearM(X * b, x, "cross", "operator");
    etools::Vector3 o;
    X.multiplyRight(o, b);
    c.nearM(o, x, "cross", "multiplyRight");
    // b' [a]x = (b x a)' = -x'
    etools::Matrix1x3 bt = b.transpose(), ot;
    X.multiplyLeft(ot, bt);
    c.nearM(ot, -x.transpose(), "cross-left", "multiplyLeft");
    c.nearM(bt * X, -x.transpose(), "cross-left", "operator");
    Eigen::MatrixXd W(2, 3);
    W << b.transpose(), 2 * b.transpose();
    Eigen::MatrixXd WX = W * X;
    c.nearM(WX.row(1), -2 * x.transpose(), "cross-left", "several rows");
    // transform: every column is rotated, then translated
    Eigen::MatrixXd P(3, 2), E(3, 2);
    P << b, 3 * b + a;
    Eigen::Matrix3d R = fill(3, 3, 1);
    for (int q = 0; q < 2; ++q) for (int i = 0; i < 3; ++i) { E(i, q) = a(i); for (int j = 0; j < 3; ++j) E(i, q) += R(i, j) * P(j, q); }
    c.nearM(etools::transform(P, R, a), E, "transform", "transform()");
    c.step("geometry");
    std::stringstream s; s << a << b; c.state(s.str());
}
template<class M, int R, int C> static void dim(mc::Ctx &c) { c.check(int(M::RowsAtCompileTime) == R && int(M::ColsAtCompileTime) == C, "typedef", "a fixed-size type has another size than its name says"); }
#define ROW(r, q) dim<etools::Matrix##r##x##q, r, q>(c);
MC_SCENARIO(types, 1, 1)
{
    ROW(1,2) ROW(1,3) ROW(1,4) ROW(1,5) ROW(1,6) ROW(1,7) ROW(1,8) ROW(1,9) ROW(1,10)
    ROW(2,3) ROW(2,4) ROW(2,5) ROW(2,6) ROW(2,7) ROW(2,8) ROW(2,9) ROW(2,10)
    ROW(3,2) ROW(3,4) ROW(3,5) ROW(3,6) ROW(3,7) ROW(3,8) ROW(3,9) ROW(3,10)
    ROW(4,2) ROW(4,3) ROW(4,5) ROW(4,6) ROW(4,7) ROW(4,8) ROW(4,9) ROW(4,10)
    ROW(5,2) ROW(5,3) ROW(5,4) ROW(5,6) ROW(5,7) ROW(5,8) ROW(5,9) ROW(5,10)
    ROW(6,2) ROW(6,3) ROW(6,4) ROW(6,5) ROW(6,7) ROW(6,8) ROW(6,9) ROW(6,10)
    ROW(7,2) ROW(7,3) ROW(7,4) ROW(7,5) ROW(7,6) ROW(7,8) ROW(7,9) ROW(7,10)
    ROW(8,2) ROW(8,3) ROW(8,4) ROW(8,5) ROW(8,6) ROW(8,7) ROW(8,9) ROW(8,10)
    ROW(9,2) ROW(9,3) ROW(9,4) ROW(9,5) ROW(9,6) ROW(9,7) ROW(9,8) ROW(9,10)
    ROW(10,2) ROW(10,3) ROW(10,4) ROW(10,5) ROW(10,6) ROW(10,7) ROW(10,8) ROW(10,9)
    dim<etools::Vector2, 2, 1>(c); dim<etools::Vector3, 3, 1>(c); dim<etools::Vector4, 4, 1>(c); dim<etools::Vector5, 5, 1>(c); dim<etools::Vector6, 6, 1>(c);
    dim<etools::Vector7, 7, 1>(c); dim<etools::Vector8, 8, 1>(c); dim<etools::Vector9, 9, 1>(c); dim<etools::Vector10, 10, 1>(c);
    dim<etools::Matrix2, 2, 2>(c); dim<etools::Matrix3, 3, 3>(c); dim<etools::Matrix4, 4, 4>(c); dim<etools::Matrix5, 5, 5>(c); dim<etools::Matrix6, 6, 6>(c);
    dim<etools::Matrix7, 7, 7>(c); dim<etools::Matrix8, 8, 8>(c); dim<etools::Matrix9, 9, 9>(c); dim<etools::Matrix10, 10, 10>(c);
    // an unset matrix is recognisable
    Eigen::MatrixXd m = fill(c.range(0, 3, "rows"), 2, 1);
    etools::unsetMatrix(m);
    for (long i = 0; i < m.size(); ++i) c.check(m.data()[i] != m.data()[i], "unset", "unsetMatrix()");
    c.step("types"); c.state(m.rows());
}
