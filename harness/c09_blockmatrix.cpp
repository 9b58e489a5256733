// C09: block matrices are views of an ordinary dense matrix.
#include "hier.h"
using hier::val;
using etools::MatrixSparsityType;
typedef MatrixSparsityType MS;

static const int DYN = etools::MatrixBlockSizeType::DYNAMIC;

static Eigen::MatrixXd fill(long r, long cl, int salt)
{
    Eigen::MatrixXd M(r, cl);
    for (long i = 0; i < r; ++i) for (long j = 0; j < cl; ++j) M(i, j) = val(salt, i, j) + 10 * i + 0.25 * j;
    return M;
}
// zeroes what the declared sparsity says is zero
static void sparsify(Eigen::MatrixXd &M, long br, long bc, MS::Type s)
{
    for (long i = 0; i < M.rows(); ++i)
        for (long j = 0; j < M.cols(); ++j)
        {
            if (s == MS::DIAGONAL && i / br != j / bc) M(i, j) = 0;
            if (s == MS::LEFT_LOWER_TRIANGULAR && i / br < j / bc) M(i, j) = 0;
        }
}
static Eigen::MatrixXd mul(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b)
{
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(a.rows(), b.cols());
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < b.cols(); ++j) for (long k = 0; k < a.cols(); ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
static Eigen::MatrixXd sub(const Eigen::MatrixXd &M, long r, long cl, long nr, long nc)
{
    Eigen::MatrixXd R(nr, nc);
    for (long i = 0; i < nr; ++i) for (long j = 0; j < nc; ++j) R(i, j) = M(r + i, cl + j);
    return R;
}
template<class B> static Eigen::MatrixXd asM(const B &b) { return Eigen::MatrixXd(b); }
static Eigen::MatrixXd asM(double d) { return Eigen::MatrixXd::Constant(1, 1, d); }
template<class B> static void assign(B b, const Eigen::MatrixXd &m) { b = m; }
static void assign(double &b, const Eigen::MatrixXd &m) { b = m(0, 0); }

template<int R, int C> struct WriteBlock
{
    template<class BM> static void at(BM &bm, long i, long j, const Eigen::MatrixXd &m) { bm(i, j) = m; }
    template<class BM> static void diag(BM &bm, long i, const Eigen::MatrixXd &m) { bm(i) = m; }
};
template<> struct WriteBlock<1, 1>
{
    template<class BM> static void at(BM &bm, long i, long j, const Eigen::MatrixXd &m) { bm(i, j) = m(0, 0); }
    template<class BM> static void diag(BM &bm, long i, const Eigen::MatrixXd &m) { bm(i) = m(0, 0); }
};
static long st(int t, long b) { return t == DYN ? b : (long) etools::MatrixBlockSizeType::UNDEFINED; }

template<class BM> static void verify(mc::Ctx &c, const BM &bm, const Eigen::MatrixXd &ref, long br, long bc)
{
    long nv = ref.rows() / br, nh = ref.cols() / bc;
    c.check(bm.getNumberOfBlocksVertical() == nv && bm.getNumberOfBlocksHorizontal() == nh, "block-count", "wrong number of blocks");
    c.check(bm.getNumberOfRows() == ref.rows() && bm.getNumberOfColumns() == ref.cols(), "size", "wrong number of rows/columns");
    c.check(bm.getBlockRowsNum() == br && bm.getBlockColsNum() == bc, "block-size", "wrong block size");
    c.nearM(bm.getRaw(), ref, "raw", "getRaw");
    for (long i = 0; i < nv; ++i)
        for (long j = 0; j < nh; ++j)
        {
            c.nearM(asM(bm(i, j)), sub(ref, i * br, j * bc, br, bc), "block", "operator()(i,j)");
            if (i == j) c.nearM(asM(bm(i)), sub(ref, i * br, i * bc, br, bc), "block", "operator()(i)");
        }
    for (long j = 0; j < nh; ++j)
        for (long f = 0; f <= nv; ++f)
        {
            c.nearM(bm.column(j, f), sub(ref, f * br, j * bc, ref.rows() - f * br, bc), "column", "column(j,first)");
            for (long n = 0; n <= nv - f; ++n) c.nearM(bm.column(j, f, n), sub(ref, f * br, j * bc, n * br, bc), "column", "column(j,first,n)");
        }
    for (long i = 0; i < nv; ++i)
        for (long f = 0; f <= nh; ++f)
        {
            c.nearM(bm.row(i, f), sub(ref, i * br, f * bc, br, ref.cols() - f * bc), "row", "row(i,first)");
            for (long n = 0; n <= nh - f; ++n) c.nearM(bm.row(i, f, n), sub(ref, i * br, f * bc, br, n * bc), "row", "row(i,first,n)");
        }
}

// selection of one row of every block
template<class BM> static void verifySelection(mc::Ctx &c, BM &bm, const Eigen::MatrixXd &ref, long br, long bc)
{
    long nv = ref.rows() / br;
    for (long r = 0; r < br && nv > 0; ++r)
    {
        Eigen::MatrixXd e(nv, ref.cols());
        for (long i = 0; i < nv; ++i) e.row(i) = ref.row(i * br + r);
        c.nearM(bm.selectRowInBlocksAsMatrix(r), e, "select-matrix", "selectRowInBlocksAsMatrix");
        const auto m = bm.selectRowInBlocks(r);
        c.nearM(m.getRaw(), e, "select-map", "selectRowInBlocks");
        c.check(m.getNumberOfBlocksVertical() == nv && m.getNumberOfBlocksHorizontal() == ref.cols() / bc
                && m.getBlockRowsNum() == 1 && m.getBlockColsNum() == bc
                && m.getNumberOfRows() == nv && m.getNumberOfColumns() == ref.cols(), "select-blocks", "block structure of a selection");
    }
}

template<int R, int C, MS::Type S> static void history(mc::Ctx &c, long br, long bc)
{
    typedef etools::BlockMatrix<R, C, S> BM;
    Eigen::MatrixXd ref;
    BM *bm;
    long nv = 0, nh = 0;
    const bool square = (S != MS::NONE);
    switch (c.choose(2, "construct"))
    {
        case 0: bm = new BM(st(R, br), st(C, bc)); ref.resize(0, 0); break;
        default:
            nv = c.range(1, 3, "nv"); nh = square ? nv : c.range(1, 3, "nh");
            ref = fill(nv * br, nh * bc, 1);
            bm = new BM(ref, st(R, br), st(C, bc));
    }
    struct Guard { BM *p; ~Guard() { delete p; } } guard = { bm };
    verify(c, static_cast<const BM &>(*bm), ref, br, bc);
    int depth = c.thorough ? 3 : 2;
    for (int k = 0; k < depth; ++k)
    {
        switch (c.choose((R == DYN || C == DYN) ? 8 : 7, "op"))
        {
            case 0: nv = c.range(0, 3, "nv"); nh = square ? nv : c.range(0, 2, "nh"); bm->setZero(nv, nh); ref.setZero(nv * br, nh * bc); c.step("setZero"); break;
            case 1: nv = nh = c.range(1, 3, "n"); bm->setZero(nv); ref.setZero(nv * br, nh * bc); c.step("setZero square"); break;
            case 2:
            {
                bool sq = c.flip("square overload");
                nv = c.range(1, 3, "nv"); nh = (square || sq) ? nv : c.range(1, 3, "nh");
                if (sq) bm->resize(nv); else bm->resize(nv, nh);
                c.check(bm->getRaw().rows() == nv * br && bm->getRaw().cols() == nh * bc, "resize", "size after resize()");
                ref = fill(nv * br, nh * bc, 5 + k);
                for (long i = 0; i < nv; ++i) for (long j = 0; j < nh; ++j) WriteBlock<R, C>::at(*bm, i, j, sub(ref, i * br, j * bc, br, bc));
                c.step("resize and write all blocks");
                break;
            }
            case 3:
            {
                nv = c.range(1, 3, "nv"); nh = square ? nv : c.range(1, 2, "nh");
                ref = fill(nv * br, nh * bc, 3 + k);
                bm->set(ref);
                c.step("set");
                break;
            }
            case 4:
            {
                if (nv == 0 || nh == 0) throw mc::Prune();
                long i = c.choose(nv, "i"), j = c.choose(nh, "j");
                Eigen::MatrixXd m = fill(br, bc, 7 + k);
                if (i == j && c.flip("diagonal access")) WriteBlock<R, C>::diag(*bm, i, m); else WriteBlock<R, C>::at(*bm, i, j, m);
                for (long a = 0; a < br; ++a) for (long b = 0; b < bc; ++b) ref(i * br + a, j * bc + b) = m(a, b);
                c.step("write block");
                break;
            }
            case 5:
            {
                if (nv == 0 || nh == 0) throw mc::Prune();
                long j = c.choose(nh, "col"), f = c.choose(nv, "first"), n = c.choose(nv - f + 1, "n");
                bool tail = (n == nv - f) && c.flip("default length");
                Eigen::MatrixXd m = fill(n * br, bc, 11 + k);
                if (tail) bm->column(j, f) = m; else bm->column(j, f, n) = m;
                for (long a = 0; a < m.rows(); ++a) for (long b = 0; b < bc; ++b) ref(f * br + a, j * bc + b) = m(a, b);
                c.step("write column");
                break;
            }
            case 6:
            {
                if (nv == 0 || nh == 0) throw mc::Prune();
                long i = c.choose(nv, "row"), f = c.choose(nh, "first"), n = c.choose(nh - f + 1, "n");
                bool tail = (n == nh - f) && c.flip("default length");
                Eigen::MatrixXd m = fill(br, n * bc, 13 + k);
                if (tail) bm->row(i, f) = m; else bm->row(i, f, n) = m;
                for (long a = 0; a < br; ++a) for (long b = 0; b < m.cols(); ++b) ref(i * br + a, f * bc + b) = m(a, b);
                c.step("write row");
                break;
            }
            default:
            {
                long r = (R == DYN) ? c.range(0, 3, "new block rows") : br, q = (C == DYN) ? c.range(0, 3, "new block cols") : bc;
                bool ok = r > 0 && q > 0 && ref.rows() % std::max(r, 1l) == 0 && ref.cols() % std::max(q, 1l) == 0;
                if (ok && square && ref.rows() / r != ref.cols() / q) throw mc::Prune();
                bool thrown = false;
                try { bm->setBlockSize(st(R, r), st(C, q)); } catch (const std::exception &) { thrown = true; }
                c.step("setBlockSize");
                c.check(thrown == !ok, "block-size-check", "a block size must divide the size of the matrix");
                if (thrown) return;
                br = r; bc = q; nv = ref.rows() / br; nh = ref.cols() / bc;
            }
        }
        verify(c, static_cast<const BM &>(*bm), ref, br, bc);
        verifySelection(c, *bm, ref, br, bc);
        std::stringstream s; s << R << C << S << br << bc << "|" << ref;
        c.state(s.str());
    }
}

template<int R, int C> static void bySparsity(mc::Ctx &c, long br, long bc)
{
    switch (c.choose(3, "sparsity"))
    {
        case 0: history<R, C, MS::NONE>(c, br, bc); break;
        case 1: history<R, C, MS::DIAGONAL>(c, br, bc); break;
        default: history<R, C, MS::LEFT_LOWER_TRIANGULAR>(c, br, bc); break;
    }
}

MC_SCENARIO(static_blocks, 32, 3)
{
    switch (c.choose(6, "block"))
    {
        case 0: bySparsity<1, 1>(c, 1, 1); break;
        case 1: bySparsity<1, 2>(c, 1, 2); break;
        case 2: bySparsity<2, 1>(c, 2, 1); break;
        case 3: bySparsity<2, 2>(c, 2, 2); break;
        case 4: bySparsity<3, 2>(c, 3, 2); break;
        default: bySparsity<2, 3>(c, 2, 3); break;
    }
}
MC_SCENARIO(dynamic_blocks, 64, 4)
{
    long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc");
    switch (c.choose(3, "which"))
    {
        case 0: bySparsity<DYN, DYN>(c, br, bc); break;
        case 1: if (br == 1) bySparsity<1, DYN>(c, br, bc); else if (br == 2) bySparsity<2, DYN>(c, br, bc); else bySparsity<3, DYN>(c, br, bc); break;
        default: if (bc == 1) bySparsity<DYN, 1>(c, br, bc); else if (bc == 2) bySparsity<DYN, 2>(c, br, bc); else bySparsity<DYN, 3>(c, br, bc); break;
    }
}

// products: structure declared by the type, values sparse accordingly; all right/left hand sides of a basis are covered by linearity,
// a dense integer matrix exercises all entries
// (the operator cannot be compiled for vectors and lower triangular matrices with 1x1 blocks)
template<class B1> static void timesVector(mc::Ctx &c, const B1 &bm, const Eigen::VectorXd &v, const Eigen::MatrixXd &e) { c.nearM(bm * v, e, "operator", "block matrix * vector"); }
static void timesVector(mc::Ctx &, const etools::BlockMatrix<1, 1, MS::LEFT_LOWER_TRIANGULAR> &, const Eigen::VectorXd &, const Eigen::MatrixXd &) {}
static void timesVector(mc::Ctx &, const etools::BlockMatrixInterface<1, 1, MS::LEFT_LOWER_TRIANGULAR> &, const Eigen::VectorXd &, const Eigen::MatrixXd &) {}
static void timesVector(mc::Ctx &, const etools::ConstBlockMatrixInterface<1, 1, MS::LEFT_LOWER_TRIANGULAR> &, const Eigen::VectorXd &, const Eigen::MatrixXd &) {}
template<class B1> static void product(mc::Ctx &c, const B1 &bm, const Eigen::MatrixXd &ref, bool diagonal)
{
    (void) diagonal;
    long k = c.range(0, 3, "columns of the right hand side");
    Eigen::MatrixXd X = fill(ref.cols(), k, 21), out;
    int reused = c.choose(3, "reused result");
    if (reused) out = reused == 1 ? fill(2, 2, 3) : fill(ref.rows(), k, 3);
    bm.multiplyRight(out, X);
    c.step("multiplyRight");
    c.nearM(out, mul(ref, X), "multiply-right", "multiplyRight(matrix)");
    c.nearM(bm * X, mul(ref, X), "operator", "block matrix * matrix");
    Eigen::VectorXd v = fill(ref.cols(), 1, 9);
    Eigen::VectorXd w;
    if (reused) w = reused == 1 ? fill(2, 1, 3) : fill(ref.rows(), 1, 3);
    bm.multiplyRight(w, v);
    c.nearM(w, mul(ref, v), "multiply-vector", "multiplyRight(vector)");
    timesVector(c, bm, v, mul(ref, v));
    bool thrown = false;
    try { Eigen::MatrixXd o; bm.multiplyRight(o, fill(ref.cols() + 1, 2, 1)); } catch (const std::exception &) { thrown = true; }
    c.check(thrown, "size-mismatch", "a right hand side with a wrong number of rows is accepted");
}
template<int R, int C, MS::Type S> static void products(mc::Ctx &c, long br, long bc)
{
    long nv = c.range(1, 3, "nv"), nh = (S == MS::NONE) ? c.range(1, 3, "nh") : nv;
    Eigen::MatrixXd ref = fill(nv * br, nh * bc, 2);
    sparsify(ref, br, bc, S);
    switch (c.choose(3, "kind of object"))
    {
        case 0: { etools::BlockMatrix<R, C, S> bm(ref, st(R, br), st(C, bc)); product(c, bm, ref, S == MS::DIAGONAL); break; }
        case 1: { etools::ConstBlockMatrixInterface<R, C, S> bm(ref, st(R, br), st(C, bc)); verify(c, bm, ref, br, bc); product(c, bm, ref, S == MS::DIAGONAL); break; }
        default:
        {
            Eigen::MatrixXd raw = ref;
            etools::BlockMatrixInterface<R, C, S> bm(raw, st(R, br), st(C, bc));
            Eigen::MatrixXd m = fill(br, bc, 31);
            long i = c.choose(nv, "i"), j = (S == MS::NONE) ? (long) c.choose(nh, "j") : i;
            WriteBlock<R, C>::at(bm, i, j, m);
            for (long a = 0; a < br; ++a) for (long b = 0; b < bc; ++b) ref(i * br + a, j * bc + b) = m(a, b);
            c.nearM(raw, ref, "interface", "the matrix behind an interface");
            verify(c, static_cast<const etools::BlockMatrixInterface<R, C, S> &>(bm), ref, br, bc);
            product(c, bm, ref, S == MS::DIAGONAL);
        }
    }
    std::stringstream s; s << R << C << S << ref; c.state(s.str());
}
template<int R, int C> static void productsS(mc::Ctx &c, long br, long bc)
{
    switch (c.choose(3, "sparsity"))
    {
        case 0: products<R, C, MS::NONE>(c, br, bc); break;
        case 1: products<R, C, MS::DIAGONAL>(c, br, bc); break;
        default: products<R, C, MS::LEFT_LOWER_TRIANGULAR>(c, br, bc); break;
    }
}
MC_SCENARIO(products, 16, 3)
{
    long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc");
    if (c.flip("dynamic")) { productsS<DYN, DYN>(c, br, bc); return; }
    switch (br * 10 + bc)
    {
        case 11: { // the lower triangular 1x1 matrix is handled by a specialised class
            if (c.flip("dense")) products<1, 1, MS::NONE>(c, 1, 1); else products<1, 1, MS::LEFT_LOWER_TRIANGULAR>(c, 1, 1); break; }
        case 12: productsS<1, 2>(c, br, bc); break;
        case 13: productsS<1, 3>(c, br, bc); break;
        case 21: productsS<2, 1>(c, br, bc); break;
        case 22: productsS<2, 2>(c, br, bc); break;
        case 23: productsS<2, 3>(c, br, bc); break;
        case 31: productsS<3, 1>(c, br, bc); break;
        case 32: productsS<3, 2>(c, br, bc); break;
        default: productsS<3, 3>(c, br, bc); break;
    }
}

// block matrix * block matrix, matrix * diagonal
template<int R, int K, int C> static void pairs(mc::Ctx &c, long br, long bk, long bc)
{
    long n = c.range(1, 3, "blocks"), nl = c.range(1, 3, "outer blocks");
    typedef etools::BlockMatrix<K, C, MS::DIAGONAL> D;
    Eigen::MatrixXd d = fill(n * bk, n * bc, 4);
    sparsify(d, bk, bc, MS::DIAGONAL);
    D right(d, st(K, bk), st(C, bc));
    {
        Eigen::MatrixXd l = fill(c.range(0, 3, "rows"), n * bk, 6), out;
        right.multiplyLeft(out, l);
        c.step("multiplyLeft");
        c.nearM(out, mul(l, d), "multiply-left", "matrix * diagonal block matrix");
        bool thrown = false;
        try { right.multiplyLeft(out, fill(2, n * bk + 1, 1)); } catch (const std::exception &) { thrown = true; }
        c.check(thrown, "size-mismatch", "a left hand side with a wrong number of columns is accepted");
    }
    {
        Eigen::MatrixXd l = fill(nl * br, n * bk, 8);
        etools::BlockMatrix<R, K, MS::NONE> left(l, st(R, br), st(K, bk));
        c.nearM(left * right, mul(l, d), "block-product", "dense block matrix * diagonal block matrix");
    }
    {
        Eigen::MatrixXd l = fill(n * br, n * bk, 12);
        sparsify(l, br, bk, MS::LEFT_LOWER_TRIANGULAR);
        etools::BlockMatrix<R, K, MS::LEFT_LOWER_TRIANGULAR> left(l, st(R, br), st(K, bk));
        c.nearM(left * right, mul(l, d), "block-product", "triangular block matrix * diagonal block matrix");
    }
    {
        Eigen::MatrixXd l = fill(n * br, n * bk, 14);
        sparsify(l, br, bk, MS::DIAGONAL);
        etools::BlockMatrix<R, K, MS::DIAGONAL> left(l, st(R, br), st(K, bk));
        c.nearM(left * right, mul(l, d), "block-product", "diagonal * diagonal");
        Eigen::MatrixXd r = fill(n * bk, nl * bc, 15);
        etools::BlockMatrix<K, C, MS::NONE> dense(r, st(K, bk), st(C, bc));
        c.nearM(left * dense, mul(l, r), "block-product", "diagonal * dense");
        Eigen::MatrixXd t = fill(n * bk, n * bc, 16);
        sparsify(t, bk, bc, MS::LEFT_LOWER_TRIANGULAR);
        etools::BlockMatrix<K, C, MS::LEFT_LOWER_TRIANGULAR> tri(t, st(K, bk), st(C, bc));
        c.nearM(left * tri, mul(l, t), "block-product", "diagonal * triangular");
    }
    std::stringstream s; s << R << K << C << " " << br << bk << bc << n << nl; c.state(s.str());
}
MC_SCENARIO(block_products, 8, 3)
{
    long br = c.range(1, 3, "br"), bk = c.range(1, 3, "bk"), bc = c.range(1, 3, "bc");
    if (c.flip("dynamic")) { pairs<DYN, DYN, DYN>(c, br, bk, bc); return; }
    switch (br * 100 + bk * 10 + bc)
    {
        case 222: pairs<2, 2, 2>(c, br, bk, bc); break;
        case 123: pairs<1, 2, 3>(c, br, bk, bc); break;
        case 321: pairs<3, 2, 1>(c, br, bk, bc); break;
        case 213: pairs<2, 1, 3>(c, br, bk, bc); break;
        case 132: pairs<1, 3, 2>(c, br, bk, bc); break;
        case 332: pairs<3, 3, 2>(c, br, bk, bc); break;
        default: throw mc::Prune();
    }
}

// construction with impossible sizes
template<int R, int C> static void badSizes(mc::Ctx &c, long br, long bc)
{
    long r = c.range(0, 6, "rows"), q = c.range(0, 6, "cols");
    Eigen::MatrixXd m = fill(r, q, 1);
    bool ok = (r % br == 0) && (q % bc == 0), thrown = false;
    try { etools::BlockMatrix<R, C, MS::NONE> bm(m, st(R, br), st(C, bc)); } catch (const std::exception &) { thrown = true; }
    c.step("construct");
    c.check(thrown == !ok, "construction-check", "the matrix must consist of whole blocks");
    etools::BlockMatrix<R, C, MS::NONE> bm(st(R, br), st(C, bc));
    thrown = false;
    try { bm.set(m); } catch (const std::exception &) { thrown = true; }
    c.check(thrown == !ok, "set-check", "the matrix must consist of whole blocks");
    c.state(mc::mix(mc::mix(r, q), br * 10 + bc));
}
MC_SCENARIO(bad_sizes, 1, 1)
{
    switch (c.choose(5, "type"))
    {
        case 0: badSizes<2, 3>(c, 2, 3); break;
        case 1: badSizes<3, 1>(c, 3, 1); break;
        case 2: { long br = c.range(1, 3, "br"); badSizes<DYN, 2>(c, br, 2); break; }
        case 3: { long bc = c.range(1, 3, "bc"); badSizes<2, DYN>(c, 2, bc); break; }
        default: { long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc"); badSizes<DYN, DYN>(c, br, bc); break; }
    }
}
