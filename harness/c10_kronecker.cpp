// C10: (lazy) block Kronecker products with an identity are the products they stand for.
#include "hier.h"
using hier::val;
using etools::MatrixSparsityType;
typedef MatrixSparsityType MS;
static const int DYN = etools::MatrixBlockSizeType::DYNAMIC;
static long st(int t, long b) { return t == DYN ? b : (long) etools::MatrixBlockSizeType::UNDEFINED; }

static Eigen::MatrixXd fill(long r, long cl, int salt)
{
    Eigen::MatrixXd M(r, cl);
    for (long i = 0; i < r; ++i) for (long j = 0; j < cl; ++j) M(i, j) = val(salt, i, j) + 10 * i + 0.25 * j;
    return M;
}
static void sparsify(Eigen::MatrixXd &M, long br, long bc, MS::Type s)
{
    for (long i = 0; i < M.rows(); ++i)
        for (long j = 0; j < M.cols(); ++j)
        {
            if (s == MS::DIAGONAL && i / br != j / bc) M(i, j) = 0;
            if (s == MS::LEFT_LOWER_TRIANGULAR && i / br < j / bc) M(i, j) = 0;
        }
}
static Eigen::MatrixXd mul(const Eigen::MatrixXd &a, const Eigen::MatrixXd &b)
{
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(a.rows(), b.cols());
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < b.cols(); ++j) for (long k = 0; k < a.cols(); ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
// every block M_ij is replaced by diag(M_ij, ..., M_ij)
static Eigen::MatrixXd kron(const Eigen::MatrixXd &M, long br, long bc, long k)
{
    Eigen::MatrixXd R = Eigen::MatrixXd::Zero(M.rows() * k, M.cols() * k);
    for (long i = 0; i < M.rows(); ++i)
        for (long j = 0; j < M.cols(); ++j)
            for (long q = 0; q < k; ++q)
                R((i / br) * br * k + q * br + i % br, (j / bc) * bc * k + q * bc + j % bc) = M(i, j);
    return R;
}

// what every product offers
template<class K> static void common(mc::Ctx &c, const K &k, const Eigen::MatrixXd &ref)
{
    c.nearM(k.evaluate(), ref, "evaluate", "evaluate()");
    Eigen::MatrixXd out = fill(1, 2, 1);
    k.evaluate(out);
    c.step("evaluate");
    c.nearM(out, ref, "evaluate-matrix", "evaluate(matrix)");
    out = fill(ref.rows(), ref.cols(), 4);
    k.evaluate(out);
    c.nearM(out, ref, "evaluate-matrix", "evaluate(matrix of the right size)");
    Eigen::MatrixXd big = fill(ref.rows() + 3, ref.cols() + 2, 5), e = big;
    k.evaluate(big.block(1, 2, ref.rows(), ref.cols()));
    for (long i = 0; i < ref.rows(); ++i) for (long j = 0; j < ref.cols(); ++j) e(1 + i, 2 + j) = ref(i, j);
    c.nearM(big, e, "evaluate-block", "evaluate(block): the block must be overwritten and nothing else");
}
template<class K> static void vec(mc::Ctx &c, const K &k, const Eigen::MatrixXd &ref)
{
    Eigen::VectorXd v = fill(ref.cols(), 1, 7), out;
    int reused = c.choose(3, "reused");
    if (reused) out = reused == 1 ? v : Eigen::VectorXd(fill(ref.rows(), 1, 8));
    k.multiplyRight(out, v);
    c.nearM(out, mul(ref, v), "vector", "product * vector");
    c.nearM(k * v, mul(ref, v), "vector-operator", "product * vector (operator)");
}
template<class K, class D> static void diag(mc::Ctx &c, const K &k, const Eigen::MatrixXd &ref, const D &dbm, const Eigen::MatrixXd &d)
{
    Eigen::MatrixXd out;
    int reused = c.choose(3, "reused");
    if (reused) out = reused == 1 ? fill(2, 3, 1) : fill(ref.rows(), d.cols(), 1);
    k.multiplyRight(out, dbm);
    c.step("multiplyRight");
    c.nearM(out, mul(ref, d), "diagonal", "product * diagonal block matrix");
    c.nearM(k * dbm, mul(ref, d), "diagonal-operator", "product * diagonal block matrix (operator)");
}
template<class K, class D> static bool rejects(const K &k, const D &dbm)
{
    Eigen::MatrixXd out;
    try { k.multiplyRight(out, dbm); } catch (const std::exception &) { return true; }
    return false;
}

template<int R, int C, MS::Type S, int DR, int DC> static void run(mc::Ctx &c, long br, long bc, long k, long dc)
{
    long nv = c.range(1, 3, "nv"), nh = (S == MS::NONE) ? c.range(1, 3, "nh") : nv;
    Eigen::MatrixXd M = fill(nv * br, nh * bc, 3);
    sparsify(M, br, bc, S);
    Eigen::MatrixXd ref = kron(M, br, bc, k);
    c.nearM(etools::multiplyBlockKroneckerIdentity(M, br, bc, k), ref, "explicit", "multiplyBlockKroneckerIdentity");
    long dr = bc * k;
    Eigen::MatrixXd d = fill(nh * dr, nh * dc, 9);
    sparsify(d, dr, dc, MS::DIAGONAL);
    etools::BlockMatrix<DR, DC, MS::DIAGONAL> dbm(d, st(DR, dr), st(DC, dc));
    etools::BlockMatrix<R, C, S> bm(M, st(R, br), st(C, bc));
    switch (c.choose(2, "how"))
    {
        case 0: common(c, bm.getBlockKroneckerProduct(k), ref); diag(c, bm.getBlockKroneckerProduct(k), ref, dbm, d); break;
        default:
        {
            etools::BlockKroneckerProductBase<const Eigen::MatrixXd &, R, C, S> p(M, k, st(R, br), st(C, bc));
            common(c, p, ref);
            diag(c, p, ref, dbm, d);
        }
    }
    // mismatching numbers of blocks
    Eigen::MatrixXd d2 = fill((nh + 1) * dr, (nh + 1) * dc, 9);
    etools::BlockMatrix<DR, DC, MS::DIAGONAL> dbm2(d2, st(DR, dr), st(DC, dc));
    c.check(rejects(bm.getBlockKroneckerProduct(k), dbm2), "mismatch", "a diagonal matrix with another number of blocks is accepted");
    bool thrown = false;
    try { bm.getBlockKroneckerProduct(1); } catch (const std::exception &) { thrown = true; }
    c.check(thrown, "identity-size", "identity of size 1 must be rejected");
    std::stringstream s; s << R << C << S << DR << DC << " " << br << bc << k << dc << nv << nh; c.state(s.str());
}
template<int R, int C, MS::Type S> static void runV(mc::Ctx &c, long br, long bc, long k)
{
    long nv = c.range(1, 3, "nv"), nh = (S == MS::NONE) ? c.range(1, 3, "nh") : nv;
    Eigen::MatrixXd M = fill(nv * br, nh * bc, 3);
    sparsify(M, br, bc, S);
    etools::BlockMatrix<R, C, S> bm(M, st(R, br), st(C, bc));
    vec(c, bm.getBlockKroneckerProduct(k), kron(M, br, bc, k));
    std::stringstream s; s << "v" << R << C << S << " " << br << bc << k << nv << nh; c.state(s.str());
}

MC_SCENARIO(dynamic, 16, 4)
{
    long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc"), k = c.range(2, 3, "identity"), dc = c.range(1, 3, "columns of a diagonal block");
    switch (c.choose(3, "sparsity"))
    {
        case 0: run<DYN, DYN, MS::NONE, DYN, DYN>(c, br, bc, k, dc); break;
        case 1: run<DYN, DYN, MS::LEFT_LOWER_TRIANGULAR, DYN, DYN>(c, br, bc, k, dc); break;
        default: run<DYN, DYN, MS::DIAGONAL, DYN, DYN>(c, br, bc, k, dc); break;
    }
}
template<int R, int C, int K, int DC> static void allS(mc::Ctx &c)
{
    switch (c.choose(3, "sparsity"))
    {
        case 0: run<R, C, MS::NONE, C * K, DC>(c, R, C, K, DC); break;
        case 1: run<R, C, MS::LEFT_LOWER_TRIANGULAR, C * K, DC>(c, R, C, K, DC); break;
        default: run<R, C, MS::DIAGONAL, C * K, DC>(c, R, C, K, DC); break;
    }
}
// 1x1 blocks: the other matrix has static blocks
template<int K, int DC> static void ones(mc::Ctx &c)
{
    if (c.flip("triangular")) run<1, 1, MS::LEFT_LOWER_TRIANGULAR, K, DC>(c, 1, 1, K, DC); else run<1, 1, MS::NONE, K, DC>(c, 1, 1, K, DC);
}
MC_SCENARIO(statics, 16, 3)
{
    switch (c.choose(13, "sizes"))
    {
        case 0: allS<2, 2, 2, 2>(c); break;
        case 1: allS<1, 2, 2, 3>(c); break;
        case 2: allS<2, 1, 3, 2>(c); break;
        case 3: allS<3, 2, 2, 1>(c); break;
        case 4: allS<1, 3, 2, 2>(c); break;
        case 5: allS<3, 1, 2, 2>(c); break;
        case 6: allS<3, 3, 3, 3>(c); break;
        case 7: ones<2, 2>(c); break;
        case 8: ones<3, 2>(c); break;
        case 9: ones<2, 3>(c); break;
        case 10: ones<3, 3>(c); break;
        case 11: ones<2, 1>(c); break;
        default: { long k = c.range(2, 3, "identity"), dc = c.range(1, 3, "dc"); if (c.flip("triangular")) run<1, 1, MS::LEFT_LOWER_TRIANGULAR, DYN, DYN>(c, 1, 1, k, dc); else run<1, 1, MS::NONE, DYN, DYN>(c, 1, 1, k, dc); }
    }
}
MC_SCENARIO(vectors, 4, 3)
{
    long k = c.range(2, 4, "identity");
    switch (c.choose(6, "kind"))
    {
        case 0: { long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc"); if (c.flip("diag")) runV<DYN, DYN, MS::DIAGONAL>(c, br, bc, k); else runV<DYN, DYN, MS::NONE>(c, br, bc, k); break; }
        case 1: runV<2, 3, MS::NONE>(c, 2, 3, k); break;
        case 2: runV<3, 2, MS::NONE>(c, 3, 2, k); break;
        case 3: runV<1, 2, MS::NONE>(c, 1, 2, k); break;
        case 4: runV<1, 1, MS::NONE>(c, 1, 1, k); break;
        default: runV<2, 1, MS::NONE>(c, 2, 1, k); break;
    }
}
// diagonal * (triangular with 1x1 blocks, times identity)
template<int K> static void left(mc::Ctx &c)
{
    long n = c.range(1, 4, "n");
    Eigen::MatrixXd M = fill(n, n, 3);
    sparsify(M, 1, 1, MS::LEFT_LOWER_TRIANGULAR);
    Eigen::MatrixXd d = fill(n * K, n * K, 4);
    sparsify(d, K, K, MS::DIAGONAL);
    etools::BlockMatrix<1, 1, MS::LEFT_LOWER_TRIANGULAR> bm(M);
    etools::BlockMatrix<K, K, MS::DIAGONAL> dbm(d);
    Eigen::MatrixXd out, ref = mul(d, kron(M, 1, 1, K));
    int reused = c.choose(3, "reused");
    if (reused) out = reused == 1 ? fill(2, 2, 1) : fill(ref.rows(), ref.cols(), 1);
    bm.getBlockKroneckerProduct(K).multiplyLeft(out, dbm);
    c.step("multiplyLeft");
    c.nearM(out, ref, "left", "diagonal block matrix * product");
    c.nearM(dbm * bm.getBlockKroneckerProduct(K), ref, "left-operator", "diagonal block matrix * product (operator)");
    c.state(mc::mix(K, n));
}
MC_SCENARIO(left_products, 1, 1)
{
    if (c.flip("k")) left<2>(c); else left<3>(c);
}
// rows selected from a block matrix, then expanded (as in the walking pattern generator)
// (blocks of a selection which are wider than 1x1 cannot be accessed: see DESIGN.md)
template<MS::Type S, class M> static void evalSel(mc::Ctx &, const M &, const Eigen::MatrixXd &, long, long, std::false_type) {}
template<MS::Type S, class M> static void evalSel(mc::Ctx &c, const M &m, const Eigen::MatrixXd &e, long bc, long k, std::true_type)
{
    Eigen::MatrixXd ref = kron(e, 1, bc, k), out = fill(1, 2, 1);
    m.getBlockKroneckerProduct(k).evaluate(out);
    c.step("evaluate");
    c.nearM(out, ref, "evaluate-matrix", "evaluate(matrix)");
    out = fill(ref.rows(), ref.cols(), 4);
    m.getBlockKroneckerProduct(k).evaluate(out);
    c.nearM(out, ref, "evaluate-matrix", "evaluate(matrix of the right size)");
    Eigen::MatrixXd big = fill(ref.rows() + 3, ref.cols() + 2, 5), g = big;
    m.getBlockKroneckerProduct(k).evaluate(big.block(1, 2, ref.rows(), ref.cols()));
    for (long i = 0; i < ref.rows(); ++i) for (long j = 0; j < ref.cols(); ++j) g(1 + i, 2 + j) = ref(i, j);
    c.nearM(big, g, "evaluate-block", "evaluate(block)");
}
template<class M> static void vecSel(mc::Ctx &, const M &, const Eigen::MatrixXd &, long, long, std::false_type) {}
template<class M> static void vecSel(mc::Ctx &c, const M &m, const Eigen::MatrixXd &e, long bc, long k, std::true_type)
{
    vec(c, m.getBlockKroneckerProduct(k), kron(e, 1, bc, k));
}
template<int R, int C, MS::Type S> static void sel(mc::Ctx &c, long br, long bc)
{
    long nv = c.range(1, 3, "nv"), nh = (S == MS::NONE) ? c.range(1, 3, "nh") : nv, k = c.range(2, 3, "identity");
    Eigen::MatrixXd M = fill(nv * br, nh * bc, 3);
    sparsify(M, br, bc, S);
    etools::BlockMatrix<R, C, S> bm(M, st(R, br), st(C, bc));
    long r = c.choose(br, "row");
    Eigen::MatrixXd e(nv, M.cols());
    for (long i = 0; i < nv; ++i) e.row(i) = M.row(i * br + r);
    const auto m = bm.selectRowInBlocks(r);
    evalSel<S>(c, m, e, bc, k, std::integral_constant<bool, C == 1>());
    if (c.flip("vector")) vecSel(c, m, e, bc, k, std::integral_constant<bool, S == MS::NONE>());
    std::stringstream s; s << "s" << R << C << S << " " << br << bc << k << nv << nh << r; c.state(s.str());
}
template<int R, int C> static void selS(mc::Ctx &c, long br, long bc)
{
    if (c.flip("triangular")) sel<R, C, MS::LEFT_LOWER_TRIANGULAR>(c, br, bc); else sel<R, C, MS::NONE>(c, br, bc);
}
MC_SCENARIO(selected, 4, 3)
{
    switch (c.choose(6, "sizes"))
    {
        case 0: selS<2, 2>(c, 2, 2); break;
        case 1: selS<3, 1>(c, 3, 1); break;
        case 2: selS<3, 3>(c, 3, 3); break;
        case 3: selS<2, 3>(c, 2, 3); break;
        case 4: selS<DYN, 2>(c, c.range(1, 3, "br"), 2); break;
        default: { long br = c.range(1, 3, "br"), bc = c.range(1, 3, "bc"); selS<DYN, DYN>(c, br, bc); }
    }
}
