// C08: condensed prediction matrices are equivalent to step-by-step simulation.
#include "hier.h"
using hier::val;

struct Mpc : public humoto::MPC
{
    ~Mpc() {}
    void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    template<class S, class U, class TA, class TB> static void cond(S &s, U &u, const TA &a, const TB &b) { condense(s, u, a, b); }
    template<class S, class U, class TA, class TB> static void condInv(S &s, U &u, std::size_t n, const TA &a, const TB &b) { condenseTimeInvariant(s, u, n, a, b); }
    template<class S, class U, class D, class E, class X, class Y> static void out(S &s, U &u, const D &d, const E &e, const X &x, const Y &y) { condenseOutput(s, u, d, e, x, y); }
};

static Eigen::MatrixXd pat(int kind, long r, long cl, int salt)
{
    Eigen::MatrixXd M(r, cl);
    for (long i = 0; i < r; ++i)
        for (long j = 0; j < cl; ++j)
        {
            double v = 0;
            if (kind == 0) v = val(salt, i, j);
            if (kind == 1) v = (j >= i) ? 1.0 / (1 + j - i) : 0.0;      // integrator-like
            if (kind == 2) v = (i == j) ? 0.5 : ((j == 0) ? -1.0 : 0.0);
            M(i, j) = v;
        }
    return M;
}

struct Sys
{
    std::vector<Eigen::MatrixXd> A, B, D, E;
    long ns, nu, ny;
    long N() const { return A.size(); }
    // states x_1..x_N and outputs y_0..y_{N-1} for x_0, u
    void simulate(const Eigen::VectorXd &x0, const Eigen::VectorXd &u, Eigen::VectorXd &X, Eigen::VectorXd &Y) const
    {
        X.resize(N() * ns);
        Y.resize(N() * ny);
        Eigen::VectorXd x = x0;
        for (long k = 0; k < N(); ++k)
        {
            Eigen::VectorXd uk = u.segment(k * nu, nu);
            Y.segment(k * ny, ny) = D[k] * x + E[k] * uk;
            Eigen::VectorXd xn = A[k] * x + B[k] * uk;
            x = xn;
            X.segment(k * ns, ns) = x;
        }
    }
};

static Sys chooseSys(mc::Ctx &c, long N, long ns, long nu, long ny, bool invariant)
{
    Sys s;
    s.ns = ns; s.nu = nu; s.ny = ny;
    for (long k = 0; k < N; ++k)
    {
        int kind = (invariant && k > 0) ? 0 : c.choose(3, "step dynamics");
        if (invariant && k > 0) { s.A.push_back(s.A[0]); s.B.push_back(s.B[0]); s.D.push_back(s.D[0]); s.E.push_back(s.E[0]); continue; }
        s.A.push_back(pat(kind, ns, ns, k + 1));
        s.B.push_back(pat((kind + 1) % 3, ns, nu, k + 2));
        s.D.push_back(pat((kind + 2) % 3, ny, ns, k + 3));
        s.E.push_back(pat(0, ny, nu, k + kind));
    }
    return s;
}

// linear maps are compared on all basis vectors, i.e., on every input
static void compare(mc::Ctx &c, const Sys &s, const Eigen::MatrixXd &S, const Eigen::MatrixXd &U, bool output, const char *key)
{
    long N = s.N(), no = output ? s.ny : s.ns;
    c.check(S.rows() == N * no && S.cols() == s.ns, key, "size of the matrix multiplied by the initial state");
    c.check(U.rows() == N * no && U.cols() == N * s.nu, key, "size of the matrix multiplied by the controls");
    for (long k = 0; k < s.ns + N * s.nu; ++k)
    {
        Eigen::VectorXd x0 = Eigen::VectorXd::Zero(s.ns), u = Eigen::VectorXd::Zero(N * s.nu), X, Y;
        if (k < s.ns) x0(k) = 1; else u(k - s.ns) = 1;
        s.simulate(x0, u, X, Y);
        c.nearM(Eigen::VectorXd(k < s.ns ? S.col(k) : U.col(k - s.ns)), output ? Y : X, key, output ? "predicted outputs" : "predicted states");
    }
    std::stringstream st; st << key << S << U;
    c.state(st.str());
}

template<int ns, int nu, int ny>
struct Objects
{
    Eigen::MatrixXd S, U, OS, OU;
    etools::GenericBlockMatrix<ns, ns> bS, bSd;
    etools::LeftLowerTriangularBlockMatrix<ns, nu> bU;
    etools::GenericBlockMatrix<ns, nu> bUg;
    etools::GenericBlockMatrix<ny, ns> bOS;
    etools::LeftLowerTriangularBlockMatrix<ny, nu> bOU;

    void run(mc::Ctx &c, const Sys &s)
    {
        long N = s.N();
        typedef Eigen::Matrix<double, ns, ns> MA;
        typedef Eigen::Matrix<double, ns, nu> MB;
        typedef Eigen::Matrix<double, ny, ns> MD;
        typedef Eigen::Matrix<double, ny, nu> ME;
        std::vector<MA> A(s.A.begin(), s.A.end());
        std::vector<MB> B(s.B.begin(), s.B.end());
        std::vector<MD> D(s.D.begin(), s.D.end());
        std::vector<ME> E(s.E.begin(), s.E.end());
        c.step("condense (dense)");
        Mpc::cond(S, U, s.A, s.B);
        compare(c, s, S, U, false, "dense");
        c.step("condense (blocks, triangular)");
        Mpc::cond(bS, bU, A, B);
        compare(c, s, bS.getRaw(), bU.getRaw(), false, "blocks");
        c.step("condense (blocks, generic)");
        Mpc::cond(bSd, bUg, A, B);
        compare(c, s, bSd.getRaw(), bUg.getRaw(), false, "blocks-generic");
        c.step("condenseOutput (blocks)");
        Mpc::out(bOS, bOU, D, E, bS, bU);
        compare(c, s, bOS.getRaw(), bOU.getRaw(), true, "output-blocks");
        (void) N;
    }
};

template<int ns, int nu, int ny> static void variant(mc::Ctx &c)
{
    Objects<ns, nu, ny> o;
    int maxN = c.thorough ? 5 : 4;
    // re-use of the same objects with another length
    long N1 = c.range(1, maxN, "horizon");
    o.run(c, chooseSys(c, N1, ns, nu, ny, false));
    long N2 = c.range(1, 3, "horizon 2");
    o.run(c, chooseSys(c, N2, ns, nu, ny, true));
}
MC_SCENARIO(cond_states, 16, 3)
{
    switch (c.choose(4, "sizes"))   // blocks of size 1x1 are not supported by these functions
    {
        case 0: variant<2, 1, 2>(c); break;
        case 1: variant<3, 2, 1>(c); break;
        case 2: variant<3, 1, 2>(c); break;
        case 3: variant<2, 3, 3>(c); break;
    }
}

// time invariant systems, dense output
MC_SCENARIO(cond_invariant, 8, 3)
{
    Eigen::MatrixXd S, U, OS, OU, S2, U2;
    for (int d = 0; d < 2; ++d)
    {
        long ns = c.range(1, 3, "states"), nu = c.range(1, 2, "controls"), ny = c.range(1, 2, "outputs");
        long N = c.range(1, c.thorough ? 5 : 4, "horizon");
        Sys s = chooseSys(c, N, ns, nu, ny, true);
        c.step("condenseTimeInvariant");
        Mpc::condInv(S, U, N, s.A[0], s.B[0]);
        compare(c, s, S, U, false, "invariant");
        c.step("condense");
        Mpc::cond(S2, U2, s.A, s.B);
        c.nearM(S, S2, "invariant", "time variant and time invariant versions disagree");
        c.nearM(U, U2, "invariant", "time variant and time invariant versions disagree");
        c.step("condenseOutput (dense)");
        Mpc::out(OS, OU, s.D[0], s.E[0], S, U);
        compare(c, s, OS, OU, true, "output-dense");
    }
}

// several groups of controls
template<int ns, int ny> static void groups(mc::Ctx &c)
{
    typedef Eigen::Matrix<double, ns, ns> MA;
    typedef etools::LeftLowerTriangularBlockMatrix<ns, etools::MatrixBlockSizeType::DYNAMIC> LU;
    typedef etools::LeftLowerTriangularBlockMatrix<ny, etools::MatrixBlockSizeType::DYNAMIC> LO;
    int ng = c.range(1, 3, "groups");
    std::vector<long> w;
    long nu = 0;
    for (int i = 0; i < ng; ++i) { w.push_back(c.range(1, 2, "width")); nu += w.back(); }
    std::vector<LO> Ou;
    etools::GenericBlockMatrix<ny, ns> Ox;
    for (int d = 0; d < 2; ++d)
    {
        long N = c.range(1, d == 0 ? 3 : 2, "horizon");
        Sys s = chooseSys(c, N, ns, nu, ny, d == 1);
        std::vector<MA> A(s.A.begin(), s.A.end());
        etools::GenericBlockMatrix<ns, ns> Ux;
        std::vector<LU> Uu(ng);
        long off = 0;
        for (int g = 0; g < ng; ++g)
        {
            std::vector<Eigen::MatrixXd> B;
            for (long k = 0; k < N; ++k) B.push_back(s.B[k].middleCols(off, w[g]));
            Uu[g].setBlockSize(etools::MatrixBlockSizeType::UNDEFINED, w[g]);
            c.step("condense");
            Mpc::cond(Ux, Uu[g], A, B);
            off += w[g];
        }
        c.step("condenseOutput (groups of controls)");
        Mpc::out(Ox, Ou, s.D, s.E, Ux, Uu);
        c.check((int) Ou.size() == ng, "groups", "number of groups");
        // interleave the groups back
        Eigen::MatrixXd U = Eigen::MatrixXd::Zero(N * ny, N * nu);
        off = 0;
        for (int g = 0; g < ng; ++g)
        {
            c.check(Ou[g].getRaw().rows() == N * ny && Ou[g].getRaw().cols() == N * w[g], "groups", "size of a group");
            for (long k = 0; k < N; ++k) U.middleCols(k * nu + off, w[g]) = Ou[g].getRaw().middleCols(k * w[g], w[g]);
            off += w[g];
        }
        compare(c, s, Ox.getRaw(), U, true, "groups");
    }
}
MC_SCENARIO(cond_groups, 8, 3)
{
    switch (c.choose(3, "sizes"))
    {
        case 0: groups<2, 3>(c); break;
        case 1: groups<3, 2>(c); break;
        case 2: groups<2, 1>(c); break;
    }
}

// inconsistent arguments are rejected
MC_SCENARIO(cond_rejected, 1, 1)
{
    int na = c.range(0, 3, "A"), nb = c.range(0, 3, "B");
    std::vector<Eigen::MatrixXd> A(na, pat(1, 2, 2, 0)), B(nb, pat(0, 2, 1, 0));
    std::vector<Eigen::Matrix2d> A2(na, Eigen::Matrix2d::Identity());
    std::vector<Eigen::Vector2d> B2(nb, Eigen::Vector2d::Ones());
    etools::GenericBlockMatrix<2, 2> bS;
    etools::LeftLowerTriangularBlockMatrix<2, 1> bU;
    Eigen::MatrixXd S, U;
    bool t1 = false, t2 = false;
    c.step("condense");
    try { Mpc::cond(S, U, A, B); } catch (const std::runtime_error &) { t1 = true; }
    try { Mpc::cond(bS, bU, A2, B2); } catch (const std::runtime_error &) { t2 = true; }
    bool ok = (na == nb) && na > 0;
    c.check(t1 == !ok && t2 == !ok, "reject", "mismatching numbers of matrices");
    c.state(na * 4 + nb);
    if (!ok) return;
    int nd = c.range(0, 3, "D"), ne = c.range(0, 3, "E");
    std::vector<Eigen::Matrix<double, 2, 2> > D(nd, Eigen::Matrix<double, 2, 2>::Ones());
    std::vector<Eigen::Matrix<double, 2, 1> > E(ne, Eigen::Matrix<double, 2, 1>::Ones());
    etools::GenericBlockMatrix<2, 2> Ox;
    etools::LeftLowerTriangularBlockMatrix<2, 1> Ou;
    bool t3 = false;
    c.step("condenseOutput");
    try { Mpc::out(Ox, Ou, D, E, bS, bU); } catch (const std::runtime_error &) { t3 = true; }
    c.check(t3 == !(nd == ne && nd == na), "reject", "mismatching numbers of output matrices");
}
