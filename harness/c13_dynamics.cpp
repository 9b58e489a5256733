// C13: discrete-time models agree with the continuous dynamics they discretise.
#include "hier.h"
#include "humoto/walking.h"
#include "humoto/pepper_mpc.h"
using namespace humoto::rigidbody;
typedef TripleIntegrator TI;

// exp(M t) by the Taylor series with scaling and squaring
static Eigen::MatrixXd expo(const Eigen::MatrixXd &M, double t)
{
    long n = M.rows();
    Eigen::MatrixXd a = M * t;
    double m = 0; for (long i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a.data()[i]));
    int k = 0; while (m > 0.25) { m /= 2; ++k; }
    a /= std::pow(2.0, k);
    Eigen::MatrixXd r = Eigen::MatrixXd::Identity(n, n), term = r;
    for (int i = 1; i < 25; ++i) { Eigen::MatrixXd x = term * a / i; term = x; r += term; }
    for (int i = 0; i < k; ++i) { Eigen::MatrixXd x = r * r; r = x; }
    return r;
}
static Eigen::MatrixXd blockdiag(const Eigen::MatrixXd &b, long n)
{
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(b.rows() * n, b.cols() * n);
    for (long k = 0; k < n; ++k) for (long i = 0; i < b.rows(); ++i) for (long j = 0; j < b.cols(); ++j) r(k * b.rows() + i, k * b.cols() + j) = b(i, j);
    return r;
}
// state (pos, vel, acc) after time t with a constant jerk
static Eigen::VectorXd jerked(const Eigen::VectorXd &x, double j, double t)
{
    Eigen::VectorXd r(3);
    r(2) = x(2) + j * t;
    r(1) = x(1) + x(2) * t + j * t * t / 2;
    r(0) = x(0) + x(1) * t + x(2) * t * t / 2 + j * t * t * t / 6;
    return r;
}
static Eigen::VectorXd basis(long n, long k) { Eigen::VectorXd r = Eigen::VectorXd::Zero(n); if (k < n) r(k) = 1; return r; }

static const double TS[] = {0.1, 0.5, 1.0, 0.04, 2.5};

enum Control { JERK, ACC, VEL, POS };
template<std::size_t N> static void integrator(mc::Ctx &c, Control type, double T, double frac)
{
    double Ts = T * frac;
    bool whole = frac == 1.0;
    Eigen::MatrixXd A, B, As, Bs, D, E;
    switch (type)
    {
        case JERK: A = TI::getAJerk<N>(T); B = TI::getBJerk<N>(T); As = TI::getAJerk<N>(Ts); Bs = TI::getBJerk<N>(Ts); break;
        case ACC: A = TI::getAAcc<N>(T); B = TI::getBAcc<N>(T); As = TI::getAsAcc<N>(T, Ts); Bs = TI::getBsAcc<N>(T, Ts); D = TI::getDAcc<N>(T); E = TI::getEAcc<N>(T); break;
        case VEL: A = TI::getAVel<N>(T); B = TI::getBVel<N>(T); As = TI::getAsVel<N>(T, Ts); Bs = TI::getBsVel<N>(T, Ts); D = TI::getDVel<N>(T); E = TI::getEVel<N>(T); break;
        case POS: A = TI::getAPos<N>(T); B = TI::getBPos<N>(T); As = TI::getAsPos<N>(T, Ts); Bs = TI::getBsPos<N>(T, Ts); D = TI::getDPos<N>(T); E = TI::getEPos<N>(T); break;
    }
    c.step("triple integrator");
    c.check(A.rows() == 3 * N && A.cols() == 3 * N && B.rows() == 3 * N && B.cols() == N, "integrator-size");
    // integrators are independent: only the first one is simulated
    Eigen::MatrixXd a = A.topLeftCorner(3, 3), b = B.topLeftCorner(3, 1), as = As.topLeftCorner(3, 3), bs = Bs.topLeftCorner(3, 1), d, e;
    c.nearM(A, blockdiag(a, N), "integrator-independent", "A"); c.nearM(B, blockdiag(b, N), "integrator-independent", "B");
    c.nearM(As, blockdiag(as, N), "integrator-independent", "As"); c.nearM(Bs, blockdiag(bs, N), "integrator-independent", "Bs");
    if (type != JERK)
    {
        d = D.topLeftCorner(1, 3); e = E.topLeftCorner(1, 1);
        c.nearM(D, blockdiag(d, N), "integrator-independent", "D"); c.nearM(E, blockdiag(e, N), "integrator-independent", "E");
    }
    for (long k = 0; k < 4; ++k)        // all basis vectors of (state, control): linear maps are equal
    {
        Eigen::VectorXd x = basis(3, k);
        double u = k == 3 ? 1.0 : 0.0, j = u;
        if (type == ACC) j = (u - x(2)) / T;                                            // acc(T) = u
        if (type == VEL) j = (u - x(1) - x(2) * T) * 2 / (T * T);                       // vel(T) = u
        if (type == POS) j = (u - x(0) - x(1) * T - x(2) * T * T / 2) * 6 / (T * T * T); // pos(T) = u
        if (type != JERK) c.near((d * x)(0) + e(0, 0) * u, j, "integrator-jerk", "jerk during the interval");
        c.nearM(Eigen::VectorXd(a * x + b * u), jerked(x, j, T), "integrator-step", "state at the end of the interval");
        c.nearM(Eigen::VectorXd(as * x + bs * u), jerked(x, j, Ts), "integrator-substep", "state inside of the interval");
        (void) whole;
    }
    std::stringstream st; st << type << N << A << As; c.state(st.str());
}
MC_SCENARIO(triple_integrator, 1, 1)
{
    Control t = (Control) c.choose(4, "control");
    double T = c.pick(TS, "T");
    static const double fr[] = {1.0, 0.0, 0.25, 0.5, 0.9};
    double f = c.pick(fr, "Ts/T");
    switch (c.choose(4, "number of integrators"))
    {
        case 0: integrator<1>(c, t, T, f); break;
        case 1: integrator<2>(c, t, T, f); break;
        case 2: integrator<3>(c, t, T, f); break;
        case 3: integrator<4>(c, t, T, f); break;
    }
}

typedef humoto::walking::PointMassModel6z PM;
// reference: x''' = w^2 (x' - z'), z' = (u - z(0))/T
static Eigen::VectorXd cartTable(const Eigen::VectorXd &x, double u, double w, double T, double t)
{
    double zd = (u - (x(0) - x(2) / (w * w))) / T;
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(4, 4);
    M(0, 1) = 1; M(1, 2) = 1; M(2, 1) = w * w; M(2, 3) = -w * w;
    Eigen::VectorXd y(4); y << x(0), x(1), x(2), zd;
    Eigen::VectorXd r = expo(M, t) * y;
    return r.head(3);
}
MC_SCENARIO(point_mass, 1, 1)
{
    static const double hs[] = {0.8, 0.25, 9.8, 2.0};
    double h = c.pick(hs, "height"), T = c.pick(TS, "T");
    if (T > 1) T = 0.8;
    static const double fr[] = {1.0, 0.0, 0.25, 0.5, 0.9, 1.7};
    double f = c.pick(fr, "t/T"), t = f * T;
    double w = PM::getOmega(h);
    c.step("point mass model");
    c.near(w * w * h, humoto::g_gravitational_acceleration, "omega", "natural frequency");
    c.near(humoto::g_gravitational_acceleration, 9.8, "gravity", "gravitational acceleration", 0.01);
    Eigen::MatrixXd A3 = PM::getA3(t, w, T), B3 = PM::getB3(t, w, T), A6 = PM::getA6(t, w, T), B6 = PM::getB6(t, w, T);
    Eigen::MatrixXd D3 = PM::getD3(T, w), D6 = PM::getD6(T, w), E6 = PM::getE6(T, w), Dz = PM::getDdz6(h), Dc = PM::getDcpv6(w);
    double E3 = PM::getE3(T);
    c.nearM(A6, blockdiag(A3, 2), "point-mass-6", "A6"); c.nearM(B6, blockdiag(B3, 2), "point-mass-6", "B6");
    c.nearM(D6, blockdiag(D3, 2), "point-mass-6", "D6"); c.nearM(E6, Eigen::MatrixXd(E3 * Eigen::MatrixXd::Identity(2, 2)), "point-mass-6", "E6");
    c.nearM(Dz, blockdiag(Dz.topLeftCorner(1, 3), 2), "point-mass-6", "Ddz6"); c.nearM(Dc, blockdiag(Dc.topLeftCorner(1, 3), 2), "point-mass-6", "Dcpv6");
    c.nearM(PM::getA3(T, w), Eigen::MatrixXd(PM::getA3(T, w, T)), "point-mass-default", "default sampling"); c.nearM(PM::getB3(T, w), Eigen::MatrixXd(PM::getB3(T, w, T)), "point-mass-default", "default sampling");
    c.nearM(PM::getA6(T, w), Eigen::MatrixXd(PM::getA6(T, w, T)), "point-mass-default", "default sampling"); c.nearM(PM::getB6(T, w), Eigen::MatrixXd(PM::getB6(T, w, T)), "point-mass-default", "default sampling");
    for (long k = 0; k < 4; ++k)
    {
        Eigen::VectorXd x = basis(3, k);
        double u = k == 3 ? 1.0 : 0.0, z0 = x(0) - x(2) / (w * w);
        Eigen::VectorXd y = A3 * x + B3 * u;
        c.nearM(y, cartTable(x, u, w, T, t), "point-mass-step", "state after the interval", 1e-8);
        c.near((D3 * x)(0) + E3 * u, (u - z0) / T, "cop-velocity", "velocity of the center of pressure");
        c.near((Dz.topLeftCorner(1, 3) * x)(0), z0, "cop-position", "position of the center of pressure");
        c.near((Dz.topLeftCorner(1, 3) * y)(0), z0 + f * (u - z0), "cop-motion", "the center of pressure moves with a constant velocity and reaches the control at the end", 1e-8);
        c.near((Dc.topLeftCorner(1, 3) * x)(0), x(1) + x(2) / w, "capture-point", "velocity of the capture point");
    }
    // full model on all basis vectors
    for (long k = 0; k < 8; ++k)
    {
        etools::Vector6 x; etools::Vector2 u; x.setZero(); u.setZero();
        if (k < 6) x(k) = 1; else u(k - 6) = 1;
        PointMassState s = PM::evaluate(t, T, h, x, u);
        Eigen::VectorXd sx = cartTable(x.head(3), u(0), w, T, t), sy = cartTable(x.tail(3), u(1), w, T, t);
        c.nearM(s.position_, etools::Vector3(sx(0), sy(0), h), "evaluate", "position", 1e-8);
        c.nearM(s.velocity_, etools::Vector3(sx(1), sy(1), 0), "evaluate", "velocity", 1e-8);
        c.nearM(s.acceleration_, etools::Vector3(sx(2), sy(2), 0), "evaluate", "acceleration", 1e-8);
        c.nearM(PM::convertCoMState(PM::convertCoMState(x, h)), x, "convert", "round trip");
        PointMassState p = PM::convertCoMState(x, h);
        c.nearM(p.position_, etools::Vector3(x(0), x(3), h), "convert", "position");
        c.nearM(p.velocity_, etools::Vector3(x(1), x(4), 0), "convert", "velocity");
        c.nearM(p.acceleration_, etools::Vector3(x(2), x(5), 0), "convert", "acceleration");
    }
    PM m; c.check(m.Ns_ == 6 && m.Nu_ == 2, "point-mass-size", "numbers of states and controls");
    std::stringstream st; st << A3 << B3; c.state(st.str());
}

typedef humoto::pepper_mpc::TwoPointMassModel TM;
MC_SCENARIO(two_masses, 1, 1)
{
    TM m;
    double T = c.pick(TS, "T");
    static const double fr[] = {1.0, 0.0, 0.25, 0.5, 0.9};
    double f = c.pick(fr, "Ts/T"), Ts = f * T;
    static const double ms[] = {1.0, 3.5, 17.0}; static const double hs[] = {0.0, 0.125, 0.8};
    double mb = c.pick(ms, "base mass"), mB = c.pick(ms, "body mass"), hb = c.pick(hs, "base height"), hB = c.pick(hs, "body height");
    double g = humoto::g_gravitational_acceleration;
    c.step("two point masses");
    c.check(m.Ns_ == 12 && m.Nu_ == 4, "masses-size", "numbers of states and controls");
    Eigen::MatrixXd A = m.getA12(T, Ts), B = m.getB12(T, Ts);
    c.check(A.rows() == 12 && A.cols() == 12 && B.rows() == 12 && B.cols() == 4, "masses-size", "matrices");
    for (long k = 0; k < 16; ++k)
    {
        Eigen::VectorXd x = basis(12, k), u = Eigen::VectorXd::Zero(4), ref(12);
        if (k >= 12) u(k - 12) = 1;
        for (int i = 0; i < 4; ++i)
        {
            Eigen::VectorXd xi = x.segment(3 * i, 3);
            double j = i < 2 ? (u(i) - xi(1) - xi(2) * T) * 2 / (T * T) : u(i);
            ref.segment(3 * i, 3) = jerked(xi, j, Ts);
            if (i < 2)
            {
                c.near((m.getDjs3(T) * xi)(0) + m.getEjs3(T) * u(i), j, "masses-jerk", "jerk of the base");
                Eigen::VectorXd x6 = x.head(6), u2 = u.head(2);
                c.near((m.getDj6(T) * x6)(i) + (m.getEjs6(T) * u2)(i), j, "masses-jerk", "jerk of the base (2d)");
            }
        }
        c.nearM(Eigen::VectorXd(A * x + B * u), ref, "masses-step", "state after the interval");
        c.nearM(Eigen::VectorXd(m.evaluate(T, Ts, x, u.head(2), u.tail(2))), ref, "masses-evaluate", "evaluate()");
        // position of the center of pressure with respect to the base, both axes are equal
        Eigen::VectorXd b = x.head(3), B3 = x.segment(6, 3);
        double cop = (mb * (b(0) - hb / g * b(2)) + mB * (B3(0) - hB / g * B3(2))) / (mb + mB);
        c.near((m.getDps3(hb, mb, mB) * b)(0) + (m.getDpd3(hB, mb, mB) * B3)(0), cop - b(0), "masses-cop", "center of pressure relative to the base");
    }
    Eigen::VectorXd x(12); for (int i = 0; i < 12; ++i) x(i) = i + 1;
    RigidBodyState base = m.convertBaseStateMPCtoRB(x, 20); PointMassState body = m.convertBodyStateMPCtoRB(x, 30);
    c.nearM(base.position_, etools::Vector3(1, 4, 20), "masses-convert", "base position"); c.nearM(base.velocity_, etools::Vector3(2, 5, 0), "masses-convert", "base velocity"); c.nearM(base.acceleration_, etools::Vector3(3, 6, 0), "masses-convert", "base acceleration");
    c.nearM(body.position_, etools::Vector3(7, 10, 30), "masses-convert", "body position"); c.nearM(body.velocity_, etools::Vector3(8, 11, 0), "masses-convert", "body velocity"); c.nearM(body.acceleration_, etools::Vector3(9, 12, 0), "masses-convert", "body acceleration");
    c.nearM(Eigen::VectorXd(m.convertStateRBtoMPC(base, body)), x, "masses-convert", "round trip");
    // special cases used by the controller
    c.nearM(m.getAs3(T), Eigen::MatrixXd(m.getA12(T, T).topLeftCorner(3, 3)), "masses-3", "As3"); c.nearM(m.getBs3(T), Eigen::MatrixXd(m.getB12(T, T).topLeftCorner(3, 1)), "masses-3", "Bs3");
    c.nearM(m.getAd3(T), Eigen::MatrixXd(m.getA12(T, T).block(6, 6, 3, 3)), "masses-3", "Ad3"); c.nearM(m.getBd3(T), Eigen::MatrixXd(m.getB12(T, T).block(6, 2, 3, 1)), "masses-3", "Bd3");
    std::stringstream st; st << A << mb << mB << hb << hB; c.state(st.str());
}
