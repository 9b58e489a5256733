// C12: rotations, rigid body states, geometric and time conversions.
#include "hier.h"
#include "humoto/walking.h"
#include "humoto/obstacle_avoidance.h"
using namespace humoto::rigidbody;
typedef etools::Matrix3 M3;
typedef etools::Vector3 V3;

static const double PI = std::acos(-1.0);
static M3 elementary(int axis, double a)
{
    M3 R = M3::Identity();
    int i = (axis + 1) % 3, j = (axis + 2) % 3;
    R(i, i) = std::cos(a); R(i, j) = -std::sin(a);
    R(j, i) = std::sin(a); R(j, j) = std::cos(a);
    return R;
}
static M3 mul(const M3 &a, const M3 &b)
{
    M3 r = M3::Zero();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r(i, j) += a(i, k) * b(k, j);
    return r;
}
static M3 tr(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = a(j, i); return r; }
static M3 skew(const V3 &v)
{
    M3 r;
    r << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return r;
}
static M3 expo(const M3 &m)
{
    // scaling and squaring of the Taylor series
    int k = 0;
    double n = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) n = std::max(n, std::fabs(m(i, j)));
    while (n > 0.25) { n /= 2; ++k; }
    M3 a = m / std::pow(2.0, k), r = M3::Identity(), t = M3::Identity();
    for (int i = 1; i < 20; ++i) { t = mul(t, a) / i; r += t; }
    for (int i = 0; i < k; ++i) r = mul(r, r);
    return r;
}
static M3 rpyRef(const V3 &e) { return mul(elementary(2, e(2)), mul(elementary(1, e(1)), elementary(0, e(0)))); }
static M3 yprRef(const V3 &e) { return mul(elementary(0, e(0)), mul(elementary(1, e(1)), elementary(2, e(2)))); }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

static double angle(mc::Ctx &c, const char *l)
{
    // all multiples of 30 degrees in [-360, 360] for the thorough tier, multiples of 45 (+ generic) otherwise
    if (c.thorough) return (int(c.choose(25, l)) - 12) * PI / 6;
    static const double a[] = {0, PI / 4, PI / 2, 2.5, PI, 5.0, 2 * PI, -PI / 4, -PI / 2, -2.5, -PI};
    return c.pick(a, l);
}
static EulerAngles::Type type(mc::Ctx &c, const char *l) { return c.flip(l) ? EulerAngles::YPR : EulerAngles::RPY; }
static M3 ref(const V3 &e, EulerAngles::Type t) { return t == EulerAngles::RPY ? rpyRef(e) : yprRef(e); }

MC_SCENARIO(euler, 4, 2)
{
    V3 e(angle(c, "roll"), angle(c, "pitch"), angle(c, "yaw"));
    EulerAngles::Type t = type(c, "type"), t2 = type(c, "other type");
    c.step("convertEulerAnglesToMatrix");
    M3 R = convertEulerAnglesToMatrix(e, t);
    c.nearM(R, ref(e, t), "to-matrix", "rotation matrix of Euler angles");
    c.step("convertMatrixToEulerAngles");
    V3 back = convertMatrixToEulerAngles(ref(e, t), t2);
    c.nearM(ref(back, t2), ref(e, t), "from-matrix", "Euler angles of a rotation matrix");
    c.step("convertEulerAngles");
    V3 conv = convertEulerAngles(e, t, t2);
    c.nearM(ref(conv, t2), ref(e, t), "convert", "converted Euler angles");
    RotaryState s;
    s.set(e);
    c.nearM(s.getOrientationMatrix(), rpyRef(e), "state-orientation", "orientation matrix of a state");
    if (t == EulerAngles::RPY)
    {
        c.step("getEulerRatesToAngularVelocityTransform");
        M3 W = getEulerRatesToAngularVelocityTransform(e, t);
        // exact derivatives: w~ = dR R^T; dR/d(angle k) by the product rule
        M3 X = elementary(0, e(0)), Y = elementary(1, e(1)), Z = elementary(2, e(2));
        V3 ux(1, 0, 0), uy(0, 1, 0), uz(0, 0, 1);
        M3 D[3];
        D[0] = mul(mul(Z, Y), mul(skew(ux), X));
        D[1] = mul(Z, mul(mul(skew(uy), Y), X));
        D[2] = mul(skew(uz), mul(Z, mul(Y, X)));
        for (int k = 0; k < 3; ++k)
        {
            M3 w = mul(D[k], tr(rpyRef(e)));
            c.nearM(V3(W.col(k)), V3(w(2, 1), w(0, 2), w(1, 0)), "euler-rates", "angular velocity due to one Euler rate");
        }
    }
    else c.check(throws([&] { getEulerRatesToAngularVelocityTransform(e, t); }), "unsupported-rates", "unsupported Euler angles must be rejected");
    std::stringstream st; st << R; c.state(st.str());
}
MC_SCENARIO(unsupported, 1, 1)
{
    V3 e(0.1, 0.2, 0.3);
    EulerAngles::Type t = EulerAngles::UNDEFINED;
    switch (c.choose(5, "function"))
    {
        case 0: c.check(throws([&] { convertEulerAnglesToMatrix(e, t); }), "unsupported", "convertEulerAnglesToMatrix"); break;
        case 1: c.check(throws([&] { convertMatrixToEulerAngles(M3::Identity(), t); }), "unsupported", "convertMatrixToEulerAngles"); break;
        case 2: c.check(throws([&] { convertEulerAngles(e, t, EulerAngles::RPY); }), "unsupported", "convertEulerAngles"); break;
        case 3: c.check(throws([&] { convertEulerAngles(e, EulerAngles::RPY, t); }), "unsupported", "convertEulerAngles"); break;
        case 4: c.check(throws([&] { getEulerRatesToAngularVelocityTransform(e, t); }), "unsupported", "getEulerRates..."); break;
    }
    c.check(int(EulerAngles::RPY) == int(EulerAngles::ZYX) && int(EulerAngles::YPR) == int(EulerAngles::XYZ) && int(EulerAngles::RPY) != int(EulerAngles::YPR), "types", "names of types");
}
static M3 orient(mc::Ctx &c, const char *l)
{
    static const double a[][3] = {{0, 0, 0}, {0.3, -0.2, 0.5}, {1.2, 0.4, -2.9}, {PI / 2, 0, 0}, {0, PI / 2, 0}, {0, 0, PI}, {0, -1, 0}, {-3, 1.5, 2}};
    uint32_t k = c.choose(8, l);
    return rpyRef(V3(a[k][0], a[k][1], a[k][2]));
}
MC_SCENARIO(errors, 1, 1)
{
    M3 cur = orient(c, "current"), r = orient(c, "reference");
    c.step("getRotationError");
    M3 E = mul(r, tr(cur));
    c.nearM(getRotationError(cur, r), E, "rotation-error", "rotation from the current orientation to the reference");
    c.nearM(mul(getRotationError(cur, r), cur), r, "rotation-error", "applying the error must give the reference");
    // sin(angle) * axis of the error rotation
    V3 v(0.5 * (E(2, 1) - E(1, 2)), 0.5 * (E(0, 2) - E(2, 0)), 0.5 * (E(1, 0) - E(0, 1)));
    c.nearM(getRotationErrorAngleAxis(cur, r), v, "rotation-error-axis", "sin(angle)*axis of the error");
    c.nearM(V3(getRotationErrorAngleAxis(r, cur)), V3(-v), "rotation-error-axis", "antisymmetric");
}
MC_SCENARIO(integration, 4, 2)
{
    M3 R = orient(c, "orientation");
    static const double vs[] = {0, 1, -2, 0.3, 1e-3};
    V3 w; for (int i = 0; i < 3; ++i) w(i) = c.pick(vs, "angular velocity");
    static const double dts[] = {0, 0.01, 0.5, 2, -0.3, 1e-3};
    double dt = c.pick(dts, "dt"), dt2 = c.pick(dts, "second interval");
    c.step("integrateAngularVelocity");
    M3 lin = R + dt * mul(R, skew(w));
    c.nearM(integrateAngularVelocity(R, w, dt), lin, "euler-step", "first order step");
    c.step("integrateAngularVelocityRodrigues");
    M3 r1 = integrateAngularVelocityRodrigues(R, w, dt);
    c.nearM(r1, mul(R, expo(skew(w) * dt)), "rodrigues", "rotation by a constant angular velocity");
    c.nearM(mul(r1, tr(r1)), M3(M3::Identity()), "rodrigues-orthogonal", "the result is a rotation");
    M3 r2 = integrateAngularVelocityRodrigues(r1, w, dt2);
    c.nearM(r2, M3(integrateAngularVelocityRodrigues(R, w, dt + dt2)), "rodrigues-semigroup", "two intervals are equal to one long interval");
    c.nearM(M3(integrateAngularVelocityRodrigues(R, w, dt, 1e9)), R, "rodrigues-tolerance", "velocities below the tolerance are ignored");
}

template<class S> static bool allNan(const S &v) { for (int i = 0; i < v.size(); ++i) if (!(v(i) != v(i))) return false; return true; }
static V3 vec(int k) { return V3(k + 0.5, -k, 10 * k + 1); }
// states: all histories of operations against a record of six vectors
MC_SCENARIO(states, 2, 2)
{
    RigidBodyState s;
    PointMassState p;
    RotaryState r;
    V3 m[6], nan3; nan3.fill(std::numeric_limits<double>::quiet_NaN());
    for (int i = 0; i < 6; ++i) m[i] = V3::Zero();       // pos, vel, acc, rpy, av, aa
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        uint32_t op = c.choose(7, "operation");
        int k = d + 1;
        switch (op)
        {
            case 0: s.setDefaults(); p.setDefaults(); r.setDefaults(); for (int i = 0; i < 6; ++i) m[i] = V3::Zero(); break;
            case 1: s.unset(); p.unset(); r.unset(); for (int i = 0; i < 6; ++i) m[i] = nan3; break;
            case 2:
                s.set(vec(k), vec(k + 1)); p.set(vec(k)); r.set(vec(k + 1));
                for (int i = 0; i < 6; ++i) m[i] = V3::Zero();
                m[0] = vec(k); m[3] = vec(k + 1);
                break;
            case 3:
                s.set(vec(k), vec(k + 1), vec(k + 2), vec(k + 3)); p.set(vec(k), vec(k + 2)); r.set(vec(k + 1), vec(k + 3));
                m[0] = vec(k); m[3] = vec(k + 1); m[1] = vec(k + 2); m[4] = vec(k + 3); m[2] = m[5] = V3::Zero();
                break;
            case 4:
                s.set(vec(k), vec(k + 1), vec(k + 2), vec(k + 3), vec(k + 4), vec(k + 5)); p.set(vec(k), vec(k + 2), vec(k + 4)); r.set(vec(k + 1), vec(k + 3), vec(k + 5));
                m[0] = vec(k); m[3] = vec(k + 1); m[1] = vec(k + 2); m[4] = vec(k + 3); m[2] = vec(k + 4); m[5] = vec(k + 5);
                break;
            case 5: s.translate(vec(k)); p.translate(vec(k)); m[0] += vec(k); break;
            case 6: { RigidBodyState s2(s); PointMassState p2(p); RotaryState r2(r); s = s2; p = p2; r = r2; break; }
        }
        c.step("state operation");
        const V3 *a[] = {&s.position_, &s.velocity_, &s.acceleration_, &s.rpy_, &s.angular_velocity_, &s.angular_acceleration_};
        const V3 *b[] = {&p.position_, &p.velocity_, &p.acceleration_, &r.rpy_, &r.angular_velocity_, &r.angular_acceleration_};
        for (int i = 0; i < 6; ++i)
        {
            if (allNan(m[i])) c.check(allNan(*a[i]) && allNan(*b[i]), "state-unset", "must be NaN");
            else { c.nearM(*a[i], m[i], "state", "rigid body state"); c.nearM(*b[i], m[i], "state", "point mass / rotary state"); }
        }
        std::stringstream st; for (int i = 0; i < 6; ++i) st << m[i].transpose() << ";"; c.state(st.str());
    }
    RigidBodyPose pose;
    c.check(allNan(pose.position_) && allNan(pose.rpy_), "pose", "a default pose is undefined");
    pose.position_ << 1, 2, 3; pose.rpy_ << 4, 5, 6;
    std::stringstream o; o << pose;
    c.check(o.str() == "1 2 3 4 5 6", "pose-output", o.str());
}
// obstacles are rigid bodies with constraints of derived classes
struct Obstacle : public humoto::obstacle_avoidance::ObstacleBase
{
    Obstacle() {}
    Obstacle(const V3 &p, const V3 &a) : humoto::obstacle_avoidance::ObstacleBase(p, a) {}
    void updateConstraints(const humoto::ControlProblem &, const humoto::Solution &x, const double margin)
    {
        A_.setConstant(2, x.x_.size(), margin); ub_.setConstant(2, -margin);
    }
    void resetConstraints(const humoto::ControlProblem &) { A_.resize(0, 0); ub_.resize(0); }
};
MC_SCENARIO(obstacles, 2, 2)
{
    V3 m[6];
    for (int i = 0; i < 6; ++i) m[i] = V3::Zero();
    bool arguments = c.flip("initial pose");
    if (arguments) { m[0] = vec(7); m[3] = vec(9); }
    Obstacle o = arguments ? Obstacle(vec(7), vec(9)) : Obstacle();
    struct P : public humoto::ControlProblem { void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {} } problem;
    humoto::Solution x;
    int rows = 0, cols = 0;
    double margin = 0;
    int depth = c.thorough ? 5 : 4;
    for (int d = 0; d <= depth; ++d)
    {
        const V3 *a[] = {&o.position_, &o.velocity_, &o.acceleration_, &o.rpy_, &o.angular_velocity_, &o.angular_acceleration_};
        for (int i = 0; i < 6; ++i)
            if (allNan(m[i])) c.check(allNan(*a[i]), "obstacle", "must be NaN"); else c.nearM(*a[i], m[i], "obstacle", "state of an obstacle", 0);
        const humoto::obstacle_avoidance::ObstacleBase &b = o;
        c.check(b.getA().rows() == rows && b.getA().cols() == cols && b.getBounds().size() == rows, "obstacle", "constraints");
        if (rows) c.check(b.getA()(1, cols - 1) == margin && b.getBounds()(1) == -margin, "obstacle", "constraints");
        std::stringstream st; st << d << rows << cols; for (int i = 0; i < 6; ++i) st << m[i].transpose() << ";"; c.state(st.str());
        if (d == depth) break;
        uint32_t op = c.choose(8, "operation");
        int k = 3 * d + 1;
        c.step("obstacle operation");
        switch (op)
        {
            case 0: { RigidBodyState s; s.set(vec(k), vec(k + 1), vec(k + 2), vec(k + 3), vec(k + 4), vec(k + 5)); o.updateState(s);
                      m[0] = vec(k); m[3] = vec(k + 1); m[1] = vec(k + 2); m[4] = vec(k + 3); m[2] = vec(k + 4); m[5] = vec(k + 5); break; }
            case 1: o.updateState(vec(k), vec(k + 1)); for (int i = 0; i < 6; ++i) m[i] = V3::Zero(); m[0] = vec(k); m[3] = vec(k + 1); break;
            case 2: o.unset(); { V3 n; n.fill(std::numeric_limits<double>::quiet_NaN()); for (int i = 0; i < 6; ++i) m[i] = n; } break;
            case 3: o.translate(vec(k)); m[0] += vec(k); break;
            case 4: { Obstacle q(o); o = Obstacle(vec(k), vec(k)); o.updateConstraints(problem, x, 3); o = q; break; }
            case 5: x.x_.setZero(d + 1); margin = 0.5 + d; rows = 2; cols = d + 1; o.updateConstraints(problem, x, margin); break;
            case 6: o.resetConstraints(problem); rows = cols = 0; break;
            case 7: o.updateState(o); break;        // its own state
        }
    }
}
MC_SCENARIO(left_right, 1, 1)
{
    using humoto::LeftOrRight;
    c.check(LeftOrRight::invert(LeftOrRight::LEFT) == LeftOrRight::RIGHT && LeftOrRight::invert(LeftOrRight::RIGHT) == LeftOrRight::LEFT, "invert", "exchange of sides");
    c.check(throws([] { LeftOrRight::invert(LeftOrRight::UNDEFINED); }), "invert", "undefined side");
    humoto::LeftRightContainer<int> a, b;
    int m[2][2] = {{1, 2}, {3, 4}};
    a.setLeft(1); a.setRight(2); b.getLeft() = 3; b.getRight() = 4;
    for (int d = 0; d < 4; ++d)
    {
        switch (c.choose(6, "operation"))
        {
            case 0: a.setLeft(10 + d); m[0][0] = 10 + d; break;
            case 1: a.setRight(20 + d); m[0][1] = 20 + d; break;
            case 2: b.copyLeft(a); m[1][0] = m[0][0]; break;
            case 3: b.copyRight(a); m[1][1] = m[0][1]; break;
            case 4: a[LeftOrRight::RIGHT] = 30 + d; m[0][1] = 30 + d; break;
            case 5: b[LeftOrRight::LEFT] = 40 + d; m[1][0] = 40 + d; break;
        }
        c.step("container operation");
        const humoto::LeftRightContainer<int> &ca = a, &cb = b;
        c.check(ca.getLeft() == m[0][0] && ca.getRight() == m[0][1] && cb.getLeft() == m[1][0] && cb.getRight() == m[1][1], "left-right", "content");
        c.check(ca[LeftOrRight::LEFT] == m[0][0] && ca[LeftOrRight::RIGHT] == m[0][1] && a.getLeft() == m[0][0] && b.getRight() == m[1][1], "left-right", "access by side");
    }
    c.check(throws([&] { a[LeftOrRight::UNDEFINED]; }), "left-right", "undefined side");
    c.check(throws([&] { const humoto::LeftRightContainer<int> &ca = a; ca[(LeftOrRight::Type) 3]; }), "left-right", "undefined side");
}
MC_SCENARIO(conversions, 1, 1)
{
    int k = c.range(-720, 720, "degrees");
    c.step("angles");
    c.near(humoto::convertDegreesToRadians(k), k * PI / 180, "degrees", "radians");
    c.near(humoto::convertRadiansToDegrees(k * PI / 180), k, "degrees", "degrees");
    if (k >= 0)
    {
        // a square with the diagonal 2r
        double s = humoto::getEncircledSquareSide(0.25 * k);
        c.near(2 * s * s, 0.25 * k * k, "square", "square in a circle");
        c.near(humoto::convertMillisecondToSecond(k), k * 0.001, "time", "seconds");
        c.check(humoto::convertSecondToMillisecond(k * 0.001) == (std::size_t) k, "time", "milliseconds");
        c.check(humoto::convertSecondToMillisecond(humoto::convertMillisecondToSecond(k)) == (std::size_t) k, "time", "round trip");
        c.check(humoto::convertSecondToMillisecond(k * 0.001 + 0.0004) == (std::size_t) k, "time", "rounding down");
        c.check(humoto::convertSecondToMillisecond(k * 0.001 + 0.0006) == (std::size_t) k + 1, "time", "rounding up");
        c.check(humoto::truncateSecondToMillisecond(k * 0.001 + 0.0001) == (std::size_t) k, "time", "truncation");
        c.check(humoto::truncateSecondToMillisecond(k * 0.001 + 0.0009) == (std::size_t) k, "time", "truncation");
    }
    c.check(humoto::isApproximatelyEqual(k, k) && !humoto::isApproximatelyEqual(k, k + 1e-3) && !humoto::isApproximatelyEqual(k + 1e-3, k), "approximately", "default tolerance");
    c.check(humoto::isApproximatelyEqual(k, k + 1e-3, 1e-2) && humoto::isApproximatelyEqual(k + 1e-3, k, 1e-2) && !humoto::isApproximatelyEqual(k, k + 1, 0.5) && !humoto::isApproximatelyEqual(k + 1, k, 0.5), "approximately", "tolerance");
}
// feet parameters with default values: symmetric, consistent between both reference frames
MC_SCENARIO(feet, 1, 1)
{
    using namespace humoto::walking;
    using humoto::LeftOrRight;
    RobotFootParameters f;
    for (int k = c.choose(3, "setDefaults"); k > 0; --k) f.setDefaults();
    static const double an[] = {0, 0.3, -1.2, PI / 2, PI, 4};
    static const double po[] = {0, -1.5, 2.25};
    double a = c.pick(an, "rotation");
    etools::Vector2 pos(c.pick(po, "x"), c.pick(po, "y"));
    etools::Matrix2 R; R << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
    LeftOrRight::Type side = c.flip("side") ? LeftOrRight::LEFT : LeftOrRight::RIGHT;
    LeftOrRight::Type other = side == LeftOrRight::LEFT ? LeftOrRight::RIGHT : LeftOrRight::LEFT;
    double sg = side == LeftOrRight::LEFT ? 1 : -1;
    c.step("feet");
    etools::Vector2 foot = f.getFootPositionFromADS(side, R, pos), otherfoot = f.getFootPositionFromADS(other, R, pos);
    etools::Vector2 local(R(0, 0) * (foot(0) - pos(0)) + R(1, 0) * (foot(1) - pos(1)), R(0, 1) * (foot(0) - pos(0)) + R(1, 1) * (foot(1) - pos(1)));
    c.near(local(0), 0, "foot-in-ads", "a foot of a double support is beside its center");
    c.check(local(1) * sg > 0, "foot-in-ads", "left foot to the left, right foot to the right");
    c.nearM(etools::Vector2(0.5 * (foot + otherfoot)), pos, "foot-in-ads", "the double support is centered between feet");
    c.nearM(etools::Vector2(f.getADSPositionFromFoot(side, R, foot)), pos, "ads-from-foot", "inverse of the position of a foot");
    etools::Matrix2 ss = f.getSSCoPBounds(), ds = f.getADSCoPBounds(), wss = f.getFootBounds(side, FootBoundsType::WITH_RESPECT_TO_SS), wo = f.getFootBounds(other, FootBoundsType::WITH_RESPECT_TO_SS);
    for (int i = 0; i < 2; ++i)
    {
        c.check(ss(i, 0) < ss(i, 1) && ds(i, 0) < ds(i, 1) && wss(i, 0) < wss(i, 1), "bounds", "lower bounds are below upper bounds");
        c.near(ss(i, 0), -ss(i, 1), "bounds", "symmetric foot"); c.near(ds(i, 0), -ds(i, 1), "bounds", "symmetric double support");
    }
    c.near(ds(0, 1), ss(0, 1), "bounds", "length"); c.near(ds(1, 1), ss(1, 1) + std::fabs(local(1)), "bounds", "the double support covers both feet");
    c.near(wss(0, 0), -wss(0, 1), "bounds", "steps forward and backward");
    c.check(wss(1, sg > 0 ? 0 : 1) * sg > 0, "bounds", "feet do not cross");
    c.near(wss(1, 0), -wo(1, 1), "bounds", "left/right symmetry"); c.near(wss(1, 1), -wo(1, 0), "bounds", "left/right symmetry");
    c.near(wss(0, 1), wo(0, 1), "bounds", "left/right symmetry");
    etools::Matrix2 ads = f.getFootBounds(side, FootBoundsType::WITH_RESPECT_TO_ADS), al = f.getFootBounds(side, FootBoundsType::ALIGNED_TO_SS);
    c.nearM(etools::Vector2(ads.col(0)), local, "bounds-fixed", "fixed position in a double support");
    c.nearM(etools::Vector2(ads.col(1)), local, "bounds-fixed", "fixed position in a double support");
    c.nearM(etools::Vector2(al.col(0)), etools::Vector2(al.col(1)), "bounds-fixed", "aligned position is a point");
    c.check(al(0, 0) == 0 && al(1, 0) * sg > 0, "bounds-fixed", "aligned position is on the proper side");
    c.check(throws([&] { f.getFootBounds(side, FootBoundsType::UNDEFINED); }) && throws([&] { f.getFootBounds(LeftOrRight::UNDEFINED, FootBoundsType::ALIGNED_TO_SS); }), "bounds-bad", "bad arguments");
}
