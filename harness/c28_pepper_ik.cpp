// C28: inverse kinematics of Pepper (over a stand-in of RBDL): descriptions of the models, kinematics, limits,
// commands, tasks, configuration and closed loops, compared with reference kinematics of the URDF files.
#include "cfgtree.h"
#include "humoto/rbdl.h"
#include "humoto/pepper_ik.h"
#include "kin.h"

using namespace humoto;
namespace pik = humoto::pepper_ik;
using cfg::Tree;
using kin::V3;
using kin::M3;

namespace
{
    typedef pik::ModelFeatures MF;
    const int TORSO = MF::FIXED_WHEELS | MF::ROOT_TORSO, TIBIA = MF::FIXED_WHEELS | MF::ROOT_TIBIA, PLANAR = MF::FIXED_WHEELS | MF::ROOT_PLANAR;
    std::string repo() { const char *r = getenv("VERIF_REPO"); return std::string(r ? r : "/repo") + "/modules/pepper_ik/"; }
    std::string config(const std::string &f) { return repo() + "config/" + f; }
    template<int F> struct Info;
    template<> struct Info<TORSO> { static const char *urdf() { return "pepper_fixedwheels.urdf"; } static const char *name() { return "torso"; } };
    template<> struct Info<TIBIA> { static const char *urdf() { return "pepper_fixedwheels_roottibia.urdf"; } static const char *name() { return "tibia"; } };
    template<> struct Info<PLANAR> { static const char *urdf() { return "pepper_fixedwheels_roottibia_planar.urdf"; } static const char *name() { return "planar"; } };
    template<int F> struct D : public pik::ModelDescription<F> {};
    const kin::Tree *loaded_tree = NULL;        // a robot which is different from the one of the module
    struct OtherRobot { OtherRobot(const kin::Tree *t) { loaded_tree = t; } ~OtherRobot() { loaded_tree = NULL; } };
    template<int F> const kin::Tree &urdf() { static kin::Tree t = kin::load(config(Info<F>::urdf())); return loaded_tree ? *loaded_tree : t; }
    const kin::Tree &original() { static kin::Tree t = kin::load(config("pepper_orig.urdf")); return t; }

    template<int F> const std::vector<std::pair<std::string, int> > &joints()
    {
        typedef pik::ModelDescription<F> M;
        static const std::vector<std::pair<std::string, int> > v = {
#define J(x) {#x, (int) M::x}
            J(KneePitch), J(HipPitch), J(HipRoll), J(HeadYaw), J(HeadPitch), J(LShoulderPitch), J(LShoulderRoll), J(LElbowYaw), J(LElbowRoll), J(LWristYaw),
            J(RShoulderPitch), J(RShoulderRoll), J(RElbowYaw), J(RElbowRoll), J(RWristYaw)
#undef J
        };
        return v;
    }
    int byJoint(const kin::Tree &t, const std::string &j) { for (size_t i = 0; i < t.links.size(); ++i) if (t.links[i].parent >= 0 && t.links[i].joint == j) return i; return -1; }

    // a link with everything which is fixed to it
    std::vector<int> groupOf(const kin::Tree &t, int link)
    {
        std::vector<int> g;
        for (size_t k = 0; k < t.links.size(); ++k)
        {
            int j = k;
            while (j != link && t.links[j].parent >= 0 && t.links[j].kind == kin::FIXED) j = t.links[j].parent;
            if (j == link) g.push_back(k);
        }
        return g;
    }
    // the base: everything what does not move with respect to the wheels
    std::vector<int> baseLinks(const kin::Tree &t)
    {
        int i = t.find("WheelB_link");
        while (t.links[i].parent >= 0 && t.links[i].kind == kin::FIXED) i = t.links[i].parent;
        return groupOf(t, i);
    }
    std::vector<int> bodyLinks(const kin::Tree &t)
    {
        std::vector<int> b = baseLinks(t), r;
        for (size_t i = 0; i < t.links.size(); ++i) if (std::find(b.begin(), b.end(), (int) i) == b.end()) r.push_back(i);
        return r;
    }

    template<int F> pik::GeneralizedCoordinates<F> coordinates() { return pik::GeneralizedCoordinates<F>(); }
    // the pose of the root is set by the harness itself: x, y, z, R = Rx * Ry * Rz
    V3 anglesXYZ(const M3 &R) { return V3(std::atan2(-R(1, 2), R(2, 2)), std::asin(std::max(-1.0, std::min(1.0, R(0, 2)))), std::atan2(-R(0, 1), R(0, 0))); }
    template<int F> void setRoot(pik::GeneralizedCoordinates<F> &g, const V3 &p, const V3 &rpy) { g.root_pose_ << p, anglesXYZ(kin::rpy(rpy)); }
    template<> void setRoot<PLANAR>(pik::GeneralizedCoordinates<PLANAR> &g, const V3 &p, const V3 &rpy) { g.root_pose_ << p(0), p(1), rpy(2); }
    template<int F> kin::Tree kinematics(const pik::GeneralizedCoordinates<F> &g)
    {
        kin::Tree t = urdf<F>();
        Eigen::VectorXd q(g.root_pose_.size() + g.joint_angles_.size());
        q << g.root_pose_, g.joint_angles_;
        t.update(F != PLANAR, &q);
        return t;
    }
    V3 skewOf(const M3 &e) { return 0.5 * V3(e(2, 1) - e(1, 2), e(0, 2) - e(2, 0), e(1, 0) - e(0, 1)); }
    V3 rotationError(const M3 &cur, const M3 &ref) { return skewOf(ref * cur.transpose()); }
    M3 rotvec(const V3 &w) { double a = w.norm(); return a == 0 ? M3::Identity() : kin::rotAxis(w / a, a); }
    V3 planarOnly(int f, V3 v, bool position) { if (f == PLANAR) { if (position) v(2) = 0; else v(0) = v(1) = 0; } return v; }

    static const V3 root_positions[] = {V3(0, 0, 0), V3(1.5, -0.75, 0.25), V3(-3, 2, -1)};
    static const V3 root_angles[] = {V3(0, 0, 0), V3(0, 0, 1.25), V3(0.3, -0.4, 0.5), V3(-1, 1.2, -2.5), V3(2.5, -0.9, 3), V3(0, 0.05, 0), V3(0, 0, -2)};

    template<int F> void pattern(pik::GeneralizedCoordinates<F> &g, int k)
    {
        // 0: default, 1..: each of joints at its bounds, all at their bounds
        const kin::Tree &t = urdf<F>();
        const std::vector<std::pair<std::string, int> > &j = joints<F>();
        for (size_t i = 0; i < j.size(); ++i)
        {
            const kin::Link &l = t.links[byJoint(t, j[i].first)];
            if (k == 1 || (k >= 3 && k - 3 == (int) i)) g.joint_angles_(j[i].second) = l.lower;
            if (k == 2 || (k >= 18 && k - 18 == (int) i)) g.joint_angles_(j[i].second) = l.upper;
        }
    }
    const int PATTERNS = 33;

    template<int F> struct Robot
    {
        pik::Model<F> model;
        Robot() { RigidBodyDynamics::settings() = RigidBodyDynamics::Settings(); RigidBodyDynamics::settings().floating = 2; model.loadParameters(config(Info<F>::urdf())); }
    };

    // everything what the model tells about the given state
    template<int F> void compareModel(mc::Ctx &c, const pik::Model<F> &m, const pik::GeneralizedCoordinates<F> &g, bool jacobians)
    {
        kin::Tree t = kinematics(g);
        std::vector<int> base = baseLinks(t), body = bodyLinks(t), all = t.all();
        c.nearM(m.getState().root_pose_, g.root_pose_, "state", "pose of the root in the state", 0);
        c.nearM(m.getState().joint_angles_, g.joint_angles_, "state", "joint angles in the state", 0);
        c.near(m.getMass(), t.mass(all), "mass", "mass of the robot");
        c.near(m.getBaseMass(), t.mass(base), "mass", "mass of the base");
        c.near(m.getBodyMass(), t.mass(body), "mass", "mass of the body");
        c.nearM(m.getCoM(), t.com(all), "com", "CoM of the robot");
        c.nearM(m.getBaseCoM(), t.com(base), "com", "CoM of the base");
        c.nearM(m.getBodyCoM(), t.com(body), "com", "CoM of the body");
        int bf = t.find("base_footprint");
        c.nearM(m.getBasePosition(), t.p[bf], "base", "position of the base");
        c.nearM(m.getBaseOrientation(), t.R[bf], "base", "orientation of the base");
        double tilt = std::sqrt(t.R[bf](0, 0) * t.R[bf](0, 0) + t.R[bf](1, 0) * t.R[bf](1, 0));
        if (tilt > 1e-3)
        {
            double yaw = m.getBaseYaw();
            c.check(std::fabs(std::sin(yaw) - t.R[bf](1, 0) / tilt) < 1e-8 && std::fabs(std::cos(yaw) - t.R[bf](0, 0) / tilt) < 1e-8, "base", "yaw of the base");
        }
        const char *links[] = {"l_wrist", "r_gripper", "Head", "CameraTop_optical_frame", "torso", "Tibia"};
        for (int k = 0; k < 6; ++k)
        {
            int l = t.find(links[k]);
            humoto::rbdl::TagLinkPtr tag = m.getLinkTag(links[k]);
            c.nearM(m.getTagPosition(tag), t.p[l], "tag", "position of a tag");
            c.nearM(m.getTagOrientation(tag), t.R[l], "tag", "orientation of a tag");
            if (!jacobians) continue;
            Eigen::MatrixXd J = t.jacobian(l, t.p[l]), X = Eigen::MatrixXd::Constant(1, 2, 7);
            m.getTagCompleteJacobian(X, tag);
            c.nearM(X, J, "tag-jacobian", "complete Jacobian of a tag");
            m.getTagOrientationJacobian(X, tag);
            c.nearM(X, J.topRows(3), "tag-jacobian", "rotational Jacobian of a tag");
        }
        if (!jacobians) return;
        Eigen::MatrixXd X = Eigen::MatrixXd::Constant(1, 2, 7);
        m.getCoMJacobian(X); c.nearM(X, t.comJacobian(all), "jacobian", "Jacobian of the CoM of the robot");
        m.getBaseCoMJacobian(X); c.nearM(X, t.comJacobian(base), "jacobian", "Jacobian of the CoM of the base");
        m.getBodyCoMJacobian(X); c.nearM(X, t.comJacobian(body), "jacobian", "Jacobian of the CoM of the body");
        m.getBaseOrientationJacobian(X); c.nearM(X, t.jacobian(bf, t.p[bf]).topRows(3), "jacobian", "Jacobian of the orientation of the base");
    }

    // ------------------------------------------------------------------------------------------------ descriptions
    template<int Out, int In> void reorder(mc::Ctx &c)
    {
        typedef pik::ModelDescription<Out> O;
        typedef pik::ModelDescription<In> I;
        for (int rows = 1; rows <= 3; ++rows)
        {
            Eigen::MatrixXd x(rows, (int) I::DOF_NUMBER);
            for (int i = 0; i < x.rows(); ++i) for (int k = 0; k < x.cols(); ++k) x(i, k) = 100 * i + k;
            Eigen::MatrixXd y = x;
            O::template reorderJointsColumns<Out, In>(y);
            c.check(y.rows() == rows && y.cols() == (int) O::DOF_NUMBER, "reorder", "size of a reordered matrix");
            for (size_t j = 0; j < joints<Out>().size(); ++j)
                c.nearM(y.col((int) O::ROOT_DOF_NUMBER + joints<Out>()[j].second), x.col((int) I::ROOT_DOF_NUMBER + joints<In>()[j].second), "reorder", "column of a joint", 0);
        }
    }
    template<int F> void descriptions(mc::Ctx &c)
    {
        typedef pik::ModelDescription<F> M;
        kin::Tree t = urdf<F>();
        size_t dof = t.update(F != PLANAR);
        c.check((int) M::DOF_NUMBER == (int) dof && (int) M::JOINTS_DOF_NUMBER == 15 && (int) M::ROOT_DOF_NUMBER == (F == PLANAR ? 3 : 6), "dof", "numbers of degrees of freedom");
        typename M::JointAnglesVector lo, up, vel, def, def2;
        lo.setConstant(NAN); up.setConstant(NAN); vel.setConstant(NAN); def.setConstant(NAN); def2.setConstant(NAN);
        M::getJointPositionBounds(lo, up);
        M::getJointVelocityBounds(vel);
        M::getDefaultJointAngles(def);
        pik::Model<F> model;
        pik::GeneralizedCoordinates<F> g;
        for (size_t k = 0; k < joints<F>().size(); ++k)
        {
            int i = joints<F>()[k].second;
            const std::string &n = joints<F>()[k].first;
            c.check(t.order[(int) M::ROOT_DOF_NUMBER + i] == n, "order", "index of the joint " + n);
            const kin::Link &l = t.links[byJoint(t, n)];
            c.near(lo(i), l.lower, "limits", "lower limit of a joint");
            c.near(up(i), l.upper, "limits", "upper limit of a joint");
            c.near(vel(i), l.velocity, "limits", "limit of velocity of a joint");
            c.near(model.constraints_.joint_position_bounds_min_(i), l.lower, "limits", "lower limit of a joint in the model");
            c.near(model.constraints_.joint_position_bounds_max_(i), l.upper, "limits", "upper limit of a joint in the model");
            c.near(model.constraints_.joint_velocity_bounds_(i), l.velocity, "limits", "limit of velocity of a joint in the model");
            c.check(def(i) >= l.lower && def(i) <= l.upper, "default", "the default angle of the joint " + n);
            c.near(g.joint_angles_(i), def(i), "default", "default generalized coordinates");
            // the limits are those of the original robot
            const kin::Link &o = original().links[byJoint(original(), n)];
            c.near(lo(i), o.lower, "limits", "lower limit of a joint of the original robot");
            c.near(up(i), o.upper, "limits", "upper limit of a joint of the original robot");
            c.near(vel(i), o.velocity, "limits", "limit of velocity of a joint of the original robot");
        }
        // the base stands on the ground in the configurations which are given with the module
        {
            pik::GeneralizedCoordinates<F> s;
            s.template readConfig<humoto::config::yaml::Reader>(config(std::string("initial_state_pepper_ik_") + Info<F>::name() + "_default.yaml"));
            kin::Tree k = kinematics(s);
            int bf = k.find("base_footprint");
            std::stringstream q; q << k.p[bf].transpose() << " " << k.R[bf](2, 2);
            c.check(std::fabs(k.p[bf](2)) < 1e-2 && k.R[bf](2, 2) > 0.98, "default", "the default configuration is on the ground: " + q.str());
        }
        std::vector<std::string> base(1, "garbage"), body(1, "garbage");
        M::getBaseLinksStringIds(base); M::getBodyLinksStringIds(body);
        // they comprise everything without common parts
        std::vector<int> b, o;
        for (size_t i = 0; i < base.size(); ++i) { c.check(t.find(base[i]) >= 0, "links", "a link of the base"); std::vector<int> x = groupOf(t, t.find(base[i])); b.insert(b.end(), x.begin(), x.end()); }
        for (size_t i = 0; i < body.size(); ++i) { c.check(t.find(body[i]) >= 0, "links", "a link of the body"); std::vector<int> x = groupOf(t, t.find(body[i])); o.insert(o.end(), x.begin(), x.end()); }
        std::sort(b.begin(), b.end()); std::sort(o.begin(), o.end());
        std::vector<int> rb = baseLinks(t), ro = bodyLinks(t);
        // massless links are irrelevant
        auto massive = [&] (std::vector<int> v) { std::vector<int> r; for (size_t i = 0; i < v.size(); ++i) if (t.links[v[i]].mass != 0) r.push_back(v[i]); std::sort(r.begin(), r.end()); return r; };
        c.check(massive(b) == massive(rb), "links", "links of the base");
        c.check(massive(o) == massive(ro), "links", "links of the body");
        std::string id;
        M::getBaseOrientationLinkStringId(id); c.check(std::find(rb.begin(), rb.end(), t.find(id)) != rb.end(), "links", "the link which determines orientation of the base");
        M::getBasePositionLinkStringId(id); c.check(std::find(rb.begin(), rb.end(), t.find(id)) != rb.end(), "links", "the link which determines position of the base");

        // rolling without slipping of the wheels of the original robot
        etools::Matrix3 W = M::getRootMotionToWheelsTransform();
        etools::Vector3 wmax; wmax.setConstant(NAN);
        M::getMaxWheelVelocities(wmax);
        kin::Tree w = original();
        w.update(true);
        int bf = w.find("base_footprint");
        const char *wheels[] = {"WheelFL", "WheelFR", "WheelB"};
        for (int k = 0; k < 3; ++k)
        {
            int l = byJoint(w, wheels[k]);
            c.check(l >= 0, "wheels", "there is no wheel in the original model");
            M3 R = w.R[bf].transpose() * w.R[l];
            V3 p = w.R[bf].transpose() * (w.p[l] - w.p[bf]), tangent = -R.col(1);
            Eigen::RowVector3d e;
            e << tangent(0), tangent(1), tangent.dot(V3(0, 0, 1).cross(p));
            c.nearM(W.row(k), Eigen::RowVector3d(e / 0.07), "wheels", "velocity of a wheel", 2e-3);
            c.near(wmax(k), w.links[l].velocity, "wheels", "limit of velocity of a wheel");
            c.near(model.constraints_.wheel_velocities_max_(k), w.links[l].velocity, "wheels", "limit of velocity of a wheel in the model");
        }
        reorder<F, TORSO>(c); reorder<F, TIBIA>(c); reorder<F, PLANAR>(c);
        c.state(Info<F>::name());
    }

    // ------------------------------------------------------------------------------------------------ states
    template<int F> void rootPose(mc::Ctx &c, pik::GeneralizedCoordinates<F> &g, const V3 &p, const V3 &rpy)
    {
        pik::GeneralizedCoordinates<F> e = g;
        setRoot(e, p, rpy);
        etools::Vector3 x;
        c.step("root");
        g.setRootPosition(p);
        g.setRootOrientation(rpy);
        Eigen::VectorXd rp = g.root_pose_;
        c.nearM(F == PLANAR ? kin::rpy(V3(0, 0, rp(2))) : M3(kin::rot(0, rp(3)) * kin::rot(1, rp(4)) * kin::rot(2, rp(5))), kin::rpy(rpy), "root", "orientation of the root");
        c.nearM(g.root_pose_.head(F == PLANAR ? 2 : 3), p.head(F == PLANAR ? 2 : 3), "root", "position of the root", 0);
        x.setConstant(NAN); g.getRootPosition(x); c.nearM(x, p, "root", "position of the root which is read back");
        x.setConstant(NAN); g.getRootOrientation(x); c.nearM(kin::rpy(x), kin::rpy(rpy), "root", "orientation of the root which is read back");
        Eigen::VectorXd v = g.asVector(), w(g.root_pose_.size() + g.joint_angles_.size());
        w << g.root_pose_, g.joint_angles_;
        c.nearM(v, w, "root", "vector of coordinates", 0);
        g = e;
    }
    template<int F> void states(mc::Ctx &c)
    {
        Robot<F> r;
        pik::GeneralizedCoordinates<F> g, last;
        last = g;
        compareModel(c, r.model, g, true);          // loaded models are in the default state
        // all states are independent of the previous ones
        size_t first = c.choose(7, "orientation of the root");
        int begin = c.choose(3, "position of the root");
        for (int k = 0; k < PATTERNS; ++k)
        {
            pik::GeneralizedCoordinates<F> s;
            pattern(s, k);
            V3 p = planarOnly(F, root_positions[(begin + k) % 3], true), a = planarOnly(F, root_angles[(first + k) % 7], false);
            rootPose(c, s, p, a);
            c.step("update");
            r.model.updateState(s);
            compareModel(c, r.model, s, true);

            // the root of the default model
            kin::Tree t = kinematics(s);
            rigidbody::RigidBodyPose pose = r.model.getTorsoRootPose();
            pik::GeneralizedCoordinates<TORSO> e;
            setRoot(e, pose.position_, pose.rpy_);
            for (size_t j = 0; j < joints<F>().size(); ++j) e.joint_angles_(joints<TORSO>()[j].second) = s.joint_angles_(joints<F>()[j].second);
            kin::Tree tt = kinematics(e);
            const char *links[] = {"Head", "l_wrist", "r_wrist", "base_footprint", "CameraTop_optical_frame"};
            for (int j = 0; j < 5; ++j)
            {
                c.nearM(tt.p[tt.find(links[j])], t.p[t.find(links[j])], "torso", "position of a link of the default model", 1e-7);
                c.nearM(tt.R[tt.find(links[j])], t.R[t.find(links[j])], "torso", "orientation of a link of the default model", 1e-7);
            }
            // errors
            pik::MotionParameters mp, err;
            mp.base_com_position_ = V3(0.1, -0.2, 0.3); mp.body_com_position_ = V3(-0.4, 0.5, 0.6); mp.base_orientation_rpy_ = root_angles[k % 7];
            c.step("error");
            r.model.getStateError(err, mp);
            c.nearM(err.base_com_position_, V3(mp.base_com_position_ - t.com(baseLinks(t))), "error", "error of the base");
            c.nearM(err.body_com_position_, V3(mp.body_com_position_ - t.com(bodyLinks(t))), "error", "error of the body");
            c.nearM(err.base_orientation_rpy_, rotationError(t.R[t.find("base_footprint")], kin::rpy(mp.base_orientation_rpy_)), "error", "error of orientation");
        }
        // unsupported motions of the planar root
        if (F == PLANAR)
        {
            for (int k = 0; k < 3; ++k)
            {
                bool threw = false;
                V3 v(1, 2, 0), a(0, 0, 0.5);
                if (k == 0) v(2) = 0.1; else a(k - 1) = 0.1;
                try { if (k == 0) g.setRootPosition(v); else g.setRootOrientation(a); } catch (const std::runtime_error &) { threw = true; }
                c.check(threw, "planar", "unsupported motion of a planar root must be reported");
                c.nearM(g.root_pose_, last.root_pose_, "planar", "the state is not changed by a wrong request", 0);
            }
        }
        // a model of another robot
        {
            bool threw = false;
            pik::Model<F> m;
            try { m.loadParameters(config(F == PLANAR ? Info<TIBIA>::urdf() : Info<PLANAR>::urdf())); } catch (const std::runtime_error &) { threw = true; }
            if (F == PLANAR) c.check(threw, "wrong-model", "a model of a wrong robot must be reported");
            threw = false;
            try { m.loadParameters(config("nonexistent.urdf")); } catch (const std::runtime_error &) { threw = true; }
            c.check(threw, "wrong-model", "a missing model must be reported");
        }
        std::stringstream s; s << Info<F>::name() << first << begin; c.state(s.str());
    }

    // ------------------------------------------------------------------------------------------------ transitions
    template<int F> struct Oracle
    {
        const kin::Tree &t;
        Oracle() : t(urdf<F>()) {}
        bool positions(const Eigen::VectorXd &q) const
        {
            for (size_t k = 0; k < joints<F>().size(); ++k)
            {
                const kin::Link &l = t.links[byJoint(t, joints<F>()[k].first)];
                double x = q(joints<F>()[k].second);
                if (!(x >= l.lower - 1e-7 && x <= l.upper + 1e-7)) return false;
            }
            return true;
        }
        bool velocities(const Eigen::VectorXd &a, const Eigen::VectorXd &b, double dt) const
        {
            for (size_t k = 0; k < joints<F>().size(); ++k)
                if (std::fabs(a(joints<F>()[k].second) - b(joints<F>()[k].second)) > dt * t.links[byJoint(t, joints<F>()[k].first)].velocity) return false;
            return true;
        }
    };
    // other robots of the same structure: masses, lengths and the numbering of links are different
    std::string variant(const std::string &text, int k)
    {
        std::string out = text;
        const char *name[] = {"<mass", "<origin"}, *attribute[] = {"value=\"", "xyz=\""};
        for (int what = 0; what < 2; ++what)
        {
            size_t at = 0;
            int n = 0;
            while ((at = out.find(name[what], at)) != std::string::npos)
            {
                at = out.find(attribute[what], at) + strlen(attribute[what]);
                size_t end = out.find('"', at);
                std::stringstream in(out.substr(at, end - at)), q;
                q << std::setprecision(17);
                double x, f = 1 + 0.1 * k * (1 + n % 3);
                bool sep = false;
                while (in >> x) { q << (sep ? " " : "") << x * f; sep = true; }
                out.replace(at, end - at, q.str());
                ++n;
            }
        }
        // one more link
        std::stringstream l;
        l << "<link name=\"Extra" << k << "\"><inertial><mass value=\"" << 0.25 * k << "\"/><origin xyz=\"0.1 0.2 " << k << "\" rpy=\"0 0 0\"/>"
          << "<inertia ixx=\"1\" ixy=\"0\" ixz=\"0\" iyy=\"1\" iyz=\"0\" izz=\"1\"/></inertial></link>"
          << "<joint name=\"AAA\" type=\"fixed\"><parent link=\"" << (k == 1 ? "Head" : "l_wrist") << "\"/><child link=\"Extra" << k << "\"/><origin xyz=\"0.05 0 0.1\" rpy=\"0 0.3 0\"/></joint>";
        size_t end = out.rfind("</robot>");
        out.insert(end, l.str());
        return out;
    }
    template<int F> void reloads(mc::Ctx &c)
    {
        static std::vector<std::string> files(1, config(Info<F>::urdf()));
        static std::vector<kin::Tree> trees(1, urdf<F>());
        std::vector<std::shared_ptr<cfg::File> > keep;
        for (int k = 1; k < 3; ++k)
        {
            std::ifstream in(files[0].c_str());
            std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            keep.push_back(std::shared_ptr<cfg::File>(new cfg::File));
            keep.back()->put(variant(text, k));
            if ((int) trees.size() <= k) trees.push_back(kin::load(keep.back()->path));
        }
        Robot<F> r;
        int current = 0, depth = c.thorough ? 5 : 4;
        std::stringstream trace;
        trace << Info<F>::name();
        for (int step = 0; step < depth; ++step)
        {
            int op = c.choose(7, "operation");
            trace << " " << op;
            if (op == 6) { c.step("save"); r.model.saveCurrentState(); }
            else if (op < 3) { c.step("load"); r.model.loadParameters(op ? keep[op - 1]->path : files[0]); current = op; }
            else
            {
                pik::GeneralizedCoordinates<F> g;
                if (op > 3) { pattern(g, op - 3); setRoot(g, planarOnly(F, root_positions[op - 3], true), planarOnly(F, root_angles[op - 3], false)); }
                c.step("update");
                r.model.updateState(g);
            }
            OtherRobot o(&trees[current]);
            compareModel(c, r.model, r.model.getState(), step + 1 == depth);
            c.state(trace.str());
        }
    }

    template<class T> bool throws(T f) { try { f(); } catch (const std::runtime_error &) { return true; } return false; }

    // motions of the root between states which are used in histories: translation along x, y; yaw
    template<int F> pik::GeneralizedCoordinates<F> stateOf(int k)
    {
        pik::GeneralizedCoordinates<F> g;
        V3 p(0, 0, 0), a(0, 0, 0);
        if (F == TORSO) { p << 0.0135554392293566, 0.0, 0.819715156461154; a << 0, 0.05, 0; }
        if (F == TORSO)
        {
            // stand still: compensate pitch of the legs
            setRoot(g, p, V3(0, 0, 0));
            kin::Tree t = kinematics(g);
            const M3 &R = t.R[t.find("base_footprint")];
            a(1) = -std::atan2(R(0, 2), R(2, 2));
        }
        const std::vector<std::pair<std::string, int> > &j = joints<F>();
        if (k == 1) { p += V3(0.002, 0.001, 0); a(2) += 0.005; g.joint_angles_(j[4].second) += 0.01; }
        if (k == 2) { p += V3(0.3, -0.2, 0); a(2) += 0.4; for (size_t i = 0; i < j.size(); ++i) g.joint_angles_(j[i].second) += (i % 2 ? -1 : 1) * 0.002; }
        if (k == 3) { const kin::Link &l = urdf<F>().links[byJoint(urdf<F>(), j[3].first)]; g.joint_angles_(j[3].second) = l.upper + 2e-7; }
        if (k == 4) { const kin::Link &l = urdf<F>().links[byJoint(urdf<F>(), j[11].first)]; g.joint_angles_(j[11].second) = l.lower - 0.5e-7; a(2) = 0.4; }
        if (k == 5) g.joint_angles_(j[14].second) = NAN;
        setRoot(g, p, a);
        return g;
    }
    template<int F> void histories(mc::Ctx &c)
    {
        Robot<F> r;
        Oracle<F> oracle;
        typedef pik::GeneralizedCoordinates<F> G;
        G cur, saved;
        bool have_saved = false, have_command = false;
        pik::RobotCommand cmd;
        int depth = c.thorough ? 5 : 4;
        std::stringstream trace;
        trace << Info<F>::name();
        for (int step = 0; step < depth; ++step)
        {
            int op = c.choose(5, "operation");
            trace << " " << op;
            if (op == 0)
            {
                int k = c.choose(6, "state");
                if (k == 5 && step + 2 < depth) throw mc::Prune();      // NaN only at the end: nothing else can be compared
                cur = stateOf<F>(k);
                trace << k;
                c.step("update");
                r.model.updateState(cur);
            }
            if (op == 1)
            {
                c.step("save");
                r.model.saveCurrentState();
                saved = cur;
                have_saved = true;
            }
            if (op == 2)
            {
                double dt = c.flip("long interval") ? 1.0 : 0.01;
                trace << dt;
                c.step("command");
                pik::RobotCommand x;
                bool threw = throws([&] () { r.model.getRobotCommand(x, dt); });
                if (!have_saved) { c.check(threw, "unsaved", "commands require a saved state"); continue; }
                bool ok = oracle.positions(cur.joint_angles_) && oracle.velocities(saved.joint_angles_, cur.joint_angles_, dt);
                if (!ok) { c.check(threw, "limits", "violation of limits of joints must be reported"); continue; }
                kin::Tree a = kinematics(saved), b = kinematics(cur);
                int bf = a.find("base_footprint");
                V3 v = (b.p[bf] - a.p[bf]) / dt;
                Eigen::AngleAxisd rel(M3(b.R[bf] * a.R[bf].transpose()));
                double w = rel.angle() * rel.axis()(2), tol = std::pow(rel.angle(), 3) / 6 / dt * 1.01 + 1e-8 / dt;
                bool level = b.R[bf](2, 2) > 1 - 1e-9;
                etools::Matrix3 W = pik::ModelDescription<F>::getRootMotionToWheelsTransform();
                V3 local = kin::rot(2, -std::atan2(b.R[bf](1, 0), b.R[bf](0, 0))) * V3(v(0), v(1), w / dt);
                V3 wheels = W * local;
                double worst = wheels.cwiseAbs().maxCoeff(), slack = 10 * tol + 1e-6;
                if (!level && !threw) { c.note("tilted base"); continue; }
                if (!level) continue;
                if (worst > 6.28319 + slack) { c.check(threw, "limits", "violation of limits of wheels must be reported"); continue; }
                if (worst > 6.28319 - slack) continue;
                c.check(!threw, "limits", "an admissible command was refused");
                cmd = x;
                have_command = true;
                c.nearM(cmd.joint_angles_, cur.joint_angles_, "command", "joint angles", 0);
                c.near(cmd.base_velocities_(0), v(0), "command", "velocity of the base along X", 1e-7);
                c.near(cmd.base_velocities_(1), v(1), "command", "velocity of the base along Y", 1e-7);
                c.check(std::fabs(cmd.base_velocities_(2) - w / dt) <= tol, "command", "angular velocity of the base");
                V3 expected = W * (kin::rot(2, -std::atan2(b.R[bf](1, 0), b.R[bf](0, 0))) * V3(cmd.base_velocities_));
                c.nearM(cmd.wheel_velocities_, expected, "command", "velocities of the wheels", 1e-7);
                c.near(cmd.time_interval_, dt, "command", "time interval", 0);
            }
            if (op == 3 || op == 4)
            {
                if (!have_command) throw mc::Prune();
                static const double times[] = {0.0, -0.01, 0.004, 0.02};
                double time = times[c.choose(F == PLANAR ? 4 : 3, "delay")];
                int k = op == 4 ? c.choose(3, "state") : 0;
                trace << time << k;
                if (op == 3 && !(cur.joint_angles_ == cur.joint_angles_)) throw mc::Prune();
                G from = op == 4 ? stateOf<F>(k) : cur;
                c.step("correct");
                bool threw = throws([&] () { if (op == 3) r.model.correct(cmd, time); else r.model.correct(from, cmd, time); });
                if (time > 0 && F != PLANAR) { c.check(threw, "unsupported", "correction of this model must be reported"); throw mc::Prune(); }
                c.check(!threw, "correct", "correction failed");
                cur = from;
                if (time > 0)
                {
                    V3 p(cur.root_pose_(0), cur.root_pose_(1), 0), a(0, 0, cur.root_pose_(2));
                    p(0) += time * cmd.base_velocities_(0); p(1) += time * cmd.base_velocities_(1); a(2) += time * cmd.base_velocities_(2);
                    cur.joint_angles_ += (cmd.joint_angles_ - cur.joint_angles_) * (time / cmd.time_interval_);
                    setRoot(cur, p, a);
                    c.nearM(r.model.getState().root_pose_, cur.root_pose_, "correct", "corrected pose of the root");
                    c.nearM(r.model.getState().joint_angles_, cur.joint_angles_, "correct", "corrected joint angles");
                    cur = r.model.getState();
                }
            }
            // checks do not change anything
            c.step("check the state");
            c.check(throws([&] () { r.model.checkCurrentState(); }) == !oracle.positions(cur.joint_angles_), "limits", "check of the current state");
            for (int v = 0; v < 16; ++v)
            {
                bool two = v & 1;
                int k = (v >> 1) & 3;
                double dt = v & 8 ? 1.0 : 0.01;
                G from = stateOf<F>(k), to = two ? stateOf<F>((k + 1) % 4) : cur;
                if (k == 3 && two) to = stateOf<F>(0), from = stateOf<F>(0), to.joint_angles_(joints<F>()[7].second) += 0.02;
                bool threw = throws([&] () { if (two) r.model.checkStateTransition(from, to, dt); else r.model.checkStateTransition(from, dt); });
                bool ok = oracle.positions(to.joint_angles_) && oracle.velocities(from.joint_angles_, to.joint_angles_, dt);
                if (ok)
                {
                    // the root may not move
                    Eigen::VectorXd x = from.asVector() - to.asVector();
                    double d = x.head((int) pik::ModelDescription<F>::ROOT_DOF_NUMBER).template lpNorm<Eigen::Infinity>();
                    if (d > 1e-5) ok = false;
                    else if (d != 0) continue;
                }
                c.check(threw == !ok, "transition", "check of a transition");
            }
            if (cur.joint_angles_ == cur.joint_angles_) compareModel(c, r.model, cur, step + 1 == depth);
            c.state(trace.str());
        }
    }

    // all limits of all joints and wheels
    template<int F> void limits(mc::Ctx &c)
    {
        Robot<F> r;
        Oracle<F> oracle;
        size_t j = c.choose(15, "joint");
        int index = joints<F>()[j].second;
        const kin::Link &l = urdf<F>().links[byJoint(urdf<F>(), joints<F>()[j].first)];
        static const double offsets[] = {-1, -2e-7, -0.9e-7, 0, 0.9e-7, 2e-7, 1};
        for (int side = 0; side < 2; ++side)
            for (int o = 0; o < 7; ++o)
            {
                pik::GeneralizedCoordinates<F> g = stateOf<F>(0);
                double b = side ? l.upper : l.lower;
                g.joint_angles_(index) = b + offsets[o];
                bool ok = oracle.positions(g.joint_angles_);
                r.model.updateState(g);
                c.check(throws([&] () { r.model.checkCurrentState(); }) == !ok, "limits", "check of the current state");
                c.check(throws([&] () { r.model.constraints_.checkJointPositions(g.joint_angles_); }) == !ok, "limits", "check of positions");
                r.model.saveCurrentState();
                pik::RobotCommand x;
                c.check(throws([&] () { r.model.getRobotCommand(x, 0.01); }) == !ok, "limits", "limits of positions in commands");
                c.check(throws([&] () { r.model.checkStateTransition(g, 0.01); }) == !ok, "limits", "limits of positions in transitions");
            }
        static const double factors[] = {-1.0001, -0.9999, -0.5, 0, 0.5, 0.9999, 1.0001, 3};
        for (int d = 0; d < 3; ++d)
            for (int f = 0; f < 8; ++f)
            {
                double dt = d == 0 ? 0.01 : d == 1 ? 0.003 : 1e-3;
                pik::GeneralizedCoordinates<F> a = stateOf<F>(0), b = a;
                a.joint_angles_(index) = (l.lower + l.upper) / 2;
                b.joint_angles_(index) = a.joint_angles_(index) + factors[f] * dt * l.velocity;
                bool ok = std::fabs(factors[f]) <= 1;
                r.model.updateState(a);
                r.model.saveCurrentState();
                r.model.updateState(b);
                pik::RobotCommand x;
                bool wheels = false;   // joints of the leg move the base of the default model
                if (F == TORSO) { kin::Tree ka = kinematics(a), kb = kinematics(b); int bf = ka.find("base_footprint"); wheels = (ka.p[bf] - kb.p[bf]).norm() > 1e-9 || (ka.R[bf] - kb.R[bf]).norm() > 1e-9; }
                if (!wheels) c.check(throws([&] () { r.model.getRobotCommand(x, dt); }) == !ok, "limits", "limits of velocities in commands");
                else if (!ok) c.check(throws([&] () { r.model.getRobotCommand(x, dt); }), "limits", "limits of velocities in commands");
                c.check(throws([&] () { r.model.checkStateTransition(a, dt); }) == !ok, "limits", "limits of velocities in transitions");
                c.check(throws([&] () { r.model.checkStateTransition(a, b, dt); }) == !ok, "limits", "limits of velocities in transitions of two states");
                c.check(throws([&] () { r.model.constraints_.checkJointVelocities(a.joint_angles_, b.joint_angles_, dt); }) == !ok, "limits", "check of velocities");
            }
        pik::GeneralizedCoordinates<F> n = stateOf<F>(0);
        n.joint_angles_(index) = NAN;
        c.check(throws([&] () { r.model.constraints_.checkJointPositions(n.joint_angles_); }), "limits", "wrong angles must be reported");
        for (int w = 0; w < 3; ++w)
            for (int k = 0; k < 7; ++k)
            {
                static const double v[] = {-7, -6.2832, -6.2831, 0, 6.2831, 6.2832, NAN};
                etools::Vector3 x(0.1, -0.2, 0.3);
                x(w) = v[k];
                c.check(throws([&] () { r.model.constraints_.checkWheelVelocities(x); }) == !(std::fabs(v[k]) <= 6.28319), "limits", "limits of wheels");
            }
        std::stringstream s; s << Info<F>::name() << j; c.state(s.str());
    }

    // ------------------------------------------------------------------------------------------------ tasks
    const char *tag_names[] = {"Head", "CameraTop_optical_frame", "r_gripper"};
    template<int F> struct Scene
    {
        Robot<F> r;
        pik::WBCParameters wp;
        pik::WholeBodyController<F> wbc;
        pik::MotionParameters mp;
        pik::GeneralizedCoordinates<F> g;
        SolutionStructure ss;
        std::map<std::string, etools::Vector6> vel;
        kin::Tree t;
        Scene()
        {
            for (int k = 0; k < 3; ++k) { etools::Vector6 v; for (int i = 0; i < 6; ++i) v(i) = (i % 2 ? -1 : 1) * (0.1 + 0.05 * i + 0.3 * k); vel[tag_names[k]] = v; }
            vel.erase("r_gripper");
            set(0);
        }
        void set(int k)
        {
            g = pik::GeneralizedCoordinates<F>();
            pattern(g, k == 0 ? 0 : 1 + (k - 1) % 2);
            if (k == 3) { g.joint_angles_.setZero(); g.root_pose_.setZero(); }
            if (k != 3) setRoot(g, planarOnly(F, root_positions[k % 3], true), planarOnly(F, root_angles[(2 * k) % 7], false));
            mp.base_com_position_ = V3(0.1 + k, -0.2, 0.3); mp.body_com_position_ = V3(-0.4, 0.5 + k, 0.6); mp.base_orientation_rpy_ = root_angles[(3 + k) % 7];
            if (k == 3) { mp.base_com_position_.setZero(); mp.body_com_position_.setZero(); }
            r.model.updateState(g);
            wbc.setTagsVelocity(vel);
            wbc.update(r.model, mp);
            t = kinematics(g);
            ss.reset();
            ss.addSolutionPart(pik::ROOT_VARIABLES_ID, pik::ModelDescription<F>::ROOT_DOF_NUMBER);
            ss.addSolutionPart(pik::JOINTS_VARIABLES_ID, pik::ModelDescription<F>::JOINTS_DOF_NUMBER);
        }
        // pose after one control interval
        M3 nextR(const std::string &n) const
        {
            etools::Vector6 v = etools::Vector6::Zero(); if (vel.count(n)) v = vel.at(n);
            return t.R[t.find(n)] * rotvec(0.01 * v.tail(3));
        }
        V3 nextP(const std::string &n, bool spatial) const
        {
            etools::Vector6 v = etools::Vector6::Zero(); if (vel.count(n)) v = vel.at(n);
            int l = t.find(n);
            V3 x = t.R[l] * V3(v.head(3));
            if (spatial) x += t.p[l].cross(V3(t.R[l] * V3(v.tail(3))));
            return t.p[l] + 0.01 * x;
        }
    };
    template<int F, class T> void checkAB(mc::Ctx &c, T &task, Scene<F> &s, const Eigen::MatrixXd &A, const Eigen::VectorXd &b, double tol = 1e-8)
    {
        c.step(task.getDescription());
        task.form(s.ss, s.r.model, s.wbc);
        const T &x = task;
        c.nearM(x.getA(), A, "task-A", task.getDescription().c_str());
        c.nearM(x.getB(), b, "task-b", task.getDescription().c_str(), tol);
    }
    static const double gains[] = {1.0, 0.5, 3.0};
    static const double kgains[] = {1.0, 0.3, 0.0};

    template<int F> void basicTasks(mc::Ctx &c)
    {
        typedef pik::ModelDescription<F> M;
        Scene<F> s;
        double gain = gains[c.choose(3, "gain")], k = kgains[c.choose(3, "k")];
        int flags = c.choose(9, "axes");
        pik::TaskBaseCoMTracking<F> base(gain, k);
        pik::TaskBodyCoMTracking<F> body(gain, k, flags, "name");
        pik::TaskBaseOrientation<F> orient(gain, k);
        pik::TaskJointsReference<F> ref(gain, k);
        pik::TaskFixArms<F> arms;
        pik::TaskFixHead<F> head;
        pik::TaskJointsBounds<F> bounds;
        c.check(base.getDescription() == "TaskBaseCoMTracking" && body.getDescription() == "name" && orient.getDescription() == "TaskBaseOrientation" && ref.getDescription() == "TaskJointsReference"
                && arms.getDescription() == "TaskFixArms" && head.getDescription() == "TaskFixHead" && bounds.getDescription() == "TaskJointsBounds" && pik::TaskBodyCoMTracking<F>().getDescription() == "TaskBodyCoMTracking", "names", "names of tasks");
        for (int step = 0; step < 4; ++step)
        {
            s.set((step + flags) % 4);
            std::vector<int> bl = baseLinks(s.t), ol = bodyLinks(s.t);
            Eigen::MatrixXd A = s.t.comJacobian(bl);
            Eigen::VectorXd b = s.mp.base_com_position_ - s.t.com(bl);
            int rows = F == PLANAR ? 2 : 3;
            checkAB(c, base, s, gain * A.topRows(rows), gain * k * b.head(rows));
            int bf = s.t.find("base_footprint");
            A = s.t.jacobian(bf, s.t.p[bf]).topRows(3);
            b = rotationError(s.t.R[bf], kin::rpy(s.mp.base_orientation_rpy_));
            rows = F == PLANAR ? 1 : 3;
            checkAB(c, orient, s, gain * A.bottomRows(rows), gain * k * b.tail(rows));
            A = s.t.comJacobian(ol);
            b = s.mp.body_com_position_ - s.t.com(ol);
            if (flags == 0 || flags == 8) c.check(throws([&] () { body.form(s.ss, s.r.model, s.wbc); }), "axes", "wrong axes must be reported");
            else
            {
                Eigen::MatrixXd X(0, A.cols()); Eigen::VectorXd y(0);
                for (int i = 0; i < 3; ++i)
                    if (flags & (i == 0 ? 1 : i == 1 ? 2 : 4))
                    {
                        X.conservativeResize(X.rows() + 1, A.cols()); y.conservativeResize(y.size() + 1);
                        X.row(X.rows() - 1) = A.row(i); y(y.size() - 1) = b(i);
                    }
                checkAB(c, body, s, gain * X, gain * k * y);
            }
            // simple tasks
            int off = M::ROOT_DOF_NUMBER;
            c.step("joints");
            ref.form(s.ss, s.r.model, s.wbc);
            arms.form(s.ss, s.r.model, s.wbc); head.form(s.ss, s.r.model, s.wbc); bounds.form(s.ss, s.r.model, s.wbc);
            const pik::TaskJointsReference<F> &cr = ref; const pik::TaskFixArms<F> &ca = arms; const pik::TaskFixHead<F> &ch = head; const pik::TaskJointsBounds<F> &cb = bounds;
            // each listed variable is treated as described, whatever is the order
            std::map<std::string, int> seen;
            typename M::JointAnglesVector def; M::getDefaultJointAngles(def);
            c.check(cr.getIndices().size() == 15 && cr.getB().size() == 15 && cr.getIGains().size() == 15, "joints-reference", "number of joints");
            std::set<int> ids;
            for (int i = 0; i < 15; ++i)
            {
                int v = cr.getIndices()(i) - off;
                c.check(v >= 0 && v < 15 && ids.insert(v).second, "joints-reference", "index of a joint");
                c.near(cr.getIGains()(i), gain, "joints-reference", "gain");
                c.near(cr.getB()(i), gain * k * (def(v) - s.g.joint_angles_(v)), "joints-reference", "desired motion of a joint");
            }
            ids.clear();
            c.check(cb.getIndices().size() == 15 && cb.getLowerBounds().size() == 15 && cb.getUpperBounds().size() == 15, "joints-bounds", "number of joints");
            for (int i = 0; i < 15; ++i)
            {
                int v = cb.getIndices()(i) - off;
                c.check(v >= 0 && v < 15 && ids.insert(v).second, "joints-bounds", "index of a joint");
                const kin::Link &l = s.t.links[byJoint(s.t, s.t.order[off + v])];
                c.near(cb.getLowerBounds()(i), l.lower - s.g.joint_angles_(v), "joints-bounds", "lower bound");
                c.near(cb.getUpperBounds()(i), l.upper - s.g.joint_angles_(v), "joints-bounds", "upper bound");
            }
            std::set<std::string> fixed;
            for (int i = 0; i < (int) ca.getIndices().size(); ++i) fixed.insert(s.t.order.at(ca.getIndices()(i)));
            c.check(fixed == std::set<std::string>({"LShoulderPitch", "LShoulderRoll", "LElbowYaw", "LElbowRoll", "LWristYaw", "RShoulderPitch", "RShoulderRoll", "RElbowYaw", "RElbowRoll", "RWristYaw"}) && ca.getIndices().size() == 10, "fix", "joints of arms");
            fixed.clear();
            for (int i = 0; i < (int) ch.getIndices().size(); ++i) fixed.insert(s.t.order.at(ch.getIndices()(i)));
            c.check(fixed == std::set<std::string>({"HeadYaw", "HeadPitch"}) && ch.getIndices().size() == 2, "fix", "joints of the head");
        }
        std::stringstream n; n << Info<F>::name() << gain << k << flags; c.state(n.str());
    }

    template<class T> void retag(T &task, const std::string &tag, std::vector<std::pair<std::string, Tree> > values)
    {
        cfg::File f;
        Tree t, e;
        for (size_t i = 0; i < values.size(); ++i) e.add(values[i].first, values[i].second);
        e.add("tag_string_id", Tree::str(tag));
        t.add("T", e);
        f.put(cfg::encode(cfg::MSGPACK, t, false));
        task.template readConfig<humoto::config::msgpack::Reader>(f.path, "T", true);
    }

    template<int F> void tagTasks(mc::Ctx &c)
    {
        Scene<F> s;
        s.wbc = pik::WholeBodyController<F>(s.wp);
        double gain = gains[c.choose(3, "gain")], k = kgains[c.choose(3, "k")];
        int first = c.choose(3, "tag"), second = c.choose(3, "tag after reconfiguration");
        V3 ref = root_angles[c.choose(3, "reference") * 2];
        std::string n = tag_names[first];
        pik::TaskTagOrientation<F> orient(n, ref, gain, k);
        pik::TaskTagAngularVelocity<F> angular(n, gain, k);
        pik::TaskTagCompleteVelocity<F> complete(n, gain, k);
        pik::TaskTagPose<F> pose(n, gain, k);
        pik::TaskTagPose3Dof<F> pose3(n, gain, k);
        c.check(orient.getDescription() == "TaskTagOrientation_" + n && angular.getDescription() == "TaskTagAngularVelocity_" + n && complete.getDescription() == "TaskTagCompleteVelocity_" + n
                && pose.getDescription() == "TaskTagPose_" + n && pose3.getDescription() == "TaskTagPose3Dof_" + n, "names", "names of tasks");
        bool spatial = false;
        for (int step = 0; step < 4; ++step)
        {
            if (step == 2)
            {
                // another tag, given by a configuration file
                n = tag_names[second];
                std::vector<std::pair<std::string, Tree> > v(1, std::make_pair("gain", Tree(gain)));
                v.push_back(std::make_pair("k_orientation_gain", Tree(k))); v.push_back(std::make_pair("reference_rpy", Tree::vec(ref)));
                retag(orient, n, v);
                v.resize(1); v.push_back(std::make_pair("k_angular_velocity_gain", Tree(k))); retag(angular, n, v);
                v.resize(1); v.push_back(std::make_pair("k_complete_velocity_gain", Tree(k))); retag(complete, n, v);
                v.resize(1); v.push_back(std::make_pair("k_pose_gain", Tree(k))); retag(pose, n, v); retag(pose3, n, v);
            }
            s.set(step % 3);
            int l = s.t.find(n);
            Eigen::MatrixXd J = s.t.jacobian(l, s.t.p[l]);
            M3 R = s.t.R[l];
            etools::Vector6 v = etools::Vector6::Zero(); if (s.vel.count(n)) v = s.vel[n];
            checkAB(c, orient, s, gain * J.topRows(3), gain * k * rotationError(R, kin::rpy(ref)));
            V3 w = R * V3(v.tail(3));
            checkAB(c, angular, s, gain * J.topRows(3), gain * k * w);

            // (angular, linear) velocity of the tag
            Eigen::VectorXd good(6), bad(6);
            V3 lin = R * V3(v.head(3));
            good << w, lin;
            bad << w, lin + s.t.p[l].cross(w);
            c.step("velocity");
            complete.form(s.ss, s.r.model, s.wbc);
            const pik::TaskTagCompleteVelocity<F> &cc = complete;
            c.nearM(cc.getA(), Eigen::MatrixXd(gain * J), "task-A", "TaskTagCompleteVelocity");
            if ((good - bad).norm() > 1e-6 && k != 0 && (cc.getB() - gain * k * bad).norm() < 1e-8 * (1 + bad.norm())) spatial = true;
            else c.nearM(cc.getB(), Eigen::VectorXd(gain * k * good), "task-b", "TaskTagCompleteVelocity");

            // poses: nothing is required until the desired pose is computed
            checkAB(c, pose, s, gain * J, step == 0 ? Eigen::VectorXd(Eigen::VectorXd::Zero(6)) : Eigen::VectorXd(gain * k * s.wbc.getTagPoseErrorInGlobal(s.r.model, n)));
            if (s.vel.count(n)) c.check(step == 0 ? s.wbc.tags_desired_pose_global_.empty() : true, "pose", "no desired poses");
            s.wbc.computeTagsDesiredPoseInGlobal(s.r.model);
            // the state changes, the desired pose does not
            V3 np = s.nextP(n, false), nb = s.nextP(n, true);
            M3 nr = s.nextR(n);
            bool known = s.vel.count(n) != 0;
            for (int moved = 0; moved < 2; ++moved)
            {
                if (moved) s.set((step + 1) % 3);
                V3 p = s.t.p[l];
                R = s.t.R[l];
                J = s.t.jacobian(l, p);
                Eigen::VectorXd e(6);
                e << rotationError(R, nr), np - p;
                if (!known) e.setZero();
                etools::Vector6 x = s.wbc.getTagPoseErrorInGlobal(s.r.model, n);
                // the angular velocity is integrated with a first order method
                double tol = 3 * 1e-4 * v.tail(3).squaredNorm() + 1e-9;
                c.check((x.head(3) - e.head(3)).norm() <= tol, "pose", "error of orientation");
                if (known && (nb - np).norm() > 1e-8 && (x.tail(3) - (nb - p)).norm() < 1e-9) spatial = true;
                else c.nearM(x.tail(3), e.tail(3), "pose", "error of position");
                Eigen::VectorXd full = gain * k * x;
                checkAB(c, pose, s, gain * J, full);
                full.segment(2, 3).setZero();
                checkAB(c, pose3, s, gain * J, full);
            }
        }
        std::stringstream q; q << Info<F>::name() << gain << k << first << second << ref.transpose(); c.state(q.str());
        if (spatial) c.fail("spatial-velocity", "the linear velocity of a tag does not correspond to the motion of the tag (p x w is added)");
    }

    template<int F> void velocities(mc::Ctx &c)
    {
        typedef humoto::rbdl::SpatialType ST;
        Scene<F> s;
        s.set(c.choose(3, "state"));
        pik::WholeBodyController<F> &w = s.wbc;
        int l = s.t.find("CameraTop_optical_frame");
        etools::Vector6 v = s.vel["CameraTop_optical_frame"];
        bool spatial = false;
        V3 rot = s.t.R[l] * V3(v.tail(3)), lin = s.t.R[l] * V3(v.head(3)), bad = lin + s.t.p[l].cross(rot);
        for (size_t k = 0; k < 3; ++k)
        {
            etools::Vector6 e = etools::Vector6::Zero(); if (s.vel.count(tag_names[k])) e = s.vel[tag_names[k]];
            c.nearM(w.getTagVelocityInLocal(tag_names[k], ST::COMPLETE), e, "local", "local velocity", 0);
            c.nearM(w.getTagVelocityInLocal(tag_names[k], ST::TRANSLATION), e.head(3), "local", "local linear velocity", 0);
            c.nearM(w.getTagVelocityInLocal(tag_names[k], ST::ROTATION), e.tail(3), "local", "local angular velocity", 0);
        }
        Eigen::VectorXd x = w.getTagVelocityInGlobal(s.r.model, "CameraTop_optical_frame", v, ST::ROTATION);
        c.nearM(x, rot, "global", "global angular velocity");
        for (int form = 0; form < 3; ++form)
        {
            x = form == 0 ? w.getTagVelocityInGlobal(s.r.model, "CameraTop_optical_frame", v, ST::TRANSLATION) : form == 1 ? w.getTagVelocityInGlobal(s.r.model, "CameraTop_optical_frame", v, ST::COMPLETE) : Eigen::VectorXd(w.getBaseVelocityInGlobal(s.r.model));
            if (form) { c.check(x.size() == 6, "global", "size of a global velocity"); c.nearM(x.head(3), rot, "global", "global angular velocity"); }
            if ((bad - lin).norm() > 1e-6 && (x.tail(3) - bad).norm() < 1e-8) spatial = true;
            else c.nearM(x.tail(3), lin, "global", "global linear velocity");
        }
        c.check(throws([&] () { w.getTagVelocityInLocal("Head", ST::UNDEFINED); }), "global", "wrong kind of a velocity");
        c.check(throws([&] () { w.getTagVelocityInGlobal(s.r.model, "Head", v, ST::UNDEFINED); }), "global", "wrong kind of a velocity");
        c.check(throws([&] () { w.getTagVelocityInGlobal(s.r.model, "NoSuchLink", v, ST::COMPLETE); }), "global", "wrong name of a tag");
        std::stringstream q; q << Info<F>::name() << s.mp.base_com_position_.transpose(); c.state(q.str());
        if (spatial) c.fail("spatial-velocity", "the linear velocity of a tag does not correspond to the motion of the tag (p x w is added)");
    }

    // histories of the interface of the controller
    template<int F> void controllers(mc::Ctx &c)
    {
        typedef humoto::rbdl::SpatialType ST;
        Robot<F> r;
        pik::WBCParameters wp;
        pik::WholeBodyController<F> w(wp);
        bool ready = false, parsed = false;
        std::map<std::string, etools::Vector6> vel;
        struct Pose { V3 p; M3 R; bool position; double tol; };
        std::map<std::string, Pose> desired;
        pik::GeneralizedCoordinates<F> g;
        humoto::Solution solution;
        kin::Tree t = kinematics(g);
        int depth = c.thorough ? 6 : 4, motions = 0;
        std::stringstream trace;
        trace << Info<F>::name();
        for (int step = 0; step < depth; ++step)
        {
            int op = c.choose(8, "operation");
            trace << " " << op;
            if (op == 0)
            {
                pik::MotionParameters mp;
                mp.base_com_position_ = V3(++motions, -motions, 1); mp.body_com_position_ = V3(1, motions, -motions); mp.base_orientation_rpy_ = V3(0, 0, 0.1 * motions);
                c.step("update");
                c.check(w.update(r.model, mp) == humoto::ControlProblemStatus::OK, "update", "the controller failed");
                c.nearM(w.motion_parameters_.base_com_position_, mp.base_com_position_, "update", "desired position of the base", 0);
                c.nearM(w.motion_parameters_.body_com_position_, mp.body_com_position_, "update", "desired position of the body", 0);
                c.nearM(w.motion_parameters_.base_orientation_rpy_, mp.base_orientation_rpy_, "update", "desired orientation of the base", 0);
                ready = true; parsed = false;
                solution.initialize(w.getSolutionStructure());
                c.check((int) solution.x_.size() == (int) pik::ModelDescription<F>::DOF_NUMBER, "update", "number of variables");
                for (int i = 0; i < solution.x_.size(); ++i) solution.x_(i) = 0.001 * (i + 1) * motions;
            }
            if (op >= 1 && op <= 3)
            {
                // linear and angular velocities separately: see the known finding
                vel.clear();
                etools::Vector6 a, b;
                a << 0.3 * op, -0.2, 0.1, 0, 0, 0; b << 0, 0, 0, 0.2, -0.1 * op, 0.3;
                if (op == 1) { vel["Head"] = a; vel["r_gripper"] = b; }
                if (op == 2) vel["Head"] = b;
                c.step("velocities");
                w.setTagsVelocity(vel);
            }
            if (op == 4)
            {
                c.step("desired poses");
                w.computeTagsDesiredPoseInGlobal(r.model);
                desired.clear();
                for (std::map<std::string, etools::Vector6>::iterator i = vel.begin(); i != vel.end(); ++i)
                {
                    int l = t.find(i->first);
                    Pose d;
                    d.R = t.R[l] * rotvec(0.01 * i->second.tail(3));
                    d.p = t.p[l] + 0.01 * (t.R[l] * V3(i->second.head(3)));
                    d.position = i->second.tail(3).norm() == 0;
                    d.tol = 3 * 1e-4 * i->second.tail(3).squaredNorm() + 1e-9;
                    desired[i->first] = d;
                }
            }
            if (op == 5)
            {
                if (!ready) throw mc::Prune();
                c.step("parse");
                pik::GeneralizedCoordinates<F> next;
                bool threw = throws([&] () { next = w.getNextGeneralizedCoordinates(solution, r.model); });
                c.check(threw == parsed, "parsed", "a solution may be parsed once");
                if (!threw) c.nearM(Eigen::VectorXd(next.asVector()), Eigen::VectorXd(g.asVector() + solution.x_), "next", "next state", 1e-14);
                parsed = true;
            }
            if (op >= 6)
            {
                g = pik::GeneralizedCoordinates<F>();
                if (op == 7) { pattern(g, 1); setRoot(g, planarOnly(F, root_positions[1], true), planarOnly(F, root_angles[2], false)); }
                c.step("state");
                r.model.updateState(g);
                t = kinematics(g);
            }
            pik::GeneralizedCoordinates<F> same;
            bool threw = throws([&] () { same = w.getNextGeneralizedCoordinates(r.model); });
            c.check(threw == !parsed, "parsed", "the next state is available only after parsing of a solution");
            if (!threw) c.nearM(Eigen::VectorXd(same.asVector()), Eigen::VectorXd(g.asVector()), "next", "current state", 0);
            for (int k = 0; k < 3; ++k)
            {
                std::string n = tag_names[k];
                etools::Vector6 v = etools::Vector6::Zero();
                if (vel.count(n)) v = vel[n];
                c.nearM(w.getTagVelocityInLocal(n, ST::COMPLETE), v, "local", "local velocity", 0);
                c.nearM(w.getTagVelocityInLocal(n, ST::TRANSLATION), v.head(3), "local", "local linear velocity", 0);
                c.nearM(w.getTagVelocityInLocal(n, ST::ROTATION), v.tail(3), "local", "local angular velocity", 0);
                if (!desired.count(n)) continue;
                const Pose &d = desired[n];
                int l = t.find(n);
                etools::Vector6 x = w.getTagPoseErrorInGlobal(r.model, n);
                c.check((x.head(3) - rotationError(t.R[l], d.R)).norm() <= d.tol, "pose", "error of orientation");
                if (d.position) c.nearM(x.tail(3), V3(d.p - t.p[l]), "pose", "error of position");
            }
            c.state(trace.str());
        }
    }

    // ------------------------------------------------------------------------------------------------ closed loops
    template<class P> struct Stack : public P { using P::pushTask; };
    template<int F> void loops(mc::Ctx &c)
    {
        Robot<F> r;
        pik::WBCParameters wp;
        wp.readConfig<humoto::config::yaml::Reader>(config("wbc_parameters.yaml"));
        pik::MotionParameters mp;
        mp.readConfig<humoto::config::yaml::Reader>(config("motion_parameters_default.yaml"));
        pik::GeneralizedCoordinates<F> g;
        g.template readConfig<humoto::config::yaml::Reader>(config(std::string("initial_state_pepper_ik_") + Info<F>::name() + "_default.yaml"));
        r.model.updateState(g);
        static const char *planar[] = {"Hierarchy00", "Hierarchy02", "Hierarchy03", "Hierarchy04"};
        std::string h = planar[F == PLANAR ? c.choose(4, "hierarchy") : 0];
        // the elimination requires a diagonal Hessian
        int method = h == "Hierarchy02" ? 0 : c.choose(2, "method");
        humoto::kktsolver::SolverParameters sp;
        sp.solution_method_ = method ? humoto::kktsolver::SolverParameters::CONSTRAINT_ELIMINATION_LLT : humoto::kktsolver::SolverParameters::LU;
        humoto::kktsolver::Solver solver(sp);
        pik::ConfigurableOptimizationProblem<F> problem;
        problem.template readConfig<humoto::config::yaml::Reader>(config(std::string("hierarchies_") + (F == PLANAR ? "planar" : "torso") + ".yaml"), h);
        pik::WholeBodyController<F> wbc(wp);
        humoto::Solution solution;
        int direction = c.choose(3, "direction");
        V3 inc = direction == 0 ? V3(0.0005, -0.0006, 0) : direction == 1 ? V3(0.002, 0.001, 0) : V3(0, 0, 0);
        double yaw = direction == 2 ? 0.01 : 0.0;
        // a known configuration at first, then motion
        int steps = c.thorough ? 400 : 100, converged = 0;
        mp.base_com_position_ = r.model.getBaseCoM();
        mp.body_com_position_ = r.model.getBodyCoM();
        mp.base_orientation_rpy_ = F == PLANAR ? V3(0, 0, 0) : V3(rigidbody::convertMatrixToEulerAngles(r.model.getBaseOrientation(), rigidbody::EulerAngles::RPY));
        V3 start = mp.base_com_position_, foot = r.model.getBasePosition();
        V3 rel = start - foot, brel = mp.body_com_position_ - foot;
        for (int i = 0; i < steps; ++i)
        {
            foot += inc;
            double a = yaw * (i + 1);
            mp.base_com_position_ = foot + kin::rot(2, a) * rel;
            mp.body_com_position_ = foot + kin::rot(2, a) * brel;
            mp.base_orientation_rpy_(2) += yaw;
            r.model.saveCurrentState();
            bool done = false;
            for (size_t j = 0; j < wp.maximal_number_of_iterations_ && !done; ++j)
            {
                c.step("update");
                c.check(wbc.update(r.model, mp) == humoto::ControlProblemStatus::OK, "update", "the controller failed");
                c.step("form");
                problem.form(solution, r.model, wbc);
                c.step("solve");
                solver.solve(solution, problem);
                if (i == 0) c.check(throws([&] () { wbc.getNextGeneralizedCoordinates(r.model); }), "parsed", "the next state before a solution");
                // the solution is a motion from the current state
                pik::GeneralizedCoordinates<F> next = wbc.getNextGeneralizedCoordinates(solution, r.model);
                Eigen::VectorXd e = r.model.getState().asVector() + solution.x_;
                c.nearM(Eigen::VectorXd(next.asVector()), e, "next", "next state");
                if (i == 0) c.check(throws([&] () { wbc.getNextGeneralizedCoordinates(solution, r.model); }), "parsed", "a solution may be parsed only once");
                if (i == 0 && j == 0)
                {
                    // linearized tasks of the first level
                    kin::Tree t = kinematics(r.model.getState());
                    std::vector<int> bl = baseLinks(t), ol = bodyLinks(t);
                    int rows = F == PLANAR ? 2 : 3;
                    V3 eb = mp.base_com_position_ - t.com(bl), eo = mp.body_com_position_ - t.com(ol);
                    Eigen::VectorXd x = solution.x_;
                    if (h != "Hierarchy02") c.nearM(Eigen::VectorXd((t.comJacobian(bl) * x).head(rows)), Eigen::VectorXd(eb.head(rows)), "level", "motion of the base", 1e-6);
                    c.nearM(Eigen::VectorXd(t.comJacobian(ol) * x), Eigen::VectorXd(eo), "level", "motion of the body", 1e-6);
                    if (h == "Hierarchy03" || h == "Hierarchy04") for (int q = 0; q < (int) t.order.size(); ++q) if (t.order[q][0] == 'L' || (t.order[q][0] == 'R' && t.order[q] != "root")) if (t.order[q].find("Shoulder") != std::string::npos || t.order[q].find("Elbow") != std::string::npos || t.order[q].find("Wrist") != std::string::npos) c.check(std::fabs(x(q)) < 1e-9, "level", "motion of arms");
                    if (h == "Hierarchy00")
                    {
                        // no feasible motion is better for the second level: its gradient is in the row space of the first one
                        Eigen::MatrixXd A(rows + 3 + (F == PLANAR ? 1 : 3), x.size());
                        int bf = t.find("base_footprint");
                        A << t.comJacobian(bl).topRows(rows), t.comJacobian(ol), t.jacobian(bf, t.p[bf]).topRows(3).bottomRows(F == PLANAR ? 1 : 3);
                        Eigen::VectorXd grad = Eigen::VectorXd::Zero(x.size());
                        // reference configurations of the shipped files
                        double k = F == PLANAR ? 0.3 : 1;
                        V3 dummy;
                        pik::GeneralizedCoordinates<F> q = r.model.getState();
                        std::vector<std::pair<std::string, double> > ref = {{"KneePitch", -0.01}, {"HipPitch", -0.04}, {"HipRoll", 0}, {"HeadYaw", 0}, {"HeadPitch", -0.2}, {"LShoulderPitch", 1.57}, {"LShoulderRoll", 0.12}, {"LElbowYaw", -1.2217007}, {"LElbowRoll", -0.52345699}, {"LWristYaw", 0}, {"RShoulderPitch", 1.57}, {"RShoulderRoll", -0.12}, {"RElbowYaw", 1.2217007}, {"RElbowRoll", 0.52345699}, {"RWristYaw", 0}};
                        for (size_t w = 0; w < ref.size(); ++w)
                            for (size_t d = 0; d < t.order.size(); ++d)
                                if (t.order[d] == ref[w].first) grad(d) = x(d) - k * (ref[w].second - q.joint_angles_(d - (int) pik::ModelDescription<F>::ROOT_DOF_NUMBER));
                        Eigen::VectorXd y = A.transpose().fullPivHouseholderQr().solve(grad);
                        c.check((A.transpose() * y - grad).norm() < 1e-6, "level", "optimality of the second level");
                    }
                }
                r.model.updateState(next);
                done = solution.x_.lpNorm<Eigen::Infinity>() < wp.joint_angle_error_tolerance_;
            }
            c.check(done, "convergence", "inverse kinematics does not converge");
            ++converged;
            c.step("command");
            pik::RobotCommand cmd;
            r.model.getRobotCommand(cmd, 0.01);
            pik::MotionParameters err;
            r.model.getStateError(err, mp);
            if (h != "Hierarchy02")
            {
                double tol = wp.motion_parameters_tolerance_;
                c.check(err.base_com_position_.head(2).norm() < tol && err.body_com_position_.norm() < tol && std::fabs(err.base_orientation_rpy_(2)) < tol, "tracking", "the motion is not tracked");
                if (F != PLANAR) c.check(err.base_com_position_.norm() < tol && err.base_orientation_rpy_.norm() < tol, "tracking", "the motion is not tracked");
            }
            r.model.checkCurrentState();
            std::stringstream q; q << Info<F>::name() << h << method << direction << i; c.state(q.str());
        }
    }

    // the loop of regression_test_001 of the repository
    void regression(mc::Ctx &c)
    {
        typedef pik::ModelDescription<PLANAR> M;
        Robot<PLANAR> r;
        pik::WBCParameters wp;
        wp.readConfig<humoto::config::yaml::Reader>(config("wbc_parameters.yaml"));
        pik::MotionParameters mp;
        mp.readConfig<humoto::config::yaml::Reader>(config("motion_parameters_default.yaml"));
        pik::GeneralizedCoordinates<PLANAR> g;
        g.readConfig<humoto::config::yaml::Reader>(config("initial_state_pepper_ik_planar_default.yaml"));
        pik::ConfigurableOptimizationProblem<PLANAR> problem;
        problem.readConfig<humoto::config::yaml::Reader>(config("hierarchies_planar.yaml"), "Hierarchy00");
        r.model.updateState(g);
        pik::GeneralizedCoordinates<PLANAR> ref = g;
        ref.root_pose_(0) += 500 * 0.0005; ref.root_pose_(1) -= 500 * 0.0006;
        humoto::kktsolver::SolverParameters sp;
        sp.solution_method_ = c.flip("method") ? humoto::kktsolver::SolverParameters::CONSTRAINT_ELIMINATION_LLT : humoto::kktsolver::SolverParameters::LU;
        humoto::kktsolver::Solver solver(sp);
        humoto::Solution solution;
        pik::WholeBodyController<PLANAR> wbc;
        for (int i = 0; i < 500; ++i)
        {
            mp.base_com_position_.x() += 0.0005; mp.body_com_position_.x() += 0.0005; mp.base_com_position_.y() -= 0.0006;
            if (i % 2 == 1) mp.body_com_position_.y() -= 2 * 0.0006;
            r.model.saveCurrentState();
            bool done = false;
            for (int j = 0; j < 3 && !done; ++j)
            {
                wbc.update(r.model, mp);
                problem.form(solution, r.model, wbc);
                solver.solve(solution, problem);
                g = wbc.getNextGeneralizedCoordinates(solution, r.model);
                c.nearM(wbc.getNextGeneralizedCoordinates(r.model).asVector(), r.model.getState().asVector(), "next", "the state after parsing", 0);
                r.model.updateState(g);
                done = solution.x_.lpNorm<Eigen::Infinity>() < wp.joint_angle_error_tolerance_;
            }
            c.check(done, "convergence", "inverse kinematics does not converge");
        }
        c.check(ref.root_pose_.isApprox(g.root_pose_, wp.joint_angle_error_tolerance_) && ref.joint_angles_.isApprox(g.joint_angles_, wp.joint_angle_error_tolerance_), "final", "the final state");
        c.state("regression");
        (void) M::KneePitch;
    }
    Eigen::MatrixXd matrixOf(const ::YAML::Node &n)
    {
        Eigen::MatrixXd m(n["rows"].as<int>(), n["cols"].as<int>());
        for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = n["data"][i * m.cols() + j].as<double>();
        return m;
    }
    // reference data of the repository, which were obtained from a simulator
    void reference(mc::Ctx &c)
    {
        ::YAML::Node ref = ::YAML::LoadFile(repo() + "tests/regression_test_000.ref")["TestFixture"];
        Robot<TORSO> r;
        pik::GeneralizedCoordinates<TORSO> g;
        g.readConfig<humoto::config::yaml::Reader>(config("initial_state_pepper_ik_torso_default.yaml"));
        r.model.updateState(g);
        kin::Tree t = kinematics(g);
        V3 com(ref["com_reference00"][0].as<double>(), ref["com_reference00"][1].as<double>(), ref["com_reference00"][2].as<double>());
        c.nearM(r.model.getCoM(), com, "reference", "CoM", 1e-10);
        Eigen::MatrixXd J;
        static const char *names[] = {"com_jacobian_reference00", "base_com_jacobian_reference00", "body_com_jacobian_reference00"};
        for (int k = 0; k < 3; ++k)
        {
            if (k == 0) r.model.getCoMJacobian(J); else if (k == 1) r.model.getBaseCoMJacobian(J); else r.model.getBodyCoMJacobian(J);
            Eigen::MatrixXd e = matrixOf(ref[names[k]]);
            // rotational coordinates of the root differ
            c.nearM(J.leftCols(3), e.leftCols(3), "reference", names[k], 1e-10);
            c.nearM(J.rightCols(15), e.rightCols(15), "reference", names[k], 1e-10);
        }
        humoto::rbdl::TagLinkPtr tag = r.model.getLinkTag("l_wrist");
        c.nearM(r.model.getTagOrientation(tag), matrixOf(ref["wrist_orientation_reference00"]), "reference", "orientation of the wrist", 1e-10);
        r.model.getTagOrientationJacobian(J, tag);
        c.nearM(J.rightCols(15), matrixOf(ref["wrist_rotation_jacobian_reference00"]).rightCols(15), "reference", "rotational Jacobian of the wrist", 1e-10);
        // the same state with another root
        c.nearM(t.com(t.all()), com, "reference", "CoM of the oracle", 1e-10);
        g.setRootPosition(V3(3, 2, 1));
        g.setRootOrientation(V3(1, 2, 3));
        r.model.updateState(g);
        c.nearM(r.model.getCoM(), V3(ref["com_reference01"][0].as<double>(), ref["com_reference01"][1].as<double>(), ref["com_reference01"][2].as<double>()), "reference", "CoM in another state", 1e-10);
        c.state("reference");
    }

    // ------------------------------------------------------------------------------------------------ configuration
    template<class T> void roundTrip(mc::Ctx &c, T &x, const std::string &section, const Tree &values, const Tree *defaults, bool strict = true)
    {
        for (int bridge = 0; bridge < 2; ++bridge)
        {
            cfg::Bridge b = bridge ? cfg::YAML_ : cfg::MSGPACK;
            std::string why;
            Tree one;
            one.add(section, values);
            cfg::File f, o;
            f.put(cfg::encode(b, one, false));
            c.step(section);
            if (b == cfg::MSGPACK) x.template readConfig<humoto::config::msgpack::Reader>(f.path, strict); else x.template readConfig<humoto::config::yaml::Reader>(f.path, strict);
            if (b == cfg::MSGPACK) x.template writeConfig<humoto::config::msgpack::Writer>(o.path); else x.template writeConfig<humoto::config::yaml::Writer>(o.path);
            Tree got = cfg::decode(b, o.get(), &one);
            c.check(cfg::same(one, got, 1e-13, false, why), "config", section + ": " + why);
            // missing entries
            for (size_t i = 0; i < values.m.size(); ++i)
            {
                Tree less = one;
                less.m[0].second.m.erase(less.m[0].second.m.begin() + i);
                cfg::File l;
                l.put(cfg::encode(b, less, false));
                bool threw = throws([&] () { if (b == cfg::MSGPACK) x.template readConfig<humoto::config::msgpack::Reader>(l.path, true); else x.template readConfig<humoto::config::yaml::Reader>(l.path, true); });
                c.check(threw, "strict", section + ": a missing entry " + values.m[i].first + " must be reported");
                if (defaults == NULL) continue;
                if (b == cfg::MSGPACK) x.template readConfig<humoto::config::msgpack::Reader>(l.path, false); else x.template readConfig<humoto::config::yaml::Reader>(l.path, false);
                cfg::File p;
                x.template writeConfig<humoto::config::msgpack::Writer>(p.path);
                Tree expected;
                Tree e = values;
                const Tree *d = defaults->find(values.m[i].first);
                if (d == NULL) continue;
                *e.find(values.m[i].first) = *d;
                expected.add(section, e);
                got = cfg::decode(cfg::MSGPACK, p.get(), &expected);
                c.check(cfg::same(expected, got, 1e-13, false, why), "relaxed", section + ": " + why);
            }
        }
    }
    Tree written(const std::string &text, const std::string &section) { Tree t = cfg::decode(cfg::MSGPACK, text, NULL); return *t.find(section); }
    template<class T> Tree writtenBy(const T &x, const std::string &section) { cfg::File o; x.template writeConfig<humoto::config::msgpack::Writer>(o.path); return written(o.get(), section); }
    template<int F> void configurations(mc::Ctx &c)
    {
        typedef pik::ModelDescription<F> M;
        int salt = c.choose(3, "values");
        cfg::Values v(salt);
        {
            pik::WBCParameters x, d;
            Tree t; t.add("control_interval_ms", Tree::integer(v.u())).add("joint_angle_error_tolerance", Tree(v.pos())).add("motion_parameters_tolerance", Tree(v.pos())).add("maximal_number_of_iterations", Tree::integer(v.u()));
            Tree def = writtenBy(d, "WBCParameters");
            roundTrip(c, x, "WBCParameters", t, &def);
            c.near(d.control_interval_, 0.001 * d.control_interval_ms_, "config", "default control interval");
            cfg::File f; Tree one; one.add("WBCParameters", t); f.put(cfg::encode(cfg::MSGPACK, one, false));
            x.readConfig<humoto::config::msgpack::Reader>(f.path);
            c.near(x.control_interval_, 0.001 * t.find("control_interval_ms")->i, "config", "control interval");
            c.check((long) x.control_interval_ms_ == t.find("control_interval_ms")->i && (long) x.maximal_number_of_iterations_ == t.find("maximal_number_of_iterations")->i && x.joint_angle_error_tolerance_ == t.find("joint_angle_error_tolerance")->d && x.motion_parameters_tolerance_ == t.find("motion_parameters_tolerance")->d, "config", "parameters of the controller");
        }
        {
            pik::MotionParameters x, d;
            Tree t; t.add("base_orientation_rpy", v.dv(3)).add("base_com_position", v.dv(3)).add("body_com_position", v.dv(3));
            Tree def = writtenBy(d, "MotionParameters");
            roundTrip(c, x, "MotionParameters", t, &def);
            cfg::File f; Tree one; one.add("MotionParameters", t); f.put(cfg::encode(cfg::MSGPACK, one, false));
            x.readConfig<humoto::config::msgpack::Reader>(f.path);
            for (int i = 0; i < 3; ++i) c.check(x.base_orientation_rpy_(i) == t.m[0].second.a[i].d && x.base_com_position_(i) == t.m[1].second.a[i].d && x.body_com_position_(i) == t.m[2].second.a[i].d, "config", "motion parameters");
        }
        {
            pik::GeneralizedCoordinates<F> x, d;
            Tree t; t.add("root_pose", v.dv((int) M::ROOT_DOF_NUMBER)).add("joint_angles", v.dv(15));
            Tree def = writtenBy(d, "GeneralizedCoordinates");
            roundTrip(c, x, "GeneralizedCoordinates", t, &def);
            cfg::File f; Tree one; one.add("GeneralizedCoordinates", t); f.put(cfg::encode(cfg::MSGPACK, one, false));
            x.template readConfig<humoto::config::msgpack::Reader>(f.path);
            for (int i = 0; i < (int) M::ROOT_DOF_NUMBER; ++i) c.check(x.root_pose_(i) == t.m[0].second.a[i].d, "config", "pose of the root");
            for (int i = 0; i < 15; ++i) c.check(x.joint_angles_(i) == t.m[1].second.a[i].d, "config", "joint angles");
            // wrong sizes
            for (int k = 0; k < 2; ++k) for (int n = -1; n <= 1; n += 2)
            {
                Tree w; w.add("root_pose", v.dv((int) M::ROOT_DOF_NUMBER + (k ? n : 0))).add("joint_angles", v.dv(15 + (k ? 0 : n)));
                Tree two; two.add("GeneralizedCoordinates", w);
                cfg::File l; l.put(cfg::encode(cfg::MSGPACK, two, false));
                bool threw = false;
                try { x.template readConfig<humoto::config::msgpack::Reader>(l.path); } catch (const std::exception &) { threw = true; }
                c.check(threw, "config", "vectors of wrong sizes must be reported");
            }
        }
        // tasks: class names, entries
        Stack<pik::ConfigurableOptimizationProblem<F> > unused;
        struct Entry { const char *cls; std::vector<std::pair<std::string, Tree> > e; };
        Tree gain(v.pos());
        std::vector<Entry> tasks = {
            {"TaskBaseCoMTracking", {{"gain", gain}, {"k_position_gain", Tree(v.pos())}}},
            {"TaskBaseOrientation", {{"gain", gain}, {"k_orientation_gain", Tree(v.pos())}}},
            {"TaskBodyCoMTracking", {{"gain", gain}, {"k_position_gain", Tree(v.pos())}, {"axis_flag", Tree::integer(1 + salt)}}},
            {"TaskFixArms", {}}, {"TaskFixHead", {}}, {"TaskJointsBounds", {}},
            {"TaskJointsReference", {{"gain", gain}, {"k_position_gain", Tree(v.pos())}, {"joint_angles_reference", v.dv(15)}}},
            {"TaskTagOrientation", {{"gain", gain}, {"k_orientation_gain", Tree(v.pos())}, {"tag_string_id", Tree::str("Head")}, {"reference_rpy", v.dv(3)}}},
            {"TaskTagAngularVelocity", {{"gain", gain}, {"k_angular_velocity_gain", Tree(v.pos())}, {"tag_string_id", Tree::str("Head")}}},
            {"TaskTagCompleteVelocity", {{"gain", gain}, {"k_complete_velocity_gain", Tree(v.pos())}, {"tag_string_id", Tree::str("Head")}}},
            {"TaskTagPose", {{"gain", gain}, {"k_pose_gain", Tree(v.pos())}, {"tag_string_id", Tree::str("Head")}}},
            {"TaskTagPose3Dof", {{"gain", gain}, {"k_pose_gain", Tree(v.pos())}, {"tag_string_id", Tree::str("Head")}}},
            {"TaskZeroVariables", {{"gain", gain}, {"variables_id", Tree::str("joints_vel")}}},
        };
        for (size_t i = 0; i < tasks.size(); ++i)
            for (size_t j = 0; j < tasks.size(); ++j)
            {
                // two tasks on two levels
                Tree names = Tree::arr(), ids = Tree::arr(), a = Tree::arr(), b = Tree::arr(), x = Tree::arr(), y = Tree::arr(), one, t;
                a.a.push_back(Tree::str(tasks[i].cls)); b.a.push_back(Tree::str(tasks[j].cls));
                names.a.push_back(a); names.a.push_back(b);
                x.a.push_back(Tree::str("first")); y.a.push_back(Tree::str("second"));
                ids.a.push_back(x); ids.a.push_back(y);
                t.add("task_class_names", names).add("task_ids", ids);
                Tree u, w;
                for (size_t k = 0; k < tasks[i].e.size(); ++k) u.add(tasks[i].e[k].first, tasks[i].e[k].second);
                for (size_t k = 0; k < tasks[j].e.size(); ++k) w.add(tasks[j].e[k].first, tasks[j].e[k].second);
                t.add("first", u).add("second", w);
                one.add("ConfigurableOptimizationProblem", t);
                cfg::File f;
                cfg::Bridge br = (i + j) % 2 ? cfg::MSGPACK : cfg::YAML_;
                f.put(cfg::encode(br, one, false));
                cfg::Spy<pik::ConfigurableOptimizationProblem<F> > p;
                c.step("problem");
                if (br == cfg::MSGPACK) p.template readConfig<humoto::config::msgpack::Reader>(f.path, "ConfigurableOptimizationProblem"); else p.template readConfig<humoto::config::yaml::Reader>(f.path, "ConfigurableOptimizationProblem");
                c.check(p.levels() == 2 && p.tasks(0).size() == 1 && p.tasks(1).size() == 1, "problem", "sizes of a problem");
                for (int l = 0; l < 2; ++l)
                {
                    humoto::TaskSharedPointer task = p.tasks(l)[0];
                    const Entry &e = tasks[l ? j : i];
                    c.check(task->getDescription() == (l ? "second" : "first"), "problem", "name of a task");
                    std::string n = e.cls;
                    bool ok = n == "TaskBaseCoMTracking" ? cfg::isTask<pik::TaskBaseCoMTracking<F> >(task.get()) : n == "TaskBaseOrientation" ? cfg::isTask<pik::TaskBaseOrientation<F> >(task.get())
                        : n == "TaskBodyCoMTracking" ? cfg::isTask<pik::TaskBodyCoMTracking<F> >(task.get()) : n == "TaskFixArms" ? cfg::isTask<pik::TaskFixArms<F> >(task.get())
                        : n == "TaskFixHead" ? cfg::isTask<pik::TaskFixHead<F> >(task.get()) : n == "TaskJointsBounds" ? cfg::isTask<pik::TaskJointsBounds<F> >(task.get())
                        : n == "TaskJointsReference" ? cfg::isTask<pik::TaskJointsReference<F> >(task.get()) : n == "TaskTagOrientation" ? cfg::isTask<pik::TaskTagOrientation<F> >(task.get())
                        : n == "TaskTagAngularVelocity" ? cfg::isTask<pik::TaskTagAngularVelocity<F> >(task.get()) : n == "TaskTagCompleteVelocity" ? cfg::isTask<pik::TaskTagCompleteVelocity<F> >(task.get())
                        : n == "TaskTagPose" ? cfg::isTask<pik::TaskTagPose<F> >(task.get()) : n == "TaskTagPose3Dof" ? cfg::isTask<pik::TaskTagPose3Dof<F> >(task.get()) : cfg::isTask<humoto::TaskZeroVariables>(task.get());
                    c.check(ok, "problem", "type of the task " + n);
                    cfg::File o;
                    task->template writeConfig<humoto::config::msgpack::Writer>(o.path, "Task");
                    Tree expected; expected.add("Task", l ? w : u);
                    Tree got = cfg::decode(cfg::MSGPACK, o.get(), &expected);
                    std::string why;
                    c.check(cfg::same(expected, got, 1e-13, false, why), "problem", n + ": " + why);
                    // missing entries
                    if (i == j && l == 0)
                        for (size_t k = 0; k < e.e.size(); ++k)
                        {
                            Tree less; less.add("Task", u);
                            less.m[0].second.erase(e.e[k].first);
                            cfg::File m; m.put(cfg::encode(br, less, false));
                            bool threw = throws([&] () { if (br == cfg::MSGPACK) task->template readConfig<humoto::config::msgpack::Reader>(m.path, "Task", true); else task->template readConfig<humoto::config::yaml::Reader>(m.path, "Task", true); });
                            c.check(threw, "problem", n + ": a missing entry must be reported");
                        }
                }
            }
        std::stringstream q; q << Info<F>::name() << salt; c.state(q.str());
    }
    template<int F> void dispatch(mc::Ctx &c, int what)
    {
        if (what == 0) descriptions<F>(c); if (what == 1) states<F>(c); if (what == 2) histories<F>(c); if (what == 3) limits<F>(c);
        if (what == 4) basicTasks<F>(c); if (what == 5) tagTasks<F>(c); if (what == 6) velocities<F>(c); if (what == 8) configurations<F>(c); if (what == 9) reloads<F>(c); if (what == 10) controllers<F>(c);
    }
    void each(mc::Ctx &c, int what)
    {
        switch (c.choose(3, "model")) { case 0: dispatch<TORSO>(c, what); break; case 1: dispatch<TIBIA>(c, what); break; default: dispatch<PLANAR>(c, what); }
    }
}

MC_SCENARIO(descriptions, 1, 1) { each(c, 0); }
MC_SCENARIO(states, 8, 2) { each(c, 1); }
MC_SCENARIO(histories, 16, 3) { each(c, 2); }
MC_SCENARIO(reloads, 24, 3) { each(c, 9); }
MC_SCENARIO(controllers, 24, 3) { each(c, 10); }
MC_SCENARIO(limits, 8, 2) { each(c, 3); }
MC_SCENARIO(tasks, 8, 2) { each(c, 4); }
MC_SCENARIO(tags, 8, 2) { if (c.flip("velocities")) each(c, 6); else each(c, 5); }
MC_SCENARIO(configurations, 8, 2) { each(c, 8); }
MC_SCENARIO(loops, 8, 3) { if (c.flip("torso")) loops<TORSO>(c); else loops<PLANAR>(c); }
MC_SCENARIO(references, 2, 1) { if (c.flip("loop")) regression(c); else reference(c); }
