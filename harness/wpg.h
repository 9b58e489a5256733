// Reference model of the walking pattern generator: what is planned and predicted at each iteration of the control loop.
#pragma once
#include <sys/mman.h>
#include "mc.h"
#include "humoto/config_msgpack.h"
#include "gait.h"
#include "humoto/wpg04.h"
namespace wpg
{
    using gait::Ref; using gait::ST; using gait::SS;
    typedef Eigen::Vector2d V2;
    typedef Eigen::Matrix2d M2;
    inline M2 rot(double a) { M2 r; r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return r; }

    struct Pose { V2 p; double yaw; double z; };
    struct Interval
    {
        std::size_t ms;
        std::size_t stance;     // index in the timeline of the stance which supports the robot (the next one in a TDS)
        bool tds;
        double theta;           // orientation of that stance
        V2 vel;                 // reference velocity in the global frame
        int steps;              // number of variable steps landed up to (and including) this interval
    };
    struct Step { std::size_t interval; std::size_t stance; double from; };   // orientation of the preceding stance
    struct Plan
    {
        bool ok;
        std::vector<Interval> in;
        std::vector<Step> steps;
    };
    // parameters of the feet: the default ones, those of another robot, arbitrary ones
    inline const humoto::walking::RobotFootParameters &footParameters(int robot)
    {
        static std::vector<humoto::walking::RobotFootParameters> all;
        static const char *const names[] = {"max_step_len", "min_feet_dist", "max_feet_dist", "feet_dist_default", "foot_length", "foot_width"};
        static const double v[][6] = {{0.2, 0.1569, 0.25, 0.1569, 0.144, 0.04}, {0.375, 0.125, 0.5, 0.25, 0.1875, 0.0625}};
        while (all.size() < 3)
        {
            humoto::walking::RobotFootParameters f;
            if (all.size() > 0)
            {
                int fd = memfd_create("foot", 0);
                std::string path = "/proc/self/fd/" + std::to_string(fd);
                std::stringstream out;
                msgpack::packer<std::stringstream> p(out);
                p.pack_map(1); p.pack(std::string("RobotFootParameters"));
                p.pack_map(6);
                for (int i = 0; i < 6; ++i) { p.pack(std::string(names[i])); p.pack(v[all.size() - 1][i]); }
                { std::ofstream o(path.c_str(), std::ios::trunc | std::ios::binary); o << out.str(); }
                f.readConfig<humoto::config::msgpack::Reader>(path, true);
                close(fd);
            }
            all.push_back(f);
        }
        return all[robot];
    }
    // changes of the parameters and of the robot in an iteration of the loop
    struct Variation
    {
        int at, back;           // iterations of the change and of the return to the previous values
        bool height;
        std::size_t N;          // 0: the same
        int robot;
        bool active() const { return at >= 0; }
        Variation() : at(-1), back(-1), height(false), N(0), robot(0) {}
    };
    struct Setup
    {
        int robot;
        Variation var;
        humoto::wpg04::WalkParameters par;
        std::size_t N, T, sub, tds;
        double h;
        bool rotated;           // initial orientation differs from zero
    };
    struct Reference
    {
        const Setup &s;
        humoto::wpg04::WalkParameters par;     // current parameters
        std::vector<Ref> t;
        std::size_t at, time;
        Pose foot[2];           // left, right
        double half;            // half of the default distance between feet
        const humoto::walking::RobotFootParameters *foot_par;
        void setRobot(int robot)
        {
            foot_par = &footParameters(robot);
            half = foot_par->getFootPositionFromADS(humoto::LeftOrRight::LEFT, M2::Identity(), V2::Zero()).y();
        }

        static int side(int type) { return type == ST::LSS ? 0 : 1; }
        bool ss(std::size_t k) const { return t[k].type == ST::LSS || t[k].type == ST::RSS; }

        Reference(const Setup &setup) : s(setup), par(setup.par), t(gait::timeline(setup.par, 20000)), at(0), time(0)
        {
            setRobot(setup.robot);
        }
        // current support: what carries the robot now (the landed stance in a transitional double support)
        std::size_t supportStance() const { return t[at].type == ST::TDS ? at + 1 : at; }
        V2 support() const
        {
            std::size_t k = supportStance();
            if (ss(k)) return foot[side(t[k].type)].p;
            return (foot[0].p + foot[1].p) / 2;
        }
        Plan plan() const
        {
            Plan r; r.ok = true;
            std::size_t horizon = s.N * s.T, rest = t[at].duration - time;
            if (t[at].terminal && rest < horizon) { r.ok = false; return r; }
            std::size_t k = at;
            double yaw[2] = {foot[0].yaw, foot[1].yaw};
            double theta, mean = (yaw[0] + yaw[1]) / 2;
            int steps = 0;
            bool first = true;
            std::size_t prev = at;      // preceding stance which is not transitional
            double prev_theta = 0;
            while (r.in.size() < s.N)
            {
                Interval x;
                x.tds = t[k].type == ST::TDS;
                std::size_t len = std::min(rest, horizon);
                if (x.tds)
                {
                    std::size_t n = k + 1;
                    if (first) theta = ss(n) ? yaw[side(t[n].type)] : mean;      // it is on the ground
                    else
                    {
                        theta = prev_theta;
                        if (ss(n)) { if (ss(prev)) theta = prev_theta + par.theta_increment_; else theta = yaw[side(t[n].type)]; yaw[side(t[n].type)] = theta; }
                        Step st = {r.in.size(), n, prev_theta};
                        r.steps.push_back(st);
                        ++steps;
                    }
                    x.ms = first ? rest : s.tds;
                    k = n; rest = t[k].duration; len = rest;
                }
                else
                {
                    theta = ss(k) ? yaw[side(t[k].type)] : mean;
                    x.ms = len % s.T; if (x.ms == 0) x.ms = s.T;
                    len -= x.ms;
                }
                x.theta = theta; x.stance = k; x.steps = steps;
                V2 v = ss(k) ? par.com_velocity_ : (t[k].subtype == SS::FIRST ? par.first_stance_com_velocity_ : par.last_stance_com_velocity_);
                x.vel = rot(theta) * v;
                r.in.push_back(x);
                x.tds = false; x.ms = s.T;
                for (std::size_t i = 0; i < len / s.T && r.in.size() < s.N; ++i) r.in.push_back(x);
                prev = k; prev_theta = theta;
                ++k; rest = t[k].duration; first = false;
            }
            return r;
        }
        // the machine has been shifted by 'ms', the robot executed the step
        void shift(std::size_t ms, const Plan &p, const Eigen::VectorXd &footpos, bool &landed, int &which)
        {
            std::size_t old = at;
            V2 sup = support();
            gait::advance(t, at, time, ms);
            landed = false;
            if (at != old && t[at].type == ST::TDS && ss(old))
            {
                landed = true;
                which = 1 - side(t[old].type);
                Pose q = landing(p, footpos, sup, which);
                foot[which] = q;
            }
        }
        // pose of the swing foot when it lands
        Pose landing(const Plan &p, const Eigen::VectorXd &footpos, const V2 &sup, int which) const
        {
            const Step &st = p.steps.at(0);
            Pose q;
            q.p = sup + rot(st.from) * footpos.head(2);
            q.yaw = p.in[st.interval].theta;
            q.z = foot[1 - which].z;
            if (!ss(st.stance)) q.p = q.p + rot(q.yaw) * V2(0, which == 0 ? half : -half);      // center of an aligned double support
            return q;
        }
    };

    inline Setup chooseSetup(mc::Ctx &c, bool small)
    {
        Setup s;
        s.robot = 0;
        s.T = 100;
        static const std::size_t subs[][2] = {{100, 100}, {20, 100}, {50, 100}, {20, 40}, {50, 50}};
        int k = c.choose(small ? 3 : 5, "subsampling");
        s.sub = subs[k][0]; s.tds = subs[k][1];
        if (small) s.N = c.pick(std::vector<std::size_t>{3, 2, 5}, "horizon length");
        else if (c.thorough) s.N = c.range(2, 16, "horizon length");
        else s.N = c.pick(std::vector<std::size_t>{3, 6, 9, 2}, "horizon length");
        s.par.ss_duration_ms_ = s.T * c.pick(std::vector<std::size_t>{2, 1, 4}, "single support");
        s.par.tds_duration_ms_ = s.tds;
        s.par.first_stance_duration_ms_ = s.T * c.pick(std::vector<std::size_t>{1, 3}, "first stance");
        s.par.num_steps_ = c.pick(std::vector<std::size_t>{3, 2, 0, 4}, "steps");
        s.par.last_stance_duration_ms_ = s.T * (s.N + c.pick(std::vector<std::size_t>{0, 2}, "last stance"));
        static const ST::Type fs[] = {ST::DS, ST::LSS, ST::RSS};
        s.par.first_stance_ = c.pick(fs, "first stance type");
        s.par.first_ss_type_ = s.par.first_stance_ == ST::DS ? (c.flip("left") ? ST::LSS : ST::RSS) : ST::LSS;
        if (s.par.num_steps_ == 0 && s.par.first_stance_ == ST::DS) s.par.first_stance_duration_ms_ += s.N * s.T;
        s.par.theta_increment_ = c.flip("turn") ? 0.2 : 0.0;
        s.par.com_velocity_ << 0.2, 0.05;
        s.par.first_stance_com_velocity_ << 0.1, -0.03;
        s.par.last_stance_com_velocity_ << 0.02, 0.01;
        s.h = 0.75;
        s.rotated = s.par.theta_increment_ != 0;
        return s;
    }
    inline Setup chooseVaried(mc::Ctx &c, bool guess)
    {
        Setup s = chooseSetup(c, true);
        if (s.par.num_steps_ == 4 || s.par.ss_duration_ms_ == 400 || s.par.first_stance_duration_ms_ == 3 * s.T) throw mc::Prune();
        if (!c.thorough && (s.sub == 50 || s.par.last_stance_duration_ms_ > s.N * s.T)) throw mc::Prune();
        s.robot = c.range(0, 2, "robot");
        s.var.at = (s.sub == 100 ? 1 : 3) * c.range(0, 3, "change");
        s.var.back = s.var.at + 2;
        s.var.robot = s.robot;
        switch (c.range(guess ? 1 : 0, 2, "kind of the change"))
        {
            case 0: s.var.N = s.N == 3 ? 5 : (s.N == 5 ? 2 : 3); break;
            case 1: s.var.height = true; break;
            default: s.var.robot = (s.robot + 1) % 3; s.var.height = s.N == 3; break;
        }
        if (s.var.N > s.N)      // the final stance covers the horizon
        {
            s.par.last_stance_duration_ms_ += (s.var.N - s.N) * s.T;
            if (s.par.num_steps_ == 0 && s.par.first_stance_ == ST::DS) s.par.first_stance_duration_ms_ += (s.var.N - s.N) * s.T;
        }
        return s;
    }
    inline humoto::rigidbody::PointMassState comState(int salt, double h)
    {
        humoto::rigidbody::PointMassState r;
        r.position_ << 0.01 * hier::val(salt, 0, 1), 0.01 * hier::val(salt, 0, 2), h;
        r.velocity_ << 0.02 * hier::val(salt, 1, 1), 0.02 * hier::val(salt, 1, 2), 0;
        r.acceleration_ << 0.05 * hier::val(salt, 2, 1), 0.05 * hier::val(salt, 2, 2), 0;
        return r;
    }
    // real objects driven through the control loop together with the reference
    struct Loop
    {
        Setup s;
        Reference ref;
        humoto::wpg04::MPCParameters mpc_par;
        humoto::wpg04::Model model;
        humoto::walking::StanceFiniteStateMachine fsm;
        humoto::wpg04::MPCforWPG mpc;
        Eigen::VectorXd x;      // com state: x, dx, ddx, y, dy, ddy
        int iteration;

        std::size_t old_N;      // of the previous iteration
        double h0;
        void before()
        {
            old_N = s.N;
            if (!s.var.active() || (iteration != s.var.at && iteration != s.var.back)) return;
            bool on = iteration == s.var.at;
            if (s.var.N > 0)
            {
                s.N = on ? s.var.N : mpc_par.preview_horizon_length_;
                mpc.setParameters(humoto::wpg04::MPCParameters(s.N, s.T, s.sub, s.tds));
            }
            int robot = on ? s.var.robot : s.robot;
            model.setFootParameters(footParameters(robot));
            ref.setRobot(robot);
        }
        // height of the next state
        double height()
        {
            if (s.var.height && iteration + 1 == s.var.at) s.h = 0.5 * h0;
            if (s.var.height && iteration + 1 == s.var.back) s.h = h0;
            return s.h;
        }
        Loop(const Setup &setup) : s(setup), ref(s), mpc_par(s.N, s.T, s.sub, s.tds), fsm(s.par), mpc(mpc_par), iteration(0), old_N(setup.N), h0(setup.h)
        {
            humoto::wpg04::ModelState m;
            if (s.robot != 0) { model.setFootParameters(footParameters(s.robot)); m = humoto::wpg04::ModelState(footParameters(s.robot), s.h); }
            if (s.rotated || s.par.first_stance_ != ST::DS)
            {
                double a = s.rotated ? 0.3 : 0.0;
                humoto::rigidbody::RigidBodyState f[2];
                V2 center(0.2, -0.1);
                for (int k = 0; k < 2; ++k)
                {
                    f[k] = m.feet_[k == 0 ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT];
                    f[k].position_.head(2) = center + rot(a) * V2(0, k == 0 ? ref.half : -ref.half);
                    f[k].position_.z() = 0.05;
                    if (s.par.first_stance_ != ST::DS) f[k].position_.head(2) += V2(k == 0 ? 0.05 : -0.02, k == 0 ? 0.03 : 0);
                    f[k].rpy_ << 0, 0, a;
                    if (s.rotated && s.par.first_stance_ != ST::DS) f[k].rpy_(2) = a + (k == 0 ? 0.1 : -0.05);
                }
                m.set(s.par.first_stance_, comState(0, s.h), f[0], f[1]);
            }
            else m.com_state_ = comState(0, s.h);
            model.updateState(m);
            for (int k = 0; k < 2; ++k)
            {
                const humoto::rigidbody::RigidBodyState &f = m.feet_[k == 0 ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT];
                ref.foot[k].p = f.position_.head(2); ref.foot[k].z = f.position_.z(); ref.foot[k].yaw = f.rpy_(2);
            }
            // the other foot is not a part of the state in a single support: it stays as it was in the model
            if (s.par.first_stance_ == ST::LSS || s.par.first_stance_ == ST::RSS)
            {
                int k = 1 - Reference::side(s.par.first_stance_);
                humoto::rigidbody::RigidBodyState f = humoto::wpg04::Model().getFootState(k == 0 ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT);
                ref.foot[k].p = f.position_.head(2); ref.foot[k].z = f.position_.z(); ref.foot[k].yaw = f.rpy_(2);
            }
            setX(m.com_state_);
        }
        void setX(const humoto::rigidbody::PointMassState &q)
        {
            x.resize(6);
            x << q.position_.x(), q.velocity_.x(), q.acceleration_.x(), q.position_.y(), q.velocity_.y(), q.acceleration_.y();
        }
        // arbitrary decisions
        Eigen::VectorXd cop() const
        {
            Eigen::VectorXd r(2 * s.N);
            for (long i = 0; i < r.size(); ++i) r(i) = 0.01 * hier::val(iteration + 3, i, 1);
            return r;
        }
        Eigen::VectorXd footpos(std::size_t steps) const
        {
            Eigen::VectorXd r(2 * steps);
            for (std::size_t i = 0; i < steps; ++i) { r(2 * i) = 0.1 + 0.01 * hier::val(iteration + 5, i, 2); r(2 * i + 1) = 0.2 + 0.01 * hier::val(iteration + 7, i, 3); }
            return r;
        }
        humoto::Solution solution(std::size_t steps) const
        {
            humoto::Solution r;
            mpc.initSolutionStructure(r);
            Eigen::VectorXd v(2 * s.N + 2 * steps);
            v << cop(), footpos(steps);
            r.x_ = v;
            return r;
        }
    };
}
