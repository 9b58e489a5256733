// C16: the preview horizon of the walking pattern generator describes the rest of the gait at every iteration of the loop.
#include "wpg.h"
using namespace wpg;
typedef humoto::walking::FootBoundsType FB;
static humoto::LeftOrRight::Type lr(int k) { return k == 0 ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT; }

static void checkHorizon(mc::Ctx &c, const Loop &l, const Plan &p)
{
    const humoto::wpg04::PreviewHorizon &h = l.mpc.preview_horizon_;
    const std::vector<Ref> &t = l.ref.t;
    const humoto::walking::RobotFootParameters &foot = *l.ref.foot_par;
    c.check(h.intervals_.size() == l.s.N && p.in.size() == l.s.N && l.mpc.getPreviewHorizonLength() == l.s.N, "intervals", "number of intervals");
    for (std::size_t i = 0; i < l.s.N; ++i)
    {
        const humoto::wpg04::PreviewHorizonInterval &x = h.intervals_[i];
        c.check(x.T_ms_ == p.in[i].ms, "interval-duration", "duration of an interval");
        c.near(x.T_, p.in[i].ms / 1000.0, "interval-duration", "in seconds");
        c.near(x.com_height_, l.s.h, "interval-height", "height of the center of mass");
        c.near(x.omega_ * x.omega_ * l.s.h, humoto::g_gravitational_acceleration, "interval-omega", "natural frequency");
        c.nearM(x.cvel_ref_, p.in[i].vel, "interval-velocity", "reference velocity");
        c.check(x.state_index_ < h.walk_states_.size(), "interval-state", "index");
        const humoto::wpg04::WalkState &w = h.walk_states_[x.state_index_];
        const Ref &r = t[p.in[i].stance];
        c.check(&w == &h.getWalkState(i), "interval-state", "accessor");
        c.check(w.type_ == r.type && w.subtype_ == r.subtype, "interval-state", "type of the supporting stance");
        c.near(w.theta_, p.in[i].theta, "interval-theta", "orientation of the supporting stance");
        c.nearM(h.getRotationMatrix(i), rot(p.in[i].theta), "interval-rotation", "rotation matrix");
        c.nearM(h.getCoPBounds(i), r.type == ST::DS ? foot.getADSCoPBounds() : foot.getSSCoPBounds(), "interval-cop-bounds", "bounds on the center of pressure");
        bool step = false;
        for (auto &st : p.steps) if (st.interval == i) step = true;
        bool real = false;
        for (auto k : h.variable_steps_indices_) if (k == i) real = true;
        c.check(step == real, "variable-steps", "a step lands in this interval");
    }
    c.check(h.variable_steps_indices_.size() == p.steps.size() && h.getNumberOfVariableSteps() == p.steps.size(), "variable-steps", "number of steps");
    for (std::size_t i = 0; i < p.steps.size(); ++i)
    {
        c.check(h.variable_steps_indices_[i] == p.steps[i].interval, "variable-steps", "interval of a step");
        std::size_t k = p.steps[i].stance;
        const Ref &r = t[k];
        Eigen::Matrix2d b;
        if (r.type == ST::DS) b = foot.getFootBounds(lr(1 - Reference::side(r.nontds)), FB::ALIGNED_TO_SS);
        else if (r.nontds == ST::DS) b = foot.getFootBounds(lr(Reference::side(r.type)), FB::WITH_RESPECT_TO_ADS);
        else b = foot.getFootBounds(lr(Reference::side(r.type)), FB::WITH_RESPECT_TO_SS);
        c.nearM(h.getFootPositionBounds(i), b, "step-bounds", "bounds on the position of a step");
    }
    std::stringstream st;
    for (auto &x : p.in) st << x.ms << ":" << t[x.stance].type << t[x.stance].subtype << x.steps << " ";
    c.state(st.str());
}
static void run(mc::Ctx &c, Loop &l, int change_at)
{
    for (;; ++l.iteration)
    {
        if (l.iteration == change_at)
        {
            l.ref.par.theta_increment_ = -0.15;
            l.ref.par.com_velocity_ << -0.1, 0.2;
            l.ref.par.last_stance_com_velocity_ << 0.3, 0.3;
            l.ref.par.first_stance_com_velocity_ << 0.4, 0.1;
        }
        l.before();
        Plan p = l.ref.plan();
        humoto::ControlProblemStatus::Status st = l.mpc.update(l.model, l.fsm, l.ref.par);
        c.step("update");
        c.check(st == (p.ok ? humoto::ControlProblemStatus::OK : humoto::ControlProblemStatus::STOPPED), "status", "stopped exactly when the final stance is exhausted");
        if (!p.ok) break;
        checkHorizon(c, l, p);
        const humoto::SolutionStructure &ss = l.mpc.getSolutionStructure();
        c.check(ss.getNumberOfVariables() == 2 * l.s.N + 2 * p.steps.size(), "variables", "number of variables");
        humoto::Location a = ss.getSolutionPartLocation(humoto::wpg04::COP_VARIABLES_ID), b = ss.getSolutionPartLocation(humoto::wpg04::FOOTPOS_VARIABLES_ID);
        c.check(a.offset_ == 0 && a.length_ == 2 * l.s.N && b.offset_ == 2 * l.s.N && b.length_ == 2 * p.steps.size(), "variables", "locations of variables");
        humoto::Solution sol = l.solution(p.steps.size());
        l.fsm.shiftTime(l.s.sub);
        humoto::wpg04::ModelState m = l.mpc.getNextModelState(sol, l.fsm, l.model);
        bool landed; int which;
        l.ref.shift(l.s.sub, p, l.footpos(p.steps.size()), landed, which);
        m.com_state_ = comState(l.iteration + 1, l.height());
        l.model.updateState(m);
        for (int k = 0; k < 2; ++k)     // the reference and the model stand on the same feet
        {
            humoto::rigidbody::RigidBodyState f = l.model.getFootState(lr(k));
            bool swing = l.ref.ss(l.ref.at) && Reference::side(l.ref.t[l.ref.at].type) != k;
            if (swing) continue;
            c.nearM(V2(f.position_.head(2)), l.ref.foot[k].p, "feet", "position of a foot on the ground");
            c.near(f.rpy_(2), l.ref.foot[k].yaw, "feet", "orientation of a foot on the ground");
        }
        if (l.iteration > 400) { c.fail("endless", "the loop never stops"); break; }
    }
}
MC_SCENARIO(loops, 32, 3)
{
    Setup s = chooseSetup(c, false);
    Loop l(s);
    run(c, l, -1);
}
// the robot, its height and the length of the horizon are not the default ones and change
MC_SCENARIO(varied, 32, 3)
{
    Setup s = chooseVaried(c, false);
    Loop l(s);
    run(c, l, -1);
}
// references change at an arbitrary iteration
MC_SCENARIO(changes, 32, 3)
{
    Setup s = chooseSetup(c, true);
    if (s.par.theta_increment_ == 0 || s.par.num_steps_ == 4) throw mc::Prune();
    Loop l(s);
    run(c, l, c.range(0, c.thorough ? 40 : 16, "change of the parameters"));
}
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
MC_SCENARIO(parameters, 1, 1)
{
    std::size_t T = c.range(1, 6, "T"), sub = c.range(1, 4, "sub"), tds = c.range(1, 6, "tds"), N = c.range(1, 3, "N");
    bool good = T % sub == 0 && tds % sub == 0;
    c.step("parameters");
    c.check(throws([&] { humoto::wpg04::MPCParameters p(N, T, sub, tds); }) == !good, "parameters", "sampling times must be multiples of the subsampling time");
    if (good)
    {
        humoto::wpg04::MPCParameters p(N, T, sub, tds);
        c.check(p.preview_horizon_length_ == N && p.sampling_time_ms_ == T && p.subsampling_time_ms_ == sub && p.tds_sampling_time_ms_ == tds, "parameters", "values");
        c.near(p.getSubsamplingTime(), sub / 1000.0, "parameters", "subsampling time in seconds");
    }
}
