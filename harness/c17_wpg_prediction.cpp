// C17: what the walking pattern generator predicts for a solution is what happens when the solution is executed.
#include "wpg_predict.h"
using namespace wpg;
typedef humoto::LeftOrRight LR;
static LR::Type lr(int k) { return k == 0 ? LR::LEFT : LR::RIGHT; }
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }

static void near2(mc::Ctx &c, const Eigen::VectorXd &a, const std::vector<V2> &b, const char *key, const char *what)
{
    c.check((std::size_t) a.size() == 2 * b.size(), key, "size");
    for (std::size_t i = 0; i < b.size(); ++i) c.nearM(V2(a.segment(2 * i, 2)), b[i], key, what, 1e-7);
}
static void checkFoot(mc::Ctx &c, const humoto::rigidbody::RigidBodyState &f, const Pose &p, const char *key, const char *what)
{
    c.nearM(V2(f.position_.head(2)), p.p, key, what);
    c.near(f.position_.z(), p.z, key, what);
    c.near(f.rpy_(2), p.yaw, key, what);
    c.near(f.rpy_(0), 0, key, what); c.near(f.rpy_(1), 0, key, what);
    // feet on the ground do not move
    for (int i = 0; i < 3; ++i) { c.near(f.velocity_(i), 0, key, "velocity of a foot"); c.near(f.acceleration_(i), 0, key, "acceleration of a foot"); }
}
static bool unset(const humoto::rigidbody::RigidBodyState &f)
{
    for (int i = 0; i < 3; ++i) if (f.position_(i) == f.position_(i) || f.rpy_(i) == f.rpy_(i)) return false;
    return true;
}
static void run(mc::Ctx &c, Loop &l, bool follow, int look)
{
    humoto::Solution old;
    std::size_t old_steps = 0;
    for (;; ++l.iteration)
    {
        l.before();
        Plan p = l.ref.plan();
        humoto::ControlProblemStatus::Status st = l.mpc.update(l.model, l.fsm, l.ref.par);
        c.step("update");
        if (!p.ok) { c.check(st == humoto::ControlProblemStatus::STOPPED, "status", "must stop"); break; }
        c.check(st == humoto::ControlProblemStatus::OK, "status", "must go on");
        c.check(throws([&] { l.mpc.getNextModelState(l.fsm, l.model); }) && throws([&] { l.mpc.getCoMState(l.model, 0); }) && throws([&] { l.mpc.getFootLandingState(l.model); }), "not-parsed", "there is no solution yet");
        humoto::Solution sol = l.solution(p.steps.size());
        Eigen::VectorXd cop = l.cop(), fp = l.footpos(p.steps.size());
        Prediction q = predict(l, p, cop, fp);
        // guess of the solution: the previous one shifted in time
        {
            humoto::Solution guess;
            l.mpc.guessSolution(guess, old);
            Eigen::VectorXd g = Eigen::VectorXd::Zero(sol.x_.size());
            if (l.iteration > 0)
            {
                for (std::size_t i = 0; i < 2 * l.s.N && i + 2 < 2 * l.old_N; ++i) g(i) = old.x_(i + 2);
                std::size_t n = p.steps.size(), drop = old_steps > n ? 1 : 0;
                for (std::size_t i = 0; i < 2 * n; ++i) { std::size_t j = i + 2 * drop; if (j < 2 * old_steps) g(2 * l.s.N + i) = old.x_(2 * l.old_N + j); }
                if (l.old_N != l.s.N) { c.check(guess.x_.size() == g.size(), "guess", "size"); g.tail(2 * n) = guess.x_.tail(2 * n); }
                else c.check(n + 1 >= old_steps && n <= old_steps + 1, "guess-steps", "at most one step lands or appears in one iteration");
            }
            c.nearM(guess.x_, g, "guess", "guess of the solution");
            c.check(guess.getNumberOfVariables() == sol.getNumberOfVariables(), "guess", "number of variables");
        }
        // shift of the machine may precede or follow the processing of the solution
        bool early = l.iteration % 2 == look % 2;
        if (!early) { l.mpc.parseSolution(sol); }
        l.fsm.shiftTime(l.s.sub);
        humoto::wpg04::ModelState m;
        if (early)
        {
            m = l.mpc.getNextModelState(sol, l.fsm, l.model);
            c.check(throws([&] { l.mpc.getNextModelState(sol, l.fsm, l.model); }), "parsed-twice", "the solution is already parsed");
        }
        else m = l.mpc.getNextModelState(l.fsm, l.model);
        c.step("getNextModelState");
        near2(c, l.mpc.cop_profile, q.cop, "cop-profile", "position of the center of pressure");
        near2(c, l.mpc.dcop_profile, q.dcop, "cop-velocity-profile", "velocity of the center of pressure");
        near2(c, l.mpc.footpos_profile, q.steps, "steps-profile", "positions of the steps");
        c.check(l.mpc.cstate_profile.size() == 6 * (long) l.s.N, "state-profile", "size");
        for (std::size_t k = 0; k < l.s.N; ++k) c.nearM(Eigen::VectorXd(l.mpc.cstate_profile.segment(6 * k, 6)), q.x[k], "state-profile", "predicted state", 1e-7);
        // state of the CoM at any time
        std::size_t total = 0;
        Eigen::VectorXd x = l.x;
        for (std::size_t k = 0; k < l.s.N; ++k)
        {
            for (std::size_t ms = k == 0 ? 0 : 10; ms <= p.in[k].ms; ms += 10)
            {
                humoto::rigidbody::PointMassState s = l.mpc.getCoMState(l.model, total + ms);
                c.nearM(vec(s), simulate(x, q.cop[k], l.s.h, p.in[k].ms / 1000.0, ms / 1000.0), "com-state", "state of the center of mass inside of the horizon", 1e-7);
                c.near(s.position_.z(), l.s.h, "com-state", "height");
            }
            total += p.in[k].ms;
            x = q.x[k];
        }
        c.check(throws([&] { l.mpc.getCoMState(l.model, total + 1); }), "com-state-outside", "time outside of the horizon");
        // landing
        bool in_ss = l.ref.ss(l.ref.at);
        if (in_ss)
        {
            int which = 1 - Reference::side(l.ref.t[l.ref.at].type);
            if (p.steps.size() > 0)
            {
                Pose e = l.ref.landing(p, fp, l.ref.support(), which);
                checkFoot(c, l.mpc.getFootLandingState(l.model), e, "landing", "landing state of the swing foot");
            }
            else c.check(throws([&] { l.mpc.getFootLandingState(l.model); }), "landing-beyond", "there is no landing in the horizon");
        }
        else c.check(throws([&] { l.mpc.getFootLandingState(l.model); }), "landing-ds", "no foot is in the air");
        // next state
        Pose before[2] = {l.ref.foot[0], l.ref.foot[1]};
        Eigen::VectorXd nx = simulate(l.x, q.cop[0], l.s.h, p.in[0].ms / 1000.0, l.s.sub / 1000.0);
        bool landed; int which = 0;
        l.ref.shift(l.s.sub, p, fp, landed, which);
        const Ref &now = l.ref.t[l.ref.at];
        c.nearM(vec(m.com_state_), nx, "next-com", "state of the center of mass after the subsampling period", 1e-7);
        c.near(m.com_state_.position_.z(), l.s.h, "next-com", "height");
        c.check(m.stance_type_ == now.type, "next-stance", "stance");
        c.check(m.next_stance_type_ == l.ref.t[l.ref.at + 1].type, "next-stance", "following stance");
        for (int k = 0; k < 2; ++k)
        {
            bool swing = (now.type == ST::LSS || now.type == ST::RSS) && Reference::side(now.type) != k;
            if (swing) c.check(unset(m.feet_[lr(k)]), "next-swing", "the swing foot is undefined");
            else checkFoot(c, m.feet_[lr(k)], l.ref.foot[k], "next-foot", "foot on the ground");
            if (!(landed && which == k)) checkFoot(c, m.feet_[lr(k)].position_(0) == m.feet_[lr(k)].position_(0) ? m.feet_[lr(k)] : l.model.getFootState(lr(k)), before[k], "next-foot-still", "feet on the ground do not move");
        }
        if (!follow) { m.com_state_ = comState(l.iteration + 1, l.height()); }
        l.model.updateState(m);
        l.setX(m.com_state_);
        c.nearM(l.model.current_support_position_, l.ref.support(), "support", "position of the current support");
        c.nearM(Eigen::VectorXd(l.model.getCState()), l.x, "model-state", "state of the model");
        c.near(l.model.getCoMHeight(), l.s.h, "model-state", "height");
        c.nearM(vec(l.model.getCoMState()), l.x, "model-state", "state of the model");
        c.check(l.model.state_.stance_type_ == now.type, "model-state", "stance of the model");
        for (int k = 0; k < 2; ++k)
        {
            bool swing = l.ref.ss(l.ref.at) && Reference::side(now.type) != k;
            if (!swing) checkFoot(c, l.model.getFootState(lr(k)), l.ref.foot[k], "model-foot", "foot of the model on the ground");
        }
        std::stringstream ss; ss << now.type << now.subtype << l.ref.time << "," << p.steps.size() << "," << l.s.N << l.s.sub << l.s.tds << landed;
        c.state(ss.str());
        old = sol; old_steps = p.steps.size();
        if (l.iteration > 400) { c.fail("endless", "the loop never stops"); break; }
    }
}
MC_SCENARIO(loops, 64, 4)
{
    Setup s = chooseSetup(c, !c.thorough);
    Loop l(s);
    run(c, l, false, c.choose(2, "order"));
}
// the predicted state is fed back: the loop is closed
MC_SCENARIO(closed, 64, 4)
{
    Setup s = chooseSetup(c, !c.thorough);
    if (s.par.num_steps_ > 2 || s.par.ss_duration_ms_ > 200) throw mc::Prune();
    Loop l(s);
    run(c, l, true, 0);
}
// the robot, its height and the length of the horizon are not the default ones and change
MC_SCENARIO(varied, 64, 4)
{
    Setup s = chooseVaried(c, false);
    Loop l(s);
    run(c, l, false, s.var.at);
}
// results of a new object, before any problem was formed
MC_SCENARIO(fresh, 1, 1)
{
    Setup s = chooseSetup(c, true);
    if (s.par.num_steps_ > 2) throw mc::Prune();
    Loop l(s);
    typedef humoto::wpg04::MPCforWPG M;
    void *where = ::operator new(sizeof(M));
    memset(where, c.flip("previous content of the memory") ? 0xff : 1, sizeof(M));
    M *m = c.flip("with parameters") ? new (where) M(l.mpc_par) : new (where) M;
    c.step("query");
    bool ok = throws([&] { m->getNextModelState(l.fsm, l.model); }) && throws([&] { m->getCoMState(l.model, 0); }) && throws([&] { m->getFootLandingState(l.model); });
    m->~M();
    ::operator delete(where);
    c.check(ok, "not-parsed", "results of a new object");
}
MC_SCENARIO(states, 1, 1)
{
    // initial states
    c.step("set");
    humoto::wpg04::ModelState m;
    humoto::walking::RobotFootParameters foot;
    double half = foot.getFootPositionFromADS(LR::LEFT, M2::Identity(), V2::Zero()).y();
    for (int pass = 0; pass < 2; ++pass)
    {
        double h = pass == 0 ? 0.814 : 0.6;
        if (pass == 1) m.set(foot, h);
        c.near(m.com_state_.position_.z(), h, "initial", "height");
        c.near(m.com_state_.position_.x(), 0, "initial", "position"); c.near(m.com_state_.position_.y(), 0, "initial", "position");
        c.near(m.feet_.getLeft().position_.y(), half, "initial", "left foot"); c.near(m.feet_.getRight().position_.y(), -half, "initial", "right foot");
        c.near(m.feet_.getLeft().position_.x(), 0, "initial", "left foot"); c.near(m.feet_.getRight().position_.x(), 0, "initial", "right foot");
        c.check(m.stance_type_ == ST::DS, "initial", "stance");
        c.check(m.next_stance_type_ == ST::UNDEFINED, "initial", "the next stance is not known");
    }
    humoto::wpg04::Model model;
    c.nearM(model.current_support_position_, V2(0, 0), "initial", "support");
    static const ST::Type all[] = {ST::DS, ST::LSS, ST::RSS, ST::TDS, ST::UNDEFINED};
    ST::Type t = c.pick(all, "stance");
    bool good = t == ST::DS || t == ST::LSS || t == ST::RSS;
    humoto::rigidbody::RigidBodyState f[2];
    f[0].setDefaults(); f[1].setDefaults();
    f[0].position_ << 1, 2, 0; f[1].position_ << 3, 7, 0;
    c.check(throws([&] { m.set(t, comState(1, 1), f[0], f[1]); }) == !good, "set", "stance");
    if (!good) return;
    model.updateState(m);
    c.nearM(model.current_support_position_, t == ST::DS ? V2(2, 4.5) : (t == ST::LSS ? V2(1, 2) : V2(3, 7)), "support", "support after an update");
}
