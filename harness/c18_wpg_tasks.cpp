// C18: tasks of the walking pattern generator express the predicted motion, for all decisions and at all iterations.
#include "wpg_predict.h"
using namespace wpg;
typedef humoto::ConstraintActivationType CA;
typedef humoto::walking::FootBoundsType FB;
static humoto::LeftOrRight::Type lr(int k) { return k == 0 ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT; }
enum { VEL, COPV, TERM, COPP, COPB, STEPS, COUNT };
struct Stack
{
    humoto::OptimizationProblem opt;
    bool fixed;
    double gain[4];
    Stack(bool fix, bool defaults)
    {
        using namespace humoto::wpg04;
        fixed = fix;
        gain[VEL] = defaults ? 0.707106781186548 : 2.0; gain[COPV] = defaults ? 0.223606797749979 : 0.5;
        gain[TERM] = defaults ? 1.0 : -3.0; gain[COPP] = defaults ? 12.2474487139159 : 0.25;
        opt.reset(STEPS);          // bounds share a level: it must not be empty when there are no steps
        typedef humoto::TaskSharedPointer P;
        if (defaults)
        {
            opt.pushTask(P(new TaskCoMVelocity()), VEL); opt.pushTask(P(new TaskCoPVelocity()), COPV);
            opt.pushTask(P(new TaskTerminalConstraint()), TERM); opt.pushTask(P(new TaskCoPPosition()), COPP);
        }
        else
        {
            opt.pushTask(P(new TaskCoMVelocity(gain[VEL])), VEL); opt.pushTask(P(new TaskCoPVelocity(gain[COPV])), COPV);
            opt.pushTask(P(new TaskTerminalConstraint(gain[TERM])), TERM); opt.pushTask(P(new TaskCoPPosition(gain[COPP])), COPP);
        }
        opt.pushTask(P(new TaskCoPBounds()), COPB);
        opt.pushTask(P(new TaskFootstepBounds(fix)), COPB);
    }
};
static void checkTasks(mc::Ctx &c, const Loop &l, const Stack &st, const Plan &p, const humoto::Solution &sol)
{
    std::size_t N = l.s.N, S = p.steps.size();
    long n = 2 * N + 2 * S;
    humoto::constraints::ContainerALU k[STEPS];
    static const char *names[] = {"com-velocity", "cop-velocity", "terminal", "cop-position", "cop-bounds", "footstep-bounds"};
    long rows[] = {(long) (2 * N), (long) (2 * N), 2, (long) (2 * N), (long) (2 * N + 2 * S)};
    for (int i = 0; i < STEPS; ++i)
    {
        st.opt[i].getAllConstraints(k[i], sol);
        c.check((long) k[i].getNumberOfConstraints() == rows[i], names[i], "number of constraints");
        if (rows[i] > 0) c.check(k[i].getA().cols() == n, names[i], "number of variables");
        if (i <= COPP) for (long r = 0; r < rows[i]; ++r) c.near(k[i].getLowerBounds()(r), k[i].getUpperBounds()(r), names[i], "must be an equality");
    }
    double w = std::sqrt(humoto::g_gravitational_acceleration / l.s.h);
    // affine maps: compared at the origin and at all unit vectors
    for (long j = -1; j < n; ++j)
    {
        Eigen::VectorXd x = Eigen::VectorXd::Zero(n);
        if (j >= 0) x(j) = 1;
        Prediction q = predict(l, p, x.head(2 * N), x.tail(2 * S));
        Eigen::VectorXd e[COUNT];
        e[VEL].resize(2 * N); e[COPV].resize(2 * N); e[COPP].resize(2 * N); e[TERM].resize(2);
        for (std::size_t i = 0; i < N; ++i)
        {
            e[VEL].segment(2 * i, 2) = V2(q.x[i](1), q.x[i](4)) - p.in[i].vel;
            e[COPV].segment(2 * i, 2) = q.dcop[i];
            e[COPP].segment(2 * i, 2) = x.segment(2 * i, 2);
        }
        e[TERM] << q.x[N - 1](1) + q.x[N - 1](2) / w, q.x[N - 1](4) + q.x[N - 1](5) / w;      // velocity of the capture point
        for (int i = 0; i <= COPP; ++i)
        {
            Eigen::VectorXd r = k[i].getA() * x - k[i].getLowerBounds(), ref = st.gain[i] * e[i];
            c.nearM(r, ref, names[i], "residual of a task", 1e-7);
        }
    }
    const humoto::walking::RobotFootParameters &foot = *l.ref.foot_par;
    for (std::size_t i = 0; i < N; ++i)
    {
        Eigen::Matrix2d b = l.ref.ss(p.in[i].stance) ? foot.getSSCoPBounds() : foot.getADSCoPBounds();
        c.nearM(V2(k[COPB].getLowerBounds().segment(2 * i, 2)), V2(b.col(0)), names[COPB], "lower bound");
        c.nearM(V2(k[COPB].getUpperBounds().segment(2 * i, 2)), V2(b.col(1)), names[COPB], "upper bound");
    }
    Eigen::MatrixXd I = Eigen::MatrixXd::Identity(n, n);
    c.nearM(Eigen::MatrixXd(k[COPB].getA().topRows(2 * N)), Eigen::MatrixXd(I.topRows(2 * N)), names[COPB], "bounded variables");
    if (S > 0) c.nearM(Eigen::MatrixXd(k[COPB].getA().bottomRows(2 * S)), Eigen::MatrixXd(I.bottomRows(2 * S)), names[STEPS], "bounded variables");
    for (std::size_t i = 0; i < S; ++i)
    {
        const Ref &r = l.ref.t[p.steps[i].stance];
        Eigen::Matrix2d b;
        if (r.type == ST::DS) b = foot.getFootBounds(lr(1 - Reference::side(r.nontds)), FB::ALIGNED_TO_SS);
        else if (r.nontds == ST::DS) b = foot.getFootBounds(lr(Reference::side(r.type)), FB::WITH_RESPECT_TO_ADS);
        else b = foot.getFootBounds(lr(Reference::side(r.type)), FB::WITH_RESPECT_TO_SS);
        if (st.fixed)       // the longest and the narrowest step
        {
            b(0, 0) = b(0, 1);
            if (r.type == ST::RSS) b(1, 0) = b(1, 1); else b(1, 1) = b(1, 0);
        }
        c.nearM(V2(k[COPB].getLowerBounds().segment(2 * N + 2 * i, 2)), V2(b.col(0)), names[STEPS], "lower bound");
        c.nearM(V2(k[COPB].getUpperBounds().segment(2 * N + 2 * i, 2)), V2(b.col(1)), names[STEPS], "upper bound");
    }
}
static CA::Type act(int salt, std::size_t i)
{
    static const CA::Type v[] = {CA::INACTIVE, CA::LOWER_BOUND, CA::UPPER_BOUND};
    return v[(salt * 5 + i * 7 + salt * i) % 3];
}
static void run(mc::Ctx &c, Loop &l, Stack &st, bool full)
{
    humoto::ActiveSet guess, last;
    std::size_t old_steps = 0;
    bool have = false;
    for (;; ++l.iteration)
    {
        l.before();
        Plan p = l.ref.plan();
        if (l.mpc.update(l.model, l.fsm, l.ref.par) != humoto::ControlProblemStatus::OK) { c.check(!p.ok, "status", "stopped too early"); break; }
        c.check(p.ok, "status", "must stop");
        humoto::Solution sol;
        if (l.s.var.N == 0) st.opt.form(sol, guess, l.model, l.mpc); else st.opt.form(sol, l.model, l.mpc);
        c.step("form");
        if (full) checkTasks(c, l, st, p, sol);
        std::size_t n = p.steps.size();
        if (l.s.var.N == 0) {
        c.check(guess.size() == STEPS, "active-set", "levels of the guess");
        for (int i = 0; i <= COPP; ++i) for (std::size_t r = 0; r < guess[i].size(); ++r) c.check(guess[i][r] == CA::EQUALITY, "active-set", "equality");
        c.check(guess[COPB].size() == 2 * l.s.N + 2 * n, "active-set", "size of the guess");
        for (std::size_t r = 0; r < 2 * l.s.N; ++r)
        {
            CA::Type e = (have && r + 2 < 2 * l.s.N) ? last[COPB][r + 2] : CA::INACTIVE;
            c.check(guess[COPB][r] == e, "active-set-cop", "the guess is the previous active set shifted by one interval");
        }
        std::size_t drop = old_steps > n ? 2 : 0;
        for (std::size_t r = 0; r < 2 * n; ++r)
        {
            CA::Type e = CA::INACTIVE;
            if (have && r + drop < 2 * old_steps) e = last[COPB][2 * l.s.N + r + drop];
            if (st.fixed) e = CA::EQUALITY;
            c.check(guess[COPB][2 * l.s.N + r] == e, "active-set-steps", "the guess for the steps which remain in the horizon is kept");
        }
        humoto::ActiveSet as;
        st.opt.initializeActiveSet(as);
        for (int i = 0; i < STEPS; ++i) for (std::size_t r = 0; r < as[i].size(); ++r) as[i][r] = i <= COPP ? CA::EQUALITY : act(l.iteration + i, r);
        st.opt.processActiveSet(as);
        last = as; have = true; old_steps = n;
        }
        std::stringstream ss; ss << l.ref.t[l.ref.at].type << "," << l.ref.time << "," << n << "," << l.s.N << "," << l.s.sub << l.s.tds << st.fixed;
        c.state(ss.str());

        humoto::Solution x = l.solution(n);
        l.fsm.shiftTime(l.s.sub);
        humoto::wpg04::ModelState m = l.mpc.getNextModelState(x, l.fsm, l.model);
        bool landed; int which;
        l.ref.shift(l.s.sub, p, l.footpos(n), landed, which);
        m.com_state_ = comState(l.iteration + 1, l.height());
        l.model.updateState(m);
        l.setX(m.com_state_);
        if (l.iteration > 400) { c.fail("endless", "the loop never stops"); break; }
    }
}
MC_SCENARIO(tasks, 64, 4)
{
    Setup s = chooseSetup(c, true);
    if (!c.thorough && (s.par.num_steps_ == 4 || s.par.ss_duration_ms_ == 400)) throw mc::Prune();
    Stack st(c.flip("fixed footsteps"), c.flip("default gains"));
    Loop l(s);
    run(c, l, st, true);
}
// the robot, its height and the length of the horizon are not the default ones and change
MC_SCENARIO(varied, 64, 4)
{
    Setup s = chooseVaried(c, false);
    Stack st(c.flip("fixed footsteps"), true);
    Loop l(s);
    run(c, l, st, true);
}
// activity over complete loops with all horizons
MC_SCENARIO(activity, 64, 4)
{
    Setup s = chooseSetup(c, false);
    Stack st(c.flip("fixed footsteps"), true);
    Loop l(s);
    run(c, l, st, false);
}
