// Stand-in for qpOASES 3: the part of its interface which is used by the bridge.
#pragma once
#include "mockqp.h"
namespace qpOASES
{
    typedef double real_t;
    typedef int int_t;
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE, ST_UPPER, ST_INFEASIBLE_LOWER, ST_INFEASIBLE_UPPER, ST_UNDEFINED };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO, RET_INDEX_OUT_OF_BOUNDS, RET_INVALID_ARGUMENTS,
        RET_MAX_NWSR_REACHED = 64, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37, RET_INIT_FAILED_UNBOUNDEDNESS = 38 };

    struct MessageHandling
    {
        static const char *getErrorCodeMessage(const returnValue v)
        {
            switch (v)
            {
                case SUCCESSFUL_RETURN: return "Successful return";
                case RET_MAX_NWSR_REACHED: return "Maximum number of working set recalculations performed";
                case RET_INIT_FAILED_INFEASIBILITY: return "Initialisation failed due to QP infeasibility";
                default: return "Other";
            }
        }
    };

    struct Options
    {
        BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests;
        int_t enableDriftCorrection, enableCholeskyRefactorisation;
        BooleanType enableEqualities;
        real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump, initialRamping, finalRamping, initialFarBounds, growFarBounds;
        SubjectToStatus initialStatusBounds;
        real_t epsFlipping;
        int_t numRegularisationSteps;
        real_t epsRegularisation;
        int_t numRefinementSteps;
        real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin;
        BooleanType enableInertiaCorrection, enableDropInfeasibles;
        int_t dropBoundPriority, dropEqConPriority, dropIneqConPriority;
        Options() { setToDefault(); }
        void setToDefault()
        {
            enableRamping = enableFarBounds = enableFlippingBounds = BT_TRUE;
            enableRegularisation = enableFullLITests = BT_FALSE;
            enableNZCTests = BT_TRUE;
            enableDriftCorrection = 1; enableCholeskyRefactorisation = 0; enableEqualities = BT_FALSE;
            terminationTolerance = 5e6 * 2.2e-16; boundTolerance = 1e6 * 2.2e-16; boundRelaxation = 1e4; epsNum = -1e3 * 2.2e-16; epsDen = 1e3 * 2.2e-16;
            maxPrimalJump = maxDualJump = 1e8; initialRamping = 0.5; finalRamping = 1.0; initialFarBounds = 1e6; growFarBounds = 1e3;
            initialStatusBounds = ST_LOWER;
            epsFlipping = 1e3 * 2.2e-16; numRegularisationSteps = 0; epsRegularisation = 1e3 * 2.2e-16; numRefinementSteps = 1; epsIterRef = 1e2 * 2.2e-16;
            epsLITests = 1e5 * 2.2e-16; epsNZCTests = 3e3 * 2.2e-16; rcondSMin = 1e-14;
            enableInertiaCorrection = BT_TRUE; enableDropInfeasibles = BT_FALSE;
            dropBoundPriority = dropEqConPriority = dropIneqConPriority = 1;
        }
        void setToMPC()
        {
            setToDefault();
            enableRamping = BT_FALSE; enableFarBounds = BT_TRUE; enableFlippingBounds = BT_FALSE; enableRegularisation = BT_TRUE; enableNZCTests = BT_FALSE;
            enableDriftCorrection = 0; enableEqualities = BT_TRUE; terminationTolerance = 1e9 * 2.2e-16; initialStatusBounds = ST_INACTIVE; numRegularisationSteps = 1; numRefinementSteps = 0;
        }
    };
    inline Options &options() { static Options o; return o; }       // the last ones which were set

    struct SubjectTo
    {
        std::vector<int> status;
        bool initialized;
        SubjectTo() : initialized(false) { ++mockqp::live(); }
        SubjectTo(const SubjectTo &o) : status(o.status), initialized(o.initialized) { ++mockqp::live(); }
        ~SubjectTo() { --mockqp::live(); }
        returnValue init(int_t n)
        {
            if (n < 0) return RET_INVALID_ARGUMENTS;
            initialized = true;
            status.assign(n, ST_UNDEFINED);
            return SUCCESSFUL_RETURN;
        }
        returnValue set(int_t number, SubjectToStatus s)
        {
            if (number < 0 || number >= (int_t) status.size()) { mockqp::record().bad("index of a guess is out of range"); return RET_INDEX_OUT_OF_BOUNDS; }
            status[number] = s;
            return SUCCESSFUL_RETURN;
        }
    };
    struct Bounds : public SubjectTo
    {
        returnValue setupAllFree() { status.assign(status.size(), ST_INACTIVE); return SUCCESSFUL_RETURN; }
        returnValue setupBound(int_t number, SubjectToStatus s) { return set(number, s); }
        SubjectToStatus getStatus(int_t i) const { return (SubjectToStatus) status[i]; }
    };
    struct Constraints : public SubjectTo
    {
        returnValue setupAllInactive() { status.assign(status.size(), ST_INACTIVE); return SUCCESSFUL_RETURN; }
        returnValue setupConstraint(int_t number, SubjectToStatus s) { return set(number, s); }
        SubjectToStatus getStatus(int_t i) const { return (SubjectToStatus) status[i]; }
    };

    class QProblem
    {
            int nv, nc, hessian;
            bool done;
            Eigen::VectorXd x;
            std::vector<int> wb, wc;
        public:
            QProblem(int_t nV, int_t nC, HessianType h = HST_UNKNOWN) : nv(nV), nc(nC), hessian(h), done(false) { ++mockqp::live(); }
            QProblem(const QProblem &o) : nv(o.nv), nc(o.nc), hessian(o.hessian), done(o.done), x(o.x), wb(o.wb), wc(o.wc) { ++mockqp::live(); }
            ~QProblem() { --mockqp::live(); }
            returnValue setOptions(const Options &o) { options() = o; return SUCCESSFUL_RETURN; }

            returnValue init(const real_t *H, const real_t *g, const real_t *A, const real_t *lb, const real_t *ub, const real_t *lbA, const real_t *ubA,
                             int_t &nWSR, real_t *const cputime = 0, const real_t *const xOpt = 0, const real_t *const yOpt = 0,
                             const Bounds *const guessedBounds = 0, const Constraints *const guessedConstraints = 0)
            {
                mockqp::Record &r = mockqp::record();
                int calls = r.calls;
                std::string misuse = r.misuse;
                r = mockqp::Record();
                r.calls = calls + 1; r.misuse = misuse;
                r.nv = nv; r.nc = nc; r.hessian = hessian; r.max_iterations = nWSR;
                if (done) r.bad("second initialization of a problem");
                if (H == 0 || g == 0) r.bad("no objective");
                r.H = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(H, nv, nv);
                r.g = Eigen::Map<const Eigen::VectorXd>(g, nv);
                r.has_bounds = lb != 0 || ub != 0;
                const double inf = 1e20;
                r.lb = lb ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(lb, nv)) : Eigen::VectorXd::Constant(nv, -inf);
                r.ub = ub ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(ub, nv)) : Eigen::VectorXd::Constant(nv, inf);
                r.has_constraints = nc > 0;
                if (nc > 0 && A == 0) { r.bad("no matrix of constraints"); return RET_INVALID_ARGUMENTS; }
                r.A.resize(nc, nv);
                if (nc > 0) r.A = Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(A, nc, nv);
                r.lbA = lbA && nc ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(lbA, nc)) : Eigen::VectorXd::Constant(nc, -inf);
                r.ubA = ubA && nc ? Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(ubA, nc)) : Eigen::VectorXd::Constant(nc, inf);
                r.has_time = cputime != 0;
                if (cputime) { r.max_time = *cputime; *cputime = 0.125 * r.max_time; }      // on output: the time which was spent
                r.has_guess = xOpt != 0;
                if (xOpt) r.guess = Eigen::Map<const Eigen::VectorXd>(xOpt, nv);
                r.has_dual = yOpt != 0;
                r.has_bound_guess = guessedBounds != 0;
                r.has_constraint_guess = guessedConstraints != 0;
                if (guessedBounds) { r.bound_guess = guessedBounds->status; if ((int) r.bound_guess.size() != nv) r.bad("size of the guess for bounds"); }
                if (guessedConstraints) { r.constraint_guess = guessedConstraints->status; if ((int) r.constraint_guess.size() != nc) r.bad("size of the guess for constraints"); }
                for (int s : r.bound_guess) if (s == ST_UNDEFINED) r.bad("undefined guess for a bound");
                for (int s : r.constraint_guess) if (s == ST_UNDEFINED) r.bad("undefined guess for a constraint");
                done = true;

                mockqp::Script &s = mockqp::script();
                if (!s.exact)
                {
                    x = s.x; wb = s.bounds; wc = s.constraints;
                    wb.resize(nv, 0); wc.resize(nc, 0);
                    x.conservativeResize(nv);
                    nWSR = s.iterations;
                    return (returnValue) s.status;
                }
                // all rows which are bounded; equalities first
                std::vector<std::pair<Eigen::VectorXd, double> > eq, in;
                std::vector<int> eq_id, in_id;      // +-(1 + index), bounds follow constraints
                for (int i = 0; i < nc + nv; ++i)
                {
                    Eigen::VectorXd row = i < nc ? Eigen::VectorXd(r.A.row(i)) : Eigen::VectorXd(Eigen::VectorXd::Unit(nv, i - nc));
                    double lo = i < nc ? r.lbA(i) : r.lb(i - nc), up = i < nc ? r.ubA(i) : r.ub(i - nc);
                    if (lo == up) { eq.push_back(std::make_pair(row, lo)); eq_id.push_back(-(1 + i)); continue; }
                    if (lo > -inf) { in.push_back(std::make_pair(row, lo)); in_id.push_back(-(1 + i)); }
                    if (up < inf) { in.push_back(std::make_pair(Eigen::VectorXd(-row), -up)); in_id.push_back(1 + i); }
                }
                exactqp::QP &q = r.qp;
                q.H = r.H; q.g = r.g; q.eq = eq.size();
                q.C.resize(eq.size() + in.size(), nv); q.d.resize(q.C.rows());
                for (long i = 0; i < q.C.rows(); ++i) { const std::pair<Eigen::VectorXd, double> &p = i < q.eq ? eq[i] : in[i - q.eq]; q.C.row(i) = p.first.transpose(); q.d(i) = p.second; }
                exactqp::Result res = exactqp::solve(q);
                x = res.status == exactqp::Result::OK ? res.x : Eigen::VectorXd::Zero(nv);
                wb.assign(nv, 0); wc.assign(nc, 0);
                for (long i = 0; i < res.u.size(); ++i)
                {
                    if (i >= q.eq && res.u(i) <= 1e-12) continue;
                    int id = i < q.eq ? (res.u(i) < 0 ? -eq_id[i] : eq_id[i]) : in_id[i - q.eq];
                    int k = std::abs(id) - 1;
                    (k < nc ? wc[k] : wb[k - nc]) = id < 0 ? -1 : 1;
                }
                if (res.iterations > nWSR) { nWSR = 0; return RET_MAX_NWSR_REACHED; }
                nWSR = res.iterations;
                return res.status == exactqp::Result::OK ? SUCCESSFUL_RETURN : res.status == exactqp::Result::INFEASIBLE ? RET_INIT_FAILED_INFEASIBILITY : RET_INIT_FAILED;
            }
            returnValue getPrimalSolution(real_t *const xOpt) const
            {
                if (!done) { mockqp::record().bad("solution of a problem which was not solved"); return RET_INVALID_ARGUMENTS; }
                for (int i = 0; i < nv; ++i) xOpt[i] = x(i);
                return SUCCESSFUL_RETURN;
            }
            returnValue getWorkingSetBounds(real_t *w)
            {
                if (!done) { mockqp::record().bad("working set of a problem which was not solved"); return RET_INVALID_ARGUMENTS; }
                for (int i = 0; i < nv; ++i) w[i] = wb[i];
                return SUCCESSFUL_RETURN;
            }
            returnValue getWorkingSetConstraints(real_t *w)
            {
                if (!done) { mockqp::record().bad("working set of a problem which was not solved"); return RET_INVALID_ARGUMENTS; }
                for (int i = 0; i < nc; ++i) w[i] = wc[i];
                return SUCCESSFUL_RETURN;
            }
    };
}
