// Stand-in for qpmad: the part of its interface which is used by the bridge.
#pragma once
#include "mockqp.h"
namespace qpmad
{
    class SolverParameters
    {
        public:
            enum HessianType { HESSIAN_UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
            HessianType hessian_type_;
            double tolerance_;
            int max_iter_;
            SolverParameters() : hessian_type_(HESSIAN_LOWER_TRIANGULAR), tolerance_(1e-12), max_iter_(-1) {}
    };
    inline SolverParameters &options() { static SolverParameters o; return o; }     // of the last call

    class Solver
    {
        public:
            enum ReturnStatus { OK = 0, INCONSISTENT = 1, INFEASIBLE_EQUALITY = 2, INFEASIBLE_INEQUALITY = 3, MAXIMAL_NUMBER_OF_ITERATIONS = 4 };
            Solver() { ++mockqp::live(); }
            Solver(const Solver &) { ++mockqp::live(); }
            ~Solver() { --mockqp::live(); }
            ReturnStatus solve(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub,
                               const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub)
            {
                return solve(x, H, g, lb, ub, A, Alb, Aub, SolverParameters());
            }
            ReturnStatus solve(Eigen::VectorXd &x, Eigen::MatrixXd &H, const Eigen::VectorXd &g, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub,
                               const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub, const SolverParameters &p)
            {
                mockqp::Record &r = mockqp::record();
                int calls = r.calls;
                std::string misuse = r.misuse;
                r = mockqp::Record();
                r.calls = calls + 1; r.misuse = misuse;
                long n = H.rows();
                r.nv = n; r.nc = A.rows();
                options() = p;
                if (H.cols() != n || g.size() != n) r.bad("sizes of the objective");
                if (lb.size() != ub.size() || (lb.size() != 0 && lb.size() != n)) r.bad("sizes of the bounds");
                if (Alb.size() != A.rows() || Aub.size() != A.rows() || (A.rows() > 0 && A.cols() != n)) r.bad("sizes of the constraints");
                if (!r.misuse.empty()) return INCONSISTENT;
                r.H = H.triangularView<Eigen::Lower>();             // the rest is not used by the library
                r.H.triangularView<Eigen::StrictlyUpper>() = Eigen::MatrixXd(r.H.transpose());
                r.g = g;
                r.has_bounds = lb.size() > 0; r.has_constraints = A.rows() > 0;
                const double inf = 1e20;
                r.lb = lb.size() ? lb : Eigen::VectorXd::Constant(n, -inf);
                r.ub = ub.size() ? ub : Eigen::VectorXd::Constant(n, inf);
                r.A = A.rows() ? A : Eigen::MatrixXd(0, n); r.lbA = Alb; r.ubA = Aub;
                mockqp::Script &s = mockqp::script();
                H.setConstant(7.5);                                  // the Hessian is factorized in place
                if (!s.exact) { x = s.x; x.conservativeResize(n); return (ReturnStatus) s.status; }
                std::vector<std::pair<Eigen::VectorXd, double> > eq, in;
                for (int i = 0; i < r.nc + n; ++i)
                {
                    Eigen::VectorXd row = i < r.nc ? Eigen::VectorXd(r.A.row(i)) : Eigen::VectorXd(Eigen::VectorXd::Unit(n, i - r.nc));
                    double lo = i < r.nc ? r.lbA(i) : r.lb(i - r.nc), up = i < r.nc ? r.ubA(i) : r.ub(i - r.nc);
                    if (lo == up) { eq.push_back(std::make_pair(row, lo)); continue; }
                    if (lo > -inf) in.push_back(std::make_pair(row, lo));
                    if (up < inf) in.push_back(std::make_pair(Eigen::VectorXd(-row), -up));
                }
                exactqp::QP &q = r.qp;
                q.H = r.H; q.g = r.g; q.eq = eq.size();
                q.C.resize(eq.size() + in.size(), n); q.d.resize(q.C.rows());
                for (long i = 0; i < q.C.rows(); ++i) { const std::pair<Eigen::VectorXd, double> &e = i < q.eq ? eq[i] : in[i - q.eq]; q.C.row(i) = e.first.transpose(); q.d(i) = e.second; }
                exactqp::Result res = exactqp::solve(q);
                if (res.status == exactqp::Result::OK) x = res.x; else x.setZero(n);
                if (p.max_iter_ >= 0 && res.iterations > p.max_iter_) return MAXIMAL_NUMBER_OF_ITERATIONS;
                return res.status == exactqp::Result::OK ? OK : INFEASIBLE_INEQUALITY;
            }
    };
}
