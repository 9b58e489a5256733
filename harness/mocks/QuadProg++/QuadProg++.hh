// Stand-in for QuadProgpp (the variant with Eigen): min 1/2 x'Hx + g'x s.t. CE'x + ce0 = 0, CI'x + ci0 >= 0
#pragma once
#include "mockqp.h"
namespace QuadProgpp
{
    class Status { public: enum Value { OK = 0, FAILURE = 1 }; };
    class Solver
    {
        public:
            Solver() { ++mockqp::live(); }
            Solver(const Solver &) { ++mockqp::live(); }
            ~Solver() { --mockqp::live(); }
            double solve(Eigen::MatrixXd &H, Eigen::VectorXd &g, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0, const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x)
            {
                mockqp::Record &r = mockqp::record();
                int calls = r.calls;
                std::string misuse = r.misuse;
                r = mockqp::Record();
                r.calls = calls + 1; r.misuse = misuse;
                long n = H.rows();
                r.nv = n; r.nc = CE.cols() + CI.cols();
                if (H.cols() != n || g.size() != n) r.bad("sizes of the objective");
                if ((CE.cols() > 0 && CE.rows() != n) || ce0.size() != CE.cols()) r.bad("sizes of the equalities");
                if ((CI.cols() > 0 && CI.rows() != n) || ci0.size() != CI.cols()) r.bad("sizes of the inequalities");
                if (!r.misuse.empty()) return Status::FAILURE;
                r.H = H; r.g = g;
                exactqp::QP &q = r.qp;
                q.H = H; q.g = g; q.eq = CE.cols();
                q.C.resize(r.nc, n); q.d.resize(r.nc);
                for (long i = 0; i < r.nc; ++i)
                {
                    if (i < q.eq) { q.C.row(i) = CE.col(i).transpose(); q.d(i) = -ce0(i); }
                    else { q.C.row(i) = CI.col(i - q.eq).transpose(); q.d(i) = -ci0(i - q.eq); }
                }
                r.A = q.C; r.lbA = q.d; r.ubA = q.d;
                for (long i = q.eq; i < r.nc; ++i) r.ubA(i) = 1e20;
                r.lb = Eigen::VectorXd::Constant(n, -1e20); r.ub = Eigen::VectorXd::Constant(n, 1e20);
                mockqp::Script &s = mockqp::script();
                H.setConstant(7.5);                                  // the Hessian is factorized in place
                if (!s.exact) { x = s.x; x.conservativeResize(n); return s.value; }
                exactqp::Result res = exactqp::solve(q);
                if (res.status == exactqp::Result::OK) x = res.x; else x.setZero(n);
                return res.status == exactqp::Result::OK ? Status::OK : Status::FAILURE;
            }
    };
}
