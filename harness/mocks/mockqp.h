// Stand-ins for the QP libraries: they record what the bridges give them, and answer as told ('script') or exactly.
#pragma once
#include "exactqp.h"
#include <string>
#include <vector>
#include <stdexcept>
namespace mockqp
{
    struct Record
    {
        int calls;
        exactqp::QP qp;             // with pairs of inequalities
        Eigen::MatrixXd H, A;
        Eigen::VectorXd g, lb, ub, lbA, ubA;
        bool has_bounds, has_constraints;
        // qpOASES
        int nv, nc, hessian, max_iterations;
        bool has_time; double max_time;
        bool has_guess; Eigen::VectorXd guess;
        bool has_dual;
        bool has_bound_guess, has_constraint_guess;
        std::vector<int> bound_guess, constraint_guess;
        std::string misuse;
        void bad(const std::string &m) { if (misuse.empty()) misuse = m; }
        Record() : calls(0), has_bounds(false), has_constraints(false), nv(0), nc(0), hessian(0), max_iterations(0), has_time(false), max_time(0), has_guess(false), has_dual(false), has_bound_guess(false), has_constraint_guess(false) {}
    };
    struct Script
    {
        bool exact;
        int status;                 // of the particular library
        double value;
        int iterations;
        Eigen::VectorXd x;
        std::vector<int> bounds, constraints;
        Script() : exact(true), status(0), value(0), iterations(0) {}
    };
    inline Record &record() { static Record r; return r; }
    inline Script &script() { static Script s; return s; }
    inline int &live() { static int n = 0; return n; }      // objects of the library
}
