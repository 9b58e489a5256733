// Explicit tasks of all 20 constraint types together with a boring dense reference model.
#pragma once
#include "mc.h"
#include "humoto/humoto.h"

namespace hier
{
    enum Body { A = 0, AS = 1, I = 2, GI = 3 };
    enum Bounds { LU = 0, L = 1, U = 2, B = 3, B0 = 4 };

    static const char *body_names[] = {"A", "AS", "I", "GI"};
    static const char *bounds_names[] = {"LU", "L", "U", "B", "B0"};

    // What one task says at one control iteration
    struct Spec
    {
        int body, bounds;
        long m;                        // number of constraints
        long offset;                   // AS
        Eigen::MatrixXd M;             // A, AS
        std::vector<unsigned> idx;     // I, GI
        Eigen::VectorXd gains;         // GI
        Eigen::VectorXd lb, ub;        // b is kept in lb
        bool unmodified;

        Spec() : body(0), bounds(0), m(0), offset(0), unmodified(false) {}
        bool simple() const { return body == I || body == GI; }
        bool equality() const { return bounds == B || bounds == B0; }
        bool twosided() const { return bounds == LU; }

        Eigen::MatrixXd dense(long n) const
        {
            Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m, n);
            for (long i = 0; i < m; ++i)
            {
                if (body == A) for (long j = 0; j < n; ++j) D(i, j) = M(i, j);
                if (body == AS) for (long j = 0; j < M.cols(); ++j) D(i, offset + j) = M(i, j);
                if (body == I) D(i, idx[i]) = 1.0;
                if (body == GI) D(i, idx[i]) = gains(i);
            }
            return D;
        }
        double lower(long i) const
        {
            if (bounds == B0) return 0.0;
            if (bounds == U) return -humoto::g_infinity;
            return lb(i);
        }
        double upper(long i) const
        {
            if (bounds == B0) return 0.0;
            if (bounds == L) return humoto::g_infinity;
            if (bounds == B) return lb(i);
            return ub(i);
        }
        std::string str() const
        {
            std::stringstream s;
            s << body_names[body] << bounds_names[bounds] << " m=" << m;
            if (body == AS) s << " offset=" << offset << " width=" << M.cols();
            if (simple()) { s << " I=["; for (size_t i = 0; i < idx.size(); ++i) s << idx[i] << " "; s << "]"; }
            return s.str();
        }
    };

    // ---- setters for the various bodies and bounds
    template<int body> struct SetBody;
    template<> struct SetBody<A> { template<class T> static void set(T &t, const Spec &s) { t.getA() = s.M; } };
    template<> struct SetBody<AS> { template<class T> static void set(T &t, const Spec &s) { t.getA() = s.M; t.setOffset(s.offset); } };
    template<> struct SetBody<I>
    {
        template<class T> static void set(T &t, const Spec &s)
        {
            t.getIndices().resize(s.m);
            for (long i = 0; i < s.m; ++i) t.getIndices()[i] = s.idx[i];
        }
    };
    template<> struct SetBody<GI>
    {
        template<class T> static void set(T &t, const Spec &s)
        {
            SetBody<I>::set(t, s);
            t.getIGains() = s.gains;
        }
    };
    template<int bounds> struct SetBounds;
    template<> struct SetBounds<LU> { template<class T> static void set(T &t, const Spec &s) { t.getLowerBounds() = s.lb; t.getUpperBounds() = s.ub; } };
    template<> struct SetBounds<L> { template<class T> static void set(T &t, const Spec &s) { t.getLowerBounds() = s.lb; } };
    template<> struct SetBounds<U> { template<class T> static void set(T &t, const Spec &s) { t.getUpperBounds() = s.ub; } };
    template<> struct SetBounds<B> { template<class T> static void set(T &t, const Spec &s) { t.getB() = s.lb; } };
    template<> struct SetBounds<B0> { template<class T> static void set(T &, const Spec &) {} };

    struct SpecHolder
    {
        Spec spec;
        int forms;
        SpecHolder() : forms(0) {}
    };
    typedef boost::shared_ptr<SpecHolder> Holder;

    // what a task knows about active constraints
    struct Peek
    {
        virtual ~Peek() {}
        virtual const humoto::ActiveSetConstraints &actual() const = 0;
        virtual humoto::ActiveSetConstraints &guess() = 0;
    };

    template<class T, int body, int bounds>
    class Task : public T, public Peek
    {
        public:
            const humoto::ActiveSetConstraints &actual() const { return T::getActualActiveSet(); }
            humoto::ActiveSetConstraints &guess() { return T::getActiveSetGuess(); }
            Holder h;
            explicit Task(Holder holder) : T("task"), h(holder) {}
            void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &)
            {
                ++h->forms;
                if (h->spec.unmodified) { T::markAsUnmodified(); return; }
                SetBody<body>::set(*this, h->spec);
                SetBounds<bounds>::set(*this, h->spec);
            }
    };

    inline humoto::TaskSharedPointer make(Holder h)
    {
#define HIER_CASE(bd, bn) if (h->spec.body == bd && h->spec.bounds == bn) \
        return humoto::TaskSharedPointer(new Task<humoto::Task##bd##bn, bd, bn>(h));
        HIER_CASE(A, LU) HIER_CASE(A, L) HIER_CASE(A, U) HIER_CASE(A, B) HIER_CASE(A, B0)
        HIER_CASE(AS, LU) HIER_CASE(AS, L) HIER_CASE(AS, U) HIER_CASE(AS, B) HIER_CASE(AS, B0)
        HIER_CASE(I, LU) HIER_CASE(I, L) HIER_CASE(I, U) HIER_CASE(I, B) HIER_CASE(I, B0)
        HIER_CASE(GI, LU) HIER_CASE(GI, L) HIER_CASE(GI, U) HIER_CASE(GI, B) HIER_CASE(GI, B0)
#undef HIER_CASE
        throw std::runtime_error("no such task");
    }

    class Model : public humoto::Model
    {
        public:
            ~Model() {}
            void updateState(const humoto::ModelState &) {}
            void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };
    class Problem : public humoto::ControlProblem
    {
        public:
            ~Problem() {}
            void setParts(const std::vector<std::pair<std::string, long> > &parts)
            {
                sol_structure_.reset();
                for (size_t i = 0; i < parts.size(); ++i) sol_structure_.addSolutionPart(parts[i].first, parts[i].second);
            }
            void setSize(long n)
            {
                sol_structure_.reset();
                sol_structure_.addSolutionPart("x", n);
            }
            void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}
    };

    // small deterministic integer fill, different for every (salt, i, j)
    inline double val(int salt, long i, long j)
    {
        static const int tab[] = {2, -1, 3, 1, -3, 0, 1, -2, 4, -1, 2, 5, -4};
        return tab[(salt * 5 + i * 3 + j * 7 + (salt * i) % 3) % 13];
    }

    // Chooses everything structural about a spec: fills values deterministically
    inline Spec chooseSpec(mc::Ctx &c, int type, long n, long m, int salt, bool all_indices)
    {
        Spec s;
        s.body = type / 5;
        s.bounds = type % 5;
        s.m = m;
        if (s.body == A)
        {
            s.M.resize(m, n);
            for (long i = 0; i < m; ++i) for (long j = 0; j < n; ++j) s.M(i, j) = val(salt, i, j);
        }
        if (s.body == AS)
        {
            long w;
            // all placements of a block of every width
            w = c.range(1, n, "width");
            s.offset = c.range(0, n - w, "offset");
            if (!all_indices && n > 3 && w != 1 && w != n - 1 && w != n) throw mc::Prune();
            s.M.resize(m, w);
            for (long i = 0; i < m; ++i) for (long j = 0; j < w; ++j) s.M(i, j) = val(salt, i, j + 2);
        }
        if (s.simple())
        {
            s.idx.resize(m);
            if (all_indices) for (long i = 0; i < m; ++i) s.idx[i] = c.choose(n, "index");
            else
            {
                int base = c.choose(n, "index base");
                for (long i = 0; i < m; ++i) s.idx[i] = (base + 2 * i) % n;
            }
            if (s.body == GI)
            {
                s.gains.resize(m);
                for (long i = 0; i < m; ++i) { double v = val(salt, i, 4); s.gains(i) = (v == 0) ? 7 : v; }
            }
        }
        s.lb.resize(m);
        s.ub.resize(m);
        for (long i = 0; i < m; ++i)
        {
            double v = val(salt + 2, i, 1);
            s.lb(i) = v;
            s.ub(i) = v + 1 + ((salt + i) % 3);
        }
        return s;
    }

    inline double inf() { return humoto::g_infinity; }
}
