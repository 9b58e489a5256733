// Configuration files as trees: raw files are produced and parsed independently of the bridges of the repository, which
// are then compared with them.
#pragma once
#include <sys/mman.h>
#include <memory>
#include <typeinfo>
#include "mc.h"
#include "humoto/config_msgpack.h"
#include "humoto/config_yaml.h"
#undef YAML      // the bridge is bound to the adaptor of the 0.3 interface, the rest of the harness to the library
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"

namespace cfg
{
    struct Tree
    {
        enum Kind { MAP, ARR, NUM, INT, BOOL, STR };
        Kind k;
        std::vector<std::pair<std::string, Tree> > m;
        std::vector<Tree> a;
        double d;
        long i;
        bool b;
        std::string s;
        Tree() : k(MAP), d(0), i(0), b(false) {}
        Tree(double v) : k(NUM), d(v), i(0), b(false) {}
        static Tree integer(long v) { Tree t; t.k = INT; t.i = v; return t; }
        static Tree boolean(bool v) { Tree t; t.k = BOOL; t.b = v; return t; }
        static Tree str(const std::string &v) { Tree t; t.k = STR; t.s = v; return t; }
        static Tree arr() { Tree t; t.k = ARR; return t; }
        template<class V> static Tree vec(const V &v) { Tree t = arr(); for (long j = 0; j < v.size(); ++j) t.a.push_back(Tree(v[j])); return t; }
        template<class M> static Tree mat(const M &v)
        {
            Tree t;
            t.add("cols", integer(v.cols())).add("rows", integer(v.rows()));
            Tree data = arr();
            for (long r = 0; r < v.rows(); ++r) for (long c = 0; c < v.cols(); ++c) data.a.push_back(Tree(v(r, c)));
            return t.add("data", data);
        }
        Tree &add(const std::string &n, const Tree &t) { m.push_back(std::make_pair(n, t)); return *this; }
        Tree *find(const std::string &n) { for (size_t j = 0; j < m.size(); ++j) if (m[j].first == n) return &m[j].second; return NULL; }
        const Tree *find(const std::string &n) const { return const_cast<Tree *>(this)->find(n); }
        bool erase(const std::string &n)
        {
            for (size_t j = 0; j < m.size(); ++j) if (m[j].first == n) { m.erase(m.begin() + j); return true; }
            return false;
        }
    };

    inline std::string show(const Tree &t)
    {
        std::stringstream o;
        o << std::setprecision(17);
        switch (t.k)
        {
            case Tree::MAP: o << "{"; for (size_t j = 0; j < t.m.size(); ++j) o << (j ? ", " : "") << t.m[j].first << ": " << show(t.m[j].second); o << "}"; break;
            case Tree::ARR: o << "["; for (size_t j = 0; j < t.a.size(); ++j) o << (j ? ", " : "") << show(t.a[j]); o << "]"; break;
            case Tree::NUM: o << t.d; break;
            case Tree::INT: o << t.i; break;
            case Tree::BOOL: o << (t.b ? "true" : "false"); break;
            case Tree::STR: o << "\"" << t.s << "\""; break;
        }
        return o.str();
    }

    // expected vs actual. subset: the actual tree may lack entries (they are not observable)
    inline bool same(const Tree &e, const Tree &g, double tol, bool subset, std::string &why)
    {
        if (e.k == Tree::NUM || g.k == Tree::NUM)
        {
            if (!((e.k == Tree::NUM || e.k == Tree::INT) && (g.k == Tree::NUM || g.k == Tree::INT))) { why = "types differ: " + show(e) + " and " + show(g); return false; }
            double x = e.k == Tree::NUM ? e.d : e.i, y = g.k == Tree::NUM ? g.d : g.i;
            if (x == y || (x != x && y != y) || std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y))) return true;
            why = "expected " + show(e) + " got " + show(g);
            return false;
        }
        if (e.k != g.k) { why = "types differ: expected " + show(e) + " got " + show(g); return false; }
        switch (e.k)
        {
            case Tree::MAP:
                for (size_t j = 0; j < e.m.size(); ++j)
                {
                    const Tree *x = g.find(e.m[j].first);
                    if (x == NULL) { if (subset) continue; why = "no entry " + e.m[j].first + " in " + show(g); return false; }
                    if (!same(e.m[j].second, *x, tol, subset, why)) { why = e.m[j].first + ": " + why; return false; }
                }
                for (size_t j = 0; j < g.m.size(); ++j) if (e.find(g.m[j].first) == NULL) { why = "unexpected entry " + g.m[j].first; return false; }
                if (!subset && e.m.size() != g.m.size()) { why = "duplicated entries in " + show(g); return false; }
                return true;
            case Tree::ARR:
                if (e.a.size() != g.a.size()) { why = "expected " + show(e) + " got " + show(g); return false; }
                for (size_t j = 0; j < e.a.size(); ++j) if (!same(e.a[j], g.a[j], tol, subset, why)) return false;
                return true;
            case Tree::INT: if (e.i == g.i) return true; break;
            case Tree::BOOL: if (e.b == g.b) return true; break;
            case Tree::STR: if (e.s == g.s) return true; break;
            default: break;
        }
        why = "expected " + show(e) + " got " + show(g);
        return false;
    }

    // ---------------------------------------------------------------- files
    // A file in memory: reached through its path, gone with the object.
    struct File
    {
        int fd;
        std::string path;
        File() { fd = memfd_create("cfg", 0); path = "/proc/self/fd/" + std::to_string(fd); }
        ~File() { close(fd); }
        void put(const std::string &s) { std::ofstream o(path.c_str(), std::ios::trunc | std::ios::binary); o << s; }
        std::string get() const { std::ifstream i(path.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
        File(const File &) = delete;
    };

    template<class P> void packTree(P &p, const Tree &t)
    {
        switch (t.k)
        {
            case Tree::MAP: p.pack_map(t.m.size()); for (size_t j = 0; j < t.m.size(); ++j) { p.pack(t.m[j].first); packTree(p, t.m[j].second); } break;
            case Tree::ARR: p.pack_array(t.a.size()); for (size_t j = 0; j < t.a.size(); ++j) packTree(p, t.a[j]); break;
            case Tree::NUM: p.pack(t.d); break;
            case Tree::INT: p.pack(t.i); break;
            case Tree::BOOL: p.pack(t.b); break;
            case Tree::STR: p.pack(t.s); break;
        }
    }

    inline Tree unpackTree(const ::msgpack::object &o)
    {
        Tree t;
        switch (o.type)
        {
            case ::msgpack::type::MAP: for (size_t j = 0; j < o.via.map.size; ++j) t.add(o.via.map.ptr[j].key.as<std::string>(), unpackTree(o.via.map.ptr[j].val)); return t;
            case ::msgpack::type::ARRAY: t = Tree::arr(); for (size_t j = 0; j < o.via.array.size; ++j) t.a.push_back(unpackTree(o.via.array.ptr[j])); return t;
            case ::msgpack::type::BOOLEAN: return Tree::boolean(o.via.boolean);
            case ::msgpack::type::STR: return Tree::str(o.as<std::string>());
            case ::msgpack::type::FLOAT32: case ::msgpack::type::FLOAT64: return Tree(o.via.f64);
            default: return Tree::integer(o.as<long>());
        }
    }

    inline std::string quote(const std::string &s)
    {
        std::string o = "\"";
        for (size_t j = 0; j < s.size(); ++j) { if (s[j] == '"' || s[j] == '\\') o += '\\'; if (s[j] == '\n') o += "\\n"; else o += s[j]; }
        return o + "\"";
    }
    inline void yamlTree(std::ostream &o, const Tree &t, int indent)
    {
        switch (t.k)
        {
            case Tree::MAP:
                if (t.m.empty()) { o << " {}\n"; return; }
                o << "\n";
                for (size_t j = 0; j < t.m.size(); ++j) { o << std::string(indent, ' ') << t.m[j].first << ":"; yamlTree(o, t.m[j].second, indent + 2); }
                return;
            case Tree::ARR:
            {
                o << " [";
                for (size_t j = 0; j < t.a.size(); ++j)
                {
                    if (j) o << ",";
                    std::stringstream s; s << std::setprecision(17);
                    yamlTree(s, t.a[j], 0);
                    std::string x = s.str();
                    while (!x.empty() && x.back() == '\n') x.pop_back();
                    o << x;
                }
                o << "]\n";
                return;
            }
            case Tree::NUM: o << " " << t.d << "\n"; return;
            case Tree::INT: o << " " << t.i << "\n"; return;
            case Tree::BOOL: o << " " << (t.b ? "true" : "false") << "\n"; return;
            case Tree::STR: o << " " << quote(t.s) << "\n"; return;
        }
    }

    // scalars of a YAML file have no type: they are interpreted as the expected tree wants
    inline Tree fromYaml(const ::YAML::Node &n, const Tree *e)
    {
        Tree t;
        if (n.IsMap())
        {
            for (::YAML::const_iterator it = n.begin(); it != n.end(); ++it)
            {
                std::string key = it->first.Scalar();
                t.add(key, fromYaml(it->second, (e != NULL && e->k == Tree::MAP) ? e->find(key) : NULL));
            }
            return t;
        }
        if (n.IsSequence())
        {
            t = Tree::arr();
            for (size_t j = 0; j < n.size(); ++j) t.a.push_back(fromYaml(n[j], (e != NULL && e->k == Tree::ARR && j < e->a.size()) ? &e->a[j] : NULL));
            return t;
        }
        if (!n.IsScalar()) return t;
        try
        {
            if (e != NULL && e->k == Tree::NUM) return Tree(n.as<double>());
            if (e != NULL && e->k == Tree::INT) return Tree::integer(n.as<long>());
            if (e != NULL && e->k == Tree::BOOL) return Tree::boolean(n.as<bool>());
        }
        catch (const std::exception &) {}
        return Tree::str(n.Scalar());
    }

    // the two bridges
    struct Msgpack
    {
        typedef humoto::config::msgpack::Reader Reader;
        typedef humoto::config::msgpack::Writer Writer;
        static double tol() { return 0.0; }
    };
    struct Yaml
    {
        typedef humoto::config::yaml::Reader Reader;
        typedef humoto::config::yaml::Writer Writer;
        static double tol() { return 1e-14; }
    };
    enum Bridge { MSGPACK, YAML_ };
    inline double tolerance(Bridge b) { return b == MSGPACK ? Msgpack::tol() : Yaml::tol(); }

    // root is a map of sections; split: each section in a map of its own (as the writers do), otherwise one map
    inline std::string encode(Bridge b, const Tree &root, bool split)
    {
        std::stringstream o;
        o << std::setprecision(17);
        if (b == YAML_)
        {
            for (size_t j = 0; j < root.m.size(); ++j) { o << root.m[j].first << ":"; yamlTree(o, root.m[j].second, 2); }
            return o.str();
        }
        ::msgpack::packer<std::stringstream> p(o);
        if (!split) packTree(p, root);
        else for (size_t j = 0; j < root.m.size(); ++j) { p.pack_map(1); p.pack(root.m[j].first); packTree(p, root.m[j].second); }
        return o.str();
    }

    inline Tree decode(Bridge b, const std::string &s, const Tree *e)
    {
        if (b == YAML_) return fromYaml(::YAML::Load(s), e);
        Tree root;
        size_t off = 0;
        while (off != s.size())
        {
            ::msgpack::object_handle h;
            ::msgpack::unpack(h, s.data(), s.size(), off);
            Tree t = unpackTree(h.get());
            for (size_t j = 0; j < t.m.size(); ++j) root.add(t.m[j].first, t.m[j].second);
        }
        return root;
    }

    // ---------------------------------------------------------------- schemas
    struct Values
    {
        int n;
        explicit Values(int salt) : n(salt * 100) {}
        double d() { ++n; return (n % 2 ? 1 : -1) * n / 7.0; }
        double pos() { ++n; return n / 7.0; }
        long u() { return ++n; }
        long i() { ++n; return n % 2 ? -n : n; }
        long e(long count) { ++n; return n % count; }
        bool b() { ++n; return (n / 2) % 2; }
        std::string s() { return "id" + std::to_string(++n); }
        Tree dv(int size) { Tree t = Tree::arr(); while (size-- > 0) t.a.push_back(Tree(d())); return t; }
        Tree uv(int size) { Tree t = Tree::arr(); while (size-- > 0) t.a.push_back(Tree::integer(u())); return t; }
        Tree dm(int rows, int cols) { Tree t; t.add("cols", Tree::integer(cols)).add("rows", Tree::integer(rows)).add("data", dv(rows * cols)); return t; }
    };

    using namespace humoto;
    // all entries of a tree, as paths from its root; compounds (vectors and matrices) are leaves
    inline bool isMatrix(const Tree &t) { return t.k == Tree::MAP && t.find("cols") != NULL && t.find("rows") != NULL && t.find("data") != NULL; }
    typedef std::vector<std::string> Path;
    inline void paths(const Tree &t, const Path &prefix, std::vector<Path> &out)
    {
        for (size_t j = 0; j < t.m.size(); ++j)
        {
            Path p = prefix;
            p.push_back(t.m[j].first);
            out.push_back(p);
            if (t.m[j].second.k == Tree::MAP && !isMatrix(t.m[j].second)) paths(t.m[j].second, p, out);
        }
    }
    inline Tree *at(Tree &t, const Path &p, size_t len)
    {
        Tree *x = &t;
        for (size_t j = 0; j < len && x != NULL; ++j) x = x->find(p[j]);
        return x;
    }
    inline std::string showPath(const Path &p) { std::string s; for (size_t j = 0; j < p.size(); ++j) s += (j ? "." : "") + p[j]; return s; }
    inline void merge(Tree &t, const Tree &o) { for (size_t j = 0; j < o.m.size(); ++j) t.add(o.m[j].first, o.m[j].second); }

    template<class T> struct Spec;
#define CFG_SPEC(Type, Section) \
    template<> struct Spec<Type> { static const char *section() { return Section; } \
        static Tree make(Values &v); static void observe(const Type &x, Tree &t); };

    CFG_SPEC(rigidbody::PointMassState, "PointMassState")
    inline Tree Spec<rigidbody::PointMassState>::make(Values &v) { Tree t; return t.add("position", v.dv(3)).add("velocity", v.dv(3)).add("acceleration", v.dv(3)); }
    inline void Spec<rigidbody::PointMassState>::observe(const rigidbody::PointMassState &x, Tree &t)
    { t.add("position", Tree::vec(x.position_)).add("velocity", Tree::vec(x.velocity_)).add("acceleration", Tree::vec(x.acceleration_)); }

    CFG_SPEC(rigidbody::RotaryState, "RotaryState")
    inline Tree Spec<rigidbody::RotaryState>::make(Values &v) { Tree t; return t.add("rpy", v.dv(3)).add("angular_velocity", v.dv(3)).add("angular_acceleration", v.dv(3)); }
    inline void Spec<rigidbody::RotaryState>::observe(const rigidbody::RotaryState &x, Tree &t)
    { t.add("rpy", Tree::vec(x.rpy_)).add("angular_velocity", Tree::vec(x.angular_velocity_)).add("angular_acceleration", Tree::vec(x.angular_acceleration_)); }

    CFG_SPEC(rigidbody::RigidBodyState, "RigidBodyState")
    inline Tree Spec<rigidbody::RigidBodyState>::make(Values &v) { Tree t = Spec<rigidbody::PointMassState>::make(v); merge(t, Spec<rigidbody::RotaryState>::make(v)); return t; }
    inline void Spec<rigidbody::RigidBodyState>::observe(const rigidbody::RigidBodyState &x, Tree &t)
    { Spec<rigidbody::PointMassState>::observe(x, t); Spec<rigidbody::RotaryState>::observe(x, t); }

    CFG_SPEC(rigidbody::RigidBodyPose, "RigidBodyPose")
    inline Tree Spec<rigidbody::RigidBodyPose>::make(Values &v) { Tree t; return t.add("position", v.dv(3)).add("rpy", v.dv(3)); }
    inline void Spec<rigidbody::RigidBodyPose>::observe(const rigidbody::RigidBodyPose &x, Tree &t) { t.add("position", Tree::vec(x.position_)).add("rpy", Tree::vec(x.rpy_)); }

    CFG_SPEC(Solution, "Solution")
    inline Tree Spec<Solution>::make(Values &v) { Tree t; return t.add("x", v.dv(v.n % 5)); }
    inline void Spec<Solution>::observe(const Solution &x, Tree &t) { t.add("x", Tree::vec(x.x_)); }

    CFG_SPEC(kktsolver::SolverParameters, "SolverParameters")
    inline Tree Spec<kktsolver::SolverParameters>::make(Values &v) { Tree t; return t.add("crash_on_any_failure", Tree::boolean(v.b())).add("solve_two_levels_as_qp", Tree::boolean(v.b())); }
    inline void Spec<kktsolver::SolverParameters>::observe(const kktsolver::SolverParameters &x, Tree &t)
    { t.add("crash_on_any_failure", Tree::boolean(x.crash_on_any_failure_)).add("solve_two_levels_as_qp", Tree::boolean(x.solve_two_levels_as_qp_)); }

    CFG_SPEC(walking::StanceFSMParameters, "StanceFSMParameters")
    inline Tree Spec<walking::StanceFSMParameters>::make(Values &v)
    {
        Tree t;
        t.add("ss_duration_ms", Tree::integer(v.u())).add("tds_duration_ms", Tree::integer(v.u())).add("first_stance_duration_ms", Tree::integer(v.u()));
        t.add("last_stance_duration_ms", Tree::integer(v.u())).add("num_steps", Tree::integer(v.u()));
        return t.add("first_stance", Tree::integer(v.e(5))).add("first_ss_type", Tree::integer(v.e(5))).add("last_stance", Tree::integer(v.e(5)));
    }
    inline void Spec<walking::StanceFSMParameters>::observe(const walking::StanceFSMParameters &x, Tree &t)
    {
        t.add("ss_duration_ms", Tree::integer(x.ss_duration_ms_)).add("tds_duration_ms", Tree::integer(x.tds_duration_ms_));
        t.add("first_stance_duration_ms", Tree::integer(x.first_stance_duration_ms_)).add("last_stance_duration_ms", Tree::integer(x.last_stance_duration_ms_));
        t.add("num_steps", Tree::integer(x.num_steps_)).add("first_stance", Tree::integer(x.first_stance_));
        t.add("first_ss_type", Tree::integer(x.first_ss_type_)).add("last_stance", Tree::integer(x.last_stance_));
    }

    CFG_SPEC(wpg04::WalkParameters, "WalkParameters")
    inline Tree Spec<wpg04::WalkParameters>::make(Values &v)
    {
        Tree t;
        t.add("com_velocity", v.dv(2)).add("first_stance_com_velocity", v.dv(2)).add("last_stance_com_velocity", v.dv(2));
        t.add("step_height", Tree(v.d())).add("theta_increment", Tree(v.d()));
        merge(t, Spec<walking::StanceFSMParameters>::make(v));
        return t;
    }
    inline void Spec<wpg04::WalkParameters>::observe(const wpg04::WalkParameters &x, Tree &t)
    {
        t.add("com_velocity", Tree::vec(x.com_velocity_)).add("first_stance_com_velocity", Tree::vec(x.first_stance_com_velocity_));
        t.add("last_stance_com_velocity", Tree::vec(x.last_stance_com_velocity_)).add("step_height", Tree(x.step_height_)).add("theta_increment", Tree(x.theta_increment_));
        Spec<walking::StanceFSMParameters>::observe(x, t);
    }

    CFG_SPEC(walking::RobotFootParameters, "RobotFootParameters")
    inline Tree Spec<walking::RobotFootParameters>::make(Values &v)
    {
        Tree t;
        return t.add("max_step_len", Tree(v.pos())).add("min_feet_dist", Tree(v.pos())).add("max_feet_dist", Tree(v.pos()))
                .add("feet_dist_default", Tree(v.pos())).add("foot_length", Tree(v.pos())).add("foot_width", Tree(v.pos()));
    }
    inline void Spec<walking::RobotFootParameters>::observe(const walking::RobotFootParameters &x, Tree &t)
    {
        // the parameters are private: they are recovered from the quantities derived from them
        etools::Matrix2 b = x.getFootBounds(LeftOrRight::LEFT, walking::FootBoundsType::WITH_RESPECT_TO_SS);
        t.add("max_step_len", Tree(b(0, 1))).add("min_feet_dist", Tree(b(1, 0))).add("max_feet_dist", Tree(b(1, 1)));
        b = x.getFootBounds(LeftOrRight::LEFT, walking::FootBoundsType::WITH_RESPECT_TO_ADS);
        t.add("feet_dist_default", Tree(2 * b(1, 0)));
        b = x.getSSCoPBounds();
        t.add("foot_length", Tree(2 * b(0, 1))).add("foot_width", Tree(2 * b(1, 1)));
    }

    CFG_SPEC(wpg04::MPCParameters, "MPCParameters")
    inline Tree Spec<wpg04::MPCParameters>::make(Values &v)
    {
        Tree t;
        long sub = 1 + v.u() % 17;
        return t.add("preview_horizon_length", Tree::integer(v.u())).add("sampling_time_ms", Tree::integer(sub * v.u()))
                .add("subsampling_time_ms", Tree::integer(sub)).add("tds_sampling_time_ms", Tree::integer(sub * v.u()));
    }
    inline void Spec<wpg04::MPCParameters>::observe(const wpg04::MPCParameters &x, Tree &t)
    {
        t.add("preview_horizon_length", Tree::integer(x.preview_horizon_length_)).add("sampling_time_ms", Tree::integer(x.sampling_time_ms_));
        t.add("subsampling_time_ms", Tree::integer(x.subsampling_time_ms_)).add("tds_sampling_time_ms", Tree::integer(x.tds_sampling_time_ms_));
    }

    CFG_SPEC(wpg04::ModelState, "ModelState")
    inline Tree Spec<wpg04::ModelState>::make(Values &v)
    {
        Tree t;
        return t.add("stance_type", Tree::integer(v.e(5))).add("next_stance_type", Tree::integer(v.e(5))).add("com_state", Spec<rigidbody::PointMassState>::make(v))
                .add("left_foot_state", Spec<rigidbody::RigidBodyState>::make(v)).add("right_foot_state", Spec<rigidbody::RigidBodyState>::make(v));
    }
    inline void Spec<wpg04::ModelState>::observe(const wpg04::ModelState &x, Tree &t)
    {
        Tree c, l, r;
        Spec<rigidbody::PointMassState>::observe(x.com_state_, c);
        Spec<rigidbody::RigidBodyState>::observe(x.feet_.getLeft(), l);
        Spec<rigidbody::RigidBodyState>::observe(x.feet_.getRight(), r);
        t.add("stance_type", Tree::integer(x.stance_type_)).add("next_stance_type", Tree::integer(x.next_stance_type_)).add("com_state", c).add("left_foot_state", l).add("right_foot_state", r);
    }

    CFG_SPEC(pepper_mpc::RobotParameters, "RobotParameters")
    inline Tree Spec<pepper_mpc::RobotParameters>::make(Values &v)
    {
        Tree t;
        return t.add("base_radius", Tree(v.pos())).add("max_nominal_base_velocity", Tree(v.pos())).add("max_nominal_base_acceleration", Tree(v.pos()))
                .add("max_base_velocity", Tree(v.pos())).add("max_base_acceleration", Tree(v.pos())).add("body_bounds", v.dm(2, 2));
    }
    inline void Spec<pepper_mpc::RobotParameters>::observe(const pepper_mpc::RobotParameters &x, Tree &t)
    {
        t.add("base_radius", Tree(x.base_radius_)).add("max_nominal_base_velocity", Tree(x.max_nominal_base_velocity_)).add("max_nominal_base_acceleration", Tree(x.max_nominal_base_acceleration_));
        t.add("max_base_velocity", Tree(x.max_base_velocity_)).add("max_base_acceleration", Tree(x.max_base_acceleration_)).add("body_bounds", Tree::mat(x.body_bounds_));
    }

    CFG_SPEC(pepper_mpc::MotionParameters, "MotionParameters")
    inline Tree Spec<pepper_mpc::MotionParameters>::make(Values &v)
    {
        Tree t;
        return t.add("base_velocity", v.dv(2)).add("base_position", v.dv(2)).add("base_angular_velocity", Tree(v.d()))
                .add("motion_mode", Tree::integer(v.e(3))).add("duration_ms", Tree::integer(v.i()));
    }
    inline void Spec<pepper_mpc::MotionParameters>::observe(const pepper_mpc::MotionParameters &x, Tree &t)
    {
        t.add("base_velocity", Tree::vec(x.base_velocity_)).add("base_position", Tree::vec(x.base_position_)).add("base_angular_velocity", Tree(x.base_angular_velocity_));
        t.add("motion_mode", Tree::integer(x.motion_mode_)).add("duration_ms", Tree::integer(x.duration_ms_));
    }

    CFG_SPEC(pepper_mpc::MPCParameters, "MPCParameters")
    inline Tree Spec<pepper_mpc::MPCParameters>::make(Values &v)
    { Tree t; return t.add("preview_horizon_length", Tree::integer(v.u())).add("sampling_time_ms", Tree::integer(v.u())).add("subsampling_time_ms", Tree::integer(v.u())); }
    inline void Spec<pepper_mpc::MPCParameters>::observe(const pepper_mpc::MPCParameters &x, Tree &t)
    {
        t.add("preview_horizon_length", Tree::integer(x.preview_horizon_length_)).add("sampling_time_ms", Tree::integer(x.sampling_time_ms_));
        t.add("subsampling_time_ms", Tree::integer(x.subsampling_time_ms_));
    }

    CFG_SPEC(pepper_mpc::ModelState, "ModelState")
    inline Tree Spec<pepper_mpc::ModelState>::make(Values &v)
    {
        Tree t;
        return t.add("base_state", Spec<rigidbody::RigidBodyState>::make(v)).add("body_state", Spec<rigidbody::PointMassState>::make(v))
                .add("base_mass", Tree(v.pos())).add("body_mass", Tree(v.pos()));
    }
    inline void Spec<pepper_mpc::ModelState>::observe(const pepper_mpc::ModelState &x, Tree &t)
    {
        Tree a, o;
        Spec<rigidbody::RigidBodyState>::observe(x.base_state_, a);
        Spec<rigidbody::PointMassState>::observe(x.body_state_, o);
        t.add("base_state", a).add("body_state", o).add("base_mass", Tree(x.base_mass_)).add("body_mass", Tree(x.body_mass_));
    }

    // ---------------------------------------------------------------- type-erased configurable objects
    struct Object
    {
        virtual ~Object() {}
        virtual std::string section() const = 0;
        virtual Tree make(int salt) const = 0;
        virtual Tree observe() const = 0;
        // form: 0 reader, 1 reader + name, 2 reader + const char *, 3 file, 4 file + name, 5 file + const char *, 6/7 constructors
        virtual void read(Bridge b, int form, const std::string &path, const std::string &name, int strict) = 0;
        virtual void readFrom(Msgpack::Reader &r, const std::string &name, int strict) = 0;
        virtual void readFrom(Yaml::Reader &r, const std::string &name, int strict) = 0;
        // form: 0 writer, 1 writer + name, 2 file, 3 file + name
        virtual void write(Bridge b, int form, const std::string &path, const std::string &name) const = 0;
        virtual void writeTo(Msgpack::Writer &w, const std::string &name) const = 0;
        virtual void writeTo(Yaml::Writer &w, const std::string &name) const = 0;
    };

    template<class R, class T> void readAs(T &t, int form, const std::string &path, const std::string &name, int strict)
    {
        if (form < 3)
        {
            R r(path);
            if (form == 0) { if (strict < 0) t.readConfig(r); else t.readConfig(r, strict == 1); }
            if (form == 1) { if (strict < 0) t.readConfig(r, name); else t.readConfig(r, name, strict == 1); }
            if (form == 2) { if (strict < 0) t.readConfig(r, name.c_str()); else t.readConfig(r, name.c_str(), strict == 1); }
            return;
        }
        if (form == 3) { if (strict < 0) t.template readConfig<R>(path); else t.template readConfig<R>(path, strict == 1); }
        if (form == 4) { if (strict < 0) t.template readConfig<R>(path, name); else t.template readConfig<R>(path, name, strict == 1); }
        if (form == 5) { if (strict < 0) t.template readConfig<R>(path, name.c_str()); else t.template readConfig<R>(path, name.c_str(), strict == 1); }
    }
    template<class R, class T> void construct(T &t, int form, const std::string &path, const std::string &name, int strict)
    {
        R r(path);
        if (form == 6) { if (strict < 0) { T x(r); t = static_cast<const T &>(x); } else { T x(r, strict == 1); t = static_cast<const T &>(x); } }
        else { if (strict < 0) { T x(r, name); t = static_cast<const T &>(x); } else { T x(r, name, strict == 1); t = static_cast<const T &>(x); } }
    }
    template<class W, class T> void writeAs(const T &t, int form, const std::string &path, const std::string &name)
    {
        if (form == 0) { W w(path); t.writeConfig(w); }
        if (form == 1) { W w(path); t.writeConfig(w, name); }
        if (form == 2) t.template writeConfig<W>(path);
        if (form == 3) t.template writeConfig<W>(path, name);
    }

    template<class T> struct Plain : public Object
    {
        T t;
        std::string section() const { return Spec<T>::section(); }
        Tree make(int salt) const { Values v(salt); return Spec<T>::make(v); }
        Tree observe() const { Tree x; Spec<T>::observe(t, x); return x; }
        void read(Bridge b, int form, const std::string &path, const std::string &name, int strict)
        {
            if (form >= 6) { if (b == MSGPACK) construct<Msgpack::Reader>(t, form, path, name, strict); else construct<Yaml::Reader>(t, form, path, name, strict); }
            else { if (b == MSGPACK) readAs<Msgpack::Reader>(t, form, path, name, strict); else readAs<Yaml::Reader>(t, form, path, name, strict); }
        }
        void readFrom(Msgpack::Reader &r, const std::string &name, int strict) { if (strict < 0) t.readConfig(r, name); else t.readConfig(r, name, strict == 1); }
        void readFrom(Yaml::Reader &r, const std::string &name, int strict) { if (strict < 0) t.readConfig(r, name); else t.readConfig(r, name, strict == 1); }
        void write(Bridge b, int form, const std::string &path, const std::string &name) const
        { if (b == MSGPACK) writeAs<Msgpack::Writer>(t, form, path, name); else writeAs<Yaml::Writer>(t, form, path, name); }
        void writeTo(Msgpack::Writer &w, const std::string &name) const { t.writeConfig(w, name); }
        void writeTo(Yaml::Writer &w, const std::string &name) const { t.writeConfig(w, name); }
    };

    // tasks: the section is the description
    enum TaskEntries { NOTHING = 0, GAIN = 1, VARIABLES_ID = 2, INDICES = 4, FIX_FOOTSTEPS = 8 };
    struct TaskType
    {
        const char *name;
        int entries;
        TaskSharedPointer (*make)();
        bool (*is)(const TaskBase *);
        int module;    // 0 core, 1 wpg04, 2 pepper_mpc
    };
    template<class T> TaskSharedPointer newTask() { return TaskSharedPointer(new T()); }
    template<> inline TaskSharedPointer newTask<TaskZeroSelectedVariables>() { return TaskSharedPointer(new TaskZeroSelectedVariables(IndexVector())); }
    template<class T> bool isTask(const TaskBase *t) { return t != NULL && typeid(*t) == typeid(T); }
#define CFG_TASK(ns, T, entries, module) { #T, entries, newTask<ns::T>, isTask<ns::T>, module }
    inline const std::vector<TaskType> &taskTypes()
    {
        static const std::vector<TaskType> v = {
            CFG_TASK(humoto, TaskInfeasibleInequality, GAIN, 0),
            CFG_TASK(humoto, TaskZeroVariables, GAIN | VARIABLES_ID, 0),
            CFG_TASK(humoto, TaskZeroSelectedVariables, GAIN | INDICES, 0),
            CFG_TASK(wpg04, TaskCoMVelocity, GAIN, 1),
            CFG_TASK(wpg04, TaskCoPPosition, GAIN | VARIABLES_ID, 1),
            CFG_TASK(wpg04, TaskCoPVelocity, GAIN, 1),
            CFG_TASK(wpg04, TaskFootstepBounds, FIX_FOOTSTEPS, 1),
            CFG_TASK(wpg04, TaskCoPBounds, NOTHING, 1),
            CFG_TASK(wpg04, TaskTerminalConstraint, GAIN, 1),
            CFG_TASK(pepper_mpc, TaskBaseAccelerationBounds, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskBaseJerkMinimization, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskBasePositionReference, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskBaseVelocityBounds, NOTHING, 2),
            CFG_TASK(pepper_mpc, TaskBaseVelocityReference, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskBodyJerkMinimization, GAIN | VARIABLES_ID, 2),
            CFG_TASK(pepper_mpc, TaskBodyPositionBounds, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskBodyPositionReference, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskCoPCentering, GAIN, 2),
            CFG_TASK(pepper_mpc, TaskCoPPositionBounds, GAIN, 2),
        };
        return v;
    }
    inline Tree makeTask(const TaskType &tt, int salt)
    {
        Values v(salt);
        Tree t;
        if (tt.entries & GAIN) t.add("gain", Tree(v.pos()));
        if (tt.entries & VARIABLES_ID) t.add("variables_id", Tree::str(v.s()));
        if (tt.entries & INDICES) t.add("variables_indices", v.uv(salt % 4));
        if (tt.entries & FIX_FOOTSTEPS) t.add("fix_footsteps", Tree::boolean(salt % 2 == 0));
        return t;
    }
    inline void observeTask(const TaskBase &b, Tree &t)
    {
        // gains and the index vector are reached through the classes which own them
        if (const TaskAB *x = dynamic_cast<const TaskAB *>(&b)) t.add("gain", Tree(x->getGain()));
        else if (const TaskALU *x = dynamic_cast<const TaskALU *>(&b)) t.add("gain", Tree(x->getGain()));
        else if (const TaskASB *x = dynamic_cast<const TaskASB *>(&b)) t.add("gain", Tree(x->getGain()));
        else if (const TaskASLU *x = dynamic_cast<const TaskASLU *>(&b)) t.add("gain", Tree(x->getGain()));
        else if (const TaskGIB *x = dynamic_cast<const TaskGIB *>(&b)) t.add("gain", Tree(x->getGain()));
        else if (const TaskGIB0 *x = dynamic_cast<const TaskGIB0 *>(&b)) t.add("gain", Tree(x->getGain()));
    }
    struct TaskObject : public Object
    {
        const TaskType *tt;
        TaskSharedPointer t;
        explicit TaskObject(const TaskType &x) : tt(&x), t(x.make()) {}
        std::string section() const { return t->getDescription(); }
        Tree make(int salt) const { return makeTask(*tt, salt); }
        Tree observe() const { Tree x; observeTask(*t, x); return x; }
        void read(Bridge b, int form, const std::string &path, const std::string &name, int strict)
        { if (b == MSGPACK) readAs<Msgpack::Reader>(*t, form, path, name, strict); else readAs<Yaml::Reader>(*t, form, path, name, strict); }
        void readFrom(Msgpack::Reader &r, const std::string &name, int strict) { if (strict < 0) t->readConfig(r, name); else t->readConfig(r, name, strict == 1); }
        void readFrom(Yaml::Reader &r, const std::string &name, int strict) { if (strict < 0) t->readConfig(r, name); else t->readConfig(r, name, strict == 1); }
        void write(Bridge b, int form, const std::string &path, const std::string &name) const
        { if (b == MSGPACK) writeAs<Msgpack::Writer>(*t, form, path, name); else writeAs<Yaml::Writer>(*t, form, path, name); }
        void writeTo(Msgpack::Writer &w, const std::string &name) const { t->writeConfig(w, name); }
        void writeTo(Yaml::Writer &w, const std::string &name) const { t->writeConfig(w, name); }
    };

    struct ObstacleStub : public obstacle_avoidance::ObstacleBase
    {
        void updateConstraints(const ControlProblem &, const Solution &, const double) {}
        void resetConstraints(const ControlProblem &) {}
    };

    struct PlainObstacle : public Object
    {
        ObstacleStub t;
        std::string section() const { return "ObstacleBase"; }
        Tree make(int salt) const { Values v(salt); return Spec<rigidbody::RigidBodyState>::make(v); }
        Tree observe() const { Tree x; Spec<rigidbody::RigidBodyState>::observe(t, x); return x; }
        void read(Bridge b, int form, const std::string &path, const std::string &name, int strict)
        { if (b == MSGPACK) readAs<Msgpack::Reader>(t, form, path, name, strict); else readAs<Yaml::Reader>(t, form, path, name, strict); }
        void readFrom(Msgpack::Reader &r, const std::string &name, int strict) { if (strict < 0) t.readConfig(r, name); else t.readConfig(r, name, strict == 1); }
        void readFrom(Yaml::Reader &r, const std::string &name, int strict) { if (strict < 0) t.readConfig(r, name); else t.readConfig(r, name, strict == 1); }
        void write(Bridge b, int form, const std::string &path, const std::string &name) const
        { if (b == MSGPACK) writeAs<Msgpack::Writer>(t, form, path, name); else writeAs<Yaml::Writer>(t, form, path, name); }
        void writeTo(Msgpack::Writer &w, const std::string &name) const { t.writeConfig(w, name); }
        void writeTo(Yaml::Writer &w, const std::string &name) const { t.writeConfig(w, name); }
    };

    typedef std::shared_ptr<Object> ObjectPtr;
    const int NUM_PLAIN = 16;
    inline int numClasses() { return NUM_PLAIN + (int) taskTypes().size(); }
    inline bool hasConstructor(int i) { return i < NUM_PLAIN - 1; }
    inline ObjectPtr create(int i)
    {
        switch (i)
        {
            case 0: return ObjectPtr(new Plain<rigidbody::PointMassState>);
            case 1: return ObjectPtr(new Plain<rigidbody::RotaryState>);
            case 2: return ObjectPtr(new Plain<rigidbody::RigidBodyState>);
            case 3: return ObjectPtr(new Plain<rigidbody::RigidBodyPose>);
            case 4: return ObjectPtr(new Plain<Solution>);
            case 5: return ObjectPtr(new Plain<kktsolver::SolverParameters>);
            case 6: return ObjectPtr(new Plain<walking::StanceFSMParameters>);
            case 7: return ObjectPtr(new Plain<wpg04::WalkParameters>);
            case 8: return ObjectPtr(new Plain<walking::RobotFootParameters>);
            case 9: return ObjectPtr(new Plain<wpg04::MPCParameters>);
            case 10: return ObjectPtr(new Plain<wpg04::ModelState>);
            case 11: return ObjectPtr(new Plain<pepper_mpc::RobotParameters>);
            case 12: return ObjectPtr(new Plain<pepper_mpc::MotionParameters>);
            case 13: return ObjectPtr(new Plain<pepper_mpc::ModelState>);
            case 14: return ObjectPtr(new Plain<pepper_mpc::MPCParameters>);
            case 15: return ObjectPtr(new PlainObstacle);
            default: break;
        }
        return ObjectPtr(new TaskObject(taskTypes().at(i - NUM_PLAIN)));
    }

    // ---------------------------------------------------------------- hierarchies
    template<class P> struct Spy : public P
    {
        using P::pushTask;
        size_t levels() const { return this->getNumberOfLevels(); }
        std::vector<humoto::TaskSharedPointer> tasks(size_t l) const
        {
            std::vector<humoto::TaskSharedPointer> r;
            for (std::list<humoto::HierarchyLevel::TaskInfo>::const_iterator it = this->hierarchy_[l].tasks_.begin(); it != this->hierarchy_[l].tasks_.end(); ++it) r.push_back(it->ptr_);
            return r;
        }
    };

    struct Item { const TaskType *type; std::string id; Tree values; };
    typedef std::vector<std::vector<Item> > Stack;

    Tree treeOf(const Stack &s)
    {
        Tree t, names = Tree::arr(), ids = Tree::arr();
        for (size_t l = 0; l < s.size(); ++l)
        {
            Tree n = Tree::arr(), i = Tree::arr();
            for (size_t k = 0; k < s[l].size(); ++k) { n.a.push_back(Tree::str(s[l][k].type->name)); i.a.push_back(Tree::str(s[l][k].id)); }
            names.a.push_back(n);
            ids.a.push_back(i);
        }
        t.add("task_class_names", names).add("task_ids", ids);
        for (size_t l = 0; l < s.size(); ++l) for (size_t k = 0; k < s[l].size(); ++k) t.add(s[l][k].id, s[l][k].values);
        return t;
    }

    template<class P> void compare(mc::Ctx &c, Bridge b, const Spy<P> &p, const Stack &s, const char *key)
    {
        c.check(p.levels() == s.size(), key, "number of levels");
        for (size_t l = 0; l < s.size(); ++l)
        {
            std::vector<humoto::TaskSharedPointer> t = p.tasks(l);
            c.check(t.size() == s[l].size(), key, "number of tasks on a level");
            for (size_t k = 0; k < s[l].size(); ++k)
            {
                bool found = false;
                for (size_t j = 0; j < t.size(); ++j)
                {
                    if (t[j]->getDescription() != s[l][k].id) continue;
                    c.check(!found, key, "a task is in the hierarchy twice");
                    found = true;
                    c.check(s[l][k].type->is(t[j].get()), key, "type of the task " + s[l][k].id);
                    Tree o;
                    observeTask(*t[j], o);
                    std::string why;
                    c.check(same(s[l][k].values, o, 1e-14, true, why), key, s[l][k].id + ": " + why);
                    File f;
                    Tree one;
                    one.add("Task", s[l][k].values);
                    t[j]->template writeConfig<Msgpack::Writer>(f.path, "Task");
                    Tree got = decode(MSGPACK, f.get(), &one);
                    c.check(same(one, got, tolerance(b), false, why), key, s[l][k].id + ": " + why);
                }
                c.check(found, key, "no task " + s[l][k].id);
            }
        }
    }

    template<class P> void readProblem(Spy<P> &p, Bridge b, const std::string &path)
    {
        if (b == MSGPACK) p.template readConfig<Msgpack::Reader>(path); else p.template readConfig<Yaml::Reader>(path);
    }
    template<class P> void writeProblem(const Spy<P> &p, Bridge b, const std::string &path)
    {
        if (b == MSGPACK) p.template writeConfig<Msgpack::Writer>(path); else p.template writeConfig<Yaml::Writer>(path);
    }

}
