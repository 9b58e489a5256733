// C23: incomplete, malformed, truncated and inconsistent configuration files are reported and never accepted silently;
// missing entries keep their defaults when this is allowed; derived quantities follow what was read; the configuration
// files shipped with the modules can be read.
#include "cfgtree.h"
#include <dirent.h>
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);
using namespace cfg;

namespace
{
    Bridge bridge(mc::Ctx &c) { return c.flip("bridge") ? YAML_ : MSGPACK; }

    template<class F> bool throws(F f, std::string &what)
    {
        try { f(); }
        catch (const mc::EigenAssertion &) { throw; }
        catch (const std::exception &e) { what = e.what(); return true; }
        return false;
    }

    void expect(mc::Ctx &c, Bridge b, const Tree &e, const Tree &got, const char *key, const std::string &what)
    {
        std::string why;
        bool ok = same(e, got, tolerance(b) == 0.0 ? 1e-15 : tolerance(b), true, why);
        c.check(ok, key, ok ? std::string() : what + ": " + why);
    }

    bool isSolution(int cls) { return cls == 4; }
    bool isSolverParameters(int cls) { return cls == 5; }
    bool isTaskClass(int cls) { return cls >= NUM_PLAIN; }

    // entries of 'values' replace those of the defaults; a nested object has the defaults of its class
    Tree nestedDefaults(const std::string &name)
    {
        Tree t;
        if (name == "com_state" || name == "body_state") Spec<humoto::rigidbody::PointMassState>::observe(humoto::rigidbody::PointMassState(), t);
        else Spec<humoto::rigidbody::RigidBodyState>::observe(humoto::rigidbody::RigidBodyState(), t);
        return t;
    }
    Tree withDefaults(const Tree &defaults, const Tree &values)
    {
        Tree r;
        for (size_t j = 0; j < defaults.m.size(); ++j)
        {
            const Tree *x = values.find(defaults.m[j].first);
            if (defaults.m[j].second.k == Tree::MAP && !isMatrix(defaults.m[j].second)) r.add(defaults.m[j].first, withDefaults(nestedDefaults(defaults.m[j].first), x == NULL ? Tree() : *x));
            else r.add(defaults.m[j].first, x == NULL ? defaults.m[j].second : *x);
        }
        return r;
    }
}

// every subset of up to 'max' missing entries (nested ones included), in any of three orders of the entries
MC_SCENARIO(missing_entries, 32, 4)
{
    int cls = c.range(0, numClasses() - 1, "class");
    Bridge b = bridge(c);
    int strict = c.range(-1, 1, "strictness");
    ObjectPtr x = create(cls);
    Tree full = x->make(4), values = full;
    std::vector<Path> all;
    paths(values, Path(), all);
    int max = c.thorough ? 4 : 3;
    bool everything = c.flip("everything is missing");
    bool missing = false, section = true;
    if (everything)
    {
        section = c.flip("section is present");
        values = Tree();
        missing = !section || !all.empty();
    }
    else
    {
        size_t from = 0;
        for (int k = 0; k < max && from < all.size(); ++k)
        {
            size_t i = from + c.choose(all.size() - from + 1, "missing entry");
            if (i == all.size()) break;
            Tree *parent = at(values, all[i], all[i].size() - 1);
            if (parent == NULL || !parent->erase(all[i].back())) throw mc::Prune();
            missing = true;
            from = i + 1;
        }
    }
    int order = c.range(0, 2, "order");
    if (order == 1) std::reverse(values.m.begin(), values.m.end());
    if (order == 2) { values.m.insert(values.m.begin(), std::make_pair(std::string("unknown_entry"), Tree::str("value"))); values.add("unknown_map", full); }
    bool used = c.flip("object was used before");
    if (used)
    {
        File old;
        Tree r;
        r.add(x->section(), x->make(9));
        old.put(encode(b, r, true));
        x->read(b, 3, old.path, "", -1);
    }
    ObjectPtr fresh = create(cls);
    Tree before = used ? x->observe() : fresh->observe();

    File f;
    Tree root;
    root.add("Before", create(3)->make(2));
    if (section) root.add(x->section(), values);
    root.add("After", create(3)->make(2));
    f.put(encode(b, root, true));
    int form = c.pick(std::vector<int>{0, 4}, "way of reading");
    c.step("read");
    std::string what;
    bool t = throws([&]() { x->read(b, form, f.path, x->section(), strict); }, what);

    if (order == 2)
    {
        values.erase("unknown_entry");
        values.erase("unknown_map");
    }
    if (strict != 0)
    {
        c.check(t == missing, "strict", missing ? "an incomplete section was accepted: " + show(values) : "a complete section was rejected: " + what);
        if (!t) expect(c, b, full, x->observe(), "strict-values", "complete section");
        return;
    }
    // the sampling times must be consistent
    Tree defaults = (isSolution(cls) || isSolverParameters(cls)) ? before : fresh->observe();
    Tree e = section ? withDefaults(defaults, values) : defaults;
    if (x->section() == "MPCParameters" && e.find("tds_sampling_time_ms") != NULL)
    {
        long sub = e.find("subsampling_time_ms")->i;
        bool bad = (e.find("sampling_time_ms")->i % sub != 0) || (e.find("tds_sampling_time_ms")->i % sub != 0);
        c.check(t == bad, "inconsistent-times", "inconsistent sampling times: " + show(e) + " " + what);
        if (bad) return;
    }
    c.check(!t, "relaxed", "reading of an incomplete section failed: " + what);
    if (isTaskClass(cls))
    {
        if (missing) return;     // tasks have no defaults
    }
    expect(c, b, e, x->observe(), "relaxed-values", "incomplete section " + show(values));
    c.state(show(values) + x->section());
}

// every entry replaced with something of a wrong type or size
MC_SCENARIO(malformed_entries, 16, 3)
{
    int cls = c.range(0, numClasses() - 1, "class");
    Bridge b = bridge(c);
    int strict = c.range(-1, 1, "strictness");
    ObjectPtr x = create(cls);
    Tree values = x->make(3);
    std::vector<Path> all;
    paths(values, Path(), all);
    if (all.empty()) throw mc::Prune();
    Path p = all[c.choose(all.size(), "malformed entry")];
    Tree &t = *at(values, p, p.size());
    std::vector<Tree> bad;
    Tree map;
    map.add("position", Tree(1.0));
    Tree list = Tree::arr();
    list.a.push_back(Tree(1.0));
    std::string what;
    bool dynamic = isSolution(cls) || p.back() == "variables_indices";
    if (isMatrix(t))
    {
        bad.push_back(Tree(1.0));
        bad.push_back(Tree::str("abc"));
        bad.push_back(list);
        Values v(1);
        static const int DIMS[][3] = {{1, 4, 4}, {4, 1, 4}, {2, 2, 3}, {2, 2, 5}, {2, 2, 0}, {3, 2, 6}, {2, 3, 6}, {1, 1, 1}, {3, 3, 9}, {0, 0, 0}, {2, 2, 6}, {3, 2, 4}};
        for (auto &d : DIMS) { Tree m = v.dm(d[0], d[1]); *m.find("data") = v.dv(d[2]); bad.push_back(m); }
        static const char *PART[] = {"cols", "rows", "data"};
        for (auto *k : PART) { Tree m = t; m.erase(k); bad.push_back(m); m = t; *m.find(k) = Tree::str("abc"); bad.push_back(m); }
        Tree m = t; *m.find("data") = Tree(1.0); bad.push_back(m);
    }
    else if (t.k == Tree::ARR)
    {
        bad.push_back(Tree(1.0));
        bad.push_back(Tree::str("abc"));
        bad.push_back(map);
        if (!dynamic)
        {
            Tree y = t; y.a.pop_back(); bad.push_back(y);
            y = t; y.a.push_back(Tree(1.0)); bad.push_back(y);
            bad.push_back(Tree::arr());
        }
        for (size_t j = 0; j < t.a.size(); ++j) { Tree y = t; y.a[j] = Tree::str("abc"); bad.push_back(y); y.a[j] = list; bad.push_back(y); y.a[j] = map; bad.push_back(y); }
    }
    else if (t.k == Tree::MAP)
    {
        if (strict == 0) throw mc::Prune();
        bad.push_back(Tree(1.0));
        bad.push_back(list);
        bad.push_back(Tree());
    }
    else
    {
        bad.push_back(list);
        bad.push_back(map);
        bad.push_back(Tree());
        bad.push_back(Tree::arr());
        if (t.k != Tree::STR) bad.push_back(Tree::str("abc"));
        if (t.k == Tree::INT) bad.push_back(Tree::str("1.5.3"));
    }
    t = bad[c.choose(bad.size(), "wrong value")];
    File f;
    Tree root;
    root.add(x->section(), values);
    f.put(encode(b, root, true));
    c.step("read");
    bool r = throws([&]() { x->read(b, 3, f.path, "", strict); }, what);
    c.check(r, "malformed", showPath(p) + " = " + show(t) + " was accepted");
    c.state(show(values));
}

// every truncation of a file written in the binary format
MC_SCENARIO(truncated_files, 16, 2)
{
    int cls = c.range(0, numClasses() - 1, "class");
    int strict = c.range(-1, 1, "strictness");
    ObjectPtr x = create(cls), y = create(cls), z = create(cls);
    File in, out;
    Tree r;
    r.add("Node", x->make(2));
    in.put(encode(MSGPACK, r, true));
    x->read(MSGPACK, 4, in.path, "Node", -1);
    y->read(MSGPACK, 4, in.path, "Node", -1);
    {
        Msgpack::Writer w(out.path);
        x->writeTo(w, "Node");
        y->writeTo(w, "Node2");
    }
    std::string s = out.get();
    size_t whole = 0;
    {
        ::msgpack::object_handle h;
        ::msgpack::unpack(h, s.data(), s.size(), whole);
    }
    size_t cut = c.choose(s.size() + 1, "length of the file");
    out.put(s.substr(0, cut));
    std::string what;
    c.step("read the truncated file");
    bool t = throws([&]() { z->read(MSGPACK, 4, out.path, "Node2", strict); }, what);
    if (cut == s.size()) c.check(!t, "complete", what);
    else if (cut == 0 || cut == whole) c.check(t == (strict != 0), "between-nodes", "the node is missing in the truncated file");
    else c.check(t, "truncated", "a truncated file was accepted");
    if (!t && (cut == s.size())) expect(c, MSGPACK, y->observe(), z->observe(), "complete-values", "values");
    if (cut == whole || cut == s.size())
    {
        ObjectPtr u = create(cls);
        u->read(MSGPACK, 4, out.path, "Node", -1);
        expect(c, MSGPACK, x->observe(), u->observe(), "first-node", "first node");
    }
    c.state(std::to_string(cls) + " " + std::to_string(cut));
}

// direct use of readers: every sequence of steps through nested maps and of reads of all kinds, by existing and missing names
namespace
{
    enum Colour { RED = 0, GREEN = 3 };
    Tree content(double x)
    {
        Tree t;
        Eigen::VectorXd v(2); v << x, -x;
        Eigen::MatrixXd m(2, 3); m << x, 1, 2, 3, 4, 5;
        Tree l = Tree::arr(), n = Tree::arr(), row = Tree::arr();
        l.a.push_back(Tree::str("a")); l.a.push_back(Tree::str("b"));
        row.a.push_back(Tree::str("c")); n.a.push_back(row); n.a.push_back(Tree::arr());
        t.add("x", Tree(x)).add("v", Tree::vec(v)).add("m", Tree::mat(m)).add("l", l).add("n", n).add("e", Tree::integer(3)).add("s", Tree::str("text"));
        return t;
    }
    template<class Reader> void navigate(mc::Ctx &c, Bridge b)
    {
        Tree C = content(3.5), B = content(2.5), A = content(1.5), other = content(4.5), root;
        B.add("C", C); A.add("B", B);
        root.add("A", A).add("B", other);
        File f;
        f.put(encode(b, root, c.flip("separate maps")));
        Reader r(f.path);
        std::vector<const Tree *> at(1, &root);
        int start = c.range(0, 3, "start");
        static const char *way[] = {"A", "B", "C"};
        for (int k = 0; k < start; ++k) { c.check(r.descend(way[k]), "direct-start", "descend() to an existing map"); at.push_back(at.back()->find(way[k])); }
        static const char *names[] = {"A", "B", "C", "Z"};
        for (int step = 0; step < (c.thorough ? 4 : 3); ++step)
        {
            int op = c.range(0, 5 + 7 * 2 * 3 - 1, "step");
            if (op < 4)
            {
                const Tree *to = at.back()->find(names[op]);
                c.step("descend");
                c.check(r.descend(names[op]) == (to != NULL), "direct-descend", std::string("descend to ") + names[op]);
                if (to) at.push_back(to);
                continue;
            }
            if (op == 4)
            {
                if (at.size() == 1) throw mc::Prune();
                c.step("ascend");
                r.ascend();
                at.pop_back();
                continue;
            }
            op -= 5;
            int kind = op % 7, mode = op / 7 % 3;
            bool exists = op / 21 == 0 && at.size() > 1, threw = false;
            if (op / 21 == 0 && at.size() == 1) throw mc::Prune();
            static const char *keys[] = {"x", "v", "m", "l", "n", "e", "s"};
            const std::string key = exists ? keys[kind] : "z";
            const Tree *e = exists ? at.back()->find(key) : NULL;
            double x = 9; Eigen::VectorXd v(1); v << 9; Eigen::MatrixXd m(1, 1); m << 9;
            std::vector<std::string> l(1, "q"); std::vector<std::vector<std::string> > n; Colour colour = RED; std::string s = "q";
            c.step("read");
            try
            {
#define MC_READ(method, var) if (mode == 0) r.method(var, key); else r.method(var, key, mode == 2)
                switch (kind)
                {
                    case 0: MC_READ(readScalar, x); break;
                    case 1: MC_READ(readCompound, v); break;
                    case 2: MC_READ(readCompound, m); break;
                    case 3: MC_READ(readCompound, l); break;
                    case 4: MC_READ(readCompound, n); break;
                    case 5: MC_READ(readEnum, colour); break;
                    case 6: MC_READ(readScalar, s); break;
                }
#undef MC_READ
            }
            catch (const std::runtime_error &) { threw = true; }
            c.check(threw == (!exists && mode == 2), "direct-missing", threw ? "unexpected exception" : "a missing entry was not reported");
            double value = exists ? e->k == Tree::NUM ? e->d : at.back()->find("x")->d : 0;
            bool ok = true;
            switch (kind)
            {
                case 0: ok = x == (exists ? value : 9); break;
                case 1: ok = exists ? v.size() == 2 && v(0) == value && v(1) == -value : v.size() == 1 && v(0) == 9; break;
                case 2: ok = exists ? m.rows() == 2 && m.cols() == 3 && m(0, 0) == value && m(0, 1) == 1 && m(1, 0) == 3 && m(1, 2) == 5 : m.size() == 1 && m(0, 0) == 9; break;
                case 3: ok = exists ? l == std::vector<std::string>({"a", "b"}) : l == std::vector<std::string>({"q"}); break;
                case 4: ok = exists ? n.size() == 2 && n[0] == std::vector<std::string>({"c"}) && n[1].empty() : n.empty(); break;
                case 5: ok = colour == (exists ? GREEN : RED); break;
                case 6: ok = s == (exists ? "text" : "q"); break;
            }
            c.check(ok, "direct-values", std::string("read ") + key);
            if (threw) return;
        }
    }
}
MC_SCENARIO(direct, 32, 4)
{
    Bridge b = bridge(c);
    if (b == MSGPACK) navigate<humoto::config::msgpack::Reader>(c, b); else navigate<humoto::config::yaml::Reader>(c, b);
}

// files which do not exist or are no configurations; the directory with default configurations
MC_SCENARIO(files, 1, 1)
{
    int cls = c.range(0, numClasses() - 1, "class");
    Bridge b = bridge(c);
    int form = c.range(0, 5, "way of reading");
    int strict = c.range(-1, 1, "strictness");
    int kind = c.range(0, 5, "file");
    ObjectPtr x = create(cls);
    File f;
    std::string path = f.path, what, name = x->section();
    Tree root;
    root.add(name, x->make(3));
    c.step("read");
    switch (kind)
    {
        case 0:    // does not exist
            c.check(throws([&]() { x->read(b, form, "/proc/self/fd/no_such_file", name, strict); }, what), "no-file", "missing file accepted");
            return;
        case 1:    // exists in the directory with default configurations only
            f.put(encode(b, root, true));
            x->read(b, form, std::to_string(f.fd), name, strict);
            expect(c, b, root.m[0].second, x->observe(), "default-directory", "values");
            return;
        case 2:    // empty
            c.check(throws([&]() { x->read(b, form, path, name, strict); }, what) == (strict != 0), "empty-file", "empty file");
            return;
        case 3:    // the node is a scalar
            root.m[0].second = Tree(1.0);
            f.put(encode(b, root, true));
            if (root.m[0].second.k == Tree::NUM && x->make(3).m.empty() && b == YAML_) return;
            c.check(throws([&]() { x->read(b, form, path, name, strict); }, what) == (strict != 0), "scalar-node", "scalar instead of the node");
            return;
        case 4:    // garbage
            f.put(b == YAML_ ? "a: [1, 2\nb: }{" : "\xc1\xc1");
            c.check(throws([&]() { x->read(b, form, path, name, strict); }, what), "garbage", "garbage accepted");
            return;
        case 5:    // the node exists on another level only
        {
            Tree outer;
            outer.add("Outer", root);
            f.put(encode(b, outer, true));
            c.check(throws([&]() { x->read(b, form, path, name, strict); }, what) == (strict != 0), "nested-node", "node of a wrong level");
            return;
        }
    }
}

// quantities derived from the parameters, after any sequence of reads
MC_SCENARIO(derived, 1, 1)
{
    Bridge b = bridge(c);
    int which = c.range(0, 3, "class");
    humoto::walking::RobotFootParameters foot;
    humoto::pepper_mpc::RobotParameters robot;
    humoto::wpg04::MPCParameters wpg;
    humoto::pepper_mpc::MPCParameters mg;
    int reads = c.range(1, which == 2 ? 2 : 3, "reads");
    auto read = [&](auto &obj, const File &f, bool strict)
    {
        if (b == MSGPACK) obj.template readConfig<Msgpack::Reader>(f.path, strict); else obj.template readConfig<Yaml::Reader>(f.path, strict);
    };
    for (int k = 0; k < reads; ++k)
    {
        int salt = c.range(1, 3, "values");
        bool complete = c.flip("complete");
        Tree t, root;
        Values v(salt);
        switch (which)
        {
            case 0:
            {
                t = Spec<humoto::walking::RobotFootParameters>::make(v);
                if (!complete) { t.erase("feet_dist_default"); t.erase("foot_width"); }
                root.add("RobotFootParameters", t);
                File f; f.put(encode(b, root, true));
                c.step("read");
                read(foot, f, complete);
                double len = t.find("foot_length")->d, width = complete ? t.find("foot_width")->d : 0.058, dist = complete ? t.find("feet_dist_default")->d : 0.19;
                double step = t.find("max_step_len")->d, mn = t.find("min_feet_dist")->d, mx = t.find("max_feet_dist")->d;
                etools::Matrix2 m;
                m << -len / 2, len / 2, -width / 2, width / 2;
                c.nearM(foot.getSSCoPBounds(), m, "derived-foot", "bounds of the CoP in a single support", 1e-13);
                m << -len / 2, len / 2, -(width + dist) / 2, (width + dist) / 2;
                c.nearM(foot.getADSCoPBounds(), m, "derived-foot", "bounds of the CoP in an aligned double support", 1e-13);
                for (int side = 0; side < 2; ++side)
                {
                    humoto::LeftOrRight::Type lr = side ? humoto::LeftOrRight::RIGHT : humoto::LeftOrRight::LEFT;
                    double sign = side ? -1 : 1;
                    m << -step, step, side ? -mx : mn, side ? -mn : mx;
                    c.nearM(foot.getFootBounds(lr, humoto::walking::FootBoundsType::WITH_RESPECT_TO_SS), m, "derived-foot", "bounds of the foot with respect to a single support", 1e-13);
                    m << 0, 0, sign * dist / 2, sign * dist / 2;
                    c.nearM(foot.getFootBounds(lr, humoto::walking::FootBoundsType::WITH_RESPECT_TO_ADS), m, "derived-foot", "foot with respect to an ADS", 1e-13);
                    c.nearM(foot.getFootBounds(lr, humoto::walking::FootBoundsType::ALIGNED_TO_SS), m, "derived-foot", "foot aligned to a single support", 1e-13);
                    etools::Matrix2 R;
                    R = Eigen::Rotation2Dd(0.5 * salt);
                    etools::Vector2 p(1.0, -2.0), o(0, sign * dist / 2);
                    c.nearM(foot.getFootPositionFromADS(lr, R, p), (R * o + p).eval(), "derived-foot", "foot from an ADS", 1e-13);
                    c.nearM(foot.getADSPositionFromFoot(lr, R, p), (p - R * o).eval(), "derived-foot", "ADS from a foot", 1e-13);
                }
                break;
            }
            case 1:
            {
                t = Spec<humoto::pepper_mpc::RobotParameters>::make(v);
                if (!complete) { t.erase("base_radius"); t.erase("max_nominal_base_acceleration"); t.erase("body_bounds"); }
                root.add("RobotParameters", t);
                File f; f.put(encode(b, root, true));
                c.step("read");
                read(robot, f, complete);
                auto square = [](double r) { double h = r / std::sqrt(2.0); etools::Matrix2 m; m << -h, h, -h, h; return m; };
                c.nearM(robot.getCoPBounds(), square(complete ? t.find("base_radius")->d : 0.7), "derived-robot", "bounds of the CoP", 1e-13);
                c.nearM(robot.getNominalBaseVelocityBounds(), square(t.find("max_nominal_base_velocity")->d), "derived-robot", "bounds of the velocity", 1e-13);
                c.nearM(robot.getNominalBaseAccelerationBounds(), square(complete ? t.find("max_nominal_base_acceleration")->d : 1.0), "derived-robot", "bounds of the acceleration", 1e-13);
                etools::Matrix2 m;
                if (complete) { const Tree &d = *t.find("body_bounds")->find("data"); m << d.a[0].d, d.a[1].d, d.a[2].d, d.a[3].d; }
                else m << -0.06, 0.06, -0.03, 0.03;
                c.nearM(robot.getBodyBounds(), m, "derived-robot", "bounds of the body", 1e-13);
                break;
            }
            case 2:
            {
                static const long SUB[] = {1, 5, 20, 30}, T[] = {20, 60, 100}, TDS[] = {20, 50, 90};
                long sub = c.pick(SUB, "subsampling"), T_ = c.pick(T, "sampling"), tds = c.pick(TDS, "tds sampling");
                t.add("preview_horizon_length", Tree::integer(salt)).add("sampling_time_ms", Tree::integer(T_)).add("subsampling_time_ms", Tree::integer(sub));
                if (complete) t.add("tds_sampling_time_ms", Tree::integer(tds)); else tds = 100;
                root.add("MPCParameters", t);
                File f; f.put(encode(b, root, true));
                c.step("read");
                std::string what;
                bool bad = (T_ % sub != 0) || (tds % sub != 0);
                bool r = throws([&]() { read(wpg, f, complete); }, what);
                c.check(r == bad, "inconsistent-times", "sampling times which are not multiples of the subsampling time must be rejected");
                if (!r) c.near(wpg.getSubsamplingTime(), sub / 1000.0, "derived-times", "subsampling time", 1e-13);
                break;
            }
            case 3:
            {
                t = Spec<humoto::pepper_mpc::MPCParameters>::make(v);
                if (!complete) t.erase("subsampling_time_ms");
                root.add("MPCParameters", t);
                File f; f.put(encode(b, root, true));
                c.step("read");
                read(mg, f, complete);
                c.near(mg.getSamplingTime(), t.find("sampling_time_ms")->i / 1000.0, "derived-times", "sampling time", 1e-13);
                c.near(mg.getSubsamplingTime(), (complete ? t.find("subsampling_time_ms")->i : 100) / 1000.0, "derived-times", "subsampling time", 1e-13);
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- hierarchies
namespace
{
    template<class P> void brokenProblem(mc::Ctx &c, int module)
    {
        Bridge b = bridge(c);
        std::vector<const TaskType *> types, foreign;
        for (size_t i = 0; i < taskTypes().size(); ++i)
        {
            if (taskTypes()[i].module == module || taskTypes()[i].module == 0) types.push_back(&taskTypes()[i]);
            else foreign.push_back(&taskTypes()[i]);
        }
        Spy<P> p;
        bool used = c.flip("used before");
        if (used) { p.reset(1); p.pushTask(humoto::TaskSharedPointer(new humoto::TaskZeroVariables(3.0, "old")), 0, "TaskZeroVariables"); }
        int levels = c.range(1, 3, "levels");
        Stack s(levels);
        int n = 0;
        for (int l = 0; l < levels; ++l)
        {
            for (int i = 0; i < (l == 0 ? 2 : 1); ++i)
            {
                Item t;
                t.type = types[(l == 0 && i == 0) ? c.choose(types.size(), "type of a task") : (3 * n + 1) % types.size()];
                t.id = "task" + std::to_string(n);
                t.values = makeTask(*t.type, ++n);
                s[l].push_back(t);
            }
        }
        Tree t = treeOf(s);
        Tree &names = *t.find("task_class_names"), &ids = *t.find("task_ids");
        int defect = c.range(0, 11, "defect");
        std::string what;
        bool strict = true;
        switch (defect)
        {
            case 0: break;
            case 1: t.erase("task_class_names"); strict = c.flip("strict"); break;
            case 2: t.erase("task_ids"); strict = c.flip("strict"); break;
            case 3: { int l = c.choose(levels, "level"); names.a[l].a[c.choose(names.a[l].a.size(), "task")] = Tree::str("NoSuchTask"); strict = c.flip("strict"); break; }
            case 4: { if (foreign.empty()) throw mc::Prune(); int l = c.choose(levels, "level"); names.a[l].a.back() = Tree::str(foreign[c.choose(foreign.size(), "foreign type")]->name); break; }
            case 5: { int l = c.choose(levels, "level"); names.a[l].a.pop_back(); strict = c.flip("strict"); break; }
            case 6: { int l = c.choose(levels, "level"); ids.a[l].a.pop_back(); strict = c.flip("strict"); break; }
            case 7: names.a.pop_back(); break;
            case 8: ids.a.pop_back(); strict = c.flip("strict"); break;
            case 9: names.a.clear(); ids.a.clear(); strict = c.flip("strict"); break;
            case 10: t.erase("task" + std::to_string(c.choose(n, "task"))); break;
            case 11:
            {
                int k = c.choose(n, "task");
                Tree *x = t.find("task" + std::to_string(k));
                if (x->m.empty()) throw mc::Prune();
                x->erase(x->m[c.choose(x->m.size(), "entry")].first);
                break;
            }
        }
        Tree root;
        root.add("OptimizationProblem", t);
        File f;
        f.put(encode(b, root, true));
        c.step("read the hierarchy");
        bool r = throws([&]()
        {
            if (b == MSGPACK) p.template readConfig<Msgpack::Reader>(f.path, strict); else p.template readConfig<Yaml::Reader>(f.path, strict);
        }, what);
        c.check(r == (defect != 0), "broken-hierarchy", "defect " + std::to_string(defect) + (r ? " reported: " + what : " was accepted: " + show(t)));
        if (!r) compare(c, b, p, s, "hierarchy");
        // the object can be used afterwards
        Stack good(1);
        Item item;
        item.type = types[0];
        item.id = "another";
        item.values = makeTask(*types[0], 5);
        good[0].push_back(item);
        Tree again;
        again.add("OptimizationProblem", treeOf(good));
        f.put(encode(b, again, true));
        c.step("read another hierarchy");
        readProblem(p, b, f.path);
        compare(c, b, p, good, "hierarchy-after-failure");
        c.state(show(root) + std::to_string(strict));
    }
}
MC_SCENARIO(core_broken_hierarchy, 1, 1) { brokenProblem<humoto::ConfigurableOptimizationProblem>(c, 0); }
MC_SCENARIO(wpg04_broken_hierarchy, 4, 3) { brokenProblem<humoto::wpg04::ConfigurableOptimizationProblem>(c, 1); }
MC_SCENARIO(pepper_mpc_broken_hierarchy, 4, 3) { brokenProblem<humoto::pepper_mpc::ConfigurableOptimizationProblem>(c, 2); }

// ---------------------------------------------------------------- shipped files
namespace
{
    struct Shipped { std::string file, section; int module; };

    const std::vector<Shipped> &shipped()
    {
        static std::vector<Shipped> v;
        if (!v.empty()) return v;
        const char *repo = getenv("VERIF_REPO");
        std::string base = repo ? repo : "/repo";
        static const char *DIRS[] = {"/modules/wpg04/config/", "/modules/pepper_mpc/config/", "/core/config/"};
        for (int d = 0; d < 3; ++d)
        {
            std::vector<std::string> names;
            if (DIR *dir = opendir((base + DIRS[d]).c_str()))
            {
                while (struct dirent *e = readdir(dir)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == ".yaml") names.push_back(n); }
                closedir(dir);
            }
            std::sort(names.begin(), names.end());
            for (auto &n : names)
            {
                ::YAML::Node root = ::YAML::LoadFile(base + DIRS[d] + n);
                for (::YAML::const_iterator it = root.begin(); it != root.end(); ++it)
                {
                    Shipped s;
                    s.file = base + DIRS[d] + n;
                    s.section = it->first.Scalar();
                    s.module = d == 2 ? 0 : d + 1;
                    v.push_back(s);
                }
            }
        }
        return v;
    }

    template<class P> void shippedHierarchy(mc::Ctx &c, const Shipped &s, const ::YAML::Node &n)
    {
        Stack stack;
        for (size_t l = 0; l < n["task_class_names"].size(); ++l)
        {
            stack.push_back(std::vector<Item>());
            for (size_t k = 0; k < n["task_class_names"][l].size(); ++k)
            {
                Item i;
                std::string name = n["task_class_names"][l][k].Scalar();
                i.type = NULL;
                for (auto &t : taskTypes()) if (name == t.name) i.type = &t;
                c.check(i.type != NULL, "shipped-task", s.file + ": unknown task " + name);
                i.id = n["task_ids"][l][k].Scalar();
                Tree model = makeTask(*i.type, 1);
                i.values = fromYaml(n[i.id], &model);
                stack.back().push_back(i);
            }
        }
        Spy<P> p;
        c.step("read the shipped hierarchy");
        p.template readConfig<Yaml::Reader>(s.file, s.section);
        compare(c, YAML_, p, stack, "shipped-hierarchy");
    }
}
MC_SCENARIO(shipped_files, 1, 1)
{
    c.check(shipped().size() >= 20, "shipped-found", "the configuration files of the modules");
    const Shipped &s = shipped()[c.choose(shipped().size(), "section")];
    ::YAML::Node n = ::YAML::LoadFile(s.file)[s.section];
    int strict = c.range(-1, 1, "strictness");
    if (n["task_class_names"])
    {
        if (s.module == 1) shippedHierarchy<humoto::wpg04::ConfigurableOptimizationProblem>(c, s, n);
        else shippedHierarchy<humoto::pepper_mpc::ConfigurableOptimizationProblem>(c, s, n);
        return;
    }
    static const int BY_MODULE[3][6] = {{6, -1}, {7, 8, 9, 10, -1}, {11, 12, 13, 14, -1}};
    for (const int *i = BY_MODULE[s.module]; *i >= 0; ++i)
    {
        ObjectPtr x = create(*i);
        if (x->section() != s.section) continue;
        Tree model = x->make(1);
        Tree e = fromYaml(n, &model);
        c.step("read " + s.file);
        x->read(YAML_, 3, s.file, "", strict);
        expect(c, YAML_, e, x->observe(), "shipped-values", s.file);
        c.state(s.file + s.section);
        return;
    }
    c.check(s.section == "SolverParameters", "shipped-section", s.file + ": nobody reads " + s.section);
}
