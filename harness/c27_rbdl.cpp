// C27: the bridge of RBDL -- positions, orientations, masses and Jacobians of tags of all trees of bodies.
#include "mc.h"
#include "build_config.h"
#include "humoto/humoto.h"
#include "humoto/rbdl.h"
#include "kin.h"

using namespace humoto;
typedef humoto::rbdl::SpatialType ST;

namespace
{
    std::string scratch()
    {
        const char *d = getenv("MC_SCRATCH");
        std::stringstream s; s << (d ? d : "/tmp") << "/robot." << getpid() << ".urdf";
        return s.str();
    }
    struct File
    {
        std::string path;
        explicit File(const std::string &text) : path(scratch()) { std::ofstream o(path.c_str()); o << text; }
        ~File() { unlink(path.c_str()); }
    };
    kin::Link chooseLink(mc::Ctx &c, size_t i, int kinds)
    {
        kin::Link l;
        std::stringstream n; n << "link" << i; l.name = n.str();
        // names of joints do not follow the order of links
        std::stringstream j; j << (char) ('z' - (i * 7) % 26) << "joint" << i; l.joint = j.str();
        static const double xs[][3] = {{0.5, -0.25, 1}, {0, 0, 0.75}, {-1, 0.5, 0.25}, {0.3, 0, 0}, {0, -0.7, 0.2}};
        for (int k = 0; k < 3; ++k) l.xyz(k) = xs[i % 5][k];
        l.angles = i % 2 ? kin::V3(0.4, -0.9, 1.3) : kin::V3(0, 0, 0);
        l.com = kin::V3(0.1 * (i + 1), -0.2, 0.05 * i);
        l.mass = 1.0 + 0.5 * i;
        switch (c.choose(kinds, "kind of the joint"))
        {
            case 0: l.kind = kin::REVOLUTE; l.axis = kin::V3(0, 1, 0); break;
            case 1: l.kind = kin::FIXED; l.mass = 0; break;
            case 2: l.kind = kin::FIXED; break;
            case 3: l.kind = kin::PRISMATIC; l.axis = kin::V3(1, 2, -2); break;
            case 4: l.kind = kin::REVOLUTE; l.axis = kin::V3(2, -1, 2); break;
            case 5: l.kind = kin::REVOLUTE; l.axis = kin::V3(0, 0, -1); l.mass = 0; break;
        }
        return l;
    }
    Eigen::VectorXd state(size_t n, int k)
    {
        Eigen::VectorXd q(n);
        for (size_t i = 0; i < n; ++i) q(i) = k == 0 ? 0.0 : k == 1 ? 0.3 + 0.2 * i : (i % 2 ? -1.0 : 1.0) * (1.9 - 0.25 * i);
        return q;
    }
    bool fixed(const kin::Tree &t, int i, bool floating) { return t.links[i].parent < 0 ? !floating : t.links[i].kind == kin::FIXED; }
    template<ST::Type t_type, class t_Tag> Eigen::MatrixXd jac(const humoto::rbdl::Model &m, const t_Tag &tag)
    {
        Eigen::MatrixXd J = Eigen::MatrixXd::Constant(2, 2, 7);
        m.getTagJacobian<t_type>(J, tag);
        return J;
    }
    void sameRotation(mc::Ctx &c, const rigidbody::RigidBodyPose &p, const kin::M3 &R, const kin::V3 &x)
    {
        c.nearM(p.position_, x, "pose", "position in the pose");
        c.nearM(kin::rpy(p.rpy_), R, "pose", "orientation in the pose");
    }
    void compare(mc::Ctx &c, const humoto::rbdl::Model &m, const kin::Tree &t)
    {
        c.check(m.getDOFNumber() == t.dofs.size(), "dof", "number of degrees of freedom");
        for (size_t i = 0; i < t.links.size(); ++i)
        {
            humoto::rbdl::TagLinkPtr tag = m.getLinkTag(t.links[i].name);
            c.nearM(m.getTagPosition(tag), t.p[i], "position", "position of a link");
            c.nearM(m.getTagOrientation(tag), t.R[i], "orientation", "orientation of a link");
            sameRotation(c, m.getTagPose(tag), t.R[i], t.p[i]);
            Eigen::MatrixXd J = t.jacobian(i, t.p[i]);
            c.nearM(jac<ST::COMPLETE>(m, tag), J, "jacobian", "complete Jacobian of a link");
            c.nearM(jac<ST::TRANSLATION>(m, tag), J.bottomRows(3), "jacobian", "translational Jacobian of a link");
            c.nearM(jac<ST::ROTATION>(m, tag), J.topRows(3), "jacobian", "rotational Jacobian of a link");

            kin::V3 local(0.3, -0.6, 0.9), world = t.world(i, local);
            humoto::rbdl::TagPointPtr pt = m.getPointTag(t.links[i].name, local);
            c.nearM(m.getTagPosition(pt), world, "position", "position of a point");
            c.nearM(m.getTagOrientation(pt), t.R[i], "orientation", "orientation of a point");
            sameRotation(c, m.getTagPose(pt), t.R[i], world);
            J = t.jacobian(i, world);
            c.nearM(jac<ST::COMPLETE>(m, pt), J, "jacobian", "complete Jacobian of a point");
            c.nearM(jac<ST::TRANSLATION>(m, pt), J.bottomRows(3), "jacobian", "translational Jacobian of a point");
            c.nearM(jac<ST::ROTATION>(m, pt), J.topRows(3), "jacobian", "rotational Jacobian of a point");
        }
        // masses: a movable link carries everything which is fixed to it
        std::vector<std::string> names;
        std::vector<std::vector<int> > groups;
        std::vector<int> all;
        for (size_t i = 0; i < t.links.size(); ++i)
        {
            if (fixed(t, i, m.model_parameters_.floating_base_))
            {
                int threw = 0;
                try { m.getLinkCoMTag(t.links[i].name); } catch (const std::runtime_error &) { ++threw; } catch (const std::out_of_range &) {}
                try { m.getCoMTag(std::vector<std::string>(1, t.links[i].name)); } catch (const std::runtime_error &) { ++threw; } catch (const std::out_of_range &) {}
                try { m.getTagMass(m.getLinkTag(t.links[i].name)); } catch (const std::runtime_error &) { ++threw; } catch (const std::out_of_range &) {}
                c.check(threw == 3, "fixed", "links which have no bodies of their own must be reported");
                continue;
            }
            std::vector<int> g(1, i);
            for (size_t k = 0; k < t.links.size(); ++k)
            {
                size_t j = k;
                while (t.links[j].kind == kin::FIXED && t.links[j].parent >= 0 && j != i) j = t.links[j].parent;
                if (j == i && k != i) g.push_back(k);
            }
            names.push_back(t.links[i].name);
            groups.push_back(g);
            all.insert(all.end(), g.begin(), g.end());
            if (t.mass(g) == 0.0) continue;
            c.near(m.getTagMass(m.getLinkTag(names.back())), t.mass(g), "mass", "mass of a link");
            humoto::rbdl::TagPointPtr tag = m.getLinkCoMTag(names.back());
            c.nearM(m.getTagPosition(tag), t.com(g), "com", "CoM of a link");
            c.nearM(jac<ST::TRANSLATION>(m, tag), t.comJacobian(g), "com-jacobian", "Jacobian of the CoM of a link");
        }
        // all groups of links
        for (size_t mask = 1; mask < (size_t(1) << std::min<size_t>(names.size(), 5)); ++mask)
        {
            std::vector<std::string> n;
            std::vector<int> ids;
            for (size_t k = 0; k < names.size(); ++k) if (mask >> k & 1) { n.insert(mask % 3 ? n.begin() : n.end(), names[k]); ids.insert(ids.end(), groups[k].begin(), groups[k].end()); }
            if (t.mass(ids) == 0.0) continue;
            humoto::rbdl::TagPartialCoMPtr tag = m.getCoMTag(n);
            c.near(m.getTagMass(tag), t.mass(ids), "mass", "mass of several links");
            c.nearM(m.getTagPosition(tag), t.com(ids), "com", "CoM of several links");
            Eigen::MatrixXd J = Eigen::MatrixXd::Constant(5, 1, 7);
            m.getTagJacobian(J, tag);
            c.nearM(J, t.comJacobian(ids), "com-jacobian", "Jacobian of the CoM of several links");
        }
        if (!all.empty() && t.mass(all) != 0.0)
        {
            humoto::rbdl::TagCoMPtr tag = m.getCoMTag();
            c.near(m.getTagMass(tag), t.mass(all), "mass", "mass of the robot");
            c.nearM(m.getTagPosition(tag), t.com(all), "com", "CoM of the robot");
            Eigen::MatrixXd J;
            m.getTagJacobian(J, tag);
            c.nearM(J, t.comJacobian(all), "com-jacobian", "Jacobian of the CoM of the robot");
        }
    }
    kin::Link rootLink(bool massive)
    {
        kin::Link l; l.name = "base"; l.mass = massive ? 2.0 : 0.0; l.com = kin::V3(0.2, 0.1, -0.3);
        return l;
    }
}

// all trees
MC_SCENARIO(trees, 16, 4)
{
    RigidBodyDynamics::settings() = RigidBodyDynamics::Settings();
    bool floating = c.flip("floating base");
    if (floating) RigidBodyDynamics::settings().floating = c.choose(3, "kind of the floating joint");
    kin::Tree t;
    t.links.push_back(rootLink(floating));
    size_t n = c.range(1, c.thorough ? 4 : 3, "links");
    for (size_t i = 0; i < n; ++i)
    {
        size_t parent = c.choose(t.links.size(), "parent");
        t.links.push_back(chooseLink(c, i, n > 2 ? 4 : 6));
        t.links.back().parent = parent;
    }
    t.finish();
    size_t dof = t.update(floating);
    // a body which does not move at all and has a mass cannot be joined with anything
    if (!floating)
        for (size_t i = 0; i < t.links.size(); ++i)
        {
            int k = i;
            while (k >= 0 && t.links[k].kind == kin::FIXED) k = t.links[k].parent;
            if (k < 0 && t.links[i].mass != 0) throw mc::Prune();
        }
    File f(t.urdf());
    humoto::rbdl::ModelParameters p;
    c.check(p.floating_base_, "defaults", "the base is floating by default");
    p.floating_base_ = floating;
    humoto::rbdl::Model m;
    c.step("load");
    m.load(p, f.path);
    c.check(m.model_parameters_.floating_base_ == floating, "parameters", "parameters of the model");
    // updates are independent of the previous ones
    for (int k = 0; k < 3; ++k)
    {
        Eigen::VectorXd q = state(dof, (k + 1) % 3);
        c.step("update");
        m.update(q);
        t.update(floating, &q);
        compare(c, m, t);
    }
    std::stringstream s; s << t.urdf() << floating << RigidBodyDynamics::settings().floating;
    c.state(s.str());
}

// sequences of loads and updates on one object, all constructors, wrong files and names
MC_SCENARIO(histories, 4, 2)
{
    RigidBodyDynamics::settings() = RigidBodyDynamics::Settings();
    kin::Tree ts[3];
    for (int k = 0; k < 3; ++k)
    {
        ts[k].links.push_back(rootLink(k != 1));
        for (int i = 0; i <= k; ++i)
        {
            kin::Link l; std::stringstream n; n << "link" << i; l.name = n.str(); l.joint = "j" + l.name;
            l.kind = k == 1 && i == 1 ? kin::FIXED : kin::REVOLUTE; l.mass = k == 1 && i == 1 ? 0 : 1 + k; l.com = kin::V3(0.1, 0.2, 0.3 * k); l.xyz = kin::V3(k, i, 1); l.axis = kin::V3(0, 1 - i % 2, i % 2);
            l.parent = i;
            ts[k].links.push_back(l);
        }
        ts[k].finish();
    }
    humoto::rbdl::Model *m = NULL;
    kin::Tree *t = NULL;
    bool floating = true;
    int depth = c.thorough ? 5 : 4;
    for (int step = 0; step < depth; ++step)
    {
        int op = c.choose(step == 0 ? 3 : 5, "operation");
        if (op <= 2)
        {
            int which = c.choose(3, "robot");
            if (op != 0) floating = op == 2 ? c.flip("floating base") : (step == 0 ? true : floating);
            File f(ts[which].urdf());
            humoto::rbdl::ModelParameters p; p.floating_base_ = floating;
            if (op == 0)
            {
                // a new object
                delete m;
                floating = true;
                c.step("construct");
                m = new humoto::rbdl::Model(f.path);
            }
            else if (m == NULL)
            {
                c.step("construct with parameters");
                if (op == 1) { m = new humoto::rbdl::Model; m->load(f.path); }
                else m = new humoto::rbdl::Model(p, f.path);
            }
            else if (op == 1) { c.step("load"); m->load(f.path); }
            else { c.step("load with parameters"); m->load(p, f.path); }
            t = &ts[which];
            if (m->getDOFNumber() != t->update(floating)) c.fail("reload", "a loaded model is not the one in the file");
        }
        else if (op == 3)
        {
            bool threw = false;
            c.step("load a file which does not exist");
            try { humoto::rbdl::Model x; x.load("/nonexistent/robot.urdf"); } catch (const std::runtime_error &) { threw = true; }
            c.check(threw, "missing", "a missing file must be reported");
            threw = false;
            { File f("<robot><link name=\"a\"/>"); try { humoto::rbdl::Model x(f.path); } catch (const std::runtime_error &) { threw = true; } }
            c.check(threw, "missing", "a wrong file must be reported");
        }
        else
        {
            // names and masses which do not exist
            const char *bad[] = {"", "nolink", "Link0", "link", "link9"};
            for (int k = 0; k < 5; ++k)
            {
                int threw = 0;
                try { m->getLinkTag(bad[k]); } catch (const std::runtime_error &) { ++threw; }
                try { m->getPointTag(bad[k], etools::Vector3::Zero()); } catch (const std::runtime_error &) { ++threw; }
                try { m->getLinkCoMTag(bad[k]); } catch (const std::runtime_error &) { ++threw; } catch (const std::out_of_range &) {}
                try { m->getCoMTag(std::vector<std::string>(1, bad[k])); } catch (const std::runtime_error &) { ++threw; } catch (const std::out_of_range &) {}
                c.check(threw == 4, "unknown-link", "links which do not exist must be reported");
            }
            continue;
        }
        Eigen::VectorXd q = state(t->update(floating), 1 + c.choose(2, "state"));
        c.step("update");
        m->update(q);
        t->update(floating, &q);
        compare(c, *m, *t);
        std::stringstream s; s << t->links.size() << floating << q.transpose() << step;
        c.state(s.str());
    }
    c.check(RigidBodyDynamics::settings().bad == 0, "misuse", "only positions are updated");
    delete m;
}

