// Reference kinematics of trees of bodies: homogeneous transforms and geometric Jacobians, independent of RBDL's
// spatial algebra. Coordinates are ordered depth-first, joints of one link in the alphabetical order of their names.
#pragma once
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <fstream>

namespace kin
{
    typedef Eigen::Vector3d V3;
    typedef Eigen::Matrix3d M3;
    enum Kind { FIXED, REVOLUTE, PRISMATIC, FLOATING, PLANAR };

    inline M3 rot(int k, double a)
    {
        double c = std::cos(a), s = std::sin(a);
        M3 m;
        if (k == 0) m << 1, 0, 0, 0, c, -s, 0, s, c;
        if (k == 1) m << c, 0, s, 0, 1, 0, -s, 0, c;
        if (k == 2) m << c, -s, 0, s, c, 0, 0, 0, 1;
        return m;
    }
    inline M3 rotAxis(const V3 &a, double t)
    {
        M3 k;
        k << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
        return M3::Identity() + std::sin(t) * k + (1 - std::cos(t)) * k * k;
    }
    inline M3 rpy(const V3 &v) { return rot(2, v(2)) * rot(1, v(1)) * rot(0, v(0)); }

    struct Link
    {
        std::string name, joint;
        int parent;             // -1: the root
        Kind kind;
        V3 xyz, angles, axis;
        double mass;
        V3 com;
        bool limits;
        double lower, upper, velocity;
        std::vector<int> children;
        Link() : parent(-1), kind(FIXED), xyz(0, 0, 0), angles(0, 0, 0), axis(1, 0, 0), mass(0), com(0, 0, 0), limits(false), lower(0), upper(0), velocity(0) {}
    };
    struct Dof { int link; bool revolute; V3 axis, origin; };

    struct Tree
    {
        std::vector<Link> links;
        std::vector<std::string> order;     // joint of each coordinate
        // results of update()
        std::vector<M3> R;
        std::vector<V3> p;
        std::vector<Dof> dofs;

        int find(const std::string &n) const { for (size_t i = 0; i < links.size(); ++i) if (links[i].name == n) return i; return -1; }
        int root() const { for (size_t i = 0; i < links.size(); ++i) if (links[i].parent < 0) return i; return -1; }
        void finish()
        {
            for (size_t i = 0; i < links.size(); ++i) links[i].children.clear();
            std::map<std::string, int> byname;
            for (size_t i = 0; i < links.size(); ++i) if (links[i].parent >= 0) byname[links[i].joint] = i;
            for (std::map<std::string, int>::iterator i = byname.begin(); i != byname.end(); ++i) links[links[i->second].parent].children.push_back(i->second);
        }
        void descend(int i, const M3 &R0, const V3 &p0, bool floating, const Eigen::VectorXd *q, size_t &k)
        {
            const Link &l = links[i];
            M3 Ri = R0 * rpy(l.angles);
            V3 pi = p0 + R0 * l.xyz;
            Kind kind = l.parent < 0 ? (floating ? FLOATING : FIXED) : l.kind;
            int n = kind == FIXED ? 0 : kind == FLOATING ? 6 : kind == PLANAR ? 3 : 1;
            for (int j = 0; j < n; ++j)
            {
                double v = q ? (*q)(k) : 0.0;
                ++k;
                Dof d; d.link = i;
                order.push_back(l.joint);
                bool revolute = kind == REVOLUTE;
                V3 axis = l.axis.normalized();
                if (kind == FLOATING) { revolute = j >= 3; axis = V3::Unit(j % 3); }
                if (kind == PLANAR) { revolute = j == 2; axis = V3::Unit(j); }
                d.revolute = revolute;
                d.axis = Ri * axis; d.origin = pi;
                dofs.push_back(d);
                if (revolute) Ri = Ri * rotAxis(axis, v); else pi = pi + Ri * axis * v;
            }
            R[i] = Ri; p[i] = pi;
            for (size_t c = 0; c < l.children.size(); ++c) descend(l.children[c], Ri, pi, floating, q, k);
        }
        size_t update(bool floating, const Eigen::VectorXd *q = NULL)
        {
            R.assign(links.size(), M3::Identity()); p.assign(links.size(), V3::Zero()); dofs.clear(); order.clear();
            int r = root();
            // a root which carries its own floating joint is at rest
            for (size_t c = 0; c < links[r].children.size(); ++c) if (links[links[r].children[c]].kind == FLOATING) floating = false;
            size_t k = 0;
            descend(r, M3::Identity(), V3::Zero(), floating, q, k);
            return k;
        }
        bool above(int anc, int i) const { for (; i >= 0; i = links[i].parent) if (i == anc) return true; return false; }
        // [angular velocity; velocity of the point] with respect to the rates of coordinates
        Eigen::MatrixXd jacobian(int link, const V3 &point) const
        {
            Eigen::MatrixXd J = Eigen::MatrixXd::Zero(6, dofs.size());
            for (size_t k = 0; k < dofs.size(); ++k)
            {
                if (!above(dofs[k].link, link)) continue;
                if (dofs[k].revolute) { J.block(0, k, 3, 1) = dofs[k].axis; J.block(3, k, 3, 1) = dofs[k].axis.cross(V3(point - dofs[k].origin)); }
                else J.block(3, k, 3, 1) = dofs[k].axis;
            }
            return J;
        }
        V3 world(int link, const V3 &local) const { return p[link] + R[link] * local; }
        double mass(const std::vector<int> &ids) const { double m = 0; for (size_t i = 0; i < ids.size(); ++i) m += links[ids[i]].mass; return m; }
        V3 com(const std::vector<int> &ids) const
        {
            V3 c(0, 0, 0);
            for (size_t i = 0; i < ids.size(); ++i) c += links[ids[i]].mass * world(ids[i], links[ids[i]].com);
            return c / mass(ids);
        }
        Eigen::MatrixXd comJacobian(const std::vector<int> &ids) const
        {
            Eigen::MatrixXd J = Eigen::MatrixXd::Zero(3, dofs.size());
            for (size_t i = 0; i < ids.size(); ++i) J += links[ids[i]].mass * jacobian(ids[i], world(ids[i], links[ids[i]].com)).bottomRows(3);
            return J / mass(ids);
        }
        std::vector<int> all() const { std::vector<int> v; for (size_t i = 0; i < links.size(); ++i) v.push_back(i); return v; }
        std::vector<int> named(const std::vector<std::string> &n) const { std::vector<int> v; for (size_t i = 0; i < n.size(); ++i) v.push_back(find(n[i])); return v; }

        std::string urdf() const
        {
            static const char *kinds[] = {"fixed", "revolute", "prismatic", "floating", "planar"};
            std::stringstream o;
            o << std::setprecision(17) << "<?xml version=\"1.0\" ?>\n<robot name=\"r\">\n";
            for (size_t i = 0; i < links.size(); ++i)
            {
                const Link &l = links[i];
                if (l.mass == 0.0) o << "<link name=\"" << l.name << "\"/>\n";
                else o << "<link name=\"" << l.name << "\"><inertial><mass value=\"" << l.mass << "\"/><origin rpy=\"0 0 0\" xyz=\"" << l.com.transpose() << "\"/></inertial></link>\n";
                if (l.parent >= 0)
                    o << "<joint name=\"" << l.joint << "\" type=\"" << kinds[l.kind] << "\"><parent link=\"" << links[l.parent].name << "\"/><child link=\"" << l.name
                      << "\"/><origin rpy=\"" << l.angles.transpose() << "\" xyz=\"" << l.xyz.transpose() << "\"/><axis xyz=\"" << l.axis.transpose() << "\"/></joint>\n";
            }
            o << "</robot>\n";
            return o.str();
        }
    };

    inline V3 vec(const std::string &s) { std::stringstream i(s); V3 v(0, 0, 0); i >> v(0) >> v(1) >> v(2); return v; }
    inline Tree load(const std::string &file)
    {
        namespace pt = boost::property_tree;
        pt::ptree doc;
        pt::read_xml(file, doc);
        Tree t;
        const pt::ptree &robot = doc.get_child("robot");
        for (pt::ptree::const_iterator i = robot.begin(); i != robot.end(); ++i)
        {
            if (i->first != "link") continue;
            Link l;
            l.name = i->second.get<std::string>("<xmlattr>.name");
            l.mass = i->second.get<double>("inertial.mass.<xmlattr>.value", 0.0);
            l.com = vec(i->second.get<std::string>("inertial.origin.<xmlattr>.xyz", "0 0 0"));
            t.links.push_back(l);
        }
        for (pt::ptree::const_iterator i = robot.begin(); i != robot.end(); ++i)
        {
            if (i->first != "joint") continue;
            Link &l = t.links[t.find(i->second.get<std::string>("child.<xmlattr>.link"))];
            l.parent = t.find(i->second.get<std::string>("parent.<xmlattr>.link"));
            l.joint = i->second.get<std::string>("<xmlattr>.name");
            std::string k = i->second.get<std::string>("<xmlattr>.type");
            l.kind = k == "revolute" || k == "continuous" ? REVOLUTE : k == "prismatic" ? PRISMATIC : k == "floating" ? FLOATING : k == "planar" ? PLANAR : FIXED;
            l.xyz = vec(i->second.get<std::string>("origin.<xmlattr>.xyz", "0 0 0"));
            l.angles = vec(i->second.get<std::string>("origin.<xmlattr>.rpy", "0 0 0"));
            l.axis = vec(i->second.get<std::string>("axis.<xmlattr>.xyz", "1 0 0"));
            l.lower = i->second.get<double>("limit.<xmlattr>.lower", 0); l.upper = i->second.get<double>("limit.<xmlattr>.upper", 0);
            l.velocity = i->second.get<double>("limit.<xmlattr>.velocity", 0);
            l.limits = i->second.count("limit") > 0;
        }
        t.finish();
        return t;
    }
}
