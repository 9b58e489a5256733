// Stand-in of the URDF reader of RBDL: joints are added depth-first in the alphabetical order of their names.
#pragma once
namespace RigidBodyDynamics
{
    namespace urdf
    {
        struct Element { std::string tag; std::map<std::string, std::string> attr; std::vector<Element> sub;
            const Element *find(const std::string &t) const { for (size_t i = 0; i < sub.size(); ++i) if (sub[i].tag == t) return &sub[i]; return NULL; }
            std::string get(const std::string &a, const std::string &d = "") const { std::map<std::string, std::string>::const_iterator i = attr.find(a); return i == attr.end() ? d : i->second; } };

        inline bool parse(const std::string &s, size_t &p, Element &parent)
        {
            while (true)
            {
                p = s.find('<', p);
                if (p == std::string::npos) return parent.tag.empty();
                if (s.compare(p, 4, "<!--") == 0) { p = s.find("-->", p); if (p == std::string::npos) return false; continue; }
                if (s[p + 1] == '?') { p = s.find("?>", p); if (p == std::string::npos) return false; continue; }
                if (s[p + 1] == '/')
                {
                    size_t e = s.find('>', p);
                    if (e == std::string::npos || s.substr(p + 2, e - p - 2) != parent.tag) return false;
                    p = e + 1;
                    return true;
                }
                Element el;
                size_t i = p + 1;
                while (i < s.size() && !isspace((unsigned char) s[i]) && s[i] != '>' && s[i] != '/') el.tag += s[i++];
                bool closed = false;
                while (true)
                {
                    while (i < s.size() && isspace((unsigned char) s[i])) ++i;
                    if (i >= s.size()) return false;
                    if (s[i] == '>') { ++i; break; }
                    if (s[i] == '/') { closed = true; ++i; continue; }
                    std::string name, value;
                    while (i < s.size() && s[i] != '=') name += s[i++];
                    if (i + 1 >= s.size()) return false;
                    char quote = s[i + 1];
                    i += 2;
                    while (i < s.size() && s[i] != quote) value += s[i++];
                    ++i;
                    el.attr[name] = value;
                }
                p = i;
                if (!closed && !parse(s, p, el)) return false;
                parent.sub.push_back(el);
            }
        }
        inline Math::Vector3d vec(const std::string &s)
        {
            std::stringstream i(s);
            Math::Vector3d v(0, 0, 0);
            i >> v(0) >> v(1) >> v(2);
            return v;
        }
        struct Origin
        {
            Math::Matrix3d R; Math::Vector3d p;
            explicit Origin(const Element *e)
            {
                const Element *o = e == NULL ? NULL : e->find("origin");
                Math::Vector3d rpy = o ? vec(o->get("rpy", "0 0 0")) : Math::Vector3d(0, 0, 0);
                p = o ? vec(o->get("xyz", "0 0 0")) : Math::Vector3d(0, 0, 0);
                R = Math::rotAxis(Math::Vector3d::UnitZ(), rpy(2)) * Math::rotAxis(Math::Vector3d::UnitY(), rpy(1)) * Math::rotAxis(Math::Vector3d::UnitX(), rpy(0));
            }
        };
        struct Robot
        {
            std::map<std::string, const Element *> links, joints;
            static Body body(const Element *link)
            {
                const Element *in = link->find("inertial");
                if (in == NULL || in->find("mass") == NULL) return Body();
                return Body(atof(in->find("mass")->get("value").c_str()), Origin(in).p);
            }
            Joint single(JointType t, const Math::Vector3d &a) const { Joint j(t, 1); j.axis = a.normalized(); return j; }
            unsigned int floating(Model &m, unsigned int parent, const Math::SpatialTransform &f, const Body &b, const std::string &name) const
            {
                const Math::SpatialTransform id;
                if (settings().floating == 2)
                {
                    CustomJoint cj; cj.mDoFCount = 6; cj.planar = false; cj.S.setZero(6, 6);
                    m.custom_storage.push_back(cj); m.link();
                    Joint j(JointTypeCustom, 6); j.custom_joint_index = m.custom_storage.size() - 1;
                    return m.add(parent, f, j, b, name);
                }
                if (settings().floating == 1)
                {
                    unsigned int i = m.add(parent, f, Joint(JointTypeTranslationXYZ, 3), Body(), "");
                    return m.add(i, id, Joint(JointTypeEulerXYZ, 3), b, name);
                }
                unsigned int i = m.add(parent, f, single(JointTypePrismatic, Math::Vector3d::UnitX()), Body(), "");
                i = m.add(i, id, single(JointTypePrismatic, Math::Vector3d::UnitY()), Body(), "");
                i = m.add(i, id, single(JointTypePrismatic, Math::Vector3d::UnitZ()), Body(), "");
                i = m.add(i, id, single(JointTypeRevolute, Math::Vector3d::UnitX()), Body(), "");
                i = m.add(i, id, single(JointTypeRevolute, Math::Vector3d::UnitY()), Body(), "");
                return m.add(i, id, single(JointTypeRevolute, Math::Vector3d::UnitZ()), b, name);
            }
            unsigned int planar(Model &m, unsigned int parent, const Math::SpatialTransform &f, const Body &b, const std::string &name) const
            {
                const Math::SpatialTransform id;
                if (settings().floating == 2)
                {
                    CustomJoint cj; cj.mDoFCount = 3; cj.planar = true; cj.S.setZero(6, 3);
                    m.custom_storage.push_back(cj); m.link();
                    Joint j(JointTypeCustom, 3); j.custom_joint_index = m.custom_storage.size() - 1;
                    return m.add(parent, f, j, b, name);
                }
                unsigned int i = m.add(parent, f, single(JointTypePrismatic, Math::Vector3d::UnitX()), Body(), "");
                i = m.add(i, id, single(JointTypePrismatic, Math::Vector3d::UnitY()), Body(), "");
                return m.add(i, id, single(JointTypeRevolute, Math::Vector3d::UnitZ()), b, name);
            }
            bool descend(Model &m, const std::string &link, unsigned int id) const
            {
                for (std::map<std::string, const Element *>::const_iterator i = joints.begin(); i != joints.end(); ++i)
                {
                    const Element *j = i->second;
                    if (j->find("parent")->get("link") != link) continue;
                    std::string child = j->find("child")->get("link"), type = j->get("type");
                    if (!links.count(child)) return false;
                    Origin o(j);
                    Math::SpatialTransform f = activeTransform(o.R, o.p);
                    Body b = body(links.find(child)->second);
                    Math::Vector3d axis = j->find("axis") ? vec(j->find("axis")->get("xyz")) : Math::Vector3d::UnitX();
                    unsigned int k;
                    if (type == "revolute" || type == "continuous") k = m.add(id, f, single(JointTypeRevolute, axis), b, child);
                    else if (type == "prismatic") k = m.add(id, f, single(JointTypePrismatic, axis), b, child);
                    else if (type == "fixed") k = m.add(id, f, Joint(JointTypeFixed, 0), b, child);
                    else if (type == "floating") k = floating(m, id, f, b, child);
                    else if (type == "planar") k = planar(m, id, f, b, child);
                    else return false;
                    if (!descend(m, child, k)) return false;
                }
                return true;
            }
        };
    }

    namespace Addons
    {
        inline bool URDFReadFromFile(const char *filename, Model *model, bool floating_base, bool verbose)
        {
            ++settings().loads;
            std::ifstream in(filename);
            if (!in) return false;
            std::stringstream ss; ss << in.rdbuf();
            std::string text = ss.str();
            urdf::Element doc;
            size_t p = 0;
            if (!urdf::parse(text, p, doc) || doc.find("robot") == NULL) return false;
            const urdf::Element *robot = doc.find("robot");
            urdf::Robot r;
            std::map<std::string, int> children;
            for (size_t i = 0; i < robot->sub.size(); ++i)
            {
                const urdf::Element &e = robot->sub[i];
                if (e.tag == "link") r.links[e.get("name")] = &e;
                if (e.tag == "joint") { r.joints[e.get("name")] = &e; children[e.find("child")->get("link")] = 1; }
            }
            std::string root;
            for (std::map<std::string, const urdf::Element *>::iterator i = r.links.begin(); i != r.links.end(); ++i) if (!children.count(i->first)) { if (!root.empty()) return false; root = i->first; }
            if (root.empty()) return false;
            // a root which has its own floating joint does not need another one
            bool own = false;
            for (std::map<std::string, const urdf::Element *>::iterator i = r.joints.begin(); i != r.joints.end(); ++i)
                if (i->second->find("parent")->get("link") == root && i->second->get("type") == "floating") own = true;
            Body b = urdf::Robot::body(r.links[root]);
            unsigned int id = floating_base && !own ? r.floating(*model, 0, Math::SpatialTransform(), b, root) : model->add(0, Math::SpatialTransform(), Joint(JointTypeFixed, 0), b, root);
            return r.descend(*model, root, id);
        }
    }
}
