// Stand-in of RBDL (the part of its interface which is used by humoto): spatial algebra, tree of bodies, forward
// kinematics; written from RBDL's documentation. Links which are attached with fixed joints become "fixed bodies",
// their inertia is joined with the one of their movable parents.
#pragma once

#include <string>
#include <vector>
#include <map>
#include <limits>
#include <stdexcept>
#include <fstream>
#include <sstream>

namespace RigidBodyDynamics
{
    namespace Math
    {
        typedef Eigen::Vector3d Vector3d;
        typedef Eigen::Matrix3d Matrix3d;
        typedef Eigen::VectorXd VectorNd;
        typedef Eigen::MatrixXd MatrixNd;
        typedef Eigen::Matrix<double, 6, 1> SpatialVector;
        typedef Eigen::Matrix<double, 6, 6> SpatialMatrix;
        typedef Eigen::Matrix<double, 6, 3> Matrix63;

        // E rotates from the parent's (base) frame to the frame of the body, r is the position in the parent frame
        struct SpatialTransform
        {
            Matrix3d E;
            Vector3d r;
            SpatialTransform() : E(Matrix3d::Identity()), r(Vector3d::Zero()) {}
            SpatialTransform(const Matrix3d &e, const Vector3d &p) : E(e), r(p) {}
            SpatialVector apply(const SpatialVector &v) const
            {
                Vector3d w = v.head<3>(), l = v.tail<3>(), t = l - r.cross(w);
                SpatialVector o;
                o << E * w, E * t;
                return o;
            }
            SpatialTransform inverse() const { return SpatialTransform(E.transpose(), -E * r); }
            SpatialMatrix toMatrix() const
            {
                Matrix3d rx;
                rx << 0, -r(2), r(1), r(2), 0, -r(0), -r(1), r(0), 0;
                SpatialMatrix m;
                m << E, Matrix3d::Zero(), -E * rx, E;
                return m;
            }
            SpatialTransform operator*(const SpatialTransform &o) const { return SpatialTransform(E * o.E, o.r + o.E.transpose() * r); }
        };
        inline Matrix3d rotAxis(const Vector3d &axis, double a)   // active rotation
        {
            return Eigen::AngleAxisd(a, axis).toRotationMatrix();
        }
    }

    enum JointType { JointTypeUndefined = 0, JointTypeRevolute, JointTypePrismatic, JointTypeEulerXYZ, JointTypeTranslationXYZ, JointTypeFixed, JointTypeCustom };

    struct Joint
    {
        JointType mJointType;
        unsigned int mDoFCount, q_index, custom_joint_index;
        Math::Vector3d axis;
        Joint(JointType t = JointTypeUndefined, unsigned int dof = 0) : mJointType(t), mDoFCount(dof), q_index(0), custom_joint_index((unsigned int) -1), axis(Math::Vector3d::Zero()) {}
    };
    struct CustomJoint
    {
        unsigned int mDoFCount;
        Math::MatrixNd S;
        bool planar;
    };
    struct Body
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        Body() : mMass(0.0), mCenterOfMass(Math::Vector3d::Zero()) {}
        Body(double m, const Math::Vector3d &c) : mMass(m), mCenterOfMass(c) {}
        void Join(const Math::SpatialTransform &t, const Body &o)
        {
            if (o.mMass == 0.0) return;
            Math::Vector3d c = t.E.transpose() * o.mCenterOfMass + t.r;
            mCenterOfMass = (mMass * mCenterOfMass + o.mMass * c) / (mMass + o.mMass);
            mMass += o.mMass;
        }
    };
    struct FixedBody
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        unsigned int mMovableParent;
        Math::SpatialTransform mParentTransform;
    };

    struct Settings
    {
        int floating;           // 0: six single joints, 1: TranslationXYZ + EulerXYZ, 2: a custom joint
        int loads, bad;
        Settings() : floating(0), loads(0), bad(0) {}
    };
    inline Settings &settings() { static Settings s; return s; }

    // access to bodies is checked (a vector in the real library, where wrong indices are undefined behaviour)
    template<class T> struct Checked : public std::vector<T>
    {
        T &operator[](size_t i) { test(i); return std::vector<T>::operator[](i); }
        const T &operator[](size_t i) const { test(i); return std::vector<T>::operator[](i); }
        void test(size_t i) const { if (i >= this->size()) throw std::out_of_range("RBDL stand-in: wrong index of a body"); }
    };

    struct Model
    {
        Checked<unsigned int> lambda;
        Checked<Joint> mJoints;
        Checked<Body> mBodies;
        Checked<Math::SpatialTransform> X_base, X_lambda, X_T;
        Checked<Math::SpatialVector> S;
        Checked<Math::Matrix63> multdof3_S;
        Checked<FixedBody> mFixedBodies;
        std::vector<CustomJoint *> mCustomJoints;
        std::vector<CustomJoint> custom_storage;
        unsigned int fixed_body_discriminator, q_size, dof_count;
        std::map<std::string, unsigned int> mBodyNameMap;

        Model() : fixed_body_discriminator(std::numeric_limits<unsigned int>::max() / 2), q_size(0), dof_count(0)
        {
            push(0, Joint(), Body(), Math::SpatialTransform());
            mBodyNameMap["ROOT"] = 0;
        }
        Model(const Model &o) { *this = o; }
        Model &operator=(const Model &o)
        {
            lambda = o.lambda; mJoints = o.mJoints; mBodies = o.mBodies; X_base = o.X_base; X_lambda = o.X_lambda; X_T = o.X_T; S = o.S;
            multdof3_S = o.multdof3_S; mFixedBodies = o.mFixedBodies; custom_storage = o.custom_storage;
            fixed_body_discriminator = o.fixed_body_discriminator; q_size = o.q_size; dof_count = o.dof_count; mBodyNameMap = o.mBodyNameMap;
            link();
            return *this;
        }
        void link()
        {
            mCustomJoints.clear();
            for (size_t i = 0; i < custom_storage.size(); ++i) mCustomJoints.push_back(&custom_storage[i]);
        }
        unsigned int push(unsigned int parent, Joint j, const Body &b, const Math::SpatialTransform &t)
        {
            unsigned int id = mBodies.size();
            j.q_index = q_size;
            unsigned int dof = j.mDoFCount;
            if (j.mJointType == JointTypeCustom) dof = custom_storage[j.custom_joint_index].mDoFCount;
            q_size += dof; dof_count += dof;
            lambda.push_back(parent); mJoints.push_back(j); mBodies.push_back(b); X_T.push_back(t);
            X_base.push_back(Math::SpatialTransform()); X_lambda.push_back(Math::SpatialTransform());
            Math::SpatialVector s = Math::SpatialVector::Zero();
            if (j.mJointType == JointTypeRevolute) s.head<3>() = j.axis;
            if (j.mJointType == JointTypePrismatic) s.tail<3>() = j.axis;
            S.push_back(s);
            multdof3_S.push_back(Math::Matrix63::Zero());
            return id;
        }
        // resolves fixed parents as AddBody() of RBDL does
        unsigned int add(unsigned int parent, const Math::SpatialTransform &frame, const Joint &j, const Body &b, const std::string &name)
        {
            Math::SpatialTransform t = frame;
            if (parent >= fixed_body_discriminator)
            {
                const FixedBody &f = mFixedBodies[parent - fixed_body_discriminator];
                t = frame * f.mParentTransform;
                parent = f.mMovableParent;
            }
            unsigned int id;
            if (j.mJointType == JointTypeFixed)
            {
                FixedBody f;
                f.mMass = b.mMass; f.mCenterOfMass = b.mCenterOfMass; f.mMovableParent = parent; f.mParentTransform = t;
                if (parent != 0) mBodies[parent].Join(t, b);
                mFixedBodies.push_back(f);
                id = fixed_body_discriminator + mFixedBodies.size() - 1;
            }
            else id = push(parent, j, b, t);
            if (!name.empty())
            {
                if (mBodyNameMap.count(name)) throw std::runtime_error("RBDL stand-in: a body with name '" + name + "' already exists");
                mBodyNameMap[name] = id;
            }
            return id;
        }
        unsigned int GetBodyId(const char *name) const
        {
            std::map<std::string, unsigned int>::const_iterator i = mBodyNameMap.find(name);
            return i == mBodyNameMap.end() ? std::numeric_limits<unsigned int>::max() : i->second;
        }
    };

    inline Math::SpatialTransform activeTransform(const Math::Matrix3d &R, const Math::Vector3d &p) { return Math::SpatialTransform(R.transpose(), p); }

    inline void UpdateKinematicsCustom(Model &m, const Eigen::VectorXd *q, const Eigen::VectorXd *qd, const Eigen::VectorXd *qdd)
    {
        if (q == NULL || qd != NULL || qdd != NULL) { ++settings().bad; return; }
        if (q->size() != (long) m.q_size) throw std::out_of_range("RBDL stand-in: wrong number of coordinates");
        const Eigen::VectorXd &Q = *q;
        for (size_t i = 1; i < m.mBodies.size(); ++i)
        {
            const Joint &j = m.mJoints[i];
            Math::SpatialTransform x;
            unsigned int k = j.q_index;
            switch (j.mJointType)
            {
                case JointTypeRevolute: x = activeTransform(Math::rotAxis(j.axis, Q(k)), Math::Vector3d::Zero()); break;
                case JointTypePrismatic: x = activeTransform(Math::Matrix3d::Identity(), j.axis * Q(k)); break;
                case JointTypeTranslationXYZ:
                    x = activeTransform(Math::Matrix3d::Identity(), Q.segment(k, 3));
                    m.multdof3_S[i].setZero(); m.multdof3_S[i].bottomRows(3).setIdentity();
                    break;
                case JointTypeEulerXYZ:
                {
                    x = activeTransform(Math::rotAxis(Math::Vector3d::UnitX(), Q(k)) * Math::rotAxis(Math::Vector3d::UnitY(), Q(k+1)) * Math::rotAxis(Math::Vector3d::UnitZ(), Q(k+2)), Math::Vector3d::Zero());
                    double s1 = std::sin(Q(k+1)), c1 = std::cos(Q(k+1)), s2 = std::sin(Q(k+2)), c2 = std::cos(Q(k+2));
                    Math::Matrix63 &s = m.multdof3_S[i];
                    s.setZero();
                    s(0, 0) = c2 * c1; s(0, 1) = s2; s(1, 0) = -s2 * c1; s(1, 1) = c2; s(2, 0) = s1; s(2, 2) = 1;
                    break;
                }
                case JointTypeCustom:
                {
                    CustomJoint &cj = m.custom_storage[j.custom_joint_index];
                    Math::Matrix3d R;
                    Math::Vector3d p;
                    cj.S.setZero(6, cj.mDoFCount);
                    if (cj.planar)
                    {
                        R = Math::rotAxis(Math::Vector3d::UnitZ(), Q(k+2)); p << Q(k), Q(k+1), 0;
                        cj.S.block(3, 0, 3, 2) = R.transpose().leftCols(2);
                        cj.S(2, 2) = 1;
                    }
                    else
                    {
                        Math::Matrix3d Rx = Math::rotAxis(Math::Vector3d::UnitX(), Q(k+3)), Ry = Math::rotAxis(Math::Vector3d::UnitY(), Q(k+4)), Rz = Math::rotAxis(Math::Vector3d::UnitZ(), Q(k+5));
                        R = Rx * Ry * Rz; p = Q.segment(k, 3);
                        cj.S.block(3, 0, 3, 3) = R.transpose();
                        cj.S.block(0, 3, 3, 1) = R.transpose() * Math::Vector3d::UnitX();
                        cj.S.block(0, 4, 3, 1) = R.transpose() * Rx * Math::Vector3d::UnitY();
                        cj.S.block(0, 5, 3, 1) = Math::Vector3d::UnitZ();
                    }
                    x = activeTransform(R, p);
                    break;
                }
                default: break;
            }
            m.X_lambda[i] = x * m.X_T[i];
            m.X_base[i] = m.lambda[i] == 0 ? m.X_lambda[i] : m.X_lambda[i] * m.X_base[m.lambda[i]];
        }
    }
}
