// The YAML bridge is written for yaml-cpp 0.3, the installed library is 0.8. This header offers the part of the 0.3
// interface which the bridge uses on top of the installed library (parsing and emitting is done by the real library).
// Put this directory before the system include directories.
#pragma once
#include_next <yaml-cpp/yaml.h>
#include <istream>
#include <list>
#include <map>
#include <string>
#include <vector>

namespace Yaml03
{
    using ::YAML::Emitter;
    using ::YAML::BeginMap;
    using ::YAML::EndMap;
    using ::YAML::BeginSeq;
    using ::YAML::EndSeq;
    using ::YAML::Flow;
    using ::YAML::Block;
    using ::YAML::Key;
    using ::YAML::Value;
    using ::YAML::Newline;

    struct NodeType { enum value { Null, Scalar, Sequence, Map }; };

    class Node
    {
        public:
            Node() {}
            explicit Node(const ::YAML::Node &n) : n_(n) {}

            NodeType::value Type() const
            {
                if (n_.IsScalar()) return NodeType::Scalar;
                if (n_.IsSequence()) return NodeType::Sequence;
                if (n_.IsMap()) return NodeType::Map;
                return NodeType::Null;
            }

            // 0.3: number of entries of a sequence or a map, 0 for anything else
            std::size_t size() const
            {
                return (n_.IsSequence() || n_.IsMap()) ? n_.size() : 0;
            }

            // 0.3: NULL if there is no such key or if the node is not a map
            const Node *FindValue(const std::string &key) const
            {
                if (!n_.IsMap()) return NULL;
                for (::YAML::const_iterator it = n_.begin(); it != n_.end(); ++it)
                {
                    if (it->first.IsScalar() && it->first.Scalar() == key)
                    {
                        children_.push_back(Node(it->second));
                        return &children_.back();
                    }
                }
                return NULL;
            }

            // 0.3: throws for an unknown key
            template <class T> const Node &operator[](const T &i) const
            {
                if (!n_.IsSequence() || static_cast<std::size_t>(i) >= n_.size()) throw ::YAML::Exception(n_.Mark(), "key not found");
                children_.push_back(Node(n_[static_cast<std::size_t>(i)]));
                return children_.back();
            }

            template <class T> void get(T &v) const
            {
                if (!n_.IsScalar()) throw ::YAML::Exception(n_.Mark(), "invalid scalar");
                v = n_.as<T>();
            }
            void assign(const ::YAML::Node &n) { n_.reset(n); children_.clear(); }

        private:
            ::YAML::Node n_;
            mutable std::list<Node> children_;
    };

    template <class T> void operator>>(const Node &n, T &v) { n.get(v); }
    template <class T> void operator>>(const Node &n, std::vector<T> &v)
    {
        v.clear();
        v.resize(n.size());
        for (std::size_t i = 0; i < v.size(); ++i) n[i] >> v[i];
    }

    class Parser
    {
        public:
            void Load(std::istream &in) { docs_ = ::YAML::LoadAll(in); next_ = 0; }
            bool GetNextDocument(Node &n)
            {
                if (next_ >= docs_.size()) { n.assign(::YAML::Node()); return false; }
                n.assign(docs_[next_++]);
                return true;
            }
        private:
            std::vector< ::YAML::Node> docs_;
            std::size_t next_;
    };
}
#define YAML Yaml03
