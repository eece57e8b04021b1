// A model of the part of yaml-cpp that the adapter uses. The native replays of the checks use the real library.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace YAML {
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
class Node {
  struct D; std::shared_ptr<D> p;
public:
  struct IV; struct Proxy;
  class const_iterator { const Node *n = nullptr; size_t k = 0; friend class Node; public: const_iterator &operator++() { ++k; return *this; } const_iterator operator++(int) { const_iterator t(*this); ++k; return t; } inline IV operator*() const; inline Proxy operator->() const; bool operator==(const const_iterator &o) const { return k == o.k; } bool operator!=(const const_iterator &o) const { return k != o.k; } private: std::shared_ptr<D> d; };
  inline Node(); inline explicit Node(NodeType::value t); inline explicit Node(const std::string &s); Node(const Node &o) : p(o.p) {}
  inline bool IsNull() const; inline bool IsScalar() const; inline bool IsSequence() const; inline bool IsMap() const; inline size_t size() const;
  template <class T> T as() const; inline const_iterator begin() const; inline const_iterator end() const; inline void push_back(const Node &x); inline void force_insert(const std::string &k, const Node &v);
  friend inline Node Clone(const Node &n);
};
struct Node::D { NodeType::value t = NodeType::Null; std::string s; std::vector<Node> seq; std::vector<std::pair<Node, Node>> map; };
struct Node::IV : Node, std::pair<Node, Node> { explicit IV(const Node &n) : Node(n) {} IV(const Node &a, const Node &b) : std::pair<Node, Node>(a, b) {} };
struct Node::Proxy { IV v; const IV *operator->() const { return &v; } };
inline Node::Node() : p(std::make_shared<D>()) {} inline Node::Node(NodeType::value t) : Node() { p->t = t; } inline Node::Node(const std::string &s) : Node() { p->t = NodeType::Scalar; p->s = s; }
inline bool Node::IsNull() const { return p->t == NodeType::Null; } inline bool Node::IsScalar() const { return p->t == NodeType::Scalar; } inline bool Node::IsSequence() const { return p->t == NodeType::Sequence; } inline bool Node::IsMap() const { return p->t == NodeType::Map; } inline size_t Node::size() const { return p->t == NodeType::Sequence ? p->seq.size() : p->t == NodeType::Map ? p->map.size() : 0; }
template <class T> inline T Node::as() const { throw std::logic_error("conversion not modelled"); } template <> inline std::string Node::as<std::string>() const { if (p->t == NodeType::Scalar) return p->s; if (p->t == NodeType::Null) return "null"; throw std::runtime_error("bad conversion"); }
inline Node::const_iterator Node::begin() const { const_iterator r; r.d = p; return r; } inline Node::const_iterator Node::end() const { const_iterator r; r.d = p; r.k = size(); return r; } inline void Node::push_back(const Node &x) { p->t = NodeType::Sequence; p->seq.push_back(x); } inline void Node::force_insert(const std::string &k, const Node &v) { p->t = NodeType::Map; p->map.emplace_back(Node(k), v); }
inline Node::IV Node::const_iterator::operator*() const { if (d->t == NodeType::Sequence) return IV(d->seq.at(k)); return IV(d->map.at(k).first, d->map.at(k).second); } inline Node::Proxy Node::const_iterator::operator->() const { return Proxy{**this}; }
inline Node Clone(const Node &n) { Node r; r.p->t = n.p->t; r.p->s = n.p->s; for (auto &e : n.p->seq) r.p->seq.push_back(Clone(e)); for (auto &e : n.p->map) r.p->map.emplace_back(Clone(e.first), Clone(e.second)); return r; }
}
