// model of yaml-cpp: a document is a tree given by the harness (stub::yaml()[path]); reading takes place from the stand-in for std::ifstream
#pragma once
#include <cstdlib>
#include <functional>
#include <istream>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace YAML {
struct Exception : std::runtime_error { Exception() : std::runtime_error("yaml") {} };
typedef Exception ParserException; typedef Exception BadFile; typedef Exception BadConversion;
struct Node {
  int kind = 0; double num = 0; std::string str; std::vector<Node> seq; std::vector<std::string> keys;  // 0 null, 1 number, 2 string, 3 sequence, 4 map
  Node() {} static Node scalar(double d) { Node n; n.kind = 1; n.num = d; return n; } static Node scalar(const std::string& s) { Node n; n.kind = 2; n.str = s; return n; } static Node list(const std::vector<Node>& v) { Node n; n.kind = 3; n.seq = v; return n; }
  Node& put(const std::string& k, const Node& v) { kind = 4; keys.push_back(k); seq.push_back(v); return *this; }
  const Node operator[](const std::string& k) const { for (size_t i = 0; i < keys.size(); i++) if (keys[i] == k) return seq[i]; return Node(); }
  const Node operator[](const char* k) const { return (*this)[std::string(k)]; }
  const Node operator[](int i) const { return kind == 3 && i >= 0 && (size_t)i < seq.size() ? seq[i] : Node(); }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value, T>::type as() const { if (kind != 1) std::abort(); return (T)num; }
  template <class T> typename std::enable_if<std::is_same<T, std::string>::value, T>::type as() const { if (kind != 2) std::abort(); return str; }
  template <class T> T as(const T& d) const { return kind == 0 ? d : as<T>(); }
  typedef std::vector<Node>::const_iterator const_iterator; typedef const_iterator iterator;
  const_iterator begin() const { return seq.begin(); } const_iterator end() const { return seq.end(); }
  size_t size() const { return seq.size(); } bool IsNull() const { return kind == 0; } bool IsDefined() const { return kind != 0; } bool IsSequence() const { return kind == 3; } bool IsMap() const { return kind == 4; } bool IsScalar() const { return kind == 1 || kind == 2; } explicit operator bool() const { return kind != 0; } bool operator!() const { return kind == 0; }
};
typedef Node::const_iterator const_iterator; typedef Node::const_iterator iterator;
}
namespace stub { inline std::map<std::string, YAML::Node>& yaml() { static std::map<std::string, YAML::Node> m; return m; } }
namespace YAML {
template <class S> auto Load(S& s) -> decltype((void)s.stub_path, Node()) { auto i = stub::yaml().find(s.stub_path); return i == stub::yaml().end() ? Node() : i->second; }
inline Node Load(std::istream&) { return Node(); }
inline Node LoadFile(const std::string& p) { auto i = stub::yaml().find(p); if (i == stub::yaml().end()) throw BadFile(); return i->second; }
}
