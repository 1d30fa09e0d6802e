// An in-memory emulation of the part of the HighFive C++ interface to HDF5 that brille uses.
//
// HighFive and HDF5 are not installed in this sandbox, and most of brille's headers include
// brille/hdf_interface.hpp, so without a stand-in none of them can be compiled.  This one keeps
// each "file" as a tree in a process-global map keyed by file name.  It is strict where HDF5 is:
// creating an existing object, reading a missing one, reading into a container of the wrong rank
// or extent, or between non-convertible types throws.  It is not brille code and no property is
// judged by looking inside it.
#pragma once
#include <cassert>
#include <array>
#include <complex>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>

namespace HighFive {

class Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
enum class ObjectType { File, Group, Dataset, Attribute, Other };

struct DataType {};
template<class T> struct AtomicType : public DataType {};
struct CompoundMember { std::string name; DataType type; 
  CompoundMember(const char* n, DataType t): name(n), type(t) {} };
struct CompoundType : public DataType {
  CompoundType(std::initializer_list<CompoundMember>) {}
};
template<class T> struct EnumType : public DataType {
  struct member { std::string name; T value; member(const char* n, T v): name(n), value(v) {} };
  EnumType(std::initializer_list<member>) {}
};
template<class T> DataType create_datatype();
template<class T> DataType create_datatype() { return DataType{}; }

namespace mem {
  enum class Kind { sint, uint, flt, other };
  template<class T> constexpr Kind kind() {
    if constexpr (std::is_same_v<T,bool>) return Kind::uint;
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) return Kind::sint;
    else if constexpr (std::is_integral_v<T>) return Kind::uint;
    else if constexpr (std::is_floating_point_v<T>) return Kind::flt;
    else return Kind::other;
  }
  struct Value {
    bool set{false};
    Kind kind{Kind::other};
    std::type_index type{typeid(void)};
    size_t width{0};
    std::vector<size_t> dims;
    std::vector<unsigned char> bytes;
    size_t count() const { size_t n{1}; for (auto d: dims) n *= d; return n; }
  };
  struct Node {
    bool group{true};
    std::map<std::string, std::shared_ptr<Node>> children;
    std::map<std::string, Value> attrs;
    Value data;
  };
  using NodeP = std::shared_ptr<Node>;
  inline std::map<std::string, NodeP>& files() { static std::map<std::string, NodeP> f; return f; }

  inline std::vector<std::string> split(const std::string& p) {
    std::vector<std::string> out; std::string cur;
    for (char c: p) { if (c=='/') { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) out.push_back(cur);
    return out;
  }
  inline NodeP find(const NodeP& n, const std::string& path) {
    NodeP c = n;
    for (const auto& s: split(path)) {
      if (!c || !c->group) return nullptr;
      auto it = c->children.find(s);
      if (it == c->children.end()) return nullptr;
      c = it->second;
    }
    return c;
  }
  inline NodeP make(const NodeP& n, const std::string& path, bool group) {
    auto parts = split(path);
    if (parts.empty()) throw Exception("empty object name");
    NodeP c = n;
    for (size_t i=0; i<parts.size(); ++i) {
      if (!c->group) throw Exception("object '" + path + "' can not be created below a dataset");
      auto it = c->children.find(parts[i]);
      if (i+1 == parts.size()) {
        if (it != c->children.end()) throw Exception("object '" + path + "' exists already");
        auto k = std::make_shared<Node>(); k->group = group;
        c->children.emplace(parts[i], k);
        return k;
      }
      if (it == c->children.end()) it = c->children.emplace(parts[i], std::make_shared<Node>()).first;
      c = it->second;
    }
    return c;
  }
  inline void drop(const NodeP& n, const std::string& path) {
    auto parts = split(path);
    NodeP c = n;
    for (size_t i=0; i+1<parts.size(); ++i) {
      auto it = c->children.find(parts[i]);
      if (it == c->children.end()) throw Exception("no object '" + path + "' to unlink");
      c = it->second;
    }
    if (parts.empty() || !c->children.erase(parts.back())) throw Exception("no object '" + path + "' to unlink");
  }

  // ---- flattening of nested std::vector / std::array / scalars
  template<class T> struct inspect {
    using base = T;
    static constexpr size_t rank = 0;
    static void dims(const T&, std::vector<size_t>&) {}
    static void check(const T&, const size_t*) {}
    static void put(const T& t, std::vector<base>& out) { out.push_back(t); }
    static void prepare(T&, const size_t*) {}
    static void get(T& t, const base*& in) { t = *in++; }
  };
  template<class T, class A> struct inspect<std::vector<T,A>> {
    using base = typename inspect<T>::base;
    static constexpr size_t rank = 1 + inspect<T>::rank;
    static void dims(const std::vector<T,A>& v, std::vector<size_t>& d) {
      d.push_back(v.size());
      if (v.empty()) { for (size_t i=1; i<rank; ++i) d.push_back(0); }
      else { T first = v.front(); inspect<T>::dims(first, d); }
    }
    static void check(const std::vector<T,A>& v, const size_t* d) {
      if (v.size() != *d) throw Exception("ragged nested container can not be stored in one dataset");
      for (const auto& x: v) inspect<T>::check(x, d+1);
    }
    static void put(const std::vector<T,A>& v, std::vector<base>& out) { for (const auto& x: v) inspect<T>::put(x, out); }
    static void prepare(std::vector<T,A>& v, const size_t* d) { v.clear(); v.resize(*d); for (auto& x: v) inspect<T>::prepare(x, d+1); }
    static void get(std::vector<T,A>& v, const base*& in) { for (auto& x: v) inspect<T>::get(x, in); }
  };
  template<class T, size_t N> struct inspect<std::array<T,N>> {
    using base = typename inspect<T>::base;
    static constexpr size_t rank = 1 + inspect<T>::rank;
    static void dims(const std::array<T,N>& v, std::vector<size_t>& d) { d.push_back(N); inspect<T>::dims(v[0], d); }
    static void check(const std::array<T,N>& v, const size_t* d) { for (const auto& x: v) inspect<T>::check(x, d+1); }
    static void put(const std::array<T,N>& v, std::vector<base>& out) { for (const auto& x: v) inspect<T>::put(x, out); }
    static void prepare(std::array<T,N>& v, const size_t* d) {
      if (*d != N) throw Exception("stored extent does not match the std::array it is read into");
      for (auto& x: v) inspect<T>::prepare(x, d+1);
    }
    static void get(std::array<T,N>& v, const base*& in) { for (auto& x: v) inspect<T>::get(x, in); }
  };

  template<class B> void convert(const Value& v, B* out, size_t n) {
    if (v.type == std::type_index(typeid(B)) && v.width == sizeof(B)) {
      if (n) std::memcpy(static_cast<void*>(out), v.bytes.data(), n*sizeof(B));
      return;
    }
    if constexpr (kind<B>() != Kind::other) {
      if (v.kind == Kind::other) throw Exception("stored type can not be converted to the type it is read as");
      for (size_t i=0; i<n; ++i) {
        const unsigned char* p = v.bytes.data() + i*v.width;
        if (v.kind == Kind::flt) {
          if (v.width == sizeof(double)) { double d; std::memcpy(&d, p, sizeof d); out[i] = static_cast<B>(d); }
          else { float d; std::memcpy(&d, p, sizeof d); out[i] = static_cast<B>(d); }
        } else if (v.kind == Kind::sint) {
          long long x{0};
          switch (v.width) { case 1: { signed char y; std::memcpy(&y,p,1); x=y; break; } case 2: { short y; std::memcpy(&y,p,2); x=y; break; }
                             case 4: { int y; std::memcpy(&y,p,4); x=y; break; } default: std::memcpy(&x,p,8); }
          out[i] = static_cast<B>(x);
        } else {
          unsigned long long x{0};
          std::memcpy(&x, p, v.width);
          out[i] = static_cast<B>(x);
        }
      }
    } else throw Exception("stored type is not the type it is read as");
  }
  template<class T> Value store(const T& t) {
    using I = inspect<T>;
    using B = typename I::base;
    static_assert(std::is_trivially_copyable_v<B>, "only trivially copyable elements can be stored");
    Value v; v.set = true; v.kind = kind<B>(); v.type = std::type_index(typeid(B)); v.width = sizeof(B);
    I::dims(t, v.dims);
    I::check(t, v.dims.data());
    std::vector<B> flat; I::put(t, flat);
    v.bytes.resize(flat.size()*sizeof(B));
    if (!flat.empty()) std::memcpy(v.bytes.data(), flat.data(), v.bytes.size());
    return v;
  }
  template<> inline Value store<std::vector<bool>>(const std::vector<bool>&) { throw Exception("std::vector<bool> unsupported"); }
  template<class T> void load(const Value& v, T& t) {
    using I = inspect<T>;
    using B = typename I::base;
    if (!v.set) throw Exception("no stored value");
    if (v.dims.size() != I::rank) throw Exception("stored rank does not match the container it is read into");
    I::prepare(t, v.dims.data());
    std::vector<B> flat(v.count());
    convert<B>(v, flat.data(), flat.size());
    const B* p = flat.data();
    I::get(t, p);
  }
} // namespace mem

class Object {
protected:
  mem::NodeP node_;
public:
  Object() = default;
  explicit Object(mem::NodeP n): node_(std::move(n)) {}
  bool isValid() const { return static_cast<bool>(node_); }
  mem::NodeP node() const { return node_; }
};

class Attribute : public Object {
  std::string name_;
public:
  Attribute(mem::NodeP n, std::string name): Object(std::move(n)), name_(std::move(name)) {}
  template<class T> void read(T& t) const { mem::load(node_->attrs.at(name_), t); }
  template<class T> T read() const { T t{}; read(t); return t; }
};

template<class D> class Annotate {
  const mem::NodeP n() const { return static_cast<const D*>(this)->node(); }
public:
  template<class T> Attribute createAttribute(const std::string& name, const T& t) {
    if (n()->attrs.count(name)) throw Exception("attribute '" + name + "' exists already");
    n()->attrs.emplace(name, mem::store(t));
    return Attribute(n(), name);
  }
  bool hasAttribute(const std::string& name) const { return n()->attrs.count(name) > 0; }
  Attribute getAttribute(const std::string& name) const {
    if (!hasAttribute(name)) throw Exception("no attribute '" + name + "'");
    return Attribute(n(), name);
  }
};

class DataSet : public Object, public Annotate<DataSet> {
public:
  using Object::Object;
  std::vector<size_t> getDimensions() const { return node_->data.dims; }
  size_t getElementCount() const { return node_->data.count(); }
  template<class T> std::enable_if_t<!std::is_pointer_v<T>> read(T& t) const { mem::load(node_->data, t); }
  template<class T> void read(T* t) const {
    if (!node_->data.set) throw Exception("no stored value");
    mem::convert<T>(node_->data, t, node_->data.count());
  }
  template<class T> T read() const { T t{}; mem::load(node_->data, t); return t; }
};

class Group;
template<class D> class Container {
  const mem::NodeP n() const { return static_cast<const D*>(this)->node(); }
public:
  bool exist(const std::string& name, bool = true) const { return static_cast<bool>(mem::find(n(), name)); }
  void unlink(const std::string& name) const { mem::drop(n(), name); }
  ObjectType getObjectType(const std::string& name) const {
    auto x = mem::find(n(), name);
    if (!x) throw Exception("no object '" + name + "'");
    return x->group ? ObjectType::Group : ObjectType::Dataset;
  }
  Group createGroup(const std::string& name, bool parents=true);
  Group getGroup(const std::string& name) const;
  template<class T> DataSet createDataSet(const std::string& name, const T& t) {
    auto v = mem::store(t);
    auto x = mem::make(n(), name, false);
    x->data = std::move(v);
    return DataSet(x);
  }
  DataSet getDataSet(const std::string& name) const {
    auto x = mem::find(n(), name);
    if (!x || x->group) throw Exception("no dataset '" + name + "'");
    return DataSet(x);
  }
  std::vector<std::string> listObjectNames() const {
    std::vector<std::string> o; for (const auto& [k,v]: n()->children) o.push_back(k); return o;
  }
};

class Group : public Object, public Container<Group>, public Annotate<Group> {
public:
  using Object::Object;
};
template<class D> inline Group Container<D>::createGroup(const std::string& name, bool) { return Group(mem::make(n(), name, true)); }
template<class D> inline Group Container<D>::getGroup(const std::string& name) const {
  auto x = mem::find(n(), name);
  if (!x || !x->group) throw Exception("no group '" + name + "'");
  return Group(x);
}

class File : public Object, public Container<File>, public Annotate<File> {
  std::string name_;
public:
  enum : unsigned { ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u, Debug = 0x08u, Create = 0x10u,
                    Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
  explicit File(const std::string& name, unsigned flags = ReadOnly): name_(name) {
    auto& f = mem::files();
    auto it = f.find(name);
    if (it != f.end() && (flags & Excl)) throw Exception("file '" + name + "' exists");
    if (it == f.end() || (flags & Truncate)) {
      if (it == f.end() && !(flags & (Create | Truncate | Excl))) throw Exception("unable to open file '" + name + "'");
      f[name] = std::make_shared<mem::Node>();
    }
    node_ = f[name];
  }
  const std::string& getName() const { return name_; }
  void flush() {}
};

} // namespace HighFive
