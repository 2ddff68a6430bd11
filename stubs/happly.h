// Stand-in for the (absent, header-only) happly dependency: a PLY reader/writer with the subset of the happly API
// which geometry-central uses. Written for this verification framework; not part of geometry-central.
#pragma once
#include <array>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstring>
#include <type_traits>
#include <limits>

namespace happly {
enum class DataFormat { ASCII, Binary, BinaryBigEndian };

namespace detail {
template <class T> struct Name {};
#define HAPPLY_N(T, S)                                                                                                 \
  template <> struct Name<T> {                                                                                         \
    static std::string get() { return S; }                                                                            \
  };
HAPPLY_N(int8_t, "char") HAPPLY_N(uint8_t, "uchar") HAPPLY_N(int16_t, "short") HAPPLY_N(uint16_t, "ushort")
HAPPLY_N(int32_t, "int") HAPPLY_N(uint32_t, "uint") HAPPLY_N(float, "float") HAPPLY_N(double, "double")
#undef HAPPLY_N
// storage type for T
template <class T> struct Canon { typedef T type; };
template <> struct Canon<char> { typedef int8_t type; };
template <> struct Canon<bool> { typedef uint8_t type; };
template <> struct Canon<size_t> { typedef uint32_t type; };
template <> struct Canon<long long> { typedef int32_t type; };
template <> struct Canon<int64_t> { typedef int32_t type; };

struct Column {
  std::string name, type;
  bool isList = false;
  // every PLY scalar fits exactly in a double
  std::vector<double> flat;
  std::vector<size_t> start{0};
  size_t size() const { return isList ? start.size() - 1 : flat.size(); }
};

template <class T> void wr(std::ostream& o, double v, bool big) {
  T t = static_cast<T>(v);
  char b[sizeof(T)];
  std::memcpy(b, &t, sizeof(T));
  if (big)
    for (size_t i = 0; i < sizeof(T) / 2; i++) std::swap(b[i], b[sizeof(T) - 1 - i]);
  o.write(b, sizeof(T));
}
template <class T> double rd(std::istream& in, bool big) {
  char b[sizeof(T)];
  if (!in.read(b, sizeof(T))) throw std::runtime_error("PLY: unexpected end of file");
  if (big)
    for (size_t i = 0; i < sizeof(T) / 2; i++) std::swap(b[i], b[sizeof(T) - 1 - i]);
  T t;
  std::memcpy(&t, b, sizeof(T));
  return static_cast<double>(t);
}
inline std::string canonType(const std::string& t) {
  if (t == "int8") return "char";
  if (t == "uint8") return "uchar";
  if (t == "int16") return "short";
  if (t == "uint16") return "ushort";
  if (t == "int32") return "int";
  if (t == "uint32") return "uint";
  if (t == "float32") return "float";
  if (t == "float64") return "double";
  return t;
}
inline double readT(std::istream& in, const std::string& t, DataFormat f) {
  if (f == DataFormat::ASCII) {
    std::string s;
    if (!(in >> s)) throw std::runtime_error("PLY: unexpected end of file");
    return std::stod(s);
  }
  bool big = f == DataFormat::BinaryBigEndian;
  if (t == "char") return rd<int8_t>(in, big);
  if (t == "uchar") return rd<uint8_t>(in, big);
  if (t == "short") return rd<int16_t>(in, big);
  if (t == "ushort") return rd<uint16_t>(in, big);
  if (t == "int") return rd<int32_t>(in, big);
  if (t == "uint") return rd<uint32_t>(in, big);
  if (t == "float") return rd<float>(in, big);
  if (t == "double") return rd<double>(in, big);
  throw std::runtime_error("PLY: unknown type " + t);
}
inline void writeT(std::ostream& o, const std::string& t, double v, DataFormat f) {
  if (f == DataFormat::ASCII) {
    std::ostringstream s;
    s.precision(std::numeric_limits<double>::max_digits10);
    s << v;
    o << s.str();
    return;
  }
  bool big = f == DataFormat::BinaryBigEndian;
  if (t == "char") wr<int8_t>(o, v, big);
  else if (t == "uchar") wr<uint8_t>(o, v, big);
  else if (t == "short") wr<int16_t>(o, v, big);
  else if (t == "ushort") wr<uint16_t>(o, v, big);
  else if (t == "int") wr<int32_t>(o, v, big);
  else if (t == "uint") wr<uint32_t>(o, v, big);
  else if (t == "float") wr<float>(o, v, big);
  else wr<double>(o, v, big);
}
} // namespace detail

class Element {
public:
  Element(const std::string& n = "", size_t c = 0) : name(n), count(c) {}
  std::string name;
  size_t count;
  std::vector<detail::Column> cols;

  bool hasProperty(const std::string& p) const {
    for (auto& c : cols)
      if (c.name == p) return true;
    return false;
  }
  detail::Column& col(const std::string& p) {
    for (auto& c : cols)
      if (c.name == p) return c;
    throw std::runtime_error("PLY parser: element " + name + " does not have property " + p);
  }
  std::vector<std::string> getPropertyNames() {
    std::vector<std::string> r;
    for (auto& c : cols) r.push_back(c.name);
    return r;
  }
  void drop(const std::string& p) {
    for (size_t i = 0; i < cols.size(); i++)
      if (cols[i].name == p) { cols.erase(cols.begin() + i); i--; }
  }
  template <class T> void addProperty(const std::string& p, const std::vector<T>& d) {
    if (d.size() != count) throw std::runtime_error("PLY write: new property " + p + " has size which does not match element");
    drop(p);
    detail::Column c;
    c.name = p;
    c.type = detail::Name<typename detail::Canon<T>::type>::get();
    for (size_t i = 0; i < d.size(); i++) c.flat.push_back(static_cast<double>(static_cast<typename detail::Canon<T>::type>(d[i])));
    cols.push_back(c);
  }
  template <class T> void addListProperty(const std::string& p, const std::vector<std::vector<T>>& d) {
    if (d.size() != count) throw std::runtime_error("PLY write: new property " + p + " has size which does not match element");
    drop(p);
    detail::Column c;
    c.name = p;
    c.isList = true;
    c.type = detail::Name<typename detail::Canon<T>::type>::get();
    for (auto& v : d) {
      for (auto x : v) c.flat.push_back(static_cast<double>(x));
      c.start.push_back(c.flat.size());
    }
    cols.push_back(c);
  }
  static int rank(const std::string& t) { // promotion family
    if (t == "float") return 101;
    if (t == "double") return 102;
    if (t == "char") return 1;
    if (t == "short") return 2;
    if (t == "int") return 3;
    if (t == "uchar") return 11;
    if (t == "ushort") return 12;
    return 13;
  }
  template <class T> static void checkType(const std::string& stored, const std::string& p) {
    std::string want = detail::Name<typename detail::Canon<T>::type>::get();
    int a = rank(stored), b = rank(want);
    if (a / 10 != b / 10 || a > b) throw std::runtime_error("PLY parser: property " + p + " cannot be coerced to requested type " + want + " (stored " + stored + ")");
  }
  template <class T> std::vector<T> getProperty(const std::string& p) {
    detail::Column& c = col(p);
    if (c.isList) throw std::runtime_error("PLY parser: property " + p + " is a list");
    checkType<T>(c.type, p);
    std::vector<T> r;
    for (double v : c.flat) r.push_back(static_cast<T>(v));
    return r;
  }
  template <class T> std::vector<std::vector<T>> getListProperty(const std::string& p, bool anySign = false) {
    detail::Column& c = col(p);
    if (!c.isList) throw std::runtime_error("PLY parser: property " + p + " is not a list");
    if (!anySign) checkType<T>(c.type, p);
    std::vector<std::vector<T>> r(c.size());
    for (size_t i = 0; i < r.size(); i++)
      for (size_t j = c.start[i]; j < c.start[i + 1]; j++) r[i].push_back(static_cast<T>(c.flat[j]));
    return r;
  }
  template <class T> std::vector<std::vector<T>> getListPropertyAnySign(const std::string& p) { return getListProperty<T>(p, true); }
};

class PLYData {
public:
  PLYData() {}
  PLYData(const std::string& filename, bool = false) {
    std::ifstream in(filename, std::ios::binary);
    if (in.fail()) throw std::runtime_error("PLY parser: Could not open file " + filename);
    parse(in);
  }
  PLYData(std::istream& in, bool = false) { parse(in); }

  std::vector<std::string> comments, objInfoComments;
  bool hasElement(const std::string& n) {
    for (auto& e : elements)
      if (e.name == n) return true;
    return false;
  }
  Element& getElement(const std::string& n) {
    for (auto& e : elements)
      if (e.name == n) return e;
    throw std::runtime_error("PLY parser: no element with name: " + n);
  }
  std::vector<std::string> getElementNames() {
    std::vector<std::string> r;
    for (auto& e : elements) r.push_back(e.name);
    return r;
  }
  void addElement(const std::string& n, size_t c) {
    elements.reserve(64);
    elements.emplace_back(n, c);
  }
  void validate() {}
  void write(const std::string& filename, DataFormat f = DataFormat::ASCII) {
    std::ofstream o(filename, std::ios::binary);
    if (!o.good()) throw std::runtime_error("Ply writer: Could not open output file " + filename + " for writing");
    write(o, f);
  }
  void write(std::ostream& o, DataFormat f = DataFormat::ASCII) {
    o << "ply\nformat " << (f == DataFormat::ASCII ? "ascii" : f == DataFormat::Binary ? "binary_little_endian" : "binary_big_endian") << " 1.0\n";
    for (auto& c : comments) o << "comment " << c << "\n";
    for (auto& e : elements) {
      o << "element " << e.name << " " << e.count << "\n";
      for (auto& c : e.cols) {
        o << "property ";
        if (c.isList) o << "list " << (listCountType(c)) << " ";
        o << c.type << " " << c.name << "\n";
      }
    }
    o << "end_header\n";
    for (auto& e : elements)
      for (size_t i = 0; i < e.count; i++) {
        bool first = true;
        for (auto& c : e.cols) {
          auto put = [&](const std::string& t, double v) {
            if (f == DataFormat::ASCII && !first) o << " ";
            first = false;
            detail::writeT(o, t, v, f);
          };
          if (c.isList) {
            put(listCountType(c), double(c.start[i + 1] - c.start[i]));
            for (size_t j = c.start[i]; j < c.start[i + 1]; j++) put(c.type, c.flat[j]);
          } else put(c.type, c.flat[i]);
        }
        if (f == DataFormat::ASCII) o << "\n";
      }
  }
  std::vector<std::array<double, 3>> getVertexPositions(const std::string& en = "vertex") {
    std::vector<double> x = getElement(en).getProperty<double>("x"), y = getElement(en).getProperty<double>("y"), z = getElement(en).getProperty<double>("z");
    std::vector<std::array<double, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  std::vector<std::array<unsigned char, 3>> getVertexColors(const std::string& en = "vertex") {
    auto x = getElement(en).getProperty<unsigned char>("red"), y = getElement(en).getProperty<unsigned char>("green"), z = getElement(en).getProperty<unsigned char>("blue");
    std::vector<std::array<unsigned char, 3>> r(x.size());
    for (size_t i = 0; i < x.size(); i++) r[i] = {{x[i], y[i], z[i]}};
    return r;
  }
  template <typename T = size_t> std::vector<std::vector<T>> getFaceIndices() {
    for (const std::string& f : std::vector<std::string>{"face"})
      for (const std::string& p : std::vector<std::string>{"vertex_indices", "vertex_index"})
        if (getElement(f).hasProperty(p)) return getElement(f).getListProperty<T>(p, true);
    throw std::runtime_error("PLY parser: could not find face vertex indices attribute under any common name.");
  }
  void addVertexPositions(std::vector<std::array<double, 3>>& v) {
    if (!hasElement("vertex")) addElement("vertex", v.size());
    std::vector<double> c[3];
    for (auto& p : v)
      for (int k = 0; k < 3; k++) c[k].push_back(p[k]);
    getElement("vertex").addProperty<double>("x", c[0]);
    getElement("vertex").addProperty<double>("y", c[1]);
    getElement("vertex").addProperty<double>("z", c[2]);
  }
  void addVertexColors(std::vector<std::array<unsigned char, 3>>& v) {
    if (!hasElement("vertex")) addElement("vertex", v.size());
    std::vector<unsigned char> c[3];
    for (auto& p : v)
      for (int k = 0; k < 3; k++) c[k].push_back(p[k]);
    getElement("vertex").addProperty<unsigned char>("red", c[0]);
    getElement("vertex").addProperty<unsigned char>("green", c[1]);
    getElement("vertex").addProperty<unsigned char>("blue", c[2]);
  }
  void addVertexColors(std::vector<std::array<double, 3>>& v) {
    std::vector<std::array<unsigned char, 3>> b;
    for (auto& p : v) {
      std::array<unsigned char, 3> q;
      for (int k = 0; k < 3; k++) {
        double d = p[k] * 255.;
        if (d < 0) d = 0;
        if (d > 255) d = 255;
        q[k] = (unsigned char)d;
      }
      b.push_back(q);
    }
    addVertexColors(b);
  }
  template <typename T> void addFaceIndices(std::vector<std::vector<T>>& ind) {
    if (!hasElement("face")) addElement("face", ind.size());
    std::vector<std::vector<int32_t>> v;
    for (auto& f : ind) v.emplace_back(f.begin(), f.end());
    getElement("face").addListProperty<int32_t>("vertex_indices", v);
  }

private:
  std::vector<Element> elements;
  static std::string listCountType(const detail::Column& c) {
    for (size_t i = 0; i + 1 < c.start.size(); i++)
      if (c.start[i + 1] - c.start[i] > 255) return "uint";
    return "uchar";
  }
  static std::string line(std::istream& in) {
    std::string l;
    if (!std::getline(in, l)) throw std::runtime_error("PLY parser: unexpected end of header");
    if (!l.empty() && l.back() == '\r') l.pop_back();
    return l;
  }
  void parse(std::istream& in) {
    DataFormat f = DataFormat::ASCII;
    if (line(in) != "ply") throw std::runtime_error("PLY parser: File does not appear to be ply file. First line should be 'ply'");
    std::vector<std::vector<std::string>> lct;
    while (true) {
      std::string l = line(in);
      std::istringstream s(l);
      std::string w;
      s >> w;
      if (w == "end_header") break;
      if (w == "comment") { comments.push_back(l.size() > 8 ? l.substr(8) : ""); continue; }
      if (w == "obj_info") continue;
      if (w == "format") {
        std::string t;
        s >> t;
        f = t == "ascii" ? DataFormat::ASCII : t == "binary_big_endian" ? DataFormat::BinaryBigEndian : DataFormat::Binary;
        continue;
      }
      if (w == "element") {
        std::string n;
        size_t c;
        s >> n >> c;
        elements.reserve(64);
        elements.emplace_back(n, c);
        lct.emplace_back();
        continue;
      }
      if (w == "property") {
        if (elements.empty()) throw std::runtime_error("PLY parser: property before element");
        detail::Column c;
        std::string t, ct;
        s >> t;
        if (t == "list") {
          c.isList = true;
          s >> ct >> t;
        }
        c.type = detail::canonType(t);
        s >> c.name;
        elements.back().cols.push_back(c);
        lct.back().push_back(detail::canonType(ct));
        continue;
      }
      if (w.empty()) continue;
      throw std::runtime_error("PLY parser: unrecognized header line");
    }
    for (size_t e = 0; e < elements.size(); e++)
      for (size_t i = 0; i < elements[e].count; i++)
        for (size_t k = 0; k < elements[e].cols.size(); k++) {
          auto& c = elements[e].cols[k];
          if (c.isList) {
            size_t n = (size_t)detail::readT(in, lct[e][k], f);
            for (size_t j = 0; j < n; j++) c.flat.push_back(detail::readT(in, c.type, f));
            c.start.push_back(c.flat.size());
          } else c.flat.push_back(detail::readT(in, c.type, f));
        }
  }
};
} // namespace happly
