// Geometry helpers: random geometric meshes and reference (long double) intrinsic geometry.
#pragma once
#include "meshcheck.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include <Eigen/Dense>
#include <Eigen/SparseCore>

namespace vf {
typedef long double LD;
inline Vector3 randUnit(Rng& r) {
  while (true) {
    Vector3 v{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
    double n = norm(v);
    if (n > 0.1 && n < 1) return v / n;
  }
}
struct Rigid {
  Vector3 ax{0, 0, 1}, t{0, 0, 0};
  double ang = 0, s = 1;
  Vector3 operator()(Vector3 p) const { return s * p.rotateAround(ax, ang) + t; }
  Vector3 dir(Vector3 p) const { return p.rotateAround(ax, ang); }
};
inline Rigid randRigid(Rng& r, double maxLogScale = 0, double shift = 3) {
  Rigid R;
  R.ax = randUnit(r);
  R.ang = r.uni(-3, 3);
  R.s = std::pow(10., r.uni(-maxLogScale, maxLogScale));
  R.t = R.s * shift * r.u() * randUnit(r);
  return R;
}
// worst triangle quality lmax^2 / (2 area) (1.15 for equilateral); inf for degenerate
inline double worstQuality(const Soup& s) {
  double q = 0;
  for (auto& f : s.polys)
    for (size_t i = 1; i + 1 < f.size(); i++) {
      Vector3 a = s.pos[f[0]], b = s.pos[f[i]], c = s.pos[f[i + 1]];
      double L = std::max(norm2(a - b), std::max(norm2(b - c), norm2(c - a)));
      q = std::max(q, L / norm(cross(b - a, c - a)));
    }
  return std::isnan(q) ? 1e300 : q;
}
struct GeoOpts {
  bool tri = true, closed = true, open = true, multi = true, holes = true, indexHoles = true, rigid = true;
  double maxQ = 200, logScale = 2;
  size_t maxScramble = 25, minV = 0, maxTries = 60;
  double jitMax = 0.25;
  bool flat = false; // planar domain
};
inline Soup geoSoup(Ctx& c, const GeoOpts& o) {
  Rng& r = c.rng;
  for (size_t k = 0; k < o.maxTries; k++) {
    MeshOpts mo;
    mo.tri = o.tri;
    mo.closed = o.closed && !o.flat;
    mo.open = o.open;
    mo.multi = o.multi;
    mo.holes = o.holes;
    mo.maxScramble = o.maxScramble;
    mo.jit = 0;
    Soup s;
    if (o.flat) {
      s = r.coin() ? grid(1 + r.below(6), 1 + r.below(6), o.tri) : fan(4 + r.below(6));
      if (o.tri) scrambleTris(s, r, r.below(o.maxScramble + 1), 0.6);
      if (o.holes && r.coin(0.3)) removeFaces(s, r, r.uni(0.02, 0.3));
      for (auto& p : s.pos) p = Vector3{p.x + r.uni(-.2, .2) * o.jitMax * 3, p.y + r.uni(-.2, .2) * o.jitMax * 3, 0};
      bool ok = true;
      for (auto& f : s.polys)
        for (size_t i = 0; i < f.size(); i++) {
          Vector3 a = s.pos[f[i]], b = s.pos[f[(i + 1) % f.size()]], d = s.pos[f[(i + 2) % f.size()]];
          if (cross(b - a, d - b).z < 1e-3) ok = false;
        }
      if (!ok) continue;
      if (r.coin(0.7)) permuteSoup(s, r);
    } else {
      s = randomManifold(r, mo);
      double e = 0;
      size_t n = 0;
      for (auto& f : s.polys) { e += norm(s.pos[f[0]] - s.pos[f[1]]); n++; }
      jitter(s, r, r.u() * o.jitMax * e / n);
    }
    if (s.pos.size() < o.minV) continue;
    if (worstQuality(s) > o.maxQ) continue;
    if (o.rigid) {
      Rigid R = randRigid(r, o.logScale * r.u());
      for (auto& p : s.pos) p = R(p);
    }
    return s;
  }
  throw Skip("no mesh of the wanted quality");
}
// leaves deleted slots behind without changing the surface
inline void addIndexHoles(Ctx& c, ManifoldSurfaceMesh& m, size_t n) {
  for (size_t k = 0; k < n; k++) {
    std::vector<size_t> fs;
    for (Face f : m.faces()) fs.push_back(f.getIndex());
    Vertex v = m.insertVertex(Face(&m, c.rng.pick(fs)));
    m.removeVertex(v);
  }
}
struct GeoMesh {
  Soup soup;
  std::unique_ptr<ManifoldSurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> geom;
};
inline VertexData<Vector3> positions(SurfaceMesh& m, const Soup& s) {
  VertexData<Vector3> p(m);
  size_t i = 0;
  for (Vertex v : m.vertices()) p[v] = s.pos[i++];
  return p;
}
inline GeoMesh geoMesh(Ctx& c, const GeoOpts& o) {
  GeoMesh g;
  g.soup = geoSoup(c, o);
  // split some faces around extra vertices with arbitrary indices, to be removed again: leaves holes in all index spaces
  std::vector<std::vector<size_t>> polys = g.soup.polys;
  size_t nV = g.soup.pos.size();
  std::vector<char> extra(nV, 0);
  if (o.indexHoles && c.rng.coin(0.3)) {
    size_t n = 1 + c.rng.below(3);
    for (size_t k = 0; k < n; k++) {
      size_t fi = c.rng.below(polys.size());
      std::vector<size_t> f = polys[fi];
      std::set<size_t> distinct(f.begin(), f.end());
      bool hasExtra = false;
      for (size_t v : f) hasExtra = hasExtra || extra[v];
      if (distinct.size() != f.size() || hasExtra) continue;
      size_t w = c.rng.below(extra.size() + 1);
      extra.insert(extra.begin() + w, 1);
      for (auto& q : polys)
        for (auto& v : q)
          if (v >= w) v++;
      f = polys[fi];
      for (size_t i = 0; i < f.size(); i++) {
        std::vector<size_t> t{f[i], f[(i + 1) % f.size()], w};
        if (i == 0)
          polys[fi] = t;
        else
          polys.push_back(t);
      }
    }
  }
  g.mesh.reset(new ManifoldSurfaceMesh(polys));
  {
    std::vector<Vertex> doomed;
    size_t i = 0;
    for (Vertex v : g.mesh->vertices())
      if (extra[i++]) doomed.push_back(v);
    for (Vertex v : doomed) g.mesh->removeVertex(v);
    if (!doomed.empty()) c.count("meshes_with_index_holes");
  }
  VertexData<Vector3> p = positions(*g.mesh, g.soup);
  g.geom.reset(new VertexPositionGeometry(*g.mesh, p));
  c.sig(hashPolys(g.soup.polys));
  for (auto& q : g.soup.pos) c.sig(hashD(q.x));
  c.note = g.soup.desc + " " + showPolys(g.soup.polys);
  return g;
}
// dense ranks
template <class E> std::map<size_t, size_t> ranks(SurfaceMesh& m) {
  std::map<size_t, size_t> r;
  size_t k = 0;
  for (E e : iterateElements<E>(&m)) r[e.getIndex()] = k++;
  return r;
}
// ---- stable triangle formulas from lengths
inline LD triArea(LD a, LD b, LD c) {
  if (a < b) std::swap(a, b);
  if (a < c) std::swap(a, c);
  if (b < c) std::swap(b, c);
  LD x = (a + (b + c)) * (c - (a - b)) * (c + (a - b)) * (a + (b - c));
  return x > 0 ? 0.25L * sqrtl(x) : 0;
}
// angle opposite to side a
inline LD triAngle(LD a, LD b, LD c) { return atan2l(4 * triArea(a, b, c), b * b + c * c - a * a); }
inline LD triCot(LD a, LD b, LD c) { return (b * b + c * c - a * a) / (4 * triArea(a, b, c)); }
inline std::array<LD, 3> ldv(Vector3 a) { return {{a.x, a.y, a.z}}; }
inline LD ldist(Vector3 a, Vector3 b) {
  LD x = (LD)a.x - b.x, y = (LD)a.y - b.y, z = (LD)a.z - b.z;
  return sqrtl(x * x + y * y + z * z);
}
template <class T> Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> dense(const Eigen::SparseMatrix<T>& M) {
  return Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>(M);
}
template <class MA, class MB> void sameMat(const MA& a, const MB& b, double tol, const std::string& key) {
  check(a.rows() == b.rows() && a.cols() == b.cols(), key, "matrix size ", a.rows(), "x", a.cols(), " expected ", b.rows(), "x", b.cols());
  for (long i = 0; i < a.rows(); i++)
    for (long j = 0; j < a.cols(); j++) {
      auto d = std::abs(a(i, j) - b(i, j));
      if (!(d <= tol)) fail(key, "entry (", i, ",", j, ") is ", a(i, j), " expected ", b(i, j), " tol ", tol);
    }
}
inline void nearV(Vector3 a, Vector3 b, double tol, const std::string& key, const std::string& what) {
  if (!(norm(a - b) <= tol)) fail(key, what, " got ", a, " expected ", b);
}
inline void nearC(Vector2 a, std::complex<double> b, double tol, const std::string& key, const std::string& what) {
  if (!(std::abs(std::complex<double>(a.x, a.y) - b) <= tol)) fail(key, what, " got ", a, " expected ", b);
}
} // namespace vf
