// Shared by C09-C11: random intrinsic triangulations over known surfaces, and their invariant checker.
#pragma once
#include "geohelp.h"
#include "geometrycentral/surface/common_subdivision.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/surface_point.h"

namespace vf {
struct IT {
  GeoMesh g;
  std::unique_ptr<EdgeLengthGeometry> lenGeom; // the input metric when it is not embedded
  std::unique_ptr<IntrinsicTriangulation> T;
  bool flat = false, signpost = false, embedded = true;
  EdgeData<double> inLen; // reference lengths of the input
  double area = 0, bdy = 0, L = 0, Lmin = 0;
  std::map<size_t, double> vAng; // angle sum of original vertices
  std::set<size_t> inserted;     // indices of inserted vertices of T
  std::map<size_t, bool> insBdy;
  std::vector<std::string> log;
  bool marks = false;
  double markedLen = 0;
  IntrinsicGeometryInterface& in() { return lenGeom ? (IntrinsicGeometryInterface&)*lenGeom : (IntrinsicGeometryInterface&)*g.geom; }
  SignpostIntrinsicTriangulation& sp() { return *dynamic_cast<SignpostIntrinsicTriangulation*>(T.get()); }
  IntegerCoordinatesIntrinsicTriangulation& ic() { return *dynamic_cast<IntegerCoordinatesIntrinsicTriangulation*>(T.get()); }
};
inline Halfedge heOf(Face f, int i) {
  Halfedge h = f.halfedge();
  while (i--) h = h.next();
  return h;
}
inline double faceArea(const EdgeData<double>& l, Face f) {
  return (double)triArea(l[heOf(f, 0).edge()], l[heOf(f, 1).edge()], l[heOf(f, 2).edge()]);
}
// angle at the tail of h in its face
inline double cornerOf(const EdgeData<double>& l, Halfedge h) {
  return (double)triAngle(l[h.next().edge()], l[h.edge()], l[h.next().next().edge()]);
}
inline double faceQuality(const EdgeData<double>& l, Face f) {
  double m = 0;
  for (int i = 0; i < 3; i++) m = std::max(m, l[heOf(f, i).edge()]);
  double a = faceArea(l, f);
  return a > 0 ? m * m / (2 * a) : 1e300;
}
inline double worstIT(IT& t) {
  double q = 0;
  for (Face f : t.T->intrinsicMesh->faces()) q = std::max(q, faceQuality(t.T->edgeLengths, f));
  return q;
}
template <class E> bool ownedBy(E e, SurfaceMesh& m) { return e.getMesh() == &m; }
// position of a surface point of the input mesh in the embedding
inline Vector3 posOn(const VertexData<Vector3>& p, const SurfacePoint& s) {
  switch (s.type) {
  case SurfacePointType::Vertex: return p[s.vertex];
  case SurfacePointType::Edge: return (1 - s.tEdge) * p[s.edge.halfedge().tailVertex()] + s.tEdge * p[s.edge.halfedge().tipVertex()];
  default: return s.faceCoords.x * p[heOf(s.face, 0).vertex()] + s.faceCoords.y * p[heOf(s.face, 1).vertex()] + s.faceCoords.z * p[heOf(s.face, 2).vertex()];
  }
}
inline Vector3 inputPos(IT& t, const SurfacePoint& s) { return posOn(t.g.geom->vertexPositions, s); }
inline Vector3 intrinsicVertexPos(IT& t, Vertex v) { return inputPos(t, t.T->vertexLocations[v]); }
// barycentric coordinates inside a face, every occurrence (one edge or vertex may appear repeatedly in a face of a Delta-complex)
inline std::vector<Vector3> coordsIn(Face f, const SurfacePoint& s) {
  std::vector<Vector3> r;
  for (int i = 0; i < 3; i++) {
    Halfedge h = heOf(f, i);
    Vector3 c{0, 0, 0};
    if (s.type == SurfacePointType::Vertex && h.vertex() == s.vertex) {
      c[i] = 1;
      r.push_back(c);
    }
    if (s.type == SurfacePointType::Edge && h.edge() == s.edge) {
      double t = h.orientation() == h.edge().halfedge().orientation() ? s.tEdge : 1 - s.tEdge;
      c[i] = 1 - t;
      c[(i + 1) % 3] = t;
      r.push_back(c);
    }
  }
  if (s.type == SurfacePointType::Face && s.face == f) r.push_back(s.faceCoords);
  return r;
}
inline std::vector<Face> facesOf(const SurfacePoint& s) {
  std::vector<Face> r;
  if (s.type == SurfacePointType::Face) r.push_back(s.face);
  if (s.type == SurfacePointType::Edge)
    for (Face f : s.edge.adjacentFaces()) r.push_back(f);
  if (s.type == SurfacePointType::Vertex)
    for (Face f : s.vertex.adjacentFaces()) r.push_back(f);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
// squared length of a barycentric displacement in a triangle with the face's lengths
inline double baryLen(const EdgeData<double>& l, Face f, Vector3 d) {
  double a = l[heOf(f, 0).edge()], b = l[heOf(f, 1).edge()], c = l[heOf(f, 2).edge()];
  double s = -(a * a * d.x * d.y + b * b * d.y * d.z + c * c * d.z * d.x);
  return std::sqrt(std::max(0., s));
}
// candidate distances of two points within a common face; empty if they share none
inline std::vector<double> segLens(const EdgeData<double>& l, const SurfacePoint& a, const SurfacePoint& b) {
  std::vector<double> r;
  std::vector<Face> fb = facesOf(b);
  for (Face f : facesOf(a))
    if (std::binary_search(fb.begin(), fb.end(), f))
      for (auto& x : coordsIn(f, a))
        for (auto& y : coordsIn(f, b)) r.push_back(baryLen(l, f, y - x));
  return r;
}
inline bool validPoint(SurfaceMesh& m, const SurfacePoint& p, double tol = 1e-6) {
  switch (p.type) {
  case SurfacePointType::Vertex: return p.vertex != Vertex() && ownedBy(p.vertex, m) && p.vertex.getIndex() < m.nVerticesCapacity() && !p.vertex.isDead();
  case SurfacePointType::Edge: return p.edge != Edge() && ownedBy(p.edge, m) && p.edge.getIndex() < m.nEdgesCapacity() && !p.edge.isDead() && p.tEdge >= -tol && p.tEdge <= 1 + tol;
  default:
    if (!(p.face != Face() && ownedBy(p.face, m) && !p.face.isDead())) return false;
    for (int i = 0; i < 3; i++)
      if (!(p.faceCoords[i] >= -tol && p.faceCoords[i] <= 1 + tol)) return false;
    return std::abs(p.faceCoords.x + p.faceCoords.y + p.faceCoords.z - 1) <= 1e-6;
  }
}
inline SurfacePoint randPoint(Rng& r, SurfaceMesh& m, int kind = -1, double margin = 0.02) {
  if (kind < 0) { size_t k = r.below(6); kind = k == 0 ? 0 : k <= 2 ? 1 : 2; }
  if (kind == 0) {
    std::vector<Vertex> v;
    for (Vertex x : m.vertices()) v.push_back(x);
    return SurfacePoint(r.pick(v));
  }
  if (kind == 1) {
    std::vector<Edge> v;
    for (Edge x : m.edges()) v.push_back(x);
    return SurfacePoint(r.pick(v), r.uni(margin, 1 - margin));
  }
  std::vector<Face> v;
  for (Face x : m.faces()) v.push_back(x);
  Vector3 b{r.uni(margin, 1), r.uni(margin, 1), r.uni(margin, 1)};
  return SurfacePoint(r.pick(v), b / (b.x + b.y + b.z));
}
struct ITOpts {
  GeoOpts geo;
  int kind = -1; // 0 signpost 1 integer
  double pFlat = 0.35, pLen = 0.2, pMarks = 0.25;
  double mollify = 0;
  ITOpts() {
    geo.maxQ = 30;
    geo.logScale = 1;
    geo.indexHoles = false;
    geo.multi = true;
  }
};
inline IT makeIT(Ctx& c, ITOpts o = ITOpts()) {
  Rng& r = c.rng;
  IT t;
  t.flat = r.coin(o.pFlat);
  GeoOpts go = o.geo;
  go.flat = t.flat;
  t.g = geoMesh(c, go);
  ManifoldSurfaceMesh& m = *t.g.mesh;
  t.g.geom->requireEdgeLengths();
  t.inLen = EdgeData<double>(m);
  for (Edge e : m.edges()) t.inLen[e] = (double)ldist(t.g.geom->vertexPositions[e.firstVertex()], t.g.geom->vertexPositions[e.secondVertex()]);
  if (!t.flat && r.coin(o.pLen)) { // an abstract metric
    t.embedded = false;
    double amt = r.uni(0.02, 0.25);
    for (size_t k = 0; k < 20; k++) {
      EdgeData<double> l(m);
      for (Edge e : m.edges()) l[e] = t.inLen[e] * r.uni(1 - amt, 1 + amt);
      bool ok = true;
      for (Face f : m.faces())
        if (!(faceQuality(l, f) < o.geo.maxQ)) ok = false;
      if (ok) {
        t.inLen = l;
        break;
      }
      amt *= 0.6;
      if (k == 19) throw Skip("no metric");
    }
    t.lenGeom.reset(new EdgeLengthGeometry(m, t.inLen));
  }
  t.signpost = o.kind < 0 ? r.coin() : o.kind == 0;
  if (t.signpost) t.T.reset(new SignpostIntrinsicTriangulation(m, t.in()));
  else t.T.reset(new IntegerCoordinatesIntrinsicTriangulation(m, t.in(), o.mollify));
  double nE = 0, sum = 0;
  t.Lmin = 1e300;
  for (Edge e : m.edges()) {
    sum += t.inLen[e];
    nE++;
    t.Lmin = std::min(t.Lmin, t.inLen[e]);
    if (e.isBoundary()) t.bdy += t.inLen[e];
  }
  t.L = sum / nE;
  for (Face f : m.faces()) t.area += faceArea(t.inLen, f);
  for (Halfedge h : m.interiorHalfedges()) t.vAng[h.vertex().getIndex()] += cornerOf(t.inLen, h);
  if (r.coin(o.pMarks)) {
    t.marks = true;
    EdgeData<bool> mk(*t.T->intrinsicMesh, false);
    double p = r.uni(0.05, 0.4);
    for (Edge e : t.T->intrinsicMesh->edges())
      if (r.coin(p)) {
        mk[e] = true;
        t.markedLen += t.inLen[m.edge(e.getIndex())];
      }
    t.T->setMarkedEdges(mk);
  }
  c.note += str(t.signpost ? " signpost" : " integer", t.flat ? " flat" : "", t.embedded ? "" : " lengths", t.marks ? " marks" : "");
  return t;
}
// all invariants of an intrinsic triangulation of the same surface
inline void checkIT(Ctx& c, IT& t, const std::string& K, double rel = 1e-7) {
  IntrinsicTriangulation& T = *t.T;
  ManifoldSurfaceMesh& m = *T.intrinsicMesh;
  fullCheck(m, K + "-mesh", &c);
  check(m.isTriangular(), K + "-triangular", "not triangular");
  check(m.eulerCharacteristic() == t.g.mesh->eulerCharacteristic() && m.nBoundaryLoops() == t.g.mesh->nBoundaryLoops(), K + "-topology", "topology changed");
  check(m.nVertices() == t.g.mesh->nVertices() + t.inserted.size(), K + "-vertex-count", m.nVertices(), " vertices");
  const EdgeData<double>& l = T.edgeLengths;
  double q = worstIT(t);
  double tol = rel * (1 + q);
  double A = 0, B = 0, M = 0;
  for (Edge e : m.edges()) {
    check(finite(l[e]) && l[e] > 0, K + "-length", "edge length ", l[e]);
    if (e.isBoundary()) B += l[e];
    if (t.marks && T.markedEdges.size() > 0 && T.markedEdges[e]) M += l[e];
  }
  std::map<size_t, double> ang;
  for (Face f : m.faces()) {
    double a = l[heOf(f, 0).edge()], b = l[heOf(f, 1).edge()], cc = l[heOf(f, 2).edge()];
    double mx = std::max(a, std::max(b, cc));
    check(a + b + cc - 2 * mx > -1e-9 * mx, K + "-triangle-inequality", a, " ", b, " ", cc);
    A += faceArea(l, f);
    for (int i = 0; i < 3; i++) ang[heOf(f, i).vertex().getIndex()] += cornerOf(l, heOf(f, i));
  }
  near(A, t.area, tol * t.area, K + "-area", "total area");
  near(B, t.bdy, rel * (t.bdy + t.L), K + "-boundary-length", "boundary length");
  if (t.marks) near(M, t.markedLen, rel * (t.markedLen + t.L), K + "-marked-length", "total length of marked edges");
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    double want = t.inserted.count(i) ? (v.isBoundary() ? PI : 2 * PI) : t.vAng[i];
    near(ang[i], want, 20 * tol, K + "-angle-sum", "angle sum of ", t.inserted.count(i) ? "inserted" : "original", " vertex ", i);
    const SurfacePoint& p = T.vertexLocations[v];
    check(validPoint(*t.g.mesh, p), K + "-vertex-location", "invalid location ", p, " of vertex ", i);
    if (!t.inserted.count(i)) {
      check(p.type == SurfacePointType::Vertex && p.vertex.getIndex() == i, K + "-vertex-location", "original vertex ", i, " is at ", p);
      check(v.isBoundary() == p.vertex.isBoundary(), K + "-boundary-vertex", "vertex ", i);
    }
  }
  if (t.embedded)
    for (Edge e : m.edges()) {
      double d = norm(intrinsicVertexPos(t, e.firstVertex()) - intrinsicVertexPos(t, e.secondVertex()));
      check(l[e] >= d - 10 * tol * t.L, K + "-shorter-than-chord", "edge length ", l[e], " chord ", d);
      if (t.flat) near(l[e], d, 10 * tol * t.L, K + "-flat-length", "edge length in a planar domain between ", T.vertexLocations[e.firstVertex()], " and ", T.vertexLocations[e.secondVertex()]);
    }
  // the tangent vectors of the halfedges, which the class keeps up to date by itself
  for (Vertex v : m.vertices()) {
    size_t i = v.getIndex();
    double tot = t.inserted.count(i) ? (v.isBoundary() ? PI : 2 * PI) : t.vAng[i];
    near(T.vertexAngleSums[v], tot, 20 * tol, K + "-vertex-angle-sum", "stored angle sum of vertex ", i);
    double scale = (v.isBoundary() ? PI : 2 * PI) / tot;
    for (Halfedge h : v.outgoingHalfedges()) {
      near(norm(T.halfedgeVectorsInVertex[h]), l[h.edge()], 1e-7 * t.L, K + "-he-vector", "length of a halfedge's tangent vector");
      if (!h.isInterior()) continue;
      Vector2 a = T.halfedgeVectorsInVertex[h], b = T.halfedgeVectorsInVertex[h.next().next().twin()];
      double d = (b / a).arg() - scale * cornerOf(l, h);
      d -= 2 * PI * std::round(d / (2 * PI));
      check(std::abs(d) <= 100 * tol * std::max(1., scale), K + "-he-vector-angle", "tangent vectors of consecutive halfedges at vertex ", i, v.isBoundary() ? " (boundary)" : "", t.inserted.count(i) ? " (inserted)" : "", " are off by ", d);
    }
  }
  for (Face f : m.faces())
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      Vector2 a = T.halfedgeVectorsInFace[h], b = T.halfedgeVectorsInFace[h.next()];
      near(norm(a), l[h.edge()], 1e-7 * t.L, K + "-he-vector-face", "length of a halfedge's vector in its face");
      double d = (b / a).arg() - (PI - cornerOf(l, h.next()));
      d -= 2 * PI * std::round(d / (2 * PI));
      check(std::abs(d) <= 100 * tol, K + "-he-vector-face-angle", "halfedge vectors in a face are off by ", d);
    }
  if (t.signpost) {
    SignpostIntrinsicTriangulation& S = t.sp();
    for (Halfedge h : m.interiorHalfedges()) {
      Halfedge n = h.next().next().twin(); // counter-clockwise neighbour
      double tot = t.inserted.count(h.vertex().getIndex()) ? (h.vertex().isBoundary() ? PI : 2 * PI) : t.vAng[h.vertex().getIndex()];
      double d = S.signpostAngle[n] - S.signpostAngle[h] - cornerOf(l, h);
      if (!h.vertex().isBoundary()) d -= tot * std::round(d / tot);
      check(std::abs(d) <= 100 * tol, K + "-signpost", "angle between consecutive edges of vertex ", h.vertex().getIndex(), " is off by ", d);
    }
  }
  c.count("triangulations checked");
  c.sig(hashD(A));
}
} // namespace vf
