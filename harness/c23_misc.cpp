// C23: sampling, level sets, centers, Voronoi tessellations, intersections, mollification and the tufted Laplacian.
#include "geohelp.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/geodesic_centroidal_voronoi_tessellation.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/marching_triangles.h"
#include "geometrycentral/surface/poisson_disk_sampler.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/surface_centers.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/utilities/utilities.h"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
using namespace vf;
namespace {
Vector3 at(VertexPositionGeometry& g, const SurfacePoint& p) { return p.interpolate(g.inputVertexPositions); }
void validPoint(SurfaceMesh& m, const SurfacePoint& p, const std::string& key) {
  Vector3 b;
  switch (p.type) {
  case SurfacePointType::Vertex:
    check(p.vertex.getMesh() == &m && !p.vertex.isDead(), key, "point at a vertex which is not in the mesh");
    return;
  case SurfacePointType::Edge:
    check(p.edge.getMesh() == &m && !p.edge.isDead(), key, "point on an edge which is not in the mesh");
    check(p.tEdge >= -1e-9 && p.tEdge <= 1 + 1e-9, key, "edge parameter ", p.tEdge);
    return;
  case SurfacePointType::Face:
    check(p.face.getMesh() == &m && !p.face.isDead(), key, "point in a face which is not in the mesh");
    b = p.faceCoords;
    check(std::min(b.x, std::min(b.y, b.z)) >= -1e-6 && std::abs(b.x + b.y + b.z - 1) < 1e-6, key, "barycentric coordinates ", b);
  }
}
double areaOf(VertexPositionGeometry& g, Face f) {
  Halfedge h = f.halfedge();
  Vector3 a = g.inputVertexPositions[h.tailVertex()], b = g.inputVertexPositions[h.tipVertex()], d = g.inputVertexPositions[h.next().tipVertex()];
  return norm(cross(b - a, d - a)) / 2;
}
Vector3 mid(VertexPositionGeometry& g, Face f) {
  Vector3 s{0, 0, 0};
  for (Vertex v : f.adjacentVertices()) s += g.inputVertexPositions[v] / 3;
  return s;
}
SurfacePoint randomPoint(Rng& r, ManifoldSurfaceMesh& m) {
  std::vector<Face> fs;
  for (Face f : m.faces()) fs.push_back(f);
  double a = r.uni(0.05, 1), b = r.uni(0.05, 1), d = r.uni(0.05, 1);
  return SurfacePoint(r.pick(fs), Vector3{a, b, d} / (a + b + d));
}
Soup sphere(size_t lev, Rng& r, double noise) {
  Soup s;
  std::vector<Vector3> P{{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  Polys T{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  for (size_t l = 0; l < lev; l++) {
    std::map<std::pair<size_t, size_t>, size_t> mids;
    auto M = [&](size_t a, size_t b) {
      auto key = std::make_pair(std::min(a, b), std::max(a, b));
      if (!mids.count(key)) mids[key] = P.size(), P.push_back(unit(P[a] + P[b]));
      return mids[key];
    };
    Polys N;
    for (auto& t : T) {
      size_t x = M(t[0], t[1]), y = M(t[1], t[2]), z = M(t[2], t[0]);
      N.push_back({t[0], x, z}), N.push_back({t[1], y, x}), N.push_back({t[2], z, y}), N.push_back({x, y, z});
    }
    T = N;
  }
  for (auto& p : P) s.pos.push_back(unit(p + noise * randUnit(r)));
  s.polys = T;
  return s;
}
void poisson(Ctx& c) {
  Rng& r = c.rng;
  ManifoldSurfaceMesh* m;
  VertexPositionGeometry* g;
  GeoMesh gm;
  bool round = r.coin(0.25);
  double scale = std::exp(r.uni(-3, 3));
  if (round) {
    gm.soup = sphere(2, r, 0.05);
    for (auto& p : gm.soup.pos) p = p * scale;
    gm.mesh.reset(new ManifoldSurfaceMesh(gm.soup.polys));
    gm.geom.reset(new VertexPositionGeometry(*gm.mesh, positions(*gm.mesh, gm.soup)));
  } else {
    GeoOpts o;
    o.maxQ = 15;
    gm = geoMesh(c, o);
  }
  m = gm.mesh.get(), g = gm.geom.get();
  double area = 0;
  for (Face f : m->faces()) area += areaOf(*g, f);
  PoissonDiskOptions o;
  o.minDist = std::sqrt(area / r.uni(2, 80));
  o.kCandidates = round ? 60 : 1 + r.below(40);
  size_t nAvoid = r.coin(0.4) ? 1 + r.below(3) : 0;
  for (size_t i = 0; i < nAvoid; i++) o.pointsToAvoid.push_back(randomPoint(r, *m));
  o.minDistAvoidance = o.minDist * r.uni(0.5, 5);
  o.use3DAvoidance = r.coin(0.75);
  c.note = str(c.note, " r=", o.minDist, " avoid ", nAvoid, " ", o.minDistAvoidance, o.use3DAvoidance ? " 3D" : "");
  VertexPositionGeometry fresh(*m, g->inputVertexPositions); // the sampler must fetch what it needs
  unsigned seed = r.next();
  util_mersenne_twister.seed(seed);
  PoissonDiskSampler S(*m, fresh);
  std::vector<SurfacePoint> pts = S.sample(o);
  auto spaced = [&](const std::vector<SurfacePoint>& P, const PoissonDiskOptions& o) {
    std::vector<Vector3> X;
    for (auto& p : P) {
      validPoint(*m, p, "poissonPoint");
      X.push_back(at(*g, p));
    }
    for (size_t i = 0; i < X.size(); i++)
      for (size_t j = 0; j < i; j++) check(norm(X[i] - X[j]) >= o.minDist * (1 - 1e-9), "poissonDistance", "samples ", i, " and ", j, " at distance ", norm(X[i] - X[j]), " < ", o.minDist);
    if (o.use3DAvoidance)
      for (auto& a : o.pointsToAvoid)
        for (size_t i = 0; i < X.size(); i++)
          check(norm(X[i] - at(*g, a)) >= o.minDistAvoidance * (1 - 1e-9), "poissonAvoid", "sample ", i, " at distance ", norm(X[i] - at(*g, a)), " < ", o.minDistAvoidance, " of an avoided point");
    c.count("samples", X.size());
    return X;
  };
  std::vector<Vector3> X = spaced(pts, o);
  // components without samples have no room at the middle of any face
  FaceData<size_t> comp(*m, INVALID_IND);
  size_t nC = 0;
  for (Face f0 : m->faces()) {
    if (comp[f0] != INVALID_IND) continue;
    std::vector<Face> todo{f0};
    comp[f0] = nC;
    bool has = false, room = false;
    while (!todo.empty()) {
      Face f = todo.back();
      todo.pop_back();
      bool free = true;
      for (auto& x : X) free &= norm(mid(*g, f) - x) >= o.minDist;
      for (auto& a : o.pointsToAvoid) free &= norm(mid(*g, f) - at(*g, a)) >= std::max(o.minDist, o.minDistAvoidance);
      if (!o.use3DAvoidance && !o.pointsToAvoid.empty()) free = false;
      room |= free;
      for (Face q : f.adjacentFaces())
        if (comp[q] == INVALID_IND) comp[q] = nC, todo.push_back(q);
    }
    for (auto& p : pts) has |= comp[p.inSomeFace().face] == nC;
    check(has || !room, "poissonComponent", "no sample on a component with room for one");
    nC++;
    c.count("components");
  }
  if (o.pointsToAvoid.empty()) check(!X.empty(), "poissonComponent", "no samples");
  if (round && o.pointsToAvoid.empty()) {
    for (Vertex v : m->vertices()) {
      double d = 1e300;
      for (auto& x : X) d = std::min(d, norm(x - g->inputVertexPositions[v]));
      check(d <= 2.2 * o.minDist, "poissonCover", "vertex ", v, " is ", d, " from the samples, minimum distance ", o.minDist);
    }
    c.count("covered");
  }
  // a second call forgets the first
  PoissonDiskOptions o2;
  o2.minDist = o.minDist * r.uni(0.6, 1.5);
  spaced(S.sample(o2), o2);
  util_mersenne_twister.seed(seed);
  std::vector<SurfacePoint> again = S.sample(o);
  check(again.size() == pts.size() && std::equal(again.begin(), again.end(), pts.begin()), "poissonRepeat", "the same random numbers give other samples after an intermediate call");
  c.sig(pts.size() + 1000 * nAvoid + hashD(o.minDist));
}
// ---- marching triangles
void marching(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.maxQ = 60;
  GeoMesh gm = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *gm.mesh;
  VertexPositionGeometry& g = *gm.geom;
  VertexData<double> u(m);
  int kind = r.below(3);
  double iso = kind == 2 ? (double)r.range(-1, 1) : r.uni(-0.5, 0.5), amp = kind == 2 ? 1 : std::exp(r.uni(-4, 4));
  Vector3 D = randUnit(r);
  double sc = 0;
  for (Vertex v : m.vertices()) sc = std::max(sc, norm(g.inputVertexPositions[v]));
  for (Vertex v : m.vertices()) u[v] = kind == 0 ? amp * dot(D, g.inputVertexPositions[v]) / sc : kind == 1 ? amp * r.uni(-1, 1) : (double)r.range(-2, 2);
  if (kind != 2) iso *= amp;
  c.note = str(c.note, " kind ", kind);
  std::unique_ptr<EdgeLengthGeometry> el;
  IntrinsicGeometryInterface* geo = &g;
  VertexPositionGeometry fresh(m, g.inputVertexPositions);
  geo = &fresh;
  if (r.coin(0.3)) {
    fresh.requireEdgeLengths();
    el.reset(new EdgeLengthGeometry(m, fresh.edgeLengths));
    geo = el.get();
  }
  auto curves = marchingTriangles(*geo, u, iso);
  typedef std::pair<int, size_t> Hit;
  std::map<std::pair<Hit, Hit>, int> want; // value: number of faces
  bool vertexHits = false;
  for (Face f : m.faces()) {
    std::set<Hit> h;
    for (Halfedge he : f.adjacentHalfedges()) {
      if (u[he.tailVertex()] == iso) h.insert({0, he.tailVertex().getIndex()}), vertexHits = true;
      if ((u[he.tailVertex()] < iso) != (u[he.tipVertex()] < iso) && u[he.tailVertex()] != iso && u[he.tipVertex()] != iso) h.insert({1, he.edge().getIndex()});
    }
    if (h.size() == 2) want[{*h.begin(), *h.rbegin()}]++;
  }
  std::map<std::pair<Hit, Hit>, int> got;
  auto key = [&](const SurfacePoint& p) -> Hit {
    validPoint(m, p, "levelPoint");
    check(p.type != SurfacePointType::Face, "levelPoint", "point of a level curve inside a face");
    return p.type == SurfacePointType::Vertex ? Hit{0, p.vertex.getIndex()} : Hit{1, p.edge.getIndex()};
  };
  std::map<Hit, int> ends;
  for (auto& C : curves) {
    check(C.size() >= 2, "levelCurve", "curve of ", C.size(), " points");
    ends[key(C.front())] |= 1;
    ends[key(C.back())] |= 2;
    for (size_t i = 0; i < C.size(); i++) {
      near(C[i].interpolate(u), iso, 1e-9 * (amp + std::abs(iso)), "levelValue", "value on the curve");
      if (i + 1 == C.size()) break;
      Hit a = key(C[i]), b = key(C[i + 1]);
      std::pair<Hit, Hit> k{std::min(a, b), std::max(a, b)};
      got[k]++;
      check(want.count(k), "levelSegment", "segment between points which no face joins");
      // smaller values are on the left
      Vector3 p = at(g, C[i]), q = at(g, C[i + 1]);
      bool ok = false;
      size_t nf = 0;
      for (Face f : m.faces()) {
        std::set<Hit> h;
        Vector3 low{0, 0, 0}, N{0, 0, 0};
        double ul = 1e300, uh = -1e300;
        for (Halfedge he : f.adjacentHalfedges()) {
          h.insert({0, he.tailVertex().getIndex()});
          h.insert({1, he.edge().getIndex()});
          Vertex v = he.tailVertex();
          if (u[v] < ul) ul = u[v], low = g.inputVertexPositions[v];
          uh = std::max(uh, u[v]);
        }
        if (!h.count(a) || !h.count(b) || uh == ul) continue;
        if (ul == iso) { // only larger values in this face: they are on the right
          for (Vertex v : f.adjacentVertices())
            if (u[v] == uh) low = g.inputVertexPositions[v];
        }
        Halfedge h0 = f.halfedge();
        N = cross(g.inputVertexPositions[h0.tipVertex()] - g.inputVertexPositions[h0.tailVertex()], g.inputVertexPositions[h0.next().tipVertex()] - g.inputVertexPositions[h0.tailVertex()]);
        double s = dot(N, cross(q - p, low - p)) * (ul == iso ? -1 : 1);
        double tol = 1e-9 * norm(N) * norm(N);
        ok |= s > -tol;
        nf++;
      }
      check(ok || nf == 0, "levelSide", "smaller values are on the right of segment ", i);
      c.count("segments");
    }
  }
  for (auto& k : want) {
    if (k.first.first == k.first.second) continue;
    check(got[k.first] == 1, "levelSegment", "a segment appears ", got[k.first], " times");
  }
  if (!vertexHits)
    for (auto& e : ends)
      if (e.second == 3) { // the same point: must be one closed curve
        bool closed = false;
        for (auto& C : curves) closed |= key(C.front()) == e.first && key(C.back()) == e.first;
        check(closed, "levelCurve", "a curve is split in two");
      }
  c.count(vertexHits ? "throughVertices" : "generic");
  c.sig(hashD(iso) + curves.size() + 100 * want.size());
}
// ---- intersections
typedef Eigen::Matrix<LD, 3, 1> L3;
L3 lv(Vector3 a) { return L3(a.x, a.y, a.z); }
// 1: generic intersection with segment, 0: none, -1: ambiguous
int triTri(const L3* p, const L3* q, Vector3& A, Vector3& B) {
  LD scale = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) scale = std::max(scale, (p[i] - q[j]).norm());
  auto quick = [&](const L3* a, const L3* b) { // all of b on one side of the plane of a, clearly
    L3 n = (a[1] - a[0]).cross(a[2] - a[0]);
    n /= n.norm();
    LD lo = 1e300, hi = -1e300;
    for (int i = 0; i < 3; i++) lo = std::min(lo, n.dot(b[i] - a[0])), hi = std::max(hi, n.dot(b[i] - a[0]));
    return lo > 1e-5L * scale || hi < -1e-5L * scale;
  };
  if (quick(p, q) || quick(q, p)) return 0;
  std::vector<L3> pts;
  bool amb = false;
  auto pass = [&](const L3* a, const L3* b) {
    L3 n = (a[1] - a[0]).cross(a[2] - a[0]);
    n /= n.norm();
    for (int i = 0; i < 3; i++) {
      L3 s = b[i], t = b[(i + 1) % 3];
      LD x = n.dot(s - a[0]), y = n.dot(t - a[0]);
      if (std::abs(x) < 1e-5L * scale || std::abs(y) < 1e-5L * scale) amb = true;
      if ((x > 0) == (y > 0)) continue;
      L3 z = s + (t - s) * (x / (x - y));
      LD worst = 1e300;
      for (int k = 0; k < 3; k++) {
        L3 e = a[(k + 1) % 3] - a[k];
        worst = std::min(worst, n.dot(e.cross(z - a[k])) / e.norm());
      }
      if (std::abs(worst) < 1e-5L * scale) amb = true;
      if (worst > 0) pts.push_back(z);
    }
  };
  pass(p, q);
  pass(q, p);
  if (amb) return -1;
  if (pts.empty()) return 0;
  if (pts.size() != 2) return -1;
  A = Vector3{(double)pts[0][0], (double)pts[0][1], (double)pts[0][2]};
  B = Vector3{(double)pts[1][0], (double)pts[1][1], (double)pts[1][2]};
  return 1;
}
void intersect(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.maxQ = 60;
  o.rigid = false;
  o.maxScramble = 8;
  GeoMesh a = geoMesh(c, o), b;
  bool self = r.coin(0.4);
  auto fit = [&](GeoMesh& x, double crumple) { // scale to about unit size
    Vector3 lo{1e300, 1e300, 1e300}, hi = -1. * lo;
    for (Vertex v : x.mesh->vertices()) lo = componentwiseMin(lo, x.geom->inputVertexPositions[v]), hi = componentwiseMax(hi, x.geom->inputVertexPositions[v]);
    Rigid R = randRigid(r, 0.3, 0.4);
    for (Vertex v : x.mesh->vertices()) x.geom->inputVertexPositions[v] = R((x.geom->inputVertexPositions[v] - 0.5 * (lo + hi)) / norm(hi - lo)) + crumple * Vector3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  };
  fit(a, self ? r.uni(0, 0.5) : r.coin(0.3) ? 0.2 : 0);
  if (!self) b = geoMesh(c, o), fit(b, r.coin(0.3) ? 0.2 : 0);
  size_t cap = 90;
  if (a.mesh->nFaces() > cap || (!self && b.mesh->nFaces() > cap)) throw Skip("large");
  VertexPositionGeometry ga(*a.mesh, a.geom->inputVertexPositions);
  SurfaceIntersectionResult R;
  std::vector<std::array<Vector3, 2>> want;
  size_t amb = 0, pairs = 0;
  auto tri = [&](GeoMesh& x, Face f, L3* p, Vertex* vs) {
    int i = 0;
    for (Vertex v : f.adjacentVertices()) p[i] = lv(x.geom->inputVertexPositions[v]), vs[i++] = v;
    return (p[1] - p[0]).cross(p[2] - p[0]).norm() > 1e-4L * ((p[1] - p[0]).squaredNorm() + (p[2] - p[0]).squaredNorm());
  };
  GeoMesh& bb = self ? a : b;
  for (Face f : a.mesh->faces())
    for (Face q : bb.mesh->faces()) {
      if (self && q.getIndex() >= f.getIndex()) continue;
      L3 p3[3], q3[3];
      Vertex pv[3], qv[3];
      bool ok = tri(a, f, p3, pv);
      ok &= tri(bb, q, q3, qv);
      bool shared = false;
      if (self)
        for (auto& x : pv)
          for (auto& y : qv) shared |= x == y;
      if (shared) continue;
      pairs++;
      Vector3 A, B;
      int k = ok ? triTri(p3, q3, A, B) : -1;
      if (k < 0) amb++;
      if (k == 1) want.push_back({{A, B}});
    }
  if (self) R = selfIntersections(ga);
  else {
    VertexPositionGeometry gb(*b.mesh, b.geom->inputVertexPositions);
    R = intersections(ga, gb);
  }
  check(R.points.size() == 2 * R.edges.size(), "intersect", "numbers of points and edges");
  for (auto& e : R.edges) check(e[0] < R.points.size() && e[1] < R.points.size(), "intersect", "edge index");
  if (!want.empty()) check(R.hasIntersections, "intersect", "intersections not reported");
  if (want.empty() && !amb) check(!R.hasIntersections && R.edges.empty(), "intersect", "intersection reported for disjoint meshes");
  if (!amb) check(R.edges.size() == want.size(), "intersect", R.edges.size(), " segments, expected ", want.size(), self ? " (self)" : "");
  for (auto& w : want) {
    double d = 1e300;
    for (auto& e : R.edges) {
      double d1 = std::max(norm(R.points[e[0]] - w[0]), norm(R.points[e[1]] - w[1])), d2 = std::max(norm(R.points[e[0]] - w[1]), norm(R.points[e[1]] - w[0]));
      d = std::min(d, std::min(d1, d2));
    }
    check(d < 1e-6, "intersect", "no segment from ", w[0], " to ", w[1], " (nearest ", d, ")");
  }
  c.count("pairs", pairs);
  c.count("ambiguous", amb);
  c.count("crossings", want.size());
  c.count(self ? "self" : "two");
  c.sig(want.size() * 1000 + pairs);
}
// ---- mollification
void mollify(Ctx& c) {
  Rng& r = c.rng;
  std::unique_ptr<SurfaceMesh> m;
  if (r.coin()) {
    Soup s = randomSoup(r);
    triangulateSoup(s);
    compactVerts(s);
    if (s.polys.empty()) throw Skip("empty");
    m.reset(new SurfaceMesh(s.polys));
  } else {
    GeoOpts o;
    GeoMesh gm = geoMesh(c, o);
    m = std::move(gm.mesh);
  }
  EdgeData<double> l(*m);
  double amp = std::exp(r.uni(-4, 4));
  int kind = r.below(3);
  for (Edge e : m->edges()) l[e] = amp * (kind == 0 ? r.uni(0, 1) : kind == 1 ? r.uni(0.9, 1.1) : (double)r.range(0, 3));
  EdgeData<double> l0 = l;
  double mean = 0;
  for (Edge e : m->edges()) mean += l[e];
  mean /= m->nEdges();
  double f = r.coin(0.2) ? 0 : std::pow(10., r.uni(-8, 0)), delta = f * mean;
  if (r.coin()) mollifyIntrinsic(*m, l, f);
  else mollifyIntrinsicAbsolute(*m, l, delta);
  double eps = 0;
  for (Face t : m->faces())
    for (Halfedge h : t.adjacentHalfedges()) eps = std::max(eps, l0[h.next().next().edge()] - l0[h.edge()] - l0[h.next().edge()] + delta);
  for (Edge e : m->edges()) near(l[e] - l0[e], eps, 1e-12 * amp, "mollify", "offset of edge ", e, " (the smallest one which separates the triangles from degeneracy)");
  for (Face t : m->faces())
    for (Halfedge h : t.adjacentHalfedges()) check(l[h.edge()] + l[h.next().edge()] - l[h.next().next().edge()] >= delta - 1e-12 * amp, "mollify", "triangle inequality");
  c.count(eps > 0 ? "changed" : "unchanged");
  c.sig(m->nEdges() * 10 + kind + hashD(f));
}
// ---- tufted Laplacian
void tufted(Ctx& c) {
  Rng& r = c.rng;
  Soup s;
  if (r.coin()) {
    s = randomSoup(r);
    triangulateSoup(s);
    compactVerts(s);
    for (auto& p : s.pos) p = Vector3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
  } else {
    GeoOpts o;
    o.maxQ = 40;
    s = geoSoup(c, o);
  }
  if (s.polys.empty() || worstQuality(s) > 200) throw Skip("quality");
  std::unique_ptr<SurfaceMesh> m;
  std::unique_ptr<VertexPositionGeometry> g;
  std::tie(m, g) = makeSurfaceMeshAndGeometry(s.polys, s.pos);
  SparseMatrix<double> L, M;
  double f = r.coin(0.3) ? 1e-6 : 0;
  std::tie(L, M) = buildTuftedLaplacian(*m, *g, f);
  size_t n = s.pos.size();
  check((size_t)L.rows() == n && (size_t)M.rows() == n && (size_t)L.cols() == n, "tufted", "size");
  check(m->nFaces() == s.polys.size() && m->nVertices() == n, "tufted", "the input mesh changed");
  Eigen::MatrixXd D = dense(L), MD = dense(M);
  double big = D.cwiseAbs().maxCoeff();
  check(D.allFinite() && MD.allFinite(), "tufted", "not finite");
  check((D - D.transpose()).cwiseAbs().maxCoeff() < 1e-9 * big, "tufted", "not symmetric");
  double area = 0;
  for (Face q : m->faces()) area += areaOf(*g, q);
  near(MD.trace(), area, (1e-7 + 100 * f) * area, "tufted", "total mass");
  for (size_t i = 0; i < n; i++) {
    near(D.row(i).sum(), 0, 1e-8 * big, "tufted", "row sum");
    check(MD(i, i) > 0, "tufted", "mass");
    for (size_t j = 0; j < n; j++)
      if (i != j) {
        check(D(i, j) < 1e-5 * (1 + big), "tufted", "positive entry ", D(i, j), " off the diagonal");
        check(MD(i, j) == 0, "tufted", "mass matrix is not diagonal");
      }
  }
  c.count("matrices");
  c.sig(hashPolys(s.polys) + hashD(s.pos[0].x));
  // manifold meshes: the intrinsic Delaunay Laplacian of the double
  if (f > 0) return;
  Topo t = analyze(s.polys, n);
  ManifoldSurfaceMesh* mm = nullptr;
  std::unique_ptr<ManifoldSurfaceMesh> own;
  try {
    own.reset(new ManifoldSurfaceMesh(s.polys));
    mm = own.get();
  } catch (const std::exception&) {
    return;
  }
  (void)mm;
  (void)t;
  if (own->nVertices() == n) { // given as a manifold mesh
    VertexPositionGeometry og(*own, VertexData<Vector3>(*own, g->inputVertexPositions.toVector()));
    SparseMatrix<double> L2, M2;
    std::tie(L2, M2) = buildTuftedLaplacian(*own, og, 0);
    check((dense(L2) - D).cwiseAbs().maxCoeff() < 1e-6 * big && (dense(M2) - MD).cwiseAbs().maxCoeff() < 1e-6 * MD.maxCoeff(), "tuftedManifold", "differs from the general mesh");
    c.count("manifoldInput");
  }
  bool chord = false;
  for (Edge e : own->edges())
    if (!e.isBoundary() && e.firstVertex().isBoundary() && e.secondVertex().isBoundary()) chord = true;
  if (chord || own->nVertices() != n) return;
  std::vector<size_t> twin(n);
  std::vector<Vector3> P = s.pos;
  std::vector<size_t> orig(n);
  for (size_t i = 0; i < n; i++) {
    orig[i] = i;
    twin[i] = i;
    if (!own->vertex(i).isBoundary()) twin[i] = P.size(), P.push_back(s.pos[i]), orig.push_back(i);
  }
  Polys dp = s.polys;
  for (auto f : s.polys) {
    std::vector<size_t> q;
    for (size_t i = f.size(); i-- > 0;) q.push_back(twin[f[i]]);
    dp.push_back(q);
  }
  std::unique_ptr<ManifoldSurfaceMesh> dm;
  try {
    dm.reset(new ManifoldSurfaceMesh(dp));
  } catch (const std::exception&) {
    c.count("doubleFailed");
    return;
  }
  EdgeData<double> l(*dm);
  for (Edge e : dm->edges()) l[e] = norm(P[e.firstVertex().getIndex()] - P[e.secondVertex().getIndex()]);
  flipToDelaunay(*dm, l);
  Eigen::MatrixXd ref = Eigen::MatrixXd::Zero(n, n);
  for (Face q : dm->faces())
    for (Halfedge h : q.adjacentHalfedges()) {
      double w = 0.25 * (double)triCot(l[h.edge()], l[h.next().edge()], l[h.next().next().edge()]);
      size_t i = orig[h.tailVertex().getIndex()], j = orig[h.tipVertex().getIndex()];
      ref(i, i) += w, ref(j, j) += w, ref(i, j) -= w, ref(j, i) -= w;
    }
  check((ref - D).cwiseAbs().maxCoeff() < 1e-5 * (1 + big), "tuftedReference", "differs by ", (ref - D).cwiseAbs().maxCoeff(), " from the Laplacian of the double");
  c.count(own->hasBoundary() ? "doubles" : "closed");
}
// ---- centers and Voronoi tessellations on flat squares
GeoMesh square(Ctx& c, size_t n, double size, bool holes) {
  Rng& r = c.rng;
  GeoMesh g;
  Soup& s = g.soup;
  for (size_t i = 0; i <= n; i++)
    for (size_t j = 0; j <= n; j++) {
      bool in = i && j && i < n && j < n;
      s.pos.push_back(size * Vector3{(i + (in ? r.uni(-.15, .15) : 0)) / n, (j + (in ? r.uni(-.15, .15) : 0)) / n, 0});
    }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      size_t a = i * (n + 1) + j, b = a + n + 1;
      if ((i + j) % 2) s.polys.push_back({a, b, b + 1}), s.polys.push_back({a, b + 1, a + 1});
      else s.polys.push_back({a, b, a + 1}), s.polys.push_back({b, b + 1, a + 1});
    }
  g.mesh.reset(new ManifoldSurfaceMesh(s.polys));
  g.geom.reset(new VertexPositionGeometry(*g.mesh, positions(*g.mesh, s)));
  if (holes) { // delete a row of faces at one side
    for (size_t k = 0; k < 2 * n; k++) {
      std::vector<Face> fs;
      for (Face f : g.mesh->faces()) {
        bool first = true;
        for (Vertex v : f.adjacentVertices()) first &= v.getIndex() < 2 * (n + 1);
        if (first) fs.push_back(f);
      }
      bool did = false;
      for (Face f : fs) {
        bool bdy = false;
        for (Edge e : f.adjacentEdges()) bdy |= e.isBoundary();
        if (bdy && g.mesh->removeFaceAlongBoundary(f)) {
          did = true;
          break;
        }
      }
      if (!did) break;
    }
    c.count("uncompressed", !g.mesh->isCompressed());
  }
  return g;
}
void centers(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 5 + r.below(4);
  double size = std::exp(r.uni(-2, 2));
  GeoMesh gm = square(c, n, size, r.coin(0.4));
  ManifoldSurfaceMesh& m = *gm.mesh;
  VertexPositionGeometry& g = *gm.geom;
  int p = 1 + r.below(2);
  throws([&]() { findCenter(m, g, std::vector<Vertex>{*m.vertices().begin()}, r.coin() ? 0 : 3); }, "centerP", "p other than 1 and 2");
  std::vector<Vertex> in;
  for (Vertex v : m.vertices())
    if (!v.isBoundary()) in.push_back(v);
  if (in.empty()) throw Skip("no interior");
  util_mersenne_twister.seed((unsigned)r.next());
  std::vector<Vertex> vs;
  size_t k = r.coin(0.4) ? 1 : 2 + r.below(4);
  for (size_t i = 0; i < k; i++) vs.push_back(r.pick(in));
  if (k > 1) p = 2; // medians are not unique
  c.note = str("square ", n, " size ", size, " p ", p, " points ", k);
  Vector3 mean{0, 0, 0};
  for (Vertex v : vs) mean += g.inputVertexPositions[v] / (double)k;
  // the descent starts at a random vertex, and may get stuck if that is a corner of the square
  double d = std::numeric_limits<double>::infinity();
  for (int attempt = 0; attempt < 6 && !(d <= (k == 1 ? 1.5 * size / n : 0.25 * size)); attempt++) {
    SurfacePoint q;
    LogMapStrategy st = r.coin() ? LogMapStrategy::VectorHeat : LogMapStrategy::AffineLocal;
    if (r.coin()) q = findCenter(m, g, vs, p, st);
    else {
      VectorHeatMethodSolver solver(g);
      VertexData<double> w(m, 0.);
      double f = r.uni(0.1, 10);
      for (Vertex v : vs) w[v] += f;
      q = findCenter(m, g, solver, w, p, st);
    }
    validPoint(m, q, "center");
    d = std::min(d, norm(at(g, q) - mean));
    c.count("attempts");
  }
  check(d <= (k == 1 ? 1.5 * size / n : 0.25 * size), "center", "center expected near ", mean, " distance ", d / size, " of the size");
  c.count("centers");
  c.count("centerError", (size_t)(1000 * d / size));
  c.sig(n * 100 + k * 10 + p + hashD(size));
}
std::vector<Face> faceList(SurfaceMesh& m) {
  std::vector<Face> fs;
  for (Face f : m.faces()) fs.push_back(f);
  return fs;
}
void voronoi(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 5 + r.below(4);
  double size = std::exp(r.uni(-2, 2));
  GeoMesh gm = square(c, n, size, r.coin(0.4));
  ManifoldSurfaceMesh& m = *gm.mesh;
  VertexPositionGeometry& g = *gm.geom;
  util_mersenne_twister.seed((unsigned)r.next());
  VoronoiOptions o;
  o.useDelaunay = m.isCompressed() && r.coin(0.4);
  o.computeDistributions = r.coin(0.7);
  bool one = r.coin(0.4);
  o.nSites = one ? 1 : 2 + r.below(4);
  o.iterations = one ? 12 : r.below(4);
  o.nSubIterations = one ? 1 : 1 + r.below(2);
  bool given = r.coin();
  if (given)
    for (size_t i = 0; i < o.nSites; i++) o.initialSites.push_back(randomPoint(r, m));
  c.note = str("square ", n, " size ", size, " sites ", o.nSites, " iterations ", o.iterations, o.useDelaunay ? " Delaunay" : "", given ? " given" : "");
  VoronoiResult R = computeGeodesicCentroidalVoronoiTessellation(m, g, o);
  check(R.siteLocations.size() == o.nSites, "voronoiSites", "number of sites ", R.siteLocations.size());
  for (auto& p : R.siteLocations) validPoint(m, p, "voronoiSites");
  if (o.iterations == 0 && given)
    for (size_t i = 0; i < o.nSites; i++) check(norm(at(g, R.siteLocations[i]) - at(g, o.initialSites[i])) < 1e-5 * size, "voronoiSites", "site moved without iterations");
  check(R.hasDistributions == o.computeDistributions, "voronoiDist", "flag");
  if (R.hasDistributions) {
    check(R.siteDistributions.size() == o.nSites, "voronoiDist", "number of distributions");
    if (!o.useDelaunay)
      for (Vertex v : m.vertices()) {
        double s = 0;
        for (auto& d : R.siteDistributions) {
          s += d[v];
          check(d[v] > -1e-6 && d[v] < 1 + 1e-6, "voronoiDist", "value ", d[v]);
        }
        near(s, 1, 1e-6, "voronoiDist", "the cells partition the surface");
      }
    c.count("distributions");
  }
  if (one) {
    Vector3 cen{0, 0, 0};
    double a = 0;
    for (Face f : m.faces()) cen += areaOf(g, f) * mid(g, f), a += areaOf(g, f);
    cen /= a;
    // a site which reaches the boundary of the square stays there
    double d = norm(at(g, R.siteLocations[0]) - cen);
    for (int attempt = 0; attempt < 5 && !(d < 0.12 * size); attempt++) {
      o.initialSites = {SurfacePoint(r.pick(faceList(m)), Vector3{1 / 3., 1 / 3., 1 / 3.})};
      R = computeGeodesicCentroidalVoronoiTessellation(m, g, o);
      d = norm(at(g, R.siteLocations[0]) - cen);
    }
    check(d < 0.12 * size, "voronoiCenter", "single site at ", at(g, R.siteLocations[0]), " expected near ", cen, ", distance ", d / size, " of the size");
    c.count("single");
    c.count("singleError", (size_t)(1000 * d / size));
  }
  c.count("sites", o.nSites);
  c.sig(n * 100 + o.nSites * 10 + o.iterations + hashD(size));
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("poisson", 4, poisson);
  S.add("marching", 5, marching);
  S.add("intersect", 4, intersect);
  S.add("mollify", 3, mollify);
  S.add("tufted", 4, tufted);
  S.add("centers", 1, centers);
  S.add("voronoi", 1, voronoi);
  return run(S, argc, argv);
}
