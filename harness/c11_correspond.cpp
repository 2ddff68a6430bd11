// C11: correspondence of points, curves and functions between an input mesh and an intrinsic triangulation of it.
#include "intri.h"
#include "geometrycentral/surface/transfer_functions.h"
using namespace vf;

static void resync(IT& t) {
  t.inserted.clear();
  size_t n0 = t.g.mesh->nVertices();
  for (Vertex v : t.T->intrinsicMesh->vertices())
    if (v.getIndex() >= n0) t.inserted.insert(v.getIndex());
}
static bool fixedE(IT& t, Edge e) { return e.isBoundary() || (t.T->markedEdges.size() > 0 && t.T->markedEdges[e]); }
static void edit(Ctx& c, IT& t, size_t n, double qmax) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  resync(t);
  double pIns = r.coin(0.3) ? 0 : r.uni(0.05, 0.4);
  for (size_t k = 0; k < n; k++) {
    std::vector<Edge> es;
    for (Edge e : T.intrinsicMesh->edges()) es.push_back(e);
    if (r.coin(pIns) && T.intrinsicMesh->nVertices() < 80) {
      if (r.coin()) T.insertVertex(randPoint(r, *T.intrinsicMesh, 2, 0.12));
      else {
        Edge e = r.pick(es);
        if (!e.isBoundary() && e.halfedge().face() == e.halfedge().twin().face()) continue;
        T.insertVertex(SurfacePoint(e, r.uni(0.15, 0.85)));
      }
      resync(t);
      c.count("insertions");
    } else if (r.coin(0.08) && !t.inserted.empty()) {
      std::vector<size_t> is(t.inserted.begin(), t.inserted.end());
      Vertex v = T.intrinsicMesh->vertex(r.pick(is));
      if (!v.isDead() && !T.isOnFixedEdge(v)) T.removeInsertedVertex(v);
      resync(t);
    } else if (r.coin(0.04)) T.flipToDelaunay();
    else {
      Edge e = r.pick(es);
      if (!T.flipEdgeIfPossible(e)) continue;
      if (faceQuality(T.edgeLengths, e.halfedge().face()) > qmax || faceQuality(T.edgeLengths, e.halfedge().twin().face()) > qmax) T.flipEdgeIfPossible(e);
      c.count("flips");
    }
  }
  T.refreshQuantities();
}
// position (or nothing) of intrinsic points in a planar domain
static Vector3 flatPos(IT& t, const SurfacePoint& p) {
  VertexData<Vector3> q(*t.T->intrinsicMesh);
  for (Vertex v : t.T->intrinsicMesh->vertices()) q[v] = intrinsicVertexPos(t, v);
  return posOn(q, p);
}
static double tolOf(IT& t) { return 1e-7 * (1 + worstIT(t)) * (1 + worstIT(t) * 0.05) + 2e-6; }
static SurfacePoint snapped(const SurfacePoint& p, double eps) {
  if (p.type == SurfacePointType::Face) {
    int z = -1;
    for (int i = 0; i < 3; i++)
      if (p.faceCoords[i] > 1 - eps) return SurfacePoint(heOf(p.face, i).vertex());
    for (int i = 0; i < 3; i++)
      if (p.faceCoords[i] < eps) z = i;
    if (z < 0) return p;
    Halfedge h = heOf(p.face, (z + 1) % 3);
    double a = p.faceCoords[(z + 1) % 3], b = p.faceCoords[(z + 2) % 3];
    return SurfacePoint(h, b / (a + b));
  }
  if (p.type == SurfacePointType::Edge) {
    if (p.tEdge < eps) return SurfacePoint(p.edge.halfedge().tailVertex());
    if (p.tEdge > 1 - eps) return SurfacePoint(p.edge.halfedge().tipVertex());
  }
  return p;
}
// candidate distances of two points which lie in a common face up to rounding
static std::vector<double> closeLens(const EdgeData<double>& l, const SurfacePoint& a, const SurfacePoint& b, double eps) {
  std::vector<double> r = segLens(l, a, b);
  if (!r.empty()) return r;
  SurfacePoint as[3] = {a, snapped(a, 1e-9), snapped(a, eps)}, bs[3] = {b, snapped(b, 1e-9), snapped(b, eps)};
  for (auto& x : as)
    for (auto& y : bs) {
      r = segLens(l, x, y);
      if (!r.empty()) return r;
    }
  return r;
}
struct LenRange { double lo = 0, hi = 0; };
static LenRange pathLen(const EdgeData<double>& l, const std::vector<SurfacePoint>& p, const std::string& K, double eps) {
  LenRange r;
  for (size_t i = 0; i + 1 < p.size(); i++) {
    std::vector<double> s = closeLens(l, p[i], p[i + 1], eps);
    check(!s.empty(), K + "-connected", "consecutive points ", p[i], " and ", p[i + 1], " share no face");
    r.lo += *std::min_element(s.begin(), s.end());
    r.hi += *std::max_element(s.begin(), s.end());
  }
  return r;
}
static bool sameVertexAs(const SurfacePoint& p, Vertex v) { return p.type == SurfacePointType::Vertex && p.vertex == v; }

// does the (untrimmed) trace of an input edge cross an intrinsic edge at its target vertex away from that vertex
static bool winds(IT& t, Halfedge h) {
  SignpostIntrinsicTriangulation& T = *dynamic_cast<SignpostIntrinsicTriangulation*>(t.T.get());
  Vertex v = T.intrinsicMesh->vertex(h.tipVertex().getIndex());
  for (const SurfacePoint& x : T.traceInputHalfedgeAlongIntrinsic(h, false)) {
    if (x.type != SurfacePointType::Edge) continue;
    Vertex a = x.edge.halfedge().tailVertex(), b = x.edge.halfedge().tipVertex();
    if (a == v || b == v) {
      double d = 1e300;
      if (a == v) d = std::min(d, x.tEdge);
      if (b == v) d = std::min(d, 1 - x.tEdge);
      if (d > 1e-5) return true;
    }
  }
  return false;
}
static void checkTraces(Ctx& c, IT& t) {
  IntrinsicTriangulation& T = *t.T;
  ManifoldSurfaceMesh &M = *t.g.mesh, &N = *T.intrinsicMesh;
  double tol = tolOf(t) * 10;
  if (!t.signpost) { // the first trace builds the common subdivision, which compresses the mesh
    std::vector<Halfedge> hs;
    for (Halfedge h : N.halfedges()) hs.push_back(h);
    Halfedge h = c.rng.pick(hs);
    double want = T.edgeLengths[h.edge()];
    SurfacePoint A = T.vertexLocations[h.tailVertex()], B = T.vertexLocations[h.tipVertex()];
    std::vector<SurfacePoint> p = T.traceIntrinsicHalfedgeAlongInput(h);
    resync(t);
    LenRange l = pathLen(t.inLen, p, "trace-first", tol * 30);
    check(l.lo - tol * t.L <= want && want <= l.hi + tol * t.L, "trace-first-length", "path length ", l.lo, " edge length ", want);
    auto same = [&](const SurfacePoint& x, const SurfacePoint& y) { auto s = closeLens(t.inLen, x, y, tol * 30); return !s.empty() && *std::min_element(s.begin(), s.end()) <= tol * t.L; };
    check(same(p.front(), A) && same(p.back(), B), "trace-first-ends", "wrong ends");
  }
  EdgeData<std::vector<SurfacePoint>> all = T.traceAllIntrinsicEdgesAlongInput();
  for (Halfedge h : N.halfedges()) {
    std::vector<SurfacePoint> p = T.traceIntrinsicHalfedgeAlongInput(h);
    std::string K = "trace-intrinsic";
    check(p.size() >= 2, K, "path of ", p.size(), " points");
    for (auto& x : p) check(validPoint(M, x), K + "-point", "invalid point ", x);
    const SurfacePoint &A = T.vertexLocations[h.tailVertex()], &B = T.vertexLocations[h.tipVertex()];
    auto nearPt = [&](const SurfacePoint& x, const SurfacePoint& y) {
      std::vector<double> s = closeLens(t.inLen, x, y, tol * 30);
      return !s.empty() && *std::min_element(s.begin(), s.end()) <= tol * t.L;
    };
    check(nearPt(p.front(), A), K + "-start", "path starts at ", p.front(), " instead of ", A);
    check(nearPt(p.back(), B), K + "-end", "path ends at ", p.back(), " instead of ", B);
    LenRange l = pathLen(t.inLen, p, K, tol * 30);
    check(l.lo - tol * t.L <= T.edgeLengths[h.edge()] && T.edgeLengths[h.edge()] <= l.hi + tol * t.L, K + "-length", "path length ", l.lo, " edge length ", T.edgeLengths[h.edge()]);
    if (t.flat) {
      Vector3 a = inputPos(t, A), b = inputPos(t, B);
      double D = norm(b - a), prev = -tol * t.L;
      for (auto& x : p) {
        Vector3 y = inputPos(t, x);
        double s = dot(y - a, b - a) / D;
        check(norm(y - a - s * (b - a) / D) <= tol * t.L * 3, K + "-straight", "path leaves the straight segment by ", norm(y - a - s * (b - a) / D));
        check(s >= prev - tol * t.L, K + "-order", "path runs backwards");
        prev = s;
      }
    }
    if (h == h.edge().halfedge()) {
      check(all[h.edge()].size() == p.size(), K + "-all", "traceAll differs from the single trace");
      for (size_t i = 0; i < p.size(); i++) check(nearPt(all[h.edge()][i], p[i]), K + "-all", "traceAll differs from the single trace");
    }
    c.count("intrinsic edges traced");
  }
  EdgeData<std::vector<SurfacePoint>> allIn = T.traceAllInputEdgesAlongIntrinsic();
  for (Halfedge h : M.halfedges()) {
    if (t.signpost) {
      // floating point tracing: an edge which runs through inserted vertices cannot be resolved
      bool through = false;
      for (Vertex v : N.vertices()) {
        const SurfacePoint& x = T.vertexLocations[v];
        if (x.type == SurfacePointType::Edge && x.edge == h.edge()) through = true;
      }
      if (through || winds(t, h)) continue;
    }
    std::vector<SurfacePoint> p = T.traceInputHalfedgeAlongIntrinsic(h);
    std::string K = "trace-input";
    check(p.size() >= 2, K, "path of ", p.size(), " points");
    for (auto& x : p) check(validPoint(N, x), K + "-point", "invalid point ", x, " on the intrinsic triangulation");
    check(sameVertexAs(p.front(), N.vertex(h.tailVertex().getIndex())), K + "-start", "path starts at ", p.front());
    check(sameVertexAs(p.back(), N.vertex(h.tipVertex().getIndex())), K + "-end", "path of halfedge ", h.getIndex(), " ends at ", p.back(), " instead of ", h.tipVertex());
    LenRange l = pathLen(T.edgeLengths, p, K, tol * 30);
    check(l.lo - tol * t.L <= t.inLen[h.edge()] && t.inLen[h.edge()] <= l.hi + tol * t.L, K + "-length", "path length ", l.lo, " .. ", l.hi, " edge length ", t.inLen[h.edge()]);
    if (t.flat) {
      Vector3 a = t.g.geom->vertexPositions[h.tailVertex()], b = t.g.geom->vertexPositions[h.tipVertex()];
      double D = norm(b - a);
      for (auto& x : p) {
        Vector3 y = flatPos(t, x);
        double s = dot(y - a, b - a) / D;
        check(norm(y - a - s * (b - a) / D) <= tol * t.L * 3, K + "-straight", "path leaves the straight segment by ", norm(y - a - s * (b - a) / D));
      }
    }
    if (h == h.edge().halfedge()) check(allIn[h.edge()].size() == p.size(), K + "-all", "traceAll differs from the single trace");
    c.count("input edges traced");
  }
}
static void checkPoints(Ctx& c, IT& t, size_t n) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  ManifoldSurfaceMesh &M = *t.g.mesh, &N = *T.intrinsicMesh;
  double tol = tolOf(t) * 10;
  if (!t.signpost) {
    T.getCommonSubdivision();
    resync(t);
  }
  for (size_t k = 0; k < n; k++) {
    SurfacePoint q = randPoint(r, N);
    SurfacePoint p = T.equivalentPointOnInput(q);
    check(validPoint(M, p), "to-input-valid", "invalid point ", p, " for ", q);
    c.count("points mapped to the input");
    if (t.embedded) {
      Vector3 P = inputPos(t, p);
      if (t.flat) nearV(P, flatPos(t, q), tol * t.L, "to-input-flat", str("position on the input of ", q));
      // no further from the corners of its face than within the face
      SurfacePoint qf = q.inSomeFace();
      for (int i = 0; i < 3; i++) {
        Vector3 e{0, 0, 0};
        e[i] = 1;
        double d = baryLen(T.edgeLengths, qf.face, qf.faceCoords - e);
        double D = norm(P - intrinsicVertexPos(t, heOf(qf.face, i).vertex()));
        check(D <= d + tol * t.L, "to-input-distance", "mapped point is at distance ", D, " from a corner which is at intrinsic distance ", d);
      }
    }
    if (q.type == SurfacePointType::Vertex) {
      std::vector<double> s = closeLens(t.inLen, p, T.vertexLocations[q.vertex], tol * 30);
      check(!s.empty() && *std::min_element(s.begin(), s.end()) < tol * t.L, "to-input-vertex", "vertex maps to ", p);
    }
    if (q.type == SurfacePointType::Edge) { // lies on the traced edge at the right arclength
      std::vector<SurfacePoint> path = T.traceIntrinsicHalfedgeAlongInput(q.edge.halfedge());
      if (t.embedded) {
        double s = 0, want = q.tEdge * T.edgeLengths[q.edge], best = 1e300;
        for (size_t i = 0; i + 1 < path.size(); i++) {
          Vector3 a = inputPos(t, path[i]), b = inputPos(t, path[i + 1]);
          double d = norm(b - a);
          if (d > 0 && want >= s - tol * t.L && want <= s + d + tol * t.L) best = std::min(best, norm(a + (b - a) * ((want - s) / d) - inputPos(t, p)));
          s += d;
        }
        check(best <= 3 * tol * t.L, "to-input-edge", "point on an edge maps ", best, " away from the traced edge");
      }
    }
    if (t.signpost) {
      SurfacePoint b = T.equivalentPointOnIntrinsic(p);
      check(validPoint(N, b), "round-trip-valid", "invalid point ", b);
      std::vector<double> s = closeLens(T.edgeLengths, q, b, tol * 30);
      double D = s.empty() ? 1e300 : *std::min_element(s.begin(), s.end());
      if (s.empty() && t.flat) D = norm(flatPos(t, q) - flatPos(t, b));
      // a point within the tolerance of an edge or vertex may come back in a neighbouring face
      bool clear = q.type == SurfacePointType::Face;
      if (clear) check(D <= 3 * tol * t.L, "round-trip-intrinsic", "point ", q, " -> ", p, " -> ", b, " distance ", D);
      else if (!s.empty() || t.flat) check(D <= 3 * tol * t.L, "round-trip-intrinsic", "point ", q, " -> ", p, " -> ", b, " distance ", D);
      c.count("round trips");
    }
  }
  if (t.signpost)
    for (size_t k = 0; k < n; k++) {
      SurfacePoint p = randPoint(r, M);
      SurfacePoint q = T.equivalentPointOnIntrinsic(p);
      check(validPoint(N, q), "to-intrinsic-valid", "invalid point ", q, " for ", p);
      if (p.type == SurfacePointType::Vertex) check(sameVertexAs(q, N.vertex(p.vertex.getIndex())), "to-intrinsic-vertex", "vertex maps to ", q);
      SurfacePoint b = T.equivalentPointOnInput(q);
      check(validPoint(M, b), "round-trip-valid", "invalid point ", b);
      if (t.embedded) {
        nearV(inputPos(t, b), inputPos(t, p), 3 * tol * t.L, "round-trip-input", str("point ", p, " -> ", q, " -> ", b));
        if (t.flat) nearV(flatPos(t, q), inputPos(t, p), 3 * tol * t.L, "to-intrinsic-flat", "position on the intrinsic triangulation");
      } else {
        std::vector<double> s = closeLens(t.inLen, p, b, tol * 30);
        if (p.type == SurfacePointType::Face) check(!s.empty() && *std::min_element(s.begin(), s.end()) <= 3 * tol * t.L, "round-trip-input", "point ", p, " -> ", q, " -> ", b);
      }
      c.count("round trips");
    }
}
static double triBary(const std::array<Vector3, 3>& x) { // signed area relative to the face
  return x[0].x * (x[1].y * x[2].z - x[1].z * x[2].y) - x[0].y * (x[1].x * x[2].z - x[1].z * x[2].x) + x[0].z * (x[1].x * x[2].y - x[1].y * x[2].x);
}
static bool simplicial(ManifoldSurfaceMesh& m) {
  std::set<std::pair<size_t, size_t>> s;
  for (Edge e : m.edges()) {
    size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
    if (a == b) return false;
    if (!s.insert({std::min(a, b), std::max(a, b)}).second) return false;
  }
  return true;
}
// Signposts are floating point data: the documentation warns that the common subdivision cannot be recovered near
// degeneracies. General position: no inserted vertex on an input edge, no intrinsic edge (nearly) through a vertex.
static bool generalPosition(IT& t) {
  if (!t.signpost) return true;
  IntrinsicTriangulation& T = *t.T;
  SignpostIntrinsicTriangulation& S = *dynamic_cast<SignpostIntrinsicTriangulation*>(t.T.get());
  double eps = 1e-5;
  for (Vertex v : T.intrinsicMesh->vertices()) {
    const SurfacePoint& p = T.vertexLocations[v];
    if (p.type == SurfacePointType::Edge) return false;
    if (p.type == SurfacePointType::Face && std::min({p.faceCoords.x, p.faceCoords.y, p.faceCoords.z}) < eps) return false;
  }
  for (Edge e : T.intrinsicMesh->edges()) {
    std::vector<SurfacePoint> p = S.traceIntrinsicHalfedgeAlongInput(e.halfedge(), false), q = S.traceIntrinsicHalfedgeAlongInput(e.halfedge(), true);
    if (q.size() < p.size() && !e.isBoundary() && T.vertexLocations[e.halfedge().tipVertex()].type == SurfacePointType::Vertex) {
      Vertex v = T.vertexLocations[e.halfedge().tipVertex()].vertex; // trimmed: fine if only crumbs went
      for (size_t i = q.size() - 1; i + 1 < p.size(); i++)
        if (p[i].type == SurfacePointType::Edge) {
          double d = 1e300;
          if (p[i].edge.halfedge().tailVertex() == v) d = std::min(d, p[i].tEdge);
          if (p[i].edge.halfedge().tipVertex() == v) d = std::min(d, 1 - p[i].tEdge);
          if (d > eps) return false;
        }
    }
    for (size_t i = 1; i + 1 < q.size(); i++) {
      if (q[i].type != SurfacePointType::Edge || q[i].tEdge < eps || q[i].tEdge > 1 - eps) return false;
    }
  }
  return true;
}
static void checkSubdivision(Ctx& c, IT& t) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  ManifoldSurfaceMesh& M = *t.g.mesh;
  double tol = tolOf(t) * 10;
  if (!generalPosition(t)) {
    c.count("signposts not in general position");
    try { // no crash
      T.getCommonSubdivision().constructMesh();
    } catch (std::runtime_error&) {
    }
    resync(t);
    return;
  }
  if (t.signpost) c.count("signposts in general position");
  CommonSubdivision& cs = T.getCommonSubdivision();
  resync(t);
  ManifoldSurfaceMesh& N = *T.intrinsicMesh;
  check(&cs == &T.getCommonSubdivision(), "cs-cached", "subdivision rebuilt without a change");
  check(&cs.meshA == &M && &cs.meshB == &N, "cs-meshes", "meshA/meshB");
  size_t nv, ne, nf;
  std::tie(nv, ne, nf) = cs.elementCounts();
  check(nv == cs.nVertices() && ne == cs.nEdges() && nf == cs.nFaces(), "cs-counts", "element counts disagree");
  cs.constructMesh(false, false);
  check(cs.mesh->nVertices() == nv && cs.mesh->nEdges() == ne && cs.mesh->nFaces() == nf, "cs-counts", "polygon subdivision has V", cs.mesh->nVertices(), " E", cs.mesh->nEdges(), " F", cs.mesh->nFaces(), " counts say ", nv, " ", ne, " ", nf);
  {
    std::unique_ptr<SimplePolygonMesh> sp = cs.buildSimpleMesh();
    check(sp->nVertices() == nv && sp->nFaces() == nf, "cs-simple", "simple mesh size");
  }
  size_t x0 = 0, x1 = 0;
  for (Edge e : M.edges()) x0 += cs.pointsAlongA[e].size();
  (void)x1;
  c.count("crossings", nv - N.nVertices());
  check(cs.mesh->eulerCharacteristic() == M.eulerCharacteristic() && cs.mesh->nBoundaryLoops() == M.nBoundaryLoops(), "cs-topology", "topology of the subdivision");
  for (int tri = 0; tri < 2; tri++) {
    if (tri) cs.constructMesh(true, false);
    ManifoldSurfaceMesh& C = *cs.mesh;
    std::string K = tri ? "cs-tri" : "cs-poly";
    fullCheck(C, K + "-mesh", &c);
    if (tri) check(C.isTriangular() && C.nVertices() == nv, K, "not triangulated");
    // points
    for (Vertex v : C.vertices()) {
      CommonSubdivisionPoint& p = *cs.sourcePoints[v];
      check(validPoint(M, p.posA) && validPoint(N, p.posB), K + "-point", "invalid source point ", p);
      if (t.flat) nearV(inputPos(t, p.posA), flatPos(t, p.posB), 3 * tol * t.L, K + "-positions", str("positions on A and B of ", p));
    }
    // faces
    FaceData<double> sa(M, 0.), sb(N, 0.);
    for (Face f : C.faces()) {
      Face A = cs.sourceFaceA[f], B = cs.sourceFaceB[f];
      check(A != Face() && ownedBy(A, M) && B != Face() && ownedBy(B, N), K + "-source", "source faces");
      std::vector<Vector3> ca, cb;
      bool amb = false;
      for (Vertex v : f.adjacentVertices()) {
        auto a = coordsIn(A, cs.sourcePoints[v]->posA), b = coordsIn(B, cs.sourcePoints[v]->posB);
        check(!a.empty(), K + "-source-A", "corner ", cs.sourcePoints[v]->posA, " is not in source face ", A.getIndex());
        check(!b.empty(), K + "-source-B", "corner ", cs.sourcePoints[v]->posB, " is not in source face ", B.getIndex());
        if (a.size() > 1 || b.size() > 1) amb = true;
        ca.push_back(a[0]);
        cb.push_back(b[0]);
      }
      double ra = 0, rb = 0;
      for (size_t i = 1; i + 1 < ca.size(); i++) {
        ra += triBary({ca[0], ca[i], ca[i + 1]});
        rb += triBary({cb[0], cb[i], cb[i + 1]});
      }
      double aa = ra * faceArea(t.inLen, A), ab = rb * faceArea(T.edgeLengths, B);
      sa[A] += aa;
      sb[B] += amb ? aa : ab;
      check(aa > -tol * t.area, K + "-orientation", "negative area ", aa);
      if (!amb) near(ab, aa, tol * t.area, K + "-area", "area of a subdivision face on A and on B");
    }
    for (Face f : M.faces()) near(sa[f], faceArea(t.inLen, f), 3 * tol * t.area, K + "-partition-A", "total area inside a face of A");
    for (Face f : N.faces()) near(sb[f], faceArea(T.edgeLengths, f), 3 * tol * t.area, K + "-partition-B", "total area inside a face of B");
    // matrices
    SparseMatrix<double> PA = cs.interpolationMatrixA(), PB = cs.interpolationMatrixB();
    VertexData<double> da(M), db(N);
    for (Vertex v : M.vertices()) da[v] = r.uni(-1, 1);
    for (Vertex v : N.vertices()) db[v] = r.uni(-1, 1);
    VertexData<double> ia = cs.interpolateAcrossA(da), ib = cs.interpolateAcrossB(db);
    Vector<double> pa = PA * da.toVector(), pb = PB * db.toVector();
    check((size_t)PA.rows() == C.nVertices() && (size_t)PA.cols() == M.nVertices() && (size_t)PB.cols() == N.nVertices(), K + "-matrix", "matrix size");
    Vector<double> oa = PA * Vector<double>::Ones(M.nVertices()), ob = PB * Vector<double>::Ones(N.nVertices());
    size_t i = 0;
    for (Vertex v : C.vertices()) {
      auto evalOn = [&](const SurfacePoint& p, const VertexData<double>& d) {
        if (p.type == SurfacePointType::Vertex) return d[p.vertex];
        if (p.type == SurfacePointType::Edge) return (1 - p.tEdge) * d[p.edge.halfedge().tailVertex()] + p.tEdge * d[p.edge.halfedge().tipVertex()];
        return p.faceCoords.x * d[heOf(p.face, 0).vertex()] + p.faceCoords.y * d[heOf(p.face, 1).vertex()] + p.faceCoords.z * d[heOf(p.face, 2).vertex()];
      };
      near(ia[v], evalOn(cs.sourcePoints[v]->posA, da), 1e-9, K + "-interpolate-A", "interpolateAcrossA");
      near(ib[v], evalOn(cs.sourcePoints[v]->posB, db), 1e-9, K + "-interpolate-B", "interpolateAcrossB");
      near(pa(i), ia[v], 1e-9, K + "-matrix-A", "interpolationMatrixA");
      near(pb(i), ib[v], 1e-9, K + "-matrix-B", "interpolationMatrixB");
      near(oa(i), 1, 1e-6, K + "-rows-A", "row sum");
      near(ob(i), 1, 1e-6, K + "-rows-B", "row sum");
      i++;
    }
    FaceData<int> fa(M), fb(N);
    for (Face f : M.faces()) fa[f] = (int)f.getIndex();
    for (Face f : N.faces()) fb[f] = (int)f.getIndex();
    FaceData<int> ga = cs.copyFromA(fa), gb = cs.copyFromB(fb);
    for (Face f : C.faces()) check(ga[f] == (int)cs.sourceFaceA[f].getIndex() && gb[f] == (int)cs.sourceFaceB[f].getIndex(), K + "-copy", "copyFromA/B");
  }
  // lengths and mass
  ManifoldSurfaceMesh& C = *cs.mesh;
  bool simp = simplicial(N);
  EdgeData<double> la = cs.interpolateEdgeLengthsA(t.inLen);
  for (Edge e : C.edges()) {
    check(vf::finite(la[e]) && la[e] >= 0, "cs-length", "length");
    if (t.embedded) near(la[e], norm(inputPos(t, cs.sourcePoints[e.firstVertex()]->posA) - inputPos(t, cs.sourcePoints[e.secondVertex()]->posA)), tol * t.L, "cs-length-A", "length of a subdivision edge from A");
  }
  c.count(simp ? "simplicial intrinsic triangulations" : "Delta-complexes");
  EdgeData<double> lb = cs.interpolateEdgeLengthsB(T.edgeLengths);
  if (simp)
    for (Edge e : C.edges()) near(lb[e], la[e], 3 * tol * t.L, "cs-length-B", "length of a subdivision edge from B and from A");
  SparseMatrix<double> GA = cs.vertexGalerkinMassMatrixFromLengthsA(t.inLen);
  near(GA.sum(), t.area, 30 * tol * t.area, "cs-mass", "total mass");
  if (t.embedded) {
    SparseMatrix<double> GP = cs.vertexGalerkinMassMatrixFromPositionsA(t.g.geom->vertexPositions);
    near((DenseMatrix<double>(GA) - DenseMatrix<double>(GP)).cwiseAbs().maxCoeff(), 0, 30 * tol * t.area, "cs-mass-A", "mass matrices from positions and lengths");
  }
  if (simp) {
    SparseMatrix<double> GB = cs.vertexGalerkinMassMatrixFromLengthsB(T.edgeLengths);
    near((DenseMatrix<double>(GA) - DenseMatrix<double>(GB)).cwiseAbs().maxCoeff(), 0, 30 * tol * t.area, "cs-mass-B", "mass matrices from A and B");
  }
  // data at the vertices
  VertexData<double> da(M), db(N);
  for (Vertex v : M.vertices()) da[v] = r.uni(-1, 1);
  for (Vertex v : N.vertices()) db[v] = r.uni(-1, 1);
  VertexData<double> s = T.sampleFromInput(da), u = T.restrictToInput(db);
  std::unique_ptr<AttributeTransfer> at;
  if (t.embedded && (!simp || r.coin())) at.reset(new AttributeTransfer(cs, *t.g.geom));
  else if (simp) at.reset(new AttributeTransfer(T));
  for (Vertex v : N.vertices()) {
    const SurfacePoint& p = T.vertexLocations[v];
    double want = 0;
    if (p.type == SurfacePointType::Vertex) want = da[p.vertex];
    else if (p.type == SurfacePointType::Edge) want = (1 - p.tEdge) * da[p.edge.halfedge().tailVertex()] + p.tEdge * da[p.edge.halfedge().tipVertex()];
    else
      for (int i = 0; i < 3; i++) want += p.faceCoords[i] * da[heOf(p.face, i).vertex()];
    near(s[v], want, 1e-9, "sample", "sampleFromInput");
  }
  for (Vertex v : M.vertices()) check(u[v] == db[N.vertex(v.getIndex())], "restrict", "restrictToInput");
  if (!at) return;
  VertexData<double> ptw = at->transferAtoB(da, TransferMethod::Pointwise), ptb = at->transferBtoA(db, TransferMethod::Pointwise);
  for (Vertex v : N.vertices()) near(ptw[v], s[v], 1e-9, "transfer-pointwise", "pointwise A to B");
  for (Vertex v : M.vertices()) near(ptb[v], u[v], 1e-9, "transfer-pointwise", "pointwise B to A");
  VertexData<double> l2 = at->transferAtoB(da, TransferMethod::L2), l2b = at->transferBtoA(db, TransferMethod::L2);
  SparseMatrix<double> PA = cs.interpolationMatrixA(), PB = cs.interpolationMatrixB();
  SparseMatrix<double> PAt = PA.transpose(), PBt = PB.transpose();
  Vector<double> res = PBt * (GA * (PB * l2.toVector() - PA * da.toVector())), resb = PAt * (GA * (PA * l2b.toVector() - PB * db.toVector()));
  double sc = t.area * (1 + l2.toVector().cwiseAbs().maxCoeff());
  check(res.cwiseAbs().maxCoeff() <= 1e-6 * sc + 30 * tol * sc, "transfer-l2", "L2 transfer A to B does not satisfy the normal equations: ", res.cwiseAbs().maxCoeff());
  check(resb.cwiseAbs().maxCoeff() <= 1e-6 * t.area * (1 + l2b.toVector().cwiseAbs().maxCoeff()) + 30 * tol * sc, "transfer-l2", "L2 transfer B to A does not satisfy the normal equations: ", resb.cwiseAbs().maxCoeff());
  auto ab = at->constructAtoBMatrices(), ba = at->constructBtoAMatrices();
  Vector<double> r1 = ab.first * l2.toVector() - ab.second * da.toVector(), r2 = ba.first * l2b.toVector() - ba.second * db.toVector();
  check(r1.cwiseAbs().maxCoeff() <= 1e-6 * sc && r2.cwiseAbs().maxCoeff() <= 1e-6 * t.area * (1 + l2b.toVector().cwiseAbs().maxCoeff()), "transfer-matrices", "transfer matrices do not describe the transfer");
  VertexData<double> one(M, 3.);
  VertexData<double> c1 = at->transferAtoB(one, TransferMethod::L2);
  for (Vertex v : N.vertices()) near(c1[v], 3., 1e-5, "transfer-constant", "L2 transfer of a constant");
  c.count("transfers");
}
static void fam(Ctx& c, int kind) {
  Rng& r = c.rng;
  ITOpts o;
  o.kind = kind;
  o.geo.maxQ = 20;
  o.pMarks = 0.15;
  IT t = makeIT(c, o);
  if (t.g.mesh->nFaces() > 120) throw Skip("large");
  size_t rounds = 1 + r.below(c.thorough ? 4 : 3);
  double qmax = r.pick(std::vector<double>{30, 30, 100});
  for (size_t k = 0; k < rounds; k++) {
    edit(c, t, r.below(30), qmax);
    if (worstIT(t) > 500) return;
    resync(t);
    checkIT(c, t, "state", 1e-6);
    if (r.coin(0.6)) checkTraces(c, t);
    if (r.coin(0.6)) checkPoints(c, t, 8);
    if (r.coin(0.7)) {
      checkSubdivision(c, t);
      if (r.coin(0.3)) checkTraces(c, t);
    }
  }
}
int main(int argc, char** argv) {
  Suite S;
  S.add("signpost", 1, [](Ctx& c) { fam(c, 0); });
  S.add("integer", 1, [](Ctx& c) { fam(c, 1); });
  // known finding: trimTraceResult() removes every crossing of an edge at the target vertex from the end of the path, also
  // when the edge really winds around the target
  S.probe("trim-winding", [](Ctx& c) {
    ManifoldSurfaceMesh m(std::vector<std::vector<size_t>>{{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {0, 2, 1}});
    VertexPositionGeometry g(m);
    Vector3 X[4] = {{1, 0, 0}, {-0.5, 0.9, 0}, {-0.4, -0.8, 0}, {0, 0.1, 1.5}};
    for (size_t i = 0; i < 4; i++) g.inputVertexPositions[m.vertex(i)] = X[i];
    g.requireEdgeLengths();
    Rng r(12345);
    for (int trial = 0; trial < 300; trial++) {
      SignpostIntrinsicTriangulation T(m, g);
      for (int k = 0; k < 30; k++) T.flipEdgeIfPossible(T.intrinsicMesh->edge(r.below(T.intrinsicMesh->nEdges())));
      T.refreshQuantities();
      for (Halfedge h : m.halfedges()) {
        std::vector<SurfacePoint> p = T.traceInputHalfedgeAlongIntrinsic(h);
        if (p.size() == 2 && p[0].type == SurfacePointType::Vertex && p[1].type == SurfacePointType::Vertex) {
          std::vector<double> s = segLens(T.edgeLengths, p[0], p[1]);
          double best = 1e300;
          for (double l : s) best = std::min(best, std::abs(l - g.edgeLengths[h.edge()]));
          check(best < 1e-6, "trace-winding", "edge of length ", g.edgeLengths[h.edge()], " is returned as a straight path which is ", best, " longer or shorter");
        }
      }
    }
  });
  return run(S, argc, argv);
}
