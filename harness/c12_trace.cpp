// C12: tracing geodesics, compared with an independent long double unfolding.
#include "intri.h"
#include "geometrycentral/surface/trace_geodesic.h"
using namespace vf;

namespace {
struct V2 {
  LD x, y;
};
inline V2 operator+(V2 a, V2 b) { return {a.x + b.x, a.y + b.y}; }
inline V2 operator-(V2 a, V2 b) { return {a.x - b.x, a.y - b.y}; }
inline V2 operator*(LD s, V2 a) { return {s * a.x, s * a.y}; }
inline V2 cmul(V2 a, V2 b) { return {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; }
inline V2 conjV(V2 a) { return {a.x, -a.y}; }
inline LD crs(V2 a, V2 b) { return a.x * b.y - a.y * b.x; }
inline LD nrm(V2 a) { return sqrtl(a.x * a.x + a.y * a.y); }

// layout of the triangle of h with h on the x axis, tail at 0
struct Lay {
  V2 p[3];
};
Lay layout(const EdgeData<double>& l, Halfedge h) {
  LD a = l[h.edge()], b = l[h.next().edge()], c = l[h.next().next().edge()];
  LD ang = triAngle(b, a, c); // angle at the tail
  return {{{0, 0}, {a, 0}, {c * cosl(ang), c * sinl(ang)}}};
}
struct Ref {
  SurfacePoint end;
  V2 endDir;            // unit, in the frame of the end face's first halfedge, or of the edge where the trace stopped
  bool stopped = false; // hit boundary or barrier
  bool vague = false;   // came too close to a vertex
  LD length = 0, minVert = 1e300L;
  std::vector<SurfacePoint> cross;
  std::vector<LD> crossDirAng;
};
struct Metric {
  const EdgeData<double>* l;
  const EdgeData<bool>* barrier = nullptr;
  size_t maxCross = (size_t)-1;
};
// trace from point p (coordinates in the layout of h) with unit direction d; enterSide: p lies on h (side 0) and must not leave through it
void refGo(const Metric& M, Ref& R, Halfedge h, V2 p, V2 d, LD len, bool onSide0, bool fromVertex) {
  const EdgeData<double>& l = *M.l;
  for (size_t it = 0; it < 100000; it++) {
    Lay L = layout(l, h);
    LD best = 1e300L;
    int side = -1;
    for (int i = 0; i < 3; i++) {
      if (i == 0 && onSide0) continue;
      if (fromVertex && i != 1) continue; // only the opposite side
      V2 a = L.p[i], b = L.p[(i + 1) % 3], e = b - a;
      LD den = crs(d, e); // > 0 when leaving through this side (interior is on the left of e)
      if (!(crs(e, d) < 0)) continue;
      LD t = crs(a - p, e) / den;
      if (t < best) {
        best = t;
        side = i;
      }
    }
    if (side < 0) {
      R.vague = true;
      R.end = SurfacePoint(h, 0.5);
      return;
    }
    LD size = l[h.edge()] + l[h.next().edge()] + l[h.next().next().edge()];
    if (best < 0) best = 0;
    // distance of the ray to the corners within reach
    for (int i = 0; i < 3; i++) {
      V2 q = L.p[i] - p;
      LD along = q.x * d.x + q.y * d.y;
      LD dist = along < 0 ? nrm(q) : along > std::min(best, len) ? nrm(q - std::min(best, len) * d) : fabsl(crs(d, q));
      if (!(fromVertex && i == 0)) R.minVert = std::min(R.minVert, dist / size);
    }
    fromVertex = false;
    if (len < best) {
      V2 q = p + len * d;
      // barycentric coordinates w.r.t. h, then canonical
      LD A = crs(L.p[1], L.p[2]);
      LD b2 = crs(L.p[1], q) / A, b1 = crs(q, L.p[2]) / A;
      LD b[3] = {1 - b1 - b2, b1, b2};
      int k = 0;
      while (heOf(h.face(), k) != h) k++;
      Vector3 bc;
      for (int i = 0; i < 3; i++) bc[(k + i) % 3] = (double)b[i];
      R.end = SurfacePoint(h.face(), bc);
      // direction relative to the first halfedge
      V2 e = L.p[(3 - k) % 3 == 0 ? 1 : ((3 - k) % 3 + 1) % 3] - L.p[(3 - k) % 3];
      e = (1 / nrm(e)) * e;
      R.endDir = cmul(d, conjV(e));
      R.length += len;
      return;
    }
    R.length += best;
    len -= best;
    Halfedge x = h;
    for (int i = 0; i < side; i++) x = x.next();
    V2 a = L.p[side], e = L.p[(side + 1) % 3] - a;
    LD le = nrm(e);
    V2 q = p + best * d;
    LD t = ((q - a).x * e.x + (q - a).y * e.y) / (le * le);
    V2 u = cmul(d, conjV((1 / le) * e)); // direction relative to x
    SurfacePoint sp(x, (double)std::min<LD>(1, std::max<LD>(0, t)));
    bool barrier = M.barrier && (*M.barrier)[x.edge()];
    if (!x.twin().isInterior() || barrier || R.cross.size() >= M.maxCross) {
      R.end = sp;
      R.stopped = !x.twin().isInterior() || barrier;
      R.endDir = x == x.edge().halfedge() ? u : V2{-u.x, -u.y};
      return;
    }
    R.cross.push_back(sp);
    h = x.twin();
    LD lh = l[h.edge()];
    p = V2{(1 - t) * lh, 0};
    d = V2{-u.x, -u.y};
    onSide0 = true;
  }
  R.vague = true;
}
const double PI_ = M_PI;
struct Start {
  SurfacePoint p;
  Vector2 dir; // unit, in the canonical tangent space
};
// the reference trace of a geodesic from a surface point
Ref refTrace(const Metric& M, IntrinsicGeometryInterface& g, SurfacePoint s, double ang, double len) {
  Ref R;
  const EdgeData<double>& l = *M.l;
  if (s.type == SurfacePointType::Face) {
    Halfedge h = s.face.halfedge();
    Lay L = layout(l, h);
    V2 p = (LD)s.faceCoords.x * L.p[0] + (LD)s.faceCoords.y * L.p[1] + (LD)s.faceCoords.z * L.p[2];
    refGo(M, R, h, p, V2{cosl(ang), sinl(ang)}, len, false, false);
  } else if (s.type == SurfacePointType::Edge) {
    V2 d{cosl(ang), sinl(ang)};
    LD t = s.tEdge;
    Halfedge h = s.edge.halfedge();
    if (fabsl(d.y) < 1e-6L && d.y != 0) R.vague = true;
    if (d.y < 0) {
      h = h.twin();
      d = V2{-d.x, -d.y};
      t = 1 - t;
      if (!h.isInterior()) {
        R.end = s;
        R.stopped = true;
        R.endDir = V2{-d.x, -d.y};
        return R;
      }
    }
    refGo(M, R, h, V2{t * (LD)l[h.edge()], 0}, d, len, true, false);
  } else {
    Vertex v = s.vertex;
    LD total = 0;
    Halfedge h = v.halfedge();
    std::vector<Halfedge> hs;
    do {
      hs.push_back(h);
      total += cornerOf(l, h);
      h = h.next().next().twin();
    } while (h.isInterior() && h != v.halfedge());
    // the basis: the direction of the vertex' halfedge
    LD base = g.halfedgeVectorsInVertex[v.halfedge()].arg();
    LD rel = ang - base, full = v.isBoundary() ? PI_ : 2 * PI_;
    while (rel < -1e-12L) rel += 2 * PI_;
    while (rel >= 2 * PI_ - 1e-12L) rel -= 2 * PI_;
    if (v.isBoundary() && rel > full + 1e-12L) throw Skip("direction leaves the surface");
    LD th = rel * total / full;
    size_t k = 0;
    while (k + 1 < hs.size() && th >= cornerOf(l, hs[k])) th -= cornerOf(l, hs[k++]);
    LD co = cornerOf(l, hs[k]);
    if (th < 1e-5L || th > co - 1e-5L) R.vague = true;
    th = std::max<LD>(1e-15L, std::min<LD>(th, co));
    refGo(M, R, hs[k], V2{0, 0}, V2{cosl(th), sinl(th)}, len, false, true);
  }
  if (R.minVert < 1e-4L) R.vague = true;
  return R;
}
double angDiff(LD a, LD b) {
  LD d = a - b;
  d -= 2 * PI_ * roundl(d / (2 * PI_));
  return (double)fabsl(d);
}
struct Dom {
  IT t;                                   // intrinsic triangulation (with possible Delta-complex), or
  GeoMesh gm;                             // an embedded mesh
  bool intr = false, flat = false;
  IntrinsicGeometryInterface* g = nullptr;
  EdgeData<double> l;
  ManifoldSurfaceMesh* m = nullptr;
  double L = 0, q = 0;
};
Dom makeDom(Ctx& c) {
  Rng& r = c.rng;
  Dom d;
  d.intr = r.coin(0.35);
  if (d.intr) {
    ITOpts o;
    o.geo.maxQ = 12;
    o.pMarks = 0;
    o.pFlat = 0.2;
    d.t = makeIT(c, o);
    size_t n = r.below(20);
    for (size_t k = 0; k < n; k++) {
      std::vector<Edge> es;
      for (Edge e : d.t.T->intrinsicMesh->edges()) es.push_back(e);
      Edge e = r.pick(es);
      if (r.coin(0.15)) d.t.T->insertVertex(randPoint(r, *d.t.T->intrinsicMesh, 2, 0.2));
      else if (d.t.T->flipEdgeIfPossible(e) && std::max(faceQuality(d.t.T->edgeLengths, e.halfedge().face()), faceQuality(d.t.T->edgeLengths, e.halfedge().twin().face())) > 15)
        d.t.T->flipEdgeIfPossible(e);
    }
    d.t.T->refreshQuantities();
    d.m = d.t.T->intrinsicMesh.get();
    d.g = d.t.T.get();
    d.l = d.t.T->edgeLengths;
  } else {
    GeoOpts o;
    o.maxQ = 12;
    o.flat = d.flat = r.coin(0.35);
    o.logScale = 1;
    d.gm = geoMesh(c, o);
    d.m = d.gm.mesh.get();
    d.g = d.gm.geom.get();
    d.g->requireEdgeLengths();
    d.l = d.gm.geom->edgeLengths;
  }
  size_t n = 0;
  for (Edge e : d.m->edges()) { d.L += d.l[e]; n++; }
  d.L /= n;
  for (Face f : d.m->faces()) d.q = std::max(d.q, faceQuality(d.l, f));
  d.g->requireHalfedgeVectorsInVertex();
  d.g->requireHalfedgeVectorsInFace();
  d.g->requireVertexAngleSums();
  return d;
}
double closest(const EdgeData<double>& l, const SurfacePoint& a, const SurfacePoint& b) {
  // two nearly equal points may be reported on different sides of an edge
  double best = 1e300;
  for (double x : segLens(l, a, b)) best = std::min(best, x);
  return best;
}
void checkPath(Dom& d, const TraceGeodesicResult& t, SurfacePoint s, const std::string& K) {
  check(t.hasPath && !t.pathPoints.empty(), K + "-path", "no path returned");
  const std::vector<SurfacePoint>& P = t.pathPoints;
  check(P.front() == s, K + "-path-start", "path starts at ", P.front(), " instead of ", s);
  check(P.back() == t.endPoint, K + "-path-end", "path ends at ", P.back(), " but end point is ", t.endPoint);
  double sum = 0;
  bool ambiguous = false;
  for (size_t i = 0; i < P.size(); i++) {
    check(validPoint(*d.m, P[i]), K + "-path-point", "invalid point ", P[i], " in path");
    if (i && i + 1 < P.size()) check(P[i].type == SurfacePointType::Edge, K + "-path-crossing", "interior point ", i, " is ", P[i]);
    if (i) {
      std::vector<double> s = segLens(d.l, P[i - 1], P[i]);
      check(!s.empty(), K + "-path-connected", "consecutive points ", P[i - 1], " and ", P[i], " share no face");
      for (double x : s)
        if (std::abs(x - s[0]) > 1e-9 * d.L) ambiguous = true;
      sum += s[0];
    }
  }
  if (!ambiguous) near(sum, t.length, 1e-6 * (1 + d.q) * (d.L + t.length), K + "-path-length", "length of the path versus reported length");
}
void checkTrace(Ctx& c, Dom& d, const Metric& M, SurfacePoint s, double ang, double len, const TraceOptions& opt, TraceGeodesicResult t, const std::string& K, Ref* out = nullptr) {
  Ref R = refTrace(M, *d.g, s, ang, len);
  double tol = 1e-7 * (1 + d.q) * (1 + R.cross.size()) * (d.L + len);
  auto ctx = [&]() { return str("trace from ", s, " angle ", ang, " length ", len, " (", R.cross.size(), " crossings)"); };
  check(vf::finite(t.length) && t.length >= -tol && t.length <= len + tol, K + "-length", ctx(), ": reported length ", t.length);
  check(validPoint(*d.m, t.endPoint), K + "-end-point", ctx(), ": invalid end point ", t.endPoint);
  check(isfinite(t.endingDir), K + "-end-dir", ctx(), ": ending direction ", t.endingDir);
  near(norm(t.endingDir), 1, 1e-6, K + "-end-dir", ctx(), ": ending direction is no unit vector");
  bool limited = opt.maxIters != INVALID_IND;
  if (t.hitBoundary) {
    check(t.endPoint.type == SurfacePointType::Edge, K + "-hit-boundary", ctx(), " stopped at ", t.endPoint);
    check(t.endPoint.edge.isBoundary() || (M.barrier && (*M.barrier)[t.endPoint.edge]), K + "-hit-boundary", ctx(), " stopped at an edge which is neither boundary nor barrier");
  } else if (!limited) {
    near(t.length, len, 1e-9 * len, K + "-length", ctx(), ": length of a trace which was not stopped");
    check(t.endPoint.type == SurfacePointType::Face, K + "-end-type", ctx(), ": ends at ", t.endPoint);
  }
  check(t.hasPath == opt.includePath, K + "-has-path", "hasPath");
  if (opt.includePath) checkPath(d, t, s, K);
  else check(t.pathPoints.empty(), K + "-has-path", "path returned although not requested");
  if (out) *out = R;
  c.count("traces");
  if (R.vague) {
    c.count("traces which pass close to a vertex (path consistency only)");
    return;
  }
  // end at an edge within rounding?
  bool nearEdge = false;
  if (R.end.type == SurfacePointType::Face)
    for (int i = 0; i < 3; i++)
      if (R.end.faceCoords[i] < 1e-6) nearEdge = true;
  if (nearEdge) return;
  c.count("traces compared with the reference");
  c.count("edge crossings compared", R.cross.size());
  c.sig(hashD(t.length));
  check(t.hitBoundary == R.stopped, K + "-stopped", ctx(), ": hitBoundary ", t.hitBoundary, " expected ", R.stopped, " at ", R.end);
  near(t.length, (double)R.length, tol, K + "-length", ctx());
  double e = closest(d.l, t.endPoint, R.end);
  check(e <= tol, K + "-end-point", ctx(), ": ends at ", t.endPoint, " expected ", R.end, " distance ", e, " tol ", tol);
  if (t.endPoint.type == R.end.type && (t.endPoint.type == SurfacePointType::Face ? t.endPoint.face == R.end.face : t.endPoint.edge == R.end.edge)) {
    double a = angDiff(atan2l(t.endingDir.y, t.endingDir.x), atan2l(R.endDir.y, R.endDir.x));
    check(a < 1e-5 * (1 + d.q), K + "-end-dir", ctx(), ": ending direction at ", t.endPoint, " is off by ", a);
  } else
    fail(K + "-end-point", ctx(), ": ends at ", t.endPoint, " expected ", R.end);
  if (opt.includePath) {
    check(t.pathPoints.size() == R.cross.size() + 2, K + "-crossings", ctx(), ": ", t.pathPoints.size() - 2, " crossings, expected ", R.cross.size());
    for (size_t i = 0; i < R.cross.size(); i++) {
      const SurfacePoint& p = t.pathPoints[i + 1];
      check(p.edge == R.cross[i].edge, K + "-crossings", ctx(), ": crossing ", i, " is at ", p, " expected ", R.cross[i]);
      near(p.tEdge, R.cross[i].tEdge, tol / d.l[p.edge], K + "-crossings", ctx(), ": crossing ", i);
    }
  }
}
double randAngle(Ctx& c, Dom& d, const SurfacePoint& s) {
  Rng& r = c.rng;
  double a = r.uni(-PI_, PI_);
  if (s.type == SurfacePointType::Vertex) {
    Vertex v = s.vertex;
    double base = d.g->halfedgeVectorsInVertex[v.halfedge()].arg();
    if (v.isBoundary()) a = base + r.uni(0.001, 0.999) * PI_;
    if (r.coin(0.1)) { // along an edge
      std::vector<Halfedge> hs;
      for (Halfedge h : v.outgoingHalfedges()) hs.push_back(h);
      a = d.g->halfedgeVectorsInVertex[r.pick(hs)].arg();
    }
  } else if (s.type == SurfacePointType::Edge) {
    if (r.coin(0.1)) a = r.coin() ? 0. : PI_;
  } else if (r.coin(0.1)) {
    a = d.g->halfedgeVectorsInFace[heOf(s.face, r.below(3))].arg();
  }
  return a;
}
Vector3 posAt(Dom& d, const SurfacePoint& p) { return posOn(d.gm.geom->vertexPositions, p); }
double randLen(Rng& r, double L) {
  switch (r.below(4)) {
  case 0: return L * r.uni(0.01, 0.4);
  case 1: return L * r.uni(0.4, 3);
  case 2: return L * r.uni(3, 20);
  default: return L * std::pow(10., r.uni(-8, 1.3));
  }
}
} // namespace

int main(int argc, char** argv) {
  Suite S;
  S.add("polar", 6, [](Ctx& c) {
    Rng& r = c.rng;
    Dom d = makeDom(c);
    for (int k = 0; k < 12; k++) {
      SurfacePoint s = randPoint(r, *d.m, r.below(3), 0.02);
      double ang = randAngle(c, d, s), len = randLen(r, d.L);
      TraceOptions o;
      o.includePath = r.coin(0.8);
      EdgeData<bool> barrier;
      Metric M;
      M.l = &d.l;
      if (r.coin(0.25)) {
        barrier = EdgeData<bool>(*d.m, false);
        for (Edge e : d.m->edges())
          if (r.coin(0.15) && !(s.type == SurfacePointType::Edge && s.edge == e)) {
            // directions along a barrier are ambiguous: none at the start vertex
            if (s.type == SurfacePointType::Vertex && (e.firstVertex() == s.vertex || e.secondVertex() == s.vertex)) continue;
            barrier[e] = true;
          }
        o.barrierEdges = &barrier;
        M.barrier = &barrier;
      }
      if (r.coin(0.15)) {
        o.maxIters = r.below(6);
        M.maxCross = o.maxIters;
      }
      Vector2 v = len * Vector2::fromAngle(ang);
      bool outward = s.type == SurfacePointType::Edge && s.edge.isBoundary() && v.y < 0;
      TraceGeodesicResult t = traceGeodesic(*d.g, s, v, o);
      Ref R;
      checkTrace(c, d, M, s, ang, len, o, t, "polar", &R);
      // planar domains: a straight line
      if (d.flat && s.type != SurfacePointType::Edge && !outward && !t.hitBoundary && o.maxIters == INVALID_IND && !R.vague) {
        Vector3 p = posAt(d, s), q = posAt(d, t.endPoint);
        double tol = 1e-6 * (1 + d.q) * (d.L + len);
        if (!(s.type == SurfacePointType::Vertex && s.vertex.isBoundary()) && s.type == SurfacePointType::Vertex) {
          // interior vertices of a planar domain have angle sum 2 pi
          near(norm(q - p), len, tol, "flat", "distance of the end points");
        }
        if (s.type == SurfacePointType::Face) near(norm(q - p), len, tol, "flat", "distance of the end points");
        for (auto& x : t.pathPoints) near(norm(posAt(d, x) - p) + norm(posAt(d, x) - q), len, tol, "flat-straight", "path point is not on the line");
        c.count("planar traces");
      }
      // the way back
      if (!t.hitBoundary && o.maxIters == INVALID_IND && !R.vague && t.endPoint.type == SurfacePointType::Face) {
        bool ok = true;
        for (int i = 0; i < 3; i++)
          if (t.endPoint.faceCoords[i] < 1e-5) ok = false;
        if (s.type == SurfacePointType::Vertex) ok = false; // ends at a vertex: tested by path consistency
        if (!ok) continue;
        TraceOptions o2;
        o2.includePath = true;
        Vector2 w = -len * t.endingDir;
        TraceGeodesicResult b = traceGeodesic(*d.g, t.endPoint, w, o2);
        double tol = 1e-6 * (1 + d.q) * (2 + R.cross.size()) * (d.L + len);
        double e = closest(d.l, b.endPoint, s);
        if (e > tol && s.type == SurfacePointType::Edge)
          for (size_t i = 0; i + 1 < b.pathPoints.size(); i++) {
            double x = closest(d.l, b.pathPoints[i], s);
            if (i + 2 >= b.pathPoints.size()) e = std::min(e, x);
          }
        check(e <= tol, "reverse", "trace from ", s, " angle ", ang, " length ", len, " ends at ", t.endPoint, "; the way back ends at ", b.endPoint, " distance ", e, " tol ", tol);
        c.count("round trips");
      }
    }
  });
  S.add("bary", 3, [](Ctx& c) {
    Rng& r = c.rng;
    Dom d = makeDom(c);
    Metric M;
    M.l = &d.l;
    for (int k = 0; k < 10; k++) {
      SurfacePoint s = randPoint(r, *d.m, 2, 0.02);
      double sc = std::pow(10., r.uni(-3, 1));
      Vector3 v{sc * r.uni(-1, 1), sc * r.uni(-1, 1), 0};
      v.z = -v.x - v.y;
      if (r.coin(0.1)) { // along an edge direction
        int i = r.below(3);
        v = Vector3{0, 0, 0};
        v[i] = sc;
        v[(i + 1) % 3] = -sc;
      }
      double len = baryLen(d.l, s.face, v);
      Lay L = layout(d.l, s.face.halfedge());
      V2 w = (LD)v.x * L.p[0] + (LD)v.y * L.p[1] + (LD)v.z * L.p[2];
      double ang = (double)atan2l(w.y, w.x);
      TraceOptions o;
      o.includePath = r.coin(0.8);
      // a displacement which stays within the face ends exactly there
      TraceGeodesicResult t = traceGeodesic(*d.g, s.face, s.faceCoords, v, o);
      Vector3 e = s.faceCoords + v;
      if (e.x > 1e-9 && e.y > 1e-9 && e.z > 1e-9) {
        check(t.endPoint.type == SurfacePointType::Face && t.endPoint.face == s.face, "bary-inside", "displacement within a face ends at ", t.endPoint);
        check(norm(t.endPoint.faceCoords - e) < 1e-12 * (1 + sc), "bary-inside", "displacement within a face ends at ", t.endPoint, " expected ", e);
      }
      checkTrace(c, d, M, s, ang, len, o, t, "bary");
      // the same trace again with a polar vector
      TraceGeodesicResult t2 = traceGeodesic(*d.g, s, len * Vector2::fromAngle(ang), o);
      checkTrace(c, d, M, s, ang, len, o, t2, "bary-polar");
    }
  });
  // starting at points on edges and corners given as face coordinates
  S.add("degenerate-start", 2, [](Ctx& c) {
    Rng& r = c.rng;
    Dom d = makeDom(c);
    Metric M;
    M.l = &d.l;
    for (int k = 0; k < 10; k++) {
      SurfacePoint s = randPoint(r, *d.m, 2, 0.05);
      int i = r.below(3);
      if (r.coin()) { // on an edge
        double t = r.uni(0.05, 0.95);
        s.faceCoords = Vector3{0, 0, 0};
        s.faceCoords[i] = t;
        s.faceCoords[(i + 1) % 3] = 1 - t;
      } else {
        s.faceCoords = Vector3{0, 0, 0};
        s.faceCoords[i] = 1;
      }
      double ang = r.uni(-PI_, PI_), len = randLen(r, d.L);
      TraceOptions o;
      o.includePath = true;
      TraceGeodesicResult t = traceGeodesic(*d.g, s, len * Vector2::fromAngle(ang), o);
      double tol = 1e-6 * (1 + d.q) * (d.L + len);
      check(vf::finite(t.length) && t.length >= -tol && t.length <= len + tol, "degenerate-length", "reported length ", t.length);
      if (!t.hitBoundary) near(t.length, len, 1e-12 * len, "degenerate-length", "length");
      check(validPoint(*d.m, t.endPoint), "degenerate-end", "invalid end point ", t.endPoint);
      checkPath(d, t, s, "degenerate");
      if (s.faceCoords[i] < 1) { // pointing inside: same as from the edge
        Halfedge h = heOf(s.face, i);
        Vector2 e = d.g->halfedgeVectorsInFace[h].normalize();
        Vector2 u = Vector2::fromAngle(ang) / e;
        if (std::abs(u.y) > 0.01) {
          SurfacePoint se(h, s.faceCoords[(i + 1) % 3]);
          if (h != h.edge().halfedge()) u = -u;
          Ref R = refTrace(M, *d.g, se, u.arg(), len);
          bool interiorEnd = R.end.type == SurfacePointType::Face && R.end.faceCoords.x > 1e-5 && R.end.faceCoords.y > 1e-5 && R.end.faceCoords.z > 1e-5;
          if (!R.vague && (interiorEnd || R.stopped)) {
            double dist = closest(d.l, t.endPoint, R.end);
            check(dist <= 10 * tol * (1 + R.cross.size()), "degenerate-end", "trace from ", s, " ends at ", t.endPoint, " expected ", R.end, " distance ", dist);
            c.count("traces from edge points in a face compared");
          }
        }
      }
      c.sig(hashD(t.length));
    }
  });
  S.add("zero", 1, [](Ctx& c) {
    Rng& r = c.rng;
    Dom d = makeDom(c);
    for (int k = 0; k < 6; k++) {
      SurfacePoint s = randPoint(r, *d.m, r.below(3), 0.02);
      TraceOptions o;
      o.includePath = r.coin();
      TraceGeodesicResult t = traceGeodesic(*d.g, s, Vector2::zero(), o);
      check(t.length == 0 && !t.hitBoundary, "zero-length", "length of a zero trace is ", t.length);
      check(t.endPoint == s, "zero-end", "a trace of length zero from ", s, " ends at ", t.endPoint);
      if (o.includePath) checkPath(d, t, s, "zero");
      SurfacePoint f = randPoint(r, *d.m, 2, 0.02);
      t = traceGeodesic(*d.g, f.face, f.faceCoords, Vector3::zero(), o);
      check(t.length == 0 && !t.hitBoundary, "zero-length", "length of a zero trace is ", t.length);
      check(t.endPoint == f, "zero-end", "a trace of length zero from ", f, " ends at ", t.endPoint);
      c.sig(k);
      TraceOptions oe;
      oe.errorOnProblem = true;
      throws([&] { traceGeodesic(*d.g, s, Vector2::zero(), oe); }, "zero-error", "errorOnProblem");
    }
  });
  // tracing to (the vicinity of) a vertex and trimming
  S.add("trim", 2, [](Ctx& c) {
    Rng& r = c.rng;
    Dom d = makeDom(c);
    for (int k = 0; k < 10; k++) {
      std::vector<Halfedge> hs;
      for (Halfedge h : d.m->halfedges()) if (h.isInterior()) hs.push_back(h);
      // from the vertex opposite across an edge straight to the other opposite vertex, through the unfolded diamond
      Halfedge h = r.pick(hs);
      if (h.edge().isBoundary()) continue;
      Halfedge g = h.twin();
      Lay A = layout(d.l, h), B = layout(d.l, g);
      LD lh = d.l[h.edge()];
      V2 apex{lh - B.p[2].x, -B.p[2].y}; // the far vertex in h's frame
      SurfacePoint s = randPoint(r, *d.m, 2, 0.1);
      s.face = h.face();
      int i = 0;
      while (heOf(s.face, i) != h) i++;
      LD b[3] = {s.faceCoords[i], s.faceCoords[(i + 1) % 3], s.faceCoords[(i + 2) % 3]};
      V2 p = b[0] * A.p[0] + b[1] * A.p[1] + b[2] * A.p[2];
      V2 u = apex - p;
      LD x = p.x + u.x * (p.y / -u.y);
      if (!(x > 0.02L * lh && x < 0.98L * lh)) continue;
      V2 e = A.p[i == 0 ? 1 : i == 1 ? 0 : 2] - A.p[0];
      // angle relative to the first halfedge of the face
      Halfedge h0 = s.face.halfedge();
      LD base = h0 == h ? 0 : h0 == h.next() ? atan2l(A.p[2].y - A.p[1].y, A.p[2].x - A.p[1].x) : atan2l(-A.p[2].y, -A.p[2].x);
      (void)e;
      double ang = (double)(atan2l(u.y, u.x) - base);
      double len = (double)nrm(u) * (r.coin() ? 1 : 1 + r.uni(-1e-9, 1e-9));
      TraceOptions o;
      o.includePath = true;
      TraceGeodesicResult t = traceGeodesic(*d.g, s, len * Vector2::fromAngle(ang), o);
      Vertex target = g.next().next().vertex();
      checkPath(d, t, s, "trim-before");
      bool ok = trimTraceResult(t, target);
      check(ok, "trim", "trace straight to a vertex from ", s, " could not be trimmed, ends at ", t.endPoint);
      check(!t.pathPoints.empty(), "trim", "empty path");
      // the remaining path must end in the star of the target, and the straight rest has the right length
      double sum = 0;
      for (size_t j = 1; j < t.pathPoints.size(); j++) {
        std::vector<double> sl = segLens(d.l, t.pathPoints[j - 1], t.pathPoints[j]);
        check(!sl.empty(), "trim", "disconnected path");
        sum += sl[0];
      }
      std::vector<double> sl = segLens(d.l, t.pathPoints.back(), SurfacePoint(target));
      check(!sl.empty(), "trim", "trimmed path ends at ", t.pathPoints.back(), " which is not next to the target");
      double best = 1e300;
      for (double y : sl) best = std::min(best, std::abs(sum + y - (double)nrm(u)));
      bool again = h.face() == g.face(); // a face which touches the target itself: see the finding trim-winding of C11
      for (int j = 0; j < 3; j++)
        if (heOf(h.face(), j).vertex() == target) again = true;
      if (!again) check(best <= 1e-6 * (1 + d.q) * (d.L + len), "trim", "trimmed path to the vertex has length error ", best);
      c.count("trimmed traces");
      c.sig(hashD(len));
    }
  });
  return run(S, argc, argv);
}
