// C14: polyhedral distances and shortest paths, against an unfolding oracle.
#include "intri.h"
#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/exact_polyhedral_geodesics.h"
#include "geometrycentral/surface/fast_marching_method.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/trace_geodesic.h"
#include "vf.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace vf;

namespace {
const double INF = std::numeric_limits<double>::infinity();
struct Occ {
  size_t f;
  Vector3 b;
};
// ---- reference: straight lines by unfolding, composed by Dijkstra over the vertices
struct Oracle {
  size_t nV = 0;
  std::vector<std::array<size_t, 3>> fv, fe; // side i joins corners i, i+1
  std::vector<double> len;
  std::vector<std::vector<std::pair<size_t, int>>> eSides;
  std::vector<std::vector<std::pair<size_t, int>>> vCorners;
  std::map<size_t, size_t> vId, eId, fId;
  std::vector<std::vector<Occ>> points;           // sources and targets
  std::vector<std::vector<std::pair<size_t, Vector3>>> inFace; // points by face
  std::vector<std::vector<double>> vv, pv, vp, pp; // straight-line distances
  size_t windows = 0;
  Oracle(SurfaceMesh& m, const EdgeData<double>& l) {
    for (Vertex v : m.vertices()) vId[v.getIndex()] = nV++;
    size_t k = 0;
    for (Edge e : m.edges()) {
      eId[e.getIndex()] = k++;
      len.push_back(l[e]);
    }
    eSides.resize(k);
    vCorners.resize(nV);
    k = 0;
    for (Face f : m.faces()) {
      fId[f.getIndex()] = k;
      std::array<size_t, 3> a, b;
      for (int i = 0; i < 3; i++) {
        a[i] = vId[heOf(f, i).vertex().getIndex()];
        b[i] = eId[heOf(f, i).edge().getIndex()];
        eSides[b[i]].push_back({k, i});
        vCorners[a[i]].push_back({k, i});
      }
      if (a[0] == a[1] || a[1] == a[2] || a[0] == a[2]) throw Skip("self edge");
      fv.push_back(a);
      fe.push_back(b);
      k++;
    }
    inFace.resize(k);
  }
  std::vector<Occ> occ(const SurfacePoint& s) {
    std::vector<Occ> r;
    for (Face f : facesOf(s))
      for (auto& b : coordsIn(f, s)) r.push_back({fId[f.getIndex()], b});
    return r;
  }
  size_t addPoint(const SurfacePoint& s) {
    points.push_back(occ(s));
    for (auto& o : points.back()) inFace[o.f].push_back({points.size() - 1, o.b});
    return points.size() - 1;
  }
  std::vector<double> edgeDijkstra(std::vector<double> init) {
    std::set<std::pair<double, size_t>> q;
    for (size_t v = 0; v < nV; v++)
      if (init[v] < INF) q.insert({init[v], v});
    while (!q.empty()) {
      auto t = *q.begin();
      q.erase(q.begin());
      size_t v = t.second;
      for (auto& c : vCorners[v])
        for (int s : {c.second, (c.second + 2) % 3}) {
          size_t w = fv[c.first][s == c.second ? (s + 1) % 3 : s];
          double d = t.first + len[fe[c.first][s]];
          if (d < init[w]) {
            q.erase({init[w], w});
            init[w] = d;
            q.insert({d, w});
          }
        }
    }
    return init;
  }
  static Vector2 third(Vector2 a, Vector2 b, double la, double lb) { // left of a->b, at distances la, lb
    Vector2 d = b - a;
    double L = d.norm();
    double x = (la * la - lb * lb + L * L) / (2 * L);
    double y = 2 * (double)triArea(L, la, lb) / L;
    Vector2 u = d / L;
    return a + x * u + y * Vector2{-u.y, u.x};
  }
  std::vector<double>*ub, *outV, *outP;
  double ubMax = 0;
  // the light leaves through side s of face f, into the other faces of the edge
  void shoot(size_t e, size_t fromFace, int fromSide, size_t vl, Vector2 L, Vector2 R, Vector2 wl, Vector2 wr, int depth) {
    if (++windows > 400000) throw Skip("oracle window limit");
    if (depth > 300) throw Skip("oracle depth");
    if (!(cross(wr, wl) > 1e-13 * wl.norm() * wr.norm())) return;
    // the lit part of the edge
    auto hit = [&](Vector2 w) {
      Vector2 d = L - R;
      double den = cross(w, d);
      double t = den > 0 ? -cross(w, R) / den : 0;
      return R + std::min(1., std::max(0., t)) * d;
    };
    Vector2 x0 = hit(wr), x1 = hit(wl);
    Vector2 d = x1 - x0;
    double t = d.norm2() > 0 ? std::min(1., std::max(0., -dot(x0, d) / d.norm2())) : 0;
    double mn = (x0 + t * d).norm();
    size_t vr = 0;
    for (auto& s : eSides[e]) {
      size_t a = fv[s.first][s.second], b = fv[s.first][(s.second + 1) % 3];
      vr = a == vl ? b : a;
    }
    double slack = 1 + 1e-9;
    if (mn > slack * ((*ub)[vl] + std::max((L - x0).norm(), (L - x1).norm()))) return;
    if (mn > slack * ((*ub)[vr] + std::max((R - x0).norm(), (R - x1).norm()))) return;
    for (auto& s : eSides[e]) {
      if (s.first == fromFace && s.second == fromSide) continue;
      size_t f = s.first;
      int i = s.second;
      bool aL = fv[f][i] == vl; // corner i is the left end
      size_t vn = fv[f][(i + 2) % 3];
      double lN1 = len[fe[f][(i + 1) % 3]], lN0 = len[fe[f][(i + 2) % 3]]; // from corner i+1, from corner i
      double dl = aL ? lN0 : lN1, dr = aL ? lN1 : lN0;
      Vector2 N = third(L, R, dl, dr);
      double eps = 1e-12 * N.norm();
      bool inL = cross(N, wl) >= -eps * wl.norm(), inR = cross(wr, N) >= -eps * wr.norm();
      if (inL && inR) {
        (*outV)[vn] = std::min((*outV)[vn], N.norm());
        (*ub)[vn] = std::min((*ub)[vn], N.norm());
      }
      for (auto& p : inFace[f]) {
        Vector2 P = p.second[i] * (aL ? L : R) + p.second[(i + 1) % 3] * (aL ? R : L) + p.second[(i + 2) % 3] * N;
        if (cross(P, wl) >= -eps * wl.norm() && cross(wr, P) >= -eps * wr.norm()) (*outP)[p.first] = std::min((*outP)[p.first], P.norm());
      }
      // sides: left one joins L and N, right one N and R
      int sl = aL ? (i + 2) % 3 : (i + 1) % 3, sr = aL ? (i + 1) % 3 : (i + 2) % 3;
      Vector2 ml = cross(N, wl) > 0 ? N : wl, mr = cross(wr, N) > 0 ? N : wr;
      // ml: left limit of the right part ; mr: right limit of the left part
      if (cross(N, wl) > 0) shoot(fe[f][sl], f, sl, vl, L, N, wl, cross(wr, N) > 0 ? N : wr, depth + 1);
      if (cross(wr, N) > 0) shoot(fe[f][sr], f, sr, vn, N, R, cross(N, wl) > 0 ? N : wl, wr, depth + 1);
      (void)ml;
      (void)mr;
    }
  }
  void straight(const std::vector<Occ>& src, std::vector<double>& oV, std::vector<double>& oP) {
    oV.assign(nV, INF);
    oP.assign(points.size(), INF);
    struct Start {
      size_t f;
      std::array<Vector2, 3> q;
      Vector3 b;
    };
    std::vector<Start> st;
    for (auto& o : src) {
      double l0 = len[fe[o.f][0]], l1 = len[fe[o.f][1]], l2 = len[fe[o.f][2]];
      Start s;
      s.f = o.f;
      s.b = o.b;
      s.q[0] = Vector2{0, 0};
      s.q[1] = Vector2{l0, 0};
      s.q[2] = third(s.q[0], s.q[1], l2, l1);
      Vector2 c = o.b.x * s.q[0] + o.b.y * s.q[1] + o.b.z * s.q[2];
      for (int i = 0; i < 3; i++)
        if (o.b[i] == 1) c = s.q[i];
      for (auto& x : s.q) x -= c;
      st.push_back(s);
      for (int i = 0; i < 3; i++) oV[fv[o.f][i]] = std::min(oV[fv[o.f][i]], s.q[i].norm());
      for (auto& p : inFace[o.f]) {
        Vector2 P = p.second.x * s.q[0] + p.second.y * s.q[1] + p.second.z * s.q[2];
        oP[p.first] = std::min(oP[p.first], P.norm());
      }
    }
    std::vector<double> u = edgeDijkstra(oV);
    ub = &u;
    outV = &oV;
    outP = &oP;
    for (auto& s : st)
      for (int i = 0; i < 3; i++)
        if (s.b[(i + 2) % 3] > 0) // side i does not contain the source
          // seen from inside the face, corner i+1 of a counter-clockwise triangle is to the left
          shoot(fe[s.f][i], s.f, i, fv[s.f][(i + 1) % 3], s.q[(i + 1) % 3], s.q[i], s.q[(i + 1) % 3], s.q[i], 0);
  }
  void solve() {
    vv.resize(nV);
    vp.resize(nV);
    for (size_t v = 0; v < nV; v++) {
      std::vector<Occ> o;
      for (auto& c : vCorners[v]) {
        Vector3 b{0, 0, 0};
        b[c.second] = 1;
        o.push_back({c.first, b});
      }
      straight(o, vv[v], vp[v]);
      vv[v][v] = 0;
    }
    pv.resize(points.size());
    pp.resize(points.size());
    for (size_t p = 0; p < points.size(); p++) straight(points[p], pv[p], pp[p]);
  }
  // distances from a set of points with offsets to the vertices
  std::vector<double> toVertices(size_t p) {
    std::vector<double> d = pv[p];
    std::set<std::pair<double, size_t>> q;
    for (size_t v = 0; v < nV; v++)
      if (d[v] < INF) q.insert({d[v], v});
    while (!q.empty()) {
      auto t = *q.begin();
      q.erase(q.begin());
      for (size_t w = 0; w < nV; w++) {
        double n = t.first + vv[t.second][w];
        if (n < d[w]) {
          q.erase({d[w], w});
          d[w] = n;
          q.insert({n, w});
        }
      }
    }
    return d;
  }
  double toPoint(size_t p, const std::vector<double>& dv, size_t q) {
    double d = pp[p][q];
    for (size_t v = 0; v < nV; v++) d = std::min(d, dv[v] + vp[v][q]);
    return d;
  }
};

struct World {
  std::unique_ptr<SurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> pos;
  std::unique_ptr<EdgeLengthGeometry> lg;
  EdgeData<double> len;
  bool manifold = true, oriented = true, embedded = true;
  double L = 0, diam = 0;
  IntrinsicGeometryInterface& g() { return lg ? (IntrinsicGeometryInterface&)*lg : (IntrinsicGeometryInterface&)*pos; }
};
// kinds: 0 oriented manifold, 1 general
World makeWorld(Ctx& c, int kind, size_t maxF, double pLen = 0.3, double maxQ = 25) {
  Rng& r = c.rng;
  World w;
  for (int tries = 0; tries < 60; tries++) {
    w = World();
    if (kind == 0) {
      GeoOpts go;
      go.maxQ = maxQ;
      go.logScale = 1.5;
      go.maxScramble = 20;
      go.flat = r.coin(0.2);
      GeoMesh g = geoMesh(c, go);
      w.mesh = std::move(g.mesh);
      w.pos = std::move(g.geom);
    } else {
      Soup s = randomSoup(r);
      triangulateSoup(s);
      jitter(s, r, 0.03);
      if (!(worstQuality(s) < maxQ)) continue;
      w.mesh.reset(new SurfaceMesh(s.polys));
      w.pos.reset(new VertexPositionGeometry(*w.mesh, positions(*w.mesh, s)));
      w.manifold = w.mesh->isManifold();
      w.oriented = w.mesh->isOriented();
      c.sig(hashPolys(s.polys));
      c.note = s.desc + " " + showPolys(s.polys);
    }
    if (w.mesh->nFaces() > maxF || w.mesh->nFaces() < 1) continue;
    w.len = EdgeData<double>(*w.mesh);
    for (Edge e : w.mesh->edges()) w.len[e] = norm(w.pos->vertexPositions[e.firstVertex()] - w.pos->vertexPositions[e.secondVertex()]);
    if (r.coin(pLen)) {
      w.embedded = false;
      double amt = r.uni(0.02, 0.3);
      bool ok = false;
      for (int k = 0; k < 10 && !ok; k++, amt *= 0.6) {
        EdgeData<double> l(*w.mesh);
        for (Edge e : w.mesh->edges()) l[e] = w.len[e] * r.uni(1 - amt, 1 + amt);
        ok = true;
        for (Face f : w.mesh->faces()) ok = ok && faceQuality(l, f) < maxQ;
        if (ok) w.len = l;
      }
      if (!ok) continue;
      w.lg.reset(new EdgeLengthGeometry(*w.mesh, w.len));
    }
    for (Edge e : w.mesh->edges()) w.L = std::max(w.L, w.len[e]);
    if (r.coin(0.3)) { // no special direction is left by geometry being managed before
      w.g().requireEdgeLengths();
    }
    return w;
  }
  throw Skip("no mesh");
}
std::vector<Face> shared(const SurfacePoint& a, const SurfacePoint& b) {
  std::vector<Face> fa = facesOf(a), fb = facesOf(b), r;
  std::set_intersection(fa.begin(), fa.end(), fb.begin(), fb.end(), std::back_inserter(r));
  return r;
}
std::string show(const SurfacePoint& p) {
  std::ostringstream o;
  o << p;
  return o.str();
}

void exactCase(Ctx& c, int kind) {
  Rng& r = c.rng;
  World w = makeWorld(c, kind, c.thorough ? 120 : 70);
  SurfaceMesh& m = *w.mesh;
  Oracle O(m, w.len);
  size_t nS = 1 + (r.coin(0.6) ? 0 : r.below(3));
  std::vector<SurfacePoint> S, Q;
  for (size_t i = 0; i < nS; i++) S.push_back(randPoint(r, m, r.coin(0.5) ? 0 : -1));
  if (r.coin(0.1)) S.push_back(S[0]);
  if (r.coin(0.2) && S.size() > 1) { // two sources in one face
    std::vector<Face> fs = facesOf(S[0]);
    Vector3 b{r.uni(.05, 1), r.uni(.05, 1), r.uni(.05, 1)};
    S.back() = SurfacePoint(fs[r.below(fs.size())], b / (b.x + b.y + b.z));
  }
  size_t nQ = 3 + r.below(6);
  for (size_t i = 0; i < nQ; i++) Q.push_back(randPoint(r, m));
  { // one query near a source
    std::vector<Face> fs = facesOf(S[0]);
    Vector3 b{r.uni(.05, 1), r.uni(.05, 1), r.uni(.05, 1)};
    Q.push_back(SurfacePoint(fs[r.below(fs.size())], b / (b.x + b.y + b.z)));
  }
  for (auto& s : S) O.addPoint(s);
  for (auto& q : Q) O.addPoint(q);
  // points a little before the query in the direction of the gradient are added later, so solve lazily
  O.solve();
  c.count("oracle windows", O.windows);
  std::vector<std::vector<double>> dv;
  for (size_t i = 0; i < S.size(); i++) dv.push_back(O.toVertices(i));
  auto vd = [&](Vertex v, size_t i) { return dv[i][O.vId[v.getIndex()]]; };
  double D = 0;
  for (auto& x : dv)
    for (double y : x)
      if (y < INF) D = std::max(D, y);
  D = std::max(D, w.L);
  std::string desc;
  for (auto& s : S) desc += show(s) + " ";
  if (!w.embedded) desc += " abstract";
  c.note += " sources " + desc;

  GeodesicAlgorithmExact A(m, w.g());
  bool stops = r.coin(0.25);
  if (r.coin(0.3)) { // history: an unrelated propagation before
    A.propagate(randPoint(r, m), r.coin() ? GEODESIC_INF : r.u() * D, r.coin() ? std::vector<SurfacePoint>{} : std::vector<SurfacePoint>{randPoint(r, m)});
    c.count("reused solver");
  }
  double maxD = GEODESIC_INF;
  std::vector<SurfacePoint> stopPts;
  if (stops) {
    if (r.coin()) maxD = r.uni(0.1, 1.1) * D;
    if (r.coin(0.7))
      for (size_t k = 0; k < 1 + r.below(3); k++) stopPts.push_back(r.coin() ? r.pick(Q) : randPoint(r, m, 0));
    c.count("limited propagations");
  }
  bool vOnly = true;
  for (auto& s : S) vOnly = vOnly && s.type == SurfacePointType::Vertex;
  if (!stops && S.size() == 1 && r.coin()) {
    if (vOnly && r.coin()) A.propagate(S[0].vertex);
    else A.propagate(S[0]);
  } else if (!stops && vOnly && r.coin()) {
    std::vector<Vertex> vs;
    for (auto& s : S) vs.push_back(s.vertex);
    A.propagate(vs);
  } else A.propagate(S, maxD, stopPts);
  double tol = 2e-5 * D;
  VertexData<double> field = A.getDistanceFunction();
  auto best = [&](size_t qi) {
    double d = INF;
    for (size_t i = 0; i < S.size(); i++) d = std::min(d, O.toPoint(i, dv[i], S.size() + qi));
    return d;
  };
  auto bestV = [&](Vertex v) {
    double d = INF;
    for (size_t i = 0; i < S.size(); i++) d = std::min(d, vd(v, i));
    return d;
  };
  // which points are promised: those within maxD (if no stop points), and the stop points themselves
  auto promised = [&](double d, const SurfacePoint& p) {
    if (!stops) return true;
    bool stopPt = false;
    for (auto& s : stopPts) stopPt = stopPt || s == p;
    if (!stopPts.empty()) return stopPt && d < maxD * (1 - 1e-3) - 2 * tol;
    return d < maxD * (1 - 1e-3) - 2 * tol;
  };
  if (!stops)
    for (Vertex v : m.vertices()) {
      double e = bestV(v), x = field[v];
      if (e == INF) {
        check(x > 1e50, "unreachable", "vertex ", v, " is not connected to a source but has distance ", x);
        continue;
      }
      near(x, e, tol, "vertex-distance", "vertex ", v);
      near(A.getDistance(v), e, tol, "vertex-distance-query", "vertex ", v);
      auto cs = A.closestSource(v);
      check(cs.first < S.size(), "source-index", "vertex ", v, " index ", cs.first);
      near(vd(v, cs.first), e, tol, "closest-source", "source ", cs.first, " of vertex ", v);
      near(cs.second, e, tol, "closest-source-distance", "vertex ", v);
      c.count("vertex distances");
    }
  if (!stops && S.size() == 1 && vOnly && r.coin(0.3)) {
    VertexData<double> one = exactGeodesicDistance(m, w.g(), S[0].vertex);
    for (Vertex v : m.vertices())
      if (bestV(v) < INF) near(one[v], bestV(v), tol, "one-off", "exactGeodesicDistance at ", v);
  }
  std::vector<SurfacePoint> all = Q;
  for (size_t k = 0; k < 4; k++) all.push_back(randPoint(r, m, 0));
  for (size_t qi = 0; qi < all.size(); qi++) {
    const SurfacePoint& q = all[qi];
    double e = qi < Q.size() ? (q.type == SurfacePointType::Vertex ? bestV(q.vertex) : best(qi)) : bestV(q.vertex);
    if (e == INF) {
      if (!stops) {
        check(A.getDistance(q) > 1e50, "unreachable", "point ", show(q));
        check(A.traceBack(q).empty(), "unreachable-path", "point ", show(q));
      }
      continue;
    }
    if (!promised(e, q)) continue;
    double x = A.getDistance(q);
    near(x, e, tol, "point-distance", "point ", show(q));
    auto cs = A.closestSource(q);
    check(cs.first < S.size(), "source-index", show(q));
    double own = q.type == SurfacePointType::Vertex ? vd(q.vertex, cs.first) : O.toPoint(cs.first, dv[cs.first], S.size() + qi);
    near(own, e, tol, "closest-source", "source ", cs.first, " of ", show(q));
    double len = -1;
    std::vector<SurfacePoint> path = A.traceBack(q, len);
    check(!path.empty() && path[0] == q, "path-start", "path of ", path.size(), " from ", show(q));
    near(len, e, tol, "path-length-reported", "path from ", show(q));
    SurfacePoint end = path.back();
    // ends at a source which is at that distance
    bool atSource = false;
    for (size_t i = 0; i < S.size(); i++) {
      double di = q.type == SurfacePointType::Vertex ? vd(q.vertex, i) : O.toPoint(i, dv[i], S.size() + qi);
      if (std::abs(di - e) > tol) continue;
      std::vector<double> sl = segLens(w.len, end, S[i]);
      for (double y : sl) atSource = atSource || y < tol;
      atSource = atSource || end == S[i];
    }
    check(atSource, "path-end", "path from ", show(q), " ends at ", show(end));
    double sum = 0;
    bool nearV = false;
    for (size_t k = 0; k < path.size(); k++) {
      check(validPoint(m, path[k]), "path-point", "invalid point ", show(path[k]));
      if (k + 1 == path.size()) break;
      std::vector<double> sl = segLens(w.len, path[k], path[k + 1]);
      check(!sl.empty(), "path-broken", "points ", show(path[k]), " and ", show(path[k + 1]), " share no face");
      sum += *std::min_element(sl.begin(), sl.end());
      if (k > 0 && path[k].type == SurfacePointType::Vertex) nearV = true;
      if (k > 0 && path[k].type == SurfacePointType::Edge && (path[k].tEdge < 4e-3 || path[k].tEdge > 1 - 4e-3)) nearV = true;
    }
    std::string ps;
    for (auto& p : path) ps += show(p);
    if (c.verbose)
      for (size_t k = 0; k + 1 < path.size(); k++) {
        printf("PATH %s d %g\n", show(path[k]).c_str(), A.getDistance(path[k]));
        for (double y : segLens(w.len, path[k], path[k + 1])) printf("  seg %g\n", y);
        if (path[k].type == SurfacePointType::Edge)
          for (Halfedge h : path[k].edge.adjacentHalfedges()) std::cout << " he " << h.tailVertex() << h.tipVertex() << h.next().tipVertex() << h.orientation() << " len " << w.len[h.edge()] << w.len[h.next().edge()] << std::endl;
      }
    near(sum, e, 5 * tol, "path-length", "path ", ps);
    c.count("paths");
    c.count("path segments", path.size() - 1);
    if (stops || e < 1e-2 * w.L || kind != 0) continue;
    // log map: tracing it from the source gets to the query
    Vector2 lg = q.type == SurfacePointType::Vertex && r.coin() ? A.getLog(q.vertex) : A.getLog(q);
    near(lg.norm(), e, tol, "log-norm", "log of ", show(q));
    if (!nearV) {
      bool src = false;
      for (auto& s : S) src = src || s == end;
      if (src) {
        TraceOptions to;
        TraceGeodesicResult t = traceGeodesic(w.g(), end, lg, to);
        std::vector<double> sl = segLens(w.len, t.endPoint, q);
        double dist = sl.empty() ? INF : *std::min_element(sl.begin(), sl.end());
        if (sl.empty()) { // close to an edge, maybe
          for (Face f : facesOf(t.endPoint))
            for (auto& b : coordsIn(f, t.endPoint))
              for (int i = 0; i < 3; i++)
                if (b[i] < 1e-3) dist = -1;
          for (Face f : facesOf(q))
            for (auto& b : coordsIn(f, q))
              for (int i = 0; i < 3; i++)
                if (b[i] < 1e-3) dist = -1;
        }
        check(dist < 1e-3 * D, "log-exp", "tracing the log of ", show(q), " from ", show(end), " by ", lg, " ends at ", show(t.endPoint), " distance ", dist, " length ", t.length, " of ", e);
        c.count("log/exp round trips");
      }
    }
    // gradient: points away from the source; going back along it reaches the path
    Vector2 g = q.type == SurfacePointType::Vertex && r.coin() ? A.getDistanceGradient(q.vertex) : A.getDistanceGradient(q);
    near(g.norm(), 1, 1e-6, "gradient-norm", "gradient at ", show(q));
    // step back by a fraction of the distance to the next path point
    std::vector<double> sl = segLens(w.len, path[0], path.size() > 1 ? path[1] : path[0]);
    double step = (sl.empty() ? 0 : *std::min_element(sl.begin(), sl.end()));
    if (step > 0.02 * w.L && path.size() > 1) {
      TraceGeodesicResult t = traceGeodesic(w.g(), q, -0.5 * step * g, TraceOptions());
      near(t.length, 0.5 * step, 1e-6 * step, "gradient-leaves", "going back from ", show(q), " along ", -g);
      double d = A.getDistance(t.endPoint);
      near(d, e - 0.5 * step, 1e-3 * step + 5 * tol, "gradient-direction", "distance after going back from ", show(q), " by ", 0.5 * step, " along ", -g, " to ", show(t.endPoint));
      c.count("gradients");
    }
  }
  if (!stops) { // Lipschitz along all edges, and the windows tile the edges
    for (Edge e : m.edges()) {
      double a = field[e.firstVertex()], b = field[e.secondVertex()];
      if (a < 1e50) check(std::abs(a - b) <= w.len[e] + tol, "lipschitz", "edge ", e, " ", a, " ", b, " length ", w.len[e]);
    }
    for (int k = 0; k < 6; k++) {
      SurfacePoint p = randPoint(r, m, 1);
      double a = field[p.edge.firstVertex()], b = field[p.edge.secondVertex()], x = A.getDistance(p);
      if (a > 1e50) continue;
      double l = w.len[p.edge];
      check(x <= std::min(a + p.tEdge * l, b + (1 - p.tEdge) * l) + tol && x >= std::max(a - p.tEdge * l, b - (1 - p.tEdge) * l) - tol, "edge-point", show(p), " has ", x, " ends ", a, " ", b);
    }
  }
}

// ---- fast marching
double semiLagrange(double dA, double dB, double a, double b, double theta) {
  // C opposite to AB, a = |BC|, b = |AC|: min over x on AB of linear interpolation + |x - C|
  double c = std::sqrt(std::max(0., a * a + b * b - 2 * a * b * std::cos(theta)));
  double best = std::min(dA + b, dB + a);
  if (!(c > 0)) return best;
  double k = (dB - dA) / c;
  if (std::abs(k) >= 1) return best;
  double xc = (b * b - a * a + c * c) / (2 * c), h = a * b * std::sin(theta) / c;
  // derivative: k + (x - xc)/sqrt((x-xc)^2+h^2) = 0
  double x = xc - k * h / std::sqrt(1 - k * k);
  if (x <= 0 || x >= c) return best;
  return std::min(best, dA + k * x + std::sqrt((x - xc) * (x - xc) + h * h));
}
typedef std::vector<std::vector<std::pair<SurfacePoint, double>>> Curves;
std::map<size_t, double> sourceValues(World& w, const Curves& C) {
  std::map<size_t, double> s;
  auto put = [&](Vertex v, double d) {
    auto it = s.find(v.getIndex());
    if (it == s.end()) s[v.getIndex()] = d;
    else it->second = std::min(it->second, d);
  };
  for (auto& cu : C)
    for (auto& x : cu) {
      if (x.first.type == SurfacePointType::Vertex) put(x.first.vertex, x.second);
      else if (x.first.type == SurfacePointType::Edge) {
        double l = w.len[x.first.edge];
        put(x.first.edge.halfedge().tailVertex(), x.second + x.first.tEdge * l);
        put(x.first.edge.halfedge().tipVertex(), x.second + (1 - x.first.tEdge) * l);
      } else
        for (int i = 0; i < 3; i++) {
          Vector3 b{0, 0, 0};
          b[i] = 1;
          put(heOf(x.first.face, i).vertex(), x.second + baryLen(w.len, x.first.face, b - x.first.faceCoords));
        }
    }
  return s;
}
void checkUnsigned(Ctx& c, World& w, const std::map<size_t, double>& src, const VertexData<double>& d, const std::string& K) {
  SurfaceMesh& m = *w.mesh;
  double D = w.L;
  for (Vertex v : m.vertices())
    if (d[v] < INF) D = std::max(D, std::abs(d[v]));
  double tol = 1e-8 * D;
  // reachability
  std::map<size_t, bool> reach;
  std::vector<Vertex> st;
  for (Vertex v : m.vertices())
    if (src.count(v.getIndex())) {
      reach[v.getIndex()] = true;
      st.push_back(v);
    }
  while (!st.empty()) {
    Vertex v = st.back();
    st.pop_back();
    for (Vertex u : v.adjacentVertices())
      if (!reach[u.getIndex()]) {
        reach[u.getIndex()] = true;
        st.push_back(u);
      }
  }
  for (Vertex v : m.vertices()) {
    if (!reach[v.getIndex()]) {
      check(d[v] == INF, K + "-unreachable", "vertex ", v, " is not connected to a source but has distance ", d[v]);
      continue;
    }
    check(std::isfinite(d[v]), K + "-finite", "vertex ", v, " has ", d[v]);
    auto it = src.find(v.getIndex());
    if (it != src.end()) {
      near(d[v], it->second, tol, K + "-source", "source vertex ", v);
      continue;
    }
    double hi = INF, lo = INF;
    for (Edge e : v.adjacentEdges()) {
      double x = d[e.otherVertex(v)] + w.len[e];
      hi = std::min(hi, x);
      lo = std::min(lo, x);
    }
    for (Corner co : v.adjacentCorners()) {
      Halfedge h = co.halfedge(); // v -> A ; the far side A -> B
      double b = w.len[h.edge()], a = w.len[h.next().next().edge()], cc = w.len[h.next().edge()];
      double th = (double)triAngle(cc, a, b);
      double dA = d[h.tipVertex()], dB = d[h.next().tipVertex()];
      double x = semiLagrange(dA, dB, a, b, th);
      lo = std::min(lo, x);
      if (th < PI / 2 - 1e-7) hi = std::min(hi, x);
    }
    check(d[v] >= lo - tol, K + "-below", "vertex ", v, " has ", d[v], " but its neighbourhood gives ", lo);
    check(d[v] <= hi + tol, K + "-above", "vertex ", v, " has ", d[v], " but its neighbourhood gives ", hi);
    c.count("marched vertices");
  }
}
void fmmCase(Ctx& c, int kind) {
  Rng& r = c.rng;
  World w;
  for (int k = 0; k < 30; k++) {
    w = makeWorld(c, kind, 400, 0.3, 60);
    if (w.manifold) break;
  }
  if (!w.manifold) {
    throws([&] { FMMDistance(w.g(), std::vector<std::pair<Vertex, double>>{{w.mesh->vertex(0), 0.}}); }, "nonmanifold", "fast marching on a nonmanifold mesh");
    return;
  }
  SurfaceMesh& m = *w.mesh;
  Curves C;
  bool vOnly = r.coin(0.4);
  double amp = r.coin() ? 0 : r.uni(0.1, 2) * w.L;
  for (size_t k = 0; k < 1 + r.below(3); k++) {
    C.emplace_back();
    for (size_t i = 0; i < 1 + r.below(4); i++) C.back().push_back({randPoint(r, m, vOnly ? 0 : -1, r.coin(0.2) ? 0 : 0.02), amp * r.u()});
  }
  if (r.coin(0.1)) C.emplace_back();
  VertexData<double> d;
  if (vOnly && r.coin()) {
    std::vector<std::pair<Vertex, double>> I;
    for (auto& cu : C)
      for (auto& x : cu) I.push_back({x.first.vertex, x.second});
    d = FMMDistance(w.g(), I);
  } else d = FMMDistance(w.g(), C);
  checkUnsigned(c, w, sourceValues(w, C), d, "fmm");
  c.count("fmm runs");
}
// closed or boundary-to-boundary curves with phi > 0 on the right
Curves zeroSet(World& w, const VertexData<double>& phi, Ctx& c, bool extra) {
  SurfaceMesh& m = *w.mesh;
  typedef std::pair<int, size_t> Node; // 0 vertex, 1 edge
  auto point = [&](Node n) {
    if (n.first == 0) return SurfacePoint(m.vertex(n.second));
    Edge e = m.edge(n.second);
    double a = phi[e.halfedge().tailVertex()], b = phi[e.halfedge().tipVertex()];
    return SurfacePoint(e, a / (a - b));
  };
  std::multimap<Node, Node> out;
  std::map<Node, int> bal;
  std::map<std::pair<Node, Node>, Face> inF;
  for (Face f : m.faces()) {
    std::vector<Node> ent, ex; // walking ccw around the face: phi goes from - to +  / + to -
    int z = 0, pos = 0, neg = 0;
    for (int i = 0; i < 3; i++) {
      double p = phi[heOf(f, i).vertex()];
      z += p == 0;
      pos += p > 0;
      neg += p < 0;
    }
    if (z >= 2) continue; // edges of the mesh are handled below
    if (!pos || !neg) continue;
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      double a = phi[h.tailVertex()], b = phi[h.tipVertex()];
      if (a < 0 && b > 0) ent.push_back({1, h.edge().getIndex()});
      if (a > 0 && b < 0) ex.push_back({1, h.edge().getIndex()});
      if (a == 0) (b > 0 ? ent : ex).push_back({0, h.tailVertex().getIndex()});
    }
    if (ent.size() != 1 || ex.size() != 1) throw Skip("zero set");
    // counter-clockwise: from ent to ex along the boundary phi > 0. positive on the right means going ex -> ent?
    // travelling from ent to ex the arc ent..ex (positive) is on the right
    Node a = ent[0], b = ex[0];
    out.insert({a, b});
    bal[a]++;
    bal[b]--;
  }
  for (Edge e : m.edges()) {
    Halfedge h = e.halfedge();
    if (phi[h.tailVertex()] != 0 || phi[h.tipVertex()] != 0) continue;
    std::vector<int> sg;
    int left = 0, right = 0;
    for (Halfedge k : e.adjacentHalfedges())
      if (k.isInterior()) {
        double p = phi[k.next().tipVertex()];
        if (p == 0) throw Skip("flat zero");
        (k == h ? left : right) = p > 0 ? 1 : -1;
      }
    if (left == 0 || right == 0) throw Skip("zero on the boundary");
    if (left == right) continue;
    Node a{0, h.tailVertex().getIndex()}, b{0, h.tipVertex().getIndex()};
    if (left > 0) std::swap(a, b);
    out.insert({a, b});
    bal[a]++;
    bal[b]--;
  }
  // every vertex with phi = 0 must be on the curve
  std::set<Node> on;
  for (auto& x : out) {
    on.insert(x.first);
    on.insert(x.second);
  }
  for (Vertex v : m.vertices())
    if (phi[v] == 0 && !on.count({0, v.getIndex()})) throw Skip("isolated zero");
  Curves C;
  auto build = [&](Node s) {
    std::vector<Node> ch{s};
    while (true) {
      auto it = out.find(ch.back());
      if (it == out.end()) break;
      Node n = it->second;
      out.erase(it);
      ch.push_back(n);
    }
    std::vector<std::pair<SurfacePoint, double>> cu;
    for (size_t i = 0; i < ch.size(); i++) {
      SurfacePoint p = point(ch[i]);
      if (extra && i && c.rng.coin(0.4)) {
        SurfacePoint q = cu.back().first;
        Edge ce = sharedEdge(q, p);
        double t = c.rng.uni(0.1, 0.9);
        if (ce != Edge()) {
          double a = q.inEdge(ce).tEdge, b = p.inEdge(ce).tEdge;
          cu.push_back({SurfacePoint(ce, (1 - t) * a + t * b), 0.});
        } else {
          Face f = sharedFace(q, p);
          cu.push_back({SurfacePoint(f, (1 - t) * q.inFace(f).faceCoords + t * p.inFace(f).faceCoords), 0.});
        }
      }
      cu.push_back({p, 0.});
    }
    C.push_back(cu);
  };
  for (auto& x : bal)
    while (x.second > 0 && out.count(x.first)) {
      x.second--;
      build(x.first);
    }
  while (!out.empty()) build(out.begin()->first);
  return C;
}
void signedCase(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c, 0, 400, 0.2, 60);
  SurfaceMesh& m = *w.mesh;
  VertexData<double> phi(m);
  int mode = r.below(4);
  Vector3 n = randUnit(r), o = w.pos->vertexPositions[randPoint(r, m, 0).vertex] + 0.3 * w.L * r.u() * randUnit(r);
  for (Vertex v : m.vertices()) {
    Vector3 p = w.pos->vertexPositions[v] - o;
    if (mode == 0) phi[v] = dot(n, p);
    if (mode == 1) phi[v] = norm2(p) - 2 * w.L * w.L;
    if (mode == 2) phi[v] = r.uni(-1, 1) + dot(n, p) / w.L;
    if (mode == 3) phi[v] = (dot(n, p) > 0 ? 1 : -1) * r.uni(0.3, 1);
  }
  // snap some of the vertices to zero
  double pz = r.coin() ? r.u() : 0, cut = 0;
  for (Vertex v : m.vertices()) cut += std::abs(phi[v]);
  cut /= m.nVertices();
  for (Vertex v : m.vertices())
    if (std::abs(phi[v]) < 0.4 * cut && r.coin(pz)) phi[v] = 0;
  for (Edge e : m.edges()) {
    double a = phi[e.halfedge().tailVertex()], b = phi[e.halfedge().tipVertex()];
    if (a * b < 0) {
      double t = a / (a - b);
      if (t < 1e-3 || t > 1 - 1e-3) throw Skip("crossing close to a vertex");
    }
  }
  Curves C = zeroSet(w, phi, c, r.coin(0.4));
  if (C.empty()) throw Skip("no curve");
  bool flip = r.coin();
  if (flip)
    for (auto& cu : C) std::reverse(cu.begin(), cu.end());
  if (r.coin(0.1)) C.emplace_back();
  bool vOnly = true;
  for (auto& cu : C)
    for (auto& x : cu) vOnly = vOnly && x.first.type == SurfacePointType::Vertex;
  if (c.verbose)
    for (auto& cu : C) {
      printf("CURVE\n");
      for (auto& x : cu) printf("  %s %g\n", show(x.first).c_str(), x.second);
    }
  VertexData<double> d = FMMDistance(w.g(), C, true), u = FMMDistance(w.g(), C, false);
  checkUnsigned(c, w, sourceValues(w, C), u, "fmm");
  double D = w.L;
  for (Vertex v : m.vertices())
    if (u[v] < INF) D = std::max(D, u[v]);
  for (Vertex v : m.vertices()) {
    if (u[v] == INF) {
      check(std::isinf(d[v]), "signed-unreachable", "vertex ", v, " ", d[v]);
      continue;
    }
    check(std::isfinite(d[v]), "signed-finite", "vertex ", v, " ", d[v]);
    near(std::abs(d[v]), u[v], 1e-8 * D, "signed-magnitude", "vertex ", v, " signed ", d[v]);
    if (u[v] < 1e-7 * D) continue;
    double want = flip ? -phi[v] : phi[v];
    // only in components which the curve meets is the sign determined by phi everywhere
    check((d[v] > 0) == (want > 0), "signed-side", "vertex ", v, " has signed distance ", d[v], " but is on the ", want > 0 ? "right" : "left");
    c.count("signed vertices");
  }
  if (vOnly && C.size() == 1 && r.coin()) {
    std::vector<std::pair<Vertex, double>> I;
    for (auto& x : C[0]) I.push_back({x.first.vertex, 0.});
    VertexData<double> d2 = FMMDistance(w.g(), I, true);
    for (Vertex v : m.vertices()) check(d2[v] == d[v] || (std::isinf(d2[v]) && std::isinf(d[v])), "signed-overload", "vertex ", v);
  }
  c.count("signed runs");
}

// ---- graph algorithms
void graphCase(Ctx& c, int kind) {
  Rng& r = c.rng;
  World w = makeWorld(c, kind, 400, 0.3, 1000);
  SurfaceMesh& m = *w.mesh;
  Oracle O(m, w.len);
  Vertex s = randPoint(r, m, 0).vertex;
  std::vector<double> init(O.nV, INF);
  init[O.vId[s.getIndex()]] = 0;
  std::vector<double> d = O.edgeDijkstra(init);
  double D = w.L;
  for (double x : d)
    if (x < INF) D = std::max(D, x);
  double tol = 1e-11 * D;
  for (int k = 0; k < 3; k++) {
    double rad = k == 2 ? INF : r.uni(0, 1.1) * D;
    if (k == 1) { // exactly at a vertex, as the sum the search itself forms is not known; stay above it
      double x = d[r.below(d.size())];
      if (x < INF) rad = x * (1 + 1e-9) + 1e-12 * D;
    }
    auto got = vertexDijkstraDistanceWithinRadius(w.g(), s, rad);
    for (Vertex v : m.vertices()) {
      double e = d[O.vId[v.getIndex()]];
      auto it = got.find(v);
      if (e < rad - tol) check(it != got.end(), "ball-missing", "vertex ", v, " at ", e, " is not in the ball of ", rad);
      if (e > rad + tol || e == INF) check(it == got.end(), "ball-extra", "vertex ", v, " at ", e, " is in the ball of ", rad);
      if (it != got.end()) near(it->second, e, tol, "ball-distance", "vertex ", v);
      c.count("ball vertices");
    }
  }
  if (kind != 0) return; // needs halfedges in the direction of the path
  for (int k = 0; k < 4; k++) {
    Vertex t = k == 3 ? s : randPoint(r, m, 0).vertex;
    std::vector<Halfedge> p = shortestEdgePath(w.g(), s, t);
    double e = d[O.vId[t.getIndex()]];
    if (t == s || e == INF) {
      check(p.empty(), "path-none", "path of ", p.size(), " from ", s, " to ", t);
      continue;
    }
    check(!p.empty(), "path-missing", "no path from ", s, " to ", t);
    check(p[0].tailVertex() == s && p.back().tipVertex() == t, "path-ends", "path from ", s, " to ", t);
    double sum = 0;
    for (size_t i = 0; i < p.size(); i++) {
      if (i) check(p[i].tailVertex() == p[i - 1].tipVertex(), "path-chain", "halfedge ", i);
      sum += w.len[p[i].edge()];
    }
    near(sum, e, tol, "path-shortest", "edge path from ", s, " to ", t);
    c.count("edge paths");
  }
}
void ballCase(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c, 0, 60, 0.3, 20);
  SurfaceMesh& m = *w.mesh;
  Oracle O(m, w.len);
  Vertex s = randPoint(r, m, 0).vertex;
  O.addPoint(SurfacePoint(s));
  O.solve();
  std::vector<double> d = O.toVertices(0);
  double meanL = 0;
  for (Edge e : m.edges()) meanL += w.len[e] / m.nEdges();
  double rad = meanL * r.uni(0.2, 2.5);
  auto got = vertexGeodesicDistanceWithinRadius(w.g(), s, rad);
  double tol = 1e-4 * rad;
  for (Vertex v : m.vertices()) {
    double e = d[O.vId[v.getIndex()]];
    auto it = got.find(v);
    if (e < rad - tol) check(it != got.end(), "geoball-missing", "vertex ", v, " at ", e, " is not in the ball of ", rad);
    if (e > rad + tol || e == INF) check(it == got.end(), "geoball-extra", "vertex ", v, " at ", e, " is in the ball of ", rad, " with ", it == got.end() ? 0. : it->second);
    if (it != got.end()) near(it->second, e, tol, "geoball-distance", "vertex ", v, " in the ball of ", rad);
    c.count("geodesic ball vertices");
  }
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("exact", 8, [](Ctx& c) { exactCase(c, 0); });
  S.add("exact-general", 3, [](Ctx& c) { exactCase(c, 1); });
  S.add("fmm", 3, [](Ctx& c) { fmmCase(c, 0); });
  S.add("fmm-general", 1, [](Ctx& c) { fmmCase(c, 1); });
  S.add("fmm-signed", 4, signedCase);
  S.add("graph", 2, [](Ctx& c) { graphCase(c, 0); });
  S.add("graph-general", 1, [](Ctx& c) { graphCase(c, 1); });
  S.add("geodesic-ball", 2, ballCase);
  return run(S, argc, argv);
}
