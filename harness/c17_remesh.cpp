// C17: subdivision schemes, mutation manager, remeshing, quadric error simplification
#include "geohelp.h"
#include "geometrycentral/surface/mutation_manager.h"
#include "geometrycentral/surface/quadric_error_simplification.h"
#include "geometrycentral/surface/remeshing.h"
#include "geometrycentral/surface/subdivide.h"
using namespace vf;
namespace {
typedef std::vector<size_t> Poly;
struct Topo {
  size_t comps, loops;
  long long chi;
  bool operator==(const Topo& o) const { return comps == o.comps && loops == o.loops && chi == o.chi; }
};
Topo topo(ManifoldSurfaceMesh& m) {
  Topo t;
  t.comps = 0;
  std::set<size_t> seen;
  for (Vertex v : m.vertices()) {
    if (!seen.insert(v.getIndex()).second) continue;
    t.comps++;
    std::vector<Vertex> st{v};
    while (!st.empty()) {
      Vertex x = st.back();
      st.pop_back();
      for (Vertex y : x.adjacentVertices())
        if (seen.insert(y.getIndex()).second) st.push_back(y);
    }
  }
  t.chi = (long long)m.nVertices() - (long long)m.nEdges() + (long long)m.nFaces();
  // boundary loops by walking exterior halfedges
  std::set<Halfedge> ext;
  t.loops = 0;
  for (Halfedge h : m.exteriorHalfedges()) {
    if (ext.count(h)) continue;
    t.loops++;
    for (Halfedge x = h; ext.insert(x).second;) x = x.next();
  }
  return t;
}
std::ostream& operator<<(std::ostream& o, const Topo& t) { return o << "(components " << t.comps << " boundary loops " << t.loops << " chi " << t.chi << ")"; }
bool finitePos(VertexPositionGeometry& g, ManifoldSurfaceMesh& m) {
  for (Vertex v : m.vertices()) {
    Vector3 p = g.inputVertexPositions[v];
    if (!(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z))) return false;
  }
  return true;
}
double scaleOf(VertexPositionGeometry& g, ManifoldSurfaceMesh& m) {
  double s = 0;
  Vector3 c = g.inputVertexPositions[*m.vertices().begin()];
  for (Vertex v : m.vertices()) s = std::max(s, norm(g.inputVertexPositions[v] - c));
  return s;
}
// -------------------------------------------------------------------------------------------------- subdivision
struct Expected {
  std::vector<Vector3> pts;
  std::vector<Poly> faces;
};
Poly canonical(Poly p) {
  std::rotate(p.begin(), std::min_element(p.begin(), p.end()), p.end());
  return p;
}
void compareSubdivision(Ctx& c, GeoMesh& g, const Expected& ex, double scale, const std::string& K) {
  ManifoldSurfaceMesh& m = *g.mesh;
  fullCheck(m, K, &c);
  check(m.isCompressed(), K + "-compressed", "result is not compressed");
  check(m.nVertices() == ex.pts.size(), K + "-vertices", m.nVertices(), " vertices, expected ", ex.pts.size());
  check(m.nFaces() == ex.faces.size(), K + "-faces", m.nFaces(), " faces, expected ", ex.faces.size());
  double tol = 1e-9 * scale;
  for (size_t i = 0; i < ex.pts.size(); i++)
    for (size_t j = 0; j < i; j++)
      if (norm(ex.pts[i] - ex.pts[j]) < 1e-6 * scale) throw Skip("subdivided points coincide");
  std::map<size_t, size_t> id;
  std::vector<char> used(ex.pts.size(), 0);
  for (Vertex v : m.vertices()) {
    size_t best = 0;
    for (size_t i = 0; i < ex.pts.size(); i++)
      if (norm(ex.pts[i] - g.geom->inputVertexPositions[v]) < norm(ex.pts[best] - g.geom->inputVertexPositions[v])) best = i;
    double d = norm(ex.pts[best] - g.geom->inputVertexPositions[v]);
    check(d <= tol, K + "-position", "vertex ", v, " at ", g.geom->inputVertexPositions[v], " is no subdivided point (nearest ", ex.pts[best], " distance ", d, ")");
    check(!used[best]++, K + "-position", "two vertices at ", ex.pts[best]);
    id[v.getIndex()] = best;
  }
  std::vector<Poly> got, want;
  for (auto& f : ex.faces) want.push_back(canonical(f));
  for (Face f : m.faces()) {
    Poly p;
    for (Vertex v : f.adjacentVertices()) p.push_back(id[v.getIndex()]);
    got.push_back(canonical(p));
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  check(got == want, K + "-connectivity", "faces differ");
  // geometry was refreshed
  c.count("subdivided faces", m.nFaces());
}
void famSubdivide(Ctx& c) {
  Rng& r = c.rng;
  int kind = r.below(3); // linear, Catmull-Clark, Loop
  GeoOpts o;
  o.tri = kind == 2 || r.coin(0.3);
  o.maxQ = 1e6;
  GeoMesh g = geoMesh(c, o);
  size_t rounds = r.coin(0.2) && g.mesh->nFaces() < 20 ? 2 : 1;
  if (kind == 2 && !g.mesh->isTriangular()) throw Skip("not triangular");
  for (size_t round = 0; round < rounds; round++) {
    ManifoldSurfaceMesh& m = *g.mesh;
    VertexData<Vector3>& pos = g.geom->inputVertexPositions;
    Topo t0 = topo(m);
    double scale = scaleOf(*g.geom, m) + 1e-300;
    double off = 0;
    for (Vertex v : m.vertices()) off = std::max(off, norm(pos[v]));
    scale = std::max(scale, 1e-4 * off);
    Expected ex;
    std::map<size_t, size_t> vi, ei, fi;
    std::map<size_t, Vector3> fp;
    for (Face f : m.faces()) {
      Vector3 s{0, 0, 0};
      size_t n = 0;
      for (Halfedge h : f.adjacentHalfedges()) s += pos[h.tailVertex()], n++;
      fp[f.getIndex()] = s / (double)n;
    }
    std::vector<Vector3> vp;
    for (Vertex v : m.vertices()) {
      vi[v.getIndex()] = ex.pts.size();
      Vector3 P = pos[v];
      std::vector<Vector3> nb, bd, fc;
      for (Halfedge h : v.outgoingHalfedges()) {
        nb.push_back(pos[h.tipVertex()]);
        if (h.edge().isBoundary()) bd.push_back(pos[h.tipVertex()]);
        if (h.isInterior()) fc.push_back(fp[h.face().getIndex()]);
      }
      double n = nb.size();
      Vector3 q = P;
      if (kind) {
        if (!bd.empty()) {
          check(bd.size() == 2, "setup", "boundary");
          q = 0.75 * P + 0.125 * (bd[0] + bd[1]);
        } else if (kind == 1) {
          Vector3 F{0, 0, 0}, R{0, 0, 0};
          for (auto& x : fc) F += x / n;
          for (auto& x : nb) R += (x + P) / (2 * n);
          q = (F + 2 * R + (n - 3) * P) / n;
        } else {
          double beta = n == 3 ? 3. / 16 : 3. / (8 * n); // Warren's weights
          q = P * (1 - n * beta);
          for (auto& x : nb) q += beta * x;
        }
      }
      ex.pts.push_back(q);
    }
    for (Edge e : m.edges()) {
      ei[e.getIndex()] = ex.pts.size();
      Vector3 mid = (pos[e.firstVertex()] + pos[e.secondVertex()]) / 2;
      if (kind && !e.isBoundary()) {
        Halfedge h = e.halfedge(), k = h.twin();
        if (kind == 1) mid = mid / 2 + (fp[h.face().getIndex()] + fp[k.face().getIndex()]) / 4;
        else mid = mid * 0.75 + (pos[h.next().tipVertex()] + pos[k.next().tipVertex()]) / 8;
      }
      ex.pts.push_back(mid);
    }
    if (kind < 2)
      for (Face f : m.faces()) {
        fi[f.getIndex()] = ex.pts.size();
        ex.pts.push_back(fp[f.getIndex()]);
      }
    for (Face f : m.faces()) {
      Poly inner;
      for (Halfedge h : f.adjacentHalfedges()) {
        Halfedge prev = h;
        while (prev.next() != h) prev = prev.next();
        Poly q{vi[h.tailVertex().getIndex()], ei[h.edge().getIndex()]};
        if (kind < 2) q.push_back(fi[f.getIndex()]);
        q.push_back(ei[prev.edge().getIndex()]);
        ex.faces.push_back(q);
        inner.push_back(ei[h.edge().getIndex()]);
      }
      if (kind == 2) ex.faces.push_back(inner);
    }
    g.geom->requireEdgeLengths();
    static const char* names[] = {"linear", "catmull-clark", "loop"};
    size_t nE = m.nEdges(), nF = m.nFaces(), splits = 0, flips = 0;
    if (kind == 0) linearSubdivide(m, *g.geom);
    else if (kind == 1) catmullClarkSubdivide(m, *g.geom);
    else if (r.coin()) loopSubdivide(m, *g.geom);
    else {
      MutationManager mm(m, *g.geom);
      mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { splits++; });
      mm.registerEdgeFlipPostHandler([&](Edge) { flips++; });
      loopSubdivide(m, *g.geom, mm);
      check(splits == nE, "loop-callbacks", splits, " split callbacks for ", nE, " edges");
      check((4 * nF - nE) % 1 == 0 && (flips > 0 || nF == 1 || nE == 3), "loop-callbacks", "no flip callbacks");
    }
    std::string K = names[kind];
    compareSubdivision(c, g, ex, scale, K);
    Topo t1 = topo(m);
    check(t0 == t1, K + "-topology", "topology changed from ", t0, " to ", t1);
    // required quantities were refreshed
    for (Edge e : m.edges()) near(g.geom->edgeLengths[e], norm(g.geom->inputVertexPositions[e.firstVertex()] - g.geom->inputVertexPositions[e.secondVertex()]), 1e-9 * scale, K + "-refresh", "length of ", e);
    c.count(std::string("subdivisions ") + names[kind]);
    if (kind != 2 && round + 1 < rounds && m.isTriangular()) break;
  }
}
// -------------------------------------------------------------------------------------------------- mutation manager
size_t meshHash(ManifoldSurfaceMesh& m, VertexPositionGeometry* g) {
  size_t h = 17;
  for (Halfedge x : m.halfedges()) {
    h = mix(h, x.getIndex());
    h = mix(h, x.next().getIndex());
    h = mix(h, x.vertex().getIndex());
    h = mix(h, x.twin().getIndex());
  }
  if (g)
    for (Vertex v : m.vertices()) h = mix(h, hashD(g->inputVertexPositions[v].x) ^ hashD(g->inputVertexPositions[v].y) * 3 ^ hashD(g->inputVertexPositions[v].z) * 7);
  return h;
}
struct Rec {
  std::string what;
  size_t elem = 0, elem2 = 0;
  double t = 0;
  std::vector<double> b;
  Vector3 vec{0, 0, 0};
};
typedef std::vector<Rec> Log;
// a policy of all kinds
struct Logger : public VertexRepositionPolicy, public EdgeFlipPolicy, public EdgeSplitPolicy, public EdgeCollapsePolicy, public FaceSplitPolicy {
  std::shared_ptr<Log> log;
  std::shared_ptr<bool> alive;
  ~Logger() { *alive = false; }
  void add(const std::string& w, size_t a, size_t b, double t, std::vector<double> bb = {}, Vector3 v = {0, 0, 0}) {
    if (!*alive) abort();
    Rec r;
    r.what = w, r.elem = a, r.elem2 = b, r.t = t, r.b = bb, r.vec = v;
    log->push_back(r);
  }
  void beforeVertexReposition(const Vertex& v, const Vector3& x) override { add("move", v.getIndex(), 0, 0, {}, x); }
  void beforeEdgeFlip(const Edge& e) override { add("flip<", e.getIndex(), 0, 0); }
  void afterEdgeFlip(const Edge& e) override { add("flip>", e.getIndex(), 0, 0); }
  void beforeEdgeSplit(const Edge& e, const double& t) override { add("split<", e.getIndex(), 0, t); }
  void afterEdgeSplit(const Halfedge& a, const Halfedge& b, const double& t) override { add("split>", a.getIndex(), b.getIndex(), t); }
  void beforeEdgeCollapse(const Edge& e, const double& t) override { add("collapse<", e.getIndex(), 0, t); }
  void afterEdgeCollapse(const Vertex& v, const double& t) override { add("collapse>", v.getIndex(), 0, t); }
  void beforeFaceSplit(const Face& f, const std::vector<double>& b) override { add("face<", f.getIndex(), 0, 0, b); }
  void afterFaceSplit(const Vertex& v, const std::vector<double>& b) override { add("face>", v.getIndex(), 0, 0, b); }
};
struct Registered {
  std::shared_ptr<Log> log = std::make_shared<Log>();
  std::shared_ptr<bool> alive = std::make_shared<bool>(true);
  std::unique_ptr<MutationPolicyHandle> handle;
  bool removed = false;
};
bool simpleFlip(Edge e) {
  if (e.isBoundary()) return false;
  Vertex a = e.halfedge().next().tipVertex(), b = e.halfedge().twin().next().tipVertex();
  if (a == b) return false;
  for (Vertex x : a.adjacentVertices())
    if (x == b) return false;
  return true;
}
bool isSimplicial(ManifoldSurfaceMesh& m) {
  std::set<std::pair<size_t, size_t>> s;
  for (Edge e : m.edges()) {
    size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
    if (a == b || !s.insert({std::min(a, b), std::max(a, b)}).second) return false;
  }
  return true;
}
void famManager(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.maxQ = 1e6;
  o.maxScramble = 5;
  GeoMesh g = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *g.mesh;
  bool withGeom = r.coin(0.85);
  std::unique_ptr<MutationManager> pm(withGeom ? new MutationManager(m, *g.geom) : new MutationManager(m));
  MutationManager& mm = *pm;
  VertexPositionGeometry* G = withGeom ? g.geom.get() : nullptr;
  VertexData<Vector3>& pos = g.geom->inputVertexPositions;
  check(mm.geometry == G && &mm.mesh == &m, "manager-members", "mesh, geometry");
  Topo t0 = topo(m);
  double scale = scaleOf(*g.geom, m);
  for (Vertex v : m.vertices()) scale = std::max(scale, 1e-3 * norm(pos[v]));
  // constraints: our own copies, maintained independently
  struct Cons {
    bool on = false, def = true;
    std::map<size_t, bool> val;
    bool operator()(size_t i) const {
      if (!on) return true;
      auto it = val.find(i);
      return it == val.end() ? def : it->second;
    }
  } moveC, splitC, collC, flipC, faceC;
  auto randomConstraints = [&]() {
    double p = r.uni(0.5, 1);
    if (r.coin(0.4)) {
      VertexData<bool> d(m);
      moveC = Cons();
      moveC.on = true;
      moveC.def = r.coin(0.7);
      for (Vertex v : m.vertices()) moveC.val[v.getIndex()] = d[v] = r.coin(p);
      if (moveC.def && r.coin()) mm.setRepositionableVertices(d);
      else mm.setRepositionableVertices(d, moveC.def);
    }
    auto edges = [&](Cons& q, int which) {
      if (!r.coin(0.4)) return;
      EdgeData<bool> d(m);
      q = Cons();
      q.on = true;
      q.def = r.coin(0.7);
      for (Edge e : m.edges()) q.val[e.getIndex()] = d[e] = r.coin(p);
      if (which == 0) mm.setSplittableEdges(d, q.def);
      if (which == 1) mm.setCollapsibleEdges(d, q.def);
      if (which == 2) mm.setFlippableEdges(d, q.def);
    };
    edges(splitC, 0);
    edges(collC, 1);
    edges(flipC, 2);
    if (r.coin(0.4)) {
      FaceData<bool> d(m);
      faceC = Cons();
      faceC.on = true;
      faceC.def = r.coin(0.7);
      for (Face f : m.faces()) faceC.val[f.getIndex()] = d[f] = r.coin(p);
      mm.setSplittableFaces(d, faceC.def);
    }
    if (r.coin(0.1)) mm.clearRepositionableVertices(), moveC = Cons();
    if (r.coin(0.1)) mm.clearSplittableEdges(), splitC = Cons();
    if (r.coin(0.1)) mm.clearCollapsibleEdges(), collC = Cons();
    if (r.coin(0.1)) mm.clearFlippableEdges(), flipC = Cons();
    if (r.coin(0.1)) mm.clearSplittableFaces(), faceC = Cons();
  };
  randomConstraints();
  std::vector<Registered> regs;
  auto addReg = [&]() {
    regs.emplace_back();
    Registered& R = regs.back();
    Logger* l = new Logger();
    l->log = R.log;
    l->alive = R.alive;
    R.handle.reset(new MutationPolicyHandle(mm.registerPolicy(l)));
  };
  size_t nReg = 1 + r.below(3);
  for (size_t k = 0; k < nReg; k++) addReg();
  // the simple interface: counts, and data passed from pre to post
  long long preFlip = 0, postFlip = 0, preSplit = 0, postSplit = 0, preColl = 0, postColl = 0, preFace = 0, postFace = 0;
  size_t token = 0, nTok = 0;
  bool simple = r.coin(0.6);
  auto passed = [&](size_t x, const char* w) { check(x == token, "simple-data", w, ": the post handler got ", x, " not the ", token, " of its pre handler"); nTok++; };
  if (simple) {
    mm.registerEdgeFlipHandlers([&](Edge) -> size_t { preFlip++; return ++token; }, [&](Edge, size_t x) { postFlip++; passed(x, "flip"); });
    mm.registerEdgeSplitHandlers([&](Edge, double) -> size_t { preSplit++; return ++token; }, [&](Halfedge, Halfedge, double, size_t x) { postSplit++; passed(x, "split"); });
    mm.registerEdgeCollapseHandlers([&](Edge, double) -> size_t { preColl++; return ++token; }, [&](Vertex, double, size_t x) { postColl++; passed(x, "collapse"); });
    mm.registerFaceSplitHandlers([&](Face, std::vector<double>) -> size_t { preFace++; return ++token; }, [&](Vertex, size_t x) { postFace++; passed(x, "face"); });
  }
  long long oneFlip = 0, oneSplit = 0, oneColl = 0, oneFace = 0;
  if (simple && r.coin()) {
    mm.registerEdgeFlipPreHandler([&](Edge) { oneFlip++; });
    mm.registerEdgeFlipPostHandler([&](Edge) { oneFlip++; });
    mm.registerEdgeSplitPreHandler([&](Edge, double) { oneSplit++; });
    mm.registerEdgeSplitPostHandler([&](Halfedge, Halfedge, double) { oneSplit++; });
    mm.registerEdgeCollapsePostHandler([&](Vertex, double) { oneColl++; });
    mm.registerEdgeCollapsePreHandler([&](Edge, double) {});
    mm.registerFaceSplitPreHandler([&](Face, std::vector<double>) { oneFace++; });
    mm.registerFaceSplitPostHandler([&](Vertex) { oneFace++; });
  } else
    oneFlip = -1000000;
  long long okFlip = 0, okSplit = 0, okColl = 0, okFace = 0, tryColl = 0;
  size_t steps = 5 + r.below(c.thorough ? 60 : 25);
  std::string hist;
  bool simplicial = isSimplicial(m);
  for (size_t s = 0; s < steps; s++) {
    if (m.nFaces() > 400 || !simplicial) break;
    if (r.coin(0.05)) {
      m.compress(); // the constraint arrays follow
      // re-key our copies by asking nothing: start over with fresh constraints
      moveC = splitC = collC = flipC = faceC = Cons();
      mm.clearRepositionableVertices(), mm.clearSplittableEdges(), mm.clearCollapsibleEdges(), mm.clearFlippableEdges(), mm.clearSplittableFaces();
      randomConstraints();
      hist += "compress;";
    }
    if (r.coin(0.08) && !regs.empty()) {
      size_t k = r.below(regs.size());
      if (!regs[k].removed) {
        if (r.coin()) regs[k].handle->remove();
        else mm.removePolicy(*regs[k].handle);
        regs[k].removed = true;
        check(!*regs[k].alive, "remove-policy", "policy not deleted by removal");
        hist += "remove;";
        c.count("policies removed");
      }
    }
    if (r.coin(0.05) && regs.size() < 5) addReg();
    for (auto& R : regs) R.log->clear();
    for (Edge e : m.edges()) {
      check(mm.maySplitEdge(e) == splitC(e.getIndex()), "may-split", "constraint of ", e, " history ", hist);
      check(mm.mayFlipEdge(e) == flipC(e.getIndex()), "may-flip", "constraint of ", e, " history ", hist);
      bool pinned = !moveC(e.firstVertex().getIndex()) || !moveC(e.secondVertex().getIndex());
      if (pinned) check(!mm.mayCollapseEdge(e), "may-collapse", "edge at a pinned vertex");
      else if (collC.val.count(e.getIndex()) || !collC.on) check(mm.mayCollapseEdge(e) == collC(e.getIndex()), "may-collapse", "constraint of ", e, " history ", hist);
    }
    for (Vertex v : m.vertices()) check(mm.mayRepositionVertex(v) == moveC(v.getIndex()), "may-move", "constraint of ", v, " history ", hist);
    for (Face f : m.faces()) check(mm.maySplitFace(f) == faceC(f.getIndex()), "may-split-face", "constraint of ", f, " history ", hist);
    size_t h0 = meshHash(m, G);
    std::map<size_t, Vector3> before;
    for (Vertex v : m.vertices()) before[v.getIndex()] = pos[v];
    std::vector<Vertex> V;
    std::vector<Edge> E;
    std::vector<Face> F;
    for (Vertex v : m.vertices()) V.push_back(v);
    for (Edge e : m.edges()) E.push_back(e);
    for (Face f : m.faces()) F.push_back(f);
    std::vector<Rec> want; // expected log
    auto unchanged = [&](const char* w) { check(meshHash(m, G) == h0, "refused-changed", w, " was refused but changed the mesh"); };
    auto wantRec = [&](const std::string& w, size_t a, size_t b, double t, std::vector<double> bb = {}, Vector3 v = {0, 0, 0}) {
      Rec x;
      x.what = w, x.elem = a, x.elem2 = b, x.t = t, x.b = bb, x.vec = v;
      want.push_back(x);
    };
    auto checkOthers = [&](std::set<size_t> except, const char* w) {
      if (!G) return;
      for (auto& kv : before)
        if (!except.count(kv.first) && !m.vertex(kv.first).isDead()) check(pos[m.vertex(kv.first)] == kv.second, "moved-others", w, " moved vertex ", kv.first);
    };
    switch (r.below(G ? 5 : 4)) {
    case 0: { // flip
      Edge e = r.pick(E);
      if (!simpleFlip(e)) {
        if (!e.isBoundary()) break;
        check(!mm.flipEdge(e), "flip-boundary", "flipped a boundary edge");
        unchanged("flip");
        break;
      }
      Halfedge h = e.halfedge();
      std::set<size_t> ends{h.tailVertex().getIndex(), h.tipVertex().getIndex()}, opp{h.next().tipVertex().getIndex(), h.twin().next().tipVertex().getIndex()};
      size_t dMin = std::min(h.tailVertex().degree(), h.tipVertex().degree());
      bool may = flipC(e.getIndex());
      bool done = mm.flipEdge(e);
      hist += str(done ? "flip " : "noflip ", e.getIndex(), ";");
      if (!may) check(!done, "flip-constraint", "flipped the constrained ", e);
      else if (dMin > 3) check(done, "flip-refused", "did not flip ", e);
      if (done) {
        std::set<size_t> now{e.firstVertex().getIndex(), e.secondVertex().getIndex()};
        check(now == opp, "flip-result", e);
        wantRec("flip<", e.getIndex(), 0, 0);
        wantRec("flip>", e.getIndex(), 0, 0);
        okFlip++;
      } else unchanged("flip");
      checkOthers({}, "flip");
      break;
    }
    case 1: { // split
      Edge e = r.pick(E);
      size_t ei = e.getIndex();
      Vertex a = e.halfedge().tailVertex(), b = e.halfedge().tipVertex();
      Vector3 pa = pos[a], pb = pos[b];
      bool ms = splitC(ei), mf = flipC(ei), mc = collC(ei) && moveC(a.getIndex()) && moveC(b.getIndex());
      double t = r.coin(0.1) ? (r.coin() ? 0. : 1.) : r.u();
      Vector3 p = (1 - t) * pa + t * pb, given = p + r.uni(0, 0.5) * norm(pb - pa) * randUnit(r);
      int how = G ? r.below(3) : (r.coin() ? 0 : 2);
      Halfedge h;
      if (how == 0) h = mm.splitEdge(e, t);
      if (how == 1) h = mm.splitEdge(e, given);
      if (how == 2) h = mm.splitEdge(e, t, given);
      hist += str("split ", ei, ";");
      check((h != Halfedge()) == ms, "split-constraint", "split of ", e, " allowed ", ms);
      if (!ms) {
        unchanged("split");
        break;
      }
      Vertex v = h.tailVertex();
      check(!before.count(v.getIndex()), "split-new", "vertex ", v, " is not new");
      check(h.tipVertex() == b, "split-direction", "the halfedge returned does not point to the tip of the edge");
      Halfedge back; // from the new vertex to a
      for (Halfedge x : v.outgoingHalfedges())
        if (x.tipVertex() == a && x.edge() != h.edge()) back = x;
      check(back != Halfedge(), "split-direction", "no edge from the new vertex to the tail");
      check(h.edge().halfedge() == h && back.edge().halfedge() == back.twin(), "split-direction", "the direction of the halves is not that of the edge");
      if (how == 1) {
        double l2 = norm2(pb - pa);
        t = l2 > 0 ? std::min(1., std::max(0., dot(given - pa, pb - pa) / l2)) : 0;
      }
      if (G) near(norm(pos[v] - (how ? given : p)), 0, 1e-12 * scale, "split-position", "new vertex");
      wantRec("split<", ei, 0, t);
      // the second halfedge of the callback: documented as starting at the split vertex
      wantRec("split>", h.getIndex(), back.getIndex(), t);
      okSplit++;
      if (splitC.on) splitC.val[h.edge().getIndex()] = splitC.val[back.edge().getIndex()] = ms;
      if (flipC.on) flipC.val[h.edge().getIndex()] = flipC.val[back.edge().getIndex()] = mf;
      if (collC.on) collC.val[h.edge().getIndex()] = collC.val[back.edge().getIndex()] = mc;
      checkOthers({v.getIndex()}, "split");
      break;
    }
    case 2: { // collapse
      Edge e = r.pick(E);
      size_t ei = e.getIndex();
      Vertex a = e.halfedge().tailVertex(), b = e.halfedge().tipVertex();
      Vector3 pa = pos[a], pb = pos[b];
      bool may = collC(ei) && moveC(a.getIndex()) && moveC(b.getIndex());
      if (collC.on && !collC.val.count(ei)) may = mm.mayCollapseEdge(e);
      double t = r.u();
      Vector3 p = (1 - t) * pa + t * pb, given = p + r.uni(0, 0.3) * norm(pb - pa) * randUnit(r);
      int how = G ? r.below(3) : (r.coin() ? 0 : 2);
      size_t nV = m.nVertices();
      Vertex v;
      if (how == 0) v = mm.collapseEdge(e, t);
      if (how == 1) v = mm.collapseEdge(e, given);
      if (how == 2) v = mm.collapseEdge(e, t, given);
      hist += str(v == Vertex() ? "nocollapse " : "collapse ", ei, ";");
      if (how == 1) {
        double l2 = norm2(pb - pa);
        t = l2 > 0 ? std::min(1., std::max(0., dot(given - pa, pb - pa) / l2)) : 0;
      }
      if (!may) {
        check(v == Vertex(), "collapse-constraint", "collapsed the constrained ", ei);
        unchanged("collapse");
        break;
      }
      tryColl++;
      wantRec("collapse<", ei, 0, t); // (documented TODO: also invoked if the collapse turns out to be impossible)
      if (v == Vertex()) {
        unchanged("collapse");
        break;
      }
      check(v == a || v == b, "collapse-vertex", "the vertex returned is not an end of the edge");
      check(!v.isDead() && (v == a ? b : a).isDead() && m.nVertices() == nV - 1, "collapse-vertex", "number of vertices");
      if (G) near(norm(pos[v] - (how ? given : p)), 0, 1e-12 * scale, "collapse-position", "merged vertex");
      wantRec("collapse>", v.getIndex(), 0, t);
      okColl++;
      checkOthers({a.getIndex(), b.getIndex()}, "collapse");
      simplicial = isSimplicial(m); // (a tetrahedron becomes a pillow: no further edits)
      break;
    }
    case 3: { // face split
      Face f = r.pick(F);
      size_t fIdx = f.getIndex();
      std::vector<double> b{r.u() + 0.01, r.u() + 0.01, r.u() + 0.01};
      double sum = b[0] + b[1] + b[2];
      for (auto& x : b) x /= sum;
      Vector3 p{0, 0, 0};
      size_t k = 0;
      std::vector<Vertex> vs;
      for (Vertex v : f.adjacentVertices()) p += b[k++] * pos[v], vs.push_back(v);
      bool own = r.coin();
      Vector3 given = p + 0.1 * scale * randUnit(r);
      bool may = faceC(fIdx);
      Vertex v = own ? mm.splitFace(f, b, given) : mm.splitFace(f, b);
      hist += str("face ", fIdx, ";");
      check((v != Vertex()) == may, "face-constraint", "split of ", f);
      if (!may) {
        unchanged("face split");
        break;
      }
      check(!before.count(v.getIndex()) && v.degree() == 3, "face-vertex", "new vertex");
      std::set<Vertex> nb;
      for (Vertex x : v.adjacentVertices()) nb.insert(x);
      check(nb == std::set<Vertex>(vs.begin(), vs.end()), "face-vertex", "neighbours");
      if (G) near(norm(pos[v] - (own ? given : p)), 0, 1e-12 * scale, "face-position", "new vertex");
      wantRec("face<", fIdx, 0, 0, b);
      wantRec("face>", v.getIndex(), 0, 0, b);
      okFace++;
      checkOthers({v.getIndex()}, "face split");
      break;
    }
    case 4: { // move
      Vertex v = r.pick(V);
      Vector3 d = 0.1 * scale * r.u() * randUnit(r);
      bool done = mm.repositionVertex(v, d);
      check(done == moveC(v.getIndex()), "move-constraint", "move of ", v);
      if (!done) {
        unchanged("move");
        break;
      }
      check(pos[v] == before[v.getIndex()] + d, "move-position", v);
      wantRec("move", v.getIndex(), 0, 0, {}, d);
      checkOthers({v.getIndex()}, "move");
      c.count("moves");
      break;
    }
    }
    for (auto& R : regs) {
      if (R.removed) {
        check(R.log->empty(), "removed-called", "removed policy was called");
        continue;
      }
      std::string gotS, wantS;
      bool same = R.log->size() == want.size();
      for (auto& x : *R.log) gotS += str(x.what, x.elem, ",", x.elem2, "@", x.t, " ");
      for (auto& x : want) wantS += str(x.what, x.elem, ",", x.elem2, "@", x.t, " ");
      for (size_t k = 0; same && k < want.size(); k++) {
        Rec &x = (*R.log)[k], &y = want[k];
        same = x.what == y.what && x.elem == y.elem && x.elem2 == y.elem2 && std::abs(x.t - y.t) < 1e-9 && x.b == y.b && x.vec == y.vec;
      }
      check(same, "callbacks", "policy saw [", gotS, "] expected [", wantS, "] history ", hist);
      c.count("callback logs compared");
    }
    if (simple) {
      check(preFlip == okFlip && postFlip == okFlip && preSplit == okSplit && postSplit == okSplit && preFace == okFace && postFace == okFace && preColl == tryColl && postColl == okColl, "simple-count",
            "simple handlers: flips ", preFlip, "/", postFlip, " of ", okFlip, " splits ", preSplit, "/", postSplit, " of ", okSplit, " faces ", preFace, "/", postFace, " of ", okFace, " collapses ", preColl, "/", postColl, " of ", tryColl, "/", okColl);
      if (oneFlip >= 0) check(oneFlip == 2 * okFlip && oneSplit == 2 * okSplit && oneColl == okColl && oneFace == 2 * okFace, "simple-count", "single handlers");
    }
    if (r.coin(0.3) || s + 1 == steps) {
      fullCheck(m, "manager", &c);
      Topo t1 = topo(m);
      check(t0 == t1, "manager-topology", "topology changed from ", t0, " to ", t1, " history ", hist);
    }
  }
  c.count("flips", okFlip);
  c.count("splits", okSplit);
  c.count("collapses", okColl);
  c.count("face splits", okFace);
}
// -------------------------------------------------------------------------------------------------- smoothing and remeshing
// well shaped meshes: grids, cylinders, tori and spheres with mild noise
GeoMesh niceMesh(Ctx& c, size_t maxN) {
  Rng& r = c.rng;
  GeoMesh g;
  Soup& s = g.soup;
  int kind = r.below(4);
  size_t n = 3 + r.below(maxN), k = 3 + r.below(maxN);
  auto quad = [&](size_t a, size_t b, size_t d, size_t e) {
    if (r.coin()) {
      s.polys.push_back({a, b, d});
      s.polys.push_back({a, d, e});
    } else {
      s.polys.push_back({a, b, e});
      s.polys.push_back({b, d, e});
    }
  };
  double noise = r.coin() ? 0 : r.uni(0, 0.2), bump = r.coin() ? 0 : r.uni(0, 0.6);
  auto jit = [&]() { return noise * r.uni(-1, 1); };
  if (kind == 0) { // grid
    for (size_t i = 0; i <= n; i++)
      for (size_t j = 0; j <= k; j++) s.pos.push_back({i + jit(), j + jit(), bump * std::sin(1. * i) * std::cos(0.8 * j)});
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < k; j++) {
        size_t a = i * (k + 1) + j;
        quad(a, a + k + 1, a + k + 2, a + 1);
      }
  } else if (kind == 1) { // cylinder
    n += 2;
    double R = n / 6.28;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j <= k; j++) {
        double t = 6.283185307179586 * (i + jit()) / n;
        s.pos.push_back({R * std::cos(t), R * std::sin(t), j + jit()});
      }
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < k; j++) {
        size_t a = i * (k + 1) + j, b = ((i + 1) % n) * (k + 1) + j;
        quad(a, b, b + 1, a + 1);
      }
  } else if (kind == 2) { // torus
    n += 5, k += 2;
    double R = n / 5., q = R * 0.4;
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < k; j++) {
        double t = 6.283185307179586 * (i + 0.5 * jit()) / n, u = 6.283185307179586 * (j + 0.5 * jit()) / k;
        s.pos.push_back({(R + q * std::cos(u)) * std::cos(t), (R + q * std::cos(u)) * std::sin(t), q * std::sin(u)});
      }
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < k; j++) quad(i * k + j, ((i + 1) % n) * k + j, ((i + 1) % n) * k + (j + 1) % k, i * k + (j + 1) % k);
  } else { // octahedral sphere
    std::vector<Vector3> P{{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    std::vector<Poly> T{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
    size_t lev = 1 + r.below(maxN > 6 ? 3 : 2);
    for (size_t l = 0; l < lev; l++) {
      std::map<std::pair<size_t, size_t>, size_t> mid;
      auto M = [&](size_t a, size_t b) {
        auto key = std::make_pair(std::min(a, b), std::max(a, b));
        if (!mid.count(key)) mid[key] = P.size(), P.push_back(unit(P[a] + P[b]));
        return mid[key];
      };
      std::vector<Poly> N;
      for (auto& t : T) {
        size_t x = M(t[0], t[1]), y = M(t[1], t[2]), z = M(t[2], t[0]);
        N.push_back({t[0], x, z}), N.push_back({t[1], y, x}), N.push_back({t[2], z, y}), N.push_back({x, y, z});
      }
      T = N;
    }
    for (auto& p : P) s.pos.push_back(unit(p + 0.2 * noise * randUnit(r)) * 2);
    s.polys = T;
  }
  Rigid R = randRigid(r, 1.5);
  for (auto& p : s.pos) p = R(p);
  g.mesh.reset(new ManifoldSurfaceMesh(s.polys));
  g.geom.reset(new VertexPositionGeometry(*g.mesh, positions(*g.mesh, s)));
  c.sig(hashPolys(s.polys));
  for (auto& q : s.pos) c.sig(hashD(q.x));
  static const char* names[] = {"grid", "cylinder", "torus", "sphere"};
  c.note = str(names[kind], " V", s.pos.size(), " F", s.polys.size(), " noise ", noise, " bump ", bump);
  return g;
}
double ang(Vector3 a, Vector3 b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }
Vector3 areaVec(VertexPositionGeometry& g, Face f) {
  Halfedge h = f.halfedge();
  Vector3 a = g.inputVertexPositions[h.tailVertex()], b = g.inputVertexPositions[h.next().tailVertex()], d = g.inputVertexPositions[h.next().next().tailVertex()];
  return cross(b - a, d - a) / 2;
}
void famSmooth(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = niceMesh(c, 5);
  ManifoldSurfaceMesh& m = *g.mesh;
  VertexData<Vector3>& pos = g.geom->inputVertexPositions;
  double scale = scaleOf(*g.geom, m), off = 0;
  for (Vertex v : m.vertices()) off = std::max(off, norm(pos[v]));
  bool circ = r.coin();
  double step = r.uni(0.1, 1);
  RemeshBoundaryCondition bc = (RemeshBoundaryCondition)r.below(3);
  bool useMM = r.coin(0.7);
  MutationManager mm(m, *g.geom);
  VertexData<bool> pin(m, false);
  EdgeData<bool> fix(m, false);
  if (useMM) {
    if (r.coin()) {
      VertexData<bool> may(m, true);
      for (Vertex v : m.vertices())
        if (r.coin(0.3)) pin[v] = true, may[v] = false;
      mm.setRepositionableVertices(may);
    }
    if (r.coin()) {
      EdgeData<bool> may(m, true);
      for (Edge e : m.edges())
        if (r.coin(0.1)) fix[e] = true, may[e] = false;
      mm.setFlippableEdges(may);
    }
  }
  // reference
  std::map<Vertex, Vector3> want;
  double total = 0;
  for (Vertex v : m.vertices()) {
    Vector3 d{0, 0, 0}, N{0, 0, 0};
    double A = 0;
    size_t n = 0;
    for (Face f : v.adjacentFaces()) {
      Vector3 p[3];
      size_t k = 0, at = 0;
      bool bary = false;
      for (Halfedge h : f.adjacentHalfedges()) {
        if (h.tailVertex() == v) at = k;
        p[k++] = pos[h.tailVertex()];
        bary = bary || h.edge().isBoundary() || (useMM && fix[h.edge()]);
      }
      Vector3 av = areaVec(*g.geom, f);
      N += ang(p[(at + 1) % 3] - p[at], p[(at + 2) % 3] - p[at]) * unit(av);
      A += norm(av);
      if (circ) {
        Vector3 cc = (p[0] + p[1] + p[2]) / 3;
        if (!bary) { // circumcenter relative to p0
          Vector3 u = p[1] - p[0], w = p[2] - p[0], x = cross(u, w);
          cc = p[0] + (cross(x, u) * norm2(w) + cross(w, x) * norm2(u)) / (2 * norm2(x));
        }
        d += norm(av) * (cc - pos[v]);
      }
    }
    if (circ) d /= 2 * A; // A / 3 is the dual area
    else {
      for (Vertex w : v.adjacentVertices()) d += pos[w] - pos[v], n++;
      d /= (double)n;
    }
    if (norm(N) < 1e-3) throw Skip("no vertex normal");
    N = unit(N);
    Vector3 off2;
    if (v.isBoundary() && bc == RemeshBoundaryCondition::Fixed) off2 = {0, 0, 0};
    else if (v.isBoundary() && bc == RemeshBoundaryCondition::Tangential) {
      Vector3 T{0, 0, 0};
      for (Halfedge h : v.outgoingHalfedges()) {
        if (!h.edge().isBoundary()) continue;
        Vector3 x = unit(pos[h.tipVertex()] - pos[v]);
        T += h.isInterior() ? x : -x; // along the boundary
      }
      if (norm(T) < 1e-3) throw Skip("no boundary tangent");
      T = unit(T);
      off2 = dot(T, d) * T;
    } else off2 = d - dot(d, N) * N;
    off2 *= step;
    if (pin[v]) off2 = {0, 0, 0};
    want[v] = pos[v] + off2;
    total += norm(off2);
  }
  size_t calls = 0;
  double got;
  if (useMM) {
    struct Count : public VertexRepositionPolicy {
      size_t* n;
      void beforeVertexReposition(const Vertex&, const Vector3&) override { (*n)++; }
    };
    Count* p = new Count();
    p->n = &calls;
    mm.registerPolicy(p);
    got = circ ? smoothByCircumcenter(m, *g.geom, mm, step, bc) : smoothByLaplacian(m, *g.geom, mm, step, bc);
    size_t movable = 0;
    for (Vertex v : m.vertices()) movable += !pin[v];
    check(calls == movable, "smooth-callbacks", calls, " callbacks, ", movable, " movable vertices");
  } else
    got = circ ? smoothByCircumcenter(m, *g.geom, step, bc) : smoothByLaplacian(m, *g.geom, step, bc);
  double tol = 1e-7 * scale + 1e-10 * off;
  std::string K = circ ? "smooth-circumcenter" : "smooth-laplacian";
  for (auto& kv : want) {
    if (pin[kv.first]) check(pos[kv.first] == kv.second, K + "-pinned", kv.first);
    near(norm(pos[kv.first] - kv.second), 0, tol, K, "position of ", kv.first, " boundary ", kv.first.isBoundary(), " condition ", (int)bc);
  }
  near(got, total / m.nVertices(), tol, K + "-return", "mean displacement");
  c.count(K);
}
void famDelaunay(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = niceMesh(c, 6);
  ManifoldSurfaceMesh& m = *g.mesh;
  MutationManager mm(m, *g.geom);
  size_t flips = 0;
  mm.registerEdgeFlipPostHandler([&](Edge) { flips++; });
  std::map<size_t, std::set<size_t>> fixedEnds;
  if (r.coin()) {
    EdgeData<bool> may(m, true);
    for (Edge e : m.edges())
      if (r.coin(0.15)) {
        may[e] = false;
        fixedEnds[e.getIndex()] = {e.firstVertex().getIndex(), e.secondVertex().getIndex()};
      }
    mm.setFlippableEdges(may);
  }
  Topo t0 = topo(m);
  std::map<size_t, Vector3> p0;
  for (Vertex v : m.vertices()) p0[v.getIndex()] = g.geom->inputVertexPositions[v];
  size_t n = fixDelaunay(m, *g.geom, mm);
  check(n == flips, "delaunay-count", n, " flips reported, ", flips, " seen");
  fullCheck(m, "delaunay", &c);
  check(topo(m) == t0, "delaunay-topology", "");
  for (auto& kv : p0) check(g.geom->inputVertexPositions[m.vertex(kv.first)] == kv.second, "delaunay-moved", "vertex moved");
  for (auto& kv : fixedEnds) {
    Edge e = m.edge(kv.first);
    check((std::set<size_t>{e.firstVertex().getIndex(), e.secondVertex().getIndex()}) == kv.second, "delaunay-fixed", "a constrained edge was flipped");
  }
  if (n < 100 * m.nVertices()) {
    for (Edge e : m.edges()) {
      if (fixedEnds.count(e.getIndex()) || !simpleFlip(e)) continue;
      double s = 0;
      for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
        Vector3 a = g.geom->inputVertexPositions[h.tailVertex()], b = g.geom->inputVertexPositions[h.tipVertex()], x = g.geom->inputVertexPositions[h.next().tipVertex()];
        s += ang(a - x, b - x);
      }
      if (e.firstVertex().degree() > 3 && e.secondVertex().degree() > 3) check(s <= PI + 1e-5, "delaunay-result", "opposite angles of ", e, " sum to ", s);
    }
    c.count("delaunay meshes");
  } else c.count("flip limit reached");
  c.count("delaunay flips", n);
}
void famAdjust(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = niceMesh(c, 6);
  ManifoldSurfaceMesh& m = *g.mesh;
  VertexData<Vector3>& pos = g.geom->inputVertexPositions;
  MutationManager mm(m, *g.geom);
  double mean = 0;
  std::map<size_t, double> len;
  for (Edge e : m.edges()) mean += len[e.getIndex()] = norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
  mean /= m.nEdges();
  RemeshOptions o;
  double rel = std::exp(r.uni(-1.2, 1.2));
  if (r.coin(0.3)) rel = 1;
  bool relative = r.coin();
  o.targetEdgeLength = relative ? -rel : rel * mean;
  if (rel == 1 && relative && r.coin()) o = RemeshOptions();
  o.minRelativeLength = r.coin() ? 0.05 : r.uni(0.05, 2);
  double target = rel * mean, minLen = o.minRelativeLength * target;
  VertexData<bool> may(m, true);
  bool pins = r.coin(0.4);
  std::map<size_t, Vector3> pinned;
  if (pins) {
    for (Vertex v : m.vertices())
      if (r.coin(0.2)) may[v] = false, pinned[v.getIndex()] = pos[v];
    mm.setRepositionableVertices(may);
  }
  EdgeData<bool> ms(m, true), mc(m, true);
  bool cons = r.coin(0.4);
  if (cons) {
    for (Edge e : m.edges()) ms[e] = r.coin(0.8), mc[e] = r.coin(0.8);
    mm.setSplittableEdges(ms);
    mm.setCollapsibleEdges(mc);
  }
  std::set<size_t> wantSplit, gotSplit, noColl;
  for (Edge e : m.edges()) {
    double l = len[e.getIndex()];
    if (std::abs(l - 1.5 * target) < 1e-9 * l || std::abs(l - minLen) < 1e-9 * l || std::abs(l - 0.5 * target) < 1e-9 * l) throw Skip("length at a threshold");
    if (l > minLen && l > 1.5 * target && ms[e]) wantSplit.insert(e.getIndex());
    if (!mc[e]) noColl.insert(e.getIndex());
  }
  size_t nSplit = 0, nColl = 0;
  mm.registerEdgeSplitHandlers([&](Edge e, double t) -> size_t {
    near(t, 0.5, 1e-9, "adjust-midpoint", "split at t");
    check(gotSplit.insert(e.getIndex()).second, "adjust-split", "edge split twice");
    return e.getIndex();
  }, [&](Halfedge, Halfedge, double, size_t) { nSplit++; });
  mm.registerEdgeCollapseHandlers([&](Edge e, double) -> size_t {
    double l = norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
    check(l < 0.5 * target * (1 + 1e-9), "adjust-collapse", "collapse of ", e, " of length ", l, " target ", target);
    check(!noColl.count(e.getIndex()), "adjust-collapse-constraint", "constrained edge collapsed");
    return 0;
  }, [&](Vertex v, double, size_t) {
    nColl++;
    check(std::isfinite(pos[v].x), "adjust-finite", "position");
  });
  Topo t0 = topo(m);
  bool plain = !pins && !cons && r.coin(0.3);
  size_t nV = m.nVertices();
  // pinned vertices are recognized by their positions (the mesh is compressed)
  bool did = plain ? adjustEdgeLengths(m, *g.geom, o) : adjustEdgeLengths(m, *g.geom, mm, o);
  fullCheck(m, "adjust", &c);
  check(m.isCompressed(), "adjust-compressed", "");
  Topo t1 = topo(m);
  check(t0 == t1, "adjust-topology", "topology changed from ", t0, " to ", t1);
  check(finitePos(*g.geom, m), "adjust-finite", "positions");
  if (!plain) {
    check(gotSplit == wantSplit, "adjust-split-set", gotSplit.size(), " edges split, ", wantSplit.size(), " are longer than 1.5 x ", target);
    check(nSplit == gotSplit.size(), "adjust-callbacks", "splits");
    check(did == (nSplit + nColl > 0), "adjust-return", "returned ", did, " after ", nSplit, " splits and ", nColl, " collapses");
    check(m.nVertices() == nV + nSplit - nColl, "adjust-count", "vertices");
    for (auto& kv : pinned) {
      bool found = false;
      for (Vertex v : m.vertices()) found = found || (pos[v] == kv.second && !mm.mayRepositionVertex(v));
      check(found, "adjust-pinned", "pinned vertex gone");
    }
    c.count("adjust splits", nSplit);
    c.count("adjust collapses", nColl);
  } else if (wantSplit.size()) check(did, "adjust-return", "no split reported");
  c.count("adjusted");
}
void famRemesh(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = niceMesh(c, 5);
  ManifoldSurfaceMesh& m = *g.mesh;
  VertexData<Vector3>& pos = g.geom->inputVertexPositions;
  double mean = 0;
  for (Edge e : m.edges()) mean += norm(pos[e.firstVertex()] - pos[e.secondVertex()]);
  mean /= m.nEdges();
  RemeshOptions o;
  double rel = std::exp(r.uni(-0.7, 0.6));
  o.targetEdgeLength = r.coin() ? -rel : rel * mean;
  o.maxIterations = r.below(c.thorough ? 12 : 6);
  o.smoothStyle = r.coin() ? RemeshSmoothStyle::Circumcentric : RemeshSmoothStyle::Laplacian;
  o.boundaryCondition = (RemeshBoundaryCondition)r.below(3);
  if (r.coin(0.3)) o.curvatureAdaptation = r.uni(0, 1) / (rel * mean);
  c.note += str(" remesh rel ", rel, " it ", o.maxIterations, " style ", (int)o.smoothStyle, " bc ", (int)o.boundaryCondition, " adapt ", o.curvatureAdaptation);
  MutationManager mm(m, *g.geom);
  std::vector<Vector3> pinned;
  bool useMM = r.coin(0.7);
  size_t flips = 0, splits = 0, colls = 0, flips0 = 0, splits0 = 0;
  VertexData<bool> may(m, true);
  if (useMM) {
    if (r.coin()) {
      for (Vertex v : m.vertices())
        if (r.coin(0.1)) may[v] = false, pinned.push_back(pos[v]);
      mm.setRepositionableVertices(may);
    }
    mm.registerEdgeFlipHandlers([&](Edge) -> int { flips0++; return 0; }, [&](Edge, int) { flips++; });
    mm.registerEdgeSplitHandlers([&](Edge, double) -> int { splits0++; return 0; }, [&](Halfedge, Halfedge, double, int) { splits++; });
    mm.registerEdgeCollapsePostHandler([&](Vertex, double) { colls++; });
  }
  Topo t0 = topo(m);
  size_t nV = m.nVertices(), h0 = meshHash(m, g.geom.get());
  g.geom->requireVertexDualAreas();
  if (useMM) remesh(m, *g.geom, mm, o);
  else remesh(m, *g.geom, o);
  fullCheck(m, "remesh", &c);
  Topo t1 = topo(m);
  check(t0 == t1, "remesh-topology", "topology changed from ", t0, " to ", t1);
  check(finitePos(*g.geom, m), "remesh-finite", "positions are not finite");
  if (useMM) {
    check(m.nVertices() == nV + splits - colls, "remesh-count", "vertices ", m.nVertices(), " from ", nV, " with ", splits, " splits and ", colls, " collapses");
    check(flips == flips0 && splits == splits0, "remesh-callbacks", "");
    for (auto& p : pinned) {
      bool found = false;
      for (Vertex v : m.vertices()) found = found || (pos[v] == p && !mm.mayRepositionVertex(v));
      check(found, "remesh-pinned", "pinned vertex at ", p, " is gone");
    }
    c.count("remesh flips", flips);
    c.count("remesh splits", splits);
    c.count("remesh collapses", colls);
  }
  if (o.maxIterations == 0) check(meshHash(m, g.geom.get()) == h0, "remesh-zero", "changed without iterations");
  // required quantities are up to date
  double tot = 0, tot2 = 0;
  for (Vertex v : m.vertices()) tot += g.geom->vertexDualAreas[v];
  for (Face f : m.faces()) tot2 += norm(areaVec(*g.geom, f));
  near(tot, tot2, 1e-6 * tot2, "remesh-refresh", "total of the required dual areas");
  c.count("remeshed");
}
// -------------------------------------------------------------------------------------------------- simplification
void famSimplify(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = r.coin() ? niceMesh(c, 5) : [&] {
    GeoOpts o;
    o.maxQ = 100;
    o.logScale = 1;
    return geoMesh(c, o);
  }();
  ManifoldSurfaceMesh& m = *g.mesh;
  VertexData<Vector3>& pos = g.geom->inputVertexPositions;
  double scale = scaleOf(*g.geom, m), off = 0;
  for (Vertex v : m.vertices()) off = std::max(off, norm(pos[v]));
  double tol = r.coin(0.1) ? -1 : scale * scale * std::pow(10., r.uni(-6, 0));
  c.note += str(" tol ", tol);
  MutationManager mm(m, *g.geom);
  // independent quadrics: the planes collected by each vertex
  typedef std::vector<std::pair<Vector3, double>> Planes;
  std::map<size_t, Planes> Q;
  for (Face f : m.faces()) {
    Vector3 n = unit(areaVec(*g.geom, f));
    for (Vertex v : f.adjacentVertices()) Q[v.getIndex()].push_back({n, -dot(n, pos[v])});
  }
  auto cost = [&](const Planes& p, Vector3 x) {
    double s = 0;
    for (auto& q : p) s += (dot(q.first, x) + q.second) * (dot(q.first, x) + q.second);
    return s;
  };
  std::set<size_t> noColl;
  std::vector<Vector3> pinned;
  if (r.coin(0.4)) {
    VertexData<bool> may(m, true);
    for (Vertex v : m.vertices())
      if (r.coin(0.2)) may[v] = false, pinned.push_back(pos[v]);
    mm.setRepositionableVertices(may);
  }
  size_t colls = 0;
  double worst = 0;
  Planes cur;
  mm.registerEdgeCollapseHandlers([&](Edge e, double) -> int {
    cur = Q[e.firstVertex().getIndex()];
    auto& b = Q[e.secondVertex().getIndex()];
    cur.insert(cur.end(), b.begin(), b.end());
    return 0;
  }, [&](Vertex v, double, int) {
    colls++;
    Q[v.getIndex()] = cur;
    double k = cost(cur, pos[v]), slack = 1e-8 * scale * scale + 1e-11 * off * off * cur.size() + 1e-8 * cur.size() * norm2(pos[v]) * 1e-3;
    worst = std::max(worst, k);
    check(k <= tol + slack + 1.1e-8, "simplify-cost", "collapse to a point of cost ", k, ", tolerance ", tol);
  });
  Topo t0 = topo(m);
  size_t nV = m.nVertices();
  bool plain = pinned.empty() && r.coin(0.3);
  size_t h0 = meshHash(m, g.geom.get());
  if (plain) quadricErrorSimplify(m, *g.geom, tol);
  else quadricErrorSimplify(m, *g.geom, tol, mm);
  fullCheck(m, "simplify", &c);
  check(m.isCompressed(), "simplify-compressed", "");
  Topo t1 = topo(m);
  check(t0 == t1, "simplify-topology", "topology changed from ", t0, " to ", t1);
  check(finitePos(*g.geom, m), "simplify-finite", "positions");
  if (!plain) {
    check(m.nVertices() == nV - colls, "simplify-count", "");
    for (auto& p : pinned) {
      bool found = false;
      for (Vertex v : m.vertices()) found = found || (pos[v] == p && !mm.mayRepositionVertex(v));
      check(found, "simplify-pinned", "");
    }
    c.count("simplify collapses", colls);
  }
  if (tol < 0 && nV == m.nVertices()) (void)h0;
  c.count("simplified");
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("subdivide", 4, famSubdivide);
  S.add("manager", 4, famManager);
  S.add("smooth", 2, famSmooth);
  S.add("delaunay", 2, famDelaunay);
  S.add("adjust", 2, famAdjust);
  S.add("remesh", 2, famRemesh);
  S.add("simplify", 2, famSimplify);
  return run(S, argc, argv);
}
