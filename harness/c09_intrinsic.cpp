// C09: edits of intrinsic triangulations preserve the intrinsic geometry.
#include "intri.h"
using namespace vf;

struct Ev { // recorded callbacks
  size_t flips = 0, inserts = 0, splits = 0;
  Edge lastFlip;
  Face lastF;
  Vertex lastV;
  Edge lastE;
  Halfedge h1, h2;
};
static Vector2 apex(double ab, double bc, double ca) { // c, for a=(0,0), b=(ab,0)
  double x = (ca * ca - bc * bc + ab * ab) / (2 * ab);
  double y = 2 * (double)triArea(ab, bc, ca) / ab;
  return {x, y};
}
struct Quad {
  Vertex a, b, c, d; // h: a->b, c left, d right
  double flipped = 0, conv = 0;
  bool interior = false, degOne = false;
};
static Quad quadOf(IT& t, Edge e) {
  Quad q;
  const EdgeData<double>& l = t.T->edgeLengths;
  Halfedge h = e.halfedge();
  q.interior = !e.isBoundary();
  if (!q.interior) return q;
  Halfedge g = h.twin();
  q.a = h.vertex();
  q.b = h.next().vertex();
  q.c = h.next().next().vertex();
  q.d = g.next().next().vertex();
  q.degOne = h.face() == g.face();
  double ab = l[e];
  Vector2 C = apex(ab, l[h.next().edge()], l[h.next().next().edge()]);
  Vector2 D = apex(ab, l[g.next().next().edge()], l[g.next().edge()]);
  D.y = -D.y;
  Vector2 A{0, 0}, B{ab, 0};
  q.flipped = norm(C - D);
  double A1 = cross(C - A, D - A), A2 = cross(D - B, C - B);
  A1 = -A1;
  A2 = -A2;
  double A0 = std::abs(A1) + std::abs(A2);
  q.conv = std::min(A1, A2) / A0;
  return q;
}
static bool fixedE(IT& t, Edge e) { return e.isBoundary() || (t.T->markedEdges.size() > 0 && t.T->markedEdges[e]); }

static void doFlip(Ctx& c, IT& t, Ev& ev) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  std::vector<Edge> es;
  for (Edge e : T.intrinsicMesh->edges()) es.push_back(e);
  Edge e = r.pick(es);
  Quad q = quadOf(t, e);
  bool fx = fixedE(t, e);
  check(T.isFixed(e) == fx, "is-fixed", "isFixed");
  if (!fx && std::abs(q.conv) < 2e-2) return; // neither clearly convex nor clearly not
  double len0 = T.edgeLengths[e], cw = 0;
  if (!fx) {
    Halfedge h = e.halfedge(), g = h.twin();
    cw = 0.5 * (double)(triCot(len0, T.edgeLengths[h.next().edge()], T.edgeLengths[h.next().next().edge()]) + triCot(len0, T.edgeLengths[g.next().edge()], T.edgeLengths[g.next().next().edge()]));
  }
  bool del = r.coin(0.3);
  size_t f0 = ev.flips;
  bool can = !fx && q.conv > 0 && !q.degOne;
  bool did;
  if (del) {
    if (std::abs(cw) < 1e-4) return;
    check(T.isDelaunay(e) == (fx || cw > 0), "is-delaunay", "isDelaunay is ", T.isDelaunay(e), " cotan weight ", cw);
    did = T.flipEdgeIfNotDelaunay(e);
    if (cw > 0 || fx) check(!did, "flip-delaunay", "flipped a Delaunay or fixed edge");
    else if (can) check(did, "flip-delaunay", "did not flip a non-Delaunay edge");
  } else {
    did = T.flipEdgeIfPossible(e);
    check(did == can, "flip-possible", "flipEdgeIfPossible is ", did, " convexity ", q.conv, " fixed ", fx, " one face ", q.degOne);
  }
  check(ev.flips == f0 + did, "flip-callback", "callbacks ", ev.flips - f0);
  if (!did) {
    check(T.edgeLengths[e] == len0, "flip-refused", "length changed");
    return;
  }
  check(ev.lastFlip == e, "flip-callback", "callback edge");
  c.count("flips");
  near(T.edgeLengths[e], q.flipped, 1e-8 * (q.flipped + len0), "flip-length", "length of the flipped edge");
  std::multiset<size_t> ends{e.firstVertex().getIndex(), e.secondVertex().getIndex()}, want{q.c.getIndex(), q.d.getIndex()};
  check(ends == want, "flip-ends", "flipped edge joins wrong vertices");
  if (!del && r.coin(0.4)) { // flip back
    bool back = T.flipEdgeIfPossible(e);
    check(back, "flip-back", "could not flip back");
    near(T.edgeLengths[e], len0, 1e-8 * (q.flipped + len0), "flip-back-length", "length after two flips");
    std::multiset<size_t> ends2{e.firstVertex().getIndex(), e.secondVertex().getIndex()}, want2{q.a.getIndex(), q.b.getIndex()};
    check(ends2 == want2, "flip-back-ends", "wrong vertices after two flips");
    c.count("flips reversed");
  }
}
static void noteInserted(IT& t, Vertex v) {
  check(v != Vertex() && !t.inserted.count(v.getIndex()) && !(v.getIndex() < t.g.mesh->nVertices()), "new-vertex", "not a new vertex");
  t.inserted.insert(v.getIndex());
}
static void doInsertFace(Ctx& c, IT& t, Ev& ev) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  std::vector<Face> fs;
  for (Face f : T.intrinsicMesh->faces()) fs.push_back(f);
  Face f = r.pick(fs);
  Vector3 b{r.uni(.1, 1), r.uni(.1, 1), r.uni(.1, 1)};
  bool bary = r.coin(0.3);
  if (bary) b = Vector3{1, 1, 1};
  b = b / (b.x + b.y + b.z);
  std::array<Vertex, 3> vs;
  std::array<double, 3> want;
  Vector3 P{0, 0, 0};
  for (int i = 0; i < 3; i++) {
    vs[i] = heOf(f, i).vertex();
    Vector3 e{0, 0, 0};
    e[i] = 1;
    want[i] = baryLen(T.edgeLengths, f, b - e);
    if (t.flat) P += b[i] * intrinsicVertexPos(t, vs[i]);
  }
  size_t n0 = ev.inserts;
  Vertex v = bary ? T.insertBarycenter(f) : T.insertVertex(SurfacePoint(f, b));
  noteInserted(t, v);
  check(ev.inserts == n0 + 1 && ev.lastV == v && ev.lastF == f, "insert-callback", "insertion callback");
  check(v.degree() == 3, "insert-degree", "degree ", v.degree());
  // neighbours and lengths as multisets (the three corners may coincide in a Delta-complex)
  std::vector<std::pair<size_t, double>> got, exp;
  for (Halfedge h : v.outgoingHalfedges()) got.push_back({h.tipVertex().getIndex(), T.edgeLengths[h.edge()]});
  for (int i = 0; i < 3; i++) exp.push_back({vs[i].getIndex(), want[i]});
  std::sort(got.begin(), got.end());
  std::sort(exp.begin(), exp.end());
  for (size_t i = 0; i < 3; i++) {
    check(got[i].first == exp[i].first, "insert-neighbours", "neighbour");
    near(got[i].second, exp[i].second, 1e-8 * (exp[i].second + t.L), "insert-length", "new edge length");
  }
  if (t.flat) nearV(inputPos(t, T.vertexLocations[v]), P, 1e-6 * t.L, "insert-location", "location of the new vertex");
  c.count("face insertions");
}
static void doSplit(Ctx& c, IT& t, Ev& ev) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  std::vector<Edge> es;
  bool wantB = r.coin(0.3);
  for (Edge e : T.intrinsicMesh->edges())
    if (!wantB || fixedE(t, e)) es.push_back(e);
  if (es.empty()) return;
  Edge e = r.pick(es);
  bool onB = e.isBoundary(), fx = fixedE(t, e);
  if (!onB && e.halfedge().face() == e.halfedge().twin().face()) return; // splitEdgeTriangular asserts two distinct triangles
  double s = r.uni(0.1, 0.9), len = T.edgeLengths[e];
  Halfedge h = e.halfedge();
  bool flip = !onB && r.coin();
  if (flip) h = h.twin();
  Vertex a = h.tailVertex(), b = h.tipVertex();
  Vector3 P{0, 0, 0};
  if (t.flat) P = (1 - s) * intrinsicVertexPos(t, a) + s * intrinsicVertexPos(t, b);
  size_t n0 = ev.splits;
  int nc = t.signpost ? -99 : t.ic().normalCoordinates[e];
  Vertex v;
  Halfedge hn;
  if (r.coin()) {
    hn = T.splitEdge(h, s);
    v = hn.vertex();
  } else v = T.insertVertex(SurfacePoint(e, flip ? 1 - s : s));
  noteInserted(t, v);
  check(v.isBoundary() == onB, "split-boundary", "boundary status of the new vertex");
  check(ev.splits == n0 + 1, "split-callback", "callback not called once");
  check(ev.h1.vertex() == v && ev.h2.vertex() == v, "split-callback", "callback halfedges do not start at the new vertex");
  std::vector<std::pair<size_t, double>> got{{ev.h1.tipVertex().getIndex(), T.edgeLengths[ev.h1.edge()]}, {ev.h2.tipVertex().getIndex(), T.edgeLengths[ev.h2.edge()]}};
  std::vector<std::pair<size_t, double>> exp{{a.getIndex(), s * len}, {b.getIndex(), (1 - s) * len}};
  std::sort(got.begin(), got.end());
  std::sort(exp.begin(), exp.end());
  for (size_t i = 0; i < 2; i++) {
    check(got[i].first == exp[i].first, "split-ends", "halves of the split edge end at the wrong vertices");
    near(got[i].second, exp[i].second, 1e-8 * len, "split-length", "length of a half, split at ", s);
  }
  if (hn != Halfedge()) check(hn.edge() == ev.h1.edge() || hn.edge() == ev.h2.edge(), "split-return", "returned halfedge is not on the split edge");
  check(fixedE(t, ev.h1.edge()) == fx && fixedE(t, ev.h2.edge()) == fx, "split-marked", "marks of the halves");
  check(v.degree() == (onB ? 3 : 4), "split-degree", "degree ", v.degree());
  if (t.flat) nearV(inputPos(t, T.vertexLocations[v]), P, 1e-6 * t.L, "split-location", str("location of the new vertex at ", s, " of ", len, flip ? " reversed" : "", " callback tail first ", ev.h1.tipVertex() == b, " normal ", nc, " ", T.vertexLocations[a], "->", T.vertexLocations[b], " new ", T.vertexLocations[v], onB ? " boundary" : " interior"));
  c.count(onB ? "boundary splits" : "edge splits");
}
static void doRemove(Ctx& c, IT& t) {
  Rng& r = c.rng;
  IntrinsicTriangulation& T = *t.T;
  if (r.coin(0.1)) { // an original vertex stays
    std::vector<Vertex> vs;
    for (Vertex v : T.intrinsicMesh->vertices())
      if (!t.inserted.count(v.getIndex())) vs.push_back(v);
    size_t n = T.intrinsicMesh->nVertices(), ne = T.intrinsicMesh->nEdges();
    Vertex v = r.pick(vs);
    Face f;
    bool threw = false;
    try {
      f = T.removeInsertedVertex(v);
    } catch (std::runtime_error&) { threw = true; }
    (void)threw;
    check(f == Face() && T.intrinsicMesh->nVertices() == n && T.intrinsicMesh->nEdges() == ne, "remove-original", "removed an original vertex");
    return;
  }
  if (t.inserted.empty()) return;
  std::vector<size_t> is(t.inserted.begin(), t.inserted.end());
  size_t i = r.pick(is);
  Vertex v = T.intrinsicMesh->vertex(i);
  if (T.isOnFixedEdge(v)) return; // leaves the domain of the documented operation
  size_t n = T.intrinsicMesh->nVertices();
  Face f = T.removeInsertedVertex(v);
  if (f == Face()) {
    check(T.intrinsicMesh->nVertices() == n, "remove-failed", "vertex count");
    c.count("removals refused");
    return;
  }
  check(T.intrinsicMesh->nVertices() == n - 1 && v.isDead(), "remove", "vertex still there");
  check(!f.isDead() && f.degree() == 3, "remove-face", "returned face");
  t.inserted.erase(i);
  c.count("removals");
}
static void doMove(Ctx& c, IT& t) {
  Rng& r = c.rng;
  if (t.signpost || t.inserted.empty()) return;
  std::vector<size_t> is(t.inserted.begin(), t.inserted.end());
  size_t i = r.pick(is);
  Vertex v = t.T->intrinsicMesh->vertex(i);
  if (v.isBoundary()) return;
  double m = 1e300;
  for (Edge e : v.adjacentEdges()) {
    if (fixedE(t, e)) return;
    m = std::min(m, t.T->edgeLengths[e]);
  }
  Vector2 d = Vector2::fromAngle(r.uni(0, 6.28)) * m * r.uni(0.05, 0.3);
  IntegerCoordinatesIntrinsicTriangulation& I = t.ic();
  I.refreshQuantities();
  Vector3 P{0, 0, 0};
  double nbrs = 0;
  (void)nbrs;
  Vector3 p0 = t.embedded ? intrinsicVertexPos(t, v) : P;
  size_t n = I.intrinsicMesh->nVertices();
  Vertex w = I.moveVertex(v, d);
  // inserting and removing are both documented; the old vertex stays when the mesh cannot remove it
  check(I.intrinsicMesh->nVertices() == n + (w != Vertex() && w != v && !v.isDead()), "move-count", "vertex count changed from ", n, " to ", I.intrinsicMesh->nVertices());
  if (w != Vertex() && w != v) {
    if (v.isDead()) t.inserted.erase(i);
    else c.count("moves keeping the old vertex");
    t.inserted.insert(w.getIndex());
  }
  if (t.flat && w != Vertex()) {
    double got = norm(intrinsicVertexPos(t, w) - p0);
    if (w.isBoundary()) check(got <= norm(d) + 1e-6 * t.L, "move-distance", "moved too far");
    else near(got, norm(d), 1e-6 * t.L, "move-distance", "moved distance");
  }
  c.count("moves");
}
static void history(Ctx& c, IT& t, size_t steps) {
  Rng& r = c.rng;
  Ev ev;
  IntrinsicTriangulation& T = *t.T;
  T.edgeFlipCallbackList.push_back([&](Edge e) { ev.flips++; ev.lastFlip = e; });
  T.faceInsertionCallbackList.push_back([&](Face f, Vertex v) { ev.inserts++; ev.lastF = f; ev.lastV = v; });
  T.edgeSplitCallbackList.push_back([&](Edge e, Halfedge a, Halfedge b) { ev.splits++; ev.lastE = e; ev.h1 = a; ev.h2 = b; });
  checkIT(c, t, "initial");
  double pIns = r.uni(0.05, 0.35), pRem = r.uni(0, 0.25);
  for (size_t k = 0; k < steps; k++) {
    double u = r.u();
    double q = worstIT(t);
    if (getenv("VF_OPS")) fprintf(stderr, "step %zu nV %zu q %g u %g pIns %g pRem %g\n", k, T.intrinsicMesh->nVertices(), q, u, pIns, pRem);
    if (q > 2000) break;
    if (u < pIns) {
      if (T.intrinsicMesh->nVertices() > 200) continue;
      if (r.coin()) doInsertFace(c, t, ev);
      else doSplit(c, t, ev);
    } else if (u < pIns + pRem) {
      doRemove(c, t);
    } else if (u < pIns + pRem + 0.05) doMove(c, t);
    else if (u < pIns + pRem + 0.08) T.refreshQuantities();
    else if (u < pIns + pRem + 0.10) T.flipToDelaunay();
    else {
      for (size_t j = 0; j < 4; j++) doFlip(c, t, ev);
    }
    if (r.coin(0.3) || k + 1 == steps) checkIT(c, t, "edit");
  }
  checkIT(c, t, "end");
  T.refreshQuantities();
  checkIT(c, t, "refresh");
}
static void famKind(Ctx& c, int kind) {
  ITOpts o;
  o.kind = kind;
  IT t = makeIT(c, o);
  history(c, t, 6 + c.rng.below(c.thorough ? 60 : 25));
}
int main(int argc, char** argv) {
  Suite S;
  S.add("signpost", 1, [](Ctx& c) { famKind(c, 0); });
  S.add("integer", 1, [](Ctx& c) { famKind(c, 1); });
  return run(S, argc, argv);
}
