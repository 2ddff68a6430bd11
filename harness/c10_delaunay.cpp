// C10: intrinsic Delaunay flipping and refinement reach the promised quality.
#include "intri.h"
#include "geometrycentral/surface/simple_idt.h"
using namespace vf;

static double cotW(const EdgeData<double>& l, Edge e) { // sum of the cotangents opposite e
  double s = 0;
  for (Halfedge h : {e.halfedge(), e.halfedge().sibling()}) {
    if (!h.isInterior()) continue;
    s += (double)triCot(l[h.edge()], l[h.next().edge()], l[h.next().next().edge()]);
    if (h.sibling() == h) break;
  }
  return s;
}
static bool fixedE(IT& t, Edge e) { return e.isBoundary() || (t.T->markedEdges.size() > 0 && t.T->markedEdges[e]); }
static void resync(IT& t) { // every vertex beyond the original ones was inserted
  t.inserted.clear();
  size_t n0 = t.g.mesh->nVertices();
  for (Vertex v : t.T->intrinsicMesh->vertices())
    if (v.getIndex() >= n0) t.inserted.insert(v.getIndex());
}
static void checkDelaunay(Ctx& c, IT& t, const std::string& K, double tol = 1e-5) {
  bool marginal = false;
  for (Edge e : t.T->intrinsicMesh->edges()) {
    if (fixedE(t, e)) continue;
    double w = cotW(t.T->edgeLengths, e);
    check(w >= -tol, K + "-delaunay", "edge ", e.getIndex(), " has cotangent sum ", w);
    if (w < 1e-5) marginal = true;
    c.count("Delaunay edges");
  }
  if (!marginal) check(t.T->isDelaunay(), K + "-is-delaunay", "isDelaunay() is false");
}
// dense cotan Laplacian over the first n vertices
static DenseMatrix<double> lap(SurfaceMesh& m, const EdgeData<double>& l, size_t n) {
  DenseMatrix<double> L = DenseMatrix<double>::Zero(n, n);
  for (Edge e : m.edges()) {
    double w = cotW(l, e) / 2;
    size_t a = e.firstVertex().getIndex(), b = e.secondVertex().getIndex();
    L(a, a) += w;
    L(b, b) += w;
    L(a, b) -= w;
    L(b, a) -= w;
  }
  return L;
}
static void randomFlips(Ctx& c, IT& t, size_t n) {
  std::vector<Edge> es;
  for (Edge e : t.T->intrinsicMesh->edges()) es.push_back(e);
  for (size_t k = 0; k < n; k++) {
    Edge e = c.rng.pick(es);
    double l0 = t.T->edgeLengths[e];
    if (!t.T->flipEdgeIfPossible(e)) continue;
    if (faceQuality(t.T->edgeLengths, e.halfedge().face()) > 500 || faceQuality(t.T->edgeLengths, e.halfedge().twin().face()) > 500) t.T->flipEdgeIfPossible(e);
    (void)l0;
    c.count("random flips");
  }
}
static bool hasNearDegenerate(IT& t) { return worstIT(t) > 3000; }

static void famFlip(Ctx& c) {
  Rng& r = c.rng;
  IT t = makeIT(c);
  size_t n = t.g.mesh->nVertices();
  // reference: the Delaunay triangulation reached directly from the input, without marks, three ways
  SignpostIntrinsicTriangulation ref(*t.g.mesh, t.in());
  ref.flipToDelaunay();
  DenseMatrix<double> L0 = lap(*ref.intrinsicMesh, ref.edgeLengths, n);
  double sc = 1 + L0.cwiseAbs().maxCoeff();
  {
    std::unique_ptr<ManifoldSurfaceMesh> m2 = t.g.mesh->copy();
    EdgeData<double> l2(*m2);
    for (size_t i = 0; i < m2->nEdges(); i++) l2[m2->edge(i)] = t.inLen[t.g.mesh->edge(i)];
    size_t nf = flipToDelaunay(*m2, l2);
    fullCheck(*m2, "simple-mesh", &c);
    for (Edge e : m2->edges())
      if (!e.isBoundary()) check(cotW(l2, e) >= -1e-5, "simple-delaunay", "cotangent sum ", cotW(l2, e), " after flipToDelaunay()");
    double A = 0;
    for (Face f : m2->faces()) A += faceArea(l2, f);
    near(A, t.area, 1e-7 * t.area * 30, "simple-area", "area");
    near((lap(*m2, l2, n) - L0).cwiseAbs().maxCoeff(), 0, 1e-4 * sc, "simple-unique", "cotan Laplacians of the signpost and the array-based Delaunay triangulations differ");
    c.count("array-based flips", nf);
  }
  {
    SurfacePoint dummy;
    randomFlips(c, t, r.below(40));
  }
  bool ins = r.coin(0.3);
  if (ins)
    for (size_t k = 0, K = 1 + r.below(5); k < K; k++) t.T->insertVertex(randPoint(r, *t.T->intrinsicMesh, 2, 0.15));
  resync(t);
  checkIT(c, t, "before", 1e-6);
  size_t nv = t.T->intrinsicMesh->nVertices();
  t.T->flipToDelaunay();
  check(t.T->intrinsicMesh->nVertices() == nv, "flip-vertices", "flipToDelaunay() changed the vertices");
  checkIT(c, t, "flip", 1e-6);
  checkDelaunay(c, t, "flip");
  if (!ins && !t.marks) {
    DenseMatrix<double> L = lap(*t.T->intrinsicMesh, t.T->edgeLengths, n);
    near((L - L0).cwiseAbs().maxCoeff(), 0, 1e-4 * sc, "flip-unique", "cotan Laplacian depends on the starting triangulation");
    // the class's own Laplacian
    t.T->requireCotanLaplacian();
    t.T->requireVertexIndices();
    DenseMatrix<double> Lt = DenseMatrix<double>(t.T->cotanLaplacian);
    double d = 0;
    for (Vertex a : t.T->intrinsicMesh->vertices())
      for (Vertex b : t.T->intrinsicMesh->vertices())
        d = std::max(d, std::abs(Lt(t.T->vertexIndices[a], t.T->vertexIndices[b]) - L(a.getIndex(), b.getIndex())));
    near(d, 0, 1e-6 * sc, "flip-laplacian", "cotanLaplacian");
    // Delaunay Laplacians satisfy the maximum principle
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        if (i != j) {
          bool bdy = t.g.mesh->vertex(i).isBoundary() && t.g.mesh->vertex(j).isBoundary();
          if (!bdy) check(Lt(i, j) <= 1e-5, "flip-positive-weights", "off-diagonal entry ", Lt(i, j));
        }
    c.count("unique Laplacians compared");
  }
  // minimum angle queries
  double mn = 10, mnValid = 10;
  for (Face f : t.T->intrinsicMesh->faces())
    for (int i = 0; i < 3; i++) mn = std::min(mn, cornerOf(t.T->edgeLengths, heOf(f, i)));
  near(t.T->minAngleDegrees(), mn * 180 / PI, 1e-4, "min-angle", "minAngleDegrees()");
  double thr = r.uni(20, 300);
  for (Face f : t.T->intrinsicMesh->faces()) {
    bool ok = true;
    for (int i = 0; i < 3; i++) {
      size_t k = heOf(f, i).vertex().getIndex();
      double a = t.inserted.count(k) ? (heOf(f, i).vertex().isBoundary() ? PI : 2 * PI) : t.vAng[k];
      if (std::abs(a * 180 / PI - thr) < 1e-3) return;
      if (a * 180 < PI * thr) ok = false;
    }
    Face p = t.T->getParentFace(f);
    if (p != Face())
      for (Vertex v : p.adjacentVertices()) {
        if (std::abs(t.vAng[v.getIndex()] * 180 / PI - thr) < 1e-3) return;
        if (t.vAng[v.getIndex()] * 180 < PI * thr) ok = false;
      }
    if (ok)
      for (int i = 0; i < 3; i++) mnValid = std::min(mnValid, cornerOf(t.T->edgeLengths, heOf(f, i)));
  }
  if (r.coin()) near(t.T->minAngleDegreesAtValidFaces(thr), mnValid * 180 / PI, 1e-4, "min-angle-valid", str("minAngleDegreesAtValidFaces(", thr, ")"));
}

// ---- refinement
static double circumR(const EdgeData<double>& l, Face f) {
  double a = l[heOf(f, 0).edge()], b = l[heOf(f, 1).edge()], d = l[heOf(f, 2).edge()];
  return a * b * d / (4 * faceArea(l, f));
}
// wedge of the surface at the tail of h, bounded by fixed edges (or the whole cone)
static double wedge(IT& t, Halfedge h) {
  double s = 0;
  Halfedge x = h;
  size_t guard = 0;
  do {
    s += cornerOf(t.T->edgeLengths, x);
    x = x.next().next().twin();
    if (++guard > 100000) break;
  } while (x != h && !fixedE(t, x.edge()));
  if (x == h) return s;
  x = h;
  while (!fixedE(t, x.edge())) {
    x = x.twin().next();
    s += cornerOf(t.T->edgeLengths, x);
    if (++guard > 100000) break;
  }
  return s;
}
static void famRefine(Ctx& c) {
  Rng& r = c.rng;
  ITOpts o;
  o.geo.maxQ = 15;
  o.pMarks = 0.2;
  IT t = makeIT(c, o);
  if (t.g.mesh->nVertices() > 40) throw Skip("large");
  if (r.coin(0.3)) randomFlips(c, t, r.below(15));
  size_t nf = 0, ni = 0, ns = 0;
  t.T->edgeFlipCallbackList.push_back([&](Edge e) { nf++; });
  t.T->faceInsertionCallbackList.push_back([&](Face f, Vertex v) { ni++; });
  t.T->edgeSplitCallbackList.push_back([&](Edge e, Halfedge a, Halfedge b) { ns++; });
  double ang = r.pick(std::vector<double>{10, 20, 25, 25, 28});
  double R = r.coin(0.4) ? r.uni(0.35, 1.5) * t.L : std::numeric_limits<double>::infinity();
  size_t maxIns = r.coin(0.25) ? r.below(12) : 600;
  c.note += str(" refine angle ", ang, " R/L ", R / t.L, " max ", maxIns);
  size_t nv0 = t.T->intrinsicMesh->nVertices();
  bool custom = r.coin(0.2);
  double maxArea = t.area / (double)t.g.mesh->nFaces() * r.uni(0.3, 1.5);
  size_t calls = 0;
  if (custom)
    t.T->delaunayRefine([&](Face f) {
      calls++;
      return faceArea(t.T->edgeLengths, f) > maxArea;
    }, maxIns);
  else t.T->delaunayRefine(ang, R, maxIns);
  size_t total = ni + ns;
  check(total <= maxIns, "refine-limit", total, " insertions, limit ", maxIns);
  check(t.T->intrinsicMesh->nVertices() <= nv0 + total, "refine-count", "vertex count");
  check(t.T->edgeFlipCallbackList.size() == 1 + !t.signpost * 0 && t.T->faceInsertionCallbackList.size() == 1, "refine-callbacks", "callbacks left behind: ", t.T->edgeFlipCallbackList.size());
  resync(t);
  checkIT(c, t, "refine", 1e-6);
  c.count("refinement insertions", total);
  bool unlimited = total < maxIns;
  checkDelaunay(c, t, "refine", unlimited ? 1e-5 : 1e-5);
  if (!unlimited) {
    c.count("refinements stopped by the limit");
    return;
  }
  c.count("refinements completed");
  for (Face f : t.T->intrinsicMesh->faces()) {
    if (custom) {
      check(faceArea(t.T->edgeLengths, f) <= maxArea * (1 + 1e-9), "refine-custom", "a face still satisfies the predicate");
      continue;
    }
    // documented exemptions
    size_t needle = 0;
    for (int i = 0; i < 3; i++)
      if (wedge(t, heOf(f, i)) < PI / 3 + 1e-7) needle++;
    if (needle == 1) continue;
    Face p = t.T->getParentFace(f);
    bool ex = false;
    if (p != Face())
      for (Vertex v : p.adjacentVertices())
        if (t.vAng[v.getIndex()] < PI / 3 + 1e-7) ex = true;
    if (ex) continue;
    c.count("faces meeting the bounds");
    check(circumR(t.T->edgeLengths, f) <= R * (1 + 1e-6), "refine-radius", "circumradius ", circumR(t.T->edgeLengths, f), " bound ", R);
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      double a = cornerOf(t.T->edgeLengths, h);
      if (a >= ang * PI / 180 - 1e-6) continue;
      if (h.next().next() == h.twin()) continue; // degree one
      if (fixedE(t, h.edge()) && fixedE(t, h.next().next().edge())) continue;
      check(false, "refine-angle", "angle ", a * 180 / PI, " bound ", ang);
    }
  }
}
// ---- array-based flips on general meshes, both metrics
static void famSimple(Ctx& c) {
  Rng& r = c.rng;
  bool hyp = r.coin();
  GeoOpts go;
  go.maxQ = 40;
  go.logScale = 1;
  go.indexHoles = false;
  GeoMesh g = geoMesh(c, go);
  // the same polygons with random orientations, as a general mesh
  std::vector<std::vector<size_t>> P = g.soup.polys;
  bool unor = r.coin();
  if (unor)
    for (auto& p : P)
      if (r.coin()) std::reverse(p.begin(), p.end());
  SurfaceMesh M(P), M2(P);
  EdgeData<double> l(M), l2(M2);
  for (Edge e : M.edges()) {
    l[e] = (double)ldist(g.geom->vertexPositions[g.mesh->vertex(e.firstVertex().getIndex())], g.geom->vertexPositions[g.mesh->vertex(e.secondVertex().getIndex())]);
    if (hyp) l[e] *= r.uni(0.6, 1.6); // lambda lengths of a decorated ideal triangulation: any positive values
    l2[M2.edge(e.getIndex())] = l[e];
  }
  size_t n = M.nVertices();
  FlipType ft = hyp ? FlipType::Hyperbolic : FlipType::Euclidean;
  double area = 0;
  if (!hyp)
    for (Face f : M.faces()) area += faceArea(l, f);
  // horocycle length at each vertex is preserved by flips
  auto horo = [&](SurfaceMesh& m, EdgeData<double>& L) {
    std::vector<double> h(m.nVertices(), 0.);
    for (Halfedge x : m.interiorHalfedges()) {
      Halfedge a = x, b = x.next(), d = b.next(); // corner at a's tail, opposite b
      h[x.vertex().getIndex()] += L[b.edge()] / (L[a.edge()] * L[d.edge()]);
    }
    return h;
  };
  std::vector<double> h0 = hyp ? horo(M, l) : std::vector<double>();
  // M2: shuffle by hand first, then flip
  for (size_t k = 0, K = r.below(30); k < K; k++) {
    std::vector<Edge> es;
    for (Edge e : M2.edges()) es.push_back(e);
    Edge e = r.pick(es);
    if (e.isBoundary() || unor) continue;
    Halfedge h = e.halfedge(), s = h.sibling();
    double a = l2[h.next().edge()], b = l2[h.next().next().edge()], cc = l2[s.next().edge()], d = l2[s.next().next().edge()], e0 = l2[e];
    double nl;
    if (hyp) nl = (a * cc + b * d) / e0;
    else {
      double x1 = (e0 * e0 + b * b - a * a) / (2 * e0), y1 = std::sqrt(std::max(0., b * b - x1 * x1)); // apex of the first, tail at 0
      double x2 = (e0 * e0 + cc * cc - d * d) / (2 * e0), y2 = -std::sqrt(std::max(0., cc * cc - x2 * x2));
      double t = x1 + (x2 - x1) * y1 / (y1 - y2);
      if (!(t > 0.05 * e0 && t < 0.95 * e0)) continue;
      nl = std::hypot(x1 - x2, y1 - y2);
    }
    if (M2.flip(e, false)) {
      l2[e] = nl;
      c.count("random flips");
    }
  }
  size_t f1 = flipToDelaunay(M, l, ft);
  size_t f2 = flipToDelaunay(M2, l2, ft);
  c.count("array-based flips", f1 + f2);
  for (SurfaceMesh* m : {&M, &M2}) {
    EdgeData<double>& L = m == &M ? l : l2;
    MeshCheckOpts mo;
    mo.strictOrient = false;
    fullCheck(*m, "general-mesh", &c, mo);
    check(m->nVertices() == n && m->nEdges() == g.mesh->nEdges() && m->nFaces() == g.mesh->nFaces(), "general-topology", "topology");
    double A = 0;
    for (Edge e : m->edges()) {
      check(vf::finite(L[e]) && L[e] > 0, "general-length", "length ", L[e]);
      if (e.isBoundary()) continue;
      if (!hyp) check(cotW(L, e) >= -1e-5, "general-delaunay", "cotangent sum ", cotW(L, e));
      else {
        double s = 0;
        for (Halfedge h : {e.halfedge(), e.halfedge().sibling()}) {
          double a = L[h.edge()], b = L[h.next().edge()], d = L[h.next().next().edge()];
          s += b / (a * d) + d / (a * b) - a / (b * d);
        }
        check(s >= -1e-5, "hyperbolic-delaunay", "score ", s);
      }
    }
    if (!hyp) {
      for (Face f : m->faces()) A += faceArea(L, f);
      near(A, area, 1e-6 * area, "general-area", "area");
    } else {
      std::vector<double> h1 = horo(*m, L);
      for (size_t i = 0; i < n; i++) near(h1[i], h0[i], 1e-8 * (1 + h0[i]), "hyperbolic-horocycles", "horocycle length at a vertex");
    }
  }
  if (!hyp) {
    DenseMatrix<double> a = lap(M, l, n), b = lap(M2, l2, n);
    near((a - b).cwiseAbs().maxCoeff(), 0, 1e-4 * (1 + a.cwiseAbs().maxCoeff()), "general-unique", "Laplacians");
  } else { // the multiset of lengths of strictly Delaunay edges is unique
    auto ls = [&](SurfaceMesh& m, EdgeData<double>& L, bool& marg) {
      std::vector<double> r;
      for (Edge e : m.edges()) {
        r.push_back(L[e]);
        if (e.isBoundary()) continue;
        double s = 0;
        for (Halfedge h : {e.halfedge(), e.halfedge().sibling()}) {
          double a = L[h.edge()], b = L[h.next().edge()], d = L[h.next().next().edge()];
          s += b / (a * d) + d / (a * b) - a / (b * d);
        }
        if (std::abs(s) < 1e-4) marg = true;
      }
      std::sort(r.begin(), r.end());
      return r;
    };
    bool marg = false;
    auto a = ls(M, l, marg), b = ls(M2, l2, marg);
    if (!marg)
      for (size_t i = 0; i < a.size(); i++) near(a[i], b[i], 1e-6 * (1 + a[i]), "hyperbolic-unique", "edge lengths");
  }
}
int main(int argc, char** argv) {
  Suite S;
  S.add("flip", 5, famFlip);
  S.add("refine", 3, famRefine);
  S.add("simple", 4, famSimple);
  return run(S, argc, argv);
}
