// C07: cached quantities always equal a computation from scratch on the current input.
#include "geohelp.h"
#include "mutops.h"
using namespace vf;

typedef std::vector<double> Blob;
static void put(Blob& b, double x) { b.push_back(x); }
static void put(Blob& b, size_t x) { b.push_back(x == INVALID_IND ? -1. : (double)x); }
static void put(Blob& b, Vector2 x) { b.push_back(x.x); b.push_back(x.y); }
static void put(Blob& b, Vector3 x) { b.push_back(x.x); b.push_back(x.y); b.push_back(x.z); }
static void put(Blob& b, std::complex<double> x) { b.push_back(x.real()); b.push_back(x.imag()); }
static void put(Blob& b, const std::array<Vector3, 2>& x) { put(b, x[0]); put(b, x[1]); }
template <class E, class T> static void ser(Blob& b, SurfaceMesh& m, const MeshData<E, T>& d) {
  for (E e : iterateElements<E>(&m)) put(b, d[e]);
}
template <class T> static void ser(Blob& b, SurfaceMesh&, const Eigen::SparseMatrix<T>& M) {
  b.push_back(M.rows());
  b.push_back(M.cols());
  for (int k = 0; k < M.outerSize(); k++)
    for (typename Eigen::SparseMatrix<T>::InnerIterator it(M, k); it; ++it) { b.push_back(it.row()); b.push_back(it.col()); put(b, it.value()); }
}
static void ser(Blob& b, SurfaceMesh&, double x) { b.push_back(x); }

template <class G> struct Q {
  std::string name;
  std::function<void(G&)> req, unreq;
  std::function<Blob(G&)> get;
  std::function<bool(G&)> holds; // buffer populated
  bool tri, manifold, oriented;
};
template <class E, class T> static bool held(SurfaceMesh& m, const MeshData<E, T>& d) { return d.size() > 0; }
template <class T> static bool held(SurfaceMesh&, const Eigen::SparseMatrix<T>& M) { return M.rows() > 0; }
static bool held(SurfaceMesh&, double) { return true; }

#define QQ(Name, mem, tri, man, ori)                                                                                   \
  qs.push_back({#mem, [](G& g) { g.require##Name(); }, [](G& g) { g.unrequire##Name(); },                             \
                [](G& g) { Blob b; ser(b, g.mesh, g.mem); return b; }, [](G& g) { return held(g.mesh, g.mem); }, tri, man, ori});

template <class G> static void intrinsicQs(std::vector<Q<G>>& qs) {
  QQ(VertexIndices, vertexIndices, false, false, false)
  QQ(InteriorVertexIndices, interiorVertexIndices, false, true, true)
  QQ(EdgeIndices, edgeIndices, false, false, false)
  QQ(HalfedgeIndices, halfedgeIndices, false, false, false)
  QQ(CornerIndices, cornerIndices, false, false, false)
  QQ(FaceIndices, faceIndices, false, false, false)
  QQ(BoundaryLoopIndices, boundaryLoopIndices, false, true, true)
  QQ(EdgeLengths, edgeLengths, false, false, false)
  QQ(FaceAreas, faceAreas, true, false, false)
  QQ(VertexDualAreas, vertexDualAreas, true, false, false)
  QQ(CornerAngles, cornerAngles, true, false, false)
  QQ(VertexAngleSums, vertexAngleSums, true, false, false)
  QQ(CornerScaledAngles, cornerScaledAngles, true, true, true)
  QQ(VertexGaussianCurvatures, vertexGaussianCurvatures, true, true, true)
  QQ(FaceGaussianCurvatures, faceGaussianCurvatures, true, true, true)
  QQ(HalfedgeCotanWeights, halfedgeCotanWeights, true, false, false)
  QQ(EdgeCotanWeights, edgeCotanWeights, true, false, false)
  QQ(ShapeLengthScale, shapeLengthScale, true, false, false)
  QQ(MeshLengthScale, meshLengthScale, false, false, false)
  QQ(HalfedgeVectorsInFace, halfedgeVectorsInFace, true, true, true)
  QQ(TransportVectorsAcrossHalfedge, transportVectorsAcrossHalfedge, true, true, true)
  QQ(HalfedgeVectorsInVertex, halfedgeVectorsInVertex, true, true, true)
  QQ(TransportVectorsAlongHalfedge, transportVectorsAlongHalfedge, true, true, true)
  QQ(CotanLaplacian, cotanLaplacian, true, false, false)
  QQ(VertexLumpedMassMatrix, vertexLumpedMassMatrix, true, false, false)
  QQ(VertexGalerkinMassMatrix, vertexGalerkinMassMatrix, true, false, false)
  QQ(VertexConnectionLaplacian, vertexConnectionLaplacian, true, true, true)
  QQ(FaceGalerkinMassMatrix, faceGalerkinMassMatrix, true, true, true)
  QQ(FaceConnectionLaplacian, faceConnectionLaplacian, true, true, true)
  QQ(CrouzeixRaviartLaplacian, crouzeixRaviartLaplacian, true, true, true)
  QQ(CrouzeixRaviartMassMatrix, crouzeixRaviartMassMatrix, true, true, true)
  QQ(CrouzeixRaviartConnectionLaplacian, crouzeixRaviartConnectionLaplacian, true, true, true)
#define DEC(m) QQ(DECOperators, m, true, true, true)
  DEC(hodge0) DEC(hodge0Inverse) DEC(hodge1) DEC(hodge1Inverse) DEC(hodge2) DEC(hodge2Inverse) DEC(d0) DEC(d1)
}
template <class G> static void embeddedQs(std::vector<Q<G>>& qs) {
  QQ(EdgeDihedralAngles, edgeDihedralAngles, true, true, true)
  QQ(VertexMeanCurvatures, vertexMeanCurvatures, true, true, true)
  QQ(VertexMinPrincipalCurvatures, vertexMinPrincipalCurvatures, true, true, true)
  QQ(VertexMaxPrincipalCurvatures, vertexMaxPrincipalCurvatures, true, true, true)
  QQ(VertexPrincipalCurvatureDirections, vertexPrincipalCurvatureDirections, true, true, true)
  QQ(FacePrincipalCurvatureDirections, facePrincipalCurvatureDirections, true, true, true)
  QQ(VertexPositions, vertexPositions, false, false, false)
  QQ(FaceNormals, faceNormals, false, false, false)
  QQ(VertexNormals, vertexNormals, false, true, true)
  QQ(FaceTangentBasis, faceTangentBasis, false, true, true)
  QQ(VertexTangentBasis, vertexTangentBasis, true, true, true)
  QQ(VertexDualMeanCurvatureNormals, vertexDualMeanCurvatureNormals, true, false, false)
  QQ(SimplePolygonLaplacian, simplePolygonLaplacian, false, true, true)
  QQ(SimplePolygonVertexGalerkinMassMatrix, simplePolygonVertexGalerkinMassMatrix, false, true, true)
  QQ(SimplePolygonVertexLumpedMassMatrix, simplePolygonVertexLumpedMassMatrix, false, true, true)
  QQ(PolygonLaplacian, polygonLaplacian, false, true, true)
  QQ(PolygonGradientMatrix, polygonGradientMatrix, false, true, true)
  QQ(PolygonDivergenceMatrix, polygonDivergenceMatrix, false, true, true)
  QQ(PolygonVertexLumpedMassMatrix, polygonVertexLumpedMassMatrix, false, true, true)
  QQ(PolygonVertexConnectionLaplacian, polygonVertexConnectionLaplacian, false, true, true)
#define PDEC(m) QQ(PolygonDECOperators, m, false, true, true)
  PDEC(polygonHodge0) PDEC(polygonHodge0Inverse) PDEC(polygonHodge1) PDEC(polygonHodge2)
  PDEC(polygonHodge2Inverse) PDEC(polygonD0) PDEC(polygonD1)
}

static std::unique_ptr<VertexPositionGeometry> fresh(VertexPositionGeometry& g) {
  return std::unique_ptr<VertexPositionGeometry>(new VertexPositionGeometry(g.mesh, g.inputVertexPositions));
}
static std::unique_ptr<EdgeLengthGeometry> fresh(EdgeLengthGeometry& g) {
  return std::unique_ptr<EdgeLengthGeometry>(new EdgeLengthGeometry(g.mesh, g.inputEdgeLengths));
}
static void newInput(Ctx& c, VertexPositionGeometry& g, bool all) {
  for (Vertex v : g.mesh.vertices())
    if (all || c.rng.coin(0.3)) g.inputVertexPositions[v] = Vector3{c.rng.normal(), c.rng.normal(), c.rng.normal()};
}
static void newInput(Ctx& c, EdgeLengthGeometry& g, bool) {
  // any lengths within a factor below 2 of each other satisfy the triangle inequality
  double s = std::pow(10., c.rng.uni(-1, 1));
  for (Edge e : g.mesh.edges()) g.inputEdgeLengths[e] = s * c.rng.uni(1, 1.9);
}
static void same(const Blob& a, const Blob& b, const std::string& name, const char* when, const std::string& log) {
  check(a.size() == b.size(), str("stale-", name), when, ": size ", a.size(), " expected ", b.size(), " history", log);
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue;
    if (std::abs(a[i] - b[i]) <= 1e-12 * (std::abs(a[i]) + std::abs(b[i]))) continue;
    fail(str("stale-", name), when, ": entry ", i, " is ", a[i], " expected ", b[i], " history", log);
  }
}

template <class G> static void history(Ctx& c, G& g, const std::vector<Q<G>>& all, bool tri, bool manifold, size_t steps) {
  Rng& r = c.rng;
  std::vector<Q<G>> qs;
  for (auto& q : all)
    if ((tri || !q.tri) && (manifold || !q.manifold)) qs.push_back(q);
  std::vector<int> cnt(qs.size(), 0);
  std::ostringstream log;
  ManifoldSurfaceMesh* mm = dynamic_cast<ManifoldSurfaceMesh*>(&g.mesh);
  newInput(c, g, true);
  g.refreshQuantities();
  auto reference = [&](size_t i) { // computed alone in a geometry which has never held anything else
    auto f = fresh(g);
    qs[i].req(*f);
    return qs[i].get(*f);
  };
  // quantity i asked for; everything required must be right
  auto verify = [&](const char* when, size_t want) {
    std::vector<size_t> ix;
    for (size_t i = 0; i < qs.size(); i++)
      if (cnt[i]) ix.push_back(i);
    r.shuffle(ix);
    for (size_t k = 0; k < ix.size() && k < want; k++) {
      same(qs[ix[k]].get(g), reference(ix[k]), qs[ix[k]].name, when, log.str());
      c.count("quantities compared");
    }
  };
  auto groupCount = [&](size_t i) { // requirements of quantities sharing one require call
    int n = 0;
    bool decI = qs[i].name.compare(0, 5, "hodge") == 0 || qs[i].name == "d0" || qs[i].name == "d1";
    bool decP = qs[i].name.compare(0, 12, "polygonHodge") == 0 || qs[i].name == "polygonD0" || qs[i].name == "polygonD1";
    for (size_t j = 0; j < qs.size(); j++) {
      bool dI = qs[j].name.compare(0, 5, "hodge") == 0 || qs[j].name == "d0" || qs[j].name == "d1";
      bool dP = qs[j].name.compare(0, 12, "polygonHodge") == 0 || qs[j].name == "polygonD0" || qs[j].name == "polygonD1";
      if (i == j || (decI && dI) || (decP && dP)) n += cnt[j];
    }
    return n;
  };
  for (size_t s = 0; s < steps; s++) {
    int op = r.below(12);
    if (op < 4) {
      size_t i = r.below(qs.size());
      log << " +" << qs[i].name;
      qs[i].req(g);
      cnt[i]++;
      same(qs[i].get(g), reference(i), qs[i].name, "just required", log.str());
      c.count("requires");
    } else if (op < 6) {
      std::vector<size_t> ix;
      for (size_t i = 0; i < qs.size(); i++)
        if (cnt[i]) ix.push_back(i);
      if (ix.empty()) continue;
      size_t i = r.pick(ix);
      log << " -" << qs[i].name;
      Blob before = qs[i].get(g);
      qs[i].unreq(g);
      cnt[i]--;
      same(qs[i].get(g), before, qs[i].name, "unrequired but not purged", log.str());
      c.count("unrequires");
    } else if (op == 6) {
      log << " purge";
      g.purgeQuantities();
      c.count("purges");
      verify("after purge", 4);
    } else if (op == 7) { // input change
      log << " input";
      newInput(c, g, false);
      g.refreshQuantities();
      c.count("input changes");
      verify("after refresh", 5);
    } else if (op == 8 && g.mesh.nFaces() < 60) { // mesh edit, then refresh
      bool done = false;
      if (mm) {
        int k = r.below(4);
        auto es = liveIdx<Edge>(mm);
        Edge e(mm, r.pick(es));
        if (tri) {
          if (k == 0) done = mm->flip(e);
          else if (k == 1) { mm->splitEdgeTriangular(e); done = true; }
          else if (k == 2) { mm->insertVertex(Face(mm, r.pick(liveIdx<Face>(mm)))); done = true; }
          else if (legalCollapse(*mm, e)) { mm->collapseEdgeTriangular(e); done = true; }
        } else done = manifoldEdit(c, *mm, log);
      } else {
        int k = r.below(3);
        auto fs = liveIdx<Face>(&g.mesh);
        if (k == 0) { g.mesh.duplicateFace(Face(&g.mesh, r.pick(fs))); done = true; }
        else if (k == 1) { g.mesh.invertOrientation(Face(&g.mesh, r.pick(fs))); done = true; }
        else { g.mesh.separateNonmanifoldEdges(); done = true; }
      }
      if (!done || g.mesh.nFaces() == 0) continue;
      log << " edit";
      if (r.coin(0.3)) { log << " compress"; g.mesh.compress(); }
      newInput(c, g, true);
      g.refreshQuantities();
      c.count("mesh edits");
      verify("after mesh edit", 5);
    } else if (op == 9) { // compress alone must carry everything that is held
      if (g.mesh.isCompressed() || !r.coin()) continue;
      log << " compress-only";
      std::vector<Blob> before;
      for (auto& q : qs) before.push_back(Blob());
      for (size_t i = 0; i < qs.size(); i++)
        if (cnt[i]) before[i] = qs[i].get(g);
      g.mesh.compress();
      for (size_t i = 0; i < qs.size(); i++)
        if (cnt[i]) same(qs[i].get(g), before[i], qs[i].name, "after compress", log.str());
      verify("after compress", 3);
      c.count("compressions");
    } else if (op == 10) { // copies know nothing of the original's state
      log << " copy";
      auto k = g.copy();
      size_t i = r.below(qs.size());
      qs[i].req(*k);
      same(qs[i].get(*k), reference(i), qs[i].name, "in a copy", log.str());
      auto m2 = g.mesh.copyToSurfaceMesh();
      auto g2 = g.reinterpretTo(*m2);
      if (!qs[i].manifold) {
        auto f = fresh(*g2);
        qs[i].req(*g2);
        qs[i].req(*f);
        same(qs[i].get(*g2), qs[i].get(*f), qs[i].name, "in a reinterpreted copy", log.str());
      }
      verify("after copying", 3);
      c.count("copies");
    } else { // releasing more than was required is reported and harmless
      size_t i = r.below(qs.size());
      if (groupCount(i) || qs[i].name == "edgeLengths" || qs[i].name == "vertexPositions") continue;
      log << " !" << qs[i].name;
      throws([&]() { qs[i].unreq(g); }, "over-unrequire", qs[i].name, " history", log.str());
      qs[i].req(g);
      cnt[i]++;
      g.purgeQuantities();
      newInput(c, g, false);
      g.refreshQuantities();
      same(qs[i].get(g), reference(i), qs[i].name, "required after a surplus release", log.str());
      c.count("surplus releases");
    }
    c.sig(hashD(op + 100. * s));
  }
  verify("at the end", qs.size());
}

static void famTri(Ctx& c) {
  GeoOpts o;
  o.rigid = false;
  o.maxScramble = 8;
  GeoMesh gm = geoMesh(c, o);
  if (gm.mesh->nFaces() > 120) throw Skip("large");
  static std::vector<Q<VertexPositionGeometry>> qs = []() { std::vector<Q<VertexPositionGeometry>> q; intrinsicQs(q); embeddedQs(q); return q; }();
  history(c, *gm.geom, qs, true, true, 12 + c.rng.below(c.thorough ? 60 : 20));
}
static void famPoly(Ctx& c) {
  GeoOpts o;
  o.tri = false;
  o.rigid = false;
  o.maxScramble = 6;
  GeoMesh gm = geoMesh(c, o);
  if (gm.mesh->nFaces() > 80) throw Skip("large");
  static std::vector<Q<VertexPositionGeometry>> qs = []() { std::vector<Q<VertexPositionGeometry>> q; intrinsicQs(q); embeddedQs(q); return q; }();
  history(c, *gm.geom, qs, false, true, 12 + c.rng.below(c.thorough ? 40 : 14));
}
static void famLen(Ctx& c) {
  GeoOpts o;
  o.rigid = false;
  o.maxScramble = 8;
  GeoMesh gm = geoMesh(c, o);
  if (gm.mesh->nFaces() > 120) throw Skip("large");
  EdgeLengthGeometry g(*gm.mesh);
  static std::vector<Q<EdgeLengthGeometry>> qs = []() { std::vector<Q<EdgeLengthGeometry>> q; intrinsicQs(q); return q; }();
  history(c, g, qs, true, true, 12 + c.rng.below(c.thorough ? 60 : 20));
}
static void famGeneral(Ctx& c) {
  Soup s = randomSoup(c.rng);
  triangulateSoup(s);
  if (s.polys.size() > 60) throw Skip("large");
  SurfaceMesh m(s.polys);
  c.sig(hashPolys(s.polys));
  c.note = s.desc + " " + showPolys(s.polys);
  VertexPositionGeometry g(m);
  static std::vector<Q<VertexPositionGeometry>> qs = []() { std::vector<Q<VertexPositionGeometry>> q; intrinsicQs(q); embeddedQs(q); return q; }();
  history(c, g, qs, true, false, 12 + c.rng.below(c.thorough ? 60 : 20));
}
int main(int argc, char** argv) {
  Suite S;
  S.add("triangle", 5, famTri);
  S.add("polygon", 3, famPoly);
  S.add("edge lengths", 3, famLen);
  S.add("general mesh", 2, famGeneral);
  return run(S, argc, argv);
}
