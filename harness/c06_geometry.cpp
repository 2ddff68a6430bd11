// C06: geometric quantities equal their definitions.
#include "refgeom.h"
using namespace vf;
typedef Eigen::MatrixXd MX;
typedef Eigen::MatrixXcd MC;

static void checkIntrinsic(Ctx& c, IntrinsicGeometryInterface& g, Ref& R) {
  SurfaceMesh& m = R.m;
  double e = 1e-12 * R.q * R.q + 1e-11, L = R.lmax, L2 = L * L;
  size_t V = m.nVertices(), E = m.nEdges(), F = m.nFaces();
  g.requireEdgeLengths();
  for (Edge d : m.edges()) near(g.edgeLengths[d], R.len[d.getIndex()], e * L, "edgeLengths", d);
  g.requireFaceAreas();
  for (Face f : m.faces()) near(g.faceAreas[f], R.area[f.getIndex()], e * L2, "faceAreas", f);
  g.requireVertexDualAreas();
  for (Vertex v : m.vertices()) near(g.vertexDualAreas[v], R.dual[v.getIndex()], e * L2 * 10, "vertexDualAreas", v);
  g.requireCornerAngles();
  // acos near 0/pi loses half of the digits
  double ea = std::sqrt(e) * 1e-2 * (R.q > 5 ? 1 : 0) + e * R.q;
  for (Corner k : m.corners()) near(g.cornerAngles[k], R.ang[k.halfedge().getIndex()], ea, "cornerAngles", k);
  g.requireVertexAngleSums();
  for (Vertex v : m.vertices()) near(g.vertexAngleSums[v], R.angSum[v.getIndex()], 20 * ea, "vertexAngleSums", v);
  g.requireVertexGaussianCurvatures();
  for (Vertex v : m.vertices()) near(g.vertexGaussianCurvatures[v], v.isBoundary() ? 0 : 2 * PI - (double)R.angSum[v.getIndex()], 20 * ea, "vertexGaussianCurvatures", v);
  g.requireHalfedgeCotanWeights();
  double ec = 1e-10 * R.q * R.q;
  for (Halfedge h : m.halfedges()) near(g.halfedgeCotanWeights[h], h.isInterior() ? 0.5 * (double)R.cot[h.getIndex()] : 0., ec, "halfedgeCotanWeights", h);
  g.requireEdgeCotanWeights();
  std::map<size_t, double> w;
  for (Edge d : m.edges()) w[d.getIndex()] = 0;
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) w[h.edge().getIndex()] += 0.5 * (double)R.cot[h.getIndex()];
  for (Edge d : m.edges()) near(g.edgeCotanWeights[d], w[d.getIndex()], 4 * ec, "edgeCotanWeights", d);
  g.requireShapeLengthScale();
  near(g.shapeLengthScale, std::sqrt(R.totA), e * L * F, "shapeLengthScale");
  g.requireMeshLengthScale();
  {
    LD t = 0;
    for (auto& kv : R.len) t += kv.second;
    near(g.meshLengthScale, t / E, e * L, "meshLengthScale");
  }
  // matrices
  g.requireCotanLaplacian();
  MX ref = MX::Zero(V, V);
  for (Edge d : m.edges()) {
    size_t i = R.rv[d.halfedge().tailVertex().getIndex()], j = R.rv[d.halfedge().tipVertex().getIndex()];
    double x = w[d.getIndex()];
    ref(i, i) += x; ref(j, j) += x; ref(i, j) -= x; ref(j, i) -= x;
  }
  MX lap = dense(g.cotanLaplacian);
  sameMat(lap, ref, 20 * ec, "cotanLaplacian");
  { // positive semidefinite: Dirichlet energy of random functions
    Eigen::VectorXd x = Eigen::VectorXd::NullaryExpr(V, [&](Eigen::Index) { return c.rng.uni(-1, 1); });
    check(x.dot(lap * x) >= -1e-6 * ec * V, "cotanLaplacian-psd", "negative energy ", x.dot(lap * x));
    check((lap * Eigen::VectorXd::Ones(V)).cwiseAbs().maxCoeff() <= 50 * ec, "cotanLaplacian-constants");
  }
  g.requireVertexLumpedMassMatrix();
  MX ml = MX::Zero(V, V);
  for (Vertex v : m.vertices()) ml(R.rv[v.getIndex()], R.rv[v.getIndex()]) = R.dual[v.getIndex()];
  sameMat(dense(g.vertexLumpedMassMatrix), ml, 10 * e * L2, "vertexLumpedMassMatrix");
  g.requireVertexGalerkinMassMatrix();
  MX mg = MX::Zero(V, V);
  for (Face f : m.faces()) {
    std::vector<size_t> ix;
    for (Vertex v : f.adjacentVertices()) ix.push_back(R.rv[v.getIndex()]);
    double A = R.area[f.getIndex()];
    for (size_t i : ix)
      for (size_t j : ix) mg(i, j) += A / 12;
    for (size_t i : ix) mg(i, i) += A / 12;
  }
  sameMat(dense(g.vertexGalerkinMassMatrix), mg, 10 * e * L2, "vertexGalerkinMassMatrix");
  g.requireFaceGalerkinMassMatrix();
  MX fg = MX::Zero(F, F);
  for (Face f : m.faces()) fg(R.rf[f.getIndex()], R.rf[f.getIndex()]) = R.area[f.getIndex()];
  sameMat(dense(g.faceGalerkinMassMatrix), fg, e * L2, "faceGalerkinMassMatrix");
  // Crouzeix-Raviart
  g.requireCrouzeixRaviartLaplacian();
  g.requireCrouzeixRaviartMassMatrix();
  g.requireCrouzeixRaviartConnectionLaplacian();
  MX cr = MX::Zero(E, E), crm = MX::Zero(E, E);
  MC crc = MC::Zero(E, E);
  for (Face f : m.faces()) {
    Halfedge h[3];
    h[0] = f.halfedge(); h[1] = h[0].next(); h[2] = h[1].next();
    for (int k = 0; k < 3; k++) {
      Halfedge a = h[(k + 1) % 3], b = h[(k + 2) % 3];
      size_t i = R.re[a.edge().getIndex()], j = R.re[b.edge().getIndex()];
      double x = 2 * (double)R.cot[h[k].getIndex()];
      cr(i, i) += x; cr(j, j) += x; cr(i, j) -= x; cr(j, i) -= x;
      crm(i, i) += (double)R.area[f.getIndex()] / 3;
      C da = R.inFace[a.getIndex()], db = R.inFace[b.getIndex()];
      da /= std::abs(da); db /= std::abs(db);
      // direction of the edge is that of e.halfedge()
      if (a.orientation() != a.edge().halfedge().orientation()) da = -da;
      if (b.orientation() != b.edge().halfedge().orientation()) db = -db;
      crc(i, i) += x; crc(j, j) += x;
      crc(i, j) -= x * std::conj(da) * db;
      crc(j, i) -= x * std::conj(db) * da;
    }
  }
  sameMat(dense(g.crouzeixRaviartLaplacian), cr, 50 * ec, "crouzeixRaviartLaplacian");
  sameMat(dense(g.crouzeixRaviartMassMatrix), crm, 10 * e * L2, "crouzeixRaviartMassMatrix");
  sameMat(dense(g.crouzeixRaviartConnectionLaplacian), crc, 50 * ec, "crouzeixRaviartConnectionLaplacian");
  // DEC
  g.requireDECOperators();
  MX d0 = dense(g.d0), d1 = dense(g.d1);
  check((size_t)d0.rows() == E && (size_t)d0.cols() == V && (size_t)d1.rows() == F && (size_t)d1.cols() == E, "dec-size");
  for (Edge d : m.edges()) {
    size_t i = R.re[d.getIndex()];
    size_t a = R.rv[d.halfedge().tailVertex().getIndex()], b = R.rv[d.halfedge().tipVertex().getIndex()];
    MX row = MX::Zero(1, V);
    row(0, b) += 1; row(0, a) -= 1;
    check((d0.row(i) - row).cwiseAbs().maxCoeff() == 0, "d0", d);
  }
  check((d1 * d0).cwiseAbs().maxCoeff() == 0, "d1d0", "d1 d0 is not zero");
  for (Face f : m.faces()) {
    std::map<size_t, int> cnt;
    for (Halfedge h : f.adjacentHalfedges()) cnt[R.re[h.edge().getIndex()]]++;
    for (size_t k = 0; k < E; k++) {
      auto it = cnt.find(k);
      if (it == cnt.end()) check(d1(R.rf[f.getIndex()], k) == 0, "d1", f, " has entry for a foreign edge");
      else if (it->second == 1) check(std::abs(d1(R.rf[f.getIndex()], k)) == 1, "d1", f, " lacks an edge");
    }
  }
  if (R.manifold) { // orientation: the boundary of a face runs along its halfedges
    for (Edge d : m.edges())
      for (Halfedge h : d.adjacentHalfedges())
        if (h.isInterior() && h.face() != h.twin().face())
          check(d1(R.rf[h.face().getIndex()], R.re[d.getIndex()]) == (h == d.halfedge() ? 1 : -1), "d1", "sign of ", d);
  }
  MX h0 = dense(g.hodge0), h1 = dense(g.hodge1), h2 = dense(g.hodge2);
  sameMat(h0, ml, 10 * e * L2, "hodge0");
  MX h1r = MX::Zero(E, E), h2r = MX::Zero(F, F);
  for (Edge d : m.edges()) h1r(R.re[d.getIndex()], R.re[d.getIndex()]) = w[d.getIndex()];
  for (Face f : m.faces()) h2r(R.rf[f.getIndex()], R.rf[f.getIndex()]) = 1. / (double)R.area[f.getIndex()];
  sameMat(h1, h1r, 10 * ec, "hodge1");
  for (size_t i = 0; i < F; i++) near(h2(i, i) / h2r(i, i), 1, 1e-9 * R.q * R.q, "hodge2");
  sameMat(MX(d0.transpose() * h1 * d0), lap, 50 * ec, "dec-laplacian");
  MX i0 = dense(g.hodge0Inverse), i1 = dense(g.hodge1Inverse), i2 = dense(g.hodge2Inverse);
  for (size_t i = 0; i < V; i++) near(i0(i, i) * h0(i, i), 1, 1e-12, "hodge0Inverse");
  for (size_t i = 0; i < E; i++)
    if (std::abs(h1(i, i)) > 1e-6) near(i1(i, i) * h1(i, i), 1, 1e-12, "hodge1Inverse");
  for (size_t i = 0; i < F; i++) near(i2(i, i) * h2(i, i), 1, 1e-12, "hodge2Inverse");
  // tangent spaces in faces
  g.requireHalfedgeVectorsInFace();
  for (Halfedge h : m.halfedges()) {
    if (!h.isInterior()) {
      check(!(g.halfedgeVectorsInFace[h].x == g.halfedgeVectorsInFace[h].x), "halfedgeVectorsInFace", "exterior halfedge must be undefined");
      continue;
    }
    nearC(g.halfedgeVectorsInFace[h], R.inFace[h.getIndex()], (1e-11 * R.q * R.q + std::sqrt(1e-15) * R.q * 1e-1) * L, "halfedgeVectorsInFace", str(h));
  }
  g.requireCornerScaledAngles();
  if (!R.manifold) {
    for (Corner k : m.corners()) {
      LD tgt = k.vertex().isBoundary() ? M_PIl : 2 * M_PIl;
      near(g.cornerScaledAngles[k], R.ang[k.halfedge().getIndex()] * tgt / R.angSum[k.vertex().getIndex()], 200 * ea / std::min<double>(1, (double)R.angSum[k.vertex().getIndex()]), "cornerScaledAngles", k);
    }
    return;
  }
  double minSum = 1;
  for (auto& kv : R.angSum) minSum = std::min<double>(minSum, kv.second);
  double es = 100 * ea / minSum;
  for (Corner k : m.corners()) near(g.cornerScaledAngles[k], R.scaled[k.halfedge().getIndex()], es, "cornerScaledAngles", k);
  g.requireFaceGaussianCurvatures();
  for (Face f : m.faces()) {
    LD s = -M_PIl;
    for (Halfedge h : f.adjacentHalfedges()) s += R.scaled[h.getIndex()];
    near(g.faceGaussianCurvatures[f], s, 3 * es, "faceGaussianCurvatures", f);
  }
  { // Gauss-Bonnet
    double K = 0, Kb = 0;
    size_t isolated = 0;
    for (Vertex v : m.vertices()) {
      K += g.vertexGaussianCurvatures[v];
      if (v.isBoundary()) {
        size_t deg = 0; // number of boundary passes is one in a manifold mesh
        (void)deg;
        Kb += PI - g.vertexAngleSums[v];
      }
    }
    (void)isolated;
    long chi = (long)V - (long)E + (long)F;
    near(K + Kb, 2 * PI * chi, 100 * ea * V, "gauss-bonnet");
  }
  g.requireTransportVectorsAcrossHalfedge();
  g.requireHalfedgeVectorsInVertex();
  g.requireTransportVectorsAlongHalfedge();
  double ev = (10 * es + 1e-10);
  for (Halfedge h : m.halfedges()) {
    nearC(g.halfedgeVectorsInVertex[h], R.inVert[h.getIndex()], 20 * ev * L, "halfedgeVectorsInVertex", str(h));
    C along = -R.inVert[h.twin().getIndex()] / R.inVert[h.getIndex()];
    along /= std::abs(along);
    nearC(g.transportVectorsAlongHalfedge[h], along, 50 * ev, "transportVectorsAlongHalfedge", str(h));
    if (h.edge().isBoundary()) {
      check(!(g.transportVectorsAcrossHalfedge[h].x == g.transportVectorsAcrossHalfedge[h].x), "transportVectorsAcrossHalfedge", "boundary must be undefined");
    } else {
      C across = -R.inFace[h.twin().getIndex()] / R.inFace[h.getIndex()];
      across /= std::abs(across);
      nearC(g.transportVectorsAcrossHalfedge[h], across, 1e-9 * R.q * R.q * R.q + 1e-7 * R.q, "transportVectorsAcrossHalfedge", str(h));
    }
  }
  g.requireVertexConnectionLaplacian();
  MC vc = MC::Zero(V, V);
  for (Halfedge h : m.halfedges()) {
    size_t i = R.rv[h.tailVertex().getIndex()], j = R.rv[h.tipVertex().getIndex()];
    double x = w[h.edge().getIndex()];
    C r = -R.inVert[h.getIndex()] / R.inVert[h.twin().getIndex()]; // tip -> tail
    vc(i, i) += x;
    vc(i, j) -= x * r / std::abs(r);
  }
  double wmax = 1;
  for (auto& kv : w) wmax = std::max(wmax, std::abs(kv.second));
  MC vcg = dense(g.vertexConnectionLaplacian);
  sameMat(vcg, vc, wmax * 200 * ev + 50 * ec, "vertexConnectionLaplacian");
  sameMat(vcg, MC(vcg.adjoint()), 1e-9 * wmax, "vertexConnectionLaplacian-hermitian");
  g.requireFaceConnectionLaplacian();
  MC fc = MC::Zero(F, F);
  for (Halfedge h : m.interiorHalfedges()) {
    if (h.edge().isBoundary()) continue;
    size_t i = R.rf[h.face().getIndex()], j = R.rf[h.twin().face().getIndex()];
    C r = -R.inFace[h.getIndex()] / R.inFace[h.twin().getIndex()];
    fc(i, i) += 1;
    fc(i, j) -= r / std::abs(r);
  }
  MC fcg = dense(g.faceConnectionLaplacian);
  sameMat(fcg, fc, 1e-8 * R.q * R.q * R.q + 1e-6 * R.q, "faceConnectionLaplacian");
  sameMat(fcg, MC(fcg.adjoint()), 1e-9, "faceConnectionLaplacian-hermitian");
}

static double signedDihedral(Edge e, VertexData<Vector3>& p) {
  Halfedge h = e.halfedge(), t = h.sibling();
  auto nrm = [&](Face f) {
    Vector3 s = Vector3::zero(), o = p[f.halfedge().vertex()];
    for (Halfedge k : f.adjacentHalfedges()) s += cross(p[k.tailVertex()] - o, p[k.tipVertex()] - o);
    return unit(s);
  };
  Vector3 n1 = nrm(h.face()), n2 = nrm(t.face());
  double a = std::atan2(norm(cross(n1, n2)), dot(n1, n2));
  // convex edges are positive: the direction of the edge follows the first face
  return dot(cross(n1, n2), p[h.tipVertex()] - p[h.tailVertex()]) >= 0 ? a : -a;
}

static void checkEmbedded(Ctx& c, VertexPositionGeometry& g, Ref& R, VertexData<Vector3>& p, bool tri) {
  SurfaceMesh& m = R.m;
  double L = R.lmax, e = 1e-12 * R.q * R.q + 1e-10, ea = std::sqrt(e) * 1e-2 * (R.q > 5 ? 1 : 0) + e * R.q;
  g.requireFaceNormals();
  std::map<size_t, Vector3> N;
  for (Face f : m.faces()) {
    std::array<LD, 3> s{{0, 0, 0}};
    std::vector<std::array<LD, 3>> P;
    for (Vertex v : f.adjacentVertices()) P.push_back(ldv(p[v] - p[f.halfedge().vertex()]));
    for (size_t i = 0; i < P.size(); i++) {
      auto &a = P[i], &b = P[(i + 1) % P.size()];
      s[0] += a[1] * b[2] - a[2] * b[1];
      s[1] += a[2] * b[0] - a[0] * b[2];
      s[2] += a[0] * b[1] - a[1] * b[0];
    }
    LD l = sqrtl(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]);
    N[f.getIndex()] = Vector3{(double)(s[0] / l), (double)(s[1] / l), (double)(s[2] / l)};
    nearV(g.faceNormals[f], N[f.getIndex()], 1e-10 * R.q, "faceNormals", str(f));
    nearV(g.faceNormal(f), N[f.getIndex()], 1e-10 * R.q, "faceNormal-immediate", str(f));
  }
  g.requireVertexNormals();
  for (Vertex v : m.vertices()) {
    Vector3 s = Vector3::zero();
    double tot = 0;
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges())
        if (h.vertex() == v) {
          Vector3 a = p[h.tipVertex()] - p[v], b = p[h.next().next().next() == h ? h.next().next().vertex() : h.prevOrbitFace().vertex()] - p[v];
          double th = std::atan2(norm(cross(a, b)), dot(a, b));
          s += th * N[f.getIndex()];
          tot += th;
        }
    if (norm(s) > 1e-3 * tot) nearV(g.vertexNormals[v], s / norm(s), 1e3 * ea / (norm(s) / tot) + 1e-9 * R.q / (norm(s) / tot), "vertexNormals", str(v));
  }
  // dihedral angles
  g.requireEdgeDihedralAngles();
  std::map<size_t, double> th;
  double ed = 1e-9 * R.q;
  bool folded = false;
  for (Edge d : m.edges()) {
    double ref = d.isBoundary() || !d.isManifold() ? 0 : signedDihedral(d, p);
    double got = g.edgeDihedralAngles[d];
    if (std::abs(std::abs(ref) - PI) < 1e-4) { folded = true; near(std::abs(got), std::abs(ref), ed, "edgeDihedralAngles", d); }
    else {
      near(got, ref, ed, "edgeDihedralAngles", d);
      near(g.edgeDihedralAngle(d), ref, ed, "edgeDihedralAngle-immediate", d);
    }
    th[d.getIndex()] = got;
  }
  g.requireVertexMeanCurvatures();
  std::map<size_t, double> H;
  for (Vertex v : m.vertices()) {
    double s = 0;
    for (Edge d : m.edges()) {
      int inc = (d.halfedge().tailVertex() == v) + (d.halfedge().tipVertex() == v);
      s += inc * th[d.getIndex()] * (double)R.len[d.getIndex()] / 4;
    }
    H[v.getIndex()] = R.manifold ? s : g.vertexMeanCurvatures[v]; // ill defined for inconsistent orientation
    if (R.manifold) near(g.vertexMeanCurvatures[v], s, 20 * ed * L, "vertexMeanCurvatures", v);
    if (!folded && R.manifold) near(g.vertexMeanCurvature(v), s, 50 * ed * L, "vertexMeanCurvature-immediate", v);
  }
  for (Halfedge h : m.halfedges()) nearV(g.halfedgeVector(h), p[h.tipVertex()] - p[h.tailVertex()], 1e-14 * L, "halfedgeVector", str(h));
  for (Edge d : m.edges()) near(g.edgeLength(d), R.len[d.getIndex()], 1e-13 * L, "edgeLength-immediate", d);
  if (!tri) return;
  // immediate computations
  for (Face f : m.faces()) near(g.faceArea(f), R.area[f.getIndex()], e * L * L, "faceArea-immediate", f);
  for (Vertex v : m.vertices()) near(g.vertexDualArea(v), R.dual[v.getIndex()], 10 * e * L * L, "vertexDualArea-immediate", v);
  for (Corner k : m.corners()) near(g.cornerAngle(k), R.ang[k.halfedge().getIndex()], ea, "cornerAngle-immediate", k);
  double ec = 1e-10 * R.q * R.q;
  std::map<size_t, double> w;
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) w[h.edge().getIndex()] += 0.5 * (double)R.cot[h.getIndex()];
  for (Halfedge h : m.halfedges()) near(g.halfedgeCotanWeight(h), h.isInterior() ? 0.5 * (double)R.cot[h.getIndex()] : 0, ec, "halfedgeCotanWeight-immediate", h);
  for (Edge d : m.edges()) near(g.edgeCotanWeight(d), w[d.getIndex()], 4 * ec, "edgeCotanWeight-immediate", d);
  for (Vertex v : m.vertices()) near(g.vertexGaussianCurvature(v), v.isBoundary() ? 0 : 2 * PI - (double)R.angSum[v.getIndex()], 20 * ea, "vertexGaussianCurvature-immediate", v);
  // principal curvatures
  g.requireVertexMinPrincipalCurvatures();
  g.requireVertexMaxPrincipalCurvatures();
  for (Vertex v : m.vertices()) {
    double A = R.dual[v.getIndex()], h = H[v.getIndex()] / A, k = (v.isBoundary() ? 0 : 2 * PI - (double)R.angSum[v.getIndex()]) / A;
    double dsc = std::max(0., h * h - k);
    double tol = 1e-6 * R.q * (std::abs(h) + std::sqrt(std::abs(k)) + 1 / std::sqrt(A)) + std::sqrt(40 * ea / A) + 1e-3 * std::sqrt(40 * ed * L / A);
    near(g.vertexMinPrincipalCurvatures[v], h - std::sqrt(dsc), tol, "vertexMinPrincipalCurvatures", v);
    near(g.vertexMaxPrincipalCurvatures[v], h + std::sqrt(dsc), tol, "vertexMaxPrincipalCurvatures", v);
    if (!folded) {
      near(g.vertexMinPrincipalCurvature(v), g.vertexMinPrincipalCurvatures[v], tol, "vertexMinPrincipalCurvature-immediate", v);
      near(g.vertexMaxPrincipalCurvature(v), g.vertexMaxPrincipalCurvatures[v], tol, "vertexMaxPrincipalCurvature-immediate", v);
    }
  }
  // mean curvature normals are half of the Laplacian of the positions
  g.requireVertexDualMeanCurvatureNormals();
  std::map<size_t, Vector3> mc;
  for (Vertex v : m.vertices()) mc[v.getIndex()] = Vector3::zero();
  for (Edge d : m.edges()) {
    Vertex a = d.halfedge().tailVertex(), b = d.halfedge().tipVertex();
    mc[a.getIndex()] += 0.5 * w[d.getIndex()] * (p[a] - p[b]);
    mc[b.getIndex()] += 0.5 * w[d.getIndex()] * (p[b] - p[a]);
  }
  for (Vertex v : m.vertices()) {
    nearV(g.vertexDualMeanCurvatureNormals[v], mc[v.getIndex()], 40 * ec * L, "vertexDualMeanCurvatureNormals", str(v));
    nearV(g.vertexDualMeanCurvatureNormal(v), mc[v.getIndex()], 40 * ec * L, "vertexDualMeanCurvatureNormal-immediate", str(v));
  }
  // tangent bases
  g.requireFaceTangentBasis();
  g.requireVertexTangentBasis();
  auto ortho = [&](std::array<Vector3, 2> b, Vector3 n, const std::string& key, const std::string& what) {
    near(norm(b[0]), 1, 1e-9, key, what);
    near(norm(b[1]), 1, 1e-9, key, what);
    near(dot(b[0], b[1]), 0, 1e-9, key, what);
    nearV(cross(b[0], b[1]), n, 1e-8, key, what + " handedness");
  };
  for (Face f : m.faces()) ortho(g.faceTangentBasis[f], g.faceNormals[f], "faceTangentBasis", str(f));
  for (Vertex v : m.vertices())
    if (norm(g.vertexNormals[v]) > 0.5) ortho(g.vertexTangentBasis[v], g.vertexNormals[v], "vertexTangentBasis", str(v));
  if (!R.manifold) return;
  for (Halfedge h : m.interiorHalfedges()) {
    auto b = g.faceTangentBasis[h.face()];
    C z = R.inFace[h.getIndex()];
    nearV(z.real() * b[0] + z.imag() * b[1], p[h.tipVertex()] - p[h.tailVertex()], (1e-10 * R.q * R.q) * L, "faceTangentBasis", "embedding of the halfedge vector of " + str(h));
  }
  for (Vertex v : m.vertices()) { // x axis: average of what each outgoing edge says
    Vector3 n = g.vertexNormals[v], s = Vector3::zero();
    double tot = 0;
    if (!(norm(n) > 0.5)) continue;
    for (Halfedge h : v.outgoingHalfedges()) {
      Vector3 x = p[h.tipVertex()] - p[v];
      x -= dot(x, n) * n;
      double a = -std::arg(R.inVert[h.getIndex()]);
      s += std::cos(a) * x + std::sin(a) * cross(n, x);
      tot += norm(x);
    }
    if (norm(s) > 0.05 * tot) nearV(g.vertexTangentBasis[v][0], s / norm(s), 1e-6 * R.q * R.q + 1e3 * ea, "vertexTangentBasis", "direction of x axis at " + str(v));
  }
  g.requireVertexPrincipalCurvatureDirections();
  g.requireFacePrincipalCurvatureDirections();
  for (Vertex v : m.vertices()) {
    C s = 0;
    for (Halfedge h : v.outgoingHalfedges()) {
      C z = R.inVert[h.getIndex()];
      s -= th[h.edge().getIndex()] * z * z / std::abs(z) / 4.;
    }
    nearC(g.vertexPrincipalCurvatureDirections[v], s, (1e-7 * R.q * R.q + 1e4 * ea) * L, "vertexPrincipalCurvatureDirections", str(v));
  }
  for (Face f : m.faces()) {
    C s = 0;
    for (Halfedge h : f.adjacentHalfedges()) {
      C z = R.inFace[h.getIndex()];
      s -= th[h.edge().getIndex()] * z * z / std::abs(z) / 4.;
    }
    nearC(g.facePrincipalCurvatureDirections[f], s, (1e-7 * R.q * R.q) * L, "facePrincipalCurvatureDirections", str(f));
  }
}

// polygon operators; tri: also compare with the triangle quantities
static void checkPolygon(Ctx& c, VertexPositionGeometry& g, VertexData<Vector3>& p, bool tri, bool planarFaces) {
  SurfaceMesh& m = g.mesh;
  Rng& r = c.rng;
  size_t V = m.nVertices(), F = m.nFaces(), Hn = m.nHalfedges();
  auto rv = ranks<Vertex>(m);
  auto rf = ranks<Face>(m);
  auto rh = ranks<Halfedge>(m);
  std::map<size_t, double> A;
  std::map<size_t, Vector3> N;
  double L = 0, q = 1, tot = 0;
  for (Face f : m.faces()) {
    Vector3 s = Vector3::zero(), o = p[f.halfedge().vertex()];
    double l = 0;
    for (Halfedge k : f.adjacentHalfedges()) {
      s += cross(p[k.tailVertex()] - o, p[k.tipVertex()] - o);
      l = std::max(l, norm(p[k.tailVertex()] - p[k.tipVertex()]));
    }
    A[f.getIndex()] = norm(s) / 2;
    N[f.getIndex()] = unit(s);
    L = std::max(L, l);
    q = std::max(q, l * l / norm(s));
    tot += norm(s) / 2;
  }
  if (q > 200) throw Skip("thin polygon");
  double e = 1e-10 * q * q;
  double spread = 0;
  for (Vertex v : m.vertices()) spread = std::max(spread, norm(p[v]));
  g.requireFaceAreas();
  for (Face f : m.faces()) near(g.faceAreas[f], A[f.getIndex()], 1e-12 * (L * L * q + spread * spread), "faceAreas-polygon", f);
  g.requireFaceNormals();
  for (Face f : m.faces()) nearV(g.faceNormals[f], N[f.getIndex()], 1e-10 * q, "faceNormals-polygon", str(f));
  for (Face f : m.faces()) nearV(g.faceNormal(f), N[f.getIndex()], 1e-10 * q, "faceNormal-immediate-polygon", str(f));
  g.requireCornerAngles();
  for (Corner k : m.corners()) {
    Halfedge h = k.halfedge();
    Vector3 a = p[h.tipVertex()] - p[h.vertex()], b = p[h.prevOrbitFace().vertex()] - p[h.vertex()];
    near(g.cornerAngles[k], std::atan2(norm(cross(a, b)), dot(a, b)), 1e-6, "cornerAngles-polygon", k);
  }
  g.requireSimplePolygonLaplacian();
  g.requireSimplePolygonVertexGalerkinMassMatrix();
  g.requireSimplePolygonVertexLumpedMassMatrix();
  g.requirePolygonLaplacian();
  g.requirePolygonGradientMatrix();
  g.requirePolygonDivergenceMatrix();
  g.requirePolygonVertexLumpedMassMatrix();
  g.requirePolygonDECOperators();
  MX S = dense(g.simplePolygonLaplacian), SM = dense(g.simplePolygonVertexGalerkinMassMatrix), SL = dense(g.simplePolygonVertexLumpedMassMatrix);
  MX P = dense(g.polygonLaplacian), G = dense(g.polygonGradientMatrix), D = dense(g.polygonDivergenceMatrix), M = dense(g.polygonVertexLumpedMassMatrix);
  check((size_t)S.rows() == V && (size_t)P.rows() == V && (size_t)G.rows() == 3 * F && (size_t)G.cols() == V && (size_t)D.rows() == V && (size_t)D.cols() == 3 * F, "polygon-size", "matrix sizes");
  double sP = std::max(1., P.cwiseAbs().maxCoeff()), sS = std::max(1., S.cwiseAbs().maxCoeff()), sM = SM.cwiseAbs().maxCoeff();
  sameMat(P, MX(P.transpose()), 1e-10 * sP, "polygonLaplacian-symmetric");
  sameMat(S, MX(S.transpose()), 1e-10 * sS, "simplePolygonLaplacian-symmetric");
  sameMat(SM, MX(SM.transpose()), 1e-10 * sM, "simplePolygonMass-symmetric");
  Eigen::VectorXd one = Eigen::VectorXd::Ones(V);
  check((P * one).cwiseAbs().maxCoeff() <= 10 * e * sP, "polygonLaplacian-constants");
  check((S * one).cwiseAbs().maxCoeff() <= 10 * e * sS, "simplePolygonLaplacian-constants");
  check((G * one).cwiseAbs().maxCoeff() * L <= 10 * e * q, "polygonGradient-constants");
  for (int k = 0; k < 3; k++) {
    Eigen::VectorXd x = Eigen::VectorXd::NullaryExpr(V, [&](Eigen::Index) { return r.uni(-1, 1); });
    check(x.dot(P * x) >= -1e-9 * sP * V, "polygonLaplacian-psd", x.dot(P * x));
    check(x.dot(S * x) >= -1e-9 * sS * V, "simplePolygonLaplacian-psd", x.dot(S * x));
    check(x.dot(SM * x) >= -1e-9 * sM, "simplePolygonMass-psd", x.dot(SM * x));
  }
  // masses
  MX Mr = MX::Zero(V, V);
  for (Face f : m.faces())
    for (Vertex v : f.adjacentVertices()) Mr(rv[v.getIndex()], rv[v.getIndex()]) += A[f.getIndex()] / f.degree();
  sameMat(M, Mr, 1e-11 * (L * L * q + spread * spread), "polygonVertexLumpedMassMatrix");
  sameMat(SL, MX(SM.rowwise().sum().asDiagonal()), 1e-9 * sM, "simplePolygonLumped");
  // linear precision
  Vector3 a = randUnit(r);
  double b = r.uni(-1, 1);
  Eigen::VectorXd u(V);
  for (Vertex v : m.vertices()) u[rv[v.getIndex()]] = dot(a, p[v]) + b * L;
  Eigen::VectorXd gu = G * u;
  double en = 0, rel = (spread + L) / L;
  for (Face f : m.faces()) {
    Vector3 t = a - dot(a, N[f.getIndex()]) * N[f.getIndex()];
    size_t i = 3 * rf[f.getIndex()];
    nearV(Vector3{gu[i], gu[i + 1], gu[i + 2]}, t, 1e-9 * q * q * rel, "polygonGradient-linear-precision", str(f));
    en += A[f.getIndex()] * norm2(t);
  }
  if (planarFaces) {
    near(u.dot(P * u), en, 1e-8 * q * q * rel * rel * tot, "polygonLaplacian-linear-precision");
    near(u.dot(S * u), en, 1e-8 * q * q * rel * rel * tot, "simplePolygonLaplacian-linear-precision");
    near(SM.sum(), tot, 1e-8 * q * tot, "simplePolygonMass-total");
  }
  MX Dr(V, 3 * F);
  for (Face f : m.faces())
    for (int k = 0; k < 3; k++) {
      size_t i = 3 * rf[f.getIndex()] + k;
      Dr.col(i) = G.row(i).transpose() * A[f.getIndex()];
    }
  sameMat(D, Dr, 1e-9 * q * q * L * rel * rel, "polygonDivergence");
  // DEC
  MX d0 = dense(g.polygonD0), d1 = dense(g.polygonD1), h0 = dense(g.polygonHodge0), h1 = dense(g.polygonHodge1), h2 = dense(g.polygonHodge2);
  check((size_t)d0.rows() == Hn && (size_t)d1.cols() == Hn && (size_t)d1.rows() == F, "polygonDEC-size");
  for (Halfedge h : m.halfedges()) {
    MX row = MX::Zero(1, V);
    if (h.isInterior()) {
      row(0, rv[h.tipVertex().getIndex()]) += 1;
      row(0, rv[h.tailVertex().getIndex()]) -= 1;
    }
    check((d0.row(rh[h.getIndex()]) - row).cwiseAbs().maxCoeff() == 0, "polygonD0", h);
    for (Face f : m.faces()) check(d1(rf[f.getIndex()], rh[h.getIndex()]) == (h.isInterior() && h.face() == f ? 1 : 0), "polygonD1", h);
  }
  sameMat(h0, M, 1e-12 * tot, "polygonHodge0");
  sameMat(MX(d0.transpose() * h1 * d0), P, 1e-8 * sP, "polygonHodge1");
  sameMat(h1, MX(h1.transpose()), 1e-9 * std::max(1., h1.cwiseAbs().maxCoeff()), "polygonHodge1-symmetric");
  MX i0 = dense(g.polygonHodge0Inverse), i2 = dense(g.polygonHodge2Inverse);
  for (size_t i = 0; i < V; i++) near(i0(i, i) * h0(i, i), 1, 1e-12, "polygonHodge0Inverse");
  for (Face f : m.faces()) {
    size_t i = rf[f.getIndex()];
    near(h2(i, i) * g.faceAreas[f], 1, 1e-12, "polygonHodge2");
    near(i2(i, i) * h2(i, i), 1, 1e-12, "polygonHodge2Inverse");
  }
  if (tri) {
    g.requireCotanLaplacian();
    g.requireVertexLumpedMassMatrix();
    g.requireVertexGalerkinMassMatrix();
    MX lap = dense(g.cotanLaplacian);
    sameMat(P, lap, 1e-9 * q * q * sP * rel, "polygonLaplacian-triangles");
    sameMat(S, lap, 1e-7 * q * q * q * sS, "simplePolygonLaplacian-triangles");
    sameMat(M, dense(g.vertexLumpedMassMatrix), 1e-10 * tot, "polygonMass-triangles");
    sameMat(SM, dense(g.vertexGalerkinMassMatrix), 1e-8 * q * tot, "simplePolygonMass-triangles");
  }
  // connection Laplacian
  g.requirePolygonVertexConnectionLaplacian();
  g.requireFaceTangentBasis();
  g.requireVertexTangentBasis();
  g.requireVertexNormals();
  for (Vertex v : m.vertices()) {
    Vector3 s = Vector3::zero();
    double t = 0;
    for (Face f : v.adjacentFaces()) { s += A[f.getIndex()] * N[f.getIndex()]; t += A[f.getIndex()]; }
    if (norm(s) < 1e-6 * t || !(norm(g.vertexNormals[v]) > 0.5)) return; // no vertex normal
  }
  MC K = dense(g.polygonVertexConnectionLaplacian);
  double sK = std::max(1., K.cwiseAbs().maxCoeff());
  sameMat(K, MC(K.adjoint()), 1e-10 * sK, "polygonConnection-hermitian");
  for (Face f : m.faces()) {
    auto bb = g.faceTangentBasis[f];
    nearV(cross(bb[0], bb[1]), N[f.getIndex()], 1e-8 * q, "faceTangentBasis-polygon", str(f));
    near(dot(bb[0], bb[1]), 0, 1e-9, "faceTangentBasis-polygon", f);
    near(norm(bb[0]), 1, 1e-9, "faceTangentBasis-polygon", f);
    if (m.usesImplicitTwin()) { // x axis along f.halfedge()
      Vector3 x = p[f.halfedge().tipVertex()] - p[f.halfedge().tailVertex()];
      x = x - dot(x, N[f.getIndex()]) * N[f.getIndex()];
      if (planarFaces || tri) nearV(bb[0], unit(x), 1e-7 * q, "faceTangentBasis-polygon", "x axis of " + str(f));
    }
  }
  for (Vertex v : m.vertices()) {
    auto bb = g.vertexTangentBasis[v];
    Vector3 n = g.vertexNormals[v];
    if (!(norm(n) > 0.5)) continue;
    nearV(cross(bb[0], bb[1]), n, 1e-8, "vertexTangentBasis-polygon", str(v));
    near(dot(bb[0], bb[1]), 0, 1e-9, "vertexTangentBasis-polygon", v);
    near(norm(bb[0]), 1, 1e-9, "vertexTangentBasis-polygon", v);
  }
}

static void planarConnection(Ctx& c, VertexPositionGeometry& g) {
  // in a flat domain the connection Laplacian is the scalar one up to the choice of frames
  SurfaceMesh& m = g.mesh;
  auto rv = ranks<Vertex>(m);
  size_t V = m.nVertices();
  g.requirePolygonLaplacian();
  g.requirePolygonVertexConnectionLaplacian();
  g.requireVertexTangentBasis();
  MX P = dense(g.polygonLaplacian);
  MC K = dense(g.polygonVertexConnectionLaplacian), Kr(V, V);
  Vector3 n = g.faceNormal(*m.faces().begin()), X = n.buildTangentBasis()[0], Y = cross(n, X);
  std::vector<C> rot(V);
  for (Vertex v : m.vertices()) rot[rv[v.getIndex()]] = C(dot(g.vertexTangentBasis[v][0], X), dot(g.vertexTangentBasis[v][0], Y));
  for (size_t i = 0; i < V; i++)
    for (size_t j = 0; j < V; j++) Kr(i, j) = P(i, j) * std::conj(rot[i]) * rot[j];
  sameMat(K, Kr, 1e-7 * std::max(1., P.cwiseAbs().maxCoeff()), "polygonConnection-flat");
}

static LD edgeLD(Edge e, VertexData<Vector3>& p) { return ldist(p[e.halfedge().tailVertex()], p[e.halfedge().tipVertex()]); }

static void famTri(Ctx& c) {
  GeoOpts o;
  o.maxQ = c.rng.coin(0.3) ? 2000 : 30;
  GeoMesh g = geoMesh(c, o);
  VertexData<Vector3> p = g.geom->vertexPositions;
  Ref R(*g.mesh, [&](Edge e) { return edgeLD(e, p); });
  // unrelated quantities first, so that the order of computation varies
  if (c.rng.coin()) { checkEmbedded(c, *g.geom, R, p, true); checkIntrinsic(c, *g.geom, R); }
  else { checkIntrinsic(c, *g.geom, R); checkEmbedded(c, *g.geom, R, p, true); }
  // same geometry given by its lengths
  EdgeData<double> len(*g.mesh);
  for (Edge e : g.mesh->edges()) len[e] = R.len[e.getIndex()];
  EdgeLengthGeometry eg(*g.mesh, len);
  Ref R2(*g.mesh, [&](Edge e) { return (LD)len[e]; });
  if (R2.q < 500) checkIntrinsic(c, eg, R2);
  c.count("triangles", g.mesh->nFaces());
  // copies
  if (c.rng.coin(0.3)) {
    auto cp = g.geom->copy();
    checkEmbedded(c, *cp, R, p, true);
    auto m2 = g.mesh->copy();
    auto g2 = g.geom->reinterpretTo(*m2);
    VertexData<Vector3> p2 = p.reinterpretTo(*m2);
    Ref R3(*m2, [&](Edge e) { return edgeLD(e, p2); });
    checkIntrinsic(c, *g2, R3);
    auto ecp = eg.copy();
    Ref R4(*g.mesh, [&](Edge e) { return (LD)len[e]; });
    if (R4.q < 500) checkIntrinsic(c, *ecp, R4);
    EdgeData<double> len2 = len.reinterpretTo(*m2);
    auto eg2 = eg.reinterpretTo(*m2);
    Ref R5(*m2, [&](Edge e) { return (LD)len2[e]; });
    if (R5.q < 500) checkIntrinsic(c, *eg2, R5);
  }
}
static void famLengths(Ctx& c) {
  // lengths which need not come from any embedding
  GeoOpts o;
  o.maxQ = 1e9;
  GeoMesh g = geoMesh(c, o);
  EdgeData<double> len(*g.mesh);
  double s = std::pow(10., c.rng.uni(-3, 3));
  for (Edge e : g.mesh->edges()) { len[e] = s * c.rng.uni(1, 1.95); c.sig(hashD(len[e])); }
  EdgeLengthGeometry eg(*g.mesh, len);
  Ref R(*g.mesh, [&](Edge e) { return (LD)len[e]; });
  checkIntrinsic(c, eg, R);
  double e = 1e-11 * R.q * R.q;
  for (Face f : g.mesh->faces()) {
    near(eg.faceArea(f), R.area[f.getIndex()], e * R.lmax * R.lmax, "EL-faceArea", f);
    LD pr = 1;
    for (Edge d : f.adjacentEdges()) pr *= R.len[d.getIndex()];
    near(eg.faceCircumradius(f), pr / (4 * R.area[f.getIndex()]), 1e-8 * R.q * R.q * R.lmax, "EL-faceCircumradius", f);
  }
  for (Vertex v : g.mesh->vertices()) {
    near(eg.vertexDualArea(v), R.dual[v.getIndex()], 10 * e * R.lmax * R.lmax, "EL-vertexDualArea", v);
    near(eg.vertexGaussianCurvature(v), v.isBoundary() ? 0 : 2 * PI - (double)R.angSum[v.getIndex()], 1e-6, "EL-vertexGaussianCurvature", v);
  }
  for (Corner k : g.mesh->corners()) near(eg.cornerAngle(k), R.ang[k.halfedge().getIndex()], 1e-7, "EL-cornerAngle", k);
  std::map<size_t, double> w;
  for (Face f : g.mesh->faces())
    for (Halfedge h : f.adjacentHalfedges()) w[h.edge().getIndex()] += 0.5 * (double)R.cot[h.getIndex()];
  for (Halfedge h : g.mesh->halfedges()) near(eg.halfedgeCotanWeight(h), h.isInterior() ? 0.5 * (double)R.cot[h.getIndex()] : 0, 1e-9 * R.q * R.q, "EL-halfedgeCotanWeight", h);
  for (Edge d : g.mesh->edges()) near(eg.edgeCotanWeight(d), w[d.getIndex()], 1e-9 * R.q * R.q, "EL-edgeCotanWeight", d);
}
static void famGeneral(Ctx& c) {
  Soup s;
  for (int k = 0;; k++) {
    s = randomSoup(c.rng);
    triangulateSoup(s);
    // identical vertices within a face are not produced; geometry must be nondegenerate
    jitter(s, c.rng, 0.1);
    if (worstQuality(s) < 300) break;
    if (k > 20) throw Skip("degenerate soup");
  }
  SurfaceMesh m(s.polys);
  if (c.rng.coin(0.3)) { // leave holes in the index space
    Face f = m.face(c.rng.below(m.nFaces()));
    Face d = m.duplicateFace(f);
    (void)d;
  }
  VertexData<Vector3> p = positions(m, s);
  VertexPositionGeometry g(m, p);
  c.sig(hashPolys(s.polys));
  c.note = "general " + showPolys(s.polys);
  Ref R(m, [&](Edge e) { return edgeLD(e, p); });
  checkIntrinsic(c, g, R);
  checkEmbedded(c, g, R, p, true);
  checkPolygon(c, g, p, true, true);
}
static void famPolygon(Ctx& c) {
  GeoOpts o;
  o.tri = c.rng.coin(0.2);
  o.jitMax = 0.12;
  o.maxQ = 1e9;
  o.logScale = 1.5;
  GeoMesh g = geoMesh(c, o);
  VertexData<Vector3> p = g.geom->vertexPositions;
  bool tri = g.mesh->isTriangular();
  checkPolygon(c, *g.geom, p, tri, tri);
  c.count("polygons", g.mesh->nFaces());
}
static void famPlanarPolygon(Ctx& c) {
  GeoOpts o;
  o.tri = c.rng.coin(0.3);
  o.flat = true;
  o.logScale = 1.5;
  o.maxQ = 1e9;
  GeoMesh g = geoMesh(c, o);
  if (!o.tri) { // merged convex polygons stay planar
    Soup s = g.soup;
    mergePolys(s, c.rng, c.rng.below(4));
    bool ok = true;
    Vector3 n = g.geom->faceNormal(*g.mesh->faces().begin());
    for (auto& f : s.polys)
      for (size_t i = 0; i < f.size(); i++) {
        Vector3 a = s.pos[f[i]], b = s.pos[f[(i + 1) % f.size()]], d = s.pos[f[(i + 2) % f.size()]];
        if (dot(cross(b - a, d - b), n) < 0) ok = false;
      }
    Topo t = analyze(s.polys, s.pos.size());
    if (ok && t.manifold() && t.oriented && !t.hasDegenerate && !t.unreferenced) {
      g.geom.reset();
      g.mesh.reset(new ManifoldSurfaceMesh(s.polys));
      g.geom.reset(new VertexPositionGeometry(*g.mesh, positions(*g.mesh, s)));
      g.soup = s;
      c.note = "merged " + showPolys(s.polys);
    }
  }
  VertexData<Vector3> p = g.geom->vertexPositions;
  checkPolygon(c, *g.geom, p, g.mesh->isTriangular(), true);
  planarConnection(c, *g.geom);
  // the matrix constructor
  size_t V = g.mesh->nVertices();
  MX pm(V, 3);
  size_t k = 0;
  for (Vertex v : g.mesh->vertices()) { pm.row(k++) << p[v].x, p[v].y, p[v].z; }
  VertexPositionGeometry gm(*g.mesh, pm);
  for (Vertex v : g.mesh->vertices()) check(gm.vertexPositions[v] == p[v], "matrix-constructor", v);
  throws([&] { VertexPositionGeometry b(*g.mesh, MX(MX::Zero(V, 2))); }, "matrix-constructor", "wrong columns");
  throws([&] { VertexPositionGeometry b(*g.mesh, MX(MX::Zero(V + 1, 3))); }, "matrix-constructor", "wrong rows");
}
static void famScale(Ctx& c) {
  // scale covariance of the polygon operators over many orders of magnitude
  GeoOpts o;
  o.tri = false;
  o.jitMax = 0.1;
  o.maxQ = 1e9;
  o.rigid = false;
  GeoMesh g = geoMesh(c, o);
  VertexData<Vector3> p = g.geom->vertexPositions;
  double s = std::pow(10., c.rng.range(-6, 6));
  VertexData<Vector3> ps(*g.mesh);
  for (Vertex v : g.mesh->vertices()) ps[v] = s * p[v];
  VertexPositionGeometry gs(*g.mesh, ps);
  VertexPositionGeometry& a = *g.geom;
  for (VertexPositionGeometry* x : {&a, &gs}) {
    x->requireSimplePolygonLaplacian();
    x->requirePolygonLaplacian();
    x->requireSimplePolygonVertexGalerkinMassMatrix();
    x->requirePolygonGradientMatrix();
  }
  double mx = std::max(1., dense(a.simplePolygonLaplacian).cwiseAbs().maxCoeff());
  if (mx > 1e3) throw Skip("ill conditioned");
  sameMat(dense(gs.simplePolygonLaplacian), dense(a.simplePolygonLaplacian), 1e-3 * mx, "scale-simplePolygonLaplacian");
  mx = std::max(1., dense(a.polygonLaplacian).cwiseAbs().maxCoeff());
  sameMat(dense(gs.polygonLaplacian), dense(a.polygonLaplacian), 1e-8 * mx, "scale-polygonLaplacian");
  MX M = dense(a.simplePolygonVertexGalerkinMassMatrix);
  sameMat(MX(dense(gs.simplePolygonVertexGalerkinMassMatrix) / (s * s)), M, 1e-3 * M.cwiseAbs().maxCoeff(), "scale-simplePolygonMass");
  MX G = dense(a.polygonGradientMatrix);
  sameMat(MX(dense(gs.polygonGradientMatrix) * s), G, 1e-9 * G.cwiseAbs().maxCoeff(), "scale-polygonGradient");
}

int main(int argc, char** argv) {
  Suite S;
  S.add("triangles", 5, famTri);
  S.add("lengths", 3, famLengths);
  S.add("general", 3, famGeneral);
  S.add("polygon", 3, famPolygon);
  S.add("planar-polygon", 3, famPlanarPolygon);
  S.add("scale", 1, famScale);
  return run(S, argc, argv);
}
