// C22: direction fields (optimality, boundary alignment, indices) and stripe patterns.
#include "geohelp.h"
#include "geometrycentral/surface/direction_fields.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/stripe_patterns.h"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
using namespace vf;
typedef std::complex<double> CD;
typedef Eigen::MatrixXcd MC;
namespace {
CD C(Vector2 v) { return CD(v.x, v.y); }
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
struct World {
  GeoMesh gm;
  ManifoldSurfaceMesh* m;
  VertexPositionGeometry* g;
  std::map<size_t, size_t> vi, fi; // element index -> dense
  std::vector<Vertex> vs;
  std::vector<Face> fs;
};
World make(Ctx& c, bool closed, bool open, double maxQ = 20, bool flat = false) {
  World W;
  GeoOpts o;
  o.closed = closed;
  o.open = open;
  o.multi = false;
  o.maxQ = maxQ;
  o.flat = flat;
  W.gm = geoMesh(c, o);
  W.m = W.gm.mesh.get();
  W.g = W.gm.geom.get();
  for (Vertex v : W.m->vertices()) W.vi[v.getIndex()] = W.vs.size(), W.vs.push_back(v);
  for (Face f : W.m->faces()) W.fi[f.getIndex()] = W.fs.size(), W.fs.push_back(f);
  W.g->requireEdgeLengths();
  W.g->requireHalfedgeVectorsInVertex();
  W.g->requireHalfedgeVectorsInFace();
  return W;
}
// the global problems leave components other than the one with the smallest energy undetermined
void needConnected(World& W) {
  if (W.m->nConnectedComponents() > 1) throw Skip("several components");
}
CD rotV(World& W, Halfedge h) { // tail -> tip
  CD a = C(W.g->halfedgeVectorsInVertex[h]), b = -C(W.g->halfedgeVectorsInVertex[h.twin()]);
  return (b / std::abs(b)) / (a / std::abs(a));
}
CD rotF(World& W, Halfedge h) { // face of h -> face of its twin
  CD a = C(W.g->halfedgeVectorsInFace[h]), b = -C(W.g->halfedgeVectorsInFace[h.twin()]);
  return (b / std::abs(b)) / (a / std::abs(a));
}
LD len(World& W, Edge e) { return ldist(W.g->vertexPositions[e.firstVertex()], W.g->vertexPositions[e.secondVertex()]); }
LD cornerAngle(World& W, Halfedge h) { // at the tail
  return triAngle(len(W, h.next().edge()), len(W, h.edge()), len(W, h.next().next().edge()));
}
MC vertexEnergy(World& W, int n) {
  size_t N = W.vs.size();
  MC A = MC::Zero(N, N);
  for (Edge e : W.m->edges()) {
    double w = 0;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (h.isInterior()) w += 0.5 * triCot(len(W, h.edge()), len(W, h.next().edge()), len(W, h.next().next().edge()));
    Halfedge h = e.halfedge();
    size_t i = W.vi[h.tailVertex().getIndex()], j = W.vi[h.tipVertex().getIndex()];
    CD r = std::pow(rotV(W, h), n); // i -> j
    A(i, i) += w;
    A(j, j) += w;
    A(j, i) -= w * r;
    A(i, j) -= w * std::conj(r);
  }
  A += 1e-9 * MC::Identity(N, N);
  return A;
}
MC faceEnergy(World& W, int n) {
  size_t N = W.fs.size();
  MC A = MC::Zero(N, N);
  for (Edge e : W.m->edges()) {
    if (e.isBoundary()) continue;
    Halfedge h = e.halfedge();
    size_t i = W.fi[h.face().getIndex()], j = W.fi[h.twin().face().getIndex()];
    CD r = std::pow(rotF(W, h), n);
    A(i, i) += 1;
    A(j, j) += 1;
    A(j, i) -= r;
    A(i, j) -= std::conj(r);
  }
  A += 1e-9 * MC::Identity(N, N);
  return A;
}
double areaOf(World& W, Face f) {
  Halfedge h = f.halfedge();
  return triArea(len(W, h.edge()), len(W, h.next().edge()), len(W, h.next().next().edge()));
}
MC vertexMass(World& W) {
  MC M = MC::Zero(W.vs.size(), W.vs.size());
  for (Face f : W.fs) {
    double a = areaOf(W, f);
    std::vector<size_t> v;
    for (Vertex x : f.adjacentVertices()) v.push_back(W.vi[x.getIndex()]);
    for (size_t i : v)
      for (size_t j : v) M(i, j) += i == j ? a / 6 : a / 12;
  }
  return M;
}
MC faceMass(World& W) {
  MC M = MC::Zero(W.fs.size(), W.fs.size());
  for (size_t i = 0; i < W.fs.size(); i++) M(i, i) = areaOf(W, W.fs[i]);
  return M;
}
// directions of ref and got agree, where ref is not tiny; up to one global phase if requested
void sameDirections(Ctx& c, const Eigen::VectorXcd& ref, const std::vector<CD>& got, bool phase, double tol, const std::string& key, const std::string& what) {
  double big = ref.cwiseAbs().maxCoeff();
  CD ph = 1;
  if (phase) {
    ph = 0;
    for (long i = 0; i < ref.size(); i++) ph += got[i] * std::conj(ref[i]);
    check(std::abs(ph) > 0, key, what, ": no common phase");
    ph /= std::abs(ph);
  }
  for (long i = 0; i < ref.size(); i++) {
    if (std::abs(ref[i]) < 1e-3 * big) continue;
    CD r = ref[i] / std::abs(ref[i]) * ph;
    check(std::abs(r - got[i]) <= tol * big / std::abs(ref[i]), key, what, ": element ", i, " is ", got[i], " expected ", r);
    c.count("directions");
  }
}
std::vector<CD> listV(World& W, const VertexData<Vector2>& d, const std::string& key) {
  std::vector<CD> o;
  for (Vertex v : W.vs) {
    near(norm(d[v]), 1, 1e-9, key, "field is not of unit length");
    o.push_back(C(d[v]));
  }
  return o;
}
std::vector<CD> listF(World& W, const FaceData<Vector2>& d, const std::string& key) {
  std::vector<CD> o;
  for (Face f : W.fs) {
    near(norm(d[f]), 1, 1e-9, key, "field is not of unit length");
    o.push_back(C(d[f]));
  }
  return o;
}
// index of faces / interior vertices by parallel transport around them
int faceIndexRef(World& W, Face f, const VertexData<Vector2>& d, int n, double* frac) {
  LD tot = 0;
  for (Halfedge h : f.adjacentHalfedges()) {
    tot += std::arg(C(d[h.tipVertex()]) / (C(d[h.tailVertex()]) * std::pow(rotV(W, h), n)));
    // curvature: rescaled corner angle
    LD s = 0;
    for (Corner k : h.tailVertex().adjacentCorners()) s += cornerAngle(W, k.halfedge());
    LD target = h.tailVertex().isBoundary() ? M_PIl : 2 * M_PIl;
    tot += n * cornerAngle(W, h) * target / s;
  }
  tot -= n * M_PIl;
  double x = tot / (2 * M_PIl);
  *frac = std::abs(x - std::round(x));
  return (int)std::round(x);
}
int vertexIndexRef(World& W, Vertex v, const FaceData<Vector2>& d, int n, double* frac) {
  LD s = 0, tot = 0;
  for (Corner k : v.adjacentCorners()) s += cornerAngle(W, k.halfedge());
  // walk counterclockwise around v
  Halfedge h0 = v.halfedge(), h = h0;
  do {
    Halfedge in = h.next().next(); // incoming halfedge of the same face; its twin's face comes next
    tot += std::arg(C(d[in.twin().face()]) / (C(d[in.face()]) * std::pow(rotF(W, in), n)));
    h = in.twin();
  } while (h != h0);
  tot += n * (2 * M_PIl - s);
  double x = tot / (2 * M_PIl);
  *frac = std::abs(x - std::round(x));
  return (int)std::round(x);
}
bool nearCut(World& W, const VertexData<Vector2>& d, int n) {
  for (Edge e : W.m->edges()) {
    Halfedge h = e.halfedge();
    if (std::abs(std::abs(std::arg(C(d[h.tipVertex()]) / (C(d[h.tailVertex()]) * std::pow(rotV(W, h), n)))) - M_PI) < 1e-6) return true;
  }
  return false;
}
bool nearCutF(World& W, const FaceData<Vector2>& d, int n) {
  for (Edge e : W.m->edges()) {
    if (e.isBoundary()) continue;
    Halfedge h = e.halfedge();
    if (std::abs(std::abs(std::arg(C(d[h.twin().face()]) / (C(d[h.face()]) * std::pow(rotF(W, h), n)))) - M_PI) < 1e-6) return true;
  }
  return false;
}
long euler(World& W) { return (long)W.m->nVertices() - (long)W.m->nEdges() + (long)W.m->nFaces(); }
void checkFaceIndex(Ctx& c, World& W, const VertexData<Vector2>& d, int n) {
  if (nearCut(W, d, n)) return;
  FaceData<int> idx = computeFaceIndex(*W.g, d, n);
  long sum = 0;
  for (Face f : W.fs) {
    double fr;
    int ref = faceIndexRef(W, f, d, n, &fr);
    check(fr < 1e-5, "faceIndexOracle", "not an integer: ", fr);
    check(idx[f] == ref, "faceIndex", "face ", f, " index ", idx[f], " expected ", ref, " (n=", n, ")");
    sum += idx[f];
    c.count("faceIndices");
  }
  if (!W.m->hasBoundary()) {
    check(sum == n * euler(W), "faceIndexSum", "sum ", sum, " expected ", n * euler(W));
    c.count("indexSums");
  }
}
void checkVertexIndex(Ctx& c, World& W, const FaceData<Vector2>& d, int n) {
  if (nearCutF(W, d, n)) return;
  VertexData<int> idx = computeVertexIndex(*W.g, d, n);
  long sum = 0;
  for (Vertex v : W.vs) {
    sum += idx[v];
    if (v.isBoundary()) continue;
    double fr;
    int ref = vertexIndexRef(W, v, d, n, &fr);
    check(fr < 1e-5, "vertexIndexOracle", "not an integer: ", fr);
    check(idx[v] == ref, "vertexIndex", "vertex ", v, " index ", idx[v], " expected ", ref, " (n=", n, ")");
    c.count("vertexIndices");
  }
  if (!W.m->hasBoundary()) check(sum == n * euler(W), "vertexIndexSum", "sum ", sum, " expected ", n * euler(W));
}
int pickN(Rng& r) { return r.pick(std::vector<int>{1, 2, 4, 1, 2, 3, 6}); }

void indices(Ctx& c) {
  World W = make(c, true, true, 60);
  Rng& r = c.rng;
  int n = pickN(r);
  VertexData<Vector2> d(*W.m);
  FaceData<Vector2> e(*W.m);
  bool scaled = r.coin(0.3);
  for (Vertex v : W.vs) d[v] = (scaled ? r.uni(0.1, 5) : 1.) * Vector2::fromAngle(r.uni(-4, 4));
  for (Face f : W.fs) e[f] = (scaled ? r.uni(0.1, 5) : 1.) * Vector2::fromAngle(r.uni(-4, 4));
  if (r.coin(0.4)) { // a smooth field: the projection of a constant vector
    W.g->requireVertexTangentBasis();
    W.g->requireFaceTangentBasis();
    Vector3 D = randUnit(r);
    for (Vertex v : W.vs) {
      auto b = W.g->vertexTangentBasis[v];
      d[v] = Vector2{dot(D, b[0]), dot(D, b[1])}.pow(n);
      if (norm(d[v]) < 1e-9) d[v] = Vector2{1, 0};
    }
    for (Face f : W.fs) {
      auto b = W.g->faceTangentBasis[f];
      e[f] = Vector2{dot(D, b[0]), dot(D, b[1])}.pow(n);
      if (norm(e[f]) < 1e-9) e[f] = Vector2{1, 0};
    }
    c.count("smoothFields");
  }
  checkFaceIndex(c, W, d, n);
  checkVertexIndex(c, W, e, n);
  // turning all directions by the same angle leaves the indices
  c.sig(n * 1000 + W.fs.size());
}

void smoothest(Ctx& c) {
  World W = make(c, true, true);
  needConnected(W);
  Rng& r = c.rng;
  int n = pickN(r);
  c.note = str(c.note, " n=", n);
  size_t cap = c.thorough ? 120 : 70;
  if (W.vs.size() > 3 && W.vs.size() <= cap) {
    MC A = vertexEnergy(W, n), M = vertexMass(W);
    Eigen::GeneralizedSelfAdjointEigenSolver<MC> es(A, M);
    double l0 = es.eigenvalues()[0], l1 = es.eigenvalues()[1];
    VertexData<Vector2> d = computeSmoothestVertexDirectionField(*W.g, n);
    std::vector<CD> got = listV(W, d, "smoothestVertex");
    if (l0 > 0 && l0 < 0.6 * l1) {
      sameDirections(c, es.eigenvectors().col(0), got, true, 1e-4, "smoothestVertex", "field");
      c.count("vertexEigen");
    } else c.count("vertexEigenClose");
    checkFaceIndex(c, W, d, n);
  }
  if (W.fs.size() > 3 && W.fs.size() <= cap) {
    MC A = faceEnergy(W, n), M = faceMass(W);
    Eigen::GeneralizedSelfAdjointEigenSolver<MC> es(A, M);
    double l0 = es.eigenvalues()[0], l1 = es.eigenvalues()[1];
    FaceData<Vector2> d = computeSmoothestFaceDirectionField(*W.g, n);
    std::vector<CD> got = listF(W, d, "smoothestFace");
    if (l0 > 0 && l0 < 0.6 * l1) {
      sameDirections(c, es.eigenvectors().col(0), got, true, 1e-4, "smoothestFace", "field");
      c.count("faceEigen");
    } else c.count("faceEigenClose");
    checkVertexIndex(c, W, d, n);
  }
  c.sig(n * 1000 + W.fs.size());
}

void boundaryAligned(Ctx& c) {
  World W = make(c, false, true);
  needConnected(W);
  Rng& r = c.rng;
  if (!W.m->hasBoundary()) {
    throws([&]() { computeSmoothestBoundaryAlignedVertexDirectionField(*W.g, 1); }, "closed", "vertex version");
    throws([&]() { computeSmoothestBoundaryAlignedFaceDirectionField(*W.g, 1); }, "closed", "face version");
    return;
  }
  int n = pickN(r);
  c.note = str(c.note, " n=", n);
  {
    VertexData<Vector2> d = computeSmoothestBoundaryAlignedVertexDirectionField(*W.g, n);
    MC A = vertexEnergy(W, n);
    std::vector<size_t> in;
    Eigen::VectorXcd u = Eigen::VectorXcd::Zero(W.vs.size());
    for (size_t i = 0; i < W.vs.size(); i++) {
      Vertex v = W.vs[i];
      if (!v.isBoundary()) {
        in.push_back(i);
        continue;
      }
      // perpendicular to the boundary, pointing outwards
      Halfedge a = v.halfedge();
      CD ca = C(W.g->halfedgeVectorsInVertex[a]);
      CD nrm = -CD(0, 1) * ca / std::abs(ca); // the boundary is straight in the rescaled tangent space
      u[i] = std::pow(nrm, n);
      check(std::abs(C(d[v]) - u[i]) < 1e-8, "boundaryVertex", "boundary value ", d[v], " expected ", u[i]);
      c.count("boundaryValues");
    }
    if (!in.empty()) {
      MC B(in.size(), in.size());
      Eigen::VectorXcd b(in.size());
      for (size_t i = 0; i < in.size(); i++) {
        b[i] = 0;
        for (size_t j = 0; j < in.size(); j++) B(i, j) = A(in[i], in[j]);
        for (size_t j = 0; j < W.vs.size(); j++) b[i] -= A(in[i], j) * u[j];
      }
      Eigen::SelfAdjointEigenSolver<MC> es(B);
      if (es.eigenvalues()[0] > 1e-4 * es.eigenvalues().maxCoeff()) {
        Eigen::VectorXcd x = es.eigenvectors() * (es.eigenvalues().cwiseInverse().asDiagonal() * (es.eigenvectors().adjoint() * b));
        std::vector<CD> got;
        for (size_t i : in) got.push_back(C(d[W.vs[i]]));
        sameDirections(c, x, got, false, 1e-5, "boundaryVertex", "harmonic extension");
        c.count("boundaryVertexFields");
      }
    }
  }
  {
    bool bad = false;
    std::vector<size_t> in;
    Eigen::VectorXcd u = Eigen::VectorXcd::Zero(W.fs.size());
    for (size_t i = 0; i < W.fs.size(); i++) {
      CD s = 0;
      int nb = 0;
      double L = 0;
      for (Halfedge h : W.fs[i].adjacentHalfedges()) {
        L += len(W, h.edge());
        if (h.edge().isBoundary()) nb++, s += -CD(0, 1) * C(W.g->halfedgeVectorsInFace[h]);
      }
      if (!nb) in.push_back(i);
      else if (std::abs(s) < 1e-6 * L) bad = true;
      else u[i] = std::pow(s / std::abs(s), n);
    }
    if (bad) throw Skip("face with only boundary edges");
    FaceData<Vector2> d = computeSmoothestBoundaryAlignedFaceDirectionField(*W.g, n);
    for (size_t i = 0; i < W.fs.size(); i++)
      if (u[i] != 0.) check(std::abs(C(d[W.fs[i]]) - u[i]) < 1e-8, "boundaryFace", "boundary value ", d[W.fs[i]], " expected ", u[i]);
    if (!in.empty()) {
      MC A = faceEnergy(W, n), B(in.size(), in.size());
      Eigen::VectorXcd b(in.size());
      for (size_t i = 0; i < in.size(); i++) {
        b[i] = 0;
        for (size_t j = 0; j < in.size(); j++) B(i, j) = A(in[i], in[j]);
        for (size_t j = 0; j < W.fs.size(); j++) b[i] -= A(in[i], j) * u[j];
      }
      Eigen::VectorXcd x = B.ldlt().solve(b);
      std::vector<CD> got;
      for (size_t i : in) got.push_back(C(d[W.fs[i]]));
      if (x.cwiseAbs().maxCoeff() > 1e-3) sameDirections(c, x, got, false, 1e-5, "boundaryFace", "harmonic extension");
      c.count("boundaryFaceFields");
    }
  }
  c.sig(n * 1000 + W.fs.size());
}

void curvature(Ctx& c) {
  World W = make(c, true, true);
  needConnected(W);
  Rng& r = c.rng;
  int n = r.coin() ? 2 : 4;
  c.note = str(c.note, " n=", n);
  throws([&]() { computeCurvatureAlignedVertexDirectionField(*W.g, r.coin() ? 1 : 3); }, "curvatureN", "vertex");
  throws([&]() { computeCurvatureAlignedFaceDirectionField(*W.g, r.coin() ? 1 : 6); }, "curvatureN", "face");
  W.g->requireVertexPrincipalCurvatureDirections();
  W.g->requireFacePrincipalCurvatureDirections();
  if (W.vs.size() <= 90) {
    MC A = vertexEnergy(W, n), M = vertexMass(W);
    Eigen::VectorXcd b(W.vs.size());
    for (size_t i = 0; i < W.vs.size(); i++) b[i] = std::pow(C(W.g->vertexPrincipalCurvatureDirections[W.vs[i]]), n / 2);
    if (b.norm() > 1e-9) {
      Eigen::SelfAdjointEigenSolver<MC> es(A);
      if (std::abs(es.eigenvalues()[0]) > 1e-6 * es.eigenvalues().maxCoeff()) {
        VertexData<Vector2> d = computeCurvatureAlignedVertexDirectionField(*W.g, n);
        Eigen::VectorXcd x = A.partialPivLu().solve(M * b);
        sameDirections(c, x, listV(W, d, "curvatureVertex"), false, 1e-4, "curvatureVertex", "field");
        c.count("curvatureVertex");
      }
    }
  }
  if (W.fs.size() <= 120) {
    MC A = faceEnergy(W, n), M = faceMass(W);
    Eigen::VectorXcd b(W.fs.size());
    for (size_t i = 0; i < W.fs.size(); i++) b[i] = std::pow(C(W.g->facePrincipalCurvatureDirections[W.fs[i]]), n / 2);
    if (b.norm() > 1e-9) {
      Eigen::SelfAdjointEigenSolver<MC> es(A);
      if (es.eigenvalues()[0] > 1e-6) {
        FaceData<Vector2> d = computeCurvatureAlignedFaceDirectionField(*W.g, n);
        Eigen::VectorXcd x = A.partialPivLu().solve(M * b);
        sameDirections(c, x, listF(W, d, "curvatureFace"), false, 1e-4, "curvatureFace", "field");
        c.count("curvatureFace");
      }
    }
  }
  c.sig(n * 1000 + W.fs.size());
}

// ---------------------------------------------------------------- stripes
struct Poly {
  std::vector<Vector3> p;
  std::vector<std::array<size_t, 2>> e;
};
// crossing multiples of 2 pi between a and b, ordered from a to b, as weights of a
std::vector<double> crossRef(double a, double b) {
  std::vector<double> o;
  double lo = std::min(a, b), hi = std::max(a, b);
  for (long k = (long)std::floor(lo / (2 * M_PI)) - 1; k <= (long)std::ceil(hi / (2 * M_PI)) + 1; k++) {
    double iso = 2 * M_PI * k;
    if (lo <= iso && iso < hi) o.push_back((iso - b) / (a - b));
  }
  std::sort(o.begin(), o.end(), std::greater<double>());
  return o;
}
// polylines of the regular faces; values must be compatible across edges of regular faces
void checkPolylines(Ctx& c, World& W, const CornerData<double>& val, const FaceData<int>& sIdx, const FaceData<int>& fIdx, const Poly& P, bool connected, const char* what, bool atVertices = false) {
  auto regular = [&](Face f) { return sIdx[f] == 0 && fIdx[f] == 0; };
  double scale = 0;
  for (Vertex v : W.vs) scale = std::max(scale, norm(W.g->vertexPositions[v]));
  std::vector<size_t> deg(P.p.size(), 0);
  for (auto& e : P.e) {
    check(e[0] < P.p.size() && e[1] < P.p.size() && e[0] != e[1], "polyline", what, ": bad segment");
    deg[e[0]]++, deg[e[1]]++;
  }
  // expected points: one per crossing of each edge with a regular face, in the order along the edge
  std::map<size_t, std::vector<Vector3>> pts;
  size_t nExp = 0, nSeg = 0;
  for (Edge e : W.m->edges()) {
    bool done = false;
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
      if (!h.isInterior() || !regular(h.face())) continue;
      std::vector<double> w = crossRef(val[h.corner()], val[h.next().corner()]);
      if (!done)
        for (double x : w) pts[e.getIndex()].push_back(x * W.g->vertexPositions[h.tailVertex()] + (1 - x) * W.g->vertexPositions[h.tipVertex()]);
      else check(w.size() == pts[e.getIndex()].size(), "stripeCompat", what, ": ", w.size(), " and ", pts[e.getIndex()].size(), " crossings seen from the two sides");
      done = true;
    }
    nExp += pts[e.getIndex()].size();
  }
  if (!connected) check(P.p.size() == nExp, "polyline", what, ": ", P.p.size(), " points, expected ", nExp);
  else check(P.p.size() >= nExp, "polyline", what, ": ", P.p.size(), " points, expected at least ", nExp);
  // match the points with the expected ones (index of each point on its edge)
  std::vector<std::vector<std::pair<size_t, size_t>>> where(P.p.size()); // edge, slot
  std::vector<char> taken;
  std::map<std::pair<size_t, size_t>, size_t> ofSlot;
  for (auto& kv : pts)
    for (size_t s = 0; s < kv.second.size(); s++) {
      size_t best = INVALID_IND;
      double bd = 1e-9 * scale;
      for (size_t i = 0; i < P.p.size(); i++) {
        if (!where[i].empty()) continue;
        double dd = norm(P.p[i] - kv.second[s]);
        if (dd <= bd) bd = dd, best = i;
      }
      check(best != INVALID_IND, "polyline", what, ": no point at the crossing ", s, " of edge ", kv.first, " at ", kv.second[s]);
      where[best].push_back({kv.first, s});
      ofSlot[{kv.first, s}] = best;
    }
  // per regular face: each crossing is joined to a crossing with the same value on another edge of the face
  std::set<std::pair<size_t, size_t>> segs;
  for (auto& e : P.e) segs.insert({std::min(e[0], e[1]), std::max(e[0], e[1])});
  size_t expDeg = 0;
  for (Face f : W.fs) {
    if (!regular(f)) continue;
    std::vector<std::pair<double, std::pair<size_t, size_t>>> cr; // level, (edge,slot)
    for (Halfedge h : f.adjacentHalfedges()) {
      double a = val[h.corner()], b = val[h.next().corner()];
      size_t k = 0;
      for (double w : crossRef(a, b)) {
        double iso = std::round((w * a + (1 - w) * b) / (2 * M_PI));
        // slots were numbered along the first regular halfedge of the edge
        Halfedge first = h.edge().halfedge();
        if (!(first.isInterior() && regular(first.face()))) first = first.twin();
        size_t n = pts[h.edge().getIndex()].size();
        cr.push_back({iso, {h.edge().getIndex(), first == h ? k : n - 1 - k}});
        k++;
      }
    }
    std::sort(cr.begin(), cr.end());
    check(cr.size() % 2 == 0, "stripeCompat", what, ": odd number of crossings around a regular face");
    for (size_t i = 0; i < cr.size(); i += 2) {
      check(cr[i].first == cr[i + 1].first && cr[i].second.first != cr[i + 1].second.first, "stripeCompat", what, ": levels do not pair up");
      size_t a = ofSlot[cr[i].second], b = ofSlot[cr[i + 1].second];
      bool joined = segs.count({std::min(a, b), std::max(a, b)});
      if (!joined && atVertices) // points on different edges may coincide
        for (auto& e : P.e)
          joined |= (norm(P.p[e[0]] - P.p[a]) < 1e-9 * scale && norm(P.p[e[1]] - P.p[b]) < 1e-9 * scale) || (norm(P.p[e[0]] - P.p[b]) < 1e-9 * scale && norm(P.p[e[1]] - P.p[a]) < 1e-9 * scale);
      check(joined, "polyline", what, ": the crossings of level ", cr[i].first, " in face ", f, " are not joined");
      nSeg++;
    }
    expDeg += cr.size();
  }
  if (!connected) check(P.e.size() == nSeg, "polyline", what, ": ", P.e.size(), " segments, expected ", nSeg);
  else check(P.e.size() >= nSeg, "polyline", what, ": segments");
  for (size_t i = 0; i < P.p.size(); i++) check(deg[i] <= 2, "polyline", what, ": point of degree ", deg[i]);
  c.count("polylinePoints", P.p.size());
  c.count("polylineSegments", P.e.size());
  (void)expDeg;
}
CD rootDir(const VertexData<Vector2>& d, Vertex v) { return std::polar(1., std::arg(C(d[v])) / 2); }
bool sheetFlip(World& W, const VertexData<Vector2>& d, Halfedge h) { return std::real(std::conj(rotV(W, h) * rootDir(d, h.tailVertex())) * rootDir(d, h.tipVertex())) <= 0; }
// the values are the phases of the minimiser of the stripe energy (dense reference)
void checkStripeOptimal(Ctx& c, World& W, const VertexData<Vector2>& d, const VertexData<double>& freq, const CornerData<double>& val, const FaceData<int>& fIdx) {
  size_t N = W.vs.size();
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(2 * N, 2 * N), M = Eigen::MatrixXd::Zero(2 * N, 2 * N);
  for (Edge e : W.m->edges()) {
    Halfedge h = e.halfedge();
    CD xi = rootDir(d, h.tailVertex()), xj = rootDir(d, h.tipVertex()), rr = rotV(W, h);
    double cs = std::real(std::conj(rr * xi) * xj);
    if (std::abs(cs) < 1e-6) throw Skip("sheets undecided");
    bool flip = cs < 0;
    CD ei = C(W.g->halfedgeVectorsInVertex[h]);
    ei /= std::abs(ei);
    CD ej = rr * ei;
    double om = M_PI * (double)len(W, e) * (freq[h.tailVertex()] * std::real(xi * std::conj(ei)) + freq[h.tipVertex()] * (flip ? -1 : 1) * std::real(xj * std::conj(ej)));
    double w = 0;
    for (Halfedge k : {h, h.twin()})
      if (k.isInterior() && fIdx[k.face()] == 0) w += 0.5 * triCot(len(W, k.edge()), len(W, k.next().edge()), len(W, k.next().next().edge()));
    // w | psi_j (conjugated on a flip) - e^{i om} psi_i |^2
    Eigen::Matrix<double, 2, 4> B;
    B << -cos(om), sin(om), 1, 0, -sin(om), -cos(om), 0, flip ? -1 : 1;
    Eigen::Matrix4d Q = w * B.transpose() * B;
    size_t id[4] = {2 * W.vi[h.tailVertex().getIndex()], 2 * W.vi[h.tailVertex().getIndex()] + 1, 2 * W.vi[h.tipVertex().getIndex()], 2 * W.vi[h.tipVertex().getIndex()] + 1};
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++) A(id[i], id[j]) += Q(i, j);
  }
  for (Face f : W.fs)
    for (Vertex v : f.adjacentVertices())
      for (int k = 0; k < 2; k++) M(2 * W.vi[v.getIndex()] + k, 2 * W.vi[v.getIndex()] + k) += areaOf(W, f) / 3;
  A += 1e-4 * Eigen::MatrixXd::Identity(2 * N, 2 * N); // the shift used by the code
  Eigen::GeneralizedSelfAdjointEigenSolver<Eigen::MatrixXd> es(A, M);
  auto ev = es.eigenvalues();
  if (!(ev[0] > 0)) return;
  size_t dim = ev[1] < ev[0] * (1 + 1e-7) ? 2 : 1;
  if (2 * N <= dim || ev[dim] < 1.8 * ev[0]) {
    c.count("stripeEigenClose");
    return;
  }
  std::vector<CD> psi(N, 0.);
  for (Face f : W.fs) {
    bool fl = false;
    for (Halfedge h = f.halfedge();;) {
      CD z = std::polar(1., val[h.corner()]);
      if (fl) z = std::conj(z);
      CD& t = psi[W.vi[h.tailVertex().getIndex()]];
      if (t == 0.) t = z;
      check(std::abs(t - z) < 1e-6, "stripePhase", "the phases at a vertex differ between faces: ", t, " and ", z);
      fl ^= sheetFlip(W, d, h);
      h = h.next();
      if (h == f.halfedge()) break;
    }
  }
  Eigen::MatrixXd U = es.eigenvectors().leftCols(dim);
  Eigen::VectorXd x = U.col(0);
  if (dim == 2) {
    Eigen::Matrix2d Q = Eigen::Matrix2d::Zero();
    for (size_t i = 0; i < N; i++) {
      Eigen::Vector2d q;
      for (int k = 0; k < 2; k++) q[k] = psi[i].real() * U(2 * i + 1, k) - psi[i].imag() * U(2 * i, k);
      Q += q * q.transpose();
    }
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> e2(Q);
    x = U * e2.eigenvectors().col(0);
  }
  double sg = 0, big = 0;
  for (size_t i = 0; i < N; i++) sg += psi[i].real() * x[2 * i] + psi[i].imag() * x[2 * i + 1], big = std::max(big, std::hypot(x[2 * i], x[2 * i + 1]));
  if (sg < 0) x = -x;
  for (size_t i = 0; i < N; i++) {
    CD z(x[2 * i], x[2 * i + 1]);
    if (std::abs(z) < 1e-2 * big) continue;
    check(std::abs(z / std::abs(z) - psi[i]) < 1e-3 * big / std::abs(z), "stripePhase", "vertex ", W.vs[i], " has phase ", psi[i], ", the minimiser ", z / std::abs(z), " (dim ", dim, ")");
    c.count("stripePhases");
  }
  c.count("stripeMinimisers");
}
void stripesRandom(Ctx& c) {
  World W = make(c, true, true, 25);
  needConnected(W);
  Rng& r = c.rng;
  VertexData<Vector2> d(*W.m);
  int kind = r.below(3);
  if (kind == 0) d = computeSmoothestVertexDirectionField(*W.g, 2);
  else if (kind == 1)
    for (Vertex v : W.vs) d[v] = Vector2::fromAngle(r.uni(-4, 4));
  else {
    W.g->requireVertexTangentBasis();
    Vector3 D = randUnit(r);
    for (Vertex v : W.vs) {
      auto b = W.g->vertexTangentBasis[v];
      d[v] = Vector2{dot(D, b[0]), dot(D, b[1])}.pow(2);
      if (norm(d[v]) < 1e-9) d[v] = Vector2{1, 0};
      d[v] = unit(d[v]);
    }
  }
  double meanL = 0;
  for (Edge e : W.m->edges()) meanL += len(W, e);
  meanL /= W.m->nEdges();
  VertexData<double> freq(*W.m);
  double f0 = r.uni(0.05, kind == 1 ? 0.6 : 1.5) / meanL;
  c.note = str(c.note, " kind=", kind, " f0=", f0 * meanL);
  bool varying = r.coin(0.4);
  for (Vertex v : W.vs) freq[v] = f0 * (varying ? r.uni(0.5, 1.5) : 1.);
  CornerData<double> val;
  FaceData<int> sIdx, fIdx;
  std::tie(val, sIdx, fIdx) = computeStripePattern(*W.g, freq, d);
  FaceData<int> ref = computeFaceIndex(*W.g, d, 2);
  for (Face f : W.fs) {
    check(fIdx[f] == ref[f], "stripe", "branch index differs from the index of the field");
    for (Corner k : f.adjacentCorners()) check(vf::finite(val[k]), "stripe", "value is not finite");
  }
  if (W.vs.size() <= 45 && r.coin(0.5)) checkStripeOptimal(c, W, d, freq, val, fIdx);
  // compatible values across edges between faces without field singularities
  double tol = 1e-7;
  bool fragile = false;
  for (Edge e : W.m->edges())
    for (Halfedge h : {e.halfedge(), e.halfedge().twin()})
      if (h.isInterior() && fIdx[h.face()] == 0 && sIdx[h.face()] == 0)
        for (Corner k : {h.corner(), h.next().corner()})
          if (std::abs(wrap(val[k])) < 1e-7) fragile = true;
  for (Edge e : W.m->edges()) {
    if (e.isBoundary()) continue;
    Halfedge h = e.halfedge(), t = h.twin();
    if (fIdx[h.face()] || fIdx[t.face()] || sIdx[h.face()] || sIdx[t.face()]) continue;
    double a0 = val[h.corner()], a1 = val[h.next().corner()], b0 = val[t.next().corner()], b1 = val[t.corner()];
    double same = std::abs(wrap(a0 - b0)) + std::abs((a1 - a0) - (b1 - b0));
    double flip = std::abs(wrap(a0 + b0)) + std::abs((a1 - a0) + (b1 - b0));
    check(std::min(same, flip) < tol, "stripeCompat", "values disagree across edge ", e, ": ", a0, ",", a1, " and ", b0, ",", b1);
    c.count("stripeEdges");
  }
  Poly P;
  // fresh geometry: the extraction must fetch what it needs itself
  VertexPositionGeometry g2(*W.m, W.g->inputVertexPositions);
  std::tie(P.p, P.e) = extractPolylinesFromStripePattern(g2, val, sIdx, fIdx, d, false);
  if (!fragile) checkPolylines(c, W, val, sIdx, fIdx, P, false, "stripes");
  Poly Q;
  bool big = false, branch = false; // large singularities: the connection heuristic promises nothing
  for (Face f : W.fs) big |= std::abs(sIdx[f]) > 1, branch |= sIdx[f] != 0 && fIdx[f] != 0;
  if (branch) c.count("branchAndStripe");
  if (big) c.count("bigStripeIndex");
  std::tie(Q.p, Q.e) = extractPolylinesFromStripePattern(g2, val, sIdx, fIdx, d, true);
  if (!fragile) {
    checkPolylines(c, W, val, sIdx, fIdx, Q, true, "connected stripes");
    // the unconnected polylines are the beginning of the connected ones
    check(Q.e.size() >= P.e.size() && std::equal(P.e.begin(), P.e.end(), Q.e.begin()), "polyline", "connection changed the regular part");
  }
  for (Face f : W.fs) c.count(sIdx[f] ? "stripeSingularities" : "stripeRegular");
  c.sig(W.fs.size() * 100 + P.e.size());
}
// level sets of a function given on vertices, with integer jumps and reflections per face
void levels(Ctx& c) {
  World W = make(c, true, true, 60);
  Rng& r = c.rng;
  VertexData<double> F(*W.m);
  double amp = r.uni(1, 25);
  Vector3 D = randUnit(r);
  double sc = 0;
  for (Vertex v : W.vs) sc = std::max(sc, norm(W.g->vertexPositions[v]));
  int kind = r.below(3);
  for (Vertex v : W.vs) F[v] = kind == 0 ? amp * dot(D, W.g->vertexPositions[v]) / sc : kind == 1 ? amp * r.uni(-1, 1) : (double)r.range(-9, 9);
  bool exact = kind == 2;
  CornerData<double> val(*W.m);
  FaceData<int> z(*W.m, 0), fz(*W.m, 0);
  for (Face f : W.fs) {
    double sg = exact ? 1 : (r.coin(0.3) ? -1 : 1), sh = exact ? 0 : 2 * M_PI * r.range(-2, 2);
    for (Corner k : f.adjacentCorners()) val[k] = sg * F[k.vertex()] + sh;
    if (r.coin(0.05)) z[f] = 0, fz[f] = 1;
  }
  VertexData<Vector2> d(*W.m, Vector2{1, 0});
  Poly P;
  VertexPositionGeometry g2(*W.m, W.g->inputVertexPositions);
  std::tie(P.p, P.e) = extractPolylinesFromStripePattern(g2, val, z, fz, d, false);
  checkPolylines(c, W, val, z, fz, P, false, "levels", exact);
  c.sig(hashD(amp) + P.e.size());
}
// flat torus: waves of the lattice are reproduced exactly
void flatTorus(Ctx& c) {
  Rng& r = c.rng;
  size_t nx = 4 + r.below(6), ny = 4 + r.below(6);
  double a = r.uni(0.5, 2), b = r.uni(0.5, 2), skew = r.uni(-0.3, 0.3) * a;
  std::vector<std::vector<size_t>> polys;
  auto id = [&](size_t i, size_t j) { return (i % nx) * ny + j % ny; };
  for (size_t i = 0; i < nx; i++)
    for (size_t j = 0; j < ny; j++) {
      polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
      polys.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
    }
  for (auto& f : polys) std::rotate(f.begin(), f.begin() + r.below(3), f.end());
  ManifoldSurfaceMesh m(polys);
  auto vec = [&](Halfedge h) { // displacement in the plane
    long i0 = h.tailVertex().getIndex() / ny, j0 = h.tailVertex().getIndex() % ny, i1 = h.tipVertex().getIndex() / ny, j1 = h.tipVertex().getIndex() % ny;
    long di = i1 - i0, dj = j1 - j0;
    if (di > 1) di -= nx;
    if (di < -1) di += nx;
    if (dj > 1) dj -= ny;
    if (dj < -1) dj += ny;
    return CD(di * a + dj * skew, dj * b);
  };
  EdgeData<double> l(m);
  for (Edge e : m.edges()) l[e] = std::abs(vec(e.halfedge()));
  EdgeLengthGeometry g(m, l);
  g.requireHalfedgeVectorsInVertex();
  // wave vector: k . (nx a, 0) and k . (ny skew, ny b) multiples of 2 pi
  long p = r.range(-3, 3), q = r.range(-3, 3);
  if (!p && !q) p = 1;
  double kx = 2 * M_PI * p / (nx * a), ky = (2 * M_PI * q / ny - kx * skew) / b;
  CD k(kx, ky);
  double K = std::abs(k);
  double maxL = 0;
  for (Edge e : m.edges()) maxL = std::max(maxL, l[e]);
  if (K * maxL > 2.8) throw Skip("wave too short for the mesh");
  VertexData<Vector2> d(m);
  for (Vertex v : m.vertices()) {
    Halfedge h = v.halfedge();
    CD frame = C(g.halfedgeVectorsInVertex[h]) / vec(h); // plane -> tangent space
    CD dir = k / K * frame / std::abs(frame);
    dir = dir * dir;
    d[v] = Vector2{dir.real(), dir.imag()};
  }
  VertexData<double> f(m, K / (2 * M_PI));
  CornerData<double> val;
  FaceData<int> s, br;
  std::tie(val, s, br) = computeStripePattern(g, f, d);
  for (Face fc : m.faces()) {
    check(br[fc] == 0 && s[fc] == 0, "torus", "singularity of a constant field");
    double sg = 0;
    for (Halfedge h : fc.adjacentHalfedges()) {
      double e = k.real() * vec(h).real() + k.imag() * vec(h).imag(), got = val[h.next().corner()] - val[h.corner()];
      if (sg == 0 && std::abs(e) > 1e-6) sg = got * e > 0 ? 1 : -1;
      near(got, sg * e, 2e-3, "torus", "difference along a halfedge");
    }
  }
  c.count("tori");
  c.sig(nx * 100 + ny + 1000 * (p * 7 + q));
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("indices", 4, indices);
  S.add("smoothest", 3, smoothest);
  S.add("boundary", 3, boundaryAligned);
  S.add("curvature", 2, curvature);
  S.add("stripes", 4, stripesRandom);
  S.add("levels", 3, levels);
  S.add("torus", 1, flatTorus);
  return run(S, argc, argv);
}
