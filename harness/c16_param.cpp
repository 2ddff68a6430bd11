// C16: boundary first flattening, uniformization, disk parameterization, convex embedding
#include "refgeom.h"
#include "geometrycentral/surface/boundary_first_flattening.h"
#include "geometrycentral/surface/embed_convex.h"
#include "geometrycentral/surface/parameterize.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/uniformize.h"
using namespace vf;
namespace {
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> ML;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VL;
typedef std::complex<double> C;
struct Quiet { // the library reports its progress on cout / cerr
  std::streambuf *a, *b;
  std::ostringstream sink;
  Quiet() : a(std::cout.rdbuf()), b(std::cerr.rdbuf()) { std::cout.rdbuf(sink.rdbuf()), std::cerr.rdbuf(sink.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(a), std::cerr.rdbuf(b); }
};
size_t components(ManifoldSurfaceMesh& m) {
  size_t n = 0;
  std::set<size_t> seen;
  for (Vertex v : m.vertices()) {
    if (!seen.insert(v.getIndex()).second) continue;
    n++;
    std::vector<Vertex> st{v};
    while (!st.empty()) {
      Vertex x = st.back();
      st.pop_back();
      for (Vertex y : x.adjacentVertices())
        if (seen.insert(y.getIndex()).second) st.push_back(y);
    }
  }
  return n;
}
size_t loops(ManifoldSurfaceMesh& m) {
  std::set<Halfedge> ext;
  size_t n = 0;
  for (Halfedge h : m.exteriorHalfedges()) {
    if (ext.count(h)) continue;
    n++;
    for (Halfedge x = h; ext.insert(x).second;) x = x.next();
  }
  return n;
}
bool isDisk(ManifoldSurfaceMesh& m) {
  return components(m) == 1 && loops(m) == 1 && (long long)m.nVertices() - (long long)m.nEdges() + (long long)m.nFaces() == 1;
}
C toC(Vector2 v) { return C(v.x, v.y); }
// disks: bumpy grids, or whatever the generator makes
GeoMesh diskMesh(Ctx& c, double maxQ, bool indexHoles = true) {

  Rng& r = c.rng;
  if (r.coin(0.35)) {
    GeoMesh g;
    size_t n = 1 + r.below(6), k = 1 + r.below(6);
    g.soup = grid(n, k, true);
    double bump = r.coin(0.3) ? 0 : r.uni(0, 1), h = norm(g.soup.pos[0] - g.soup.pos[1]), a = r.uni(0.3, 1.5), b = r.uni(0.3, 1.5);
    for (auto& p : g.soup.pos) {
      double x = p.x / h, y = p.y / h;
      p = h * Vector3{x + r.uni(-.15, .15), y + r.uni(-.15, .15), bump * std::sin(a * x) * std::cos(b * y)};
    }
    permuteSoup(g.soup, r);
    Rigid R = randRigid(r, 2);
    for (auto& p : g.soup.pos) p = R(p);
    g.mesh.reset(new ManifoldSurfaceMesh(g.soup.polys));
    if (indexHoles && r.coin(0.3)) {
      addIndexHoles(c, *g.mesh, 1 + r.below(3));
    }
    g.geom.reset(new VertexPositionGeometry(*g.mesh, positions(*g.mesh, g.soup)));
    c.sig(hashPolys(g.soup.polys));
    for (auto& q : g.soup.pos) c.sig(hashD(q.x));
    c.note = str("bumpy grid ", n, "x", k, " bump ", bump);
    return g;
  }
  for (int t = 0; t < 20; t++) {
    GeoOpts o;
    o.closed = false;
    o.maxQ = maxQ;
    o.multi = false;
    o.holes = false;
    o.maxScramble = 12;
    o.indexHoles = indexHoles;
    o.flat = r.coin(0.2);
    GeoMesh g = geoMesh(c, o);
    if (isDisk(*g.mesh)) return g;
  }
  throw Skip("no disk");
}
// ------------------------------------------------------------------------------------------------ BFF
struct Disk {
  ManifoldSurfaceMesh& m;
  Ref R;
  size_t n, nB = 0, nI = 0;
  std::vector<long> bi, ii; // by rank
  ML L;
  VL Om;
  std::vector<Halfedge> loop; // exterior halfedges
  ML Lii, Lib, Lbb;
  template <class F> Disk(ManifoldSurfaceMesh& m_, F len) : m(m_), R(m_, len) {
    n = m.nVertices();
    L = ML::Zero(n, n);
    Om = VL::Zero(n);
    bi.assign(n, -1), ii.assign(n, -1);
    for (Vertex v : m.vertices()) {
      size_t i = R.rv[v.getIndex()];
      if (v.isBoundary()) bi[i] = nB++;
      else ii[i] = nI++;
      Om(i) = (v.isBoundary() ? 1 : 2) * M_PIl - R.angSum[v.getIndex()];
    }
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        size_t a = R.rv[h.tailVertex().getIndex()], b = R.rv[h.tipVertex().getIndex()];
        LD w = R.cot[h.getIndex()] / 2;
        L(a, a) += w, L(b, b) += w, L(a, b) -= w, L(b, a) -= w;
      }
    Halfedge h0 = *m.exteriorHalfedges().begin(), h = h0;
    do loop.push_back(h), h = h.next();
    while (h != h0);
    Lii = ML::Zero(nI, nI), Lib = ML::Zero(nI, nB), Lbb = ML::Zero(nB, nB);
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++) {
        if (ii[i] >= 0 && ii[j] >= 0) Lii(ii[i], ii[j]) = L(i, j);
        if (ii[i] >= 0 && bi[j] >= 0) Lib(ii[i], bi[j]) = L(i, j);
        if (bi[i] >= 0 && bi[j] >= 0) Lbb(bi[i], bi[j]) = L(i, j);
      }
  }
  size_t rank(Vertex v) { return R.rv[v.getIndex()]; }
  VL restrictB(const VL& x) {
    VL y(nB);
    for (size_t i = 0; i < n; i++)
      if (bi[i] >= 0) y(bi[i]) = x(i);
    return y;
  }
  VL restrictI(const VL& x) {
    VL y(nI);
    for (size_t i = 0; i < n; i++)
      if (ii[i] >= 0) y(ii[i]) = x(i);
    return y;
  }
  VL solveI(const VL& x) { return nI ? VL(Lii.ldlt().solve(x)) : VL(x); }
  // the Yamabe equation: L u = k - Omega (k = 0 inside)
  VL DtN(const VL& u) {
    VL k = restrictB(Om) + Lbb * u;
    if (nI) k += Lib.transpose() * solveI(-restrictI(Om) - Lib * u);
    return k;
  }
  VL NtD(const VL& k) {
    VL rhs = -Om;
    for (size_t i = 0; i < n; i++)
      if (bi[i] >= 0) rhs(i) += k(bi[i]);
    ML A = L + ML::Constant(n, n, (LD)1 / n);
    VL u = restrictB(A.ldlt().solve(rhs));
    return u - VL::Constant(nB, u.mean());
  }
  double lambdaMin() { // conditioning of the interior problem
    if (!nI) return 1;
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Lii.cast<double>());
    return es.eigenvalues()(0);
  }
};
void checkBoundary(Ctx& c, Disk& D, const VertexData<Vector2>& P, const VL& u, const VL& k, double tol, const std::string& K) {
  // boundary edges of the target lengths and angles, closed by the smallest weighted change of the lengths
  size_t nb = D.loop.size();
  std::vector<C> T(nb);
  std::vector<LD> l(nb), w(nb);
  LD phi = 0;
  Eigen::Matrix<LD, 2, 2> M = Eigen::Matrix<LD, 2, 2>::Zero();
  Eigen::Matrix<LD, 2, 1> s = Eigen::Matrix<LD, 2, 1>::Zero();
  LD total = 0;
  for (size_t i = 0; i < nb; i++) {
    Halfedge h = D.loop[i];
    T[i] = C((double)cosl(phi), (double)sinl(phi));
    w[i] = D.R.len[h.edge().getIndex()];
    l[i] = w[i] * expl((u(D.bi[D.rank(h.tailVertex())]) + u(D.bi[D.rank(h.tipVertex())])) / 2);
    Eigen::Matrix<LD, 2, 1> t(cosl(phi), sinl(phi));
    M += w[i] * t * t.transpose();
    s += l[i] * t;
    total += l[i];
    phi -= k(D.bi[D.rank(h.tipVertex())]); // the loop is traversed clockwise
  }
  Eigen::Matrix<LD, 2, 1> x = M.inverse() * s;
  std::vector<C> want(nb), got(nb);
  C rot(0, 0);
  for (size_t i = 0; i < nb; i++) {
    LD len = l[i] - w[i] * (T[i].real() * x(0) + T[i].imag() * x(1));
    want[i] = (double)len * T[i];
    got[i] = toC(P[D.loop[i].tipVertex()] - P[D.loop[i].tailVertex()]);
    rot += got[i] * std::conj(want[i]);
  }
  rot /= std::abs(rot);
  for (size_t i = 0; i < nb; i++)
    check(std::abs(got[i] - rot * want[i]) <= tol * (double)total, K + "-boundary", "boundary edge ", i, " is ", got[i], " expected (up to a rotation) ", rot * want[i], " ratio ", got[i] / (rot * want[i]), " total length ", (double)total);
  // harmonic inside
  VL X(D.nB), Y(D.nB);
  double ext = 0;
  for (Vertex v : D.m.vertices())
    if (v.isBoundary()) X(D.bi[D.rank(v)]) = P[v].x, Y(D.bi[D.rank(v)]) = P[v].y, ext = std::max(ext, norm(P[v]));
  if (D.nI) {
    VL xi = D.solveI(-D.Lib * X), yi = D.solveI(-D.Lib * Y);
    for (Vertex v : D.m.vertices())
      if (!v.isBoundary()) {
        long i = D.ii[D.rank(v)];
        near(P[v].x, (double)xi(i), tol * ext, K + "-interior", "x of ", v);
        near(P[v].y, (double)yi(i), tol * ext, K + "-interior", "y of ", v);
      }
  }
  c.count("boundary edges", nb);
}
void famBFF(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = diskMesh(c, 40);
  ManifoldSurfaceMesh& m = *g.mesh;
  std::unique_ptr<EdgeLengthGeometry> eg;
  IntrinsicGeometryInterface* geo = g.geom.get();
  Disk D(m, [&](Edge e) { return ldist(g.geom->inputVertexPositions[e.firstVertex()], g.geom->inputVertexPositions[e.secondVertex()]); });
  if (r.coin(0.3)) {
    EdgeData<double> l(m);
    for (Edge e : m.edges()) l[e] = (double)D.R.len[e.getIndex()];
    eg.reset(new EdgeLengthGeometry(m, l));
    geo = eg.get();
  }
  double lam = D.lambdaMin();
  if (lam < 1e-3) throw Skip("interior problem is not well conditioned");
  double tol = 1e-6;
  auto asVec = [&](const VertexData<Vector2>& P) { return P; };
  (void)asVec;
  auto full = [&](const VL& b) { // values inside are ignored
    VertexData<double> d(m);
    for (Vertex v : m.vertices()) d[v] = v.isBoundary() ? (double)b(D.bi[D.rank(v)]) : r.uni(-10, 10);
    return d;
  };
  bool once = r.coin(0.4);
  std::unique_ptr<BFF> bff;
  if (!once) bff.reset(new BFF(m, *geo));
  size_t rounds = once ? 1 : 1 + r.below(3);
  for (size_t q = 0; q < rounds; q++) {
    switch (r.below(4)) {
    case 0: {
      VL u = VL::Zero(D.nB);
      VertexData<Vector2> P = once ? parameterizeBFF(m, *geo) : bff->flatten();
      checkBoundary(c, D, P, u, D.DtN(u), tol, "bff");
      // a planar disk is only moved
      double curv = 0;
      for (size_t i = 0; i < D.n; i++)
        if (D.ii[i] >= 0) curv = std::max(curv, std::abs((double)D.Om(i)));
      if (curv < 1e-12) {
        for (Edge e : m.edges()) near(norm(P[e.firstVertex()] - P[e.secondVertex()]), (double)D.R.len[e.getIndex()], 1e-6 * D.R.lmax * D.nB, "bff-isometric", "length of ", e, " of a planar disk");
        c.count("planar disks");
      }
      c.count("bff flatten");
      break;
    }
    case 1: {
      VL u(D.nB);
      double amp = r.coin(0.2) ? 0 : r.uni(0, 1), mean = r.coin() ? 0 : r.uni(-1, 1);
      for (size_t i = 0; i < D.nB; i++) u(i) = mean + amp * r.uni(-1, 1);
      VertexData<double> ud = full(u);
      VertexData<Vector2> P = once ? parameterizeBFFfromScaleFactors(m, *geo, ud) : bff->flattenFromScaleFactors(ud);
      checkBoundary(c, D, P, u, D.DtN(u), tol, "bff-scale");
      c.count("bff scale factors");
      break;
    }
    case 2: {
      VL k = D.restrictB(D.Om);
      double s = 0, a = r.coin() ? 0 : r.u();
      VL d(D.nB);
      if (r.coin(0.3)) k.setZero(); // something else than the given angles
      for (size_t i = 0; i < D.nB; i++) d(i) = r.u() + 0.1;
      k += a * (d - VL::Constant(D.nB, d.mean()));
      s = (double)k.sum();
      k += VL::Constant(D.nB, (2 * M_PIl - s) / D.nB);
      VL u = D.NtD(k);
      if (u.lpNorm<Eigen::Infinity>() > 4) throw Skip("large scale factors");
      VertexData<double> kd = full(k);
      VertexData<Vector2> P = once ? parameterizeBFFfromExteriorAngles(m, *geo, kd) : bff->flattenFromExteriorAngles(kd);
      checkBoundary(c, D, P, u, k, tol * 10, "bff-angles");
      // wrong totals are rejected
      for (Vertex v : m.vertices())
        if (v.isBoundary()) {
          kd[v] += r.coin() ? 0.01 : -2;
          break;
        }
      throws([&] { once ? parameterizeBFFfromExteriorAngles(m, *geo, kd) : bff->flattenFromExteriorAngles(kd); }, "bff-reject-angles", "angles which do not sum to 2 pi");
      c.count("bff exterior angles");
      break;
    }
    case 3: { // the two maps between boundary data, which are inverse to each other
      if (once) break;
      VL u(D.nB);
      for (size_t i = 0; i < D.nB; i++) u(i) = r.uni(-1, 1);
      Vector<double> ud = u.cast<double>();
      Vector<double> k = bff->dirichletToNeumann(ud);
      VL kr = D.DtN(u);
      double sc = 1 + (double)kr.lpNorm<Eigen::Infinity>();
      near(k.sum(), 2 * PI, 1e-6 * sc * D.nB, "bff-gauss-bonnet", "exterior angles of the flat disk");
      for (size_t i = 0; i < D.nB; i++) near(k(i), (double)kr(i), 1e-7 * sc / std::min(1., lam), "bff-dtn", "exterior angle ", i);
      Vector<double> back = bff->neumannToDirichlet(k);
      double mean = ud.mean();
      for (size_t i = 0; i < D.nB; i++) near(back(i), ud(i) - mean, 1e-5 * sc / std::min(1., lam), "bff-inverse", "scale factor ", i);
      c.count("bff boundary maps");
    }
    }
  }
}
// smooth conformal maps of the plane are reproduced
void famConformal(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 12 + r.below(8);
  Soup s = grid(n, n, true);
  std::vector<C> z, w, df;
  C a(r.uni(-.4, .4), r.uni(-.4, .4)), b(r.uni(-1, 1), r.uni(-1, 1));
  bool ex = r.coin();
  C lo(1e300, 1e300), hi(-1e300, -1e300);
  for (auto& p : s.pos) lo = C(std::min(lo.real(), p.x), std::min(lo.imag(), p.y)), hi = C(std::max(hi.real(), p.x), std::max(hi.imag(), p.y));
  for (auto& p : s.pos) {
    C q((p.x - lo.real()) / (hi.real() - lo.real()) - .5, (p.y - lo.imag()) / (hi.imag() - lo.imag()) - .5);
    z.push_back(q);
    p = {q.real(), q.imag(), 0};
    w.push_back(ex ? (std::abs(b) < 1e-3 ? q : std::exp(b * q) / b) : q + a * q * q);
    df.push_back(ex ? std::exp(b * q) : 1. + 2. * a * q);
  }
  c.sig(hashD(a.real()) ^ hashD(b.real()));
  c.note = str("grid ", n, ex ? " exp " : " square ", a, b);
  ManifoldSurfaceMesh m(s.polys);
  VertexPositionGeometry geom(m, positions(m, s));
  VertexData<double> u(m), k(m, 0.);
  for (size_t i = 0; i < z.size(); i++) u[m.vertex(i)] = std::log(std::abs(df[i]));
  double ks = 0;
  for (BoundaryLoop bl : m.boundaryLoops())
    for (Halfedge h : bl.adjacentHalfedges()) {
      C e = w[h.tipVertex().getIndex()] - w[h.tailVertex().getIndex()], f = w[h.next().tipVertex().getIndex()] - w[h.tipVertex().getIndex()];
      k[h.tipVertex()] = -std::arg(f / e);
      ks += k[h.tipVertex()];
    }
  near(ks, 2 * PI, 1e-9, "setup", "turning");
  bool angles = r.coin();
  VertexData<Vector2> P = angles ? parameterizeBFFfromExteriorAngles(m, geom, k) : parameterizeBFFfromScaleFactors(m, geom, u);
  // best similarity (angles) or rigid motion (scale factors)
  C mw(0, 0), mp(0, 0), x(0, 0);
  double nw = 0;
  for (size_t i = 0; i < w.size(); i++) mw += w[i], mp += toC(P[m.vertex(i)]);
  mw /= w.size(), mp /= w.size();
  for (size_t i = 0; i < w.size(); i++) x += (toC(P[m.vertex(i)]) - mp) * std::conj(w[i] - mw), nw += std::norm(w[i] - mw);
  if (angles) x /= nw;
  else x /= std::abs(x);
  double ext = std::sqrt(nw / w.size());
  for (size_t i = 0; i < w.size(); i++)
    near(std::abs(toC(P[m.vertex(i)]) - mp - x * (w[i] - mw)) / std::abs(x), 0, 0.08 * ext, angles ? "conformal-angles" : "conformal-scale", "vertex ", i, " misses the conformal map, extent ", ext);
  c.count(angles ? "conformal by angles" : "conformal by scale factors");
}
// ------------------------------------------------------------------------------------------------ uniformization
// invariants of a discrete conformal class on a fixed triangulation
double crossRatio(Edge e, const EdgeData<double>& l) {
  Halfedge h = e.halfedge(), t = h.twin();
  return std::log(l[h.next().edge()]) + std::log(l[t.next().edge()]) - std::log(l[h.next().next().edge()]) - std::log(l[t.next().next().edge()]);
}
bool trianglesOk(ManifoldSurfaceMesh& m, const EdgeData<double>& l, double slack) {
  for (Face f : m.faces()) {
    double a = l[f.halfedge().edge()], b = l[f.halfedge().next().edge()], d = l[f.halfedge().next().next().edge()];
    if (!(std::min(a + b - d, std::min(b + d - a, d + a - b)) > slack * std::max(a, std::max(b, d)))) return false;
  }
  return true;
}
std::vector<std::array<size_t, 3>> halfedgeTable(ManifoldSurfaceMesh& m) {
  std::vector<std::array<size_t, 3>> t;
  for (Halfedge h : m.halfedges()) t.push_back({{h.getIndex(), h.next().getIndex(), h.vertex().getIndex()}});
  return t;
}
void famUniform(Ctx& c) {
  Rng& r = c.rng;
  GeoMesh g = diskMesh(c, 15);
  ManifoldSurfaceMesh& m = *g.mesh;
  double curv = 0;
  EdgeData<double> l0(m);
  for (Edge e : m.edges()) l0[e] = norm(g.geom->inputVertexPositions[e.firstVertex()] - g.geom->inputVertexPositions[e.secondVertex()]);
  std::unique_ptr<ManifoldSurfaceMesh> mc = m.copy();
  EdgeData<double> lc = l0.reinterpretTo(*mc);
  bool flips = r.coin(0.6);
  if (r.coin(0.3)) { // curvature far from that of an embedding
    for (Edge e : mc->edges()) lc[e] *= std::exp(r.uni(-.15, .15));
    if (!trianglesOk(*mc, lc, 0.05)) throw Skip("no metric");
  }
  std::unique_ptr<ManifoldSurfaceMesh> ref = mc->copy();
  EdgeData<double> lr = lc.reinterpretTo(*ref);
  if (flips) flipToDelaunay(*ref, lr, FlipType::Hyperbolic);
  double k0 = 0;
  {
    std::map<size_t, double> a0;
    for (Face f : ref->faces())
      for (Halfedge h : f.adjacentHalfedges()) a0[h.tailVertex().getIndex()] += (double)triAngle(lr[h.next().edge()], lr[h.edge()], lr[h.next().next().edge()]);
    for (Vertex v : ref->vertices())
      if (!v.isBoundary()) k0 = std::max(k0, std::abs(2 * PI - a0[v.getIndex()]));
  }
  EdgeLengthGeometry eg(*mc, lc);
  EdgeData<double> l;
  double far = flips ? 0.25 : 0.15; // Newton's method is not globalized
  auto before = halfedgeTable(*mc);
  {
    Quiet q;
    try {
      l = uniformizeDisk(*mc, eg, flips);
    } catch (std::logic_error& e) { // checkFinite()
      check(k0 > far, "uniform-exception", e.what(), " initial curvature ", k0);
      throw Skip("diverged");
    }
  }
  fullCheck(*mc, "uniform", &c);
  for (Edge e : mc->edges()) {
    if (!std::isfinite(l[e])) {
      check(k0 > far, "uniform-finite", "length of ", e, " initial curvature ", k0);
      throw Skip("diverged");
    }
    if (e.isBoundary()) near(l[e], lc[e], 1e-9 * lc[e], "uniform-boundary", "length of the boundary ", e);
    check(l[e] > 0, "uniform-positive", e);
  }
  if (!flips) check(halfedgeTable(*mc) == before, "uniform-flipped", "connectivity changed without flips");
  // the metric is discretely conformally equivalent
  bool same = halfedgeTable(*mc) == halfedgeTable(*ref);
  if (same) {
    double worst = 0;
    for (Edge e : mc->edges())
      if (!e.isBoundary()) {
        double w = std::abs(crossRatio(e, l) - crossRatio(ref->edge(e.getIndex()), lr));
        worst = std::max(worst, w);
        check(w <= 1e-8, "uniform-conformal", "length cross ratio of ", e, " changed by a factor ", std::exp(w));
      }
    c.count("conformal classes compared");
  }
  if (!trianglesOk(*mc, l, 1e-3)) throw Skip("degenerate triangles at the boundary");
  // flat (if Newton's method converged)
  std::map<size_t, double> ang;
  for (Face f : mc->faces())
    for (Halfedge h : f.adjacentHalfedges()) ang[h.tailVertex().getIndex()] += (double)triAngle(l[h.next().edge()], l[h.edge()], l[h.next().next().edge()]);
  for (Vertex v : mc->vertices())
    if (!v.isBoundary()) curv = std::max(curv, std::abs(2 * PI - ang[v.getIndex()]));
  if (!(curv <= 1e-7)) {
    check(k0 > far, "uniform-flat", "curvature ", curv, " remains, initially ", k0);
    c.count("uniformization did not converge");
    throw Skip("did not converge");
  }
  c.count(flips ? "uniformized with flips" : "uniformized");
  if (flips)
    for (Edge e : mc->edges()) { // ideal Delaunay
      if (e.isBoundary()) continue;
      double s = 0;
      for (Halfedge h : {e.halfedge(), e.halfedge().twin()}) {
        double A = l[e], B = l[h.next().edge()], D = l[h.next().next().edge()];
        s += (B * B + D * D - A * A) / (A * B * D);
      }
      check(s * l[e] > -1e-5, "uniform-delaunay", e, " is not Delaunay: ", s);
    }
  // the parameterization lays this metric out
  if (flips) {
    std::unique_ptr<ManifoldSurfaceMesh> mo = ref->copy();
    (void)mo;
    std::unique_ptr<ManifoldSurfaceMesh> m2 = m.copy();
    EdgeData<double> l2 = lc.reinterpretTo(*m2);
    EdgeLengthGeometry eg2(*m2, l2);
    VertexData<Vector2> P;
    auto t2 = halfedgeTable(*m2);
    {
      Quiet q;
      P = parameterizeDisk(*m2, eg2);
    }
    check(halfedgeTable(*m2) == t2, "param-modified", "the input mesh was modified");
    double total = 0;
    for (Edge e : mc->edges()) total += l[e];
    for (Face f : mc->faces()) {
      Vector2 p[3];
      size_t i = 0;
      for (Halfedge h : f.adjacentHalfedges()) {
        p[i++] = P[m2->vertex(h.tailVertex().getIndex())];
        near(norm(P[m2->vertex(h.tailVertex().getIndex())] - P[m2->vertex(h.tipVertex().getIndex())]), l[h.edge()], 1e-5 * total, "param-length", "length of ", h.edge());
      }
      check(cross(p[1] - p[0], p[2] - p[0]) > 0, "param-orientation", f, " is inverted");
    }
    c.count("parameterized");
  }
}
// ------------------------------------------------------------------------------------------------ topology
void famReject(Ctx& c) {
  GeoOpts o;
  o.maxQ = 100;
  o.maxScramble = 8;
  GeoMesh g;
  if (c.rng.coin(0.2)) { // a disk beside a torus has the Euler characteristic of a disk
    g.soup = mergeSoups(torus(4 + c.rng.below(4), 3 + c.rng.below(3), true), grid(1 + c.rng.below(3), 1 + c.rng.below(3), true), Vector3{9, 9, 9});
    permuteSoup(g.soup, c.rng);
    c.sig(hashPolys(g.soup.polys));
    c.note = "torus and disk";
    g.mesh.reset(new ManifoldSurfaceMesh(g.soup.polys));
    g.geom.reset(new VertexPositionGeometry(*g.mesh, positions(*g.mesh, g.soup)));
  } else g = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *g.mesh;
  if (isDisk(m)) throw Skip("a disk");
  throws([&] { BFF b(m, *g.geom); }, "bff-topology", "not a disk: components ", components(m), " loops ", loops(m));
  long long chi = (long long)m.nVertices() - (long long)m.nEdges() + (long long)m.nFaces() + (long long)loops(m);
  if (components(m) > 1 || loops(m) == 0 || chi != 2) {
    Quiet q;
    throws([&] { parameterizeDisk(m, *g.geom); }, "param-topology", "not a disk: components ", components(m), " loops ", loops(m), " chi ", chi);
    std::unique_ptr<ManifoldSurfaceMesh> m2 = m.copy();
    std::unique_ptr<VertexPositionGeometry> g2 = g.geom->reinterpretTo(*m2);
    throws([&] { uniformizeDisk(*m2, *g2, true); }, "uniform-topology", "not a disk: components ", components(m), " loops ", loops(m), " chi ", chi);
  }
  c.count("topologies rejected");
}
// ------------------------------------------------------------------------------------------------ convex embedding
void famEmbed(Ctx& c) {
  Rng& r = c.rng;
  // a convex polyhedron
  size_t n = 4 + r.below(14);
  std::vector<Vector3> p;
  Vector3 ax{r.uni(.5, 1.5), r.uni(.5, 1.5), r.uni(.5, 1.5)};
  double minD = 1.2 / std::sqrt((double)n);
  for (int t = 0; t < 2000 && p.size() < n; t++) {
    Vector3 q = unit(randUnit(r));
    bool far = true;
    for (auto& x : p) far = far && norm(q - Vector3{x.x / ax.x, x.y / ax.y, x.z / ax.z}) > minD;
    if (far) p.push_back({q.x * ax.x, q.y * ax.y, q.z * ax.z});
  }
  n = p.size();
  if (n < 4) throw Skip("points");
  Polys T;
  for (size_t i = 0; i < n; i++)
    for (size_t j = i + 1; j < n; j++)
      for (size_t k = j + 1; k < n; k++) {
        int pos = 0, neg = 0;
        Vector3 N = cross(p[j] - p[i], p[k] - p[i]);
        for (size_t l = 0; l < n; l++) {
          if (l == i || l == j || l == k) continue;
          double d = dot(p[l] - p[i], N);
          (d > 0 ? pos : neg)++;
        }
        if (!pos) T.push_back({i, j, k});
        else if (!neg) T.push_back({i, k, j});
      }
  if (T.size() != 2 * n - 4) throw Skip("hull");
  for (auto& f : T) std::rotate(f.begin(), f.begin() + r.below(3), f.end());
  for (size_t i = T.size(); i > 1; i--) std::swap(T[i - 1], T[r.below(i)]);
  double scale = std::pow(10., r.uni(-3, 3));
  for (auto& x : p) x *= scale;
  ManifoldSurfaceMesh m(T);
  VertexData<Vector3> P(m);
  {
    size_t i = 0;
    for (Vertex v : m.vertices()) P[v] = p[i++];
  }
  for (auto& x : p) c.sig(hashD(x.x));
  c.note = str("polyhedron V", n, " scale ", scale, " index holes ", m.nVerticesCapacity() != m.nVertices());
  EdgeData<double> l(m);
  for (Edge e : m.edges()) l[e] = norm(P[e.firstVertex()] - P[e.secondVertex()]);
  for (Edge e : m.edges()) { // positions change like the root of the bending of an edge which is not flipped
    Vector3 a = P[e.firstVertex()], b = P[e.secondVertex()], x = P[e.halfedge().next().tipVertex()], y = P[e.halfedge().twin().next().tipVertex()];
    Vector3 n1 = unit(cross(b - a, x - a)), n2 = unit(cross(y - a, b - a));
    double t = std::acos(std::max(-1., std::min(1., dot(n1, n2))));
    if (t < 0.05 || t > 3.05) throw Skip("edge nearly flat or folded");
  }
  // another triangulation of the same metric
  size_t flips = r.coin() ? 0 : r.below(2 * n), did = 0;
  for (size_t t = 0; t < flips; t++) {
    std::vector<Edge> E;
    for (Edge e : m.edges()) E.push_back(e);
    Edge e = r.pick(E);
    Halfedge h = e.halfedge(), k = h.twin();
    Vertex a = h.next().tipVertex(), b = k.next().tipVertex();
    bool ok = a != b && h.tailVertex().degree() > 3 && h.tipVertex().degree() > 3;
    for (Vertex x : a.adjacentVertices()) ok = ok && x != b;
    if (!ok) continue;
    LD L = l[e];
    LD a1 = triAngle(l[h.next().edge()], L, l[h.next().next().edge()]), a2 = triAngle(l[k.next().next().edge()], L, l[k.next().edge()]); // at the tail
    LD b1 = triAngle(l[h.next().next().edge()], L, l[h.next().edge()]), b2 = triAngle(l[k.next().edge()], L, l[k.next().next().edge()]);
    if (a1 + a2 > 2.9 || b1 + b2 > 2.9) continue;
    LD x = l[h.next().next().edge()], y = l[k.next().edge()];
    LD nl = sqrtl(x * x + y * y - 2 * x * y * cosl(a1 + a2));
    if (m.flip(e, false)) l[e] = (double)nl, did++;
  }
  if (!trianglesOk(m, l, 1e-2)) throw Skip("needles");
  {
    Ref R(m, [&](Edge e) { return (LD)l[e]; });
    for (Vertex v : m.vertices())
      if (2 * PI - (double)R.angSum[v.getIndex()] < 0.15) throw Skip("nearly flat vertex"); // positions change like the root of the curvature
  }
  EmbedConvexOptions o;
  if (r.coin()) o.embeddingTolerance = 1e-5, o.newtonTolerance = 1e-7, o.maxSteps = 40;
  EmbedConvexResult res;
  int how = did ? r.below(2) : r.below(3);
  {
    Quiet q;
    if (how == 0) res = embedConvex(m, l, o);
    if (how == 1) {
      CornerData<Vector2> uv(m);
      for (Face f : m.faces()) {
        double t = r.uni(-3, 3), sh = r.uni(-1, 1) * scale;
        Halfedge h = f.halfedge();
        C d = std::polar(1., t), o2(sh, -sh), e2 = std::polar(1., t + (double)triAngle(l[h.next().edge()], l[h.edge()], l[h.next().next().edge()]));
        C q0 = o2, q1 = o2 + d * l[h.edge()], q2 = o2 + e2 * l[h.next().next().edge()];
        uv[h.corner()] = {q0.real(), q0.imag()};
        uv[h.next().corner()] = {q1.real(), q1.imag()};
        uv[h.next().next().corner()] = {q2.real(), q2.imag()};
      }
      res = embedConvex(m, uv, o);
    }
    if (how == 2) {
      VertexPositionGeometry g(m, P);
      res = embedConvex(m, g, o);
    }
  }
  if (!res.mesh) {
    c.count("convex: not initialized");
    fail("embed-init", "convex polyhedron rejected");
  }
  fullCheck(*res.mesh, "embed", &c);
  check(res.mesh->nVertices() == n && (long long)res.mesh->nVertices() - (long long)res.mesh->nEdges() + (long long)res.mesh->nFaces() == 2, "embed-mesh", "not a sphere with the given vertices");
  std::vector<Vector3> x;
  for (Vertex v : res.mesh->vertices()) x.push_back(res.geometry->inputVertexPositions[v]);
  double vol = 0, vol0 = 0;
  for (auto& q : x) check(std::isfinite(q.x + q.y + q.z), "embed-finite", "position ", q);
  if (!res.success) {
    c.count("convex: no success");
    return;
  }
  for (Face f : res.mesh->faces()) {
    Vector3 q[3];
    size_t i = 0;
    for (Vertex v : f.adjacentVertices()) q[i++] = res.geometry->inputVertexPositions[v];
    vol += dot(q[0], cross(q[1], q[2])) / 6;
  }
  for (auto& f : T) vol0 += dot(p[f[0]], cross(p[f[1]], p[f[2]])) / 6;
  double err = 0;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < i; j++) err = std::max(err, std::abs(norm(x[i] - x[j]) - norm(p[i] - p[j])));
  double tol = (o.embeddingTolerance < 1e-4 ? 1e-2 : 1e-1) * scale;
  // Alexandrov: a convex metric determines the polyhedron
  check(err <= tol, "embed-congruent", "distances between vertices differ by ", err, " scale ", scale, " tolerance ", o.embeddingTolerance, " success ", res.success);
  check(std::abs(std::abs(vol) - std::abs(vol0)) < 10 * tol * scale * scale, "embed-volume", "volume ", vol, " expected ", vol0);
  c.count(vol * vol0 > 0 ? "convex: embedded, same orientation" : "convex: embedded, mirrored");
  if (did) c.count("convex: other triangulation");
}
void famEmbedReject(Ctx& c) {
  GeoOpts o;
  o.maxQ = 60;
  o.maxScramble = 8;
  o.tri = c.rng.coin(0.8);
  o.indexHoles = false; // (rejected by the intrinsic triangulation)
  GeoMesh g = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *g.mesh;
  bool convex = true;
  if (m.isTriangular()) {
    Ref R(m, [&](Edge e) { return ldist(g.geom->inputVertexPositions[e.firstVertex()], g.geom->inputVertexPositions[e.secondVertex()]); });
    for (Vertex v : m.vertices()) {
      double d = 2 * PI - (double)R.angSum[v.getIndex()];
      if (std::abs(d) < 1e-4) throw Skip("flat vertex");
      convex = convex && d > 0;
    }
  }
  bool sphere = loops(m) == 0 && components(m) == 1 && (long long)m.nVertices() - (long long)m.nEdges() + (long long)m.nFaces() == 2;
  if (components(m) > 1 && loops(m) == 0) throw Skip("several components");
  Quiet q;
  EmbedConvexResult res;
  try {
    res = embedConvex(m, *g.geom);
  } catch (std::runtime_error& e) { // (polygon meshes are already rejected by the intrinsic triangulation)
    if (m.isTriangular()) throw;
    check(std::string(e.what()).find("triangle mesh") != std::string::npos, "embed-reject", e.what());
    c.count("convex: rejected");
    return;
  }
  if (!m.isTriangular() || !sphere || !convex) {
    check(!res.success && !res.mesh && !res.geometry, "embed-reject", "triangular ", m.isTriangular(), " sphere ", sphere, " convex ", convex, " was accepted");
    c.count("convex: rejected");
  } else {
    check(!!res.mesh, "embed-init", "a convex metric was rejected");
    c.count("convex: accepted");
    if (res.success) c.count("convex: accepted and embedded");
  }
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("bff", 4, famBFF);
  S.add("conformal", 1, famConformal);
  S.add("uniform", 2, famUniform);
  S.add("reject", 1, famReject);
  S.add("embed", 2, famEmbed);
  S.add("embedreject", 1, famEmbedReject);
  return run(S, argc, argv);
}
