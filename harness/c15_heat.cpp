// C15: heat-based solvers against an independent dense assembly of their definitions.
#include "intri.h"
#include "refgeom.h"
#include "geometrycentral/surface/barycentric_vector.h"
#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/polygon_mesh_heat_solver.h"
#include "geometrycentral/surface/signed_heat_method.h"
#include "geometrycentral/surface/simple_idt.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/surface/vector_heat_method.h"
#include "vf.h"
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace vf;

namespace {
typedef std::complex<LD> CL;
typedef Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic> ML;
typedef Eigen::Matrix<LD, Eigen::Dynamic, 1> VL;
typedef Eigen::Matrix<CL, Eigen::Dynamic, Eigen::Dynamic> MCL;
typedef Eigen::Matrix<CL, Eigen::Dynamic, 1> VCL;

size_t components(SurfaceMesh& m, std::map<size_t, size_t>& comp) {
  std::map<size_t, std::vector<size_t>> adj;
  for (Face f : m.faces())
    for (Halfedge h : f.adjacentHalfedges()) {
      adj[h.tailVertex().getIndex()].push_back(h.tipVertex().getIndex());
      adj[h.tipVertex().getIndex()].push_back(h.tailVertex().getIndex());
    }
  size_t n = 0;
  for (Vertex v : m.vertices()) {
    if (comp.count(v.getIndex())) continue;
    std::vector<size_t> st{v.getIndex()};
    comp[v.getIndex()] = n;
    while (!st.empty()) {
      size_t a = st.back();
      st.pop_back();
      for (size_t b : adj[a])
        if (!comp.count(b)) {
          comp[b] = n;
          st.push_back(b);
        }
    }
    n++;
  }
  return n;
}
// perturbation used to measure how far rounding may move a result
template <class M> M shake(const M& A, double eps, uint64_t seed) {
  if (eps == 0) return A;
  M B = A;
  Rng r(seed);
  for (long i = 0; i < A.rows(); i++)
    for (long j = 0; j <= i; j++) {
      LD d = eps * (LD)r.uni(-1, 1) * sqrtl(std::abs(A(i, i)) * std::abs(A(j, j)));
      B(i, j) += d;
      if (i != j) B(j, i) += d;
    }
  return B;
}
template <class M, class V> V solveDense(const M& A, const V& b, double eps, uint64_t seed) {
  M B = shake(A, eps, seed);
  V x = B.partialPivLu().solve(b);
  return x;
}
// L x = b with L singular (constants): the solution of zero mean
VL poisson(const ML& L, const VL& b) {
  ML A = L;
  LD s = L.diagonal().cwiseAbs().mean() / L.rows();
  if (!(s > 0)) s = 1;
  A += ML::Constant(L.rows(), L.cols(), s);
  VL bb = b;
  bb.array() -= b.mean();
  return A.partialPivLu().solve(bb);
}
// ---- reference operators of a triangle mesh
struct Ops {
  Ref R;
  SurfaceMesh& m;
  ML M, L;
  MCL K;
  size_t n;
  LD h = 0;
  std::map<size_t, LD> w; // edge cotan weight
  template <class F> Ops(SurfaceMesh& m_, F len, bool conn) : R(m_, len), m(m_) {
    n = m.nVertices();
    M = ML::Zero(n, n);
    L = ML::Zero(n, n);
    for (Vertex v : m.vertices()) M(id(v), id(v)) = R.dual[v.getIndex()];
    for (Face f : m.faces())
      for (Halfedge g : f.adjacentHalfedges()) {
        LD x = R.cot[g.getIndex()] / 2;
        w[g.edge().getIndex()] += x;
        size_t i = id(g.tailVertex()), j = id(g.tipVertex());
        L(i, i) += x;
        L(j, j) += x;
        L(i, j) -= x;
        L(j, i) -= x;
      }
    for (Edge e : m.edges()) h += R.len[e.getIndex()];
    h /= m.nEdges();
    if (!conn) return;
    K = MCL::Zero(n, n);
    for (Halfedge g : m.halfedges()) {
      size_t i = id(g.tailVertex()), j = id(g.tipVertex());
      LD x = w[g.edge().getIndex()];
      K(i, i) += x;
      K(i, j) -= x * rot(g);
    }
  }
  size_t id(Vertex v) { return R.rv.at(v.getIndex()); }
  CL vec(Halfedge g) { return CL(R.inVert[g.getIndex()].real(), R.inVert[g.getIndex()].imag()); }
  CL rot(Halfedge g) { // tip -> tail
    CL r = -vec(g) / vec(g.twin());
    return r / std::abs(r);
  }
  MCL Mc() { return M.cast<CL>(); }
};
void corners(const SurfacePoint& p, std::vector<std::pair<Vertex, double>>& o) {
  o.clear();
  switch (p.type) {
  case SurfacePointType::Vertex: o.push_back({p.vertex, 1.}); break;
  case SurfacePointType::Edge:
    o.push_back({p.edge.firstVertex(), 1 - p.tEdge});
    o.push_back({p.edge.secondVertex(), p.tEdge});
    break;
  case SurfacePointType::Face: {
    int i = 0;
    for (Vertex v : p.face.adjacentVertices()) o.push_back({v, p.faceCoords[i++]});
  }
  }
}
// plane layout of a face: its corners from f.halfedge()
std::array<CL, 3> layout(Ref& R, Face f) {
  Halfedge h = f.halfedge();
  CL a = 0, b = a + CL(R.inFace[h.getIndex()].real(), R.inFace[h.getIndex()].imag());
  h = h.next();
  return {{a, b, b + CL(R.inFace[h.getIndex()].real(), R.inFace[h.getIndex()].imag())}};
}
double scaleOf(const VL& a) { return a.size() ? (double)a.cwiseAbs().maxCoeff() : 0; }
double scaleOf(const VCL& a) { return a.size() ? (double)a.cwiseAbs().maxCoeff() : 0; }

// runs the reference with and without a perturbation; the difference bounds what rounding may do
template <class V, class F> V measured(Ctx& c, F f, double& tol, const char* what) {
  V x = f(0., 0), d = V::Zero(x.size());
  double diff = 0;
  for (uint64_t s = 1; s <= 2; s++) {
    V y = f(1e-13, c.rng.below(1u << 30) + s);
    diff = std::max(diff, scaleOf(V(y - x)));
  }
  double sc = scaleOf(x);
  tol = 30 * diff + 1e-8 * sc;
  if (!(tol < 2e-3 * sc) && sc > 0) {
    c.count(std::string("ill-conditioned ") + what);
    throw Skip("ill-conditioned");
  }
  return x;
}

// ---- heat method on a triangle mesh (right hand side given), before the shift
VL heatDist(Ops& O, LD t, const VL& rhs, double eps, uint64_t seed) {
  VL u = solveDense(ML(O.M + t * O.L), rhs, eps, seed);
  VL div = VL::Zero(O.n);
  for (Face f : O.m.faces()) {
    auto P = layout(O.R, f);
    size_t v[3];
    LD g[3];
    CL grad = 0;
    LD sum = 0;
    for (int i = 0; i < 3; i++) {
      v[i] = O.id(heOf(f, i).vertex());
      g[i] = u[v[i]];
      sum += fabsl(g[i]);
    }
    for (int i = 0; i < 3; i++) grad += CL(0, 1) * (P[(i + 2) % 3] - P[(i + 1) % 3]) * (g[i]); // gradient up to a factor
    LD a = std::abs(grad);
    if (!(a > 0)) continue;
    CL X = -grad / a;
    for (int i = 0; i < 3; i++) {
      LD x = O.R.cot[heOf(f, i).getIndex()] / 2;
      CL e = P[(i + 1) % 3] - P[i];
      LD d = x * (e.real() * X.real() + e.imag() * X.imag());
      // L phi = -div X : L phi = sum_j w (phi_i - phi_j) = -sum_j w <e_ij, X>
      div[v[i]] -= d;
      div[v[(i + 1) % 3]] += d;
    }
  }
  return solveDense(ML(O.L + 1e-6L * ML::Identity(O.n, O.n)), div, 0, 0);
}
struct Mesh {
  std::unique_ptr<SurfaceMesh> mesh;
  std::unique_ptr<VertexPositionGeometry> pos;
  std::unique_ptr<EdgeLengthGeometry> lg;
  EdgeData<double> len;
  double q = 1;
  IntrinsicGeometryInterface& g() { return lg ? (IntrinsicGeometryInterface&)*lg : (IntrinsicGeometryInterface&)*pos; }
};
Mesh makeTri(Ctx& c, bool general, size_t maxV, bool connected, double maxQ = 15, double pLen = 0.3) {
  Rng& r = c.rng;
  for (int k = 0; k < 60; k++) {
    Mesh w;
    if (!general) {
      GeoOpts o;
      o.maxQ = maxQ;
      o.multi = !connected;
      o.logScale = r.coin() ? 0 : 2;
      o.flat = r.coin(0.15);
      GeoMesh g = geoMesh(c, o);
      w.mesh = std::move(g.mesh);
      w.pos = std::move(g.geom);
    } else {
      Soup s = randomSoup(r);
      triangulateSoup(s);
      jitter(s, r, 0.03);
      if (!(worstQuality(s) < maxQ)) continue;
      w.mesh.reset(new SurfaceMesh(s.polys));
      w.pos.reset(new VertexPositionGeometry(*w.mesh, positions(*w.mesh, s)));
      c.sig(hashPolys(s.polys));
      c.note = s.desc + " " + showPolys(s.polys);
    }
    SurfaceMesh& m = *w.mesh;
    if (m.nVertices() > maxV || m.nVertices() < 3) continue;
    std::map<size_t, size_t> cm;
    if (connected && components(m, cm) != 1) continue;
    w.len = EdgeData<double>(m);
    for (Edge e : m.edges()) w.len[e] = norm(w.pos->vertexPositions[e.firstVertex()] - w.pos->vertexPositions[e.secondVertex()]);
    if (r.coin(pLen)) {
      EdgeData<double> l(m);
      double amt = r.uni(0.02, 0.25);
      for (Edge e : m.edges()) l[e] = w.len[e] * r.uni(1 - amt, 1 + amt);
      bool ok = true;
      for (Face f : m.faces()) ok = ok && faceQuality(l, f) < maxQ;
      if (!ok) continue;
      w.len = l;
      w.lg.reset(new EdgeLengthGeometry(m, l));
    }
    for (Face f : m.faces()) w.q = std::max(w.q, faceQuality(w.len, f));
    return w;
  }
  throw Skip("no mesh");
}
double randT(Rng& r) { return r.coin() ? 1. : std::pow(10., r.uni(-0.5, 1.5)); }
std::string show(const SurfacePoint& p) {
  std::ostringstream o;
  o << p;
  return o.str();
}
std::vector<SurfacePoint> randSources(Rng& r, SurfaceMesh& m, size_t n) {
  std::vector<SurfacePoint> S;
  for (size_t i = 0; i < n; i++) S.push_back(randPoint(r, m, r.coin() ? 0 : -1));
  return S;
}
VL sourceVec(Ops& O, const std::vector<SurfacePoint>& S, const std::vector<double>& val) {
  VL b = VL::Zero(O.n);
  std::vector<std::pair<Vertex, double>> cs;
  for (size_t i = 0; i < S.size(); i++) {
    corners(S[i], cs);
    for (auto& x : cs) b[O.id(x.first)] += (LD)x.second * val[i];
  }
  return b;
}
// geometry is managed by its user between queries
void disturb(Ctx& c, IntrinsicGeometryInterface& g) {
  if (c.rng.coin(0.25)) {
    g.purgeQuantities();
    c.count("purges between queries");
  }
}
LD baryDist(Ref& R, Face f, Vector3 a, Vector3 b) {
  auto P = layout(R, f);
  CL d = 0;
  for (int i = 0; i < 3; i++) d += (LD)(b[i] - a[i]) * P[i];
  return std::abs(d);
}

// ============ scalar heat method
void scalarCase(Ctx& c, bool general) {
  Rng& r = c.rng;
  Mesh w = makeTri(c, general, c.thorough ? 90 : 60, false);
  SurfaceMesh& m = *w.mesh;
  Ops O(m, [&](Edge e) { return w.len[e]; }, false);
  double tc = randT(r);
  LD t = tc * O.h * O.h;
  std::map<size_t, size_t> comp;
  components(m, comp);
  HeatMethodDistanceSolver S(w.g(), tc);
  std::vector<std::pair<std::vector<SurfacePoint>, VertexData<double>>> done;
  size_t nq = 1 + r.below(3);
  for (size_t k = 0; k < nq; k++) {
    std::vector<SurfacePoint> src = randSources(r, m, r.coin(0.6) ? 1 : 1 + r.below(3));
    VertexData<double> d;
    bool allV = true;
    for (auto& p : src) allV = allV && p.type == SurfacePointType::Vertex;
    disturb(c, w.g());
    int how = r.below(4);
    if (src.size() == 1 && allV && how == 0) d = S.computeDistance(src[0].vertex);
    else if (src.size() == 1 && how <= 1) d = S.computeDistance(src[0]);
    else if (allV && how <= 2) {
      std::vector<Vertex> vs;
      for (auto& p : src) vs.push_back(p.vertex);
      d = S.computeDistance(vs);
    } else d = S.computeDistance(src);
    if (src.size() == 1 && allV && tc == 1 && r.coin()) {
      VertexData<double> d2 = heatMethodDistance(w.g(), src[0].vertex);
      for (Vertex v : m.vertices()) near(d2[v], d[v], 0, "one-off", v);
    }
    double tol;
    bool unreached = false;
    // heat does not reach the other components: their values are meaningless
    std::set<size_t> reached;
    for (auto& p : src)
      for (Face f : facesOf(p)) reached.insert(comp[f.halfedge().vertex().getIndex()]);
    VL rhs = sourceVec(O, src, std::vector<double>(src.size(), 1.));
    auto ref = [&](double eps, uint64_t seed) {
      VL x = heatDist(O, t, rhs, eps, seed);
      LD diff = 0, ws = 0;
      std::vector<std::pair<Vertex, double>> cs;
      for (auto& p : src) {
        corners(p, cs);
        Face f = p.type == SurfacePointType::Face ? p.face : (p.type == SurfacePointType::Edge ? p.edge.halfedge().face() : Face());
        for (auto& y : cs) {
          LD ex = 0;
          if (p.type == SurfacePointType::Edge) ex = (LD)w.len[p.edge] * (y.first == p.edge.firstVertex() ? p.tEdge : 1 - p.tEdge);
          if (p.type == SurfacePointType::Face) {
            int i = 0;
            for (Vertex v : f.adjacentVertices()) {
              if (v == y.first) break;
              i++;
            }
            Vector3 b = Vector3::zero();
            b[i] = 1;
            ex = baryDist(O.R, f, p.faceCoords, b);
          }
          diff += y.second * (x[O.id(y.first)] - ex);
          ws += y.second;
        }
      }
      x.array() -= diff / ws;
      for (Vertex v : m.vertices())
        if (!reached.count(comp[v.getIndex()])) {
          x[O.id(v)] = 0;
          unreached = true;
        }
      return x;
    };
    VL x = measured<VL>(c, ref, tol, "distance");
    tol += 1e-7 * (double)O.h; // edge lengths near degenerate points of faces
    for (Vertex v : m.vertices()) {
      if (reached.count(comp[v.getIndex()])) near(d[v], (double)x[O.id(v)], tol, general ? "general-distance" : "distance", v, " from ", show(src[0]), " of ", src.size());
      else check(vf::finite(d[v]), "unreached-nonfinite", v);
    }
    c.count("distance queries");
    if (unreached) c.count("queries with unreached components");
    if (src.size() == 1) c.count(allV ? "vertex source" : "point source");
    done.push_back({src, d});
    if (r.coin(0.3)) { // raw right-hand side
      Vector<double> b = Vector<double>::Zero(m.nVertices());
      VL bl(O.n);
      for (long i = 0; i < b.size(); i++) bl[i] = b[i] = rhs.cast<double>()[i] * 2 + (r.coin(0.2) ? r.u() : 0);
      auto ref2 = [&](double eps, uint64_t seed) { return heatDist(O, t, bl, eps, seed); };
      if (comp.size() && reached.size() == 1 && !unreached) {
        VL y = measured<VL>(c, ref2, tol, "rhs");
        Vector<double> z = S.computeDistanceRHS(b);
        for (Vertex v : m.vertices()) near(z[O.id(v)], (double)y[O.id(v)], tol + 1e-7 * (double)O.h, "distance-rhs", v);
        c.count("raw right-hand sides");
      }
    }
  }
  // asking again gives the same answer
  auto& q = done[r.below(done.size())];
  disturb(c, w.g());
  VertexData<double> d = S.computeDistance(q.first);
  for (Vertex v : m.vertices()) check(d[v] == q.second[v] || (d[v] != d[v] && q.second[v] != q.second[v]), "repeat", v, " ", d[v], " then ", q.second[v]);
}
// the robust solver is the plain one on the mollified intrinsic Delaunay (tufted) geometry
void robustCase(Ctx& c) {
  Rng& r = c.rng;
  bool general = r.coin();
  Mesh w = makeTri(c, general, 60, true, r.coin() ? 15 : 100);
  SurfaceMesh& m = *w.mesh;
  double tc = randT(r);
  std::unique_ptr<SurfaceMesh> m2;
  EdgeData<double> l2;
  if (m.usesImplicitTwin()) {
    m2 = m.copy();
    l2 = w.len.reinterpretTo(*m2);
  } else {
    m2 = m.copyToSurfaceMesh();
    l2 = w.len.reinterpretTo(*m2);
    buildIntrinsicTuftedCover(*m2, l2);
  }
  mollifyIntrinsic(*m2, l2, 1e-5);
  flipToDelaunay(*m2, l2);
  for (Edge e : m2->edges())
    if (!(l2[e] > 0)) throw Skip("degenerate");
  double q = 0;
  for (Face f : m2->faces()) q = std::max(q, faceQuality(l2, f));
  if (q > 30) throw Skip("bad intrinsic triangle");
  Ops O(*m2, [&](Edge e) { return l2[e]; }, false);
  LD t = tc * O.h * O.h;
  HeatMethodDistanceSolver S(w.g(), tc, true);
  auto rv = ranks<Vertex>(m);
  std::vector<SurfacePoint> src = randSources(r, m, 1 + r.below(2));
  disturb(c, w.g());
  VertexData<double> d = S.computeDistance(src);
  Ref R0(m, [&](Edge e) { return w.len[e]; });
  auto ref = [&](double eps, uint64_t seed) {
    VL rhs = VL::Zero(O.n);
    std::vector<std::pair<Vertex, double>> cs;
    for (auto& p : src) {
      corners(p, cs);
      for (auto& y : cs) rhs[rv[y.first.getIndex()]] += y.second;
    }
    VL x = heatDist(O, t, rhs, eps, seed);
    LD diff = 0;
    for (auto& p : src) {
      corners(p, cs);
      for (auto& y : cs) {
        LD ex = 0;
        if (p.type == SurfacePointType::Edge) ex = (LD)w.len[p.edge] * (y.first == p.edge.firstVertex() ? p.tEdge : 1 - p.tEdge);
        if (p.type == SurfacePointType::Face) {
          Vector3 b = Vector3::zero();
          int i = 0;
          for (Vertex v : p.face.adjacentVertices()) {
            if (v == y.first) b[i] = 1;
            i++;
          }
          ex = baryDist(R0, p.face, p.faceCoords, b);
        }
        diff += y.second * (x[rv[y.first.getIndex()]] - ex);
      }
    }
    x.array() -= diff / (LD)src.size();
    return x;
  };
  double tol;
  VL x = measured<VL>(c, ref, tol, "robust");
  for (Vertex v : m.vertices()) near(d[v], (double)x[rv[v.getIndex()]], tol + 1e-7 * (double)O.h, "robust", v, " from ", show(src[0]));
  c.count(general ? "robust tufted" : "robust manifold");
  VertexData<double> d2 = S.computeDistance(src);
  for (Vertex v : m.vertices()) check(d2[v] == d[v], "repeat-robust", v);
}

// ============ vector heat method
Vector2 toV(CL z) { return Vector2{(double)z.real(), (double)z.imag()}; }
void vectorCase(Ctx& c) {
  Rng& r = c.rng;
  Mesh w = makeTri(c, false, c.thorough ? 80 : 50, true);
  SurfaceMesh& m = *w.mesh;
  Ops O(m, [&](Edge e) { return w.len[e]; }, true);
  double tc = randT(r);
  LD t = tc * O.h * O.h;
  VectorHeatMethodSolver S(w.g(), tc);
  size_t n = O.n, nq = 1 + r.below(4);
  std::vector<size_t> vi;
  for (Vertex v : m.vertices()) vi.push_back(v.getIndex());
  auto anyV = [&]() { return m.vertex(0) == Vertex() ? Vertex() : Vertex(&m, r.pick(vi)); };
  ML H = O.M + t * O.L;
  MCL HK = O.Mc() + CL(t) * O.K;
  double minAng = 1;
  for (auto& kv : O.R.angSum) minAng = std::min<double>(minAng, kv.second);
  auto parallel = [&](Vertex s, double eps, uint64_t seed) {
    VCL b = VCL::Zero(n);
    b[O.id(s)] = 1;
    VCL x = solveDense(HK, b, eps, seed);
    for (size_t i = 0; i < n; i++) x[i] /= std::abs(x[i]);
    return x;
  };
  auto logVertex = [&](Vertex s, LogMapStrategy st, double eps, uint64_t seed) -> VCL {
    VCL par = parallel(s, eps, seed), res(n);
    size_t si = O.id(s);
    if (st == LogMapStrategy::VectorHeat) {
      // outward unit vectors around the source, integrated against the hat functions
      VCL b = VCL::Zero(n);
      for (Face f : m.faces())
        for (int k = 0; k < 3; k++) {
          Halfedge h = heOf(f, k);
          if (h.vertex() != s) continue;
          Halfedge hn = h.next(), hp = hn.next();
          LD th = O.R.ang[h.getIndex()], lj = O.R.len[h.edge().getIndex()], lk = O.R.len[hp.edge().getIndex()];
          CL Bj = 0, Bk = 0, B0 = 0; // in the frame of the edge to j
          const int N = 24;           // Gauss-Legendre on panels of the angle
          static const LD gx[4] = {0.3399810435848562648L, 0.8611363115940525752L, -0.3399810435848562648L, -0.8611363115940525752L};
          static const LD gw[4] = {0.6521451548625461426L, 0.3478548451374538574L, 0.6521451548625461426L, 0.3478548451374538574L};
          for (int p = 0; p < N; p++)
            for (int g = 0; g < 4; g++) {
              LD phi = th * (p + 0.5L + 0.5L * gx[g]) / N, ww = gw[g] * th / (2 * N);
              CL d = std::polar<LD>(1, phi);
              LD pj = sinl(th - phi) / (lj * sinl(th)), pk = sinl(phi) / (lk * sinl(th));
              Bj += ww * pj * d;
              Bk += ww * pk * d;
              B0 -= ww * (pj + pk) * d;
            }
          CL ej = O.vec(h) / std::abs(O.vec(h));
          b[O.id(s)] += B0 * ej;
          // along the edge to j: directions at the source are turned so that the edge keeps its direction
          CL back = O.vec(h.twin()) / std::abs(O.vec(h.twin()));
          b[O.id(hn.vertex())] += -Bj * back;
          Halfedge hk = hp.twin(); // outgoing edge to k
          CL toK = std::polar<LD>(1, -th);
          CL backK = O.vec(hp) / std::abs(O.vec(hp));
          (void)hk;
          b[O.id(hp.vertex())] += -Bk * toK * backK;
        }
      VCL rad = solveDense(HK, b, eps, seed + 7);
      for (size_t i = 0; i < n; i++) rad[i] /= std::abs(rad[i]);
      rad[si] = 0;
      VL div = VL::Zero(n);
      for (Halfedge h : m.halfedges()) {
        size_t i = O.id(h.tailVertex()), j = O.id(h.tipVertex());
        CL a = (rad[i] + O.rot(h) * rad[j]) / (LD)2;
        CL e = O.vec(h);
        div[i] -= O.w[h.edge().getIndex()] * (a.real() * e.real() + a.imag() * e.imag());
      }
      VL dist = poisson(O.L, div);
      for (size_t i = 0; i < n; i++) res[i] = rad[i] / par[i] * (dist[i] - dist[si]);
      return res;
    }
    ML A = ML::Zero(3 * n, 3 * n);
    for (size_t i = 0; i < n; i++)
      for (int k = 0; k < 3; k++) A(3 * i + k, 3 * i + k) += O.M(i, i);
    for (Halfedge h : m.halfedges()) {
      size_t i = O.id(h.tailVertex()), j = O.id(h.tipVertex());
      LD x = t * O.w[h.edge().getIndex()];
      CL rt = O.rot(h), tr = -O.vec(h);
      if (st == LogMapStrategy::AffineAdaptive) {
        rt = 1;
        tr = tr / par[i];
      } else {
        rt = -O.vec(h) / O.vec(h.twin());
      }
      LD T[3][3] = {{rt.real(), -rt.imag(), tr.real()}, {rt.imag(), rt.real(), tr.imag()}, {0, 0, 1}};
      for (int a = 0; a < 3; a++) {
        A(3 * i + a, 3 * i + a) += x;
        for (int q = 0; q < 3; q++) A(3 * i + a, 3 * j + q) -= x * T[a][q];
      }
    }
    VL b = VL::Zero(3 * n);
    b[3 * si + 2] = 1;
    VL y = solveDense(A, b, eps, seed + 9);
    for (size_t i = 0; i < n; i++) {
      res[i] = CL(y[3 * i], y[3 * i + 1]) / y[3 * i + 2];
      if (st == LogMapStrategy::AffineLocal) res[i] /= par[i];
    }
    return res;
  };
  for (size_t k = 0; k < nq; k++) {
    disturb(c, w.g());
    double tol;
    int what = r.below(8);
    if (what == 0) { // extension
      size_t ns = 1 + r.below(4);
      auto src = randSources(r, m, ns);
      std::vector<double> val, one(ns, 1.);
      for (size_t i = 0; i < ns; i++) val.push_back(r.uni(-2, 2));
      if (r.coin(0.2)) val.assign(ns, r.uni(0.5, 2)); // constants extend to constants
      auto ref = [&](double eps, uint64_t seed) {
        VL a = solveDense(H, sourceVec(O, src, val), eps, seed), b = solveDense(H, sourceVec(O, src, one), eps, seed);
        return VL(a.array() / b.array());
      };
      bool allV = true;
      for (auto& p : src) allV = allV && p.type == SurfacePointType::Vertex;
      VertexData<double> x;
      if (allV && r.coin()) {
        std::vector<std::tuple<Vertex, double>> q;
        for (size_t i = 0; i < ns; i++) q.emplace_back(src[i].vertex, val[i]);
        x = S.extendScalar(q);
      } else {
        std::vector<std::tuple<SurfacePoint, double>> q;
        for (size_t i = 0; i < ns; i++) q.emplace_back(src[i], val[i]);
        x = S.extendScalar(q);
      }
      VL y = measured<VL>(c, ref, tol, "extension");
      for (Vertex v : m.vertices()) near(x[v], (double)y[O.id(v)], tol, "extendScalar", v);
      if (ns == 1) for (Vertex v : m.vertices()) near(x[v], val[0], 1e-9 * (1 + std::abs(val[0])) + tol, "extendScalar-single", v);
      c.count("scalar extensions");
    } else if (what == 1 || what == 2) { // transport
      size_t ns = r.coin() ? 1 : 1 + r.below(3);
      auto src = randSources(r, m, ns);
      std::vector<Vector2> vec;
      for (size_t i = 0; i < ns; i++) vec.push_back(Vector2::fromAngle(r.uni(-3, 3)) * std::pow(10., r.uni(-1, 1)));
      auto ref = [&](double eps, uint64_t seed) {
        VCL b = VCL::Zero(n);
        std::vector<double> mag, one(ns, 1.);
        std::vector<std::pair<Vertex, double>> cs;
        for (size_t i = 0; i < ns; i++) {
          corners(src[i], cs);
          Vector2 u = vec[i] / norm(vec[i]);
          for (auto& y : cs) b[O.id(y.first)] += (LD)y.second * CL(u.x, u.y);
          mag.push_back(norm(vec[i]));
        }
        VCL x = solveDense(HK, b, eps, seed);
        VL a = solveDense(H, sourceVec(O, src, mag), eps, seed), d = solveDense(H, sourceVec(O, src, one), eps, seed);
        for (size_t i = 0; i < n; i++) x[i] *= a[i] / d[i] / std::abs(x[i]);
        return x;
      };
      bool allV = true;
      for (auto& p : src) allV = allV && p.type == SurfacePointType::Vertex;
      VertexData<Vector2> x;
      if (ns == 1 && allV && r.coin()) x = S.transportTangentVector(src[0].vertex, vec[0]);
      else if (allV && r.coin()) {
        std::vector<std::tuple<Vertex, Vector2>> q;
        for (size_t i = 0; i < ns; i++) q.emplace_back(src[i].vertex, vec[i]);
        x = S.transportTangentVectors(q);
      } else {
        std::vector<std::tuple<SurfacePoint, Vector2>> q;
        for (size_t i = 0; i < ns; i++) q.emplace_back(src[i], vec[i]);
        x = S.transportTangentVectors(q);
      }
      VCL y = measured<VCL>(c, ref, tol, "transport");
      for (Vertex v : m.vertices()) nearC(x[v], C((double)y[O.id(v)].real(), (double)y[O.id(v)].imag()), tol, "transport", str(v));
      c.count(ns == 1 ? "transport of one vector" : "transport of many vectors");
    } else if (what <= 6) { // log map
      LogMapStrategy st = r.coin() ? LogMapStrategy::VectorHeat : r.coin() ? LogMapStrategy::AffineLocal : LogMapStrategy::AffineAdaptive;
      SurfacePoint p = randPoint(r, m, r.coin(0.6) ? 0 : -1);
      auto ref = [&](double eps, uint64_t seed) -> VCL {
        if (p.type == SurfacePointType::Vertex) return logVertex(p.vertex, st, eps, seed);
        if (p.type == SurfacePointType::Edge) {
          Halfedge h = p.edge.halfedge();
          VCL a = logVertex(h.tailVertex(), st, eps, seed), b = logVertex(h.tipVertex(), st, eps, seed);
          CL ra = std::conj(O.vec(h)) / std::abs(O.vec(h)), rb = -std::conj(O.vec(h.twin())) / std::abs(O.vec(h.twin()));
          return VCL((CL)(1 - (LD)p.tEdge) * ra * a + (CL)(LD)p.tEdge * rb * b);
        }
        VCL s = VCL::Zero(n);
        auto P = layout(O.R, p.face);
        for (int i = 0; i < 3; i++) {
          Halfedge h = heOf(p.face, i);
          CL q = (P[(i + 1) % 3] - P[i]) / O.vec(h);
          s += (CL)(LD)p.faceCoords[i] * q / std::abs(q) * logVertex(h.vertex(), st, eps, seed);
        }
        return s;
      };
      VertexData<Vector2> x = p.type == SurfacePointType::Vertex && r.coin() ? S.computeLogMap(p.vertex, st) : S.computeLogMap(p, st);
      VCL y = measured<VCL>(c, ref, tol, "logmap");
      std::string key = st == LogMapStrategy::VectorHeat ? "logmap-heat" : st == LogMapStrategy::AffineLocal ? "logmap-affine" : "logmap-adaptive";
      for (Vertex v : m.vertices()) nearC(x[v], C((double)y[O.id(v)].real(), (double)y[O.id(v)].imag()), tol, key, str(v, " from ", show(p)));
      if (p.type == SurfacePointType::Vertex && st == LogMapStrategy::VectorHeat) near(norm(x[p.vertex]), 0, 1e-9 * (double)O.h + tol, key + "-source", p.vertex);
      c.count(key);
    } else { // plain solves
      VertexData<double> b(m);
      VertexData<std::complex<double>> bc(m);
      VL bl(n);
      VCL bcl(n);
      for (Vertex v : m.vertices()) {
        b[v] = r.uni(-1, 1);
        bc[v] = C(r.uni(-1, 1), r.uni(-1, 1));
        bl[O.id(v)] = b[v];
        bcl[O.id(v)] = CL(bc[v].real(), bc[v].imag());
      }
      VL y = measured<VL>(c, [&](double e, uint64_t s) { return solveDense(H, bl, e, s); }, tol, "diffuse");
      VertexData<double> x = S.scalarDiffuse(b);
      for (Vertex v : m.vertices()) near(x[v], (double)y[O.id(v)], tol, "scalarDiffuse", v);
      VCL yc = measured<VCL>(c, [&](double e, uint64_t s) { return solveDense(HK, bcl, e, s); }, tol, "diffuse");
      VertexData<C> xc = S.vectorDiffuse(bc);
      for (Vertex v : m.vertices()) check(std::abs(xc[v] - C((double)yc[O.id(v)].real(), (double)yc[O.id(v)].imag())) <= tol, "vectorDiffuse", v);
      double mean = (double)bl.mean();
      for (Vertex v : m.vertices()) b[v] -= mean;
      VL z = poisson(O.L, bl);
      VertexData<double> xp = S.poissonSolve(b);
      double mx = 0;
      for (Vertex v : m.vertices()) mx += xp[v] / n;
      for (Vertex v : m.vertices()) near(xp[v] - mx, (double)z[O.id(v)], 1e-7 * scaleOf(z) + 1e-13 * std::abs(mx), "poissonSolve", v);
      c.count("plain solves");
    }
  }
}

// ============ polygon meshes
void polygonCase(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.tri = r.coin(0.3);
  o.multi = false;
  o.maxQ = 12;
  o.logScale = r.coin() ? 0 : 1.5;
  o.flat = r.coin(0.15);
  GeoMesh gm = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *gm.mesh;
  std::map<size_t, size_t> cm;
  if (components(m, cm) != 1 || m.nVertices() > 60 || m.nVertices() < 3) throw Skip("size");
  VertexPositionGeometry& g = *gm.geom;
  VertexPositionGeometry g2(m, g.vertexPositions); // same quantities, held separately
  auto rv = ranks<Vertex>(m);
  auto rf = ranks<Face>(m);
  size_t n = m.nVertices(), F = m.nFaces();
  g2.requirePolygonLaplacian();
  g2.requirePolygonVertexLumpedMassMatrix();
  g2.requirePolygonVertexConnectionLaplacian();
  g2.requirePolygonGradientMatrix();
  g2.requirePolygonDivergenceMatrix();
  g2.requireVertexTangentBasis();
  g2.requireVertexNormals();
  for (Vertex v : m.vertices())
    if (!(norm(g2.vertexNormals[v]) > 0.5)) throw Skip("no normal");
  { // the rotation between (area weighted) vertex and face normals is not defined if they are opposite
    FaceData<Vector3> N(m, Vector3{0, 0, 0});
    VertexData<Vector3> vN(m, Vector3{0, 0, 0});
    for (Face f : m.faces()) {
      for (Halfedge h : f.adjacentHalfedges()) N[f] += cross(g.vertexPositions[h.tailVertex()], g.vertexPositions[h.tipVertex()]);
      for (Vertex v : f.adjacentVertices()) vN[v] += N[f];
    }
    for (Face f : m.faces())
      for (Vertex v : f.adjacentVertices())
        if (!(norm(vN[v]) > 1e-3 * norm(N[f])) || !(dot(vN[v], N[f]) > -0.99 * norm(vN[v]) * norm(N[f]))) throw Skip("folded");
  }
  ML L = dense(g2.polygonLaplacian).cast<LD>(), M = dense(g2.polygonVertexLumpedMassMatrix).cast<LD>(), G = dense(g2.polygonGradientMatrix).cast<LD>(), D = dense(g2.polygonDivergenceMatrix).cast<LD>();
  MCL K = dense(g2.polygonVertexConnectionLaplacian).cast<CL>();
  for (size_t i = 0; i < n; i++)
    if (!(M(i, i) > 0)) throw Skip("mass");
  LD h = 0;
  for (Edge e : m.edges()) h += norm(g.vertexPositions[e.firstVertex()] - g.vertexPositions[e.secondVertex()]);
  h /= m.nEdges();
  double tc = randT(r);
  LD t = tc * h * h;
  ML H = M + t * L;
  MCL HK = M.cast<CL>() + CL(t) * K;
  PolygonMeshHeatSolver S(g, tc);
  std::vector<size_t> vi;
  for (Vertex v : m.vertices()) vi.push_back(v.getIndex());
  auto id = [&](Vertex v) { return rv.at(v.getIndex()); };
  double mineig = 0;
  {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(HK.cast<C>());
    mineig = es.eigenvalues().minCoeff() / es.eigenvalues().cwiseAbs().maxCoeff();
  }
  auto normalized = [&](VL Y) {
    for (size_t f = 0; f < F; f++) {
      LD a = sqrtl(Y[3 * f] * Y[3 * f] + Y[3 * f + 1] * Y[3 * f + 1] + Y[3 * f + 2] * Y[3 * f + 2]);
      for (int k = 0; k < 3; k++) Y[3 * f + k] = a > 0 ? Y[3 * f + k] / a : 0;
    }
    return Y;
  };
  size_t nq = 1 + r.below(4);
  for (size_t k = 0; k < nq; k++) {
    disturb(c, g);
    double tol;
    int what = r.below(5);
    size_t ns = r.coin() ? 1 : 1 + r.below(3);
    std::vector<Vertex> vs;
    std::set<size_t> seen;
    while (vs.size() < std::min(ns, n)) {
      size_t i = r.pick(vi);
      if (seen.insert(i).second) vs.push_back(Vertex(&m, i));
    }
    ns = vs.size();
    if (what == 0) {
      auto ref = [&](double eps, uint64_t seed) {
        VL b = VL::Zero(n);
        for (Vertex v : vs) b[id(v)] += 1;
        VL u = solveDense(H, b, eps, seed);
        VL x = poisson(L, VL(-D * normalized(VL(G * u))));
        x.array() -= x.minCoeff();
        return x;
      };
      VertexData<double> d = ns == 1 && r.coin() ? S.computeDistance(vs[0]) : S.computeDistance(vs);
      VL x = measured<VL>(c, ref, tol, "polygon distance");
      // distance grows away from the sources: the gradient of heat points to them
      for (Vertex v : m.vertices()) near(d[v], std::abs((double)x[id(v)]), tol + 1e-7 * scaleOf(x), "polygon-distance", v);
      c.count("polygon distances");
    } else if (what == 1) {
      std::vector<std::tuple<Vertex, double>> q;
      for (Vertex v : vs) q.emplace_back(v, r.uni(-2, 2));
      auto ref = [&](double eps, uint64_t seed) {
        VL a = VL::Zero(n), b = VL::Zero(n);
        for (auto& y : q) {
          a[id(std::get<0>(y))] = std::get<1>(y);
          b[id(std::get<0>(y))] = 1;
        }
        a = solveDense(H, a, eps, seed);
        b = solveDense(H, b, eps, seed);
        return VL(a.array() / b.array());
      };
      VertexData<double> x = S.extendScalars(q);
      VL y = measured<VL>(c, ref, tol, "polygon extension");
      for (Vertex v : m.vertices()) near(x[v], (double)y[id(v)], tol, "polygon-extend", v);
      c.count("polygon extensions");
    } else if (what == 2) {
      if (mineig < 1e-9) throw Skip("connection Laplacian not positive");
      bool same = r.coin();
      double m0 = std::pow(10., r.uni(-1, 1));
      std::vector<std::tuple<Vertex, Vector2>> q;
      for (Vertex v : vs) q.emplace_back(v, Vector2::fromAngle(r.uni(-3, 3)) * (same ? m0 : std::pow(10., r.uni(-0.5, 0.5))));
      auto ref = [&](double eps, uint64_t seed) {
        VCL b = VCL::Zero(n);
        VL a = VL::Zero(n), d = VL::Zero(n);
        for (auto& y : q) {
          Vector2 u = std::get<1>(y);
          size_t i = id(std::get<0>(y));
          b[i] += CL(u.x, u.y);
          a[i] = norm(u);
          d[i] = 1;
        }
        b = solveDense(HK, b, eps, seed);
        a = solveDense(H, a, eps, seed);
        d = solveDense(H, d, eps, seed);
        for (size_t i = 0; i < n; i++) b[i] *= a[i] / d[i] / std::abs(b[i]);
        return b;
      };
      VertexData<Vector2> x = ns == 1 && r.coin() ? S.transportTangentVector(vs[0], std::get<1>(q[0])) : S.transportTangentVectors(q);
      VCL y = measured<VCL>(c, ref, tol, "polygon transport");
      for (Vertex v : m.vertices()) nearC(x[v], C((double)y[id(v)].real(), (double)y[id(v)].imag()), tol, "polygon-transport", str(v));
      c.count("polygon transports");
    } else {
      if (mineig < 1e-9) throw Skip("connection Laplacian not positive");
      // curves: walks along edges
      std::vector<std::vector<Vertex>> curves;
      std::set<size_t> used;
      size_t nc = 1 + r.below(2);
      for (size_t i = 0; i < nc; i++) {
        std::vector<Vertex> cv{Vertex(&m, r.pick(vi))};
        if (used.count(cv[0].getIndex())) continue;
        used.insert(cv[0].getIndex());
        size_t len = 1 + r.below(5);
        bool closed = false;
        while (cv.size() <= len) {
          std::vector<Vertex> nb;
          for (Vertex u : cv.back().adjacentVertices())
            if (!used.count(u.getIndex())) nb.push_back(u);
          if (nb.empty()) break;
          cv.push_back(nb[r.below(nb.size())]);
          used.insert(cv.back().getIndex());
        }
        if (cv.size() > 2 && r.coin(0.4))
          for (Vertex u : cv.back().adjacentVertices())
            if (u == cv[0]) closed = true;
        if (closed) cv.push_back(cv[0]);
        if (cv.size() < 2) continue;
        curves.push_back(cv);
      }
      if (curves.empty()) throw Skip("no curve");
      int con = r.below(3);
      LevelSetConstraint lc = con == 0 ? LevelSetConstraint::None : con == 1 ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
      auto ref = [&](double eps, uint64_t seed) {
        VCL X0 = VCL::Zero(n);
        for (auto& cv : curves)
          for (size_t i = 0; i + 1 < cv.size(); i++) {
            Vector3 tan = g2.vertexPositions[cv[i + 1]] - g2.vertexPositions[cv[i]];
            for (Vertex v : {cv[i], cv[i + 1]}) {
              Vector3 x = g2.vertexTangentBasis[v][0], y = g2.vertexTangentBasis[v][1];
              X0[id(v)] += CL(0, 1) * CL(dot(x, tan), dot(y, tan)); // tangent turned to the left
            }
          }
        VCL X = solveDense(HK, X0, eps, seed);
        VL Y = VL::Zero(3 * F);
        for (Face f : m.faces())
          for (Vertex v : f.adjacentVertices())
            for (int k = 0; k < 3; k++) Y[3 * rf[f.getIndex()] + k] += X[id(v)].real() * g2.vertexTangentBasis[v][0][k] + X[id(v)].imag() * g2.vertexTangentBasis[v][1][k];
        VL div = D * normalized(Y);
        VL x;
        std::set<size_t> B;
        for (auto& cv : curves)
          for (Vertex v : cv) B.insert(id(v));
        if (lc == LevelSetConstraint::ZeroSet) {
          x = VL::Zero(n);
          std::vector<size_t> A;
          for (size_t i = 0; i < n; i++)
            if (!B.count(i)) A.push_back(i);
          ML LA(A.size(), A.size());
          VL b(A.size());
          for (size_t i = 0; i < A.size(); i++) {
            b[i] = div[A[i]];
            for (size_t j = 0; j < A.size(); j++) LA(i, j) = L(A[i], A[j]);
          }
          if (A.size()) {
            VL y = LA.partialPivLu().solve(b);
            for (size_t i = 0; i < A.size(); i++) x[A[i]] = y[i];
          }
          return x;
        }
        if (lc == LevelSetConstraint::None) x = poisson(L, div);
        else { // one value per curve
          std::vector<long> lab(n, -1);
          long k = 0;
          for (auto& cv : curves) {
            for (Vertex v : cv) lab[id(v)] = k;
            k++;
          }
          for (size_t i = 0; i < n; i++)
            if (lab[i] < 0) lab[i] = k++;
          ML P = ML::Zero(n, k);
          for (size_t i = 0; i < n; i++) P(i, lab[i]) = 1;
          x = P * poisson(ML(P.transpose() * L * P), VL(P.transpose() * div));
        }
        LD s = 0, tot = 0;
        for (auto& cv : curves)
          for (size_t i = 0; i + 1 < cv.size(); i++) {
            LD l = norm(g2.vertexPositions[cv[i + 1]] - g2.vertexPositions[cv[i]]);
            s += l * (x[id(cv[i])] + x[id(cv[i + 1])]) / 2;
            tot += l;
          }
        x.array() -= s / tot;
        return x;
      };
      bool allB = lc == LevelSetConstraint::ZeroSet && used.size() >= n;
      if (allB) throw Skip("everything on the curve");
      VL x = measured<VL>(c, ref, tol, "polygon signed");
      VertexData<double> d = S.computeSignedDistance(curves, lc);
      std::string key = str("polygon-signed-", con);
      for (Vertex v : m.vertices()) near(d[v], (double)x[id(v)], tol + 1e-7 * (scaleOf(x) + (double)h), key, v, " curves ", curves.size());
      if (o.flat && false) c.count("flat");
      c.count(key);
    }
  }
}

// ============ signed heat method on triangle meshes
struct SignedRef {
  SurfaceMesh& m;
  Ops& O;
  MCL CR;
  ML MC;
  LD t;
  std::map<size_t, size_t> re;
  CL frame(Face f, Edge e, std::array<CL, 3>& P) {
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      if (h.edge() != e) continue;
      CL d = P[(i + 1) % 3] - P[i];
      d /= std::abs(d);
      return h.orientation() ? d : -d;
    }
    throw std::logic_error("edge not in face");
  }
  static CL at(const SurfacePoint& p, Face f, std::array<CL, 3>& P) {
    Vector3 b = p.inFace(f).faceCoords;
    return (LD)b.x * P[0] + (LD)b.y * P[1] + (LD)b.z * P[2];
  }
  static Edge commonEdge(const SurfacePoint& a, const SurfacePoint& b) { return sharedEdge(a, b); }
  LD t01(const SurfacePoint& p, Edge e) { return p.type == SurfacePointType::Vertex ? (p.vertex == e.firstVertex() ? 0 : 1) : p.tEdge; }
  LD segLen(const SurfacePoint& a, const SurfacePoint& b) {
    Face f = sharedFace(a, b);
    auto P = layout(O.R, f);
    return std::abs(at(a, f, P) - at(b, f, P));
  }
  void addCurve(VCL& X0, const std::vector<SurfacePoint>& cv) {
    for (size_t i = 0; i + 1 < cv.size(); i++) {
      Edge e = commonEdge(cv[i], cv[i + 1]);
      if (e != Edge()) {
        X0[re[e.getIndex()]] += CL(0, 1) * (LD)O.R.len[e.getIndex()] * (t01(cv[i + 1], e) - t01(cv[i], e));
        continue;
      }
      Face f = sharedFace(cv[i], cv[i + 1]);
      auto P = layout(O.R, f);
      CL d = at(cv[i + 1], f, P) - at(cv[i], f, P);
      for (Edge k : f.adjacentEdges()) X0[re[k.getIndex()]] += CL(0, 1) * d * std::conj(frame(f, k, P));
    }
  }
  void addVertex(VCL& X0, Vertex v) {
    LD S = O.R.angSum[v.getIndex()];
    for (Face f : m.faces())
      for (int i = 0; i < 3; i++) {
        Halfedge h = heOf(f, i);
        if (h.vertex() != v) continue;
        auto P = layout(O.R, f);
        CL d = P[(i + 1) % 3] - P[i];
        d /= std::abs(d);
        LD th = O.R.ang[h.getIndex()];
        CL mean = CL(sinl(th), 1 - cosl(th)) / S * d; // outward directions over the corner
        for (Edge k : f.adjacentEdges()) X0[re[k.getIndex()]] += mean * std::conj(frame(f, k, P));
      }
  }
  VL divergence(const VCL& X) {
    VL div = VL::Zero(O.n);
    for (Face f : m.faces()) {
      auto P = layout(O.R, f);
      CL y = 0;
      for (Edge k : f.adjacentEdges()) y += X[re[k.getIndex()]] * frame(f, k, P);
      LD a = std::abs(y);
      if (!(a > 0)) continue;
      y /= a;
      for (int i = 0; i < 3; i++) {
        LD x = O.R.cot[heOf(f, i).getIndex()] / 2;
        CL e = P[(i + 1) % 3] - P[i];
        LD d = x * (e.real() * y.real() + e.imag() * y.imag());
        // L phi = -div
        div[O.id(heOf(f, i).vertex())] -= d;
        div[O.id(heOf(f, (i + 1) % 3).vertex())] += d;
      }
    }
    return div;
  }
  VL row(const SurfacePoint& p) {
    VL x = VL::Zero(O.n);
    std::vector<std::pair<Vertex, double>> cs;
    corners(p, cs);
    for (auto& y : cs) x[O.id(y.first)] += y.second;
    return x;
  }
  // min 1/2 x'Lx - b'x with C x = 0 (up to constants)
  VL constrained(const VL& b, const ML& Cm) {
    ML P = ML::Identity(O.n, O.n);
    if (Cm.rows()) {
      Eigen::FullPivLU<ML> lu(Cm);
      // constraints which are nearly but not quite redundant: the (regularized) code may treat them either way
      VL sv = Eigen::JacobiSVD<ML>(Cm).singularValues();
      for (int i = 0; i < sv.size(); i++)
        if (sv[i] > 1e-14L * sv[0] && sv[i] < 1e-4L * sv[0]) throw Skip("ambiguous constraints");
      lu.setThreshold(1e-11L);
      P = lu.kernel();
    }
    // constants are in the kernel of the Laplacian and satisfy the constraints
    ML A = P.transpose() * (O.L + (O.L.norm() / O.n) * ML::Ones(O.n, O.n)) * P;
    VL rhs = P.transpose() * b;
    Eigen::CompleteOrthogonalDecomposition<ML> cod(A);
    cod.setThreshold(1e-11L);
    return P * cod.solve(rhs);
  }
};
void signedCase(Ctx& c, bool flat) {
  Rng& r = c.rng;
  Mesh w;
  if (flat) {
    GeoOpts o;
    o.flat = true;
    o.multi = false;
    o.maxQ = 10;
    o.logScale = 0;
    o.rigid = false;
    GeoMesh g = geoMesh(c, o);
    w.mesh = std::move(g.mesh);
    w.pos = std::move(g.geom);
    w.len = EdgeData<double>(*w.mesh);
    for (Edge e : w.mesh->edges()) w.len[e] = norm(w.pos->vertexPositions[e.firstVertex()] - w.pos->vertexPositions[e.secondVertex()]);
    std::map<size_t, size_t> cm;
    if (components(*w.mesh, cm) != 1) throw Skip("components");
    if (r.coin(0.3)) w.lg.reset(new EdgeLengthGeometry(*w.mesh, w.len));
  } else w = makeTri(c, false, c.thorough ? 60 : 40, true, 12);
  SurfaceMesh& m = *w.mesh;
  if (m.nEdges() > (c.thorough ? 160 : 110) || m.nVertices() < 4) throw Skip("size");
  Ops O(m, [&](Edge e) { return w.len[e]; }, false);
  double tc = randT(r);
  SignedHeatSolver S(w.g(), tc);
  EdgeLengthGeometry lg2(m, w.len);
  lg2.requireCrouzeixRaviartConnectionLaplacian();
  lg2.requireCrouzeixRaviartMassMatrix();
  SignedRef Q{m, O, MCL(dense(lg2.crouzeixRaviartConnectionLaplacian).cast<CL>()), ML(dense(lg2.crouzeixRaviartMassMatrix).cast<LD>()), 0, ranks<Edge>(m)};
  size_t nq = 1 + r.below(3);
  for (size_t k = 0; k < nq; k++) {
    if (r.coin(0.3)) {
      tc = randT(r);
      S.setDiffusionTimeCoefficient(tc);
      c.count("time changes");
    }
    Q.t = tc * (O.h / 2) * (O.h / 2);
    disturb(c, w.g());
    std::vector<Curve> curves;
    std::vector<SurfacePoint> points;
    std::map<size_t, LD> expect; // flat: signed distance
    if (flat) {
      VertexData<Vector3>& p = w.pos->vertexPositions;
      std::vector<Vertex> vs;
      for (Vertex v : m.vertices()) vs.push_back(v);
      Vector3 a, d;
      int how = r.below(3);
      if (how == 0) {
        std::vector<Edge> es;
        for (Edge e : m.edges()) es.push_back(e);
        Edge e = es[r.below(es.size())];
        a = p[e.firstVertex()];
        d = p[e.secondVertex()] - a;
      } else if (how == 1) {
        a = p[vs[r.below(vs.size())]];
        d = p[vs[r.below(vs.size())]] - a;
      } else {
        std::vector<Face> fs;
        for (Face f : m.faces()) fs.push_back(f);
        Face f = fs[r.below(fs.size())];
        Vector3 ctr = Vector3::zero();
        for (Vertex v : f.adjacentVertices()) ctr += p[v] / 3.;
        a = ctr;
        d = Vector3{r.uni(-1, 1), r.uni(-1, 1), 0};
      }
      if (!(norm(d) > 1e-3)) throw Skip("direction");
      d = d / norm(d);
      if (r.coin()) d = -d;
      Vector3 nn{-d.y, d.x, 0}; // left
      std::map<size_t, double> sd;
      for (Vertex v : m.vertices()) {
        double x = dot(p[v] - a, nn);
        if (std::abs(x) < 1e-9) x = 0;
        else if (std::abs(x) < 1e-3) throw Skip("near vertex");
        sd[v.getIndex()] = x;
        expect[v.getIndex()] = x;
      }
      struct Seg {
        double t0, t1;
        SurfacePoint a, b;
      };
      std::vector<Seg> segs;
      std::set<size_t> doneE;
      for (Face f : m.faces()) {
        std::vector<std::pair<double, SurfacePoint>> it;
        for (Halfedge h : f.adjacentHalfedges()) {
          Vertex u = h.tailVertex(), v = h.tipVertex();
          double x = sd[u.getIndex()], y = sd[v.getIndex()];
          if (x == 0) it.push_back({dot(p[u], d), SurfacePoint(u)});
          if (x * y < 0) {
            Edge e = h.edge();
            double s0 = sd[e.firstVertex().getIndex()], s1 = sd[e.secondVertex().getIndex()], te = s0 / (s0 - s1);
            it.push_back({dot((1 - te) * p[e.firstVertex()] + te * p[e.secondVertex()], d), SurfacePoint(e, te)});
          }
        }
        if (it.size() != 2) continue;
        if (it[0].first > it[1].first) std::swap(it[0], it[1]);
        if (it[0].second.type == SurfacePointType::Vertex && it[1].second.type == SurfacePointType::Vertex) {
          Edge e;
          for (Halfedge h : f.adjacentHalfedges())
            if ((h.tailVertex() == it[0].second.vertex && h.tipVertex() == it[1].second.vertex) || (h.tailVertex() == it[1].second.vertex && h.tipVertex() == it[0].second.vertex)) e = h.edge();
          if (!doneE.insert(e.getIndex()).second) continue;
        }
        segs.push_back({it[0].first, it[1].first, it[0].second, it[1].second});
      }
      if (segs.empty()) throw Skip("no crossing");
      std::sort(segs.begin(), segs.end(), [](const Seg& x, const Seg& y) { return x.t0 < y.t0; });
      double subdiv = r.coin() ? 0 : 0.4;
      auto push = [&](std::vector<SurfacePoint>& ns, const SurfacePoint& x, const SurfacePoint& y) {
        if (r.coin(subdiv)) { // a node inside the segment
          double s = r.uni(0.2, 0.8);
          Edge e = sharedEdge(x, y);
          if (e != Edge()) {
            LD u = (1 - s) * Q.t01(x, e) + s * Q.t01(y, e);
            ns.push_back(SurfacePoint(e, (double)u));
          } else {
            Face f = sharedFace(x, y);
            ns.push_back(SurfacePoint(f, (1 - s) * x.inFace(f).faceCoords + s * y.inFace(f).faceCoords));
          }
          c.count("subdivided segments");
        }
        ns.push_back(y);
      };
      for (auto& s : segs) {
        if (!curves.empty() && curves.back().nodes.back() == s.a && r.coin(0.97)) {
          push(curves.back().nodes, s.a, s.b);
        } else {
          Curve cv;
          cv.nodes.push_back(s.a);
          push(cv.nodes, s.a, s.b);
          curves.push_back(cv);
        }
      }
      if (curves.size() > 1 && r.coin(0.4)) curves.erase(curves.begin() + r.below(curves.size()));
    } else {
      size_t nc = r.coin(0.7) ? 1 : 1 + r.below(2), np = r.coin(0.25) ? 1 + r.below(2) : 0;
      if (np && r.coin()) nc = 0;
      std::set<size_t> used;
      std::vector<size_t> vi;
      for (Vertex v : m.vertices()) vi.push_back(v.getIndex());
      bool onVerts = r.coin();
      for (size_t i = 0; i < nc; i++) {
        Curve cv;
        size_t len = 1 + r.below(5);
        if (onVerts) {
          Vertex v(&m, r.pick(vi));
          if (!used.insert(v.getIndex()).second) continue;
          cv.nodes.push_back(v);
          while (cv.nodes.size() <= len) {
            std::vector<Vertex> nb;
            for (Vertex u : v.adjacentVertices())
              if (!used.count(u.getIndex())) nb.push_back(u);
            if (nb.empty()) break;
            v = nb[r.below(nb.size())];
            used.insert(v.getIndex());
            cv.nodes.push_back(v);
          }
          if (cv.nodes.size() > 2 && r.coin(0.4)) {
            bool cl = false;
            for (Vertex u : v.adjacentVertices()) cl = cl || u == cv.nodes[0].vertex;
            if (cl) cv.nodes.push_back(cv.nodes[0]);
          }
        } else { // one node per face at most, so that the level set constraints are independent
          SurfacePoint p = randPoint(r, m);
          std::set<size_t> fUsed;
          cv.nodes.push_back(p);
          while (cv.nodes.size() <= len) {
            std::vector<Face> fs = facesOf(p);
            Face f = fs[r.below(fs.size())];
            if (!fUsed.insert(f.getIndex()).second) break;
            std::vector<Halfedge> hs;
            for (Halfedge h : f.adjacentHalfedges()) hs.push_back(h);
            Halfedge h = hs[r.below(3)];
            SurfacePoint q = r.coin(0.6) ? SurfacePoint(h.edge(), r.uni(0.15, 0.85)) : r.coin() ? SurfacePoint(h.vertex()) : SurfacePoint(f, Vector3{0.2, 0.5, 0.3});
            if (q == p) break;
            if (q.type == SurfacePointType::Vertex && p.type == SurfacePointType::Vertex && q.vertex == p.vertex) break;
            if (q.type == SurfacePointType::Edge && p.type == SurfacePointType::Edge && q.edge == p.edge) break;
            cv.nodes.push_back(q);
            p = q;
          }
        }
        if (cv.nodes.size() >= 2) curves.push_back(cv);
      }
      for (size_t i = 0; i < np; i++) {
        Vertex v(&m, r.pick(vi));
        if (used.insert(v.getIndex()).second) points.push_back(v);
      }
      if (curves.empty() && points.empty()) throw Skip("no source");
    }
    SignedHeatOptions opt;
    int con = r.below(3);
    opt.levelSetConstraint = con == 0 ? LevelSetConstraint::None : con == 1 ? LevelSetConstraint::ZeroSet : LevelSetConstraint::Multiple;
    if (curves.empty() && con == 2) opt.levelSetConstraint = LevelSetConstraint::None, con = 0;
    if (r.coin(0.15)) opt.softLevelSetWeight = std::pow(10., r.uni(-1, 2));
    opt.preserveSourceNormals = r.coin(flat ? 0.3 : 0.15) && !curves.empty();
    std::string desc;
    for (auto& cv : curves) {
      desc += " curve";
      for (auto& p : cv.nodes) desc += " " + show(p);
    }
    for (auto& p : points) desc += " point " + show(p);
    desc += str(" constraint ", con, " soft ", opt.softLevelSetWeight, " preserve ", opt.preserveSourceNormals, " t ", tc);
    size_t E = m.nEdges();
    // reference heat field
    auto heat = [&](double eps, uint64_t seed) -> VCL {
      VCL X0 = VCL::Zero(E);
      for (auto& cv : curves) Q.addCurve(X0, cv.nodes);
      for (auto& p : points) Q.addVertex(X0, p.vertex);
      return solveDense(MCL(Q.MC.cast<CL>() + CL(Q.t) * Q.CR), X0, eps, seed);
    };
    auto ref = [&](double eps, uint64_t seed) -> VL {
      VL b = Q.divergence(heat(eps, seed));
      bool allV = true;
      std::vector<std::vector<SurfacePoint>> groups;
      for (auto& cv : curves) {
        groups.push_back(cv.nodes);
        for (auto& p : cv.nodes) allV = allV && p.type == SurfacePointType::Vertex;
      }
      VL x;
      if (con == 0) x = poisson(O.L, b);
      else {
        if (con == 1) {
          std::vector<SurfacePoint> all;
          for (auto& g : groups) all.insert(all.end(), g.begin(), g.end());
          for (auto& p : points) all.push_back(p);
          groups = {all};
        }
        std::vector<VL> rows;
        for (auto& g : groups)
          for (size_t i = 1; i < g.size(); i++) rows.push_back(Q.row(g[0]) - Q.row(g[i]));
        ML Cm(rows.size(), O.n);
        for (size_t i = 0; i < rows.size(); i++) Cm.row(i) = rows[i].transpose();
        if (opt.softLevelSetWeight > 0) x = poisson(ML(O.L + (LD)opt.softLevelSetWeight * Cm.transpose() * Cm), b);
        else x = Q.constrained(b, Cm);
      }
      LD s = 0, tot = 0;
      for (auto& cv : curves)
        for (size_t i = 0; i + 1 < cv.nodes.size(); i++) {
          LD l = Q.segLen(cv.nodes[i], cv.nodes[i + 1]);
          s += l * (Q.row(cv.nodes[i]).dot(x) + Q.row(cv.nodes[i + 1]).dot(x)) / 2;
          tot += l;
        }
      if (curves.empty()) s = x.minCoeff();
      else s /= tot;
      x.array() -= s;
      return x;
    };
    double tol;
    std::string key = str(flat ? "flat-line-" : "signed-", con, opt.softLevelSetWeight > 0 ? "-soft" : "", opt.preserveSourceNormals ? "-preserve" : "");
    bool compare = !opt.preserveSourceNormals;
    VL x;
    if (flat) {
      // the diffused normals must all point to the left for the distance to be exact
      VCL X = heat(0, 0);
      VL b = Q.divergence(X), e(O.n);
      for (Vertex v : m.vertices()) e[O.id(v)] = expect[v.getIndex()];
      VL want = O.L * e;
      if (scaleOf(VL(want - b)) > 1e-6 * scaleOf(want)) {
        c.count("flat: diffusion not positive");
        if (opt.softLevelSetWeight > 0 || opt.preserveSourceNormals) continue;
      } else {
        VertexData<double> d;
        if (points.empty() && r.coin()) d = S.computeDistance(curves, opt);
        else d = S.computeDistance(curves, points, opt);
        double sc = scaleOf(e);
        for (Vertex v : m.vertices()) near(d[v], (double)e[O.id(v)], 1e-6 * sc, key, v, desc);
        c.count(key);
        continue;
      }
    }
    if (!compare) {
      VertexData<double> d = S.computeDistance(curves, points, opt);
      for (Vertex v : m.vertices()) check(vf::finite(d[v]), key + "-finite", v, desc);
      c.count(key);
      continue;
    }
    x = measured<VL>(c, ref, tol, "signed");
    VertexData<double> d;
    if (points.empty() && r.coin()) d = S.computeDistance(curves, opt);
    else if (curves.empty()) d = S.computeDistance(points, opt);
    else d = S.computeDistance(curves, points, opt);
    for (Vertex v : m.vertices()) near(d[v], (double)x[O.id(v)], tol + (con ? 2e-6 : 1e-7) * (scaleOf(x) + (double)O.h), key, v, desc);
    c.count(key);
  }
}
// unsigned curves: the field may not depend on numbering or on the direction of the curve
void unsignedCase(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.multi = false;
  o.maxQ = 10;
  o.logScale = 1;
  GeoMesh g = geoMesh(c, o);
  ManifoldSurfaceMesh& m = *g.mesh;
  std::map<size_t, size_t> cm;
  if (components(m, cm) != 1 || m.nVertices() < 5 || m.nVertices() > 60) throw Skip("size");
  std::vector<Vertex> vs;
  auto rv = ranks<Vertex>(m);
  for (Vertex v : m.vertices()) vs.push_back(v);
  bool boundary = r.coin(0.3);
  std::vector<Vertex> cv{vs[r.below(vs.size())]};
  std::set<size_t> used{cv[0].getIndex()};
  size_t len = 1 + r.below(5);
  while (cv.size() <= len) {
    std::vector<Vertex> nb;
    for (Vertex u : cv.back().adjacentVertices())
      if (!used.count(u.getIndex())) nb.push_back(u);
    if (nb.empty()) break;
    cv.push_back(nb[r.below(nb.size())]);
    used.insert(cv.back().getIndex());
  }
  if (cv.size() < 2) throw Skip("no curve");
  bool touches = false;
  for (Vertex v : cv) touches = touches || v.isBoundary();
  if (touches && !boundary) throw Skip("boundary");
  for (Vertex v : {cv.front(), cv.back()})
    if (v.degree() < 4) throw Skip("sector too wide");
  for (Vertex v : {cv.front(), cv.back()})
    if (v.isBoundary()) throw Skip("end on the boundary"); // known finding: unsigned-boundary-end
  auto curveOf = [&](const std::vector<Vertex>& x) {
    Curve k;
    for (Vertex v : x) k.nodes.push_back(SurfacePoint(v));
    k.isSigned = false;
    return k;
  };
  SignedHeatOptions opt;
  opt.levelSetConstraint = r.coin() ? LevelSetConstraint::ZeroSet : r.coin() ? LevelSetConstraint::None : LevelSetConstraint::Multiple;
  SignedHeatSolver S(*g.geom);
  VertexData<double> d = S.computeDistance({curveOf(cv)}, opt);
  double sc = 0, L = 0;
  for (Edge e : m.edges()) L = std::max(L, norm(g.geom->vertexPositions[e.firstVertex()] - g.geom->vertexPositions[e.secondVertex()]));
  for (Vertex v : m.vertices()) {
    check(vf::finite(d[v]), "unsigned-finite", v);
    sc = std::max(sc, std::abs(d[v]));
  }
  std::vector<Vertex> rev(cv.rbegin(), cv.rend());
  VertexData<double> d2 = S.computeDistance({curveOf(rev)}, opt);
  // numbering
  Soup s2 = g.soup;
  std::vector<size_t> to(s2.pos.size());
  std::iota(to.begin(), to.end(), 0);
  r.shuffle(to);
  for (size_t i = 0; i < to.size(); i++) s2.pos[to[i]] = g.soup.pos[i];
  for (auto& f : s2.polys) {
    for (auto& v : f) v = to[v];
    std::rotate(f.begin(), f.begin() + r.below(f.size()), f.end());
  }
  r.shuffle(s2.polys);
  ManifoldSurfaceMesh m2(s2.polys);
  VertexPositionGeometry g2(m2, positions(m2, s2));
  SignedHeatSolver S2(g2);
  std::vector<Vertex> cv2;
  for (Vertex v : cv) cv2.push_back(m2.vertex(to[rv[v.getIndex()]]));
  VertexData<double> d3 = S2.computeDistance({curveOf(cv2)}, opt);
  for (Vertex v : m.vertices()) {
    near(d2[v], d[v], 1e-4 * sc + 1e-6 * L, "unsigned-reversed", v);
    near(d3[m2.vertex(to[rv[v.getIndex()]])], d[v], 1e-4 * sc + 1e-6 * L, "unsigned-relabelled", v);
  }
  c.count(touches ? "unsigned curves at the boundary" : "unsigned curves");
}
} // namespace

int main(int argc, char** argv) {
  Suite S;
  S.add("distance", 3, [](Ctx& c) { scalarCase(c, false); });
  S.add("distance-general", 2, [](Ctx& c) { scalarCase(c, true); });
  S.add("robust", 2, [](Ctx& c) { robustCase(c); });
  S.add("vector", 4, [](Ctx& c) { vectorCase(c); });
  S.add("polygon", 3, [](Ctx& c) { polygonCase(c); });
  S.add("signed", 3, [](Ctx& c) { signedCase(c, false); });
  S.add("signed-flat", 3, [](Ctx& c) { signedCase(c, true); });
  S.add("unsigned", 1, unsignedCase);
  // known finding: the arc at the end of an unsigned curve is integrated across the boundary
  S.probe("unsigned-boundary-end", [](Ctx& c) {
    Soup s = grid(4, 4, true);
    ManifoldSurfaceMesh m(s.polys);
    VertexPositionGeometry g(m, positions(m, s));
    for (Vertex v : m.vertices())
      for (Vertex u : v.adjacentVertices()) {
        if (!v.isBoundary() || u.isBoundary()) continue;
        Curve k;
        k.isSigned = false;
        k.nodes = {SurfacePoint(u), SurfacePoint(v)};
        SignedHeatSolver S(g);
        bool ok = true;
        try {
          VertexData<double> d = S.computeDistance({k}, {}, SignedHeatOptions());
          for (Vertex x : m.vertices()) ok = ok && vf::finite(d[x]);
        } catch (std::exception&) {
          ok = false;
        }
        check(ok, "unsigned-boundary-end", "no distance to the curve ", u, " ", v);
      }
  });
  return run(S, argc, argv);
}
