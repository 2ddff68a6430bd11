// C20: point clouds - containers through edits, neighbourhoods, derived quantities, caching, heat solver, sampling.
#include "geohelp.h"
#include "geometrycentral/pointcloud/local_triangulation.h"
#include "geometrycentral/pointcloud/neighborhoods.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_heat_solver.h"
#include "geometrycentral/pointcloud/point_position_frame_geometry.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/pointcloud/point_position_normal_geometry.h"
#include "geometrycentral/pointcloud/sample_cloud.h"
#include <Eigen/Dense>
using namespace vf;
using namespace geometrycentral::pointcloud;
typedef std::complex<double> CD;
namespace {
struct MutCloud : PointCloud {
  explicit MutCloud(size_t n) : PointCloud(n) {}
  Point add() { return getNewPoint(); }
  void del(Point p) { deleteElement(p); }
  std::vector<char> valid() const { return std::vector<char>(pointValid.begin(), pointValid.begin() + nPointsFillCount); }
};

// ---------------------------------------------------------------- containers
struct Tracked {
  std::unique_ptr<PointData<long>> d;
  std::unique_ptr<PointData<std::vector<int>>> v;
  std::unique_ptr<PointData<Vector3>> x;
  long def;
  std::vector<long> ref; // in order of the live points
};
void containers(Ctx& c) {
  Rng& r = c.rng;
  size_t n0 = r.coin(0.2) ? r.below(3) : 1 + r.below(20);
  std::unique_ptr<MutCloud> cl(new MutCloud(n0));
  std::vector<size_t> live; // index of each live point, in order
  for (size_t i = 0; i < n0; i++) live.push_back(i);
  std::list<Tracked> data;
  long stamp = 1;
  auto fresh = [&]() {
    Tracked t;
    t.def = r.range(-9, 9);
    t.d.reset(r.coin(0.5) ? new PointData<long>(*cl, t.def) : new PointData<long>());
    if (t.d->size() == 0 || r.coin(0.3)) *t.d = PointData<long>(*cl, t.def); // move assignment
    t.v.reset(new PointData<std::vector<int>>(*cl));
    t.x.reset(new PointData<Vector3>(*cl, Vector3{1, 2, (double)t.def}));
    t.ref.assign(live.size(), t.def);
    data.push_back(std::move(t));
  };
  auto audit = [&](const char* when) {
    check(cl->nPoints() == live.size(), "count", when, " ", cl->nPoints(), " expected ", live.size());
    cl->validateConnectivity();
    std::vector<size_t> seen;
    for (Point p : cl->points()) seen.push_back(p.getIndex());
    check(seen == live, "iteration", when);
    PointData<size_t> idx = cl->getPointIndices();
    size_t k = 0;
    for (Point p : cl->points()) check(idx[p] == k++, "pointIndices", when);
    for (Tracked& t : data) {
      k = 0;
      check(t.d->size() >= live.size() && t.d->getMesh() == cl.get(), "container", when, " size");
      for (Point p : cl->points()) {
        long e = t.ref[k];
        check((*t.d)[p] == e, "container", when, " point ", k, " holds ", (*t.d)[p], " expected ", e);
        check((*t.x)[p].z == (double)e && (*t.x)[p].x == (e == t.def ? (*t.x)[p].x : 7), "container", when, " vector of point ", k);
        check((*t.v)[p].size() == (e == t.def ? (*t.v)[p].size() : (size_t)(e % 5)), "container", when, " list of point ", k);
        k++;
      }
      // dense vector in order
      Eigen::Matrix<long, Eigen::Dynamic, 1> vec = t.d->toVector();
      check((size_t)vec.size() == live.size(), "toVector", when);
      for (size_t i = 0; i < live.size(); i++) check(vec(i) == t.ref[i], "toVector", when, " entry ", i);
    }
    c.count("audits");
  };
  fresh();
  audit("construction");
  size_t steps = 5 + r.below(c.thorough ? 120 : 40);
  for (size_t s = 0; s < steps; s++) {
    double u = r.u();
    if (u < 0.35) {
      size_t m = 1 + r.below(r.coin(0.1) ? 40 : 3);
      for (size_t i = 0; i < m; i++) {
        Point p = cl->add();
        check(p.getMesh() == cl.get(), "add", "mesh");
        check(std::find(live.begin(), live.end(), p.getIndex()) == live.end(), "add", "index already in use");
        live.push_back(p.getIndex());
        for (Tracked& t : data) t.ref.push_back(t.def);
      }
      c.count("adds", m);
      audit("add");
    } else if (u < 0.55 && !live.empty()) {
      size_t i = r.below(live.size());
      Point p(cl.get(), live[i]);
      cl->del(p);
      live.erase(live.begin() + i);
      for (Tracked& t : data) t.ref.erase(t.ref.begin() + i);
      c.count("deletes");
      audit("delete");
    } else if (u < 0.65) {
      bool was = cl->isCompressed();
      cl->compress();
      check(cl->isCompressed(), "compress", "flag");
      if (was)
        for (size_t i = 0; i < live.size(); i++) check(live[i] == i, "compress", "flag set on a cloud with holes");
      for (size_t i = 0; i < live.size(); i++) live[i] = i;
      c.count("compressions");
      audit("compress");
      check(cl->nPointsCapacity() >= live.size(), "compress", "capacity");
    } else if (u < 0.75) {
      if (data.size() < 5) fresh();
      else {
        auto it = data.begin();
        std::advance(it, r.below(data.size()));
        data.erase(it);
      }
      audit("container change");
    } else if (u < 0.82) {
      // copy
      std::unique_ptr<PointCloud> cp = cl->copy();
      check(cp->nPoints() == live.size(), "copy", "count");
      std::vector<size_t> seen;
      for (Point p : cp->points()) seen.push_back(p.getIndex());
      check(seen == live && cp->isCompressed() == cl->isCompressed(), "copy", "points");
      cp->validateConnectivity();
      if (!data.empty()) {
        Tracked& t = data.front();
        PointData<long> moved = t.d->reinterpretTo(*cp);
        size_t k = 0;
        for (Point p : cp->points()) check(moved[p] == t.ref[k++], "copy", "reinterpretTo");
        cp->compress();
        k = 0;
        for (Point p : cp->points()) check(moved[p] == t.ref[k++], "copy", "reinterpretTo after compression");
        if (r.coin(0.3)) cp.reset(); // the container outlives the copy
      }
      c.count("copies");
      audit("copy");
    } else if (!data.empty() && !live.empty()) {
      auto it = data.begin();
      std::advance(it, r.below(data.size()));
      size_t i = r.below(live.size());
      Point p(cl.get(), live[i]);
      long val = 20 + stamp++;
      (*it->d)[p] = val;
      (*it->x)[p] = Vector3{7, 0, (double)val};
      (*it->v)[p].assign(val % 5, 1);
      it->ref[i] = val;
    }
  }
  audit("end");
  c.sig(live.size() * 1000 + stamp);
  if (r.coin(0.5)) cl.reset(); // containers outlive the cloud
}

// ---------------------------------------------------------------- generators
struct Cloud {
  std::vector<Vector3> p;
  std::vector<Vector3> n; // analytic normals (consistently oriented), when available
  bool surface = true, planar = false, generic = true;
  std::string what;
};
Cloud makeCloud(Ctx& c, size_t n, int kind = -1) {
  Rng& r = c.rng;
  Cloud C;
  if (kind < 0) kind = r.below(8);
  switch (kind) {
  case 0: // plane, blue-ish noise by rejection
  case 1: {
    C.planar = true;
    C.what = "plane";
    double w = std::sqrt((double)n), rad = kind == 0 ? 0.55 : 0.05;
    size_t tries = 0;
    while (C.p.size() < n) {
      Vector3 q{r.uni(0, w), r.uni(0, w), 0};
      bool ok = true;
      for (Vector3& o : C.p) ok = ok && norm(o - q) > rad;
      if (ok || ++tries > 200 * n) C.p.push_back(q), C.n.push_back(Vector3{0, 0, 1});
    }
    break;
  }
  case 2: case 3: { // sphere / ellipsoid
    C.what = "ellipsoid";
    Vector3 ax{1, kind == 2 ? 1 : r.uni(0.6, 1.5), kind == 2 ? 1 : r.uni(0.6, 1.5)};
    for (size_t i = 0; i < n; i++) {
      double z = 1 - 2 * (i + 0.5) / n, t = i * 2.399963229728653 + r.uni(0, 0.15);
      Vector3 q{std::sqrt(1 - z * z) * std::cos(t), std::sqrt(1 - z * z) * std::sin(t), z};
      Vector3 nn{q.x / ax.x, q.y / ax.y, q.z / ax.z};
      C.n.push_back(nn / norm(nn));
      C.p.push_back(Vector3{q.x * ax.x, q.y * ax.y, q.z * ax.z});
    }
    break;
  }
  case 4: { // height field
    C.what = "height field";
    double w = std::sqrt((double)n), a = r.uni(0.1, 0.6), f = r.uni(0.3, 1);
    for (size_t i = 0; i < n; i++) {
      double x = r.uni(0, w), y = r.uni(0, w);
      C.p.push_back(Vector3{x, y, a * std::sin(f * x) * std::cos(f * y)});
      Vector3 nn{-a * f * std::cos(f * x) * std::cos(f * y), a * f * std::sin(f * x) * std::sin(f * y), 1};
      C.n.push_back(nn / norm(nn));
    }
    break;
  }
  case 5: { // cylinder
    C.what = "cylinder";
    double R = std::sqrt(n / 20.) ;
    for (size_t i = 0; i < n; i++) {
      double t = r.uni(0, 2 * M_PI), z = r.uni(0, 20. * R / 6.);
      C.n.push_back(Vector3{std::cos(t), std::sin(t), 0});
      C.p.push_back(Vector3{R * std::cos(t), R * std::sin(t), z});
    }
    break;
  }
  case 6: { // volume
    C.what = "volume";
    C.surface = false;
    for (size_t i = 0; i < n; i++) C.p.push_back(Vector3{r.normal(), r.normal(), r.normal()}), C.n.push_back(randUnit(r));
    break;
  }
  default: { // clusters of very different density
    C.what = "clusters";
    C.surface = false;
    size_t k = 1 + r.below(4);
    std::vector<Vector3> ctr;
    std::vector<double> s;
    for (size_t i = 0; i < k; i++) ctr.push_back(Vector3{r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}), s.push_back(std::pow(10., r.uni(-3, 0)));
    for (size_t i = 0; i < n; i++) {
      size_t j = r.below(k);
      C.p.push_back(ctr[j] + s[j] * Vector3{r.normal(), r.normal(), 0.2 * r.normal()});
      C.n.push_back(randUnit(r));
    }
  }
  }
  if (r.coin(0.7)) {
    Rigid R = randRigid(r, r.coin(0.5) ? 0 : 2, 1);
    for (Vector3& q : C.p) q = R(q);
    for (Vector3& q : C.n) q = R.dir(q);
  }
  return C;
}
PointData<Vector3> put(PointCloud& cl, const std::vector<Vector3>& v) {
  PointData<Vector3> d(cl);
  for (size_t i = 0; i < v.size(); i++) d[i] = v[i];
  return d;
}

// ---------------------------------------------------------------- neighbourhoods
void checkNeighbors(Ctx& c, PointCloud& cl, const std::vector<Vector3>& P, size_t k, Neighborhoods& N, double rel) {
  size_t n = P.size();
  for (Point p : cl.points()) {
    const std::vector<Point>& l = N.neighbors[p];
    check(l.size() == k, "neighbors", "list of ", l.size(), " for k = ", k);
    std::set<size_t> s;
    std::vector<double> got, all;
    for (Point q : l) {
      check(q.getMesh() == &cl && q.getIndex() < n && q != p, "neighbors", "invalid or self entry");
      check(s.insert(q.getIndex()).second, "neighbors", "repeated entry");
      got.push_back(norm(P[q.getIndex()] - P[p.getIndex()]));
    }
    for (size_t i = 0; i < n; i++)
      if (i != p.getIndex()) all.push_back(norm(P[i] - P[p.getIndex()]));
    std::sort(all.begin(), all.end());
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < k; i++) near(got[i], all[i], rel * all.back(), "neighbors", "distance of neighbour ", i);
    c.count("neighbourLists");
  }
}
void neighborhoods(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 2 + r.below(c.thorough ? 150 : 60);
  Cloud C = makeCloud(c, n);
  double u = r.u();
  if (u < 0.2) { // exact duplicates
    for (size_t i = 0; i < n; i++)
      if (r.coin(0.4)) C.p[i] = C.p[r.below(n)];
  } else if (u < 0.35) { // lattice: many equal distances
    for (size_t i = 0; i < n; i++) C.p[i] = Vector3{(double)(i % 5), (double)((i / 5) % 5), (double)(i / 25)};
  } else if (u < 0.42) // on a line
    for (size_t i = 0; i < n; i++) C.p[i] = Vector3{r.uni(-1, 1), 0, 0};
  c.note = C.what;
  PointCloud cl(n);
  PointData<Vector3> pos = put(cl, C.p);
  size_t k = r.coin(0.15) ? n - 1 : r.below(std::min<size_t>(n, 40));
  Neighborhoods N(cl, pos, k);
  checkNeighbors(c, cl, C.p, k, N, 1e-14);
  // not enough points: a documented limit of the search, must be reported
  size_t bad = n + r.below(3);
  throws([&]() { Neighborhoods B(cl, pos, bad); }, "tooFew", "k = ", bad, " with ", n, " points");
  c.sig(hashD(C.p[0].x) + k);
}

// ---------------------------------------------------------------- reference quantities
Eigen::Vector3d ev(Vector3 a) { return Eigen::Vector3d(a.x, a.y, a.z); }
// rotation taking unit a to unit b about a x b
Eigen::Matrix3d alignRot(Vector3 a, Vector3 b) {
  Eigen::Vector3d A = ev(a), B = ev(b), v = A.cross(B);
  double cs = A.dot(B);
  Eigen::Matrix3d K;
  K << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return Eigen::Matrix3d::Identity() + K + K * K / (1 + cs);
}
typedef std::array<Vector3, 2> Basis;
// 2x2 map from the tangent space of s to that of t; reflects when the normals point to opposite sides
Eigen::Matrix2d transportRef(Vector3 ns, const Basis& bs, Vector3 nt, const Basis& bt, bool orient) {
  if (orient && dot(ns, nt) < 0) nt = -nt;
  Eigen::Matrix3d R = alignRot(ns, nt);
  Eigen::Matrix2d M;
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) M(i, j) = ev(bt[i]).dot(R * ev(bs[j]));
  return M;
}

struct World {
  Cloud C;
  size_t n, k;
  int geoKind; // 0 positions, 1 normals, 2 frames
  bool mixed = false;
  std::unique_ptr<PointCloud> cl;
  std::unique_ptr<PointPositionGeometry> g;
  std::vector<Vector3> given;
  std::vector<std::array<Vector3, 3>> frames;
};
std::unique_ptr<PointPositionGeometry> makeGeom(World& W) {
  std::unique_ptr<PointPositionGeometry> g;
  PointData<Vector3> pos = put(*W.cl, W.C.p);
  if (W.geoKind == 0) g.reset(new PointPositionGeometry(*W.cl, pos));
  else if (W.geoKind == 1) g.reset(new PointPositionNormalGeometry(*W.cl, pos, put(*W.cl, W.given)));
  else {
    PointData<std::array<Vector3, 3>> f(*W.cl);
    for (size_t i = 0; i < W.n; i++) f[i] = W.frames[i];
    g.reset(new PointPositionFrameGeometry(*W.cl, pos, f));
  }
  g->kNeighborSize = W.k;
  return g;
}
World makeWorld(Ctx& c, size_t nMin, size_t nMax, bool surfaceOnly, int kind = -1) {
  Rng& r = c.rng;
  World W;
  W.n = nMin + r.below(nMax - nMin + 1);
  if (kind < 0 && surfaceOnly) kind = r.below(6);
  W.C = makeCloud(c, W.n, kind);
  W.k = std::min<size_t>(W.n - 1, surfaceOnly ? 8 + r.below(20) : 3 + r.below(25));
  W.geoKind = r.below(3);
  W.mixed = r.coin(0.5);
  W.given = W.C.n;
  for (Vector3& q : W.given)
    if (W.mixed && r.coin(0.4)) q = -q;
  for (size_t i = 0; i < W.n; i++) {
    Basis b = W.given[i].buildTangentBasis();
    double t = r.uni(0, 2 * M_PI);
    W.frames.push_back({{std::cos(t) * b[0] + std::sin(t) * b[1], -std::sin(t) * b[0] + std::cos(t) * b[1], W.given[i]}});
  }
  W.cl.reset(new PointCloud(W.n));
  W.g = makeGeom(W);
  c.note = str(W.C.what, " n=", W.n, " k=", W.k, " geo=", W.geoKind, W.mixed ? " mixed" : "");
  return W;
}
Vector3 P(World& W, Point p) { return W.C.p[p.getIndex()]; }
double spread(World& W, Point p) {
  double L = 0;
  for (Point q : W.g->neighbors->neighbors[p]) L = std::max(L, norm(P(W, q) - P(W, p)));
  return L;
}

void localQuantities(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 5, c.thorough ? 150 : 60, false);
  PointPositionGeometry& g = *W.g;
  g.requireNeighbors();
  g.requireNormals();
  g.requireTangentBasis();
  g.requireTangentCoordinates();
  g.requireTangentTransport();
  g.requireGradient();
  g.requirePointIndices();
  checkNeighbors(c, *W.cl, W.C.p, W.k, *g.neighbors, 1e-13);
  std::vector<double> f(W.n);
  Vector3 A{r.normal(), r.normal(), r.normal()};
  bool linear = r.coin(0.5);
  Vector<double> fv(W.n);
  for (size_t i = 0; i < W.n; i++) fv[i] = f[i] = linear ? dot(A, W.C.p[i]) : r.normal();
  Vector<CD> G = g.gradient * fv.cast<CD>();
  for (Point p : W.cl->points()) {
    size_t ip = p.getIndex();
    check(g.pointIndices[p] == ip, "pointIndices", "");
    Vector3 N = g.normals[p];
    auto& nb = g.neighbors->neighbors[p];
    near(norm(N), 1, 1e-9, "normals", "length");
    if (W.geoKind == 0) {
      Eigen::Matrix3d Cv = Eigen::Matrix3d::Zero();
      for (Point q : nb) {
        Eigen::Vector3d d = ev(P(W, q) - P(W, p));
        Cv += d * d.transpose();
      }
      Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(Cv);
      double q = ev(N).dot(Cv * ev(N));
      near(q, es.eigenvalues()[0], 1e-11 * es.eigenvalues()[2], "normals", "variance along the normal of point ", ip);
      c.count("pcaNormals");
    } else check(N == W.given[ip], "normals", "supplied normal not used at ", ip);
    Basis b = g.tangentBasis[p];
    if (W.geoKind == 2) check(b[0] == W.frames[ip][0] && b[1] == W.frames[ip][1], "tangentBasis", "supplied frame not used");
    nearV(cross(b[0], b[1]), N, 1e-9, "tangentBasis", "right-handed frame");
    near(norm(b[0]), 1, 1e-9, "tangentBasis", "length");
    near(norm(b[1]), 1, 1e-9, "tangentBasis", "length");
    near(dot(b[0], b[1]), 0, 1e-9, "tangentBasis", "orthogonal");
    near(dot(b[0], N), 0, 1e-9, "tangentBasis", "orthogonal to the normal");
    double L = spread(W, p);
    check(g.tangentCoordinates[p].size() == W.k && g.tangentTransport[p].size() == W.k, "sizes", "");
    Eigen::MatrixXd X(W.k, 2);
    Eigen::VectorXd y(W.k);
    for (size_t i = 0; i < W.k; i++) {
      Vector3 d = P(W, nb[i]) - P(W, p);
      Vector2 t = g.tangentCoordinates[p][i];
      near(t.x, dot(d, b[0]), 1e-9 * L, "tangentCoordinates", "x of neighbour ", i);
      near(t.y, dot(d, b[1]), 1e-9 * L, "tangentCoordinates", "y of neighbour ", i);
      X(i, 0) = t.x;
      X(i, 1) = t.y;
      y(i) = f[nb[i].getIndex()] - f[ip];
      Vector3 NT = g.normals[nb[i]];
      if (dot(N, NT) > -0.999) {
        Eigen::Matrix2d M = transportRef(N, b, NT, g.tangentBasis[nb[i]], false);
        Vector2 tr = g.tangentTransport[p][i];
        near(tr.x, M(0, 0), 1e-5, "tangentTransport", "neighbour ", i);
        near(tr.y, M(1, 0), 1e-5, "tangentTransport", "neighbour ", i);
        near(M(1, 1), tr.x, 1e-5, "tangentTransport", "rotation");
        c.count("transports");
      }
    }
    // least squares: the residual is orthogonal to the columns; minimal norm when rank deficient is not promised
    Eigen::JacobiSVD<Eigen::MatrixXd> sv(X);
    if (sv.singularValues()[1] < 1e-4 * sv.singularValues()[0]) continue;
    Eigen::Vector2d gr(G[ip].real(), G[ip].imag());
    Eigen::Vector2d res = X.transpose() * (X * gr - y);
    double sc = X.squaredNorm() * gr.norm() + X.norm() * y.norm() + 1e-300;
    check(res.norm() <= 1e-9 * sc, "gradient", "not the least-squares gradient at ", ip, ": residual ", res.norm(), " of ", sc);
    if (linear && W.C.planar && (W.geoKind != 0 || L > 0)) {
      Vector3 At = A - dot(A, W.C.n[ip]) * W.C.n[ip];
      near(gr[0], dot(A, b[0]), 1e-6 * (1 + norm(A)), "gradient", "of a linear function, x");
      near(gr[1], dot(A, b[1]), 1e-6 * (1 + norm(A)), "gradient", "of a linear function, y");
      c.count("planarGradients");
    }
    c.count("gradients");
  }
  c.sig(hashD(W.C.p[0].x) + W.k);
}

// ---------------------------------------------------------------- local triangulations
void localTri(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 5, c.thorough ? 120 : 60, false);
  PointPositionGeometry& g = *W.g;
  bool heur = r.coin();
  PointData<std::vector<std::array<Point, 3>>> T = buildLocalTriangulations(*W.cl, g, heur);
  g.requireNeighbors();
  g.requireTangentCoordinates();
  size_t total = 0;
  for (Point p : W.cl->points()) {
    auto& nb = g.neighbors->neighbors[p];
    std::vector<Vector2> x = g.tangentCoordinates[p];
    size_t k = x.size();
    double L = 0;
    for (auto& q : x) L = std::max(L, norm(q));
    for (auto& q : x) q /= L;
    // general position only
    bool ok = true;
    for (size_t i = 0; i < k && ok; i++) {
      if (norm(x[i]) < 1e-4) ok = false;
      for (size_t j = 0; j < i && ok; j++)
        if (std::abs(cross(x[i], x[j])) < 1e-5 * norm(x[i]) * norm(x[j])) ok = false;
    }
    if (!ok) { c.count("degenerateStars"); continue; }
    std::set<std::pair<size_t, size_t>> ref, got;
    for (size_t i = 0; i < k && ok; i++)
      for (size_t j = 0; j < k; j++) {
        if (i == j || cross(x[i], x[j]) <= 0) continue;
        // centre of the circle through the origin, xi, xj
        double d = 2 * cross(x[i], x[j]);
        double a = norm2(x[i]), b = norm2(x[j]);
        Vector2 o{(x[j].y * a - x[i].y * b) / d, (x[i].x * b - x[j].x * a) / d};
        bool empty = true;
        for (size_t l = 0; l < k; l++) {
          if (l == i || l == j) continue;
          double e = norm2(x[l]) - 2 * dot(o, x[l]); // power of xl
          if (std::abs(e) < 1e-9 * (1 + norm(o))) ok = false;
          if (e < 0) empty = false;
        }
        if (empty) ref.insert({nb[i].getIndex(), nb[j].getIndex()});
      }
    if (!ok) { c.count("degenerateStars"); continue; }
    for (auto& t : T[p]) {
      check(t[0] == p, "localTri", "triangle does not start at its centre");
      check(got.insert({t[1].getIndex(), t[2].getIndex()}).second, "localTri", "repeated triangle");
    }
    check(got == ref, "localTri", "point ", p.getIndex(), ": ", got.size(), " triangles, Delaunay star has ", ref.size(), heur ? " (heuristic)" : "");
    c.count("stars");
    total += got.size();
  }
  // index versions
  auto I = handleToInds(*W.cl, T);
  auto F = handleToFlatInds(*W.cl, T);
  size_t k = 0;
  for (Point p : W.cl->points()) {
    check(I[p].size() == T[p].size(), "toInds", "");
    for (size_t i = 0; i < T[p].size(); i++, k++)
      for (int j = 0; j < 3; j++) check(I[p][i][j] == T[p][i][j].getIndex() && k < F.size() && F[k].size() == 3 && F[k][j] == T[p][i][j].getIndex(), "toInds", "");
  }
  check(k == F.size(), "toInds", "");
  c.sig(hashD(W.C.p[0].x) + total);
}
// clouds with coincident and collinear points: must terminate with sane output
void degenerate(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 8, 60, true);
  for (size_t i = 0; i < W.n; i++) {
    if (r.coin(0.15)) W.C.p[i] = W.C.p[r.below(W.n)];
    else if (r.coin(0.1)) W.C.p[i] = 0.5 * (W.C.p[r.below(W.n)] + W.C.p[r.below(W.n)]);
  }
  if (r.coin(0.2))
    for (size_t i = 0; i < W.n; i++) W.C.p[i] = Vector3{(double)(i % 7), (double)(i / 7), 0};
  if (W.geoKind) W.geoKind = 1;
  W.g = makeGeom(W);
  PointPositionGeometry& g = *W.g;
  auto T = buildLocalTriangulations(*W.cl, g, true);
  for (Point p : W.cl->points())
    for (auto& t : T[p]) {
      check(t[0] == p && t[1] != p && t[2] != p && t[1] != t[2], "degenerateTri", "triangle with repeated points");
      bool inA = false, inB = false;
      g.requireNeighbors();
      for (Point q : g.neighbors->neighbors[p]) inA |= q == t[1], inB |= q == t[2];
      check(inA && inB, "degenerateTri", "triangle leaves the neighbourhood");
    }
  bool used = true;
  std::vector<char> touched(W.n, 0);
  for (Point p : W.cl->points())
    for (auto& t : T[p])
      for (Point q : t) touched[q.getIndex()] = 1;
  for (char t : touched) used = used && t;
  if (!used) { c.count("unusedPoints"); throw Skip("a point is in no triangle"); }
  g.requireLaplacian();
  for (int k = 0; k < g.laplacian.outerSize(); k++)
    for (Eigen::SparseMatrix<double>::InnerIterator it(g.laplacian, k); it; ++it) check(vf::finite(it.value()), "degenerateLaplacian", it.value());
  Vector<double> one = Vector<double>::Ones(W.n);
  double m = 0;
  for (int i = 0; i < g.laplacian.rows(); i++) m = std::max(m, std::abs(g.laplacian.coeff(i, i)));
  check((g.laplacian * one).norm() <= 1e-9 * m * W.n, "degenerateLaplacian", "row sums ", (g.laplacian * one).norm());
  c.count("degenerateClouds");
  c.sig(hashD(W.C.p[0].x) + W.k);
}

// ---------------------------------------------------------------- operators
struct Ref {
  Eigen::MatrixXd L, M, LC;
  double h;
};
Ref reference(World& W) {
  PointPositionGeometry& g = *W.g;
  Ref R;
  size_t n = W.n;
  R.L = Eigen::MatrixXd::Zero(n, n);
  R.M = Eigen::MatrixXd::Zero(n, n);
  surface::SurfaceMesh& m = *g.tuftedMesh;
  g.tuftedGeom->requireEdgeLengths();
  EdgeData<double>& l = g.tuftedGeom->edgeLengths;
  for (surface::Face f : m.faces()) {
    Halfedge h[3];
    h[0] = f.halfedge();
    h[1] = h[0].next();
    h[2] = h[1].next();
    check(h[2].next() == h[0], "tufted", "face is not a triangle");
    double A = triArea(l[h[0].edge()], l[h[1].edge()], l[h[2].edge()]);
    for (int i = 0; i < 3; i++) {
      double w = 0.5 * triCot(l[h[i].edge()], l[h[(i + 1) % 3].edge()], l[h[(i + 2) % 3].edge()]);
      size_t a = h[i].tailVertex().getIndex(), b = h[i].tipVertex().getIndex();
      R.L(a, a) += w;
      R.L(b, b) += w;
      R.L(a, b) -= w;
      R.L(b, a) -= w;
      R.M(a, a) += A / 3;
    }
  }
  R.h = 0;
  for (Edge e : m.edges()) R.h += l[e];
  R.h /= m.nEdges();
  R.LC = Eigen::MatrixXd::Zero(2 * n, 2 * n);
  return R;
}
// false when some pair of adjacent normals makes the transport ambiguous
bool connRef(World& W, Ref& R) {
  PointPositionGeometry& g = *W.g;
  size_t n = W.n;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      if (i == j || g.laplacian.coeff(i, j) == 0) continue;
      if (std::abs(dot(g.normals[i], g.normals[j])) < 1e-3) return false;
      double v = g.laplacian.coeff(i, j);
      R.LC.block(2 * i, 2 * j, 2, 2) = v * transportRef(g.normals[j], g.tangentBasis[j], g.normals[i], g.tangentBasis[i], true);
      R.LC(2 * i, 2 * i) -= v;
      R.LC(2 * i + 1, 2 * i + 1) -= v;
    }
  return true;
}
double maxAbs(const Eigen::MatrixXd& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

void operators(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 12, c.thorough ? 100 : 50, true);
  PointPositionGeometry& g = *W.g;
  g.requireTuftedTriangulation();
  g.requireLaplacian();
  g.requireNormals();
  g.requireTangentBasis();
  g.requireConnectionLaplacian();
  size_t n = W.n;
  surface::SurfaceMesh& m = *g.tuftedMesh;
  check(m.nVertices() == n, "tufted", "vertices do not correspond to points");
  check(g.tuftedMesh.get() == &g.tuftedGeom->mesh, "tufted", "geometry of another mesh");
  m.validateConnectivity();
  for (Edge e : m.edges()) {
    size_t d = 0;
    for (Halfedge h : e.adjacentHalfedges()) d += h.isInterior();
    check(d == 2, "tufted", "edge with ", d, " faces");
  }
  Ref R = reference(W);
  EdgeData<double>& l = g.tuftedGeom->edgeLengths;
  // area: two sheets of the local triangles (intrinsic flips keep the area; mollification changes it a little)
  auto T = buildLocalTriangulations(*W.cl, g, true);
  double A3 = 0, worst = 0;
  size_t nT = 0;
  for (Point p : W.cl->points())
    for (auto& t : T[p]) {
      nT++;
      A3 += 0.5 * norm(cross(P(W, t[1]) - P(W, t[0]), P(W, t[2]) - P(W, t[0])));
      double a = norm(P(W, t[1]) - P(W, t[0])), b = norm(P(W, t[2]) - P(W, t[1])), d = norm(P(W, t[0]) - P(W, t[2]));
      worst = std::max(worst, std::max(a, std::max(b, d)));
    }
  check(m.nFaces() == 2 * nT, "tufted", m.nFaces(), " faces from ", nT, " local triangles");
  double At = R.M.trace();
  double meanA = 2e-5 * m.nFaces() * worst * worst + 4e-3 * At;
  near(At, 2 * A3, meanA, "tufted", "area of the cover");
  double mx = maxAbs(R.L);
  for (Edge e : m.edges()) { // Delaunay
    double w = 0;
    for (Halfedge h : e.adjacentHalfedges()) w += triCot(l[e], l[h.next().edge()], l[h.next().next().edge()]);
    check(w >= -1e-4, "tufted", "edge is not Delaunay: cotan sum ", w);
  }
  Eigen::MatrixXd L(g.laplacian), LC(g.connectionLaplacian);
  check((size_t)L.rows() == n && (size_t)L.cols() == n, "laplacian", "size");
  check(maxAbs(L - R.L) <= 1e-8 * mx, "laplacian", "differs from the cotan Laplacian of the cover by ", maxAbs(L - R.L), " of ", mx);
  check(maxAbs(L - L.transpose()) <= 1e-10 * mx, "laplacian", "not symmetric");
  check((L * Eigen::VectorXd::Ones(n)).norm() <= 1e-9 * mx * n, "laplacian", "constants are not in the kernel");
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      if (i != j) check(L(i, j) <= 1e-4, "laplacian", "positive off-diagonal ", L(i, j));
  check((size_t)LC.rows() == 2 * n, "connection", "size");
  check(maxAbs(LC - LC.transpose()) <= 1e-5 * mx, "connection", "not symmetric: ", maxAbs(LC - LC.transpose()), " of ", mx);
  if (connRef(W, R)) {
    check(maxAbs(LC - R.LC) <= 1e-5 * mx, "connection", "differs from the reference by ", maxAbs(LC - R.LC), " of ", mx);
    c.count("connections");
  }
  if (W.C.planar) { // a constant field of the plane is parallel, whatever the orientation of the normals
    Vector3 X = W.C.n[0].buildTangentBasis()[0];
    Eigen::VectorXd v(2 * n);
    for (size_t i = 0; i < n; i++) v[2 * i] = dot(X, g.tangentBasis[i][0]), v[2 * i + 1] = dot(X, g.tangentBasis[i][1]);
    check((LC * v).norm() <= 1e-5 * mx * n, "connection", "parallel field of the plane not in the kernel: ", (LC * v).norm(), " of ", mx);
    c.count("planes");
  }
  // flipping normals of supplied frames does not change the operator up to the change of frame
  if (W.geoKind == 2) {
    World V;
    V.C = W.C;
    V.n = n;
    V.k = W.k;
    V.geoKind = 2;
    V.cl.reset(new PointCloud(n));
    V.frames = W.frames;
    std::vector<int> flip(n);
    std::vector<double> th(n, 0);
    for (size_t i = 0; i < n; i++) {
      flip[i] = 0;
      th[i] = r.uni(0, 6);
      auto f = W.frames[i];
      Vector3 x = std::cos(th[i]) * f[0] + std::sin(th[i]) * f[1], y = -std::sin(th[i]) * f[0] + std::cos(th[i]) * f[1];
      V.frames[i] = {{x, y, f[2]}};
    }
    V.g = makeGeom(V);
    // the triangulation may depend on the frames through ties only; compare when the Laplacians agree
    V.g->requireConnectionLaplacian();
    V.g->requireLaplacian();
    Eigen::MatrixXd L2(V.g->laplacian), C2(V.g->connectionLaplacian);
    if (maxAbs(L2 - L) <= 1e-9 * mx) {
      Eigen::MatrixXd B = Eigen::MatrixXd::Zero(2 * n, 2 * n); // coordinates in W from coordinates in V
      for (size_t i = 0; i < n; i++)
        for (int a = 0; a < 2; a++)
          for (int b = 0; b < 2; b++) B(2 * i + a, 2 * i + b) = dot(W.frames[i][a], V.frames[i][b]);
      check(maxAbs(B * C2 * B.transpose() - LC) <= 1e-5 * mx, "connection", "not equivariant under a change of frames: ", maxAbs(B * C2 * B.transpose() - LC));
      c.count("frameChanges");
    }
  }
  // scaling by a power of two changes nothing but units
  {
    World V;
    double s = std::pow(2., (double)r.range(-4, 4));
    V.C = W.C;
    for (Vector3& q : V.C.p) q *= s;
    V.n = n, V.k = W.k, V.geoKind = W.geoKind, V.given = W.given, V.frames = W.frames;
    V.cl.reset(new PointCloud(n));
    V.g = makeGeom(V);
    V.g->requireLaplacian();
    check(maxAbs(Eigen::MatrixXd(V.g->laplacian) - L) <= 1e-7 * mx, "laplacian", "not scale invariant (factor ", s, "): ", maxAbs(Eigen::MatrixXd(V.g->laplacian) - L));
  }
  c.count("operators");
  c.sig(hashD(L(0, 0)));
}

// ---------------------------------------------------------------- caching
struct Q {
  const char* name;
  std::function<void(PointPositionGeometry&)> req, unreq;
  std::function<std::vector<double>(PointPositionGeometry&)> read;
};
void pushM(std::vector<double>& o, const Eigen::SparseMatrix<double>& m) {
  o.push_back(m.rows());
  for (int k = 0; k < m.outerSize(); k++)
    for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it) o.push_back(it.row() + 1e3 * it.col()), o.push_back(it.value());
}
std::vector<Q> quantities() {
  typedef PointPositionGeometry G;
  return {
      {"indices", [](G& g) { g.requirePointIndices(); }, [](G& g) { g.unrequirePointIndices(); },
       [](G& g) {
         std::vector<double> o;
         for (Point p : g.cloud.points()) o.push_back(g.pointIndices[p]);
         return o;
       }},
      {"neighbors", [](G& g) { g.requireNeighbors(); }, [](G& g) { g.unrequireNeighbors(); },
       [](G& g) {
         std::vector<double> o;
         check((bool)g.neighbors, "caching", "neighbors missing");
         for (Point p : g.cloud.points())
           for (Point q : g.neighbors->neighbors[p]) o.push_back(q.getIndex());
         return o;
       }},
      {"normals", [](G& g) { g.requireNormals(); }, [](G& g) { g.unrequireNormals(); },
       [](G& g) {
         std::vector<double> o;
         for (Point p : g.cloud.points())
           for (int i = 0; i < 3; i++) o.push_back(g.normals[p][i]);
         return o;
       }},
      {"basis", [](G& g) { g.requireTangentBasis(); }, [](G& g) { g.unrequireTangentBasis(); },
       [](G& g) {
         std::vector<double> o;
         for (Point p : g.cloud.points())
           for (int i = 0; i < 6; i++) o.push_back(g.tangentBasis[p][i / 3][i % 3]);
         return o;
       }},
      {"coords", [](G& g) { g.requireTangentCoordinates(); }, [](G& g) { g.unrequireTangentCoordinates(); },
       [](G& g) {
         std::vector<double> o;
         for (Point p : g.cloud.points())
           for (Vector2 t : g.tangentCoordinates[p]) o.push_back(t.x), o.push_back(t.y);
         return o;
       }},
      {"transport", [](G& g) { g.requireTangentTransport(); }, [](G& g) { g.unrequireTangentTransport(); },
       [](G& g) {
         std::vector<double> o;
         for (Point p : g.cloud.points())
           for (Vector2 t : g.tangentTransport[p]) o.push_back(t.x), o.push_back(t.y);
         return o;
       }},
      {"tufted", [](G& g) { g.requireTuftedTriangulation(); }, [](G& g) { g.unrequireTuftedTriangulation(); },
       [](G& g) {
         std::vector<double> o;
         check((bool)g.tuftedMesh && (bool)g.tuftedGeom, "caching", "tufted triangulation missing");
         g.tuftedGeom->requireEdgeLengths();
         for (Edge e : g.tuftedMesh->edges()) o.push_back(g.tuftedGeom->edgeLengths[e]);
         g.tuftedGeom->unrequireEdgeLengths();
         return o;
       }},
      {"laplacian", [](G& g) { g.requireLaplacian(); }, [](G& g) { g.unrequireLaplacian(); },
       [](G& g) {
         std::vector<double> o;
         pushM(o, g.laplacian);
         return o;
       }},
      {"connection", [](G& g) { g.requireConnectionLaplacian(); }, [](G& g) { g.unrequireConnectionLaplacian(); },
       [](G& g) {
         std::vector<double> o;
         pushM(o, g.connectionLaplacian);
         return o;
       }},
      {"gradient", [](G& g) { g.requireGradient(); }, [](G& g) { g.unrequireGradient(); },
       [](G& g) {
         std::vector<double> o;
         o.push_back(g.gradient.rows());
         for (int k = 0; k < g.gradient.outerSize(); k++)
           for (Eigen::SparseMatrix<CD>::InnerIterator it(g.gradient, k); it; ++it) o.push_back(it.value().real()), o.push_back(it.value().imag());
         return o;
       }},
  };
}
void caching(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 10, 30, true);
  std::vector<Q> qs = quantities();
  std::vector<int> held(qs.size(), 0);
  PointPositionGeometry& g = *W.g;
  std::vector<std::vector<double>> ref;
  auto rebuild = [&]() {
    ref.clear();
    std::unique_ptr<PointPositionGeometry> F = makeGeom(W);
    for (Q& q : qs) {
      q.req(*F);
      ref.push_back(q.read(*F));
    }
  };
  std::string hist;
  auto audit = [&]() {
    for (size_t i = 0; i < qs.size(); i++)
      if (held[i]) {
        std::vector<double> v = qs[i].read(g);
        check(v == ref[i], "caching", qs[i].name, " differs from a fresh geometry's after", hist);
        c.count("cacheChecks");
      }
    if (W.geoKind >= 1) // supplied data are always there
      for (Point p : W.cl->points()) check(g.normals[p] == W.given[p.getIndex()], "caching", "supplied normals lost after", hist);
    if (W.geoKind == 2)
      for (Point p : W.cl->points()) check(g.tangentBasis[p][0] == W.frames[p.getIndex()][0], "caching", "supplied frames lost after", hist);
  };
  rebuild();
  size_t steps = 5 + r.below(20);
  for (size_t s = 0; s < steps; s++) {
    double u = r.u();
    size_t i = r.below(qs.size());
    if (u < 0.45) {
      hist += str(" +", qs[i].name);
      qs[i].req(g);
      held[i]++;
    } else if (u < 0.7) {
      if (held[i]) {
        hist += str(" -", qs[i].name);
        qs[i].unreq(g);
        held[i]--;
      }
    } else if (u < 0.87) {
      hist += " purge";
      g.purgeQuantities();
    } else {
      hist += " move+refresh";
      double sc = norm(W.C.p[0] - W.C.p[1]);
      for (size_t j = 0; j < W.n; j++) {
        W.C.p[j] += 0.05 * sc * Vector3{r.normal(), r.normal(), r.normal()};
        g.positions[j] = W.C.p[j];
      }
      if (r.coin(0.3)) g.kNeighborSize = W.k = std::min<size_t>(W.n - 1, 8 + r.below(20));
      g.refreshQuantities();
      rebuild();
    }
    audit();
  }
  c.sig(hashD(W.C.p[0].x) + std::hash<std::string>()(hist));
}

// ---------------------------------------------------------------- heat methods
Vector<double> spd(const Eigen::MatrixXd& A, const Vector<double>& b) { return A.ldlt().solve(b); }
struct Heat {
  Ref R;
  double t;
  Eigen::MatrixXd H;
};
Vector<double> distRef(World& W, Heat& Q, const std::vector<size_t>& src) {
  PointPositionGeometry& g = *W.g;
  surface::SurfaceMesh& m = *g.tuftedMesh;
  EdgeData<double>& l = g.tuftedGeom->edgeLengths;
  size_t n = W.n;
  Vector<double> rhs = Vector<double>::Zero(n);
  for (size_t s : src) rhs[s] += 1;
  Vector<double> u = spd(Q.H, rhs), div = Vector<double>::Zero(n);
  for (surface::Face f : m.faces()) {
    Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
    double a = l[h[0].edge()], b = l[h[1].edge()], d = l[h[2].edge()];
    double x = (a * a + d * d - b * b) / (2 * a), y = std::sqrt(std::max(0., d * d - x * x));
    CD q[3] = {{0, 0}, {a, 0}, {x, y}};
    size_t v[3];
    CD gr = 0;
    for (int i = 0; i < 3; i++) v[i] = h[i].tailVertex().getIndex();
    for (int i = 0; i < 3; i++) gr += u[v[i]] * CD(0, 1) * (q[(i + 2) % 3] - q[(i + 1) % 3]);
    if (std::abs(gr) > 0) gr /= std::abs(gr);
    for (int i = 0; i < 3; i++) {
      double w = 0.5 * triCot(l[h[i].edge()], l[h[(i + 1) % 3].edge()], l[h[(i + 2) % 3].edge()]);
      CD e = q[(i + 1) % 3] - q[i];
      double val = w * (e.real() * gr.real() + e.imag() * gr.imag());
      div[v[i]] += val; // -(div X), X = -gr
      div[v[(i + 1) % 3]] -= val;
    }
  }
  Eigen::MatrixXd Ls = Q.R.L + 1e-6 * Eigen::MatrixXd::Identity(n, n);
  Vector<double> phi = spd(Ls, div);
  double sh = 0;
  for (size_t s : src) sh += phi[s];
  sh /= src.size();
  for (size_t i = 0; i < n; i++) phi[i] -= sh;
  return phi;
}
void cmp(const char* key, const char* what, PointData<double>& got, const Vector<double>& ref, double tol) {
  double m = ref.cwiseAbs().maxCoeff();
  for (long i = 0; i < ref.size(); i++) near(got[(size_t)i], ref[i], tol * m, key, what, " at point ", i);
}
bool connected(World& W) {
  std::vector<size_t> st{0};
  std::vector<char> seen(W.n, 0);
  seen[0] = 1;
  size_t cnt = 1;
  while (!st.empty()) {
    size_t v = st.back();
    st.pop_back();
    for (size_t j = 0; j < W.n; j++)
      if (!seen[j] && std::abs(W.g->laplacian.coeff(v, j)) > 1e-9) seen[j] = 1, cnt++, st.push_back(j);
  }
  return cnt == W.n;
}
void heat(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 20, c.thorough ? 110 : 60, true);
  PointPositionGeometry& g = *W.g;
  size_t n = W.n;
  double tCoef = r.coin(0.5) ? 1. : r.uni(0.5, 4);
  if (r.coin(0.4)) { // results must not depend on what was computed and dropped before
    g.requireLaplacian();
    g.unrequireLaplacian();
    g.purgeQuantities();
    c.count("purgedFirst");
  }
  PointCloudHeatSolver S(*W.cl, g, tCoef);
  g.requireTuftedTriangulation();
  g.requireLaplacian();
  g.requireNormals();
  g.requireTangentBasis();
  g.requireConnectionLaplacian();
  g.requireTangentCoordinates();
  if (!connected(W)) throw Skip("disconnected");
  Heat Q;
  Q.R = reference(W);
  Q.t = tCoef * Q.R.h * Q.R.h;
  Q.H = Q.R.M + Q.t * Q.R.L;
  bool conn = connRef(W, Q.R);
  Eigen::MatrixXd HV = Eigen::MatrixXd::Zero(2 * n, 2 * n);
  for (size_t i = 0; i < 2 * n; i++) HV(i, i) = Q.R.M(i / 2, i / 2);
  HV += Q.t * Q.R.LC;
  double cond = 0;
  {
    Eigen::VectorXd d = Q.R.M.diagonal();
    cond = d.maxCoeff() / d.minCoeff();
    if (d.minCoeff() <= 0 || cond > 1e5) throw Skip("ill-conditioned cover");
  }
  std::vector<size_t> src{r.below(n)};
  Vector<double> dref = distRef(W, Q, src);
  PointData<double> first(*W.cl);
  size_t steps = 3 + r.below(6);
  bool vecReady = false;
  for (size_t s = 0; s < steps; s++) {
    switch (r.below(5)) {
    case 0: {
      bool again = r.coin(0.5);
      std::vector<size_t> sv = src;
      if (!again) {
        sv.clear();
        size_t k = 1 + r.below(4);
        while (sv.size() < k) {
          size_t q = r.below(n);
          if (std::find(sv.begin(), sv.end(), q) == sv.end()) sv.push_back(q);
        }
      }
      std::vector<Point> pts;
      for (size_t q : sv) pts.push_back(W.cl->point(q));
      PointData<double> d = sv.size() == 1 && r.coin() ? S.computeDistance(pts[0]) : S.computeDistance(pts);
      Vector<double> ref = again ? dref : distRef(W, Q, sv);
      cmp("distance", vecReady ? "after vector operations" : "first", d, ref, 2e-4);
      c.count(vecReady ? "distancesAfter" : "distances");
      if (sv.size() == 1) near(d[sv[0]], 0, 1e-9 * ref.cwiseAbs().maxCoeff(), "distance", "at the source");
      break;
    }
    case 1: {
      std::vector<std::tuple<Point, double>> sv;
      Vector<double> a = Vector<double>::Zero(n), b = a;
      size_t k = 1 + r.below(4);
      double lo = 1e9, hi = -1e9;
      std::set<size_t> used;
      for (size_t i = 0; i < k; i++) {
        size_t q = r.below(n);
        if (!used.insert(q).second) continue;
        double v = r.uni(-3, 3);
        sv.emplace_back(W.cl->point(q), v);
        a[q] = v;
        b[q] = 1;
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      }
      PointData<double> e = S.extendScalars(sv);
      vecReady = true;
      Vector<double> A = spd(Q.H, a), B = spd(Q.H, b);
      for (size_t i = 0; i < n; i++) {
        if (B[i] < 1e-9 * B.cwiseAbs().maxCoeff()) continue;
        near(e[i], A[i] / B[i], 1e-5, "extend", "point ", i);
        check(e[i] >= lo - 1e-3 && e[i] <= hi + 1e-3, "extend", "value ", e[i], " outside of the range [", lo, ",", hi, "] of the sources");
      }
      c.count("extensions");
      break;
    }
    case 2: {
      if (!conn) break;
      std::vector<std::tuple<Point, Vector2>> sv;
      Eigen::VectorXd rhs = Eigen::VectorXd::Zero(2 * n);
      Vector<double> a = Vector<double>::Zero(n), b = a;
      size_t k = 1 + r.below(3);
      bool same = k == 1 || r.coin();
      std::set<size_t> used;
      double m0 = std::pow(10., r.uni(-2, 2));
      for (size_t i = 0; i < k; i++) {
        size_t q = r.below(n);
        if (!used.insert(q).second) continue;
        double mag = same ? m0 : m0 * r.uni(0.2, 3);
        Vector2 v = mag * Vector2::fromAngle(r.uni(0, 6.3));
        sv.emplace_back(W.cl->point(q), v);
        rhs[2 * q] = v.x;
        rhs[2 * q + 1] = v.y;
        a[q] = mag;
        b[q] = 1;
      }
      if (sv.size() == 1) same = true;
      PointData<Vector2> tr = sv.size() == 1 && r.coin() ? S.transportTangentVector(std::get<0>(sv[0]), std::get<1>(sv[0])) : S.transportTangentVectors(sv);
      vecReady = true;
      Eigen::VectorXd y = HV.ldlt().solve(rhs);
      Vector<double> A = spd(Q.H, a), B = spd(Q.H, b);
      double big = y.cwiseAbs().maxCoeff();
      for (size_t i = 0; i < n; i++) {
        CD v(y[2 * i], y[2 * i + 1]);
        if (std::abs(v) < 1e-5 * big) continue;
        double mag = same ? norm(std::get<1>(sv[0])) : A[i] / B[i];
        v *= mag / std::abs(v);
        near(tr[i].x, v.real(), 1e-3 * mag, "transport", "x at point ", i);
        near(tr[i].y, v.imag(), 1e-3 * mag, "transport", "y at point ", i);
        c.count("transported");
      }
      if (W.C.planar && sv.size() == 1) { // parallel in the plane
        size_t q = std::get<0>(sv[0]).getIndex();
        Vector2 v = std::get<1>(sv[0]);
        Vector3 V = v.x * g.tangentBasis[q][0] + v.y * g.tangentBasis[q][1];
        for (size_t i = 0; i < n; i++) {
          if (std::hypot(y[2 * i], y[2 * i + 1]) < 1e-5 * big) continue;
          Vector3 X = tr[i].x * g.tangentBasis[i][0] + tr[i].y * g.tangentBasis[i][1];
          check(norm(X - V) <= 1e-3 * norm(V), "transport", "not parallel in the plane at ", i, ": ", X, " vs ", V);
        }
        c.count("planarTransports");
      }
      break;
    }
    case 3: {
      PointData<Vector2> lm = S.computeLogMap(W.cl->point(src[0]));
      vecReady = true;
      Vector<double> x = Vector<double>::Zero(n), y = x;
      auto& nb = g.neighbors->neighbors[src[0]];
      for (size_t i = 0; i < nb.size(); i++) {
        x[nb[i].getIndex()] = g.tangentCoordinates[src[0]][i].x;
        y[nb[i].getIndex()] = g.tangentCoordinates[src[0]][i].y;
      }
      Vector<double> X = spd(Q.H, x), Y = spd(Q.H, y);
      double big = std::max(X.cwiseAbs().maxCoeff(), Y.cwiseAbs().maxCoeff()), dm = dref.cwiseAbs().maxCoeff();
      for (size_t i = 0; i < n; i++) {
        near(norm(lm[i]), std::abs(dref[i]), 2e-4 * dm, "logmap", "length at point ", i);
        double h = std::hypot(X[i], Y[i]);
        if (h < 1e-5 * big || i == src[0]) continue;
        near(lm[i].x, dref[i] * X[i] / h, 1e-3 * dm, "logmap", "x at point ", i);
        near(lm[i].y, dref[i] * Y[i] / h, 1e-3 * dm, "logmap", "y at point ", i);
      }
      c.count("logmaps");
      break;
    }
    case 4: {
      // bookkeeping: whatever the solver did, the caller's quantities are still there
      g.purgeQuantities();
      check(g.laplacian.rows() == (long)n && (bool)g.neighbors && (bool)g.tuftedMesh, "bookkeeping", "quantities lost");
      break;
    }
    }
  }
  c.sig(hashD(W.C.p[0].x) + steps);
}
// accuracy on dense planar clouds
void accuracy(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 150, 250, true, 0);
  W.k = 20 + r.below(11);
  W.g = makeGeom(W);
  PointPositionGeometry& g = *W.g;
  PointCloudHeatSolver S(*W.cl, g, 1.);
  size_t q = r.below(W.n);
  double sc = 0;
  for (size_t i = 0; i < W.n; i++) sc = std::max(sc, norm(W.C.p[i] - W.C.p[q]));
  PointData<double> d = S.computeDistance(W.cl->point(q));
  PointData<Vector2> lm = S.computeLogMap(W.cl->point(q));
  g.requireTangentBasis();
  double ed = 0, el = 0;
  for (size_t i = 0; i < W.n; i++) {
    double t = norm(W.C.p[i] - W.C.p[q]);
    ed += std::abs(d[i] - t);
    Vector3 v = lm[i].x * g.tangentBasis[q][0] + lm[i].y * g.tangentBasis[q][1];
    if (i != q) el += norm(v - (W.C.p[i] - W.C.p[q]));
  }
  ed /= W.n * sc;
  el /= W.n * sc;
  if (getenv("VF_SHOW")) std::cerr << "acc " << ed << " " << el << "\n";
  check(ed < 0.08, "accuracy", "mean distance error ", ed, " of the diameter");
  check(el < 0.25, "accuracy", "mean log map error ", el, " of the diameter");
  c.count("accuracyClouds");
  c.sig(hashD(ed));
}
// ---------------------------------------------------------------- signed distance
void signedDist(Ctx& c) {
  Rng& r = c.rng;
  World W = makeWorld(c, 40, c.thorough ? 200 : 100, true, r.below(6));
  PointPositionGeometry& g = *W.g;
  size_t n = W.n;
  PointData<Vector3> N = put(*W.cl, W.C.n);
  PointCloudHeatSolver S(*W.cl, g, 1.);
  g.requireLaplacian();
  g.requireTangentBasis();
  g.requireNeighbors();
  if (!connected(W)) throw Skip("disconnected");
  Ref R = reference(W);
  if (R.M.diagonal().minCoeff() <= 0 || R.M.diagonal().maxCoeff() > 1e4 * R.M.diagonal().minCoeff()) throw Skip("ill-conditioned cover");
  if (!connRef(W, R)) throw Skip("ambiguous normals");
  // curves: walks over near neighbours
  std::vector<std::vector<Point>> cv;
  size_t nc = 1 + r.below(2);
  std::vector<char> used(n, 0);
  for (size_t k = 0; k < nc; k++) {
    std::vector<Point> w{W.cl->point(r.below(n))};
    if (used[w[0].getIndex()]) continue;
    used[w[0].getIndex()] = 1;
    size_t len = 2 + r.below(8);
    while (w.size() < len) {
      auto& nb = g.neighbors->neighbors[w.back()];
      Point q = nb[r.below(std::min<size_t>(nb.size(), 6))];
      if (used[q.getIndex()]) break;
      used[q.getIndex()] = 1;
      w.push_back(q);
    }
    if (w.size() < 2) continue;
    if (w.size() > 2 && r.coin(0.4)) w.push_back(w[0]);
    cv.push_back(w);
  }
  if (cv.empty()) throw Skip("no curve");
  SignedHeatOptions o;
  o.levelSetConstraint = r.pick(std::vector<LevelSetConstraint>{LevelSetConstraint::None, LevelSetConstraint::ZeroSet, LevelSetConstraint::Multiple});
  if (o.levelSetConstraint != LevelSetConstraint::None && r.coin(0.3)) o.softLevelSetWeight = r.uni(0.5, 50);
  // a soft constraint without any constrained interior point leaves a singular system
  if (o.softLevelSetWeight > 0 && o.levelSetConstraint == LevelSetConstraint::Multiple) o.softLevelSetWeight = -1;
  if (o.softLevelSetWeight > 0) {
    size_t inner = 0;
    for (auto& w : cv) inner += w.size() > 2;
    if (!inner) o.softLevelSetWeight = -1;
  }
  if (o.levelSetConstraint == LevelSetConstraint::Multiple) o.levelSetConstraint = LevelSetConstraint::ZeroSet; // singular system, judged elsewhere
  PointData<double> d = S.computeSignedDistance(cv, N, o);
  double m = 0;
  for (size_t i = 0; i < n; i++) {
    check(vf::finite(d[i]), "signed", "not finite at ", i);
    m = std::max(m, std::abs(d[i]));
  }
  // reference
  Eigen::VectorXd X0 = Eigen::VectorXd::Zero(2 * n);
  double flipped = 0;
  for (auto& w : cv)
    for (size_t i = 0; i + 1 < w.size(); i++)
      for (int e = 0; e < 2; e++) {
        size_t v = w[i + e].getIndex();
        Vector3 seg = 0.5 * (P(W, w[i + 1]) - P(W, w[i]));
        const Basis& b = g.tangentBasis[v];
        Vector3 t = dot(b[0], seg) * b[0] + dot(b[1], seg) * b[1];
        Vector3 nn = cross(W.C.n[v], t);
        X0[2 * v] += dot(nn, b[0]);
        X0[2 * v + 1] += dot(nn, b[1]);
      }
  (void)flipped;
  Eigen::MatrixXd HV = R.h * R.h * R.LC;
  for (size_t i = 0; i < 2 * n; i++) HV(i, i) += R.M(i / 2, i / 2);
  Eigen::VectorXd Xt = HV.ldlt().solve(X0);
  EdgeData<double>& l = g.tuftedGeom->edgeLengths;
  Eigen::VectorXd div = Eigen::VectorXd::Zero(n);
  bool ambiguous = false;
  double big = Xt.cwiseAbs().maxCoeff();
  for (surface::Face f : g.tuftedMesh->faces()) {
    Halfedge h[3] = {f.halfedge(), f.halfedge().next(), f.halfedge().next().next()};
    Vector3 gr{0, 0, 0};
    size_t v[3];
    double tot = 0;
    for (int i = 0; i < 3; i++) {
      v[i] = h[i].tailVertex().getIndex();
      Vector3 X = Xt[2 * v[i]] * g.tangentBasis[v[i]][0] + Xt[2 * v[i] + 1] * g.tangentBasis[v[i]][1];
      gr += X;
      tot += norm(X);
    }
    if (norm(gr) < 1e-6 * tot || norm(gr) < 1e-7 * big) ambiguous = true;
    gr /= norm(gr);
    for (int i = 0; i < 3; i++) {
      double w = 0.5 * triCot(l[h[i].edge()], l[h[(i + 1) % 3].edge()], l[h[(i + 2) % 3].edge()]);
      double val = w * dot(W.C.p[v[(i + 1) % 3]] - W.C.p[v[i]], gr);
      div[v[i]] += val;
      div[v[(i + 1) % 3]] -= val;
    }
  }
  if (!ambiguous) {
    Vector<double> phi(n);
    std::vector<char> on(n, 0);
    for (auto& w : cv)
      for (Point q : w) on[q.getIndex()] = 1;
    if (o.levelSetConstraint == LevelSetConstraint::None) {
      Eigen::MatrixXd Ls = R.L + 1e-6 * Eigen::MatrixXd::Identity(n, n);
      phi = spd(Ls, div);
      double sh = 0, tot = 0;
      for (auto& w : cv)
        for (size_t i = 0; i + 1 < w.size(); i++) {
          double len = norm(P(W, w[i + 1]) - P(W, w[i]));
          sh += 0.5 * len * (phi[w[i].getIndex()] + phi[w[i + 1].getIndex()]);
          tot += len;
        }
      for (size_t i = 0; i < n; i++) phi[i] -= sh / tot;
    } else if (o.softLevelSetWeight < 0) {
      Eigen::MatrixXd A = R.L;
      Eigen::VectorXd b = div;
      for (size_t i = 0; i < n; i++)
        if (on[i]) A.row(i).setZero(), A(i, i) = 1, b[i] = 0;
      phi = A.partialPivLu().solve(b);
      for (size_t i = 0; i < n; i++)
        if (on[i]) check(std::abs(d[i]) <= 1e-9 * m, "signed", "zero set not kept at ", i, ": ", d[i]);
    } else {
      Eigen::MatrixXd A = R.L;
      for (auto& w : cv) {
        bool closed = w[0] == w.back();
        for (size_t i = 1; i + (closed ? 1 : 0) < w.size(); i++) A(w[i].getIndex(), w[i].getIndex()) += o.softLevelSetWeight;
      }
      phi = spd(A, div);
    }
    cmp("signed", "reference", d, phi, 1e-3);
    c.count("signedRefs");
  } else c.count("signedAmbiguous");
  // the other orientation of the curves negates the result
  if (!ambiguous && o.softLevelSetWeight < 0) {
    std::vector<std::vector<Point>> rv = cv;
    for (auto& w : rv) std::reverse(w.begin(), w.end());
    PointData<double> e = S.computeSignedDistance(rv, N, o);
    for (size_t i = 0; i < n; i++) near(e[i], -d[i], 2e-3 * m, "signed", "reversed curve at ", i);
    c.count("reversed");
  }
  if (r.coin(0.3)) {
    SignedHeatOptions q = o;
    q.preserveSourceNormals = true;
    try {
      PointData<double> e = S.computeSignedDistance(cv, N, q);
      c.count("preserved");
    } catch (std::runtime_error& ex) {
      c.count("preserveFailed");
    }
  }
  c.sig(hashD(m));
}

// ---------------------------------------------------------------- sampling
void sampling(Ctx& c) {
  Rng& r = c.rng;
  GeoOpts o;
  o.maxQ = 50;
  GeoMesh gm = geoMesh(c, o);
  size_t nPts = r.coin(0.1) ? r.below(2) : 300 + r.below(c.thorough ? 4000 : 1200);
  std::unique_ptr<PointCloud> cl;
  PointData<Vector3> pos;
  PointData<SurfacePoint> src;
  std::tie(cl, pos, src) = uniformlySamplePointsOnSurface(*gm.mesh, *gm.geom, nPts);
  check(cl->nPoints() == nPts && pos.getMesh() == cl.get() && src.getMesh() == cl.get(), "sample", "count");
  std::vector<char> inHalf(gm.mesh->nFacesCapacity() + 1, 0);
  double A = 0, Ah = 0;
  for (Face f : gm.mesh->faces()) {
    Vector3 p[3];
    int k = 0;
    for (Vertex v : f.adjacentVertices()) p[k++] = gm.geom->vertexPositions[v];
    double a = 0.5 * norm(cross(p[1] - p[0], p[2] - p[0]));
    A += a;
    if (r.coin()) inHalf[f.getIndex()] = 1, Ah += a;
  }
  double cnt = 0;
  Vector3 sum{0, 0, 0};
  double sub = 0;
  for (Point q : cl->points()) {
    SurfacePoint s = src[q];
    check(s.type == SurfacePointType::Face && s.face.getMesh() == gm.mesh.get(), "sample", "not a face point");
    for (int i = 0; i < 3; i++) check(s.faceCoords[i] >= -1e-15 && s.faceCoords[i] <= 1, "sample", "outside of its face: ", s.faceCoords);
    near((s.faceCoords.x + s.faceCoords.y + s.faceCoords.z), 1, 1e-12, "sample", "coordinates sum");
    Vector3 x{0, 0, 0};
    int k = 0;
    double L = 0;
    for (Vertex v : s.face.adjacentVertices()) {
      x += s.faceCoords[k++] * gm.geom->vertexPositions[v];
      L = std::max(L, norm(gm.geom->vertexPositions[v]));
    }
    check(norm(x - pos[q]) <= 1e-12 * L, "sample", "position does not match its source");
    cnt += inHalf[s.face.getIndex()];
    sum += s.faceCoords;
    sub += s.faceCoords.x < 0.5 && s.faceCoords.y < 0.5 && s.faceCoords.z < 0.5; // the middle quarter
  }
  if (nPts > 200) {
    double f = Ah / A;
    check(std::abs(cnt - nPts * f) <= 8 * std::sqrt(nPts * f * (1 - f)) + 4, "sample", "not uniform over faces: ", cnt, " of ", nPts, " in ", f, " of the area");
    for (int i = 0; i < 3; i++) check(std::abs(sum[i] / nPts - 1. / 3) <= 8 * std::sqrt(1. / 18 / nPts), "sample", "not uniform within faces: mean coordinates ", sum / nPts);
    check(std::abs(sub - nPts * 0.25) <= 8 * std::sqrt(nPts * 0.1875), "sample", "not uniform within faces: ", sub, " of ", nPts, " in the middle quarter");
  }
  c.count("samples", nPts);
  c.sig(hashD(A) + nPts);
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("containers", 3, containers);
  S.add("neighborhoods", 3, neighborhoods);
  S.add("local", 3, localQuantities);
  S.add("localTri", 3, localTri);
  S.add("degenerate", 2, degenerate);
  S.add("operators", 2, operators);
  S.add("caching", 2, caching);
  S.add("heat", 2, heat);
  S.add("accuracy", 1, accuracy);
  S.add("signed", 2, signedDist);
  S.add("sampling", 1, sampling);
  return run(S, argc, argv);
}
