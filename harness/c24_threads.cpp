// [tsan] C24: objects used by one thread each do not influence each other; results repeat.
#include "geometrycentral/numerical/linear_solvers.h"
#include "geometrycentral/pointcloud/point_cloud.h"
#include "geometrycentral/pointcloud/point_cloud_heat_solver.h"
#include "geometrycentral/pointcloud/point_position_geometry.h"
#include "geometrycentral/surface/boundary_first_flattening.h"
#include "geometrycentral/surface/direction_fields.h"
#include "geometrycentral/surface/edge_length_geometry.h"
#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/fast_marching_method.h"
#include "geometrycentral/surface/flip_geodesics.h"
#include "geometrycentral/surface/heat_method_distance.h"
#include "geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h"
#include "geometrycentral/surface/intersection.h"
#include "geometrycentral/surface/intrinsic_mollification.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/marching_triangles.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include "geometrycentral/surface/meshio.h"
#include "geometrycentral/surface/remeshing.h"
#include "geometrycentral/surface/signed_heat_method.h"
#include "geometrycentral/surface/signpost_intrinsic_triangulation.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include "geometrycentral/surface/subdivide.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/trace_geodesic.h"
#include "geometrycentral/surface/tufted_laplacian.h"
#include "geometrycentral/surface/vector_heat_method.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/utilities/knn.h"
#include "vf.h"
#include <atomic>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
using namespace geometrycentral;
using namespace geometrycentral::surface;
using namespace geometrycentral::pointcloud;
using namespace vf;

namespace {
typedef std::vector<std::vector<size_t>> Polys;
// everything a task produced, bit by bit
struct Out {
  uint64_t h = 99, n = 0;
  void i(uint64_t v) { h = mix(h, v), n++; }
  void d(double v) {
    uint64_t b;
    memcpy(&b, &v, 8);
    i(b);
  }
  void v(Vector2 a) { d(a.x), d(a.y); }
  void v(Vector3 a) { d(a.x), d(a.y), d(a.z); }
  void s(const std::string& a) {
    for (char ch : a) h = mix(h, (unsigned char)ch);
    n++;
  }
  template <class E, class T> void data(const MeshData<E, T>& x) {
    for (size_t k = 0; k < x.size(); k++) d(x[k]);
  }
  template <class M> void mat(const M& A) {
    for (int k = 0; k < A.outerSize(); k++)
      for (typename M::InnerIterator it(A, k); it; ++it) i(it.row()), d(it.value());
  }
  void mesh(SurfaceMesh& m) {
    for (auto& p : m.getFaceVertexList()) {
      i(p.size());
      for (size_t a : p) i(a);
    }
  }
  void point(const SurfacePoint& p) {
    i((int)p.type);
    if (p.type == SurfacePointType::Vertex) i(p.vertex.getIndex());
    if (p.type == SurfacePointType::Edge) i(p.edge.getIndex()), d(p.tEdge);
    if (p.type == SurfacePointType::Face) i(p.face.getIndex()), v(p.faceCoords);
  }
};
struct World {
  std::unique_ptr<ManifoldSurfaceMesh> m;
  std::unique_ptr<VertexPositionGeometry> g;
};
// a bumpy square (with boundary) or torus
World world(Rng& r, bool open, long n) {
  Polys p;
  std::vector<Vector3> pos;
  long w = open ? n + 1 : n;
  auto id = [&](long i, long j) { return (size_t)((i % w) * w + j % w); };
  for (long i = 0; i < n; i++)
    for (long j = 0; j < n; j++) {
      if (r.coin()) p.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)}), p.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      else p.push_back({id(i, j), id(i + 1, j), id(i, j + 1)}), p.push_back({id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
    }
  for (long i = 0; i < w; i++)
    for (long j = 0; j < w; j++) {
      double e = 0.15;
      double a = i + r.uni(-e, e), b = j + r.uni(-e, e);
      if (open) pos.push_back(Vector3{a, b, r.uni(-e, e)});
      else {
        a *= 2 * PI / n, b *= 2 * PI / n;
        pos.push_back(Vector3{(3 + std::cos(b)) * std::cos(a), (3 + std::cos(b)) * std::sin(a), std::sin(b)});
      }
    }
  World W;
  std::tie(W.m, W.g) = makeManifoldSurfaceMeshAndGeometry(p, pos);
  return W;
}
typedef void (*Task)(Rng&, Out&);
void edits(Rng& r, Out& o) {
  World W = world(r, r.coin(), 4 + r.below(3));
  ManifoldSurfaceMesh& m = *W.m;
  VertexData<double> a(m, 1.5);
  EdgeData<int> b(m, 7);
  FaceData<Vector3> cc(m, Vector3{1, 2, 3});
  for (Vertex v : m.vertices()) a[v] = v.getIndex();
  for (int k = 0; k < 30; k++) {
    std::vector<Edge> es;
    for (Edge e : m.edges()) es.push_back(e);
    Edge e = r.pick(es);
    switch (r.below(4)) {
    case 0: o.i(m.flip(e, r.coin())); break;
    case 1: a[m.splitEdgeTriangular(e).vertex()] = r.u(); break;
    case 2: o.i(m.collapseEdgeTriangular(e) != Vertex()); break;
    default: a[m.insertVertex(e.halfedge().face())] = r.u(); break;
    }
    if (r.coin(0.1)) m.compress();
  }
  m.compress();
  m.validateConnectivity();
  o.mesh(m);
  o.data(a);
  for (size_t k = 0; k < b.size(); k++) o.i(b[k]);
  auto c2 = m.copy();
  o.mesh(*c2);
  FaceData<Vector3> c3 = cc.reinterpretTo(*c2);
  o.i(c3.size());
}
void quantities(Rng& r, Out& o) {
  World W = world(r, r.coin(), 4 + r.below(3));
  VertexPositionGeometry& g = *W.g;
  for (int k = 0; k < 2; k++) {
    g.requireFaceAreas(), g.requireVertexGaussianCurvatures(), g.requireVertexMeanCurvatures(), g.requireCotanLaplacian();
    g.requireVertexLumpedMassMatrix(), g.requireVertexNormals(), g.requireEdgeDihedralAngles(), g.requireDECOperators();
    g.requireVertexConnectionLaplacian(), g.requireVertexPrincipalCurvatureDirections(), g.requireCrouzeixRaviartLaplacian();
    o.data(g.faceAreas), o.data(g.vertexGaussianCurvatures), o.data(g.vertexMeanCurvatures), o.data(g.edgeDihedralAngles);
    o.mat(g.cotanLaplacian), o.mat(g.vertexLumpedMassMatrix), o.mat(g.hodge1), o.mat(g.d0), o.mat(g.crouzeixRaviartLaplacian);
    for (Vertex v : W.m->vertices()) o.v(g.vertexNormals[v]), o.v(g.vertexPrincipalCurvatureDirections[v]);
    for (Vertex v : W.m->vertices()) g.inputVertexPositions[v] *= 1.5;
    g.refreshQuantities();
    if (r.coin()) g.unrequireFaceAreas(), g.purgeQuantities(), g.requireFaceAreas();
  }
}
template <class T> void intrinsic(Rng& r, Out& o) {
  World W = world(r, r.coin(), 4);
  T t(*W.m, *W.g);
  t.flipToDelaunay();
  if (r.coin()) t.delaunayRefine(25, 1e9, 40);
  o.mesh(*t.intrinsicMesh);
  o.data(t.edgeLengths);
  for (Vertex v : t.intrinsicMesh->vertices()) o.point(t.vertexLocations[v]);
  for (Edge e : t.intrinsicMesh->edges())
    for (auto& p : t.traceIntrinsicHalfedgeAlongInput(e.halfedge())) o.point(p);
}
void integer(Rng& r, Out& o) {
  World W = world(r, r.coin(), 4);
  IntegerCoordinatesIntrinsicTriangulation t(*W.m, *W.g);
  t.flipToDelaunay();
  o.data(t.edgeLengths);
  CommonSubdivision& cs = t.getCommonSubdivision();
  cs.constructMesh();
  o.mesh(*cs.mesh);
  o.mat(cs.interpolationMatrixA());
}
void geodesics(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  ManifoldSurfaceMesh& m = *W.m;
  GeodesicAlgorithmExact A(m, *W.g);
  A.propagate(m.vertex(r.below(m.nVertices())));
  o.data(A.getDistanceFunction());
  for (auto& p : A.traceBack(SurfacePoint(m.vertex(r.below(m.nVertices()))))) o.point(p);
  o.data(FMMDistance(*W.g, std::vector<std::pair<Vertex, double>>{{m.vertex(0), 0.}}));
  for (Halfedge h : shortestEdgePath(*W.g, m.vertex(0), m.vertex(m.nVertices() - 1))) o.i(h.getIndex());
}
void flips(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  std::unique_ptr<FlipEdgeNetwork> n = FlipEdgeNetwork::constructFromDijkstraPath(*W.m, *W.g, W.m->vertex(0), W.m->vertex(2 + r.below(W.m->nVertices() - 2)));
  if (!n) return;
  n->iterativeShorten();
  o.d(n->length());
  for (auto& l : n->getPathPolyline())
    for (auto& p : l) o.point(p);
}
void traces(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  for (int k = 0; k < 10; k++) {
    TraceOptions op;
    op.includePath = true;
    TraceGeodesicResult t = traceGeodesic(*W.g, SurfacePoint(W.m->face(r.below(W.m->nFaces())), Vector3{.3, .3, .4}), Vector2{r.uni(-4, 4), r.uni(-4, 4)}, op);
    for (auto& p : t.pathPoints) o.point(p);
    o.d(t.length);
  }
}
void heat(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  ManifoldSurfaceMesh& m = *W.m;
  HeatMethodDistanceSolver H(*W.g, 1., r.coin());
  o.data(H.computeDistance(m.vertex(r.below(m.nVertices()))));
  VectorHeatMethodSolver V(*W.g);
  VertexData<Vector2> x = V.transportTangentVector(m.vertex(1), Vector2{1, 2});
  for (Vertex v : m.vertices()) o.v(x[v]);
  x = V.computeLogMap(m.vertex(2));
  for (Vertex v : m.vertices()) o.v(x[v]);
  SignedHeatSolver S(*W.g);
  Curve cv;
  Halfedge h = m.halfedge(0);
  cv.nodes = {SurfacePoint(h.tailVertex()), SurfacePoint(h.tipVertex())};
  o.data(S.computeDistance({cv}));
}
void flatten(Rng& r, Out& o) {
  World W = world(r, true, 5);
  VertexData<Vector2> x = parameterizeBFF(*W.m, *W.g);
  for (Vertex v : W.m->vertices()) o.v(x[v]);
  FaceData<Vector2> f = computeSmoothestBoundaryAlignedFaceDirectionField(*W.g, 4);
  for (Face t : W.m->faces()) o.v(f[t]);
}
void remeshing(Rng& r, Out& o) {
  World W = world(r, r.coin(), 4);
  RemeshOptions op;
  op.targetEdgeLength = -1.;
  op.maxIterations = 2;
  remesh(*W.m, *W.g, op);
  W.m->compress();
  o.mesh(*W.m);
  for (Vertex v : W.m->vertices()) o.v(W.g->inputVertexPositions[v]);
  loopSubdivide(*W.m, *W.g);
  o.mesh(*W.m);
}
void files(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  std::stringstream f;
  writeSurfaceMesh(*W.m, *W.g, f, "obj");
  o.s(f.str());
  SimplePolygonMesh s(f, "obj");
  s.mergeIdenticalVertices();
  s.stripUnusedVertices();
  o.i(s.nFaces());
  std::stringstream f2(f.str());
  auto back = readManifoldSurfaceMesh(f2, "obj");
  o.mesh(*std::get<0>(back));
  for (Vertex v : std::get<0>(back)->vertices()) o.v(std::get<1>(back)->vertexPositions[v]);
}
void misc(Rng& r, Out& o) {
  World W = world(r, r.coin(), 5);
  VertexData<double> u(*W.m);
  for (Vertex v : W.m->vertices()) u[v] = r.u();
  W.g->requireVertexPositions();
  for (auto& cv : marchingTriangles(*W.g, u, 0.5))
    for (auto& p : cv) o.point(p);
  SparseMatrix<double> L, M;
  std::tie(L, M) = buildTuftedLaplacian(*W.m, *W.g, 1e-6);
  o.mat(L);
  o.mat(M);
  for (auto& p : selfIntersections(*W.g).points) o.v(p);
  std::vector<Vector3> ps;
  for (int k = 0; k < 50; k++) ps.push_back(Vector3{r.u(), r.u(), r.u()});
  NearestNeighborFinder nn(ps);
  for (size_t k : nn.kNearest(Vector3{.5, .5, .5}, 5)) o.i(k);
  Vector<double> rhs = Vector<double>::Zero(L.rows());
  rhs[0] = 1;
  SparseMatrix<double> A = L + M;
  PositiveDefiniteSolver<double> P(A);
  SquareSolver<double> Q(A);
  Solver<double> S(A);
  Vector<double> x = P.solve(rhs), y = Q.solve(rhs), z = S.solve(rhs);
  for (long k = 0; k < x.size(); k++) o.d(x[k]), o.d(y[k]), o.d(z[k]);
}
void cloud(Rng& r, Out& o) {
  size_t n = 80;
  PointCloud c(n);
  PointData<Vector3> pos(c);
  for (Point p : c.points()) pos[p] = Vector3{r.u(), r.u(), 0.1 * r.u()};
  PointPositionGeometry g(c, pos);
  g.kNeighborSize = 20;
  g.requireNormals();
  g.requireTuftedTriangulation();
  for (Point p : c.points()) o.v(g.normals[p]);
  o.mesh(*g.tuftedMesh);
  PointCloudHeatSolver H(c, g);
  PointData<double> d = H.computeDistance(c.point(0));
  for (Point p : c.points()) o.d(d[p]);
}
struct Named {
  const char* name;
  Task f;
};
const Named tasks[] = {{"edits", edits}, {"quantities", quantities}, {"signpost", intrinsic<SignpostIntrinsicTriangulation>}, {"integer", integer}, {"geodesics", geodesics}, {"flips", flips}, {"traces", traces}, {"heat", heat}, {"flatten", flatten}, {"remeshing", remeshing}, {"files", files}, {"misc", misc}, {"cloud", cloud}};
const size_t nTasks = sizeof(tasks) / sizeof(tasks[0]);

struct Job {
  size_t task;
  uint64_t seed;
  Out out;
  std::string error;
};
void runJob(Job& j) {
  Rng r(j.seed);
  j.out = Out();
  j.error.clear();
  try {
    tasks[j.task].f(r, j.out);
  } catch (const std::exception& e) {
    j.error = e.what();
  }
}
void threads(Ctx& c) {
  size_t nt = 2 + c.rng.below(3), per = 1 + c.rng.below(3);
  bool same = c.rng.coin(0.5); // the same kind of work everywhere
  size_t t0 = c.rng.below(nTasks);
  std::vector<std::vector<Job>> jobs(nt);
  for (auto& v : jobs)
    for (size_t k = 0; k < per; k++) v.push_back(Job{same ? t0 : c.rng.below(nTasks), c.rng.next(), Out(), ""});
  for (auto& v : jobs)
    for (auto& j : v) c.note += str(tasks[j.task].name, " ");
  bool yields = c.rng.coin();
  auto together = [&](std::vector<std::vector<Job>>& js, std::vector<int>& order) {
    std::atomic<size_t> ready{0};
    std::mutex mx;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++)
      ts.emplace_back([&, t]() {
        ready++;
        while (ready < nt) std::this_thread::yield();
        for (auto& j : js[t]) {
          runJob(j);
          if (yields) std::this_thread::yield();
          std::lock_guard<std::mutex> l(mx);
          order.push_back((int)t);
        }
      });
    for (auto& t : ts) t.join();
  };
  std::vector<std::vector<Job>> alone = jobs, again = jobs;
  std::vector<int> order;
  together(jobs, order);
  for (auto& v : alone)
    for (auto& j : v) runJob(j);
  size_t values = 0;
  for (size_t t = 0; t < nt; t++)
    for (size_t k = 0; k < per; k++) {
      const Job &a = jobs[t][k], &b = alone[t][k];
      const char* nm = tasks[a.task].name;
      check(a.error == b.error, "thread-isolation", nm, " in parallel: ", a.error, " alone: ", b.error);
      check(a.out.n == b.out.n && a.out.h == b.out.h, "thread-isolation", nm, " gives a different result next to other threads");
      Job x = b;
      runJob(x);
      check(x.out.h == b.out.h && x.error == b.error, "repeatable", nm, " gives a different result when it is repeated");
      if (!b.error.empty()) c.count(str("exceptions-", nm)), c.note += str("[", nm, ": ", b.error, "]");
      values += b.out.n;
      c.count(str("jobs-", nm));
    }
  c.count("valuesCompared", values);
  uint64_t h = nt * 10 + per;
  for (int t : order) h = mix(h, t);
  for (auto& v : jobs)
    for (auto& j : v) h = mix(h, j.seed);
  c.sig(h);
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("threads", 1, threads);
  return run(S, argc, argv);
}
