// C13: shortening paths, loops and networks by edge flips.
#include "intri.h"
#include "vf.h"
#include "geometrycentral/surface/exact_geodesics.h"
#include "geometrycentral/surface/flip_geodesics.h"
#include "geometrycentral/surface/mesh_graph_algorithms.h"
#include <Eigen/LU>
using namespace vf;
namespace {
typedef std::vector<Halfedge> Path;
typedef std::unique_ptr<FlipEdgeNetwork> Net;
struct World {
  IT t; // the checker's view of the surface; T is replaced by the network's triangulation while checking
  ManifoldSurfaceMesh* m;
  std::vector<Vertex> verts;
  std::map<size_t, size_t> comp;
  IntrinsicGeometryInterface& geom() { return t.in(); }
  double len(Edge e) { return t.inLen[e]; }
  double len(const Path& p) {
    double s = 0;
    for (Halfedge h : p) s += len(h.edge());
    return s;
  }
};
World makeWorld(Ctx& c, bool convex = false) {
  World w;
  ITOpts o;
  o.kind = 0;
  o.pMarks = 0;
  o.geo.indexHoles = false; // compressed input is required
  o.geo.multi = c.rng.coin(0.1);
  o.geo.maxQ = 15;
  o.geo.logScale = c.rng.coin() ? 0 : 1;
  o.geo.minV = 4;
  if (convex) {
    o.pFlat = 1;
    o.geo.holes = false;
    o.geo.multi = false;
  }
  w.t = makeIT(c, o);
  w.t.T.reset();
  w.m = w.t.g.mesh.get();
  for (Vertex v : w.m->vertices()) w.verts.push_back(v);
  size_t k = 0;
  for (Vertex v : w.verts)
    if (!w.comp.count(v.getIndex())) {
      std::vector<Vertex> st{v};
      w.comp[v.getIndex()] = k;
      while (!st.empty()) {
        Vertex x = st.back();
        st.pop_back();
        for (Vertex y : x.adjacentVertices())
          if (w.comp.emplace(y.getIndex(), k).second) st.push_back(y);
      }
      k++;
    }
  return w;
}
// independent Dijkstra distances along edges
std::map<size_t, double> edgeDist(World& w, Vertex s) {
  std::map<size_t, double> d;
  d[s.getIndex()] = 0;
  for (size_t k = 0; k < w.verts.size(); k++) {
    bool ch = false;
    for (Edge e : w.m->edges())
      for (int o = 0; o < 2; o++) {
        Vertex a = o ? e.firstVertex() : e.secondVertex(), b = o ? e.secondVertex() : e.firstVertex();
        if (!d.count(a.getIndex())) continue;
        double x = d[a.getIndex()] + w.len(e);
        if (!d.count(b.getIndex()) || x < d[b.getIndex()]) {
          d[b.getIndex()] = x;
          ch = true;
        }
      }
    if (!ch) break;
  }
  return d;
}
Path randomWalk(Ctx& c, World& w, size_t n, bool simple, std::set<size_t> used = {}) {
  Rng& r = c.rng;
  Path p;
  Vertex v = r.pick(w.verts);
  if (used.count(v.getIndex())) return p;
  used.insert(v.getIndex());
  Halfedge last;
  while (p.size() < n) {
    std::vector<Halfedge> opt;
    for (Halfedge h : v.outgoingHalfedges()) {
      if (last != Halfedge() && h == last.twin()) continue;
      if (simple && used.count(h.tipVertex().getIndex())) continue;
      opt.push_back(h);
    }
    if (opt.empty()) break;
    // prefer to go on straight
    Halfedge h = r.pick(opt);
    p.push_back(h);
    last = h;
    v = h.tipVertex();
    used.insert(v.getIndex());
  }
  return p;
}
// a closed simple edge loop: shortest path between the ends of an edge which avoids the edge, or a vertex link / face loop
Path randomLoop(Ctx& c, World& w) {
  Rng& r = c.rng;
  std::vector<Halfedge> hs;
  for (Halfedge h : w.m->halfedges()) hs.push_back(h);
  // shortest cycle with random weights, through a random halfedge: BFS from tip to tail
  Halfedge h0 = r.pick(hs);
  std::map<size_t, double> wgt;
  for (Edge e : w.m->edges()) wgt[e.getIndex()] = r.uni(0.2, 1);
  if (r.coin(0.6)) // force a long way around
    for (Vertex v : {h0.tipVertex()})
      for (Halfedge h : v.outgoingHalfedges()) wgt[h.edge().getIndex()] *= 1, wgt[h.next().edge().getIndex()] += 10;
  std::map<size_t, double> d;
  std::map<size_t, Halfedge> from;
  std::set<std::pair<double, size_t>> q;
  d[h0.tipVertex().getIndex()] = 0;
  q.insert({0, h0.tipVertex().getIndex()});
  while (!q.empty()) {
    auto it = *q.begin();
    q.erase(q.begin());
    if (it.first > d[it.second]) continue;
    for (Halfedge h : Vertex(w.m, it.second).outgoingHalfedges()) {
      if (h.edge() == h0.edge()) continue;
      double x = it.first + wgt[h.edge().getIndex()];
      size_t j = h.tipVertex().getIndex();
      if (!d.count(j) || x < d[j]) {
        d[j] = x;
        from[j] = h;
        q.insert({x, j});
      }
    }
  }
  Path p;
  size_t v = h0.tailVertex().getIndex();
  if (!d.count(v)) return p;
  while (v != h0.tipVertex().getIndex()) {
    p.push_back(from[v]);
    v = from[v].tailVertex().getIndex();
  }
  p.push_back(h0);
  std::reverse(p.begin(), p.end());
  std::rotate(p.begin(), p.begin() + r.below(p.size()), p.end());
  return p;
}
bool isLoop(const Path& p) { return p.front().tailVertex() == p.back().tipVertex(); }
std::vector<size_t> segmentsOf(FlipEdgePath& p) {
  std::vector<size_t> r;
  for (auto& x : p.pathHeInfo) r.push_back(x.first);
  std::sort(r.begin(), r.end());
  return r;
}
double inf() { return std::numeric_limits<double>::infinity(); }
// angle swept counter-clockwise from a to b around their common tail, from the edge lengths
double sweep(const EdgeData<double>& l, Halfedge a, Halfedge b) {
  double s = 0;
  Halfedge h = a;
  do {
    if (!h.isInterior()) return inf();
    s += cornerOf(l, h);
    h = h.next().next().twin();
  } while (h != b && h != a);
  return s;
}
// the paths of the network, as sequences of segments in order
struct Seg {
  size_t path, id;
  Halfedge he;
};
std::vector<std::vector<Seg>> structure(FlipEdgeNetwork& n, const std::string& K) {
  std::vector<std::vector<Seg>> out;
  std::map<size_t, size_t> onEdge;
  std::set<size_t> ids;
  for (size_t i = 0; i < n.paths.size(); i++) {
    FlipEdgePath& p = *n.paths[i];
    check(&p.network == &n, K + "-path", "path of another network");
    check(!p.pathHeInfo.empty(), K + "-path", "empty path");
    size_t first = INVALID_IND, nFirst = 0, nLast = 0;
    for (auto& x : p.pathHeInfo) {
      Halfedge he;
      SegmentID pr, nx;
      std::tie(he, pr, nx) = x.second;
      check(ids.insert(x.first).second, K + "-path", "segment id ", x.first, " used twice");
      check(he.getMesh() == &n.mesh && !he.isDead(), K + "-path", "segment on an invalid halfedge");
      if (pr == INVALID_IND) {
        nFirst++;
        first = x.first;
      } else check(p.pathHeInfo.count(pr) && std::get<2>(p.pathHeInfo[pr]) == x.first, K + "-path", "prev of a segment");
      if (nx == INVALID_IND) nLast++;
      else check(p.pathHeInfo.count(nx) && std::get<1>(p.pathHeInfo[nx]) == x.first && std::get<0>(p.pathHeInfo[nx]).tailVertex() == he.tipVertex(), K + "-path", "next of a segment");
      size_t hits = 0;
      for (FlipPathSegment& s : n.pathsAtEdge[he.edge()])
        if (s == FlipPathSegment{&p, x.first}) hits++;
      check(hits == 1, K + "-edge-stack", "a segment appears ", hits, " times on its edge");
      onEdge[he.edge().getIndex()]++;
    }
    check(nFirst == (p.isClosed ? 0 : 1) && nLast == nFirst, K + "-path", "a ", p.isClosed ? "closed" : "open", " path has ", nFirst, " first and ", nLast, " last segments");
    if (first == INVALID_IND) first = segmentsOf(p).front();
    std::vector<Seg> v;
    size_t id = first;
    do {
      v.push_back({i, id, std::get<0>(p.pathHeInfo[id])});
      id = std::get<2>(p.pathHeInfo[id]);
    } while (id != INVALID_IND && id != first && v.size() <= p.pathHeInfo.size());
    check(v.size() == p.pathHeInfo.size() && p.size() == v.size(), K + "-path", "path consists of several pieces");
    Path hl = p.getHalfedgeList();
    check(hl.size() == v.size(), K + "-halfedge-list", "length");
    size_t off = 0;
    if (p.isClosed) { // may start anywhere
      bool ok = false;
      for (off = 0; off < hl.size() && !ok; off++) {
        ok = true;
        for (size_t k = 0; k < hl.size(); k++) ok = ok && hl[k] == v[(k + off) % v.size()].he;
      }
      check(ok, K + "-halfedge-list", "halfedges of a loop");
    } else
      for (size_t k = 0; k < hl.size(); k++) check(hl[k] == v[k].he, K + "-halfedge-list", "halfedge ", k);
    out.push_back(v);
  }
  for (Edge e : n.mesh.edges()) {
    size_t want = onEdge.count(e.getIndex()) ? onEdge[e.getIndex()] : 0;
    check(n.pathsAtEdge[e].size() == want, K + "-edge-stack", e, " lists ", n.pathsAtEdge[e].size(), " segments of ", want);
    check(n.edgeInPath(e) == (want > 0) && n.halfedgeInPath(e.halfedge()) == (want > 0), K + "-edge-in-path", e);
  }
  return out;
}
// a random closed 1-form on the input mesh: its integral along a path is a homology invariant
EdgeData<double> closedForm(Ctx& c, World& w) {
  auto re = ranks<Edge>(*w.m);
  Eigen::MatrixXd d1 = Eigen::MatrixXd::Zero(w.m->nFaces(), w.m->nEdges());
  size_t k = 0;
  for (Face f : w.m->faces()) {
    for (Halfedge h : f.adjacentHalfedges()) d1(k, re[h.edge().getIndex()]) += h == h.edge().halfedge() ? 1 : -1;
    k++;
  }
  Eigen::FullPivLU<Eigen::MatrixXd> lu(d1);
  lu.setThreshold(1e-9);
  Eigen::MatrixXd N = lu.kernel();
  Eigen::VectorXd x = Eigen::VectorXd::Zero(d1.cols());
  for (int i = 0; i < N.cols(); i++) x += c.rng.uni(-1, 1) * N.col(i);
  EdgeData<double> r(*w.m);
  for (Edge e : w.m->edges()) r[e] = x[re[e.getIndex()]];
  return r;
}
double formOn(const EdgeData<double>& f, Halfedge h) { return h == h.edge().halfedge() ? f[h.edge()] : -f[h.edge()]; }
// integral and length of one polyline segment
bool segment(World& w, const EdgeData<double>* form, const SurfacePoint& a, const SurfacePoint& b, double& length, double& integral) {
  std::vector<Face> fb = facesOf(b);
  double best = inf();
  for (Face f : facesOf(a))
    if (std::binary_search(fb.begin(), fb.end(), f))
      for (auto& x : coordsIn(f, a))
        for (auto& y : coordsIn(f, b)) {
          double l = baryLen(w.t.inLen, f, y - x);
          if (l < best) {
            best = l;
            if (form) {
              double f1 = formOn(*form, heOf(f, 0)), f2 = f1 + formOn(*form, heOf(f, 1));
              integral = (y.y - x.y) * f1 + (y.z - x.z) * f2;
            }
          }
        }
  length = best;
  return best < inf();
}
struct Expect {
  std::vector<Path> paths; // as given
  std::vector<double> form;
  bool haveForm = false;
  EdgeData<double> om;
};
void checkTri(Ctx& c, World& w, FlipEdgeNetwork& n, const std::string& K, bool inserted = false) {
  // lend the triangulation to the shared checker
  w.t.inserted.clear();
  w.t.signpost = true;
  if (inserted)
    for (Vertex v : n.mesh.vertices())
      if (v.getIndex() >= w.m->nVerticesCapacity() || n.tri->vertexLocations[v].type != SurfacePointType::Vertex) w.t.inserted.insert(v.getIndex());
  w.t.T.reset(n.tri.get());
  try {
    checkIT(c, w.t, K, 1e-6);
  } catch (...) {
    w.t.T.release();
    throw;
  }
  w.t.T.release();
}
// invariants which hold at any time
void checkNetwork(Ctx& c, World& w, FlipEdgeNetwork& n, Expect& ex, const std::string& K) {
  n.validate();
  n.validateHalfedgesOnly();
  auto st = structure(n, K);
  check(st.size() == ex.paths.size(), K + "-count", st.size(), " paths");
  double L = 0;
  for (size_t i = 0; i < st.size(); i++) {
    const Path& p = ex.paths[i];
    check(n.paths[i]->isClosed == isLoop(p), K + "-closed", "path ", i);
    if (!isLoop(p)) {
      check(st[i].front().he.tailVertex().getIndex() == p.front().tailVertex().getIndex() && st[i].back().he.tipVertex().getIndex() == p.back().tipVertex().getIndex(), K + "-ends", "end points of path ", i, " changed");
      check(n.isMarkedVertex[st[i].front().he.tailVertex()] && n.isMarkedVertex[st[i].back().he.tipVertex()], K + "-ends-marked", "path ", i);
      check(FlipPathSegment{n.paths[i].get(), st[i].front().id}.isEndpoint() && FlipPathSegment{n.paths[i].get(), st[i].back().id}.isEndpoint(), K + "-isEndpoint", "path ", i);
    }
    for (auto& s : st[i]) L += n.tri->edgeLengths[s.he.edge()];
  }
  near(n.length(), L, 1e-10 * L, K + "-length", "length()");
}
void checkPolyline(Ctx& c, World& w, FlipEdgeNetwork& n, Expect& ex, const std::string& K, bool refined = false) {
  bool perfect = false;
  auto lines = n.getPathPolyline(perfect);
  if (refined && !perfect) { // reported by the code
    c.count("imperfect traces after refinement");
    return;
  }
  check(perfect, K + "-perfect", "polyline was not traced to the end");
  check(lines.size() == ex.paths.size(), K + "-polyline-count", lines.size());
  auto st = structure(n, K);
  for (size_t i = 0; i < lines.size(); i++) {
    double L = 0, I = 0, want = 0;
    Path hl = n.paths[i]->getHalfedgeList();
    for (Halfedge h : hl) want += n.tri->edgeLengths[h.edge()];
    auto& ln = lines[i];
    check(ln.size() >= 2, K + "-polyline", "only ", ln.size(), " points");
    for (size_t k = 0; k < ln.size(); k++) {
      check(validPoint(*w.m, ln[k]), K + "-polyline-point", ln[k]);
      if (!k) continue;
      double l, g = 0;
      check(segment(w, ex.haveForm ? &ex.om : nullptr, ln[k - 1], ln[k], l, g), K + "-polyline-face", "consecutive points ", ln[k - 1], " and ", ln[k], " share no face");
      L += l;
      I += g;
    }
    Vertex a = hl.front().tailVertex(), b = hl.back().tipVertex();
    check(onSameElement(ln.front(), n.tri->vertexLocations[a]) && onSameElement(ln.back(), n.tri->vertexLocations[b]), K + "-polyline-ends", "polyline ends at ", ln.front(), " and ", ln.back());
    near(L, want, 1e-5 * (want + w.t.L), K + "-polyline-length", "length of the polyline");
    if (ex.haveForm) {
      double scale = 0;
      for (Edge e : w.m->edges()) scale = std::max(scale, std::abs(ex.om[e]) / w.len(e));
      near(I, ex.form[i], 1e-4 * scale * (want + w.t.L) + 1e-8, K + "-homology", "integral of a closed form along path ", i);
      c.count("homology classes compared");
    }
  }
  if (w.t.embedded) {
    n.posGeom = w.t.g.geom.get();
    auto p3 = n.getPathPolyline3D();
    check(p3.size() == lines.size(), K + "-polyline3d", "count");
    for (size_t i = 0; i < lines.size(); i++) {
      check(p3[i].size() == lines[i].size(), K + "-polyline3d", "size");
      for (size_t k = 0; k < p3[i].size(); k++) check(norm(p3[i][k] - inputPos(w.t, lines[i][k])) <= 1e-10 * (1 + norm(p3[i][k])), K + "-polyline3d", "point ", k);
    }
  }
}
// are there corners left which should have been straightened?
bool checkStraight(Ctx& c, World& w, FlipEdgeNetwork& n, const std::string& K) {
  auto st = structure(n, K);
  const EdgeData<double>& l = n.tri->edgeLengths;
  bool spurs = false;
  for (size_t i = 0; i < st.size(); i++) {
    size_t N = st[i].size();
    for (size_t k = 0; k < N; k++) {
      if (!k && !n.paths[i]->isClosed) continue;
      Seg &a = st[i][(k + N - 1) % N], &b = st[i][k];
      Halfedge in = a.he, out = b.he;
      FlipPathSegment sa{n.paths[i].get(), a.id}, sb{n.paths[i].get(), b.id};
      if (in.twin() == out) {
        c.count("spurs left");
        spurs = true;
        continue;
      }
      double left = sweep(l, out, in.twin()), right = sweep(l, in.twin(), out);
      double cl, cr;
      std::tie(cl, cr) = n.measureSideAngles(in, out);
      if (left < inf() || cl < inf()) near(cl, left, 1e-4, K + "-side-angle", "left angle of ", out);
      if (right < inf() || cr < inf()) near(cr, right, 1e-4, K + "-side-angle", "right angle of ", out);
      if (n.isMarkedVertex[out.tailVertex()] && !n.straightenAroundMarkedVertices) {
        c.count("corners at pinned vertices");
        continue;
      }
      for (int side = 0; side < 2; side++) {
        double ang = side ? right : left;
        if (ang > PI - 1e-4) continue;
        // blocked by another part of the network?
        bool blocked = false;
        Halfedge h = side ? in.twin() : out, e = side ? out : in.twin();
        std::vector<Edge> es;
        while (h != e) {
          h = h.next().next().twin();
          if (h != e && n.edgeInPath(h.edge())) blocked = true;
          if (h != e) es.push_back(h.edge());
        }
        Halfedge oi = side ? in.twin() : in, oo = side ? out.twin() : out;
        if (n.getOutsideSegment(oi) != sa || n.getOutsideSegment(oo) != sb) blocked = true;
        // an edge occurring at both ends of the wedge (self-edges) cannot be flipped out of the way
        if (blocked) {
          c.count("blocked corners");
          continue;
        }
        if (N == 1 && n.paths[i]->isClosed) { // a loop which has contracted to the only vertex inside has no shorter loop along edges
          Halfedge x = side ? out.twin() : out;
          if (x.next().edge() == x.next().next().edge()) {
            c.count("contracted loops");
            continue;
          }
          c.count("one-edge loops");
        }
        fail(K + "-not-straight", "path ", i, " has an unobstructed ", side ? "right" : "left", " angle of ", ang, " at ", out.tailVertex(), " (other side ", side ? left : right, ", ", N, " segments, closed ", n.paths[i]->isClosed, ")");
      }
      c.count("straight corners");
    }
  }
  return spurs;
}
Expect expect(Ctx& c, World& w, const std::vector<Path>& p) {
  Expect e;
  e.paths = p;
  if (c.rng.coin(0.5) && w.m->nEdges() < 160) {
    e.haveForm = true;
    e.om = closedForm(c, w);
    for (auto& q : p) {
      double s = 0;
      for (Halfedge h : q) s += formOn(e.om, h);
      e.form.push_back(s);
    }
  }
  return e;
}
std::string show(const std::vector<Path>& ps) {
  std::string s;
  for (auto& p : ps) {
    s += " path";
    for (Halfedge h : p) s += str(" ", h.tailVertex().getIndex());
    s += str(" ", p.back().tipVertex().getIndex());
  }
  return s;
}
std::vector<Path> randomPaths(Ctx& c, World& w, int kind) {
  Rng& r = c.rng;
  std::vector<Path> ps;
  if (kind == 0) ps.push_back(randomWalk(c, w, 2 + r.below(12), true));
  if (kind == 1) ps.push_back(randomWalk(c, w, 2 + r.below(15), false)); // may cross itself
  if (kind == 2) ps.push_back(randomLoop(c, w));
  if (kind == 3) { // several paths, touching or not
    size_t n = 2 + r.below(3);
    std::set<size_t> used;
    bool disjoint = r.coin();
    for (size_t i = 0; i < n; i++) {
      Path p = r.coin(0.3) ? randomLoop(c, w) : randomWalk(c, w, 2 + r.below(8), true, disjoint ? used : std::set<size_t>{});
      if (p.empty()) continue;
      bool hit = false;
      for (Halfedge h : p) hit = hit || used.count(h.tailVertex().getIndex()) || used.count(h.tipVertex().getIndex());
      if (disjoint && hit) continue;
      for (Halfedge h : p) {
        used.insert(h.tailVertex().getIndex());
        used.insert(h.tipVertex().getIndex());
      }
      ps.push_back(p);
    }
  }
  std::vector<Path> out;
  for (auto& p : ps)
    if (!p.empty()) out.push_back(p);
  if (out.empty()) throw Skip("no path");
  c.note += show(out);
  return out;
}
VertexData<bool> someMarks(Ctx& c, World& w, double p) {
  VertexData<bool> v(*w.m, false);
  for (Vertex x : w.verts) v[x] = c.rng.coin(p);
  return v;
}
std::vector<std::pair<size_t, bool>> passes(FlipEdgeNetwork& n, size_t i) { // interior vertices of a path and their marks, in order
  std::vector<std::pair<size_t, bool>> r;
  auto st = structure(n, "passes");
  for (size_t k = 0; k < st[i].size(); k++)
    if (k || n.paths[i]->isClosed) r.push_back({st[i][k].he.tailVertex().getIndex(), n.isMarkedVertex[st[i][k].he.tailVertex()]});
  return r;
}
// Known finding: moving a loop of one edge across its apex may make it longer. Is this what happened?
bool oneEdgeLoopsMayGrow = true;
bool oneEdgeLoopGrew(Ctx& c, World& w, const std::vector<Path>& ps, const VertexData<bool>& marks, bool pin) {
  if (!oneEdgeLoopsMayGrow) return false;
  FlipEdgeNetwork n(*w.m, w.geom(), ps, marks);
  n.straightenAroundMarkedVertices = !pin;
  bool grew = false;
  for (size_t step = 0; step < 5000 && !n.wedgeAngleQueue.empty(); step++) {
    double L = n.length();
    bool one = false;
    for (auto& p : n.paths) one = one || (p->isClosed && p->size() == 1);
    n.iterativeShorten(1);
    if (n.length() > L * (1 + 1e-9)) {
      if (!one) return false;
      grew = true;
    }
  }
  if (grew) c.count("loops of one edge which grew");
  return grew;
}
void famShorten(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c);
  int kind = r.below(4);
  std::vector<Path> ps = randomPaths(c, w, kind);
  Expect ex = expect(c, w, ps);
  bool pin = r.coin(0.25);
  VertexData<bool> marks = someMarks(c, w, pin ? 0.4 : 0.2);
  bool giveMarks = pin || r.coin(0.2);
  FlipEdgeNetwork n(*w.m, w.geom(), ps, giveMarks ? marks : VertexData<bool>());
  n.straightenAroundMarkedVertices = !pin;
  checkNetwork(c, w, n, ex, "initial");
  check(n.intrinsicTriIsOriginal(), "initial-original", "intrinsic triangulation differs from the input");
  double L0 = 0;
  for (auto& p : ps) L0 += w.len(p);
  near(n.length(), L0, 1e-9 * L0, "initial-length", "initial length");
  auto st = structure(n, "initial");
  for (size_t i = 0; i < ps.size(); i++) {
    auto p0 = ps[i];
    Path hl = n.paths[i]->getHalfedgeList();
    check(hl.size() == p0.size(), "initial-path", "size");
    if (!isLoop(p0))
      for (size_t k = 0; k < p0.size(); k++) check(hl[k].getIndex() == p0[k].getIndex(), "initial-path", "halfedge ", k);
  }
  std::vector<std::vector<size_t>> pinned(ps.size());
  if (pin)
    for (size_t i = 0; i < ps.size(); i++)
      for (auto& x : passes(n, i))
        if (x.second) pinned[i].push_back(x.first);
  double L = n.length();
  std::string mode;
  size_t steps = 0;
  long long it0 = n.nShortenIters;
  if (r.coin(0.35)) {
    mode = "steps";
    for (steps = 0; steps < 400; steps++) {
      long long before = n.nShortenIters, flips = n.nFlips;
      size_t k = 1 + r.below(3);
      n.iterativeShorten(k);
      check(n.nShortenIters - before <= 2 * (long long)k, "iteration-limit", n.nShortenIters - before, " iterations with limit ", k);
      double L2 = n.length();
      check(L2 <= L * (1 + 1e-9) || oneEdgeLoopGrew(c, w, ps, giveMarks ? marks : VertexData<bool>(), pin), "length-increased", L, " -> ", L2);
      L = L2;
      if (r.coin(0.3)) checkNetwork(c, w, n, ex, "step");
      if (n.nShortenIters == before && n.wedgeAngleQueue.empty()) break;
      (void)flips;
    }
    n.iterativeShorten();
  } else if (r.coin(0.3)) {
    mode = "ratio";
    double ratio = r.uni(0.5, 1);
    n.iterativeShorten(INVALID_IND, ratio);
    check(n.length() <= L * (1 + 1e-9) || oneEdgeLoopGrew(c, w, ps, giveMarks ? marks : VertexData<bool>(), pin), "length-increased", L, " -> ", n.length());
    if (n.length() < ratio * L) {
      c.count("stopped by length");
      if (ps.size() == 1 && n.nShortenIters > 0) { // not one iteration too late
        FlipEdgeNetwork n2(*w.m, w.geom(), ps, giveMarks ? marks : VertexData<bool>());
        n2.straightenAroundMarkedVertices = !pin;
        n2.iterativeShorten(n.nShortenIters - 1);
        if (n2.nShortenIters == n.nShortenIters - 1) check(n2.length() >= ratio * L * (1 - 1e-9), "length-limit", "went on below the length limit");
      }
    } else {
      checkStraight(c, w, n, "ratio");
    }
    checkNetwork(c, w, n, ex, "ratio");
    n.iterativeShorten();
  } else {
    mode = "full";
    n.iterativeShorten();
  }
  (void)it0;
  check(n.length() <= L * (1 + 1e-9) || oneEdgeLoopGrew(c, w, ps, giveMarks ? marks : VertexData<bool>(), pin), "length-increased", L, " -> ", n.length());
  checkNetwork(c, w, n, ex, "final");
  checkTri(c, w, n, "tri");
  bool spurs = checkStraight(c, w, n, "final");
  checkPolyline(c, w, n, ex, "final");
  if (pin)
    for (size_t i = 0; i < ps.size(); i++) {
      std::vector<size_t> now;
      for (auto& x : passes(n, i))
        if (x.second) now.push_back(x.first);
      // the pinned vertices are still visited, in order (loops may start elsewhere)
      size_t need = pinned[i].size();
      bool ok = need == 0;
      size_t rots = n.paths[i]->isClosed ? std::max<size_t>(1, now.size()) : 1;
      for (size_t o = 0; o < rots && !ok; o++) {
        size_t j = 0;
        for (size_t k = 0; k < now.size() && j < need; k++)
          if (now[(k + o) % now.size()] == pinned[i][j]) j++;
        ok = j == need;
      }
      if (!ok && n.paths[i]->isClosed) { // rotate the other list
        for (size_t o = 0; o < need && !ok; o++) {
          size_t j = 0;
          for (size_t k = 0; k < now.size() && j < need; k++)
            if (now[k] == pinned[i][(j + o) % need]) j++;
          ok = j == need;
        }
      }
      check(ok, "pinned", "path ", i, " left one of its ", need, " pinned vertices");
      c.count("pinned paths");
    }
  // a second call has nothing left to do
  double Lf = n.length();
  n.addAllWedgesToAngleQueue();
  n.iterativeShorten();
  if (!spurs) near(n.length(), Lf, 1e-6 * Lf, "repeat", "length after shortening again");
  c.count("shortened-" + mode);
  c.count("flips", n.nFlips);
  if (n.nFlips) c.sig(hashD(n.length()));
}
void famGeodesic(Ctx& c) {
  // constructors from Dijkstra paths, and the length of the resulting geodesic against polyhedral distances
  Rng& r = c.rng;
  bool convex = r.coin(0.3);
  World w = makeWorld(c, convex);
  Vertex a = r.pick(w.verts), b = r.pick(w.verts);
  Net n = FlipEdgeNetwork::constructFromDijkstraPath(*w.m, w.geom(), a, b);
  if (a == b || w.comp[a.getIndex()] != w.comp[b.getIndex()]) {
    check(!n, "dijkstra-null", "network between unconnected or equal vertices");
    c.count("null networks");
    return;
  }
  check(bool(n), "dijkstra-null", "no network");
  c.note += str(" from ", a, " to ", b);
  double D = edgeDist(w, a)[b.getIndex()];
  near(n->length(), D, 1e-9 * D, "dijkstra-length", "initial length");
  Path p;
  for (Halfedge h : n->paths[0]->getHalfedgeList()) p.push_back(w.m->halfedge(h.getIndex()));
  check(p.front().tailVertex() == a && p.back().tipVertex() == b, "dijkstra-ends", "end points");
  Expect ex = expect(c, w, {p});
  n->iterativeShorten();
  checkNetwork(c, w, *n, ex, "dijkstra");
  checkTri(c, w, *n, "dijkstra-tri");
  checkStraight(c, w, *n, "dijkstra");
  checkPolyline(c, w, *n, ex, "dijkstra");
  check(n->length() <= D * (1 + 1e-9), "dijkstra-longer", "longer than the edge path");
  GeodesicAlgorithmExact ga(*w.m, w.geom());
  ga.propagate(std::vector<SurfacePoint>{SurfacePoint(a)});
  double G = ga.getDistance(SurfacePoint(b));
  check(n->length() >= G * (1 - 1e-5), "shorter-than-geodesic", n->length(), " < ", G);
  if (w.t.flat) {
    double d = norm(inputPos(w.t, SurfacePoint(a)) - inputPos(w.t, SurfacePoint(b)));
    check(n->length() >= d * (1 - 1e-7), "flat-distance", n->length(), " < ", d);
    if (w.m->nBoundaryLoops() == 1 && w.m->eulerCharacteristic() == 1) { // unique geodesic in a simply connected flat domain
      near(n->length(), G, 1e-4 * G, "flat-geodesic", "length of the geodesic in a simply connected flat domain");
      c.count("flat disks");
    }
  }
  if (n->length() <= G * (1 + 1e-5)) c.count("global shortest paths");
  c.count("geodesics");
  c.sig(hashD(n->length()));
}
void famPiecewise(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c);
  size_t k = 2 + r.below(4);
  std::vector<Vertex> pts;
  for (size_t i = 0; i < k; i++) pts.push_back(r.pick(w.verts));
  bool closed = r.coin(0.4), mark = r.coin();
  for (Vertex v : pts) c.note += str(" ", v);
  c.note += str(closed ? " closed" : "", mark ? " mark" : "");
  double D = 0;
  bool possible = true;
  size_t end = closed ? k : k - 1;
  for (size_t i = 0; i < end; i++) {
    Vertex x = pts[i], y = pts[(i + 1) % k];
    if (x == y || w.comp[x.getIndex()] != w.comp[y.getIndex()]) possible = false;
    else D += edgeDist(w, x)[y.getIndex()];
  }
  Net n = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(*w.m, w.geom(), pts, closed, mark);
  check(bool(n) == possible, "piecewise-null", "network ", bool(n), " possible ", possible);
  if (!possible) {
    c.count("null networks");
    return;
  }
  near(n->length(), D, 1e-9 * D, "piecewise-length", "initial length");
  check(n->paths.size() == 1, "piecewise-count", n->paths.size());
  Path p;
  for (Halfedge h : n->paths[0]->getHalfedgeList()) p.push_back(w.m->halfedge(h.getIndex()));
  if (n->paths[0]->isClosed) // start at the first point
    for (size_t i = 0; i < p.size() && p.front().tailVertex() != pts[0]; i++) std::rotate(p.begin(), p.begin() + 1, p.end());
  Expect ex = expect(c, w, {p});
  if (mark)
    for (Vertex v : pts) check(n->isMarkedVertex[n->mesh.vertex(v.getIndex())], "piecewise-marked", v);
  bool pin = mark && r.coin(0.7);
  n->straightenAroundMarkedVertices = !pin;
  bool spur = false;
  for (size_t i = 0; i < p.size(); i++)
    if ((i || isLoop(p)) && p[(i + p.size() - 1) % p.size()].twin() == p[i]) spur = true;
  n->iterativeShorten();
  checkNetwork(c, w, *n, ex, "piecewise");
  checkTri(c, w, *n, "piecewise-tri");
  checkStraight(c, w, *n, "piecewise");
  checkPolyline(c, w, *n, ex, "piecewise");
  check(n->length() <= D * (1 + 1e-9), "piecewise-longer", "longer than the edge path");
  if (pin && !n->paths[0]->isClosed) { // still through all points, in order
    auto st = structure(*n, "piecewise");
    size_t j = 0;
    for (auto& s : st[0])
      if (j < k && s.he.tailVertex().getIndex() == pts[j].getIndex()) j++;
    if (j + 1 == k && st[0].back().he.tipVertex().getIndex() == pts[k - 1].getIndex()) j++;
    check(j == k, "piecewise-pinned", "only ", j, " of ", k, " points are still on the path");
    c.count("pinned polygons");
  }
  c.count(spur ? "piecewise paths with spurs" : "piecewise paths");
  c.sig(hashD(n->length()));
}
void famEdgeSet(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c);
  EdgeData<bool> in(*w.m, false);
  VertexData<bool> ends = someMarks(c, w, r.coin() ? 0 : 0.15);
  if (r.coin(0.3)) {
    double p = r.uni(0.05, 0.3);
    for (Edge e : w.m->edges()) in[e] = r.coin(p);
  } else
    for (auto& p : randomPaths(c, w, r.below(4)))
      for (Halfedge h : p) in[h.edge()] = true;
  std::map<size_t, int> deg;
  size_t cnt = 0;
  for (Edge e : w.m->edges())
    if (in[e]) {
      cnt++;
      deg[e.firstVertex().getIndex()]++;
      deg[e.secondVertex().getIndex()]++;
    }
  if (!cnt) throw Skip("no edges");
  Net n = FlipEdgeNetwork::constructFromEdgeSet(*w.m, w.geom(), in, ends);
  std::map<size_t, int> seen;
  std::vector<Path> ps;
  auto isEnd = [&](Vertex v) { return ends[v] || (deg.count(v.getIndex()) && deg[v.getIndex()] != 2); };
  for (auto& path : n->paths) {
    Path p;
    for (Halfedge h : path->getHalfedgeList()) p.push_back(w.m->halfedge(h.getIndex()));
    if (isLoop(p)) // an end point on the loop must be its start
      for (size_t i = 0; i < p.size() && !isEnd(p.front().tailVertex()); i++) std::rotate(p.begin(), p.begin() + 1, p.end());
    for (size_t i = 0; i < p.size(); i++) {
      seen[p[i].edge().getIndex()]++;
      check(in[p[i].edge()], "edge-set", "edge not in the set");
      if (i) check(!isEnd(p[i].tailVertex()), "edge-set-ends", "path goes through the end point ", p[i].tailVertex());
    }
    if (!isLoop(p)) check(isEnd(p.front().tailVertex()) && isEnd(p.back().tipVertex()), "edge-set-ends", "path ends in ", p.front().tailVertex(), " or ", p.back().tipVertex());
    ps.push_back(p);
  }
  for (Edge e : w.m->edges())
    if (in[e]) check(seen[e.getIndex()] == 1, "edge-set", e, " covered ", seen[e.getIndex()], " times");
  for (Vertex v : w.verts)
    if (ends[v]) check(n->isMarkedVertex[n->mesh.vertex(v.getIndex())], "edge-set-marked", "extra marked vertex ", v);
  Expect ex = expect(c, w, ps);
  checkNetwork(c, w, *n, ex, "edge-set");
  double L = n->length();
  n->straightenAroundMarkedVertices = r.coin();
  n->iterativeShorten();
  check(n->length() <= L * (1 + 1e-9) || oneEdgeLoopGrew(c, w, ps, ends, !n->straightenAroundMarkedVertices), "length-increased", L, " -> ", n->length());
  checkNetwork(c, w, *n, ex, "edge-set");
  checkTri(c, w, *n, "edge-set-tri");
  checkStraight(c, w, *n, "edge-set");
  checkPolyline(c, w, *n, ex, "edge-set");
  c.count("edge sets");
  c.count("edge set paths", ps.size());
  c.sig(hashD(n->length()));
}
void famRewind(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c);
  FlipEdgeNetwork n(*w.m, w.geom(), {});
  if (r.coin(0.1)) throws([&] { n.rewind(); }, "rewind-unsupported", "rewind without support");
  n.supportRewinding = true;
  std::vector<Halfedge> he0;
  HalfedgeData<Halfedge> next0(n.mesh), twin0(n.mesh);
  HalfedgeData<Vertex> tail0(n.mesh);
  HalfedgeData<double> ang0 = n.tri->signpostAngle;
  EdgeData<double> len0 = n.tri->edgeLengths;
  HalfedgeData<Vector2> vec0 = n.tri->halfedgeVectorsInVertex;
  for (Halfedge h : n.mesh.halfedges()) {
    next0[h] = h.next();
    twin0[h] = h.twin();
    tail0[h] = h.vertex();
  }
  size_t rounds = 1 + r.below(4);
  for (size_t k = 0; k < rounds; k++) {
    std::vector<Path> ps = randomPaths(c, w, r.below(4));
    Expect ex = expect(c, w, ps);
    n.reinitializePath(ps);
    checkNetwork(c, w, n, ex, "reinit");
    double L0 = n.length(), want = 0;
    for (auto& p : ps) want += w.len(p);
    near(L0, want, 1e-7 * want, "reinit-length", "initial length");
    size_t lim = r.coin(0.3) ? 1 + r.below(5) : INVALID_IND;
    n.iterativeShorten(lim);
    checkNetwork(c, w, n, ex, "reinit-final");
    if (lim == INVALID_IND) {
      checkTri(c, w, n, "reinit-tri");
      checkStraight(c, w, n, "reinit-final");
      checkPolyline(c, w, n, ex, "reinit-final");
      if (ps.size() == 1) { // the same as from scratch
        FlipEdgeNetwork f(*w.m, w.geom(), ps);
        for (Vertex v : n.mesh.vertices()) f.isMarkedVertex[f.mesh.vertex(v.getIndex())] = n.isMarkedVertex[v];
        f.iterativeShorten();
        near(n.length(), f.length(), 1e-5 * f.length(), "reinit-same", "length differs from that of a new network");
      }
    }
    if (r.coin(0.6) || k + 1 == rounds) {
      n.rewind();
      check(n.paths.empty() && n.wedgeAngleQueue.empty(), "rewind-paths", "paths left");
      for (Edge e : n.mesh.edges()) {
        check(!n.edgeInPath(e), "rewind-paths", "path left on ", e);
        near(n.tri->edgeLengths[e], len0[e], 1e-12 * len0[e], "rewind-length", e);
        check(n.tri->edgeIsOriginal[e], "rewind-original", e);
      }
      check(n.intrinsicTriIsOriginal(), "rewind-original", "intrinsicTriIsOriginal");
      for (Halfedge h : n.mesh.halfedges()) {
        check(h.next() == next0[h] && h.twin() == twin0[h] && h.vertex() == tail0[h], "rewind-connectivity", h);
        if (h.isInterior() || true) {
          double s = n.tri->vertexAngleSums[h.vertex()], d = n.tri->signpostAngle[h] - ang0[h];
          if (!h.vertex().isBoundary()) d -= s * std::round(d / s);
          check(std::abs(d) < 1e-9, "rewind-angle", "signpost of ", h, " off by ", d);
        }
        check(norm(n.tri->halfedgeVectorsInVertex[h] - vec0[h]) < 1e-8 * norm(vec0[h]), "rewind-vector", h);
      }
      checkTri(c, w, n, "rewind-tri");
      check(n.length() == 0, "rewind-total", n.length());
      c.count("rewinds");
    }
  }
  c.sig(n.nFlips);
}
// Flat worlds: does the boundary of the domain enter the convex hull of the given points?
bool reachesIntoHull(Rng& r, World& w, const std::vector<Vector3>& P) {
  Vector3 N{0, 0, 0};
  for (Face f : w.m->faces()) {
    Halfedge h = f.halfedge();
    Vector3 a = inputPos(w.t, SurfacePoint(h.vertex())), b = inputPos(w.t, SurfacePoint(h.next().vertex())), d = inputPos(w.t, SurfacePoint(h.next().next().vertex()));
    N += cross(b - a, d - a);
  }
  N = unit(N);
  double scale = 0;
  for (const Vector3& p : P) scale = std::max(scale, norm(p - P[0]));
  std::vector<std::pair<Vector3, Vector3>> hull; // (point, inward normal)
  for (size_t i = 0; i < P.size(); i++)
    for (size_t j = 0; j < P.size(); j++) {
      if (i == j || norm(P[j] - P[i]) < 1e-9 * scale) continue;
      Vector3 in = unit(cross(N, P[j] - P[i]));
      bool all = true;
      for (const Vector3& q : P) all = all && dot(q - P[i], in) >= -1e-9 * scale;
      if (all) hull.push_back({P[i], in});
    }
  for (Edge e : w.m->edges()) {
    if (!e.isBoundary()) continue;
    Vector3 a = inputPos(w.t, SurfacePoint(e.firstVertex())), b = inputPos(w.t, SurfacePoint(e.secondVertex()));
    for (int k = 0; k <= 40; k++) {
      Vector3 x = a + (b - a) * (k / 40.);
      double d = scale;
      for (auto& h : hull) d = std::min(d, dot(x - h.first, h.second));
      if (d > 1e-6 * scale) return true;
    }
  }
  // points of the hull itself
  for (int k = 0; k < 60; k++) {
    Vector3 x{0, 0, 0};
    double sum = 0;
    for (const Vector3& p : P) {
      double u = r.uni(0, 1);
      x += p * u;
      sum += u;
    }
    x /= sum;
    bool inside = false;
    for (Face f : w.m->faces()) {
      bool in = true;
      for (Halfedge h : f.adjacentHalfedges()) {
        Vector3 a = inputPos(w.t, SurfacePoint(h.tailVertex())), b = inputPos(w.t, SurfacePoint(h.tipVertex()));
        if (dot(cross(N, b - a), x - a) < -1e-9 * scale * norm(b - a)) in = false;
      }
      inside = inside || in;
    }
    if (!inside) return true;
  }
  return false;
}
void famBezier(Ctx& c) {
  Rng& r = c.rng;
  bool plane = r.coin(0.6);
  World w = makeWorld(c, plane);
  size_t k = 2 + r.below(4);
  std::vector<Vertex> pts;
  for (size_t tries = 0; pts.size() < k && tries < 50; tries++) {
    Vertex v = r.pick(w.verts);
    if (std::find(pts.begin(), pts.end(), v) == pts.end() && w.comp[v.getIndex()] == w.comp[pts.empty() ? v.getIndex() : pts[0].getIndex()]) pts.push_back(v);
  }
  if (pts.size() < 2) throw Skip("points");
  k = pts.size();
  Net n = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(*w.m, w.geom(), pts, false, true);
  if (!n) throw Skip("no path");
  // the control polygon must be simple: no vertex visited twice
  {
    n->straightenAroundMarkedVertices = false;
    n->iterativeShorten();
    auto st = structure(*n, "bezier");
    std::set<size_t> vis{st[0].front().he.tailVertex().getIndex()};
    for (auto& s : st[0])
      if (!vis.insert(s.he.tipVertex().getIndex()).second) throw Skip("control polygon not simple");
    n->straightenAroundMarkedVertices = true;
  }
  double L0 = n->length();
  bool straight = w.t.flat;
  std::vector<Vector3> P;
  for (Vertex v : pts) P.push_back(inputPos(w.t, SurfacePoint(v)));
  if (straight) {
    double s = 0;
    for (size_t i = 0; i + 1 < k; i++) s += norm(P[i + 1] - P[i]);
    if (std::abs(s - L0) > 1e-7 * s) straight = false; // the domain is in the way
    if (reachesIntoHull(r, w, P)) straight = false;       // the hull of the control points is not within the domain
  }
  size_t rounds = r.below(4);
  for (Vertex v : pts) c.note += str(" ", v);
  c.note += str(" rounds ", rounds);
  bool oldOpt = n->straightenAroundMarkedVertices = r.coin();
  try {
    n->bezierSubdivide(rounds);
  } catch (const std::runtime_error& e) {
    std::string s = e.what();
    if (s.find("multiple paths at vertex") != std::string::npos || s.find("with one path on it") != std::string::npos) throw Skip("curve touches itself");
    throw;
  }
  check(n->straightenAroundMarkedVertices == oldOpt, "bezier-option", "option not restored");
  try {
    n->validate();
  } catch (const std::runtime_error& e) {
    // documented: the curve must be simple at all times. An end point which the curve touched meanwhile gets unmarked.
    if (std::string(e.what()).find("endpoint isn't a marked vertex") != std::string::npos) throw Skip("curve touches itself");
    throw;
  }
  auto st = structure(*n, "bezier");
  check(st.size() == 1 && !n->paths[0]->isClosed, "bezier-path", "not one open path");
  check(st[0].front().he.tailVertex().getIndex() == pts[0].getIndex() && st[0].back().he.tipVertex().getIndex() == pts[k - 1].getIndex(), "bezier-ends", "end points");
  check(n->length() <= L0 * (1 + 1e-6), "bezier-longer", n->length(), " > ", L0);
  checkTri(c, w, *n, "bezier-tri", true);
  n->straightenAroundMarkedVertices = false;
  checkStraight(c, w, *n, "bezier");
  if (straight) {
    // control polygon by de Casteljau
    std::function<std::vector<Vector3>(std::vector<Vector3>, size_t)> cast = [&](std::vector<Vector3> q, size_t m) {
      if (!m) return q;
      std::vector<Vector3> left{q.front()}, right{q.back()};
      while (q.size() > 1) {
        std::vector<Vector3> z;
        for (size_t i = 0; i + 1 < q.size(); i++) z.push_back((q[i] + q[i + 1]) / 2);
        q = z;
        left.push_back(q.front());
        right.push_back(q.back());
      }
      std::reverse(right.begin(), right.end());
      left = cast(left, m - 1);
      right = cast(right, m - 1);
      left.insert(left.end(), right.begin() + 1, right.end());
      return left;
    };
    std::vector<Vector3> want = cast(P, rounds), got{P[0]};
    for (auto& s : st[0])
      if (n->isMarkedVertex[s.he.tipVertex()]) got.push_back(inputPos(w.t, n->tri->vertexLocations[s.he.tipVertex()]));
    // every wanted control point is on the path
    double tol = 1e-3 * L0;
    size_t j = 0;
    for (auto& g : got)
      while (j < want.size() && norm(want[j] - g) < tol) j++;
    check(j == want.size(), "bezier-plane", "control point ", j, " of ", want.size(), " is missing from the path");
    double s = 0;
    for (size_t i = 0; i + 1 < want.size(); i++) s += norm(want[i + 1] - want[i]);
    near(n->length(), s, 2e-3 * s, "bezier-plane-length", "length of the subdivided polygon");
    c.count("plane bezier curves");
  } else c.count("bezier curves");
  c.sig(hashD(n->length()));
}
void famRefine(Ctx& c) {
  Rng& r = c.rng;
  World w = makeWorld(c);
  std::vector<Path> ps = randomPaths(c, w, r.below(4));
  Expect ex = expect(c, w, ps);
  FlipEdgeNetwork n(*w.m, w.geom(), ps);
  n.iterativeShorten();
  std::map<size_t, double> plen;
  double L = n.length();
  auto st0 = structure(n, "refine");
  bool shared = false;
  for (Edge e : n.mesh.edges()) shared = shared || n.pathsAtEdge[e].size() > 1;
  n.makeDelaunay();
  auto st1 = structure(n, "make-delaunay");
  for (size_t i = 0; i < st0.size(); i++) {
    check(st0[i].size() == st1[i].size(), "delaunay-path", "number of segments");
    for (size_t k = 0; k < st0[i].size(); k++) check(st0[i][k].he == st1[i][k].he, "delaunay-path", "segment ", k);
  }
  near(n.length(), L, 1e-9 * L, "delaunay-length", "length");
  checkNetwork(c, w, n, ex, "delaunay");
  checkTri(c, w, n, "delaunay-tri");
  for (Edge e : n.mesh.edges())
    if (!e.isBoundary() && !n.edgeInPath(e)) {
      Halfedge a = e.halfedge(), b = a.twin();
      double s = cornerOf(n.tri->edgeLengths, a.next().next()) + cornerOf(n.tri->edgeLengths, b.next().next());
      if (a.face() != b.face()) check(s <= PI + 1e-3, "delaunay-angles", "opposite angles of an edge off the path sum to ", s);
    }
  checkPolyline(c, w, n, ex, "delaunay");
  c.count("made delaunay");
  // circumcenters of needles (fixed edges may leave some) are traced for ages
  double longest = 0, circumradius = 0, sharpest = PI;
  for (Edge e : n.mesh.edges()) longest = std::max(longest, n.tri->edgeLengths[e]);
  for (Face f : n.mesh.faces()) {
    Halfedge h = f.halfedge();
    double a = n.tri->edgeLengths[h.edge()], b = n.tri->edgeLengths[h.next().edge()], d = n.tri->edgeLengths[h.next().next().edge()];
    circumradius = std::max(circumradius, a * b * d / (4 * std::max(1e-300, faceArea(n.tri->edgeLengths, f))));
    for (Halfedge x : f.adjacentHalfedges()) sharpest = std::min(sharpest, cornerOf(n.tri->edgeLengths, x));
  }
  if (circumradius > 100 * longest || sharpest < 0.2) c.count("refinements skipped (needles)");
  else if (!shared && r.coin(0.7)) {
    n.delaunayRefine(inf(), 30 + r.below(100), 25.);
    auto st = structure(n, "refine");
    checkNetwork(c, w, n, ex, "refine");
    near(n.length(), L, 1e-6 * L, "refine-length", "length of the path");
    checkTri(c, w, n, "refine-tri", true);
    bool wholeLoop = false; // a loop of one edge around a vertex cannot be shortened, its halves could
    for (size_t i = 0; i < st0.size(); i++) wholeLoop = wholeLoop || (st0[i].size() == 1 && n.paths[i]->isClosed);
    if (!wholeLoop) checkStraight(c, w, n, "refine");
    checkPolyline(c, w, n, ex, "refine", true);
    c.count("refined", 1);
    c.count("inserted vertices", n.mesh.nVertices() - w.m->nVertices());
  }
  c.sig(hashD(L));
}
// Long paths: thousands of shortening steps (the queue is purged of stale entries every 1000)
void famLong(Ctx& c) {
  Rng& r = c.rng;
  size_t n = c.thorough ? 24 + r.below(40) : 20 + r.below(14);
  std::vector<std::vector<size_t>> polys;
  auto id = [&](size_t i, size_t j) { return i * (n + 1) + j; };
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      if (r.coin()) {
        polys.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
        polys.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
      } else {
        polys.push_back({id(i, j), id(i + 1, j), id(i, j + 1)});
        polys.push_back({id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)});
      }
    }
  ManifoldSurfaceMesh m(polys);
  VertexPositionGeometry g(m);
  double bump = r.coin() ? 0 : r.uni(0.1, 1.5);
  for (size_t i = 0; i <= n; i++)
    for (size_t j = 0; j <= n; j++) g.inputVertexPositions[m.vertex(id(i, j))] = {i + r.uni(-0.25, 0.25), j + r.uni(-0.25, 0.25), r.uni(-bump, bump)};
  // a snake through the grid, along every row or every other row
  std::vector<size_t> vs;
  size_t step = 1 + r.below(2), row = 0;
  bool fwd = true;
  while (true) {
    for (size_t j = 0; j <= n; j++) vs.push_back(id(row, fwd ? j : n - j));
    if (row + step > n) break;
    for (size_t k = 1; k < step; k++) vs.push_back(id(row + k, fwd ? n : 0));
    row += step;
    fwd = !fwd;
  }
  if (r.coin()) std::reverse(vs.begin(), vs.end());
  std::vector<Path> ps(1);
  for (size_t k = 0; k + 1 < vs.size(); k++)
    for (Halfedge h : m.vertex(vs[k]).outgoingHalfedges())
      if (h.tipVertex().getIndex() == vs[k + 1]) ps[0].push_back(h);
  check(ps[0].size() + 1 == vs.size(), "long-setup", "path");
  c.note = str("snake n=", n, " step ", step, " bump ", bump);
  FlipEdgeNetwork net(m, g, ps);
  net.supportRewinding = r.coin();
  double L = net.length();
  net.iterativeShorten();
  check(net.wedgeAngleQueue.empty(), "long-queue", "queue not empty");
  check(net.length() <= L * (1 + 1e-9), "long-increased", L, " -> ", net.length());
  net.validate();
  World w;
  checkStraight(c, w, net, "long");
  auto st = structure(net, "long");
  check(st.size() == 1 && st[0].front().he.tailVertex().getIndex() == vs.front() && st[0].back().he.tipVertex().getIndex() == vs.back(), "long-ends", "end points");
  if (bump == 0) c.count("flat snakes");
  c.count("long paths");
  c.count("steps of long paths", net.nShortenIters);
  if (net.supportRewinding) {
    net.rewind();
    check(net.intrinsicTriIsOriginal(), "long-rewind", "not the initial triangulation");
    for (Edge e : m.edges()) near(net.tri->edgeLengths[net.mesh.edge(e.getIndex())], norm(g.inputVertexPositions[e.firstVertex()] - g.inputVertexPositions[e.secondVertex()]), 1e-9 * n, "long-rewind-length", e);
  }
  c.sig(hashD(L));
}
void probeSpur(Ctx& c) {
  // a path which immediately backtracks is not locally shortest
  std::vector<std::vector<size_t>> polys;
  std::vector<Vector3> pos;
  for (size_t i = 0; i < 4; i++)
    for (size_t j = 0; j < 4; j++) pos.push_back({(double)i, (double)j, 0});
  for (size_t i = 0; i < 3; i++)
    for (size_t j = 0; j < 3; j++) {
      polys.push_back({4 * i + j, 4 * i + j + 4, 4 * i + j + 5});
      polys.push_back({4 * i + j, 4 * i + j + 5, 4 * i + j + 1});
    }
  ManifoldSurfaceMesh m(polys);
  VertexPositionGeometry g(m);
  for (size_t i = 0; i < 16; i++) g.inputVertexPositions[m.vertex(i)] = pos[i];
  Net n = FlipEdgeNetwork::constructFromPiecewiseDijkstraPath(m, g, {m.vertex(9), m.vertex(5), m.vertex(6), m.vertex(5), m.vertex(4)});
  n->iterativeShorten();
  near(n->length(), std::sqrt(2.), 1e-6, "spur", "length of the path 9 5 6 5 4");
}
void probeLoop(Ctx& c) {
  // (a fixed case of the family above: seed 7, case 6279)
  uint64_t h = mix(mix(0x1234567, 7), 6279);
  for (char ch : std::string("shorten")) h = mix(h, (unsigned char)ch);
  c.rng = Rng(h);
  oneEdgeLoopsMayGrow = false;
  famShorten(c);
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("shorten", 6, famShorten);
  S.add("geodesic", 3, famGeodesic);
  S.add("piecewise", 3, famPiecewise);
  S.add("edge-set", 2, famEdgeSet);
  S.add("rewind", 2, famRewind);
  S.add("bezier", 3, famBezier);
  S.add("refine", 2, famRefine);
  S.add("long", 1, famLong);
  S.probe("backtracking-path", probeSpur);
  S.probe("one-edge-loop-grows", probeLoop);
  return run(S, argc, argv);
}
