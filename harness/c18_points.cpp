// C18: algebra of surface points, barycentric vectors and barycentric coordinates.
#include "intri.h"
#include "geometrycentral/surface/barycentric_coordinate_helpers.h"
#include "geometrycentral/surface/barycentric_vector.h"
using namespace vf;
typedef BarycentricVector BV;
typedef BarycentricVectorType BT;
namespace {
struct Dom {
  IT t;
  GeoMesh gm;
  std::unique_ptr<SurfaceMesh> gen;
  SurfaceMesh* m = nullptr;
  IntrinsicGeometryInterface* g = nullptr;
  EdgeData<double> l;
  bool delta = false, general = false;
  double q = 0, L = 0;
};
Dom makeDom(Ctx& c, int kind) {
  Rng& r = c.rng;
  Dom d;
  if (kind == 1) {
    ITOpts o;
    o.geo.maxQ = 15;
    o.pMarks = 0;
    d.t = makeIT(c, o);
    size_t n = r.below(25);
    for (size_t k = 0; k < n; k++) {
      std::vector<Edge> es;
      for (Edge e : d.t.T->intrinsicMesh->edges()) es.push_back(e);
      Edge e = r.pick(es);
      if (d.t.T->flipEdgeIfPossible(e) && std::max(faceQuality(d.t.T->edgeLengths, e.halfedge().face()), faceQuality(d.t.T->edgeLengths, e.halfedge().twin().face())) > 25)
        d.t.T->flipEdgeIfPossible(e);
    }
    d.t.T->refreshQuantities();
    d.m = d.t.T->intrinsicMesh.get();
    d.g = d.t.T.get();
    d.l = d.t.T->edgeLengths;
    d.delta = true;
  } else if (kind == 0) {
    GeoOpts o;
    o.maxQ = r.coin(0.2) ? 1e5 : 20;
    o.logScale = 2;
    d.gm = geoMesh(c, o);
    d.m = d.gm.mesh.get();
    d.g = d.gm.geom.get();
    d.g->requireEdgeLengths();
    d.l = d.gm.geom->edgeLengths;
  } else { // nonmanifold or inconsistently oriented triangles
    Soup s = randomSoup(r);
    triangulateSoup(s);
    for (auto& f : s.polys)
      if (r.coin(0.2)) std::reverse(f.begin(), f.end());
    d.gm.soup = s;
    d.gen.reset(new SurfaceMesh(s.polys));
    d.m = d.gen.get();
    d.general = true;
    c.note = s.desc + " " + showPolys(s.polys);
    c.sig(hashPolys(s.polys));
    return d;
  }
  double n = 0;
  for (Edge e : d.m->edges()) { d.L += d.l[e]; n++; }
  d.L /= n;
  for (Face f : d.m->faces()) d.q = std::max(d.q, faceQuality(d.l, f));
  return d;
}
std::set<Vertex> vertsOf(Face f) {
  std::set<Vertex> r;
  for (int i = 0; i < 3; i++) r.insert(heOf(f, i).vertex());
  return r;
}
std::set<Edge> edgesOf(Face f) {
  std::set<Edge> r;
  for (int i = 0; i < 3; i++) r.insert(heOf(f, i).edge());
  return r;
}
bool touches(Face f, const SurfacePoint& p) {
  if (p.type == SurfacePointType::Face) return p.face == f;
  if (p.type == SurfacePointType::Edge) return edgesOf(f).count(p.edge) > 0;
  return vertsOf(f).count(p.vertex) > 0;
}
bool touchesE(Edge e, const SurfacePoint& p) {
  if (p.type == SurfacePointType::Face) return false;
  if (p.type == SurfacePointType::Edge) return p.edge == e;
  return e.firstVertex() == p.vertex || e.secondVertex() == p.vertex;
}
// value of a piecewise linear function, by definition (edges are parametrized from firstVertex to secondVertex)
double evalRef(const VertexData<double>& u, const SurfacePoint& p) {
  if (p.type == SurfacePointType::Vertex) return u[p.vertex];
  if (p.type == SurfacePointType::Edge) return u[p.edge.firstVertex()] * (1 - p.tEdge) + u[p.edge.secondVertex()] * p.tEdge;
  return u[heOf(p.face, 0).vertex()] * p.faceCoords.x + u[heOf(p.face, 1).vertex()] * p.faceCoords.y + u[heOf(p.face, 2).vertex()] * p.faceCoords.z;
}
struct E2 {
  LD x, y;
};
// vector of a face, in the plane with halfedge 0 along x
E2 vecIn(const EdgeData<double>& l, Face f, Vector3 b) {
  LD a = l[heOf(f, 0).edge()], bb = l[heOf(f, 1).edge()], cc = l[heOf(f, 2).edge()];
  LD ang = triAngle(bb, a, cc);
  return {b.y * a + b.z * cc * cosl(ang), b.z * cc * sinl(ang)};
}
bool bvTouches(Face f, const BV& v) {
  if (v.type == BT::Face) return v.face == f;
  if (v.type == BT::Edge) return edgesOf(f).count(v.edge) > 0;
  return vertsOf(f).count(v.vertex) > 0;
}
BV randVec(Rng& r, SurfaceMesh& m, int kind = -1) {
  if (kind < 0) kind = r.below(6) % 3;
  SurfacePoint p = randPoint(r, m, kind == 0 ? 2 : kind == 1 ? 1 : 0);
  double s = std::pow(10., r.uni(-2, 2));
  if (kind == 0) {
    Vector3 v{s * r.uni(-1, 1), s * r.uni(-1, 1), 0};
    if (r.coin(0.1)) v.x = 0;
    if (r.coin(0.1)) v.y = 0;
    v.z = -v.x - v.y;
    return BV(p.face, v);
  }
  if (kind == 1) {
    double a = s * r.uni(-1, 1);
    return BV(p.edge, Vector2{a, -a});
  }
  return BV(p.vertex);
}
// coordinates of a vector in a face, by definition; several if an edge occurs more than once
std::vector<Vector3> bvIn(Face f, const BV& v) {
  std::vector<Vector3> r;
  if (v.type == BT::Face && v.face == f) r.push_back(v.faceCoords);
  if (v.type == BT::Vertex && vertsOf(f).count(v.vertex)) r.push_back(Vector3::zero());
  if (v.type == BT::Edge)
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      if (h.edge() != v.edge) continue;
      Vector3 x{0, 0, 0};
      bool same = h.orientation() == h.edge().halfedge().orientation();
      x[i] = same ? v.edgeCoords.x : v.edgeCoords.y;
      x[(i + 1) % 3] = same ? v.edgeCoords.y : v.edgeCoords.x;
      r.push_back(x);
    }
  return r;
}
double tol12(Dom& d) { return 1e-11 * (1 + d.q) * (1 + d.q); }
template <class T> T pickBad(Rng&, T a) { return a; }

void points(Ctx& c, Dom& d) {
  Rng& r = c.rng;
  SurfaceMesh& m = *d.m;
  VertexData<double> u(m);
  for (Vertex v : m.vertices()) u[v] = r.uni(-1, 1);
  std::vector<Face> fs;
  for (Face f : m.faces()) fs.push_back(f);
  std::vector<Edge> es;
  for (Edge e : m.edges()) es.push_back(e);
  for (int k = 0; k < 25; k++) {
    SurfacePoint p = randPoint(r, m, r.below(3), r.coin(0.2) ? 0 : 0.02);
    if (r.coin(0.1) && p.type == SurfacePointType::Edge) p.tEdge = r.coin() ? 0 : 1;
    double want = evalRef(u, p);
    near(p.interpolate(u), want, 1e-13, "interpolate", "at ", p);
    p.validate();
    SurfacePoint s = p.inSomeFace();
    check(s.type == SurfacePointType::Face && touches(s.face, p), "inSomeFace", p, " -> ", s);
    near(evalRef(u, s), want, 1e-12, "inSomeFace", p, " -> ", s);
    if (p.type == SurfacePointType::Face) check(s == p, "inSomeFace", "not a copy");
    bool match = false;
    for (auto& x : coordsIn(s.face, p))
      if (norm(x - s.faceCoords) < 1e-13) match = true;
    if (!d.general) check(match, "inSomeFace", p, " -> ", s);
    std::vector<Face> ts = {r.pick(fs), r.pick(fs)};
    for (Face f : fs)
      if (touches(f, p)) ts.push_back(f);
    for (Face f : ts) {
      if (touches(f, p)) {
        SurfacePoint x = p.inFace(f);
        check(x.type == SurfacePointType::Face && x.face == f, "inFace", p, " -> ", x);
        near(evalRef(u, x), want, 1e-12, "inFace", p, " -> ", x);
        near(x.faceCoords.x + x.faceCoords.y + x.faceCoords.z, 1, 1e-12, "inFace", "sum of coordinates");
        c.count("points moved to faces");
      } else
        throws([&] { p.inFace(f); }, "inFace-throws", p, " is not in ", f);
    }
    std::vector<Edge> te = {r.pick(es), r.pick(es)};
    for (Edge e : es)
      if (touchesE(e, p)) te.push_back(e);
    for (Edge e : te) {
      if (touchesE(e, p)) {
        SurfacePoint x = p.inEdge(e);
        check(x.type == SurfacePointType::Edge && x.edge == e, "inEdge", p, " -> ", x);
        near(evalRef(u, x), want, 1e-12, "inEdge", p, " -> ", x);
      } else
        throws([&] { p.inEdge(e); }, "inEdge-throws", p, " is not on ", e);
    }
    Vertex nv = p.nearestVertex();
    if (p.type == SurfacePointType::Vertex) check(nv == p.vertex, "nearestVertex", p);
    else if (p.type == SurfacePointType::Edge) check(nv == (p.tEdge < 0.5 ? p.edge.firstVertex() : p.edge.secondVertex()), "nearestVertex", p, " -> ", nv);
    else {
      double mx = std::max(p.faceCoords.x, std::max(p.faceCoords.y, p.faceCoords.z));
      bool ok = false;
      for (int i = 0; i < 3; i++)
        if (p.faceCoords[i] == mx && heOf(p.face, i).vertex() == nv) ok = true;
      check(ok, "nearestVertex", p, " -> ", nv);
    }
    // pairs
    for (int j = 0; j < 8; j++) {
      SurfacePoint o = randPoint(r, m, r.below(3));
      if (r.coin() && !ts.empty()) { // nearby
        Face f = r.pick(ts);
        int i = r.below(3);
        switch (r.below(3)) {
        case 0: o = SurfacePoint(heOf(f, i).vertex()); break;
        case 1: o = SurfacePoint(heOf(f, i).edge(), r.u()); break;
        default: o = SurfacePoint(f, Vector3{0.2, 0.3, 0.5});
        }
      }
      bool share = false, shareE = false;
      for (Face f : fs)
        if (touches(f, p) && touches(f, o)) share = true;
      for (Edge e : es)
        if (touchesE(e, p) && touchesE(e, o)) shareE = true;
      Face f = sharedFace(p, o);
      check((f != Face()) == share, "sharedFace", p, " ", o, ": ", f == Face() ? "none" : "some", " expected ", share ? "some" : "none");
      if (share) check(touches(f, p) && touches(f, o), "sharedFace", p, " ", o, " -> ", f);
      if (!(p.type == SurfacePointType::Vertex && o.type == SurfacePointType::Vertex && p.vertex == o.vertex)) {
        // (whether two points on the same vertex share an edge is left open by the implementation)
        Edge e = sharedEdge(p, o);
        check((e != Edge()) == shareE, "sharedEdge", p, " ", o, ": ", e == Edge() ? "none" : "some", " expected ", shareE ? "some" : "none");
        if (shareE) check(touchesE(e, p) && touchesE(e, o), "sharedEdge", p, " ", o, " -> ", e);
        // simplices of a triangle mesh are adjacent if some face has both
        check(checkAdjacent(p, o) == share, "checkAdjacent", p, " ", o, ": ", checkAdjacent(p, o), " expected ", share);
      }
      bool same = p.type == o.type && (p.type == SurfacePointType::Vertex ? p.vertex == o.vertex : p.type == SurfacePointType::Edge ? p.edge == o.edge : p.face == o.face);
      check(onSameElement(p, o) == same, "onSameElement", p, " ", o);
      bool eq = same && (p.type == SurfacePointType::Vertex || (p.type == SurfacePointType::Edge ? p.tEdge == o.tEdge : p.faceCoords == o.faceCoords));
      check((p == o) == eq && (p != o) == !eq, "equality", p, " ", o);
      c.count("pairs of points");
    }
  }
  // halfedge constructor
  for (Edge e : es)
    for (Halfedge h : e.adjacentHalfedges()) {
      double t = r.u();
      SurfacePoint p(h, t);
      near(evalRef(u, p), u[h.tailVertex()] * (1 - t) + u[h.tipVertex()] * t, 1e-13, "halfedge-point", "point at ", t, " of halfedge ", h);
    }
  // validation
  throws([&] { SurfacePoint().validate(); }, "validate", "default point");
  throws([&] { SurfacePoint(es[0], 1.01).validate(); }, "validate", "t > 1");
  throws([&] { SurfacePoint(es[0], -0.01).validate(); }, "validate", "t < 0");
  throws([&] { SurfacePoint(es[0], std::nan("")).validate(); }, "validate", "nan");
  throws([&] { SurfacePoint(fs[0], Vector3{0.5, 0.6, -0.1}).validate(); }, "validate", "negative coordinate");
  throws([&] { SurfacePoint(fs[0], Vector3{0.5, 0.6, 0.1}).validate(); }, "validate", "sum > 1");
  throws([&] { SurfacePoint(fs[0], Vector3::undefined()).validate(); }, "validate", "nan coordinates");
  throws([&] { SurfacePoint(Edge(), 0.5).validate(); }, "validate", "null edge");
  throws([&] { SurfacePoint(Face(), Vector3{1, 0, 0}).validate(); }, "validate", "null face");
}

// the vector of v seen in face f through the side (face, corner) used by the library, or any of the candidates
bool sameVec(Dom& d, Face f, Vector3 got, const std::vector<Vector3>& cand, double tol) {
  for (auto& x : cand)
    if (norm(x - got) <= tol) return true;
  return false;
}
void vectors(Ctx& c, Dom& d) {
  Rng& r = c.rng;
  SurfaceMesh& m = *d.m;
  std::vector<Face> fs;
  for (Face f : m.faces()) fs.push_back(f);
  std::vector<Edge> es;
  for (Edge e : m.edges()) es.push_back(e);
  IntrinsicGeometryInterface& g = *d.g;
  const EdgeData<double>& l = d.l;
  auto len = [&](const BV& v) -> LD {
    if (v.type == BT::Vertex) return 0;
    if (v.type == BT::Edge) return fabsl((LD)v.edgeCoords.x) * l[v.edge];
    E2 x = vecIn(l, v.face, v.faceCoords);
    return sqrtl(x.x * x.x + x.y * x.y);
  };
  auto mag = [&](const BV& v) { return v.type == BT::Vertex ? 0 : v.type == BT::Edge ? v.edgeCoords.norm() : v.faceCoords.norm(); };
  for (int k = 0; k < 20; k++) {
    BV v = randVec(r, m);
    v.validate();
    double M = mag(v);
    // conversions
    BV s = v.inSomeFace();
    check(s.type == BT::Face && bvTouches(s.face, v) && sameVec(d, s.face, s.faceCoords, bvIn(s.face, v), 1e-14 * M), "vec-inSomeFace", v, " -> ", s);
    std::vector<Face> ts = {r.pick(fs), r.pick(fs)};
    for (Face f : fs)
      if (bvTouches(f, v)) ts.push_back(f);
    for (Face f : ts) {
      if (bvTouches(f, v)) {
        BV x = v.inFace(f);
        check(x.type == BT::Face && x.face == f && sameVec(d, f, x.faceCoords, bvIn(f, v), 1e-14 * M), "vec-inFace", v, " -> ", x);
        c.count("vectors moved to faces");
      } else
        throws([&] { v.inFace(f); }, "vec-inFace-throws", v, " is not in ", f);
    }
    std::vector<Edge> te = {r.pick(es), r.pick(es)};
    if (v.type == BT::Edge) te.push_back(v.edge);
    if (v.type == BT::Vertex)
      for (Edge e : es)
        if (e.firstVertex() == v.vertex || e.secondVertex() == v.vertex) te.push_back(e);
    for (Edge e : te) {
      bool on = v.type == BT::Edge ? v.edge == e : v.type == BT::Vertex ? (e.firstVertex() == v.vertex || e.secondVertex() == v.vertex) : false;
      if (on) {
        BV x = v.inEdge(e);
        check(x.type == BT::Edge && x.edge == e, "vec-inEdge", v, " -> ", x);
        check(v.type == BT::Edge ? x == v : x.edgeCoords == Vector2::zero(), "vec-inEdge", v, " -> ", x);
      } else
        throws([&] { v.inEdge(e); }, "vec-inEdge-throws", v, " is not on ", e);
    }
    // norms
    LD n = len(v);
    double tn = tol12(d) * (M * d.L + (double)n);
    check(vf::finite(v.norm(g)) && vf::finite(v.norm2(g)), "norm-finite", "norm of ", v, " is ", v.norm(g), ", its square ", v.norm2(g));
    near(v.norm2(g), (double)(n * n), tol12(d) * M * M * d.L * d.L * 10, "norm2", v);
    if (n > 1e-5 * M * d.L) {
      near(v.norm(g), (double)n, 1e-6 * (1 + d.q) * (double)n, "norm", v);
    }
    near(norm(g, v), v.norm(g), 0, "norm-free", v);
    near(norm2(g, v), v.norm2(g), 0, "norm2-free", v);
    // scalars
    double a = r.uni(-3, 3);
    auto expectSame = [&](const BV& x, const BV& y, const char* what) {
      check(x.type == y.type, what, x, " ", y);
      double tl = 1e-14 * (mag(x) + mag(y));
      if (x.type == BT::Face) check(x.face == y.face && (x.faceCoords - y.faceCoords).norm() <= tl, what, x, " ", y);
      if (x.type == BT::Edge) check(x.edge == y.edge && (x.edgeCoords - y.edgeCoords).norm() <= tl, what, x, " ", y);
      if (x.type == BT::Vertex) check(x.vertex == y.vertex, what, x, " ", y);
    };
    auto times = [&](const BV& x, double f) { return x.type == BT::Face ? BV(x.face, x.faceCoords * f) : x.type == BT::Edge ? BV(x.edge, x.edgeCoords * f) : x; };
    expectSame(v * a, times(v, a), "scalar-product");
    expectSame(a * v, times(v, a), "scalar-product");
    expectSame(v / a, times(v, 1 / a), "scalar-quotient");
    expectSame(-v, times(v, -1), "negation");
    { BV x = v; x *= a; expectSame(x, times(v, a), "scalar-product-assign"); }
    { BV x = v; x /= a; expectSame(x, times(v, 1 / a), "scalar-quotient-assign"); }
    check(v == v && !(v != v), "vec-equality", v);
    if (M > 0) check(!(v == v * 2.) && v != v * 2., "vec-equality", v, " equals its double");
    { // normalization
      BV x = v;
      double sh = r.uni(-1, 1);
      if (x.type == BT::Face) x.faceCoords += Vector3::constant(sh);
      if (x.type == BT::Edge) x.edgeCoords += Vector2::constant(sh);
      BV y = x.normalizedDisplacement();
      x.normalizeDisplacement();
      check(x == y, "normalize", "in-place and copying version differ");
      double tl = 1e-14 * (M + std::abs(sh));
      if (v.type == BT::Face) check((x.faceCoords - v.faceCoords).norm() <= tl, "normalize", v, " ", x);
      if (v.type == BT::Edge) check((x.edgeCoords - v.edgeCoords).norm() <= tl, "normalize", v, " ", x);
    }
    // sums and inner products
    for (int j = 0; j < 6; j++) {
      BV w = randVec(r, m);
      if (r.coin(0.7)) {
        Face f = s.face;
        int i = r.below(3);
        double b = r.uni(-2, 2);
        switch (r.below(3)) {
        case 0: w = BV(heOf(f, i).vertex()); break;
        case 1: w = BV(heOf(f, i).edge(), Vector2{b, -b}); break;
        default: w = BV(f, Vector3{b, -0.3 * b, -0.7 * b});
        }
      }
      std::vector<Face> common;
      for (Face f : fs)
        if (bvTouches(f, v) && bvTouches(f, w)) common.push_back(f);
      Face sf = sharedFace(v, w);
      check((sf != Face()) == !common.empty(), "vec-sharedFace", v, " ", w);
      if (common.empty()) {
        throws([&] { v + w; }, "vec-sum-throws", v, " ", w);
        throws([&] { v - w; }, "vec-difference-throws", v, " ", w);
        throws([&] { dot(g, v, w); }, "vec-dot-throws", v, " ", w);
        { BV x = v; throws([&] { x += w; }, "vec-sum-throws", v, " ", w); }
        { BV x = v; throws([&] { x -= w; }, "vec-sum-throws", v, " ", w); }
        continue;
      }
      check(bvTouches(sf, v) && bvTouches(sf, w), "vec-sharedFace", v, " ", w, " -> ", sf);
      c.count("pairs of vectors");
      for (int sign = 1; sign >= -1; sign -= 2) {
        BV x = sign > 0 ? v + w : v - w, y = v;
        if (sign > 0) y += w;
        else y -= w;
        expectSame(x, y, "vec-assign");
        double tl = 1e-14 * (M + mag(w));
        if (x.type == BT::Vertex) check(v.type == BT::Vertex && w.type == BT::Vertex && v.vertex == w.vertex && x.vertex == v.vertex, "vec-sum", v, " ", w, " -> ", x);
        else {
          // in one of the common faces the coordinates add up
          bool ok = false;
          for (Face f : common) {
            if (!bvTouches(f, x)) continue;
            for (auto& p : bvIn(f, v))
              for (auto& q : bvIn(f, w))
                for (auto& z : bvIn(f, x))
                  if ((p + sign * q - z).norm() <= tl) ok = true;
          }
          check(ok, sign > 0 ? "vec-sum" : "vec-difference", v, " ", w, " -> ", x);
        }
      }
      double dt = dot(g, v, w);
      bool ok = false;
      LD best = 0;
      double td = tol12(d) * (M + 1e-300) * (mag(w) + 1e-300) * d.L * d.L * 10;
      for (Face f : common)
        for (auto& p : bvIn(f, v))
          for (auto& q : bvIn(f, w)) {
            E2 a = vecIn(l, f, p), b = vecIn(l, f, q);
            LD x = a.x * b.x + a.y * b.y;
            best = x;
            if (fabsl(x - dt) <= td) ok = true;
          }
      check(ok, "vec-dot", v, " ", w, " got ", dt, " e.g. ", best);
      c.sig(hashD(dt));
    }
    // rotations
    if (v.type == BT::Vertex) {
      check(v.rotate90(g) == v && v.rotate(g, 1.) == v, "rotate-vertex", "vertex vector changed");
      continue;
    }
    if (n < 1e-4 * M * d.L || d.q > 1e3) continue;
    double ang = r.coin(0.2) ? r.pick(std::vector<double>{M_PI / 2, -M_PI / 2, M_PI, -M_PI, 0, 2 * M_PI, 3 * M_PI / 2}) : r.uni(-10, 10);
    for (int mode = 0; mode < 2; mode++) {
      double al = mode ? ang : M_PI / 2;
      BV x = mode ? v.rotate(g, al) : v.rotate90(g);
      auto cs = [&]() { return str(v, " rotated by ", al, " -> ", x); };
      E2 a, b;
      if (v.type == BT::Face) {
        check(x.type == BT::Face && x.face == v.face, "rotate-face", cs());
        a = vecIn(l, v.face, v.faceCoords);
        b = vecIn(l, x.face, x.faceCoords);
      } else {
        if (x.type == BT::Edge) { // only for a half turn
          check(x.edge == v.edge && std::abs(std::abs(std::remainder(al, 2 * M_PI)) - M_PI) < 1e-9 && (x.edgeCoords + v.edgeCoords).norm() < 1e-13 * M, "rotate-edge", cs());
          continue;
        }
        if (v.edge.halfedge().face() == v.edge.halfedge().twin().face()) continue; // both sides in one face: ambiguous
        check(bvTouches(x.face, v), "rotate-edge", cs());
        // the side it points into
        double turn = al - 2 * M_PI * std::floor(al / (2 * M_PI));
        if (!v.edge.isBoundary() && std::abs(std::sin(turn)) > 1e-6) {
          Halfedge dir = v.edgeCoords.x < 0 ? v.edge.halfedge() : v.edge.halfedge().twin();
          Face want = turn < M_PI ? dir.face() : dir.twin().face();
          check(x.face == want, "rotate-edge-side", cs(), " expected face ", want);
        }
        a = vecIn(l, x.face, bvIn(x.face, v)[0]);
        b = vecIn(l, x.face, x.faceCoords);
      }
      LD ca = cosl(al), sa = sinl(al);
      LD ex = a.x * ca - a.y * sa, ey = a.x * sa + a.y * ca;
      LD err = sqrtl((ex - b.x) * (ex - b.x) + (ey - b.y) * (ey - b.y));
      check(err <= 1e-9 * (1 + d.q) * (1 + d.q) * M * d.L, "rotate", cs(), " off by ", err);
      near(x.faceCoords.x + x.faceCoords.y + x.faceCoords.z, 0, 1e-9 * (1 + d.q) * (1 + d.q) * M, "rotate-sum", cs());
      c.count("rotations");
    }
  }
  // constructors
  for (int k = 0; k < 20; k++) {
    SurfacePoint p = randPoint(r, m, r.below(3)), o = randPoint(r, m, r.below(3));
    if (r.coin(0.8)) {
      Face f = p.inSomeFace().face;
      int i = r.below(3);
      switch (r.below(4)) {
      case 0: o = SurfacePoint(heOf(f, i).vertex()); break;
      case 1: o = SurfacePoint(heOf(f, i).edge(), r.u()); break;
      case 2: o = SurfacePoint(f, Vector3{0.2, 0.3, 0.5}); break;
      default: o = p; if (o.type == SurfacePointType::Edge) o.tEdge = r.u();
      }
    }
    std::vector<Face> common;
    for (Face f : fs)
      if (touches(f, p) && touches(f, o)) common.push_back(f);
    if (common.empty()) {
      throws([&] { BV(p, o); }, "difference-throws", p, " ", o);
      continue;
    }
    BV x(p, o);
    x.validate();
    bool ok = x.type == BT::Vertex && p.type == SurfacePointType::Vertex && o.type == SurfacePointType::Vertex && p.vertex == o.vertex && x.vertex == p.vertex;
    if (x.type != BT::Vertex)
      for (Face f : common)
        for (auto& a : coordsIn(f, p))
          for (auto& b : coordsIn(f, o))
            for (auto& z : bvIn(f, x))
              if ((b - a - z).norm() < 1e-13) ok = true;
    check(ok, "difference", p, " ", o, " -> ", x);
    c.count("differences of points");
  }
  for (Face f : fs)
    for (int i = 0; i < 3; i++) {
      Halfedge h = heOf(f, i);
      for (Halfedge hh : {h, h.twin()}) {
        int occ = 0;
        for (int j = 0; j < 3; j++) occ += heOf(f, j).edge() == h.edge();
        if (occ > 1) continue;
        BV x(hh, f);
        Vector3 w{0, 0, 0};
        w[i] = -1;
        w[(i + 1) % 3] = 1;
        if (hh != h) w = -w;
        check(x.type == BT::Face && x.face == f && x.faceCoords == w, "halfedge-vector", "halfedge ", hh, " in ", f, " -> ", x, " expected ", w);
      }
    }
  BV z(fs[0]);
  check(z.type == BT::Face && z.face == fs[0] && z.faceCoords == Vector3::zero(), "zero-vector", z);
  throws([&] { BV().validate(); }, "vec-validate", "default");
  throws([&] { BV(fs[0], Vector3{1, 0, 0}).validate(); }, "vec-validate", "sum");
  throws([&] { BV(es[0], Vector2{1, 0}).validate(); }, "vec-validate", "sum");
  throws([&] { BV(es[0], Vector2::undefined()).validate(); }, "vec-validate", "nan");
  throws([&] { BV(Vertex()).validate(); }, "vec-validate", "null vertex");
}
void helpers(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 40; k++) {
    std::array<Vector2, 3> P;
    double sc = std::pow(10., r.uni(-3, 3));
    for (auto& p : P) p = Vector2{sc * r.uni(-1, 1), sc * r.uni(-1, 1)};
    double A = cross(P[1] - P[0], P[2] - P[0]);
    Vector3 l{norm(P[1] - P[2]), norm(P[2] - P[0]), norm(P[0] - P[1])};
    double mx = std::max(l.x, std::max(l.y, l.z));
    if (std::abs(A) < 1e-4 * mx * mx) continue;
    Vector3 d{r.uni(-1, 1), r.uni(-1, 1), 0};
    d.z = -d.x - d.y;
    Vector2 w = P[0] * d.x + P[1] * d.y + P[2] * d.z;
    // lengths are given per opposite vertex
    near(displacementLength2(d, l), w.norm2(), 1e-10 * mx * mx, "displacementLength2", "");
    near(displacementLength(d, l), w.norm(), 1e-5 * mx, "displacementLength", "");
    if (w.norm() > 0.01 * mx) near(displacementLength(d, l), w.norm(), 1e-9 * mx, "displacementLength", "");
    check(norm(barycentricDisplacementToCartesian(P, d) - w) < 1e-12 * mx, "toCartesian", "");
    Vector3 b{r.uni(-1, 2), r.uni(-1, 2), r.uni(-1, 2)};
    Vector3 n = normalizeBarycentric(b);
    double s = b.x + b.y + b.z;
    if (std::abs(s) > 0.01) {
      near(n.x + n.y + n.z, 1, 1e-11, "normalizeBarycentric", b);
      check(norm(n * s - b) < 1e-11, "normalizeBarycentric", b);
    }
    Vector3 nd = normalizeBarycentricDisplacement(b);
    near(nd.x + nd.y + nd.z, 0, 1e-14 * 10, "normalizeDisplacement", b);
    near((nd - b).x, (nd - b).y, 1e-14 * 10, "normalizeDisplacement", b);
    near((nd - b).x, (nd - b).z, 1e-14 * 10, "normalizeDisplacement", b);
    Vector3 p = projectInsideTriangle(b);
    check(p.x >= 0 && p.y >= 0 && p.z >= 0 && std::abs(p.x + p.y + p.z - 1) < 1e-12, "projectInside", b, " -> ", p);
    if (b.x > 0 || b.y > 0 || b.z > 0)
    if (b.x >= 0 && b.y >= 0 && b.z >= 0) check(norm(p - n) < 1e-14, "projectInside", "inside: ", b, " -> ", p);
    check(isInsideTriangle(b) == (b.x >= 0 && b.y >= 0 && b.z >= 0), "isInside", b);
    for (int i = 0; i < 3; i++)
      if (b[i] < 0 && (b.x > 0 || b.y > 0 || b.z > 0)) check(p[i] == 0, "projectInside", b, " -> ", p);
    c.sig(hashD(A));
  }
  Vector3 z = projectInsideTriangle(Vector3{-1, -2, 0});
  check(std::abs(z.x + z.y + z.z - 1) < 1e-12, "projectInside", "no positive coordinate: ", z);
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("points", 3, [](Ctx& c) { Dom d = makeDom(c, c.rng.coin(0.6) ? 0 : 1); points(c, d); });
  S.add("points-general", 1, [](Ctx& c) { Dom d = makeDom(c, 2); points(c, d); });
  S.add("vectors", 3, [](Ctx& c) { Dom d = makeDom(c, c.rng.coin(0.6) ? 0 : 1); vectors(c, d); });
  S.add("helpers", 1, [](Ctx& c) {
    helpers(c);
    Dom d = makeDom(c, c.rng.coin() ? 0 : 1);
    for (Face f : d.m->faces())
      for (int i = 0; i < 3; i++) {
        Halfedge h = heOf(f, i);
        check(halfedgeIndexInTriangle(h) == i, "halfedgeIndex", h);
        Vector3 b{c.rng.u(), c.rng.u(), c.rng.u()};
        Vector3 p = permuteBarycentricToCanonical(b, h), q = permuteBarycentricFromCanonical(p, h);
        check(q == b, "permute", "round trip");
        for (int j = 0; j < 3; j++) check(p[(i + j) % 3] == b[j], "permute", "");
      }
  });
  return run(S, argc, argv);
}
