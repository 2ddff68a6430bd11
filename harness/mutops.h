// Random documented edits (preconditions respected), elements chosen by their rank in iteration order.
#pragma once
#include "meshcheck.h"
namespace vf {
template <class E> std::vector<size_t> liveIdx(SurfaceMesh* m) {
  std::vector<size_t> v;
  for (E e : iterateElements<E>(m)) v.push_back(e.getIndex());
  return v;
}
inline bool legalCollapse(ManifoldSurfaceMesh& m, Edge e) {
  std::set<std::pair<size_t, size_t>> es;
  for (Edge f : m.edges()) {
    size_t a = f.firstVertex().getIndex(), b = f.secondVertex().getIndex();
    if (a == b || !es.insert({std::min(a, b), std::max(a, b)}).second) return false;
  }
  std::set<std::set<size_t>> fs;
  for (Face f : m.faces()) {
    std::set<size_t> t;
    for (Vertex v : f.adjacentVertices()) t.insert(v.getIndex());
    if (t.size() != 3 || f.degree() != 3 || !fs.insert(t).second) return false;
  }
  Vertex u = e.firstVertex(), v = e.secondVertex();
  if (!e.isBoundary() && u.isBoundary() && v.isBoundary()) return false;
  std::set<Vertex> nu, common, opp;
  for (Vertex x : u.adjacentVertices()) nu.insert(x);
  for (Vertex x : v.adjacentVertices())
    if (nu.count(x)) common.insert(x);
  for (Face f : e.adjacentFaces()) {
    size_t nb = 0;
    for (Edge g : f.adjacentEdges()) nb += g.isBoundary();
    if (nb == 3) return false;
    for (Vertex x : f.adjacentVertices())
      if (x != u && x != v) opp.insert(x);
  }
  return common == opp;
}
inline bool manifoldEdit(Ctx& c, ManifoldSurfaceMesh& m, std::ostringstream& log) {
  Rng& r = c.rng;
  auto anyV = [&]() { auto v = liveIdx<Vertex>(&m); return Vertex(&m, r.pick(v)); };
  auto anyE = [&]() { auto v = liveIdx<Edge>(&m); return Edge(&m, r.pick(v)); };
  auto anyF = [&]() { auto v = liveIdx<Face>(&m); return Face(&m, r.pick(v)); };
  int k = r.below(10);
  log << " E" << k;
  switch (k) {
  case 0: { Edge e = anyE(); if (e.isBoundary()) return false; m.flip(e); return true; }
  case 1: m.insertVertexAlongEdge(anyE()); return true;
  case 2: m.insertVertex(anyF()); return true;
  case 3: {
    Edge e = anyE();
    bool ok = e.halfedge().face().isTriangle() && (e.isBoundary() || e.halfedge().twin().face().isTriangle());
    if (!ok) return false;
    m.splitEdgeTriangular(e);
    return true;
  }
  case 4: m.triangulate(anyF()); return true;
  case 5: case 6: {
    Edge e = anyE();
    if (e.isBoundary()) return false;
    bool a = e.firstVertex().isBoundary(), b = e.secondVertex().isBoundary();
    if ((a && b) || e.firstVertex() == e.secondVertex()) return false;
    m.separateEdge(e);
    return true;
  }
  case 7: {
    Edge e = anyE();
    for (int k2 = 0; k2 < 5 && !legalCollapse(m, e); k2++) e = anyE();
    if (!legalCollapse(m, e)) return false;
    try { m.collapseEdgeTriangular(e); } catch (std::runtime_error&) {}
    return true;
  }
  case 8: {
    Vertex v = anyV();
    if (v.isBoundary()) return false;
    m.removeVertex(v);
    return true;
  }
  default: {
    Face f = anyF();
    bool bdy = false;
    for (int k2 = 0; k2 < 8 && !bdy; k2++) {
      f = anyF();
      for (Edge e : f.adjacentEdges()) bdy = bdy || e.isBoundary();
    }
    std::set<Vertex> vs;
    std::set<Edge> es;
    for (Vertex x : f.adjacentVertices()) vs.insert(x);
    for (Edge x : f.adjacentEdges()) es.insert(x);
    if (!bdy || vs.size() != f.degree() || es.size() != f.degree()) return false;
    m.removeFaceAlongBoundary(f);
    return true;
  }
  }
}
inline bool generalEdit(Ctx& c, SurfaceMesh& m, std::ostringstream& log) {
  Rng& r = c.rng;
  int k = r.below(6);
  log << " G" << k;
  auto vf_ = liveIdx<Face>(&m);
  auto ve = liveIdx<Edge>(&m);
  if (m.nFaces() > 60 && k == 0) k = 1;
  switch (k) {
  case 0: m.duplicateFace(Face(&m, r.pick(vf_))); return true;
  case 1: m.invertOrientation(Face(&m, r.pick(vf_))); return true;
  case 2: m.separateNonmanifoldEdges(); return true;
  case 3: if (!m.isEdgeManifold()) return false; m.separateNonmanifoldVertices(); return true;
  case 4: {
    Edge e(&m, r.pick(ve));
    if (e.degree() < 3) return false;
    m.separateToNewEdge(e.halfedge(), e.halfedge().sibling());
    return true;
  }
  default: m.flip(Edge(&m, r.pick(ve))); return true;
  }
}


// full structure in terms of iteration ranks: equal for isomorphic meshes with the same element order
inline std::vector<size_t> structure(SurfaceMesh& m, bool seeds = true) {
  std::map<size_t, size_t> H, V, E, F, B;
  for (Halfedge h : m.halfedges()) H.emplace(h.getIndex(), H.size());
  for (Vertex v : m.vertices()) V.emplace(v.getIndex(), V.size());
  for (Edge e : m.edges()) E.emplace(e.getIndex(), E.size());
  for (Face f : m.faces()) F.emplace(f.getIndex(), F.size());
  for (BoundaryLoop b : m.boundaryLoops()) B.emplace(b.getIndex(), B.size());
  auto at = [](std::map<size_t, size_t>& M, size_t i, const char* w) {
    auto it = M.find(i);
    if (it == M.end()) fail("structure-dangling", "reference to a dead ", w, " ", i);
    return it->second;
  };
  std::vector<size_t> r{H.size(), V.size(), E.size(), F.size(), B.size(), m.nCorners(), m.nInteriorHalfedges(), (size_t)m.usesImplicitTwin()};
  for (Halfedge h : m.halfedges()) {
    bool in = h.isInterior();
    r.push_back(at(H, h.next().getIndex(), "halfedge"));
    r.push_back(at(H, h.sibling().getIndex(), "halfedge"));
    r.push_back(at(V, h.vertex().getIndex(), "vertex"));
    r.push_back(at(E, h.edge().getIndex(), "edge"));
    r.push_back(in ? at(F, h.face().getIndex(), "face") : 1000000 + (h.face().isBoundaryLoop() ? at(B, h.face().asBoundaryLoop().getIndex(), "loop") : 0));
    r.push_back(h.orientation());
  }
  if (seeds) {
    for (Vertex v : m.vertices()) r.push_back(at(H, v.halfedge().getIndex(), "halfedge"));
    for (Edge e : m.edges()) r.push_back(at(H, e.halfedge().getIndex(), "halfedge"));
    for (Face f : m.faces()) r.push_back(at(H, f.halfedge().getIndex(), "halfedge"));
    for (BoundaryLoop b : m.boundaryLoops()) r.push_back(at(H, b.halfedge().getIndex(), "halfedge"));
  }
  // neighbourhoods as iterated
  for (Vertex v : m.vertices()) {
    size_t n = 0;
    for (Halfedge h : v.outgoingHalfedges()) r.push_back(at(H, h.getIndex(), "halfedge")), n++;
    r.push_back(n);
  }
  return r;
}
} // namespace vf
