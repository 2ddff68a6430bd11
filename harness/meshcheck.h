// Online monitor of a surface mesh: every structural guarantee, judged through the public API only.
#pragma once
#include "meshgen.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/surface/surface_mesh.h"
#include <unordered_set>

namespace vf {
using namespace geometrycentral;
using namespace geometrycentral::surface;

// polygons in terms of raw vertex indices, keyed by raw face index
inline std::map<size_t, std::vector<size_t>> facesByIndex(SurfaceMesh& m) {
  std::map<size_t, std::vector<size_t>> r;
  for (Face f : m.faces()) {
    std::vector<size_t> p;
    Halfedge h = f.halfedge();
    size_t guard = 0;
    do {
      p.push_back(h.vertex().getIndex());
      h = h.next();
      if (++guard > 100000) fail("face-orbit", "face orbit does not close");
    } while (h != f.halfedge());
    r[f.getIndex()] = p;
  }
  return r;
}
inline Polys facePolys(SurfaceMesh& m) {
  Polys P;
  for (auto& kv : facesByIndex(m)) P.push_back(kv.second);
  return P;
}

struct MeshCheckOpts {
  bool iterators = true;
  bool dense = true;
  bool strictOrient = true; // edge orientation is that of edge.halfedge() (lost by edits of general meshes)
};

template <class A, class B> void sameMultiset(std::vector<A> a, std::vector<B> b, const std::string& key, const std::string& what) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b) {
    std::ostringstream o;
    o << what << ": got {";
    for (auto x : a) o << x << " ";
    o << "} expected {";
    for (auto x : b) o << x << " ";
    o << "}";
    fail(key, o.str());
  }
}

inline void fullCheck(SurfaceMesh& m, const std::string& K, Ctx* ctx = nullptr, MeshCheckOpts o = MeshCheckOpts()) {
  bool manifold = m.usesImplicitTwin();
  try {
    m.validateConnectivity();
  } catch (std::exception& e) {
    fail(K + "-validate", "validateConnectivity: ", e.what());
  }
  // ---- raw tables gathered through elementwise accessors
  std::vector<Halfedge> H;
  std::vector<Vertex> V;
  std::vector<Edge> E;
  std::vector<Face> F;
  std::vector<BoundaryLoop> B;
  size_t nInt = 0, nExt = 0, nCor = 0;
  size_t last = INVALID_IND;
  auto ordered = [&](size_t i, const char* w) {
    check(last == INVALID_IND || i > last, K + "-iteration", w, " iteration does not visit increasing indices");
    last = i;
  };
  for (Halfedge h : m.halfedges()) {
    ordered(h.getIndex(), "halfedge");
    check(!h.isDead() && h.getIndex() < m.halfedgeIndexSize(), K + "-index", "halfedge index out of range");
    H.push_back(h);
  }
  last = INVALID_IND;
  for (Vertex v : m.vertices()) {
    ordered(v.getIndex(), "vertex");
    check(!v.isDead() && v.getIndex() < m.vertexIndexSize(), K + "-index", "vertex index out of range");
    V.push_back(v);
  }
  last = INVALID_IND;
  for (Edge e : m.edges()) {
    ordered(e.getIndex(), "edge");
    check(!e.isDead() && e.getIndex() < m.edgeIndexSize(), K + "-index", "edge index out of range");
    E.push_back(e);
  }
  last = INVALID_IND;
  for (Face f : m.faces()) {
    ordered(f.getIndex(), "face");
    check(!f.isDead() && !f.isBoundaryLoop() && f.getIndex() < m.faceIndexSize(), K + "-index", "face index out of range");
    F.push_back(f);
  }
  last = INVALID_IND;
  for (BoundaryLoop b : m.boundaryLoops()) {
    ordered(b.getIndex(), "boundary loop");
    check(!b.isDead() && b.getIndex() < m.boundaryLoopIndexSize(), K + "-index", "bl index out of range");
    check(b.asFace().isBoundaryLoop() && b.asFace().asBoundaryLoop() == b, K + "-bl", "boundary loop/face conversion");
    B.push_back(b);
  }
  for (Halfedge h : m.interiorHalfedges()) {
    check(h.isInterior(), K + "-interior", "interiorHalfedges yields exterior");
    nInt++;
  }
  for (Halfedge h : m.exteriorHalfedges()) {
    check(!h.isInterior(), K + "-interior", "exteriorHalfedges yields interior");
    nExt++;
  }
  for (Corner c : m.corners()) {
    check(c.halfedge().isInterior() && c.halfedge().corner() == c && c.vertex() == c.halfedge().vertex() && c.face() == c.halfedge().face() && !c.isDead(), K + "-corner", "corner accessors");
    nCor++;
  }
  check(H.size() == m.nHalfedges(), K + "-count", "nHalfedges ", m.nHalfedges(), " iterated ", H.size());
  check(V.size() == m.nVertices(), K + "-count", "nVertices ", m.nVertices(), " iterated ", V.size());
  check(E.size() == m.nEdges(), K + "-count", "nEdges ", m.nEdges(), " iterated ", E.size());
  check(F.size() == m.nFaces(), K + "-count", "nFaces ", m.nFaces(), " iterated ", F.size());
  check(B.size() == m.nBoundaryLoops(), K + "-count", "nBoundaryLoops ", m.nBoundaryLoops(), " iterated ", B.size());
  check(nInt == m.nInteriorHalfedges(), K + "-count", "nInteriorHalfedges ", m.nInteriorHalfedges(), " iterated ", nInt);
  check(nExt == m.nExteriorHalfedges(), K + "-count", "nExteriorHalfedges ", m.nExteriorHalfedges(), " iterated ", nExt);
  check(nCor == m.nCorners() && nCor == nInt, K + "-count", "nCorners ", m.nCorners(), " iterated ", nCor);
  check(nInt + nExt == H.size(), K + "-count", "interior+exterior");
  check(m.nHalfedgesCapacity() >= m.halfedgeIndexSize() && m.nVerticesCapacity() >= m.vertexIndexSize() && m.nEdgesCapacity() >= m.edgeIndexSize() && m.nFacesCapacity() >= m.faceIndexSize(), K + "-count", "capacity below index size");
  if (m.isCompressed()) {
    check(m.halfedgeIndexSize() == H.size() && m.vertexIndexSize() == V.size() && m.edgeIndexSize() == E.size() && m.faceIndexSize() == F.size() && m.boundaryLoopIndexSize() == B.size(), K + "-compressed", "compressed but index space not dense");
    for (size_t i = 0; i < V.size(); i += 1 + V.size() / 7) check(m.vertex(i) == V[i], K + "-compressed", "vertex(i)");
    for (size_t i = 0; i < H.size(); i += 1 + H.size() / 7) check(m.halfedge(i) == H[i], K + "-compressed", "halfedge(i)");
    for (size_t i = 0; i < E.size(); i += 1 + E.size() / 7) check(m.edge(i) == E[i], K + "-compressed", "edge(i)");
    for (size_t i = 0; i < F.size(); i += 1 + F.size() / 7) check(m.face(i) == F[i], K + "-compressed", "face(i)");
    for (size_t i = 0; i < B.size(); i++) check(m.boundaryLoop(i) == B[i], K + "-compressed", "boundaryLoop(i)");
  }

  // ---- halfedge relations
  std::map<size_t, std::vector<size_t>> outOf, into, ofEdge, ofFace;
  for (Halfedge h : H) {
    size_t i = h.getIndex();
    outOf[h.vertex().getIndex()].push_back(i);
    into[h.next().vertex().getIndex()].push_back(i);
    ofEdge[h.edge().getIndex()].push_back(i);
    ofFace[h.face().getIndex()].push_back(i);
    check(!h.next().isDead() && !h.vertex().isDead() && !h.edge().isDead() && !h.face().isDead() && !h.sibling().isDead(), K + "-dead", "halfedge ", i, " refers to a dead element");
    check(h.next().face() == h.face(), K + "-face", "next changes face");
    check(h.isInterior() == !h.face().isBoundaryLoop(), K + "-face", "isInterior");
    check(h.tailVertex() == h.vertex() && h.tipVertex() == h.next().vertex(), K + "-he", "tail/tip");
    check(h.sibling().edge() == h.edge() && h.twin() == h.sibling(), K + "-edge", "sibling on another edge");
    Vertex a = h.vertex(), b = h.tipVertex(), c = h.sibling().vertex(), d = h.sibling().tipVertex();
    check((a == c && b == d) || (a == d && b == c), K + "-edge", "siblings join different vertices");
    check(h.prevOrbitFace().next() == h, K + "-face", "prevOrbitFace");
    Vertex e0 = h.edge().firstVertex(), e1 = h.edge().secondVertex();
    check((a == e0 && b == e1) || (a == e1 && b == e0), K + "-edge", "edge endpoints");
    bool o0 = o.strictOrient || h.edge().halfedge().orientation();
    if (a != b) check((h.orientation() == o0) == (a == e0), K + "-orient", "orientation flag of halfedge ", i);
    check(h.edge().halfedge().orientation() == o0, K + "-orient", "edge.halfedge() not oriented along its edge");
    if (manifold) {
      check(h.twin() != h && h.twin().twin() == h, K + "-twin", "twin not an involution");
      check(h.twin().vertex() == h.tipVertex(), K + "-twin", "twin not reversed");
      check(h.isInterior() || h.twin().isInterior(), K + "-twin", "edge with two exterior halfedges");
      check(h.prevOrbitVertex().next() == h, K + "-twin", "prevOrbitVertex");
    }
  }
  std::map<size_t, std::vector<size_t>> vEdgesRef, vNbrRef, vFaceRef;
  std::set<size_t> bVerts;
  for (Edge e : E) {
    size_t i = e.getIndex();
    auto it = ofEdge.find(i);
    check(it != ofEdge.end(), K + "-edge", "edge without halfedges");
    check(e.halfedge().edge() == e && !e.halfedge().isDead(), K + "-edge", "edge.halfedge().edge()");
    check(e.halfedge().isInterior(), K + "-edge-interior", "edge.halfedge() is exterior on edge ", i);
    size_t nI = 0;
    for (size_t h : it->second)
      if (Halfedge(&m, h).isInterior()) nI++;
    std::vector<size_t> ring, ringI, ringF, refF;
    for (Halfedge h : e.adjacentHalfedges()) {
      ring.push_back(h.getIndex());
      if (ring.size() > H.size()) break;
    }
    sameMultiset(ring, it->second, K + "-edge-iter", "edge.adjacentHalfedges");
    for (Halfedge h : e.adjacentInteriorHalfedges()) ringI.push_back(h.getIndex());
    check(ringI.size() == nI, K + "-edge-iter", "edge.adjacentInteriorHalfedges");
    for (Face f : e.adjacentFaces()) ringF.push_back(f.getIndex());
    for (size_t h : it->second)
      if (Halfedge(&m, h).isInterior()) refF.push_back(Halfedge(&m, h).face().getIndex());
    sameMultiset(ringF, refF, K + "-edge-iter", "edge.adjacentFaces");
    check(e.degree() == nI, K + "-edge-degree", "edge degree");
    check(e.isBoundary() == (nI == 1), K + "-edge-bdy", "edge isBoundary");
    check(e.isManifold() == (nI <= 2), K + "-edge-manifold", "edge isManifold");
    auto av = e.adjacentVertices();
    check(av[0] == e.firstVertex() && av[1] == e.secondVertex(), K + "-edge", "adjacentVertices");
    check(e.otherVertex(e.firstVertex()) == e.secondVertex() && e.otherVertex(e.secondVertex()) == e.firstVertex(), K + "-edge", "otherVertex");
    if (nI == 1) {
      bVerts.insert(e.firstVertex().getIndex());
      bVerts.insert(e.secondVertex().getIndex());
    }
    if (nI == 2 && e.firstVertex() != e.secondVertex() && !manifold) {
      Halfedge a(&m, it->second[0]), b(&m, it->second[1]);
      check(e.isOriented() == (a.vertex() != b.vertex()), K + "-edge-orient", "edge isOriented");
    }
    size_t u = e.firstVertex().getIndex(), v = e.secondVertex().getIndex();
    vEdgesRef[u].push_back(i);
    vEdgesRef[v].push_back(i);
    vNbrRef[u].push_back(v);
    vNbrRef[v].push_back(u);
  }
  for (Halfedge h : H)
    if (h.isInterior()) vFaceRef[h.vertex().getIndex()].push_back(h.face().getIndex());
  bool anyB = false;
  for (Vertex v : V) {
    size_t i = v.getIndex();
    check(v.halfedge().vertex() == v && !v.halfedge().isDead(), K + "-vertex", "vertex.halfedge().vertex() at ", i);
    check(v.halfedge().isInterior(), K + "-vertex", "vertex.halfedge() exterior at ", i);
    std::vector<size_t> out, in, ed, nb, fc, co;
    size_t lim = 2 * H.size() + 5;
    for (Halfedge h : v.outgoingHalfedges()) {
      out.push_back(h.getIndex());
      if (out.size() > lim) fail(K + "-vertex-iter", "outgoing iteration does not end");
    }
    for (Halfedge h : v.incomingHalfedges()) {
      in.push_back(h.getIndex());
      if (in.size() > lim) fail(K + "-vertex-iter", "incoming iteration does not end");
    }
    std::vector<size_t> inRef = into[i], outRef = outOf[i];
    sameMultiset(out, outRef, K + "-vertex-iter", str("outgoingHalfedges of ", i));
    sameMultiset(in, inRef, K + "-vertex-iter", str("incomingHalfedges of ", i));
    if (manifold) {
      // rotational order
      for (size_t k = 0; k < out.size(); k++) {
        Halfedge a(&m, out[k]), b(&m, out[(k + 1) % out.size()]);
        check(a.twin().next() == b, K + "-vertex-iter", "outgoing order is not a rotation about vertex ", i);
      }
    }
    for (Edge e : v.adjacentEdges()) {
      ed.push_back(e.getIndex());
      if (ed.size() > lim) fail(K + "-vertex-iter", "edge iteration does not end");
    }
    for (Vertex w : v.adjacentVertices()) nb.push_back(w.getIndex());
    for (Face f : v.adjacentFaces()) fc.push_back(f.getIndex());
    for (Corner c : v.adjacentCorners()) {
      check(c.vertex() == v, K + "-vertex-iter", "corner of another vertex");
      co.push_back(c.face().getIndex());
    }
    bool selfEdge = false;
    for (size_t w : vNbrRef[i]) selfEdge = selfEdge || w == i;
    if (!selfEdge) {
      sameMultiset(ed, vEdgesRef[i], K + "-vertex-iter", str("adjacentEdges of ", i));
      sameMultiset(nb, vNbrRef[i], K + "-vertex-iter", str("adjacentVertices of ", i));
      check(v.degree() == vEdgesRef[i].size(), K + "-vertex-degree", "degree of ", i);
    }
    sameMultiset(fc, vFaceRef[i], K + "-vertex-iter", str("adjacentFaces of ", i));
    sameMultiset(co, vFaceRef[i], K + "-vertex-iter", str("adjacentCorners of ", i));
    check(v.faceDegree() == vFaceRef[i].size(), K + "-vertex-degree", "faceDegree of ", i);
    bool isB = bVerts.count(i) > 0;
    anyB = anyB || isB;
    check(v.isBoundary() == isB, K + "-vertex-bdy", "isBoundary of vertex ", i, " is ", v.isBoundary());
    if (manifold && isB) check(!v.halfedge().twin().isInterior(), K + "-vertex-bdy", "boundary vertex halfedge convention at ", i);
    if (manifold) check(v.isManifold() && v.isManifoldAndOriented(), K + "-vertex-manifold", "manifold mesh vertex reported nonmanifold");
  }
  check(m.hasBoundary() == anyB, K + "-bdy", "hasBoundary");
  bool allTri = true;
  for (Face f : F) {
    size_t i = f.getIndex();
    check(f.halfedge().face() == f && !f.halfedge().isDead(), K + "-face", "face.halfedge().face()");
    std::vector<size_t> hs, vs, es, cs, refv, refe, fs, reff;
    for (Halfedge h : f.adjacentHalfedges()) hs.push_back(h.getIndex());
    sameMultiset(hs, ofFace[i], K + "-face-iter", str("face.adjacentHalfedges of ", i));
    for (size_t k = 0; k < hs.size(); k++) check(Halfedge(&m, hs[k]).next().getIndex() == hs[(k + 1) % hs.size()], K + "-face-iter", "face halfedge order");
    for (Vertex v : f.adjacentVertices()) vs.push_back(v.getIndex());
    for (Edge e : f.adjacentEdges()) es.push_back(e.getIndex());
    for (Corner c : f.adjacentCorners()) cs.push_back(c.getIndex());
    for (size_t h : hs) {
      refv.push_back(Halfedge(&m, h).vertex().getIndex());
      refe.push_back(Halfedge(&m, h).edge().getIndex());
      for (size_t g : ofEdge[Halfedge(&m, h).edge().getIndex()])
        if (g != h && Halfedge(&m, g).isInterior()) reff.push_back(Halfedge(&m, g).face().getIndex());
    }
    check(vs == refv && es == refe, K + "-face-iter", "face vertices/edges");
    check(cs.size() == hs.size(), K + "-face-iter", "face corners");
    for (Face g : f.adjacentFaces()) {
      fs.push_back(g.getIndex());
      if (fs.size() > 4 * H.size() + 10) fail(K + "-face-iter", "adjacentFaces does not end");
    }
    sameMultiset(fs, reff, K + "-face-iter", str("face.adjacentFaces of ", i));
    check(f.degree() == hs.size() && hs.size() >= 1, K + "-face-degree", "face degree");
    check(f.isTriangle() == (hs.size() == 3), K + "-face-degree", "isTriangle");
    allTri = allTri && hs.size() == 3;
  }
  check(m.isTriangular() == allTri, K + "-face-degree", "isTriangular");
  size_t bsum = 0;
  for (BoundaryLoop b : B) {
    size_t n = 0;
    check(b.halfedge().face() == b.asFace(), K + "-bl", "boundary loop halfedge");
    std::vector<size_t> vs, es;
    for (Vertex v : b.adjacentVertices()) {
      check(v.isBoundary(), K + "-bl", "interior vertex on boundary loop");
      vs.push_back(v.getIndex());
    }
    for (Edge e : b.adjacentEdges()) check(e.isBoundary(), K + "-bl", "interior edge on boundary loop");
    for (Halfedge h : b.adjacentHalfedges()) {
      check(!h.isInterior() && h.face() == b.asFace(), K + "-bl", "boundary loop halfedge is interior");
      n++;
    }
    check(b.degree() == n && vs.size() == n, K + "-bl", "boundary loop degree");
    bsum += n;
  }
  check(bsum == nExt, K + "-bl", "boundary loops do not cover the exterior halfedges");
  {
    // connected components and dense enumerations
    std::map<size_t, size_t> id;
    for (size_t k = 0; k < V.size(); k++) id[V[k].getIndex()] = k;
    UF uf(V.size());
    for (Edge e : E) uf.unite(id[e.firstVertex().getIndex()], id[e.secondVertex().getIndex()]);
    std::set<size_t> r;
    for (size_t k = 0; k < V.size(); k++) r.insert(uf.find(k));
    check(m.nConnectedComponents() == r.size(), K + "-components", "nConnectedComponents ", m.nConnectedComponents(), " expected ", r.size());
    size_t nIntV = 0;
    for (Vertex v : V)
      if (!bVerts.count(v.getIndex())) nIntV++;
    check(m.nInteriorVertices() == nIntV, K + "-count", "nInteriorVertices");
  }
  if (o.dense) {
    auto vi = m.getVertexIndices();
    for (size_t k = 0; k < V.size(); k++) check(vi[V[k]] == k, K + "-dense", "getVertexIndices");
    auto ivi = m.getInteriorVertexIndices();
    size_t c = 0;
    for (size_t k = 0; k < V.size(); k++) {
      if (bVerts.count(V[k].getIndex())) check(ivi[V[k]] == INVALID_IND, K + "-dense", "getInteriorVertexIndices boundary");
      else check(ivi[V[k]] == c++, K + "-dense", "getInteriorVertexIndices");
    }
    auto hi = m.getHalfedgeIndices();
    for (size_t k = 0; k < H.size(); k++) check(hi[H[k]] == k, K + "-dense", "getHalfedgeIndices");
    auto ei = m.getEdgeIndices();
    for (size_t k = 0; k < E.size(); k++) check(ei[E[k]] == k, K + "-dense", "getEdgeIndices");
    auto fi = m.getFaceIndices();
    for (size_t k = 0; k < F.size(); k++) check(fi[F[k]] == k, K + "-dense", "getFaceIndices");
    auto ci = m.getCornerIndices();
    c = 0;
    for (Corner k : m.corners()) check(ci[k] == c++, K + "-dense", "getCornerIndices");
    auto bi = m.getBoundaryLoopIndices();
    for (size_t k = 0; k < B.size(); k++) check(bi[B[k]] == k, K + "-dense", "getBoundaryLoopIndices");
    auto bs = m.getVertexBoundaryStatus();
    for (Vertex v : V) check(bs[v] == (bVerts.count(v.getIndex()) > 0), K + "-dense", "getVertexBoundaryStatus");
    auto list = m.getFaceVertexList();
    check(list.size() == F.size(), K + "-facelist", "getFaceVertexList size");
    for (size_t k = 0; k < F.size(); k++) {
      std::vector<size_t> ref;
      Halfedge h = F[k].halfedge();
      do {
        ref.push_back(vi[h.vertex()]);
        h = h.next();
      } while (h != F[k].halfedge());
      check(canonPoly(list[k]) == canonPoly(ref), K + "-facelist", "getFaceVertexList face ", k);
    }
  }
  if (ctx) {
    ctx->count("mesh_checks");
    ctx->count("elements_checked", H.size() + V.size() + E.size() + F.size() + B.size());
  }
}
} // namespace vf
