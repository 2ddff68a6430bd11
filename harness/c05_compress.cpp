// C05: compression, copies and index maps preserve the mesh.
#include "mutops.h"
using namespace vf;

typedef std::vector<size_t> Sig;

template <class E> static void denseIndices(SurfaceMesh& m, MeshData<E, size_t> ix, size_t n, const char* w) {
  size_t k = 0;
  for (E e : iterateElements<E>(&m)) check(ix[e] == k++, "dense-index", w, " index ", ix[e], " at rank ", k - 1);
  check(k == n, "dense-index", w, " count");
}
static void indexMaps(SurfaceMesh& m) {
  denseIndices<Vertex>(m, m.getVertexIndices(), m.nVertices(), "vertex");
  denseIndices<Halfedge>(m, m.getHalfedgeIndices(), m.nHalfedges(), "halfedge");
  denseIndices<Corner>(m, m.getCornerIndices(), m.nCorners(), "corner");
  denseIndices<Edge>(m, m.getEdgeIndices(), m.nEdges(), "edge");
  denseIndices<Face>(m, m.getFaceIndices(), m.nFaces(), "face");
  if (m.usesImplicitTwin()) denseIndices<BoundaryLoop>(m, m.getBoundaryLoopIndices(), m.nBoundaryLoops(), "boundary loop");
  VertexData<size_t> iv = m.getInteriorVertexIndices();
  size_t k = 0;
  for (Vertex v : m.vertices()) check(iv[v] == (v.isBoundary() ? INVALID_IND : k++), "interior-index", "interior vertex index");
  check(k == m.nInteriorVertices(), "interior-index", "nInteriorVertices");
}
template <class E> static void compressedIdx(SurfaceMesh& m, size_t n, const char* w) {
  size_t k = 0;
  for (E e : iterateElements<E>(&m)) check(e.getIndex() == k++, "compressed-index", w, " has index ", e.getIndex(), " at rank ", k - 1);
  check(k == n, "compressed-index", w, " count");
}
static void isDense(SurfaceMesh& m) {
  compressedIdx<Vertex>(m, m.nVertices(), "vertex");
  compressedIdx<Halfedge>(m, m.nHalfedges(), "halfedge");
  compressedIdx<Edge>(m, m.nEdges(), "edge");
  compressedIdx<Face>(m, m.nFaces(), "face");
  compressedIdx<BoundaryLoop>(m, m.nBoundaryLoops(), "boundary loop");
  size_t k = 0;
  for (Vertex v : m.vertices()) check(m.vertex(k++) == v, "element-accessor", "vertex(i)");
  k = 0;
  for (Halfedge v : m.halfedges()) check(m.halfedge(k++) == v, "element-accessor", "halfedge(i)");
  k = 0;
  for (Edge v : m.edges()) check(m.edge(k++) == v, "element-accessor", "edge(i)");
  k = 0;
  for (Face v : m.faces()) check(m.face(k++) == v, "element-accessor", "face(i)");
  k = 0;
  for (BoundaryLoop v : m.boundaryLoops()) check(m.boundaryLoop(k++) == v, "element-accessor", "boundaryLoop(i)");
}

struct Listener { // records what the mesh announces
  SurfaceMesh& m;
  std::vector<std::vector<size_t>> v, h, e, f, b;
  size_t comp = 0;
  bool dead = false;
  Listener(SurfaceMesh& m_) : m(m_) {
    m.vertexPermuteCallbackList.push_back([this](const std::vector<size_t>& p) { v.push_back(p); });
    m.halfedgePermuteCallbackList.push_back([this](const std::vector<size_t>& p) { h.push_back(p); });
    m.edgePermuteCallbackList.push_back([this](const std::vector<size_t>& p) { e.push_back(p); });
    m.facePermuteCallbackList.push_back([this](const std::vector<size_t>& p) { f.push_back(p); });
    m.boundaryLoopPermuteCallbackList.push_back([this](const std::vector<size_t>& p) { b.push_back(p); });
    m.compressCallbackList.push_back([this]() { comp++; });
    m.meshDeleteCallbackList.push_back([this]() { dead = true; });
  }
  size_t total() { return v.size() + h.size() + e.size() + f.size() + b.size() + comp; }
};

static void history(Ctx& c, bool manifold) {
  Rng& r = c.rng;
  std::ostringstream log;
  Soup s;
  std::unique_ptr<Listener> L; // must outlive the mesh
  std::unique_ptr<SurfaceMesh> m;
  if (manifold) {
    MeshOpts o;
    o.tri = r.coin(0.7);
    s = randomManifold(r, o);
    m.reset(new ManifoldSurfaceMesh(s.polys));
  } else {
    s = randomSoup(r);
    m.reset(new SurfaceMesh(s.polys));
  }
  log << s.desc << ":";
  L.reset(new Listener(*m));
  auto edit = [&](SurfaceMesh& q, Rng& er, std::ostringstream& lg) {
    Ctx ec = c;
    ec.rng = er;
    bool d = manifold ? manifoldEdit(ec, *(ManifoldSurfaceMesh*)&q, lg) : generalEdit(ec, q, lg);
    er = ec.rng;
    return d;
  };
  size_t n = 4 + r.below(c.thorough ? 50 : 25);
  for (size_t k = 0; k < n; k++) {
    c.note = log.str();
    int w = r.below(12);
    if (w < 7) {
      size_t before = L->total();
      bool d = edit(*m, r, log);
      check(L->total() == before, "permute-in-edit", "an edit announced a permutation");
      c.count("edits", d);
    } else if (w == 7) {
      log << " compress";
      c.note = log.str();
      indexMaps(*m);
      bool was = m->isCompressed();
      Sig a = structure(*m);
      std::vector<size_t> lv = liveIdx<Vertex>(m.get()), lh = liveIdx<Halfedge>(m.get()), le = liveIdx<Edge>(m.get()), lf = liveIdx<Face>(m.get()), lb = liveIdx<BoundaryLoop>(m.get());
      size_t t0 = L->total(), c0 = L->comp;
      m->compress();
      check(m->isCompressed(), "compressed-flag", "not compressed after compress()");
      check(structure(*m) == a, "compress-structure", "compress() changed the mesh");
      isDense(*m);
      indexMaps(*m);
      if (was) check(L->total() == t0, "compress-noop", "compress() of a compressed mesh announced a change");
      else {
        check(L->comp == c0 + 1 && L->v.size() == L->comp && L->h.size() == L->comp && L->e.size() == L->comp && L->f.size() == L->comp && L->b.size() == L->comp, "compress-callbacks", "callbacks did not fire exactly once");
        check(L->v.back() == lv, "compress-perm", "vertex permutation");
        check(L->h.back() == lh, "compress-perm", "halfedge permutation");
        check(L->e.back() == le, "compress-perm", "edge permutation");
        check(L->f.back() == lf, "compress-perm", "face permutation");
        check(L->b.back() == lb, "compress-perm", "boundary loop permutation");
        c.count("compressions");
      }
      MeshCheckOpts mo;
      mo.strictOrient = manifold;
      fullCheck(*m, "after-compress", &c, mo);
    } else if (w == 8 || w == 9) { // copies
      int how = manifold ? r.below(2) : 0;
      log << " copy" << how;
      c.note = log.str();
      Sig a = structure(*m);
      bool comp = m->isCompressed();
      std::unique_ptr<SurfaceMesh> cp;
      if (how == 1) cp = ((ManifoldSurfaceMesh*)m.get())->copy();
      else cp = r.coin() || manifold ? m->copyToSurfaceMesh() : m->copy();
      check(structure(*cp) == a, "copy-structure", "copy differs");
      check(cp->isCompressed() == comp, "copy-compressed", "compressed state of the copy");
      check(liveIdx<Halfedge>(cp.get()) == liveIdx<Halfedge>(m.get()) && liveIdx<Face>(cp.get()) == liveIdx<Face>(m.get()) && liveIdx<Edge>(cp.get()) == liveIdx<Edge>(m.get()), "copy-index", "element indices of the copy");
      indexMaps(*cp);
      size_t t0 = L->total();
      Rng e1 = r, e2 = r;
      int mode = r.below(3);
      log << "/" << mode;
      if (mode == 2 && !comp) {
        cp->compress();
        check(!m->isCompressed() && L->total() == t0 && structure(*m) == a, "copy-independent", "compressing the copy affected the original");
      }
      std::ostringstream lg;
      size_t ne = 1 + r.below(6), did = 0;
      for (size_t q = 0; q < ne; q++) did += edit(*cp, e1, lg);
      check(structure(*m) == a && L->total() == t0 && !L->dead, "copy-independent", "editing the copy affected the original:", lg.str());
      if (mode == 1 || mode == 2) { // the same edits on the original have the same effect
        Sig b = structure(*cp);
        log << " [" << lg.str() << "]";
        c.note = log.str();
        std::ostringstream lg2;
        for (size_t q = 0; q < ne; q++) edit(*m, e2, lg2);
        check(lg.str() == lg2.str(), "copy-edit", "different course of edits", lg.str(), " vs ", lg2.str());
        check(structure(*m) == b, mode == 1 ? "copy-edit" : "compress-edit", "the same edits have a different effect on the copy");
        check(structure(*cp) == b, "copy-independent", "editing the original affected the copy");
        c.count(mode == 1 ? "edits_on_copy" : "edits_on_compressed_copy", did);
      }
      if (r.coin()) { // go on with the copy
        m = std::move(cp);
        check(L->dead, "delete-callback", "mesh deletion was not announced");
        L.reset(new Listener(*m));
        MeshCheckOpts mo;
        mo.strictOrient = manifold;
        fullCheck(*m, "after-copy", &c, mo);
      }
      c.count("copies");
    } else if (w == 10) {
      if (!m->isCompressed()) indexMaps(*m);
      // polygons in dense order, conversion to a manifold mesh
      log << " toManifold";
      c.note = log.str();
      Polys P = m->getFaceVertexList();
      VertexData<size_t> vi = m->getVertexIndices();
      size_t k2 = 0;
      for (Face f : m->faces()) {
        std::vector<size_t> p;
        for (Halfedge h : f.adjacentHalfedges()) p.push_back(vi[h.vertex()]);
        check(k2 < P.size() && P[k2] == p, "face-vertex-list", "face ", k2);
        k2++;
      }
      check(k2 == P.size(), "face-vertex-list", "size");
      if (m->isManifold() && m->isOriented()) {
        bool simple = true; // vertices whose neighbourhood is a single fan are guaranteed on manifold meshes
        if (!manifold)
          for (Vertex v : m->vertices()) simple = simple && v.isManifold();
        for (auto& p : P) simple = simple && p.size() >= 3;
        Sig a = structure(*m);
        if (simple) {
          auto mm = m->toManifoldMesh();
          check(mm->getFaceVertexList() == P, "to-manifold", "faces differ");
          check(mm->nVertices() == m->nVertices() && mm->nEdges() == m->nEdges() && mm->nInteriorHalfedges() == m->nInteriorHalfedges(), "to-manifold", "counts differ");
          if (manifold) check(mm->nBoundaryLoops() == m->nBoundaryLoops(), "to-manifold", "boundary loops differ");
          check(mm->isCompressed(), "to-manifold", "not compressed");
          fullCheck(*mm, "to-manifold", &c);
          c.count("to_manifold");
        }
        check(structure(*m) == a, "to-manifold", "conversion changed the source");
      }
    } else { // dead handles know it
      std::set<size_t> v0, f0, e0, h0;
      for (size_t i : liveIdx<Vertex>(m.get())) v0.insert(i);
      for (size_t i : liveIdx<Face>(m.get())) f0.insert(i);
      for (size_t i : liveIdx<Edge>(m.get())) e0.insert(i);
      for (size_t i : liveIdx<Halfedge>(m.get())) h0.insert(i);
      edit(*m, r, log);
      c.note = log.str();
      std::set<size_t> v1, f1, e1, h1;
      for (size_t i : liveIdx<Vertex>(m.get())) v1.insert(i);
      for (size_t i : liveIdx<Face>(m.get())) f1.insert(i);
      for (size_t i : liveIdx<Edge>(m.get())) e1.insert(i);
      for (size_t i : liveIdx<Halfedge>(m.get())) h1.insert(i);
      bool gone = false;
      for (size_t i : v0) if (!v1.count(i)) { gone = true; check(Vertex(m.get(), i).isDead(), "dead-handle", "deleted vertex is not dead"); }
      for (size_t i : f0) if (!f1.count(i)) { gone = true; check(Face(m.get(), i).isDead(), "dead-handle", "deleted face is not dead"); }
      for (size_t i : e0) if (!e1.count(i)) { gone = true; check(Edge(m.get(), i).isDead(), "dead-handle", "deleted edge is not dead"); }
      for (size_t i : h0) if (!h1.count(i)) { gone = true; check(Halfedge(m.get(), i).isDead(), "dead-handle", "deleted halfedge is not dead"); }
      for (size_t i : v1) check(!Vertex(m.get(), i).isDead(), "dead-handle", "live vertex is dead");
      for (size_t i : h1) check(!Halfedge(m.get(), i).isDead(), "dead-handle", "live halfedge is dead");
      if (gone) check(!m->isCompressed(), "compressed-flag", "mesh with holes claims to be compressed");
      c.count("deletions", gone);
    }
    if (m->isCompressed()) isDense(*m);
    c.sig(w * 3 + m->nHalfedges() * 131 + m->isCompressed());
  }
  c.note = log.str();
}

int main(int argc, char** argv) {
  Suite S;
  S.add("manifold-history", 3, [](Ctx& c) { history(c, true); });
  S.add("general-history", 1, [](Ctx& c) { history(c, false); });
  return run(S, argc, argv);
}
