// C03: edits and repairs of general (nonmanifold, unoriented) surface meshes.
#include "meshcheck.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
using namespace vf;

struct HeRec { size_t tail, tip, edge; };
struct GS { // state of a general mesh, gathered through the elementary accessors
  std::map<size_t, std::vector<size_t>> faces; // face -> ring of halfedges
  std::map<size_t, HeRec> he;
  std::map<size_t, std::vector<size_t>> edges; // edge -> halfedges
  std::map<size_t, size_t> faceOf;
  std::set<size_t> verts;
  std::map<size_t, bool> orient;
};
static std::vector<size_t> canonRing(std::vector<size_t> r) { return canonPoly(r); }
static std::vector<size_t> revRing(std::vector<size_t> r) {
  std::reverse(r.begin(), r.end());
  return canonPoly(r);
}
static GS snap(SurfaceMesh& m) {
  GS s;
  for (Face f : m.faces()) {
    std::vector<size_t> r;
    Halfedge h = f.halfedge();
    do {
      r.push_back(h.getIndex());
      if (r.size() > 10000) fail("face-orbit", "face orbit does not close");
      h = h.next();
    } while (h != f.halfedge());
    for (size_t i : r) s.faceOf[i] = f.getIndex();
    s.faces[f.getIndex()] = canonRing(r);
  }
  for (Halfedge h : m.halfedges()) {
    s.he[h.getIndex()] = {h.vertex().getIndex(), h.next().vertex().getIndex(), h.edge().getIndex()};
    s.edges[h.edge().getIndex()].push_back(h.getIndex());
    s.orient[h.getIndex()] = h.orientation();
  }
  for (Vertex v : m.vertices()) s.verts.insert(v.getIndex());
  return s;
}
static bool sameDir(const GS& s, size_t a, size_t b) { // two halfedges of one edge
  const HeRec &x = s.he.at(a), &y = s.he.at(b);
  if (x.tail != x.tip) return x.tail == y.tail;
  return s.orient.at(a) == s.orient.at(b);
}
static size_t nextIn(const GS& s, size_t h) {
  auto& r = s.faces.at(s.faceOf.at(h));
  for (size_t i = 0; i < r.size(); i++)
    if (r[i] == h) return r[(i + 1) % r.size()];
  return INVALID_IND;
}
// corners (= halfedge at whose tail they sit) grouped over edges with exactly two halfedges
static std::map<size_t, size_t> fans(const GS& s) {
  std::map<size_t, size_t> id;
  std::vector<size_t> hs;
  for (auto& kv : s.he) {
    id[kv.first] = hs.size();
    hs.push_back(kv.first);
  }
  UF uf(hs.size());
  for (auto& kv : s.edges) {
    if (kv.second.size() < 2) continue;
    for (size_t k = 1; k < kv.second.size(); k++) {
      size_t a = kv.second[0], b = kv.second[k];
      if (sameDir(s, a, b)) {
        uf.unite(id[a], id[b]);
        uf.unite(id[nextIn(s, a)], id[nextIn(s, b)]);
      } else {
        uf.unite(id[nextIn(s, a)], id[b]);
        uf.unite(id[a], id[nextIn(s, b)]);
      }
    }
  }
  std::map<size_t, size_t> r;
  for (size_t i = 0; i < hs.size(); i++) r[hs[i]] = uf.find(i);
  return r;
}
struct Status {
  bool edgeManifold = true, manifold = true, oriented = true, repeated = false, selfEdge = false;
};
static Status statusRef(const GS& s) {
  Status r;
  for (auto& kv : s.edges) {
    if (kv.second.size() > 2) r.edgeManifold = false;
    if (kv.second.size() > 2 || (kv.second.size() == 2 && sameDir(s, kv.second[0], kv.second[1]))) r.oriented = false;
    if (s.he.at(kv.second[0]).tail == s.he.at(kv.second[0]).tip) r.selfEdge = true;
  }
  auto fn = fans(s);
  std::map<size_t, std::set<size_t>> fv;
  for (auto& kv : s.he) fv[kv.second.tail].insert(fn[kv.first]);
  r.manifold = r.edgeManifold;
  for (auto& kv : fv)
    if (kv.second.size() > 1) r.manifold = false;
  for (auto& kv : s.faces) {
    std::set<size_t> vs;
    for (size_t h : kv.second)
      if (!vs.insert(s.he.at(h).tail).second) r.repeated = true;
  }
  return r;
}
static void checkStatus(Ctx& c, SurfaceMesh& m, const GS& s, const std::string& K) {
  MeshCheckOpts o;
  o.strictOrient = false;
  fullCheck(m, K, &c, o);
  Status st = statusRef(s);
  check(m.isEdgeManifold() == st.edgeManifold, K + "-status", "isEdgeManifold");
  check(m.isOriented() == st.oriented, K + "-status", "isOriented ", m.isOriented(), " expected ", st.oriented);
  auto em = m.getEdgeManifoldStatus();
  auto eo = m.getEdgeOrientedStatus();
  for (Edge e : m.edges()) {
    auto& hs = s.edges.at(e.getIndex());
    check(em[e] == (hs.size() <= 2) && e.isManifold() == (hs.size() <= 2), K + "-status", "edge manifold status");
    bool orr = hs.size() == 1 || (hs.size() == 2 && !sameDir(s, hs[0], hs[1]));
    check(eo[e] == orr && e.isOriented() == orr, K + "-status", "edge oriented status of ", e.getIndex());
    check(e.isBoundary() == (hs.size() == 1), K + "-status", "edge boundary");
  }
  if (!st.repeated) {
    check(m.isManifold() == st.manifold, K + "-status", "isManifold ", m.isManifold(), " expected ", st.manifold);
    auto fn = fans(s);
    std::map<size_t, std::set<size_t>> fv;
    std::map<size_t, bool> emv, orv;
    for (auto& kv : s.he) fv[kv.second.tail].insert(fn[kv.first]);
    for (size_t v : s.verts) emv[v] = orv[v] = true;
    for (auto& kv : s.edges) {
      bool bad = kv.second.size() > 2;
      bool unor = bad || (kv.second.size() == 2 && sameDir(s, kv.second[0], kv.second[1]));
      auto& h = s.he.at(kv.second[0]);
      for (size_t v : {h.tail, h.tip}) {
        if (bad) emv[v] = false;
        if (unor) orv[v] = false;
      }
    }
    auto vm = m.getVertexManifoldStatus();
    for (Vertex v : m.vertices()) {
      size_t i = v.getIndex();
      bool man = emv[i] && fv[i].size() == 1;
      check(vm[v] == man && v.isManifold() == man, K + "-vstatus", "vertex manifold status of ", i, " expected ", man);
      check(v.isManifoldAndOriented() == (man && orv[i]), K + "-vstatus", "isManifoldAndOriented of ", i, " expected ", man && orv[i]);
    }
  }
  c.count(st.manifold ? (st.oriented ? "states.manifold_oriented" : "states.manifold_unoriented") : (st.edgeManifold ? "states.edge_manifold" : "states.nonmanifold"));
}
static void sameEdgesOf(const GS& a, const GS& b, const std::string& K) {
  check(a.edges.size() == b.edges.size(), K, "edge count changed");
  for (auto& kv : a.he) {
    auto it = b.he.find(kv.first);
    check(it != b.he.end() && it->second.edge == kv.second.edge, K, "halfedge ", kv.first, " changed edge");
  }
  check(a.he.size() == b.he.size(), K, "halfedge count changed");
}
static void identical(const GS& a, const GS& b, const std::string& K) {
  check(a.faces == b.faces && a.verts == b.verts, K, "faces or vertices changed");
  sameEdgesOf(a, b, K);
  for (auto& kv : a.he) {
    auto& h = b.he.at(kv.first);
    check(h.tail == kv.second.tail && h.tip == kv.second.tip, K, "halfedge endpoints changed");
  }
}

static void convert(Ctx& c, SurfaceMesh& m, const GS& s) {
  Status st = statusRef(s);
  if (st.selfEdge || st.repeated) return;
  bool want = st.manifold && st.oriented, got = true;
  std::unique_ptr<ManifoldSurfaceMesh> mm;
  try {
    mm = m.toManifoldMesh();
  } catch (std::exception& e) {
    got = false;
  }
  check(got == want, "to-manifold", "toManifoldMesh ", got ? "accepted" : "rejected", ", expected ", want ? "accept" : "reject");
  if (!got) return;
  c.count("conversions");
  fullCheck(*mm, "to-manifold", &c);
  check(mm->nFaces() == m.nFaces() && mm->nVertices() == m.nVertices() && mm->nEdges() == m.nEdges(), "to-manifold", "counts change in conversion");
  auto vi = m.getVertexIndices();
  size_t k = 0;
  std::map<size_t, std::vector<std::pair<size_t, size_t>>> sides; // old edge -> (face, side)
  for (Face f : m.faces()) {
    std::vector<size_t> p, q;
    Halfedge h = f.halfedge();
    Halfedge g = mm->face(k).halfedge();
    do {
      p.push_back(vi[h.vertex()]);
      h = h.next();
    } while (h != f.halfedge());
    do {
      q.push_back(g.vertex().getIndex());
      g = g.next();
    } while (g != mm->face(k).halfedge());
    check(canonPoly(p) == canonPoly(q), "to-manifold", "face ", k, " differs");
    k++;
  }
  // same gluing
  k = 0;
  FaceData<size_t> fi = m.getFaceIndices();
  for (Face f : m.faces()) {
    for (Halfedge h : f.adjacentHalfedges()) {
      Halfedge g = mm->face(k).halfedge();
      size_t guard = 0;
      while (g.vertex().getIndex() != vi[h.vertex()] && guard++ < 1000) g = g.next();
      if (h.edge().isBoundary()) check(!g.twin().isInterior(), "to-manifold", "boundary edge glued");
      else check(g.twin().isInterior() && g.twin().face().getIndex() == fi[h.sibling().face()] && g.twin().vertex().getIndex() == vi[h.tipVertex()], "to-manifold", "gluing changed");
    }
    k++;
  }
}

static void run1(Ctx& c, bool tri) {
  Rng& r = c.rng;
  Soup so = randomSoup(r);
  if (tri) triangulateSoup(so);
  std::unique_ptr<SurfaceMesh> m(new SurfaceMesh(so.polys));
  std::ostringstream log;
  log << so.desc << " " << showPolys(so.polys) << " ops:";
  GS s = snap(*m);
  checkStatus(c, *m, s, "initial");
  size_t nOps = 1 + r.below(c.thorough ? 30 : 12);
  // optional containers living through the history (capacity callbacks)
  VertexData<int> vd(*m, 7);
  for (size_t op = 0; op < nOps; op++) {
    size_t kind = r.below(tri ? 12 : 9);
    if (m->nHalfedges() > 400 && kind == 1) kind = 0;
    auto anyFace = [&]() { auto it = s.faces.begin(); std::advance(it, r.below(s.faces.size())); return it->first; };
    auto anyEdge = [&]() { auto it = s.edges.begin(); std::advance(it, r.below(s.edges.size())); return it->first; };
    c.note = log.str();
    if (kind == 0) { // invert
      size_t f = anyFace();
      log << " invert(" << f << ")";
      c.note = log.str();
      m->invertOrientation(Face(m.get(), f));
      GS n = snap(*m);
      checkStatus(c, *m, n, "invert");
      check(n.faces.at(f) == revRing(s.faces.at(f)), "invert-face", "face ring is not reversed");
      sameEdgesOf(s, n, "invert-edges");
      check(n.verts == s.verts && n.faces.size() == s.faces.size(), "invert-frame", "elements changed");
      for (auto& kv : s.faces)
        if (kv.first != f) check(n.faces.at(kv.first) == kv.second, "invert-frame", "another face changed");
      for (auto& kv : s.he) {
        auto& h = n.he.at(kv.first);
        if (s.faceOf.at(kv.first) == f) check(h.tail == kv.second.tip && h.tip == kv.second.tail, "invert-face", "halfedge not reversed");
        else check(h.tail == kv.second.tail && h.tip == kv.second.tip, "invert-frame", "another halfedge changed");
      }
      c.count("op.invert");
      s = n;
    } else if (kind == 1) { // duplicate
      size_t f = anyFace();
      log << " dup(" << f << ")";
      c.note = log.str();
      Face nf = m->duplicateFace(Face(m.get(), f));
      GS n = snap(*m);
      size_t g = nf.getIndex();
      check(!s.faces.count(g) && n.faces.count(g), "dup-new", "returned face is not new");
      check(n.faces.size() == s.faces.size() + 1 && n.edges.size() == s.edges.size() && n.verts == s.verts, "dup-count", "element counts after duplicateFace");
      auto &ra = n.faces.at(f), &rb = n.faces.at(g);
      check(ra == s.faces.at(f), "dup-frame", "original face changed");
      std::vector<std::array<size_t, 2>> x, y;
      auto ring = [&](const std::vector<size_t>& q) {
        std::vector<size_t> w;
        for (size_t h : q) w.push_back(n.he.at(h).edge * 1000003 + n.he.at(h).tail);
        return canonPoly(w);
      };
      check(ring(ra) == ring(rb), "dup-face", "duplicate is not the same polygon on the same edges");
      for (auto& kv : s.faces) check(n.faces.at(kv.first) == kv.second, "dup-frame", "another face changed");
      for (auto& kv : s.he) check(n.he.at(kv.first).tail == kv.second.tail && n.he.at(kv.first).edge == kv.second.edge, "dup-frame", "halfedge changed");
      checkStatus(c, *m, n, "dup");
      c.count("op.duplicate");
      s = n;
    } else if (kind == 2 || kind == 3) { // separateToNewEdge
      size_t e = anyEdge();
      if (r.coin(0.7)) // prefer high degree
        for (auto& kv : s.edges)
          if (kv.second.size() > s.edges[e].size()) e = kv.first;
      auto hs = s.edges.at(e);
      size_t a = r.pick(hs), b = r.pick(hs);
      if (r.coin(0.1)) b = s.edges.at(anyEdge())[0];
      log << " sep(" << a << "," << b << ")";
      c.note = log.str();
      bool bad = a == b || s.he.at(a).edge != s.he.at(b).edge, threw = false;
      Edge ne;
      try {
        ne = m->separateToNewEdge(Halfedge(m.get(), a), Halfedge(m.get(), b));
      } catch (std::exception&) {
        threw = true;
      }
      check(threw == bad, "sep-args", "separateToNewEdge argument checking");
      GS n = snap(*m);
      checkStatus(c, *m, n, "sep");
      if (bad || hs.size() == 2) {
        identical(s, n, "sep-noop");
        if (!bad) check(ne.getIndex() == e, "sep-noop", "did not return the same edge");
        c.count("op.separate_noop");
      } else {
        check(n.faces == s.faces && n.verts == s.verts, "sep-frame", "faces or vertices changed");
        check(!s.edges.count(ne.getIndex()) && n.edges.size() == s.edges.size() + 1, "sep-new", "not a new edge");
        for (auto& kv : s.he) {
          size_t want = kv.second.edge;
          if (kv.first == a || kv.first == b) want = ne.getIndex();
          auto& h = n.he.at(kv.first);
          check(h.edge == want, "sep-edge", "halfedge ", kv.first, " on edge ", h.edge, " expected ", want);
          check(h.tail == kv.second.tail && h.tip == kv.second.tip, "sep-frame", "halfedge endpoints changed");
        }
        c.count("op.separate");
      }
      s = n;
    } else if (kind == 4) {
      if (!r.coin(0.5)) continue;
      log << " sepEdges";
      c.note = log.str();
      m->separateNonmanifoldEdges();
      GS n = snap(*m);
      checkStatus(c, *m, n, "sepedges");
      check(n.faces == s.faces && n.verts == s.verts, "sepedges-frame", "faces or vertices changed");
      check(m->isEdgeManifold(), "sepedges-result", "still not edge manifold");
      std::map<size_t, std::set<size_t>> split;
      for (auto& kv : s.he) {
        auto& h = n.he.at(kv.first);
        check(h.tail == kv.second.tail && h.tip == kv.second.tip, "sepedges-frame", "halfedge endpoints changed");
        split[h.edge].insert(kv.second.edge);
        if (s.edges.at(kv.second.edge).size() <= 2) check(h.edge == kv.second.edge, "sepedges-frame", "manifold edge changed");
      }
      for (auto& kv : split) check(kv.second.size() == 1, "sepedges-result", "halfedges of distinct edges were joined");
      for (auto& kv : n.edges) check(kv.second.size() <= 2, "sepedges-result", "edge with more than two halfedges");
      size_t want = 0;
      for (auto& kv : s.edges) want += (kv.second.size() + 1) / 2;
      check(n.edges.size() == want, "sepedges-result", "number of edges after separation");
      c.count("op.separate_all_edges");
      s = n;
    } else if (kind == 5) {
      if (!r.coin(0.6)) continue;
      log << " sepVerts";
      c.note = log.str();
      bool bad = !statusRef(s).edgeManifold, threw = false;
      VertexData<Vertex> par;
      try {
        par = m->separateNonmanifoldVertices();
      } catch (std::exception&) {
        threw = true;
      }
      check(threw == bad, "sepverts-args", "separateNonmanifoldVertices on a mesh that is ", bad ? "not " : "", "edge manifold");
      GS n = snap(*m);
      checkStatus(c, *m, n, "sepverts");
      if (bad) identical(s, n, "sepverts-refused");
      else {
        check(n.faces == s.faces, "sepverts-frame", "faces changed");
        sameEdgesOf(s, n, "sepverts-frame");
        for (auto& kv : s.he) check(par[Vertex(m.get(), n.he.at(kv.first).tail)].getIndex() == kv.second.tail, "sepverts-parent", "parent of the vertex at halfedge ", kv.first);
        auto fn = fans(s);
        std::map<size_t, std::set<size_t>> f2v, v2f;
        for (auto& kv : n.he) {
          f2v[fn[kv.first]].insert(kv.second.tail);
          v2f[kv.second.tail].insert(fn[kv.first]);
        }
        for (auto& kv : f2v) check(kv.second.size() == 1, "sepverts-result", "an edge-connected fan was split");
        for (auto& kv : v2f) check(kv.second.size() == 1, "sepverts-result", "vertex with several fans remains");
        check(n.verts.size() == f2v.size(), "sepverts-result", "number of vertices");
        for (size_t v : s.verts) check(n.verts.count(v) && par[Vertex(m.get(), v)].getIndex() == v, "sepverts-frame", "original vertex lost");
        if (!statusRef(s).repeated) check(m->isManifold(), "sepverts-result", "not manifold after separation");
        for (Vertex v : m->vertices()) check(vd[v] == 7, "container", "container default lost");
        c.count("op.separate_vertices");
      }
      s = n;
    } else if (kind == 6) {
      if (!r.coin(0.5)) continue;
      log << " orient";
      c.note = log.str();
      m->greedilyOrientFaces();
      GS n = snap(*m);
      checkStatus(c, *m, n, "orient");
      sameEdgesOf(s, n, "orient-frame");
      check(n.verts == s.verts && n.faces.size() == s.faces.size(), "orient-frame", "elements changed");
      // parity components over two-sided edges
      std::map<size_t, size_t> fid;
      for (auto& kv : s.faces) {
        size_t q = fid.size();
        fid[kv.first] = q;
      }
      UF uf(2 * fid.size()), comp(fid.size());
      for (auto& kv : s.edges)
        if (kv.second.size() == 2) {
          size_t a = fid[s.faceOf.at(kv.second[0])], b = fid[s.faceOf.at(kv.second[1])];
          bool flip = sameDir(s, kv.second[0], kv.second[1]);
          uf.unite(2 * a, 2 * b + flip);
          uf.unite(2 * a + 1, 2 * b + !flip);
          comp.unite(a, b);
        }
      std::map<size_t, bool> orientable;
      for (auto& kv : fid)
        if (uf.find(2 * kv.second) == uf.find(2 * kv.second + 1)) orientable[comp.find(kv.second)] = false;
      bool allOk = true;
      for (auto& kv : n.edges)
        if (kv.second.size() == 2) {
          size_t a = comp.find(fid[s.faceOf.at(kv.second[0])]);
          if (!orientable.count(a)) check(!sameDir(n, kv.second[0], kv.second[1]), "orient-result", "edge ", kv.first, " of an orientable component is not oriented");
          else allOk = false;
        }
      c.count(allOk ? "op.orient" : "op.orient_nonorientable");
      for (auto& kv : s.faces) {
        auto& rr = n.faces.at(kv.first);
        bool same = rr == kv.second && n.he.at(rr[0]).tail == s.he.at(rr[0]).tail;
        if (same) {
          for (size_t h : rr) check(n.he.at(h).tail == s.he.at(h).tail, "orient-frame", "face vertices changed");
        } else {
          check(rr == revRing(kv.second), "orient-frame", "face is neither kept nor reversed");
          for (size_t h : rr) check(n.he.at(h).tail == s.he.at(h).tip, "orient-frame", "reversed face vertices");
        }
      }
      s = n;
    } else if (kind == 7) { // compress
      log << " compress";
      c.note = log.str();
      auto fl = m->getFaceVertexList();
      m->compress();
      check(m->isCompressed(), "compress", "not compressed");
      auto gl = m->getFaceVertexList();
      check(fl.size() == gl.size(), "compress", "face count");
      for (size_t k = 0; k < fl.size(); k++) check(canonPoly(fl[k]) == canonPoly(gl[k]), "compress", "face changed in compression");
      s = snap(*m);
      checkStatus(c, *m, s, "compress");
    } else if (kind == 8) { // copy and go on with the copy
      log << " copy";
      c.note = log.str();
      std::unique_ptr<SurfaceMesh> q = r.coin() ? m->copy() : m->copyToSurfaceMesh();
      GS n = snap(*q);
      identical(s, n, "copy");
      vd = VertexData<int>();
      m = std::move(q);
      vd = VertexData<int>(*m, 7);
      s = snap(*m);
      checkStatus(c, *m, s, "copy");
    } else { // flip
      size_t e = anyEdge();
      bool prevent = r.coin(0.8);
      log << " flip(" << e << "," << prevent << ")";
      c.note = log.str();
      auto hs = s.edges.at(e);
      bool can = hs.size() == 2;
      size_t va = 0, vb = 0, vc = 0, vd2 = 0, ha2 = 0, ha3 = 0, hb2 = 0, hb3 = 0;
      bool same = false;
      if (can) {
        size_t h1 = hs[0], h2 = hs[1];
        can = s.faces.at(s.faceOf.at(h1)).size() == 3 && s.faces.at(s.faceOf.at(h2)).size() == 3 && s.faceOf.at(h1) != s.faceOf.at(h2);
        if (can) {
          same = sameDir(s, h1, h2);
          ha2 = nextIn(s, h1);
          ha3 = nextIn(s, ha2);
          hb2 = nextIn(s, h2);
          hb3 = nextIn(s, hb2);
          va = s.he[h1].tail;
          vb = s.he[h1].tip;
          vc = s.he[ha3].tail;
          vd2 = s.he[hb3].tail;
          if (same) std::swap(hb2, hb3); // hb2 joins a and d, hb3 joins d and b
          if (prevent) {
            if (vc == vd2) can = false;
            for (auto& kv : s.edges) {
              auto& q = s.he[kv.second[0]];
              if ((q.tail == vc && q.tip == vd2) || (q.tail == vd2 && q.tip == vc)) can = false;
            }
          }
        }
      }
      bool did = m->flip(Edge(m.get(), e), prevent);
      check(did == can, "flip-result", "flip returned ", did, " expected ", can);
      GS n = snap(*m);
      checkStatus(c, *m, n, "flip");
      if (!did) {
        identical(s, n, "flip-refused");
        c.count("op.flip_refused");
      } else {
        sameEdgesOf(s, n, "flip-edges");
        check(n.faces.size() == s.faces.size() && n.verts == s.verts, "flip-frame", "elements changed");
        auto E = [&](size_t h) { return s.he[h].edge; };
        size_t f1 = s.faceOf[hs[0]], f2 = s.faceOf[hs[1]];
        for (auto& kv : s.faces)
          if (kv.first != f1 && kv.first != f2) check(n.faces.at(kv.first) == kv.second, "flip-frame", "another face changed");
        for (auto& kv : s.he)
          if (s.faceOf[kv.first] != f1 && s.faceOf[kv.first] != f2) check(n.he[kv.first].tail == kv.second.tail, "flip-frame", "another halfedge changed");
        for (auto& kv : s.edges)
          if (kv.first != e) {
            auto &x = s.he[kv.second[0]], &y = n.he[kv.second[0]];
            check((x.tail == y.tail && x.tip == y.tip) || (x.tail == y.tip && x.tip == y.tail), "flip-frame", "endpoints of another edge changed");
          }
        auto& q = n.he[hs[0]];
        check((q.tail == vc && q.tip == vd2) || (q.tail == vd2 && q.tip == vc), "flip-hinge", "flipped edge joins ", q.tail, " and ", q.tip);
        auto edgesOf = [&](size_t f) {
          std::vector<size_t> w;
          for (size_t h : n.faces.at(f)) w.push_back(n.he[h].edge);
          std::sort(w.begin(), w.end());
          return w;
        };
        auto sorted = [](std::vector<size_t> w) { std::sort(w.begin(), w.end()); return w; };
        auto t1 = sorted({e, E(ha2), E(hb3)}), t2 = sorted({e, E(ha3), E(hb2)});
        auto g1 = edgesOf(f1), g2 = edgesOf(f2);
        check((g1 == t1 && g2 == t2) || (g1 == t2 && g2 == t1), "flip-faces", "the two triangles are not those of the flipped diamond");
        if (!same)
          for (size_t h : {ha2, ha3, hb2, hb3}) check(n.he[h].tail == s.he[h].tail && n.he[h].tip == s.he[h].tip, "flip-frame", "outer halfedge changed direction");
        if (vc != vd2) check(sameDir(n, hs[0], hs[1]) == same, "flip-orient", "relative orientation changed");
        c.count(same ? "op.flip_unoriented" : "op.flip");
      }
      s = n;
    }
    if (r.coin(0.25)) convert(c, *m, s);
    c.sig(s.he.size() * 131 + s.edges.size() * 17 + kind);
  }
  convert(c, *m, s);
  c.note = log.str();
  c.sig(hashPolys(so.polys));
}

// repair pipeline: separate everything, orient, convert
static void pipeline(Ctx& c) {
  Rng& r = c.rng;
  Soup so = randomSoup(r);
  c.note = so.desc + " " + showPolys(so.polys);
  SurfaceMesh m(so.polys);
  auto before = m.getFaceVertexList();
  GS s0 = snap(m);
  m.separateNonmanifoldEdges();
  auto par = m.separateNonmanifoldVertices();
  m.greedilyOrientFaces();
  GS s = snap(m);
  checkStatus(c, m, s, "pipe");
  check(m.isManifold(), "pipe-manifold", "not manifold after separation");
  for (auto& kv : s0.faces) {
    std::vector<size_t> a, b;
    for (size_t h : kv.second) a.push_back(s0.he.at(h).tail);
    for (size_t h : s.faces.at(kv.first)) b.push_back(par[Vertex(&m, s.he.at(h).tail)].getIndex());
    auto rb = b;
    std::reverse(rb.begin(), rb.end());
    check(canonPoly(a) == canonPoly(b) || canonPoly(a) == canonPoly(rb), "pipe-faces", "face ", kv.first, " changed");
  }
  convert(c, m, s);
  c.count("pipelines");
  c.sig(hashPolys(so.polys));
}

int main(int argc, char** argv) {
  Suite S;
  S.add("poly-history", 3, [](Ctx& c) { run1(c, false); });
  S.add("tri-history", 4, [](Ctx& c) { run1(c, true); });
  S.add("pipeline", 2, pipeline);
  return run(S, argc, argv);
}
