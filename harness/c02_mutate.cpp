// C02: manifold mesh edits do what is documented; everything else keeps its identity; the mesh stays valid.
#include "meshcheck.h"
using namespace vf;

namespace {
struct Hrec {
  size_t next, twin, v, f, e;
  bool interior, orient;
};
struct Snap {
  std::map<size_t, Hrec> h;
  std::map<size_t, std::vector<size_t>> faces; // ring of halfedges, live interior faces
  std::map<size_t, std::pair<size_t, size_t>> edges;
  std::set<size_t> verts;
  size_t nLoops = 0;
  size_t tick = 0;
  std::vector<size_t> ringV(size_t f) const {
    std::vector<size_t> r;
    for (size_t x : faces.at(f)) r.push_back(h.at(x).v);
    return r;
  }
  std::pair<size_t, size_t> ends(size_t e) const {
    auto p = edges.at(e);
    return {std::min(p.first, p.second), std::max(p.first, p.second)};
  }
};
Snap snap(ManifoldSurfaceMesh& m) {
  Snap s;
  for (Halfedge x : m.halfedges()) s.h[x.getIndex()] = {x.next().getIndex(), x.twin().getIndex(), x.vertex().getIndex(), x.isInterior() ? x.face().getIndex() : INVALID_IND, x.edge().getIndex(), x.isInterior(), x.orientation()};
  for (Face f : m.faces()) {
    std::vector<size_t> r;
    Halfedge x = f.halfedge();
    do {
      r.push_back(x.getIndex());
      x = x.next();
      if (r.size() > m.nHalfedges()) fail("orbit", "face orbit does not close");
    } while (x != f.halfedge());
    s.faces[f.getIndex()] = r;
  }
  for (Edge e : m.edges()) s.edges[e.getIndex()] = {e.halfedge().tailVertex().getIndex(), e.halfedge().tipVertex().getIndex()};
  for (Vertex v : m.vertices()) s.verts.insert(v.getIndex());
  s.nLoops = m.nBoundaryLoops();
  return s;
}
bool same(const Snap& a, const Snap& b, bool orient = true) {
  if (a.faces.size() != b.faces.size() || a.verts != b.verts || a.nLoops != b.nLoops || a.h.size() != b.h.size() || a.edges.size() != b.edges.size()) return false;
  for (auto& kv : a.h) {
    auto it = b.h.find(kv.first);
    if (it == b.h.end()) return false;
    const Hrec &x = kv.second, &y = it->second;
    if (x.next != y.next || x.twin != y.twin || x.v != y.v || x.f != y.f || x.e != y.e || x.interior != y.interior || (orient && x.orient != y.orient)) return false;
  }
  return true;
}
template <class K, class V> std::set<size_t> added(const std::map<K, V>& a, const std::map<K, V>& b) {
  std::set<size_t> r;
  for (auto& kv : b)
    if (!a.count(kv.first)) r.insert(kv.first);
  return r;
}
std::set<size_t> added(const std::set<size_t>& a, const std::set<size_t>& b) {
  std::set<size_t> r;
  for (size_t x : b)
    if (!a.count(x)) r.insert(x);
  return r;
}
struct Delta {
  std::set<size_t> nh, nf, ne, nv, dh, df, de, dv;
  Delta(const Snap& a, const Snap& b) : nh(added(a.h, b.h)), nf(added(a.faces, b.faces)), ne(added(a.edges, b.edges)), nv(added(a.verts, b.verts)), dh(added(b.h, a.h)), df(added(b.faces, a.faces)), de(added(b.edges, a.edges)), dv(added(b.verts, a.verts)) {}
};
void sizes(const Delta& d, const std::string& K, size_t nv, size_t ne, size_t nf, size_t dv, size_t de, size_t df) {
  check(d.nv.size() == nv && d.ne.size() == ne && d.nf.size() == nf && d.dv.size() == dv && d.de.size() == de && d.df.size() == df && d.nh.size() == 2 * ne && d.dh.size() == 2 * de, K + "-counts",
        "elements created/deleted: V +", d.nv.size(), "-", d.dv.size(), " E +", d.ne.size(), "-", d.de.size(), " F +", d.nf.size(), "-", d.df.size(), " H +", d.nh.size(), "-", d.dh.size(), "; expected V +", nv, "-", dv, " E +", ne, "-", de, " F +", nf, "-", df);
}
// every halfedge outside of `touched` (and not created/deleted) is unchanged, up to the vertex renaming
void frame(const Snap& a, const Snap& b, const std::set<size_t>& touched, const std::string& K, const std::map<size_t, size_t>& vmap = {}, bool orient = true) {
  auto mv = [&](size_t v) { auto it = vmap.find(v); return it == vmap.end() ? v : it->second; };
  for (auto& kv : a.h) {
    if (touched.count(kv.first)) continue;
    auto it = b.h.find(kv.first);
    check(it != b.h.end(), K + "-frame", "halfedge ", kv.first, " outside of the edit disappeared");
    const Hrec &x = kv.second, &y = it->second;
    check(x.next == y.next && x.twin == y.twin && mv(x.v) == y.v && x.f == y.f && x.e == y.e && x.interior == y.interior && (!orient || x.orient == y.orient), K + "-frame", "halfedge ", kv.first, " outside of the edit changed: next ", x.next, "->", y.next, " twin ", x.twin, "->", y.twin, " vertex ", x.v, "->", y.v, " face ", x.f, "->", y.f);
  }
}
std::set<size_t> heOfFaces(const Snap& s, std::initializer_list<size_t> fs) {
  std::set<size_t> r;
  for (size_t f : fs)
    if (f != INVALID_IND)
      for (size_t x : s.faces.at(f)) r.insert(x);
  return r;
}
void addPrev(const Snap& s, std::set<size_t>& t, size_t x) {
  for (auto& kv : s.h)
    if (kv.second.next == x) t.insert(kv.first);
}
// each surviving edge keeps its identity: same end points (with renaming) and, if asked, direction
void edgesKept(const Snap& a, const Snap& b, const std::string& K, const std::map<size_t, size_t>& vmap = {}, const std::set<size_t>& except = {}, bool directed = true) {
  auto mv = [&](size_t v) { auto it = vmap.find(v); return it == vmap.end() ? v : it->second; };
  for (auto& kv : a.edges) {
    if (except.count(kv.first) || !b.edges.count(kv.first)) continue;
    std::pair<size_t, size_t> p = {mv(kv.second.first), mv(kv.second.second)}, q = b.edges.at(kv.first);
    bool ok = p == q || (!directed && p.first == q.second && p.second == q.first);
    check(ok, K + "-edges", "edge ", kv.first, " joined ", p.first, "-", p.second, " now ", q.first, "-", q.second);
  }
}
void ringIs(const Snap& b, size_t f, const std::vector<size_t>& want, const std::string& K, const char* what) {
  check(b.faces.count(f), K, what, ": face ", f, " missing");
  auto got = b.ringV(f);
  if (canonPoly(got) != canonPoly(want)) fail(K, what, ": face ", f, " is ", showPolys({got}), " expected ", showPolys({want}));
}
bool simplicial(const Snap& s) {
  std::set<std::pair<size_t, size_t>> es;
  std::set<std::set<size_t>> fs;
  for (auto& kv : s.edges) {
    auto p = s.ends(kv.first);
    if (p.first == p.second || !es.insert(p).second) return false;
  }
  for (auto& kv : s.faces) {
    auto r = s.ringV(kv.first);
    if (r.size() != 3) return false;
    if (!fs.insert(std::set<size_t>(r.begin(), r.end())).second) return false;
  }
  return true;
}

struct World {
  Ctx& c;
  ManifoldSurfaceMesh& m;
  std::string log;
  size_t applied = 0, refused = 0;
  Snap S;
  World(Ctx& c_, ManifoldSurfaceMesh& m_) : c(c_), m(m_), S(snap(m_)) {}
  Edge rE() {
    std::vector<Edge> v;
    for (Edge e : m.edges()) v.push_back(e);
    return c.rng.pick(v);
  }
  Face rF() {
    std::vector<Face> v;
    for (Face e : m.faces()) v.push_back(e);
    return c.rng.pick(v);
  }
  Vertex rV() {
    std::vector<Vertex> v;
    for (Vertex e : m.vertices()) v.push_back(e);
    return c.rng.pick(v);
  }
  void rejected(const std::string& K) {
    Snap T = snap(m);
    check(same(S, T), K + "-refused-changed", "a refused edit changed the mesh; ", log);
    refused++;
    c.count("refused." + K);
  }
  void done(const std::string& K) {
    applied++;
    c.count("applied." + K);
  }
  void finish(const std::string& K) {
    MeshCheckOpts o;
    o.dense = c.rng.coin(0.2);
    try {
      fullCheck(m, "after-" + K, &c, o);
    } catch (Violation& v) {
      throw Violation(v.key, str(v.what(), " ; edits:", log));
    }
    S = snap(m);
  }

  void flip() {
    Edge e = rE();
    bool prevent = c.rng.coin(0.7);
    size_t ei = e.getIndex();
    log += str(" flip(", ei, ",", prevent, ")");
    Halfedge a1 = e.halfedge(), b1 = a1.twin();
    bool can = a1.isInterior() && b1.isInterior() && a1.face().degree() == 3 && b1.face().degree() == 3;
    size_t a = 0, b = 0, cc = 0, d = 0;
    std::vector<size_t> fa, fb;
    if (can) {
      a = a1.vertex().getIndex();
      b = b1.vertex().getIndex();
      cc = a1.next().next().vertex().getIndex();
      d = b1.next().next().vertex().getIndex();
      if (a1.next() == b1 || b1.next() == a1) can = false;
      if (prevent && cc == d) can = false; // would become a self edge
      // documented only for self edges, the library also refuses to duplicate an existing edge
      if (prevent && can)
        for (auto& kv : S.edges)
          if (S.ends(kv.first) == std::make_pair(std::min(cc, d), std::max(cc, d))) can = false;
    }
    bool r = m.flip(e, prevent);
    check(r == can, "flip-result", "flip of edge ", ei, " returned ", r, " expected ", can, " opposite ", cc, ",", d, " ;", log);
    if (!r) { rejected("flip"); return; }
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "flip", 0, 0, 0, 0, 0, 0);
    const Hrec &x = S.h.at(a1.getIndex()), &y = S.h.at(b1.getIndex());
    auto t = heOfFaces(S, {x.f, y.f});
    frame(S, T, t, "flip");
    auto p = T.ends(ei);
    check(p == std::make_pair(std::min(cc, d), std::max(cc, d)), "flip-edge", "flipped edge joins ", p.first, "-", p.second, " expected ", cc, "-", d);
    size_t h1 = a1.getIndex(), h2 = b1.getIndex();
    std::vector<std::vector<size_t>> got = {canonPoly(T.ringV(x.f)), canonPoly(T.ringV(y.f))}, want = {canonPoly({cc, d, b}), canonPoly({d, cc, a})};
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    check(got == want, "flip-faces", "faces after flip are wrong ;", log);
    // the four outer halfedges keep tail, twin and edge
    for (size_t q : t)
      if (q != h1 && q != h2) check(T.h.at(q).v == S.h.at(q).v && T.h.at(q).twin == S.h.at(q).twin && T.h.at(q).e == S.h.at(q).e, "flip-outer", "outer halfedge changed");
    // rotation sense is fixed by the returned orientation: counter-clockwise (seen from the front)
    check(T.h.at(h1).v == cc && T.h.at(h2).v == d, "flip-ccw", "flip is not a rotation by one step: halfedge tail ", T.h.at(h1).v);
    edgesKept(S, T, "flip", {}, {ei});
    // rotating three more times restores the quadrilateral
    if (!prevent && c.rng.coin(0.3)) {
      bool ok = true;
      for (int k = 0; k < 3 && ok; k++) ok = m.flip(e, false);
      if (ok) {
        Snap U = snap(m);
        for (size_t q : {h1, h2}) check(U.h.at(q).v == S.h.at(q).v && U.h.at(q).twin == S.h.at(q).twin, "flip-cycle", "four flips do not restore the edge");
        for (auto& kv : S.faces) {
          (void)kv;
        }
        std::vector<std::vector<size_t>> g2 = {canonPoly(U.ringV(x.f)), canonPoly(U.ringV(y.f))}, w2 = {canonPoly(S.ringV(x.f)), canonPoly(S.ringV(y.f))};
        std::sort(g2.begin(), g2.end());
        std::sort(w2.begin(), w2.end());
        check(g2 == w2, "flip-cycle", "four flips do not restore the faces");
        log += "x4";
      }
    }
    done("flip");
    finish("flip");
  }

  // shared by insertVertexAlongEdge and splitEdgeTriangular
  void splitCommon(bool tri) {
    Edge e = rE();
    const char* K = tri ? "split" : "insertAlong";
    Halfedge h0 = e.halfedge();
    size_t ei = e.getIndex(), hi = h0.getIndex(), ti = h0.twin().getIndex();
    const Hrec x = S.h.at(hi), y = S.h.at(ti);
    log += str(" ", K, "(", ei, ")");
    size_t u = x.v, v = y.v;
    bool bad = tri && (S.faces[x.f].size() != 3 || (y.interior && S.faces[y.f].size() != 3));
    // splitting an edge both of whose sides lie in one triangle is outside of the supported neighbourhood
    if (tri && x.f == y.f) return;
    Halfedge r;
    try {
      r = tri ? m.splitEdgeTriangular(e) : m.insertVertexAlongEdge(e);
    } catch (std::exception&) {
      check(bad, str(K, "-throws"), "unexpected exception ;", log);
      rejected(K);
      return;
    }
    check(!bad, "split-nontri", "splitEdgeTriangular accepted a non-triangle");
    Snap T = snap(m);
    Delta D(S, T);
    size_t sides = tri ? (y.interior ? 2 : 1) : 0;
    sizes(D, K, 1, 1 + sides, sides, 0, 0, 0);
    size_t nv = *D.nv.begin(), ri = r.getIndex();
    check(r.vertex().getIndex() == nv, str(K, "-ret"), "returned halfedge does not start at the new vertex");
    check(T.h.at(ri).v == nv && r.tipVertex().getIndex() == v, str(K, "-ret"), "returned halfedge does not point along the original direction: tip ", r.tipVertex().getIndex(), " expected ", v);
    check(r.edge().halfedge() == r, str(K, "-ret"), "canonical direction of the returned edge");
    // original edge and halfedges are one of the two halves; the other half keeps the canonical direction
    size_t re = T.h.at(ri).e;
    size_t other = INVALID_IND;
    for (size_t q : {ei}) (void)q;
    size_t cand = 0;
    for (auto& kv : T.edges)
      if ((kv.first == ei || D.ne.count(kv.first)) && kv.first != re && ((kv.second.first == u && kv.second.second == nv) || (kv.second.second == u && kv.second.first == nv))) {
        bool along = false; // lies on the old edge line: its two sides are in the old faces' chain
        for (auto& hv : T.h)
          if (hv.second.e == kv.first && hv.second.v == u && T.h.at(hv.second.twin).v == nv) along = true;
        if (along) { other = kv.first; cand++; }
      }
    check(cand >= 1, str(K, "-halves"), "no second half of the split edge");
    if (cand == 1) {
      check(ei == re || ei == other, str(K, "-reuse"), "the original edge was not reused");
      check(T.edges[other] == std::make_pair(u, nv), str(K, "-dir"), "canonical direction of the other half not preserved");
    }
    std::set<size_t> t = heOfFaces(S, {x.f, y.interior ? y.f : INVALID_IND});
    t.insert(ti);
    t.insert(hi);
    addPrev(S, t, ti);
    addPrev(S, t, hi);
    frame(S, T, t, K);
    edgesKept(S, T, K, {}, {ei});
    // expected polygons
    auto ringInsert = [&](size_t h) { // polygon of face of h with nv inserted on h
      std::vector<size_t> out;
      for (size_t q : S.faces[S.h.at(h).f]) {
        out.push_back(S.h.at(q).v);
        if (q == hi || q == ti) out.push_back(nv);
      }
      return out;
    };
    if (!tri) {
      ringIs(T, x.f, ringInsert(hi), str(K, "-faces"), "face A");
      if (y.interior) ringIs(T, y.f, ringInsert(ti), str(K, "-faces"), "face B");
    } else {
      Polys want, got;
      auto tri2 = [&](size_t h) {
        size_t a = S.h.at(h).v, n1 = S.h.at(h).next, b = S.h.at(n1).v, w = S.h.at(S.h.at(n1).next).v;
        want.push_back(canonPoly({a, nv, w}));
        want.push_back(canonPoly({nv, b, w}));
      };
      tri2(hi);
      got.push_back(canonPoly(T.ringV(x.f)));
      if (y.interior) {
        tri2(ti);
        got.push_back(canonPoly(T.ringV(y.f)));
      }
      for (size_t f : D.nf) got.push_back(canonPoly(T.ringV(f)));
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      check(want == got, "split-faces", "faces after split ", showPolys(got), " expected ", showPolys(want), " ;", log);
    }
    done(K);
    finish(K);
  }

  void insertVertex() {
    Face f = rF();
    size_t fi = f.getIndex();
    log += str(" insertVertex(", fi, ")");
    auto ring = S.faces[fi];
    Vertex nv = m.insertVertex(f);
    Snap T = snap(m);
    Delta D(S, T);
    size_t n = ring.size();
    sizes(D, "insertVertex", 1, n, n - 1, 0, 0, 0);
    size_t v = *D.nv.begin();
    check(nv.getIndex() == v, "insertVertex-ret", "returned vertex is not the new one");
    std::set<size_t> t(ring.begin(), ring.end());
    frame(S, T, t, "insertVertex");
    edgesKept(S, T, "insertVertex");
    std::set<size_t> fs;
    for (size_t i = 0; i < n; i++) {
      size_t h = ring[i], l = T.h.at(h).next, tr = T.h.at(l).next;
      check(T.h.at(tr).next == h && D.nh.count(l) && D.nh.count(tr), "insertVertex-tri", "halfedge ", h, " is not in a triangle with the new vertex");
      check(T.h.at(tr).v == v && T.h.at(h).v == S.h.at(h).v && T.h.at(h).e == S.h.at(h).e && T.h.at(h).twin == S.h.at(h).twin, "insertVertex-tri", "triangle around the new vertex is wrong");
      fs.insert(T.h.at(h).f);
      check(T.h.at(h).f == fi || D.nf.count(T.h.at(h).f), "insertVertex-face", "unexpected face");
    }
    check(fs.size() == n, "insertVertex-face", "triangles share a face");
    done("insertVertex");
    finish("insertVertex");
  }

  void connect() {
    Face f = rF();
    auto ring = S.faces[f.getIndex()];
    size_t n = ring.size();
    size_t i = c.rng.below(n), j = c.rng.below(n);
    Halfedge hA(&m, ring[i]), hB(&m, ring[j]);
    bool other = c.rng.coin(0.05);
    if (other) hB = rE().halfedge();
    bool ok = hB.face() == f && hA != hB && hA.next() != hB && hB.next() != hA;
    log += str(" connect(", hA.getIndex(), ",", hB.getIndex(), ")");
    if (hB.face() == f)
      for (size_t k = 0; k < n; k++)
        if (ring[k] == hB.getIndex()) j = k;
    Halfedge r;
    try {
      r = m.connectVertices(hA, hB);
    } catch (std::exception&) {
      check(!ok, "connect-throws", "unexpected exception ;", log);
      rejected("connect");
      return;
    }
    check(ok, "connect-accepts", "accepted invalid arguments");
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "connect", 0, 1, 1, 0, 0, 0);
    size_t ri = r.getIndex(), nf = *D.nf.begin();
    check(D.nh.count(ri) && T.h.at(ri).v == S.h.at(ring[i]).v && T.h.at(T.h.at(ri).twin).v == S.h.at(ring[j]).v, "connect-ret", "returned halfedge has the wrong end points");
    check(T.h.at(T.h.at(ri).twin).f == nf && T.h.at(ri).f == f.getIndex(), "connect-ret", "he.twin().face() is not the new face");
    // new face holds hA..before hB then the new edge; old face the rest
    std::vector<size_t> pn, po;
    for (size_t k = i; k != j; k = (k + 1) % n) pn.push_back(ring[k]);
    for (size_t k = j; k != i; k = (k + 1) % n) po.push_back(ring[k]);
    pn.push_back(T.h.at(ri).twin);
    po.push_back(ri);
    check(canonPoly(T.faces[nf]) == canonPoly(pn), "connect-faces", "new face has the wrong halfedges ;", log);
    check(canonPoly(T.faces[f.getIndex()]) == canonPoly(po), "connect-faces", "old face has the wrong halfedges ;", log);
    frame(S, T, std::set<size_t>(ring.begin(), ring.end()), "connect");
    edgesKept(S, T, "connect");
    done("connect");
    finish("connect");
  }

  void triangulate() {
    Face f = rF();
    size_t fi = f.getIndex();
    auto ring = S.faces[fi];
    log += str(" triangulate(", fi, ")");
    size_t n = ring.size();
    std::vector<Face> r = m.triangulate(f);
    Snap T = snap(m);
    Delta D(S, T);
    if (n < 3) return;
    sizes(D, "triangulate", 0, n - 3, n - 3, 0, 0, 0);
    std::set<size_t> rs;
    for (Face g : r) rs.insert(g.getIndex());
    std::set<size_t> want = D.nf;
    want.insert(fi);
    check(rs == want && r.size() == n - 2, "triangulate-ret", "returned faces are not the sub-faces");
    std::set<size_t> hs;
    for (size_t g : rs) {
      check(T.faces[g].size() == 3, "triangulate-tri", "result is not a triangle");
      for (size_t h : T.faces[g]) hs.insert(h);
    }
    for (size_t h : ring) {
      check(hs.count(h) && T.h.at(h).v == S.h.at(h).v && T.h.at(h).e == S.h.at(h).e && T.h.at(h).twin == S.h.at(h).twin, "triangulate-ring", "outer halfedge changed");
    }
    check(hs.size() == n + 2 * (n - 3), "triangulate-ring", "unexpected halfedges");
    // triangles tile the polygon: the boundary of their union is the ring, in order
    frame(S, T, std::set<size_t>(ring.begin(), ring.end()), "triangulate");
    edgesKept(S, T, "triangulate");
    done("triangulate");
    finish("triangulate");
  }

  void switchSides() {
    Edge e = rE();
    if (e.isBoundary()) return; // would violate the interior-halfedge convention
    size_t ei = e.getIndex();
    log += str(" switch(", ei, ")");
    size_t h = e.halfedge().getIndex(), t = e.halfedge().twin().getIndex();
    if (S.h.at(h).next == t || S.h.at(t).next == h) return; // degree-one neighbourhood
    Halfedge r = m.switchHalfedgeSides(e);
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "switch", 0, 0, 0, 0, 0, 0);
    check(r.edge().getIndex() == ei && r == e.halfedge(), "switch-ret", "returned halfedge");
    check(T.h.at(h).v == S.h.at(t).v && T.h.at(t).v == S.h.at(h).v && T.h.at(h).f == S.h.at(t).f && T.h.at(t).f == S.h.at(h).f && T.h.at(h).next == S.h.at(t).next && T.h.at(t).next == S.h.at(h).next, "switch-swap", "halfedges did not trade places ;", log);
    for (auto& kv : S.faces)
      if (kv.first == S.h.at(h).f || kv.first == S.h.at(t).f) ringIs(T, kv.first, S.ringV(kv.first), "switch-faces", "face changed");
    std::set<size_t> touched = {h, t};
    addPrev(S, touched, h);
    addPrev(S, touched, t);
    frame(S, T, touched, "switch");
    edgesKept(S, T, "switch", {}, {ei});
    check(T.ends(ei) == S.ends(ei), "switch-edge", "edge end points changed");
    done("switch");
    finish("switch");
  }

  void removeEdge() {
    Edge e = rE();
    size_t ei = e.getIndex();
    log += str(" removeEdge(", ei, ")");
    size_t h = e.halfedge().getIndex(), t = e.halfedge().twin().getIndex();
    const Hrec x = S.h.at(h), y = S.h.at(t);
    bool bdy = !x.interior || !y.interior;
    if (!bdy && x.f != y.f && S.faces[x.f].size() == 1 && S.faces[y.f].size() == 1) return;
    Face r;
    try {
      r = m.removeEdge(e);
    } catch (std::exception&) {
      check(bdy, "removeEdge-throws", "unexpected exception ;", log);
      rejected("removeEdge");
      return;
    }
    check(!bdy, "removeEdge-bdy", "accepted a boundary edge");
    if (r == Face()) {
      check(x.f == y.f, "removeEdge-refused", "refused an edge between two distinct faces ;", log);
      rejected("removeEdge");
      return;
    }
    check(x.f != y.f, "removeEdge-same", "removed an edge with one face on both sides");
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "removeEdge", 0, 0, 0, 0, 1, 1);
    check(D.de.count(ei) && (D.df.count(x.f) || D.df.count(y.f)), "removeEdge-deleted", "wrong elements deleted");
    size_t keep = D.df.count(x.f) ? y.f : x.f;
    check(r.getIndex() == keep, "removeEdge-ret", "returned face is not the union");
    std::vector<size_t> ring;
    for (size_t q = x.next; q != h; q = S.h.at(q).next) ring.push_back(q);
    for (size_t q = y.next; q != t; q = S.h.at(q).next) ring.push_back(q);
    check(canonPoly(T.faces[keep]) == canonPoly(ring), "removeEdge-ring", "union face has the wrong halfedges ;", log);
    frame(S, T, heOfFaces(S, {x.f, y.f}), "removeEdge");
    edgesKept(S, T, "removeEdge");
    done("removeEdge");
    finish("removeEdge");
  }

  void removeVertex() {
    Vertex v = rV();
    size_t vi = v.getIndex();
    log += str(" removeVertex(", vi, ")");
    bool bdy = false;
    std::set<size_t> fs;
    std::vector<size_t> out;
    for (auto& kv : S.h)
      if (kv.second.v == vi) {
        out.push_back(kv.first);
        if (!kv.second.interior || !S.h.at(kv.second.twin).interior) bdy = true;
        if (kv.second.interior) fs.insert(kv.second.f);
      }
    Face r;
    try {
      r = m.removeVertex(v);
    } catch (std::exception&) {
      check(bdy, "removeVertex-throws", "unexpected exception ;", log);
      rejected("removeVertex");
      return;
    }
    check(!bdy, "removeVertex-bdy", "accepted a boundary vertex");
    // ring distinct?
    std::vector<size_t> ringAll;
    std::set<size_t> rv, re;
    bool distinct = fs.size() == out.size();
    std::set<size_t> oe;
    for (size_t o : out) {
      if (!oe.insert(S.h.at(o).e).second) distinct = false;
    }
    for (size_t f : fs)
      if (S.faces[f].size() < 3) distinct = false;
    for (size_t f : fs)
      for (size_t h : S.faces[f])
        if (S.h.at(h).v != vi && S.h.at(S.h.at(h).next).v != vi) ringAll.push_back(h);
    for (size_t h : ringAll) {
      if (!rv.insert(S.h.at(h).v).second) distinct = false;
      if (!re.insert(S.h.at(h).e).second) distinct = false;
    }
    // v and the ring must be simple
    if (r == Face()) {
      check(!distinct || ringAll.empty() || rv.size() != ringAll.size() || ringAll.size() < 3, "removeVertex-refused", "refused a vertex with a simple ring ;", log);
      rejected("removeVertex");
      return;
    }
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "removeVertex", 0, 0, 0, 1, out.size(), out.size() - 1);
    check(D.dv.count(vi) && fs.count(r.getIndex()) && T.faces.count(r.getIndex()), "removeVertex-ret", "wrong vertex deleted or wrong face returned");
    for (size_t e : D.de) check(oe.count(e), "removeVertex-edges", "deleted an edge not at the vertex");
    // ring: walk around v in the old mesh
    std::vector<size_t> ring;
    size_t o = out[0], start = o;
    std::vector<std::vector<size_t>> pieces;
    do {
      std::vector<size_t> piece;
      for (size_t q = S.h.at(o).next; S.h.at(S.h.at(q).next).v != vi || S.h.at(q).v == vi; q = S.h.at(q).next) {
        piece.push_back(q);
        if (piece.size() > 1000) break;
      }
      pieces.push_back(piece);
      // previous halfedge in face: the one pointing to v; its twin is the next outgoing counter-clockwise
      size_t p = o;
      while (S.h.at(p).next != o) p = S.h.at(p).next;
      o = S.h.at(p).twin;
    } while (o != start && pieces.size() < 10000);
    for (auto& p : pieces) ring.insert(ring.end(), p.begin(), p.end());
    check(canonPoly(T.faces[r.getIndex()]) == canonPoly(ring), "removeVertex-ring", "resulting face has the wrong halfedges ;", log);
    std::set<size_t> t;
    for (size_t f : fs)
      for (size_t h : S.faces[f]) t.insert(h);
    frame(S, T, t, "removeVertex");
    edgesKept(S, T, "removeVertex");
    done("removeVertex");
    finish("removeVertex");
  }

  void removeFace() {
    Face f = rF();
    size_t fi = f.getIndex();
    if (c.rng.coin(0.8))
      for (int k = 0; k < 10; k++) {
        bool b = false;
        for (size_t h : S.faces[fi]) b = b || !S.h.at(S.h.at(h).twin).interior;
        if (b) break;
        f = rF();
        fi = f.getIndex();
      }
    log += str(" removeFace(", fi, ")");
    auto ring = S.faces[fi];
    size_t nb = 0, hb = 0;
    bool innerB = false;
    std::set<size_t> fes;
    for (size_t h : ring) {
      if (!S.h.at(S.h.at(h).twin).interior) {
        nb++;
        hb = h;
      }
      fes.insert(S.h.at(h).e);
    }
    if (nb == 0) hb = ring[0];
    std::set<size_t> bverts;
    for (auto& kv : S.h)
      if (!kv.second.interior) bverts.insert(kv.second.v);
    std::vector<size_t> others; // vertices of the face not on its boundary edge
    for (size_t h : ring)
      if (S.h.at(h).v != S.h.at(hb).v && S.h.at(h).v != S.h.at(S.h.at(hb).twin).v) {
        others.push_back(S.h.at(h).v);
        if (bverts.count(S.h.at(h).v)) innerB = true;
      }
    std::set<size_t> rv;
    for (size_t h : ring) rv.insert(S.h.at(h).v);
    bool simple = rv.size() == ring.size() && fes.size() == ring.size();
    if (!simple) return;
    bool r;
    try {
      r = m.removeFaceAlongBoundary(f);
    } catch (std::exception&) {
      check(nb == 0, "removeFace-throws", "unexpected exception ;", log);
      rejected("removeFace");
      return;
    }
    check(nb > 0, "removeFace-interior", "accepted an interior face");
    bool can = nb == 1 && !innerB;
    if (!r) {
      check(!can, "removeFace-refused", "refused a removable face ;", log);
      rejected("removeFace");
      return;
    }
    check(can, "removeFace-accepts", "accepted a face whose removal is not a manifold ;", log);
    Snap T = snap(m);
    Delta D(S, T);
    sizes(D, "removeFace", 0, 0, 0, 0, 1, 1);
    check(D.de.count(S.h.at(hb).e) && D.df.count(fi), "removeFace-deleted", "wrong elements deleted");
    for (auto& kv : S.faces)
      if (kv.first != fi) ringIs(T, kv.first, S.ringV(kv.first), "removeFace-others", "other face changed");
    edgesKept(S, T, "removeFace", {}, {}, false);
    for (auto& kv : T.h)
      if (T.h.at(kv.second.twin).interior && kv.second.interior) check(!fes.count(kv.second.e), "removeFace-bdy", "edge of the removed face is not on the boundary");
    check(T.nLoops == S.nLoops, "removeFace-loops", "number of boundary loops changed");
    done("removeFace");
    finish("removeFace");
  }

  void collapse() {
    if (!simplicial(S)) return;
    Edge e = rE();
    size_t ei = e.getIndex();
    log += str(" collapse(", ei, ")");
    size_t u = S.edges[ei].first, v = S.edges[ei].second;
    std::set<size_t> bverts, nu, nv;
    for (auto& kv : S.h)
      if (!kv.second.interior) bverts.insert(kv.second.v);
    for (auto& kv : S.edges) {
      auto p = kv.second;
      if (p.first == u) nu.insert(p.second);
      if (p.second == u) nu.insert(p.first);
      if (p.first == v) nv.insert(p.second);
      if (p.second == v) nv.insert(p.first);
    }
    bool bE = e.isBoundary();
    std::set<size_t> common, opp, fdel;
    for (size_t x : nu)
      if (nv.count(x)) common.insert(x);
    for (auto& kv : S.faces) {
      auto r = S.ringV(kv.first);
      bool hu = false, hv = false;
      size_t o = 0;
      for (size_t x : r) {
        if (x == u) hu = true;
        else if (x == v) hv = true;
        else o = x;
      }
      if (hu && hv) {
        opp.insert(o);
        fdel.insert(kv.first);
      }
    }
    // link condition (with a cone vertex over each boundary)
    bool legal = common == opp;
    if (opp.size() == 1) { // an isolated triangle cannot be collapsed
      size_t f = *fdel.begin(), nb = 0;
      for (size_t h : S.faces.at(f)) nb += !S.h.at(S.h.at(h).twin).interior;
      if (nb == 3) legal = false;
    }
    if (!bE && bverts.count(u) && bverts.count(v)) legal = false;
    // a triangulated sphere may not be smaller than a tetrahedron, a disk than a triangle
    std::string why;
    Vertex r;
    bool threw = false;
    try {
      r = m.collapseEdgeTriangular(e);
    } catch (std::exception& ex) {
      threw = true;
      why = ex.what();
    }
    if (threw || r == Vertex()) {
      c.count(legal ? "collapse.refused-legal" : "collapse.refused-illegal");
      check(!legal, "collapse-refused", "refused a collapse which satisfies the link condition, edge ", u, "-", v, " ", why, " ;", log);
      rejected("collapse");
      return;
    }
    Snap T = snap(m);
    Delta D(S, T);
    size_t keep = r.getIndex();
    // which edge was collapsed: the given one, or (boundary ear) the library may pick another one of its triangle
    check(D.dv.size() == 1 && D.nv.empty() && D.nf.empty() && D.ne.empty(), "collapse-counts", "collapse creates elements or deletes other than one vertex");
    size_t gone = *D.dv.begin();
    bool sameEdge = (gone == u && keep == v) || (gone == v && keep == u);
    check(sameEdge, "collapse-ret", "returned vertex ", keep, " deleted ", gone, " edge was ", u, "-", v, " ;", log);
    check(legal, "collapse-illegal", "accepted a collapse which violates the link condition (edge ", u, "-", v, ") ;", log);
    check(D.df == fdel, "collapse-faces", "deleted faces are not those of the edge ;", log);
    check(D.de.size() == 1 + fdel.size() && D.de.count(ei), "collapse-counts", "edges deleted ", D.de.size());
    for (auto& kv : S.faces) {
      if (fdel.count(kv.first)) continue;
      auto p = S.ringV(kv.first);
      for (auto& x : p)
        if (x == gone) x = keep;
      ringIs(T, kv.first, p, "collapse-rings", "remaining face");
    }
    for (size_t o : opp) {
      size_t n = 0;
      for (size_t d : D.de) {
        auto p = S.ends(d);
        if (p == std::make_pair(std::min(u, o), std::max(u, o)) || p == std::make_pair(std::min(v, o), std::max(v, o))) n++;
      }
      check(n == 1, "collapse-edges", "not exactly one edge of each collapsed triangle deleted");
    }
    edgesKept(S, T, "collapse", {{gone, keep}}, {}, false);
    // two triangles (u,a,b) and (v,a,b) merge: only then may the result be a Delta-complex
    bool pillow = false;
    {
      std::map<std::set<size_t>, int> cnt;
      for (auto& kv : S.faces) {
        auto p = S.ringV(kv.first);
        if (fdel.count(kv.first)) continue;
        for (auto& x : p)
          if (x == gone) x = keep;
        if (++cnt[std::set<size_t>(p.begin(), p.end())] > 1) pillow = true;
      }
    }
    check(pillow || simplicial(T), "collapse-simplicial", "collapse result is not simplicial ;", log);
    // boundary vertices stay boundary
    std::set<size_t> b2, b1 = bverts;
    for (auto& kv : T.h)
      if (!kv.second.interior) b2.insert(kv.second.v);
    if (b1.count(gone)) {
      b1.erase(gone);
      b1.insert(keep);
    }
    check(b1 == b2, "collapse-boundary", "boundary vertices changed ;", log);
    done("collapse");
    finish("collapse");
  }

  void separate() {
    Edge e = rE();
    size_t ei = e.getIndex();
    log += str(" separate(", ei, ")");
    size_t h = e.halfedge().getIndex(), t = e.halfedge().twin().getIndex();
    const Hrec x = S.h.at(h), y = S.h.at(t);
    std::set<size_t> bverts;
    for (auto& kv : S.h)
      if (!kv.second.interior) bverts.insert(kv.second.v);
    bool bE = !x.interior || !y.interior, bu = bverts.count(x.v), bv = bverts.count(y.v);
    if (x.v == y.v) return;
    std::tuple<Halfedge, Halfedge> r;
    try {
      r = m.separateEdge(e);
    } catch (std::exception&) {
      check(bE || (bu && bv), "separate-throws", "unexpected exception ;", log);
      rejected("separate");
      return;
    }
    check(!bE && !(bu && bv), "separate-accepts", "accepted an unsupported edge");
    Snap T = snap(m);
    Delta D(S, T);
    size_t nvn = (bu || bv) ? 1 : 0;
    sizes(D, "separate", nvn, 1, 0, 0, 0, 0);
    check(T.nLoops == S.nLoops + (nvn ? 0 : 1), "separate-loops", "boundary loops ", S.nLoops, "->", T.nLoops);
    size_t r0 = std::get<0>(r).getIndex(), r1 = std::get<1>(r).getIndex();
    auto mp = [&](size_t q) { return q == h ? r0 : q == t ? r1 : q; };
    check(T.h.at(r0).interior && T.h.at(r1).interior && T.h.at(r0).f == x.f && T.h.at(r1).f == y.f && T.h.at(r0).next == mp(x.next) && T.h.at(r1).next == mp(y.next), "separate-ret", "returned halfedges do not take the place of the two sides ;", log);
    check(!T.h.at(T.h.at(r0).twin).interior && !T.h.at(T.h.at(r1).twin).interior && T.h.at(r0).e != T.h.at(r1).e, "separate-cut", "sides are not boundary edges now");
    // faces: same rings up to renaming of the split vertex in one contiguous fan
    size_t B = bu ? x.v : y.v, N = nvn ? *D.nv.begin() : INVALID_IND;
    size_t renamed = 0;
    for (auto& kv : S.faces) {
      auto p = S.ringV(kv.first), q = T.ringV(kv.first);
      bool ok = p.size() == q.size();
      if (ok) {
        bool any = false;
        // align on halfedge of ring start: compare all rotations
        for (size_t s = 0; s < p.size() && !any; s++) {
          bool o2 = true;
          size_t rn = 0;
          for (size_t k = 0; k < p.size(); k++) {
            size_t a = p[k], b = q[(k + s) % p.size()];
            if (a == b) continue;
            if (a == B && b == N) { rn++; continue; }
            o2 = false;
            break;
          }
          if (o2) { any = true; renamed += rn; }
        }
        ok = any;
      }
      check(ok, "separate-faces", "face ", kv.first, " was ", showPolys({p}), " now ", showPolys({q}), " ;", log);
    }
    if (nvn) check(renamed > 0, "separate-vertex", "the new vertex is unused");
    edgesKept(S, T, "separate", {}, [&]() { std::set<size_t> ex; ex.insert(ei); for (auto& kv : S.edges) if (nvn && (kv.second.first == B || kv.second.second == B)) ex.insert(kv.first); return ex; }(), false);
    done("separate");
    finish("separate");
  }

  void compress() {
    log += " compress";
    Polys p = facePolys(m);
    bool was = m.isCompressed();
    m.compress();
    check(m.isCompressed(), "compress-flag", "not compressed after compress()");
    Polys q = facePolys(m);
    check(p.size() == q.size(), "compress-faces", "face count");
    if (was) check(p == q, "compress-noop", "compress of a compressed mesh changed it");
    // order preserving relabelling
    std::map<size_t, size_t> mp;
    for (size_t v : S.verts) {
      size_t k = mp.size();
      mp[v] = k;
    }
    for (size_t f = 0; f < p.size(); f++) {
      for (auto& x : p[f]) x = mp.at(x);
      check(p[f] == q[f], "compress-faces", "face ", f, " changed ;", log);
    }
    finish("compress");
  }
};

void history(Ctx& c, int flavour) {
  MeshOpts o;
  o.tri = flavour != 1;
  o.maxScramble = 15;
  o.jit = 0;
  Soup s = randomManifold(c.rng, o);
  ManifoldSurfaceMesh m(s.polys);
  World w(c, m);
  c.note = s.desc + " " + showPolys(s.polys);
  size_t n = c.rng.range(4, c.thorough ? 60 : 25);
  for (size_t k = 0; k < n; k++) {
    if (m.nFaces() == 0) break;
    bool big = m.nFaces() > 160;
    if (flavour == 0) { // simplicial triangle meshes
      switch (c.rng.below(8)) {
      case 0: w.flip(); break;
      case 1: if (!big) w.splitCommon(true); break;
      case 2: if (!big) w.insertVertex(); break;
      case 3: case 4: w.collapse(); break;
      case 5: w.separate(); break;
      case 6: w.removeFace(); break;
      default: if (c.rng.coin(0.3)) w.compress(); else w.flip();
      }
    } else {
      switch (c.rng.below(14)) {
      case 0: case 1: w.flip(); break;
      case 2: if (!big) w.splitCommon(true); break;
      case 3: if (!big) w.splitCommon(false); break;
      case 4: if (!big) w.insertVertex(); break;
      case 5: case 6: w.connect(); break;
      case 7: w.triangulate(); break;
      case 8: w.switchSides(); break;
      case 9: w.removeEdge(); break;
      case 10: w.removeVertex(); break;
      case 11: w.removeFace(); break;
      case 12: w.separate(); break;
      default: if (c.rng.coin(0.3)) w.compress(); else w.removeEdge();
      }
    }
    c.sig(hashPolys(facePolys(m)));
  }
  c.note += " :: " + w.log;
  c.count("edits_applied", w.applied);
  c.count("edits_refused", w.refused);
}
} // namespace

int main(int argc, char** argv) {
  Suite S;
  S.add("simplicial", 4, [](Ctx& c) { history(c, 0); });
  S.add("polygon", 3, [](Ctx& c) { history(c, 1); });
  S.add("delta", 2, [](Ctx& c) { history(c, 2); });
  return run(S, argc, argv);
}
