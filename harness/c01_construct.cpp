// C01: construction from polygons yields exactly the described surface; every count, iterator and navigation agrees.
#include "meshcheck.h"
#include "geometrycentral/surface/halfedge_factories.h"
#include "geometrycentral/surface/surface_mesh_factories.h"
#include "geometrycentral/surface/vertex_position_geometry.h"
#include "geometrycentral/utilities/eigen_interop_helpers.h"
using namespace vf;

static void compareTopo(SurfaceMesh& m, const Soup& s, const Topo& t, bool manifold, const std::string& K) {
  check(m.nVertices() == t.nV, K + "-counts", "nVertices ", m.nVertices(), " expected ", t.nV);
  check(m.nFaces() == t.nF, K + "-counts", "nFaces ", m.nFaces(), " expected ", t.nF);
  check(m.nEdges() == t.nE, K + "-counts", "nEdges ", m.nEdges(), " expected ", t.nE);
  check(m.nCorners() == t.nCorners, K + "-counts", "nCorners ", m.nCorners(), " expected ", t.nCorners);
  check(m.nInteriorHalfedges() == t.nCorners, K + "-counts", "nInteriorHalfedges");
  if (manifold) {
    check(m.nHalfedges() == 2 * t.nE, K + "-counts", "nHalfedges");
    check(m.nBoundaryLoops() == t.nLoops, K + "-counts", "nBoundaryLoops ", m.nBoundaryLoops(), " expected ", t.nLoops);
    check(m.nExteriorHalfedges() == t.nBoundaryEdges, K + "-counts", "nExteriorHalfedges");
  } else {
    check(m.nHalfedges() == t.nCorners, K + "-counts", "nHalfedges general");
    check(m.nBoundaryLoops() == 0 && m.nExteriorHalfedges() == 0, K + "-counts", "general mesh with boundary loops");
  }
  check(m.isCompressed(), K + "-compressed", "fresh mesh not compressed");
  check(m.nConnectedComponents() == t.nComponents, K + "-components", "components");
  check(m.hasBoundary() == (t.nBoundaryEdges > 0), K + "-bdy", "hasBoundary");
  // faces preserve their order, vertex indices, orientation and starting corner
  Polys P = facePolys(m), L = m.getFaceVertexList();
  check(P.size() == s.polys.size() && L.size() == P.size(), K + "-faces", "face list size");
  for (size_t f = 0; f < P.size(); f++) {
    check(canonPoly(P[f]) == canonPoly(s.polys[f]), K + "-faces", "face ", f, " changed");
    check(canonPoly(L[f]) == canonPoly(s.polys[f]), K + "-faces", "getFaceVertexList face ", f, " changed");
    check(P[f] == s.polys[f], K + "-faces-start", "face ", f, " starts at a different corner");
  }
  for (Vertex v : m.vertices()) {
    check(v.isBoundary() == (bool)t.vIsBoundary[v.getIndex()], K + "-bdy", "vertex boundary flag ", v.getIndex());
    check(v.faceDegree() == t.vDegF[v.getIndex()], K + "-degree", "face degree");
    check(v.degree() == t.vDegE[v.getIndex()], K + "-degree", "degree");
  }
  // every reference edge is found, with the right sides
  size_t probes = 0;
  for (auto& e : t.edges) {
    if (++probes > 200) break;
    Edge q = m.connectingEdge(m.vertex(e.first.first), m.vertex(e.first.second));
    check(q != Edge(), K + "-connecting", "edge ", e.first.first, "-", e.first.second, " not found");
    check(q.degree() == e.second.size(), K + "-connecting", "edge degree");
    std::set<size_t> fs, rf;
    for (Face f : q.adjacentFaces()) fs.insert(f.getIndex());
    for (auto& x : e.second) rf.insert(x.first);
    check(fs == rf, K + "-connecting", "edge faces");
  }
}

static void manifoldCase(Ctx& c, bool tri, bool big) {
  MeshOpts o;
  o.tri = tri;
  if (big) o.maxScramble = 120;
  Soup s = randomManifold(c.rng, o);
  c.note = s.desc + " " + showPolys(s.polys);
  Topo t = analyze(s.polys, s.pos.size());
  check(t.manifold() && t.oriented && !t.hasDegenerate && !t.unreferenced, "generator", "bad generator output");
  ManifoldSurfaceMesh m(s.polys);
  fullCheck(m, "manifold", &c);
  compareTopo(m, s, t, true, "manifold");
  check(m.isManifold() && m.isEdgeManifold() && m.isOriented(), "manifold-status", "status flags");
  int chi = (int)t.nV - (int)t.nE + (int)t.nF + (int)t.nLoops; // each boundary loop counts as a face
  check(m.eulerCharacteristic() == chi, "manifold-euler", "euler characteristic ", m.eulerCharacteristic(), " expected ", chi);
  if (t.nComponents == 1) {
    int g = (2 - chi) / 2;
    check(m.genus() == g, "manifold-genus", "genus ", m.genus(), " expected ", g);
  }
  // the general representation describes the same surface
  SurfaceMesh gm(s.polys);
  fullCheck(gm, "general", &c);
  compareTopo(gm, s, t, false, "general");
  check(gm.isManifold() && gm.isEdgeManifold() && gm.isOriented(), "general-status", "general mesh of a manifold soup reports nonmanifold");
  auto vm = gm.getVertexManifoldStatus();
  auto em = gm.getEdgeManifoldStatus();
  auto eo = gm.getEdgeOrientedStatus();
  for (Vertex v : gm.vertices()) check(vm[v] && v.isManifold(), "general-status", "vertex manifold status");
  for (Edge e : gm.edges()) check(em[e] && eo[e], "general-status", "edge status");
  for (Vertex v : gm.vertices()) {
    if (!v.isBoundary()) check(v.isManifoldAndOriented(), "general-status", "interior vertex manifoldAndOriented");
  }
  // round trip general -> manifold
  auto mm = gm.toManifoldMesh();
  fullCheck(*mm, "tomanifold", &c);
  compareTopo(*mm, s, t, true, "tomanifold");
  // copies
  auto cp = m.copy();
  fullCheck(*cp, "copy", &c);
  compareTopo(*cp, s, t, true, "copy");
  auto cs = m.copyToSurfaceMesh();
  fullCheck(*cs, "copy2", &c);
  compareTopo(*cs, s, t, true, "copy2");
  auto gc = gm.copy();
  fullCheck(*gc, "copy3", &c);
  compareTopo(*gc, s, t, false, "copy3");
  c.sig(hashPolys(s.polys));
}

static void twinsCase(Ctx& c) {
  // explicit twin tables, including delta-complexes
  MeshOpts o;
  o.tri = c.rng.coin();
  o.multi = false;
  Soup s = randomManifold(c.rng, o);
  c.note = s.desc + " " + showPolys(s.polys);
  Topo t = analyze(s.polys, s.pos.size());
  std::vector<std::vector<std::tuple<size_t, size_t>>> tw(s.polys.size());
  for (size_t f = 0; f < s.polys.size(); f++) tw[f].assign(s.polys[f].size(), std::make_tuple(INVALID_IND, INVALID_IND));
  for (auto& e : t.edges)
    if (e.second.size() == 2) {
      auto a = e.second[0], b = e.second[1];
      tw[a.first][a.second] = std::make_tuple(b.first, b.second);
      tw[b.first][b.second] = std::make_tuple(a.first, a.second);
    }
  ManifoldSurfaceMesh m(s.polys, tw);
  fullCheck(m, "twins", &c);
  compareTopo(m, s, t, true, "twins");
  for (size_t f = 0; f < s.polys.size(); f++) {
    Halfedge h = m.face(f).halfedge();
    for (size_t i = 0; i < s.polys[f].size(); i++) {
      size_t of = std::get<0>(tw[f][i]);
      if (of == INVALID_IND) check(!h.twin().isInterior(), "twins-table", "boundary entry not boundary");
      else {
        Halfedge g = m.face(of).halfedge();
        for (size_t k = 0; k < std::get<1>(tw[f][i]); k++) g = g.next();
        check(h.twin() == g, "twins-table", "twin table not honoured");
      }
      h = h.next();
    }
  }
  c.sig(hashPolys(s.polys) ^ 77);
}

static bool deltaTry(Ctx& c);
static void deltaCase(Ctx& c) {
  for (int k = 0; k < 60; k++)
    if (deltaTry(c)) return;
  throw Skip("only self-edge gluings drawn");
}
static bool deltaTry(Ctx& c) {
  // random closed gluings of k triangles (orientable): pair up sides at random, vertices by union-find
  size_t k = 2 * (1 + c.rng.below(4));
  size_t n = 3 * k;
  std::vector<size_t> sides(n);
  std::iota(sides.begin(), sides.end(), 0);
  c.rng.shuffle(sides);
  bool open = c.rng.coin(0.4);
  std::vector<size_t> mate(n, INVALID_IND);
  for (size_t i = 0; i + 1 < n; i += 2)
    if (!(open && c.rng.coin(0.3))) {
      mate[sides[i]] = sides[i + 1];
      mate[sides[i + 1]] = sides[i];
    }
  auto nxt = [](size_t s) { return s % 3 == 2 ? s - 2 : s + 1; };
  UF uf(n); // corner at tail of side s
  for (size_t s = 0; s < n; s++)
    if (mate[s] != INVALID_IND) uf.unite(s, nxt(mate[s]));
  std::map<size_t, size_t> id;
  Polys P(k);
  for (size_t s = 0; s < n; s++) {
    size_t r = uf.find(s);
    if (!id.count(r)) {
      size_t q = id.size();
      id[r] = q;
    }
    P[s / 3].push_back(id[r]);
  }
  for (auto& f : P)
    if (f[0] == f[1] || f[1] == f[2] || f[2] == f[0]) return false; // self-edges are documented as rejected
  std::vector<std::vector<std::tuple<size_t, size_t>>> tw(k);
  size_t nE = 0, nB = 0;
  for (size_t s = 0; s < n; s++) {
    if (mate[s] == INVALID_IND) {
      tw[s / 3].push_back(std::make_tuple(INVALID_IND, INVALID_IND));
      nE += 2;
      nB++;
    } else {
      tw[s / 3].push_back(std::make_tuple(mate[s] / 3, mate[s] % 3));
      nE++;
    }
  }
  c.note = "delta " + showPolys(P);
  ManifoldSurfaceMesh m(P, tw);
  fullCheck(m, "delta", &c);
  check(m.nEdges() == nE / 2 && m.nFaces() == k && m.nVertices() == id.size(), "delta-counts", "delta complex counts");
  check(m.nExteriorHalfedges() == nB, "delta-counts", "delta complex boundary");
  for (size_t f = 0; f < k; f++) {
    Halfedge h = m.face(f).halfedge();
    for (size_t i = 0; i < 3; i++) {
      check(h.vertex().getIndex() == P[f][i], "delta-verts", "delta complex vertex");
      size_t mt = mate[3 * f + i];
      if (mt == INVALID_IND) check(!h.twin().isInterior(), "delta-twin", "boundary");
      else {
        Halfedge g = m.face(mt / 3).halfedge();
        for (size_t q = 0; q < mt % 3; q++) g = g.next();
        check(h.twin() == g, "delta-twin", "gluing not honoured");
      }
      h = h.next();
    }
  }
  auto cp = m.copy();
  fullCheck(*cp, "delta-copy", &c);
  c.sig(hashPolys(P) ^ n);
  return true;
}

static void soupCase(Ctx& c) {
  Soup s = randomSoup(c.rng);
  c.note = s.desc + " " + showPolys(s.polys);
  Topo t = analyze(s.polys, s.pos.size());
  SurfaceMesh m(s.polys);
  fullCheck(m, "soup", &c);
  compareTopo(m, s, t, false, "soup");
  // status queries against the reference analysis
  check(m.isEdgeManifold() == t.edgeManifold, "soup-status", "isEdgeManifold ", m.isEdgeManifold());
  auto em = m.getEdgeManifoldStatus();
  auto eo = m.getEdgeOrientedStatus();
  bool allOriented = true;
  for (Edge e : m.edges()) {
    size_t u = e.firstVertex().getIndex(), v = e.secondVertex().getIndex();
    auto& sd = t.edges.at({std::min(u, v), std::max(u, v)});
    check(em[e] == (sd.size() <= 2), "soup-status", "edge manifold status");
    bool orient = sd.size() == 1;
    if (sd.size() == 2) {
      auto tail = [&](std::pair<size_t, size_t> q) { return s.polys[q.first][q.second]; };
      orient = tail(sd[0]) != tail(sd[1]);
    }
    allOriented = allOriented && orient;
    if (sd.size() <= 2) check(eo[e] == orient, "soup-status", "edge oriented status");
  }
  if (t.edgeManifold) check(m.isOriented() == allOriented, "soup-status", "isOriented");
  check(m.isManifold() == t.manifold(), "soup-status", "isManifold ", m.isManifold(), " expected ", t.manifold());
  // construction as a manifold mesh succeeds exactly when the soup is an oriented manifold
  bool ok = t.manifold() && t.oriented;
  bool built = true;
  try {
    ManifoldSurfaceMesh mm(s.polys);
    fullCheck(mm, "soup-manifold", &c);
    if (ok) compareTopo(mm, s, t, true, "soup-manifold");
  } catch (Violation&) {
    throw;
  } catch (std::exception&) {
    built = false;
  }
  check(built == ok, ok ? "reject-valid" : "accept-invalid", ok ? "valid manifold rejected" : "nonmanifold or unoriented input accepted by the manifold constructor");
  bool conv = true;
  try {
    auto mm = m.toManifoldMesh();
    fullCheck(*mm, "soup-convert", &c);
    compareTopo(*mm, s, t, true, "soup-convert");
  } catch (Violation&) {
    throw;
  } catch (std::exception&) {
    conv = false;
  }
  check(conv == ok, "soup-convert", "toManifoldMesh ", conv, " expected ", ok);
  c.count(ok ? "soups_manifold" : "soups_nonmanifold");
  c.sig(hashPolys(s.polys) ^ 5);
}

static void rejectCase(Ctx& c) {
  MeshOpts o;
  o.tri = c.rng.coin();
  Soup s = randomManifold(c.rng, o);
  Rng& r = c.rng;
  size_t kind = r.below(7);
  bool generalToo = false;
  size_t f = r.below(s.polys.size());
  switch (kind) {
  case 0: s.polys[f].resize(r.below(3)); generalToo = true; break; // degree < 3
  case 1: { // duplicate face
    s.polys.push_back(s.polys[f]);
    break;
  }
  case 2: { // reversed face next to a neighbour
    Topo t = analyze(s.polys, s.pos.size());
    bool found = false;
    for (auto& e : t.edges)
      if (e.second.size() == 2) {
        auto& F = s.polys[e.second[0].first];
        std::reverse(F.begin(), F.end());
        found = true;
        break;
      }
    if (!found) throw Skip("no interior edge");
    // reversing one face of a two-face closed surface may still be consistent
    Topo t2 = analyze(s.polys, s.pos.size());
    if (t2.oriented && t2.manifold()) throw Skip("still oriented");
    break;
  }
  case 3: s.polys[f][r.below(s.polys[f].size())] = s.pos.size() + 1 + r.below(3); generalToo = true; { // gap in the vertex numbering
      Topo t = analyze(s.polys, s.pos.size() + 5);
      (void)t;
    }
    break;
  case 4: { // hourglass: two components meet in one vertex
    Soup b = randomBase(r, o.tri);
    size_t n = s.pos.size();
    s = mergeSoups(s, b, Vector3{5, 0, 0});
    for (auto& g : s.polys)
      for (auto& v : g)
        if (v == n) v = 0;
    compactVerts(s);
    break;
  }
  case 5: { // third face on an edge
    Topo t = analyze(s.polys, s.pos.size());
    bool found = false;
    for (auto& e : t.edges)
      if (e.second.size() == 2) {
        s.polys.push_back({e.first.first, e.first.second, s.pos.size()});
        s.pos.push_back(Vector3{0, 0, 5});
        found = true;
        break;
      }
    if (!found) throw Skip("no interior edge");
    break;
  }
  default: { // repeated consecutive vertex
    auto& F = s.polys[f];
    F.push_back(F.back());
    break;
  }
  }
  c.note = str("kind ", kind, " ", s.desc, " ", showPolys(s.polys));
  throws([&]() { ManifoldSurfaceMesh m(s.polys); }, str("accept-kind", kind), "invalid polygon list accepted");
  if (generalToo) throws([&]() { SurfaceMesh m(s.polys); }, str("accept-general-kind", kind), "invalid polygon list accepted by general mesh");
  c.count("rejections");
  c.sig(hashPolys(s.polys) ^ kind);
}

static void factoryCase(Ctx& c) {
  MeshOpts o;
  o.tri = true;
  Soup s = randomManifold(c.rng, o);
  c.note = s.desc;
  Topo t = analyze(s.polys, s.pos.size());
  std::vector<std::vector<Vector2>> uv;
  for (auto& f : s.polys) {
    std::vector<Vector2> q;
    for (size_t k = 0; k < f.size(); k++) q.push_back(Vector2{c.rng.u(), c.rng.u()});
    uv.push_back(q);
  }
  auto pos = [&](VertexPositionGeometry& g, SurfaceMesh& m, const char* w) {
    for (Vertex v : m.vertices()) check(g.vertexPositions[v] == s.pos[v.getIndex()] && g.inputVertexPositions[v] == s.pos[v.getIndex()], "factory-pos", "vertex position ", w);
  };
  {
    std::unique_ptr<ManifoldSurfaceMesh> m;
    std::unique_ptr<VertexPositionGeometry> g;
    std::tie(m, g) = makeManifoldSurfaceMeshAndGeometry(s.polys, s.pos);
    compareTopo(*m, s, t, true, "factory");
    pos(*g, *m, "manifold");
  }
  {
    std::unique_ptr<SurfaceMesh> m;
    std::unique_ptr<VertexPositionGeometry> g;
    std::tie(m, g) = makeSurfaceMeshAndGeometry(s.polys, s.pos);
    compareTopo(*m, s, t, false, "factory");
    pos(*g, *m, "general");
  }
  {
    auto q = makeParameterizedManifoldSurfaceMeshAndGeometry(s.polys, s.pos, uv);
    auto& m = *std::get<0>(q);
    pos(*std::get<1>(q), m, "param");
    compareTopo(m, s, t, true, "factory");
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        auto& F = s.polys[f.getIndex()];
        size_t k = std::find(F.begin(), F.end(), h.vertex().getIndex()) - F.begin();
        check((*std::get<2>(q))[h.corner()] == uv[f.getIndex()][k], "factory-uv", "corner coordinates");
      }
  }
  {
    auto q = makeParameterizedSurfaceMeshAndGeometry(s.polys, s.pos, uv);
    auto& m = *std::get<0>(q);
    pos(*std::get<1>(q), m, "param general");
    for (Face f : m.faces())
      for (Halfedge h : f.adjacentHalfedges()) {
        auto& F = s.polys[f.getIndex()];
        size_t k = std::find(F.begin(), F.end(), h.vertex().getIndex()) - F.begin();
        check((*std::get<2>(q))[h.corner()] == uv[f.getIndex()][k], "factory-uv", "corner coordinates general");
      }
  }
  {
    Eigen::MatrixXd Vm(s.pos.size(), 3);
    Eigen::Matrix<size_t, Eigen::Dynamic, 3> Fm(s.polys.size(), 3);
    Eigen::MatrixXi Fi(s.polys.size(), 3);
    for (size_t i = 0; i < s.pos.size(); i++)
      for (int k = 0; k < 3; k++) Vm(i, k) = s.pos[i][k];
    for (size_t i = 0; i < s.polys.size(); i++)
      for (int k = 0; k < 3; k++) {
        Fm(i, k) = s.polys[i][k];
        Fi(i, k) = (int)s.polys[i][k];
      }
    auto q = makeManifoldSurfaceMeshAndGeometry(Vm, Fm);
    compareTopo(*std::get<0>(q), s, t, true, "factory-eigen");
    pos(*std::get<1>(q), *std::get<0>(q), "eigen");
    auto q2 = makeSurfaceMeshAndGeometry(Vm, Fi);
    compareTopo(*std::get<0>(q2), s, t, false, "factory-eigen");
    pos(*std::get<1>(q2), *std::get<0>(q2), "eigen general");
    ManifoldSurfaceMesh m3(Fi);
    compareTopo(m3, s, t, true, "factory-eigen");
    SurfaceMesh m4(Fm);
    compareTopo(m4, s, t, false, "factory-eigen");
    auto FM = m3.getFaceVertexMatrix<size_t>();
    check((size_t)FM.rows() == s.polys.size() && FM.cols() == 3, "factory-fmat", "getFaceVertexMatrix shape");
    for (size_t i = 0; i < s.polys.size(); i++) {
      std::vector<size_t> row{FM(i, 0), FM(i, 1), FM(i, 2)};
      check(canonPoly(row) == canonPoly(s.polys[i]), "factory-fmat", "getFaceVertexMatrix row ", i);
    }
  }
  {
    auto q = makeHalfedgeAndGeometry(s.polys, s.pos);
    compareTopo(*std::get<0>(q), s, t, true, "factory-old");
    pos(*std::get<1>(q), *std::get<0>(q), "old");
    auto q2 = makeGeneralHalfedgeAndGeometry(s.polys, s.pos);
    compareTopo(*std::get<0>(q2), s, t, false, "factory-old");
  }
  c.sig(hashPolys(s.polys) ^ 99);
}

int main(int argc, char** argv) {
  Suite S;
  S.add("manifold-tri", 5, [](Ctx& c) { manifoldCase(c, true, false); });
  S.add("manifold-poly", 5, [](Ctx& c) { manifoldCase(c, false, false); });
  S.add("manifold-big", 1, [](Ctx& c) { manifoldCase(c, true, true); });
  S.add("twins", 3, twinsCase);
  S.add("delta", 4, deltaCase);
  S.add("soup", 8, soupCase);
  S.add("reject", 6, rejectCase);
  S.add("factory", 3, factoryCase);
  return run(S, argc, argv);
}
