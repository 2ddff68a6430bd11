// Mesh generators and an independent reference model of polygon-soup topology.
#pragma once
#include "vf.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"
#include <algorithm>
#include <numeric>
#include <unordered_map>

namespace vf {
using geometrycentral::Vector3;
using geometrycentral::Vector2;
typedef std::vector<std::vector<size_t>> Polys;

struct Soup {
  Polys polys;
  std::vector<Vector3> pos;
  std::string desc;
};

inline uint64_t hashPolys(const Polys& P) {
  uint64_t h = P.size();
  for (auto& f : P) {
    h = mix(h, 1000003 + f.size());
    for (size_t v : f) h = mix(h, v);
  }
  return h;
}
inline uint64_t hashD(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

// ---------- primitives
inline Soup tetra() {
  return {{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}, {Vector3{1, 1, 1}, Vector3{-1, 1, -1}, Vector3{1, -1, -1}, Vector3{-1, -1, 1}}, "tet"};
}
inline Soup cubeQuad() {
  return {{{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}},
          {Vector3{0, 0, 0}, Vector3{1, 0, 0}, Vector3{1, 1, 0}, Vector3{0, 1, 0}, Vector3{0, 0, 1}, Vector3{1, 0, 1}, Vector3{1, 1, 1}, Vector3{0, 1, 1}},
          "cube"};
}
inline Soup octa() {
  return {{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}},
          {Vector3{1, 0, 0}, Vector3{-1, 0, 0}, Vector3{0, 1, 0}, Vector3{0, -1, 0}, Vector3{0, 0, 1}, Vector3{0, 0, -1}},
          "octa"};
}
inline Soup icosa() {
  double p = (1 + std::sqrt(5.)) / 2;
  return {{{0, 11, 5}, {0, 5, 1}, {0, 1, 7}, {0, 7, 10}, {0, 10, 11}, {1, 5, 9}, {5, 11, 4}, {11, 10, 2}, {10, 7, 6}, {7, 1, 8}, {3, 9, 4}, {3, 4, 2}, {3, 2, 6}, {3, 6, 8}, {3, 8, 9}, {4, 9, 5}, {2, 4, 11}, {6, 2, 10}, {8, 6, 7}, {9, 8, 1}},
          {Vector3{-1, p, 0}, Vector3{1, p, 0}, Vector3{-1, -p, 0}, Vector3{1, -p, 0}, Vector3{0, -1, p}, Vector3{0, 1, p}, Vector3{0, -1, -p}, Vector3{0, 1, -p}, Vector3{p, 0, -1}, Vector3{p, 0, 1}, Vector3{-p, 0, -1}, Vector3{-p, 0, 1}},
          "icosa"};
}
// nu x nv torus of quads or triangles
inline Soup torus(size_t nu, size_t nv, bool tri, double R = 2, double r = 0.8) {
  Soup s;
  s.desc = str("torus", nu, "x", nv);
  for (size_t i = 0; i < nu; i++)
    for (size_t j = 0; j < nv; j++) {
      double a = 2 * M_PI * i / nu, b = 2 * M_PI * j / nv;
      s.pos.push_back(Vector3{(R + r * cos(b)) * cos(a), (R + r * cos(b)) * sin(a), r * sin(b)});
    }
  auto id = [&](size_t i, size_t j) { return (i % nu) * nv + (j % nv); };
  for (size_t i = 0; i < nu; i++)
    for (size_t j = 0; j < nv; j++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      if (tri) {
        s.polys.push_back({a, b, c});
        s.polys.push_back({a, c, d});
      } else
        s.polys.push_back({a, b, c, d});
    }
  return s;
}
// planar grid of (nx x ny) cells, tri or quad
inline Soup grid(size_t nx, size_t ny, bool tri) {
  Soup s;
  s.desc = str("grid", nx, "x", ny);
  for (size_t i = 0; i <= nx; i++)
    for (size_t j = 0; j <= ny; j++) s.pos.push_back(Vector3{(double)i, (double)j, 0});
  auto id = [&](size_t i, size_t j) { return i * (ny + 1) + j; };
  for (size_t i = 0; i < nx; i++)
    for (size_t j = 0; j < ny; j++) {
      size_t a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      if (tri) {
        if ((i + j) % 2) {
          s.polys.push_back({a, b, c});
          s.polys.push_back({a, c, d});
        } else {
          s.polys.push_back({a, b, d});
          s.polys.push_back({b, c, d});
        }
      } else
        s.polys.push_back({a, b, c, d});
    }
  return s;
}
inline Soup cylinder(size_t n, size_t h, bool tri) {
  Soup s;
  s.desc = str("cyl", n, "x", h);
  for (size_t j = 0; j <= h; j++)
    for (size_t i = 0; i < n; i++) s.pos.push_back(Vector3{cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), (double)j});
  for (size_t j = 0; j < h; j++)
    for (size_t i = 0; i < n; i++) {
      size_t a = j * n + i, b = j * n + (i + 1) % n, c = (j + 1) * n + (i + 1) % n, d = (j + 1) * n + i;
      if (tri) {
        s.polys.push_back({a, b, c});
        s.polys.push_back({a, c, d});
      } else
        s.polys.push_back({a, b, c, d});
    }
  return s;
}
inline Soup fan(size_t n) { // open disk: center + n rim, closed fan
  Soup s;
  s.desc = str("disk", n);
  s.pos.push_back(Vector3{0, 0, 0.3});
  for (size_t i = 0; i < n; i++) s.pos.push_back(Vector3{cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 0});
  for (size_t i = 0; i < n; i++) s.polys.push_back({0, 1 + i, 1 + (i + 1) % n});
  return s;
}
inline Soup bipyramid(size_t n) {
  Soup s;
  s.desc = str("bipyr", n);
  s.pos.push_back(Vector3{0, 0, 1});
  s.pos.push_back(Vector3{0, 0, -1});
  for (size_t i = 0; i < n; i++) s.pos.push_back(Vector3{cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 0});
  for (size_t i = 0; i < n; i++) {
    s.polys.push_back({0, 2 + i, 2 + (i + 1) % n});
    s.polys.push_back({1, 2 + (i + 1) % n, 2 + i});
  }
  return s;
}
inline Soup singlePoly(size_t n) {
  Soup s;
  s.desc = str("poly", n);
  std::vector<size_t> f;
  for (size_t i = 0; i < n; i++) {
    s.pos.push_back(Vector3{cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 0});
    f.push_back(i);
  }
  s.polys.push_back(f);
  return s;
}
// genus-2: two tori with one quad removed each, joined
inline Soup doubleTorus() {
  Soup a = torus(5, 5, false), s;
  size_t n = a.pos.size();
  s.desc = "genus2";
  s.pos = a.pos;
  for (auto p : a.pos) s.pos.push_back(Vector3{5.6 - p.x, p.y, p.z});
  // remove first quad of both and identify: quad q=(a,b,c,d) at i=0,j=0
  std::vector<size_t> q = a.polys[0];
  for (size_t f = 1; f < a.polys.size(); f++) s.polys.push_back(a.polys[f]);
  for (size_t f = 1; f < a.polys.size(); f++) {
    auto g = a.polys[f];
    std::reverse(g.begin(), g.end()); // mirrored copy
    for (auto& v : g) v += n;
    s.polys.push_back(g);
  }
  // bridge: quads joining q (orientation in A: a->b->c->d missing face) to mirrored
  for (int k = 0; k < 4; k++) {
    size_t u = q[k], v = q[(k + 1) % 4];
    s.polys.push_back({u, v, v + n, u + n});
  }
  return s;
}

inline Soup mergeSoups(const Soup& a, const Soup& b, Vector3 off) {
  Soup s = a;
  for (auto p : b.pos) s.pos.push_back(p + off);
  for (auto f : b.polys) {
    for (auto& v : f) v += a.pos.size();
    s.polys.push_back(f);
  }
  s.desc = a.desc + "+" + b.desc;
  return s;
}

// ---------- reference topology
struct Topo {
  size_t nV = 0, nF = 0, nE = 0, nCorners = 0;
  std::map<std::pair<size_t, size_t>, std::vector<std::pair<size_t, size_t>>> edges; // undirected -> (face, index) sides
  std::map<std::pair<size_t, size_t>, int> directed;
  bool edgeManifold = true, oriented = true, vertexManifold = true, hasDegenerate = false, unreferenced = false;
  size_t nBoundaryEdges = 0, nLoops = 0, nComponents = 0; // components of vertices connected via faces
  std::vector<char> vIsBoundary;
  std::vector<size_t> vDegF, vDegE;
  bool manifold() const { return edgeManifold && vertexManifold; }
};

struct UF {
  std::vector<size_t> p;
  explicit UF(size_t n) : p(n) { std::iota(p.begin(), p.end(), 0); }
  size_t find(size_t x) {
    while (p[x] != x) x = p[x] = p[p[x]];
    return x;
  }
  void unite(size_t a, size_t b) { p[find(a)] = find(b); }
};

inline Topo analyze(const Polys& P, size_t nV) {
  Topo t;
  t.nV = nV;
  t.nF = P.size();
  t.vIsBoundary.assign(nV, 0);
  t.vDegF.assign(nV, 0);
  t.vDegE.assign(nV, 0);
  UF comp(nV);
  std::vector<char> ref(nV, 0);
  for (size_t f = 0; f < P.size(); f++) {
    size_t d = P[f].size();
    if (d < 3) t.hasDegenerate = true;
    t.nCorners += d;
    std::set<size_t> uniq(P[f].begin(), P[f].end());
    if (uniq.size() != d) t.hasDegenerate = true;
    for (size_t i = 0; i < d; i++) {
      size_t u = P[f][i], v = P[f][(i + 1) % d];
      ref[u] = 1;
      t.vDegF[u]++;
      comp.unite(u, v);
      t.edges[{std::min(u, v), std::max(u, v)}].push_back({f, i});
      if (++t.directed[{u, v}] > 1) t.oriented = false;
    }
  }
  t.nE = t.edges.size();
  for (auto& e : t.edges) {
    t.vDegE[e.first.first]++;
    t.vDegE[e.first.second]++;
    if (e.second.size() > 2) t.edgeManifold = false;
    if (e.second.size() == 1) {
      t.nBoundaryEdges++;
      t.vIsBoundary[e.first.first] = t.vIsBoundary[e.first.second] = 1;
    }
  }
  for (size_t v = 0; v < nV; v++)
    if (!ref[v]) t.unreferenced = true;
  {
    std::set<size_t> roots;
    for (size_t v = 0; v < nV; v++)
      if (ref[v]) roots.insert(comp.find(v));
    t.nComponents = roots.size();
  }
  // vertex manifoldness: faces around v connected through edges at v
  std::vector<std::vector<size_t>> vf(nV); // corner ids
  std::vector<size_t> off(P.size() + 1, 0);
  for (size_t f = 0; f < P.size(); f++) {
    off[f + 1] = off[f] + P[f].size();
    for (size_t i = 0; i < P[f].size(); i++) vf[P[f][i]].push_back(off[f] + i);
  }
  UF corners(off.back());
  for (auto& e : t.edges)
    for (size_t k = 1; k < e.second.size(); k++) {
      auto a = e.second[0], b = e.second[k];
      for (size_t v : {e.first.first, e.first.second}) {
        auto cornerAt = [&](std::pair<size_t, size_t> s) {
          size_t d = P[s.first].size();
          return off[s.first] + (P[s.first][s.second] == v ? s.second : (s.second + 1) % d);
        };
        corners.unite(cornerAt(a), cornerAt(b));
      }
    }
  std::vector<size_t> fans(nV, 0);
  for (size_t v = 0; v < nV; v++) {
    std::set<size_t> r;
    for (size_t c : vf[v]) r.insert(corners.find(c));
    if (r.size() > 1) t.vertexManifold = false;
    fans[v] = r.size();
  }
  // boundary loops (only meaningful for oriented manifold)
  if (t.edgeManifold && t.vertexManifold && t.oriented) {
    std::map<size_t, size_t> nxt;
    for (auto& e : t.edges)
      if (e.second.size() == 1) {
        auto s = e.second[0];
        size_t u = P[s.first][s.second], v = P[s.first][(s.second + 1) % P[s.first].size()];
        nxt[v] = u;
      }
    std::set<size_t> seen;
    for (auto& kv : nxt) {
      if (seen.count(kv.first)) continue;
      t.nLoops++;
      size_t c = kv.first;
      while (seen.insert(c).second) c = nxt[c];
    }
  }
  return t;
}

inline void compactVerts(Soup& s) {
  std::vector<size_t> m(s.pos.size(), (size_t)-1);
  std::vector<Vector3> np;
  for (auto& f : s.polys)
    for (auto& v : f) {
      if (m[v] == (size_t)-1) {
        m[v] = np.size();
        np.push_back(s.pos[v]);
      }
      v = m[v];
    }
  s.pos = np;
}

// split vertices with several fans so that the soup becomes vertex-manifold (edges must be manifold)
inline void splitFans(Soup& s) {
  Topo t = analyze(s.polys, s.pos.size());
  std::vector<size_t> off(s.polys.size() + 1, 0);
  for (size_t f = 0; f < s.polys.size(); f++) off[f + 1] = off[f] + s.polys[f].size();
  UF corners(off.back());
  for (auto& e : t.edges)
    for (size_t k = 1; k < e.second.size(); k++)
      for (size_t v : {e.first.first, e.first.second}) {
        auto cornerAt = [&](std::pair<size_t, size_t> q) {
          size_t d = s.polys[q.first].size();
          return off[q.first] + (s.polys[q.first][q.second] == v ? q.second : (q.second + 1) % d);
        };
        corners.unite(cornerAt(e.second[0]), cornerAt(e.second[k]));
      }
  std::map<std::pair<size_t, size_t>, size_t> who;
  std::vector<char> used(s.pos.size(), 0);
  Polys orig = s.polys;
  for (size_t f = 0; f < orig.size(); f++)
    for (size_t i = 0; i < orig[f].size(); i++) {
      size_t v = orig[f][i], r = corners.find(off[f] + i);
      auto it = who.find({v, r});
      if (it == who.end()) {
        size_t nv = v;
        if (used[v]) {
          nv = s.pos.size();
          s.pos.push_back(s.pos[v]);
        }
        used[v] = 1;
        it = who.insert({{v, r}, nv}).first;
      }
      s.polys[f][i] = it->second;
    }
}

inline void triangulateSoup(Soup& s) {
  Polys out;
  for (auto& f : s.polys)
    for (size_t i = 1; i + 1 < f.size(); i++) out.push_back({f[0], f[i], f[i + 1]});
  s.polys = out;
}

// random edge flips / vertex insertions keeping a simplicial manifold triangle mesh
inline void scrambleTris(Soup& s, Rng& r, size_t nOps, double pInsert = 0.35) {
  for (size_t k = 0; k < nOps; k++) {
    if (r.coin(pInsert)) {
      size_t f = r.below(s.polys.size());
      auto p = s.polys[f];
      size_t v = s.pos.size();
      double a = r.uni(.2, 1), b = r.uni(.2, 1), c = r.uni(.2, 1);
      s.pos.push_back((a * s.pos[p[0]] + b * s.pos[p[1]] + c * s.pos[p[2]]) / (a + b + c));
      s.polys[f] = {p[0], p[1], v};
      s.polys.push_back({p[1], p[2], v});
      s.polys.push_back({p[2], p[0], v});
    } else {
      // flip
      std::map<std::pair<size_t, size_t>, size_t> de;
      size_t f = r.below(s.polys.size()), i = r.below(3);
      size_t u = s.polys[f][i], v = s.polys[f][(i + 1) % 3], w = s.polys[f][(i + 2) % 3];
      size_t g = (size_t)-1, x = 0;
      bool dup = false;
      for (size_t q = 0; q < s.polys.size(); q++)
        for (size_t j = 0; j < 3; j++)
          if (s.polys[q][j] == v && s.polys[q][(j + 1) % 3] == u) {
            g = q;
            x = s.polys[q][(j + 2) % 3];
          }
      if (g == (size_t)-1 || x == w) continue;
      for (auto& q : s.polys)
        for (size_t j = 0; j < 3; j++) {
          size_t a = q[j], b = q[(j + 1) % 3];
          if ((a == w && b == x) || (a == x && b == w)) dup = true;
        }
      if (dup) continue;
      s.polys[f] = {w, x, v};
      s.polys[g] = {x, w, u};
    }
  }
}

inline void jitter(Soup& s, Rng& r, double amt) {
  for (auto& p : s.pos) p += Vector3{r.uni(-amt, amt), r.uni(-amt, amt), r.uni(-amt, amt)};
}

// merge pairs of adjacent faces into bigger polygons (random), keeping a proper polygon mesh
inline void mergePolys(Soup& s, Rng& r, size_t tries) {
  for (size_t k = 0; k < tries; k++) {
    size_t f = r.below(s.polys.size());
    auto& F = s.polys[f];
    size_t i = r.below(F.size()), u = F[i], v = F[(i + 1) % F.size()];
    for (size_t g = 0; g < s.polys.size(); g++) {
      if (g == f) continue;
      auto& G = s.polys[g];
      size_t common = 0;
      for (size_t x : G)
        if (std::find(F.begin(), F.end(), x) != F.end()) common++;
      if (common != 2) continue;
      size_t j = 0;
      for (; j < G.size(); j++)
        if (G[j] == v && G[(j + 1) % G.size()] == u) break;
      if (j == G.size()) continue;
      // F: ... u v ... ; G: ... v u ... ; new: v..u (F) then after u (G) .. before v
      std::vector<size_t> N;
      for (size_t a = 0; a < F.size(); a++) N.push_back(F[(i + 1 + a) % F.size()]);     // v ... u
      for (size_t a = 2; a < G.size(); a++) N.push_back(G[(j + a) % G.size()]);         // after u ... before v
      s.polys[f] = N;
      s.polys.erase(s.polys.begin() + g);
      break;
    }
  }
  compactVerts(s);
}

inline void removeFaces(Soup& s, Rng& r, double p) {
  Polys keep;
  for (auto& f : s.polys)
    if (!r.coin(p)) keep.push_back(f);
  if (keep.empty()) keep.push_back(s.polys[0]);
  s.polys = keep;
  compactVerts(s);
  splitFans(s);
}

inline void permuteSoup(Soup& s, Rng& r) {
  std::vector<size_t> m(s.pos.size());
  std::iota(m.begin(), m.end(), 0);
  r.shuffle(m);
  std::vector<Vector3> np(s.pos.size());
  for (size_t i = 0; i < m.size(); i++) np[m[i]] = s.pos[i];
  s.pos = np;
  for (auto& f : s.polys) {
    for (auto& v : f) v = m[v];
    std::rotate(f.begin(), f.begin() + r.below(f.size()), f.end());
  }
  r.shuffle(s.polys);
}

inline Soup randomBase(Rng& r, bool tri, bool allowClosed = true, bool allowOpen = true) {
  while (true) {
    size_t k = r.below(12);
    bool closed = k < 7;
    if (closed && !allowClosed) continue;
    if (!closed && !allowOpen) continue;
    switch (k) {
    case 0: return tetra();
    case 1: {
      Soup s = cubeQuad();
      if (tri) triangulateSoup(s);
      return s;
    }
    case 2: return octa();
    case 3: return icosa();
    case 4: return torus(3 + r.below(4), 3 + r.below(4), tri);
    case 5: return bipyramid(3 + r.below(5));
    case 6: {
      Soup s = doubleTorus();
      if (tri) triangulateSoup(s);
      return s;
    }
    case 7: return grid(1 + r.below(4), 1 + r.below(4), tri);
    case 8: return cylinder(3 + r.below(4), 1 + r.below(3), tri);
    case 9: return fan(3 + r.below(5));
    case 10: {
      if (tri) return singlePoly(3);
      return singlePoly(3 + r.below(4));
    }
    default: {
      Soup s = grid(3 + r.below(3), 3 + r.below(3), tri);
      // punch hole in the middle
      s.polys.erase(s.polys.begin() + s.polys.size() / 2);
      compactVerts(s);
      splitFans(s);
      return s;
    }
    }
  }
}

struct MeshOpts {
  bool tri = true;
  bool closed = true, open = true;
  bool multi = true;
  size_t maxScramble = 25;
  double jit = 0.05;
  bool holes = true;
  bool permute = true;
};

// random oriented manifold mesh
inline Soup randomManifold(Rng& r, const MeshOpts& o) {
  Soup s = randomBase(r, o.tri, o.closed, o.open);
  bool isTri = true;
  for (auto& f : s.polys) isTri = isTri && f.size() == 3;
  if (isTri && o.maxScramble > 0 && r.coin(0.8)) scrambleTris(s, r, r.below(o.maxScramble + 1));
  if (!o.tri && r.coin(0.6)) mergePolys(s, r, 1 + r.below(8));
  if (o.holes && o.open && r.coin(0.35)) removeFaces(s, r, r.uni(0.02, 0.5));
  if (o.multi && r.coin(0.15)) {
    Soup t = randomBase(r, o.tri, o.closed, o.open);
    s = mergeSoups(s, t, Vector3{10, 0, 0});
  }
  if (o.jit > 0) jitter(s, r, o.jit);
  if (o.permute && r.coin(0.7)) permuteSoup(s, r);
  s.desc += str(" V", s.pos.size(), " F", s.polys.size());
  return s;
}

// canonical form of a polygon: rotation with the smallest entry first
inline std::vector<size_t> canonPoly(std::vector<size_t> f) {
  if (f.empty()) return f;
  auto best = f;
  for (size_t i = 1; i < f.size(); i++) {
    std::rotate(f.begin(), f.begin() + 1, f.end());
    if (f < best) best = f;
  }
  return best;
}
inline Polys canonPolys(Polys P) {
  for (auto& f : P) f = canonPoly(f);
  std::sort(P.begin(), P.end());
  return P;
}
inline std::string showPolys(const Polys& P) {
  std::ostringstream o;
  for (size_t i = 0; i < P.size() && i < 60; i++) {
    o << "(";
    for (size_t k = 0; k < P[i].size(); k++) o << (k ? "," : "") << P[i][k];
    o << ")";
  }
  if (P.size() > 60) o << "...";
  return o.str();
}
inline Soup randomSoup(Rng& r) {
  // nonmanifold / unoriented polygon soup: every vertex referenced, faces have distinct vertices
  Soup s;
  size_t nV = 4 + r.below(8), nF = 1 + r.below(14);
  if (r.coin()) {
    MeshOpts o;
    o.tri = r.coin();
    s = randomManifold(r, o);
    size_t extra = r.below(4);
    for (size_t k = 0; k < extra; k++) {
      std::vector<size_t> f;
      size_t d = 3 + r.below(2);
      while (f.size() < d && f.size() < s.pos.size()) {
        size_t v = r.below(s.pos.size());
        if (std::find(f.begin(), f.end(), v) == f.end()) f.push_back(v);
      }
      if (f.size() >= 3) s.polys.push_back(f);
    }
    for (auto& f : s.polys)
      if (r.coin(0.2)) std::reverse(f.begin(), f.end());
    if (r.coin(0.3)) { // glue two random vertices
      size_t a = r.below(s.pos.size()), b = r.below(s.pos.size());
      bool ok = a != b;
      for (auto& f : s.polys) {
        bool ha = std::find(f.begin(), f.end(), a) != f.end(), hb = std::find(f.begin(), f.end(), b) != f.end();
        if (ha && hb) ok = false;
      }
      if (ok) {
        for (auto& f : s.polys)
          for (auto& v : f)
            if (v == b) v = a;
        compactVerts(s);
      }
    }
    s.desc += " mangled";
  } else {
    for (size_t i = 0; i < nV; i++) s.pos.push_back(Vector3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)});
    for (size_t k = 0; k < nF; k++) {
      std::vector<size_t> all(nV);
      std::iota(all.begin(), all.end(), 0);
      r.shuffle(all);
      all.resize(3 + r.below(std::min<size_t>(3, nV - 2)));
      s.polys.push_back(all);
    }
    compactVerts(s);
    s.desc = "soup";
  }
  return s;
}

} // namespace vf
