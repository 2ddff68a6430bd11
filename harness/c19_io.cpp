// C19: mesh and point cloud readers and writers.
#include "geohelp.h"
#include "mutops.h"
#include "geometrycentral/pointcloud/point_cloud_io.h"
#include "geometrycentral/surface/meshio.h"
#include "geometrycentral/surface/rich_surface_mesh_data.h"
#include "geometrycentral/surface/simple_polygon_mesh.h"
#include <cstdio>
#include <fstream>
#include <unistd.h>
using namespace vf;

// ---------------------------------------------------------------------------------------------------------------------
// scratch files
struct Scratch {
  std::string dir;
  std::vector<std::string> files;
  Scratch() {
    const char* t = getenv("TMPDIR");
    std::string s = std::string(t ? t : "/tmp") + "/vf_c19_XXXXXX";
    std::vector<char> b(s.begin(), s.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) throw Skip("no scratch directory");
    dir = b.data();
  }
  std::string file(const std::string& n) {
    files.push_back(dir + "/" + n);
    return files.back();
  }
  ~Scratch() {
    for (auto& f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
};
static std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  check(bool(in), "file-missing", "the writer left no file ", f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
static void spit(const std::string& f, const std::string& d) {
  std::ofstream o(f, std::ios::binary);
  o << d;
}
struct Hush { // the OBJ writer prints to cout
  std::ostringstream s;
  std::streambuf* o;
  Hush() : o(std::cout.rdbuf(s.rdbuf())) {}
  ~Hush() { std::cout.rdbuf(o); }
};

// ---------------------------------------------------------------------------------------------------------------------
// data
struct Data {
  Polys polys;
  std::vector<Vector3> pos;
  std::vector<std::vector<Vector2>> uv; // empty, or one per corner
};
static double anyDouble(Rng& r) {
  switch (r.below(8)) {
  case 0: return 0.;
  case 1: return -0.;
  case 2: return (double)r.range(-5, 5);
  case 3: return std::ldexp(r.uni(-1, 1), (int)r.range(-300, 300));
  case 4: return r.uni(-1, 1) * 1e-7;
  case 5: return r.range(-1000, 1000) / 8.;
  default: return r.normal();
  }
}
static Data someData(Ctx& c, bool uv) {
  Rng& r = c.rng;
  Data d;
  if (r.coin(0.6)) {
    MeshOpts o;
    o.tri = r.coin(0.4);
    Soup s = randomManifold(r, o);
    d.polys = s.polys;
    d.pos = s.pos;
  } else {
    Soup s = randomSoup(r);
    d.polys = s.polys;
    d.pos = s.pos;
  }
  if (r.coin(0.4))
    for (auto& p : d.pos) p = Vector3{anyDouble(r), anyDouble(r), anyDouble(r)};
  if (uv)
    for (auto& f : d.polys) {
      d.uv.emplace_back();
      for (size_t i = 0; i < f.size(); i++) d.uv.back().push_back(Vector2{anyDouble(r), anyDouble(r)});
    }
  c.sig(hashPolys(d.polys));
  return d;
}
static bool same(double a, double b) { return a == b; }
static bool sameV(Vector3 a, Vector3 b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
static void samePolys(const Polys& got, const Polys& want, const std::string& key, const std::string& w) {
  if (got == want) return;
  fail(key, w, ": ", got.size(), " polygons ", showPolys(got), " expected ", want.size(), " ", showPolys(want));
}
static void samePos(const std::vector<Vector3>& got, const std::vector<Vector3>& want, const std::string& key, const std::string& w) {
  check(got.size() == want.size(), key, w, ": ", got.size(), " positions, expected ", want.size());
  for (size_t i = 0; i < got.size(); i++) check(sameV(got[i], want[i]), key, w, ": position ", i, " is ", got[i], " expected ", want[i]);
}
static void sameUV(const std::vector<std::vector<Vector2>>& got, const std::vector<std::vector<Vector2>>& want, const std::string& key, const std::string& w) {
  check(got.size() == want.size(), key, w, ": texture coordinates for ", got.size(), " faces, expected ", want.size());
  for (size_t i = 0; i < got.size(); i++) {
    check(got[i].size() == want[i].size(), key, w, ": ", got[i].size(), " texture coordinates on face ", i, ", expected ", want[i].size());
    for (size_t j = 0; j < got[i].size(); j++)
      check(same(got[i][j].x, want[i][j].x) && same(got[i][j].y, want[i][j].y), key, w, ": texture coordinate ", i, ",", j, " is ", got[i][j], " expected ", want[i][j]);
  }
}
static std::string num(Rng& r, double x) {
  char b[64];
  switch (r.below(4)) {
  case 0: snprintf(b, sizeof b, "%.17e", x); break;
  case 1: snprintf(b, sizeof b, "%.17G", x); break;
  default: snprintf(b, sizeof b, "%.17g", x);
  }
  return (x >= 0 && b[0] != '-' && r.coin(0.05)) ? "+" + std::string(b) : b;
}

// ---------------------------------------------------------------------------------------------------------------------
// OBJ text in arbitrary legal layout
struct Layout {
  Rng& r;
  std::string eol;
  bool blank, tabs, comments;
  explicit Layout(Rng& r_) : r(r_) {
    eol = r.coin(0.3) ? "\r\n" : "\n";
    blank = r.coin(0.3);
    tabs = r.coin(0.2);
    comments = r.coin(0.4);
  }
  std::string sp() { return tabs && r.coin() ? "\t" : r.coin(0.1) ? "  " : " "; }
  std::string tail() { return r.coin(0.05) ? sp() : ""; }
};
static std::string objText(Ctx& c, Data& d, bool& sparseUV) {
  Rng& r = c.rng;
  Layout L(r);
  std::ostringstream o;
  int hasN = r.coin(0.4);
  bool rel = r.coin(0.3), relU = r.coin(0.3), cont = r.coin(0.3), inter = r.coin(0.4), weights = r.coin(0.2), shareUV = r.coin(0.5);
  sparseUV = !d.uv.empty() && r.coin(0.25);
  std::vector<std::string> lines;
  auto noise = [&]() {
    if (L.comments && r.coin(0.1)) lines.push_back(std::vector<std::string>{"# comment f 1 2 3", "#", " # v 1 2 3", "#c:\\dir\\", "# v\\"}[r.below(5)]);
    if (L.blank && r.coin(0.1)) lines.push_back(r.coin() ? "" : " ");
    if (r.coin(0.03)) lines.push_back(std::vector<std::string>{"g group 1", "o obj", "usemtl m", "s off", "s 1", "mtllib a.mtl", "l 1 2", "p 1"}[r.below(8)]);
  };
  size_t nv = 0, nt = 0, nn = 0;
  auto putV = [&](size_t i) {
    Vector3 p = d.pos[i];
    lines.push_back("v" + L.sp() + num(r, p.x) + L.sp() + num(r, p.y) + L.sp() + num(r, p.z) + (weights ? L.sp() + "1.0" : "") + L.tail());
    nv++;
    noise();
  };
  if (L.comments) lines.push_back("# header");
  noise();
  size_t next = 0;
  if (!inter)
    while (next < d.pos.size()) putV(next++);
  for (size_t f = 0; f < d.polys.size(); f++) {
    size_t need = 0;
    for (size_t v : d.polys[f]) need = std::max(need, v + 1);
    while (next < need) putV(next++);
    std::vector<size_t> ti;
    bool faceUV = !d.uv.empty();
    if (faceUV && sparseUV && r.coin(0.3)) {
      faceUV = false;
      for (auto& x : d.uv[f]) x = Vector2{0, 0};
    }
    if (faceUV)
      for (size_t j = 0; j < d.polys[f].size(); j++) {
        if (shareUV && nt > 0 && r.coin(0.2)) { // reuse the last coordinate
          Vector2 last{0, 0};
          bool ok = false;
          for (size_t g = f + 1; g-- > 0 && !ok;)
            if (!d.uv[g].empty() && !(g == f && j == 0)) {
              size_t k = g == f ? j - 1 : d.uv[g].size() - 1;
              if (g == f || ti.empty()) last = d.uv[g][k], ok = g == f;
            }
          if (ok) {
            d.uv[f][j] = last;
            ti.push_back(ti.back());
            continue;
          }
        }
        if (d.uv[f][j].y == 0 && r.coin(0.3)) {
          d.uv[f][j].y = 0;
          lines.push_back("vt" + L.sp() + num(r, d.uv[f][j].x));
        } else lines.push_back("vt" + L.sp() + num(r, d.uv[f][j].x) + L.sp() + num(r, d.uv[f][j].y) + (r.coin(0.1) ? " 0" : ""));
        nt++;
        ti.push_back(nt);
      }
    if (hasN && (nn == 0 || r.coin(0.5))) lines.push_back("vn 0 0 1"), nn++;
    std::string s = "f";
    for (size_t j = 0; j < d.polys[f].size(); j++) {
      long v = (long)d.polys[f][j] + 1;
      if (cont && r.coin(0.2)) s += std::string(r.coin() ? " " : "") + "\\" + L.eol;
      s += L.sp() + std::to_string(rel ? v - (long)nv - 1 : v);
      if (faceUV) s += "/" + std::to_string(relU ? (long)ti[j] - (long)nt - 1 : (long)ti[j]);
      if (hasN) s += std::string(faceUV ? "/" : "//") + std::to_string(rel ? -1 : (long)nn);
    }
    lines.push_back(s + L.tail());
    noise();
  }
  while (next < d.pos.size()) putV(next++);
  for (size_t i = 0; i < lines.size(); i++) o << lines[i] << ((i + 1 < lines.size() || r.coin(0.7)) ? L.eol : "");
  if (nt == 0) d.uv.clear();
  c.count(str("obj layout", rel ? " relative" : "", hasN ? " normals" : "", cont ? " continued" : ""));
  return o.str();
}

static void objRead(Ctx& c) {
  Data d = someData(c, c.rng.coin());
  bool sparse;
  std::string t = objText(c, d, sparse);
  c.note = t.substr(0, 300);
  SimplePolygonMesh m;
  if (c.rng.coin(0.2)) { // reading discards what was there
    m.polygons = {{0, 1, 2}};
    m.vertexCoordinates = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
    m.paramCoordinates = {{{0, 0}, {1, 0}, {0, 1}}};
  }
  if (c.rng.coin(0.8)) {
    std::istringstream in(t);
    m.readMeshFromFile(in, "obj");
  } else {
    Scratch s;
    std::string f = s.file(c.rng.coin() ? "a.obj" : "b.c.OBJ");
    spit(f, t);
    std::string type;
    m.readMeshFromFile(f, "", type);
    check(type == "obj", "obj-detect", "type ", type);
  }
  samePolys(m.polygons, d.polys, "obj-polygons", "OBJ file");
  samePos(m.vertexCoordinates, d.pos, "obj-positions", "OBJ file");
  sameUV(m.paramCoordinates, d.uv, "obj-uv", sparse ? "OBJ file with some texture coordinates" : "OBJ file");
  check(m.hasParameterization() == !d.uv.empty(), "obj-uv", "hasParameterization");
  // and what was read survives a round trip
  std::ostringstream o;
  m.writeMesh(o, "obj");
  std::istringstream in2(o.str());
  SimplePolygonMesh m2(in2, "obj");
  samePolys(m2.polygons, d.polys, "obj-polygons", "rewritten OBJ file");
  samePos(m2.vertexCoordinates, d.pos, "obj-positions", "rewritten OBJ file");
  sameUV(m2.paramCoordinates, d.uv, "obj-uv", "rewritten OBJ file");
}

// an independent strict parser for what the writers produce
struct ObjFile {
  Data d;
  std::vector<Vector2> vt;
  std::vector<Vector3> vn;
  std::vector<std::vector<std::array<long, 3>>> faces;
};
static ObjFile strictObj(const std::string& t) {
  ObjFile o;
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream s(l);
    std::string k;
    s >> k;
    auto d = [&]() {
      std::string w;
      check(bool(s >> w), "writer-format", "missing number in line ", l);
      char* e;
      double x = strtod(w.c_str(), &e);
      check(*e == 0, "writer-format", "bad number in line ", l);
      return x;
    };
    if (k == "v") { double x = d(), y = d(), z = d(); o.d.pos.push_back(Vector3{x, y, z}); }
    else if (k == "vt") { double x = d(), y = d(); o.vt.push_back(Vector2{x, y}); }
    else if (k == "vn") { double x = d(), y = d(), z = d(); o.vn.push_back(Vector3{x, y, z}); }
    else if (k == "f") {
      o.faces.emplace_back();
      o.d.polys.emplace_back();
      std::string w;
      while (s >> w) {
        std::array<long, 3> ix{{0, 0, 0}};
        int p = 0;
        std::string cur;
        w += "/";
        for (char ch : w) {
          if (ch == '/') {
            check(p < 3, "writer-format", "too many indices: ", l);
            if (!cur.empty()) ix[p] = std::stol(cur);
            cur.clear();
            p++;
          } else cur += ch;
        }
        check(ix[0] >= 1 && ix[1] >= 0 && ix[2] >= 0, "writer-format", "bad index: ", l);
        o.faces.back().push_back(ix);
        o.d.polys.back().push_back(ix[0] - 1);
      }
    } else fail("writer-format", "unknown line ", l);
    std::string rest;
    check(!(s >> rest), "writer-format", "extra tokens: ", l);
  }
  for (auto& f : o.faces)
    for (auto& x : f) {
      check((size_t)x[0] <= o.d.pos.size(), "writer-format", "face uses vertex ", x[0], " of ", o.d.pos.size());
      check((size_t)x[1] <= o.vt.size(), "writer-format", "face uses texture coordinate ", x[1], " of ", o.vt.size());
      check((size_t)x[2] <= o.vn.size(), "writer-format", "face uses normal ", x[2], " of ", o.vn.size());
    }
  return o;
}
static void uvFromFile(const ObjFile& o, const std::vector<std::vector<Vector2>>& want, const std::string& w) {
  std::vector<std::vector<Vector2>> got;
  for (auto& f : o.faces) {
    got.emplace_back();
    for (auto& x : f) {
      if (want.empty()) {
        check(x[1] == 0, "writer-uv", w, ": refers to texture coordinates");
        continue;
      }
      check(x[1] > 0, "writer-uv", w, ": corner without a texture coordinate");
      got.back().push_back(o.vt[x[1] - 1]);
    }
  }
  if (want.empty()) check(o.vt.empty(), "writer-uv", w, ": texture coordinates written");
  else sameUV(got, want, "writer-uv", w);
}

// meshes through the writers and back
static void meshRoundTrip(Ctx& c) {
  Rng& r = c.rng;
  Hush hush;
  GeoOpts go;
  go.tri = r.coin(0.4);
  GeoMesh g = geoMesh(c, go);
  std::unique_ptr<SurfaceMesh> gm;
  std::unique_ptr<VertexPositionGeometry> gg;
  SurfaceMesh* m = g.mesh.get();
  VertexPositionGeometry* geo = g.geom.get();
  bool general = r.coin(0.35);
  if (general) {
    Soup s = randomSoup(r);
    gm.reset(new SurfaceMesh(s.polys));
    std::ostringstream log;
    for (size_t k = r.below(4); k > 0; k--) generalEdit(c, *gm, log);
    gg.reset(new VertexPositionGeometry(*gm));
    m = gm.get();
    geo = gg.get();
    c.count("general meshes");
  }
  for (Vertex v : m->vertices())
    if (general || r.coin(0.3)) geo->vertexPositions[v] = Vector3{anyDouble(r), anyDouble(r), anyDouble(r)};
  geo->refreshQuantities();
  if (!m->isCompressed()) c.count("uncompressed meshes");
  // expected content, in iteration order
  Data want;
  std::map<size_t, size_t> ix;
  for (Vertex v : m->vertices()) {
    ix[v.getIndex()] = want.pos.size();
    want.pos.push_back(geo->vertexPositions[v]);
  }
  CornerData<Vector2> tex(*m, Vector2{7, 7});
  CornerData<Vector3> nor(*m, Vector3{7, 7, 7});
  std::vector<std::vector<Vector3>> wantN;
  for (Corner k : m->corners()) tex[k] = Vector2{anyDouble(r), anyDouble(r)}, nor[k] = randUnit(r);
  for (Face f : m->faces()) {
    want.polys.emplace_back();
    want.uv.emplace_back();
    wantN.emplace_back();
    Halfedge h0 = f.halfedge(), h = h0;
    do {
      want.polys.back().push_back(ix[h.vertex().getIndex()]);
      want.uv.back().push_back(tex[h.corner()]);
      wantN.back().push_back(nor[h.corner()]);
      h = h.next();
    } while (h != h0);
  }
  c.sig(hashPolys(want.polys));
  Scratch sc;
  int mode = (int)r.below(4); // 0 plain, 1 uv, 2 normals, 3 both
  std::string text, w;
  bool legacy = mode >= 2 || r.coin(0.4);
  std::string file = sc.file("m.obj");
  if (legacy) {
    bool ok = mode == 0   ? WavefrontOBJ::write(file, *geo)
              : mode == 1 ? WavefrontOBJ::write(file, *geo, tex)
              : mode == 2 ? WavefrontOBJ::write(file, *geo, nor)
                          : WavefrontOBJ::write(file, *geo, tex, nor);
    check(ok, "writer-result", "WavefrontOBJ::write returned false");
    text = slurp(file);
    w = str("WavefrontOBJ mode ", mode);
    check(!WavefrontOBJ::write(sc.dir + "/missing/x.obj", *geo), "writer-result", "writing to a missing directory succeeded");
  } else {
    bool stream = r.coin();
    if (stream) {
      std::ostringstream o;
      if (mode == 0) writeSurfaceMesh(*m, *geo, o, "obj");
      else writeSurfaceMesh(*m, *geo, tex, o, "obj");
      text = o.str();
      spit(file, text);
    } else {
      std::string type = r.coin() ? "" : "obj";
      if (mode == 0) writeSurfaceMesh(*m, *geo, file, type);
      else writeSurfaceMesh(*m, *geo, tex, file, type);
      text = slurp(file);
    }
    w = "writeSurfaceMesh";
    throws([&] { writeSurfaceMesh(*m, *geo, sc.dir + "/missing/x.obj"); }, "writer-result", "writing to a missing directory");
    std::ostringstream o;
    throws([&] { writeSurfaceMesh(*m, *geo, o, "off"); }, "writer-type", "unsupported type");
  }
  c.count(w);
  ObjFile of = strictObj(text);
  samePolys(of.d.polys, want.polys, "writer-polygons", w);
  samePos(of.d.pos, want.pos, "writer-positions", w);
  uvFromFile(of, mode & 1 ? want.uv : std::vector<std::vector<Vector2>>(), w);
  if (mode >= 2) {
    for (size_t f = 0; f < of.faces.size(); f++)
      for (size_t j = 0; j < of.faces[f].size(); j++) {
        check(of.faces[f][j][2] > 0, "writer-normals", "corner without normal");
        check(sameV(of.vn[of.faces[f][j][2] - 1], wantN[f][j]), "writer-normals", "normal of corner ", f, ",", j);
      }
  } else check(of.vn.empty(), "writer-normals", "unexpected normals");
  // unused vertices are dropped on reading
  Data back = want;
  {
    std::vector<char> used(back.pos.size(), 0);
    for (auto& f : back.polys)
      for (size_t v : f) used[v] = 1;
    std::vector<size_t> ni(back.pos.size());
    std::vector<Vector3> np;
    for (size_t i = 0; i < used.size(); i++)
      if (used[i]) ni[i] = np.size(), np.push_back(back.pos[i]);
    back.pos = np;
    for (auto& f : back.polys)
      for (size_t& v : f) v = ni[v];
  }
  auto compare = [&](SurfaceMesh& q, VertexPositionGeometry& qg, CornerData<Vector2>* qt, const std::string& rd) {
    fullCheck(q, "read-mesh", &c);
    std::vector<Vector3> qp;
    for (Vertex v : q.vertices()) qp.push_back(qg.vertexPositions[v]);
    samePolys(q.getFaceVertexList(), back.polys, "read-polygons", rd);
    samePos(qp, back.pos, "read-positions", rd);
    if (qt) {
      std::vector<std::vector<Vector2>> u;
      for (Face f : q.faces()) {
        u.emplace_back();
        Halfedge h0 = f.halfedge(), h = h0;
        do {
          u.back().push_back((*qt)[h.corner()]);
          h = h.next();
        } while (h != h0);
      }
      sameUV(u, back.uv, "read-uv", rd);
    }
    c.count(rd);
  };
  bool degenerate = false, selfEdge = false;
  for (auto& f : back.polys) {
    std::set<size_t> s(f.begin(), f.end());
    degenerate = degenerate || f.size() < 3 || s.size() != f.size();
  }
  (void)selfEdge;
  if (degenerate) return;
  Topo tp = analyze(back.polys, back.pos.size());
  {
    auto rd = r.coin() ? readSurfaceMesh(file, r.coin() ? "" : "obj") : [&] { std::ifstream in(file); return readSurfaceMesh(in, "obj"); }();
    compare(*std::get<0>(rd), *std::get<1>(rd), nullptr, "readSurfaceMesh");
  }
  if (mode & 1) {
    auto rd = readParameterizedSurfaceMesh(file);
    compare(*std::get<0>(rd), *std::get<1>(rd), std::get<2>(rd).get(), "readParameterizedSurfaceMesh");
  }
  if (tp.edgeManifold && tp.vertexManifold && tp.oriented) {
    auto rd = r.coin(0.3)  ? loadMesh(file)
              : r.coin()   ? readManifoldSurfaceMesh(file)
                           : [&] { std::ifstream in(file); return readManifoldSurfaceMesh(in, "obj"); }();
    compare(*std::get<0>(rd), *std::get<1>(rd), nullptr, "readManifoldSurfaceMesh");
    if (mode & 1) {
      auto rp = readParameterizedManifoldSurfaceMesh(file);
      compare(*std::get<0>(rp), *std::get<1>(rp), std::get<2>(rp).get(), "readParameterizedManifoldSurfaceMesh");
    }
  } else if (!tp.edgeManifold || !tp.oriented) {
    throws([&] { readManifoldSurfaceMesh(file); }, "read-nonmanifold", "nonmanifold mesh as a manifold mesh ", showPolys(back.polys));
    c.count("nonmanifold rejected");
  }
}

// ---------------------------------------------------------------------------------------------------------------------
// STL
static float anyFloat(Rng& r) { return r.coin(0.2) ? (float)r.range(-4, 4) : r.coin(0.1) ? (float)std::ldexp(r.uni(-1, 1), (int)r.range(-60, 60)) : (float)r.normal(); }
static std::string stlBytes(Ctx& c, Polys& polys, std::vector<Vector3>& pos, std::vector<char>& flip, bool& binary) {
  Rng& r = c.rng;
  binary = r.coin();
  MeshOpts mo;
  mo.tri = true;
  Soup s = randomManifold(r, mo);
  for (auto& p : s.pos) {
    p = Vector3{(float)p.x, (float)p.y, (float)p.z};
    if (r.coin(0.02)) p = Vector3{anyFloat(r), anyFloat(r), anyFloat(r)};
  }
  polys = s.polys;
  pos = s.pos;
  std::ostringstream o;
  std::string header = "binary stl made by a test";
  header.resize(80, r.coin() ? ' ' : '\0');
  Layout L(r);
  bool upper = r.coin(0.1);
  uint32_t n = (uint32_t)polys.size();
  if (binary) {
    o.write(header.data(), 80);
    o.write((char*)&n, 4);
  } else o << (upper ? "SOLID" : "solid") << (r.coin() ? " some name" : "") << L.eol;
  int style = (int)r.below(3); // normals: zero, right, some opposite
  std::string ind = r.coin(0.7) ? "  " : L.tabs ? "\t" : "";
  for (auto& f : polys) {
    Vector3 nrm = cross(pos[f[1]] - pos[f[0]], pos[f[2]] - pos[f[0]]);
    double len = norm(nrm);
    bool fl = style == 2 && r.coin(0.4) && std::isfinite(len) && len > 1e-10;
    Vector3 w = style == 0 || !(len > 1e-10) || !std::isfinite(len) ? Vector3{0, 0, 0} : nrm / len;
    if (fl) w = -w;
    flip.push_back(fl);
    if (binary) {
      auto put = [&](Vector3 p) {
        float x[3] = {(float)p.x, (float)p.y, (float)p.z};
        o.write((char*)x, 12);
      };
      put(w);
      for (size_t v : f) put(pos[v]);
      uint16_t a = (uint16_t)r.next();
      o.write((char*)&a, 2);
    } else {
      o << ind << "facet normal " << num(r, w.x) << L.sp() << num(r, w.y) << L.sp() << num(r, w.z) << L.tail() << L.eol;
      if (L.blank && r.coin(0.1)) o << L.eol;
      o << ind << ind << "outer loop" << L.eol;
      for (size_t v : f) o << ind << ind << ind << "vertex" << L.sp() << num(r, pos[v].x) << L.sp() << num(r, pos[v].y) << L.sp() << num(r, pos[v].z) << L.eol;
      o << ind << ind << "endloop" << L.eol << ind << "endfacet" << L.eol;
    }
  }
  if (!binary) o << "endsolid" << (r.coin() ? " some name" : "") << (r.coin() ? L.eol : "");
  return o.str();
}
static void stlRead(Ctx& c) {
  Rng& r = c.rng;
  Polys polys;
  std::vector<Vector3> pos;
  std::vector<char> flip;
  bool binary;
  std::string t = stlBytes(c, polys, pos, flip, binary);
  c.note = binary ? "binary" : t.substr(0, 200);
  SimplePolygonMesh m;
  Scratch sc;
  if (r.coin(0.8)) {
    std::istringstream in(t);
    m.readMeshFromFile(in, "stl");
  } else {
    std::string f = sc.file("a.stl");
    spit(f, t);
    m.readMeshFromFile(f);
  }
  c.count(binary ? "stl binary" : "stl ascii");
  c.sig(hashPolys(polys));
  check(m.polygons.size() == polys.size(), "stl-polygons", m.polygons.size(), " polygons of ", polys.size());
  check(m.vertexCoordinates.size() == 3 * polys.size(), "stl-positions", "corners ", m.vertexCoordinates.size());
  for (size_t f = 0; f < polys.size(); f++) {
    std::vector<size_t> w = polys[f];
    std::vector<Vector3> wp{pos[w[0]], pos[w[1]], pos[w[2]]};
    if (flip[f]) std::reverse(wp.begin(), wp.end());
    check(m.polygons[f].size() == 3, "stl-polygons", "degree ", m.polygons[f].size());
    bool ok = false;
    for (int k = 0; k < 3; k++) {
      bool e = true;
      for (int i = 0; i < 3; i++) e = e && m.polygons[f][i] < m.vertexCoordinates.size() && sameV(m.vertexCoordinates[m.polygons[f][i]], wp[(i + k) % 3]);
      ok = ok || e;
    }
    check(ok, "stl-facet", "facet ", f, " differs", flip[f] ? " (normal opposite)" : "");
  }
  // readSurfaceMesh merges the corners at equal positions
  std::map<std::array<double, 3>, size_t> id;
  Polys merged;
  std::vector<Vector3> mp;
  bool degenerate = false;
  for (auto& f : m.polygons) {
    merged.emplace_back();
    for (size_t v : f) merged.back().push_back(v);
  }
  std::vector<size_t> rep(m.vertexCoordinates.size());
  for (size_t i = 0; i < rep.size(); i++) {
    Vector3 p = m.vertexCoordinates[i];
    auto it = id.emplace(std::array<double, 3>{{p.x + 0., p.y + 0., p.z + 0.}}, mp.size());
    if (it.second) mp.push_back(p);
    rep[i] = it.first->second;
  }
  for (auto& f : merged) {
    for (size_t& v : f) v = rep[v];
    degenerate = degenerate || f[0] == f[1] || f[1] == f[2] || f[0] == f[2];
  }
  SimplePolygonMesh mm = m;
  mm.mergeIdenticalVertices();
  samePolys(mm.polygons, merged, "merge-identical", "merged");
  samePos(mm.vertexCoordinates, mp, "merge-identical", "merged");
  if (degenerate) return;
  std::istringstream in(t);
  auto rd = readSurfaceMesh(in, "stl");
  samePolys(std::get<0>(rd)->getFaceVertexList(), merged, "stl-mesh", "readSurfaceMesh");
  size_t i = 0;
  for (Vertex v : std::get<0>(rd)->vertices()) check(sameV(std::get<1>(rd)->vertexPositions[v], mp[i++]), "stl-mesh", "position ", i - 1);
}

// ---------------------------------------------------------------------------------------------------------------------
// OFF
static std::string offText(Ctx& c, Data& d) {
  Rng& r = c.rng;
  Layout L(r);
  std::ostringstream o;
  auto noise = [&]() {
    if (L.comments && r.coin(0.1)) o << (r.coin() ? "# comment" : "  # 1 2 3") << L.eol;
    if (L.blank && r.coin(0.1)) o << (r.coin() ? "" : " ") << L.eol;
  };
  if (L.comments && r.coin(0.3)) o << "# first" << L.eol;
  bool colors = r.coin(0.3), hdr = r.coin(0.2);
  o << "OFF" << (hdr ? L.sp() : L.eol);
  if (!hdr) noise();
  o << d.pos.size() << L.sp() << d.polys.size() << (r.coin(0.8) ? L.sp() + std::to_string(r.below(100)) : "") << L.tail() << L.eol;
  for (auto& p : d.pos) {
    noise();
    o << (r.coin(0.1) ? L.sp() : "") << num(r, p.x) << L.sp() << num(r, p.y) << L.sp() << num(r, p.z) << (colors ? " 255 0 0 255" : "") << L.tail() << L.eol;
  }
  for (size_t f = 0; f < d.polys.size(); f++) {
    noise();
    o << d.polys[f].size();
    if (r.coin(0.2)) o << L.sp();
    for (size_t v : d.polys[f]) o << L.sp() << v;
    if (colors) o << " 0.5 0.5 0.5";
    o << L.tail();
    if (f + 1 < d.polys.size() || r.coin(0.7)) o << L.eol;
  }
  return o.str();
}
static void offRead(Ctx& c) {
  Data d = someData(c, false);
  std::string t = offText(c, d);
  c.note = t.substr(0, 300);
  std::istringstream in(t);
  SimplePolygonMesh m(in, "off");
  samePolys(m.polygons, d.polys, "off-polygons", "OFF file");
  samePos(m.vertexCoordinates, d.pos, "off-positions", "OFF file");
  check(!m.hasParameterization(), "off-uv", "texture coordinates");
  c.count("off files");
}

// ---------------------------------------------------------------------------------------------------------------------
// malformed input: an exception or data, never memory errors
static void consume(SimplePolygonMesh& m) { // touch everything which was read
  double s = 0;
  for (auto& p : m.vertexCoordinates) s += p.x + p.y + p.z;
  for (auto& f : m.polygons)
    for (size_t v : f) s += (double)(v % 7);
  for (auto& f : m.paramCoordinates)
    for (auto& x : f) s += x.x;
  volatile double sink = s;
  (void)sink;
}
static std::string corrupt(Rng& r, std::string t, bool binary) {
  for (size_t k = 1 + r.below(3); k > 0 && !t.empty(); k--) switch (r.below(binary ? 4 : 9)) {
    case 0: t.resize(r.below(t.size())); break;
    case 1: t[r.below(t.size())] = (char)r.below(256); break;
    case 2: t.erase(r.below(t.size()), 1 + r.below(6)); break;
    case 3: t.insert(r.below(t.size() + 1), std::string(1 + r.below(4), (char)r.below(256))); break;
    default: { // token edits
      size_t i = r.below(t.size());
      while (i < t.size() && !isspace((unsigned char)t[i])) i++;
      size_t b = i;
      while (b < t.size() && isspace((unsigned char)t[b])) b++;
      size_t e = b;
      while (e < t.size() && !isspace((unsigned char)t[e])) e++;
      static const std::vector<std::string> words{"", "0", "-1", "99999999", "4000000000", "18446744073709551615", "99999999999999999999999", "1e999", "nan", "x", "1/2/3/4/5/6/7/8", "/", "//", "-9/-9/-9", "\\", "#", "1.5", "vertex", "endloop", "endfacet", "endsolid", "facet", "OFF", "f", "v", "vt", "\n", "\n\n", "\r", "1/", "/1", "-"};
      if (b < t.size()) t.replace(b, e - b, r.pick(words));
    }
    }
  return t;
}
static void garbage(Ctx& c) {
  Rng& r = c.rng;
  int kind = (int)r.below(4);
  std::string t, type;
  bool binary = false;
  if (kind == 0) {
    Data d = someData(c, r.coin());
    bool sp;
    t = objText(c, d, sp);
    type = "obj";
  } else if (kind == 1) {
    Data d = someData(c, false);
    t = offText(c, d);
    type = "off";
  } else {
    Polys p;
    std::vector<Vector3> v;
    std::vector<char> f;
    t = stlBytes(c, p, v, f, binary);
    type = "stl";
  }
  bool cut = r.coin(0.3);
  std::string full = t;
  if (cut) t.resize(r.below(t.size()));
  else if (r.coin(0.05)) {
    t.clear();
    for (size_t k = r.below(200); k > 0; k--) t += (char)r.below(256);
    binary = false;
  } else t = corrupt(r, t, binary);
  c.note = type + ": " + oneLine(t).substr(0, 300);
  bool threw = false;
  std::istringstream in(t);
  SimplePolygonMesh m;
  try {
    m.readMeshFromFile(in, type);
  } catch (std::exception&) {
    threw = true;
  }
  if (!threw) {
    consume(m);
    check(m.paramCoordinates.empty() || m.paramCoordinates.size() == m.polygons.size(), "garbage-uv", "texture coordinates out of correspondence");
    for (size_t i = 0; i < m.paramCoordinates.size(); i++) check(m.paramCoordinates[i].size() == m.polygons[i].size(), "garbage-uv", "texture coordinates of face ", i);
    if (cut && binary && t.size() + 2 < full.size()) fail("truncated-accepted", "a truncated binary STL file was read without an error (", t.size(), " of ", full.size(), " bytes)");
    if (cut && type == "stl" && !binary && full.find("endsolid") >= t.size()) fail("truncated-accepted", "a truncated ASCII STL file was read without an error");
    // the mesh constructors must cope with whatever came out
    std::istringstream in2(t);
    try {
      auto q = readSurfaceMesh(in2, type);
      for (auto& f : std::get<0>(q)->getFaceVertexList())
        for (size_t v : f) check(v < std::get<0>(q)->nVertices(), "garbage-mesh", "index");
      c.count("garbage meshes built");
    } catch (Violation&) {
      throw;
    } catch (std::exception&) {
      c.count("garbage meshes rejected");
    }
    SimplePolygonMesh k = m;
    k.stripInvalidFaces();
    for (auto& f : k.polygons) {
      std::set<size_t> s(f.begin(), f.end());
      check(f.size() >= 3 && s.size() == f.size() && *s.rbegin() < k.nVertices(), "strip-invalid", "invalid face left");
    }
    check(k.paramCoordinates.empty() || k.paramCoordinates.size() == k.polygons.size(), "strip-invalid", "texture coordinates out of correspondence");
  } else if (cut && type == "off") c.count("truncated off rejected");
  c.sig(hashD((double)t.size()));
  c.count(str("garbage ", type, threw ? " exception" : " read"));
}
static void unsupported(Ctx& c) {
  Rng& r = c.rng;
  Scratch sc;
  SimplePolygonMesh m;
  std::string f = sc.file("a.xyz"), g = sc.file("noext"), e = sc.file("empty.obj");
  spit(f, "v 0 0 0\n");
  spit(g, "v 0 0 0\n");
  spit(e, "");
  throws([&] { m.readMeshFromFile(f); }, "unsupported", "extension xyz");
  throws([&] { m.readMeshFromFile(g); }, "unsupported", "no extension");
  throws([&] { m.readMeshFromFile(sc.dir + "/missing.obj"); }, "unsupported", "missing file");
  throws([&] { m.readMeshFromFile(f, "foo"); }, "unsupported", "type foo");
  std::istringstream in("v 0 0 0");
  throws([&] { m.readMeshFromFile(in, "OBJX"); }, "unsupported", "stream type");
  throws([&] { readSurfaceMesh(sc.dir + "/missing.obj"); }, "unsupported", "readSurfaceMesh of a missing file");
  throws([&] { readManifoldSurfaceMesh(f); }, "unsupported", "readManifoldSurfaceMesh");
  throws([&] { m.writeMesh(sc.file("w.off")); }, "unsupported", "write off");
  m.readMeshFromFile(f, "obj"); // the given type wins
  check(m.nVertices() == 1 && m.nFaces() == 0, "unsupported", "explicit type");
  m.readMeshFromFile(e);
  check(m.nVertices() == 0 && m.nFaces() == 0, "unsupported", "empty file");
  // index out of range
  for (std::string t : {"v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 4\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 0\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 -4\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 x\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2\n", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 2\n", "v 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"}) {
    std::istringstream i(t);
    throws([&] { readManifoldSurfaceMesh(i, "obj"); }, "malformed", t);
  }
  for (std::string t : {"OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 3\n", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1\n", "OFF\n3 1 0\n0 0 0\n1 0\n0 1 0\n3 0 1 2\n", "OFF\n4 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", "OF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 2\n", "OFF\nx y\n", "OFF\n3 1 0\n0 0 0\n1 0 0\n0 1 0\n3 0 1 x\n"}) {
    std::istringstream i(t);
    throws([&] { readManifoldSurfaceMesh(i, "off"); }, "malformed", t);
  }
  c.count("unsupported");
  c.sig(r.next());
}

// ---------------------------------------------------------------------------------------------------------------------
// rich PLY data
template <class E> static MeshData<E, double> rnd(SurfaceMesh& m, Rng& r) {
  MeshData<E, double> d(m, 99.);
  for (E e : iterateElements<E>(&m)) d[e] = anyDouble(r);
  return d;
}
template <class E, class T> static void cmp(SurfaceMesh& a, MeshData<E, T>& x, SurfaceMesh& b, MeshData<E, T> y, const char* w) {
  std::vector<T> p, q;
  for (E e : iterateElements<E>(&a)) p.push_back(x[e]);
  for (E e : iterateElements<E>(&b)) q.push_back(y[e]);
  check(p.size() == q.size(), "rich-data", w, " count ", q.size(), " of ", p.size());
  for (size_t i = 0; i < p.size(); i++) check(p[i] == q[i], "rich-data", w, " value ", i, " differs");
}
struct RichSrc {
  std::unique_ptr<SurfaceMesh> mesh;
  bool manifold;
};
static RichSrc richMesh(Ctx& c) {
  Rng& r = c.rng;
  RichSrc s;
  s.manifold = r.coin(0.6);
  std::ostringstream log;
  if (s.manifold) {
    MeshOpts o;
    o.tri = r.coin();
    std::unique_ptr<ManifoldSurfaceMesh> m;
    try {
      m.reset(new ManifoldSurfaceMesh(randomManifold(r, o).polys));
    } catch (std::exception&) {
      throw Skip("not manifold");
    }
    if (r.coin(0.6)) {
      for (size_t k = r.below(12); k > 0; k--) {
        try {
          manifoldEdit(c, *m, log);
        } catch (std::exception&) {
          throw Skip("edit");
        }
      }
    }
    s.mesh = std::move(m);
  } else {
    s.mesh.reset(new SurfaceMesh(randomSoup(r).polys));
    for (size_t k = r.below(6); k > 0; k--) generalEdit(c, *s.mesh, log);
  }
  if (r.coin(0.2)) s.mesh->compress();
  c.note = log.str();
  return s;
}
static void rich(Ctx& c) {
  Rng& r = c.rng;
  RichSrc src = richMesh(c);
  SurfaceMesh& m = *src.mesh;
  if (m.nFaces() == 0) throw Skip("empty");
  if (!m.isCompressed()) c.count("rich uncompressed");
  if (m.nVerticesCapacity() != m.nVertices()) c.count("rich spare capacity");
  auto dv = rnd<Vertex>(m, r);
  auto dh = rnd<Halfedge>(m, r);
  auto dc = rnd<Corner>(m, r);
  auto de = rnd<Edge>(m, r);
  auto df = rnd<Face>(m, r);
  auto db = rnd<BoundaryLoop>(m, r);
  VertexData<int> di(m, 3);
  for (Vertex v : m.vertices()) di[v] = (int)r.range(-1000000, 1000000);
  FaceData<unsigned char> du(m);
  for (Face f : m.faces()) du[f] = (unsigned char)r.below(256);
  VertexPositionGeometry geo(m);
  for (Vertex v : m.vertices()) geo.vertexPositions[v] = Vector3{anyDouble(r), anyDouble(r), anyDouble(r)};
  EdgeData<double> len(m);
  for (Edge e : m.edges()) len[e] = r.uni(1, 2);
  EdgeLengthGeometry intr(m, len);
  int colors = (int)r.below(3);
  VertexData<unsigned char> c8(m);
  VertexData<double> cd(m);
  for (Vertex v : m.vertices()) c8[v] = (unsigned char)r.below(256), cd[v] = r.u();

  RichSurfaceMeshData out(m);
  bool early = r.coin();
  if (early) out.addFaceProperty("df", df);
  out.addMeshConnectivity();
  out.addGeometry(geo);
  out.addIntrinsicGeometry(intr);
  out.addVertexProperty("dv", dv);
  out.addHalfedgeProperty("dh", dh);
  out.addCornerProperty("dc", dc);
  out.addEdgeProperty("de", de);
  if (!early) out.addFaceProperty("df", df);
  bool hasBl = m.usesImplicitTwin();
  if (hasBl) out.addBoundaryLoopProperty("db", db);
  out.addVertexProperty("di", di);
  out.addFaceProperty("du", du);
  if (colors == 1)
    for (auto n : {"red", "green", "blue"}) out.addVertexProperty(n, c8);
  if (colors == 2)
    for (auto n : {"red", "green", "blue"}) out.addVertexProperty(n, cd);
  out.outputFormat = std::vector<happly::DataFormat>{happly::DataFormat::ASCII, happly::DataFormat::Binary, happly::DataFormat::BinaryBigEndian}[r.below(3)];
  Scratch sc;
  std::string file = sc.file("r.ply");
  if (r.coin()) out.write(file);
  else {
    std::ofstream o(file, std::ios::binary);
    out.write(o);
  }
  c.sig(hashPolys(m.getFaceVertexList()));

  auto verify = [&](SurfaceMesh& q, RichSurfaceMeshData& in, const char* w) {
    cmp<Vertex, double>(m, dv, q, in.getVertexProperty<double>("dv"), "vertex");
    cmp<Halfedge, double>(m, dh, q, in.getHalfedgeProperty<double>("dh"), "halfedge");
    cmp<Corner, double>(m, dc, q, in.getCornerProperty<double>("dc"), "corner");
    cmp<Edge, double>(m, de, q, in.getEdgeProperty<double>("de"), "edge");
    cmp<Face, double>(m, df, q, in.getFaceProperty<double>("df"), "face");
    if (hasBl) cmp<BoundaryLoop, double>(m, db, q, in.getBoundaryLoopProperty<double>("db"), "boundary loop");
    cmp<Vertex, int>(m, di, q, in.getVertexProperty<int>("di"), "vertex int");
    cmp<Face, unsigned char>(m, du, q, in.getFaceProperty<unsigned char>("du"), "face uchar");
    auto g = in.getGeometry();
    cmp<Vertex, Vector3>(m, geo.vertexPositions, q, g->vertexPositions, "position");
    auto gi = in.getIntrinsicGeometry();
    gi->requireEdgeLengths();
    cmp<Edge, double>(m, len, q, gi->edgeLengths, "edge length");
    if (colors == 0) throws([&] { in.getVertexColors(); }, "rich-colors", "no colors");
    else {
      VertexData<Vector3> col = in.getVertexColors();
      std::vector<double> want;
      for (Vertex v : m.vertices()) want.push_back(colors == 1 ? c8[v] / 255. : cd[v]);
      size_t i = 0;
      for (Vertex v : q.vertices()) {
        for (int k = 0; k < 3; k++) check(col[v][k] == want[i], "rich-colors", "color of vertex ", i, " ", col[v][k], " expected ", want[i]);
        i++;
      }
    }
    throws([&] { in.getVertexProperty<double>("nope"); }, "rich-missing", "missing property");
    c.count(w);
  };
  { // on to the mesh at hand
    RichSurfaceMeshData in = r.coin() ? RichSurfaceMeshData(m, file) : [&] { std::ifstream i(file, std::ios::binary); return RichSurfaceMeshData(m, i); }();
    verify(m, in, "rich same mesh");
  }
  std::vector<size_t> refAll = structure(m);
  auto checkMesh = [&](SurfaceMesh& q) {
    std::vector<size_t> got = structure(q), ref = refAll;
    if (!src.manifold) {
      size_t n = 8 + 6 * m.nHalfedges() + m.nVertices() + m.nEdges() + m.nFaces() + m.nBoundaryLoops();
      if (ref.size() > n) ref.resize(n);
      if (got.size() > n) got.resize(n);
    }
    // the order of a vertex' neighbourhood is not part of the file for general meshes
    check(got == ref, "rich-structure", "the mesh read back differs (", m.nVertices(), " vertices, ", m.nFaces(), " faces, compressed ", m.isCompressed(), ", edits", c.note, ")");
    MeshCheckOpts mo;
    mo.strictOrient = false;
    fullCheck(q, "rich-mesh", nullptr, mo);
  };
  {
    auto rd = r.coin() ? RichSurfaceMeshData::readMeshAndData(file) : [&] { std::ifstream i(file, std::ios::binary); return RichSurfaceMeshData::readMeshAndData(i); }();
    checkMesh(*std::get<0>(rd));
    verify(*std::get<0>(rd), *std::get<1>(rd), "rich read mesh");
    // the mesh read is usable
    std::get<0>(rd)->compress();
    fullCheck(*std::get<0>(rd), "rich-compress", nullptr, [] { MeshCheckOpts o; o.strictOrient = false; return o; }());
    samePolys(std::get<0>(rd)->getFaceVertexList(), m.getFaceVertexList(), "rich-compress", "after compress");
    if (r.coin(0.5) && src.manifold) {
      ManifoldSurfaceMesh& q = dynamic_cast<ManifoldSurfaceMesh&>(*std::get<0>(rd));
      std::ostringstream log;
      manifoldEdit(c, q, log);
      fullCheck(q, "rich-edit", nullptr);
    }
  }
  if (src.manifold) {
    auto rd = r.coin() ? RichSurfaceMeshData::readManifoldMeshAndData(file) : [&] { std::ifstream i(file, std::ios::binary); return RichSurfaceMeshData::readManifoldMeshAndData(i); }();
    checkMesh(*std::get<0>(rd));
    verify(*std::get<0>(rd), *std::get<1>(rd), "rich read manifold");
  }
  { // the plain reader agrees
    SimplePolygonMesh sm(file);
    std::vector<Vector3> wp;
    for (Vertex v : m.vertices()) wp.push_back(geo.vertexPositions[v]);
    samePolys(sm.polygons, m.getFaceVertexList(), "ply-polygons", "PLY file");
    samePos(sm.vertexCoordinates, wp, "ply-positions", "PLY file");
    auto pc = pointcloud::readPointCloud(file);
    check(std::get<0>(pc)->nPoints() == wp.size(), "ply-cloud", "points");
    for (size_t i = 0; i < wp.size(); i++) check(sameV(std::get<1>(pc)->positions[i], wp[i]), "ply-cloud", "point ", i);
  }
  { // a mesh of another size
    SurfaceMesh other(tetra().polys);
    if (other.nVertices() != m.nVertices()) {
      RichSurfaceMeshData in(other, file);
      throws([&] { in.getVertexProperty<double>("dv"); }, "rich-size", "property of another size");
    }
  }
  { // no connectivity
    RichSurfaceMeshData o2(m);
    o2.addGeometry(geo);
    std::stringstream s;
    o2.write(s);
    throws([&] { RichSurfaceMeshData::readMeshAndData(s); }, "rich-connectivity", "file without connectivity");
  }
}
// tampered connectivity arrays
static void richTamper(Ctx& c) {
  Rng& r = c.rng;
  RichSrc src = richMesh(c);
  SurfaceMesh& m = *src.mesh;
  if (m.nFaces() == 0) throw Skip("empty");
  RichSurfaceMeshData out(m);
  out.addMeshConnectivity();
  std::stringstream s;
  out.write(s);
  happly::PLYData p(s);
  struct Arr { const char *e, *n; };
  std::vector<Arr> arrs{{"gc_internal_halfedge", "gc_internal_heNextArr"}, {"gc_internal_halfedge", "gc_internal_heFaceArr"}, {"gc_internal_halfedge", "gc_internal_heVertexArr"}, {"gc_internal_vertex", "gc_internal_vHalfedgeArr"}, {"gc_internal_face", "gc_internal_fHalfedgeArr"}};
  if (!m.usesImplicitTwin())
    for (Arr a : std::vector<Arr>{{"gc_internal_halfedge", "gc_internal_heSiblingArr"}, {"gc_internal_halfedge", "gc_internal_heEdgeArr"}, {"gc_internal_edge", "gc_internal_eHalfedgeArr"}}) arrs.push_back(a);
  if (m.nBoundaryLoops() > 0) arrs.push_back({"gc_internal_bl", "gc_internal_blHalfedgeArr"});
  Arr a = r.pick(arrs);
  std::vector<uint32_t> v = p.getElement(a.e).getProperty<uint32_t>(a.n);
  if (v.empty()) throw Skip("empty array");
  uint32_t big = (uint32_t)(m.nHalfedgesCapacity() + m.nVerticesCapacity() + m.nEdgesCapacity() + m.nFacesCapacity() + 5);
  size_t at = r.below(v.size());
  if (v[at] == std::numeric_limits<uint32_t>::max()) throw Skip("dead entry");
  v[at] = r.coin() ? big + (uint32_t)r.below(100) : 4000000000u + (uint32_t)r.below(1000);
  p.getElement(a.e).addProperty<uint32_t>(a.n, v);
  std::stringstream t;
  p.write(t, happly::DataFormat::Binary);
  c.note = str(a.n, " entry ", at, " of ", v.size(), " set to ", v[at]);
  throws([&] { RichSurfaceMeshData::readMeshAndData(t); }, "rich-malformed", "connectivity index out of range: ", c.note);
  c.sig(hashD((double)at) ^ hashD((double)v.size()));
  c.count("tampered connectivity");
}

// ---------------------------------------------------------------------------------------------------------------------
// point cloud files
static void cloudIO(Ctx& c) {
  Rng& r = c.rng;
  size_t n = r.below(40);
  pointcloud::PointCloud cl(n);
  pointcloud::PointPositionGeometry g(cl);
  std::vector<Vector3> want;
  for (size_t i = 0; i < n; i++) {
    Vector3 p{anyDouble(r), anyDouble(r), anyDouble(r)};
    g.positions[i] = p;
    want.push_back(p);
  }
  Scratch sc;
  std::string type = r.coin() ? "obj" : "ply", file = sc.file(r.coin() ? "p." + type : "p.X." + type);
  bool stream = r.coin();
  std::tuple<std::unique_ptr<pointcloud::PointCloud>, std::unique_ptr<pointcloud::PointPositionGeometry>> rd;
  if (stream) {
    std::stringstream s;
    pointcloud::writePointCloud(cl, g, s, type);
    rd = pointcloud::readPointCloud(s, type);
  } else {
    pointcloud::writePointCloud(cl, g, file, r.coin() ? "" : type);
    rd = pointcloud::readPointCloud(file, r.coin() ? "" : type);
  }
  check(std::get<0>(rd)->nPoints() == n, "cloud-count", std::get<0>(rd)->nPoints(), " points of ", n);
  size_t i = 0;
  for (pointcloud::Point p : std::get<0>(rd)->points()) check(sameV(std::get<1>(rd)->positions[p], want[i++]), "cloud-position", type, " point ", i - 1);
  throws([&] { pointcloud::readPointCloud(sc.dir + "/none.ply"); }, "cloud-missing", "missing file");
  throws([&] { pointcloud::readPointCloud(sc.dir + "/none.stl"); }, "cloud-type", "unsupported type");
  throws([&] { pointcloud::writePointCloud(cl, g, sc.file("x.off")); }, "cloud-type", "unsupported type");
  std::stringstream s2;
  throws([&] { pointcloud::writePointCloud(cl, g, s2, "off"); }, "cloud-type", "unsupported type");
  throws([&] { pointcloud::readPointCloud(s2, "stl"); }, "cloud-type", "unsupported type");
  c.count("cloud " + type);
  c.sig(hashD((double)n) ^ (n ? hashD(want[0].x) : 0));
}

// ---------------------------------------------------------------------------------------------------------------------
// operations on polygon meshes
static void soupOps(Ctx& c) {
  Rng& r = c.rng;
  Data d = someData(c, r.coin());
  bool uv = !d.uv.empty();
  auto mk = [&]() {
    SimplePolygonMesh m(d.polys, d.pos);
    m.paramCoordinates = d.uv;
    return m;
  };
  { // unused vertices
    SimplePolygonMesh m = mk();
    std::vector<Vector3> extra = d.pos;
    std::vector<size_t> map(d.pos.size());
    std::vector<Vector3> np;
    for (size_t i = 0; i < d.pos.size(); i++) {
      while (r.coin(0.2)) np.push_back(Vector3{9, 9, 9});
      map[i] = np.size();
      np.push_back(d.pos[i]);
    }
    if (r.coin(0.3)) np.push_back(Vector3{9, 9, 9});
    std::vector<char> used(d.pos.size(), 0);
    for (auto& f : m.polygons)
      for (size_t& v : f) used[v] = 1, v = map[v];
    m.vertexCoordinates = np;
    std::vector<size_t> tr = m.stripUnusedVertices();
    check(tr.size() == np.size(), "strip-unused", "translation size");
    std::vector<size_t> want(np.size(), INVALID_IND);
    std::vector<Vector3> wp;
    for (size_t i = 0; i < d.pos.size(); i++)
      if (used[i]) want[map[i]] = wp.size(), wp.push_back(d.pos[i]);
    check(tr == want, "strip-unused", "translation");
    samePos(m.vertexCoordinates, wp, "strip-unused", "positions");
    Polys P = d.polys;
    for (auto& f : P)
      for (size_t& v : f) v = want[map[v]];
    samePolys(m.polygons, P, "strip-unused", "polygons");
    sameUV(m.paramCoordinates, d.uv, "strip-unused", "texture coordinates");
  }
  { // invalid and duplicate faces
    Data e;
    e.pos = d.pos;
    Data okAll, okRep;
    for (size_t f = 0; f < d.polys.size(); f++) {
      auto put = [&](const std::vector<size_t>& q, bool all, bool rep) {
        std::vector<Vector2> u;
        for (size_t k = 0; k < q.size(); k++) u.push_back(Vector2{(double)e.polys.size(), (double)k});
        e.polys.push_back(q);
        e.uv.push_back(u);
        if (all) okAll.polys.push_back(q), okAll.uv.push_back(u);
        if (rep) okRep.polys.push_back(q), okRep.uv.push_back(u);
      };
      if (r.coin(0.1)) put({d.polys[f][0], d.polys[f][1]}, false, true);
      if (r.coin(0.1)) put({d.polys[f][0], d.polys[f][1], d.polys[f][0], d.polys[f].back()}, false, false);
      if (r.coin(0.1)) put({d.polys[f][0], d.pos.size() + r.below(3), d.polys[f][1]}, false, true);
      if (r.coin(0.05) && d.pos.size() >= 9) { // a big face
        std::vector<size_t> q;
        for (size_t k = 0; k < 9; k++) q.push_back(k);
        bool rep = r.coin();
        if (rep) q[r.below(4)] = q[5 + r.below(4)];
        put(q, !rep, !rep);
      }
      std::set<size_t> s(d.polys[f].begin(), d.polys[f].end());
      bool good = s.size() == d.polys[f].size();
      put(d.polys[f], good && d.polys[f].size() >= 3, good);
    }
    if (!uv) e.uv.clear(), okAll.uv.clear(), okRep.uv.clear();
    SimplePolygonMesh m(e.polys, e.pos, e.uv), m2 = m;
    m.stripInvalidFaces();
    samePolys(m.polygons, okAll.polys, "strip-invalid", "stripInvalidFaces");
    sameUV(m.paramCoordinates, okAll.uv, "strip-invalid", "stripInvalidFaces");
    samePos(m.vertexCoordinates, e.pos, "strip-invalid", "stripInvalidFaces");
    m2.stripFacesWithDuplicateVertices();
    samePolys(m2.polygons, okRep.polys, "strip-repeated", "stripFacesWithDuplicateVertices");
    sameUV(m2.paramCoordinates, okRep.uv, "strip-repeated", "stripFacesWithDuplicateVertices");
    // duplicates
    SimplePolygonMesh m3 = mk();
    size_t k0 = m3.polygons.size();
    for (size_t k = 0; k < k0; k++)
      if (r.coin(0.2)) {
        size_t j = r.below(k0);
        std::vector<size_t> q = m3.polygons[j];
        std::vector<Vector2> u;
        if (uv) u = m3.paramCoordinates[j];
        if (r.coin()) std::reverse(q.begin(), q.end()), std::reverse(u.begin(), u.end());
        size_t rot = r.below(q.size());
        std::rotate(q.begin(), q.begin() + rot, q.end());
        if (uv) std::rotate(u.begin(), u.begin() + rot, u.end());
        m3.polygons.push_back(q);
        if (uv) m3.paramCoordinates.push_back(u);
      }
    SimplePolygonMesh before = m3;
    m3.stripDuplicateFaces();
    auto key = [](std::vector<size_t> f) { std::sort(f.begin(), f.end()); return f; };
    std::set<std::vector<size_t>> want, got;
    std::set<std::vector<double>> in;
    auto row = [&](const SimplePolygonMesh& q, size_t i) {
      std::vector<double> x(q.polygons[i].begin(), q.polygons[i].end());
      if (uv)
        for (auto& u : q.paramCoordinates.at(i)) x.push_back(u.x + 0.), x.push_back(u.y + 0.);
      return x;
    };
    for (size_t i = 0; i < before.polygons.size(); i++) want.insert(key(before.polygons[i])), in.insert(row(before, i));
    check(m3.paramCoordinates.size() == (uv ? m3.polygons.size() : 0), "strip-duplicate", "texture coordinates");
    for (size_t i = 0; i < m3.polygons.size(); i++) {
      check(got.insert(key(m3.polygons[i])).second, "strip-duplicate", "duplicate left");
      check(in.count(row(m3, i)) > 0, "strip-duplicate", "face which was not in the input");
    }
    check(got == want, "strip-duplicate", "face lost");
  }
  { // triangulation
    SimplePolygonMesh m = mk();
    m.triangulate();
    Data w;
    for (size_t f = 0; f < d.polys.size(); f++)
      for (size_t i = 2; i < d.polys[f].size(); i++) {
        w.polys.push_back({d.polys[f][0], d.polys[f][i - 1], d.polys[f][i]});
        if (uv) w.uv.push_back({d.uv[f][0], d.uv[f][i - 1], d.uv[f][i]});
      }
    samePolys(m.polygons, w.polys, "triangulate", "triangulate()");
    sameUV(m.paramCoordinates, w.uv, "triangulate", "triangulate()");
  }
  { // identical vertices
    SimplePolygonMesh m = mk();
    std::vector<Vector3> pal;
    for (size_t i = 0; i < 1 + d.pos.size() / 2; i++) pal.push_back(Vector3{anyDouble(r), anyDouble(r), anyDouble(r)});
    std::map<std::array<double, 3>, size_t> id;
    std::vector<size_t> rep;
    std::vector<Vector3> wp;
    for (auto& p : m.vertexCoordinates) {
      p = r.pick(pal);
      auto it = id.emplace(std::array<double, 3>{{p.x + 0., p.y + 0., p.z + 0.}}, wp.size());
      if (it.second) wp.push_back(p);
      rep.push_back(it.first->second);
    }
    m.mergeIdenticalVertices();
    Polys P = d.polys;
    for (auto& f : P)
      for (size_t& v : f) v = rep[v];
    samePolys(m.polygons, P, "merge-identical", "merge");
    samePos(m.vertexCoordinates, wp, "merge-identical", "merge");
  }
  { // unions
    std::vector<SimplePolygonMesh> ms;
    Data w;
    bool keep = true;
    size_t n = r.below(4);
    for (size_t k = 0; k < n; k++) {
      SimplePolygonMesh m = mk();
      if (r.coin(0.2)) m.paramCoordinates.clear();
      keep = keep && m.hasParameterization();
      ms.push_back(m);
      for (auto f : m.polygons) {
        for (size_t& v : f) v += w.pos.size();
        w.polys.push_back(f);
      }
      for (auto& p : m.vertexCoordinates) w.pos.push_back(p);
    }
    if (keep)
      for (auto& m : ms)
        for (auto& u : m.paramCoordinates) w.uv.push_back(u);
    auto u = unionMeshes(ms);
    samePolys(u->polygons, w.polys, "union", "unionMeshes");
    samePos(u->vertexCoordinates, w.pos, "union", "unionMeshes");
    sameUV(u->paramCoordinates, w.uv, "union", "unionMeshes");
  }
  c.count("polygon mesh operations");
}
static double volume(const SimplePolygonMesh& m, const std::vector<size_t>& faces) {
  double v = 0;
  for (size_t i : faces) {
    auto& f = m.polygons[i];
    v += dot(m.vertexCoordinates[f[0]], cross(m.vertexCoordinates[f[1]], m.vertexCoordinates[f[2]]));
  }
  return v;
}
static void orient(Ctx& c) {
  Rng& r = c.rng;
  bool outward = r.coin();
  Data d;
  bool soup = !outward && r.coin(0.3);
  MeshOpts mo;
  mo.tri = outward || r.coin();
  mo.open = !outward;
  mo.jit = 0.02;
  Soup s = soup ? randomSoup(r) : randomManifold(r, mo);
  if (outward) { // a convex closed surface per component: project
    s = icosa();
    scrambleTris(s, r, r.below(5), 1.01);
    for (auto& p : s.pos) p = unit(p);
    if (worstQuality(s) > 30) throw Skip("sliver");
    for (auto& f : s.polys) // only convex surfaces, where the answer is clear
      for (auto& p : s.pos)
        if (dot(cross(s.pos[f[1]] - s.pos[f[0]], s.pos[f[2]] - s.pos[f[0]]), p - s.pos[f[0]]) > 1e-9) throw Skip("not convex");
    Rigid R = randRigid(r, 2);
    double sc = r.uni(0.5, 2);
    for (auto& p : s.pos) p = R(Vector3{p.x, p.y * sc, p.z});
    if (r.coin(0.4)) {
      Soup t = octa();
      double off = r.coin() ? 20. : -20.;
      for (auto& p : t.pos) p = R(p + Vector3{off, 0, 0});
      s = mergeSoups(s, t, Vector3{0, 0, 0});
    }
    permuteSoup(s, r);
  }
  Polys before = s.polys;
  std::vector<std::vector<Vector2>> uv;
  for (size_t f = 0; f < before.size(); f++) {
    if (r.coin()) std::reverse(before[f].begin(), before[f].end());
    uv.emplace_back();
    for (size_t k = 0; k < before[f].size(); k++) uv.back().push_back(Vector2{(double)f, (double)before[f][k]});
  }
  bool withUV = r.coin();
  SimplePolygonMesh m(before, s.pos);
  if (withUV) m.paramCoordinates = uv;
  m.consistentlyOrientFaces(outward);
  check(m.polygons.size() == before.size(), "orient-faces", "face count");
  for (size_t f = 0; f < before.size(); f++) {
    std::vector<size_t> a = canonPoly(m.polygons[f]), b = before[f], b2;
    b2 = b;
    std::reverse(b2.begin(), b2.end());
    check(a == canonPoly(b) || a == canonPoly(b2), "orient-faces", "face ", f, " is not a reorientation");
    if (withUV)
      for (size_t k = 0; k < a.size(); k++) check(m.paramCoordinates[f][k].y == (double)m.polygons[f][k] && m.paramCoordinates[f][k].x == (double)f, "orient-uv", "texture coordinates of face ", f);
  }
  if (withUV) check(m.paramCoordinates.size() == before.size(), "orient-uv", "size");
  c.sig(hashPolys(before));
  c.count(outward ? "orient outward" : soup ? "orient soup" : "orient manifold");
  if (soup) return;
  // consistent: every interior edge is used once in each direction
  std::map<std::pair<size_t, size_t>, int> dir;
  for (auto& f : m.polygons)
    for (size_t k = 0; k < f.size(); k++) dir[{f[k], f[(k + 1) % f.size()]}]++;
  for (auto& kv : dir) check(kv.second == 1, "orient-consistent", "edge ", kv.first.first, "-", kv.first.second, " used ", kv.second, " times in the same direction");
  if (outward) {
    UF u(s.pos.size());
    for (auto& f : m.polygons)
      for (size_t v : f) u.unite(v, f[0]);
    std::map<size_t, std::vector<size_t>> comp;
    for (size_t f = 0; f < m.polygons.size(); f++) comp[u.find(m.polygons[f][0])].push_back(f);
    for (auto& kv : comp) {
      SimplePolygonMesh q = m;
      Vector3 o = m.vertexCoordinates[m.polygons[kv.second[0]][0]];
      for (auto& p : q.vertexCoordinates) p = p - o;
      check(volume(q, kv.second) > 0, "orient-outward", "component of ", kv.second.size(), " faces faces inward");
    }
  }
}
static void permutations(Ctx& c) {
  RichSrc s = richMesh(c);
  SurfaceMesh& m = *s.mesh;
  if (m.nFaces() == 0) throw Skip("empty");
  auto P = polyscopePermutations(m);
  auto isAll = [&](size_t k, std::vector<size_t> want, size_t cap, const char* w) {
    std::vector<size_t> got = P[k].first;
    check(got.size() == want.size(), "permutation", w, " has ", got.size(), " entries of ", want.size());
    check(P[k].second == cap, "permutation", w, " capacity ", P[k].second, " expected ", cap);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    check(got == want, "permutation", w, " is not a permutation");
  };
  isAll(0, liveIdx<Vertex>(&m), m.nVerticesCapacity(), "vertices");
  isAll(1, liveIdx<Face>(&m), m.nFacesCapacity(), "faces");
  isAll(2, liveIdx<Edge>(&m), m.nEdgesCapacity(), "edges");
  std::vector<size_t> hi;
  for (Halfedge h : m.interiorHalfedges()) hi.push_back(h.getIndex());
  isAll(3, hi, m.nHalfedgesCapacity(), "halfedges");
  isAll(4, hi, m.nHalfedgesCapacity(), "corners");
  // polyscope numbers edges in the order in which faces first meet them, halfedges and corners face by face
  size_t k = 0, e = 0;
  std::set<size_t> seen;
  for (Face f : m.faces()) {
    Halfedge h0 = f.halfedge(), h = h0;
    do {
      check(P[3].first[k] == h.getIndex() && P[4].first[k] == h.corner().getIndex(), "permutation", "halfedge order");
      k++;
      if (seen.insert(h.edge().getIndex()).second) check(P[2].first[e++] == h.edge().getIndex(), "permutation", "edge order");
      h = h.next();
    } while (h != h0);
  }
  EdgeData<char> o = polyscopeEdgeOrientations(m);
  std::map<size_t, size_t> rk;
  for (Vertex v : m.vertices()) rk.emplace(v.getIndex(), rk.size());
  for (Edge ed : m.edges()) check((bool)o[ed] == (rk[ed.halfedge().tailVertex().getIndex()] < rk[ed.halfedge().tipVertex().getIndex()]), "edge-orientation", "edge ", ed);
  VertexData<double> a = rnd<Vertex>(m, c.rng), b = rnd<Vertex>(m, c.rng);
  CornerData<Vector2> p1 = packToParam(m, a), p2 = packToParam(m, a, b);
  for (Corner k2 : m.corners()) {
    check(p1[k2].x == a[k2.vertex()] && p1[k2].y == 0, "pack-param", "one value");
    check(p2[k2].x == a[k2.vertex()] && p2[k2].y == b[k2.vertex()], "pack-param", "two values");
  }
  c.sig(hashPolys(m.getFaceVertexList()));
  c.count("permutations");
}

int main(int argc, char** argv) {
  Suite S;
  S.add("obj", 4, objRead);
  S.add("roundtrip", 5, meshRoundTrip);
  S.add("stl", 3, stlRead);
  S.add("off", 2, offRead);
  S.add("garbage", 6, garbage);
  S.add("unsupported", 1, unsupported);
  S.add("rich", 4, rich);
  S.add("tamper", 2, richTamper);
  S.add("cloud", 1, cloudIO);
  S.add("soup", 3, soupOps);
  S.add("orient", 2, orient);
  S.add("permutations", 1, permutations);
  return run(S, argc, argv);
}
