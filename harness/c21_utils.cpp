// C21: vector, elementary geometry and search utilities against independent references.
#include "vf.h"
#include "geometrycentral/utilities/curve.h"
#include "geometrycentral/utilities/disjoint_sets.h"
#include "geometrycentral/utilities/elementary_geometry.h"
#include "geometrycentral/utilities/knn.h"
#include "geometrycentral/utilities/quaternion.h"
#include "geometrycentral/utilities/timing.h"
#include "geometrycentral/utilities/vector2.h"
#include "geometrycentral/utilities/vector3.h"
#include "geometrycentral/surface/manifold_surface_mesh.h"
#include "geometrycentral/utilities/eigen_interop_helpers.h"
#include <unordered_map>
#include <unordered_set>
using namespace vf;
using namespace geometrycentral;
typedef long double ld;
typedef std::complex<double> C;
namespace {
uint64_t hd(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
double mag(Rng& r) { return std::pow(10., r.uni(-4, 4)); }
double num(Rng& r) {
  switch (r.below(5)) {
  case 0: return (double)r.range(-3, 3);
  case 1: return r.uni(-1, 1) * mag(r);
  default: return r.normal();
  }
}
Vector2 v2(Rng& r) { return Vector2{num(r), num(r)}; }
Vector3 v3(Rng& r) { return Vector3{num(r), num(r), num(r)}; }
Vector2 nz2(Rng& r) { Vector2 v; do v = v2(r); while (v.norm2() < 1e-12); return v; }
Vector3 nz3(Rng& r) { Vector3 v; do v = v3(r); while (v.norm2() < 1e-12); return v; }
C cx(Vector2 v) { return C(v.x, v.y); }
void eq2(Vector2 a, C b, double tol, const char* key, const std::string& what) {
  if (!(std::abs(a.x - b.real()) <= tol && std::abs(a.y - b.imag()) <= tol)) fail(key, what, " got ", a, " expected ", b, " tol ", tol);
}
void eq3(Vector3 a, Vector3 b, double tol, const char* key, const std::string& what) {
  for (int i = 0; i < 3; i++)
    if (!(std::abs(a[i] - b[i]) <= tol)) fail(key, what, " got ", a, " expected ", b, " tol ", tol);
}
double wrap(double a) { return std::remainder(a, 2 * M_PI); }

void vec2(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 10; it++) {
    Vector2 a = v2(r), b = nz2(r);
    double s = num(r), th = r.uni(-10, 10);
    std::string w = str(a, " ", b, " ", s, " ", th);
    C A = cx(a), B = cx(b);
    double na = std::abs(A), nb = std::abs(B), e = 1e-14;
    eq2(a + b, A + B, e * (na + nb), "vec2-add", w);
    eq2(a - b, A - B, e * (na + nb), "vec2-sub", w);
    eq2(-a, -A, 0, "vec2-neg", w);
    eq2(a * b, A * B, e * na * nb, "vec2-mul", w);
    eq2(a / b, A / B, 1e-13 * na / nb, "vec2-div", w);
    eq2(b.inv(), 1. / B, 1e-13 / nb, "vec2-inv", w);
    eq2(a * s, A * s, e * na * std::abs(s), "vec2-scale", w);
    eq2(s * a, A * s, e * na * std::abs(s), "vec2-scale", w);
    eq2(2 * a, A * 2., 0, "vec2-scale", w);
    if (s != 0) eq2(a / s, A / s, e * na / std::abs(s), "vec2-scale", w);
    Vector2 t = a; t += b; check(t == a + b, "vec2-compound", w);
    t = a; t -= b; check(t == a - b, "vec2-compound", w);
    t = a; t *= b; check(t == a * b, "vec2-compound", w);
    t = a; t /= b; check(t == a / b, "vec2-compound", w);
    t = b; t *= t; check(t == b * b, "vec2-compound", "self product ", w);
    t = b; t /= t; eq2(t, C(1, 0), 1e-13, "vec2-compound", "self quotient " + w);
    t = a; t *= s; check(t == a * s, "vec2-compound", w);
    if (s != 0) { t = a; t /= s; eq2(t, A / s, e * na / std::abs(s), "vec2-compound", w); }
    check(a == a && !(a != a) && (a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b), "vec2-eq", w);
    check((C)a == A && Vector2::fromComplex(A) == a, "vec2-complex", w);
    eq2(a.conj(), std::conj(A), 0, "vec2-conj", w);
    near(a.norm(), na, e * na, "vec2-norm", w);
    near(norm(a), na, e * na, "vec2-norm", w);
    near(a.norm2(), na * na, 4 * e * na * na, "vec2-norm", w);
    near(norm2(a), na * na, 4 * e * na * na, "vec2-norm", w);
    near(b.arg(), std::arg(B), 1e-15, "vec2-arg", w);
    near(arg(b), std::arg(B), 1e-15, "vec2-arg", w);
    for (Vector2 u : {b.unit(), unit(b), b.normalize(), normalize(b), normalizeCutoff(b), b.normalizeCutoff()}) eq2(u, B / nb, 1e-13, "vec2-unit", w);
    check(normalizeCutoff(Vector2::zero()) == Vector2::zero(), "vec2-cutoff", "zero vector");
    double cut = nb * r.uni(0.5, 1.5);
    if (std::abs(cut - nb) > 1e-9 * nb) eq2(b.normalizeCutoff(cut), nb <= cut ? B : B / nb, 1e-13 * std::max(1., nb), "vec2-cutoff", w);
    eq2(a.rotateCCW(th), A * std::polar(1., th), 1e-14 * na, "vec2-rotate", w);
    eq2(a.rotateCW(th), A * std::polar(1., -th), 1e-14 * na, "vec2-rotate", w);
    eq2(a.rotate(th), A * std::polar(1., -th), 1e-14 * na, "vec2-rotate", "rotate() is documented clockwise " + w);
    eq2(a.rotate90(), A * C(0, 1), 0, "vec2-rotate", w);
    eq2(Vector2::fromAngle(th), std::polar(1., th), 1e-15, "vec2-fromAngle", w);
    double p = r.uni(-3, 3);
    C P = std::polar(std::pow(nb, p), std::arg(B) * p);
    eq2(b.pow(p), P, 1e-12 * std::abs(P), "vec2-pow", w);
    Vector2 q{r.uni(-2, 2), r.uni(-2, 2)};
    C lg(std::log(nb), std::arg(B));
    P = std::exp(lg * cx(q));
    eq2(b.pow(q), P, 1e-12 * std::abs(P), "vec2-pow", w);
    near(dot(a, b), (A * std::conj(B)).real(), 4 * e * na * nb, "vec2-dot", w);
    near(cross(a, b), (std::conj(A) * B).imag(), 4 * e * na * nb, "vec2-cross", w);
    eq3(cross3(a, b), Vector3{0, 0, a.x * b.y - a.y * b.x}, 4 * e * na * nb, "vec2-cross", w);
    Vector2 a2 = nz2(r);
    C A2 = cx(a2);
    near(wrap(orientedAngle(a2, b) - std::arg(B / A2)), 0, 1e-12, "vec2-orientedAngle", a2, b);
    near(angle(a2, b), std::abs(std::arg(B / A2)), 1e-6, "vec2-angle", a2, b);
    near(angle(a2, a2 * std::abs(s + 1e-3)), 0, 1e-7, "vec2-angle", "parallel ", a2);
    check(sum(a) == a.x + a.y, "vec2-sum", w);
    check(componentwiseMin(a, b) == Vector2{std::min(a.x, b.x), std::min(a.y, b.y)} && componentwiseMax(a, b) == Vector2{std::max(a.x, b.x), std::max(a.y, b.y)}, "vec2-minmax", w);
    Vector2 lo = componentwiseMin(a, b), hi = componentwiseMax(a, b), cl = clamp(a2, lo, hi);
    for (int i = 0; i < 2; i++) check(cl[i] == std::min(std::max(a2[i], lo[i]), hi[i]), "vec2-clamp", w);
    check(a.isFinite() && isfinite(a) && a.isDefined() && isDefined(a), "vec2-finite", w);
    Vector2 bad = a; bad[r.below(2)] = r.coin() ? INFINITY : -INFINITY;
    check(!bad.isFinite() && !isfinite(bad) && isDefined(bad), "vec2-finite", bad);
    bad = a; bad[r.below(2)] = NAN;
    check(!bad.isFinite() && !isDefined(bad), "vec2-finite", bad);
    check(!Vector2::undefined().isDefined() && !Vector2::infinity().isFinite() && Vector2::infinity().isDefined() && Vector2::constant(s) == Vector2{s, s}, "vec2-const", w);
    check(std::hash<Vector2>()(a) == std::hash<Vector2>()(Vector2{a.x, a.y}), "vec2-hash", w);
    check(std::hash<Vector2>()(Vector2{0., b.y}) == std::hash<Vector2>()(Vector2{-0., b.y}), "vec2-hash", "equal vectors 0 and -0");
    std::istringstream is(str(a.x, " ", a.y));
    Vector2 rd; is >> rd;
    check(rd == a, "vec2-read", w);
    c.sig(hd(a.x) ^ hd(b.y));
    c.count("vec2.triples");
  }
}

void vec3(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 10; it++) {
    Vector3 a = v3(r), b = nz3(r), d = nz3(r);
    double s = num(r), th = r.uni(-10, 10);
    std::string w = str(a, " ", b, " ", d, " ", s, " ", th);
    ld na = std::sqrt((ld)a.x * a.x + (ld)a.y * a.y + (ld)a.z * a.z), nb = std::sqrt((ld)b.x * b.x + (ld)b.y * b.y + (ld)b.z * b.z), nd = std::sqrt((ld)d.x * d.x + (ld)d.y * d.y + (ld)d.z * d.z);
    double e = 1e-14;
    for (int i = 0; i < 3; i++) {
      check((a + b)[i] == a[i] + b[i] && (a - b)[i] == a[i] - b[i] && (-a)[i] == -a[i] && (a * s)[i] == a[i] * s && (s * a)[i] == a[i] * s && (3 * a)[i] == 3 * a[i], "vec3-arith", w);
      if (s != 0) near((a / s)[i], a[i] / s, 1e-15 * std::abs(a[i] / s), "vec3-arith", w);
    }
    Vector3 t = a; t += b; check(t == a + b, "vec3-compound", w);
    t = a; t -= b; check(t == a - b, "vec3-compound", w);
    t = a; t *= s; check(t == a * s, "vec3-compound", w);
    if (s != 0) { t = a; t /= s; eq3(t, a / s, e * std::abs((double)na / s), "vec3-compound", w); }
    t = a; t += t; check(t == 2. * a, "vec3-compound", "self ", w);
    t = a; t -= t; check(t == Vector3::zero(), "vec3-compound", "self ", w);
    check((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z) && (a != b) == !(a == b) && a == a, "vec3-eq", w);
    Vector3 k = a; k[r.below(3)] += 1; check(!(k == a) || na > 1e15, "vec3-eq", w);
    near(a.norm(), na, e * na, "vec3-norm", w); near(norm(a), na, e * na, "vec3-norm", w);
    near(a.norm2(), na * na, e * na * na, "vec3-norm", w); near(norm2(a), na * na, e * na * na, "vec3-norm", w);
    near(dot(a, b), (ld)a.x * b.x + (ld)a.y * b.y + (ld)a.z * b.z, e * na * nb, "vec3-dot", w);
    eq3(cross(a, b), Vector3{(double)((ld)a.y * b.z - (ld)a.z * b.y), (double)((ld)a.z * b.x - (ld)a.x * b.z), (double)((ld)a.x * b.y - (ld)a.y * b.x)}, e * na * nb, "vec3-cross", w);
    for (Vector3 u : {b.unit(), unit(b), b.normalize(), normalize(b), b.normalizeCutoff(), normalizeCutoff(b)}) eq3(u, b * (1 / (double)nb), 1e-13, "vec3-unit", w);
    check(normalizeCutoff(Vector3::zero()) == Vector3::zero(), "vec3-cutoff", "zero vector");
    double cut = nb * r.uni(0.5, 1.5);
    if (std::abs(cut - nb) > 1e-9 * nb) eq3(b.normalizeCutoff(cut), nb <= cut ? b : b * (double)(1 / nb), 1e-13 * std::max((ld)1, nb), "vec3-cutoff", w);
    // Rodrigues
    Vector3 n = b * (double)(1 / nb);
    Vector3 ref = a * std::cos(th) + cross(n, a) * std::sin(th) + n * (dot(n, a) * (1 - std::cos(th)));
    eq3(a.rotateAround(b, th), ref, 1e-12 * std::max((double)na, 1e-300), "vec3-rotateAround", w);
    eq3((b * s).rotateAround(b, th), b * s, 1e-12 * std::abs(s) * nb, "vec3-rotateAround", "vector along the axis " + w);
    eq3(a.removeComponent(n), a - n * dot(a, n), e * na * 10, "vec3-removeComponent", w);
    Vector3 bb = r.coin(0.3) ? Vector3{r.coin() ? 1. : 0., r.coin() ? 1. : 0., r.coin() ? -1. : 1e-9} : b;
    if (r.coin(0.1)) bb = Vector3{0.9 + r.uni(-1e-3, 1e-3), std::sqrt(1 - 0.81), r.uni(-1e-8, 1e-8)};
    auto tb = bb.buildTangentBasis();
    Vector3 un = bb / bb.norm();
    near(tb[0].norm(), 1, 1e-13, "vec3-tangentBasis", bb); near(tb[1].norm(), 1, 1e-13, "vec3-tangentBasis", bb);
    near(dot(tb[0], tb[1]), 0, 1e-12, "vec3-tangentBasis", bb);
    eq3(cross(tb[0], tb[1]), un, 1e-12, "vec3-tangentBasis", str("right handed around the vector ", bb));
    near(angle(b, d), std::atan2((double)cross(b, d).norm(), dot(b, d)), 1e-6, "vec3-angle", b, d);
    near(angle(b, b * 3.), 0, 1e-7, "vec3-angle", "parallel ", b); near(angle(b, b * -2.), M_PI, 1e-7, "vec3-angle", "antiparallel ", b);
    Vector3 N = unit(cross(nz3(r), nz3(r)));
    if (N.isFinite()) {
      Vector3 bp = b - N * dot(b, N), dp = d - N * dot(d, N);
      if (bp.norm() > 1e-3 * nb && dp.norm() > 1e-3 * nd) {
        double ref = std::atan2(dot(cross(bp, dp), N), dot(bp, dp));
        near(wrap(angleInPlane(b, d, N * mag(r)) - ref), 0, 1e-9, "vec3-angleInPlane", b, d, N);
      }
    }
    check(sum(a) == a.x + a.y + a.z, "vec3-sum", w);
    Vector3 lo = componentwiseMin(a, b), hi = componentwiseMax(a, b), cl = clamp(d, lo, hi);
    for (int i = 0; i < 3; i++) check(lo[i] == std::min(a[i], b[i]) && hi[i] == std::max(a[i], b[i]) && cl[i] == std::min(std::max(d[i], lo[i]), hi[i]), "vec3-minmax", w);
    check(a.isFinite() && isfinite(a) && a.isDefined() && isDefined(a), "vec3-finite", w);
    Vector3 bad = a; bad[r.below(3)] = r.coin() ? INFINITY : -INFINITY;
    check(!bad.isFinite() && !isfinite(bad) && isDefined(bad), "vec3-finite", bad);
    bad = a; bad[r.below(3)] = NAN;
    check(!bad.isFinite() && !isfinite(bad) && !isDefined(bad) && !bad.isDefined(), "vec3-finite", bad);
    check(!Vector3::undefined().isDefined() && !Vector3::infinity().isFinite() && Vector3::constant(s) == Vector3{s, s, s}, "vec3-const", w);
    check(std::hash<Vector3>()(Vector3{0., b.y, 0.}) == std::hash<Vector3>()(Vector3{-0., b.y, -0.}), "vec3-hash", "equal vectors 0 and -0");
    std::istringstream is(str(a.x, " ", a.y, " ", a.z));
    Vector3 rd; is >> rd;
    check(rd == a, "vec3-read", w);
    c.sig(hd(a.x) ^ hd(b.y));
    c.count("vec3.triples");
  }
  // hashed containers
  std::unordered_map<Vector3, int> um;
  std::map<std::array<double, 3>, int> om;
  for (int i = 0; i < 60; i++) {
    Vector3 v{(double)r.range(-2, 2), (double)r.range(-2, 2), (double)r.range(-2, 2)};
    um[v]++;
    om[{v.x, v.y, v.z}]++;
  }
  check(um.size() == om.size(), "vec3-hash", "hashed container");
  for (auto& kv : om) check(um[Vector3{kv.first[0], kv.first[1], kv.first[2]}] == kv.second, "vec3-hash", "hashed container");
}

void misc(Ctx& c) {
  Rng& r = c.rng;
  for (int i = 0; i < 50; i++) {
    double th;
    switch (r.below(5)) {
    case 0: th = r.uni(-100, 100); break;
    case 1: th = (double)r.range(-20, 20) * PI + (r.coin() ? 0 : r.normal() * std::pow(10., r.uni(-20, -10))); break;
    case 2: th = std::nextafter((double)r.range(-1000, 1000) * 2 * PI, r.coin() ? 1e9 : -1e9); break;
    case 3: th = -std::pow(10., r.uni(-300, 0)); break;
    default: th = r.uni(-10, 10);
    }
    double o = regularizeAngle(th);
    check(o >= 0 && o < 2 * PI, "regularizeAngle", "out of [0,2pi): ", th, " -> ", o);
    near(std::abs(std::remainder(o - th, 2 * PI)), 0, 1e-14 * std::max(1., std::abs(th)) * 4, "regularizeAngle", "not congruent ", th, " -> ", o);
  }
  for (int i = 0; i < 20; i++) {
    double a = num(r), b = num(r), x = num(r);
    if (a > b) std::swap(a, b);
    check(clamp(x, a, b) == std::min(std::max(x, a), b), "clamp", x, a, b);
    long p = r.range(-5, 5), q = p + r.range(0, 4), y = r.range(-9, 9);
    check(clamp(y, p, q) == std::min(std::max(y, p), q), "clamp", y, p, q);
  }
  { // permutations
    size_t n = r.below(12);
    std::vector<double> src(n);
    for (auto& x : src) x = r.normal();
    std::vector<size_t> p;
    for (size_t i = 0; i < n; i++) if (r.coin(0.8)) p.push_back(i);
    r.shuffle(p);
    for (size_t k = r.below(3); k > 0; k--) p.insert(p.begin() + r.below(p.size() + 1), INVALID_IND);
    auto out = applyPermutation(src, p);
    check(out.size() == p.size(), "applyPermutation", "size");
    for (size_t i = 0; i < p.size(); i++) if (p[i] != INVALID_IND) check(out[i] == src[p[i]], "applyPermutation", "entry ", i);
    std::vector<int> v, ref;
    for (int i = 0; i < 20; i++) v.push_back((int)r.below(4));
    int rem = (int)r.below(5);
    for (int x : v) if (x != rem) ref.push_back(x);
    removeFromVector(v, rem);
    check(v == ref, "removeFromVector", rem);
    std::string s = to_string(ref), t = "[";
    for (size_t i = 0; i < ref.size(); i++) t += (i ? "," : "") + std::to_string(ref[i]);
    check(s == t + "]", "to_string", s);
    std::string longs(r.below(400), 'x');
    check(str_printf("%s|%d", longs.c_str(), rem) == longs + "|" + std::to_string(rem), "str_printf", longs.size());
  }
  { // random numbers: ranges respected and all values reachable
    int lo = (int)r.range(-5, 5), hi = lo + (int)r.below(4);
    std::set<int> seen;
    for (int i = 0; i < 200; i++) { int x = randomInt(lo, hi); check(x >= lo && x <= hi, "randomInt", x); seen.insert(x); }
    check((int)seen.size() == hi - lo + 1, "randomInt", "not every value of the inclusive range occurs");
    size_t n = 1 + r.below(4);
    std::set<size_t> si;
    for (int i = 0; i < 200; i++) { size_t x = randomIndex(n); check(x < n, "randomIndex", x); si.insert(x); }
    check(si.size() == n, "randomIndex", "not every value occurs");
    for (int i = 0; i < 50; i++) { double u = unitRand(); check(u >= 0 && u < 1, "unitRand", u); double a = num(r), b = a + 1 + r.u(); u = randomReal(a, b); check(u >= a && u <= b, "randomReal", u); check(std::isfinite(randomNormal(a, 2)), "randomNormal", a); }
  }
  for (int i = 0; i < 10; i++) {
    long long us = (long long)std::pow(10., r.uni(0, 11));
    std::string s = pretty_time(us), t;
    char buf[100];
    if (us > 3600000000LL) snprintf(buf, 100, "%lld hr, %lld min", us / 3600000000LL, us % 3600000000LL / 60000000LL);
    else if (us > 60000000LL) snprintf(buf, 100, "%lld min, %lld sec", us / 60000000LL, us % 60000000LL / 1000000LL);
    else if (us > 1000000LL) snprintf(buf, 100, "%.2f sec", us / 1e6);
    else if (us > 1000LL) snprintf(buf, 100, "%.2f ms", us / 1e3);
    else snprintf(buf, 100, "%.2f", (double)us);
    check(s.substr(0, strlen(buf)) == buf, "pretty_time", us, " -> ", s);
  }
  { // EigenMap views
    using namespace geometrycentral::surface;
    std::vector<std::vector<size_t>> tris{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}};
    ManifoldSurfaceMesh m(tris);
    size_t nSplit = r.below(4);
    for (size_t i = 0; i < nSplit; i++) m.insertVertex(m.face(r.below(m.nFaces())));
    if (r.coin()) m.compress();
    VertexData<Vector3> d(m);
    for (Vertex v : m.vertices()) d[v] = v3(r);
    auto M = EigenMap<double, 3>(d);
    auto F = FlattenedEigenMap<double, 3>(d);
    const VertexData<Vector3>& cd = d;
    auto CM = EigenMap<double, 3>(cd);
    check((size_t)M.rows() == d.size() && M.cols() == 3 && (size_t)F.size() == 3 * d.size(), "eigenMap", "shape");
    for (Vertex v : m.vertices())
      for (int i = 0; i < 3; i++) {
        check(M(v.getIndex(), i) == d[v][i] && CM(v.getIndex(), i) == d[v][i] && F(3 * v.getIndex() + i) == d[v][i], "eigenMap", "value of ", v.getIndex());
        M(v.getIndex(), i) = 7. + i;
        check(d[v][i] == 7. + i, "eigenMap", "write through the map");
      }
  }
  { double* p = new double(3); safeDelete(p); check(p == nullptr, "safeDelete", ""); safeDelete(p); p = new double[3]; safeDeleteArray(p); check(p == nullptr, "safeDelete", ""); }
  c.sig(r.next());
}

void quat(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 10; it++) {
    double p[4], q[4];
    for (int i = 0; i < 4; i++) { p[i] = num(r); q[i] = num(r); }
    if (std::abs(p[0]) < 1e-3) p[0] = 1;
    if (std::abs(q[0]) < 1e-3) q[0] = 1;
    Quaternion P(p[0], p[1], p[2], p[3]), Q(q[0], Vector3{q[1], q[2], q[3]});
    double np = 0, nq = 0;
    for (int i = 0; i < 4; i++) { np += p[i] * p[i]; nq += q[i] * q[i]; }
    np = std::sqrt(np); nq = std::sqrt(nq);
    auto eq = [&](const Quaternion& a, std::array<double, 4> b, double tol, const char* key) {
      double v[4] = {a.re(), a.im().x, a.im().y, a.im().z};
      for (int i = 0; i < 4; i++) if (!(std::abs(v[i] - b[i]) <= tol)) fail(key, "component ", i, " got ", v[i], " expected ", b[i], " for ", P, Q);
    };
    std::array<double, 4> prod{p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
                               p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1], p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0]};
    double e = 1e-14;
    eq(P * Q, prod, 10 * e * np * nq, "quat-product");
    Quaternion T = P; T *= Q; eq(T, prod, 10 * e * np * nq, "quat-product");
    double L[4][4];
    P.toMatrix(L);
    for (int i = 0; i < 4; i++) {
      double s = 0;
      for (int j = 0; j < 4; j++) s += L[i][j] * q[j];
      near(s, prod[i], 10 * e * np * nq, "quat-matrix", "left multiplication matrix, row ", i);
    }
    eq(P + Q, {p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3]}, 0, "quat-add");
    eq(P - Q, {p[0] - q[0], p[1] - q[1], p[2] - q[2], p[3] - q[3]}, 0, "quat-sub");
    eq(-P, {-p[0], -p[1], -p[2], -p[3]}, 0, "quat-neg");
    double s = num(r);
    eq(P * s, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, 0, "quat-scale");
    eq(s * P, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, 0, "quat-scale");
    if (s != 0) { eq(P / s, {p[0] / s, p[1] / s, p[2] / s, p[3] / s}, e * np / std::abs(s), "quat-scale"); T = P; T /= s; eq(T, {p[0] / s, p[1] / s, p[2] / s, p[3] / s}, e * np / std::abs(s), "quat-scale"); }
    T = P; T *= s; eq(T, {p[0] * s, p[1] * s, p[2] * s, p[3] * s}, 0, "quat-scale");
    T = P; T += Q; eq(T, {p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3]}, 0, "quat-add");
    T = P; T -= Q; eq(T, {p[0] - q[0], p[1] - q[1], p[2] - q[2], p[3] - q[3]}, 0, "quat-sub");
    T = P; T += s; eq(T, {p[0] + s, p[1], p[2], p[3]}, 0, "quat-add");
    T = P; T -= s; eq(T, {p[0] - s, p[1], p[2], p[3]}, 0, "quat-sub");
    eq(P.bar(), {p[0], -p[1], -p[2], -p[3]}, 0, "quat-conj"); eq(conjugate(P), {p[0], -p[1], -p[2], -p[3]}, 0, "quat-conj");
    eq(P.inv() * P, {1, 0, 0, 0}, 1e-13, "quat-inv"); eq(P * P.inv(), {1, 0, 0, 0}, 1e-13, "quat-inv");
    near(P.norm(), np, e * np, "quat-norm", P); near(P.norm2(), np * np, e * np * np, "quat-norm", P);
    eq(P.unit(), {p[0] / np, p[1] / np, p[2] / np, p[3] / np}, e, "quat-unit");
    T = P; T.normalize(); eq(T, {p[0] / np, p[1] / np, p[2] / np, p[3] / np}, e, "quat-unit");
    eq(Quaternion(), {0, 0, 0, 0}, 0, "quat-ctor"); eq(Quaternion(s), {s, 0, 0, 0}, 0, "quat-ctor"); eq(Quaternion(Vector3{1, 2, s}), {0, 1, 2, s}, 0, "quat-ctor");
    T = s; eq(T, {s, 0, 0, 0}, 0, "quat-assign"); T = P; T = Vector3{s, 1, 2}; eq(T, {0, s, 1, 2}, 0, "quat-assign");
    for (int i = 0; i < 4; i++) { T = P; T[i] = 5; check(const_cast<const Quaternion&>(P)[i] == p[i] && T[i] == 5, "quat-index", i); check((i == 0 ? T.re() : T.im()[i - 1]) == 5, "quat-index", i); }
    // rotation by conjugation agrees with rotateAround
    Vector3 ax = nz3(r), v = v3(r);
    double th = r.uni(-7, 7);
    Quaternion R(std::cos(th / 2), unit(ax) * std::sin(th / 2));
    Quaternion w = R * Quaternion(v) * R.bar();
    eq3(w.im(), v.rotateAround(ax, th), 1e-12 * std::max(1e-300, v.norm()), "quat-rotation", str(v, ax, th));
    c.sig(hd(p[0]) ^ hd(q[1]));
    c.count("quat.pairs");
  }
}

ld segDist(const std::vector<ld>& p, const std::vector<ld>& a, const std::vector<ld>& b) {
  ld l2 = 0, dt = 0;
  for (size_t i = 0; i < p.size(); i++) { l2 += (b[i] - a[i]) * (b[i] - a[i]); dt += (p[i] - a[i]) * (b[i] - a[i]); }
  ld best = INFINITY;
  auto at = [&](ld t) { ld s = 0; for (size_t i = 0; i < p.size(); i++) { ld x = a[i] + t * (b[i] - a[i]) - p[i]; s += x * x; } best = std::min(best, std::sqrt(s)); };
  at(0); at(1);
  if (l2 > 0 && dt > 0 && dt < l2) at(dt / l2);
  return best;
}

void planar(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 10; it++) {
    double sc = mag(r);
    bool integer = r.coin(0.3);
    auto pt = [&]() { return integer ? Vector2{(double)r.range(-4, 4), (double)r.range(-4, 4)} : Vector2{sc * r.normal(), sc * r.normal()}; };
    if (integer) sc = 1;
    Vector2 a = pt(), b = pt(), p = pt(), q = pt(), x = pt();
    std::string w = str(a, b, p, q, x);
    double S = std::max({a.norm(), b.norm(), p.norm(), q.norm(), x.norm(), 1e-9 * sc});
    near(pointLineSegmentDistance(x, a, b), segDist({x.x, x.y}, {a.x, a.y}, {b.x, b.y}), 1e-12 * S, "pointSegment2", w);
    near(pointLineSegmentDistance(x, a, a), (x - a).norm(), 1e-14 * S, "pointSegment2", "degenerate segment ", w);
    // segments
    ld rx = (ld)b.x - a.x, ry = (ld)b.y - a.y, sx = (ld)q.x - p.x, sy = (ld)q.y - p.y;
    ld den = rx * sy - ry * sx, lr = std::hypot(rx, ry), ls = std::hypot(sx, sy);
    if (lr > 1e-6 * sc && ls > 1e-6 * sc) {
      ld wx = (ld)p.x - a.x, wy = (ld)p.y - a.y;
      if (std::abs(den) > 1e-4 * lr * ls) {
        ld tA = (wx * sy - wy * sx) / den, tB = (wx * ry - wy * rx) / den;
        auto R = segmentSegmentIntersection(a, b, p, q);
        double tol = 1e-9 * std::max({(ld)1, std::abs(tA), std::abs(tB)}) * std::max((ld)1, S / std::min(lr, ls));
        near(R.tA, tA, tol, "segmentSegment", w); near(R.tB, tB, tol, "segmentSegment", w);
        auto inside = [&](ld t, ld m) { return t > m && t < 1 - m; };
        auto outside = [&](ld t, ld m) { return t < -m || t > 1 + m; };
        if (inside(tA, tol) && inside(tB, tol)) { check(R.hit, "segmentSegment-hit", "crossing segments not reported ", w); c.count("segments.hit"); }
        if (outside(tA, tol) || outside(tB, tol)) { check(!R.hit, "segmentSegment-hit", "disjoint segments reported ", w); c.count("segments.miss"); }
        if (integer && (tA == 0 || tA == 1) && inside(tB, 1e-9)) c.count("segments.touch");
        Vector2 dir = b - a;
        double l = r.coin() ? 1 : norm(dir);
        auto Q = raySegmentIntersection(a, dir / l, p, q);
        near(Q.tRay / l, tA, tol, "raySegment", w); near(Q.tLine, tB, tol, "raySegment", w);
        auto Y = rayRayIntersection(a, dir / l, p, q - p);
        near(Y.tRay1 / l, tA, tol, "rayRay", w); near(Y.tRay2, tB, tol, "rayRay", w);
      } else if (den == 0 && std::abs(wx * ry - wy * rx) > 1e-3 * lr * lr) {
        check(!segmentSegmentIntersection(a, b, p, q).hit, "segmentSegment-hit", "parallel disjoint segments reported ", w);
        c.count("segments.parallel");
      }
    }
    // in circle, counterclockwise triangles
    {
      Vector2 A = a, B = b, P = p;
      ld ar = ((ld)B.x - A.x) * ((ld)P.y - A.y) - ((ld)B.y - A.y) * ((ld)P.x - A.x);
      if (ar < 0) { std::swap(B, P); ar = -ar; }
      if (ar > 1e-3 * S * S) {
        Vector2 T = q;
        if (r.coin(0.3)) { // near the circle
          ld bx = (ld)B.x - A.x, by = (ld)B.y - A.y, cxx = (ld)P.x - A.x, cy = (ld)P.y - A.y, d = 2 * (bx * cy - by * cxx);
          ld ux = (cy * (bx * bx + by * by) - by * (cxx * cxx + cy * cy)) / d, uy = (bx * (cxx * cxx + cy * cy) - cxx * (bx * bx + by * by)) / d;
          ld R = std::hypot(ux, uy);
          double th = r.uni(0, 7), f = 1 + (r.coin() ? 1 : -1) * std::pow(10., r.uni(-5, -1));
          T = Vector2{(double)(A.x + ux + f * R * std::cos(th)), (double)(A.y + uy + f * R * std::sin(th))};
        }
        ld bx = (ld)B.x - A.x, by = (ld)B.y - A.y, cxx = (ld)P.x - A.x, cy = (ld)P.y - A.y, d = 2 * (bx * cy - by * cxx);
        ld ux = (cy * (bx * bx + by * by) - by * (cxx * cxx + cy * cy)) / d, uy = (bx * (cxx * cxx + cy * cy) - cxx * (bx * bx + by * by)) / d;
        ld R = std::hypot(ux, uy), D = std::hypot((ld)T.x - A.x - ux, (ld)T.y - A.y - uy);
        if (std::abs(R - D) > 1e-9 * std::max({R, D, (ld)S}) * (R / S + 1) * (D / S + 1)) {
          check(inCircleTest(A, B, P, T) == (D < R), "inCircle", A, B, P, " test ", T, " radius ", (double)R, " distance ", (double)D);
          c.count(D < R ? "incircle.in" : "incircle.out");
        }
      }
    }
    // intrinsic triangles
    {
      double lA = norm(b - a), lB = norm(p - b), lC = norm(a - p);
      ld ar = std::abs(((ld)b.x - a.x) * ((ld)p.y - a.y) - ((ld)b.y - a.y) * ((ld)p.x - a.x)) / 2;
      double m = std::max({lA, lB, lC});
      if (ar > 1e-3 * m * m) {
        near(triangleArea(lA, lB, lC), ar, 1e-9 * m * m, "triangleArea", w);
        check(triangleIsValid(lA, lB, lC), "triangleIsValid", w);
        Vector2 X = pt(), Y = X + (b - a).rotateCCW(r.uni(0, 7));
        Vector2 Z = layoutTriangleVertex(X, Y, lB, lC);
        near(norm(Z - Y), lB, 1e-9 * (m + S), "layoutTriangle", w); near(norm(Z - X), lC, 1e-9 * (m + S), "layoutTriangle", w);
        check(cross(Y - X, Z - X) > 0, "layoutTriangle", "not counterclockwise ", w);
        c.count("triangles");
      }
      double big = lA + lB + m * r.uni(0.01, 2);
      if (m > 0) {
        check(!triangleIsValid(lA, lB, big) && !triangleIsValid(big, lA, lB) && !triangleIsValid(lB, big, lA), "triangleIsValid", lA, " ", lB, " ", big);
        double ex = big - lA - lB;
        check(triangleIsValid(lA, lB, big, ex * 1.01 + 1e-12 * m) && !triangleIsValid(lA, lB, big, ex * 0.99 - 1e-12 * m), "triangleIsValid", "tolerance ", ex);
        check(triangleArea(lA, lB, big) == 0 && triangleArea(big, lA, lB) == 0, "triangleArea", "lengths violating the triangle inequality ", lA, " ", lB, " ", big);
      }
    }
    c.sig(hd(a.x) ^ hd(q.y));
  }
}

void spatial(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 10; it++) {
    double sc = mag(r);
    auto pt = [&]() { return Vector3{sc * r.normal(), sc * r.normal(), sc * r.normal()}; };
    Vector3 a = pt(), b = pt(), p = pt();
    if (r.coin(0.1)) b = a;
    std::string w = str(a, b, p);
    double S = a.norm() + b.norm() + p.norm();
    ld D = segDist({p.x, p.y, p.z}, {a.x, a.y, a.z}, {b.x, b.y, b.z});
    near(pointLineSegmentDistance(p, a, b), D, 1e-12 * S, "pointSegment3", w);
    double t = pointLineSegmentNeaestLocation(p, a, b);
    check(t >= 0 && t <= 1, "pointSegment3", "parameter ", t, " ", w);
    near((a + t * (b - a) - p).norm(), D, 1e-12 * S, "pointSegment3", "nearest location ", t, " ", w);
    // tetrahedra
    Vector3 x = pt(), q = pt(), e = pt();
    double ar = cross(q - x, e - x).norm();
    if (ar > 0.05 * sc * sc) {
      double la = norm(p - x), lb = norm(p - q), lc = norm(p - e);
      Vector3 d = tetFourthPoint(x, q, e, la, lb, lc);
      double h = std::abs(dot(cross(q - x, e - x), p - x)) / ar, tol = 1e-8 * S * S / std::max(h, 1e-6 * sc) * std::pow(std::max({norm(q-x),norm(e-x),sc}),2)/ar * 10;
      if (h > 1e-3 * sc) {
        near(norm(d - x), la, tol, "tetFourthPoint", w); near(norm(d - q), lb, tol, "tetFourthPoint", w); near(norm(d - e), lc, tol, "tetFourthPoint", w);
        check(dot(d - x, cross(q - x, e - x)) < 0, "tetFourthPoint", "wrong side of the base triangle ", w);
        c.count("tets");
      }
    }
    c.sig(hd(a.x));
  }
}

struct Tri { Vector3 v[3]; };
ld det3(Vector3 a, Vector3 b, Vector3 cc, Vector3 d) { // orientation of d w.r.t. plane abc
  ld ux = (ld)b.x - a.x, uy = (ld)b.y - a.y, uz = (ld)b.z - a.z, vx = (ld)cc.x - a.x, vy = (ld)cc.y - a.y, vz = (ld)cc.z - a.z;
  ld wx = (ld)d.x - a.x, wy = (ld)d.y - a.y, wz = (ld)d.z - a.z;
  return (uy * vz - uz * vy) * wx + (uz * vx - ux * vz) * wy + (ux * vy - uy * vx) * wz;
}
struct P3 { ld x[3]; };
std::vector<P3> planeCut(const Tri& t, const ld d[3]) { // points of the triangle's boundary in the plane
  std::vector<P3> out;
  auto add = [&](int i, int j, ld s) { P3 p; for (int k = 0; k < 3; k++) p.x[k] = t.v[i][k] + s * ((ld)t.v[j][k] - t.v[i][k]); out.push_back(p); };
  for (int i = 0; i < 3; i++) {
    int j = (i + 1) % 3;
    if (d[i] == 0) add(i, i, 0);
    if ((d[i] < 0 && d[j] > 0) || (d[i] > 0 && d[j] < 0)) add(i, j, d[i] / (d[i] - d[j]));
  }
  return out;
}
void tritri(Ctx& c) {
  Rng& r = c.rng;
  for (int it = 0; it < 20; it++) {
    bool integer = r.coin(0.5);
    Tri A, B;
    int plane = (int)r.below(4);
    bool copl = integer && r.coin(0.3);
    Vector3 n0{(double)r.range(-2, 2), (double)r.range(-2, 2), (double)r.range(1, 2)};
    auto ipt = [&]() {
      Vector3 p{(double)r.range(-4, 4), (double)r.range(-4, 4), (double)r.range(-4, 4)};
      if (copl) { // lattice plane through the origin
        double u = p.x, v = p.y;
        if (plane == 0) p = Vector3{u, v, 2};
        else if (plane == 1) p = Vector3{u, 1, v};
        else if (plane == 2) p = Vector3{-1, u, v};
        else p = Vector3{n0.z * u, n0.z * v, -(n0.x * u + n0.y * v)};
      }
      return p;
    };
    double near0 = r.coin() ? 1 : 0.3;
    Vector3 off{near0 * r.normal(), near0 * r.normal(), near0 * r.normal()};
    for (int i = 0; i < 3; i++) {
      A.v[i] = integer ? ipt() : Vector3{r.normal(), r.normal(), r.normal()};
      B.v[i] = integer ? ipt() : Vector3{r.normal(), r.normal(), r.normal()} + off;
    }
    Vector3 nA = cross(A.v[1] - A.v[0], A.v[2] - A.v[0]), nB = cross(B.v[1] - B.v[0], B.v[2] - B.v[0]);
    if (nA.norm() < 0.1 || nB.norm() < 0.1) continue;
    ld dB[3], dA[3];
    bool amb = false;
    for (int i = 0; i < 3; i++) {
      dB[i] = det3(A.v[0], A.v[1], A.v[2], B.v[i]);
      dA[i] = det3(B.v[0], B.v[1], B.v[2], A.v[i]);
      if (!integer && (std::abs(dB[i]) < 1e-6 || std::abs(dA[i]) < 1e-6)) amb = true;
    }
    if (amb) continue;
    std::string w = str("A ", A.v[0], A.v[1], A.v[2], " B ", B.v[0], B.v[1], B.v[2]);
    auto R = triTriIntersection(A.v[0], A.v[1], A.v[2], B.v[0], B.v[1], B.v[2]);
    auto R2 = triTriIntersection(B.v[0], B.v[1], B.v[2], A.v[0], A.v[1], A.v[2]);
    bool isCop = dB[0] == 0 && dB[1] == 0 && dB[2] == 0;
    check(R.coplanar == isCop || (!R.intersect && !R.coplanar), "tritri-coplanar", w, " reported ", R.coplanar);
    c.sig(hd(A.v[0].x) ^ hd(B.v[1].y));
    if (isCop) {
      // project and decide by separating axes with integer arithmetic
      int k = std::abs(nA.x) >= std::abs(nA.y) && std::abs(nA.x) >= std::abs(nA.z) ? 0 : (std::abs(nA.y) >= std::abs(nA.z) ? 1 : 2);
      int i0 = (k + 1) % 3, i1 = (k + 2) % 3;
      bool sep = false, touch = false;
      for (int T = 0; T < 2; T++)
        for (int e = 0; e < 3; e++) {
          const Tri& X = T ? B : A;
          double ex = X.v[(e + 1) % 3][i0] - X.v[e][i0], ey = X.v[(e + 1) % 3][i1] - X.v[e][i1];
          double lo[2], hi[2];
          for (int U = 0; U < 2; U++) {
            lo[U] = INFINITY; hi[U] = -INFINITY;
            for (int q = 0; q < 3; q++) { double s = -ey * (U ? B : A).v[q][i0] + ex * (U ? B : A).v[q][i1]; lo[U] = std::min(lo[U], s); hi[U] = std::max(hi[U], s); }
          }
          if (hi[0] < lo[1] || hi[1] < lo[0]) sep = true;
          if (hi[0] == lo[1] || hi[1] == lo[0]) touch = true;
        }
      if (sep) check(!R.intersect && !R2.intersect, "tritri-coplanar", "disjoint coplanar triangles reported as intersecting ", w);
      else if (!touch) check(R.intersect && R2.intersect, "tritri-coplanar", "overlapping coplanar triangles not reported ", w);
      c.count(sep ? "tritri.coplanar-apart" : touch ? "tritri.coplanar-touch" : "tritri.coplanar-overlap");
      continue;
    }
    auto allSame = [](ld d[3]) { return (d[0] > 0 && d[1] > 0 && d[2] > 0) || (d[0] < 0 && d[1] < 0 && d[2] < 0); };
    if (allSame(dA) || allSame(dB)) {
      check(!R.intersect && !R2.intersect, "tritri", "separated by a plane, but reported ", w);
      c.count("tritri.apart");
      continue;
    }
    auto cA = planeCut(A, dA), cB = planeCut(B, dB);
    Vector3 dirv = cross(unit(nA), unit(nB));
    if (dirv.norm() < 1e-3) continue;
    dirv = unit(dirv);
    auto par = [&](const P3& p) { return p.x[0] * dirv.x + p.x[1] * dirv.y + p.x[2] * dirv.z; };
    ld a0 = INFINITY, a1 = -INFINITY, b0 = INFINITY, b1 = -INFINITY;
    for (auto& p : cA) { a0 = std::min(a0, par(p)); a1 = std::max(a1, par(p)); }
    for (auto& p : cB) { b0 = std::min(b0, par(p)); b1 = std::max(b1, par(p)); }
    ld gap = std::max(a0, b0) - std::min(a1, b1);
    double tol = 1e-7;
    if (gap > tol) { check(!R.intersect && !R2.intersect, "tritri", "disjoint triangles reported ", w, " gap ", (double)gap); c.count("tritri.apart"); continue; }
    if (gap < -tol) {
      check(R.intersect && R2.intersect, "tritri", "crossing triangles not reported ", w, " overlap ", (double)-gap);
      c.count("tritri.cross");
    }
    if (R.intersect) {
      ld lo = std::max(a0, b0), hi = std::min(a1, b1);
      ld s0 = dot(R.xA, dirv), s1 = dot(R.xB, dirv);
      if (s0 > s1) std::swap(s0, s1);
      check(std::abs(s0 - lo) < 1e-6 && std::abs(s1 - hi) < 1e-6, "tritri-segment", w, " got ", R.xA, R.xB, " expected parameters ", (double)lo, " ", (double)hi, " got ", (double)s0, " ", (double)s1);
      for (Vector3 x : {R.xA, R.xB}) check(std::abs((double)det3(A.v[0], A.v[1], A.v[2], x)) / nA.norm() < 1e-6 && std::abs((double)det3(B.v[0], B.v[1], B.v[2], x)) / nB.norm() < 1e-6, "tritri-segment", "endpoint off the planes ", w, x);
    }
  }
}

void knn(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 1 + r.below(r.coin(0.2) ? 400 : 40);
  std::vector<Vector3> pts;
  int kind = (int)r.below(4);
  double sc = mag(r);
  for (size_t i = 0; i < n; i++) {
    if (kind == 0) pts.push_back(Vector3{(double)r.range(-2, 2), (double)r.range(-2, 2), (double)r.range(-1, 1)}); // duplicates and ties
    else if (kind == 1) pts.push_back(Vector3{sc * r.normal(), 0, 0});
    else pts.push_back(Vector3{r.normal(), r.normal(), r.normal()} * sc);
    if (kind == 3 && i > 0 && r.coin(0.5)) pts.back() = pts[r.below(i)];
  }
  c.note = str("n=", n, " kind=", kind, " scale=", sc);
  std::unique_ptr<NearestNeighborFinder> F;
  {
    std::vector<Vector3> tmp = pts; // the finder must not refer to the argument
    F.reset(new NearestNeighborFinder(tmp));
  }
  auto d2 = [&](Vector3 q, size_t i) { return (pts[i] - q).norm2(); };
  for (int it = 0; it < 15; it++) {
    Vector3 q = r.coin(0.3) ? pts[r.below(n)] : Vector3{r.normal(), r.normal(), r.normal()} * (kind == 0 ? 1.5 : sc);
    size_t k = r.below(n + 1);
    auto res = F->kNearest(q, k);
    auto verify = [&](const std::vector<size_t>& res, size_t k, Vector3 q, size_t excl, const char* key) {
      check(res.size() == k, key, "size ", res.size(), " expected ", k);
      std::set<size_t> u(res.begin(), res.end());
      check(u.size() == k, key, "repeated points");
      std::vector<double> got, ref;
      for (size_t i : res) { check(i < n && i != excl, key, "index ", i); got.push_back(d2(q, i)); }
      for (size_t i = 0; i < n; i++) if (i != excl) ref.push_back(d2(q, i));
      std::sort(ref.begin(), ref.end());
      for (size_t i = 0; i + 1 < got.size(); i++) check(got[i] <= got[i + 1] * (1 + 1e-12) + 1e-300, key, "not ordered by distance");
      std::sort(got.begin(), got.end());
      for (size_t i = 0; i < k; i++) near(got[i], ref[i], 1e-12 * std::max(ref[i], 1e-12 * sc * sc), key, "distance of neighbour ", i);
    };
    verify(res, k, q, INVALID_IND, "kNearest");
    size_t s = r.below(n);
    k = r.below(n);
    verify(F->kNearestNeighbors(s, k), k, pts[s], s, "kNearestNeighbors");
    throws([&] { F->kNearest(q, n + 1); }, "kNearest-throws", "k larger than the point set");
    throws([&] { F->kNearestNeighbors(s, n); }, "kNearestNeighbors-throws", "k larger than the point set");
    double rad = kind == 0 ? r.uni(0, 4) : sc * std::pow(10., r.uni(-1.5, 0.8));
    auto rs = F->radiusSearch(q, rad);
    std::set<size_t> u(rs.begin(), rs.end());
    check(u.size() == rs.size(), "radiusSearch", "repeated points");
    for (size_t i = 0; i < n; i++) {
      double d = std::sqrt(d2(q, i));
      if (std::abs(d - rad) < 1e-9 * rad) continue;
      check(u.count(i) == (d < rad), "radiusSearch", "point ", i, " at distance ", d, " radius ", rad);
    }
    c.count("knn.queries");
  }
  c.sig(hd(pts[0].x) ^ n);
}

void sets(Ctx& c) {
  Rng& r = c.rng;
  size_t n = 1 + r.below(30);
  DisjointSets D(n);
  MarkedDisjointSets M(n);
  std::vector<size_t> lab(n);
  std::vector<char> mk(n, 0); // by label
  for (size_t i = 0; i < n; i++) lab[i] = i;
  for (size_t op = 0, N = r.below(80); op < N; op++) {
    size_t x = r.below(n), y = r.coin(0.1) ? x : r.below(n);
    switch (r.below(4)) {
    case 0: M.mark(x); mk[lab[x]] = 1; break;
    case 1: M.unmark(x); mk[lab[x]] = 0; break;
    default: {
      D.merge(x, y); M.merge(x, y);
      size_t lx = lab[x], ly = lab[y];
      mk[lx] = mk[lx] | mk[ly];
      for (auto& l : lab) if (l == ly) l = lx;
    }
    }
    if (op % 5 == 0 || op + 1 == N)
      for (size_t i = 0; i < n; i++) {
        check(M.isMarked(i) == (bool)mk[lab[i]], "markedSets", "mark of ", i, " after ", op, " operations");
        check(D.find(i) < n && lab[D.find(i)] == lab[i] && lab[M.find(i)] == lab[i], "disjointSets", "representative of ", i);
        size_t j = r.below(n);
        check((D.find(i) == D.find(j)) == (lab[i] == lab[j]), "disjointSets", i, " ", j);
        check((M.find(i) == M.find(j)) == (lab[i] == lab[j]), "markedSets", i, " ", j);
      }
    c.count("sets.ops");
  }
  c.sig(n ^ (lab[n - 1] << 8) ^ r.next());
}

void curve(Ctx& c) {
  Rng& r = c.rng;
  size_t n = r.below(6);
  HermiteCurve<Vector3> H;
  std::vector<Vector3> P, T;
  for (size_t i = 0; i < n; i++) { P.push_back(v3(r)); T.push_back(v3(r)); H.addNode(P[i], T[i]); }
  check(H.length() == (n == 0 ? 0. : (double)(n - 1)), "curve-length", n, " nodes: ", H.length());
  if (n == 0) { H.value(0.3); check(H.derivative(0.3, 1) == Vector3::zero(), "curve", "no nodes"); c.sig(r.next()); return; }
  double S = 1;
  for (size_t i = 0; i < n; i++) S = std::max({S, P[i].norm(), T[i].norm()});
  for (int it = 0; it < 20; it++) {
    double t = r.coin(0.3) ? (double)r.below(n) : r.uni(-1, (double)n);
    Vector3 v, d1, d2, d3;
    if (n == 1) { v = P[0] + t * T[0]; d1 = T[0]; d2 = d3 = Vector3::zero(); }
    else if (t < 0) { v = P[0] + t * T[0]; d1 = T[0]; d2 = d3 = Vector3::zero(); }
    else if (t > n - 1) { v = P[n - 1] + (t - (n - 1)) * T[n - 1]; d1 = T[n - 1]; d2 = d3 = Vector3::zero(); }
    else {
      size_t i = std::min((size_t)t, n - 2);
      double u = t - i;
      // monomial coefficients of the cubic from the interpolation conditions
      Vector3 c0 = P[i], c1 = T[i], c2 = 3. * (P[i + 1] - P[i]) - 2. * T[i] - T[i + 1], c3 = 2. * (P[i] - P[i + 1]) + T[i] + T[i + 1];
      v = c0 + u * (c1 + u * (c2 + u * c3)); d1 = c1 + u * (2. * c2 + u * 3. * c3); d2 = 2. * c2 + u * 6. * c3; d3 = 6. * c3;
    }
    eq3(H.value(t), v, 1e-11 * S, "curve-value", str("t=", t, " nodes ", n)); eq3(H(t), v, 1e-11 * S, "curve-value", str("t=", t, " nodes ", n));
    eq3(H.derivative(t, 0), v, 1e-11 * S, "curve-derivative", str("t=", t)); eq3(H.derivative(t, 1), d1, 1e-11 * S, "curve-derivative", str("t=", t)); eq3(H(t, 1), d1, 1e-11 * S, "curve-derivative", str("t=", t));
    bool node = t == std::floor(t); // higher derivatives may jump at nodes
    if (!node) { eq3(H.derivative(t, 2), d2, 1e-10 * S, "curve-derivative", str("second, t=", t)); eq3(H.derivative(t, 3), d3, 1e-10 * S, "curve-derivative", str("third, t=", t)); check(H.derivative(t, 4).norm() < 1e-10 * S, "curve-derivative", "fourth"); }
  }
  throws([&] { H.toBezier(); }, "curve-bezier", "unimplemented conversion");
  c.sig(hd(P[0].x));
}
} // namespace
int main(int argc, char** argv) {
  Suite S;
  S.add("vector2", 2, vec2);
  S.add("vector3", 2, vec3);
  S.add("quaternion", 1, quat);
  S.add("misc", 1, misc);
  S.add("planar", 3, planar);
  S.add("spatial", 2, spatial);
  S.add("tri-tri", 3, tritri);
  S.add("knn", 2, knn);
  S.add("sets", 1, sets);
  S.add("curve", 1, curve);
  return run(S, argc, argv);
}
