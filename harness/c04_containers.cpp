// C04: per-element data follows its elements through every mesh change.
#include "mutops.h"
using namespace vf;

static std::string mkVal(Rng& r, std::string*) { return str("value-long-enough-for-the-heap-", r.below(1000000)); }
static long mkVal(Rng& r, long*) { return (long)r.below(2000) - 1000; }
static double mkVal(Rng& r, double*) { return r.uni(-100, 100); }
static char mkVal(Rng& r, char*) { return (char)r.below(120); }
static Vector3 mkVal(Rng& r, Vector3*) { return Vector3{r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)}; }
template <class T> T mk(Rng& r) { return mkVal(r, (T*)nullptr); }

struct Slot {
  virtual ~Slot() {}
  virtual void check(const std::string& when) = 0;           // every value equals the shadow
  virtual void resync(const std::string& when) = 0;          // after an edit: survivors keep values, new ones read the default
  virtual void compressed(const std::string& when) = 0;      // after compress(): order preserved
  virtual void step(Ctx& c, std::ostringstream& log, SurfaceMesh* m) = 0; // random container operation
  virtual void meshDied() = 0;
};

template <class E> E at(SurfaceMesh* m, size_t i) { return E(m, i); }

template <class E> const char* eName();
template <> const char* eName<Vertex>() { return "vertex"; }
template <> const char* eName<Halfedge>() { return "halfedge"; }
template <> const char* eName<Corner>() { return "corner"; }
template <> const char* eName<Edge>() { return "edge"; }
template <> const char* eName<Face>() { return "face"; }
template <> const char* eName<BoundaryLoop>() { return "boundaryloop"; }

template <class E, class T> struct SlotT : Slot {
  typedef MeshData<E, T> D;
  struct One {
    std::unique_ptr<D> d;
    bool on = false; // defined on the mesh
    std::map<size_t, T> sh;
    std::set<size_t> ever;
    T def = T();
  };
  SurfaceMesh* m;
  std::vector<std::unique_ptr<One>> all;
  std::vector<D> vec; // containers living inside a std::vector (moved on reallocation)
  SlotT(SurfaceMesh* m_) : m(m_) {}

  void initShadow(One& o, T v) {
    o.on = true;
    o.def = v;
    o.sh.clear();
    o.ever.clear();
    for (size_t i : liveIdx<E>(m)) {
      o.sh[i] = v;
      o.ever.insert(i);
    }
  }
  void checkOne(One& o, const std::string& w) {
    if (!o.on) return;
    vf::check(o.d->getMesh() == m, "mesh-pointer", w, ": container lost its mesh");
    const D& cd = *o.d;
    size_t n = 0;
    bool comp = m->isCompressed();
    for (E e : iterateElements<E>(m)) {
      auto it = o.sh.find(e.getIndex());
      vf::check(it != o.sh.end(), "shadow", "internal: element without shadow");
      vf::check((*o.d)[e] == it->second && cd[e] == it->second, std::string("value-") + eName<E>(), w, ": ", eName<E>(), " ", e.getIndex(), " lost its value");
      if (comp) vf::check(cd[e.getIndex()] == it->second, std::string("index-") + eName<E>(), w, ": access by index");
      n++;
    }
    vf::check(n == o.sh.size(), "shadow", "internal: shadow size");
    vf::check(o.d->getDefault() == o.def, "default", w, ": default value");
    vf::check(cd.size() >= n, "size", w, ": size() below the number of elements");
  }
  void check(const std::string& w) override {
    for (auto& o : all) checkOne(*o, w);
  }
  void resyncOne(One& o, const std::string& w) {
    if (!o.on) return;
    std::map<size_t, T> ns;
    for (E e : iterateElements<E>(m)) {
      size_t i = e.getIndex();
      auto it = o.sh.find(i);
      if (it != o.sh.end()) ns[i] = it->second;
      else if (o.ever.count(i)) ns[i] = (*o.d)[e]; // a corner which came back to life: unspecified
      else {
        vf::check((*o.d)[e] == o.def, std::string("newvalue-") + eName<E>(), w, ": new ", eName<E>(), " ", i, " does not read the default");
        ns[i] = o.def;
      }
      o.ever.insert(i);
    }
    o.sh = ns;
    checkOne(o, w);
  }
  void resync(const std::string& w) override {
    for (auto& o : all) resyncOne(*o, w);
  }
  void compressed(const std::string& w) override {
    std::vector<size_t> live = liveIdx<E>(m);
    // corners of exterior halfedges occupy indices too, so use order only
    for (auto& o : all) {
      if (!o->on) continue;
      vf::check(live.size() == o->sh.size(), "shadow", "element count changed in compression");
      std::map<size_t, T> ns;
      size_t k = 0;
      for (auto& kv : o->sh) ns[live[k++]] = kv.second;
      o->sh = ns;
      o->ever = std::set<size_t>(live.begin(), live.end());
      checkOne(*o, w);
    }
  }
  One* any(Rng& r, bool on) {
    std::vector<One*> q;
    for (auto& o : all)
      if (!on || o->on) q.push_back(o.get());
    return q.empty() ? nullptr : r.pick(q);
  }
  void arith(Ctx& c, One& a, long*) {
    Rng& r = c.rng;
    One* bp = any(r, true);
    One& b = *bp;
    int k = r.below(20);
    auto each = [&](auto& res, auto f, const char* what) {
      for (E e : iterateElements<E>(m)) {
        size_t i = e.getIndex();
        vf::check((long)res[e] == (long)f(a.sh.at(i), b.sh.at(i)), "arith", what, " on ", eName<E>(), " ", i);
      }
    };
    const D &A = *a.d, &B = *b.d;
    long s = 1 + (long)r.below(9);
    auto nz = [](long x) { return x == 0 ? 1 : x; };
    switch (k) {
    case 0: { auto q = A + B; each(q, [](long x, long y) { return x + y; }, "+"); break; }
    case 1: { auto q = A - B; each(q, [](long x, long y) { return x - y; }, "-"); break; }
    case 2: { auto q = A * B; each(q, [](long x, long y) { return x * y; }, "*"); break; }
    case 3: { // division with all live divisors nonzero
      D Z(B);
      for (E e : iterateElements<E>(m)) Z[e] = nz(Z[e]);
      if (r.coin()) {
        auto q = A / Z;
        each(q, [&](long x, long y) { return x / nz(y); }, "/");
      } else {
        auto q = A % Z;
        each(q, [&](long x, long y) { return x % nz(y); }, "%");
      }
      break;
    }
    case 4: { auto q = A & B; each(q, [](long x, long y) { return x & y; }, "&"); break; }
    case 5: { auto q = A | B; each(q, [](long x, long y) { return x | y; }, "|"); break; }
    case 6: { auto q = A ^ B; each(q, [](long x, long y) { return x ^ y; }, "^"); break; }
    case 7: { auto q = A && B; each(q, [](long x, long y) { return x && y; }, "&&"); break; }
    case 8: { auto q = A || B; each(q, [](long x, long y) { return x || y; }, "||"); break; }
    case 9: { auto q = -A; each(q, [](long x, long) { return -x; }, "unary -"); break; }
    case 10: { auto q = !A; each(q, [](long x, long) { return !x; }, "!"); break; }
    case 11: { auto q = ~A; each(q, [](long x, long) { return ~x; }, "~"); break; }
    case 12: { auto q = A + s; each(q, [&](long x, long) { return x + s; }, "+s"); break; }
    case 13: { auto q = s - A; each(q, [&](long x, long) { return s - x; }, "s-"); break; }
    case 14: { auto q = A % s; each(q, [&](long x, long) { return x % s; }, "%s"); break; }
    case 15: case 16: { // compound with a container
      auto snap = b.sh;
      bool plus = k == 15;
      if (plus) *a.d += *b.d; else *a.d -= *b.d;
      auto old = a.sh;
      for (auto& kv : a.sh) kv.second = plus ? old[kv.first] + snap[kv.first] : old[kv.first] - snap[kv.first];
      for (auto& kv : a.sh) kv.second %= 1000003;
      for (E e : iterateElements<E>(m)) (*a.d)[e] %= 1000003;
      checkOne(a, "compound assignment");
      break;
    }
    case 17: { *a.d *= s; for (auto& kv : a.sh) { kv.second = kv.second * s % 1000003; } for (E e : iterateElements<E>(m)) (*a.d)[e] %= 1000003; checkOne(a, "*= s"); break; }
    case 18: { *a.d /= s; for (auto& kv : a.sh) kv.second /= s; checkOne(a, "/= s"); break; }
    default: { auto q = +A; each(q, [](long x, long) { return x; }, "unary +"); break; }
    }
    c.count("arith");
  }
  template <class U> void arith(Ctx& c, One& a, U*) {}

  void step(Ctx& c, std::ostringstream& log, SurfaceMesh*) override {
    Rng& r = c.rng;
    int k = r.below(22);
    log << " " << eName<E>()[0] << k;
    c.count(std::string("container_ops.") + eName<E>());
    if (all.empty() || (k <= 2 && all.size() < 7)) {
      auto o = std::unique_ptr<One>(new One());
      if (k == 0) {
        o->d.reset(new D(*m));
        initShadow(*o, T());
      } else if (k == 1 || all.empty()) {
        T v = mk<T>(r);
        o->d.reset(new D(*m, v));
        initShadow(*o, v);
      } else {
        One* s = any(r, false);
        o->d.reset(new D(*s->d)); // copy construct
        o->on = s->on; o->sh = s->sh; o->ever = s->ever; o->def = s->def;
      }
      checkOne(*o, "construction");
      all.push_back(std::move(o));
      return;
    }
    One& a = *any(r, false);
    if (k == 3 && all.size() < 7) { // move construct: the source stays alive
      auto o = std::unique_ptr<One>(new One());
      o->d.reset(new D(std::move(*a.d)));
      o->on = a.on; o->sh = a.sh; o->ever = a.ever; o->def = a.def;
      a.on = false;
      checkOne(*o, "move construction");
      all.push_back(std::move(o));
    } else if (k == 4) { // copy assign (possibly self)
      One& b = *any(r, false);
      *a.d = *b.d;
      if (&a != &b) { a.on = b.on; a.sh = b.sh; a.ever = b.ever; a.def = b.def; }
      checkOne(a, "copy assignment");
      checkOne(b, "copy assignment source");
    } else if (k == 5) { // move assign
      One& b = *any(r, false);
      if (&a == &b) return;
      *a.d = std::move(*b.d);
      a.on = b.on; a.sh = b.sh; a.ever = b.ever; a.def = b.def;
      b.on = false;
      checkOne(a, "move assignment");
    } else if (k == 6) { // destroy
      size_t i = r.below(all.size());
      all.erase(all.begin() + i);
    } else if (k == 7 && r.coin(0.3)) {
      a.d->clear();
      a.on = false;
    } else if (k == 8 && a.on) {
      T v = mk<T>(r);
      a.d->fill(v);
      for (auto& kv : a.sh) kv.second = v;
      checkOne(a, "fill");
    } else if (k == 9 && a.on) {
      T v = mk<T>(r);
      a.d->setDefault(v);
      a.def = v;
      checkOne(a, "setDefault");
    } else if (k == 10 && a.on) { // vector round trip in iteration order
      auto v = a.d->toVector();
      size_t i = 0;
      vf::check((size_t)v.rows() == a.sh.size(), "tovector", "length");
      for (E e : iterateElements<E>(m)) vf::check(v(i++) == a.sh.at(e.getIndex()), "tovector", eName<E>(), " entry ", i - 1);
      for (long q = 0; q < v.rows(); q++) v(q) = mk<T>(r);
      i = 0;
      if (r.coin()) a.d->fromVector(v);
      else {
        *a.d = D(*m, v);
        a.def = T();
      }
      for (E e : iterateElements<E>(m)) a.sh[e.getIndex()] = v(i++);
      checkOne(a, "fromVector");
      Eigen::Matrix<T, Eigen::Dynamic, 1> bad(v.rows() + 1 + r.below(3));
      for (long q = 0; q < bad.rows(); q++) bad(q) = T();
      vf::throws([&] { a.d->fromVector(bad); }, "fromvector-size", "fromVector with a wrong size");
      checkOne(a, "rejected fromVector");
    } else if (k == 11 && a.on) { // through an indexer with gaps and a permutation
      std::vector<size_t> ids = liveIdx<E>(m);
      std::vector<size_t> sel;
      MeshData<E, size_t> ix(*m, INVALID_IND);
      for (size_t i : ids)
        if (r.coin(0.7)) sel.push_back(i);
      r.shuffle(sel);
      for (size_t k2 = 0; k2 < sel.size(); k2++) ix[E(m, sel[k2])] = k2;
      auto v = a.d->toVector(ix);
      vf::check((size_t)v.rows() == sel.size(), "tovector-index", "length");
      for (size_t k2 = 0; k2 < sel.size(); k2++) vf::check(v(k2) == a.sh.at(sel[k2]), "tovector-index", "entry");
      for (long q = 0; q < v.rows(); q++) v(q) = mk<T>(r);
      if (r.coin()) a.d->fromVector(v, ix);
      else {
        *a.d = D(*m, v, ix);
        a.def = T();
        for (auto& kv : a.sh) kv.second = T();
      }
      for (size_t k2 = 0; k2 < sel.size(); k2++) a.sh[sel[k2]] = v(k2);
      checkOne(a, "fromVector(indexer)");
    } else if (k == 12 && a.on) { // containers in a reallocating vector
      size_t n = 1 + r.below(4);
      for (size_t i = 0; i < n; i++) vec.push_back(*a.d);
      for (size_t i = vec.size() - n; i < vec.size(); i++)
        for (E e : iterateElements<E>(m)) vf::check(vec[i][e] == a.sh.at(e.getIndex()), "vector-of-containers", "value");
      if (vec.size() > 6) vec.erase(vec.begin(), vec.begin() + 3);
    } else if (k == 13 && a.on && m->isCompressed()) { // reinterpret on a copy
      auto cp = m->copyToSurfaceMesh();
      D q = a.d->reinterpretTo(*cp);
      vf::check(q.getMesh() == cp.get(), "reinterpret", "mesh pointer");
      for (E e : iterateElements<E>(cp.get())) vf::check(q[e] == a.sh.at(e.getIndex()), "reinterpret", eName<E>(), " ", e.getIndex());
      if (!cp->usesImplicitTwin()) {
        cp->duplicateFace(cp->face(0));
        for (E e : iterateElements<E>(cp.get())) vf::check(q[e] == (a.sh.count(e.getIndex()) ? a.sh.at(e.getIndex()) : a.def), "reinterpret", "after edit ", eName<E>(), " ", e.getIndex());
      }
    } else if (k == 14) {
      cx_swap(c, a);
    } else if (k >= 18 && a.on) {
      arith(c, a, (T*)nullptr);
    } else if (a.on) { // random writes
      for (auto& kv : a.sh)
        if (r.coin(0.5)) {
          kv.second = mk<T>(r);
          (*a.d)[E(m, kv.first)] = kv.second;
        }
      checkOne(a, "writes");
    }
    c.count(std::string("containers.live"), all.size());
  }
  void cx_swap(Ctx& c, One& a) {
    One& b = *any(c.rng, false);
    if (&a == &b) return;
    std::swap(*a.d, *b.d);
    std::swap(a.on, b.on);
    std::swap(a.sh, b.sh);
    std::swap(a.ever, b.ever);
    std::swap(a.def, b.def);
    checkOne(a, "swap");
    checkOne(b, "swap");
  }
  void meshDied() override {
    // containers must survive the mesh: destroy, copy, assign
    for (size_t i = 0; i + 1 < all.size(); i++) {
      D q(*all[i]->d);
      *all[i + 1]->d = *all[i]->d;
      all[i]->d->clear();
    }
    all.clear();
    vec.clear();
  }
};

static void history(Ctx& c, bool manifold) {
  Rng& r = c.rng;
  std::unique_ptr<SurfaceMesh> m;
  std::ostringstream log;
  Soup s;
  if (manifold) {
    MeshOpts o;
    o.tri = r.coin(0.7);
    s = randomManifold(r, o);
    m.reset(new ManifoldSurfaceMesh(s.polys));
  } else {
    s = randomSoup(r);
    m.reset(new SurfaceMesh(s.polys));
  }
  log << s.desc << ":";
  std::vector<std::unique_ptr<Slot>> slots;
  auto add = [&](SurfaceMesh* p) {
    slots.emplace_back(new SlotT<Vertex, long>(p));
    slots.emplace_back(new SlotT<Vertex, std::string>(p));
    slots.emplace_back(new SlotT<Halfedge, long>(p));
    slots.emplace_back(new SlotT<Corner, long>(p));
    slots.emplace_back(new SlotT<Edge, long>(p));
    slots.emplace_back(new SlotT<Edge, Vector3>(p));
    slots.emplace_back(new SlotT<Face, long>(p));
    slots.emplace_back(new SlotT<Face, std::string>(p));
    slots.emplace_back(new SlotT<Corner, double>(p));
    slots.emplace_back(new SlotT<Halfedge, char>(p));
    if (manifold) {
      slots.emplace_back(new SlotT<BoundaryLoop, long>(p));
      slots.emplace_back(new SlotT<BoundaryLoop, std::string>(p));
    }
  };
  add(m.get());
  r.shuffle(slots);
  while (slots.size() > 5) slots.pop_back();
  size_t n = 8 + r.below(c.thorough ? 80 : 40);
  for (size_t k = 0; k < n; k++) {
    c.note = log.str();
    int w = r.below(10);
    if (w < 5) {
      r.pick(slots)->step(c, log, m.get());
    } else if (w < 9) {
      bool did = manifold ? manifoldEdit(c, *(ManifoldSurfaceMesh*)m.get(), log) : generalEdit(c, *m, log);
      c.note = log.str();
      if (did)
        for (auto& s2 : slots) s2->resync("after edit");
      c.count(manifold ? "edits.manifold" : "edits.general", did);
    } else {
      log << " compress";
      c.note = log.str();
      bool was = m->isCompressed();
      m->compress();
      for (auto& s2 : slots) was ? s2->check("after no-op compress") : s2->compressed("after compress");
      c.count("compressions", !was);
    }
    c.note = log.str();
    for (auto& s2 : slots) s2->check("after step");
    c.sig(k * 7 + w + m->nHalfedges() * 131);
  }
  if (r.coin()) { // mesh dies first
    m.reset();
    for (auto& s2 : slots) s2->meshDied();
    c.count("mesh_died_first");
  }
  c.note = log.str();
}

int main(int argc, char** argv) {
  Suite S;
  S.add("manifold-history", 3, [](Ctx& c) { history(c, true); });
  S.add("general-history", 1, [](Ctx& c) { history(c, false); });
  return run(S, argc, argv);
}
