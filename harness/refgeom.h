// Independent intrinsic quantities of a triangle mesh, from its edge lengths.
#pragma once
#include "geohelp.h"
namespace vf {
typedef std::complex<double> C;
// intrinsic reference geometry of a triangle mesh from its edge lengths, everything by index
struct Ref {
  SurfaceMesh& m;
  bool manifold;
  std::map<size_t, LD> len, area, ang, cot; // edge, face, interior halfedge (corner at its tail), interior halfedge (opposite corner)
  std::map<size_t, LD> angSum, dual;
  std::map<size_t, C> inFace, inVert; // halfedge vectors
  std::map<size_t, LD> scaled;
  double q = 1, lmax = 0, totA = 0;
  std::map<size_t, size_t> rv, re, rf;
  template <class F> Ref(SurfaceMesh& m_, F length) : m(m_), manifold(m_.usesImplicitTwin()) {
    rv = ranks<Vertex>(m);
    re = ranks<Edge>(m);
    rf = ranks<Face>(m);
    for (Edge e : m.edges()) {
      len[e.getIndex()] = length(e);
      lmax = std::max<double>(lmax, len[e.getIndex()]);
    }
    for (Vertex v : m.vertices()) angSum[v.getIndex()] = dual[v.getIndex()] = 0;
    for (Face f : m.faces()) {
      Halfedge h[3];
      h[0] = f.halfedge();
      h[1] = h[0].next();
      h[2] = h[1].next();
      LD l[3];
      for (int i = 0; i < 3; i++) l[i] = len[h[i].edge().getIndex()];
      LD A = triArea(l[0], l[1], l[2]);
      area[f.getIndex()] = A;
      totA += A;
      LD L = std::max(l[0], std::max(l[1], l[2]));
      q = std::max<double>(q, L * L / (2 * A));
      for (int i = 0; i < 3; i++) {
        LD a = l[(i + 1) % 3], b = l[i], c = l[(i + 2) % 3];
        ang[h[i].getIndex()] = triAngle(a, b, c); // at the tail of h[i], opposite to h[i+1]
        cot[h[i].getIndex()] = triCot(l[i], l[(i + 1) % 3], l[(i + 2) % 3]);
        angSum[h[i].vertex().getIndex()] += ang[h[i].getIndex()];
        dual[h[i].vertex().getIndex()] += A / 3;
      }
      C p0(0, 0), p1((double)l[0], 0), p2 = (double)l[2] * std::polar(1.0, (double)ang[h[0].getIndex()]);
      inFace[h[0].getIndex()] = p1 - p0;
      inFace[h[1].getIndex()] = p2 - p1;
      inFace[h[2].getIndex()] = p0 - p2;
    }
    if (!manifold) return;
    for (Vertex v : m.vertices()) {
      LD target = v.isBoundary() ? M_PIl : 2 * M_PIl, s = 0;
      Halfedge h0 = v.halfedge(), h = h0;
      do {
        inVert[h.getIndex()] = (double)len[h.edge().getIndex()] * std::polar(1.0, (double)s);
        if (!h.isInterior()) break;
        LD sc = ang[h.getIndex()] * target / angSum[v.getIndex()];
        scaled[h.getIndex()] = sc;
        s += sc;
        h = h.next().next().twin();
      } while (h != h0);
    }
  }
};

} // namespace vf
