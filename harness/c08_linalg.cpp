// C08: solvers satisfy the systems they are given; block utilities are exact.
#include "geohelp.h"
#include "geometrycentral/numerical/linear_algebra_utilities.h"
#include "geometrycentral/numerical/linear_solvers.h"
#include <Eigen/QR>
#include <Eigen/SVD>
#include <Eigen/Eigenvalues>
#include <sys/stat.h>
using namespace vf;
typedef std::complex<double> cd;
template <class T> struct TN;
template <> struct TN<double> { static const char* n() { return "double"; } static double eps() { return 1e-9; } };
template <> struct TN<float> { static const char* n() { return "float"; } static double eps() { return 2e-4; } };
template <> struct TN<cd> { static const char* n() { return "complex"; } static double eps() { return 1e-9; } };
template <class T> using D = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <class T> struct Wide { typedef double t; };
template <> struct Wide<cd> { typedef cd t; };
template <class T> D<typename Wide<T>::t> wide(const SparseMatrix<T>& A) { return D<T>(A).template cast<typename Wide<T>::t>(); }
template <class T> Vector<typename Wide<T>::t> widev(const Vector<T>& A) { return A.template cast<typename Wide<T>::t>(); }

static void rnd(Rng& r, double& x) { x = r.normal(); }
static void rnd(Rng& r, float& x) { x = (float)r.normal(); }
static void rnd(Rng& r, cd& x) { x = cd(r.normal(), r.normal()); }
template <class T> T rv(Rng& r) { T x; rnd(r, x); return x; }
template <class T> Vector<T> randVec(Rng& r, size_t n) {
  Vector<T> v(n);
  for (size_t i = 0; i < n; i++) v[i] = rv<T>(r);
  if (n && r.coin(0.15)) { v.setZero(); v[r.below(n)] = T(1); }
  if (r.coin(0.05)) v.setZero();
  return v;
}
// sparse n x m; entries come in random order; sometimes left uncompressed
template <class T> SparseMatrix<T> fromDense(Rng& r, const D<T>& A) {
  SparseMatrix<T> S(A.rows(), A.cols());
  if (r.coin(0.7)) {
    std::vector<Eigen::Triplet<T>> t;
    for (long i = 0; i < A.rows(); i++)
      for (long j = 0; j < A.cols(); j++)
        if (A(i, j) != T(0) || r.coin(0.02)) t.emplace_back(i, j, A(i, j));
    r.shuffle(t);
    S.setFromTriplets(t.begin(), t.end());
  } else {
    S.reserve(Eigen::VectorXi::Constant(A.cols(), (int)A.rows() + 2));
    for (long j = 0; j < A.cols(); j++)
      for (long i = 0; i < A.rows(); i++)
        if (A(i, j) != T(0)) S.insert(i, j) = A(i, j);
  }
  return S;
}
template <class T> D<T> sparsish(Rng& r, size_t n, size_t m, double p) {
  D<T> A = D<T>::Zero(n, m);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++)
      if (r.coin(p)) A(i, j) = rv<T>(r);
  return A;
}
// full column rank (n >= m), well conditioned: row permuted [diagonally dominant ; random]
template <class T> D<T> wellCond(Rng& r, size_t n, size_t m) {
  D<T> A = sparsish<T>(r, n, m, r.uni(0.05, 0.6));
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; i++) p[i] = i;
  if (r.coin()) r.shuffle(p);
  for (size_t j = 0; j < m; j++) {
    double s = 0;
    for (size_t k = 0; k < m; k++) s += std::abs(A(p[j], k)) + std::abs(A(p[k], j));
    A(p[j], j) = T(s + 1) * (r.coin() ? T(1) : T(-1));
  }
  return A;
}
static size_t dim(Ctx& c, size_t hi) { return 1 + c.rng.below(c.rng.coin(0.1) ? 3 * hi : hi); }
template <class T> void observe(Ctx& c, const D<T>& A) {
  for (long i = 0; i < A.size(); i++) c.sig(hashD(std::abs(A.data()[i])));
}
template <class T, class S> void reuse(Ctx& c, S& solver, size_t nr, size_t nc, const std::function<void(const Vector<T>&, const Vector<T>&)>& judge) {
  for (int k = 0, K = 1 + c.rng.below(4); k < K; k++) {
    Vector<T> b = randVec<T>(c.rng, nr);
    Vector<T> x = solver.solve(b), keep = b;
    check((size_t)x.rows() == nc, "solution-size", "solution of length ", x.rows());
    judge(x, b);
    Vector<T> y = Vector<T>::Constant(c.rng.below(9), T(7));
    solver.solve(y, b);
    check(b == keep, "rhs-changed", "right hand side was modified");
    check((x - y).norm() <= TN<T>::eps() * (1e-300 + x.norm()), "overloads-differ", "solve overloads differ");
    if (nr == nc && c.rng.coin()) { // in place
      Vector<T> z = b;
      solver.solve(z, z);
      check((x - z).norm() <= TN<T>::eps() * (1e-300 + x.norm()), "in-place-solve", "solving in place gives a different solution");
      c.count("in place solves");
    }
    c.count(std::string("solves ") + TN<T>::n());
  }
  size_t bad = c.rng.coin() ? nr + 1 : nr - 1;
  throws([&]() { solver.solve(Vector<T>(Vector<T>::Zero(bad))); }, "rhs-length", "right hand side of length ", bad, " accepted");
  if (nr) {
    Vector<T> b = Vector<T>::Zero(nr);
    b[c.rng.below(nr)] = T(c.rng.coin() ? NAN : INFINITY);
    throws([&]() { solver.solve(b); }, "rhs-nonfinite", "non-finite right hand side accepted");
  }
}
template <class T> void residualIs0(const D<T>& A, const Vector<T>& x, const Vector<T>& b, const char* key) {
  typedef typename Wide<T>::t W;
  D<W> Aw = A.template cast<W>();
  double r = (Aw * widev(x) - widev(b)).norm(), s = Aw.norm() * widev(x).norm() + widev(b).norm();
  if (!(r <= TN<T>::eps() * s)) fail(str(key, "-", TN<T>::n()), "residual ", r, " scale ", s);
}
template <class T> void famSquare(Ctx& c) {
  Rng& r = c.rng;
  size_t n = dim(c, 25);
  D<T> A = wellCond<T>(r, n, n);
  if (r.coin(0.3)) A *= T(std::pow(10., r.uni(-6, 6)));
  observe<T>(c, A);
  SparseMatrix<T> S = fromDense<T>(r, A);
  std::unique_ptr<SquareSolver<T>> s(new SquareSolver<T>(S));
  check(D<T>(S) == A, "matrix-changed", "matrix was modified");
  if (r.coin(0.5)) S = SparseMatrix<T>(1, 1); // the solver must not depend on the matrix any more
  reuse<T>(c, *s, n, n, [&](const Vector<T>& x, const Vector<T>& b) { residualIs0<T>(A, x, b, "square-residual"); });
  SparseMatrix<T> S2 = fromDense<T>(r, A);
  Vector<T> b = randVec<T>(r, n);
  residualIs0<T>(A, solveSquare(S2, b), b, "solveSquare-residual");
  double rr = residual(S2, b, b);
  near(rr, (D<T>(A) * b - b).norm(), TN<T>::eps() * (1 + A.norm() * b.norm()), "residual-function", "residual()");
}
template <class T> void famPD(Ctx& c) {
  Rng& r = c.rng;
  size_t n = dim(c, 25);
  D<T> A;
  bool definite = true;
  int kind = r.below(4);
  if (kind == 0) { D<T> B = wellCond<T>(r, n, n); A = B.adjoint() * B; }
  else if (kind == 1) { // Hermitian diagonally dominant
    D<T> B = sparsish<T>(r, n, n, 0.3);
    A = B + B.adjoint();
    for (size_t i = 0; i < n; i++) { double s = 1; for (size_t k = 0; k < n; k++) s += std::abs(A(i, k)); A(i, i) = T(s); }
  } else if (kind == 2) { // graph Laplacian plus shift
    A = D<T>::Zero(n, n);
    for (size_t k = 0; k < 2 * n; k++) { size_t i = r.below(n), j = r.below(n); if (i == j) continue; T w = T(r.uni(0.1, 1)); A(i, i) += w; A(j, j) += w; A(i, j) -= w; A(j, i) -= w; }
    for (size_t i = 0; i < n; i++) A(i, i) += T(r.uni(0.01, 0.1));
  } else { // indefinite: rejected or solved
    D<T> B = sparsish<T>(r, n, n, 0.4);
    A = B + B.adjoint();
    for (size_t i = 0; i < n; i++) { double s = 1; for (size_t k = 0; k < n; k++) s += std::abs(A(i, k)); A(i, i) = T(r.coin() ? s : -s); }
    definite = false;
  }
  if (r.coin(0.3)) A *= T(std::pow(10., r.uni(-6, 6)));
  A = (T(0.5) * (A + A.adjoint())).eval();
  observe<T>(c, A);
  SparseMatrix<T> S = fromDense<T>(r, A);
  std::unique_ptr<PositiveDefiniteSolver<T>> s;
  try {
    s.reset(new PositiveDefiniteSolver<T>(S));
  } catch (std::exception&) {
    if (definite) throw;
    c.count("indefinite rejected");
    return;
  }
  if (r.coin(0.5)) S = SparseMatrix<T>(1, 1);
  reuse<T>(c, *s, n, n, [&](const Vector<T>& x, const Vector<T>& b) { residualIs0<T>(A, x, b, "pd-residual"); });
  SparseMatrix<T> S2 = fromDense<T>(r, A);
  Vector<T> b = randVec<T>(r, n);
  residualIs0<T>(A, solvePositiveDefinite(S2, b), b, "solvePositiveDefinite-residual");
}
template <class T> void famQR(Ctx& c) {
  typedef typename Wide<T>::t W;
  Rng& r = c.rng;
  size_t n = dim(c, 20), m = r.coin(0.3) ? n : dim(c, 20);
  size_t lo = std::min(n, m), hi = std::max(n, m), rank = lo;
  D<T> A;
  bool deficient = r.coin(0.25) && lo > 1, product = false;
  if (!deficient) A = wellCond<T>(r, hi, lo);
  else {
    rank = 1 + r.below(lo - 1);
    if (r.coin()) { // zero columns: the rank is beyond doubt
      D<T> B = wellCond<T>(r, hi, rank);
      A = D<T>::Zero(hi, lo);
      std::vector<size_t> p(lo);
      for (size_t i = 0; i < lo; i++) p[i] = i;
      r.shuffle(p);
      for (size_t i = 0; i < rank; i++) A.col(p[i]) = B.col(i);
    } else {
      A = D<T>(wellCond<T>(r, hi, rank) * wellCond<T>(r, lo, rank).adjoint());
      product = true;
    }
  }
  if (n < m) A = D<T>(A.adjoint());
  if (r.coin(0.3)) A *= T(std::pow(10., r.uni(-5, 5)));
  observe<T>(c, A);
  SparseMatrix<T> S = fromDense<T>(r, A);
  Solver<T> s(S);
  bool numericRank = std::is_same<T, float>::value && product; // rounding to float makes it full rank
  if (!numericRank) check(product ? s.rank() >= rank && s.rank() <= lo : s.rank() == rank, str("rank-", TN<T>::n()), "rank ", s.rank(), " expected ", rank, " size ", n, "x", m);
  if (r.coin()) S = SparseMatrix<T>(1, 1);
  if (numericRank) return;
  D<W> Aw = A.template cast<W>();
  double nA = Aw.norm();
  double tol = TN<T>::eps() * 10;
  for (int k = 0, K = 1 + r.below(3); k < K; k++) {
    Vector<T> b = (deficient && n < m) ? Vector<T>(A * randVec<T>(r, m)) : randVec<T>(r, n);
    Vector<T> x = s.solve(b), y;
    s.solve(y, b);
    check((size_t)x.rows() == m, "solution-size", "solution of length ", x.rows());
    check((x - y).norm() <= tol * (1e-300 + x.norm()), "overloads-differ", "solve overloads differ");
    Vector<W> xw = widev(x), bw = widev(b), res = Aw * xw - bw;
    double sc = nA * (nA * xw.norm() + bw.norm());
    double g = (Aw.adjoint() * res).norm();
    if (!(g <= tol * sc)) fail(str("least-squares-", TN<T>::n()), "gradient ", g, " scale ", sc, " size ", n, "x", m, " rank ", rank);
    if (n < m && !deficient) { // exact, and of minimal norm
      check(res.norm() <= tol * (nA * xw.norm() + bw.norm()), str("underdetermined-", TN<T>::n()), "residual ", res.norm());
      Vector<W> ref = Aw.adjoint() * (Aw * Aw.adjoint()).ldlt().solve(bw);
      check((xw - ref).norm() <= 1e4 * tol * (1e-300 + ref.norm()), str("minimum-norm-", TN<T>::n()), "norm ", xw.norm(), " minimal ", ref.norm());
      c.count("minimum norm solutions");
    }
    if (n > m) c.count("least squares solutions");
    c.count(std::string("solves ") + TN<T>::n());
  }
  SparseMatrix<T> S2 = fromDense<T>(r, A);
  Vector<T> b = A * randVec<T>(r, m);
  residualIs0<T>(A, geometrycentral::solve(S2, b), b, "solve-residual");
  throws([&]() { s.solve(Vector<T>(Vector<T>::Zero(n + 1))); }, "rhs-length", "wrong length accepted");
  Vector<T> bad = Vector<T>::Zero(n);
  bad[r.below(n)] = T(NAN);
  throws([&]() { s.solve(bad); }, "rhs-nonfinite", "non-finite right hand side accepted");
}
template <class T> void famInvalid(Ctx& c) {
  Rng& r = c.rng;
  size_t n = dim(c, 8), m = n + 1 + r.below(3);
  c.sig(n * 100 + m);
  D<T> A = wellCond<T>(r, m, n);
  if (r.coin()) A = D<T>(A.adjoint());
  SparseMatrix<T> S = fromDense<T>(r, A);
  throws([&]() { SquareSolver<T> s(S); }, "square-nonsquare", "rectangular matrix accepted by SquareSolver");
  throws([&]() { PositiveDefiniteSolver<T> s(S); }, "pd-nonsquare", "rectangular matrix accepted by PositiveDefiniteSolver");
  throws([&]() { shiftDiagonal(S, T(1)); }, "shift-nonsquare", "shiftDiagonal on a rectangular matrix");
  throws([&]() { blockDecomposeSquare(S, Vector<bool>(Vector<bool>::Constant(S.rows(), true))); }, "block-nonsquare", "blockDecomposeSquare on a rectangular matrix");
  D<T> B = wellCond<T>(r, n, n);
  B = (B.adjoint() * B).eval();
  B = (T(0.5) * (B + B.adjoint())).eval();
  D<T> Bad = B;
  size_t i = r.below(n), j = r.below(n);
  Bad(i, j) = T(r.coin() ? NAN : -INFINITY);
  SparseMatrix<T> SB = fromDense<T>(r, Bad);
  throws([&]() { SquareSolver<T> s(SB); }, "square-nonfinite", "non-finite matrix accepted by SquareSolver");
  throws([&]() { PositiveDefiniteSolver<T> s(SB); }, "pd-nonfinite", "non-finite matrix accepted by PositiveDefiniteSolver");
  throws([&]() { Solver<T> s(SB); }, "qr-nonfinite", "non-finite matrix accepted by Solver");
  throws([&]() { checkFinite(SB); }, "checkFinite", "checkFinite accepts a non-finite matrix");
  if (n > 1) {
    D<T> U = B;
    while (j == i) j = r.below(n);
    U(i, j) += T(B.norm());
    SparseMatrix<T> SU = fromDense<T>(r, U);
    throws([&]() { PositiveDefiniteSolver<T> s(SU); }, "pd-unsymmetric", "unsymmetric matrix accepted by PositiveDefiniteSolver");
    throws([&]() { checkSymmetric(SU); }, "checkSymmetric", "checkSymmetric accepts an unsymmetric matrix");
    throws([&]() { checkHermitian(SU); }, "checkHermitian", "checkHermitian accepts a non-Hermitian matrix");
    checkSymmetric(SU, 2 * B.norm() + 2 * std::abs(U(i, j)));
  }
  SparseMatrix<T> SH = fromDense<T>(r, B), SS = fromDense<T>(r, D<T>(B + B.transpose()));
  checkHermitian(SH);
  checkSymmetric(SS);
  checkFinite(SH);
  // vectors
  Vector<T> v = randVec<T>(r, n);
  checkFinite(v);
  D<T> dm = B;
  checkFinite(dm);
  v[r.below(n)] = T(INFINITY);
  dm(i, j) = T(NAN);
  throws([&]() { checkFinite(v); }, "checkFinite-column", "checkFinite(column vector)");
  throws([&]() { checkFinite(dm); }, "checkFinite-dense", "checkFinite(dense matrix)");
  Eigen::Matrix<T, 1, Eigen::Dynamic> row = v.transpose(), ok = randVec<T>(r, n).transpose();
  throws([&]() { checkFinite(row); }, "checkFinite-row", "checkFinite(row vector)");
  checkFinite(ok);
  // a structurally singular system has no solution: never a finite wrong answer
  D<T> Z = wellCond<T>(r, n, n);
  Z.row(i).setZero();
  SparseMatrix<T> SZ = fromDense<T>(r, Z);
  Vector<T> b = Vector<T>::Ones(n);
  try {
    Vector<T> x = solveSquare(SZ, b);
    bool fin = true;
    for (size_t k = 0; k < n; k++) fin = fin && std::isfinite(std::abs(x[k]));
    check(!fin, "singular-square", "finite answer for a system without solution");
  } catch (std::exception&) {
  }
  try {
    D<T> ZZ = Z.adjoint() * Z;
    ZZ = (T(0.5) * (ZZ + ZZ.adjoint())).eval();
    ZZ.col(i).setZero();
    ZZ.row(i).setZero();
    SparseMatrix<T> SP = fromDense<T>(r, ZZ);
    Vector<T> x = solvePositiveDefinite(SP, b);
    bool fin = true;
    for (size_t k = 0; k < n; k++) fin = fin && std::isfinite(std::abs(x[k]));
    check(!fin, "singular-pd", "finite answer for a system without solution");
  } catch (std::exception& e) {
    if (dynamic_cast<Violation*>(&e)) throw;
  }
  c.count("invalid inputs");
}
template <class T> void famEig(Ctx& c) {
  typedef typename Wide<T>::t W;
  Rng& r = c.rng;
  size_t n = 2 + r.below(10), k = 1 + r.below(std::min<size_t>(n, 4));
  D<W> Q0(n, n);
  for (long i = 0; i < Q0.size(); i++) Q0.data()[i] = rv<W>(r);
  D<W> Q = Eigen::HouseholderQR<D<W>>(Q0).householderQ();
  Eigen::VectorXd lam(n), mass(n);
  double l = r.uni(0.5, 2);
  for (size_t i = 0; i < n; i++) { lam[i] = l; l *= r.uni(2.2, 4); }
  if (n > 6) lam *= 1;
  for (size_t i = 0; i < n; i++) mass[i] = r.uni(0.5, 2);
  Eigen::VectorXd sm = mass.cwiseSqrt();
  D<W> A = sm.asDiagonal() * Q * lam.asDiagonal() * Q.adjoint() * sm.asDiagonal();
  A = (W(0.5) * (A + A.adjoint())).eval();
  D<W> V = sm.cwiseInverse().asDiagonal() * Q; // M-orthonormal eigenvectors
  D<T> AT = A.template cast<T>();
  observe<T>(c, AT);
  SparseMatrix<T> E = fromDense<T>(r, AT), M = fromDense<T>(r, D<T>(D<W>(mass.template cast<W>().asDiagonal()).template cast<T>()));
  double tol = std::is_same<T, float>::value ? 2e-3 * lam[n - 1] / lam[0] : 1e-6;
  if (tol > 0.2) throw Skip("not resolvable in single precision");
  auto is = [&](const Vector<T>& x, size_t i, const char* w) {
    check((size_t)x.rows() == n, "eig-size", w);
    Vector<W> y = widev(x);
    double nn = std::abs((y.adjoint() * mass.template cast<W>().asDiagonal() * y)(0));
    near(nn, 1, std::is_same<T, float>::value ? 1e-3 : 1e-9, str("eig-normalised-", TN<T>::n()), w, " mass norm squared");
    W d = (V.col(i).adjoint() * mass.template cast<W>().asDiagonal() * y)(0);
    Vector<W> diff = y - d * V.col(i);
    if (!(diff.norm() <= tol)) fail(str("eigenvector-", w, "-", TN<T>::n()), "distance to the eigenspace ", diff.norm(), " n ", n, " index ", i);
    c.count("eigenvectors");
  };
  is(smallestEigenvectorPositiveDefinite(E, M), 0, "smallest");
  {
    auto R = smallestKEigenvectorsPositiveDefinite(E, M, k);
    check(R.size() == k, "eig-count", "K vectors");
    for (size_t i = 0; i < k; i++) is(R[i], i, "smallestK");
  }
  if (!std::is_same<T, float>::value) {
    auto R = smallestKEigenvectorsPositiveDefiniteTol(E, M, k, 1e-9 * lam[n - 1]);
    check(R.size() == k, "eig-count", "K vectors");
    for (size_t i = 0; i < k; i++) {
      check(eigenvectorResidual(E, M, R[i]) <= 1e-9 * lam[n - 1] * 1.01, "eig-tolerance", "residual above tolerance");
      Vector<W> y = widev(R[i]);
      near(std::abs((y.adjoint() * mass.template cast<W>().asDiagonal() * y)(0)), 1, 1e-9, "eig-normalised-tol", "mass norm squared");
      for (size_t j = 0; j < i; j++)
        check(std::abs((widev(R[j]).adjoint() * mass.template cast<W>().asDiagonal() * y)(0)) <= 1e-9, "eig-orthogonal", "vectors ", i, " and ", j);
    }
  }
  is(smallestEigenvectorSquare(E, M), 0, "smallestSquare");
  is(largestEigenvector(E, M), n - 1, "largest");
  { // indefinite: smallest magnitude
    Eigen::VectorXd l2 = lam;
    for (size_t i = 0; i < n; i++) if (r.coin()) l2[i] = -l2[i];
    D<W> B = sm.asDiagonal() * Q * l2.asDiagonal() * Q.adjoint() * sm.asDiagonal();
    SparseMatrix<T> F = fromDense<T>(r, D<T>(B.template cast<T>()));
    is(smallestEigenvectorSquare(F, M), 0, "smallestSquareIndefinite");
  }
  Vector<T> v = randVec<T>(r, n);
  Vector<W> y = widev(v), Ay = A * y;
  W mu = y.dot(Ay);
  Vector<W> e = Ay - mu * Vector<W>(mass.template cast<W>().asDiagonal() * y);
  double want = std::sqrt(std::abs(e.dot(Vector<W>(mass.template cast<W>().asDiagonal() * e))));
  near(eigenvectorResidual(E, M, v), want, TN<T>::eps() * 100 * (1 + want + std::abs(mu) * y.norm()), "eigenvectorResidual", "residual");
}
template <class T> void sameM(const SparseMatrix<T>& S, const D<T>& A, const char* key) {
  check(S.rows() == A.rows() && S.cols() == A.cols(), key, "size ", S.rows(), "x", S.cols());
  check(D<T>(S) == A, key, "entries differ");
}
template <class T> void famUtil(Ctx& c) {
  Rng& r = c.rng;
  size_t n = r.below(12), m = r.below(12);
  D<T> A = sparsish<T>(r, n, m, r.u());
  observe<T>(c, A);
  c.sig(n * 31 + m);
  SparseMatrix<T> S = fromDense<T>(r, A);
  sameM<T>(identityMatrix<T>(n), D<T>::Identity(n, n), "identity");
  // stacking
  std::vector<SparseMatrix<T>, Eigen::aligned_allocator<SparseMatrix<T>>> vs, hs;
  D<T> V(0, m), Hh(n, 0);
  for (int k = 0, K = 1 + r.below(4); k < K; k++) {
    D<T> B = sparsish<T>(r, r.below(5), m, 0.5), C = sparsish<T>(r, n, r.below(5), 0.5);
    vs.push_back(fromDense<T>(r, B));
    hs.push_back(fromDense<T>(r, C));
    D<T> V2(V.rows() + B.rows(), m), H2(n, Hh.cols() + C.cols());
    if (V2.rows() && m) { V2.topRows(V.rows()) = V; V2.bottomRows(B.rows()) = B; }
    if (H2.cols() && n) { H2.leftCols(Hh.cols()) = Hh; H2.rightCols(C.cols()) = C; }
    V = V2;
    Hh = H2;
  }
  sameM<T>(verticalStack<T>(vs), V, "vertical-stack");
  sameM<T>(horizontalStack<T>(hs), Hh, "horizontal-stack");
  vs.push_back(SparseMatrix<T>(2, m + 1));
  hs.push_back(SparseMatrix<T>(n + 1, 2));
  throws([&]() { verticalStack<T>(vs); }, "stack-mismatch", "vertical");
  throws([&]() { horizontalStack<T>(hs); }, "stack-mismatch", "horizontal");
  vs.clear();
  throws([&]() { verticalStack<T>(vs); }, "stack-empty", "vertical");
  throws([&]() { horizontalStack<T>(vs); }, "stack-empty", "horizontal");
  // square things
  D<T> Q = sparsish<T>(r, n, n, r.u());
  SparseMatrix<T> SQ = fromDense<T>(r, Q), SH = SQ;
  T sh = rv<T>(r);
  shiftDiagonal(SH, sh);
  sameM<T>(SH, D<T>(Q + sh * D<T>::Identity(n, n)), "shiftDiagonal");
  Vector<bool> isA(n);
  double p = r.u();
  for (size_t i = 0; i < n; i++) isA[i] = r.coin(p);
  for (bool bSide : {true, false}) {
    BlockDecompositionResult<T> R = blockDecomposeSquare(SQ, isA, bSide);
    std::vector<size_t> a, b;
    for (size_t i = 0; i < n; i++) (isA[i] ? a : b).push_back(i);
    check((size_t)R.origIndsA.rows() == a.size() && (size_t)R.origIndsB.rows() == b.size() && (size_t)R.newInds.rows() == n && R.isA == isA, "block-index", "sizes");
    for (size_t i = 0; i < a.size(); i++) check(R.origIndsA[i] == a[i] && R.newInds[a[i]] == i, "block-index", "A index");
    for (size_t i = 0; i < b.size(); i++) check(R.origIndsB[i] == b[i] && R.newInds[b[i]] == i, "block-index", "B index");
    auto blk = [&](const std::vector<size_t>& x, const std::vector<size_t>& y) {
      D<T> Z(x.size(), y.size());
      for (size_t i = 0; i < x.size(); i++)
        for (size_t j = 0; j < y.size(); j++) Z(i, j) = Q(x[i], y[j]);
      return Z;
    };
    sameM<T>(R.AA, blk(a, a), "block-AA");
    sameM<T>(R.AB, blk(a, b), "block-AB");
    if (bSide) {
      sameM<T>(R.BA, blk(b, a), "block-BA");
      sameM<T>(R.BB, blk(b, b), "block-BB");
    } else check(R.BA.size() == 0 && R.BB.size() == 0, "block-B", "B side built although not asked for");
    Vector<T> v = randVec<T>(r, n), va, vb;
    decomposeVector(R, v, va, vb);
    for (size_t i = 0; i < a.size(); i++) check(va[i] == v[a[i]], "decompose-vector", "A");
    for (size_t i = 0; i < b.size(); i++) check(vb[i] == v[b[i]], "decompose-vector", "B");
    check(va.rows() == (long)a.size() && vb.rows() == (long)b.size(), "decompose-vector", "size");
    check(reassembleVector(R, va, vb) == v, "reassemble-vector", "vector differs");
  }
  auto un = unpackMatrixToStdVector<T>(A);
  check(un.size() == n, "unpack", "rows");
  for (size_t i = 0; i < n; i++) {
    check(un[i].size() == m, "unpack", "columns");
    for (size_t j = 0; j < m; j++) check(un[i][j] == A(i, j), "unpack", "entry ", i, " ", j);
  }
  // text format: 16 significant digits
  auto close = [&](const D<T>& X, const char* key) {
    check(X.rows() == A.rows() && X.cols() == A.cols(), key, "size ", X.rows(), "x", X.cols(), " expected ", n, "x", m);
    for (long i = 0; i < X.size(); i++) check(std::abs(X.data()[i] - A.data()[i]) <= 1e-6 * TN<T>::eps() * std::abs(A.data()[i]), key, "entry");
  };
  std::stringstream ss, sd;
  saveSparseMatrix(ss, S);
  D<T> Ad = A;
  saveDenseMatrix(sd, Ad);
  close(D<T>(loadSparseMatrix<T>(ss)), "sparse-roundtrip");
  close(loadDenseMatrix<T>(sd), "dense-roundtrip");
  if (r.coin(0.1)) {
    char dir[] = "/tmp/vf_c08_XXXXXX";
    check(mkdtemp(dir) != nullptr, "tmp", "mkdtemp");
    std::string fs = std::string(dir) + "/s.txt", fd = std::string(dir) + "/d.txt";
    saveSparseMatrix(fs, S);
    saveDenseMatrix(fd, Ad);
    D<T> s2(loadSparseMatrix<T>(fs)), d2 = loadDenseMatrix<T>(fd);
    unlink(fs.c_str());
    unlink(fd.c_str());
    throws([&]() { loadSparseMatrix<T>(fs); }, "load-missing", "sparse");
    throws([&]() { loadDenseMatrix<T>(fd); }, "load-missing", "dense");
    throws([&]() { saveSparseMatrix(fs + "/x", S); }, "save-unwritable", "sparse");
    rmdir(dir);
    close(s2, "sparse-file");
    close(d2, "dense-file");
  }
  c.count("utility cases");
}
static void famComplex(Ctx& c) {
  Rng& r = c.rng;
  size_t n = r.below(10), m = r.below(10);
  D<cd> A = sparsish<cd>(r, n, m, r.u());
  observe<cd>(c, A);
  c.sig(n * 31 + m);
  D<double> R = D<double>(complexToReal(fromDense<cd>(r, A)));
  check(R.rows() == (long)(2 * n) && R.cols() == (long)(2 * m), "complexToReal-size", "size");
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < m; j++)
      check(R(2 * i, 2 * j) == A(i, j).real() && R(2 * i + 1, 2 * j + 1) == A(i, j).real() && R(2 * i + 1, 2 * j) == A(i, j).imag() && R(2 * i, 2 * j + 1) == -A(i, j).imag(), "complexToReal", "block ", i, " ", j);
  Vector<cd> v = randVec<cd>(r, m);
  Vector<double> rvv = complexToReal(v);
  check(rvv.rows() == (long)(2 * m), "complexToReal-vector", "size");
  for (size_t i = 0; i < m; i++) check(rvv[2 * i] == v[i].real() && rvv[2 * i + 1] == v[i].imag(), "complexToReal-vector", "entry ", i);
  check(realToComplex(rvv) == v, "realToComplex", "roundtrip");
  check((complexToReal(Vector<cd>(A * v)) - R * rvv).norm() <= 1e-12 * (1 + A.norm() * v.norm()), "complexToReal-product", "products differ");
}
// arbitrary text is read or rejected, within memory bounds
static void famText(Ctx& c) {
  Rng& r = c.rng;
  D<double> A = sparsish<double>(r, 1 + r.below(4), 1 + r.below(4), 0.7);
  bool dense_ = r.coin();
  std::stringstream ss;
  SparseMatrix<double> S = fromDense<double>(r, A);
  if (dense_) saveDenseMatrix(ss, A);
  else saveSparseMatrix(ss, S);
  std::string t = ss.str();
  for (int k = 0, K = 1 + r.below(4); k < K; k++) {
    int op = r.below(5);
    if (op == 0) t = t.substr(0, r.below(t.size() + 1));
    else if (op == 1 && t.size()) t[r.below(t.size())] = "0123456789 \n#-.ae"[r.below(17)];
    else if (op == 2) t.insert(r.below(t.size() + 1), std::string(1, "0123456789 \n#-.ae"[r.below(17)]));
    else if (op == 3 && t.size()) t.erase(r.below(t.size()), 1 + r.below(4));
    else { size_t p = t.find('\n'); if (p != std::string::npos) t += t.substr(p + 1); }
  }
  // keep declared sizes within memory
  {
    std::istringstream is(t);
    std::string line;
    while (getline(is, line)) {
      std::istringstream ls(line);
      std::string tok;
      while (ls >> tok) { double v = atof(tok.c_str()); if (std::abs(v) > 3000) throw Skip("large matrix"); }
    }
  }
  for (char ch : t) c.sig(ch);
  c.note = t;
  std::istringstream in(t);
  std::streambuf* old = std::cout.rdbuf(nullptr);
  try {
    if (dense_) {
      D<double> M = loadDenseMatrix<double>(in);
      double s = 0;
      for (long i = 0; i < M.size(); i++) {
        check(M.data()[i] != -6.0438515711441e-66 && std::abs(M.data()[i]) < 1e30, "dense-text-value", "entry which is not in the file");
        s += M.data()[i];
      }
      if (s == 1234567) c.count("never");
    } else {
      SparseMatrix<double> M = loadSparseMatrix<double>(in);
      for (int k = 0; k < M.outerSize(); k++)
        for (SparseMatrix<double>::InnerIterator it(M, k); it; ++it) check(it.row() >= 0 && it.row() < M.rows(), "sparse-text-index", "row index");
    }
    c.count("texts read");
  } catch (Violation&) {
    std::cout.rdbuf(old);
    std::cout.clear();
    throw;
  } catch (std::exception& e) {
    c.count("texts rejected");
  }
  std::cout.rdbuf(old);
  std::cout.clear();
}
static void famEmpty(Ctx& c) { // systems without unknowns arise when every vertex is constrained
  SparseMatrix<double> Z(0, 0);
  Vector<double> b(0);
  c.sig(1);
  PositiveDefiniteSolver<double> s(Z);
  check(s.solve(b).rows() == 0, "empty-pd", "size");
  Solver<double> q(Z);
  check(q.solve(b).rows() == 0, "empty-qr", "size");
}
int main(int argc, char** argv) {
  Suite S;
#define ALL(n, w, f) S.add(n " double", w, f<double>); S.add(n " complex", w, f<cd>); S.add(n " float", w, f<float>);
  ALL("square", 3, famSquare)
  ALL("positive definite", 3, famPD)
  ALL("QR", 4, famQR)
  ALL("invalid", 2, famInvalid)
  ALL("eigen", 2, famEig)
  ALL("utilities", 2, famUtil)
  S.add("complex to real", 2, famComplex);
  S.add("matrix text", 5, famText);
  S.add("empty", 1, famEmpty);
  return run(S, argc, argv);
}
