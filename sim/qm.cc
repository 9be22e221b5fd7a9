#include "qm.h"
namespace qm {
Mat kron(const Mat& a, const Mat& b) { Mat r(a.rows() * b.rows(), a.cols() * b.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r.block(i * b.rows(), j * b.cols(), b.rows(), b.cols()) = a(i, j) * b; return r; }
Mat id(int n) { return Mat::Identity(n, n); }
Mat lower(int n) { Mat a = Mat::Zero(n, n); for (int i = 1; i < n; ++i) a(i - 1, i) = std::sqrt(double(i)); return a; }
static void unravel(const std::vector<size_t>& dims, size_t n, std::vector<size_t>& ix) { for (int k = int(dims.size()) - 1; k >= 0; --k) { ix[k] = n % dims[k]; n /= dims[k]; } }
Mat embed(const std::vector<size_t>& dims, const std::vector<int>& slots, const Mat& op) {
  size_t N = 1; for (auto d : dims) N *= d; Mat r = Mat::Zero(N, N); std::vector<size_t> a(dims.size()), b(dims.size());
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { unravel(dims, i, a); unravel(dims, j, b);
    bool same = true; for (size_t k = 0; k < dims.size(); ++k) { bool in = false; for (int s : slots) in |= size_t(s) == k; if (!in && a[k] != b[k]) same = false; }
    if (!same) continue; size_t x = 0, y = 0; for (int s : slots) { x = x * dims[s] + a[s]; y = y * dims[s] + b[s]; } r(i, j) = op(x, y); }
  return r; }
Mat ptrace(const std::vector<size_t>& dims, const std::vector<int>& keep, const Mat& rho) {
  size_t N = rho.rows(), M = 1; for (int k : keep) M *= dims[k]; Mat r = Mat::Zero(M, M); std::vector<size_t> a(dims.size()), b(dims.size());
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { unravel(dims, i, a); unravel(dims, j, b);
    bool same = true; for (size_t k = 0; k < dims.size(); ++k) { bool in = false; for (int s : keep) in |= size_t(s) == k; if (!in && a[k] != b[k]) same = false; }
    if (!same) continue; size_t x = 0, y = 0; for (int s : keep) { x = x * dims[s] + a[s]; y = y * dims[s] + b[s]; } r(x, y) += rho(i, j); }
  return r; }
Dyn embed(const std::vector<size_t>& dims, const std::vector<int>& slots, const Dyn& d) { Dyn r; r.K = embed(dims, slots, d.K); for (auto& m : d.mod) r.mod.push_back({embed(dims, slots, m.M), m.w, m.phi}); for (auto& j : d.J) { Jump q = j; q.M = embed(dims, slots, j.M); r.J.push_back(q); } return r; }
void add(Dyn& a, const Dyn& b) { if (a.K.size() == 0) a.K = b.K; else a.K += b.K; a.mod.insert(a.mod.end(), b.mod.begin(), b.mod.end()); a.J.insert(a.J.end(), b.J.begin(), b.J.end()); }
Mat rndMat(sim::Prng& p, int n, double s) { Mat m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = dcomp(p.unit() - .5, p.unit() - .5) * 2. * s; return m; }
Mat rndHerm(sim::Prng& p, int n, double s) { Mat m = rndMat(p, n, s); return (m + m.adjoint()) / 2.; }

Vec expmv(const Mat& K, double dt, const Vec& psi) {
  double nrm = K.cwiseAbs().rowwise().sum().maxCoeff() * std::fabs(dt); int s = std::max(1, int(std::ceil(nrm / .5))); double h = dt / s; Vec v = psi;
  for (int q = 0; q < s; ++q) { Vec term = v, acc = v; for (int k = 1; k <= 16; ++k) { term = K * term * (h / k); acc += term; } v = acc; } return v; }
Vec evolve(const Dyn& d, Vec psi, double t0, double t1) {
  if (!d.timeDep()) return expmv(d.K, t1 - t0, psi);
  double nrm = scale(d) * std::fabs(t1 - t0); int n = std::max(8, int(std::ceil(nrm * 150))); double h = (t1 - t0) / n;
  for (int i = 0; i < n; ++i) { double t = t0 + i * h; Mat A = d.Kt(t), B = d.Kt(t + h / 2), C = d.Kt(t + h); Vec k1 = A * psi, k2 = B * (psi + h / 2 * k1), k3 = B * (psi + h / 2 * k2), k4 = C * (psi + h * k3); psi += h / 6 * (k1 + 2. * k2 + 2. * k3 + k4); }
  return psi; }
Mat lindblad(const Dyn& d, double t, const Mat& rho) { Mat x = d.Kt(t) * rho, r = x + rho * d.Kt(t).adjoint(); for (auto& j : d.J) { Mat m = j.at(t); r += m * rho * m.adjoint(); } return r; }
double scale(const Dyn& d) { double r = d.K.cwiseAbs().rowwise().sum().maxCoeff(); for (auto& m : d.mod) r += m.M.cwiseAbs().rowwise().sum().maxCoeff() + std::fabs(m.w); for (auto& j : d.J) r += std::pow(j.M.cwiseAbs().rowwise().sum().maxCoeff(), 2); return r; }
Mat evolveRho(const Dyn& d, Mat rho, double t0, double t1) {
  double nrm = 2 * scale(d) * std::fabs(t1 - t0);
  if (!d.timeDepJ()) { int n = std::max(1, int(std::ceil(nrm / .7))); double h = (t1 - t0) / n; for (int i = 0; i < n; ++i) { Mat term = rho, acc = rho; for (int k = 1; k <= 14; ++k) { term = lindblad(d, t0, term) * (h / k); acc += term; } rho = acc; } return rho; }
  int n = std::max(4, int(std::ceil(nrm * 40))); double h = (t1 - t0) / n;
  for (int i = 0; i < n; ++i) { double t = t0 + i * h; Mat k1 = lindblad(d, t, rho), k2 = lindblad(d, t + h / 2, rho + h / 2 * k1), k3 = lindblad(d, t + h / 2, rho + h / 2 * k2), k4 = lindblad(d, t + h, rho + h * k3); rho += h / 6 * (k1 + 2. * k2 + 2. * k3 + k4); }
  return rho; }

Vec drawState(const std::vector<bool>& top, bool avoidTop) {
  int N = int(top.size()); Vec v = Vec::Zero(N); int how = int(sim::draw(4)); sim::Prng p(sim::draw(1u << 20));
  std::vector<int> ok; for (int i = 0; i < N; ++i) if (!avoidTop || !top[i]) ok.push_back(i);
  if (how == 0) v(ok[p.below(ok.size())]) = 1.;                                                  // a basis state
  else if (how == 1) { for (int k = 0; k < 3; ++k) v(ok[p.below(ok.size())]) += dcomp(p.unit() - .5, p.unit() - .5); }
  else for (int i : ok) v(i) = dcomp(p.unit() - .5, p.unit() - .5);
  if (v.norm() < 1e-3) { v.setZero(); v(ok[0]) = 1.; }
  return v / v.norm(); }
}
