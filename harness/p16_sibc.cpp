// Surface-impedance fits: stable, truthful about their error, of least order, and failing openly.
#include "common.hpp"
#include "components/SIBCPoleResidueFitting.h"
using namespace mon; using namespace maxwell;
using C = std::complex<double>; using CL = std::complex<long double>;
namespace maxwell { __attribute__((weak)) FitResult calcPolesAndResidues(const std::vector<double>&, const Eigen::VectorXcd&, int); }

struct Case { double ep, mu, sg, w, f0, f1; int np; std::string str() const { return fmt("eps=%.6g mu=%.6g sigma=%.6g width=%.6g band=%.6g..%.6g points=%d", ep, mu, sg, w, f0, f1, np); } };
static SGBCProperties props(const Case& c, int layers = 1) { SGBCProperties p; for (int i = 0; i < layers; i++) { p.layers.push_back({ Material(c.ep, c.mu, c.sg), c.w / layers }); } return p; }
// Impedance of a layer of given width seen with its back open, in extended precision.
static C target(const Case& c, double f)
{
   const long double pi = std::acos(-1.0L), mu0 = 4e-7L * pi, e0 = 8.8541878188e-12L, w = 2 * pi * f; CL ep(e0 * c.ep, -(long double)c.sg / w), eta = std::sqrt(CL(mu0 * c.mu) / ep), g = CL(0, w) * std::sqrt(CL(mu0 * c.mu) * ep) * (long double)c.w;
   CL e2 = std::exp(-2.0L * g), z = eta * (1.0L + e2) / (1.0L - e2); return C((double)z.real(), (double)z.imag());
}
static std::vector<double> grid(const Case& c) { std::vector<double> f(c.np); for (int i = 0; i < c.np; i++) { f[i] = c.f0 * std::pow(c.f1 / c.f0, i / double(c.np - 1)); } return f; }

// The deviation of the returned model from the impedance on the grid, and how far rounding may move it.
static double deviation(const FitResult& r, const std::vector<double>& f, const std::function<C(double)>& tg, double& slack)
{
   double worst = 0; slack = 0; for (double q : f) {
      C s(0, 2 * M_PI * q), z = 0, t = tg(q); double mag = 0; for (int j = 0; j < r.poles.size(); j++) { C d = r.residues[j] / (s - r.poles[j]); z += d; mag += std::abs(d) * (1 + 600 * std::abs(s) / std::abs(s - r.poles[j])); }
      worst = std::max(worst, std::abs(z - t) / std::abs(t)); slack = std::max(slack, 1e-15 * mag / std::abs(t)); } return worst;
}
static void judge(const FitResult& r, const Case& c, int maxPoles, const std::string& what)
{
   M.expect(r.N >= 0 && r.N <= maxPoles, "order-out-of-range", fmt("N=%d of %d ", r.N, maxPoles) + what);
   if (!r.stable) { M.expect(r.N == 0 && !(r.max_error < 1e8), "failure-looks-like-a-model", what); M.event("failed", what); return; }
   M.expect(r.N == r.poles.size() && r.N == r.residues.size(), "order-differs-from-number-of-poles", what);
   for (int i = 0; i < r.poles.size(); i++) { M.expect(std::isfinite(r.poles[i].real()) && std::isfinite(r.poles[i].imag()) && std::isfinite(r.residues[i].real()) && std::isfinite(r.residues[i].imag()), "not-finite", what); M.expect(r.poles[i].real() <= 1e-6, "growing-pole-reported-stable", fmt("pole %.6g%+.6gi ", r.poles[i].real(), r.poles[i].imag()) + what); }
   double slack, d = deviation(r, grid(c), [&](double f) { return target(c, f); }, slack);
   M.near(r.max_error, d, 1e-6 * d + 4 * slack + 1e-9, "reported-error", fmt("N=%d reported %.9g actual %.9g ", r.N, r.max_error, d) + what); M.event("fitted", what + fmt(" N=%d", r.N));
}
static Case draw(Rng& r)
{
   Case c; switch (r.below(4)) {
   case 0: c = { 1, r.coin() ? 1 : r.uni(1, 50), r.logu(1e4, 1e8), r.logu(1e-6, 1e-3) }; break; // metals
   case 1: c = { r.uni(1, 12), 1, r.coin() ? 0.0 : r.logu(1e-14, 1e-6), r.logu(1e-5, 1e-2) }; break; // dielectrics
   case 2: c = { r.uni(2, 90), r.uni(1, 3), r.logu(1e-3, 50), r.logu(1e-4, 5e-2) }; break; // lossy
   default: c = { r.logu(1, 20), r.logu(1, 20), r.logu(1e-6, 1e6), r.logu(1e-6, 1e-1) }; }
   c.f0 = r.logu(1e3, 1e9); c.f1 = c.f0 * r.logu(3, 1e4); c.np = r.range(20, 120); return c;
}
SECTION(truthful)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(400, 20000); i++) {
      Case c = draw(r); const int mp = r.range(1, 7); const double tol = r.logu(1e-6, 0.3); M.label(c.str() + fmt(" max=%d tol=%.3g", mp, tol));
      auto f = findOptimalPoles(props(c), c.f0, c.f1, c.np, mp, tol); judge(f, c, mp, M.labelText);
      // same input, same answer; a layer cut in equal pieces is the same conductor
      auto g = findOptimalPoles(props(c), c.f0, c.f1, c.np, mp, tol); M.expect(g.N == f.N && g.max_error == f.max_error && g.stable == f.stable && g.poles == f.poles && g.residues == f.residues, "not-repeatable");
      if (f.stable && f.max_error > 1e-9 && r.coin(0.3)) { Case c2 = c; auto h = findOptimalPoles(props(c2, 2), c.f0, c.f1, c.np, mp, tol); judge(h, c, mp, "two pieces " + M.labelText); }
   }
}
// Allowing more poles never makes the answer worse, and the least sufficient order is the one returned.
SECTION(order)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(100, 4000); i++) {
      Case c = draw(r); c.np = r.range(20, 60); const double tol = r.logu(1e-4, 0.1); M.label(c.str() + fmt(" tol=%.3g", tol)); std::vector<FitResult> v;
      for (int k = 0; k <= 6; k++) { v.push_back(findOptimalPoles(props(c), c.f0, c.f1, c.np, k, tol)); judge(v[k], c, k, M.labelText + fmt(" max=%d", k)); }
      M.expect(!v[0].stable && v[0].N == 0, "model-without-poles");
      for (int k = 1; k <= 6; k++) {
         M.expect(!(v[k].max_error > v[k - 1].max_error), "more-poles-made-it-worse", fmt("%d: %.9g, %d: %.9g", k, v[k].max_error, k - 1, v[k - 1].max_error));
         if (v[k].stable && v[k].max_error < tol) { M.expect(v[v[k].N - 1].N == 0 || !(v[v[k].N - 1].max_error < tol), "lower-order-was-enough"); M.expect(v[k].N == v[v[k].N].N && v[k].max_error == v[v[k].N].max_error, "least-order-not-returned"); }
      }
      M.event("order-sweep", M.labelText);
   }
}
// Conductors, dielectrics and lossy materials of ordinary use reach their tolerance.
SECTION(ordinary)
{
   struct K { const char* n; Case c; int N; double tol; };
   const std::vector<K> ks{ { "copper", { 1, 1, 5.8e7, 100e-6, 1e6, 1e9, 200 }, 8, 0.02 }, { "teflon", { 2.1, 1, 1e-12, 100e-6, 1e6, 1e9, 200 }, 1, 0.02 }, { "saltwater", { 81, 1, 4, 1e-2, 1e6, 1e9, 200 }, 5, 0.02 }, { "thin resistor", { 1, 1, 100, 1e-5, 1e3, 1e6, 100 }, 2, 0.02 } };
   for (auto& k : ks) { M.label(k.n); auto f = findOptimalPoles(props(k.c), k.c.f0, k.c.f1, k.c.np, 10, k.tol); judge(f, k.c, 10, k.n); M.expect(f.stable && f.max_error < k.tol && f.N <= k.N, "ordinary-material-not-fitted", fmt("%s N=%d error %.3g stable %d", k.n, f.N, f.max_error, f.stable)); }
}
// Impedances that are sums of decaying conjugate pole pairs are recovered.
SECTION(recovered)
{
   if (!&calcPolesAndResidues) { return; } auto r = M.rng();
   for (int i = 0; i < M.n(400, 20000); i++) {
      const int pairs = r.range(0, 2), single = r.range(pairs ? 0 : 1, 2), n = 2 * pairs + single; std::vector<C> p, q; const double w0 = r.logu(1e3, 1e10);
      for (int k = 0; k < pairs; k++) { C a(-w0 * r.uni(0.05, 0.6), w0 * (0.4 + 1.2 * k + r.uni(0, 0.4))), b(w0 * r.normal(), w0 * r.normal()); p.push_back(a); q.push_back(b); p.push_back(std::conj(a)); q.push_back(std::conj(b)); }
      for (int k = 0; k < single; k++) { p.push_back(-w0 * (0.2 + 0.8 * k + r.uni(0, 0.3))); q.push_back(w0 * (r.coin() ? 1 : -1) * r.uni(0.5, 2)); }
      std::vector<double> f; for (int k = 0; k < 80; k++) { f.push_back(w0 / (2 * M_PI) * std::pow(10, -1.5 + 2.0 * k / 79)); } Eigen::VectorXcd z(80); double lo = 1e300, hi = 0; for (int k = 0; k < 80; k++) { C s(0, 2 * M_PI * f[k]), t = 0; for (int j = 0; j < n; j++) { t += q[j] / (s - p[j]); } z[k] = t; lo = std::min(lo, std::abs(t)); hi = std::max(hi, std::abs(t)); }
      M.label(fmt("order %d w0=%.6g case %d", n, w0, i)); if (lo < 1e-2 * hi) { M.event("skipped"); continue; }
      auto g = calcPolesAndResidues(f, z, n); M.expect(g.stable && g.N == n, "exact-model-unstable"); M.expect(g.max_error < 1e-3, "exact-model-not-recovered", fmt("error %.3g", g.max_error));
      for (auto& a : p) { double d = 1e300; for (int k = 0; k < g.poles.size(); k++) { d = std::min(d, std::abs(g.poles[k] - a)); } M.near(d / w0, 0, 1e-2, "pole-not-recovered"); } M.event("recovered", M.labelText);
   }
   // growing poles are called unstable
   for (int i = 0; i < M.n(200, 5000); i++) {
      const double w0 = r.logu(1e3, 1e10); C p(w0 * r.uni(0.05, 1), r.coin() ? 0.0 : w0 * r.normal()), q(w0 * r.uni(0.5, 2), 0); std::vector<double> f; Eigen::VectorXcd z(40); for (int k = 0; k < 40; k++) { f.push_back(w0 / (2 * M_PI) * std::pow(10, -1 + 2.0 * k / 39)); C s(0, 2 * M_PI * f[k]); z[k] = q / (s - p); }
      M.label(fmt("growing pole %.6g%+.6gi", p.real(), p.imag())); auto g = calcPolesAndResidues(f, z, 1); M.expect(!g.stable, "growing-pole-called-stable"); M.event("growing", M.labelText);
   }
}
SECTION(malformed)
{
   auto r = M.rng(); const double nan = NAN, inf = INFINITY;
   struct Q { const char* n; double w, f0, f1; int np; };
   const std::vector<Q> qs{ { "zero width", 0, 1e6, 1e9, 50 }, { "negative width", -1e-3, 1e6, 1e9, 50 }, { "nan width", nan, 1e6, 1e9, 50 }, { "infinite width", inf, 1e6, 1e9, 50 }, { "zero frequency", 1e-3, 0, 1e9, 50 }, { "negative frequency", 1e-3, -1e6, 1e9, 50 }, { "nan start", 1e-3, nan, 1e9, 50 }, { "nan end", 1e-3, 1e6, nan, 50 }, { "infinite end", 1e-3, 1e6, inf, 50 }, { "empty grid", 1e-3, 1e6, 1e9, 0 }, { "single point", 1e-3, 1e6, 1e9, 1 } };
   auto failed = [&](const std::string& n, std::function<FitResult()> f) { M.label(n); bool ok = false; try { auto q = f(); ok = !q.stable; } catch (const std::exception&) { ok = true; } M.expect(ok, "malformed-accepted", n); M.event("malformed", n); };
   for (auto& q : qs) for (double sg : { 0.0, 1.0, 5.8e7 }) { failed(q.n + fmt(" sigma=%g", sg), [&] { SGBCProperties p; p.layers.push_back({ Material(2, 1, sg), q.w }); return findOptimalPoles(p, q.f0, q.f1, q.np, 4, 0.01); }); }
   failed("no layer", [&] { return findOptimalPoles(SGBCProperties{}, 1e6, 1e9, 50, 4, 0.01); });
   for (int m : { 0, -1 }) { failed(fmt("max poles %d", m), [&] { SGBCProperties p; p.layers.push_back({ Material(2, 1, 1), 1e-3 }); return findOptimalPoles(p, 1e6, 1e9, 50, m, 0.01); }); }
   // extreme but well-formed: whatever comes back is truthful
   for (int i = 0; i < M.n(200, 5000); i++) { Case c{ r.logu(1, 1e6), r.logu(1, 1e6), r.coin(0.2) ? 0.0 : r.logu(1e-20, 1e12), r.logu(1e-12, 1e3), r.logu(1e-3, 1e12), 0, r.range(2, 40) }; c.f1 = c.f0 * r.logu(1.001, 1e6); M.label(c.str()); try { auto f = findOptimalPoles(props(c), c.f0, c.f1, c.np, 4, 0.01);
         if (f.stable) { for (int k = 0; k < f.poles.size(); k++) { M.expect(std::isfinite(std::abs(f.poles[k])) && f.poles[k].real() <= 1e-6, "extreme-pole"); } M.expect(!std::isnan(f.max_error), "extreme-error-nan"); } } catch (const std::exception&) { M.event("rejected"); } M.event("extreme", M.labelText); }
}
HARNESS_MAIN
