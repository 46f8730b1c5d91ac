// P06: runs start at zero, advance monotonically, end at the final time; automatic steps are stable; bad options are rejected.
#include "em.hpp"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
using namespace em;

static Setup tiny(Rng& r, Shape s)
{
   Draw d; d.materials = false; d.interior = false; d.distort = r.coin(); d.budget = s == SEG ? 5 : 2; d.maxOrder = 2; return randomProblem(r, s, d);
}
static void advance(Rng& r, Shape s, int i, const char* what)
{
   Setup u = tiny(r, s); u.op = s == SEG ? r.pick({ Global, Maxwell }) : Global; const int kind = r.below(6); u.dt = r.logu(1e-7, 0.5); double k = r.range(1, 40);
   switch (kind) { case 0: u.tf = k * u.dt; break; case 1: u.tf = (k + r.uni(0.01, 0.99)) * u.dt; break; case 2: u.tf = r.uni(0.01, 0.99) * u.dt; break; case 3: u.tf = (k + r.logu(1e-7, 1e-3)) * u.dt; break; case 4: u.tf = (k - r.logu(1e-7, 1e-3)) * u.dt; break; default: { double s = 0; for (int q = 0; q < k; q++) { s += u.dt; } u.tf = s; } }
   u.dt = std::min(u.dt, 1e3); M.label(fmt("%s %d", what, i)); const std::string ds = u.str() + fmt(" dt=%.17g tf=%.17g", u.dt, u.tf); Quiet q; auto so = u.solver(); M.expect(so->getTime() == 0.0, "starts-at-zero", ds); M.expect(so->getTimeStep() == u.dt, "configured-step", ds);
   if (r.coin()) { // watched step by step, like run() does
      double t = 0; int n = 0; bool ok = true; std::string bad; while (so->getTime() <= u.tf - 1e-8 * u.dt && n < 100) { so->step(); n++; double d = so->getTime() - t; const bool last = so->getTime() > u.tf - 1e-8 * u.dt; if (!(d > 0) || (!last && std::abs(d - u.dt) > 1e-12 * (u.dt + u.tf)) || (last && d > u.dt * (1 + 1e-9))) { ok = false; bad = fmt(" step %d advanced %.17g", n, d); } t = so->getTime(); }
      M.expect(ok, "step-size", ds + bad); M.expect(n == (int)std::ceil(u.tf / u.dt - 2e-8) || n == (int)std::ceil(u.tf / u.dt - 1e-9) || n == (int)std::ceil(u.tf / u.dt), "step-count", ds + fmt(" n=%d", n)); M.event("stepped", ds);
   }
   else { so->run(); M.event("run", ds); }
   M.expect(so->getTime() <= u.tf * (1 + 1e-14) && so->getTime() >= u.tf - 1.01e-8 * u.dt, "ends-at-final", ds + fmt(" time=%.17g", so->getTime())); const double end = so->getTime(); so->run(); M.expect(so->getTime() == end, "stays-at-final", ds);
}
SECTION(advance_1d) { auto r = M.rng("adv"); for (int i = 0; i < M.n(400, 4000); i++) { advance(r, SEG, i, "seg"); } }
SECTION(advance_2d3d) { auto r = M.rng("adv"); for (int i = 0; i < M.n(40, 300); i++) { advance(r, r.pick({ TRI, QUAD, TET, HEX }), i, "nd"); } }

// The final step is really integrated with the remaining time: run in unequal steps against one of exactly that length.
SECTION(last_step)
{
   auto r = M.rng("last"); for (int i = 0; i < M.n(60, 600); i++) {
      Setup u = tiny(r, SEG); u.sources.add(std::make_unique<InitialField>(Gaussian(0.3, mfem::Vector({ 0.4 }), 1), E, vec3(unit(P3{ 0, r.uni(-1, 1), r.uni(0.2, 1) })), mfem::Vector({ 0.4 }))); u.dt = 1e-3; const int k = r.range(0, 6); const double f = r.uni(0.05, 0.95); u.tf = (k + f) * u.dt; M.label(fmt("last %d", i)); Quiet q; auto a = u.solver(); a->run();
      Setup w = u; w.tf = k * u.dt; auto b = w.solver(); if (k) { b->run(); } b->setTimeStep(f * u.dt); b->setFinalTime(1e9); b->step(); double e = 0, m = 0; for (auto ft : { E, H }) for (auto c : { X, Y, Z }) { e = std::max(e, maxDiff(a->getFields().get(ft, c), b->getFields().get(ft, c))); m = std::max(m, maxAbs(a->getFields().get(ft, c))); }
      M.near(e / std::max(m, 1e-12), 0, 1e-10, "last-step-length", u.str() + fmt(" k=%d f=%g", k, f)); M.event("last step", u.str() + fmt("%d %.3f", k, f));
   }
}

static double growth(std::complex<double> z) { return std::abs(1.0 + z * (1.0 + z / 2.0 * (1.0 + z / 3.0 * (1.0 + z / 4.0)))); }
// largest amplification of one explicit step over all eigenvectors of the operator
static double amplification(maxwell::Solver& so)
{
   auto* op = so.getEvolTDO(); const int n = op->Height(); Eigen::MatrixXd A(n, n); mfem::Vector e(n), y(n); for (int j = 0; j < n; j++) { e = 0.0; e[j] = 1; y = 0.0; op->Mult(e, y); for (int k = 0; k < n; k++) { A(k, j) = y[k]; } }
   Eigen::EigenSolver<Eigen::MatrixXd> es(A, false); double g = 0; for (int k = 0; k < n; k++) { g = std::max(g, growth(es.eigenvalues()[k] * so.getTimeStep())); } return g;
}
// CFL factor up to which the automatic step is claimed stable; simplices need less than one, see the findings.
static double claimed(Shape s, EvolutionOperatorType op) { switch (s) { case SEG: return 1.0; case TRI: return 0.55; case TET: return op == Hesthaven ? 0.35 : 0.6; case HEX: return op == Hesthaven ? 0.45 : 0.8; default: return 0.7; } }
static void stable(Shape s, int count, int budget, int maxOrder, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Draw d; d.budget = budget; d.maxOrder = maxOrder; d.materials = r.coin(0.2); d.interior = r.coin(0.3); d.minOrder = s == SEG || r.coin(0.1) ? 0 : 1; d.alphas = { 1.0, 1.0, 0.5, 0.0 }; Setup u = randomProblem(r, s, d);
      u.op = s == SEG ? r.pick({ Global, Maxwell }) : d.materials ? Global : r.pick({ Global, Hesthaven, Maxwell }); if (u.op == Hesthaven) { u.basis = mfem::BasisType::GaussLobatto; u.order = std::max(u.order, 1); } if (u.order == 0) { u.basis = mfem::BasisType::GaussLegendre; } u.dt = 0; u.cfl = claimed(s, u.op); u.tf = 1.0; M.label(fmt("%s %d", what, i)); const std::string ds = describe(u) + " " + opName(u.op);
      Quiet q; auto so = u.solver(); const double dt = so->getTimeStep(); if (!M.expect(std::isfinite(dt) && dt > 0, "auto-positive", ds + fmt(" dt=%g", dt))) { continue; }
      Setup w = u; w.cfl = r.logu(0.05, 3); M.near(w.solver()->getTimeStep() / (dt * w.cfl / u.cfl), 1, 1e-12, "auto-proportional", ds);
      const double f = r.logu(0.1, 10); w = u; for (auto& x : w.g.x) { x = f * x; } M.near(w.solver()->getTimeStep() / (f * dt), 1, 1e-9, "auto-scales-with-mesh", ds);
      if (s != SEG) { w = u; w.g.shuffle(r); M.near(w.solver()->getTimeStep() / dt, 1, u.op == Hesthaven ? 1e-6 : 1e-9, "auto-numbering", ds); }
      if (so->getEvolTDO()->Height() > 500) { M.event("too large for eigenvalues", ds); continue; } const double g = amplification(*so); M.expect(g <= 1 + 1e-7, fmt("auto-stable-%s-%s", shapeName(s), opName(u.op)), ds + fmt(" dt=%g amplification=%.9g", dt, g)); M.event(fmt("stability of %s", shapeName(s)), ds);
   }
}
SECTION(stable_1d2d) { stable(SEG, M.n(120, 1200), 6, 6, "seg"); stable(TRI, M.n(60, 500), 3, 3, "tri"); stable(QUAD, M.n(60, 500), 4, 3, "quad"); }
SECTION(stable_tet) { stable(TET, M.n(12, 80), 2, 1, "tet"); }
SECTION(stable_hex) { stable(HEX, M.n(14, 100), 3, 1, "hex"); stable(HEX, M.n(2, 20), 2, 2, "hex2"); }
// The default CFL factor on regular simplex meshes.
SECTION(default_cfl)
{
   struct C { Shape s; EvolutionOperatorType op; int order; std::array<int, 3> n; } cs[] = { { SEG, Global, 1, { 6, 1, 1 } }, { SEG, Global, 3, { 6, 1, 1 } }, { QUAD, Global, 1, { 2, 2, 1 } }, { QUAD, Hesthaven, 3, { 2, 2, 1 } }, { HEX, Global, 1, { 2, 2, 1 } }, { TRI, Global, 1, { 2, 2, 1 } }, { TRI, Global, 2, { 2, 2, 1 } }, { TRI, Hesthaven, 1, { 2, 2, 1 } }, { TET, Global, 1, { 2, 1, 1 } }, { TET, Hesthaven, 1, { 2, 1, 1 } } };
   for (auto& c : cs) { Setup u; u.g = box(c.s, c.n); u.g.tagExterior([](const P3&, const P3&) { return 1; }); u.bdr.insert({ 1, BdrCond::PEC }); u.order = c.order; u.op = c.op; u.dt = 0; u.cfl = 1; Quiet q; auto so = u.solver(); const double g = amplification(*so); const std::string key = fmt("default-cfl-%s-%s-o%d", shapeName(c.s), opName(c.op), c.order); M.label(key); M.expect(g <= 1 + 1e-7, key, fmt("amplification per step %.6g", g)); M.event("default CFL", key); }
}

SECTION(rejected)
{
   auto r = M.rng("rej"); for (int i = 0; i < M.n(60, 300); i++) {
      Setup u = tiny(r, r.pick({ SEG, TRI, QUAD })); u.dt = r.coin() ? 0.0 : 1e-3; u.tf = 1e-2; std::string why; switch (r.below(4)) { case 0: u.tf = -r.logu(1e-12, 10); why = "final-time"; break; case 1: u.cfl = r.coin() ? 0.0 : -r.logu(1e-6, 10); why = "cfl"; break; case 2: u.order = -r.range(1, 3); why = "order"; break; default: why = ""; }
      const std::string ds = u.str() + fmt(" tf=%g cfl=%g dt=%g", u.tf, u.cfl, u.dt); M.label(ds); Quiet q; auto go = [&] { auto s = u.solver(); (void)s; }; if (why.empty()) { M.nothrow(go, "accepted", ds); } else { M.throws(go, "rejects-" + why, ds); } M.event(why.empty() ? "accepted" : "rejected " + why, ds);
   }
}
HARNESS_MAIN
