// P01: without sources the discrete field energy never grows.
#include "em.hpp"
#include <Eigen/Dense>
using namespace em;

static bool conserving(const Setup& u)
{
   if (u.alpha != 0) { return false; } for (auto& m : u.mats) if (m.second.getConductivity() != 0) { return false; }
   for (auto& b : u.bdr) if (b.second == BdrCond::SMA) { return false; } for (auto& b : u.ibdr) if (b.second == BdrCond::SMA) { return false; } return true;
}
// Whitened operator R^-T-weighted: W = C^T L C^-T with mass = C C^T, so that energy is the Euclidean norm.
static Eigen::MatrixXd whiten(const Eigen::MatrixXd& L, const Energy& en, int nd)
{
   Eigen::MatrixXd C = Eigen::MatrixXd::Zero(6 * nd, 6 * nd);
   for (size_t e = 0; e < en.M.m.size(); e++) {
      auto& d = en.M.dofs[e]; Eigen::MatrixXd m(d.Size(), d.Size()); for (int i = 0; i < d.Size(); i++) for (int j = 0; j < d.Size(); j++) { m(i, j) = en.M.m[e](i, j); }
      Eigen::MatrixXd c = m.llt().matrixL(); for (int k = 0; k < 6; k++) for (int i = 0; i < d.Size(); i++) for (int j = 0; j <= i; j++) { C(k * nd + d[i], k * nd + d[j]) = c(i, j) * std::sqrt(k < 3 ? en.eps[e] : en.mu[e]); }
   }
   Eigen::MatrixXd A = C.transpose() * L; return C.triangularView<Eigen::Lower>().solve(A.transpose()).transpose();
}
static void oneCase(Rng& r, Setup& u, EvolutionOperatorType type, int denseLimit)
{
   Evo ev(u, type); const int n = ev.n(); Energy en(*ev.fes, u.mats); const bool cons = conserving(u); const std::string t = opName(type), ds = describe(u);
   auto judge = [&](const mfem::Vector& x, const char* what) {
      auto y = ev(x); const double s = std::sqrt(en(x, x) * en(y, y)), rate = en(x, y); if (!(s > 0)) { M.expect(s == 0, t + "-finite", ds); return; }
      M.near(std::max(rate / s, 0.0), 0, 2e-11, t + "-growth", fmt("%s state, ", what) + ds); if (cons) { M.near(rate / s, 0, 2e-11, t + "-conserved", fmt("%s state, ", what) + ds); }
   };
   for (int k = 0; k < 3; k++) { judge(randomState(r, n), "random"); }
   { mfem::Vector x(n); x = 0.0; auto& d = en.M.dofs[r.below(ev.fes->GetNE())]; for (int c = 0; c < 6; c++) for (int i = 0; i < d.Size(); i++) { x[c * n / 6 + d[i]] = r.normal(); } judge(x, "single element"); }
   { mfem::Vector x(n); x = 0.0; x[r.below(n)] = 1; judge(x, "single node"); }
   M.event(t + (cons ? " lossless problem" : " dissipative problem"), ds);
   if (n <= denseLimit) {
      Eigen::MatrixXd L(n, n); mfem::Vector x(n); for (int j = 0; j < n; j++) { x = 0.0; x[j] = 1; auto y = ev(x); for (int i = 0; i < n; i++) { L(i, j) = y[i]; } }
      Eigen::MatrixXd W = whiten(L, en, n / 6); const double nrm = W.norm(); Eigen::MatrixXd S = 0.5 * (W + W.transpose());
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(S, Eigen::EigenvaluesOnly); const double top = es.eigenvalues().maxCoeff(), low = es.eigenvalues().minCoeff();
      M.near(std::max(top / nrm, 0.0), 0, 2e-11, t + "-growth-any-state", ds + fmt(" n=%d", n)); if (cons) { M.near(low / nrm, 0, 2e-11, t + "-conserved-any-state", ds); }
      M.event(t + " all states of an operator", ds);
   }
}
static void campaign(Shape s, int count, Draw d, EvolutionOperatorType type, const char* what, int dense)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) { Draw dd = d; if (r.coin(0.3)) { dd.walls = { BdrCond::PEC, BdrCond::PMC }; dd.alphas = { 0.0 }; dd.randomAlpha = false; if (r.coin(0.7)) { dd.conductive = false; } } Setup u = randomProblem(r, s, dd); M.label(fmt("%s %d", what, i)); oneCase(r, u, type, dense); }
}
static Draw gen(int budget, int maxOrder = 0) { Draw d; d.conductive = true; d.budget = budget; d.maxOrder = maxOrder; return d; }
static Draw nodal(int budget, int maxOrder, bool alphaZero) { Draw d; d.materials = false; d.budget = budget; d.maxOrder = maxOrder; d.bases = { mfem::BasisType::GaussLobatto }; if (!alphaZero) { d.alphas = { 1.0 }; } return d; }
SECTION(segments) { campaign(SEG, M.n(400, 5000), gen(6), Global, "global", 260); campaign(SEG, M.n(150, 2000), gen(6), Maxwell, "maxwell", 200); }
SECTION(triangles) { campaign(TRI, M.n(200, 1500), gen(4), Global, "global", 300); campaign(TRI, M.n(80, 500), gen(3), Maxwell, "maxwell", 200); }
SECTION(quads) { campaign(QUAD, M.n(200, 1500), gen(6), Global, "global", 300); campaign(QUAD, M.n(80, 500), gen(4), Maxwell, "maxwell", 200); }
SECTION(tets) { campaign(TET, M.n(80, 500), gen(2, 2), Global, "global", 300); campaign(TET, M.n(25, 120), gen(2, 1), Maxwell, "maxwell", 290); }
SECTION(hexes) { campaign(HEX, M.n(60, 300), gen(4), Global, "global", 300); campaign(HEX, M.n(30, 120), gen(4, 1), Maxwell, "maxwell", 200); }
SECTION(nodal2d) { campaign(TRI, M.n(200, 1500), nodal(4, 3, false), Hesthaven, "tri", 300); campaign(QUAD, M.n(120, 900), nodal(4, 3, false), Hesthaven, "quad", 300); }
SECTION(nodal3d) { campaign(TET, M.n(60, 400), nodal(2, 2, false), Hesthaven, "tet", 300); campaign(HEX, M.n(40, 250), nodal(4, 2, false), Hesthaven, "hex", 200); }
static Draw bent(Draw d) { d.curved = 1; return d; }
SECTION(curved_2d) { for (Shape s : { TRI, QUAD }) { campaign(s, M.n(60, 600), bent(gen(4, 3)), Global, fmt("%s global", shapeName(s)).c_str(), 300); campaign(s, M.n(25, 250), bent(gen(4, 3)), Maxwell, fmt("%s maxwell", shapeName(s)).c_str(), 200); campaign(s, M.n(40, 400), bent(nodal(4, 3, false)), Hesthaven, fmt("%s nodal", shapeName(s)).c_str(), 300); } }
SECTION(curved_3d) { for (Shape s : { TET, HEX }) { campaign(s, M.n(15, 120), bent(gen(s == TET ? 2 : 4, 2)), Global, fmt("%s global", shapeName(s)).c_str(), 200); campaign(s, M.n(15, 120), bent(nodal(s == TET ? 2 : 4, 2, false)), Hesthaven, fmt("%s nodal", shapeName(s)).c_str(), 200); } }

// Time integration: the energy recorded after every step.
static void stepping(Shape s, int count, size_t ode, const char* name, EvolutionOperatorType type = Global)
{
   auto r = M.rng(fmt("%s%s%s", shapeName(s), name, opName(type)));
   for (int i = 0; i < count; i++) {
      Draw d = gen(s == SEG ? 6 : s == TET ? 2 : 4, s == SEG ? 4 : 2); if (r.coin(0.4)) { d.walls = { BdrCond::PEC, BdrCond::PMC }; d.alphas = { 0.0 }; d.randomAlpha = d.conductive = false; } if (type == Hesthaven) { d.materials = d.interior = false; d.bases = { mfem::BasisType::GaussLobatto }; d.alphas = { 1.0 }; d.walls = { BdrCond::PEC, BdrCond::PMC }; d.randomAlpha = false; }
      Setup u = randomProblem(r, s, d); u.op = type; u.ode = ode; const bool cons = conserving(u); M.label(fmt("%s %s %d", name, shapeName(s), i));
      double norm = 0; { Evo ev(u, type); mfem::Vector x = randomState(r, ev.n()); Energy en(*ev.fes, u.mats); for (int k = 0; k < 25; k++) { auto y = ev(x); norm = std::sqrt(en(y, y) / en(x, x)); y *= 1 / maxAbs(y); x = y; } }
      const bool rk = ode == RK4; const int steps = 8; u.dt = (rk ? 0.4 : r.logu(0.3, 30)) / norm; u.tf = u.dt * steps; std::unique_ptr<maxwell::Solver> sv; { Quiet q; sv = u.solver(); }
      auto& f = sv->getFields(); mfem::Vector& all = f.allDOFs(); { auto x = randomState(r, all.Size()); all = x; }
      Energy en(sv->getFES(), u.mats); std::vector<double> E{ en(all, all) }; for (int k = 0; k < steps; k++) { Quiet q; sv->step(); E.push_back(en(all, all)); }
      for (int k = 1; k <= steps; k++) {
         const int back = rk && !cons ? 2 : 1; if (k < back) { continue; } M.near(std::max(E[k] / E[k - back] - 1, 0.0), 0, rk ? 1e-10 : 1e-8, fmt("%s-step-growth", name), describe(u) + fmt(" step %d dt*norm %.3g", k, u.dt * norm));
         if (cons && (ode == Trapezoidal || ode == ImplicitMidpoint)) { M.near(E[k] / E[k - 1], 1, 1e-7, fmt("%s-step-conserved", name), describe(u)); }
         if (cons && rk) { M.near(E[k] / E[k - 1], 1, std::pow(u.dt * norm, 6) / 60, "RK4-step-conserved", describe(u)); }
      }
      M.event(fmt("%s run", name), describe(u) + fmt(" dt*norm=%.4g", u.dt * norm));
   }
}
SECTION(steps_rk4) { for (Shape s : { SEG, TRI, QUAD, TET, HEX }) { stepping(s, M.n(20, 200), RK4, "RK4"); } for (Shape s : { SEG, TRI }) { stepping(s, M.n(15, 150), RK4, "RK4", Maxwell); } stepping(TRI, M.n(4, 40), RK4, "RK4", Hesthaven); }
SECTION(steps_implicit) { for (Shape s : { SEG, TRI, QUAD }) { stepping(s, M.n(15, 150), BackwardEuler, "BackwardEuler"); stepping(s, M.n(15, 150), Trapezoidal, "Trapezoidal"); stepping(s, M.n(15, 150), ImplicitMidpoint, "ImplicitMidpoint"); stepping(s, M.n(15, 150), SDIRK33, "SDIRK33"); stepping(s, M.n(15, 150), SDIRK23, "SDIRK23"); stepping(s, M.n(15, 150), SDIRK34, "SDIRK34"); } }
HARNESS_MAIN
