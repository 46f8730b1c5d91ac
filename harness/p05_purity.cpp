// P05: the time derivative is a pure linear function of the state; runs repeat, split and interleave without a trace.
#include "em.hpp"
using namespace em;

static bool same(const mfem::Vector& a, const mfem::Vector& b) { if (a.Size() != b.Size()) { return false; } for (int i = 0; i < a.Size(); i++) if (std::memcmp(&a[i], &b[i], sizeof(double)) && !(a[i] == 0 && b[i] == 0)) { return false; } return true; }
// A travelling pulse with a smooth profile, for problems with a total-field surface.
static void addWave(Rng& r, Setup& u)
{
   const int dim = u.g.dim(); P3 d{}, p; do { auto q = r.unit(); d = {}; for (int k = 0; k < dim; k++) { d[k] = q[k]; } if (norm(d) < 0.2) { continue; } d = unit(d); p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2);
   u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(r.uni(0.2, 0.8), mfem::Vector({ r.uni(-1, 1) }), 1), vec3(unit(p)), vec3(d), E)));
}
// A state as the integrators produce it: random, sparse, constant, huge, tiny or zero.
static mfem::Vector anyState(Rng& r, int n)
{
   auto x = randomState(r, n); switch (r.below(7)) { case 0: for (int i = 0; i < n; i++) if (!r.coin(0.05)) { x[i] = 0; } break; case 1: x = r.normal(); break; case 2: x *= 1e6; break; case 3: x *= 1e-6; break; case 4: x = 0.0; break; default: break; } return x;
}
static void apply(mfem::TimeDependentOperator& op, const mfem::Vector& x, mfem::Vector& y) { Quiet q; op.Mult(x, y); }

static void pure(Shape s, int count, std::vector<EvolutionOperatorType> types, bool surface, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      const auto type = types[r.below((int)types.size())]; Setup u; Region g; const bool nodal = type == Hesthaven;
      if (surface) { u = surfaceProblem(r, s, g, r.range(1, 2), !nodal, s == TET || s == HEX ? 0 : 1); for (int k = r.range(1, 2); k > 0; k--) { addWave(r, u); } u.alpha = r.coin() ? 1.0 : r.uni(); if (nodal && u.alpha == 0) { u.alpha = 1; } }
      else { Draw d; d.materials = d.conductive = !nodal; d.maxOrder = shapeDim(s) == 3 ? 2 : 3; if (nodal) { d.bases = { mfem::BasisType::GaussLobatto }; } u = randomProblem(r, s, d); }
      const std::string on = opName(type), ds = describe(u) + " " + on; M.label(fmt("%s %d %s", what, i, on.c_str()));
      std::unique_ptr<Evo> A; try { A = std::make_unique<Evo>(u, type); } catch (const std::exception& e) { M.event("unsupported problem"); continue; }
      const int n = A->n(); const double t0 = r.uni(0, 2); A->op->SetTime(t0);
      auto x = anyState(r, n); const mfem::Vector keep(x); mfem::Vector y1(n); y1 = 0.0; apply(*A->op, x, y1);
      M.expect(same(x, keep), on + "-input-modified", ds);
      double fin = 0; for (int k = 0; k < n; k++) { if (!std::isfinite(y1[k])) { fin = 1; } } M.expect(fin == 0, on + "-not-finite", ds);
      // earlier content of the result does not matter
      for (double fill : { std::numeric_limits<double>::quiet_NaN(), 1e300, -7.0 }) { mfem::Vector y(n); y = fill; apply(*A->op, x, y); M.expect(same(y, y1), on + "-depends-on-old-result", ds); }
      // neither do evaluations of other states at other times in between, nor those of another operator
      auto B = r.coin(0.4) ? std::make_unique<Evo>(u, type) : nullptr; const int hist = r.range(1, 5);
      for (int k = 0; k < hist; k++) { auto z = r.coin(0.2) ? mfem::Vector(x) : anyState(r, n); mfem::Vector y(n); y = 0.0; auto& op = B && r.coin() ? *B->op : *A->op; op.SetTime(t0 + (r.coin(0.3) ? 0.0 : r.uni(-1, 2))); apply(op, z, y); }
      A->op->SetTime(t0); { mfem::Vector y(n); y = 0.0; apply(*A->op, x, y); M.expect(same(y, y1), on + "-depends-on-history", ds); }
      if (B) { B->op->SetTime(t0); mfem::Vector y(n); y = 0.0; apply(*B->op, x, y); M.expect(same(y, y1), on + "-rebuilt-differs", ds); }
      // the state may sit anywhere, also in memory right after other data
      { std::vector<double> buf(n + 7, 3.14); const int off = r.below(7); for (int k = 0; k < n; k++) { buf[off + k] = x[k]; } mfem::Vector v(buf.data() + off, n); mfem::Vector y(n); y = 0.0; apply(*A->op, v, y); M.near(maxDiff(y, y1) / std::max(maxAbs(y1), 1e-300), 0, 1e-13, on + "-depends-on-address", ds); }
      // linear around the response to the empty state, which is zero without a source
      auto a = anyState(r, n), b = anyState(r, n); const double ca = r.uni(-2, 2), cb = r.uni(-2, 2); mfem::Vector c(n); for (int k = 0; k < n; k++) { c[k] = ca * a[k] + cb * b[k]; }
      mfem::Vector zero(n), y0(n), ya(n), yb(n), yc(n); zero = 0.0; apply(*A->op, zero, y0); apply(*A->op, a, ya); apply(*A->op, b, yb); apply(*A->op, c, yc); double e = 0, sc = 1e-300; for (int k = 0; k < n; k++) { double w = ca * (ya[k] - y0[k]) + cb * (yb[k] - y0[k]) + y0[k]; e = std::max(e, std::abs(yc[k] - w)); sc = std::max({ sc, std::abs(ca * ya[k]), std::abs(cb * yb[k]), std::abs(yc[k]), std::abs(y0[k]) }); }
      M.near(e / sc, 0, 1e-11, on + "-not-linear", ds); if (!surface) { M.expect(maxAbs(y0) == 0, on + "-nonzero-without-source", ds); }
      // without a source the derivative does not depend on time
      if (!surface) { A->op->SetTime(t0 + r.uni(0.1, 5)); mfem::Vector y(n); y = 0.0; apply(*A->op, x, y); M.expect(same(y, y1), on + "-depends-on-time", ds); }
      M.event(surface ? "evaluations with waves" : "evaluations", ds);
   }
}
SECTION(pure_1d) { pure(SEG, M.n(120, 2000), { Global, Maxwell }, false, "seg"); pure(SEG, M.n(60, 1000), { Global, Maxwell }, true, "seg waves"); }
SECTION(pure_2d) { for (auto s : { TRI, QUAD }) { pure(s, M.n(30, 400), { Global, Maxwell, Hesthaven }, false, shapeName(s)); pure(s, M.n(25, 300), { Global, Maxwell, Hesthaven }, true, s == TRI ? "tri waves" : "quad waves"); } }
SECTION(pure_tet) { pure(TET, M.n(9, 90), { Global, Maxwell, Hesthaven }, false, "tet"); pure(TET, M.n(3, 30), { Global, Maxwell, Hesthaven }, true, "tet waves"); }
SECTION(pure_hex) { pure(HEX, M.n(9, 90), { Global, Maxwell, Hesthaven }, false, "hex"); pure(HEX, M.n(4, 30), { Global, Maxwell, Hesthaven }, true, "hex waves"); }

// Implicit stages: k is the derivative of the state it leads to, whatever steps were solved before.
static void stages(Shape s, int count, bool surface, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup u; Region g; if (surface) { u = surfaceProblem(r, s, g, 1, true, s == TET || s == HEX ? 0 : 1); addWave(r, u); } else { Draw d; d.materials = d.conductive = true; d.maxOrder = shapeDim(s) == 3 ? 2 : 5; u = randomProblem(r, s, d); }
      const std::string ds = describe(u); M.label(fmt("%s %d", what, i)); std::unique_ptr<Evo> A; try { A = std::make_unique<Evo>(u, Global); } catch (const std::exception& e) { M.event("unsupported problem"); continue; }
      const int n = A->n(); double dt = r.uni(0.001, 0.02), t = r.uni(0, 2); std::string hist; auto bent = [&](double d) { const int c = r.below(7); return c == 0 ? d : c == 1 ? d * (1 + 1e-9) : c == 2 ? d * (1 + r.uni(-1e-4, 1e-4)) : c == 3 ? d * (1 + r.uni(-0.05, 0.05)) : c == 4 ? d / 2 : c == 5 ? r.uni(0.001, 0.02) : -d; };
      for (int k = r.range(2, 5); k > 0; k--) {
         auto x = randomState(r, n); const mfem::Vector keep(x); mfem::Vector y(n), z(n), w(n); y = 0.0; A->op->SetTime(t); { Quiet q; if (r.coin(0.3)) { A->op->Mult(x, y); y = 0.0; } A->op->ImplicitSolve(dt, x, y); } hist += fmt(" %.10g", dt); M.expect(same(x, keep), "implicit-input-modified", ds); for (int c = 0; c < n; c++) { z[c] = x[c] + dt * y[c]; } w = 0.0; apply(*A->op, z, w); const double rhs = maxAbs(A->operator()(x));
         M.expect(maxDiff(w, y) <= (n <= 600 ? 1e-9 : 1e-5) * std::max(rhs, maxAbs(w)), "implicit-stage", ds + fmt(" unknowns %d residual %.3g of %.3g after steps%s", n, maxDiff(w, y), rhs, hist.c_str())); M.event(n <= 600 ? "implicit stages" : "implicit stages, large", fmt("%s %d", what, n)); const double d = bent(dt); if (std::abs(d) > 1e-4 && std::abs(d) < 0.05) { dt = d; } if (r.coin(0.6)) { t += std::abs(dt); }
      }
   }
}
SECTION(implicit) { stages(SEG, M.n(60, 1000), false, "seg stages"); stages(SEG, M.n(20, 400), true, "seg wave stages"); for (auto s : { TRI, QUAD }) { stages(s, M.n(12, 200), false, s == TRI ? "tri stages" : "quad stages"); stages(s, M.n(4, 80), true, s == TRI ? "tri wave stages" : "quad wave stages"); } stages(TET, M.n(4, 50), false, "tet stages"); stages(HEX, M.n(4, 50), false, "hex stages"); }

// Complete runs.
struct Record { mfem::Vector f; std::vector<std::map<double, std::array<double, 6>>> pts; std::vector<std::map<double, double>> fld; double t = 0; };
static Record record(maxwell::Solver& s, const Setup& u)
{
   Record r; auto& F = s.getFields(); const int n = F.get(E, X).Size(); r.f.SetSize(6 * n); int k = 0; for (auto ft : { E, H }) for (auto c : { X, Y, Z }) { for (int i = 0; i < n; i++) { r.f[k++] = F.get(ft, c)[i]; } }
   for (size_t i = 0; i < u.probes.pointProbes.size(); i++) { r.pts.emplace_back(); for (auto& [t, f] : s.getPointProbe(i).getFieldMovies()) { r.pts.back()[t] = { f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz }; } }
   for (size_t i = 0; i < u.probes.fieldProbes.size(); i++) { r.fld.emplace_back(); for (auto& [t, f] : s.getFieldProbe(i).getFieldMovie()) { r.fld.back()[t] = f; } } r.t = s.getTime(); return r;
}
static void compare(const Record& a, const Record& b, double tol, const std::string& key, const std::string& ds)
{
   const double sc = std::max({ maxAbs(a.f), maxAbs(b.f), 1e-6 });
   if (tol == 0) { M.expect(same(a.f, b.f), key + "-fields", ds + fmt(" diff %.3g", maxDiff(a.f, b.f))); M.expect(a.pts == b.pts && a.fld == b.fld, key + "-probes", ds); M.expect(a.t == b.t, key + "-time", ds); return; }
   M.near(maxDiff(a.f, b.f) / sc, 0, tol, key + "-fields", ds); M.near(a.t, b.t, tol * (1 + a.t), key + "-time", ds);
   M.expect(a.pts.size() == b.pts.size() && a.fld.size() == b.fld.size(), key + "-probes", ds);
   for (size_t i = 0; i < a.pts.size(); i++) { if (!M.expect(a.pts[i].size() == b.pts[i].size(), key + "-probe-records", ds + fmt(" %zu %zu", a.pts[i].size(), b.pts[i].size()))) { continue; } auto p = a.pts[i].begin(); for (auto q = b.pts[i].begin(); q != b.pts[i].end(); ++q, ++p) { M.near(p->first, q->first, tol * (1 + a.t), key + "-probe-times", ds); for (int c = 0; c < 6; c++) { M.near(p->second[c], q->second[c], tol * sc, key + "-probe-values", ds); } } }
}
static Setup runProblem(Rng& r, Shape s, bool surface)
{
   Setup u; Region g; if (surface) { u = surfaceProblem(r, s, g, r.range(1, 2), false, 0); addWave(r, u); } else { Draw d; d.conductive = true; d.maxOrder = 2; d.rotate = false; u = randomProblem(r, s, d);
      P3 lo{ 1e9, 1e9, 1e9 }, hi{ -1e9, -1e9, -1e9 }; for (auto& x : u.g.x) for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); } const int dim = u.g.dim(); mfem::Vector c(dim); for (int i = 0; i < dim; i++) { c[i] = 0.5 * (lo[i] + hi[i]); }
      for (int k = r.range(1, 2); k > 0; k--) { mfem::Vector z(dim); z = 0.0; u.sources.add(std::make_unique<InitialField>(Gaussian(r.uni(0.2, 0.6), z, dim), r.coin() ? E : H, vec3(r.unit()), c)); } }
   // stable for any of these meshes
   double h = 1e9; for (auto& kv : u.g.faces()) for (size_t a = 0; a < kv.first.size(); a++) for (size_t b = 0; b < a; b++) { h = std::min(h, norm(u.g.x[kv.first[a]] - u.g.x[kv.first[b]])); } if (h > 1e8) { h = 1e9; for (auto& e : u.g.el) { h = std::min(h, std::abs(u.g.x[e.v[1]][0] - u.g.x[e.v[0]][0])); } }
   u.dt = h * r.uni(0.02, 0.06) / (u.order + 1); for (auto& m : u.mats) if (m.second.getConductivity() > 0) { u.dt = std::min(u.dt, 0.5 / m.second.getConductivity()); } u.alpha = std::max(u.alpha, 0.3);
   // probes at centres of random elements
   for (int k = 0; k < 3; k++) { P3 c = u.g.centre(u.g.el[r.below((int)u.g.el.size())]); maxwell::Point p; for (int i = 0; i < u.g.dim(); i++) { p.push_back(c[i]); } const int st = r.range(1, 4); if (r.coin()) { PointProbe q(p, st, false); q.setProbeID(k); u.probes.pointProbes.push_back(q); } else { FieldProbe q(r.coin() ? E : H, r.pick({ X, Y, Z }), p, st, false); q.setProbeID(k); u.probes.fieldProbes.push_back(q); } }
   return u;
}
static void runs(Shape s, int count, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup u = runProblem(r, s, r.coin(0.4)); u.op = r.coin(0.7) ? Global : Maxwell; const int steps = r.range(3, 14); u.tf = u.dt * (steps + (r.coin() ? 0.0 : r.uni(0.1, 0.9)));
      if (u.op == Global && r.coin(0.25)) { u.ode = r.pick({ (size_t)BackwardEuler, (size_t)Trapezoidal, (size_t)ImplicitMidpoint, (size_t)SDIRK33, (size_t)SDIRK23, (size_t)SDIRK34 }); }
      const std::string ds = describe(u) + fmt(" %s ode=%zu dt=%.4g tf=%.4g", opName(u.op), u.ode, u.dt, u.tf); M.label(fmt("%s %d", what, i)); Quiet q;
      auto a = u.solver(); const auto ma = record(*a, u); a->run(); const auto ra = record(*a, u);
      { auto b = u.solver(); compare(record(*b, u), ma, 0, "rebuilt-start", ds); b->run(); compare(record(*b, u), ra, 0, "rerun", ds); }
      { auto b = u.solver(); int k = r.range(1, steps); while (k-- > 0) { b->step(); } b->run(); compare(record(*b, u), ra, 0, "stepped", ds); }
      { // interleaved with another problem and with itself
         Setup v = runProblem(r, s, r.coin()); v.tf = v.dt * 50; auto b = u.solver(), c = v.solver(), d = u.solver(); const double fin = u.tf - 1e-8 * u.dt; while (b->getTime() <= fin || d->getTime() <= fin) { auto k = r.below(3); if (k == 0 && b->getTime() <= fin) { b->step(); } else if (k == 1 && d->getTime() <= fin) { d->step(); } else if (c->getTime() < v.tf * 0.9) { c->step(); } }
         compare(record(*b, u), ra, 0, "interleaved", ds); compare(record(*d, u), ra, 0, "interleaved", ds); }
      { // several shorter runs of whole steps; probes record at the same instants
         auto b = u.solver(); int at = 0; while (at < steps) { at = std::min(steps, at + r.range(1, 4)); b->setFinalTime(at * u.dt); b->run(); } b->setFinalTime(u.tf); b->run(); compare(record(*b, u), ra, 1e-9, "split", ds); }
      // a run that is over stays over
      a->run(); compare(record(*a, u), ra, 0, "finished-run-again", ds); M.event("runs", ds);
   }
}
SECTION(runs_1d) { runs(SEG, M.n(60, 600), "seg"); }
SECTION(runs_2d) { runs(TRI, M.n(8, 100), "tri"); runs(QUAD, M.n(8, 100), "quad"); }
SECTION(runs_3d) { runs(TET, M.n(1, 20), "tet"); runs(HEX, M.n(2, 20), "hex"); }
HARNESS_MAIN
