// P07: total-field surfaces inject the incident wave exactly on one side and nothing on the other.
#include "em.hpp"
using namespace em;

// Vacuum plane wave with a polynomial profile: representable exactly, so the injection must be exact to rounding.
struct PolyWave : EHFieldFunction {
   P3 d, e, h; std::vector<double> c; double s, t0, on = 0, phase = 0; // on: length of the intervals it is switched on and off for
   PolyWave(Rng& r, int dim, int order, double scale, double at) : s(scale), t0(at)
   {
      P3 p; do { d = {}; auto q = r.unit(); for (int i = 0; i < dim; i++) { d[i] = q[i]; } if (norm(d) < 0.2) { continue; } d = unit(d); if (r.coin(0.2)) { int a = r.below(dim); d = {}; d[a] = r.coin() ? 1 : -1; } p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2);
      e = r.uni(0.3, 2) * unit(p); h = cross(d, e); for (int i = 0; i <= order; i++) { c.push_back(r.uni(-1, 1)); }
   }
   std::unique_ptr<EHFieldFunction> clone() const override { return std::make_unique<PolyWave>(*this); }
   double gate(double t) const { return on > 0 && std::fmod((t - t0) / on + phase + 100, 2.0) >= 1 ? 0 : 1; }
   double f(double z) const { double v = 0; for (size_t i = c.size(); i-- > 0;) { v = v * z * s + c[i]; } return v; }
   double df(double z) const { double v = 0; for (size_t i = c.size(); i-- > 1;) { v = v * z * s + i * c[i]; } return v * s; }
   double z(const P3& x, double t) const { return dot(d, x) - (t - t0); }
   double eval(const Position& x, const Time& t, const FieldType& ft, const Direction& k) const override { return gate(t) * (ft == E ? e : h)[k] * f(z(p3(x), t)); }
   double at(const P3& x, double t, int comp) const { return gate(t) * (comp < 3 ? e : h)[comp % 3] * f(z(x, t)); }
   double dt(const P3& x, double t, int comp) const { return -gate(t) * (comp < 3 ? e : h)[comp % 3] * df(z(x, t)); }
};
static void inject(Shape s, int count, int maxOrder, std::vector<EvolutionOperatorType> types, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      auto type = types[r.below((int)types.size())]; Region g; Setup u = surfaceProblem(r, s, g, r.range(1, maxOrder), type != Hesthaven, s == TET ? 0 : 1); const int dim = u.g.dim(); u.alpha = r.coin() ? 1.0 : r.coin() ? 0.0 : r.uni(); u.basis = type != Hesthaven && r.coin(0.3) ? mfem::BasisType::GaussLegendre : mfem::BasisType::GaussLobatto;
      const int nw = r.coin(0.5) ? 1 : r.range(2, 3); const bool pauses = r.coin(0.3); const double T = r.uni(0, 3); std::vector<PolyWave> w; for (int k = 0; k < nw; k++) { w.emplace_back(r, dim, u.order, r.uni(0.5, 1.2), T); if (pauses) { w.back().on = r.uni(0.1, 0.3); w.back().phase = nw == 1 ? 0.0 : r.uni(0, 2); } u.sources.add(std::make_unique<TotalField>(w.back())); }
      M.label(fmt("%s %d", what, i)); Evo A(u, type); const std::string ds = describe(u) + fmt(" %s waves=%d%s d=(%.2f,%.2f,%.2f)", opName(type), nw, pauses ? " with pauses" : "", w[0].d[0], w[0].d[1], w[0].d[2]); const std::string on = opName(type), many = nw > 1 ? "-superposed" : "";
      auto X = dofPos(*A.fes); auto el = dofElem(*A.fes); const int n = A.n() / 6;
      std::vector<char> touch(u.g.el.size(), 0); for (auto& kv : u.g.faces()) { auto& f = kv.second; if (f.e2 >= 0 && g.tf[f.e1] != g.tf[f.e2]) { touch[f.e1] = touch[f.e2] = 1; } }
      for (int k = 0; k < (pauses ? 6 : 3); k++) {
         const double t = pauses ? T + 0.5 * w[0].on + k % 3 * w[0].on + r.uni(-0.1, 0.1) * w[0].on : T + r.uni(-0.5, 0.5); A.op->SetTime(t); mfem::Vector x(6 * n); x = 0.0; double amp = 1e-6, damp = 1e-6;
         for (int j = 0; j < n; j++) if (g.tf[el[j]]) { for (int c = 0; c < 6; c++) { for (auto& v : w) { x[c * n + j] += v.at(X[j], t, c); } amp = std::max(amp, std::abs(x[c * n + j])); } }
         auto y = A(x); damp = std::max(maxAbs(y), amp); double in = 0, out = 0; for (int j = 0; j < n; j++) for (int c = 0; c < 6; c++) { double want = 0; if (g.tf[el[j]]) { for (auto& v : w) { want += v.dt(X[j], t, c); } } double err = std::abs(y[c * n + j] - want); double& m = g.tf[el[j]] ? in : out; if (!(err <= m)) { m = err; } }
         M.near(in / damp, 0, 1e-7, on + "-inside" + many, ds); M.near(out / damp, 0, 1e-7, on + "-outside" + many, ds);
         // injection does not depend on the state, and acts only through elements touching the surface
         auto q = randomState(r, 6 * n); mfem::Vector zero(6 * n); zero = 0.0; auto y0 = A(zero), yq = A(q); mfem::Vector x2(x); x2 += q; auto yx = A(x2); mfem::Vector lhs(yx); lhs -= yq; mfem::Vector rhs(y); rhs -= y0; M.near(maxDiff(lhs, rhs) / std::max({ maxAbs(yx), maxAbs(yq), 1.0 }), 0, 1e-9, on + "-state-dependent", ds);
         double stray = 0; for (int j = 0; j < n; j++) if (!touch[el[j]]) { for (int c = 0; c < 6; c++) { stray = std::max(stray, std::abs(y0[c * n + j])); } } M.expect(stray <= 1e-10 * std::max(maxAbs(y0), 1e-3), on + "-stray", ds + fmt(" stray %.3g", stray));
      }
      M.event("injection checked", ds);
   }
}
SECTION(inject_1d) { inject(SEG, M.n(300, 3000), 5, { Global, Maxwell }, "seg"); }
SECTION(inject_2d) { inject(TRI, M.n(70, 700), 3, { Global, Maxwell, Hesthaven }, "tri"); inject(QUAD, M.n(70, 700), 3, { Global, Maxwell, Hesthaven }, "quad"); }
SECTION(inject_tet) { inject(TET, M.n(6, 60), 2, { Global, Maxwell, Hesthaven }, "tet"); }
SECTION(inject_hex) { inject(HEX, M.n(9, 60), 2, { Global, Maxwell, Hesthaven }, "hex"); }

// Whole runs: a pulse crosses an empty box; inside it is the incident wave, outside nothing.
static void run(Shape s, int count, std::array<int, 3> n, int order, double spread, double tol, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup u; u.g = box(s, n); const int dim = u.g.dim(); auto inside = [&](const P3& c) { for (int k = 0; k < dim; k++) if (c[k] < 1.0 / n[k] || c[k] > 1 - 1.0 / n[k]) { return false; } return true; };
      std::vector<El> el; std::vector<char> in; for (int pass = 0; pass < 2; pass++) for (auto& e : u.g.el) if (inside(u.g.centre(e)) == bool(pass)) { el.push_back(e); in.push_back(pass); }
      if (dim > 1) { u.g.el = el; u.g.tagExterior([&](const P3&, const P3&) { return 1; }); u.g.tagInterior([&](const P3&, const P3&, int a, int b) { return in[a] != in[b] ? 2 : 0; }); } else { in.assign(n[0], 1); in[0] = in.back() = 0; u.g.bd = { { { 0 }, 1 }, { { n[0] }, 1 }, { { 1 }, 2 }, { { n[0] - 1 }, 2 } }; }
      u.bdr.insert({ 1, BdrCond::SMA }); u.tfsf = { 2 }; u.order = order; u.alpha = r.coin() ? 1.0 : r.uni(0.3, 1); u.op = r.coin(0.6) ? Global : dim > 1 && r.coin() ? Hesthaven : Maxwell; P3 d{}, p;
      do { auto q = r.unit(); d = {}; for (int k = 0; k < dim; k++) { d[k] = q[k]; } if (norm(d) < 0.2) { continue; } d = unit(d); p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2); p = unit(p);
      const double lo = std::min(0.0, d[0]) + std::min(0.0, d[1]) + std::min(0.0, d[2]); TotalField tf(Planewave(Gaussian(spread, mfem::Vector({ lo - 5 * spread }), 1), vec3(p), vec3(d), r.coin() ? E : H)); u.sources.add(tf.clone());
      u.dt = 0.35 / n[0] / (order * order); if (dim == 3) { u.dt *= 0.5; } u.tf = 5 * spread + r.uni(0.3, 1.1); M.label(fmt("run %s %d", what, i)); const std::string ds = describe(u) + fmt(" %s d=(%.2f,%.2f,%.2f) T=%.3g", opName(u.op), d[0], d[1], d[2], u.tf);
      Quiet q; auto so = u.solver(); so->run(); auto& F = so->getFields(); auto& fes = *F.get(E, X).ParFESpace(); auto X = dofPos(fes); auto e = dofElem(fes); double bin = 0, bout = 0;
      for (auto ft : { E, H }) for (auto c : { maxwell::X, maxwell::Y, maxwell::Z }) for (size_t j = 0; j < X.size(); j++) { double w = in[e[j]] ? tf.eval(vec3(X[j]), so->getTime(), ft, c) : 0, g = F.get(ft, c)[(int)j], er = std::abs(w - g); double& b = in[e[j]] ? bin : bout; if (!(er <= b)) { b = er; } }
      M.near(bin, 0, tol, "run-inside", ds); M.near(bout, 0, tol, "run-outside", ds); M.event("runs compared", ds);
   }
}
SECTION(run_1d) { run(SEG, M.n(30, 300), { 20, 1, 1 }, 4, 0.1, 1e-2, "seg"); }
SECTION(run_2d) { run(QUAD, M.n(3, 20), { 7, 7, 1 }, 3, 0.2, 5e-2, "quad"); run(TRI, M.n(2, 12), { 6, 6, 1 }, 3, 0.2, 5e-2, "tri"); }
SECTION(run_3d) { run(HEX, M.n(1, 6), { 4, 4, 4 }, 2, 0.5, 1e-1, "hex"); }
HARNESS_MAIN
