// P13: subgridded thin layers reflect, transmit and dissipate as the stack they stand for, and their sub-solvers keep no trace of intermediate stages.
#include "em.hpp"
using namespace em;
using Cx = std::complex<double>;

struct Lay { double ep, mu, sg, w; int n; };
static std::string str(const std::vector<Lay>& s) { std::string r; for (auto& l : s) { r += fmt("[e%.3g m%.3g s%.3g w%.3g n%d]", l.ep, l.mu, l.sg, l.w, l.n); } return r; }
static SGBCProperties props(const std::vector<Lay>& s, int tag, int order) { SGBCProperties p; p.geom_tags = { (size_t)tag }; for (auto& l : s) { SGBCLayer y(Material(l.ep, l.mu, l.sg), l.w); y.num_of_segments = l.n; y.order = order; p.layers.push_back(y); } return p; }
static Model modelOf(Setup& u)
{
   Model md = u.model(); if (!u.sgbc.empty()) { auto& at = md.getConstMesh().bdr_attributes; BoundaryMarker mk(at.Size() ? at.Max() : 0); mk = 0; for (auto& p : u.sgbc) for (auto t : p.geom_tags) { mk[(int)t - 1] = 1; } md.getSGBCToMarker().insert({ BdrCond::SGBC, mk }); } return md;
}
static std::unique_ptr<maxwell::Solver> solverOf(Setup& u) { Model md = modelOf(u); return std::make_unique<maxwell::Solver>(md, u.probes, u.sources, u.opts()); }
// The evolution operator on its own, so that the calls a time integrator makes can be chosen freely.
struct Stages {
   Setup u; Model model; mfem::DG_FECollection fec; mfem::ParFiniteElementSpace fes; Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction> F; SourcesManager sm; EvolutionOptions opts; std::unique_ptr<GlobalEvolution> op;
   explicit Stages(const Setup& s) : u(s), model(modelOf(u)), fec(u.order, model.getMesh().Dimension(), u.basis), fes(&model.getMesh(), &fec), F(fes), sm(u.sources, fes, F), opts(u.opts().evolution) { opts.op = Global; Quiet q; op = std::make_unique<GlobalEvolution>(fes, model, sm, opts); }
   mfem::Vector mult(const mfem::Vector& x, double t) { Quiet q; mfem::Vector y(x.Size()); y = 1e300; op->SetTime(t); op->Mult(x, y); return y; }
   void commit(double t, double dt) { Quiet q; op->commitSGBCCheckpoint(t, dt, F); }
   void finalize() { Quiet q; op->finalizeSGBCStep(F); }
};
static bool same(const mfem::Vector& a, const mfem::Vector& b) { return a.Size() == b.Size() && !std::memcmp(a.GetData(), b.GetData(), sizeof(double) * a.Size()); }
static double diff(const mfem::Vector& a, const mfem::Vector& b) { double m = 0, s = 0; for (int i = 0; i < a.Size(); i++) { m = std::max(m, std::abs(a[i] - b[i])); s = std::max(s, std::abs(b[i])); } return m / std::max(s, 1e-300); }
// Transmission matrix of layers and gaps at normal incidence, fields as exp(i w t), impedances relative to vacuum.
struct Abcd { Cx a = 1, b = 0, c = 0, d = 1; Abcd operator*(const Abcd& o) const { return { a * o.a + b * o.c, a * o.b + b * o.d, c * o.a + d * o.c, c * o.b + d * o.d }; } };
static Abcd abcd(const Lay& l, double w) { const Cx ep(l.ep, -l.sg / w), k = w * std::sqrt(ep * l.mu), z = std::sqrt(l.mu / ep), c = std::cos(k * l.w), s = Cx(0, 1) * std::sin(k * l.w); return { c, z * s, s / z, c }; }
// A bar along x with walls that carry a plane pulse, cut by sheets at given planes; then turned in space and renumbered.
struct Bar { Setup u; P3 ax{ 1, 0, 0 }, pe{}, ph{}; std::vector<double> at; std::vector<int> dir; std::string ds; double h = 0.25; int nx = 16; void orient(); };
static const int SHEET = 7;
// Direction in which the layers of a sheet run: the normal of its boundary element, given by the order of its vertices.
static P3 normalOf(const GMesh& g, const El& b) { if (g.dim() == 2) { P3 t = g.x[b.v[1]] - g.x[b.v[0]]; return { t[1], -t[0], 0 }; } return cross(g.x[b.v[1]] - g.x[b.v[0]], g.x[b.v[2]] - g.x[b.v[0]]); }
void Bar::orient() { for (auto& b : u.g.bd) if (b.attr >= SHEET && u.g.dim() > 1 && dot(normalOf(u.g, b), ax) * dir[b.attr - SHEET] < 0) { std::reverse(b.v.begin(), b.v.end()); } }
static Bar bar(Rng& r, Shape s, int order, const std::vector<double>& planes, const std::vector<int>& dirs, int nx = 16)
{
   Bar q; const int dim = shapeDim(s); q.nx = nx; const double h = q.h = 4.0 / nx; Setup& u = q.u; u.order = order; u.g = box(s, ticks(nx, 4), dim > 1 ? ticks(1, h) : std::vector<double>{ 0 }, dim > 2 ? ticks(1, h) : std::vector<double>{ 0 }); const int pol = dim == 3 ? 1 : r.range(1, 2); q.at = planes; q.dir = dirs;
   u.g.tagExterior([](const P3&, const P3& n) { return sideTag(n); }); u.g.tagInterior([&](const P3& c, const P3& n, int, int) { for (size_t k = 0; k < planes.size(); k++) if (std::abs(c[0] - planes[k]) < 1e-9 && std::abs(n[0]) > 0.99) { return SHEET + (int)k; } return 0; });
   std::map<int, P3> nm; for (int a = 0; a < 3; a++) for (int sg : { -1, 1 }) { P3 v{}; v[a] = sg; nm[sideTag(v)] = v; }
   for (auto& b : u.g.bd) { if (b.attr >= SHEET) { u.ibdr[b.attr] = BdrCond::SGBC; if (dim > 1 && normalOf(u.g, b)[0] * dirs[b.attr - SHEET] < 0) { std::reverse(b.v.begin(), b.v.end()); } } else { P3 n = nm[b.attr]; u.bdr[b.attr] = std::abs(n[0]) > 0.5 ? BdrCond::SMA : std::abs(n[pol]) > 0.5 ? BdrCond::PEC : BdrCond::PMC; } }
   q.pe[pol] = 1; if (dim > 1) { auto R = randomRotation(r, dim); u.g.affine(R); auto rot = [&](const P3& v) { P3 o{}; for (int a = 0; a < 3; a++) { o[a] = dot(R[a], v); } return o; }; q.ax = rot(q.ax); q.pe = rot(q.pe); }
   q.ph = cross(q.ax, q.pe); u.dt = 0.25 * h / (order * order); u.tf = 1e9; q.ds = fmt("%s order %d nx=%d pol=%d normal (%.3f %.3f %.3f)", shapeName(s), order, nx, pol, q.ax[0], q.ax[1], q.ax[2]); return q;
}
static void setPulse(maxwell::Solver& sv, const Bar& q, double x0, double width, int sense)
{
   auto& F = sv.getFields(); auto pos = dofPos(*F.get(E, X).FESpace()); for (size_t k = 0; k < pos.size(); k++) { const double g = std::exp(-std::pow((dot(pos[k], q.ax) - x0) / width, 2)); for (int d = 0; d < 3; d++) { F.get(E, (Direction)d)[k] = q.pe[d] * g; F.get(H, (Direction)d)[k] = sense * q.ph[d] * g; } }
}
static std::vector<Lay> randomStack(Rng& r, bool mild = false)
{
   std::vector<Lay> st; for (int k = r.range(1, 2); k > 0; k--) { st.push_back({ r.uni(1, 3), r.uni(1, 2), mild ? 0.0 : r.pick({ 0.0, r.uni(1, 20), r.uni(20, 60) }), r.uni(0.02, 0.05), r.range(2, 3) }); } return st;
}
static Setup sheetSetup(Rng& r, Shape s, int order, std::string& ds, int nx = 6, bool two = true)
{
   const int dim = shapeDim(s); const double h = 4.0 / nx; std::vector<double> at{ h * r.range(1, nx - 3) }; if (two && r.coin()) { at.push_back(at[0] + h * r.range(1, 2)); } std::vector<int> dir; for (size_t k = 0; k < at.size(); k++) { dir.push_back(dim == 1 || r.coin() ? 1 : -1); }
   Bar q = bar(r, s, order, at, dir, nx); if (dim > 1) { q.u.g.shuffle(r, true, true, true, true); q.orient(); } ds = q.ds; for (size_t k = 0; k < at.size(); k++) { auto st = randomStack(r); for (auto& l : st) { l.n = 2; } ds += fmt(" at %.3g%s ", at[k], dir[k] > 0 ? "" : " reversed") + str(st); q.u.sgbc.push_back(props(st, SHEET + (int)k, r.range(1, 2))); } return q.u;
}
#ifndef SEMBA_DGTD_ENABLE_OPENMP
// Reflection and transmission of a pulse against the exact ones of the stack, for any orientation, order of layers and number of sheets.
SECTION(sheet)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(10, 150); i++) {
      const Shape s = std::vector<Shape>{ SEG, TRI, QUAD, TET, HEX }[i % 5]; const int dim = shapeDim(s), order = 2, nx = 16; const double h = 4.0 / nx; std::vector<double> at{ 2.0 }; if (r.coin(0.5)) { at.push_back(2.0 + h * r.range(1, 3)); } std::vector<int> dir; for (size_t k = 0; k < at.size(); k++) { dir.push_back(dim == 1 || r.coin() ? 1 : -1); }
      Bar q = bar(r, s, order, at, dir, nx); std::vector<std::vector<Lay>> st; for (size_t k = 0; k < at.size(); k++) { st.push_back(randomStack(r)); } const int sense = r.coin() ? 1 : -1; const double pulse = 0.35, x0 = sense > 0 ? 0.9 : at.back() + 1.1, xa = sense > 0 ? 1.5 : at.back() + 0.5, xb = sense > 0 ? at.back() + 0.5 : 1.5; if (dim > 1) { q.u.g.shuffle(r, true, true, true, true); q.orient(); }
      std::string ds = q.ds + fmt(" from %s", sense > 0 ? "below" : "above"); for (size_t k = 0; k < at.size(); k++) { ds += fmt(" at %.3g%s ", at[k], dir[k] > 0 ? "" : " reversed") + str(st[k]); } M.label(ds);
      const int N = (int)(5.0 / q.u.dt); std::vector<double> ea[2], eb[2];
      for (int run = 0; run < 2; run++) {
         Setup v = q.u; if (run) { for (size_t k = 0; k < at.size(); k++) { v.sgbc.push_back(props(st[k], SHEET + (int)k, 2)); } } else { v.ibdr.clear(); auto& bd = v.g.bd; bd.erase(std::remove_if(bd.begin(), bd.end(), [](const El& b) { return b.attr >= SHEET; }), bd.end()); }
         Quiet z; auto sv = solverOf(v); setPulse(*sv, q, x0, pulse, sense); auto& F = sv->getFields(); auto pos = dofPos(*F.get(E, X).FESpace()); int ia = -1, ib = -1; for (size_t k = 0; k < pos.size(); k++) { const double x = dot(pos[k], q.ax); if (std::abs(x - xa) < 1e-9) { ia = (int)k; } if (std::abs(x - xb) < 1e-9) { ib = (int)k; } }
         auto val = [&](int k) { double e = 0; for (int d = 0; d < 3; d++) { e += q.pe[d] * F.get(E, (Direction)d)[k]; } return e; }; for (int n = 0; n <= N; n++) { ea[run].push_back(val(ia)); eb[run].push_back(val(ib)); if (n < N) { sv->step(); } }
      }
      for (double w : { 1.0, 2.0, 3.0 }) {
         auto tr = [&](const std::vector<double>& v) { Cx c = 0; for (size_t n = 0; n < v.size(); n++) { c += v[n] * std::polar(1.0, -w * q.u.dt * (double)n); } return c; }; const Cx A1 = tr(ea[0]), A2 = tr(ea[1]), B1 = tr(eb[0]), B2 = tr(eb[1]);
         Abcd m; std::vector<Abcd> parts; for (size_t k = 0; k < at.size(); k++) { if (k) { parts.push_back(abcd({ 1, 1, 0, at[k] - at[k - 1], 1 }, w)); } auto ls = st[k]; if (dir[k] < 0) { std::reverse(ls.begin(), ls.end()); } for (auto& l : ls) { parts.push_back(abcd(l, w)); } } if (sense < 0) { std::reverse(parts.begin(), parts.end()); } for (auto& p : parts) { m = m * p; }
         const double face = sense > 0 ? at.front() : at.back(), gap = at.back() - at.front(); const Cx D = m.a + m.b + m.c + m.d, t0 = 2.0 / D * std::polar(1.0, w * gap), r0 = (m.a + m.b - m.c - m.d) / D; const Cx T = B2 / B1, R = (A2 - A1) / A1 * std::polar(1.0, 2 * w * std::abs(face - xa));
         M.expect(std::abs(T - t0) <= 0.05, "transmission", ds + fmt(" w=%g %.4f%+.4fi for %.4f%+.4fi", w, T.real(), T.imag(), t0.real(), t0.imag())); M.expect(std::abs(R - r0) <= 0.05, "reflection", ds + fmt(" w=%g %.4f%+.4fi for %.4f%+.4fi", w, R.real(), R.imag(), r0.real(), r0.imag())); M.event("response", fmt("%s sheets=%zu sense=%d", shapeName(s), at.size(), sense));
      }
   }
}
// One step of the classical scheme; extra(k) runs before each stage and once after the last.
template <class F> static std::vector<mfem::Vector> rk4(Stages& g, double t, double dt, F extra)
{
   mfem::Vector x0(g.F.allDOFs()), x(x0); std::vector<mfem::Vector> k; const double c[4] = { 0, 0.5, 0.5, 1 };
   for (int s = 0; s < 4; s++) { extra(s); if (s) { x = x0; x.Add(c[s] * dt, k[s - 1]); } k.push_back(g.mult(x, t + c[s] * dt)); }
   extra(4); auto& y = g.F.allDOFs(); const double w[4] = { 1. / 6, 1. / 3, 1. / 3, 1. / 6 }; for (int s = 0; s < 4; s++) { y.Add(dt * w[s], k[s]); } return k;
}
// Evaluations between the start of a step and its end leave no trace, whatever their input, time and number.
SECTION(rollback)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(15, 150); i++) {
      const Shape s = std::vector<Shape>{ SEG, TRI, QUAD, TET, HEX }[i % 5]; std::string ds; Setup u = sheetSetup(r, s, shapeDim(s) == 3 ? 1 : r.range(1, 2), ds); const bool quiet = r.coin(0.3); ds += quiet ? " from rest" : ""; M.label(ds); Stages a(u), b(u); const int n = a.F.allDOFs().Size(); mfem::Vector x = randomState(r, n); if (quiet) { x = 0.0; } a.F.allDOFs() = x; b.F.allDOFs() = x; const double dt = u.dt;
      for (int step = 0; step < 4; step++) {
         const double t = step * dt; a.commit(t, dt); b.commit(t, dt); auto ka = rk4(a, t, dt, [](int) {}); int extras = 0;
         auto kb = rk4(b, t, dt, [&](int) { for (int e = r.range(0, 2); e > 0; e--) { mfem::Vector y = randomState(r, n); y *= r.pick({ 1.0, 1e3, 1e-10, 0.0 }); const double ts = t + dt * r.pick({ 0.0, 1.0, r.uni(0, 1) }); auto f = b.mult(y, ts); extras++; if (r.coin(0.3)) { M.expect(same(f, b.mult(y, ts)), "repeat", ds + fmt(" step %d", step)); } } });
         for (int q = 0; q < 4; q++) { M.expect(same(ka[q], kb[q]), "trace", ds + fmt(" step %d stage %d: relative difference %.3g after %d other evaluations", step, q, diff(kb[q], ka[q]), extras)); } M.event("step", fmt("%s extras=%d", shapeName(s), extras)); a.finalize(); b.finalize();
         if (quiet && step == 1) { mfem::Vector y = randomState(r, n); a.F.allDOFs() = y; b.F.allDOFs() = y; } // the field arrives
      }
      const double t = 4 * dt; a.commit(t, dt); b.commit(t, dt); mfem::Vector y(n); y = 0.0; M.expect(same(a.mult(y, t), b.mult(y, t)), "state", ds); M.event("state", shapeName(s));
   }
}
// Linear in the fields, and the numbering of elements, faces and vertices is of no consequence; nor is the sense of a sheet if its layers are turned with it.
SECTION(invariance)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(16, 200); i++) {
      const Shape s = std::vector<Shape>{ TRI, QUAD, TET, HEX }[i % 4]; const int order = shapeDim(s) == 3 ? 1 : 2, nx = 6; const double h = 4.0 / nx; std::vector<double> at{ h * r.range(1, nx - 3) }; if (r.coin()) { at.push_back(at[0] + h * r.range(2, 2)); } std::vector<int> dir; for (size_t k = 0; k < at.size(); k++) { dir.push_back(r.coin() ? 1 : -1); } Bar q = bar(r, s, order, at, dir, nx), p = q; std::string ds = q.ds;
      for (size_t k = 0; k < at.size(); k++) { auto st = randomStack(r); for (auto& l : st) { l.n = 2; } ds += fmt(" at %.3g%s ", at[k], dir[k] > 0 ? "" : " reversed") + str(st); q.u.sgbc.push_back(props(st, SHEET + (int)k, 1)); if (r.coin()) { std::reverse(st.begin(), st.end()); p.dir[k] = -p.dir[k]; ds += " turned"; } p.u.sgbc.push_back(props(st, SHEET + (int)k, 1)); }
      p.u.g.shuffle(r, true, true, true, true); p.orient(); M.label(ds); const double amp = r.pick({ 1.0, 1e3, -0.01 }); Quiet z; auto A = solverOf(q.u), B = solverOf(p.u);
      Poly f[6]; for (int c = 0; c < 6; c++) { f[c] = Poly(r, 3, 2, q.ax, 0.5); } auto fill = [&](maxwell::Solver& v, double k) { auto& F = v.getFields(); auto pos = dofPos(*F.get(E, X).FESpace()); for (size_t j = 0; j < pos.size(); j++) { for (int c = 0; c < 6; c++) { F.get(c < 3 ? E : H, (Direction)(c % 3))[(int)j] = k * f[c](pos[j]); } } }; fill(*A, 1); fill(*B, amp); for (int n = 0; n < 6; n++) { A->step(); B->step(); }
      auto table = [&](maxwell::Solver& v, const GMesh&) { auto& F = v.getFields(); auto& fes = *F.get(E, X).FESpace(); auto pos = dofPos(fes); auto el = dofElem(fes); std::map<int, std::pair<P3, int>> cc; for (size_t j = 0; j < pos.size(); j++) { auto& c = cc[el[j]]; c.first = c.first + pos[j]; c.second++; } std::map<std::array<long, 6>, std::array<double, 6>> o; for (size_t j = 0; j < pos.size(); j++) { P3 c = (1.0 / cc[el[j]].second) * cc[el[j]].first; std::array<long, 6> key; for (int d = 0; d < 3; d++) { key[d] = std::lround(pos[j][d] * 1e5 + 0.37); key[3 + d] = std::lround(c[d] * 1e5 + 0.37); } for (int c6 = 0; c6 < 6; c6++) { o[key][c6] = F.get(c6 < 3 ? E : H, (Direction)(c6 % 3))[(int)j]; } } return o; };
      auto ta = table(*A, q.u.g), tb = table(*B, p.u.g); double worst = 0, size = 0; int matched = 0; for (auto& kv : ta) { auto it = tb.find(kv.first); if (it == tb.end()) { continue; } matched++; for (int c = 0; c < 6; c++) { worst = std::max(worst, std::abs(it->second[c] / amp - kv.second[c])); size = std::max(size, std::abs(kv.second[c])); } }
      if (matched > (int)ta.size() / 2) { M.expect(worst <= 1e-7 * size, "invariance", ds + fmt(" amplitude %g: fields differ by %.3g of %.3g", amp, worst, size)); M.event("pair", fmt("%s sheets=%zu amp=%g", shapeName(s), at.size(), amp)); }
   }
}
// A sheet backed by a wall on each side acts as that wall.
SECTION(backed)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(15, 150); i++) {
      const Shape s = std::vector<Shape>{ SEG, TRI, QUAD, TET, HEX }[i % 5]; std::string ds; Setup u = sheetSetup(r, s, shapeDim(s) == 3 ? 1 : r.range(1, 2), ds, 6, false); const BdrCond k = r.pick({ BdrCond::PEC, BdrCond::PMC }); u.sgbc[0].sgbc_bdr_info.first = u.sgbc[0].sgbc_bdr_info.second = { k, true }; Setup v = u; v.sgbc.clear(); v.ibdr[SHEET] = k; ds += fmt(" backed by %s", k == BdrCond::PEC ? "PEC" : "PMC"); M.label(ds); Stages a(u), b(v); const int n = a.F.allDOFs().Size(); mfem::Vector x = randomState(r, n); a.F.allDOFs() = x; a.commit(0, u.dt);
      auto fa = a.mult(x, r.pick({ 0.0, u.dt })), fb = b.mult(x, 0); M.expect(diff(fa, fb) <= 1e-9, "backed", ds + fmt(": rates differ by %.3g", diff(fa, fb))); M.event("rates", fmt("%s %d", shapeName(s), (int)k));
   }
}
// Energy outside the sheets never grows beyond what was put in.
SECTION(energy)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(20, 200); i++) {
      const Shape s = std::vector<Shape>{ SEG, TRI, QUAD, TET, HEX }[i % 5]; std::string ds; Setup u = sheetSetup(r, s, shapeDim(s) == 3 ? 1 : 2, ds, 8); for (auto& b : u.bdr) if (b.second == BdrCond::SMA) { b.second = BdrCond::PEC; } if (shapeDim(s) == 3) { u.dt *= 0.3; } M.label(ds); Quiet z; auto sv = solverOf(u); auto& F = sv->getFields(); Energy en(*F.get(E, X).FESpace(), GeomTagToMaterial{}); const mfem::Vector rough = randomState(r, F.allDOFs().Size()); F.allDOFs() = rough; const bool smooth = r.coin(0.7); if (smooth) { P3 k{ r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2) }; auto pos = dofPos(*F.get(E, X).FESpace()); for (int c = 0; c < 6; c++) { const double a = r.normal(), ph = r.uni(0, 6); for (size_t j = 0; j < pos.size(); j++) { F.get(c < 3 ? E : H, (Direction)(c % 3))[(int)j] = a * std::cos(dot(k, pos[j]) + ph); } } } ds += smooth ? " smooth" : " rough"; const double e0 = en(F.allDOFs(), F.allDOFs()); double worst = 0; for (int n = 0; n < 60; n++) { sv->step(); const double e = en(F.allDOFs(), F.allDOFs()); worst = std::max(worst, e / e0); }
      M.expect(worst <= 1 + 1e-6, "energy", ds + fmt(": grew to %.6g of the initial", worst)); M.event("history", fmt("%s", shapeName(s)));
   }
}
#else
extern "C" { extern int shim_omp_threads, shim_omp_delay; extern long shim_omp_regions, shim_omp_shared; }
// The same result to the last bit for every number of threads and every way their work interleaves; the race detector watches the run.
SECTION(threads)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(5, 40); i++) {
      const Shape s = std::vector<Shape>{ HEX, TRI, QUAD, TET, SEG }[i % 5]; std::string ds; Setup u = sheetSetup(r, s, shapeDim(s) == 3 ? 1 : 2, ds, 5); M.label(ds); mfem::Vector ref, x0;
      for (int th : { 6, 1, 2, 3 }) {
         shim_omp_threads = th; shim_omp_delay = th > 1 ? r.pick({ 0, 200, 2000 }) : 0; shim_omp_regions = shim_omp_shared = 0; M.label(ds + fmt(" threads=%d delay=%d", th, shim_omp_delay)); Quiet z; auto sv = solverOf(u); auto& x = sv->getFields().allDOFs(); if (!x0.Size()) { x0 = randomState(r, x.Size()); } x = x0; for (int n = 0; n < 3; n++) { sv->step(); }
         if (!ref.Size()) { ref = x; } M.expect(same(x, ref), "threads", ds + fmt(": fields with %d threads differ from those with six by %.3g", th, diff(x, ref))); M.event("run", fmt("%s threads=%d delay=%d shared=%d", shapeName(s), th, shim_omp_delay, shim_omp_shared > 0)); if (shim_omp_shared) { M.event("shared-region", fmt("%s %d", shapeName(s), th)); }
      }
   }
}
#endif
HARNESS_MAIN
