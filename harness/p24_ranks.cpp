// P24: the same fields on any number of ranks and for any distribution of the elements.
#include "case.hpp"
using namespace em;
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };
using PlaceKey = std::array<long, 6>;
using FieldMap = std::map<PlaceKey, std::array<double, 6>>;
static long cell(double v) { return std::lround(v * 1e6 + 0.37); }
static std::vector<P3> centres(mfem::Mesh& m) { std::vector<P3> c(m.GetNE(), P3{}); for (int e = 0; e < m.GetNE(); e++) { mfem::Vector x; m.GetElementCenter(e, x); for (int a = 0; a < x.Size(); a++) { c[e][a] = x[a]; } } return c; }
// Fields by place and element, whatever the numbering.
static std::vector<std::array<double, 12>> rowsOf(maxwell::Solver& sv)
{
   auto& F = sv.getFields(); auto& fes = *F.get(E, X).FESpace(); auto pos = dofPos(fes); auto el = dofElem(fes); auto c = centres(*fes.GetMesh()); std::vector<std::array<double, 12>> o(pos.size());
   for (size_t j = 0; j < pos.size(); j++) { for (int d = 0; d < 3; d++) { o[j][d] = pos[j][d]; o[j][3 + d] = c[el[j]][d]; } for (int q = 0; q < 6; q++) { o[j][6 + q] = F.get(q < 3 ? E : H, (Direction)(q % 3))[(int)j]; } } return o;
}
static void start(maxwell::Solver& sv, const std::vector<double>& co)
{
   auto& F = sv.getFields(); auto& fes = *F.get(E, X).FESpace(); auto pos = dofPos(fes); auto el = dofElem(fes); auto c = centres(*fes.GetMesh());
   for (size_t j = 0; j < pos.size(); j++) for (int q = 0; q < 6; q++) { const double* k = &co[q * 8]; const P3 &x = pos[j], &y = c[el[j]]; F.get(q < 3 ? E : H, (Direction)(q % 3))[(int)j] = std::cos(k[0] + k[1] * x[0] + k[2] * x[1] + k[3] * x[2]) + 0.5 * std::sin(k[4] + 7 * (k[5] * y[0] + k[6] * y[1] + k[7] * y[2])); }
}
static std::vector<double> coefficients(Rng& r) { std::vector<double> c(48); for (auto& v : c) { v = r.uni(-3, 3); } return c; }
static void put(FieldMap& t, const double* row, int& twice) { PlaceKey k; for (int d = 0; d < 6; d++) { k[d] = cell(row[d]); } std::array<double, 6> v; for (int q = 0; q < 6; q++) { v[q] = row[6 + q]; } twice += !t.insert({ k, v }).second; }
// Runs make(rank-local) on P ranks and compares with the fields of the single run.
template <class Make> static bool compare(const std::string& ds, const std::string& key, int P, const FieldMap& ref, double tol, Make go)
{
   const int bad = shim_mpi_run(P, [&](int k) { std::ofstream o(fmt("rank%d.txt", k)); o.precision(17); Quiet q; for (auto& row : go()) { for (double v : row) { o << v << " "; } o << "\n"; } return 0; }, 120);
   if (!M.expect(!bad, key + "-failed", ds + fmt(" code %d", bad))) { return false; }
   FieldMap t; int twice = 0; for (int k = 0; k < P; k++) { for (auto& row : readTable(fmt("rank%d.txt", k), 0)) { if (row.size() == 12) { put(t, row.data(), twice); } } std::filesystem::remove(fmt("rank%d.txt", k)); }
   double worst = 0, size = 0; int lost = 0; PlaceKey at{}; for (auto& kv : ref) { auto it = t.find(kv.first); for (int q = 0; q < 6; q++) { size = std::max(size, std::abs(kv.second[q])); } if (it == t.end()) { lost++; continue; } for (int q = 0; q < 6; q++) { const double e = std::abs(it->second[q] - kv.second[q]); if (!(e <= worst)) { worst = e; at = kv.first; } } }
   if (!M.expect(!lost && !twice && t.size() == ref.size(), key + "-elements", ds + fmt(" %d lost %d twice, %zu for %zu", lost, twice, t.size(), ref.size()))) { return false; }
   return M.expect(worst <= tol * std::max(size, 1e-3), key, ds + fmt(" fields differ by %.3g of %.3g at (%.3g %.3g %.3g)", worst, size, at[0] * 1e-6, at[1] * 1e-6, at[2] * 1e-6));
}
static FieldMap single(const std::vector<std::array<double, 12>>& rows) { FieldMap t; int twice = 0; for (auto& r : rows) { put(t, r.data(), twice); } return t; }
// Random distributions: blocks, stripes, scattered elements.
static std::vector<int> distribution(Rng& r, const GMesh& g, int P)
{
   const int ne = (int)g.el.size(); std::vector<int> part(ne); const int how = r.below(3); P3 d = r.unit(); std::vector<std::pair<double, int>> o; for (int e = 0; e < ne; e++) { o.push_back({ how == 0 ? dot(d, g.centre(g.el[e])) : how == 1 ? e : r.uni(), e }); } std::sort(o.begin(), o.end()); for (int k = 0; k < ne; k++) { part[o[k].second] = (int)((long)k * P / ne); } return part;
}
// Moves the elements at either side of an interior wall to one rank, as the case reader does; returns how many ranks are left with elements.
static int together(const GMesh& g, const GeomTagToInteriorBoundary& ib, std::vector<int>& part)
{
   std::map<std::set<int>, std::pair<int, int>> f; for (auto& kv : g.faces()) if (kv.second.e2 >= 0) { f[std::set<int>(kv.second.v.begin(), kv.second.v.end())] = { kv.second.e1, kv.second.e2 }; }
   for (bool again = true; again;) { again = false; for (auto& b : g.bd) if (ib.count(b.attr)) { auto it = f.find(std::set<int>(b.v.begin(), b.v.end())); if (it == f.end()) { continue; } int &a = part[it->second.first], &c = part[it->second.second]; if (a != c) { a = c = std::min(a, c); again = true; } } }
   std::map<int, int> re; for (int& p : part) { re.insert({ p, (int)re.size() }); } for (int& p : part) { p = re[p]; } return (int)re.size();
}
static void plain(Shape s, int count, const char* what, bool interior, bool implicit = false)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Draw d; d.budget = s == SEG ? 14 : s == TET ? 6 : 12; d.minN = s == TET ? 1 : 2; d.maxN = 4; d.conductive = r.coin(0.3); d.interior = interior; if (s == TET || s == HEX) { d.maxOrder = 1; d.maxN = 3; } Setup u = randomProblem(r, s, d); if (u.g.el.size() < 4) { i--; continue; } if (interior && u.ibdr.empty()) { i--; continue; } int P = r.range(2, std::min(4, (int)u.g.el.size() / 2)); u.op = r.coin(0.7) || d.conductive ? Global : Maxwell; u.dt = 0.004 / (u.order * u.order); auto co = coefficients(r); const int N = r.range(1, 4); if (implicit) { u.op = Global; u.dt *= r.logu(1, 30); u.ode = r.pick({ (size_t)BackwardEuler, (size_t)Trapezoidal, (size_t)ImplicitMidpoint, (size_t)SDIRK33, (size_t)SDIRK23, (size_t)SDIRK34 }); }
      auto part = distribution(r, u.g, P); if (interior) { P = together(u.g, u.ibdr, part); if (P < 2) { i--; continue; } } const std::string ds = describe(u) + fmt(" %s P=%d ode=%zu", opName(u.op), P, u.ode); M.label(ds); auto go = [&](bool split) { Setup v = u; if (split) { v.part = part; } auto sv = v.solver(); start(*sv, co); for (int n = 0; n < N; n++) { sv->step(); } return rowsOf(*sv); }; FieldMap ref; { Quiet q; ref = single(go(false)); }
      // implicit stages are solved to a relative residual of 1e-8
      compare(ds, std::string(interior ? "interior-" : implicit ? "implicit-" : "") + opName(u.op), P, ref, implicit ? 1e-6 : 1e-9, [&] { return go(true); }); M.event(implicit ? "implicit runs" : "runs", fmt("%s %s P=%d ode=%zu", shapeName(s), opName(u.op), P, u.ode));
   }
}
SECTION(fields_1d) { plain(SEG, M.n(40, 600), "seg", false); }
SECTION(fields_2d) { plain(TRI, M.n(20, 300), "tri", false); plain(QUAD, M.n(20, 300), "quad", false); }
SECTION(fields_3d) { plain(TET, M.n(10, 150), "tet", false); plain(HEX, M.n(10, 150), "hex", false); }
SECTION(interior) { plain(SEG, M.n(10, 100), "seg", true); plain(TRI, M.n(8, 100), "tri", true); plain(QUAD, M.n(8, 100), "quad", true); plain(TET, M.n(5, 60), "tet", true); plain(HEX, M.n(5, 60), "hex", true); }
SECTION(implicit) { plain(SEG, M.n(30, 400), "seg", false, true); plain(TRI, M.n(12, 150), "tri", false, true); plain(QUAD, M.n(12, 150), "quad", true, true); plain(TET, M.n(4, 50), "tet", false, true); plain(HEX, M.n(4, 50), "hex", false, true); }
// Through the case reader, which distributes the elements itself: a plane wave through a closed surface.
// Each rank leaves out injected values below 1e-8 in norm on its own part (tfsf_skip_threshold_), so equality is to 1e-6 here.
SECTION(waves)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 400); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s), P = r.range(2, 4); Region reg; Setup u = surfaceProblem(r, s, reg, 1, false, dim == 2 ? r.range(1, 4) : s == HEX ? r.range(1, 3) : 2); CaseDir cd(".", "wave"); cd.j = minimalCase(u.g, "wave"); json walls = json::array(); for (auto& b : u.bdr) { walls.push_back({ { "tags", { b.first } }, { "type", b.second == BdrCond::PEC ? "PEC" : b.second == BdrCond::PMC ? "PMC" : "SMA" } }); } cd.j["model"]["boundaries"] = walls;
      P3 d{}, p; do { auto q = r.unit(); d = {}; for (int k = 0; k < dim; k++) { d[k] = q[k]; } if (norm(d) < 0.2) { continue; } d = unit(d); p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2); p = unit(p);
      cd.j["sources"].push_back({ { "type", "planewave" }, { "tags", { reg.tag } }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", 0.5 }, { "mean", { -0.5, 0, 0 } } } } }); cd.j["solver_options"] = { { "order", 1 }, { "time_step", 0.01 }, { "final_time", 0.05 } }; if (r.coin(0.4)) { cd.j["sources"][0]["magnitude"] = { { "spread", 0.08 } }; cd.j["solver_options"]["final_time"] = 0.5; } cd.write(u.g);
      const std::string ds = describe(u) + fmt(" ne=%zu P=%d d=(%.2f,%.2f,%.2f)", u.g.el.size(), P, d[0], d[1], d[2]); M.label(ds); auto go = [&] { auto sv = driver::buildSolverJson(cd.path(), false); sv.run(); return rowsOf(sv); }; FieldMap ref; { Quiet q; ref = single(go()); } compare(ds, fmt("wave-%s", shapeName(s)), P, ref, 1e-6, go); M.event("wave", fmt("%s P=%d", shapeName(s), P));
   }
}
// Through the case reader: walls inside the domain, anywhere.
SECTION(walls)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(30, 500); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s), P = r.range(2, 4); std::array<int, 3> n{ dim == 1 ? r.range(8, 16) : r.range(3, 4), r.range(2, 3), r.range(1, 2) }; GMesh g = box(s, n); g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); const double p = r.pick({ 0.05, 0.2, 0.6 }); g.tagInterior([&](const P3&, const P3&, int, int) { return r.coin(p) ? r.range(7, 9) : 0; }); if (r.coin() && dim > 1) { g.shuffle(r, true, true, true, true); }
      CaseDir cd(".", "walls"); cd.j = minimalCase(g, "walls"); std::set<int> tags; for (auto& b : g.bd) { tags.insert(b.attr); } json walls = json::array(); int inner = 0; for (int t : tags) { inner += t > 6; walls.push_back({ { "tags", { t } }, { "type", r.pick({ "PEC", "PMC", "SMA" }) } }); } if (!inner) { continue; } cd.j["model"]["boundaries"] = walls; cd.j["solver_options"] = { { "order", 1 }, { "time_step", 0.004 }, { "final_time", 0.02 } }; cd.write(g); auto co = coefficients(r);
      const std::string ds = fmt("%s ne=%zu P=%d walls=%s", shapeName(s), g.el.size(), P, walls.dump().c_str()); M.label(ds); auto go = [&] { auto sv = driver::buildSolverJson(cd.path(), false); start(sv, co); for (int k = 0; k < 4; k++) { sv.step(); } return rowsOf(sv); }; FieldMap ref; { Quiet q; ref = single(go()); } compare(ds, "wall", P, ref, 1e-9, go); M.event("wall", fmt("%s P=%d", shapeName(s), P));
   }
}
// Through the case reader: thin sheets, whose two sides the reader keeps on one rank.
SECTION(sheets)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(12, 200); i++) {
      Shape s = shapes[1 + i % 4]; const int dim = shapeDim(s), P = r.range(2, 3); const int nx = r.range(4, 6); GMesh g = box(s, std::array<int, 3>{ nx, 2, dim == 3 ? 1 : 1 }); const double at = r.range(1, nx - 1) / (double)nx; g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); g.tagInterior([&](const P3& c, const P3& n, int, int) { return std::abs(c[0] - at) < 1e-9 && std::abs(n[0]) > 0.9 ? 7 : 0; }); if (r.coin()) { g.shuffle(r, true, true, true, true); }
      // one sense for the whole sheet
      for (auto& b : g.bd) if (b.attr == 7) { P3 n = dim == 2 ? P3{ g.x[b.v[1]][1] - g.x[b.v[0]][1], g.x[b.v[0]][0] - g.x[b.v[1]][0], 0 } : cross(g.x[b.v[1]] - g.x[b.v[0]], g.x[b.v[2]] - g.x[b.v[0]]); if (n[0] < 0) { std::reverse(b.v.begin(), b.v.end()); } }
      CaseDir cd(".", "sheet"); cd.j = minimalCase(g, "sheet"); std::set<int> walls; for (auto& b : g.bd) if (b.attr < 7) { walls.insert(b.attr); } cd.j["model"]["boundaries"] = json::array({ { { "tags", walls }, { "type", r.coin() ? "PEC" : "SMA" } } }); json layers = json::array(); for (int k = r.range(1, 2); k > 0; k--) { layers.push_back({ { "relative_permittivity", r.uni(1, 3) }, { "relative_permeability", r.uni(1, 2) }, { "bulk_conductivity", r.uni(0, 0.1) }, { "material_width", r.uni(0.01, 0.03) }, { "num_of_segments", 2 }, { "order", 1 } }); }
      cd.j["model"]["boundaries"].push_back({ { "tags", { 7 } }, { "type", "SGBC" }, { "layers", layers } }); cd.j["solver_options"] = { { "order", 1 }, { "time_step", 0.004 }, { "final_time", 0.02 } }; cd.write(g); auto co = coefficients(r);
      const std::string ds = fmt("%s ne=%zu P=%d layers=%zu at %.3g", shapeName(s), g.el.size(), P, layers.size(), at); M.label(ds); auto go = [&] { auto sv = driver::buildSolverJson(cd.path(), false); start(sv, co); for (int n = 0; n < 5; n++) { sv.step(); } return rowsOf(sv); }; FieldMap ref; { Quiet q; ref = single(go()); } compare(ds, "sheet", P, ref, 1e-9, go); M.event("sheet", fmt("%s P=%d", shapeName(s), P));
   }
}
// The step chosen automatically and the number of steps are those of the single run.
SECTION(steps)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(25, 300); i++) {
      Shape s = shapes[i % 5]; Draw d; d.budget = s == SEG ? 14 : s == TET ? 6 : 12; d.minN = s == TET ? 1 : 2; d.maxN = 4; d.interior = false; d.maxOrder = 2; if (s == TET || s == HEX) { d.maxOrder = 1; d.maxN = 3; } Setup u = randomProblem(r, s, d); if (u.g.el.size() < 4) { i--; continue; } const int P = r.range(2, std::min(4, (int)u.g.el.size() / 2)); u.op = Global; u.dt = 0; u.cfl = r.uni(0.1, 0.3); u.tf = r.uni(0.02, 0.05); auto part = distribution(r, u.g, P); auto co = coefficients(r);
      const std::string ds = describe(u) + fmt(" cfl=%.3g P=%d", u.cfl, P); M.label(ds); auto go = [&](bool split) { Setup v = u; if (split) { v.part = part; } auto sv = v.solver(); start(*sv, co); sv->run(); auto rows = rowsOf(*sv); std::array<double, 12> t{}; t[0] = 1e3; t[6] = sv->getTime(); t[7] = sv->getTimeStep(); t[3] = shim_mpi_rank(); rows.push_back(t); return rows; };
      FieldMap ref; double T = 0, dt = 0; { Quiet q; auto rows = go(false); T = rows.back()[6]; dt = rows.back()[7]; rows.pop_back(); ref = single(rows); }
      const int bad = shim_mpi_run(P, [&](int k) { Quiet q; auto rows = go(true); std::ofstream o(fmt("time%d.txt", k)); o.precision(17); o << rows.back()[6] << " " << rows.back()[7] << "\n"; return 0; }, 120); if (!M.expect(!bad, "step-failed", ds)) { continue; }
      for (int k = 0; k < P; k++) { auto t = readTable(fmt("time%d.txt", k), 0); std::filesystem::remove(fmt("time%d.txt", k)); M.expect(t.size() == 1 && std::abs(t[0][0] - T) <= 1e-12 && std::abs(t[0][1] - dt) <= 1e-12 * dt, "step", ds + fmt(" rank %d: time %.10g step %.10g for %.10g %.10g", k, t[0][0], t[0][1], T, dt)); } M.event("steps", fmt("%s P=%d", shapeName(s), P));
   }
}
// The records written by the probes, whichever rank holds their place.
SECTION(records)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(25, 400); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s), P = r.range(2, 4); GMesh g = box(s, std::array<int, 3>{ r.range(3, dim == 1 ? 10 : 4), dim > 1 ? r.range(2, 4) : 1, dim > 2 ? r.range(1, 2) : 1 }); g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); CaseDir cd(".", "rec"); cd.j = minimalCase(g, "rec"); std::set<int> tags; for (auto& b : g.bd) { tags.insert(b.attr); } json walls = json::array(); for (int t : tags) { walls.push_back({ { "tags", { t } }, { "type", r.pick({ "PEC", "PMC", "SMA" }) } }); } cd.j["model"]["boundaries"] = walls;
      P3 pol = unit(r.unit()); cd.j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", jvec(pol) }, { "center", jvec({ r.uni(), r.uni(), r.uni() }, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } } }); auto when = [&](json q) { q["steps"] = r.range(1, 3); return q; }; auto somewhere = [&] { return jvec({ r.uni(0.02, 0.98), r.uni(0.02, 0.98), r.uni(0.02, 0.98) }, dim); }; const int np = r.range(1, 4), nf = r.range(0, 3); for (int k = 0; k < np; k++) { cd.j["probes"]["point"].push_back(when({ { "position", somewhere() } })); } for (int k = 0; k < nf; k++) { cd.j["probes"]["field"].push_back(when({ { "position", somewhere() }, { "field_type", r.coin() ? "electric" : "magnetic" }, { "polarization", r.pick({ "X", "Y", "Z" }) } })); }
      cd.j["solver_options"] = { { "order", r.range(1, 2) }, { "time_step", 0.005 }, { "final_time", 0.03 } }; cd.write(g); const std::string ds = fmt("%s ne=%zu P=%d %s", shapeName(s), g.el.size(), P, cd.j.dump().c_str()); M.label(ds); auto go = [&] { Quiet q; auto sv = driver::buildSolverJson(cd.path(), false); sv.run(); return 0; }; std::filesystem::remove_all("Exports"); go(); const int bad = shim_mpi_run(P, [&](int) { return go(); }, 120); if (!M.expect(!bad, "records-failed", ds + fmt(" code %d", bad))) { continue; }
      for (auto [dir, name, n] : { std::tuple<std::string, std::string, int>{ "PointProbes", "PointProbe", np }, { "FieldProbes", "FieldProbe", nf } }) for (int k = 0; k < n; k++) {
         const std::string f = "/rec/" + dir + "/" + name + std::to_string(k) + ".dat"; auto a = readTable("Exports/single-core" + f, 4), b = readTable(fmt("Exports/mpi-%d", P) + f, 4); bool same = a.size() == b.size() && !a.empty(); double worst = 0; for (size_t l = 0; same && l < a.size(); l++) { same = a[l].size() == b[l].size(); for (size_t c = 0; same && c < a[l].size(); c++) { worst = std::max(worst, std::abs(a[l][c] - b[l][c])); } } M.expect(same && worst <= 1e-6, "record-" + name, ds + fmt(" %s: %zu rows for %zu, differ by %.3g", f.c_str(), b.size(), a.size(), worst)); M.event("records", fmt("%s %s P=%d rows=%zu", shapeName(s), name.c_str(), P, a.size()));
      }
   }
   std::filesystem::remove_all("Exports");
}
HARNESS_MAIN
