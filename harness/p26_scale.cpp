// P26: results do not depend on the unit of length.
#include "surf.hpp"
using namespace em;
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };
// The same problem in a unit of length s times smaller: lengths and times grow by s, conductivities shrink by s.
static Setup scaled(const Setup& u, double s)
{
   Setup v = u; for (auto& p : v.g.x) { p = s * p; } v.mats.clear(); for (auto& m : u.mats) { auto c = m.second; v.mats.insert({ m.first, Material(c.getPermittivity(), c.getPermeability(), c.getConductivity() / s) }); } v.dt = u.dt * s; v.tf = u.tf * s; v.unit = u.unit * s; return v;
}
static double pickScale(Rng& r) { static const int e[] = { -30, -24, -20, -17, -13, -10, -7, -3, 4, 7, 10, 13, 17, 20 }; return std::ldexp(1.0, e[r.below(14)]); }
static void operators(Shape s, int count)
{
   auto r = M.rng(shapeName(s));
   for (int i = 0; i < count; i++) {
      Draw d; d.conductive = r.coin(0.4); d.curved = 0.3; d.maxOrder = s == TET || s == HEX ? 2 : 3; auto op = r.pick({ Global, Maxwell, Hesthaven }); if (op != Global) { d.conductive = false; } if (op == Hesthaven && s == SEG) { op = Global; } if (op == Hesthaven) { d.bases = { mfem::BasisType::GaussLobatto }; } Setup u = randomProblem(r, s, d); const double f = pickScale(r); const std::string ds = describe(u) + fmt(" %s scale %.3g", opName(op), f); M.label(ds); std::unique_ptr<Evo> a; try { a = std::make_unique<Evo>(u, op); } catch (const std::exception& e) { M.event("refused", std::string(opName(op)) + e.what()); continue; }
      Setup v = scaled(u, f); std::unique_ptr<Evo> b; try { b = std::make_unique<Evo>(v, op); } catch (const std::exception& e) { M.expect(false, std::string("refused-") + opName(op), ds + " " + e.what()); continue; } if (!M.expect(a->n() == b->n(), "size", ds)) { continue; }
      auto x = randomState(r, a->n()); auto y = (*a)(x), z = (*b)(x); z *= f; M.near(maxDiff(y, z) / maxAbs(y), 0, 1e-8, std::string("operator-") + opName(op), ds); M.event("operators", fmt("%s %s order=%d %.3g", shapeName(s), opName(op), u.order, f));
   }
}
SECTION(operators_1d) { operators(SEG, M.n(120, 2000)); }
SECTION(operators_tri) { operators(TRI, M.n(80, 1500)); }
SECTION(operators_quad) { operators(QUAD, M.n(80, 1500)); }
SECTION(operators_tet) { operators(TET, M.n(30, 400)); }
SECTION(operators_hex) { operators(HEX, M.n(30, 400)); }
static mfem::Vector all(maxwell::Solver& sv) { auto& F = sv.getFields(); const int n = F.get(E, X).Size(); mfem::Vector v(6 * n); for (int q = 0; q < 6; q++) for (int j = 0; j < n; j++) { v[q * n + j] = F.get(q < 3 ? E : H, (Direction)(q % 3))[j]; } return v; }
static void put(maxwell::Solver& sv, const mfem::Vector& v) { auto& F = sv.getFields(); const int n = F.get(E, X).Size(); for (int q = 0; q < 6; q++) for (int j = 0; j < n; j++) { F.get(q < 3 ? E : H, (Direction)(q % 3))[j] = v[q * n + j]; } }
static GMesh grown(GMesh g, double f) { for (auto& p : g.x) { p = f * p; } return g; }
// Multiplies every length and time of a case, divides every rate.
static void grow(json& j, double f, const std::string& key = "")
{
   static const std::set<std::string> up{ "spread", "mean", "center", "position", "time_step", "final_time", "material_width", "record_time_start", "record_time_final" }, down{ "bulk_conductivity", "frequency" };
   if (j.is_object()) { for (auto it = j.begin(); it != j.end(); ++it) { grow(it.value(), f, it.key()); } } else if (j.is_array()) { for (auto& x : j) { grow(x, f, key); } } else if (j.is_number()) { if (up.count(key)) { j = j.get<double>() * f; } else if (down.count(key)) { j = j.get<double>() / f; } }
}
struct Twin { double time = 0, step = 0; mfem::Vector v; std::string err; };
static Twin runCase(const json& j, const GMesh& g, double f, const mfem::Vector* from, int steps)
{
   CaseDir cd(".", "scale"); cd.j = j; grow(cd.j, f); cd.write(grown(g, f)); Twin t; Quiet q; try { auto sv = driver::buildSolverJson(cd.path(), false); if (from) { put(sv, *from); } if (steps) { for (int k = 0; k < steps; k++) { sv.step(); } } else { sv.run(); } t.v = all(sv); t.time = sv.getTime() / f; t.step = sv.getTimeStep() / f; } catch (const std::exception& e) { t.err = e.what(); if (t.err.empty()) { t.err = "exception"; } } return t;
}
static bool same(const Twin& a, const Twin& b, const std::string& key, double tol, const std::string& ds)
{
   if (!M.expect(b.err.empty(), key + "-refused", ds + " " + b.err)) { return false; } M.near(b.time, a.time, 1e-9 * a.time, key + "-time", ds); M.near(b.step, a.step, 1e-9 * a.step, key + "-step", ds); return M.near(maxDiff(a.v, b.v) / std::max(1e-3, maxAbs(a.v)), 0, tol, key, ds + fmt(" fields of size %.3g", maxAbs(a.v)));
}
SECTION(steps)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1000); i++) {
      Shape s = shapes[i % 5]; Draw d; d.maxOrder = 2; d.interior = false; d.curved = 0.3; Setup u = randomProblem(r, s, d); u.op = s == SEG ? Global : r.pick({ Global, Hesthaven }); if (u.op == Hesthaven) { u.basis = mfem::BasisType::GaussLobatto; } u.dt = 0; u.cfl = r.uni(0.1, 0.4); u.tf = r.uni(0.02, 0.08); const double f = pickScale(r); const std::string ds = describe(u) + fmt(" %s scale %.3g", opName(u.op), f); M.label(ds); Setup v = scaled(u, f);
      auto go = [&](Setup& w, double k) { Twin t; Quiet q; try { auto sv = w.solver(); mfem::Vector x(6 * sv->getFields().get(E, X).Size()); Rng z(7); for (int n = 0; n < x.Size(); n++) { x[n] = z.uni(-1, 1); } put(*sv, x); sv->run(); t.v = all(*sv); t.time = sv->getTime() / k; t.step = sv->getTimeStep() / k; } catch (const std::exception& e) { t.err = e.what(); } return t; }; auto a = go(u, 1), b = go(v, f); if (!a.err.empty()) { M.event("refused", a.err); continue; } same(a, b, "automatic", 1e-8, ds); M.event("automatic steps", fmt("%s %s %.3g", shapeName(s), opName(u.op), f));
   }
}
SECTION(waves)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(80, 1200); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s); Region reg; Setup u = surfaceProblem(r, s, reg, 1, false, dim == 2 ? r.range(1, 4) : s == HEX ? r.range(1, 3) : 2); json j = minimalCase(u.g, "scale"); json walls = json::array(); for (auto& b : u.bdr) { walls.push_back({ { "tags", { b.first } }, { "type", b.second == BdrCond::PEC ? "PEC" : b.second == BdrCond::PMC ? "PMC" : "SMA" } }); } j["model"]["boundaries"] = walls;
      P3 d{}, p; do { auto q = r.unit(); d = {}; for (int k = 0; k < dim; k++) { d[k] = q[k]; } if (norm(d) < 0.2) { continue; } d = unit(d); p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2); p = unit(p); const bool dipole = dim == 3 && r.coin(0.2);
      json src = { { "type", "planewave" }, { "tags", { reg.tag } }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", 0.5 }, { "mean", { -0.5, 0, 0 } } } } }; j["solver_options"] = { { "order", 1 }, { "time_step", 0.01 }, { "final_time", 0.05 } }; if (r.coin(0.4)) { src["magnitude"] = { { "spread", 0.08 } }; j["solver_options"]["final_time"] = 0.5; } j["sources"].push_back(src); const double f = pickScale(r); const std::string ds = describe(u) + fmt(" scale %.3g %s", f, j["sources"].dump().c_str()); M.label(ds); (void)dipole;
      auto a = runCase(j, u.g, 1, nullptr, 0), b = runCase(j, u.g, f, nullptr, 0); if (!a.err.empty()) { M.event("refused", a.err); continue; } same(a, b, "wave", 1e-6, ds); M.event("waves", fmt("%s %.3g", shapeName(s), f));
   }
}
// Sheets whose resolution is left to the program are lossy: for nearly lossless ones it depends on the conductivity as such.
static void sheetCase(Rng& r, Shape s, GMesh& g, json& j, json& layers, double& at)
{
   const int dim = shapeDim(s); const int nx = r.range(4, 6); g = box(s, std::array<int, 3>{ nx, 2, 1 }); at = r.range(1, nx - 1) / (double)nx; g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); g.tagInterior([&](const P3& c, const P3& n, int, int) { return std::abs(c[0] - at) < 1e-9 && std::abs(n[0]) > 0.9 ? 7 : 0; });
   for (auto& b : g.bd) if (b.attr == 7 && dim > 1) { P3 n = dim == 2 ? P3{ g.x[b.v[1]][1] - g.x[b.v[0]][1], g.x[b.v[0]][0] - g.x[b.v[1]][0], 0 } : cross(g.x[b.v[1]] - g.x[b.v[0]], g.x[b.v[2]] - g.x[b.v[0]]); if (n[0] < 0) { std::reverse(b.v.begin(), b.v.end()); } }
   j = minimalCase(g, "scale"); std::set<int> walls; for (auto& b : g.bd) if (b.attr < 7) { walls.insert(b.attr); } j["model"]["boundaries"] = json::array({ { { "tags", walls }, { "type", r.coin() ? "PEC" : "SMA" } } }); layers = json::array(); const bool given = r.coin(); for (int k = r.range(1, 2); k > 0; k--) { layers.push_back({ { "relative_permittivity", r.uni(1, 3) }, { "relative_permeability", r.uni(1, 2) }, { "bulk_conductivity", given && r.coin(0.3) ? 0.0 : r.uni(0.02, 0.1) }, { "material_width", r.uni(0.01, 0.03) } }); if (given) { layers.back()["num_of_segments"] = 2; layers.back()["order"] = 1; } }
   j["model"]["boundaries"].push_back({ { "tags", { 7 } }, { "type", "SGBC" }, { "layers", layers } }); P3 pol = unit(r.unit()); j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", jvec(pol) }, { "center", jvec({ 0.3, 0.4, 0.5 }, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } } }); j["solver_options"] = { { "order", 1 }, { "time_step", 0.004 }, { "final_time", 0.06 } };
}
SECTION(sheets)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(24, 400); i++) {
      Shape s = shapes[i % 5]; GMesh g; json j, layers; double at; sheetCase(r, s, g, j, layers, at); const double f = pickScale(r);
      const std::string ds = fmt("%s ne=%zu layers=%s at %.3g scale %.3g", shapeName(s), g.el.size(), layers.dump().c_str(), at, f); M.label(ds); auto a = runCase(j, g, 1, nullptr, 0), b = runCase(j, g, f, nullptr, 0); if (!a.err.empty()) { M.event("refused", a.err); continue; } same(a, b, "sheet", 1e-6, ds); M.event("sheets", fmt("%s %.3g", shapeName(s), f));
   }
}
// On several ranks, each of which compares its own part.
SECTION(ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(16, 200); i++) {
      Shape s = shapes[1 + i % 4]; GMesh g; json j, layers; double at = 0; const int P = r.range(2, 3); const bool sheet = r.coin(0.4); if (sheet) { sheetCase(r, s, g, j, layers, at); } else { Region reg; const int dim = shapeDim(s); g = surfaceProblem(r, s, reg, 1, false, dim == 2 ? r.range(2, 4) : 2).g; j = minimalCase(g, "scale"); P3 d{ 1, 0, 0 }, p{ 0, 0, 1 }; j["sources"] = json::array({ { { "type", "planewave" }, { "tags", { reg.tag } }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", 0.5 }, { "mean", { -0.5, 0, 0 } } } } } }); j["solver_options"] = { { "order", 1 }, { "time_step", 0.01 }, { "final_time", 0.05 } }; }
      const double f = pickScale(r); const std::string ds = fmt("%s ne=%zu P=%d sheet=%d at %.3g scale %.3g", shapeName(s), g.el.size(), P, sheet, at, f); M.label(ds); CaseDir one("one", "scale"), two("two", "scale"); one.j = two.j = j; grow(two.j, f); one.write(g); two.write(grown(g, f)); for (int k = 0; k < P; k++) { std::filesystem::remove(fmt("diff%d.txt", k)); }
      const int bad = shim_mpi_run(P, [&](int k) { Quiet q; mfem::Vector v[2]; int c = 0; for (auto* x : { &one, &two }) { auto sv = driver::buildSolverJson(x->path(), false); sv.run(); v[c++] = all(sv); } std::ofstream o(fmt("diff%d.txt", k)); o.precision(17); o << (v[0].Size() == v[1].Size() ? maxDiff(v[0], v[1]) : 1e9) << " " << maxAbs(v[0]); return 0; }, 120);
      if (!M.expect(!bad, "ranks-failed", ds + fmt(" code %d", bad))) { continue; } for (int k = 0; k < P; k++) { std::ifstream in(fmt("diff%d.txt", k)); double d = NAN, m = NAN; in >> d >> m; M.expect(d <= 1e-6 * std::max(1e-3, m), sheet ? "ranks-sheet" : "ranks-wave", ds + fmt(" rank %d differs by %.3g of %.3g", k, d, m)); M.event("ranks", fmt("%s P=%d sheet=%d %.3g", shapeName(s), P, sheet, f)); }
   }
}
SECTION(records)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1000); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s); GMesh g = box(s, std::array<int, 3>{ r.range(3, dim == 1 ? 10 : 4), dim > 1 ? r.range(2, 4) : 1, dim > 2 ? r.range(1, 2) : 1 }); g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); json j = minimalCase(g, "scale"); P3 pol = unit(r.unit()); j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", jvec(pol) }, { "center", jvec({ r.uni(), r.uni(), r.uni() }, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } } });
      auto somewhere = [&] { return jvec({ r.uni(0.02, 0.98), r.uni(0.02, 0.98), r.uni(0.02, 0.98) }, dim); }; const int np = r.range(1, 3), nf = r.range(1, 3); auto when = [&](json q) { if (r.coin()) { q["steps"] = r.range(1, 3); } else { q["saves"] = r.range(2, 5); } return q; }; for (int k = 0; k < np; k++) { j["probes"]["point"].push_back(when({ { "position", somewhere() } })); } for (int k = 0; k < nf; k++) { j["probes"]["field"].push_back(when({ { "position", somewhere() }, { "field_type", r.coin() ? "electric" : "magnetic" }, { "polarization", r.pick({ "X", "Y", "Z" }) } })); }
      j["solver_options"] = { { "order", r.range(1, 2) }, { "time_step", 0.005 }, { "final_time", r.pick({ 0.03, 0.0325 }) } }; const double f = pickScale(r); const std::string ds = fmt("%s ne=%zu scale %.3g %s", shapeName(s), g.el.size(), f, j.dump().c_str()); M.label(ds); std::map<std::string, std::vector<std::vector<double>>> ref; bool refused = false;
      for (double k : { 1.0, f }) {
         std::filesystem::remove_all("Exports"); auto t = runCase(j, g, k, nullptr, 0); if (k == 1.0 && !t.err.empty()) { M.event("refused", t.err); refused = true; } if (refused) { break; } if (!M.expect(t.err.empty(), "records-refused", ds + t.err)) { break; }
         for (auto [dir, name, n] : { std::tuple<std::string, std::string, int>{ "PointProbes", "PointProbe", np }, { "FieldProbes", "FieldProbe", nf } }) for (int q = 0; q < n; q++) {
            const std::string path = "Exports/single-core/scale/" + dir + "/" + name + std::to_string(q) + ".dat"; auto tab = readTable(path, 4); if (k == 1.0) { ref[path] = tab; continue; } auto& a = ref[path]; bool ok = a.size() == tab.size() && !a.empty(); double worst = 0; for (size_t l = 0; ok && l < a.size(); l++) { ok = a[l].size() == tab[l].size(); for (size_t c = 0; ok && c < a[l].size(); c++) { worst = std::max(worst, c ? std::abs(a[l][c] - tab[l][c]) : std::abs(tab[l][c] / f - a[l][c]) / (0.03 / 3e8)); } } M.expect(ok && worst <= 2e-5, "record-" + name, ds + fmt(" %zu rows for %zu, differ by %.3g", tab.size(), a.size(), worst)); M.event("records", fmt("%s %s %.3g", shapeName(s), name.c_str(), f));
         }
      }
   }
   std::filesystem::remove_all("Exports");
}
// Whole-domain snapshots, views, states and near fields: the same files, the same instants, the same values.
SECTION(files)
{
   auto r = M.rng(); namespace fs = std::filesystem;
   for (int i = 0; i < M.n(40, 700); i++) {
      Shape s = shapes[i % 5]; const int dim = shapeDim(s); Region reg; GMesh g; if (dim > 1) { g = surfaceProblem(r, s, reg, 1, false, 2).g; } else { g = box(s, std::array<int, 3>{ r.range(3, 10), 1, 1 }); g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); } json j = minimalCase(g, "scale"); std::set<int> walls; { std::map<std::set<int>, int> in; auto F = g.faces(); for (auto& kv : F) if (kv.second.e2 < 0) { in[std::set<int>(kv.second.v.begin(), kv.second.v.end())] = 1; } for (auto& b : g.bd) if (in.count(std::set<int>(b.v.begin(), b.v.end()))) { walls.insert(b.attr); } } j["model"]["boundaries"] = json::array({ { { "tags", walls }, { "type", "PEC" } } });
      P3 pol = unit(r.unit()); j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", jvec(pol) }, { "center", jvec({ r.uni(), r.uni(), r.uni() }, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } } }); auto when = [&](json q) { if (r.coin()) { q["steps"] = r.range(1, 3); } else { q["saves"] = r.range(2, 5); } return q; };
      j["probes"]["exporter"] = when({ { "name", "view" } }); j["probes"]["domain_snapshot"] = when({ { "name", "snap" } }); const double T = r.pick({ 0.03, 0.0325 }); j["probes"]["mor_state"] = json::array({ { { "name", "mor" }, { "record_time_start", r.coin() ? 0.0 : 0.0117 }, { "record_time_final", r.coin() ? T : 0.0241 }, { "saves", r.range(1, 3) } } }); if (dim > 1) { j["probes"]["farfield"] = json::array({ when({ { "name", "near" }, { "tags", { reg.tag } } }) }); j["probes"]["rcssurface"] = json::array({ when({ { "name", "rcs" }, { "tags", { reg.tag } } }) }); }
      j["solver_options"] = { { "order", 1 }, { "time_step", 0.005 }, { "final_time", T } }; const double f = pickScale(r); const std::string ds = fmt("%s ne=%zu scale %.3g %s", shapeName(s), g.el.size(), f, j.dump().c_str()); M.label(ds); using Doc = std::vector<double>; std::map<std::string, Doc> ref, got; bool refused = false;
      auto take = [&](std::map<std::string, Doc>& to) {
         if (!fs::exists("Exports")) { return; } for (auto& e : fs::recursive_directory_iterator("Exports")) {
            if (!e.is_regular_file()) { continue; } const std::string p = e.path().string(), nm = e.path().filename().string(); Doc d; if (p.find("SimulationStats") != std::string::npos || p.find("/mesh") != std::string::npos || p.find("Operators") != std::string::npos) { continue; }
            if (nm == "surface_data.bin") { d.push_back((double)fs::file_size(e.path())); to[p] = d; continue; } std::ifstream in(p); std::string w; bool body = nm.size() < 3 || nm.substr(nm.size() - 3) != ".gf"; if (!body) { std::string l; while (std::getline(in, l)) if (l.empty()) { break; } } while (in >> w) { char* end = nullptr; double v = std::strtod(w.c_str(), &end); if (end && !*end) { d.push_back(v); } } to[p] = d;
         }
      };
      for (double k : { 1.0, f }) { fs::remove_all("Exports"); auto t = runCase(j, g, k, nullptr, 0); if (k == 1.0 && !t.err.empty()) { M.event("refused", t.err); refused = true; } if (refused || !M.expect(t.err.empty(), "files-refused", ds + t.err)) { refused = true; break; } take(k == 1.0 ? ref : got); } fs::remove_all("Exports"); if (refused) { continue; }
      for (auto& kv : ref) {
         auto it = got.find(kv.first); if (!M.expect(it != got.end(), "file-missing", ds + " " + kv.first)) { continue; } auto &a = kv.second, &b = it->second; if (!M.expect(a.size() == b.size(), "file-size", ds + fmt(" %s %zu for %zu", kv.first.c_str(), b.size(), a.size()))) { continue; } auto ends = [&](const char* x) { std::string e = x; return kv.first.size() >= e.size() && kv.first.compare(kv.first.size() - e.size(), e.size(), e) == 0; };
         if (ends(".pvd") || ends(".bin")) { M.expect(!ends(".bin") || a == b, "file-length", ds + " " + kv.first); continue; } const bool clock = ends("time.txt") || ends(".vtu") || kv.first.find("MORState") != std::string::npos; double worst = 0; for (size_t q = 0; q < a.size(); q++) { worst = std::max(worst, q == 0 && clock ? std::abs(b[q] / f - a[q]) / T : std::abs(b[q] - a[q])); } M.expect(worst <= 2e-5, clock ? "file-timed" : "file-values", ds + fmt(" %s differs by %.3g", kv.first.c_str(), worst)); M.event("files", fmt("%s %s %.3g", shapeName(s), std::filesystem::path(kv.first).filename().c_str(), f));
      }
      for (auto& kv : got) { M.expect(ref.count(kv.first), "file-extra", ds + " " + kv.first); }
   }
}
// Radar cross sections grow with the area, far fields with them.
SECTION(far_field)
{
   auto r = M.rng(); const double C = 299792458.0;
   for (int i = 0; i < M.n(40, 800); i++) {
      static const Shape sh[] = { TRI, QUAD, TET, HEX }; Shape s = sh[i % 4]; const int dim = shapeDim(s), order = r.range(1, dim == 2 ? 3 : 2); GMesh g = surfaceMesh(r, s, dim == 2 ? 4 : 2, r.coin(), true); Record q = randomRecord(r, g, order, mfem::BasisType::GaussLobatto, r.range(2, 10), 0.3), p = q; const double f = pickScale(r), fr = r.uni(0.02, 0.15), sp = r.uni(0.3, 1.5), car = r.coin(0.3) ? r.uni(0.05, 0.4) : 0; p.g = grown(g, f); for (auto& t : p.t) { t *= f; } P3 prop = r.unit(), mean = -r.uni(0.2, 2) * prop; std::vector<SphericalAngles> an{ { dim == 2 ? std::acos(0.0) : r.uni(0.1, 3), r.uni(0, 6) } };
      const std::string ds = fmt("%s ne=%zu order=%d frames=%zu f=%.4g spread=%.3g carrier=%.3g scale %.3g", shapeName(s), g.el.size(), order, q.t.size(), fr, sp, car, f); M.label(ds); double far[2], rcs[2]; std::string err[2]; for (int k = 0; k < 2; k++) { const double z = k ? f : 1; std::filesystem::remove_all("data"); (k ? p : q).write("data/rank0"); waveCase("wave.json", sp * z, z * mean, prop, car * C / z); std::vector<double> fq{ fr * C / z }; Quiet quiet; try { RCSSurfacePostProcessor pp("data", "wave.json", fq, an); const double nf = fq[0] / physicalConstants::speedOfLight_SI; far[k] = pp.getFarField(an[0], nf) / std::pow(z, 2 * dim - 4); rcs[k] = pp.getRCS(an[0], nf) / std::pow(z, dim - 1); } catch (const std::exception& e) { err[k] = e.what(); if (err[k].empty()) { err[k] = "exception"; } } }
      std::filesystem::remove_all("data"); if (!err[0].empty()) { M.event("refused", err[0]); continue; } if (!M.expect(err[1].empty(), "far-refused", ds + err[1])) { continue; } M.near(far[1], far[0], 1e-6 * far[0], "far-field", ds); M.near(rcs[1], rcs[0], 1e-6 * rcs[0], "cross-section", ds); M.event("far fields", fmt("%s %.3g", shapeName(s), f));
   }
}
HARNESS_MAIN
