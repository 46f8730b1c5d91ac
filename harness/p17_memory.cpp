// P17: no memory error, undefined arithmetic or use of unset values, on valid and on malformed inputs. The sanitizers judge.
#include "surf.hpp"
#include "solver/SolverExtension.h"
using namespace em;
namespace maxwell::driver { json parseJSONfile(const std::string&); }
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };
static void touch(const mfem::Vector& v, const char* what, const std::string& ds) { double s = 0; for (int i = 0; i < v.Size(); i++) { s += v[i] * 0.0; } M.expect(s == 0.0, std::string("unset-values-") + what, ds); }
static P3 inDim(const P3& v, int dim) { P3 o{}; for (int i = 0; i < dim; i++) { o[i] = v[i]; } return o; }
static void addWave(Rng& r, Setup& u)
{
   const int dim = u.g.dim(); P3 d{}, p; do { d = inDim(r.unit(), dim); if (norm(d) < 0.2) { continue; } d = unit(d); p = r.unit(); p = p - dot(p, d) * d; } while (norm(d) < 0.5 || norm(p) < 0.2);
   if (r.coin(0.3)) { u.sources.add(std::make_unique<TotalField>(Planewave(ModulatedGaussian(r.uni(0.3, 0.8), mfem::Vector({ r.uni(-1, 1) }), r.uni(0.2, 2)), vec3(unit(p)), vec3(d), E))); }
   else { u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(r.uni(0.2, 0.8), mfem::Vector({ r.uni(-1, 1) }), 1), vec3(unit(p)), vec3(d), E))); }
}
// Every evolution operator on every kind of problem, evaluated on finite states.
static void operators(Shape s, int count)
{
   auto r = M.rng(shapeName(s));
   for (int i = 0; i < count; i++) {
      const auto type = r.pick({ Global, Maxwell, Hesthaven }); Setup u; Region g; const bool nodal = type == Hesthaven, surface = r.coin(0.4);
      if (surface) { u = surfaceProblem(r, s, g, r.range(1, 2), true, 0); addWave(r, u); if (r.coin(0.2) && shapeDim(s) == 3) { u.sources.add(std::make_unique<TotalField>(DerivGaussDipole(0.1, 0.4, 1.0))); } }
      else { Draw d; d.conductive = !nodal; d.materials = !nodal; d.maxOrder = shapeDim(s) == 3 ? 2 : 4; d.budget = s == TET ? 6 : 0; if (nodal) { d.bases = { mfem::BasisType::GaussLobatto }; } u = randomProblem(r, s, d); }
      const std::string ds = describe(u) + " " + opName(type); M.label(ds); try { Evo e(u, type); auto x = randomState(r, e.n()); for (int k = 0; k < 2; k++) { e.op->SetTime(r.uni(0, 3)); auto y = e(x); touch(y, "derivative", ds); } M.event("operators", fmt("%s %s o%d %d", shapeName(s), opName(type), u.order, (int)surface)); } catch (const std::exception& ex) { M.event("refused", ex.what()); }
   }
}
SECTION(operators_1d) { operators(SEG, M.n(60, 2000)); }
SECTION(operators_2d) { operators(TRI, M.n(40, 1000)); operators(QUAD, M.n(40, 1000)); }
SECTION(operators_tet) { operators(TET, M.n(6, 150)); }
SECTION(operators_hex) { operators(HEX, M.n(6, 150)); }

// A case using everything the reader knows, with a folder to write it in.
struct Full { GMesh g; json j; int dim; };
static Full fullCase(Rng& r, Shape s, const std::string& name)
{
   Full f; Region reg; Setup u = surfaceProblem(r, s, reg, 1, false, s == HEX || s == TET ? 0 : 2); f.g = u.g; f.dim = u.g.dim(); const int dim = f.dim; const int extra = reg.tag + 1;
   if (dim > 1 && r.coin(0.6)) { std::set<std::set<int>> have; for (auto& b : f.g.bd) { have.insert(std::set<int>(b.v.begin(), b.v.end())); } f.g.tagInterior([&](const P3&, const P3&, int, int) { return r.coin(0.1) ? extra + r.below(2) : 0; }); std::vector<El> keep; std::set<std::set<int>> seen; for (auto& b : f.g.bd) if (seen.insert(std::set<int>(b.v.begin(), b.v.end())).second) { keep.push_back(b); } f.g.bd = keep; }
   f.j = minimalCase(f.g, name); std::set<int> tags, mt; for (auto& b : f.g.bd) if (b.attr != reg.tag) { tags.insert(b.attr); } for (auto& e : f.g.el) { mt.insert(e.attr); }
   json walls = json::array(); for (int t : tags) { if (t == extra + 1 && r.coin()) { json l = json::array(); for (int k = r.range(1, 2); k > 0; k--) { l.push_back({ { "relative_permittivity", 2.0 }, { "relative_permeability", 1.5 }, { "bulk_conductivity", r.uni(0, 10) }, { "material_width", 0.01 }, { "num_of_segments", 2 }, { "order", 1 } }); } walls.push_back({ { "tags", { t } }, { "type", "SGBC" }, { "layers", l } }); if (r.coin()) { walls.back()["sgbc_boundaries"] = { { "left", { { "type", "PEC" } } }, { "right", { { "type", "SMA" } } } }; } } else { walls.push_back({ { "tags", { t } }, { "type", r.pick({ "PEC", "PMC", "SMA" }) } }); } } f.j["model"]["boundaries"] = walls;
   json mats = json::array(); for (int t : mt) { mats.push_back({ { "tags", { t } }, { "relative_permittivity", r.uni(1, 4) }, { "relative_permeability", r.uni(1, 2) }, { "bulk_conductivity", r.coin() ? 0.0 : r.uni(0, 0.01) } }); } f.j["model"]["materials"] = mats;
   f.j["sources"] = json::array(); P3 d = unit(inDim(P3{ 1, r.uni(-0.5, 0.5), r.uni(-0.5, 0.5) }, dim)), p = unit(cross(d, unit(r.unit() + P3{ 0, 0, 2 })));
   if (r.coin(0.7)) { f.j["sources"].push_back({ { "type", "planewave" }, { "tags", { reg.tag } }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.4 } } } }); if (r.coin()) { f.j["sources"].back()["magnitude"]["mean"] = { -0.5, 0, 0 }; } if (r.coin()) { f.j["sources"].back()["magnitude"]["frequency"] = 1e8; } }
   if (dim == 3 && r.coin(0.3)) { f.j["sources"].push_back({ { "type", "dipole" }, { "tags", { reg.tag } }, { "magnitude", { { "length", 0.1 }, { "spread", 0.5 }, { "mean", 2.0 } } } }); }
   if (r.coin(0.6)) { f.j["sources"].push_back({ { "type", "initial" }, { "field_type", r.coin() ? "electric" : "magnetic" }, { "polarization", { 0, 0, 1 } }, { "center", jvec({ 0.4, 0.4, 0.4 }, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } }); }
   if (r.coin(0.3)) { json m = json::array(); for (int k = 0; k < dim; k++) { m.push_back(k + 1); } f.j["sources"].push_back({ { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 1, 0 } }, { "magnitude", { { "type", "resonant" }, { "modes", m } } } }); }
   if (dim == 2 && r.coin(0.2)) { f.j["sources"].push_back({ { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 0, 1 } }, { "magnitude", { { "type", "besselj6_2D" } } } }); }
   json pr = json::object(); auto when = [&](json q) { switch (r.below(3)) { case 0: q["steps"] = r.range(1, 3); break; case 1: q["saves"] = r.range(1, 5); break; default: break; } return q; };
   if (r.coin()) { pr["point"] = json::array({ when({ { "position", jvec({ 0.31, 0.42, 0.27 }, dim) } }), when({ { "position", jvec({ 0.5, 0.2, 0.4 }, dim) } }) }); } if (r.coin()) { pr["field"] = json::array({ when({ { "position", jvec({ 0.31, 0.42, 0.27 }, dim) }, { "field_type", "electric" }, { "polarization", "Y" } }) }); }
   if (r.coin(0.4)) { pr["exporter"] = when({ { "name", "view" } }); } if (r.coin(0.4)) { pr["domain_snapshot"] = when({ { "name", "snap" } }); } if (dim > 1 && r.coin(0.4)) { pr["rcssurface"] = json::array({ when({ { "name", "rcs" }, { "tags", { reg.tag } } }) }); } if (dim > 1 && r.coin(0.4)) { pr["farfield"] = json::array({ when({ { "name", "ff" }, { "tags", { reg.tag } } }) }); } if (r.coin(0.4)) { pr["mor_state"] = json::array({ { { "name", "mor" }, { "record_time_start", 0.0 }, { "record_time_final", 0.02 }, { "saves", 3 } } }); } if (!pr.empty()) { f.j["probes"] = pr; }
   f.j["solver_options"] = { { "order", 1 }, { "time_step", 0.005 }, { "final_time", 0.02 }, { "upwind_alpha", r.coin() ? 1.0 : 0.5 } }; if (r.coin(0.3)) { f.j["solver_options"].erase("time_step"); f.j["solver_options"]["cfl"] = 0.5; } if (r.coin(0.5)) { f.j["solver_options"]["evolution_operator"] = r.pick({ "maxwell", "hesthaven", "global" }); } if (r.coin(0.2)) { f.j["solver_options"]["export_operator"] = true; } if (r.coin(0.2)) { f.j["solver_options"]["ode_type"] = r.range(0, 6); }
   return f;
}
static std::string runCase(const std::string& path, int most)
{
   try { Quiet q; auto sv = driver::buildSolverJson(path, false); if (sv.getTimeStep() > 0) { for (int k = 0; k < most && sv.getTime() < 0.02 - 1e-9; k++) { sv.step(); } } auto& F = sv.getFields(); touch(F.allDOFs(), "fields", path); return "ran"; } catch (const std::exception& e) { return e.what(); }
}
SECTION(cases)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1500); i++) { Shape s = shapes[i % 5]; CaseDir cd(".", "full"); Full f = fullCase(r, s, "full"); cd.j = f.j; cd.write(f.g); M.label(fmt("%s %s", shapeName(s), f.j.dump().c_str())); auto o = runCase(cd.path(), 5); M.event(o == "ran" ? "cases run" : "cases refused", o == "ran" ? f.j.dump() : o); }
   std::filesystem::remove_all("Exports");
}
// The same cases on several ranks.
SECTION(cases_on_ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(20, 500); i++) {
      Shape s = shapes[1 + i % 4]; const int P = r.range(2, 4); CaseDir cd(".", "ranks"); Full f = fullCase(r, s, "ranks"); f.j["solver_options"].erase("evolution_operator"); if (r.coin(0.3)) { f.j["solver_options"]["evolution_operator"] = "global"; } cd.j = f.j; cd.write(f.g); M.label(fmt("%s P=%d %s", shapeName(s), P, f.j.dump().c_str()));
      if (runCase(cd.path(), 0) != "ran") { M.event("not run alone"); continue; } std::filesystem::remove("refused");
      const int bad = shim_mpi_run(P, [&](int) { auto o = runCase(cd.path(), 3); if (o != "ran") { std::ofstream("refused") << o; return 98; } return 0; }, 120);
      if (std::filesystem::exists("refused")) { M.event("refused on ranks", slurp("refused")); } else { M.expect(!bad, "failed-on-ranks", fmt("%s P=%d code %d %s", shapeName(s), P, bad, f.j.dump().c_str())); M.event("cases on ranks", f.j.dump()); }
   }
   std::filesystem::remove_all("Exports");
}
// Random edits of a case: entries lost, renamed, of another type, out of range.
static json* anyNode(Rng& r, json& j, int depth = 0)
{
   if ((j.is_object() || j.is_array()) && !j.empty() && (depth == 0 || r.coin(0.8))) { int k = r.below((int)j.size()); auto it = j.begin(); std::advance(it, k); return anyNode(r, *it, depth + 1); } return &j;
}
static json* anyContainer(Rng& r, json& j)
{
   std::vector<json*> all; std::function<void(json&)> walk = [&](json& q) { if (q.is_object() || q.is_array()) { if (!q.empty()) { all.push_back(&q); } for (auto& c : q) { walk(c); } } }; walk(j); return all[r.below((int)all.size())];
}
static std::string mutate(Rng& r, json& j)
{
   json* c = anyContainer(r, j);
   switch (r.below(6)) {
   case 0: case 1: { auto it = c->begin(); std::advance(it, r.below((int)c->size())); std::string k = c->is_object() ? it.key() : "[]"; c->erase(it); return "erase " + k; }
   case 2: { if (!c->is_array()) { break; } json v = (*c)[r.below((int)c->size())]; c->push_back(v); return "repeat"; }
   case 3: { if (!c->is_object()) { break; } auto it = c->begin(); std::advance(it, r.below((int)c->size())); std::string k = it.key(); json v = *it; c->erase(k); (*c)[k + "x"] = v; return "rename " + k; }
   default: break;
   }
   json* n = anyNode(r, j); const std::string was = n->dump().substr(0, 60); static const std::vector<json> odd = { nullptr, true, false, 0, -1, 1, 2, 7, 1000, 0.5, -0.5, 1e-3, 1e6, "", "text", "PEC", json::array(), json::object(), json::array({ 1, 2, 3, 4 }), json::array({ 0.1 }), json::array({ nullptr }), json::array({ "a" }), json::array({ 0, 0, 0 }) };
   *n = odd[r.below((int)odd.size())]; return was + " -> " + n->dump();
}
// Sizes that only make the run long or large are kept small; they are not malformed.
static bool affordable(const json& j)
{
   bool ok = true; std::function<void(const json&, const std::string&)> walk = [&](const json& q, const std::string& k) { if (q.is_number()) { double v = q.get<double>(); if ((k == "order" || k == "refinement" || k == "num_of_segments") && v > 4) { ok = false; } } if (q.is_structured()) for (auto it = q.begin(); it != q.end(); ++it) { walk(*it, q.is_object() ? it.key() : k); } }; walk(j, ""); return ok;
}
static void malformed(Rng& r, int count)
{
   for (int i = 0; i < count; i++) {
      Shape s = r.coin(0.15) ? (r.coin() ? TET : HEX) : shapes[r.below(3)]; CaseDir cd(".", "bad"); Full f = fullCase(r, s, "bad"); cd.j = f.j; std::string what; for (int k = r.range(1, 3); k > 0; k--) { what += mutate(r, cd.j) + "; "; } if (cd.j.is_null() || !affordable(cd.j)) { continue; } cd.write(f.g); M.label(fmt("%s [%s] %s", shapeName(s), what.c_str(), cd.j.dump().c_str())); auto o = runCase(cd.path(), 3); M.event(o == "ran" ? "edited cases run" : "edited cases refused", o == "ran" ? what : o); if (i % 50 == 0) { std::filesystem::remove_all("Exports"); }
   }
   std::filesystem::remove_all("Exports");
}
SECTION(malformed_cases) { auto r = M.rng(); malformed(r, M.n(400, 20000)); }
SECTION(malformed_cases_2) { auto r = M.rng(); malformed(r, M.n(400, 20000)); }
// Case files that are not even well-formed text.
SECTION(broken_text)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(100, 4000); i++) {
      CaseDir cd(".", "text"); Full f = fullCase(r, SEG, "text"); cd.j = f.j; cd.write(f.g); std::string t = slurp(cd.path()); for (int k = r.range(1, 4); k > 0; k--) { if (t.empty()) { break; } switch (r.below(4)) { case 0: t.resize(r.below((int)t.size())); break; case 1: t[r.below((int)t.size())] = (char)r.range(0, 255); break; case 2: t.erase(r.below((int)t.size()), r.range(1, 5)); break; default: t.insert(r.below((int)t.size()), r.pick({ "{", "}", "[", "]", ",", "\"", "1e400", "\\" })); break; } }
      std::ofstream(cd.path(), std::ios::binary) << t; json j; try { j = json::parse(t); } catch (...) {} if (!j.is_null() && !affordable(j)) { continue; } M.label(fmt("broken text %d", i)); auto o = runCase(cd.path(), 2); M.event(o == "ran" ? "broken text run" : "broken text refused", o);
   }
   std::filesystem::remove_all("Exports");
}
// Mesh files with lines lost, repeated or with other numbers in them, through the reader's own normalisation.
SECTION(broken_meshes)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(200, 8000); i++) {
      Shape s = shapes[r.below(5)]; CaseDir cd(".", "mesh"); Full f = fullCase(r, s, "mesh"); cd.j = f.j; cd.write(f.g); std::vector<std::string> l; { std::ifstream in(cd.mesh()); std::string x; while (std::getline(in, x)) { l.push_back(x); } } std::string what;
      for (int k = r.range(1, 3); k > 0 && l.size() > 1; k--) { size_t n = r.below((int)l.size()); switch (r.below(5)) { case 0: what += "lost " + l[n] + "; "; l.erase(l.begin() + n); break; case 1: what += "twice " + l[n] + "; "; l.insert(l.begin() + n, l[n]); break; case 2: { what += "cut " + l[n] + "; "; l[n] = l[n].substr(0, l[n].size() / 2); break; } case 3: { std::istringstream is(l[n]); std::vector<std::string> tk; std::string t; while (is >> t) { tk.push_back(t); } if (tk.empty()) { break; } tk[r.below((int)tk.size())] = r.pick({ "-1", "0", "15", "x", "99999999999999", "3", "1" }); l[n] = ""; for (auto& t2 : tk) { l[n] += (l[n].empty() ? "" : " ") + t2; } what += "to " + l[n] + "; "; break; } default: what += "end at " + l[n] + "; "; l.resize(n); break; } }
      { std::ofstream o(cd.mesh()); for (auto& x : l) { o << x << "\n"; } } M.label(fmt("%s %s", shapeName(s), what.c_str())); auto o = runCase(cd.path(), 2); M.event(o == "ran" ? "broken mesh run" : "broken mesh refused", o == "ran" ? what : o);
   }
   std::filesystem::remove_all("Exports");
}
// Recorded surfaces with bytes changed or lost.
SECTION(broken_records)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(150, 6000); i++) {
      Record rc; Shape s = r.pick({ TRI, QUAD, TET, HEX }); rc.g = surfaceMesh(r, s, 1, r.coin(), true); rc.order = r.range(1, 2); const int n = rc.ndofs(); for (int k = r.range(1, 4); k > 0; k--) { rc.t.push_back(0.1 * rc.t.size()); Fields6 f; for (auto& v : f) { v = randomState(r, n); } rc.f.push_back(f); }
      std::filesystem::remove_all("rec"); rc.write("rec/rank0"); if (r.coin(0.3)) { rc.write("rec/rank1"); } waveCase("rec/w.json", 0.5, { -2, 0, 0 }, { 1, 0, 0 }); std::string b = slurp("rec/rank0/surface_data.bin"); std::string what;
      switch (r.below(5)) { case 0: b.resize(r.below((int)b.size() + 1)); what = fmt("%zu bytes", b.size()); break; case 1: { int at = 4 * r.below(5); int32_t v = r.pick({ 0, -1, 1, 2, 3, 4, 100, 100000, 2147483647, -2147483647 - 1 }); memcpy(&b[at], &v, 4); what = fmt("header %d = %d", at / 4, v); break; } case 2: for (int k = 0; k < 8; k++) { b[r.below((int)b.size())] = (char)r.range(0, 255); } what = "bytes"; break; case 3: std::filesystem::remove("rec/rank0/mesh"); what = "no mesh"; break; default: b += std::string(r.below(200), 'x'); what = "longer"; break; }
      { std::ofstream o("rec/rank0/surface_data.bin", std::ios::binary); o << b; } M.label(fmt("%s %s", shapeName(s), what.c_str())); std::string o; try { Quiet q; std::vector<Frequency> fr{ 1e8, 2e8 }; std::vector<SphericalAngles> an{ { std::acos(0.0), 0.3 } }; RCSSurfacePostProcessor p("rec", "rec/w.json", fr, an); o = "ran"; } catch (const std::exception& e) { o = e.what(); } M.event(o == "ran" ? "changed records used" : "changed records refused", what + o);
   }
   std::filesystem::remove_all("rec");
}
HARNESS_MAIN
