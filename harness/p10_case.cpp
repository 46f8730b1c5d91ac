// P10: a case file reaches the constructed problem value by value; incomplete or inconsistent ones are rejected.
#include "case.hpp"
using namespace em;
namespace maxwell::driver { Probes buildProbes(const json&); SolverOptions buildSolverOptions(const json&); json parseJSONfile(const std::string&); }
static const double PI = std::acos(-1.0), C0 = 299792458.0, Z0 = 4e-7 * PI * C0;

// A mesh with sparse element tags, exterior tags 1..4 and two interior curves (11: closed square, 12: a part of a line).
static GMesh plate(Rng& r, Shape s)
{
   auto g = box(s, std::array<int, 3>{ 6, 6, 1 }); const int a = r.range(1, 4), b = a + r.range(1, 5); g.setAttr([&](const P3& c) { return c[0] < 0.5 ? a : b; });
   g.tagExterior([](const P3&, const P3& q) { return sideTag(q); });
   auto in = [](const P3& c) { return c[0] > 1.0 / 6 && c[0] < 0.5 && c[1] > 1.0 / 6 && c[1] < 0.5; };
   g.tagInterior([&](const P3& c, const P3& n, int e1, int e2) { P3 d = (0.01) * n; if (in(c + d) != in(c - d)) { return 11; } return std::abs(n[0]) > 0.9 && std::abs(c[0] - 5.0 / 6) < 1e-6 && c[1] < 0.7 ? 12 : 0; }); return g;
}
static json anyOptions(Rng& r)
{
   json o = json::object(); if (r.coin()) { o["upwind_alpha"] = r.coin(0.2) ? 0.0 : r.uni(); } if (r.coin()) { o["time_step"] = r.logu(1e-5, 1e-2); } if (r.coin()) { o["final_time"] = r.logu(1e-2, 100); } if (r.coin()) { o["cfl"] = r.uni(0.05, 1); } if (r.coin()) { o["order"] = r.range(1, 6); }
   if (r.coin()) { o["spectral"] = r.coin(); } if (r.coin()) { o["export_operator"] = r.coin(); } if (r.coin()) { o["evolution_operator"] = r.pick({ std::string("maxwell"), std::string("global"), std::string("hesthaven") }); } if (r.coin()) { o["basis_type"] = r.range(0, 2); } if (r.coin()) { o["ode_type"] = r.range(0, 6); } return o;
}
SECTION(options)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(1000, 40000); i++) {
      json j; const bool have = r.coin(0.9); if (have) { j["solver_options"] = anyOptions(r); } const json o = have ? j["solver_options"] : json::object(); const std::string ds = o.dump();
      auto s = driver::buildSolverOptions(j); auto d = [&](const char* k, double def) { return o.contains(k) ? o[k].get<double>() : def; };
      M.near(s.evolution.alpha, d("upwind_alpha", 1.0), 0, "option-upwind", ds); M.near(s.time_step, d("time_step", 0.0), 0, "option-time-step", ds); M.near(s.final_time, d("final_time", 2.0), 0, "option-final-time", ds); M.near(s.cfl, d("cfl", 1.0), 0, "option-cfl", ds);
      M.expect(s.evolution.order == (o.contains("order") ? o["order"].get<int>() : 2), "option-order", ds); M.expect(s.evolution.spectral == (o.contains("spectral") && o["spectral"].get<bool>()), "option-spectral", ds); M.expect(s.evolution.export_evolution_operator == (o.contains("export_operator") && o["export_operator"].get<bool>()), "option-export", ds);
      const std::string ev = o.contains("evolution_operator") ? o["evolution_operator"].get<std::string>() : "global"; M.expect(s.evolution.op == (ev == "maxwell" ? Maxwell : ev == "hesthaven" ? Hesthaven : Global), "option-operator", ds);
      M.expect(s.basis_type == (o.contains("basis_type") ? o["basis_type"].get<int>() : (int)mfem::BasisType::GaussLobatto), "option-basis", ds); M.expect(s.ode_type == (o.contains("ode_type") ? o["ode_type"].get<size_t>() : (size_t)RK4), "option-ode", ds); M.expect(!s.is_sgbc_solver && !s.evolution.is_sgbc_solver, "option-sgbc", ds);
      M.event("options", ds);
      for (const char* bad : { "Global", "", "globall", "MAXWELL", "dg" }) { json b = j; b["solver_options"]["evolution_operator"] = bad; M.throws([&] { driver::buildSolverOptions(b); }, "unknown-operator-accepted", bad); }
      for (const char* k : { "upwind_alpha", "time_step", "final_time", "cfl", "order", "evolution_operator" }) { json b = j; b["solver_options"][k] = k == std::string("evolution_operator") ? json(1) : json("text"); M.throws([&] { driver::buildSolverOptions(b); }, "wrong-type-accepted", k); }
   }
}
// Step interval of a probe as documented.
static int interval(const json& p, const json& j) { if (p.contains("steps")) { return p["steps"]; } if (!p.contains("saves")) { return 1; } int s = p["saves"]; if (s <= 0) { return 1; } json o = j.contains("solver_options") ? j["solver_options"] : json::object(); double T = o.contains("final_time") ? o["final_time"].get<double>() : 2.0, dt = o.contains("time_step") ? o["time_step"].get<double>() : 0.0; return dt > 0 ? std::max(1, (int)std::ceil(T / dt) / s) : 1; }
static json schedule(Rng& r, json p) { switch (r.below(3)) { case 0: p["steps"] = r.range(1, 50); break; case 1: p["saves"] = r.range(0, 200); break; default: break; } return p; }
static int saves(const json& p, int def = 0) { return p.contains("saves") ? p["saves"].get<int>() : def; }
static json anyTags(Rng& r) { json t = json::array(); for (int k = r.range(1, 4); k > 0; k--) { t.push_back(r.range(1, 30)); } return t; }
static json anyPoint(Rng& r) { json p = json::array(); for (int k = r.range(1, 3); k > 0; k--) { p.push_back(r.uni(-5, 5)); } return p; }
static const std::vector<std::string> FT{ "electric", "magnetic" }, AX{ "X", "Y", "Z" };
SECTION(probes)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(800, 30000); i++) {
      json j, p; j["model"]["filename"] = "thing.msh"; if (r.coin(0.8)) { j["solver_options"] = anyOptions(r); }
      auto named = [&](json x) { if (r.coin()) { x["name"] = fmt("n%d", r.range(0, 999)); } return x; };
      if (r.coin()) { p["exporter"] = schedule(r, named(json::object())); } if (r.coin()) { p["domain_snapshot"] = schedule(r, named(json::object())); }
      for (int k = r.range(0, 4); k > 0; k--) { p["point"].push_back(schedule(r, { { "position", anyPoint(r) } })); }
      for (int k = r.range(0, 4); k > 0; k--) { p["field"].push_back(schedule(r, { { "position", anyPoint(r) }, { "field_type", FT[r.below(2)] }, { "polarization", AX[r.below(3)] } })); }
      for (int k = r.range(0, 3); k > 0; k--) { json x = schedule(r, named({ { "tags", anyTags(r) } })); if (r.coin()) { x["export_path"] = "somewhere/else"; } p["farfield"].push_back(x); }
      for (int k = r.range(0, 3); k > 0; k--) { p["rcssurface"].push_back(schedule(r, named({ { "tags", anyTags(r) } }))); }
      for (int k = r.range(0, 3); k > 0; k--) { json x = named(json::object()); if (r.coin()) { x["record_time_start"] = r.uni(); } if (r.coin()) { x["record_time_final"] = r.uni(1, 2); } if (r.coin()) { x["saves"] = r.range(1, 50); } p["mor_state"].push_back(x); }
      if (!p.empty() || r.coin()) { j["probes"] = p.empty() ? json::object() : p; } const std::string ds = j.dump(); Probes q; try { q = driver::buildProbes(j); } catch (const std::exception& e) { M.expect(false, "valid-probes-rejected", std::string(e.what()) + " " + ds); continue; }
      auto cnt = [&](const char* k) { return !p.contains(k) ? 0u : p[k].is_array() ? (unsigned)p[k].size() : 1u; };
      if (!M.expect(q.exporterProbes.size() == cnt("exporter") && q.domainSnapshotProbes.size() == cnt("domain_snapshot") && q.pointProbes.size() == cnt("point") && q.fieldProbes.size() == cnt("field") && q.nearFieldProbes.size() == cnt("farfield") && q.rcsSurfaceProbes.size() == cnt("rcssurface") && q.morStateProbes.size() == cnt("mor_state"), "probe-count", ds)) { continue; }
      auto name = [&](const json& x, const std::string& def) { return x.contains("name") ? x["name"].get<std::string>() : def; };
      for (auto& e : q.exporterProbes) { auto& x = p["exporter"]; M.expect(e.name == name(x, "thing.msh") && e.visSteps == interval(x, j) && e.saves == saves(x), "probe-exporter", ds); }
      for (auto& e : q.domainSnapshotProbes) { auto& x = p["domain_snapshot"]; M.expect(e.name == name(x, "thing.msh") && e.expSteps == interval(x, j) && e.saves == saves(x), "probe-snapshot", ds); }
      for (size_t k = 0; k < q.pointProbes.size(); k++) { auto& x = p["point"][k]; auto& e = q.pointProbes[k]; M.expect(e.getPoint() == x["position"].get<std::vector<double>>() && e.getVisSteps() == interval(x, j) && e.getSaves() == saves(x) && e.getProbeID() == k && e.write, "probe-point", ds); }
      for (size_t k = 0; k < q.fieldProbes.size(); k++) { auto& x = p["field"][k]; auto& e = q.fieldProbes[k]; M.expect(e.getPoint() == x["position"].get<std::vector<double>>() && e.getVisSteps() == interval(x, j) && e.getSaves() == saves(x) && e.getProbeID() == k && e.write, "probe-field", ds); M.expect(e.getFieldType() == (x["field_type"] == "electric" ? E : H) && AX[e.getDirection()] == x["polarization"].get<std::string>(), "probe-component", ds); }
      for (size_t k = 0; k < q.nearFieldProbes.size(); k++) { auto& x = p["farfield"][k]; auto& e = q.nearFieldProbes[k]; M.expect(e.name == name(x, "NearFieldProbe") && e.expSteps == interval(x, j) && e.saves == saves(x) && e.tags == x["tags"].get<std::vector<int>>() && (!x.contains("export_path") || e.exportPath == x["export_path"].get<std::string>()), "probe-farfield", ds); }
      for (size_t k = 0; k < q.rcsSurfaceProbes.size(); k++) { auto& x = p["rcssurface"][k]; auto& e = q.rcsSurfaceProbes[k]; M.expect(e.name == name(x, "RCSSurfaceProbe") && e.expSteps == interval(x, j) && e.saves == saves(x) && e.tags == x["tags"].get<std::vector<int>>(), "probe-rcs", ds); }
      for (size_t k = 0; k < q.morStateProbes.size(); k++) { auto& x = p["mor_state"][k]; auto& e = q.morStateProbes[k]; auto d = [&](const char* n, double def) { return x.contains(n) ? x[n].get<double>() : def; }; M.expect(e.name == name(x, "MORState") && e.record_time_start == d("record_time_start", 0) && e.record_time_final == d("record_time_final", 0) && e.saves == saves(x, 10), "probe-mor", ds); }
      M.event("probes", ds);
      // anything mandatory taken away, or a wrong word, is an error
      auto bad = [&](json b, const std::string& what) { M.throws([&] { driver::buildProbes(b); }, "bad-probe-accepted", what); };
      if (cnt("point")) { json b = j; b["probes"]["point"][r.below(cnt("point"))].erase("position"); bad(b, "point without position"); }
      if (cnt("field")) { const int k = r.below(cnt("field")); for (const char* n : { "position", "field_type", "polarization" }) { json b = j; b["probes"]["field"][k].erase(n); bad(b, n); } for (const char* w : { "x", "XY", "", "E" }) { json b = j; b["probes"]["field"][k]["polarization"] = w; bad(b, w); b = j; b["probes"]["field"][k]["field_type"] = w; bad(b, w); } }
      for (const char* n : { "farfield", "rcssurface" }) if (cnt(n)) { json b = j; b["probes"][n][r.below(cnt(n))].erase("tags"); bad(b, n); }
   }
}
SECTION(materials)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(250, 3000); i++) {
      const Shape s = r.coin() ? TRI : QUAD; auto g = plate(r, s); CaseDir cd(".", fmt("mat%d", i % 7)); cd.j = minimalCase(g, cd.name); std::set<int> el; for (auto& e : g.el) { el.insert(e.attr); }
      json mats = json::array(); std::map<int, std::array<double, 3>> want; for (int t : el) { if (r.coin(0.15) && mats.size()) { continue; } json m; m["tags"] = json::array({ t }); std::array<double, 3> w{ 1, 1, 0 }; if (r.coin()) { m["relative_permittivity"] = w[0] = r.logu(1, 100); } if (r.coin()) { m["relative_permeability"] = w[1] = r.logu(1, 100); } if (r.coin()) { double c = r.logu(1e-6, 1e3); m["bulk_conductivity"] = c; w[2] = c * Z0; } if (r.coin(0.3)) { m["type"] = "dielectric"; } want[t] = w; mats.push_back(m); }
      cd.j["model"]["materials"] = mats;
      // roles: four outer sides in random groups, the two interior curves as walls, layers or nothing
      json bs = json::array(); std::map<int, std::string> role; for (int t : { 1, 2, 3, 4 }) { if (r.coin(0.15) && t > 1) { continue; } role[t] = r.pick({ std::string("PEC"), std::string("PMC"), std::string("SMA") }); } for (int t : { 11, 12 }) { switch (r.below(3)) { case 0: role[t] = r.pick({ std::string("PEC"), std::string("PMC"), std::string("SMA") }); break; case 1: role[t] = "SGBC"; break; default: break; } }
      struct Lay { double e, m, s, w; int seg, ord; }; std::vector<std::vector<Lay>> stacks; std::vector<int> stackTag; std::vector<std::pair<std::string, std::string>> ends;
      for (auto& [t, w] : role) {
         json b; b["tags"] = json::array({ t }); b["type"] = w;
         if (w == "SGBC") { std::vector<Lay> L; json ls = json::array(); const bool single = r.coin(); for (int k = single ? 1 : r.range(1, 3); k > 0; k--) { Lay a{ 1, 1, r.coin(0.1) ? 0.0 : r.logu(1e-3, 1e5), r.logu(1e-5, 1e-2), -1, -1 }; json l; l["bulk_conductivity"] = a.s; l["material_width"] = a.w; if (r.coin()) { l["relative_permittivity"] = a.e = r.uni(1, 9); } if (r.coin()) { l["relative_permeability"] = a.m = r.uni(1, 9); } if (r.coin()) { l["num_of_segments"] = a.seg = r.range(2, 40); } if (r.coin()) { l["order"] = a.ord = r.range(1, 5); } L.push_back(a); ls.push_back(l); }
            std::pair<std::string, std::string> en; json sb; if (r.coin(0.4)) { en.first = r.pick({ std::string("PEC"), std::string("PMC"), std::string("SMA") }); sb["left"] = en.first; } if (r.coin(0.4)) { en.second = r.pick({ std::string("PEC"), std::string("PMC"), std::string("SMA") }); sb["right"] = en.second; }
            if (single) { b["material"] = ls[0]; } else { b["layers"] = ls; } if (!sb.empty()) { if (single && r.coin()) { b["material"]["sgbc_boundaries"] = sb; } else { b["sgbc_boundaries"] = sb; } }
            stacks.push_back(L); stackTag.push_back(t); ends.push_back(en); }
         bs.push_back(b); }
      if (r.coin()) { for (size_t k = bs.size(); k > 1; k--) { size_t o = r.below((int)k); if (bs[k - 1]["type"] != "SGBC" && bs[o]["type"] != "SGBC") { std::swap(bs[k - 1], bs[o]); } } }
      cd.j["model"]["boundaries"] = bs; if (r.coin(0.2)) { cd.j["model"]["refinement"] = 1; }
      double fmax = 1e9; if (r.coin(0.7)) { double sp = r.logu(1e-3, 1); fmax = C0 / (2 * sp); json mg = { { "type", "gaussian" }, { "spread", sp } }; cd.j["sources"] = { { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 0, 1 } }, { "center", { 0.5, 0.5 } }, { "dimension", 2 }, { "magnitude", mg } } }; }
      cd.write(g); const std::string ds = cd.j.dump(); M.label(fmt("%d", i)); Quiet q; std::unique_ptr<Model> md; try { md = std::make_unique<Model>(driver::buildModel(cd.j, cd.path(), false)); } catch (const std::exception& e) { M.expect(false, "valid-model-rejected", std::string(e.what()) + " " + ds); continue; }
      M.expect(md->meshName_ == cd.name, "mesh-name", md->meshName_); M.expect(md->getConstMesh().GetNE() == (int)g.el.size() * (cd.j["model"].contains("refinement") ? 4 : 1), "refinement", ds);
      const auto& got = md->getGeomTagToMaterial(); M.expect(got.size() == want.size(), "material-count", ds); for (auto& [t, w] : want) { auto it = got.find(t); if (!M.expect(it != got.end(), "material-lost", ds)) { continue; } M.near(it->second.getPermittivity(), w[0], 0, "permittivity", ds); M.near(it->second.getPermeability(), w[1], 0, "permeability", ds); M.near(it->second.getConductivity(), w[2], 1e-9 * w[2], "conductivity", ds); }
      auto cond = [](const std::string& w) { return w == "PEC" ? BdrCond::PEC : w == "PMC" ? BdrCond::PMC : w == "SMA" ? BdrCond::SMA : BdrCond::SGBC; };
      std::map<int, BdrCond> ext, in; for (auto& [t, w] : role) { (t < 10 ? ext : in)[t] = cond(w); } M.expect(md->getGeomTagToBoundaryCond() == ext, "exterior-roles", ds); M.expect(md->getGeomTagToIntBoundaryCond() == in, "interior-roles", ds);
      const auto& sp = md->getSGBCProperties(); if (M.expect(sp.size() == stacks.size(), "stack-count", ds)) for (size_t k = 0; k < stacks.size(); k++) {
         // stacks come in the order of the file
         M.expect(sp[k].geom_tags == std::vector<size_t>{ (size_t)stackTag[k] }, "stack-tags", ds); if (!M.expect(sp[k].layers.size() == stacks[k].size(), "layer-count", ds)) { continue; }
         for (size_t l = 0; l < stacks[k].size(); l++) {
            auto& w = stacks[k][l]; auto& a = sp[k].layers[l]; M.expect(a.width == w.w && a.material.getPermittivity() == w.e && a.material.getPermeability() == w.m, "layer-values", ds); M.near(a.material.getConductivity(), w.s * Z0, 1e-9 * w.s * Z0, "layer-conductivity", ds);
            const double mu = w.m * 4e-7 * PI, ep = w.e / (4e-7 * PI * C0 * C0), pe = w.s / (fmax * ep); int o = pe > 100 ? 2 : (pe < 0.1 && w.s < 1e-3) ? 4 : 3; const bool edge = std::abs(pe - 100) < 1e-4 || std::abs(pe - 0.1) < 1e-7;
            if (w.ord > 0) { M.expect((int)a.order == w.ord, "layer-order-override", ds); } else if (!edge) { M.expect((int)a.order == o, "layer-order-auto", ds); }
            double lam = 1 / (fmax * std::sqrt(mu * ep)), skin = w.s > 0 ? 1 / std::sqrt(PI * fmax * mu * w.s) : 1e300, dx = std::min(lam / std::ceil(20.0 / o), skin / 2), cells = w.w / dx; if (w.seg > 0) { M.expect((int)a.num_of_segments == w.seg, "layer-segments-override", ds); } else if (!edge && std::abs(cells - std::round(cells)) > 1e-6) { M.expect((int)a.num_of_segments == (int)std::clamp(std::ceil(cells), 4.0, 1000.0), "layer-segments-auto", ds + fmt(" got %zu want %g", a.num_of_segments, std::ceil(cells))); }
         }
         auto& [lf, rt] = sp[k].sgbc_bdr_info; M.expect(lf.isOn == !ends[k].first.empty() && rt.isOn == !ends[k].second.empty(), "stack-ends-on", ds); if (lf.isOn && !ends[k].first.empty()) { M.expect(lf.bdrCond == cond(ends[k].first), "stack-end-left", ds); } if (rt.isOn && !ends[k].second.empty()) { M.expect(rt.bdrCond == cond(ends[k].second), "stack-end-right", ds); }
      }
      M.event("models", ds);
      // rejected variants
      auto bad = [&](json b, const char* what) { M.throws([&] { driver::buildModel(b, cd.path(), false); }, "bad-model-accepted", std::string(what) + " " + b.dump()); };
      const int nb = (int)bs.size(), nm = (int)mats.size(); json b;
      b = cd.j; b.erase("model"); bad(b, "no model"); for (const char* k : { "filename", "materials", "boundaries" }) { b = cd.j; b["model"].erase(k); bad(b, k); }
      b = cd.j; b["model"]["materials"][r.below(nm)].erase("tags"); bad(b, "material without tags"); b = cd.j; b["model"]["boundaries"][r.below(nb)].erase("tags"); bad(b, "boundary without tags"); b = cd.j; b["model"]["boundaries"][r.below(nb)].erase("type"); bad(b, "boundary without type"); b = cd.j; b["model"]["boundaries"][r.below(nb)]["tags"] = json::array(); bad(b, "boundary with empty tags");
      for (const char* w : { "pec", "", "PECC", "Robin" }) { b = cd.j; b["model"]["boundaries"][r.below(nb)]["type"] = w; bad(b, "boundary type"); }
      b = cd.j; b["model"]["materials"][r.below(nm)]["tags"].push_back(77); bad(b, "material tag not in mesh"); b = cd.j; b["model"]["boundaries"][r.below(nb)]["tags"].push_back(77); bad(b, "boundary tag not in mesh");
      b = cd.j; b["model"]["materials"][r.below(nm)]["relative_permittivity"] = 0.5; bad(b, "permittivity below one"); b = cd.j; b["model"]["materials"][r.below(nm)]["bulk_conductivity"] = -1.0; bad(b, "negative conductivity"); b = cd.j; b["model"]["materials"][r.below(nm)]["relative_permeability"] = "much"; bad(b, "text permeability");
      for (auto& x : bs) if (x["type"] == "SGBC") { const size_t at = &x - &bs[0]; auto lay = [&](json& y) -> json& { return y.contains("material") ? y["material"] : y["layers"][0]; }; for (const char* k : { "bulk_conductivity", "material_width" }) { b = cd.j; lay(b["model"]["boundaries"][at]).erase(k); bad(b, k); } b = cd.j; b["model"]["boundaries"][at].erase("material"); b["model"]["boundaries"][at].erase("layers"); bad(b, "no layers"); for (const char* sd : { "left", "right" }) { b = cd.j; b["model"]["boundaries"][at]["sgbc_boundaries"][sd] = "SGBC"; bad(b, "stack end"); } }
      b = cd.j; b["model"]["filename"] = cd.name; bad(b, "mesh without extension");
   }
}
static P3 transverse(Rng& r, const P3& d) { P3 p; do { p = r.unit(); p = p - dot(p, d) * d; } while (norm(p) < 0.2); return unit(p); }
SECTION(sources)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(1500, 50000); i++) {
      json j; j["sources"] = json::array(); struct Want { int kind; std::function<double(const P3&, double, FieldType, int)> f; double tol; bool total; std::set<int> fts; }; std::vector<Want> w; const int n = r.range(1, 4);
      for (int k = 0; k < n; k++) {
         json s; const int kind = r.below(5);
         if (kind == 0) { // gaussian initial field
            const int dim = r.range(1, 3); P3 c{ r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1) }, p = r.unit(); double sp = r.uni(0.2, 2); const int ft = r.below(2); s = { { "type", "initial" }, { "field_type", FT[ft] }, { "polarization", jvec(p) }, { "center", jvec(c, r.coin() ? 3 : dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", sp } } } };
            w.push_back({ kind, [=](const P3& x, double, FieldType f, int d) { if ((int)f != ft) { return 0.0; } double q = 0; for (int a = 0; a < dim; a++) { q += (x[a] - c[a]) * (x[a] - c[a]); } return p[d] * std::exp(-q / (2 * sp * sp)); }, 1e-12, false, { ft } }); }
         else if (kind == 1) { // resonant mode
            const int dim = r.range(1, 3); std::vector<size_t> m; for (int a = 0; a < dim; a++) { m.push_back(r.range(1, 4)); } P3 p = r.unit(); const int ft = r.below(2); s = { { "type", "initial" }, { "field_type", FT[ft] }, { "polarization", jvec(p) }, { "magnitude", { { "type", "resonant" }, { "modes", m } } } };
            w.push_back({ kind, [=](const P3& x, double, FieldType f, int d) { if ((int)f != ft) { return 0.0; } double q = 1; for (int a = 0; a < dim; a++) if (m[a]) { q *= std::sin(m[a] * PI * x[a]); } return p[d] * q; }, 1e-11, false, { ft } }); }
         else if (kind <= 3) { // plane wave
            P3 d = r.unit(), p = transverse(r, d); const double sp = r.uni(0.2, 2), ld = r.logu(0.1, 10), lp = r.logu(0.1, 10), fr = kind == 3 ? r.logu(1e8, 3e9) : 0.0; const int nm = r.range(1, 3); P3 mean{ r.uni(-2, 2), nm > 1 ? r.uni(-2, 2) : 0, nm > 2 ? r.uni(-2, 2) : 0 }; json mg = { { "spread", sp }, { "mean", jvec(mean, nm) } }; if (kind == 3) { mg["frequency"] = fr; }
            s = { { "type", "planewave" }, { "tags", { 3 } }, { "polarization", jvec(lp * p) }, { "propagation", jvec(ld * d) }, { "magnitude", mg } };
            w.push_back({ kind, [=](const P3& x, double t, FieldType f, int c) { double ph = dot(x, d) - dot(mean, d) - t, v = std::exp(-ph * ph / (2 * sp * sp)) * (fr > 0 ? std::cos(2 * PI * fr / C0 * ph) : 1.0); return v * (f == E ? p : cross(d, p))[c]; }, 1e-8, true, {} }); }
         else { const double L = r.logu(1e-3, 1), sp = r.uni(0.2, 2), mean = r.uni(1, 9); s = { { "type", "dipole" }, { "tags", { 3 } }, { "magnitude", { { "length", L }, { "spread", sp }, { "mean", mean } } } };
            auto ref = std::make_shared<TotalField>(DerivGaussDipole(L, sp, mean)); w.push_back({ kind, [=](const P3& x, double t, FieldType f, int c) { return ref->eval(vec3(x), t, f, (Direction)c); }, 1e-12, true, {} }); }
         j["sources"].push_back(s);
      }
      const std::string ds = j.dump(); Sources got; try { got = driver::buildSources(j, nullptr); } catch (const std::exception& e) { M.expect(false, "valid-sources-rejected", std::string(e.what()) + " " + ds); continue; }
      if (!M.expect((size_t)std::distance(got.begin(), got.end()) == w.size(), "source-count", ds)) { continue; } size_t k = 0;
      for (auto& sp : got) { auto& x = w[k++]; const bool total = dynamic_cast<TotalField*>(sp.get()) != nullptr; if (!M.expect(total == x.total, "source-kind", ds)) { continue; }
         for (int m = 0; m < 4; m++) { P3 pt{ r.uni(0.05, 2), r.uni(0.05, 2), r.uni(0.05, 2) }; double t = r.uni(0, 4); for (auto f : { E, H }) for (int c = 0; c < 3; c++) { double g; if (!total) { auto* in = dynamic_cast<InitialField*>(sp.get()); if (f != (FieldType)*x.fts.begin()) { M.expect(in && in->fieldType() == (FieldType)*x.fts.begin(), "source-field-type", ds); continue; } } g = sp->eval(vec3(pt), t, f, (Direction)c); M.near(g, x.f(pt, t, f, c), x.tol * (1 + std::abs(g)), fmt("source-value-%d", x.kind), ds); } } }
      M.event("sources", ds);
      auto bad = [&](const json& b, const std::string& what) { M.throws([&] { driver::buildSources(b, nullptr); }, "bad-source-accepted", what + " " + b.dump()); };
      const int at = r.below(n); auto& s = j["sources"][at]; json b; b = j; b.erase("sources"); bad(b, "no sources"); for (const char* key : { "type", "magnitude" }) { b = j; b["sources"][at].erase(key); bad(b, key); } for (const char* t : { "Initial", "", "plane", "gaussian" }) { b = j; b["sources"][at]["type"] = t; bad(b, "type"); }
      if (s["type"] == "initial") { for (const char* key : { "field_type", "polarization" }) { b = j; b["sources"][at].erase(key); bad(b, key); } b = j; b["sources"][at]["magnitude"].erase("type"); bad(b, "magnitude type"); b = j; b["sources"][at]["magnitude"]["type"] = "gauss"; bad(b, "magnitude type"); b = j; b["sources"][at]["field_type"] = "E"; bad(b, "field type"); if (s["magnitude"]["type"] == "gaussian") { for (const char* key : { "center", "dimension" }) { b = j; b["sources"][at].erase(key); bad(b, key); } b = j; b["sources"][at]["magnitude"].erase("spread"); bad(b, "spread"); } else { b = j; b["sources"][at]["magnitude"].erase("modes"); bad(b, "modes"); } }
      if (s["type"] == "planewave") { for (const char* key : { "polarization", "propagation" }) { b = j; b["sources"][at].erase(key); bad(b, key); b = j; b["sources"][at][key] = { 0, 0, 0 }; bad(b, key); b = j; b["sources"][at][key] = { 1, 0, 0, 0 }; bad(b, key); } b = j; b["sources"][at]["magnitude"].erase("spread"); bad(b, "spread"); }
      if (s["type"] == "dipole") { for (const char* key : { "length", "spread" }) { b = j; b["sources"][at]["magnitude"].erase(key); bad(b, key); } }
   }
}
// The solver built from a case file is the one built by hand from the same numbers.
SECTION(whole)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(50, 600); i++) {
      const Shape s = r.pick({ SEG, TRI, QUAD }); Setup u; GMesh g; const int dim = shapeDim(s);
      if (dim == 1) { const int n = r.range(4, 9); g = box(SEG, ticks(n, 1.0)); g.setAttr([](const P3& c) { return c[0] < 0.4 ? 1 : 3; }); g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { n }, 2 }); } else { g = plate(r, s); }
      CaseDir cd(".", "whole"); cd.j = minimalCase(g, "whole"); json& j = cd.j; std::set<int> el; for (auto& e : g.el) { el.insert(e.attr); } json mats = json::array(), bs = json::array(); for (int t : el) { double e = r.uni(1, 4), m = r.uni(1, 4), sg = r.uni(0, 0.01); mats.push_back({ { "tags", { t } }, { "relative_permittivity", e }, { "relative_permeability", m }, { "bulk_conductivity", sg } }); u.mats.insert({ t, Material(e, m, sg * physicalConstants::freeSpaceImpedance_SI) }); }
      std::map<std::string, BdrCond> bc{ { "PEC", BdrCond::PEC }, { "PMC", BdrCond::PMC }, { "SMA", BdrCond::SMA } }; std::set<int> bt; for (auto& b : g.bd) { bt.insert(b.attr); } const bool wave = dim == 2 && r.coin(); for (int t : bt) { if (t == 11 && wave) { continue; } auto k = r.pick({ std::string("PEC"), std::string("PMC"), std::string("SMA") }); bs.push_back({ { "tags", { t } }, { "type", k } }); (t < 10 ? u.bdr : u.ibdr)[t] = bc[k]; }
      j["model"]["materials"] = mats; j["model"]["boundaries"] = bs; j["sources"] = json::array();
      { P3 c{ 0.5, 0.5, 0 }, p = r.unit(); double sp = r.uni(0.1, 0.3); const int ft = r.below(2); j["sources"].push_back({ { "type", "initial" }, { "field_type", FT[ft] }, { "polarization", jvec(p) }, { "center", jvec(c, dim) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", sp } } } }); mfem::Vector z(dim), cc(dim); z = 0.0; for (int k = 0; k < dim; k++) { cc[k] = c[k]; } u.sources.add(std::make_unique<InitialField>(Gaussian(sp, z, dim), (FieldType)ft, vec3(p), cc)); }
      if (wave) for (int k = r.range(1, 2); k > 0; k--) { double a = r.uni(0, 2 * PI), sp = r.uni(0.1, 0.3), mn = r.uni(-1, 0); P3 d{ std::cos(a), std::sin(a), 0 }, p{ 0, 0, 1 }; j["sources"].push_back({ { "type", "planewave" }, { "tags", { 11 } }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", sp }, { "mean", jvec(mn * d) } } } }); u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(sp, mfem::Vector({ dot(mn * d, d) }), 1), vec3(p), vec3(d), E))); u.tfsf = { 11 }; }
      u.order = r.range(1, 3); u.alpha = r.coin() ? 1.0 : r.uni(0.2, 1); u.op = r.coin(0.6) ? Global : Maxwell; u.dt = 0.01 / (u.order * u.order + 1); u.tf = u.dt * r.range(4, 12); u.name = "whole";
      j["solver_options"] = { { "order", u.order }, { "upwind_alpha", u.alpha }, { "time_step", u.dt }, { "final_time", u.tf }, { "evolution_operator", u.op == Global ? "global" : "maxwell" } };
      maxwell::Point pt{ 0.31 }; if (dim == 2) { pt.push_back(0.27); } j["probes"]["point"] = { { { "position", pt }, { "steps", 2 } } }; { PointProbe q(pt, 2, false); q.setProbeID(0); u.probes.pointProbes.push_back(q); }
      cd.write(g); const std::string ds = j.dump(); M.label(fmt("%d", i)); Quiet q; u.g = g; auto hand = u.solver(); hand->run();
      auto cs = driver::buildSolverJson(cd.path(), false); cs.run(); double e = 0, sc = 1e-300; for (auto f : { E, H }) for (auto c : { X, Y, Z }) { auto &a = hand->getFields().get(f, c), &b = cs.getFields().get(f, c); if (!M.expect(a.Size() == b.Size(), "whole-size", ds)) { break; } e = std::max(e, maxDiff(a, b)); sc = std::max(sc, maxAbs(a)); }
      M.near(e / sc, 0, 1e-9, "whole-fields", ds); M.near(cs.getTime(), hand->getTime(), 1e-12, "whole-time", ds); M.expect(cs.getPointProbe(0).getFieldMovies().size() == hand->getPointProbe(0).getFieldMovies().size(), "whole-probe", ds);
      M.event(wave ? "whole cases with waves" : "whole cases", ds);
      // waves on different surfaces cannot be told apart, so they are refused
      if (wave) { json b = j; json s = b["sources"][1]; s["tags"] = { 12 }; b["sources"].push_back(s); b["model"]["boundaries"].erase(std::remove_if(b["model"]["boundaries"].begin(), b["model"]["boundaries"].end(), [](const json& x) { return x["tags"][0] == 12; }), b["model"]["boundaries"].end()); M.throws([&] { driver::buildSolver(b, cd.path(), false); }, "waves-on-different-surfaces", b.dump()); b = j; b["sources"][1].erase("tags"); M.throws([&] { driver::buildSolver(b, cd.path(), false); }, "wave-without-tags", b.dump()); }
      std::filesystem::remove_all("Exports");
   }
}
// Folder, case and mesh carry one name.
SECTION(naming)
{
   auto r = M.rng(); auto g = box(SEG, ticks(4, 1.0)); g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { 4 }, 2 });
   for (int i = 0; i < M.n(60, 1000); i++) {
      const std::string a = r.pick({ std::string("one"), std::string("two.x"), std::string("a-b_c"), std::string("1D"), std::string("with space"), std::string("plate.mesh2"), std::string("a.msh.b"), std::string("c.json.d") }), b = r.pick({ std::string("other"), std::string("onee"), std::string("on") }); CaseDir cd(r.coin() ? "names" : "my.json.cases", a); cd.j = minimalCase(g, a); cd.j["solver_options"] = { { "time_step", 0.01 }, { "final_time", 0.02 } }; cd.write(g); M.label(a); Quiet q;
      M.nothrow([&] { auto s = driver::buildSolverJson(cd.path(), false); }, "good-name-rejected", a); json j = cd.j;
      auto rej = [&](const std::string& path, const char* what) { M.throws([&] { auto s = driver::buildSolverJson(path, false); }, "bad-name-accepted", std::string(what) + " " + path); };
      for (const std::string& f : { b + ".msh", a, a + ".mesh", "sub/" + a + ".msh", a + ".MSH", std::string() }) { cd.j = j; cd.j["model"]["filename"] = f; cd.write(); rej(cd.path(), "mesh name"); } cd.j = j; cd.j["model"]["filename"] = 3; cd.write(); rej(cd.path(), "number"); cd.j = j; cd.j["model"].erase("filename"); cd.write(); rej(cd.path(), "no mesh name"); cd.j = j; cd.j.erase("model"); cd.write(); rej(cd.path(), "no model"); cd.j = j; cd.write();
      const std::string p2 = cd.dir() + "/" + b + ".json"; std::filesystem::copy_file(cd.path(), p2, std::filesystem::copy_options::overwrite_existing); rej(p2, "json name"); const std::string p3 = cd.dir() + "/" + a + ".txt"; std::filesystem::copy_file(cd.path(), p3, std::filesystem::copy_options::overwrite_existing); rej(p3, "extension");
      rej(cd.dir() + "/absent.json", "no file"); { std::ofstream(cd.path()) << "{ \"model\": "; rej(cd.path(), "not json"); } cd.write(); std::filesystem::remove(cd.mesh()); rej(cd.path(), "no mesh"); M.event("names", a + b); std::filesystem::remove_all("Exports");
   }
}
HARNESS_MAIN
