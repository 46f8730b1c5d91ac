// Quantities given or reported in SI units are converted with the defined constants wherever they enter or leave.
#include "case.hpp"
#include "components/RCSSurfacePostProcessor.h"
using namespace em;
namespace maxwell::driver { __attribute__((weak)) double calculateMaximumSourceFrequency(const json&); }
static const double C = 299792458.0, PI = std::acos(-1.0), Z0 = 4e-7 * PI * C;

static GMesh bar(int n = 4, double L = 1.0) { auto g = box(SEG, ticks(n, L)); g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { n }, 2 }); return g; }
static GMesh square(Shape s, int n) { auto g = box(s, std::array<int, 3>{ n, n, 1 }); g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); return g; }

// Conductivity in siemens per metre becomes conductivity times the impedance of free space, for bulk, boundary and layer materials.
SECTION(conductivity)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(40, 2000); i++) {
      auto g = square(QUAD, 3); g.setAttr([&](const P3& c) { return c[0] < 0.5 ? 1 : 2; }); g.tagInterior([&](const P3& c, const P3& n, int, int) { return std::abs(n[0]) > 0.9 && std::abs(c[0] - 1.0 / 3) < 1e-6 ? 5 : 0; });
      CaseDir cd(".", "cond"); cd.j = minimalCase(g, "cond"); double s1 = r.logu(1e-8, 1e8), s2 = r.logu(1e-8, 1e8), s3 = r.logu(1e-4, 1e7), s4 = r.logu(1e-4, 1e7), w = r.logu(1e-6, 1e-2);
      cd.j["model"]["materials"] = { { { "tags", { 1 } }, { "bulk_conductivity", s1 }, { "relative_permittivity", r.uni(1, 9) } }, { { "tags", { 2 } }, { "bulk_conductivity", s2 } } };
      json l1 = { { "bulk_conductivity", s3 }, { "material_width", w }, { "relative_permittivity", 1.0 }, { "relative_permeability", 1.0 } }, l2 = { { "bulk_conductivity", s4 }, { "material_width", w }, { "relative_permittivity", 2.0 }, { "relative_permeability", 3.0 } };
      cd.j["model"]["boundaries"] = { { { "tags", { 1, 2, 3, 4 } }, { "type", "PEC" } }, { { "tags", { 5 } }, { "type", "SGBC" }, { "layers", { l1, l2 } } } };
      cd.j["sources"] = { { { "type", "planewave" }, { "tags", json::array() }, { "polarization", { 0, 1, 0 } }, { "propagation", { 1, 0, 0 } }, { "magnitude", { { "spread", r.logu(1e-3, 1) } } } } };
      cd.write(g); M.label(fmt("sigma %.17g %.17g %.17g %.17g width %.3g", s1, s2, s3, s4, w)); Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false);
      M.near(md.getGeomTagToMaterial().at(1).getConductivity() / (s1 * Z0), 1, 1e-9, "bulk-conductivity"); M.near(md.getGeomTagToMaterial().at(2).getConductivity() / (s2 * Z0), 1, 1e-9, "bulk-conductivity");
      const auto& pr = md.getSGBCProperties(); if (!M.expect(pr.size() == 1 && pr[0].layers.size() == 2, "layers-lost")) { continue; }
      M.near(pr[0].layers[0].material.getConductivity() / (s3 * Z0), 1, 1e-9, "layer-conductivity"); M.near(pr[0].layers[1].material.getConductivity() / (s4 * Z0), 1, 1e-9, "layer-conductivity");
      const double sp = cd.j["sources"][0]["magnitude"]["spread"], f = C / (2 * sp); for (int k = 0; k < 2; k++) { double mu = (k ? 3 : 1) * 4e-7 * PI, sg = k ? s4 : s3, depth = 1 / std::sqrt(PI * f * mu * sg); M.near(pr[0].layers[k].n_skin_depths / (w / depth), 1, 1e-8, "layer-skin-depths"); M.near(pr[0].layers[k].width, w, 0, "layer-width"); }
      M.event("conductivity", M.labelText);
   }
}
// The carrier of a modulated pulse given in hertz oscillates with frequency over the speed of light per natural unit of time.
SECTION(frequency)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(200, 5000); i++) {
      double f = r.logu(1e6, 1e12), fn = f / C, spread = r.uni(2, 10) / fn; P3 d = r.unit(), p = r.unit(); p = unit(p - dot(p, d) * d);
      json j; j["model"] = json::object(); j["sources"] = { { { "type", "planewave" }, { "tags", json::array() }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", spread }, { "frequency", f }, { "mean", { 0, 0, 0 } } } } } };
      M.label(fmt("f=%.17g spread=%.17g", f, spread)); auto s = driver::buildSources(j); auto* src = dynamic_cast<TotalField*>(s.begin()->get()); if (!M.expect(src, "planewave-lost")) { continue; }
      for (int k = 0; k < 10; k++) {
         double x = r.uni(-2, 2) * spread; P3 X = x * d; double t = r.uni(-2, 2) * spread; mfem::Vector pos = vec3(X); double ph = x - t; double want = std::exp(-ph * ph / (2 * spread * spread)) * std::cos(2 * PI * fn * ph);
         double e = 0; for (int c = 0; c < 3; c++) { e += p[c] * src->eval(pos, t, E, (Direction)c); } M.near(e, want, 1e-9 * (1 + std::abs(2 * PI * fn * ph)), "carrier-frequency"); }
      M.event("frequency", M.labelText);
      if (!driver::calculateMaximumSourceFrequency) { continue; } double fm = driver::calculateMaximumSourceFrequency(j); M.near(fm / (f + C / (2 * spread)), 1, 1e-12, "highest-frequency-modulated"); j["sources"][0]["magnitude"].erase("frequency"); fm = driver::calculateMaximumSourceFrequency(j); M.near(fm * 2 * spread / C, 1, 1e-12, "highest-frequency");
   }
}
// Probe files and run statistics report seconds; probe intervals given as number of saves are kept in natural time.
SECTION(reports)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(20, 400); i++) {
      auto g = bar(r.range(2, 6), r.uni(0.5, 2)); double L = g.x.back()[0], dt = r.logu(1e-4, 1e-2), tf = dt * r.range(5, 30) * (r.coin() ? 1 : r.uni(0.97, 1.03)); int step = r.range(1, 4);
      CaseDir cd(".", "rep"); cd.j = minimalCase(g, "rep"); cd.j["solver_options"] = { { "time_step", dt }, { "final_time", tf }, { "order", 2 } };
      cd.j["sources"] = { { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 1, 0 } }, { "center", { L / 2 } }, { "dimension", 1 }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.2 } } } } };
      cd.j["probes"]["point"] = { { { "position", { L * 0.4 } }, { "steps", step } } }; cd.j["probes"]["field"] = { { { "position", { L * 0.6 } }, { "field_type", "electric" }, { "polarization", "Y" }, { "steps", step } } };
      cd.write(g); M.label(fmt("dt=%.17g tf=%.17g step=%d", dt, tf, step)); Quiet q; FieldMovies mv; FieldMovie fm; { auto s = driver::buildSolver(cd.j, cd.path(), false); s.run(); mv = s.getPointProbe(0).getFieldMovies(); fm = s.getFieldProbe(0).getFieldMovie(); }
      const std::string base = "Exports/single-core/rep/"; auto tab = readTable(base + "PointProbes/PointProbe0.dat", 4), tf1 = readTable(base + "FieldProbes/FieldProbe0.dat", 4);
      if (M.expect(tab.size() == mv.size() && tf1.size() == fm.size(), "probe-file-length", fmt("%zu lines %zu records", tab.size(), mv.size()))) {
         size_t k = 0; for (auto& fr : mv) { auto& row = tab[k]; M.near(row[0] * C, fr.first, 6e-6 * fr.first + 1e-15, "point-probe-seconds"); k++; } k = 0; for (auto& fr : fm) { M.near(tf1[k++][0] * C, fr.first, 6e-6 * fr.first + 1e-15, "field-probe-seconds"); } }
      std::istringstream st(slurp(base + "SimulationStats/statistics_rank0.dat")); std::string line; int seen = 0;
      while (std::getline(st, line)) { double v; if (sscanf(line.c_str(), "Final Time: %lf", &v) == 1) { M.near(v * 1e-9 * C / tf, 1, 6e-5, "reported-final-time"); seen++; } if (sscanf(line.c_str(), "Time Step: %lf", &v) == 1) { M.near(v * 1e-9 * C / dt, 1, 6e-5, "reported-time-step"); seen++; } }
      if (seen == 2) { M.event("statistics", M.labelText); } M.event("reports", M.labelText); std::filesystem::remove_all("Exports");
   }
}
HARNESS_MAIN
