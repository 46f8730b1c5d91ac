// P21: preparing and writing results changes nothing but the output folders of the case that runs.
#include "case.hpp"
#include <unistd.h>
using namespace em;
namespace fs = std::filesystem;

using Tree = std::map<std::string, std::string>; // path -> "d" or contents
static Tree snapshot(const std::string& root) { Tree t; for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) { auto p = fs::relative(it->path(), root).string(); t[p] = it->is_directory() ? "d" : "f" + slurp(it->path().string()); } return t; }
static void put(const std::string& p, const std::string& text) { fs::create_directories(fs::path(p).parent_path()); std::ofstream(p) << text; }
static bool within(const std::string& p, const std::string& dir) { return p == dir || p.compare(0, dir.size() + 1, dir + "/") == 0; }

static const std::vector<std::string> NAMES{ "a", "a2", "A", "ab", "a b", "a.b", "PointProbes", "single-core", "mpi-2", "ParaView", "Exports", "SimulationStats", "x.mesh.y", "-rf", "~", "b", "rank0", "Operators" };
static const std::vector<std::string> MODES{ "single-core", "mpi-2", "mpi-3", "cuda-1" };

static void clutter(Rng& r, const std::vector<std::string>& names)
{
   int id = 0; for (auto& n : names) for (auto& m : MODES) if (r.coin(0.6)) { for (const char* sub : { "PointProbes/PointProbe0.dat", "FieldProbes/FieldProbe0.dat", "SimulationStats/statistics_rank0.dat", "DomainSnapshotProbes/rank_0/cycle_000000/Ex.gf", "NearToFarFieldProbes/ntff/rank0/mesh", "RCSSurface/rcs/rank0/surface_data.bin", "MORStateProbes/mor/x_0", "notes.txt" }) if (r.coin(0.5)) { put("w/Exports/" + m + "/" + n + "/" + sub, fmt("kept %d", id++)); } if (r.coin(0.4)) { put("w/Exports/ParaView/" + m + "/" + n + ".msh/Cycle000000/data.vtu", fmt("kept %d", id++)); } }
   for (const char* p : { "w/PointProbes/x", "w/SimulationStats/y", "w/Exports/readme", "w/Exports/Operators/other/op.csr", "w/notes.txt", "w/single-core/a/z", "outside/Exports/single-core/a/PointProbes/PointProbe0.dat", "outside/keep" }) if (r.coin(0.7)) { put(p, fmt("kept %d", id++)); }
}
struct Cwd { std::string old = fs::current_path().string(); explicit Cwd(const std::string& d) { fs::current_path(d); } ~Cwd() { fs::current_path(old); } };
static json randomProbes(Rng& r, const GMesh& g, int dim, bool ranks)
{
   P3 c{ 0.41, dim > 1 ? 0.37 : 0, 0 }; json p = json::object(); auto steps = [&](json& j) { if (r.coin()) { j["steps"] = r.range(1, 3); } else { j["saves"] = r.range(1, 4); } };
   if (r.coin(0.7)) { p["point"] = json::array(); for (int k = r.range(1, 2); k > 0; k--) { json j{ { "position", jvec(c, dim) } }; steps(j); p["point"].push_back(j); } }
   if (r.coin(0.7)) { json j{ { "position", jvec(c, dim) }, { "field_type", "electric" }, { "polarization", "Y" } }; steps(j); p["field"] = json::array({ j }); }
   if (r.coin(0.5)) { json j = json::object(); steps(j); if (r.coin()) { j["name"] = "view"; } p["exporter"] = j; }
   if (r.coin(0.5)) { json j = json::object(); steps(j); if (r.coin()) { j["name"] = "snap"; } p["domain_snapshot"] = j; }
   if (r.coin(0.5)) { json j{ { "name", r.coin() ? "mor" : "m.2" }, { "record_time_start", 0.0 }, { "record_time_final", 0.05 }, { "saves", r.range(1, 4) } }; p["mor_state"] = json::array({ j }); }
   if (dim > 1 && !ranks) { if (r.coin(0.5)) { json j{ { "name", "ntff" }, { "tags", { 7 } } }; steps(j); p["farfield"] = json::array({ j }); } if (r.coin(0.5)) { json j{ { "name", "rcs" }, { "tags", { 7 } } }; steps(j); p["rcssurface"] = json::array({ j }); } }
   (void)g; return p;
}
static void history(int count, int runs, bool ranks, const char* what)
{
   auto r = M.rng(what); if (geteuid() == 0) { M.event("skipped: privileged"); return; }
   for (int i = 0; i < count; i++) {
      fs::remove_all("h"); fs::create_directories("h/w"); Cwd top("h"); std::vector<std::string> names; for (auto& n : NAMES) if (r.coin(0.4)) { names.push_back(n); } if (names.empty()) { names = { "a", "ab" }; } clutter(r, names);
      for (int k = 0; k < runs; k++) {
         const std::string name = names[r.below((int)names.size())]; const int P = ranks ? r.range(2, 3) : 1, dim = r.range(1, 2); const std::string mode = P == 1 ? "single-core" : fmt("mpi-%d", P);
         GMesh g = dim == 1 ? box(SEG, ticks(8, 1.0)) : box(QUAD, std::array<int, 3>{ 4, 4, 1 }); if (dim == 1) { g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { 8 }, 2 }); } else { g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); g.tagInterior([&](const P3&, const P3&, int a, int b) { auto in = [&](int e) { P3 c = g.centre(g.el[e]); return std::abs(c[0] - 0.5) < 0.25 && std::abs(c[1] - 0.5) < 0.25; }; return in(a) != in(b) ? 7 : 0; }); }
         const bool op = r.coin(0.3) && P == 1; const std::string where = r.coin() ? "w/cases" : "cases"; json probes = randomProbes(r, g, dim, ranks); M.label(fmt("%s %d.%d %s %s probes=%s", what, i, k, name.c_str(), mode.c_str(), probes.dump().c_str()));
         CaseDir cd(where, name); cd.j = minimalCase(g, name); std::set<int> walls; for (auto& b : g.bd) if (b.attr != 7) { walls.insert(b.attr); } cd.j["model"]["boundaries"] = json::array({ { { "tags", walls }, { "type", "PEC" } } }); cd.j["solver_options"] = { { "time_step", 0.01 }, { "final_time", 0.05 }, { "order", 1 } }; if (op) { cd.j["solver_options"]["export_operator"] = true; } cd.j["probes"] = probes; cd.write(g);
         const auto before = snapshot("."); std::string err; int bad = 0; { Cwd w("w"); const std::string path = where == "cases" ? "../" + cd.path() : cd.path().substr(2); Quiet q; auto go = [&] { auto s = driver::buildSolverJson(path, false); s.run(); }; try { if (P == 1) { go(); } else { bad = shim_mpi_run(P, [&](int) { go(); return 0; }, 60); } } catch (const std::exception& e) { err = e.what(); } }
         if (!M.expect(err.empty() && !bad, "run-failed", M.labelText + " " + err + fmt(" %d", bad))) { continue; }
         const auto after = snapshot("."); std::vector<std::string> own{ "w/Exports/" + mode + "/" + name, "w/Exports/Operators/" + name, fs::path(cd.mesh()).lexically_normal().string() }; if (probes.contains("exporter")) { const std::string en = probes["exporter"].value("name", name + ".msh"); own.push_back("w/Exports/ParaView/" + mode + "/" + en); }
         auto allowed = [&](const std::string& p) { for (auto& o : own) if (within(p, o)) { return true; } return false; }; auto parent = [&](const std::string& p) { for (auto& o : own) if (within(o, p)) { return true; } return false; };
         int inside = 0; for (auto& [p, c] : before) { auto it = after.find(p); if (it == after.end()) { inside += allowed(p); M.expect(allowed(p), "removed-elsewhere", M.labelText + " removed " + p); } else if (it->second != c) { inside += allowed(p); M.expect(allowed(p), "overwritten-elsewhere", M.labelText + " changed " + p); } }
         for (auto& [p, c] : after) if (!before.count(p)) { inside += allowed(p); M.expect(allowed(p) || (c == "d" && parent(p)), "created-elsewhere", M.labelText + " created " + p); }
         // what the case asked for is there
         const std::string base = "w/Exports/" + mode + "/" + name + "/"; auto has = [&](const std::string& p) { return after.count(p) > 0; }; M.expect(has(base + "SimulationStats/statistics_rank0.dat"), "statistics-missing", M.labelText); if (probes.contains("point")) { M.expect(has(base + "PointProbes/PointProbe0.dat"), "point-file-missing", M.labelText); } if (probes.contains("field")) { M.expect(has(base + "FieldProbes/FieldProbe0.dat"), "field-file-missing", M.labelText); } if (probes.contains("domain_snapshot")) { M.expect(has(base + "DomainSnapshotProbes/rank_0/cycle_000000/Ex.gf"), "snapshot-missing", M.labelText); } if (probes.contains("rcssurface")) { M.expect(has(base + "RCSSurface/rcs/rank0/surface_data.bin"), "surface-missing", M.labelText); }
         M.event("runs watched", fmt("%s %s %d", name.c_str(), mode.c_str(), (int)probes.size())); M.event("files changed inside", fmt("%d", inside));
      }
   }
}
SECTION(single) { history(M.n(60, 1500), 5, false, "single"); }
SECTION(ranks) { history(M.n(10, 250), 3, true, "ranks"); }
HARNESS_MAIN
