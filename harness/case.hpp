// Case folders for the harnesses that go through the case reader.
#pragma once
#include "em.hpp"
#include "driver/driver.h"

namespace em {
using json = nlohmann::json;
// A folder <root>/<name>/ with <name>.json and <name>.msh, as the launcher expects.
struct CaseDir {
   std::string root, name; json j;
   CaseDir(const std::string& r, const std::string& n) : root(r), name(n) { std::filesystem::create_directories(dir()); }
   std::string dir() const { return root + "/" + name; }
   std::string path() const { return dir() + "/" + name + ".json"; }
   std::string mesh() const { return dir() + "/" + name + ".msh"; }
   void write(const GMesh& g) const { g.gmsh(mesh()); std::ofstream(path()) << j.dump(1); }
   void write() const { std::ofstream(path()) << j.dump(1); }
   ~CaseDir() { std::error_code e; std::filesystem::remove_all(dir(), e); }
   CaseDir(const CaseDir&) = delete;
};
inline json jvec(const P3& v, int n = 3) { json a = json::array(); for (int i = 0; i < n; i++) { a.push_back(v[i]); } return a; }
// Least case that can run: vacuum everywhere, every exterior tag a PEC wall.
inline json minimalCase(const GMesh& g, const std::string& name)
{
   std::set<int> el, bd; for (auto& e : g.el) { el.insert(e.attr); } for (auto& b : g.bd) { bd.insert(b.attr); }
   json j; j["model"]["filename"] = name + ".msh"; j["model"]["materials"] = json::array({ { { "tags", el }, { "type", "vacuum" } } }); j["model"]["boundaries"] = json::array({ { { "tags", bd }, { "type", "PEC" } } });
   j["sources"] = json::array(); return j;
}
inline std::vector<std::vector<double>> readTable(const std::string& path, int skip)
{
   std::ifstream f(path); std::vector<std::vector<double>> r; std::string l; int n = 0;
   while (std::getline(f, l)) { if (n++ < skip) { continue; } std::istringstream s(l); std::vector<double> v; double d; while (s >> d) { v.push_back(d); } r.push_back(v); } return r;
}
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str(); }
}
