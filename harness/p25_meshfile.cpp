// P25: loading a case keeps its mesh, and its mesh file at least as it was or in normal form.
#include "case.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace em;
namespace fs = std::filesystem;
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };

struct Item { int type, dim, phys, elem; std::vector<int> more, v; };          // v: node ids
struct File { std::vector<std::string> head, tail; std::vector<Item> items; int D = 0; std::map<int, P3> nodes; std::string nl = "\n"; bool count = true; };
static std::string text(const File& f)
{
   std::ostringstream o; for (auto& l : f.head) { o << l << f.nl; } o << "$Elements" << f.nl << f.items.size() << f.nl; int id = 1;
   for (auto& i : f.items) { o << id << " " << i.type << " " << 2 + i.more.size() << " " << i.phys << " " << i.elem; id += 1; for (int m : i.more) { o << " " << m; } for (int v : i.v) { o << " " << v; } o << f.nl; }
   o << "$EndElements" << f.nl; for (auto& l : f.tail) { o << l << f.nl; } return o.str();
}
static std::vector<std::string> words(const std::string& l) { std::istringstream is(l); std::vector<std::string> w; std::string x; while (is >> x) { w.push_back(x); } return w; }
// A mesh as a mesher may write it: lower entities, groups that are not the geometric tags, other sections.
static File compose(Rng& r, const GMesh& g, bool curved)
{
   File f; f.D = g.dim(); std::vector<int> id(g.x.size()); const int first = r.coin() ? 1 : r.range(1, 40), gap = r.coin(0.7) ? 1 : r.range(1, 3); std::vector<int> perm(g.x.size()); for (size_t i = 0; i < perm.size(); i++) { perm[i] = (int)i; } if (r.coin()) { for (int i = (int)perm.size() - 1; i > 0; i--) { std::swap(perm[i], perm[r.below(i + 1)]); } }
   int next = first; for (int i : perm) { id[i] = next; f.nodes[next] = g.x[i]; next += gap; } std::map<std::pair<int, int>, int> mid; auto m2 = [&](int a, int b) { auto k = std::minmax(a, b); auto it = mid.find(k); if (it != mid.end()) { return it->second; } int n = next; next += gap; f.nodes[n] = 0.5 * (g.x[a] + g.x[b]); return mid[k] = n; };
   const int groups = r.range(0, 2); auto phys = [&](int attr) { return groups == 0 ? 0 : groups == 1 ? attr : 100 + (attr * 7) % 13; };
   auto item = [&](int dim, int nv, const std::vector<int>& v, int attr) { Item it; it.dim = dim; it.phys = phys(attr); it.elem = attr; for (int k : v) { it.v.push_back(id[k]); }
      if (dim == 0) { it.type = 15; } else if (dim == 1) { it.type = curved ? 8 : 1; if (curved) { it.v.push_back(m2(v[0], v[1])); } } else if (dim == 2 && nv == 3) { it.type = curved ? 9 : 2; if (curved) for (int k = 0; k < 3; k++) { it.v.push_back(m2(v[k], v[(k + 1) % 3])); } } else if (dim == 2) { it.type = 3; } else if (nv == 4) { it.type = curved ? 11 : 4; static const int e[6][2] = { { 0, 1 }, { 1, 2 }, { 0, 2 }, { 0, 3 }, { 2, 3 }, { 1, 3 } }; if (curved) for (auto& q : e) { it.v.push_back(m2(v[q[0]], v[q[1]])); } } else { it.type = 5; }
      return it; };
   auto extra = [&]() { if (r.coin(0.3)) { for (int k = r.range(1, 2); k > 0; k--) { f.items.back().more.push_back(r.range(1, 3)); } } };
   // Lower entities come first, as meshers write them, or anywhere.
   std::vector<Item> low; if (f.D > 1) { for (int k = r.below(6); k > 0; k--) { low.push_back(item(0, 1, { r.below((int)g.x.size()) }, r.range(1, 9))); } } if (f.D == 3) { for (int k = r.below(8); k > 0; k--) { auto& e = g.el[r.below((int)g.el.size())]; low.push_back(item(1, 2, { e.v[0], e.v[1] }, r.range(1, 9))); } }
   const bool mixed = r.coin(0.3); size_t l = 0; auto some = [&](bool all) { while (l < low.size() && (all || r.coin(0.2))) { f.items.push_back(low[l++]); } }; if (!mixed) { some(true); }
   for (auto& b : g.bd) { if (mixed) { some(false); } f.items.push_back(item(f.D - 1, (int)b.v.size(), b.v, b.attr)); extra(); } for (auto& e : g.el) { if (mixed) { some(false); } f.items.push_back(item(f.D, (int)e.v.size(), e.v, e.attr)); extra(); } some(true);
   f.head = { "$MeshFormat", "2.2 0 8", "$EndMeshFormat" }; if (r.coin(0.4)) { f.head.insert(f.head.end(), { "$PhysicalNames", "2", fmt("%d 1 \"wall one\"", f.D - 1), fmt("%d 2 \"box\"", f.D), "$EndPhysicalNames" }); } if (r.coin(0.2)) { f.head.insert(f.head.end(), { "$Comments", "  made by hand,  1 15 2 3 4", "$EndComments" }); }
   f.head.insert(f.head.end(), { "$Nodes", fmt("%zu", f.nodes.size()) }); for (auto& n : f.nodes) { f.head.push_back(fmt("%d %.17g %.17g %.17g", n.first, n.second[0], n.second[1], n.second[2])); } f.head.push_back("$EndNodes");
   if (r.coin(0.3)) { f.tail = { "$NodeData", "1", "\"a  view\"", "1", "0.0", "3", "0", "1", "1", fmt("%d 0.5", first), "$EndNodeData" }; } if (r.coin(0.1)) { f.tail.push_back(""); }
   return f;
}
using Cell = std::pair<int, std::multiset<std::array<long long, 3>>>;          // tag and rounded corners
static std::array<long long, 3> key(const P3& p) { return { std::llround(p[0] * 1e7), std::llround(p[1] * 1e7), std::llround(p[2] * 1e7) }; }
static int corners(int type) { static const std::map<int, int> n = { { 15, 1 }, { 1, 2 }, { 8, 2 }, { 2, 3 }, { 9, 3 }, { 3, 4 }, { 4, 4 }, { 11, 4 }, { 5, 8 } }; return n.at(type); }
static std::multiset<Cell> cellsOf(const File& f, int dim) { std::multiset<Cell> c; for (auto& i : f.items) if (i.dim == dim) { Cell k; k.first = i.elem; for (int n = 0; n < corners(i.type); n++) { k.second.insert(key(f.nodes.at(i.v[n]))); } c.insert(k); } return c; }
static std::multiset<Cell> cellsOf(mfem::Mesh& m, bool faces)
{
   std::multiset<Cell> c; const int n = faces ? m.GetNBE() : m.GetNE(); for (int e = 0; e < n; e++) { Cell k; k.first = faces ? m.GetBdrAttribute(e) : m.GetAttribute(e); mfem::Array<int> v; if (faces) { m.GetBdrElementVertices(e, v); } else { m.GetElementVertices(e, v); } for (int i = 0; i < v.Size(); i++) { P3 p{}; for (int d = 0; d < m.SpaceDimension(); d++) { p[d] = m.GetVertex(v[i])[d]; } k.second.insert(key(p)); } c.insert(k); } return c;
}
// What the file may have become: same nodes and sections, same elements and faces in the same order with their geometric tags.
static bool normal(const File& f, const std::string& now, std::string& why)
{
   std::vector<std::string> l; { std::istringstream is(now); std::string x; while (std::getline(is, x)) { if (!x.empty() && x.back() == '\r') { x.pop_back(); } l.push_back(x); } } size_t at = 0;
   for (auto& h : f.head) { if (at >= l.size() || l[at] != h) { why = "line '" + h + "' became '" + (at < l.size() ? l[at] : "") + "'"; return false; } at++; } if (at + 1 >= l.size() || l[at] != "$Elements") { why = "no elements"; return false; } at++; const auto cw = words(l[at++]); const long count = cw.size() == 1 ? std::stol(cw[0]) : -1; long seen = 0; size_t i = 0;
   for (; at < l.size() && l[at] != "$EndElements"; at++) {
      auto w = words(l[at]); seen++; bool ok = false; for (; i < f.items.size(); i++) { auto& it = f.items[i]; std::vector<std::string> e{ fmt("%ld", seen), fmt("%d", it.type), fmt("%zu", 2 + it.more.size()), fmt("%d", it.elem), fmt("%d", it.elem) }; for (int m : it.more) { e.push_back(fmt("%d", m)); } for (int v : it.v) { e.push_back(fmt("%d", v)); } if (w == e) { ok = true; i++; break; } if (it.dim >= f.D - 1) { break; } } if (!ok) { why = "element line '" + l[at] + "'"; return false; }
   }
   for (; i < f.items.size(); i++) if (f.items[i].dim >= f.D - 1) { why = "elements lost at the end"; return false; } if (count != seen) { why = fmt("%ld elements announced, %ld written", count, seen); return false; }
   at++; for (auto& h : f.tail) { if (at >= l.size() || l[at] != h) { why = "line '" + h + "' lost"; return false; } at++; } if (at != l.size()) { why = "lines added"; return false; } return true;
}
static GMesh meshFor(Rng& r, Shape s) { Draw d; d.maxOrder = 1; return randomProblem(r, s, d).g; }
static json caseFor(const GMesh& g) { return minimalCase(g, "keep"); }
SECTION(load)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(600, 12000); i++) {
      Shape s = shapes[i % 5]; GMesh g = meshFor(r, s); const bool curved = (s == SEG || s == TRI || s == TET) && r.coin(0.4); File f = compose(r, g, curved); if (r.coin(0.15)) { f.nl = "\r\n"; } CaseDir cd(".", "keep"); cd.j = caseFor(g); cd.write(); std::ofstream(cd.mesh(), std::ios::binary) << text(f); std::ofstream(cd.dir() + "/other.msh") << "another"; const std::string ds = fmt("%s ne=%zu nbe=%zu curved=%d groups %d", shapeName(s), g.el.size(), g.bd.size(), (int)curved, f.items.back().phys); M.label(ds);
      try {
         std::string once; { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); once = slurp(cd.mesh()); M.expect(cellsOf(md.getMesh(), false) == cellsOf(f, f.D), "elements-of-the-problem", ds); M.expect(cellsOf(md.getMesh(), true) == cellsOf(f, f.D - 1), "faces-of-the-problem", ds); }
         std::string why; M.expect(normal(f, once, why), "file-after-loading", ds + " " + why); { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); M.expect(cellsOf(md.getMesh(), false) == cellsOf(f, f.D), "elements-when-loaded-again", ds); } M.expect(slurp(cd.mesh()) == once, "loading-again-changes-the-file", ds);
      } catch (const std::exception& e) { M.expect(false, "refused", ds + " " + e.what()); }
      M.expect(slurp(cd.dir() + "/other.msh") == "another", "other-file-changed", ds); size_t files = std::distance(fs::directory_iterator(cd.dir()), fs::directory_iterator()); M.expect(files == 3, "files-left-behind", ds + fmt(" %zu files", files)); M.event("meshes loaded", ds);
   }
}
SECTION(ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(80, 1500); i++) {
      Shape s = shapes[1 + i % 4]; const int P = r.range(2, 4); GMesh g = meshFor(r, s); if ((int)g.el.size() < 2 * P) { continue; } File f = compose(r, g, false); CaseDir cd(".", "keep"); cd.j = caseFor(g); cd.write(); std::ofstream(cd.mesh(), std::ios::binary) << text(f); const std::string ds = fmt("%s ne=%zu P=%d", shapeName(s), g.el.size(), P); M.label(ds); const int lag = r.pick({ 0, 200, 3000 });
      const int bad = shim_mpi_run(P, [&](int k) { shim_mpi_stagger((unsigned)(lag * (k + 1))); Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); std::ofstream o(fmt("cells%d.txt", k)); for (auto& c : cellsOf(md.getMesh(), false)) { o << c.first << " " << c.second.size(); for (auto& a : c.second) { o << " " << a[0] << " " << a[1] << " " << a[2]; } o << "\n"; } return 0; }, 120);
      if (!M.expect(!bad, "ranks-failed", ds)) { continue; } std::multiset<Cell> all; for (int k = 0; k < P; k++) { std::ifstream in(fmt("cells%d.txt", k)); int t; size_t n; while (in >> t >> n) { Cell c; c.first = t; for (size_t q = 0; q < n; q++) { std::array<long long, 3> a; in >> a[0] >> a[1] >> a[2]; c.second.insert(a); } all.insert(c); } } M.expect(all == cellsOf(f, f.D), "elements-over-ranks", ds); std::string why; M.expect(normal(f, slurp(cd.mesh()), why), "file-after-loading-on-ranks", ds + " " + why); M.event("meshes loaded on ranks", ds);
   }
}
// Files of other formats are refused or read, but never rewritten.
SECTION(other_formats)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(150, 4000); i++) {
      Shape s = shapes[i % 5]; GMesh g = meshFor(r, s); File f = compose(r, g, false); std::string t; const int kind = r.below(4); const char* what = "";
      if (kind == 0) { // format 4.1
         std::ostringstream o; o.precision(17); o << "$MeshFormat\n" << r.pick({ "4.1 0 8", "4 0 8", "4.0 0 8" }) << "\n$EndMeshFormat\n$Nodes\n1 " << f.nodes.size() << " 1 " << f.nodes.rbegin()->first << "\n" << f.D << " 1 0 " << f.nodes.size() << "\n"; for (auto& n : f.nodes) { o << n.first << "\n"; } for (auto& n : f.nodes) { o << n.second[0] << " " << n.second[1] << " " << n.second[2] << "\n"; } o << "$EndNodes\n$Elements\n1 " << g.el.size() << " 1 " << g.el.size() << "\n" << f.D << " 1 " << f.items.back().type << " " << g.el.size() << "\n"; int id = 1; for (auto& it : f.items) if (it.dim == f.D) { o << id++; for (int v : it.v) { o << " " << v; } o << "\n"; } o << "$EndElements\n"; t = o.str(); what = "format 4"; }
      else if (kind == 1) { t = "$MeshFormat\n2.2 1 8\n"; int one = 1; t.append((const char*)&one, 4); t += "\n$EndMeshFormat\n$Nodes\n" + fmt("%zu\n", f.nodes.size()); for (auto& n : f.nodes) { t.append((const char*)&n.first, 4); t.append((const char*)n.second.data(), 24); } t += "\n$EndNodes\n$Elements\n" + fmt("%zu\n", f.items.size()); for (auto& it : f.items) { int h[5] = { it.type, 1, 2, 1, it.phys }; t.append((const char*)h, 20); for (int v : it.v) { t.append((const char*)&v, 4); } } t += "\n$EndElements\n"; what = "binary"; }
      else if (kind == 2) { t = ""; what = "empty"; }
      else { t = r.pick({ "<VTKFile type=\"UnstructuredGrid\">\n</VTKFile>\n", "MFEM mesh v1.0\n\ndimension\n2\n", "hello\n" }); what = "no Gmsh file"; }
      CaseDir cd(".", "keep"); cd.j = caseFor(g); cd.write(); std::ofstream(cd.mesh(), std::ios::binary) << t; const std::string ds = fmt("%s %s", shapeName(s), what); M.label(ds); bool threw = false; try { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); } catch (const std::exception&) { threw = true; } M.expect(slurp(cd.mesh()) == t, fmt("rewrites-%s", kind == 0 ? "format-4" : kind == 1 ? "binary" : "other"), ds); M.event("files of other formats", ds + (threw ? " refused" : " read"));
   }
}
// The program is stopped, or the disk is full, after some bytes have been written.
SECTION(interrupted)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(300, 6000); i++) {
      Shape s = shapes[i % 5]; GMesh g = meshFor(r, s); File f = compose(r, g, false); CaseDir cd(".", "keep"); cd.j = caseFor(g); cd.write(); const std::string before = text(f); std::ofstream(cd.mesh(), std::ios::binary) << before; const rlim_t limit = r.coin(0.1) ? 0 : r.below((int)before.size() + 200); const bool killed = r.coin(); const std::string ds = fmt("%s ne=%zu %s after %lu bytes of %zu", shapeName(s), g.el.size(), killed ? "killed" : "disk full", (unsigned long)limit, before.size()); M.label(ds); std::fflush(nullptr);
      pid_t p = fork(); if (p == 0) { if (!killed) { signal(SIGXFSZ, SIG_IGN); } else { signal(SIGXFSZ, SIG_DFL); } rlimit l{ limit, limit }; setrlimit(RLIMIT_FSIZE, &l); rlimit none{ 0, 0 }; setrlimit(RLIMIT_CORE, &none); int rc = 0; try { std::cout.setstate(std::ios::failbit); auto md = driver::buildModel(cd.j, cd.path(), false); rc = cellsOf(md.getMesh(), false) == cellsOf(f, f.D) ? 0 : 7; } catch (const std::exception&) { rc = 5; } _exit(rc); }
      int st = 0; waitpid(p, &st, 0); M.expect(!(WIFEXITED(st) && WEXITSTATUS(st) == 7), "another-mesh-used", ds); std::string why; const std::string now = slurp(cd.mesh()); M.expect(now == before || normal(f, now, why), "mesh-file-lost", ds + fmt(" %zu bytes left, ", now.size()) + why);
      try { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); M.expect(cellsOf(md.getMesh(), false) == cellsOf(f, f.D), "mesh-lost", ds); } catch (const std::exception& e) { M.expect(false, "mesh-unreadable", ds + " " + e.what()); } M.event(WIFSIGNALED(st) ? "interrupted runs" : WEXITSTATUS(st) ? "failed writes" : "completed in spite of the limit", ds);
   }
}
// Meshes behind links, and folders or files that may not be written: the mesh with its geometric tags is used, or loading is refused.
SECTION(guarded)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(150, 3000); i++) {
      Shape s = shapes[i % 5]; GMesh g = meshFor(r, s); File f = compose(r, g, false); CaseDir cd(".", "keep"); cd.j = caseFor(g); cd.write(); const int how = r.below(4); static const char* names[] = { "link", "read-only file", "read-only folder", "normal mesh in a read-only folder" }; const std::string before = text(f), ds = fmt("%s ne=%zu %s", shapeName(s), g.el.size(), names[how]); M.label(ds);
      fs::create_directories("shared"); const std::string real = how == 0 ? "shared/store.msh" : cd.mesh(); std::ofstream(real, std::ios::binary) << before; std::string kept = before; if (how == 0) { fs::create_symlink(fs::absolute(real), cd.mesh()); } if (how == 3) { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); kept = slurp(real); } if (how == 1) { fs::permissions(real, fs::perms::owner_read); } if (how >= 2) { fs::permissions(real, fs::perms::owner_read); fs::permissions(cd.dir(), fs::perms::owner_read | fs::perms::owner_exec); }
      const auto mode = fs::status(real).permissions(); bool threw = false; try { Quiet q; auto md = driver::buildModel(cd.j, cd.path(), false); M.expect(cellsOf(md.getMesh(), false) == cellsOf(f, f.D), "guarded-elements", ds); M.expect(cellsOf(md.getMesh(), true) == cellsOf(f, f.D - 1), "guarded-faces", ds); } catch (const std::exception&) { threw = true; }
      if (how == 0 || how == 3) { M.expect(!threw, "guarded-refused", ds); } if (how == 0) { M.expect(fs::is_symlink(cd.mesh()), "link-replaced", ds); } std::string why; const std::string now = slurp(real); M.expect(now == kept || normal(f, now, why), "guarded-file", ds + " " + why); M.expect(fs::status(real).permissions() == mode, "mode-changed", ds); fs::permissions(cd.dir(), fs::perms::owner_all); fs::remove_all("shared"); M.event("guarded meshes", ds + (threw ? " refused" : " read"));
   }
}
HARNESS_MAIN
