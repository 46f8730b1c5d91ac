// P11: partitioning assigns every element to one rank and keeps the elements of coupled faces together.
#include "case.hpp"
using namespace em;
namespace maxwell::driver { __attribute__((weak)) void applyPairwiseConstraintsPartitioning(mfem::Mesh&, int*, const mfem::Array<int>&, const mfem::Array<int>&); }

struct Groups { std::vector<int> root; std::vector<std::pair<int, int>> pairs; long long big = 0; std::vector<char> in; };
static Groups groups(const GMesh& g, const std::set<int>& tags)
{
   Groups q; const int n = (int)g.el.size(); q.root.resize(n); q.in.assign(n, 0); for (int i = 0; i < n; i++) { q.root[i] = i; } std::function<int(int)> find = [&](int i) { while (q.root[i] != i) { i = q.root[i]; } return i; };
   std::map<std::set<int>, std::pair<int, int>> f; for (auto& kv : g.faces()) if (kv.second.e2 >= 0) { f[std::set<int>(kv.second.v.begin(), kv.second.v.end())] = { kv.second.e1, kv.second.e2 }; }
   for (auto& b : g.bd) if (tags.count(b.attr)) { auto it = f.find(std::set<int>(b.v.begin(), b.v.end())); if (it != f.end()) { q.pairs.push_back(it->second); q.in[it->second.first] = q.in[it->second.second] = 1; int x = find(it->second.first), y = find(it->second.second); if (x != y) { q.root[x] = y; } } }
   std::map<int, long long> cost; for (int i = 0; i < n; i++) { q.root[i] = find(i); if (q.in[i]) { q.big = std::max(q.big, cost[q.root[i]] += 5); } } return q;
}
// Random coupled faces: scattered pairs, chains of neighbours, closed boxes, sheets.
static GMesh coupled(Rng& r, Shape s, int big)
{
   const int dim = shapeDim(s); std::array<int, 3> n{ 1, 1, 1 }; for (int i = 0; i < dim; i++) { n[i] = r.range(dim == 1 ? 4 : 2, dim == 1 ? 60 : dim == 2 ? 3 + 3 * big : 2 + big); } GMesh g = box(s, n); auto& el = g.el; for (size_t k = el.size(); k > 1 && dim > 1; k--) { std::swap(el[k - 1], el[r.below((int)k)]); }
   g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); const int mode = r.below(4); const double p = r.pick({ 0.02, 0.1, 0.4, 1.0 }); P3 c{ r.uni(), r.uni(), r.uni() }; double w = r.uni(0.2, 0.5); auto inside = [&](const P3& x) { for (int i = 0; i < dim; i++) if (std::abs(x[i] - c[i]) > w) { return false; } return true; }; std::vector<char> in; for (auto& e : el) { in.push_back(inside(g.centre(e))); } int axis = r.below(dim);
   std::vector<std::pair<std::vector<int>, int>> add; for (auto& kv : g.faces()) { auto& f = kv.second; if (f.e2 < 0) { continue; } P3 nn = unit(g.faceNormal(f)); bool take = mode == 0 ? r.coin(p) : mode == 1 ? in[f.e1] != in[f.e2] : mode == 2 ? std::abs(nn[axis]) > 0.99 && r.coin(p) : (in[f.e1] != in[f.e2]) || r.coin(0.05); if (take) { add.push_back({ f.v, r.range(7, 10) }); } }
   for (auto& a : add) { g.bd.push_back({ a.first, a.second }); } if (r.coin()) { g.shuffle(r, dim > 1, false, dim > 1, true); } return g;
}
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };
// Judges a distribution; before may be null.
static void judge(const GMesh& g, const Groups& q, const std::vector<int>& part, const int* before, int P, const std::string& ds, const std::string& key)
{
   const int n = (int)g.el.size(); int bad = 0, split = 0; for (int p : part) { bad += p < 0 || p >= P; } if (!M.expect(!bad, key + "-rank-range", ds + fmt(" %d elements", bad))) { return; }
   for (auto& pr : q.pairs) { split += part[pr.first] != part[pr.second]; } M.expect(!split, key + "-split-pair", ds + fmt(" %d of %zu", split, q.pairs.size()));
   if (before) {
      std::vector<long long> l0(P, 0), l1(P, 0); long long W = 0; int moved = 0; for (int e = 0; e < n; e++) { long long w = q.in[e] ? 5 : 1; W += w; l0[before[e]] += w; l1[part[e]] += w; moved += !q.in[e] && part[e] != before[e]; }
      // a rank only grows while it is the least loaded one
      for (int k = 0; k < P; k++) { M.expect(l1[k] <= std::max(l0[k], W / P + q.big), key + "-overloaded", ds + fmt(" rank %d load %lld of %lld, was %lld, largest group %lld", k, l1[k], W, l0[k], q.big)); }
      std::vector<int> b0(P, 0), b1(P, 0); for (int e = 0; e < n; e++) if (!q.in[e]) { b0[before[e]]++; b1[part[e]]++; } M.expect(*std::max_element(b1.begin(), b1.end()) <= *std::max_element(b0.begin(), b0.end()), key + "-bulk-unbalanced", ds + fmt(" moved %d", moved));
   }
   M.event("distributions judged", ds);
}
SECTION(direct)
{
   if (!driver::applyPairwiseConstraintsPartitioning) { return; } auto r = M.rng();
   for (int i = 0; i < M.n(2500, 60000); i++) {
      Shape s = shapes[r.below(5)]; GMesh g = coupled(r, s, 2); const int n = (int)g.el.size(), P = r.coin(0.1) ? r.range(9, 40) : r.range(1, 8); mfem::Array<int> tf, sg; std::set<int> tags; for (int t = 7; t <= 10; t++) { int k = r.below(4); if (k & 1) { tf.Append(t); } if (k & 2) { sg.Append(t); } if (k) { tags.insert(t); } } if (r.coin(0.2)) { tf.Append(r.range(1, 2)); } if (r.coin(0.1)) { sg.Append(99); } if (r.coin(0.1) && tf.Size()) { int t = tf[0]; tf.Append(t); }
      auto m = g.mfem(); std::vector<int> before(n); const int how = r.below(4); if (how == 0) { int* p = m.GeneratePartitioning(P); for (int e = 0; e < n; e++) { before[e] = p[e]; } delete[] p; } else if (how == 1) { for (auto& b : before) { b = r.below(P); } } else if (how == 2) { for (int e = 0; e < n; e++) { before[e] = int((long long)e * P / n); } } else { int k = r.below(P); for (auto& b : before) { b = r.coin(0.8) ? k : r.below(P); } }
      auto part = before; if (i % 64 == 0) { M.label(fmt("direct %d", i)); } shim_mpi_pretend(r.below(P), P); { Quiet q; driver::applyPairwiseConstraintsPartitioning(m, part.data(), tf, sg); } shim_mpi_pretend(0, 1);
      auto q = groups(g, tags); const std::string ds = fmt("shape %d ne=%d P=%d tags=%zu pairs=%zu how=%d #%d", (int)s, n, P, tags.size(), q.pairs.size(), how, i); if (P == 1 || q.pairs.empty()) { M.expect(part == before, "nothing-to-group-changed", ds); M.event("nothing to group"); } else { judge(g, q, part, before.data(), P, ds, "direct"); }
   }
}
// Through the case reader, on forked ranks: every rank builds its share of the model.
SECTION(ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1200); i++) {
      Shape s = shapes[r.below(5)]; const int dim = shapeDim(s), P = r.range(2, 6); GMesh g = coupled(r, s, 1); if ((int)g.el.size() < 4 * P) { continue; } std::set<int> present; for (auto& b : g.bd) { present.insert(b.attr); } std::vector<int> tf, sg, nf, rs; std::set<int> tags, walls; for (int t : present) { if (t <= 6) { walls.insert(t); } else { int k = r.below(5); if (k == 1) { tf.push_back(t); tags.insert(t); } else if (k == 3 && dim > 1) { nf.push_back(t); tags.insert(t); } else if (k == 4 && dim > 1) { rs.push_back(t); tags.insert(t); } else if (k == 2 && dim > 1) { sg.push_back(t); tags.insert(t); } } } if (tags.empty()) { continue; }
      CaseDir cd(".", "part"); cd.j = minimalCase(g, "part"); cd.j["model"]["boundaries"] = json::array({ { { "tags", walls }, { "type", "PEC" } } }); if (!sg.empty()) { cd.j["model"]["boundaries"].push_back({ { "tags", sg }, { "type", "SGBC" }, { "layers", { { { "bulk_conductivity", 1e3 }, { "material_width", 1e-3 }, { "relative_permittivity", 1.0 }, { "relative_permeability", 1.0 } } } } }); }
      P3 d{ 1, 0, 0 }, p{ 0, 1, 0 }; if (!tf.empty()) { std::vector<int> a(tf.begin(), tf.end()); cd.j["sources"].push_back({ { "type", "planewave" }, { "tags", a }, { "polarization", jvec(p) }, { "propagation", jvec(d) }, { "magnitude", { { "spread", 0.3 }, { "mean", { -2, 0, 0 } } } } }); }
      for (auto& x : { std::make_pair("farfield", nf), std::make_pair("rcssurface", rs) }) for (int t : x.second) { cd.j["probes"][x.first].push_back({ { "name", fmt("%s%d", x.first, t) }, { "tags", { t } }, { "steps", 1 } }); }
      cd.write(g); auto q = groups(g, tags); const std::string ds = fmt("shape %d ne=%zu P=%d tf=%zu sg=%zu rec=%zu pairs=%zu #%d", (int)s, g.el.size(), P, tf.size(), sg.size(), nf.size() + rs.size(), q.pairs.size(), i); M.label(ds);
      const int bad = shim_mpi_run(P, [&](int k) { Quiet z; auto md = driver::buildModel(cd.j, cd.path(), false); auto& m = md.getMesh(); std::ofstream o(fmt("rank%d.txt", k)); o.precision(17); for (int e = 0; e < m.GetNE(); e++) { mfem::Vector c; m.GetElementCenter(e, c); for (int a = 0; a < dim; a++) { o << c[a] << " "; } o << "\n"; } return 0; }, 60);
      if (!M.expect(!bad, "rank-failed", ds + fmt(" code %d", bad))) { continue; }
      const int n = (int)g.el.size(); std::vector<int> part(n, -1); int dup = 0, unknown = 0; std::map<std::array<long, 3>, int> id; auto keyOf = [&](const P3& c) { return std::array<long, 3>{ lround(c[0] * 1e6), lround(c[1] * 1e6), lround(c[2] * 1e6) }; }; for (int e = 0; e < n; e++) { id[keyOf(g.centre(g.el[e]))] = e; }
      for (int k = 0; k < P; k++) { for (auto& row : readTable(fmt("rank%d.txt", k), 0)) { P3 c{}; for (int a = 0; a < dim; a++) { c[a] = row[a]; } int e = -1; auto kk = keyOf(c); for (long dx = -1; dx <= 1 && e < 0; dx++) for (long dy = -1; dy <= 1 && e < 0; dy++) for (long dz = -1; dz <= 1 && e < 0; dz++) { auto it = id.find({ kk[0] + dx, kk[1] + dy, kk[2] + dz }); if (it != id.end()) { e = it->second; } } if (e < 0) { unknown++; } else { dup += part[e] >= 0; part[e] = k; } } std::filesystem::remove(fmt("rank%d.txt", k)); }
      M.expect(!unknown, "rank-unknown-element", ds + fmt(" %d", unknown)); M.expect(!dup, "rank-duplicate-element", ds + fmt(" %d", dup)); int lost = 0; for (int v : part) { lost += v < 0; } if (!M.expect(!lost, "rank-lost-element", ds + fmt(" %d", lost))) { continue; } judge(g, q, part, nullptr, P, ds, "rank"); M.event("ranks started", fmt("P=%d shape %d", P, (int)s));
   }
}
HARNESS_MAIN
