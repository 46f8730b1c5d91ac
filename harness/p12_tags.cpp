// P12: materials and roles follow the geometry tags, whatever numbers the tags have.
#include "case.hpp"
using namespace em;

static std::map<int, int> relabel(Rng& r, const std::set<int>& tags, int top)
{
   std::map<int, int> m; std::set<int> used; for (int t : tags) { int v; do { v = r.range(1, top); } while (used.count(v)); used.insert(v); m[t] = v; } return m;
}
template <class Map> static Map mapped(const Map& a, const std::map<int, int>& m) { Map b; for (auto& kv : a) { b.insert({ m.at(kv.first), kv.second }); } return b; }
static std::set<int> elTags(const GMesh& g) { std::set<int> s; for (auto& e : g.el) { s.insert(e.attr); } return s; }
static std::set<int> bdTags(const GMesh& g) { std::set<int> s; for (auto& e : g.bd) { s.insert(e.attr); } return s; }
static Setup renumbered(Rng& r, const Setup& u, int top)
{
   Setup v = u; auto me = relabel(r, elTags(u.g), top), mb = relabel(r, bdTags(u.g), top); for (auto& e : v.g.el) { e.attr = me[e.attr]; } for (auto& b : v.g.bd) { b.attr = mb[b.attr]; }
   auto has = [](const std::map<int, int>& m, auto& from) { auto c = from; for (auto it = c.begin(); it != c.end();) { it = m.count(it->first) ? std::next(it) : c.erase(it); } return c; };
   v.mats = mapped(has(me, u.mats), me); v.bdr = mapped(has(mb, u.bdr), mb); v.ibdr = mapped(has(mb, u.ibdr), mb); v.tfsf.clear(); for (int t : u.tfsf) { v.tfsf.push_back(mb[t]); } return v;
}
// What the markers of a model say, by tag.
static std::map<int, std::set<BdrCond>> roles(BoundaryToMarker& m) { std::map<int, std::set<BdrCond>> s; for (auto& [c, k] : m) for (int i = 0; i < k.Size(); i++) if (k[i]) { s[i + 1].insert(c); } return s; }
static std::map<int, std::set<BdrCond>> declared(const GeomTagToBoundary& d) { std::map<int, std::set<BdrCond>> s; for (auto& [t, c] : d) { s[t].insert(c); } return s; }

static mfem::Vector rhs(Setup& u, EvolutionOperatorType type, const mfem::Vector& x, double t) { Evo e(u, type); e.op->SetTime(t); mfem::Vector y(x.Size()); y = 0.0; Quiet q; if (e.n() != x.Size()) { mfem::Vector z(0); return z; } e.op->Mult(x, y); return y; }
static void same(const mfem::Vector& a, const mfem::Vector& b, const std::string& key, const std::string& ds) { if (!M.expect(a.Size() == b.Size(), key + "-size", ds)) { return; } M.near(maxDiff(a, b) / std::max(maxAbs(a), 1e-30), 0, 1e-11, key, ds); }

static void tags(Shape s, int count, const char* what)
{
   auto r = M.rng(what); const int dim = shapeDim(s);
   for (int i = 0; i < count; i++) {
      const auto type = r.pick({ Global, Maxwell, Hesthaven }); if (type == Hesthaven && dim == 1) { continue; } const bool nodal = type == Hesthaven; Setup u; Region g;
      const bool surface = r.coin(0.3);
      if (surface) { u = surfaceProblem(r, s, g, r.range(1, 2), false, 0); P3 d{ 1, 0, 0 }, p{ 0, 1, 0 }; u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(0.5, mfem::Vector({ 0.1 }), 1), vec3(p), vec3(d), E))); }
      else { Draw d; d.materials = d.conductive = !nodal; d.maxOrder = 2; if (nodal) { d.bases = { mfem::BasisType::GaussLobatto }; } u = randomProblem(r, s, d); }
      const std::string ds = describe(u) + " " + opName(type); M.label(fmt("%s %d", what, i)); std::unique_ptr<Evo> e; try { Quiet q; e = std::make_unique<Evo>(u, type); } catch (const std::exception&) { M.event("unsupported problem"); continue; }
      auto x = randomState(r, e->n()); const double t = r.uni(); auto y = rhs(u, type, x, t);
      // other numbers for the tags
      for (int k = 0; k < 2; k++) { auto v = renumbered(r, u, r.pick({ 12, 40, 300 })); same(rhs(v, type, x, t), y, "renumbered-tags", ds); auto md = v.model(); M.expect(roles(md.getBoundaryToMarker()) == declared(v.bdr), "exterior-roles", ds); M.expect(roles(md.getInteriorBoundaryToMarker()) == declared(v.ibdr), "interior-roles", ds); std::set<int> tf; for (auto& kv : roles(md.getTotalFieldScatteredFieldToMarker())) { tf.insert(kv.first); } M.expect(tf == std::set<int>(v.tfsf.begin(), v.tfsf.end()), "surface-roles", ds); M.event("renumberings", ds + fmt(" %d", k)); }
      // values of every element tag
      { auto md = u.model(); auto ep = md.buildEpsMuPiecewiseVector(E), mu = md.buildEpsMuPiecewiseVector(H), sg = md.buildSigmaPiecewiseVector(); for (int a : elTags(u.g)) { auto it = u.mats.find(a); const bool has = it != u.mats.end(); if (!M.expect(a <= ep.Size() && a <= mu.Size() && a <= sg.Size(), "coefficient-missing", ds)) { continue; } M.near(ep[a - 1], has ? it->second.getPermittivity() : 1, 0, "permittivity", ds); M.near(mu[a - 1], has ? it->second.getPermeability() : 1, 0, "permeability", ds); M.near(sg[a - 1], has ? it->second.getConductivity() : 0, 0, "conductivity", ds); } }
      // a material left out is vacuum
      if (!nodal && u.mats.size() > 1) { Setup a = u, b = u; auto it = std::next(u.mats.begin(), r.below((int)u.mats.size())); a.mats.erase(it->first); b.mats.erase(it->first); b.mats.insert({ it->first, buildVacuumMaterial() }); same(rhs(a, type, x, t), rhs(b, type, x, t), "undeclared-is-vacuum", ds); M.event("undeclared materials", ds); }
      // declarations for tags the mesh does not have
      { Setup a = u; if (a.mats.empty()) { for (int q : elTags(u.g)) { a.mats.insert({ q, buildVacuumMaterial() }); } } const int top = *elTags(u.g).rbegin(); a.mats.insert({ top + r.range(1, 20), Material(7, 8, nodal ? 0.0 : 9.0) }); same(rhs(a, type, x, t), y, "absent-material-tag", ds); }
      { auto bt = bdTags(u.g); int hole = 0; for (int k = 1; k < *bt.rbegin(); k++) if (!bt.count(k)) { hole = k; } auto cond = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }); const bool in = r.coin(); if (hole) { Setup a = u; (in ? a.ibdr : a.bdr)[hole] = cond; try { same(rhs(a, type, x, t), y, "absent-boundary-tag", ds); } catch (const std::exception&) { M.event("absent boundary tag refused"); } }
         for (int far : { *bt.rbegin() + 1, *bt.rbegin() + r.range(2, 60) }) { Setup a = u; (in ? a.ibdr : a.bdr)[far] = cond; try { same(rhs(a, type, x, t), y, "absent-boundary-tag", ds); } catch (const std::exception&) { M.event("absent boundary tag refused"); } }
         for (int neg : { 0, -1, -5 }) { Setup a = u; (in ? a.ibdr : a.bdr)[neg] = cond; try { same(rhs(a, type, x, t), y, "invalid-boundary-tag", ds); } catch (const std::exception&) { M.event("invalid boundary tag refused"); } } }
      M.event("problems", ds);
   }
}
SECTION(tags_1d) { tags(SEG, M.n(150, 2000), "seg"); }
SECTION(tags_2d) { tags(TRI, M.n(25, 300), "tri"); tags(QUAD, M.n(25, 300), "quad"); }
SECTION(tags_3d) { tags(TET, M.n(6, 60), "tet"); tags(HEX, M.n(6, 60), "hex"); }

// A uniform field in the middle of each material decays with the conductivity of that material only, and a field of constant curl is driven by its permittivity and permeability.
static void response(Shape s, int count, const char* what)
{
   auto r = M.rng(what); const int dim = shapeDim(s);
   for (int i = 0; i < count; i++) {
      Setup u; u.g = dim == 1 ? box(SEG, ticks(9, 1.0)) : box(s, std::array<int, 3>{ 4, dim > 1 ? 4 : 1, dim > 2 ? 3 : 1 }); const int nt = r.range(2, 5); auto lab = relabel(r, { 0, 1, 2, 3, 4 }, r.coin() ? 9 : 150); u.g.setAttr([&](const P3&) { return lab[r.below(nt)]; }); u.g.tagExterior([&](const P3&, const P3& n) { return sideTag(n); }); for (int b : bdTags(u.g)) { u.bdr[b] = BdrCond::PEC; }
      for (int a : elTags(u.g)) if (r.coin(0.8)) { u.mats.insert({ a, Material(r.uni(1, 6), r.uni(1, 6), r.coin() ? 0.0 : r.uni(0, 5)) }); } if (u.mats.empty()) { u.mats.insert({ *elTags(u.g).begin(), Material(2, 3, 1) }); }
      if (r.coin()) { u.g.shuffle(r); } u.order = r.range(1, 2); const auto type = r.coin() ? Global : Maxwell; u.alpha = r.coin() ? 1.0 : r.uni(); const std::string ds = describe(u) + " " + opName(type); M.label(fmt("%s %d", what, i));
      Evo e(u, type); const int n = e.n() / 6; auto pos = dofPos(*e.fes); auto el = dofElem(*e.fes); std::set<int> edge; for (auto& kv : u.g.faces()) if (kv.second.e2 < 0) { edge.insert(kv.second.e1); }
      P3 A = r.unit(), B = r.unit(), w; w = P3{ r.normal(), dim > 1 ? r.normal() : 0, dim > 2 ? r.normal() : 0 }; // E = A, H = cross(w', x)-like: H = B (w.x)
      mfem::Vector x(6 * n), y(6 * n); for (int k = 0; k < n; k++) for (int c = 0; c < 3; c++) { x[c * n + k] = A[c]; x[(3 + c) * n + k] = B[c] * dot(w, pos[k]); } y = 0.0; { Quiet q; e.op->Mult(x, y); } P3 curl = cross(w, B); int seen = 0;
      for (int k = 0; k < n; k++) { if (edge.count(el[k])) { continue; } const int a = u.g.el[el[k]].attr; auto it = u.mats.find(a); const double ep = it == u.mats.end() ? 1 : it->second.getPermittivity(), sg = it == u.mats.end() ? 0 : it->second.getConductivity(); for (int c = 0; c < 3; c++) { M.near(y[c * n + k], (curl[c] - sg * A[c]) / ep, 1e-9 * (1 + norm(curl) + sg), "element-electric-response", ds); M.near(y[(3 + c) * n + k], 0, 1e-9, "element-magnetic-response", ds); } seen++; }
      for (int k = 0; k < n; k++) for (int c = 0; c < 3; c++) { x[(3 + c) * n + k] = A[c]; x[c * n + k] = B[c] * dot(w, pos[k]); } y = 0.0; { Quiet q; e.op->Mult(x, y); }
      for (int k = 0; k < n; k++) { if (edge.count(el[k])) { continue; } const int a = u.g.el[el[k]].attr; auto it = u.mats.find(a); const double mu = it == u.mats.end() ? 1 : it->second.getPermeability(); for (int c = 0; c < 3; c++) { M.near(y[(3 + c) * n + k], -curl[c] / mu, 1e-9 * (1 + norm(curl)), "element-permeability", ds); } }
      if (seen) { M.event("element responses", ds); }
   }
}
SECTION(response_1d) { response(SEG, M.n(80, 1000), "seg"); }
SECTION(response_2d) { response(TRI, M.n(12, 200), "tri"); response(QUAD, M.n(12, 200), "quad"); }
SECTION(response_3d) { response(TET, M.n(2, 30), "tet"); response(HEX, M.n(3, 30), "hex"); }
HARNESS_MAIN
