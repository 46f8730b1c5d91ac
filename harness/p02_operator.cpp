// P02: the assembled right-hand side is Maxwell's equations on polynomial fields.
#include "em.hpp"
using namespace em;

static void polynomialCase(Rng& r, Setup& u, EvolutionOperatorType type, const char* tag)
{
   const int dim = u.g.dim(); Evo ev(u, type); auto& f = *ev.fes; const int n = f.GetNDofs(); auto pos = dofPos(f); auto elem = dofElem(f);
   P3 c{}; double ext = 0; for (auto& x : u.g.x) { c = c + (1.0 / u.g.x.size()) * x; } for (auto& x : u.g.x) { ext = std::max(ext, norm(x - c)); }
   std::vector<Poly> p; const int deg = r.coin(0.7) ? u.order : r.range(0, u.order); for (int k = 0; k < 6; k++) { p.push_back(Poly(r, dim, deg, c, 1 / ext)); }
   if (r.coin(0.25)) { int keep = r.below(6); for (int k = 0; k < 6; k++) if (k != keep) { for (auto& q : p[k].c) { q = 0; } } }
   mfem::Vector x(6 * n); for (int k = 0; k < 6; k++) for (int i = 0; i < n; i++) { x[k * n + i] = p[k](pos[i]); }
   auto y = ev(x);
   // elements whose boundary data the field does not satisfy are excluded
   std::vector<char> skip(f.GetNE(), 0); auto* m = f.GetMesh();
   for (int b = 0; b < m->GetNBE(); b++) { int fi = m->GetBdrElementFaceIndex(b), e1, e2; m->GetFaceElements(fi, &e1, &e2); if (e1 >= 0) { skip[e1] = 1; } if (e2 >= 0) { skip[e2] = 1; } }
   // smallest element sizes set the rounding level
   double hmin = 1e9; for (int e = 0; e < f.GetNE(); e++) { hmin = std::min(hmin, std::pow(m->GetElementVolume(e), 1.0 / dim)); }
   const double tol = 2e-10 * maxAbs(x) * (u.order + 1) * (u.order + 1) / hmin; int used = 0;
   for (int i = 0; i < n; i++) {
      const int e = elem[i]; if (skip[e]) { continue; } used++;
      double ep = 1, mu = 1, sg = 0; auto it = u.mats.find(m->GetAttribute(e)); if (it != u.mats.end()) { ep = it->second.getPermittivity(); mu = it->second.getPermeability(); sg = it->second.getConductivity(); }
      for (int k = 0; k < 3; k++) {
         const int a = (k + 1) % 3, b = (k + 2) % 3; auto curl = [&](int base) { return p[base + b].d(pos[i], a) - p[base + a].d(pos[i], b); };
         const double dE = (curl(3) - sg * p[k](pos[i])) / ep, dH = -curl(0) / mu;
         M.near(y[k * n + i], dE, tol * (1 + sg), fmt("%s-dE%c", tag, "xyz"[k]), describe(u)); M.near(y[(3 + k) * n + i], dH, tol, fmt("%s-dH%c", tag, "xyz"[k]), describe(u));
      }
   }
   if (used) { M.event(fmt("%s polynomial field", tag), describe(u) + fmt(" deg=%d dofs=%d", deg, used)); } else { M.event("no interior element"); }
}
static void campaign(Shape s, int count, Draw d, std::vector<EvolutionOperatorType> types, const char* what)
{
   auto r = M.rng(what); static const int bud[] = { 10, 20, 20, 12, 27 }; if (!d.budget) { d.budget = bud[s]; } d.minN = s == SEG || s == TET ? 1 : s == TRI ? 2 : 3; d.maxN = s == TRI || s == QUAD ? 5 : 3;
   for (int i = 0; i < count; i++) {
      Setup u = randomProblem(r, s, d); if (u.g.el.size() < 3) { continue; }
      if (r.coin(0.5)) { u.ibdr.clear(); u.g.bd.erase(std::remove_if(u.g.bd.begin(), u.g.bd.end(), [&](const El& b) { return !u.bdr.count(b.attr); }), u.g.bd.end()); }
      auto t = types[r.below((int)types.size())]; u.op = t; M.label(fmt("%s %d %s", what, i, describe(u).c_str())); polynomialCase(r, u, t, opName(t));
   }
}
SECTION(segments) { Draw d; d.conductive = true; campaign(SEG, M.n(60, 1500), d, { Global }, "seg"); Draw m = d; campaign(SEG, M.n(30, 600), m, { Maxwell }, "segm"); }
SECTION(triangles) { Draw d; d.conductive = true; campaign(TRI, M.n(50, 800), d, { Global }, "tri"); Draw m = d; campaign(TRI, M.n(20, 300), m, { Maxwell }, "trim"); }
SECTION(quads) { Draw d; d.conductive = true; campaign(QUAD, M.n(50, 800), d, { Global }, "quad"); Draw m = d; campaign(QUAD, M.n(20, 300), m, { Maxwell }, "quadm"); }
SECTION(tets) { Draw d; d.conductive = true; d.maxOrder = M.thorough ? 3 : 2; campaign(TET, M.n(30, 400), d, { Global }, "tet"); Draw m = d; m.maxOrder = 2; campaign(TET, M.n(12, 120), m, { Maxwell }, "tetm"); }
SECTION(hexes) { Draw d; d.conductive = true; campaign(HEX, M.n(14, 100), d, { Global }, "hex"); Draw m = d; m.maxOrder = 1; campaign(HEX, M.n(5, 30), m, { Maxwell }, "hexm"); }
SECTION(nodal2d) { Draw d; d.materials = false; d.bases = { mfem::BasisType::GaussLobatto }; d.interior = false; for (Shape s : { TRI, QUAD }) { Draw e = d; campaign(s, M.n(30, 400), e, { Hesthaven }, shapeName(s)); } }
SECTION(nodal3d) { Draw d; d.materials = false; d.bases = { mfem::BasisType::GaussLobatto }; d.interior = false; d.maxOrder = 2; campaign(TET, M.n(16, 200), d, { Hesthaven }, "tet"); Draw e = d; campaign(HEX, M.n(10, 80), e, { Hesthaven }, "hex"); }
HARNESS_MAIN
