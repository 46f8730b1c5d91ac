// P04: every evolution formulation returns the same time derivative; the exported operator is the applied one.
#include "em.hpp"
using namespace em;

static double scaleOf(const mfem::Vector& a) { return std::max(maxAbs(a), 1e-300); }
static mfem::Vector someState(Rng& r, int n, Evo& ev)
{
   if (r.coin(0.6)) { return randomState(r, n); }
   mfem::Vector x(n); x = 0.0; if (r.coin()) { int c = r.below(6); for (int i = 0; i < n / 6; i++) { x[c * n / 6 + i] = r.normal(); } }
   else { mfem::Array<int> d; ev.fes->GetElementDofs(r.below(ev.fes->GetNE()), d); for (int c = 0; c < 6; c++) for (int i = 0; i < d.Size(); i++) { x[c * n / 6 + d[i]] = r.normal(); } } return x;
}
static void pair(Shape s, int count, Draw d, EvolutionOperatorType a, EvolutionOperatorType b, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup u = randomProblem(r, s, d); M.label(fmt("%s %d", what, i)); Evo A(u, a), B(u, b); const std::string ds = describe(u);
      M.expect(A.n() == B.n(), fmt("%s-%s-size", opName(a), opName(b)), ds);
      for (int k = 0; k < 3; k++) {
         auto x = someState(r, A.n(), A); const double t = r.uni(0, 2); A.op->SetTime(t); B.op->SetTime(t); auto y = A(x), z = B(x);
         M.near(maxDiff(y, z) / scaleOf(y), 0, 1e-9, fmt("%s-vs-%s", opName(a), opName(b)), ds); M.expect(std::isfinite(maxAbs(y)) && std::isfinite(maxAbs(z)), fmt("%s-vs-%s-finite", opName(a), opName(b)), ds);
      }
      M.event(fmt("%s against %s", opName(a), opName(b)), ds);
   }
}
static Draw any(int budget, int maxOrder = 0) { Draw d; d.conductive = true; d.budget = budget; d.maxOrder = maxOrder; d.minOrder = 1; return d; }
static Draw vac(int budget, int maxOrder = 0) { Draw d; d.materials = false; d.bases = { mfem::BasisType::GaussLobatto }; d.budget = budget; d.maxOrder = maxOrder; return d; }
SECTION(terms_1d2d) { pair(SEG, M.n(300, 3000), any(10), Global, Maxwell, "seg"); pair(TRI, M.n(80, 800), any(6), Global, Maxwell, "tri"); pair(QUAD, M.n(80, 800), any(9), Global, Maxwell, "quad"); }
SECTION(terms_3d) { pair(TET, M.n(20, 200), any(3, 2), Global, Maxwell, "tet"); pair(HEX, M.n(20, 150), any(6, 1), Global, Maxwell, "hex"); }
SECTION(nodal_2d) { pair(TRI, M.n(150, 1500), vac(8), Global, Hesthaven, "tri"); pair(QUAD, M.n(150, 1500), vac(9), Global, Hesthaven, "quad"); }
SECTION(nodal_tet) { pair(TET, M.n(60, 500), vac(4, M.thorough ? 3 : 2), Global, Hesthaven, "tet"); }
SECTION(nodal_hex) { pair(HEX, M.n(60, 400), vac(8, 2), Global, Hesthaven, "hex"); }

static Draw bent(Draw d) { d.curved = 1; return d; }
SECTION(curved_2d) { pair(TRI, M.n(60, 600), bent(any(6, 3)), Global, Maxwell, "tri"); pair(QUAD, M.n(60, 600), bent(any(6, 3)), Global, Maxwell, "quad"); pair(TRI, M.n(60, 600), bent(vac(6, 3)), Global, Hesthaven, "tri nodal"); pair(QUAD, M.n(60, 600), bent(vac(6, 3)), Global, Hesthaven, "quad nodal"); }
SECTION(curved_3d) { pair(TET, M.n(5, 50), bent(any(2, 1)), Global, Maxwell, "tet"); pair(HEX, M.n(6, 60), bent(any(4, 1)), Global, Maxwell, "hex"); pair(TET, M.n(8, 80), bent(vac(2, 2)), Global, Hesthaven, "tet nodal"); pair(HEX, M.n(8, 80), bent(vac(4, 1)), Global, Hesthaven, "hex nodal"); }

// With incident waves entering through a total-field surface.
static void waves(Shape s, int count, int maxOrder, EvolutionOperatorType b, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Region g; Setup u = surfaceProblem(r, s, g, r.range(1, maxOrder), b != Hesthaven, 0); const int dim = u.g.dim(); u.alpha = r.coin() ? 1.0 : r.uni(); M.label(fmt("%s wave %d", what, i)); const int nw = r.range(1, 3);
      for (int k = 0; k < nw; k++) {
         P3 d{}, p{}; do { auto q = r.unit(); for (int j = 0; j < dim; j++) { d[j] = q[j]; } p = r.unit(); p = p - (dot(p, d) / std::max(dot(d, d), 1e-9)) * d; } while (norm(d) < 0.2 || norm(p) < 0.2);
         u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(r.uni(0.3, 0.6), mfem::Vector({ r.uni(-0.5, 0.5) }), 1), vec3(unit(p)), vec3(unit(d)), r.coin() ? E : H)));
      }
      Evo A(u, Global), B(u, b); const std::string ds = describe(u) + fmt(" waves=%d", nw);
      for (int k = 0; k < 3; k++) { auto x = k ? someState(r, A.n(), A) : mfem::Vector(A.n()); if (!k) { x = 0.0; } const double t = r.uni(0, 2); A.op->SetTime(t); B.op->SetTime(t); auto y = A(x), z = B(x); M.near(maxDiff(y, z) / std::max(scaleOf(y), 1e4), 0, 1e-9, fmt("global-vs-%s-waves", opName(b)), ds); }
      M.event(fmt("global against %s with waves", opName(b)), ds);
   }
}
SECTION(waves_1d2d) { waves(SEG, M.n(60, 600), 4, Maxwell, "seg"); waves(TRI, M.n(20, 200), 3, Maxwell, "tri"); waves(QUAD, M.n(20, 200), 3, Maxwell, "quad"); waves(TRI, M.n(20, 200), 3, Hesthaven, "tri nodal"); waves(QUAD, M.n(20, 200), 3, Hesthaven, "quad nodal"); }
SECTION(waves_3d) { waves(TET, M.n(3, 20), 1, Maxwell, "tet"); waves(HEX, M.n(4, 30), 1, Maxwell, "hex"); waves(TET, M.n(4, 25), 1, Hesthaven, "tet nodal"); waves(HEX, M.n(6, 30), 1, Hesthaven, "hex nodal"); }

// The exported operator file holds the operator that is applied.
static void exported(Shape s, int count, int budget, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup u; const bool tf = r.coin(0.3); Region g; if (tf) { u = surfaceProblem(r, s, g, 1, true, 0); } else { Draw d; d.conductive = true; d.budget = budget; d.maxOrder = 2; u = randomProblem(r, s, d); }
      u.exportOp = true; u.name = fmt("exp_%s_%d", what, i); M.label(u.name); if (tf) { u.sources.add(std::make_unique<TotalField>(Planewave(Gaussian(0.4, mfem::Vector({ 0.0 }), 1), vec3({ 0, 0, 1 }), vec3({ 1, 0, 0 }), E))); }
      Evo A(u, Global); const std::string ds = describe(u), f = "Exports/Operators/" + u.name + "/" + u.name + "_global.csr"; std::ifstream in(f); if (!M.expect(in.good(), "export-missing", ds + " " + f)) { continue; }
      int rows = 0, cols = 0; in >> rows >> cols; M.expect(rows == A.n() && cols == A.n(), "export-size", fmt("%s rows %d cols %d want %d", ds.c_str(), rows, cols, A.n())); if (rows != A.n()) { continue; }
      std::vector<long> I(rows + 1); for (auto& q : I) { in >> q; } std::vector<long> J(I.back()); for (auto& q : J) { in >> q; } std::vector<double> D(I.back()); for (auto& q : D) { in >> q; } M.expect(bool(in), "export-truncated", ds);
      for (int k = 0; k < 3; k++) {
         auto x = someState(r, A.n(), A); A.op->SetTime(0.1); mfem::Vector z(A.n()); z = 0.0; A.op->SetTime(1e6); /* the pulse has long passed */ auto y = A(x); for (int a = 0; a < rows; a++) for (long q = I[a]; q < I[a + 1]; q++) { if (J[q] < 0 || J[q] >= cols) { M.expect(false, "export-column", ds); break; } z[a] += D[q] * x[(int)J[q]]; }
         M.near(maxDiff(y, z) / scaleOf(y), 0, 1e-4, "export-applied", ds);
      }
      M.event("exported operator compared", ds);
   }
}
SECTION(exported) { exported(SEG, M.n(40, 300), 8, "seg"); exported(TRI, M.n(12, 100), 4, "tri"); exported(QUAD, M.n(12, 100), 6, "quad"); exported(HEX, M.n(2, 10), 4, "hex"); exported(TET, M.n(2, 10), 2, "tet"); }
HARNESS_MAIN
