// Meshes, problems and field helpers shared by the solver-level harnesses.
#pragma once
#include "common.hpp"
#include <mfem.hpp>
#ifndef EM_NO_SOLVER
#include "solver/Solver.h"
#include "components/Model.h"
#else
namespace maxwell {}
#endif

namespace em {
using namespace mon; using namespace maxwell;
using P3 = std::array<double, 3>;
inline P3 operator+(P3 a, const P3& b) { for (int i = 0; i < 3; i++) { a[i] += b[i]; } return a; }
inline P3 operator-(P3 a, const P3& b) { for (int i = 0; i < 3; i++) { a[i] -= b[i]; } return a; }
inline P3 operator*(double s, P3 a) { for (auto& x : a) { x *= s; } return a; }
inline double dot(const P3& a, const P3& b) { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]; }
inline P3 cross(const P3& a, const P3& b) { return { a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0] }; }
inline double norm(const P3& a) { return std::sqrt(dot(a, a)); }
inline P3 p3(const mfem::Vector& v) { P3 r{}; for (int i = 0; i < v.Size() && i < 3; i++) { r[i] = v[i]; } return r; }
inline P3 unit(const P3& a) { return (1.0 / norm(a)) * a; }
inline mfem::Vector vec3(const P3& p) { mfem::Vector v(3); for (int i = 0; i < 3; i++) { v[i] = p[i]; } return v; }

enum Shape { SEG, TRI, QUAD, TET, HEX };
inline const char* shapeName(Shape s) { static const char* n[] = { "seg", "tri", "quad", "tet", "hex" }; return n[s]; }
inline int shapeDim(Shape s) { return s == SEG ? 1 : s <= QUAD ? 2 : 3; }
inline int gmshType(Shape s) { static int t[] = { 1, 2, 3, 4, 5 }; return t[s]; }

struct El { std::vector<int> v; int attr = 1; };
// A plain mesh description that can be turned into the library's mesh or a Gmsh file.
struct GMesh {
   Shape shape = SEG; std::vector<P3> x; std::vector<El> el, bd;
   int dim() const { return shapeDim(shape); }
   P3 centre(const El& e) const { P3 c{}; for (int i : e.v) { c = c + x[i]; } return (1.0 / e.v.size()) * c; }
   std::vector<std::vector<int>> faceVerts(const El& e) const
   {
      auto& v = e.v; std::vector<std::vector<int>> f;
      switch (shape) {
      case SEG: f = { { v[0] }, { v[1] } }; break;
      case TRI: f = { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[0] } }; break;
      case QUAD: f = { { v[0], v[1] }, { v[1], v[2] }, { v[2], v[3] }, { v[3], v[0] } }; break;
      case TET: f = { { v[1], v[2], v[3] }, { v[0], v[3], v[2] }, { v[0], v[1], v[3] }, { v[0], v[2], v[1] } }; break;
      case HEX: f = { { v[3], v[2], v[1], v[0] }, { v[0], v[1], v[5], v[4] }, { v[1], v[2], v[6], v[5] }, { v[2], v[3], v[7], v[6] }, { v[3], v[0], v[4], v[7] }, { v[4], v[5], v[6], v[7] } }; break;
      }
      return f;
   }
   // sorted face vertices -> (vertices as seen from first element, first element, second element or -1)
   struct Face { std::vector<int> v; int e1 = -1, e2 = -1; };
   std::map<std::vector<int>, Face> faces() const
   {
      std::map<std::vector<int>, Face> m;
      for (int e = 0; e < (int)el.size(); e++) for (auto& f : faceVerts(el[e])) { auto k = f; std::sort(k.begin(), k.end()); auto it = m.find(k); if (it == m.end()) { m[k] = { f, e, -1 }; } else { it->second.e2 = e; } }
      return m;
   }
   P3 faceCentre(const Face& f) const { P3 c{}; for (int i : f.v) { c = c + x[i]; } return (1.0 / f.v.size()) * c; }
   P3 faceNormal(const Face& f) const // outward from e1, not normalised
   {
      P3 n; if (dim() == 1) { n = { 1, 0, 0 }; } else if (dim() == 2) { P3 t = x[f.v[1]] - x[f.v[0]]; n = { t[1], -t[0], 0 }; } else { n = cross(x[f.v[1]] - x[f.v[0]], x[f.v[2]] - x[f.v[0]]); }
      P3 d = faceCentre(f) - centre(el[f.e1]); if (dot(n, d) < 0) { n = -1.0 * n; } return n;
   }
   void tagExterior(std::function<int(const P3& c, const P3& n)> f) { for (auto& kv : faces()) if (kv.second.e2 < 0) { int a = f(faceCentre(kv.second), unit(faceNormal(kv.second))); if (a > 0) { bd.push_back({ kv.second.v, a }); } } }
   void tagInterior(std::function<int(const P3& c, const P3& n, int e1, int e2)> f) { for (auto& kv : faces()) if (kv.second.e2 >= 0) { int a = f(faceCentre(kv.second), unit(faceNormal(kv.second)), kv.second.e1, kv.second.e2); if (a > 0) { bd.push_back({ kv.second.v, a }); } } }
   void setAttr(std::function<int(const P3&)> f) { for (auto& e : el) { e.attr = f(centre(e)); } }
   void affine(const std::array<P3, 3>& A, const P3& b = {}) { for (auto& p : x) { p = P3{ dot(A[0], p), dot(A[1], p), dot(A[2], p) } + b; } }
   // Moves vertices strictly inside the box, except those on tagged interior faces.
   void jitter(Rng& r, double amp, const P3& h)
   {
      std::vector<char> fixed(x.size(), 0); for (auto& kv : faces()) if (kv.second.e2 < 0) { for (int i : kv.second.v) { fixed[i] = 1; } } for (auto& b : bd) for (int i : b.v) { fixed[i] = 1; }
      // keep material interfaces where they are
      for (auto& kv : faces()) if (kv.second.e2 >= 0 && el[kv.second.e1].attr != el[kv.second.e2].attr) { for (int i : kv.second.v) { fixed[i] = 1; } }
      for (size_t i = 0; i < x.size(); i++) if (!fixed[i]) { for (int d = 0; d < dim(); d++) { x[i][d] += amp * h[d] * r.uni(-1, 1); } }
   }
   // Renumbers vertices, elements and boundary entries and rotates local vertex orders.
   void shuffle(Rng& r, bool verts = true, bool elems = true, bool local = true, bool bdr = true)
   {
      auto perm = [&](size_t n) { std::vector<int> p(n); for (size_t i = 0; i < n; i++) { p[i] = (int)i; } for (size_t i = n; i > 1; i--) { std::swap(p[i - 1], p[r.below((int)i)]); } return p; };
      if (verts) { auto p = perm(x.size()); std::vector<P3> y(x.size()); for (size_t i = 0; i < x.size(); i++) { y[p[i]] = x[i]; } x = y; for (auto* L : { &el, &bd }) for (auto& e : *L) for (auto& v : e.v) { v = p[v]; } }
      if (elems) { auto p = perm(el.size()); std::vector<El> y(el.size()); for (size_t i = 0; i < el.size(); i++) { y[p[i]] = el[i]; } el = y; }
      if (local) for (auto& e : el) {
         auto& v = e.v;
         if (shape == TRI || shape == QUAD) { std::rotate(v.begin(), v.begin() + r.below((int)v.size()), v.end()); }
         else if (shape == TET) { for (int k = r.below(3); k > 0; k--) { std::rotate(v.begin(), v.begin() + 1, v.begin() + 3); } for (int k = r.below(3); k > 0; k--) { std::rotate(v.begin() + 1, v.begin() + 2, v.end()); } }
         else if (shape == HEX) { for (int k = r.below(4); k > 0; k--) { v = { v[1], v[2], v[3], v[0], v[5], v[6], v[7], v[4] }; } for (int k = r.below(4); k > 0; k--) { v = { v[3], v[2], v[6], v[7], v[0], v[1], v[5], v[4] }; } }
      }
      if (bdr) { auto p = perm(bd.size()); std::vector<El> y(bd.size()); for (size_t i = 0; i < bd.size(); i++) { y[p[i]] = bd[i]; } bd = y; }
   }
   mfem::Mesh mfem() const
   {
      mfem::Mesh m(dim(), (int)x.size(), (int)el.size(), (int)bd.size(), dim());
      for (auto& p : x) { m.AddVertex(p[0], p[1], p[2]); }
      for (auto& e : el) { switch (shape) { case SEG: m.AddSegment(e.v.data(), e.attr); break; case TRI: m.AddTriangle(e.v.data(), e.attr); break; case QUAD: m.AddQuad(e.v.data(), e.attr); break; case TET: m.AddTet(e.v.data(), e.attr); break; case HEX: m.AddHex(e.v.data(), e.attr); break; } }
      for (auto& b : bd) { switch (b.v.size()) { case 1: m.AddBdrPoint(b.v[0], b.attr); break; case 2: m.AddBdrSegment(b.v.data(), b.attr); break; case 3: m.AddBdrTriangle(b.v.data(), b.attr); break; case 4: m.AddBdrQuad(b.v.data(), b.attr); break; } }
      m.FinalizeTopology(); m.Finalize(false, false); return m;
   }
   void gmsh(const std::string& path) const
   {
      std::ofstream o(path); o.precision(17);
      o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << x.size() << "\n"; for (size_t i = 0; i < x.size(); i++) { o << i + 1 << " " << x[i][0] << " " << x[i][1] << " " << x[i][2] << "\n"; }
      o << "$EndNodes\n$Elements\n" << el.size() + bd.size() << "\n"; int id = 1;
      for (auto& b : bd) { static int bt[] = { 0, 15, 1, 2, 3 }; o << id++ << " " << bt[b.v.size()] << " 2 " << b.attr << " " << b.attr; for (int v : b.v) { o << " " << v + 1; } o << "\n"; }
      for (auto& e : el) { o << id++ << " " << gmshType(shape) << " 2 " << e.attr << " " << e.attr; for (int v : e.v) { o << " " << v + 1; } o << "\n"; }
      o << "$EndElements\n";
   }
};

inline std::vector<double> ticks(int n, double L, double x0 = 0) { std::vector<double> t; for (int i = 0; i <= n; i++) { t.push_back(x0 + L * i / n); } return t; }
inline std::vector<double> gradedTicks(Rng& r, int n, double L, double grade, double x0 = 0) { std::vector<double> w(n); double s = 0; for (auto& q : w) { q = std::exp(r.uni(-grade, grade)); s += q; } std::vector<double> t{ x0 }; double a = 0; for (auto q : w) { a += q; t.push_back(x0 + L * a / s); } t.back() = x0 + L; return t; }

// Box mesh on tensor ticks; every cell split in simplices for TRI and TET (6 per cell, conforming).
inline GMesh box(Shape s, const std::vector<double>& tx, const std::vector<double>& ty = { 0 }, const std::vector<double>& tz = { 0 })
{
   GMesh g; g.shape = s; const int nx = (int)tx.size(), ny = s == SEG ? 1 : (int)ty.size(), nz = shapeDim(s) < 3 ? 1 : (int)tz.size();
   auto id = [&](int i, int j, int k) { return (k * ny + j) * nx + i; };
   for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { g.x.push_back({ tx[i], s == SEG ? 0.0 : ty[j], shapeDim(s) < 3 ? 0.0 : tz[k] }); }
   for (int k = 0; k < std::max(1, nz - 1); k++) for (int j = 0; j < std::max(1, ny - 1); j++) for (int i = 0; i < nx - 1; i++) {
      if (s == SEG) { g.el.push_back({ { id(i, 0, 0), id(i + 1, 0, 0) } }); continue; }
      int a = id(i, j, k), b = id(i + 1, j, k), c = id(i + 1, j + 1, k), d = id(i, j + 1, k);
      if (s == QUAD) { g.el.push_back({ { a, b, c, d } }); continue; }
      if (s == TRI) { if ((i + j) % 2) { g.el.push_back({ { a, b, c } }); g.el.push_back({ { a, c, d } }); } else { g.el.push_back({ { a, b, d } }); g.el.push_back({ { b, c, d } }); } continue; }
      int e = id(i, j, k + 1), f = id(i + 1, j, k + 1), q = id(i + 1, j + 1, k + 1), h = id(i, j + 1, k + 1);
      if (s == HEX) { g.el.push_back({ { a, b, c, d, e, f, q, h } }); continue; }
      int path[6][4] = { { a, b, c, q }, { a, c, d, q }, { a, d, h, q }, { a, h, e, q }, { a, e, f, q }, { a, f, b, q } };
      for (auto& t : path) { El x{ { t[0], t[1], t[2], t[3] } }; P3 u = g.x[t[1]] - g.x[t[0]], v = g.x[t[2]] - g.x[t[0]], w = g.x[t[3]] - g.x[t[0]]; if (dot(cross(u, v), w) < 0) { std::swap(x.v[2], x.v[3]); } g.el.push_back(x); }
   }
   return g;
}
inline GMesh box(Shape s, std::array<int, 3> n, P3 L = { 1, 1, 1 }) { return box(s, ticks(n[0], L[0]), ticks(n[1], L[1]), ticks(n[2], L[2])); }
// Exterior tag 1..6: x-,x+,y-,y+,z-,z+ by outward normal.
inline int sideTag(const P3& n) { int d = 0; for (int i = 1; i < 3; i++) if (std::abs(n[i]) > std::abs(n[d])) { d = i; } return 2 * d + (n[d] > 0 ? 2 : 1); }

#ifndef EM_NO_SOLVER
struct Setup {
   GMesh g; int order = 2; double alpha = 1.0; int basis = mfem::BasisType::GaussLobatto; EvolutionOperatorType op = Global;
   GeomTagToMaterial mats; GeomTagToBoundary bdr; GeomTagToInteriorBoundary ibdr; Sources sources; Probes probes;
   double dt = 1e-3, tf = 1e-3, cfl = 1.0; size_t ode = RK4; std::vector<SGBCProperties> sgbc; std::vector<int> part, tfsf; bool exportOp = false; std::string name = "case"; int curve = 0; double unit = 1; std::array<double, 12> bend{}; // curve: order of the geometry, bend: three waves of displacement
   std::string str() const { return fmt("%s ne=%d order=%d alpha=%g basis=%d op=%d%s", shapeName(g.shape), (int)g.el.size(), order, alpha, basis, (int)op, curve > 1 ? fmt(" curved%d", curve).c_str() : ""); }
   void curveMesh(mfem::Mesh& m) const
   {
      m.SetCurvature(curve); auto* n = m.GetNodes(); auto* f = n->FESpace(); const int dim = m.Dimension();
      for (int i = 0; i < f->GetNDofs(); i++) { P3 x{}; for (int k = 0; k < dim; k++) { x[k] = (*n)(f->DofToVDof(i, k)) / unit; } for (int k = 0; k < dim; k++) { const double* b = &bend[4 * k]; (*n)(f->DofToVDof(i, k)) += 0.06 * unit * std::sin(b[0] * x[0] + b[1] * x[1] + b[2] * x[2] + b[3]); } }
   }
   Model model(MPI_Comm comm = MPI_COMM_WORLD)
   {
      auto m = g.mfem(); if (curve > 1) { curveMesh(m); } GeomTagToMaterial mm = mats; if (mm.empty()) { std::set<int> at; for (auto& e : g.el) { at.insert(e.attr); } for (int a : at) { mm.insert({ a, buildVacuumMaterial() }); } }
      Model md(m, GeomTagToMaterialInfo(mm, GeomTagToBoundaryMaterial{}), GeomTagToBoundaryInfo(bdr, ibdr), part.empty() ? nullptr : part.data(), comm); md.meshName_ = name; if (!sgbc.empty()) { md.setSGBCProperties(sgbc); }
      if (!tfsf.empty()) { auto& at = md.getConstMesh().bdr_attributes; BoundaryMarker mk(at.Size() ? at.Max() : 0); mk = 0; for (int t : tfsf) { mk[t - 1] = 1; } md.getTotalFieldScatteredFieldToMarker().insert({ BdrCond::TotalFieldIn, mk }); }
      return md;
   }
   SolverOptions opts() const
   {
      SolverOptions o; o.setTimeStep(dt).setFinalTime(tf).setUpwindAlpha(alpha).setCFL(cfl).setOrder(order).setEvolutionOperator(op).setBasisType(basis).setODEType(ode); if (exportOp) { o.setExportEO(true); } return o;
   }
   std::unique_ptr<maxwell::Solver> solver() { return std::make_unique<maxwell::Solver>(model(), probes, sources, opts()); }
};

#endif
// Positions of all degrees of freedom of a space.
inline std::vector<P3> dofPos(mfem::FiniteElementSpace& f)
{
   std::vector<P3> r(f.GetNDofs()); mfem::Vector t(f.GetMesh()->SpaceDimension()); mfem::Array<int> d;
   for (int e = 0; e < f.GetNE(); e++) { f.GetElementDofs(e, d); auto* T = f.GetElementTransformation(e); const auto& ir = f.GetFE(e)->GetNodes(); for (int i = 0; i < d.Size(); i++) { T->Transform(ir.IntPoint(i), t); r[d[i]] = p3(t); } }
   return r;
}
inline std::vector<int> dofElem(mfem::FiniteElementSpace& f) { std::vector<int> r(f.GetNDofs()); mfem::Array<int> d; for (int e = 0; e < f.GetNE(); e++) { f.GetElementDofs(e, d); for (int i = 0; i < d.Size(); i++) { r[d[i]] = e; } } return r; }

// Element-wise exact mass matrices computed by quadrature here, independent of the code under test.
struct Mass {
   std::vector<mfem::DenseMatrix> m; std::vector<mfem::Array<int>> dofs;
   explicit Mass(mfem::FiniteElementSpace& f)
   {
      for (int e = 0; e < f.GetNE(); e++) {
         const auto* fe = f.GetFE(e); auto* T = f.GetElementTransformation(e); const auto& ir = mfem::IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + std::max(2, T->OrderW())); mfem::DenseMatrix M(fe->GetDof()); M = 0.0; mfem::Vector s(fe->GetDof());
         for (int q = 0; q < ir.GetNPoints(); q++) { const auto& ip = ir.IntPoint(q); T->SetIntPoint(&ip); fe->CalcShape(ip, s); double w = ip.weight * T->Weight(); for (int i = 0; i < s.Size(); i++) for (int j = 0; j < s.Size(); j++) { M(i, j) += w * s[i] * s[j]; } }
         m.push_back(M); dofs.emplace_back(); f.GetElementDofs(e, dofs.back());
      }
   }
   double inner(const double* a, const double* b, int e) const { double r = 0; auto& d = dofs[e]; for (int i = 0; i < d.Size(); i++) for (int j = 0; j < d.Size(); j++) { r += a[d[i]] * m[e](i, j) * b[d[j]]; } return r; }
};
#ifndef EM_NO_SOLVER
struct Energy {
   Mass M; std::vector<double> eps, mu; int n;
   Energy(mfem::FiniteElementSpace& f, const GeomTagToMaterial& mats) : M(f), n(f.GetNDofs())
   { for (int e = 0; e < f.GetNE(); e++) { auto it = mats.find(f.GetMesh()->GetAttribute(e)); eps.push_back(it == mats.end() ? 1.0 : it->second.getPermittivity()); mu.push_back(it == mats.end() ? 1.0 : it->second.getPermeability()); } }
   // <a,b> weighted by eps on E components and mu on H components
   double operator()(const mfem::Vector& a, const mfem::Vector& b) const
   { double r = 0; for (size_t e = 0; e < M.m.size(); e++) for (int c = 0; c < 6; c++) { r += (c < 3 ? eps[e] : mu[e]) * M.inner(a.GetData() + c * n, b.GetData() + c * n, (int)e); } return r; }
   double elem(const mfem::Vector& a, const mfem::Vector& b, int e) const { double r = 0; for (int c = 0; c < 6; c++) { r += (c < 3 ? eps[e] : mu[e]) * M.inner(a.GetData() + c * n, b.GetData() + c * n, e); } return r; }
};
#endif
inline mfem::Vector randomState(Rng& r, int n) { mfem::Vector v(n); for (int i = 0; i < n; i++) { v[i] = r.normal(); } return v; }
inline double maxAbs(const mfem::Vector& v) { double m = 0; for (int i = 0; i < v.Size(); i++) { double a = std::abs(v[i]); if (!(a <= m)) { m = a; } } return m; }
inline double maxDiff(const mfem::Vector& a, const mfem::Vector& b) { double m = 0; if (a.Size() != b.Size()) { return INFINITY; } for (int i = 0; i < a.Size(); i++) { double d = std::abs(a[i] - b[i]); if (!(d <= m)) { m = d; } } return m; }
inline mfem::Vector mult(mfem::TimeDependentOperator& op, const mfem::Vector& x) { mfem::Vector y(op.Height()); y = 0.0; op.Mult(x, y); return y; }

// Silences the code's own console output.
struct Quiet { std::ostringstream s; std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

inline GMesh randomBox(Rng& r, Shape s, int budget = 0, int minN = 1, int maxN = 3)
{
   int d = shapeDim(s); std::array<int, 3> n{}; P3 L{ r.uni(0.5, 2), r.uni(0.5, 2), r.uni(0.5, 2) };
   if (budget == 0) { budget = s == SEG ? 8 : s == TRI ? 9 : s == QUAD ? 9 : s == TET ? 4 : 8; }
   for (;;) { n = { r.range(minN, s == SEG ? budget : maxN), d > 1 ? r.range(minN, maxN) : 1, d > 2 ? r.range(minN, maxN) : 1 }; if (n[0] * n[1] * n[2] <= budget && n[0] * n[1] * n[2] >= 2) { break; } }
   double gr = r.coin() ? 0.6 : 0.0; GMesh g = box(s, gradedTicks(r, n[0], L[0], gr), gradedTicks(r, n[1], L[1], gr), gradedTicks(r, n[2], L[2], gr));
   return g;
}
// A non-degenerate linear map close to the identity, keeping 1D and 2D meshes in their space.
inline std::array<P3, 3> randomLinear(Rng& r, int dim, double amount)
{
   std::array<P3, 3> A{ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }; for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) { A[i][j] += amount * r.uni(-1, 1); } return A;
}
inline std::array<P3, 3> randomRotation(Rng& r, int dim)
{
   if (dim == 1) { return { P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }; }
   if (dim == 2) { double t = r.uni(0, 2 * M_PI); return { P3{ cos(t), -sin(t), 0 }, P3{ sin(t), cos(t), 0 }, P3{ 0, 0, 1 } }; }
   P3 a = r.unit(), b = r.unit(); b = unit(b - dot(a, b) * a); P3 c = cross(a, b); return { a, b, c };
}

#ifndef EM_NO_SOLVER
// What a randomly drawn problem may contain.
struct Draw {
   bool materials = true, conductive = false, interior = true, shuffle = true, distort = true, affineOnly = false, rotate = true; int maxOrder = 0, minOrder = 1, budget = 0, minN = 1, maxN = 3;
   std::vector<BdrCond> walls{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }; std::vector<double> alphas{ 0.0, 1.0, 0.5 }; std::vector<int> bases{ mfem::BasisType::GaussLobatto, mfem::BasisType::GaussLegendre };
   bool randomAlpha = true; double curved = 0;
};
inline const char* bcName(BdrCond b) { switch (b) { case BdrCond::PEC: return "PEC"; case BdrCond::PMC: return "PMC"; case BdrCond::SMA: return "SMA"; case BdrCond::SGBC: return "SGBC"; default: return "other"; } }
inline int orderCap(Shape s) { return s == SEG ? 6 : s == TRI ? 4 : s == QUAD ? 4 : s == TET ? 3 : 2; }
// Exterior sides carry tags 1..6, interior walls 7..9, element tags 1..3 (shifted by random sparse renumbering).
inline Setup randomProblem(Rng& r, Shape s, const Draw& d = {})
{
   Setup u; u.g = randomBox(r, s, d.budget, d.minN, d.maxN); const int dim = u.g.dim();
   const int nm = d.materials ? r.range(1, 3) : 1; P3 cut = r.unit(); for (int i = dim; i < 3; i++) { cut[i] = 0; }
   P3 lo{ 1e9, 1e9, 1e9 }, hi{ -1e9, -1e9, -1e9 }; for (auto& x : u.g.x) for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], x[i]); hi[i] = std::max(hi[i], x[i]); }
   P3 mid = 0.5 * (lo + hi);
   int tags[3]; tags[0] = r.coin() ? 1 : r.range(1, 7); for (int i = 1; i < 3; i++) { tags[i] = tags[i - 1] + r.range(1, r.coin() ? 1 : 5); }
   u.g.setAttr([&](const P3& c) { if (nm == 1) { return tags[0]; } double v = dot(cut, c - mid); if (r.coin(0.15)) { return tags[r.below(nm)]; } return v < 0 ? tags[0] : nm == 2 ? tags[1] : v < 0.2 ? tags[1] : tags[2]; });
   std::set<int> used; for (auto& e : u.g.el) { used.insert(e.attr); }
   for (int t : used) { if (!d.materials) { u.mats.insert({ t, buildVacuumMaterial() }); } else { double ep = r.coin(0.25) ? 1.0 : r.logu(1, 12), mu = r.coin(0.25) ? 1.0 : r.logu(1, 6), sg = d.conductive && r.coin(0.6) ? r.logu(1e-2, 20) : 0.0; u.mats.insert({ t, Material(ep, mu, sg) }); } }
   int bt[10]; bt[0] = 0; for (int i = 1; i < 10; i++) { bt[i] = bt[i - 1] + r.range(1, r.coin(0.8) ? 1 : 3); }
   u.g.tagExterior([&](const P3&, const P3& n) { return bt[sideTag(n)]; });
   std::set<int> ext; for (auto& b : u.g.bd) { ext.insert(b.attr); }
   for (int t : ext) { u.bdr.insert({ t, r.pick(d.walls) }); }
   if (d.interior && r.coin(0.6)) {
      const int kinds = r.range(1, 3); std::vector<BdrCond> k; for (int i = 0; i < kinds; i++) { k.push_back(r.pick(d.walls)); }
      const size_t before = u.g.bd.size(); u.g.tagInterior([&](const P3&, const P3&, int, int) { return r.coin(0.35) ? bt[7 + r.below(kinds)] : 0; });
      std::set<int> in; for (size_t i = before; i < u.g.bd.size(); i++) { in.insert(u.g.bd[i].attr); } for (int i = 0; i < kinds; i++) if (in.count(bt[7 + i])) { u.ibdr.insert({ bt[7 + i], k[i] }); }
   }
   if (d.distort) {
      P3 h{ 1, 1, 1 }; { double m = 1e9; for (auto& kv : u.g.faces()) for (size_t a = 0; a < kv.first.size(); a++) for (size_t b = a + 1; b < kv.first.size(); b++) { m = std::min(m, norm(u.g.x[kv.first[a]] - u.g.x[kv.first[b]])); } if (m > 1e8) { m = 0.1; for (size_t a = 1; a < u.g.x.size(); a++) { m = std::min(m, norm(u.g.x[a] - u.g.x[a - 1])); } } h = P3{ m, m, m }; }
      if (!(d.affineOnly && (s == QUAD || s == HEX)) && r.coin(0.6)) { u.g.jitter(r, 0.15, h); }
      if (dim > 1 && r.coin(0.5)) { u.g.affine(randomLinear(r, dim, 0.2)); } if (d.rotate && dim > 1 && r.coin(0.3)) { u.g.affine(randomRotation(r, dim)); }
      if (dim == 1 && r.coin(0.3)) { u.g.affine({ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, { r.uni(-3, 3), 0, 0 }); }
   }
   // one-dimensional numbering is an ordering in this code base (left to right), so it is kept
   if (d.shuffle && dim > 1 && r.coin(0.7)) { u.g.shuffle(r); }
   u.order = r.range(d.minOrder, d.maxOrder ? std::min(d.maxOrder, orderCap(s)) : orderCap(s));
   u.alpha = d.randomAlpha && r.coin(0.3) ? r.uni() : d.alphas[r.below((int)d.alphas.size())]; u.basis = d.bases[r.below((int)d.bases.size())];
   if (d.curved > 0 && dim > 1 && r.coin(d.curved)) { u.curve = r.coin(0.7) ? 2 : 3; for (auto& b : u.bend) { b = r.uni(-2, 2); } }
   return u;
}
inline std::string describe(const Setup& u)
{
   std::string t = u.str(); for (auto& m : u.mats) { t += fmt(" mat%d(%.3g,%.3g,%.3g)", m.first, m.second.getPermittivity(), m.second.getPermeability(), m.second.getConductivity()); }
   for (auto& b : u.bdr) { t += fmt(" b%d=%s", b.first, bcName(b.second)); } for (auto& b : u.ibdr) { t += fmt(" i%d=%s", b.first, bcName(b.second)); } return t;
}
// A vacuum box with a block of elements enclosed by a total-field surface; the block never touches the outside.
// Follows the documented conventions: 1D left to right, 2D scattered elements numbered first, 3D block around its centre.
struct Region { std::vector<char> tf; int tag = 0; };
inline Setup surfaceProblem(Rng& r, Shape s, Region& reg, int order, bool distort, int extra = 1)
{
   for (;;) {
      Setup u; const int dim = shapeDim(s); std::array<int, 3> n{ 1, 1, 1 }, a{}, b{}; for (int i = 0; i < dim; i++) { n[i] = 3 + r.range(0, dim == 1 ? 5 : extra); a[i] = r.range(1, n[i] - 2); b[i] = r.range(a[i], n[i] - 2); }
      std::vector<double> t[3]; for (int i = 0; i < 3; i++) { t[i] = gradedTicks(r, n[i], r.uni(0.8, 1.6), r.coin() ? 0.4 : 0.0); } u.g = box(s, t[0], t[1], t[2]); GMesh& g = u.g;
      auto inside = [&](const P3& c) { for (int i = 0; i < dim; i++) if (c[i] < t[i][a[i]] || c[i] > t[i][b[i] + 1]) { return false; } return true; };
      if (r.coin()) { g.setAttr([&](const P3& c) { return inside(c) ? 2 : 1; }); } std::vector<char> in; for (auto& e : g.el) { in.push_back(inside(g.centre(e))); }
      g.tagExterior([&](const P3&, const P3& q) { return sideTag(q); }); const int top = 2 * dim; reg.tag = top + r.range(1, 3);
      if (dim == 1) { g.bd.clear(); g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { n[0] }, 2 }); g.bd.push_back({ { a[0] }, reg.tag }); g.bd.push_back({ { b[0] + 1 }, reg.tag }); if (r.coin()) { std::swap(g.bd[2], g.bd[3]); } if (r.coin(0.3)) { std::swap(g.bd[0], g.bd[3]); } }
      else { g.tagInterior([&](const P3&, const P3&, int p, int q) { return in[p] != in[q] ? reg.tag : 0; }); }
      if (distort && dim > 1) { double m = 1e9; for (int i = 0; i < dim; i++) for (size_t k = 1; k < t[i].size(); k++) { m = std::min(m, t[i][k] - t[i][k - 1]); } if (r.coin() || s == TRI || s == TET) { g.jitter(r, 0.12, { m, m, m }); } if (r.coin()) { g.affine(randomLinear(r, dim, 0.12)); } if (r.coin(0.3)) { g.affine(randomRotation(r, dim)); } }
      std::vector<char> keep = in; std::vector<El> el; std::vector<char> nin;
      if (dim == 2) { std::vector<int> o; for (int pass = 0; pass < 2; pass++) { std::vector<int> q; for (size_t e = 0; e < g.el.size(); e++) if (in[e] == pass) { q.push_back((int)e); } for (size_t i = q.size(); i > 1; i--) { std::swap(q[i - 1], q[r.below((int)i)]); } for (int e : q) { o.push_back(e); } } for (int e : o) { el.push_back(g.el[e]); nin.push_back(in[e]); } g.el = el; in = nin; if (r.coin()) { g.shuffle(r, true, false, true, true); } }
      if ((dim == 3 && r.coin()) || (dim == 1 && r.coin(0.4))) { std::vector<int> o(g.el.size()); for (size_t i = 0; i < o.size(); i++) { o[i] = (int)i; } for (size_t i = o.size(); i > 1; i--) { std::swap(o[i - 1], o[r.below((int)i)]); } for (int e : o) { el.push_back(g.el[e]); nin.push_back(in[e]); } g.el = el; in = nin; g.shuffle(r, true, false, dim == 3, true); }
      if (dim == 3) { // the geometric rule needs a convex region: the centre of the surface on the inner side of every face
         std::set<int> vs; for (auto& q : g.bd) if (q.attr == reg.tag) { for (int v : q.v) { vs.insert(v); } } P3 c{}; for (int v : vs) { c = c + g.x[v]; } c = (1.0 / vs.size()) * c; bool ok = true;
         for (auto& kv : g.faces()) { auto& f = kv.second; if (f.e2 < 0 || in[f.e1] == in[f.e2]) { continue; } P3 m = g.faceCentre(f), k = unit(g.faceNormal(f)); if (dot(k, g.centre(g.el[in[f.e1] ? f.e1 : f.e2]) - m) < 0) { k = -1.0 * k; } if (!(dot(k, c - m) > 1e-3)) { ok = false; } } if (!ok) { continue; }
      }
      reg.tf = in; u.tfsf = { reg.tag }; u.order = order; for (int i = 1; i <= top; i++) { u.bdr.insert({ i, r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }) }); } return u;
   }
}
// Everything an evolution operator needs, kept alive together.
struct Evo {
   Setup& u; Model model; mfem::DG_FECollection fec; std::unique_ptr<mfem::ParFiniteElementSpace> fes; Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction> fields; SourcesManager sm; Probes probes; EvolutionOptions opts; std::unique_ptr<ProblemDescription> pd; std::unique_ptr<mfem::TimeDependentOperator> op;
   explicit Evo(Setup& s, EvolutionOperatorType type) : u(s), model(s.model()), fec(s.order, model.getMesh().Dimension(), s.basis), fes(std::make_unique<mfem::ParFiniteElementSpace>(&model.getMesh(), &fec)), fields(*fes), sm(s.sources, *fes, fields), opts(s.opts().evolution)
   {
      opts.op = type; Quiet q;
      if (type == Global) { op = std::make_unique<GlobalEvolution>(*fes, model, sm, opts); }
      else if (type == Maxwell) { pd = std::make_unique<ProblemDescription>(model, probes, sm.sources, opts); op = std::make_unique<MaxwellEvolution>(*pd, *fes, sm); }
      else { op = std::make_unique<HesthavenEvolution>(*fes, model, sm, opts); }
   }
   mfem::Vector operator()(const mfem::Vector& x) { Quiet q; mfem::Vector y(op->Height()); y = 1e300; op->Mult(x, y); return y; }
   int n() const { return op->Height(); }
};
inline const char* opName(EvolutionOperatorType t) { return t == Maxwell ? "maxwell" : t == Global ? "global" : "hesthaven"; }
#endif
// Random polynomial of total degree <= p in the first dim coordinates, scaled to the unit box around c.
struct Poly {
   std::vector<std::array<int, 3>> e; std::vector<double> c; P3 o{}; double s = 1;
   Poly() = default;
   Poly(Rng& r, int dim, int p, P3 org, double scale) : o(org), s(scale) { for (int i = 0; i <= p; i++) for (int j = 0; j <= (dim > 1 ? p - i : 0); j++) for (int k = 0; k <= (dim > 2 ? p - i - j : 0); k++) { e.push_back({ i, j, k }); c.push_back(r.uni(-1, 1)); } }
   static double pw(double b, int n) { double v = 1; for (int i = 0; i < n; i++) { v *= b; } return v; }
   double operator()(const P3& x) const { P3 y = s * (x - o); double v = 0; for (size_t i = 0; i < e.size(); i++) { v += c[i] * pw(y[0], e[i][0]) * pw(y[1], e[i][1]) * pw(y[2], e[i][2]); } return v; }
   double d(const P3& x, int a) const { P3 y = s * (x - o); double v = 0; for (size_t i = 0; i < e.size(); i++) { if (!e[i][a]) { continue; } auto q = e[i]; double f = q[a]; q[a]--; v += c[i] * f * pw(y[0], q[0]) * pw(y[1], q[1]) * pw(y[2], q[2]); } return v * s; }
};
} // namespace em
