// Finite elements, quadrature, transformations, spaces, grid functions, integrators and forms of the MFEM stand-in.
#include "mfem.hpp"
#include <numeric>

namespace mfem {

const int Geometry::NumBdrArray[] = { 0, 2, 3, 4, 4, 6, 5, 5 };
const char* Geometry::Name[] = { "Point", "Segment", "Triangle", "Square", "Tetrahedron", "Cube", "Prism", "Pyramid" };
const double Geometry::Volume[] = { 1.0, 1.0, 0.5, 1.0, 1. / 6, 1.0, 0.5, 1. / 3 };
const int Geometry::Dimension[] = { 0, 1, 2, 2, 3, 3, 3, 3 };
const int Geometry::DimStart[] = { POINT, SEGMENT, TRIANGLE, TETRAHEDRON, NUM_GEOMETRIES };
const int Geometry::NumVerts[] = { 1, 2, 3, 4, 4, 8, 6, 5 };
const int Geometry::NumEdges[] = { 0, 1, 3, 4, 6, 12, 9, 8 };
const int Geometry::NumFaces[] = { 0, 0, 1, 1, 4, 6, 5, 5 };
Geometry Geometries;
IntegrationRules IntRules, RefinedIntRules;

// ------------------------------------------------------------------ quadrature
static void legendre(int n, double x, double& p, double& dp)
{
   double p0 = 1, p1 = x; if (n == 0) { p = 1; dp = 0; return; }
   for (int k = 2; k <= n; k++) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
   p = p1; dp = n * (x * p1 - p0) / (x * x - 1);
}
void shim_gauss_legendre(int n, std::vector<double>& x, std::vector<double>& w)
{
   x.resize(n); w.resize(n);
   for (int i = 0; i < n; i++) {
      double z = std::cos(M_PI * (n - i - 0.25) / (n + 0.5)), p, dp;
      if (n == 1) { z = 0; }
      for (int it = 0; it < 100; it++) { legendre(n, z, p, dp); double d = p / dp; z -= d; if (std::abs(d) < 1e-16) { break; } }
      if (n == 1) { z = 0; dp = 1; } else { legendre(n, z, p, dp); }
      x[i] = 0.5 * (1 + z); w[i] = 1.0 / ((1 - z * z) * dp * dp);
   }
   for (int i = 0; i < n / 2; i++) { double a = 0.5 * (x[i] + 1 - x[n - 1 - i]); x[i] = a; x[n - 1 - i] = 1 - a; }
   if (n % 2) { x[n / 2] = 0.5; }
}
void shim_gauss_lobatto(int n, std::vector<double>& x, std::vector<double>& w)
{
   x.resize(n); w.resize(n);
   if (n == 1) { x[0] = 0.5; w[0] = 1.0; return; }
   const int N = n - 1; x[0] = 0; x[N] = 1; w[0] = w[N] = 1.0 / (N * (N + 1.0));
   for (int i = 1; i < N; i++) {
      double z = -std::cos(M_PI * i / N);
      for (int it = 0; it < 100; it++) {
         // root of P_N'(z): f = P_N', f' from Legendre's equation
         double p, dp; legendre(N, z, p, dp); double ddp = (2 * z * dp - N * (N + 1.0) * p) / (1 - z * z);
         double d = dp / ddp; z -= d; if (std::abs(d) < 1e-16) { break; }
      }
      double p, dp; legendre(N, z, p, dp); x[i] = 0.5 * (1 + z); w[i] = 1.0 / (N * (N + 1.0) * p * p);
   }
   for (int i = 0; i < n / 2; i++) { double a = 0.5 * (x[i] + 1 - x[N - i]); x[i] = a; x[N - i] = 1 - a; }
   if (n % 2) { x[n / 2] = 0.5; }
}
static void fill1d(const std::vector<double>& x, const std::vector<double>& w, IntegrationRule* ir) { ir->SetSize((int)x.size()); for (int i = 0; i < ir->Size(); i++) { (*ir)[i].Init(i); (*ir)[i].Set1w(x[i], w[i]); } }
void QuadratureFunctions1D::GaussLegendre(const int np, IntegrationRule* ir) { std::vector<double> x, w; shim_gauss_legendre(np, x, w); fill1d(x, w, ir); ir->SetOrder(2 * np - 1); }
void QuadratureFunctions1D::GaussLobatto(const int np, IntegrationRule* ir) { std::vector<double> x, w; shim_gauss_lobatto(np, x, w); fill1d(x, w, ir); ir->SetOrder(np > 1 ? 2 * np - 3 : 1); }
const IntegrationRule& IntegrationRules::Get(int geom, int order)
{
   if (order < 0) { order = 0; }
   auto key = std::make_pair(geom, order); auto it = cache.find(key);
   if (it != cache.end()) { return *it->second; }
   auto ir = std::make_unique<IntegrationRule>(); ir->SetOrder(order);
   std::vector<double> x, w, xa, wa, xb, wb; shim_gauss_legendre(order / 2 + 1, x, w); const int n = (int)x.size();
   auto push = [&](double a, double b, double c, double ww) { IntegrationPoint p; p.Init(ir->Size()); p.x = a; p.y = b; p.z = c; p.weight = ww; ir->Append(p); };
   switch (geom) {
      case Geometry::POINT: push(0, 0, 0, 1); break;
      case Geometry::SEGMENT: for (int i = 0; i < n; i++) { push(x[i], 0, 0, w[i]); } break;
      case Geometry::SQUARE: for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { push(x[i], x[j], 0, w[i] * w[j]); } break;
      case Geometry::CUBE: for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { push(x[i], x[j], x[k], w[i] * w[j] * w[k]); } break;
      case Geometry::TRIANGLE:
         if (order <= 1) { push(1. / 3, 1. / 3, 0, 0.5); break; }
         if (order == 2) { push(1. / 6, 1. / 6, 0, 1. / 6); push(1. / 6, 2. / 3, 0, 1. / 6); push(2. / 3, 1. / 6, 0, 1. / 6); break; }
         shim_gauss_legendre((order + 1) / 2 + 1, xa, wa);
         for (std::size_t a = 0; a < xa.size(); a++) for (int b = 0; b < n; b++) { push(xa[a], x[b] * (1 - xa[a]), 0, wa[a] * w[b] * (1 - xa[a])); }
         break;
      case Geometry::TETRAHEDRON:
         if (order <= 1) { push(0.25, 0.25, 0.25, 1. / 6); break; }
         shim_gauss_legendre((order + 2) / 2 + 1, xa, wa); shim_gauss_legendre((order + 1) / 2 + 1, xb, wb);
         for (std::size_t a = 0; a < xa.size(); a++) for (std::size_t b = 0; b < xb.size(); b++) for (int c = 0; c < n; c++) {
            const double A = xa[a], B = xb[b] * (1 - A), C = x[c] * (1 - A - B);
            push(A, B, C, wa[a] * wb[b] * w[c] * (1 - A) * (1 - A) * (1 - xb[b]));
         }
         break;
      default: mfem_error("IntegrationRules: geometry not provided");
   }
   auto& slot = cache[key]; slot = std::move(ir); return *slot;
}

// ------------------------------------------------------------------ finite elements
int NodalFiniteElement::ndofs(Geometry::Type g, int p)
{
   switch (g) {
      case Geometry::POINT: return 1; case Geometry::SEGMENT: return p + 1; case Geometry::TRIANGLE: return (p + 1) * (p + 2) / 2; case Geometry::SQUARE: return (p + 1) * (p + 1);
      case Geometry::TETRAHEDRON: return (p + 1) * (p + 2) * (p + 3) / 6; case Geometry::CUBE: return (p + 1) * (p + 1) * (p + 1); default: mfem_error("geometry not provided");
   }
}
std::vector<std::array<int, 3>> NodalFiniteElement::lex(Geometry::Type g, int p)
{
   std::vector<std::array<int, 3>> r;
   switch (g) {
      case Geometry::SEGMENT: for (int i = 0; i <= p; i++) { r.push_back({ i, 0, 0 }); } break;
      case Geometry::SQUARE: for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) { r.push_back({ i, j, 0 }); } break;
      case Geometry::CUBE: for (int k = 0; k <= p; k++) for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) { r.push_back({ i, j, k }); } break;
      case Geometry::TRIANGLE: for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++) { r.push_back({ i, j, 0 }); } break;
      case Geometry::TETRAHEDRON: for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++) { r.push_back({ i, j, k }); } break;
      default: mfem_error("geometry not provided");
   }
   return r;
}
NodalFiniteElement::NodalFiniteElement(Geometry::Type g, int p, const std::vector<double>& pts1d, const std::vector<int>* perm, int map)
   : pts(pts1d)
{
   geom = g; dim = Geometry::Dimension[g]; order = p; map_type = map; tensor = g == Geometry::SEGMENT || g == Geometry::SQUARE || g == Geometry::CUBE;
   func_space = (g == Geometry::SQUARE || g == Geometry::CUBE) ? FunctionSpace::Qk : FunctionSpace::Pk;
   auto L = lex(g, p); dof = (int)L.size(); ijk.resize(dof);
   for (int k = 0; k < dof; k++) { ijk[k] = L[perm ? (*perm)[k] : k]; }
   Nodes = IntegrationRule(dof);
   for (int n = 0; n < dof; n++) {
      auto [i, j, k] = ijk[n]; double X = 0, Y = 0, Z = 0;
      if (tensor) { X = pts[i]; if (dim > 1) { Y = pts[j]; } if (dim > 2) { Z = pts[k]; } }
      else if (g == Geometry::TRIANGLE) { double w = pts[i] + pts[j] + pts[p - i - j]; X = pts[i] / w; Y = pts[j] / w; }
      else { double w = pts[i] + pts[j] + pts[k] + pts[p - i - j - k]; X = pts[i] / w; Y = pts[j] / w; Z = pts[k] / w; }
      Nodes[n].Init(n); Nodes[n].Set3(X, Y, Z);
   }
   if (!tensor) {
      DenseMatrix V(dof); std::vector<double> u;
      for (int n = 0; n < dof; n++) { modal(Nodes[n], u, nullptr); for (int m = 0; m < dof; m++) { V(n, m) = u[m]; } }
      V.Invert(); Vinv = V;
   }
}
static void cheb(int p, double x, std::vector<double>& u, std::vector<double>& d)
{
   u.assign(p + 1, 0.0); d.assign(p + 1, 0.0); const double z = 2 * x - 1; u[0] = 1;
   if (p > 0) { u[1] = z; d[1] = 2; }
   for (int n = 1; n < p; n++) { u[n + 1] = 2 * z * u[n] - u[n - 1]; d[n + 1] = (n + 1) * (z * d[n] / n + 2 * u[n]); }
}
void NodalFiniteElement::modal(const IntegrationPoint& ip, std::vector<double>& u, std::vector<double>* du) const
{
   static thread_local std::vector<double> ux, dx, uy, dy, uz, dz, ul, dl;
   const int p = order; u.resize(dof); if (du) { du->resize(std::size_t(dof) * dim); }
   cheb(p, ip.x, ux, dx); cheb(p, ip.y, uy, dy); int o = 0;
   if (dim == 2) {
      cheb(p, 1 - ip.x - ip.y, ul, dl);
      for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++, o++) {
         const int l = p - i - j; u[o] = ux[i] * uy[j] * ul[l];
         if (du) { (*du)[o] = (dx[i] * ul[l] - ux[i] * dl[l]) * uy[j]; (*du)[o + dof] = (dy[j] * ul[l] - uy[j] * dl[l]) * ux[i]; }
      }
   } else {
      cheb(p, ip.z, uz, dz); cheb(p, 1 - ip.x - ip.y - ip.z, ul, dl);
      for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++, o++) {
         const int l = p - i - j - k; u[o] = ux[i] * uy[j] * uz[k] * ul[l];
         if (du) {
            (*du)[o] = (dx[i] * ul[l] - ux[i] * dl[l]) * uy[j] * uz[k];
            (*du)[o + dof] = (dy[j] * ul[l] - uy[j] * dl[l]) * ux[i] * uz[k];
            (*du)[o + 2 * dof] = (dz[k] * ul[l] - uz[k] * dl[l]) * ux[i] * uy[j];
         }
      }
   }
}
static void lagr(const std::vector<double>& p, double x, std::vector<double>& s, std::vector<double>* d)
{
   const int n = (int)p.size(); s.assign(n, 1.0); if (d) { d->assign(n, 0.0); }
   for (int i = 0; i < n; i++) {
      double v = 1, dv = 0;
      for (int j = 0; j < n; j++) { if (j == i) { continue; } const double c = 1.0 / (p[i] - p[j]); dv = dv * (x - p[j]) * c + v * c; v *= (x - p[j]) * c; }
      s[i] = v; if (d) { (*d)[i] = dv; }
   }
}
void NodalFiniteElement::CalcShape(const IntegrationPoint& ip, Vector& shape) const
{
   if (shape.Size() < dof) { shim_memory_violation("CalcShape: shape vector too small", dof, shape.Size()); }
   static thread_local std::vector<double> a, b, c, u;
   if (tensor) {
      lagr(pts, ip.x, a, nullptr); if (dim > 1) { lagr(pts, ip.y, b, nullptr); } if (dim > 2) { lagr(pts, ip.z, c, nullptr); }
      for (int n = 0; n < dof; n++) { shape(n) = a[ijk[n][0]] * (dim > 1 ? b[ijk[n][1]] : 1.0) * (dim > 2 ? c[ijk[n][2]] : 1.0); }
      return;
   }
   modal(ip, u, nullptr);
   for (int n = 0; n < dof; n++) { double s = 0; for (int m = 0; m < dof; m++) { s += u[m] * Vinv(m, n); } shape(n) = s; }
}
void NodalFiniteElement::CalcDShape(const IntegrationPoint& ip, DenseMatrix& ds) const
{
   if (ds.Height() < dof || ds.Width() < dim) { shim_memory_violation("CalcDShape: matrix too small", dof, ds.Height()); }
   static thread_local std::vector<double> a, b, c, da, db, dc, u, du;
   if (tensor) {
      lagr(pts, ip.x, a, &da); if (dim > 1) { lagr(pts, ip.y, b, &db); } if (dim > 2) { lagr(pts, ip.z, c, &dc); }
      for (int n = 0; n < dof; n++) {
         auto [i, j, k] = ijk[n]; const double B = dim > 1 ? b[j] : 1.0, C = dim > 2 ? c[k] : 1.0;
         ds(n, 0) = da[i] * B * C; if (dim > 1) { ds(n, 1) = a[i] * db[j] * C; } if (dim > 2) { ds(n, 2) = a[i] * B * dc[k]; }
      }
      return;
   }
   modal(ip, u, &du);
   for (int d = 0; d < dim; d++) for (int n = 0; n < dof; n++) { double s = 0; for (int m = 0; m < dof; m++) { s += du[std::size_t(d) * dof + m] * Vinv(m, n); } ds(n, d) = s; }
}
PointFiniteElement::PointFiniteElement() { geom = Geometry::POINT; dim = 0; dof = 1; order = 0; Nodes = IntegrationRule(1); }
void FiniteElement::CalcPhysShape(ElementTransformation& T, Vector& shape) const { CalcShape(T.GetIntPoint(), shape); if (map_type == INTEGRAL) { shape /= T.Weight(); } }
void FiniteElement::CalcPhysDShape(ElementTransformation& T, DenseMatrix& ds) const { DenseMatrix v(dof, dim); CalcDShape(T.GetIntPoint(), v); Mult(v, T.InverseJacobian(), ds); }
void FiniteElement::Project(Coefficient& c, ElementTransformation& T, Vector& dofs) const { for (int i = 0; i < dof; i++) { T.SetIntPoint(&Nodes[i]); dofs(i) = c.Eval(T, Nodes[i]); if (map_type == INTEGRAL) { dofs(i) *= T.Weight(); } } }

static std::vector<double> points1d(int p, int btype)
{
   std::vector<double> x, w;
   switch (btype) {
      case BasisType::GaussLegendre: shim_gauss_legendre(p + 1, x, w); break;
      case BasisType::GaussLobatto: shim_gauss_lobatto(p + 1, x, w); break;
      case BasisType::OpenUniform: for (int i = 0; i <= p; i++) { x.push_back((i + 1.0) / (p + 2.0)); } break;
      case BasisType::ClosedUniform: if (p == 0) { x.push_back(0.5); } else { for (int i = 0; i <= p; i++) { x.push_back(double(i) / p); } } break;
      case BasisType::OpenHalfUniform: for (int i = 0; i <= p; i++) { x.push_back((i + 0.5) / (p + 1.0)); } break;
      default: mfem_error("basis type not provided by the stand-in");
   }
   return x;
}
static const char btypechar[] = { 'g', 'G', 'P', 'u', 'U', 'o', 'S', 'r', 'i' };
L2_FECollection::L2_FECollection(const int p, const int dim, const int btype, const int map) : b_type(btype), m_type(map), dim_(dim)
{
   MFEM_VERIFY(p >= 0, "L2_FECollection requires order >= 0."); MFEM_VERIFY(dim >= 0 && dim <= 3, "L2_FECollection: dim"); BasisType::Check(btype); base_p = p;
   std::ostringstream s; const char* pre = map == FiniteElement::VALUE ? "L2" : "L2Int";
   if (btype == BasisType::GaussLegendre) { s << pre << "_" << dim << "D_P" << p; } else { s << pre << "_T" << btype << "_" << dim << "D_P" << p; }
   name_ = s.str(); (void)btypechar;
   points1d(p, btype);
}
const FiniteElement* L2_FECollection::FiniteElementForGeometry(Geometry::Type g) const
{
   auto& e = fes[g];
   if (!e) { if (g == Geometry::POINT) { e = std::make_unique<PointFiniteElement>(); } else { e = std::make_unique<NodalFiniteElement>(g, base_p, points1d(base_p, b_type), nullptr, m_type); } }
   return e.get();
}
int L2_FECollection::DofForGeometry(Geometry::Type g) const { return Geometry::Dimension[g] == dim_ ? NodalFiniteElement::ndofs(g, base_p) : 0; }

// lattice weights of the element's vertices at a node (integers, proportional to the vertex shape functions)
static std::vector<int> vertexWeights(Geometry::Type g, int p, const std::array<int, 3>& t)
{
   const int i = t[0], j = t[1], k = t[2], a = p - i, b = p - j, c = p - k;
   switch (g) {
      case Geometry::SEGMENT: return { a, i };
      case Geometry::TRIANGLE: return { p - i - j, i, j };
      case Geometry::SQUARE: return { a * b, i * b, i * j, a * j };
      case Geometry::TETRAHEDRON: return { p - i - j - k, i, j, k };
      case Geometry::CUBE: return { a * b * c, i * b * c, i * j * c, a * j * c, a * b * k, i * b * k, i * j * k, a * j * k };
      default: return { 1 };
   }
}
static const int tetE[6][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
static const int hexE[12][2] = { { 0, 1 }, { 1, 2 }, { 3, 2 }, { 0, 3 }, { 4, 5 }, { 5, 6 }, { 7, 6 }, { 4, 7 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } };
static const int triE[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 } };
static const int quadE[4][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } };
static const int segE[1][2] = { { 0, 1 } };
static const int (*edgeTable(Geometry::Type g))[2] { switch (g) { case Geometry::TRIANGLE: return triE; case Geometry::SQUARE: return quadE; case Geometry::TETRAHEDRON: return tetE; case Geometry::CUBE: return hexE; default: return segE; } }
static std::vector<int> h1perm(Geometry::Type g, int p)
{
   auto L = NodalFiniteElement::lex(g, p); std::vector<std::vector<double>> key(L.size()); std::vector<int> perm(L.size()); std::iota(perm.begin(), perm.end(), 0);
   const int ne = Geometry::NumEdges[g]; auto E = edgeTable(g);
   for (std::size_t n = 0; n < L.size(); n++) {
      auto w = vertexWeights(g, p, L[n]); std::vector<int> nz; for (std::size_t v = 0; v < w.size(); v++) { if (w[v]) { nz.push_back((int)v); } }
      if (nz.size() == 1) { key[n] = { 0.0, double(nz[0]) }; }
      else if (nz.size() == 2) { int e = 0; for (; e < ne; e++) { if ((E[e][0] == nz[0] && E[e][1] == nz[1]) || (E[e][0] == nz[1] && E[e][1] == nz[0])) { break; } } key[n] = { 1.0, double(e), double(w[E[e][1]]) / (w[E[e][0]] + w[E[e][1]]) }; }
      else { key[n] = { 1.0 + double(nz.size()) }; for (int v : nz) { key[n].push_back(v); } key[n].push_back(double(n)); }
   }
   std::stable_sort(perm.begin(), perm.end(), [&](int a, int b) { return key[a] < key[b]; });
   return perm;
}
H1_FECollection::H1_FECollection(const int p, const int dim, const int btype) : b_type(btype), dim_(dim)
{
   MFEM_VERIFY(p >= 1, "H1_FECollection requires order >= 1."); base_p = p; std::ostringstream s;
   if (btype == BasisType::GaussLobatto) { s << "H1_" << dim << "D_P" << p; } else { s << "H1@" << btypechar[btype] << "_" << dim << "D_P" << p; }
   name_ = s.str();
}
const FiniteElement* H1_FECollection::FiniteElementForGeometry(Geometry::Type g) const
{
   auto& e = fes[g];
   if (!e) { if (g == Geometry::POINT) { e = std::make_unique<PointFiniteElement>(); } else { auto pm = h1perm(g, base_p); e = std::make_unique<NodalFiniteElement>(g, base_p, points1d(base_p, b_type), &pm); } }
   return e.get();
}
int H1_FECollection::DofForGeometry(Geometry::Type g) const
{
   const int p = base_p;
   switch (g) { case Geometry::POINT: return 1; case Geometry::SEGMENT: return p - 1; case Geometry::TRIANGLE: return (p - 1) * (p - 2) / 2; case Geometry::SQUARE: return (p - 1) * (p - 1); case Geometry::TETRAHEDRON: return (p - 1) * (p - 2) * (p - 3) / 6; case Geometry::CUBE: return (p - 1) * (p - 1) * (p - 1); default: return 0; }
}
FiniteElementCollection* FiniteElementCollection::New(const char* name)
{
   int d, p, t;
   if (std::sscanf(name, "L2_T%d_%dD_P%d", &t, &d, &p) == 3) { return new L2_FECollection(p, d, t); }
   if (std::sscanf(name, "L2_%dD_P%d", &d, &p) == 2) { return new L2_FECollection(p, d); }
   if (std::sscanf(name, "H1_%dD_P%d", &d, &p) == 2) { return new H1_FECollection(p, d); }
   if (std::string(name) == "Linear") { return new H1_FECollection(1, 3); }
   if (std::string(name) == "Quadratic") { return new H1_FECollection(2, 3); }
   MFEM_ABORT("unknown FiniteElementCollection: " << name);
}
/// geometry element of a straight/curved element: H1 nodal of order k
const FiniteElement* shim_geometry_fe(Geometry::Type g, int k)
{
   static std::map<std::pair<int, int>, std::unique_ptr<FiniteElement>> c; auto& e = c[{ g, k }];
   if (!e) { if (g == Geometry::POINT) { e = std::make_unique<PointFiniteElement>(); } else { auto pm = h1perm(g, k); e = std::make_unique<NodalFiniteElement>(g, k, points1d(k, BasisType::GaussLobatto), &pm); } }
   return e.get();
}

const IntegrationPoint& Geometry::GetCenter(int g) const
{
   static std::map<int, IntegrationPoint> c; auto it = c.find(g); if (it != c.end()) { return it->second; }
   IntegrationPoint p; p.Init(0); switch (g) { case POINT: break; case SEGMENT: p.Set3(.5, 0, 0); break; case TRIANGLE: p.Set3(1. / 3, 1. / 3, 0); break; case SQUARE: p.Set3(.5, .5, 0); break; case TETRAHEDRON: p.Set3(.25, .25, .25); break; default: p.Set3(.5, .5, .5); } return c[g] = p;
}
const IntegrationRule* Geometry::GetVertices(int g) const { return &shim_geometry_fe((Geometry::Type)g, 1)->GetNodes(); }

// ------------------------------------------------------------------ transformations
void ElementTransformation::Transform(const IntegrationRule& ir, DenseMatrix& tr) { Vector v; tr.SetSize(GetSpaceDim(), ir.Size()); for (int i = 0; i < ir.Size(); i++) { Transform(ir[i], v); for (int d = 0; d < v.Size(); d++) { tr(d, i) = v(d); } } }
const DenseMatrix& ElementTransformation::Jacobian() { if (!(EvalState & JAC)) { if (!IntPoint) { shim_memory_violation("ElementTransformation: no integration point set", 0, 0); } EvalJacobian(); EvalState |= JAC; } return dFdx; }
double ElementTransformation::Weight() { if (!(EvalState & WGT)) { Jacobian(); Wght = dFdx.Width() == 0 ? 1.0 : dFdx.Weight(); EvalState |= WGT; } return Wght; }
const DenseMatrix& ElementTransformation::AdjugateJacobian() { if (!(EvalState & ADJ)) { Jacobian(); adjJ.SetSize(dFdx.Width(), dFdx.Height()); if (dFdx.Width()) { CalcAdjugate(dFdx, adjJ); } EvalState |= ADJ; } return adjJ; }
const DenseMatrix& ElementTransformation::InverseJacobian() { if (!(EvalState & INV)) { Jacobian(); CalcInverse(dFdx, invJ); EvalState |= INV; } return invJ; }
int ElementTransformation::TransformBack(const Vector& pt, IntegrationPoint& ip, const double)
{
   const int d = GetDimension(), sd = GetSpaceDim(); const IntegrationPoint* old = IntPoint; Vector x(sd); int rc = 2;
   IntegrationPoint q; q.Init(0);
   switch (geom) { case Geometry::TRIANGLE: q.Set3(1. / 3, 1. / 3, 0); break; case Geometry::TETRAHEDRON: q.Set3(.25, .25, .25); break; default: q.Set3(.5, d > 1 ? .5 : 0, d > 2 ? .5 : 0); }
   double scale = 0;
   for (int it = 0; it < 50; it++) {
      Transform(q, x); SetIntPoint(&q); DenseMatrix inv; CalcInverse(Jacobian(), inv); double upd = 0; double r[3];
      for (int i = 0; i < sd; i++) { r[i] = pt(i) - x(i); }
      for (int i = 0; i < d; i++) { double s = 0; for (int j = 0; j < sd; j++) { s += inv(i, j) * r[j]; } upd = std::max(upd, std::abs(s)); if (i == 0) { q.x += s; } else if (i == 1) { q.y += s; } else { q.z += s; } }
      scale = std::max({ std::abs(q.x), std::abs(q.y), std::abs(q.z) });
      if (!(scale < 1e3)) { break; }
      if (upd < 1e-14) { rc = 0; break; }
      rc = upd < 1e-10 ? 0 : 2;
   }
   SetIntPoint(old);
   if (rc) { return rc; }
   ip.x = q.x; ip.y = q.y; ip.z = q.z;
   const double tol = 1e-8; bool in;
   switch (geom) {
      case Geometry::SEGMENT: in = q.x >= -tol && q.x <= 1 + tol; break;
      case Geometry::SQUARE: in = q.x >= -tol && q.x <= 1 + tol && q.y >= -tol && q.y <= 1 + tol; break;
      case Geometry::TRIANGLE: in = q.x >= -tol && q.y >= -tol && q.x + q.y <= 1 + tol; break;
      case Geometry::TETRAHEDRON: in = q.x >= -tol && q.y >= -tol && q.z >= -tol && q.x + q.y + q.z <= 1 + tol; break;
      default: in = q.x >= -tol && q.x <= 1 + tol && q.y >= -tol && q.y <= 1 + tol && q.z >= -tol && q.z <= 1 + tol;
   }
   return in ? 0 : 1;
}
void IsoparametricTransformation::EvalJacobian()
{
   dFdx.SetSize(PointMat.Height(), Geometry::Dimension[geom]);
   if (dFdx.Width() == 0) { return; }
   dshape.SetSize(FElem->GetDof(), FElem->GetDim()); FElem->CalcDShape(*IntPoint, dshape); Mult(PointMat, dshape, dFdx);
}
void IsoparametricTransformation::Transform(const IntegrationPoint& ip, Vector& v)
{
   shape.SetSize(FElem->GetDof()); v.SetSize(PointMat.Height()); FElem->CalcShape(ip, shape); PointMat.Mult(shape, v);
}
void IsoparametricTransformation::SetIdentityTransformation(Geometry::Type g)
{
   SetFE(shim_geometry_fe(g, 1)); const int d = Geometry::Dimension[g]; PointMat.SetSize(d, FElem->GetDof());
   for (int i = 0; i < FElem->GetDof(); i++) { double c[3]; FElem->GetNodes()[i].Get(c, d > 0 ? d : 1); for (int k = 0; k < d; k++) { PointMat(k, i) = c[k]; } }
}
int IsoparametricTransformation::OrderJ() const { return FElem->Space() == FunctionSpace::Qk ? FElem->GetOrder() : std::max(0, FElem->GetOrder() - 1); }
int IsoparametricTransformation::OrderW() const { const int d = Geometry::Dimension[geom]; if (d == 0) { return 0; } return FElem->Space() == FunctionSpace::Qk ? FElem->GetOrder() * d - 1 : (FElem->GetOrder() - 1) * d; }
int IsoparametricTransformation::OrderGrad(const FiniteElement* fe) const { const int k = FElem->GetOrder(), d = Geometry::Dimension[geom], l = fe->GetOrder(); return fe->Space() == FunctionSpace::Qk ? k * (d - 1) + (l - 1) : (k - 1) * (d - 1) + (l - 1); }
void IntegrationPointTransformation::Transform(const IntegrationPoint& a, IntegrationPoint& b)
{
   Vector v; Transf.Transform(a, v); b.Init(a.index); b.x = v.Size() > 0 ? v(0) : 0; b.y = v.Size() > 1 ? v(1) : 0; b.z = v.Size() > 2 ? v(2) : 0; b.weight = a.weight;
}
void FaceElementTransformations::SetAllIntPoints(const IntegrationPoint* ip)
{
   ElementTransformation::SetIntPoint(ip);
   if ((mask & HAVE_ELEM1) && Elem1) { Loc1.Transform(*ip, eip1); Elem1->SetIntPoint(&eip1); }
   if ((mask & HAVE_ELEM2) && Elem2) { Loc2.Transform(*ip, eip2); Elem2->SetIntPoint(&eip2); }
}

// ------------------------------------------------------------------ coefficients
double PWConstCoefficient::Eval(ElementTransformation& T, const IntegrationPoint&) { return constants(T.Attribute - 1); }
double FunctionCoefficient::Eval(ElementTransformation& T, const IntegrationPoint& ip) { double x[3]; Vector tp(x, 3); T.Transform(ip, tp); return Function ? Function(tp) : TDFunction(tp, GetTime()); }
double GridFunctionCoefficient::Eval(ElementTransformation& T, const IntegrationPoint& ip) { return GridF->GetValue(T, ip, Component); }
void VectorFunctionCoefficient::Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) { double x[3]; Vector tp(x, 3); T.Transform(ip, tp); V.SetSize(vdim); if (Function) { Function(tp, V); } else { TDFunction(tp, GetTime(), V); } }
VectorGridFunctionCoefficient::VectorGridFunctionCoefficient(const GridFunction* g) : VectorCoefficient(g ? g->VectorDim() : 0), gf(g) {}
void VectorGridFunctionCoefficient::Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) { gf->GetVectorValue(T, ip, V); }

// ------------------------------------------------------------------ spaces
FiniteElementSpace::FiniteElementSpace(const FiniteElementSpace& o, Mesh* m, const FiniteElementCollection* f) : mesh(m ? m : o.mesh), fec(f ? f : o.fec), vdim(o.vdim), ordering(o.ordering) { build(); }
void FiniteElementSpace::build()
{
   elem_dofs.assign(mesh->GetNE(), {}); ndofs = 0; elem_dof_table.reset(); restr.clear();
   if (IsDGSpace()) { for (int e = 0; e < mesh->GetNE(); e++) { const int n = GetFE(e)->GetDof(); elem_dofs[e].resize(n); std::iota(elem_dofs[e].begin(), elem_dofs[e].end(), ndofs); ndofs += n; } return; }
   // H1: vertices, then edges, faces, interiors, each in order of first appearance
   std::map<std::vector<std::pair<int, int>>, int> id; const int p = fec->GetOrder(); ndofs = mesh->GetNV();
   std::vector<std::vector<std::vector<std::pair<int, int>>>> keys(mesh->GetNE());
   for (int e = 0; e < mesh->GetNE(); e++) {
      auto* fe = dynamic_cast<const NodalFiniteElement*>(GetFE(e)); const int* v = mesh->GetElement(e)->GetVertices(); keys[e].resize(fe->GetDof()); elem_dofs[e].assign(fe->GetDof(), -1);
      for (int n = 0; n < fe->GetDof(); n++) {
         auto w = vertexWeights(fe->GetGeomType(), p, fe->lattice(n)); int g = 0; for (int x : w) { g = std::gcd(g, x); }
         auto& k = keys[e][n]; for (std::size_t i = 0; i < w.size(); i++) { if (w[i]) { k.emplace_back(v[i], w[i] / g); } }
         std::sort(k.begin(), k.end()); if (k.size() == 1) { elem_dofs[e][n] = k[0].first; }
      }
   }
   for (std::size_t s = 2; s <= 8; s++) for (int e = 0; e < mesh->GetNE(); e++) for (std::size_t n = 0; n < keys[e].size(); n++) {
      if (keys[e][n].size() != s) { continue; }
      auto k = keys[e][n];
      if ((int)s == Geometry::NumVerts[mesh->GetElementGeometry(e)]) { k.emplace_back(-1 - e, 0); } // element interior
      auto it = id.find(k); if (it == id.end()) { it = id.emplace(k, ndofs++).first; } elem_dofs[e][n] = it->second;
   }
}
int FiniteElementSpace::GetNVDofs() const { return IsDGSpace() ? 0 : mesh->GetNV(); }
DofTransformation* FiniteElementSpace::GetElementDofs(int e, Array<int>& d) const { SHIM_CHECK(e, (int)elem_dofs.size(), "FiniteElementSpace::GetElementDofs") d.SetSize((int)elem_dofs[e].size()); for (int i = 0; i < d.Size(); i++) { d[i] = elem_dofs[e][i]; } return nullptr; }
void FiniteElementSpace::DofsToVDofs(Array<int>& d) const
{
   if (vdim == 1) { return; }
   const int n = d.Size(); Array<int> o(n * vdim); for (int v = 0; v < vdim; v++) for (int i = 0; i < n; i++) { o[v * n + i] = DofToVDof(d[i], v); } d = o;
}
DofTransformation* FiniteElementSpace::GetElementVDofs(int e, Array<int>& d) const { GetElementDofs(e, d); DofsToVDofs(d); return nullptr; }
void FiniteElementSpace::GetBdrElementDofs(int be, Array<int>& d) const
{
   d.SetSize(0); if (IsDGSpace()) { return; }
   Array<int> v; mesh->GetBdrElementVertices(be, v); if (mesh->Dimension() == 1) { d.Append(v[0]); return; }
   // dofs of the adjacent element lying on the face
   int el, info; mesh->GetBdrElementAdjacentElement(be, el, info); auto* fe = dynamic_cast<const NodalFiniteElement*>(GetFE(el)); const int* ev = mesh->GetElement(el)->GetVertices();
   for (int n = 0; n < fe->GetDof(); n++) { auto w = vertexWeights(fe->GetGeomType(), fec->GetOrder(), fe->lattice(n)); bool on = true; for (std::size_t i = 0; i < w.size(); i++) { if (w[i] && v.Find(ev[i]) < 0) { on = false; } } if (on) { d.Append(elem_dofs[el][n]); } }
}
void FiniteElementSpace::GetEssentialTrueDofs(const Array<int>& mk, Array<int>& ess, int) const
{
   std::set<int> s; Array<int> d; for (int b = 0; b < mesh->GetNBE(); b++) { if (mk[mesh->GetBdrAttribute(b) - 1]) { GetBdrElementDofs(b, d); for (int x : d) { s.insert(x); } } }
   ess.SetSize(0); for (int x : s) { ess.Append(x); }
}
const Table& FiniteElementSpace::GetElementToDofTable() const { if (!elem_dof_table) { elem_dof_table = std::make_unique<Table>((int)elem_dofs.size()); elem_dof_table->raw() = elem_dofs; } return *elem_dof_table; }
namespace {
class Restr : public Operator { const FiniteElementSpace& f; std::vector<int> idx; public: Restr(const FiniteElementSpace& fs) : Operator(0, fs.GetVSize()), f(fs) { Array<int> d; for (int e = 0; e < fs.GetNE(); e++) { fs.GetElementVDofs(e, d); for (int x : d) { idx.push_back(x); } } height = (int)idx.size(); } void Mult(const Vector& x, Vector& y) const override { (void)f; for (std::size_t i = 0; i < idx.size(); i++) { y((int)i) = x(idx[i]); } } };
}
const Operator* FiniteElementSpace::GetElementRestriction(ElementDofOrdering) const { restr.push_back(std::make_unique<Restr>(*this)); return restr.back().get(); }
void FiniteElementSpace::Save(std::ostream& os) const { os << "FiniteElementSpace\nFiniteElementCollection: " << fec->Name() << "\nVDim: " << vdim << "\nOrdering: " << int(ordering) << "\n"; }
FiniteElementCollection* FiniteElementSpace::Load(Mesh* m, std::istream& in)
{
   std::string buff; in >> std::ws; std::getline(in, buff); filter_dos(buff); MFEM_VERIFY(buff == "FiniteElementSpace", "input stream is not a FiniteElementSpace!");
   std::getline(in, buff, ' '); in >> std::ws; std::getline(in, buff); filter_dos(buff); auto* f = FiniteElementCollection::New(buff.c_str());
   int vd, ord; std::getline(in, buff, ' '); in >> vd; in >> std::ws; std::getline(in, buff, ' '); in >> ord;
   in.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
   MFEM_VERIFY(in.good() || in.eof(), "FiniteElementSpace::Load: bad input");
   mesh = m; fec = f; vdim = vd; ordering = (Ordering::Type)ord; build(); return f;
}

// ------------------------------------------------------------------ grid functions
GridFunction::GridFunction(Mesh* m, std::istream& in)
{
   fes = new FiniteElementSpace; fec_raw = fes->Load(m, in); fes_owned.reset(fes);
   in >> std::ws; Vector::Load(in, fes->GetVSize());
   MFEM_VERIFY(!in.fail(), "GridFunction: truncated input");
}
static void requireDofs(const FiniteElementSpace* f, int i) { if (!f) { shim_memory_violation("GridFunction without a space", 0, 0); } SHIM_CHECK(i, f->GetNE(), "GridFunction element") }
double GridFunction::GetValue(int i, const IntegrationPoint& ip, int vd) const
{
   requireDofs(fes, i); Array<int> d; fes->GetElementDofs(i, d); const auto* fe = fes->GetFE(i); Vector s(fe->GetDof());
   if (fe->GetMapType() == FiniteElement::VALUE) { fe->CalcShape(ip, s); } else { auto* T = fes->GetElementTransformation(i); T->SetIntPoint(&ip); fe->CalcPhysShape(*T, s); }
   double r = 0; for (int k = 0; k < d.Size(); k++) { r += s(k) * (*this)(fes->DofToVDof(d[k], vd - 1)); } return r;
}
double GridFunction::GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp, Vector*) const
{
   if (T.ElementType == ElementTransformation::BDR_FACE || T.ElementType == ElementTransformation::FACE || T.ElementType == ElementTransformation::BDR_ELEMENT) {
      auto* ft = dynamic_cast<FaceElementTransformations*>(&T);
      if (ft) { IntegrationPoint q; ft->Loc1.Transform(ip, q); return GetValue(ft->Elem1No, q, comp > 0 ? comp : 1); }
      int f = T.ElementType == ElementTransformation::BDR_ELEMENT ? fes->GetMesh()->GetBdrElementFaceIndex(T.ElementNo) : T.ElementNo;
      FaceElementTransformations F; IsoparametricTransformation a, b; fes->GetMesh()->GetFaceElementTransformations(f, F, a, b, 31);
      Vector x; T.Transform(ip, x); IntegrationPoint q; a.TransformBack(x, q); return GetValue(F.Elem1No, q, comp > 0 ? comp : 1);
   }
   return GetValue(T.ElementNo, ip, comp > 0 ? comp : 1);
}
void GridFunction::GetVectorValue(int i, const IntegrationPoint& ip, Vector& v) const { v.SetSize(fes->GetVDim()); for (int k = 0; k < fes->GetVDim(); k++) { v(k) = GetValue(i, ip, k + 1); } }
void GridFunction::GetVectorValue(ElementTransformation& T, const IntegrationPoint& ip, Vector& v, Vector*) const { v.SetSize(fes->GetVDim()); for (int k = 0; k < fes->GetVDim(); k++) { v(k) = GetValue(T, ip, k + 1); } }
void GridFunction::GetValues(int i, const IntegrationRule& ir, Vector& v, int vd) const { v.SetSize(ir.Size()); for (int k = 0; k < ir.Size(); k++) { v(k) = GetValue(i, ir[k], vd); } }
void GridFunction::GetNodalValues(int i, Array<double>& nv, int vd) const
{
   const Geometry::Type g = fes->GetMesh()->GetElementGeometry(i); const auto* fe = [&] { extern const FiniteElement* shim_geometry_fe(Geometry::Type, int); return shim_geometry_fe(g, 1); }();
   nv.SetSize(fe->GetDof()); for (int k = 0; k < nv.Size(); k++) { nv[k] = GetValue(i, fe->GetNodes()[k], vd); }
}
void GridFunction::GetNodalValues(Vector& nv, int vd) const
{
   Array<int> v; Array<double> a; Array<int> ov(fes->GetMesh()->GetNV()); nv.SetSize(fes->GetMesh()->GetNV()); nv = 0.0; ov = 0;
   for (int i = 0; i < fes->GetNE(); i++) { fes->GetMesh()->GetElementVertices(i, v); GetNodalValues(i, a, vd); for (int j = 0; j < v.Size(); j++) { nv(v[j]) += a[j]; ov[v[j]]++; } }
   for (int i = 0; i < nv.Size(); i++) { if (ov[i]) { nv(i) /= ov[i]; } }
}
void GridFunction::GetGradient(ElementTransformation& T, Vector& g) const
{
   const auto* fe = fes->GetFE(T.ElementNo); DenseMatrix ds(fe->GetDof(), fe->GetDim()); fe->CalcDShape(T.GetIntPoint(), ds); Array<int> d; fes->GetElementDofs(T.ElementNo, d); Vector lv, gh(fe->GetDim()); GetSubVector(d, lv);
   ds.MultTranspose(lv, gh); const auto& inv = T.InverseJacobian(); g.SetSize(inv.Width()); inv.MultTranspose(gh, g);
}
void GridFunction::GetElementDofValues(int el, Vector& v) const { Array<int> d; fes->GetElementVDofs(el, d); GetSubVector(d, v); }
void GridFunction::ProjectCoefficient(Coefficient& c)
{
   Array<int> d; Vector v;
   for (int e = 0; e < fes->GetNE(); e++) { fes->GetElementDofs(e, d); const auto* fe = fes->GetFE(e); auto* T = fes->GetElementTransformation(e); v.SetSize(fe->GetDof()); fe->Project(c, *T, v); for (int k = 0; k < d.Size(); k++) { (*this)(fes->DofToVDof(d[k], 0)) = v(k); } }
}
void GridFunction::ProjectCoefficient(Coefficient& c, Array<int>& dofs, int vd)
{
   Array<int> d; for (int e = 0; e < fes->GetNE(); e++) { fes->GetElementDofs(e, d); const auto* fe = fes->GetFE(e); auto* T = fes->GetElementTransformation(e); for (int k = 0; k < d.Size(); k++) { if (dofs.Find(d[k]) >= 0) { const auto& ip = fe->GetNodes()[k]; T->SetIntPoint(&ip); (*this)(fes->DofToVDof(d[k], vd)) = c.Eval(*T, ip); } } }
}
void GridFunction::ProjectCoefficient(VectorCoefficient& c)
{
   Array<int> d; Vector v;
   for (int e = 0; e < fes->GetNE(); e++) { fes->GetElementDofs(e, d); const auto* fe = fes->GetFE(e); auto* T = fes->GetElementTransformation(e); for (int k = 0; k < d.Size(); k++) { const auto& ip = fe->GetNodes()[k]; T->SetIntPoint(&ip); c.Eval(v, *T, ip); for (int j = 0; j < fes->GetVDim(); j++) { (*this)(fes->DofToVDof(d[k], j)) = v(j); } } }
}
void GridFunction::ProjectBdrCoefficient(Coefficient& c, const Array<int>& attr) { Array<int> ess; fes->GetEssentialTrueDofs(attr, ess); ProjectCoefficient(c, ess); }
double GridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule**, const Array<int>*) const
{
   double err2 = 0; for (int e = 0; e < fes->GetNE(); e++) { const auto* fe = fes->GetFE(e); const auto& ir = IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 3); auto* T = fes->GetElementTransformation(e); for (int q = 0; q < ir.Size(); q++) { T->SetIntPoint(&ir[q]); const double w = T->Weight(); const double df = GetValue(e, ir[q]) - c.Eval(*T, ir[q]); err2 += ir[q].weight * w * df * df; } }
   return std::sqrt(std::abs(err2));
}
double GridFunction::ComputeMaxError(Coefficient& c) const
{
   double m = 0; for (int e = 0; e < fes->GetNE(); e++) { const auto* fe = fes->GetFE(e); const auto& ir = IntRules.Get(fe->GetGeomType(), 2 * fe->GetOrder() + 3); auto* T = fes->GetElementTransformation(e); for (int q = 0; q < ir.Size(); q++) { T->SetIntPoint(&ir[q]); m = std::max(m, std::abs(GetValue(e, ir[q]) - c.Eval(*T, ir[q]))); } } return m;
}
void GridFunction::Save(std::ostream& os) const { fes->Save(os); os << '\n'; if (fes->GetOrdering() == Ordering::byNODES) { Vector::Print(os, 1); } else { Vector::Print(os, fes->GetVDim()); } os.flush(); }
std::ostream& operator<<(std::ostream& os, const GridFunction& g) { g.Save(os); return os; }

// ------------------------------------------------------------------ integrators
const IntegrationRule& MassIntegrator::GetRule(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T) { return IntRules.Get(a.GetGeomType(), a.GetOrder() + b.GetOrder() + T.OrderW()); }
void MassIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m)
{
   const int n = el.GetDof(); Vector s(n); m.SetSize(n); m = 0.0; const auto* ir = IntRule ? IntRule : &GetRule(el, el, T);
   for (int q = 0; q < ir->Size(); q++) { const auto& ip = (*ir)[q]; T.SetIntPoint(&ip); el.CalcPhysShape(T, s); double w = T.Weight() * ip.weight; if (Q) { w *= Q->Eval(T, ip); } AddMult_a_VVt(w, s, m); }
}
void MassIntegrator::AssembleElementMatrix2(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T, DenseMatrix& m)
{
   Vector a(tr.GetDof()), b(te.GetDof()); m.SetSize(te.GetDof(), tr.GetDof()); m = 0.0; const auto* ir = IntRule ? IntRule : &GetRule(tr, te, T);
   for (int q = 0; q < ir->Size(); q++) { const auto& ip = (*ir)[q]; T.SetIntPoint(&ip); tr.CalcPhysShape(T, a); te.CalcPhysShape(T, b); double w = T.Weight() * ip.weight; if (Q) { w *= Q->Eval(T, ip); } AddMult_a_VWt(w, b, a, m); }
}
void DerivativeIntegrator::AssembleElementMatrix2(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T, DenseMatrix& m)
{
   const int dim = tr.GetDim(), nr = tr.GetDof(), ne = te.GetDof(), sd = T.GetSpaceDim(); m.SetSize(ne, nr); m = 0.0; DenseMatrix ds(nr, dim), dxt(nr, sd), inv; Vector s(ne), dxi(nr);
   int ord = tr.Space() == FunctionSpace::Pk ? tr.GetOrder() + te.GetOrder() - 1 : tr.GetOrder() + te.GetOrder() + dim;
   const auto* ir = IntRule ? IntRule : &IntRules.Get(tr.GetGeomType(), ord);
   for (int q = 0; q < ir->Size(); q++) {
      const auto& ip = (*ir)[q]; tr.CalcDShape(ip, ds); T.SetIntPoint(&ip); double w = T.Weight(); const auto& J = T.InverseJacobian(); Mult(ds, J, dxt); te.CalcShape(ip, s);
      for (int l = 0; l < nr; l++) { dxi(l) = dxt(l, xi); } s *= Q->Eval(T, ip) * w * ip.weight; AddMultVWt(s, dxi, m);
   }
}
void ConvectionIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m)
{
   const int n = el.GetDof(), d = el.GetDim(); m.SetSize(n); m = 0.0; DenseMatrix ds(n, d), dx(n, T.GetSpaceDim()); Vector s(n), b(n), v; const auto* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), T.OrderGrad(&el) + T.Order() + el.GetOrder() + 1);
   for (int q = 0; q < ir->Size(); q++) { const auto& ip = (*ir)[q]; el.CalcDShape(ip, ds); el.CalcShape(ip, s); T.SetIntPoint(&ip); Mult(ds, T.InverseJacobian(), dx); Q->Eval(v, T, ip); dx.Mult(v, b); b *= alpha * ip.weight * T.Weight(); AddMultVWt(s, b, m); }
}
void DGTraceIntegrator::AssembleFaceMatrix(const FiniteElement& el1, const FiniteElement& el2, FaceElementTransformations& T, DenseMatrix& m)
{
   const int dim = el1.GetDim(), n1 = el1.GetDof(), n2 = T.Elem2No >= 0 ? el2.GetDof() : 0; Vector vu(dim), nor(dim), s1(n1), s2(n2); m.SetSize(n1 + n2); m = 0.0;
   const IntegrationRule* ir = IntRule;
   if (!ir) { int o; if (T.Elem2No >= 0) { o = std::min(T.Elem1->OrderW(), T.Elem2->OrderW()) + 2 * std::max(el1.GetOrder(), el2.GetOrder()); } else { o = T.Elem1->OrderW() + 2 * el1.GetOrder(); } if (el1.Space() == FunctionSpace::Pk) { o++; } ir = &IntRules.Get(T.GetGeometryType(), o); }
   for (int p = 0; p < ir->Size(); p++) {
      const auto& ip = (*ir)[p]; T.SetAllIntPoints(&ip); const auto& e1 = T.GetElement1IntPoint(); const auto& e2 = T.GetElement2IntPoint(); el1.CalcShape(e1, s1); u->Eval(vu, *T.Elem1, e1);
      if (dim == 1) { nor(0) = 2 * e1.x - 1.0; } else { CalcOrtho(T.Jacobian(), nor); }
      double un = vu * nor, a = 0.5 * alpha * un, b = beta * std::abs(un);
      if (rho) { double rp; if (un >= 0 && n2) { rp = rho->Eval(*T.Elem2, e2); } else { rp = rho->Eval(*T.Elem1, e1); } a *= rp; b *= rp; }
      double w = ip.weight * (a + b); if (w != 0.0) { for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) { m(i, j) += w * s1(i) * s1(j); } }
      if (n2) {
         el2.CalcShape(e2, s2);
         if (w != 0.0) for (int i = 0; i < n2; i++) for (int j = 0; j < n1; j++) { m(n1 + i, j) -= w * s2(i) * s1(j); }
         w = ip.weight * (b - a);
         if (w != 0.0) { for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) { m(n1 + i, n1 + j) += w * s2(i) * s2(j); } for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) { m(i, n1 + j) -= w * s1(i) * s2(j); } }
      }
   }
}
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
   Vector s(el.GetDof()); v.SetSize(el.GetDof()); v = 0.0; const auto* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
   for (int q = 0; q < ir->Size(); q++) { const auto& ip = (*ir)[q]; T.SetIntPoint(&ip); const double val = T.Weight() * Q.Eval(T, ip); el.CalcPhysShape(T, s); v.Add(ip.weight * val, s); }
}
void BoundaryLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
   Vector s(el.GetDof()); v.SetSize(el.GetDof()); v = 0.0; const auto* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
   for (int q = 0; q < ir->Size(); q++) { const auto& ip = (*ir)[q]; T.SetIntPoint(&ip); const double val = T.Weight() * Q.Eval(T, ip); el.CalcShape(ip, s); v.Add(ip.weight * val, s); }
}

// ------------------------------------------------------------------ forms
static bool on(const Array<int>* mk, int attr) { return !mk || (*mk)[attr - 1] != 0; }
BilinearForm::BilinearForm(BilinearForm&& o) : Operator(o.height, o.width), fes(o.fes), mat(o.mat), domain(std::move(o.domain)), bdr(std::move(o.bdr)), intface(std::move(o.intface)), bdrface(std::move(o.bdrface)), intbdrface(std::move(o.intbdrface)) { o.mat = nullptr; o.domain.clear(); o.bdr.clear(); o.intface.clear(); o.bdrface.clear(); o.intbdrface.clear(); }
BilinearForm::~BilinearForm()
{
   delete mat; std::set<BilinearFormIntegrator*> s; for (auto* l : { &domain, &bdr, &intface, &bdrface, &intbdrface }) for (auto& t : *l) { s.insert(t.i); } for (auto* i : s) { delete i; }
}
void BilinearForm::Assemble(int skip)
{
   AllocMat(); Mesh* mesh = fes->GetMesh(); Array<int> v2;
   for (auto* l : { &domain, &bdr }) for (auto& t : *l) { if (t.marker) { const int need = l == &domain ? (mesh->attributes.Size() ? mesh->attributes.Max() : 0) : (mesh->bdr_attributes.Size() ? mesh->bdr_attributes.Max() : 0); MFEM_ASSERT(t.marker->Size() == need, "invalid element marker"); } }
   if (!domain.empty()) for (int e = 0; e < fes->GetNE(); e++) {
      const int a = mesh->GetAttribute(e); fes->GetElementVDofs(e, vdofs); auto* T = fes->GetElementTransformation(e);
      for (auto& t : domain) { if (on(t.marker, a)) { t.i->AssembleElementMatrix(*fes->GetFE(e), *T, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); } }
   }
   if (!bdr.empty()) for (int b = 0; b < mesh->GetNBE(); b++) {
      fes->GetBdrElementDofs(b, vdofs); auto* T = fes->GetBdrElementTransformation(b);
      for (auto& t : bdr) { if (on(t.marker, mesh->GetBdrAttribute(b))) { t.i->AssembleElementMatrix(*fes->GetBE(b), *T, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); } }
   }
   if (!intface.empty()) {
      Array<int> f2b = mesh->GetFaceToBdrElMap();
      for (int f = 0; f < mesh->GetNumFaces(); f++) {
         if (!mesh->FaceIsInterior(f)) { continue; }
         for (auto& t : intface) {
            if (t.marker && f2b[f] >= 0) { const int a = mesh->GetBdrAttribute(f2b[f]); if (a - 1 < t.marker->Size() && (*t.marker)[a - 1]) { continue; } }
            auto* T = mesh->GetInteriorFaceTransformations(f); fes->GetElementVDofs(T->Elem1No, vdofs); fes->GetElementVDofs(T->Elem2No, v2); vdofs.Append(v2);
            t.i->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
         }
      }
      assembleShared(skip);
   }
   if (!bdrface.empty()) for (int b = 0; b < mesh->GetNBE(); b++) {
      const int a = mesh->GetBdrAttribute(b);
      for (auto& t : bdrface) {
         if (!on(t.marker, a)) { continue; }
         auto* T = mesh->GetBdrFaceTransformations(b); if (!T) { break; }
         fes->GetElementVDofs(T->Elem1No, vdofs); const auto* fe = fes->GetFE(T->Elem1No); t.i->AssembleFaceMatrix(*fe, *fe, *T, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
      }
   }
   if (!intbdrface.empty()) for (int b = 0; b < mesh->GetNBE(); b++) {
      const int a = mesh->GetBdrAttribute(b);
      for (auto& t : intbdrface) {
         if (!on(t.marker, a)) { continue; }
         auto* T = mesh->GetInternalBdrFaceTransformations(b); if (!T || T->Elem2No < 0) { break; }
         fes->GetElementVDofs(T->Elem1No, vdofs); fes->GetElementVDofs(T->Elem2No, v2); vdofs.Append(v2);
         t.i->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
      }
   }
}
LinearForm::~LinearForm() { std::set<LinearFormIntegrator*> s; for (auto* l : { &domain, &bdr, &bdrface, &intbdrface, &intface }) for (auto& t : *l) { s.insert(t.i); } for (auto* i : s) { delete i; } }
void LinearForm::Assemble()
{
   Vector::operator=(0.0); Mesh* mesh = fes->GetMesh(); Array<int> vd, v2; Vector ev;
   if (!domain.empty()) for (int e = 0; e < fes->GetNE(); e++) { fes->GetElementVDofs(e, vd); auto* T = fes->GetElementTransformation(e); for (auto& t : domain) { if (on(t.marker, mesh->GetAttribute(e))) { t.i->AssembleRHSElementVect(*fes->GetFE(e), *T, ev); AddElementVector(vd, ev); } } }
   if (!bdr.empty()) for (int b = 0; b < mesh->GetNBE(); b++) { fes->GetBdrElementDofs(b, vd); auto* T = fes->GetBdrElementTransformation(b); for (auto& t : bdr) { if (on(t.marker, mesh->GetBdrAttribute(b))) { t.i->AssembleRHSElementVect(*fes->GetBE(b), *T, ev); AddElementVector(vd, ev); } } }
   if (!bdrface.empty()) for (int b = 0; b < mesh->GetNBE(); b++) {
      for (auto& t : bdrface) {
         if (!on(t.marker, mesh->GetBdrAttribute(b))) { continue; }
         auto* T = mesh->GetBdrFaceTransformations(b); if (!T) { break; }
         fes->GetElementVDofs(T->Elem1No, vd); t.i->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *T, ev); AddElementVector(vd, ev);
      }
   }
   if (!intbdrface.empty()) for (int b = 0; b < mesh->GetNBE(); b++) {
      for (auto& t : intbdrface) {
         if (!on(t.marker, mesh->GetBdrAttribute(b))) { continue; }
         auto* T = mesh->GetInternalBdrFaceTransformations(b); if (!T || T->Elem2No < 0) { break; }
         fes->GetElementVDofs(T->Elem1No, vd); fes->GetElementVDofs(T->Elem2No, v2); vd.Append(v2); t.i->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, ev); AddElementVector(vd, ev);
      }
   }
}

// ------------------------------------------------------------------ data collections
static void makeDirs(const std::string& p);
void DataCollection::Save()
{
   const std::string dir = prefix_path + name + "_" + to_padded_string(cycle < 0 ? 0 : cycle, 6); makeDirs(dir); const std::string suffix = dynamic_cast<ParMesh*>(mesh) ? "." + to_padded_string(shim_mpi_rank(), 6) : "";
   if (mesh) { std::ofstream f(dir + "/mesh" + suffix); f.precision(precision); mesh->Print(f); } for (auto& kv : field_map) { std::ofstream f(dir + "/" + kv.first + suffix); f.precision(precision); kv.second->Save(f); }
}
void ParaViewDataCollection::Save()
{
   const std::string dir = prefix_path + name + "/Cycle" + to_padded_string(cycle < 0 ? 0 : cycle, 6); makeDirs(dir);
   std::ofstream f(dir + "/proc" + to_padded_string(shim_mpi_rank(), 6) + ".vtu"); f.precision(17);
   f << "time " << time << "\ncycle " << cycle << "\n"; for (auto& kv : field_map) { f << "field " << kv.first << " " << kv.second->Size() << "\n"; kv.second->Vector::Print(f, 1); }
   std::ofstream p(prefix_path + name + "/" + name + ".pvd", std::ios::app); p.precision(17); p << "<DataSet timestep=\"" << time << "\" file=\"Cycle" << to_padded_string(cycle < 0 ? 0 : cycle, 6) << "\"/>\n";
}
} // namespace mfem
#include <filesystem>
namespace mfem { static void makeDirs(const std::string& p) { std::error_code ec; std::filesystem::create_directories(p, ec); } }
