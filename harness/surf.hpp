// Surface records written and evaluated independently of the code under test.
#pragma once
#include "case.hpp"
#include "components/RCSSurfacePostProcessor.h"
#include "components/RCSManager.h"
#include <complex>
namespace em {
using Cx = std::complex<double>;
static const int NTFF = 201;
using Fields6 = std::array<mfem::Vector, 6>;

// Fields on the elements behind a surface, one frame per recorded instant.
struct Record {
   GMesh g; int order = 1, basis = mfem::BasisType::GaussLobatto; std::vector<double> t; std::vector<Fields6> f;
   int dim() const { return g.dim(); }
   int ndofs() const { auto m = g.mfem(); mfem::DG_FECollection c(order, dim(), basis); mfem::FiniteElementSpace s(&m, &c); return s.GetNDofs(); }
   std::vector<char> bytes() const
   {
      std::vector<char> b; auto put = [&](const void* p, size_t n) { auto* c = (const char*)p; b.insert(b.end(), c, c + n); }; auto m = g.mfem(); mfem::DG_FECollection c(order, dim(), basis); mfem::FiniteElementSpace s(&m, &c);
      std::vector<double> pos, nor, w; int nb = 0; for (int be = 0; be < m.GetNBE(); be++) { nb++; if (m.GetBdrAttribute(be) != NTFF) { continue; } auto* T = m.GetBdrFaceTransformations(be); const auto& ir = mfem::IntRules.Get(T->GetGeometryType(), 2 * (order + T->Order())); for (int q = 0; q < ir.GetNPoints(); q++) { auto& ip = ir.IntPoint(q); T->SetAllIntPoints(&ip); mfem::Vector x(dim()), n(dim()); T->Face->Transform(ip, x); mfem::CalcOrtho(T->Jacobian(), n); for (int d = 0; d < dim(); d++) { pos.push_back(x[d]); } for (int d = 0; d < 3; d++) { nor.push_back(d < dim() ? n[d] / T->Weight() : 0.0); } w.push_back(ip.weight * T->Weight()); } }
      int32_t h[5] = { dim(), s.GetNDofs(), nb, (int)w.size(), basis }; put(h, sizeof h); put(pos.data(), 8 * pos.size()); put(nor.data(), 8 * nor.size()); put(w.data(), 8 * w.size());
      for (size_t k = 0; k < t.size(); k++) { put(&t[k], 8); for (auto& v : f[k]) { put(v.GetData(), 8 * (size_t)v.Size()); } } return b;
   }
   std::vector<P3> points() const { auto b = bytes(); int32_t h[5]; memcpy(h, b.data(), sizeof h); std::vector<P3> r(h[3]); for (int i = 0; i < h[3]; i++) { r[i] = P3{ 0, 0, 0 }; memcpy(&r[i][0], b.data() + 20 + 8 * (size_t)i * h[0], 8 * h[0]); } return r; }
   size_t frameBytes() const { return 8 + 48 * (size_t)ndofs(); }
   size_t headBytes() const { return bytes().size() - t.size() * frameBytes(); }
   void write(const std::string& rankDir, long cut = -1) const
   {
      std::filesystem::create_directories(rankDir); auto m = g.mfem(); m.Save(rankDir + "/mesh", 17); auto b = bytes(); std::ofstream o(rankDir + "/surface_data.bin", std::ios::binary); o.write(b.data(), cut < 0 ? (long)b.size() : cut);
   }
   // Folders of grid functions, as the near-field probe writes them.
   void writeFolders(const std::string& rankDir) const
   {
      std::filesystem::create_directories(rankDir); auto m = g.mfem(); m.Save(rankDir + "/mesh", 17); mfem::DG_FECollection c(order, dim(), basis); mfem::FiniteElementSpace s(&m, &c); static const char* nm[6] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
      for (size_t k = 0; k < t.size(); k++) { const std::string d = rankDir + "/ntff_" + mfem::to_padded_string((int)k, 6); std::filesystem::create_directories(d); { std::ofstream o(d + "/time.txt"); o.precision(17); o << t[k]; } for (int a = 0; a < 6; a++) { mfem::GridFunction gf(&s); for (int i = 0; i < gf.Size(); i++) { gf[i] = f[k][a][i]; } std::ofstream o(d + "/" + nm[a] + ".gf"); o.precision(17); gf.Save(o); } }
   }
   // The part of the record that lives on the elements chosen by keep.
   Record part(std::function<bool(int)> keep) const
   {
      Record q; q.order = order; q.basis = basis; q.t = t; q.g.shape = g.shape; std::vector<int> els, vmap(g.x.size(), -1); for (size_t e = 0; e < g.el.size(); e++) if (keep((int)e)) { els.push_back((int)e); }
      for (int e : els) { El x = g.el[e]; for (auto& v : x.v) { if (vmap[v] < 0) { vmap[v] = (int)q.g.x.size(); q.g.x.push_back(g.x[v]); } v = vmap[v]; } q.g.el.push_back(x); }
      std::map<std::set<int>, int> owner; { auto fs = g.faces(); for (auto& kv : fs) { owner[std::set<int>(kv.second.v.begin(), kv.second.v.end())] = kv.second.e1; } } for (auto& b : g.bd) { auto it = owner.find(std::set<int>(b.v.begin(), b.v.end())); if (it != owner.end() && keep(it->second)) { El x = b; for (auto& v : x.v) { v = vmap[v]; } q.g.bd.push_back(x); } }
      // whatever is cut open becomes an unmarked boundary
      std::set<std::set<int>> tagged; for (auto& b : q.g.bd) { tagged.insert(std::set<int>(b.v.begin(), b.v.end())); } auto fs = q.g.faces(); for (auto& kv : fs) if (kv.second.e2 < 0 && !tagged.count(std::set<int>(kv.second.v.begin(), kv.second.v.end()))) { q.g.bd.push_back({ kv.second.v, 1 }); }
      auto m = g.mfem(), mm = q.g.mfem(); mfem::DG_FECollection c(order, dim(), basis); mfem::FiniteElementSpace s(&m, &c), ss(&mm, &c); for (auto& fr : f) { Fields6 o; for (int a = 0; a < 6; a++) { o[a].SetSize(ss.GetNDofs()); for (size_t e = 0; e < els.size(); e++) { mfem::Array<int> d1, d2; s.GetElementDofs(els[e], d1); ss.GetElementDofs((int)e, d2); for (int i = 0; i < d1.Size(); i++) { o[a][d2[i]] = fr[a][d1[i]]; } } } q.f.push_back(o); } return q;
   }
};
struct Amp { Cx nt, np, lt, lp; double size = 0; Amp& operator+=(const Amp& o) { nt += o.nt; np += o.np; lt += o.lt; lp += o.lp; size += o.size; return *this; } double power() const { return std::norm(lp + nt) + std::norm(lt - np); } };
// Radiation vectors of a record by an own transform and an own quadrature of higher order; natural units.
inline Amp radiate(const Record& rc, double freq, double th, double ph, double tmax = INFINITY, int extra = 4)
{
   auto m = rc.g.mfem(); const int dim = rc.dim(); mfem::DG_FECollection c(rc.order, dim, rc.basis); mfem::FiniteElementSpace s(&m, &c); const int nd = s.GetNDofs(); std::array<std::vector<Cx>, 6> F; for (auto& v : F) { v.assign(nd, 0); } int ns = 0; const double w = 2 * std::acos(-1.0) * freq, k = w;
   for (size_t i = 0; i < rc.t.size(); i++) { if (rc.t[i] > tmax) { continue; } ns++; Cx e = std::polar(1.0, -w * rc.t[i]); for (int a = 0; a < 6; a++) for (int j = 0; j < nd; j++) { F[a][j] += rc.f[i][a][j] * e; } } for (auto& v : F) for (auto& z : v) { z /= (double)ns; }
   const P3 rh{ std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th) }, tv{ std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th) }, pv{ -std::sin(ph), std::cos(ph), 0 }; std::array<Cx, 3> N{}, L{}; double size = 0;
   for (int be = 0; be < m.GetNBE(); be++) {
      if (m.GetBdrAttribute(be) != NTFF) { continue; } auto* T = m.GetBdrFaceTransformations(be); const int el = T->Elem1No; mfem::Vector cc; m.GetElementCenter(el, cc); const auto& ir = mfem::IntRules.Get(T->GetGeometryType(), 2 * (rc.order + T->Order()) + extra); mfem::Array<int> d; s.GetElementDofs(el, d); mfem::Vector sh(d.Size());
      for (int q = 0; q < ir.GetNPoints(); q++) {
         auto& ip = ir.IntPoint(q); T->SetAllIntPoints(&ip); mfem::Vector x(dim), n(dim); T->Face->Transform(ip, x); mfem::CalcOrtho(T->Jacobian(), n); P3 X{}, n3{}; double out = 0; for (int a = 0; a < dim; a++) { X[a] = x[a]; n3[a] = n[a]; out += n[a] * (x[a] - cc[a]); } if (out < 0) { n3 = -1.0 * n3; } s.GetFE(el)->CalcShape(T->GetElement1IntPoint(), sh); std::array<Cx, 6> v{}; for (int a = 0; a < 6; a++) for (int i = 0; i < d.Size(); i++) { v[a] += sh[i] * F[a][d[i]]; }
         const Cx e = ip.weight * std::polar(1.0, k * dot(X, rh)); for (int a = 0; a < 3; a++) { int b = (a + 1) % 3, cx = (a + 2) % 3; Cx j = n3[b] * v[3 + cx] - n3[cx] * v[3 + b], mm = -(n3[b] * v[cx] - n3[cx] * v[b]); N[a] += e * j; L[a] += e * mm; size += std::abs(e) * (std::abs(j) + std::abs(mm)); }
      }
   }
   auto pr = [](const P3& u, const std::array<Cx, 3>& z) { return u[0] * z[0] + u[1] * z[1] + u[2] * z[2]; }; return { pr(tv, N), pr(pv, N), pr(tv, L), pr(pv, L), size };
}
inline double powerFactor(int dim, double freq) { const double pi = std::acos(-1.0), k = 2 * pi * freq; return dim == 2 ? k * k / 32 : k * k / (32 * pi * pi); }
inline double incident(const std::vector<double>& t, double freq, double spread, double mean, double carrier = 0, double tmax = INFINITY)
{
   const double pi = std::acos(-1.0); Cx v = 0; int n = 0; for (double x : t) { if (x > tmax) { continue; } n++; double e = std::exp(-std::pow(x + mean, 2) / (2 * spread * spread)); if (carrier != 0) { e *= std::cos(2 * pi * carrier * (x + mean)); } v += e * std::polar(1.0, -2 * pi * freq * x); } return std::norm(v / (double)n) / 2;
}
inline double rcsFactor(int dim, double freq, double inc) { const double pi = std::acos(-1.0); return dim == 2 ? 4 / (2 * pi * freq * inc) : 4 * pi / inc; }
// A plane-wave case file for the normalisation.
inline void waveCase(const std::string& path, double spread, const P3& mean, const P3& prop, double carrierHz = 0, bool withMean = true)
{
   json s{ { "type", "planewave" }, { "tags", { 7 } }, { "polarization", { 0, 0, 1 } }, { "propagation", jvec(prop) }, { "magnitude", { { "type", "gaussian" }, { "spread", spread } } } }; if (withMean) { s["magnitude"]["mean"] = jvec(mean); } if (carrierHz != 0) { s["magnitude"]["type"] = "modulatedGaussian"; s["magnitude"]["frequency"] = carrierHz; } json j; j["sources"] = json::array({ s }); j["model"]["filename"] = "none.msh"; std::ofstream(path) << j.dump(1);
}
// A closed box or a patch of faces of one, with random distortion, all marked faces NTFF.
inline GMesh surfaceMesh(Rng& r, Shape s, int n, bool closed, bool distort, double L = 1)
{
   const int dim = shapeDim(s); std::array<int, 3> k{ 1, 1, 1 }; for (int i = 0; i < dim; i++) { k[i] = r.range(std::max(1, n - 1), n); } GMesh g = box(s, gradedTicks(r, k[0], L, 0.3, -L / 2), gradedTicks(r, k[1], L, 0.3, -L / 2), gradedTicks(r, k[2], L, 0.3, -L / 2)); if (distort) { g.jitter(r, 0.1, { L / n, L / n, L / n }); g.affine(randomLinear(r, dim, 0.15)); if (r.coin()) { g.affine(randomRotation(r, dim)); } }
   g.tagExterior([&](const P3&, const P3&) { return closed || r.coin(0.7) ? NTFF : 1; }); if (std::none_of(g.bd.begin(), g.bd.end(), [](const El& b) { return b.attr == NTFF; })) { g.bd[0].attr = NTFF; } if (distort && r.coin()) { g.shuffle(r); } return g;
}
inline Record randomRecord(Rng& r, const GMesh& g, int order, int basis, int frames, double dt)
{
   Record q; q.g = g; q.order = order; q.basis = basis; const int n = q.ndofs(); double t = r.coin() ? 0 : r.uni(0, dt); for (int k = 0; k < frames; k++) { q.t.push_back(t); t += dt * r.uni(0.7, 1.3); Fields6 f; for (auto& v : f) { v = randomState(r, n); } q.f.push_back(f); } return q;
}
// Samples analytic complex fields F(x)->6 components at frequency freq as real records over whole periods.
inline Record harmonic(const GMesh& g, int order, int basis, double freq, int perPeriod, int periods, std::function<std::array<Cx, 6>(const P3&)> F)
{
   Record q; q.g = g; q.order = order; q.basis = basis; auto m = g.mfem(); mfem::DG_FECollection c(order, g.dim(), basis); mfem::FiniteElementSpace s(&m, &c); auto pos = dofPos(s); std::vector<std::array<Cx, 6>> v; for (auto& p : pos) { v.push_back(F(p)); } const double pi = std::acos(-1.0);
   for (int k = 0; k < perPeriod * periods; k++) { double t = k / (freq * perPeriod); q.t.push_back(t); Fields6 f; Cx e = std::polar(1.0, 2 * pi * freq * t); for (int a = 0; a < 6; a++) { f[a].SetSize((int)pos.size()); for (size_t i = 0; i < pos.size(); i++) { f[a][(int)i] = (v[i][a] * e).real(); } } q.f.push_back(f); } return q;
}
} // namespace em
