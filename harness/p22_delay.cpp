// P22: automatic delay and frequency content.
#include "case.hpp"
using namespace em;
namespace maxwell::driver { __attribute__((weak)) double calculateMaximumSourceFrequency(const json&); }
static const double C0 = 299792458.0;

// Any set of faces may serve as surface for the delay; a closed box or ball-like cluster of elements is the usual one.
static GMesh withSurface(Rng& r, Shape s, int& tag)
{
   const int dim = shapeDim(s); auto g = dim == 1 ? box(SEG, ticks(r.range(4, 12), 1.0)) : box(s, std::array<int, 3>{ r.range(3, 6), r.range(3, 6), dim > 2 ? r.range(3, 4) : 1 }); tag = r.range(7, 30); const int other = tag + 1;
   if (dim == 1) { g.bd.push_back({ { 0 }, 1 }); g.bd.push_back({ { (int)g.x.size() - 1 }, 2 }); const int a = r.range(1, (int)g.x.size() - 3), b = r.range(a + 1, (int)g.x.size() - 2); g.bd.push_back({ { a }, tag }); if (r.coin()) { g.bd.push_back({ { b }, tag }); } }
   else { g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); P3 lo, hi; for (int k = 0; k < 3; k++) { lo[k] = r.uni(0.0, 0.45); hi[k] = r.uni(0.55, 1.0); } if (dim == 2) { lo[2] = -9; hi[2] = 9; } std::vector<char> in; for (auto& e : g.el) { P3 c = g.centre(e); bool q = true; for (int k = 0; k < dim; k++) { q = q && c[k] > lo[k] && c[k] < hi[k]; } in.push_back(q); }
      g.tagInterior([&](const P3&, const P3&, int a, int b) { return in[a] != in[b] ? tag : r.coin(0.1) ? other : 0; }); bool any = false; for (auto& b : g.bd) { any = any || b.attr == tag; } if (!any) { return withSurface(r, s, tag); } }
   std::array<P3, 3> A; for (int a = 0; a < 3; a++) { A[a] = {}; } const double sc = r.logu(0.1, 20); if (r.coin() && dim > 1) { const double q = r.uni(0, 6.28); A[0] = { sc * std::cos(q), -sc * std::sin(q), 0 }; A[1] = { sc * std::sin(q), sc * std::cos(q), 0 }; A[2] = { 0, 0, sc }; } else { A = { P3{ sc, 0, 0 }, P3{ 0, sc, 0 }, P3{ 0, 0, sc } }; }
   P3 off; for (int k = 0; k < 3; k++) { off[k] = k < dim ? r.uni(-1, 1) * sc * r.pick({ 0.0, 1.0, 10.0 }) : 0; } g.affine(A, off); return g;
}
static void delays(Shape s, int count, const char* what)
{
   auto r = M.rng(what); const int dim = shapeDim(s);
   for (int i = 0; i < count; i++) {
      int tag; auto g = withSurface(r, s, tag); auto mesh = g.mfem(); std::vector<P3> cen, cor; for (auto& b : g.bd) if (b.attr == tag) { cen.push_back(g.centre(b)); for (int v : b.v) { cor.push_back(g.x[v]); } }
      const double sp = r.logu(0.01, 10); json j, mg = { { "spread", sp } }; const bool dip = dim == 3 && r.coin(0.4); P3 d{}, p; 
      if (dip) { mg["length"] = 0.1; j["sources"] = { { { "type", "dipole" }, { "tags", { tag } }, { "magnitude", mg } } }; }
      else { do { auto q = r.unit(); d = {}; for (int k = 0; k < (r.coin(0.1) ? 3 : dim); k++) { d[k] = q[k]; } } while (norm(d) < 0.1); d = unit(d); do { p = r.unit(); p = p - dot(p, d) * d; } while (norm(p) < 0.2); if (r.coin(0.3)) { mg["frequency"] = r.logu(1e6, 1e9); } j["sources"] = { { { "type", "planewave" }, { "tags", { tag } }, { "polarization", jvec(unit(p)) }, { "propagation", jvec(r.logu(0.1, 10) * d) }, { "magnitude", mg } } }; if (r.coin(0.3)) { j["sources"][0]["tags"].push_back(5); } }
      const std::string ds = fmt("%s tag %d %s", what, tag, j.dump().c_str()); M.label(fmt("%s %d", what, i)); if (j["sources"][0]["tags"].size() > 1 && dim > 1) { for (auto& b : g.bd) if (b.attr == 5) { cen.push_back(g.centre(b)); for (int v : b.v) { cor.push_back(g.x[v]); } } }
      Quiet q; auto src = driver::buildSources(j, &mesh); auto* tf = dynamic_cast<TotalField*>(src.begin()->get()); if (!M.expect(tf, "source-lost", ds)) { continue; }
      const double R2 = std::sqrt(2.0), margin = 5 * R2 * sp, scale = 1 + margin; for (auto& c : cen) { for (int k = 0; k < 3; k++) { if (std::abs(c[k]) > 1e6) { continue; } } }
      if (dip) {
         // envelope in retarded time: negligible at t = 0, peak at t = mean + r
         double rmin = 1e300; for (auto& c : cen) { rmin = std::min(rmin, norm(c)); } const double mean = std::max(R2 * sp, margin - rmin); TotalField ref(DerivGaussDipole(0.1, sp, mean));
         for (int k = 0; k < 12; k++) { P3 c = r.unit(); c = (r.uni(0.3, 3) * sp) * c; const double t = r.uni(0, 2 * margin); for (auto f : { E, H }) for (int x = 0; x < 3; x++) { const double a = tf->eval(vec3(c), t, f, (Direction)x), b = ref.eval(vec3(c), t, f, (Direction)x); M.near(a, b, 1e-9 * std::max(std::abs(b), 1e-20), "dipole-delay", ds); } }
         double peak = 0, start = 0; for (auto& c : cen) { if (norm(c) < 0.05 * sp) { continue; } double pk = 0, s0 = 0; for (int k = 0; k <= 60; k++) { const double t = mean + norm(c) + (k - 30) * 0.1 * sp; for (int x = 0; x < 3; x++) { pk = std::max(pk, std::abs(tf->eval(vec3(c), t, E, (Direction)x))); } } for (int x = 0; x < 3; x++) { s0 = std::max(s0, std::abs(tf->eval(vec3(c), 0.0, E, (Direction)x))); } if (pk > 0) { M.expect(s0 <= 1e-5 * pk, "dipole-visible-at-start", ds + fmt(" %.3g of %.3g", s0, pk)); } peak = std::max(peak, pk); start = std::max(start, s0); }
         M.event("dipole delays", ds);
      } else {
         double first = 1e300; for (auto& c : cen) { first = std::min(first, dot(c, d)); } const double mean = first - margin; const bool mod = mg.contains("frequency"); const double fn = mod ? mg["frequency"].get<double>() / C0 : 0;
         auto amp = [&](const P3& x, double t) { double e = 0; for (int c = 0; c < 3; c++) { e += unit(p)[c] * tf->eval(vec3(x), t, E, (Direction)c); } return e; };
         // the pulse sits exactly five widths upstream of the first element of the surface
         const double pos = 1e-12 * (1 + std::abs(first)) / sp; M.near(amp(mean * d, 0), 1, 1e-9 + 10 * pos + (mod ? std::pow(2 * M_PI * fn * sp * pos, 2) : 0), "pulse-centre", ds); for (int k = 0; k < 6; k++) { const double o = r.uni(-3, 3) * sp; M.near(amp((mean + o) * d, 0), std::exp(-o * o / (2 * sp * sp)) * std::cos(2 * M_PI * fn * o), 1e-9 + 10 * pos + 20 * M_PI * fn * sp * pos, "pulse-shape", ds); }
         for (auto& c : cen) { M.expect(std::abs(amp(c, 0)) <= 1.5e-11, "wave-visible-at-start", ds + fmt(" %.3g", amp(c, 0))); } M.event("wave delays", ds); (void)scale;
      }
      // a given delay is kept
      if (!dip) { json b = j; b["sources"][0]["magnitude"]["mean"] = jvec(0.25 * d); auto s2 = driver::buildSources(b, &mesh); double e = 0; for (int c = 0; c < 3; c++) { e += unit(p)[c] * (*s2.begin())->eval(vec3(0.25 * d), 0.0, E, (Direction)c); } M.near(e, 1, 1e-9, "given-delay", ds); }
   }
}
SECTION(delay_1d) { delays(SEG, M.n(1500, 10000), "seg"); }
SECTION(delay_2d) { delays(TRI, M.n(800, 6000), "tri"); delays(QUAD, M.n(800, 6000), "quad"); }
SECTION(delay_3d) { delays(TET, M.n(120, 1200), "tet"); delays(HEX, M.n(300, 3000), "hex"); }

SECTION(frequency)
{
   if (!driver::calculateMaximumSourceFrequency) { return; }
   auto r = M.rng();
   for (int i = 0; i < M.n(4000, 100000); i++) {
      json j; double want = 0; j["sources"] = json::array(); std::string ds; for (int k = r.range(0, 5); k > 0; k--) { json m; double sp = r.logu(1e-4, 10); const int kind = r.below(4); if (kind == 3) { m["type"] = "resonant"; m["modes"] = { 1, 2 }; } else { m["spread"] = sp; double f = 0; if (kind == 1) { f = r.logu(1e6, 1e12); m["frequency"] = f; } want = std::max(want, f + C0 / (2 * sp)); if (kind == 2) { m["length"] = 1.0; } } j["sources"].push_back({ { "type", kind == 2 ? "dipole" : kind == 3 ? "initial" : "planewave" }, { "magnitude", m } }); }
      const double got = driver::calculateMaximumSourceFrequency(j); if (want == 0) { M.expect(got == 1e9, "frequency-default", j.dump()); } else { M.near(got / want, 1, 1e-12, "highest-frequency", j.dump()); } M.event("spectra", j.dump());
   }
   json none = json::object(); M.expect(driver::calculateMaximumSourceFrequency(none) == 1e9, "frequency-default");
}
HARNESS_MAIN
