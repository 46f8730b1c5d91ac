// Materials are physical, and the derived quantities agree with each other.
#include "common.hpp"
#include "components/Material.h"
using namespace mon; using namespace maxwell;

static bool admissible(double e, double m, double s) { return e >= 1.0 && m >= 1.0 && s >= 0.0; }

static void judge(double e, double m, double s)
{
   M.label(fmt("eps=%.17g mu=%.17g sigma=%.17g", e, m, s));
   bool made = false; double ge = 0, gm = 0, gs = 0;
   try {
      const Material a(e, m, s); made = true; ge = a.getPermittivity(); gm = a.getPermeability(); gs = a.getConductivity();
      Material b(a), c(7, 5, 3); c = a; const Material d(e, m, s);
      for (const Material* x : { (const Material*)&b, (const Material*)&c, &d }) {
         M.expect(x->getPermittivity() == ge && x->getPermeability() == gm && x->getConductivity() == gs, "copy-differs", M.labelText);
      }
      auto q = [&](const Material& x, int k) { return k == 0 ? x.getImpedance() : k == 1 ? x.getAdmittance() : x.getSpeedOfWave(); };
      double v[3]; int rejected = 0;
      for (int k = 0; k < 3; k++) { try { v[k] = q(a, k); M.expect(q(b, k) == v[k] && q(c, k) == v[k] && q(d, k) == v[k], "derived-depends-on-history"); } catch (const std::exception&) { rejected++; } }
      if (s == 0.0) {
         M.expect(rejected == 0, "derived-rejected-for-lossless");
         if (!rejected && std::isfinite(e) && std::isfinite(m) && e * m < 1e300) {
            const double z = v[0], y = v[1], u = v[2];
            M.near(z * y, 1.0, 1e-12, "impedance-times-admittance"); M.near(z, std::sqrt(m / e), 1e-12 * z, "impedance-value");
            M.near(y, std::sqrt(e / m), 1e-12 * y, "admittance-value"); M.near(u * std::sqrt(e) * std::sqrt(m), 1.0, 1e-12, "speed-value");
            M.near(z / u / m, 1.0, 1e-12, "impedance-over-speed-is-mu"); M.near(y / u / e, 1.0, 1e-12, "admittance-over-speed-is-eps"); M.expect(u <= 1.0 + 1e-15 && u > 0, "speed-above-light");
         }
      } else { M.expect(rejected == 3, "lossless-formula-used-for-conductor", fmt("%d of 3 rejected; ", rejected) + M.labelText); }
   } catch (const std::exception&) {}
   M.event(made ? "accepted" : "rejected", M.labelText);
   M.expect(made == admissible(e, m, s), made ? "unphysical-accepted" : "physical-rejected", M.labelText);
   if (made) { M.expect(ge == e && gm == m && gs == s, "getter-differs-from-argument", fmt("got %.17g %.17g %.17g for ", ge, gm, gs) + M.labelText); }
}

SECTION(boundaries)
{
   const double inf = INFINITY, nan = NAN;
   const std::vector<double> e{ 1.0, std::nextafter(1.0, 0.0), std::nextafter(1.0, 2.0), 0.5, 0.0, -0.0, -1.0, -1e300, 1e-300, 2.0, 81.0, 1e12, 1.0 - 1e-15, 1 - 1e-9, 1 - 1e-6, 0.999, nan, -nan, -inf };
   const std::vector<double> s{ 0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e-16, -1e-16, 1e-9, -1e-9, 1e-6, -1e-6, 1.0, -1.0, 5.96e7 * 376.73, 1e300, -1e300, nan, -nan, -inf };
   for (double a : e) for (double b : e) for (double c : s) { judge(a, b, c); }
}
SECTION(random)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(20000, 2000000); i++) {
      auto one = [&](double lo) { switch (r.below(6)) { case 0: return lo + r.logu(1e-16, 1e6); case 1: return lo - r.logu(1e-16, 1e6); case 2: return lo; case 3: return lo + r.logu(1e-3, 100); default: return lo + r.uni(0, 20); } };
      judge(one(1), one(1), r.coin(0.4) ? 0.0 : one(0));
   }
}
SECTION(vacuum)
{
   for (int i = 0; i < 3; i++) {
      auto v = buildVacuumMaterial(); M.expect(v.getPermittivity() == 1 && v.getPermeability() == 1 && v.getConductivity() == 0, "vacuum-values");
      M.near(v.getImpedance(), 1, 1e-15, "vacuum-impedance"); M.near(v.getAdmittance(), 1, 1e-15, "vacuum-admittance"); M.near(v.getSpeedOfWave(), 1, 1e-15, "vacuum-speed"); M.event("vacuum", "vacuum");
   }
   // order of queries does not matter and queries do not change the material
   auto r = M.rng(); Material m(4.0, 9.0, 0.0); const double z = 1.5, y = 2.0 / 3.0, u = 1.0 / 6.0;
   for (int i = 0; i < 1000; i++) {
      switch (r.below(4)) { case 0: M.near(m.getImpedance(), z, 1e-14, "sequence-impedance"); break; case 1: M.near(m.getAdmittance(), y, 1e-14, "sequence-admittance"); break; case 2: M.near(m.getSpeedOfWave(), u, 1e-14, "sequence-speed"); break; default: M.expect(m.getPermittivity() == 4 && m.getPermeability() == 9 && m.getConductivity() == 0, "sequence-getters"); }
   }
}
HARNESS_MAIN
