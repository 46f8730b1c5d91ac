// The constants of each unit system agree with each other and with their defined values.
#include "common.hpp"
#include "math/PhysicalConstants.h"
using namespace mon; namespace pc = maxwell::physicalConstants;

static void rel(double got, double want, double tol, const char* key) { M.near(got / want, 1.0, tol, key, fmt("got %.17g want %.17g", got, want)); M.event("constant", key); }

SECTION(natural)
{
   rel(pc::speedOfLight, 1, 0, "natural-speed"); rel(pc::vacuumPermittivity, 1, 0, "natural-permittivity"); rel(pc::vacuumPermeability, 1, 0, "natural-permeability"); rel(pc::freeSpaceImpedance, 1, 0, "natural-impedance");
   const double pi = std::acos(-1.0);
   rel(pc::invFourPi, 1 / (4 * pi), 4e-16, "inverse-four-pi"); rel(pc::invFourPiEps0, 1 / (4 * pi), 4e-16, "natural-coulomb");
   rel(pc::speedOfLight * pc::speedOfLight * pc::vacuumPermittivity * pc::vacuumPermeability, 1, 0, "natural-speed-relation");
}
// The two accepted sets of measured constants (exact 4 pi 1e-7, or the measured value) differ by less than 2e-10.
SECTION(si)
{
   const double pi = std::acos(-1.0), c = 299792458.0, mu = 4e-7 * pi, ep = 1 / (mu * c * c), z = mu * c, tol = 5e-10;
   rel(pc::speedOfLight_SI, c, 0, "si-speed"); rel(pc::vacuumPermeability_SI, mu, tol, "si-permeability"); rel(pc::vacuumPermittivity_SI, ep, tol, "si-permittivity"); rel(pc::freeSpaceImpedance_SI, z, tol, "si-impedance"); rel(pc::invFourPiEps0_SI, 1 / (4 * pi * ep), tol, "si-coulomb");
   rel(pc::speedOfLight_SI * pc::speedOfLight_SI * pc::vacuumPermittivity_SI * pc::vacuumPermeability_SI, 1, tol, "si-speed-relation");
   rel(pc::freeSpaceImpedance_SI * pc::freeSpaceImpedance_SI, pc::vacuumPermeability_SI / pc::vacuumPermittivity_SI, 2 * tol, "si-impedance-relation");
   rel(pc::freeSpaceImpedance_SI, pc::vacuumPermeability_SI * pc::speedOfLight_SI, 1e-15, "si-impedance-product"); rel(pc::invFourPiEps0_SI * 4 * pi * pc::vacuumPermittivity_SI, 1, 1e-15, "si-coulomb-product");
}
// Values survive a trip through natural units for quantities of every magnitude, however the conversion is composed.
SECTION(roundtrip)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(20000, 1000000); i++) {
      double v = (r.coin() ? 1 : -1) * r.logu(1e-30, 1e30);
      M.near(v / pc::speedOfLight_SI * pc::speedOfLight_SI / v, 1, 5e-16, "time-roundtrip"); M.near(v * pc::freeSpaceImpedance_SI / pc::freeSpaceImpedance_SI / v, 1, 5e-16, "conductivity-roundtrip");
      // charge relaxation time eps/sigma in seconds equals natural eps/sigma divided by the speed of light
      double sg = r.logu(1e-6, 1e8), er = r.uni(1, 80); M.near((er / (sg * pc::freeSpaceImpedance_SI)) / pc::speedOfLight_SI / (er * pc::vacuumPermittivity_SI / sg), 1, 5e-10, "relaxation-time");
      // wavelength from frequency in both systems
      double f = r.logu(1, 1e15); M.near((pc::speedOfLight / (f / pc::speedOfLight_SI)) / (1 / (f * std::sqrt(pc::vacuumPermeability_SI * pc::vacuumPermittivity_SI))), 1, 5e-10, "wavelength");
      M.event("roundtrip", fmt("%.17g", v));
   }
}
HARNESS_MAIN
