#pragma once
#include <cmath>
// Stand-in for GSL: regular spherical Bessel functions j_l(x).
inline double gsl_sf_bessel_j0(double x) { return x == 0.0 ? 1.0 : std::sin(x) / x; }
inline double gsl_sf_bessel_jl(int l, double x) { return std::sph_bessel(static_cast<unsigned>(l), x); }
inline double gsl_sf_bessel_Jn(int n, double x) { return std::cyl_bessel_j(static_cast<double>(n), x); }
inline double gsl_sf_bessel_J0(double x) { return std::cyl_bessel_j(0.0, x); }
inline double gsl_sf_bessel_J1(double x) { return std::cyl_bessel_j(1.0, x); }
