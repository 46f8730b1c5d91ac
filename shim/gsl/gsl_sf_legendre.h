#pragma once
#include <cmath>
// Stand-in for GSL: spherical-harmonic normalised associated Legendre functions. GSL includes the
// Condon-Shortley phase (-1)^m and so does std::sph_legendre.
inline double gsl_sf_legendre_sphPlm(int l, int m, double x)
{
   return std::sph_legendre(static_cast<unsigned>(l), static_cast<unsigned>(m), std::acos(x));
}
inline double gsl_sf_legendre_Pl(int l, double x) { return std::legendre(static_cast<unsigned>(l), x); }
