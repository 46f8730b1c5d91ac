// Analytic sources are physical waves with the requested parameters.
#define EM_NO_SOLVER
#include "em.hpp"
#include "components/Sources.h"
using namespace em; using namespace maxwell;

static P3 ev(const std::function<double(FieldType, int)>& f, FieldType t) { return { f(t, 0), f(t, 1), f(t, 2) }; }
template <class S> static P3 field(const S& s, const P3& x, double t, FieldType ft, int size = 3) { mfem::Vector v(size); for (int i = 0; i < size; i++) { v[i] = x[i]; } P3 r{ s.eval(v, t, ft, X), s.eval(v, t, ft, Y), s.eval(v, t, ft, Z) }; for (int i = 0; i < size; i++) { M.expect(v[i] == x[i], "source-changes-position"); } return r; }

struct Wave { double spread, mean, freq; bool mod; double operator()(double u) const { double a = u - mean; return std::exp(-a * a / (2 * spread * spread)) * (mod ? std::cos(2 * M_PI * freq * a) : 1.0); } };
static std::unique_ptr<Function> make(const Wave& w) { mfem::Vector m(1); m[0] = w.mean; if (w.mod) { return std::make_unique<ModulatedGaussian>(w.spread, m, w.freq); } return std::make_unique<Gaussian>(w.spread, m); }

SECTION(planewave)
{
   auto r = M.rng(); std::vector<P3> axes{ { 1, 0, 0 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 } };
   for (int k = 0; k < M.n(1500, 100000); k++) {
      P3 d = r.coin(0.3) ? axes[r.below(6)] : r.unit(), p; do { p = r.coin(0.3) ? axes[r.below(6)] : r.unit(); p = p - dot(p, d) * d; } while (norm(p) < 0.1); p = unit(p);
      Wave w{ r.logu(0.01, 10), r.uni(-5, 5), r.logu(0.01, 20), r.coin() }; FieldType ft = r.coin(0.7) ? E : H; double lp = r.coin() ? 1.0 : r.logu(1e-3, 1e3), ld = r.coin() ? 1.0 : r.logu(1e-3, 1e3);
      M.label(fmt("d=(%.15g,%.15g,%.15g) p=(%.15g,%.15g,%.15g) spread=%g mean=%g f=%g mod=%d type=%d len=%g,%g", d[0], d[1], d[2], p[0], p[1], p[2], w.spread, w.mean, w.freq, w.mod, (int)ft, lp, ld));
      auto f = make(w); auto pol = vec3(lp * p), dir = vec3(ld * d); Planewave pw(*f, pol, dir, ft); TotalField tf(pw); auto cl = tf.clone(); auto cl2 = pw.clone();
      f.reset(); pol = 99.0; dir = -7.0; // the wave keeps its own copies
      P3 e0 = ft == E ? p : cross(p, d), h0 = ft == E ? cross(d, p) : p;
      for (int q = 0; q < 12; q++) {
         int size = r.range(1, 3); P3 x{}; for (int i = 0; i < size; i++) { x[i] = r.uni(-5, 5); } double u0 = w.mean + w.spread * r.uni(-3, 3), t = dot(x, d) - u0; if (r.coin(0.2)) { t = r.uni(-20, 20); }
         double want = w(dot(x, d) - t), tol = 1e-11 * (1 + 1 / w.spread) * (1 + w.freq * w.mod); P3 e = field(tf, x, t, E, size), h = field(tf, x, t, H, size);
         for (int i = 0; i < 3; i++) { M.near(e[i], want * e0[i], tol, "planewave-electric-value", M.labelText); M.near(h[i], want * h0[i], tol, "planewave-magnetic-value", M.labelText); }
         P3 hx = cross(d, e); for (int i = 0; i < 3; i++) { M.near(h[i], hx[i], 1e-13, "planewave-H-is-direction-cross-E", M.labelText); } M.near(dot(e, d), 0, 1e-13, "planewave-transverse", M.labelText); M.near(dot(h, d), 0, 1e-13, "planewave-transverse", M.labelText); M.near(norm(e), norm(h), 1e-13, "planewave-equal-magnitudes", M.labelText); M.near(norm(cross(e, ft == E ? p : cross(p, d))), 0, 1e-13, "planewave-polarisation", M.labelText);
         double s = r.uni(-3, 3); P3 x2 = x + s * d; P3 e2 = field(tf, x2, t + s, E, 3); if (size == 3) for (int i = 0; i < 3; i++) { M.near(e2[i], e[i], tol, "planewave-travels-at-light-speed", M.labelText); }
         P3 tr = r.unit(); tr = tr - dot(tr, d) * d; P3 e3 = field(tf, x + 4.0 * tr, t, E, 3); for (int i = 0; i < 3; i++) { M.near(e3[i], e[i], tol, "planewave-uniform-across-front", M.labelText); }
         for (int i = 0; i < 3; i++) { P3 a = field(*cl, x, t, E, size), b = field(*cl2, x, t, H, size); M.expect(a[i] == e[i] && b[i] == h[i], "planewave-clone-differs", M.labelText); }
         M.event("planewave", M.labelText + fmt("/%d", q));
      }
   }
}
SECTION(planewave_rejects)
{
   auto r = M.rng(); mfem::Vector m(1); m[0] = 0; Gaussian g(1.0, m); auto attempt = [&](P3 p, P3 d) { Planewave pw(g, vec3(p), vec3(d), E); TotalField tf(pw); auto c = tf.clone(); };
   for (double bad : { 0.0, (double)NAN, (double)INFINITY }) for (int i = 0; i < 3; i++) { P3 b{}; b[i] = bad; M.label(fmt("bad=%g", bad)); M.throws([&] { attempt(b, { 1, 0, 0 }); }, "polarisation-without-direction-accepted", M.labelText); M.throws([&] { attempt({ 0, 0, 1 }, b); }, "propagation-without-direction-accepted", M.labelText); M.event("reject", M.labelText + fmt("%d", i)); }
   for (int k = 0; k < M.n(300, 10000); k++) { P3 d = r.unit(), p = unit(cross(d, r.unit())); M.nothrow([&] { attempt(r.logu(1e-6, 1e6) * p, r.logu(1e-6, 1e6) * d); }, "valid-wave-rejected", M.labelText); }
}
SECTION(dipole)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(400, 20000); k++) {
      double len = r.logu(1e-3, 1), s = r.logu(0.05, 2), mean = r.uni(-1, 10); DerivGaussDipole dp(len, s, mean); TotalField tf(dp); auto cl = tf.clone(); Sources src; src.add(tf); Sources copy(src);
      P3 x = r.logu(0.3 * s, 10 * s) * (r.coin(0.2) ? P3{ 0, 0, r.coin() ? 1.0 : -1.0 } : r.unit()); double R = norm(x), t = mean + R + s * r.uni(-3, 3);
      M.label(fmt("len=%g spread=%g mean=%g x=(%g,%g,%g) t=%g", len, s, mean, x[0], x[1], x[2], t));
      auto F = [&](P3 q, double tt, FieldType ft) { return field(tf, q, tt, ft); }; double h = 2e-3 * std::min(s, R);
      auto der = [&](std::function<P3(double)> f) { return (1 / (12 * h)) * (f(-2 * h) - 8.0 * f(-h) + 8.0 * f(h) - f(2 * h)); };
      P3 dE[3], dH[3]; for (int d = 0; d < 3; d++) { P3 u{}; u[d] = 1; dE[d] = der([&](double a) { return F(x + a * u, t, E); }); dH[d] = der([&](double a) { return F(x + a * u, t, H); }); }
      P3 Et = der([&](double a) { return F(x, t + a, E); }), Ht = der([&](double a) { return F(x, t + a, H); });
      P3 cE{ dE[1][2] - dE[2][1], dE[2][0] - dE[0][2], dE[0][1] - dE[1][0] }, cH{ dH[1][2] - dH[2][1], dH[2][0] - dH[0][2], dH[0][1] - dH[1][0] };
      // the size of the individual terms sets the scale of truncation and rounding
      double sc = 0, mag = 0; for (int d = 0; d < 3; d++) { sc = std::max({ sc, norm(dE[d]), norm(dH[d]), norm(Et), norm(Ht) }); } mag = norm(F(x, t, E)) + norm(F(x, t, H)); double spr = std::sqrt(2.0) * s, pp = len / (4 * M_PI) * spr * std::exp(1.0) / 2; double peak = pp * (1 / std::pow(R, 3) + 1 / (R * R * s) + 1 / (R * s * s)) * (1 / R + 1 / s);
      double tol = 2e-7 * (sc + peak) + 1e-12 * mag / h;
      for (int d = 0; d < 3; d++) { M.near(cH[d], Et[d], tol, "dipole-curl-H-is-dE-dt", M.labelText); M.near(-cE[d], Ht[d], tol, "dipole-curl-E-is-minus-dH-dt", M.labelText); }
      M.near(dE[0][0] + dE[1][1] + dE[2][2], 0, tol, "dipole-div-E", M.labelText); M.near(dH[0][0] + dH[1][1] + dH[2][2], 0, tol, "dipole-div-H", M.labelText);
      // Hertzian dipole along z with moment p(t) = len * scale * exp(-((t-mean)/(sqrt2 s))^2)
      double a = (t - mean - R) / spr, ip = spr * std::exp(1.0) / 2 * std::exp(-a * a), di = -2 * a / spr * ip, dd = (4 * a * a - 2) / (spr * spr) * ip; double ct = x[2] / R; P3 rh = unit(x), zh{ 0, 0, 1 };
      P3 we = (len / (4 * M_PI)) * ((ip / std::pow(R, 3) + di / (R * R)) * (3 * ct * rh - zh) + (dd / R) * (ct * rh - zh)), wh = (len / (4 * M_PI)) * (di / (R * R) + dd / R) * cross(zh, rh); double st = pp * (1 / std::pow(R, 3) + 1 / (R * R * s) + 1 / (R * s * s)) * 1e-11;
      P3 e = F(x, t, E), hh = F(x, t, H); for (int d = 0; d < 3; d++) { M.near(e[d], we[d], st, "dipole-electric-value", M.labelText); M.near(hh[d], wh[d], st, "dipole-magnetic-value", M.labelText); }
      P3 e2 = field(*cl, x, t, E), e3 = field(**copy.begin(), x, t, E); M.expect(e2 == e && e3 == e, "dipole-copy-differs", M.labelText);
      DerivGaussDipole d2(3 * len, s, mean + 1.25); P3 e4 = field(d2, x, t + 1.25, E); for (int d = 0; d < 3; d++) { M.near(e4[d], 3 * e[d], 3 * st, "dipole-delay-and-length", M.labelText); }
      M.event("dipole", M.labelText);
   }
}
SECTION(functions)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(3000, 200000); k++) {
      int dim = r.range(1, 3), size = r.range(dim, 3); double s = r.logu(1e-2, 10); mfem::Vector m(dim), x(size); for (int i = 0; i < dim; i++) { m[i] = r.uni(-2, 2); } for (int i = 0; i < size; i++) { x[i] = r.uni(-3, 3); } double q = 0; for (int i = 0; i < dim; i++) { q += std::pow(x[i] - m[i], 2); }
      M.label(fmt("dim=%d spread=%g #%d", dim, s, k)); Gaussian g(s, m, dim); auto c = g.clone(); M.near(g.eval(x), std::exp(-q / (2 * s * s)), 1e-13, "gaussian-value", M.labelText); M.expect(c->eval(x) == g.eval(x) && c->dimension() == dim && g.dimension() == dim, "gaussian-clone", M.labelText); M.near(g.eval(m), 1.0, 0, "gaussian-peak", M.labelText);
      mfem::Vector m1(1); m1[0] = m[0]; double fq = r.logu(0.01, 10); ModulatedGaussian mg(s, m1, fq); double a = x[0] - m1[0]; M.near(mg.eval(x), std::exp(-a * a / (2 * s * s)) * std::cos(2 * M_PI * fq * a), 1e-11, "modulated-gaussian-value", M.labelText); M.expect(mg.clone()->eval(x) == mg.eval(x), "modulated-gaussian-clone");
      std::vector<size_t> md(dim); double w = 1; for (int i = 0; i < dim; i++) { md[i] = r.below(6); w *= std::sin(md[i] * M_PI * x[i]); } SinusoidalMode sm(md); M.near(sm.eval(x), w, 1e-12, "sinusoidal-mode-value", M.labelText); M.expect(sm.dimension() == dim && sm.clone()->eval(x) == sm.eval(x), "sinusoidal-mode-clone");
      const double al = 13.589290170541217; mfem::Vector x2(2); x2[0] = x[0]; x2[1] = r.uni(-1, 1); BesselJ6 bj; double rr = std::hypot(x2[0], x2[1]); M.near(bj.eval(x2), ::jn(6, al * rr) * std::cos(6 * std::atan2(x2[1], x2[0])), 1e-12, "bessel-value", M.labelText); M.expect(bj.dimension() == 2 && bj.clone()->eval(x2) == bj.eval(x2), "bessel-clone");
      P3 u = r.uni(0, 1) * r.unit(); mfem::Vector x3 = vec3(u); SphericalBesselJ6 sb; double R = norm(u); double rho = std::hypot(u[0], u[1]) / R; double y66 = std::sqrt(13.0 / (4 * M_PI) * 231.0 * 231.0 * 45.0 * 45.0 / 479001600.0) * std::pow(rho, 6); // sqrt(13/4pi/12!)*10395*sin^6
      M.near(std::abs(sb.eval(x3)), std::abs(std::sph_bessel(6, al * R) * y66 * std::cos(6 * std::atan2(u[1], u[0]))), 1e-10, "spherical-bessel-value", M.labelText); M.expect(sb.dimension() == 3, "spherical-bessel-dimension");
      M.event("function", M.labelText);
   }
   mfem::Vector o(3); o = 0.0; M.near(SphericalBesselJ6().eval(o), 0, 0, "spherical-bessel-origin"); for (int i = 0; i < 64; i++) { mfem::Vector w(2); w[0] = cos(0.1 * i); w[1] = sin(0.1 * i); M.near(BesselJ6().eval(w), 0, 1e-12, "bessel-vanishes-on-unit-circle"); }
}
SECTION(initial_field)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(3000, 200000); k++) {
      int dim = r.range(1, 3); FieldType ft = r.coin() ? E : H; P3 p = r.coin(0.4) ? P3{ 0, 0, 0 } : r.unit(); if (norm(p) == 0) { p[r.below(3)] = r.coin() ? 1 : -1; } double s = r.logu(0.05, 2); P3 c{ r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2) }; mfem::Vector zero(dim); zero = 0.0; int cs = r.coin() ? 3 : dim; mfem::Vector cv(cs); for (int i = 0; i < cs; i++) { cv[i] = c[i]; }
      M.label(fmt("dim=%d type=%d p=(%g,%g,%g) c=(%g,%g,%g) s=%g", dim, (int)ft, p[0], p[1], p[2], c[0], c[1], c[2], s)); auto pv = vec3(p); auto g = std::make_unique<Gaussian>(s, zero, dim); InitialField f(*g, ft, pv, cv); InitialField f2(f); auto cl = f.clone(); g.reset(); pv = 7.0; cv = -3.0;
      for (int q = 0; q < 6; q++) {
         P3 x{}; double d2 = 0; for (int i = 0; i < dim; i++) { x[i] = c[i] + s * r.normal(); d2 += std::pow(x[i] - c[i], 2); } double t = r.coin() ? 0.0 : r.uni(0, 9), want = std::exp(-d2 / (2 * s * s)); P3 a = field(f, x, t, ft, dim), b = field(f, x, t, ft == E ? H : E, dim), c1 = field(f2, x, t, ft, dim), c2 = field(*cl, x, t, ft, dim);
         for (int i = 0; i < 3; i++) { M.near(a[i], want * p[i], 1e-13, "initial-field-value", M.labelText); M.expect(b[i] == 0, "initial-field-in-other-field", M.labelText); M.expect(c1[i] == a[i] && c2[i] == a[i], "initial-field-copy", M.labelText); } M.event("initial", M.labelText + fmt("%d", q));
      }
      std::vector<size_t> md(dim); for (auto& x : md) { x = r.range(1, 4); } InitialField mode(SinusoidalMode(md), ft, vec3(p), zero); P3 x{ r.uni(), r.uni(), r.uni() }; double w = 1; for (int i = 0; i < dim; i++) { w *= std::sin(md[i] * M_PI * x[i]); } P3 a = field(mode, x, 0, ft, dim); for (int i = 0; i < 3; i++) { M.near(a[i], w * p[i], 1e-12, "initial-mode-value", M.labelText); }
   }
}
SECTION(container)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(300, 20000); k++) {
      Sources s; int n = r.range(0, 6); std::vector<P3> ref; P3 x{ r.uni(), r.uni(), r.uni() }; double t = r.uni(-1, 1); mfem::Vector m(1); m[0] = 0;
      for (int i = 0; i < n; i++) { P3 d = r.unit(), p = unit(cross(d, r.unit())); TotalField tf(Planewave(Gaussian(1 + i, m), vec3(p), vec3(d), E)); Source* got = r.coin() ? s.add(tf) : s.add(tf.clone()); ref.push_back(field(tf, x, t, E)); M.expect(field(*got, x, t, E) == ref.back(), "container-add-returns-it"); }
      auto same = [&](const Sources& q, const char* key) { M.expect(q.size() == ref.size(), key); size_t i = 0; for (auto& v : q) { if (!M.expect(v && i < ref.size() && field(*v, x, t, E) == ref[i], key, fmt("entry %zu of %d", i, n))) { return; } i++; } };
      same(s, "container-order"); Sources a(s); same(a, "container-copy"); same(s, "container-copy-source"); Sources b; b.add(TotalField(Planewave(Gaussian(1, m), vec3({ 0, 0, 1 }), vec3({ 1, 0, 0 }), E))); b = s; same(b, "container-assign"); same(s, "container-assign-source"); Sources c(std::move(a)); same(c, "container-move"); Sources d; d.add(TotalField(Planewave(Gaussian(1, m), vec3({ 0, 0, 1 }), vec3({ 1, 0, 0 }), E))); d = std::move(b); same(d, "container-move-assign"); M.event("container", fmt("%d/%d", n, k));
   }
}
HARNESS_MAIN
