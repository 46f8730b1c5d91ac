// P14: far fields computed from surface records obey the identities of radiation.
#include "surf.hpp"
using namespace em;
namespace fs = std::filesystem;
static const double C = 299792458.0, PI = std::acos(-1.0);
static const Shape shapes[] = { TRI, QUAD, TET, HEX };
static double& hz(double& f) { f *= C; return f; }

struct Out { std::vector<std::vector<double>> far, rcs; std::string err; };
// Runs the post-processor on the records laid out as rank folders; frequencies in natural units.
static Out process(const std::vector<const Record*>& ranks, const std::vector<double>& freqs, const std::vector<SphericalAngles>& angs, std::optional<double> tmax = std::nullopt, const std::string& casePath = "wave.json")
{
   fs::remove_all("data"); fs::create_directories("data"); for (size_t k = 0; k < ranks.size(); k++) { ranks[k]->write(fmt("data/rank%zu", k)); } Out o; std::vector<double> f = freqs; for (auto& x : f) { hz(x); } Quiet q;
   try { RCSSurfacePostProcessor pp("data", casePath, f, angs, tmax); for (auto& a : angs) { o.far.emplace_back(); o.rcs.emplace_back(); for (auto& x : f) { const double nf = x / physicalConstants::speedOfLight_SI; o.far.back().push_back(pp.getFarField(a, nf)); o.rcs.back().push_back(pp.getRCS(a, nf)); } } } catch (const std::exception& e) { o.err = e.what(); } return o;
}
static std::vector<SphericalAngles> angles(Rng& r, int dim, int n)
{
   std::vector<SphericalAngles> a; for (int i = 0; i < n; i++) { double ph = r.coin(0.3) ? r.below(9) * PI / 4 : r.uni(0, 2 * PI), th = dim == 2 ? PI / 2 : r.coin(0.3) ? r.below(5) * PI / 4 : r.uni(0, PI); a.push_back({ th, ph }); } return a;
}
static double size(const std::vector<const Record*>& rs, double f, const SphericalAngles& a) { double s = 0; for (auto* q : rs) { s += radiate(*q, f, a.theta, a.phi).size; } return s; }
static const char* sn(Shape s) { return shapeName(s); }

#ifndef SEMBA_DGTD_ENABLE_OPENMP
// Against an own transform and quadrature, for arbitrary fields, times and directions.
SECTION(oracle)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(90, 3000); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s), order = r.range(1, dim == 2 ? 4 : 2); GMesh g = surfaceMesh(r, s, dim == 2 ? 4 : 2, r.coin(), true); const int basis = r.pick({ mfem::BasisType::GaussLobatto, mfem::BasisType::GaussLegendre }); if (r.coin(0.3)) { P3 sh{ r.uni(-2, 2), r.uni(-2, 2), dim > 2 ? r.uni(-2, 2) : 0 }; g.affine({ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, sh); }
      Record q = randomRecord(r, g, order, basis, r.range(1, 12), 0.3); std::vector<double> fr; for (int k = r.range(1, 3); k > 0; k--) { fr.push_back(r.uni(0.02, dim == 2 ? 0.3 : 0.15)); } auto an = angles(r, dim, 3); std::optional<double> tm; double tmax = INFINITY; if (r.coin(0.3)) { tmax = r.coin() ? q.t[r.below((int)q.t.size())] : r.uni(q.t[0], q.t.back() + 0.1); tm = tmax; }
      const double sp = r.uni(0.3, 1.5); P3 prop = r.unit(), mean = -r.uni(0.2, 2) * prop; const double car = r.coin(0.3) ? r.uni(0.05, 0.4) : 0; waveCase("wave.json", sp, mean, r.uni(0.5, 2) * prop, car * C); const std::string ds = fmt("%s ne=%zu order=%d basis=%d frames=%zu spread=%.3g carrier=%.3g tmax=%.3g #%d", sn(s), g.el.size(), order, basis, q.t.size(), sp, car, tmax, i); M.label(ds);
      auto o = process({ &q }, fr, an, tm); if (!M.expect(o.err.empty(), "failed", ds + " " + o.err)) { continue; }
      for (size_t a = 0; a < an.size(); a++) for (size_t k = 0; k < fr.size(); k++) {
         auto w = radiate(q, fr[k], an[a].theta, an[a].phi, tmax, 2); const double cf = powerFactor(dim, fr[k]), want = cf * w.power(), scale = cf * w.size * w.size; const std::string d2 = ds + fmt(" f=%.4g theta=%.6g phi=%.6g", fr[k], an[a].theta, an[a].phi); M.expect(std::abs(o.far[a][k] - want) <= 2e-5 * scale, "pattern", d2 + fmt(" %.10g for %.10g", o.far[a][k], want));
         const double inc = incident(q.t, fr[k], sp, dot(mean, prop), car, tmax), wr = rcsFactor(dim, fr[k], inc) * want; if (inc > 1e-12) { M.expect(std::abs(o.rcs[a][k] - wr) <= 1e-5 * std::abs(wr) + 2e-5 * rcsFactor(dim, fr[k], inc) * scale, "cross-section", d2 + fmt(" %.10g for %.10g", o.rcs[a][k], wr)); } M.expect(o.rcs[a][k] >= 0 && o.far[a][k] >= 0, "negative", d2 + fmt(" %.6g %.6g", o.rcs[a][k], o.far[a][k])); M.event("direction evaluated", fmt("%s %d f%zu", sn(s), order, k));
      }
      // the files hold the same numbers
      for (size_t a = 0; a < an.size(); a++) { const std::string sfx = "Th_" + std::to_string(an[a].theta) + "_Phi_" + std::to_string(an[a].phi) + "_dgtd.dat"; for (int kind = 0; kind < 2; kind++) { auto t = readTable(std::string("data/") + (kind ? "rcs/rcsData_" : "farfield/farfieldData_") + sfx, 1); bool ok = t.size() == fr.size(); for (size_t k = 0; ok && k < fr.size(); k++) { const double v = kind ? o.rcs[a][k] : o.far[a][k], lam = 1 / fr[k]; ok = t[k].size() == 5 && std::abs(t[k][0] - an[a].theta) <= 1e-5 * 4 && std::abs(t[k][1] - an[a].phi) <= 1e-5 * 7 && std::abs(t[k][2] - fr[k] * C) <= 1e-5 * fr[k] * C && std::abs(t[k][3] - v) <= 1e-5 * std::abs(v) && std::abs(t[k][4] - (dim == 2 ? lam : lam * lam)) <= 1e-5 * lam * lam; } M.expect(ok, kind ? "file-rcs" : "file-far", ds + " " + sfx); M.event("file read"); } }
   }
}
// Directions that pass exactly through points of the surface, and surfaces through the origin.
SECTION(aimed)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1500); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s), order = r.range(1, 2); const bool through = r.coin(0.3); GMesh g = surfaceMesh(r, s, 2, true, !through); Record q = randomRecord(r, g, order, mfem::BasisType::GaussLobatto, 2, 0.3); auto pts = q.points(); const P3 p = pts[r.below((int)pts.size())]; if (through) { q.g.affine({ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, -1.0 * p); pts = q.points(); }
      std::vector<SphericalAngles> an; for (int k = 0; k < 4; k++) { P3 x = pts[r.below((int)pts.size())]; if (norm(x) < 1e-9) { x = { 1, 0, 0 }; } if (r.coin(0.3)) { x = -1.0 * x; } an.push_back({ dim == 2 ? PI / 2 : std::atan2(std::hypot(x[0], x[1]), x[2]), std::atan2(x[1], x[0]) }); } waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); const double f = r.uni(0.02, 0.12); const std::string ds = fmt("%s ne=%zu order=%d through=%d #%d", sn(s), g.el.size(), order, through, i); M.label(ds); auto o = process({ &q }, { f }, an); if (!M.expect(o.err.empty(), "failed", ds + o.err)) { continue; }
      for (size_t a = 0; a < an.size(); a++) { auto w = radiate(q, f, an[a].theta, an[a].phi, INFINITY, 2); const double cf = powerFactor(dim, f); M.expect(std::abs(o.far[a][0] - cf * w.power()) <= 2e-5 * cf * w.size * w.size, through ? "pattern-origin" : "pattern-aimed", ds + fmt(" %.10g for %.10g", o.far[a][0], cf * w.power())); M.event("aimed direction", fmt("%s through=%d", sn(s), through)); }
   }
}
// Superposition, scaling, time shift, translation and repetition of requests.
SECTION(identities)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 2000); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s), order = r.range(1, dim == 2 ? 3 : 2); GMesh g = surfaceMesh(r, s, dim == 2 ? 4 : 2, r.coin(), true); const int basis = mfem::BasisType::GaussLobatto; Record a = randomRecord(r, g, order, basis, r.range(2, 8), 0.3), b = a; for (auto& f : b.f) for (auto& v : f) { v = randomState(r, v.Size()); } std::vector<double> fr{ r.uni(0.02, 0.3), r.uni(0.02, 0.3) }; auto an = angles(r, dim, 2); waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); const std::string ds = fmt("%s ne=%zu order=%d frames=%zu #%d", sn(s), g.el.size(), order, a.t.size(), i); M.label(ds);
      const double la = r.uni(-3, 3), lb = r.uni(-3, 3); auto comb = [&](double x, double y) { Record q = a; for (size_t k = 0; k < a.f.size(); k++) for (int c = 0; c < 6; c++) for (int j = 0; j < a.f[k][c].Size(); j++) { q.f[k][c][j] = x * a.f[k][c][j] + y * b.f[k][c][j]; } return q; }; Record plus = comb(la, lb), minus = comb(la, -lb), nil = comb(0, 0); auto A = process({ &a }, fr, an), B = process({ &b }, fr, an), Pp = process({ &plus }, fr, an), Mm = process({ &minus }, fr, an), Z = process({ &nil }, fr, an); if (!M.expect(A.err.empty() && B.err.empty() && Pp.err.empty() && Mm.err.empty() && Z.err.empty(), "failed", ds + A.err)) { continue; }
      // moved in space with the same fields
      Record mv = a; P3 sh{ r.uni(-3, 3), r.uni(-3, 3), dim > 2 ? r.uni(-3, 3) : 0 }; mv.g.affine({ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }, sh); auto V = process({ &mv }, fr, an);
      // moved in time
      Record tm = a; const double dt = r.uni(0, 5); for (auto& t : tm.t) { t += dt; } auto W = process({ &tm }, fr, an);
      // requests repeated and in another order
      std::vector<double> f2{ fr[1], fr[0], fr[1] }; std::vector<SphericalAngles> a2{ an[1], an[0], an[0] }; auto R = process({ &a }, f2, a2);
      for (int x = 0; x < 2; x++) for (int k = 0; k < 2; k++) {
         const double sc = powerFactor(dim, fr[k]) * std::pow(std::abs(la) * size({ &a }, fr[k], an[x]) + std::abs(lb) * size({ &b }, fr[k], an[x]), 2), s1 = powerFactor(dim, fr[k]) * std::pow(size({ &a }, fr[k], an[x]), 2); const std::string d2 = ds + fmt(" f=%.4g theta=%.4g phi=%.4g", fr[k], an[x].theta, an[x].phi);
         M.expect(std::abs(Pp.far[x][k] + Mm.far[x][k] - 2 * la * la * A.far[x][k] - 2 * lb * lb * B.far[x][k]) <= 1e-10 * sc, "not-linear", d2); M.expect(Z.far[x][k] == 0 && Z.rcs[x][k] == 0, "nothing-radiates", d2 + fmt(" %.3g", Z.far[x][k])); M.expect(V.err.empty() && std::abs(V.far[x][k] - A.far[x][k]) <= 1e-9 * s1, "translation", d2 + fmt(" %.10g moved %.10g", A.far[x][k], V.err.empty() ? V.far[x][k] : NAN)); M.expect(W.err.empty() && std::abs(W.far[x][k] - A.far[x][k]) <= 1e-9 * s1, "time-shift", d2);
         M.expect(R.err.empty() && std::abs(R.far[1 - x][1 - k] - A.far[x][k]) <= 1e-12 * s1, "repeated-request", d2 + fmt(" %.10g repeated %.10g", A.far[x][k], R.err.empty() ? R.far[1 - x][1 - k] : NAN)); M.event("identity", fmt("%s %d", sn(s), order));
      }
   }
}
// Electric dipole of moment Il along u at o; magnetic one by duality. Time factor exp(+jwt).
static std::array<Cx, 6> dipole(const P3& x, const P3& o, const P3& u, double k, bool magnetic)
{
   P3 d = x - o; const double rr = norm(d); P3 n = (1 / rr) * d; const Cx j(0, 1), ph = std::polar(1.0, -k * rr), a = 1.0 + 1.0 / (j * k * rr), b = a - 1.0 / (k * k * rr * rr); P3 nu = cross(u, n); const double c = dot(u, n); std::array<Cx, 3> Ef, Hf; for (int i = 0; i < 3; i++) { Hf[i] = j * k / (4 * PI * rr) * a * nu[i] * ph; Ef[i] = (2 * c * n[i]) / (4 * PI * rr * rr) * a * ph + j * k / (4 * PI * rr) * b * (c * n[i] - u[i]) * ph; }
   if (!magnetic) { return { Ef[0], Ef[1], Ef[2], Hf[0], Hf[1], Hf[2] }; } return { -Hf[0], -Hf[1], -Hf[2], Ef[0], Ef[1], Ef[2] };
}
// Known radiators inside a closed surface, and waves that only pass through it.
SECTION(known)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(14, 240); i++) {
      Shape s = shapes[i % 4]; const int dim = shapeDim(s), order = s == HEX ? 4 : s == TET ? 3 : 4; GMesh g = surfaceMesh(r, s, dim == 2 ? 6 : 3, true, r.coin(), 1.0); const double f = r.uni(0.12, 0.3), k = 2 * PI * f; auto an = angles(r, dim, 5); waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); const int per = r.range(3, 9), np = r.range(1, 2); const int what = r.below(3); const std::string ds = fmt("%s ne=%zu order=%d f=%.4g kind=%d sampling %dx%d #%d", sn(s), g.el.size(), order, f, what, per, np, i); M.label(ds);
      std::function<std::array<Cx, 6>(const P3&)> F; std::function<double(const SphericalAngles&)> want; const Cx amp = std::polar(r.uni(0.5, 2), r.uni(0, 6)); P3 o{ r.uni(-0.1, 0.1), r.uni(-0.1, 0.1), dim > 2 ? r.uni(-0.1, 0.1) : 0 }, u = r.unit(); const bool mag = r.coin();
      if (what < 2 && dim == 3) { F = [=](const P3& x) { auto v = dipole(x, o, u, k, mag); for (auto& z : v) { z *= amp; } return v; }; want = [=](const SphericalAngles& a) { P3 n{ std::sin(a.theta) * std::cos(a.phi), std::sin(a.theta) * std::sin(a.phi), std::cos(a.theta) }; return k * k * std::norm(amp / 2.0) / (32 * PI * PI) * (1 - std::pow(dot(u, n), 2)); }; }
      else if (what < 2) { // line currents along z, electric (Ez, Hx, Hy) or magnetic (Hz, Ex, Ey)
         F = [=](const P3& x) { P3 d = x - o; d[2] = 0; const double rr = norm(d); const Cx h0(std::cyl_bessel_j(0, k * rr), -std::cyl_neumann(0, k * rr)), h1(std::cyl_bessel_j(1, k * rr), -std::cyl_neumann(1, k * rr)), j(0, 1); const Cx e = -k / 4 * h0 * amp, hphi = -j * k / 4.0 * h1 * amp; const double cx = d[0] / rr, cy = d[1] / rr; std::array<Cx, 6> v{}; if (!mag) { v[2] = e; v[3] = -cy * hphi; v[4] = cx * hphi; } else { v[5] = e; v[0] = cy * hphi; v[1] = -cx * hphi; } return v; };
         want = [=](const SphericalAngles&) { return k * k / 32 * std::norm(amp / 2.0); };
      } else { P3 d = dim == 3 ? r.unit() : unit(P3{ r.normal(), r.normal(), 0 }), e = unit(cross(d, r.unit())), h = cross(d, e); F = [=](const P3& x) { Cx ph = amp * std::polar(1.0, -k * dot(d, x)); return std::array<Cx, 6>{ e[0] * ph, e[1] * ph, e[2] * ph, h[0] * ph, h[1] * ph, h[2] * ph }; }; want = [](const SphericalAngles&) { return 0.0; }; }
      Record q = harmonic(g, order, mfem::BasisType::GaussLobatto, f, per, np, F); auto res = process({ &q }, { f }, an); if (!M.expect(res.err.empty(), "failed", ds + res.err)) { continue; }
      for (size_t a = 0; a < an.size(); a++) { const double sc = powerFactor(dim, f) * std::pow(size({ &q }, f, an[a]), 2), w = want(an[a]), peak = what < 2 ? powerFactor(dim, f) * std::norm(amp / 2.0) : 0; const std::string d2 = ds + fmt(" theta=%.4g phi=%.4g got %.8g want %.8g", an[a].theta, an[a].phi, res.far[a][0], w); if (what < 2) { M.expect(std::abs(res.far[a][0] - w) <= 0.02 * peak, "radiator", d2); M.event("known radiator", fmt("%s mag=%d", sn(s), mag)); } else { M.expect(res.far[a][0] <= 1e-5 * sc, "wave-radiates", d2 + fmt(" scale %.3g", sc)); M.event("passing wave", sn(s)); } }
   }
}
// The older path over folders of grid functions, one rank: same radiation vectors, and its cross section does not depend on how densely the record was sampled.
SECTION(folders)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(24, 600); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s), order = r.range(1, dim == 2 ? 3 : 2); GMesh g = surfaceMesh(r, s, dim == 2 ? 3 : 2, r.coin(), true); const int basis = r.pick({ mfem::BasisType::GaussLobatto, mfem::BasisType::GaussLegendre }); Record q = randomRecord(r, g, order, basis, r.range(1, 7), 0.3); std::vector<double> fr{ r.uni(0.02, 0.2), r.uni(0.02, 0.2) }, fh = fr; for (auto& x : fh) { x *= C; } auto an = angles(r, dim, 2); if (dim == 2) { for (auto& a : an) { a.theta = M_PI_2; } } const double sp = r.uni(0.4, 1.5), mean = -r.uni(0.2, 2); waveCase("wave.json", sp, { mean, 0, 0 }, { 1, 0, 0 }); const std::string ds = fmt("%s ne=%zu order=%d basis=%d frames=%zu #%d", sn(s), g.el.size(), order, basis, q.t.size(), i); M.label(ds);
      fs::remove_all("data"); q.writeFolders("data/rank0"); std::string err; std::map<std::pair<int, int>, double> got; { Quiet z; try { FarField ff("data/rank0", "wave.json", fr, an); for (int a = 0; a < 2; a++) for (int k = 0; k < 2; k++) { got[{ a, k }] = ff.getPotRad(an[a], fr[k]); } } catch (const std::exception& e) { err = e.what(); } } if (!M.expect(err.empty(), "folders-failed", ds + err)) { continue; }
      for (int a = 0; a < 2; a++) for (int k = 0; k < 2; k++) { auto w = radiate(q, fr[k], an[a].theta, an[a].phi, INFINITY, 2); const double cf = powerFactor(3, fr[k]); M.expect(std::abs(got[{ a, k }] - cf * w.power()) <= 2e-5 * cf * w.size * w.size, "folders-pattern", ds + fmt(" %.8g for %.8g", got[{ a, k }], cf * w.power())); M.event("folder pattern", fmt("%s %d", sn(s), order)); }
      { Quiet z; try { RCSManager m("data", "wave.json", fh, an); } catch (const std::exception& e) { err = e.what(); } } if (!M.expect(err.empty(), "folders-rcs-failed", ds + err)) { continue; }
      for (int a = 0; a < 2; a++) { const std::string sfx = "Th_" + std::to_string(an[a].theta) + "_Phi_" + std::to_string(an[a].phi) + "_dgtd.dat"; auto t = readTable("data/rcs/rcsData_" + sfx, 1); bool ok = t.size() == 2; for (int k = 0; ok && k < 2; k++) { auto w = radiate(q, fr[k], an[a].theta, an[a].phi, INFINITY, 2); const double inc = incident(q.t, fr[k], sp, mean), cf = 4 * PI / inc * powerFactor(3, fr[k]); if (inc < 1e-12) { continue; } M.expect(t[k].size() == 5 && t[k][3] >= 0 && std::abs(t[k][3] - cf * w.power()) <= 2e-5 * cf * (w.size * w.size + w.power()), "folders-cross-section", ds + fmt(" %.8g for %.8g", t[k].size() > 3 ? t[k][3] : NAN, cf * w.power())); M.event("folder cross section"); } M.expect(ok, "folders-file", ds); }
   }
}
// The transform of one component: amplitude and phase of each tone, nothing of the others.
SECTION(transform)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(300, 10000); i++) {
      const int n = r.range(8, 64), tones = r.range(1, 3); const double T = r.uni(1, 50); std::set<int> used; std::vector<double> fr; std::vector<Cx> amp; for (int k = 0; k < tones; k++) { int h; do { h = r.range(1, (n - 1) / 2); } while (used.count(h)); used.insert(h); fr.push_back(h / T); amp.push_back(std::polar(r.uni(0.1, 3), r.uni(0, 2 * PI))); }
      if (i % 16 == 0) { M.label(fmt("transform %d", i)); } std::vector<Cx> sum(tones); const double t0 = r.uni(0, 3); for (int q = 0; q < n; q++) { const double t = t0 + T * q / n; mfem::Vector g(2); g[0] = g[1] = 0; for (int k = 0; k < tones; k++) { g[0] += (amp[k] * std::polar(1.0, 2 * PI * fr[k] * t)).real(); } g[1] = -2 * g[0]; auto d = calculateDFT(g, fr, t); if (!M.expect((int)d.size() == tones && d[0].size() == 2, "transform-shape")) { break; } for (int k = 0; k < tones; k++) { sum[k] += d[k][0]; M.expect(std::abs(d[k][1] + 2.0 * d[k][0]) <= 1e-12 * (1 + std::abs(d[k][1])), "transform-linear"); } }
      for (int k = 0; k < tones; k++) { Cx got = 2.0 / n * sum[k]; M.expect(std::abs(got - amp[k]) <= 1e-9, "transform", fmt("tone %d of %d got %.6g%+.6gi want %.6g%+.6gi", k, tones, got.real(), got.imag(), amp[k].real(), amp[k].imag())); M.event("tone", fmt("%d of %d n=%d", k, tones, n)); }
   }
}
// Requests that have no answer are refused.
SECTION(refused)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(12, 200); i++) {
      Shape s = shapes[i % 4]; const int dim = shapeDim(s); GMesh g = surfaceMesh(r, s, 2, true, false); Record q = randomRecord(r, g, 1, mfem::BasisType::GaussLobatto, 3, 0.3); auto an = angles(r, dim, 1); M.label(fmt("refused %s", sn(s))); { json j; j["model"]["filename"] = "x.msh"; j["sources"] = json::array({ { { "type", "initial" }, { "magnitude", { { "spread", 1.0 } } } } }); std::ofstream("none.json") << j.dump(); } auto o = process({ &q }, { 0.1 }, an, std::nullopt, "none.json"); M.expect(!o.err.empty(), "no-wave-accepted", fmt("%s rcs %.6g", sn(s), o.err.empty() ? o.rcs[0][0] : 0));
      waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); if (dim == 2) { auto p = process({ &q }, { 0.1 }, { { r.uni(0, 1.5), 0.3 } }); M.expect(!p.err.empty(), "off-plane-accepted", sn(s)); } auto z = process({ &q }, { 0.1 }, an, -1.0); M.expect(!z.err.empty(), "empty-window-accepted", sn(s)); M.event("refusal", sn(s));
   }
}
#else
extern "C" { extern int shim_omp_threads, shim_omp_delay; extern long shim_omp_regions, shim_omp_shared; }
// The same far field for every number of threads and every way their work interleaves; the race detector watches.
SECTION(threads)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(24, 200); i++) {
      Shape s = shapes[i % 4]; const int dim = shapeDim(s), order = r.range(1, 2); GMesh g = surfaceMesh(r, s, 2, r.coin(), true); Record q = randomRecord(r, g, order, mfem::BasisType::GaussLobatto, r.range(1, 40), 0.1), p; std::vector<const Record*> rs{ &q }; if (r.coin(0.4)) { p = q; rs.push_back(&p); } std::vector<double> fr; for (int k = r.pick({ 1, 2, 3, 7, 12 }); k > 0; k--) { fr.push_back(r.uni(0.02, 0.15)); } auto an = angles(r, dim, 2); waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); const std::string ds = fmt("%s ne=%zu order=%d frames=%zu frequencies=%zu records=%zu", sn(s), g.el.size(), order, q.t.size(), fr.size(), rs.size()); Out ref;
      for (int th : { 1, 6, r.range(2, 5), r.range(2, 6) }) {
         shim_omp_threads = th; shim_omp_delay = th > 1 ? r.pick({ 0, 200, 2000 }) : 0; shim_omp_regions = shim_omp_shared = 0; M.label(ds + fmt(" threads=%d delay=%d", th, shim_omp_delay)); auto o = process(rs, fr, an); if (!M.expect(o.err.empty(), "threads-failed", ds + o.err)) { break; } if (ref.far.empty()) { ref = o; }
         for (size_t a = 0; a < an.size(); a++) for (size_t k = 0; k < fr.size(); k++) { M.expect(std::abs(o.far[a][k] - ref.far[a][k]) <= 1e-10 * ref.far[a][k] && std::abs(o.rcs[a][k] - ref.rcs[a][k]) <= 1e-10 * ref.rcs[a][k], "threads", ds + fmt(" with %d threads %.12g for %.12g", th, o.far[a][k], ref.far[a][k])); } M.event("transforms", fmt("%s threads=%d delay=%d shared=%d", sn(s), th, shim_omp_delay, shim_omp_shared > 0));
      }
   }
}
#endif
HARNESS_MAIN
