// P15: surface records hold what was computed, survive any split over ranks, and incomplete ones are never used as data.
#include "surf.hpp"
using namespace em;
namespace fs = std::filesystem;
static const double C = 299792458.0, PI = std::acos(-1.0);
static const Shape shapes[] = { TRI, QUAD, TET, HEX };

struct Parsed { bool ok = false; int32_t h[5]; std::vector<P3> x, n; std::vector<double> w, t; std::vector<std::vector<double>> f; size_t left = 0; };
static Parsed parse(const std::string& p)
{
   Parsed q; const std::string b = slurp(p); size_t at = 0; auto get = [&](void* d, size_t n) { if (at + n > b.size()) { return false; } memcpy(d, b.data() + at, n); at += n; return true; }; if (!get(q.h, 20)) { return q; } const int nq = q.h[3], sd = q.h[0], nd = q.h[1]; if (sd < 1 || sd > 3 || nq < 0 || nq > 1000000 || nd < 0 || nd > 10000000) { return q; } q.x.assign(nq, P3{}); q.n.assign(nq, P3{}); q.w.resize(nq); for (auto& v : q.x) if (!get(&v[0], 8 * sd)) { return q; } for (auto& v : q.n) if (!get(&v[0], 24)) { return q; } for (auto& v : q.w) if (!get(&v, 8)) { return q; } q.ok = true;
   while (at + 8 + 48 * (size_t)nd <= b.size()) { double t; get(&t, 8); std::vector<double> v(6 * (size_t)nd); get(v.data(), 48 * (size_t)nd); q.t.push_back(t); q.f.push_back(v); } q.left = b.size() - at; return q;
}
static Sources start(Rng& r, const GMesh& g)
{
   Sources s; const int dim = g.dim(); P3 c{}; for (auto& x : g.x) { c = c + (1.0 / g.x.size()) * x; } mfem::Vector m(dim); for (int i = 0; i < dim; i++) { m[i] = c[i] + r.uni(-0.2, 0.2); }
   for (int k = 0; k < 2; k++) { Gaussian ga(r.uni(0.25, 0.6), m, dim); Polarization p(3); P3 q = r.unit(); for (int i = 0; i < 3; i++) { p[i] = q[i]; } s.add(InitialField(ga, k ? H : E, p, m)); } return s;
}
struct Frame { double t; mfem::Vector v; };
static mfem::Vector stateOf(maxwell::Solver& s)
{
   auto& f = s.getFields(); const int n = f.get(E, X).Size(); mfem::Vector v(6 * n); int k = 0; for (auto ft : { E, H }) for (auto d : { X, Y, Z }) { for (int i = 0; i < n; i++) { v[k++] = f.get(ft, d)[i]; } } return v;
}
// A box with an inner block whose elements are numbered before or after all others, as meshes grouped by volume are.
static Setup block(Rng& r, Shape s, Region& reg, int order)
{
   Setup u = surfaceProblem(r, s, reg, order, true); const bool first = r.coin(); std::vector<El> el; std::vector<char> in; for (int pass = 0; pass < 2; pass++) for (size_t e = 0; e < u.g.el.size(); e++) if ((bool)reg.tf[e] == (pass == 0 ? first : !first)) { el.push_back(u.g.el[e]); in.push_back(reg.tf[e]); } u.g.el = el; reg.tf = in; for (auto& b : u.g.bd) if (b.attr == reg.tag && r.coin()) { std::reverse(b.v.begin(), b.v.end()); } u.tfsf.clear(); u.op = Global; u.basis = r.pick({ mfem::BasisType::GaussLobatto, mfem::BasisType::GaussLegendre }); u.sources = start(r, u.g); u.dt = r.uni(0.002, 0.008) / (order * order); return u;
}
static int steps(double tf, double dt) { return std::max(0, (int)std::ceil(tf / dt - 1e-8)); }
// The record an ideal writer would have produced, from the elements of one side of the surface.
static Record ideal(const Setup& u, const Region& reg, bool inner, const std::vector<Frame>& fr, const std::vector<int>& at)
{
   Record q; q.g = u.g; q.order = u.order; q.basis = u.basis; std::map<std::vector<int>, int> attr; for (auto& b : u.g.bd) { auto k = b.v; std::sort(k.begin(), k.end()); attr[k] = b.attr; } std::vector<char> keep(u.g.el.size()); std::set<std::vector<int>> surf; for (auto& kv : u.g.faces()) { auto it = attr.find(kv.first); if (it != attr.end() && it->second == reg.tag) { surf.insert(kv.first); for (int e : { kv.second.e1, kv.second.e2 }) if ((bool)reg.tf[e] == inner) { keep[e] = 1; } } }
   for (int k : at) { Fields6 f; const int n = fr[k].v.Size() / 6; for (int c = 0; c < 6; c++) { f[c].SetSize(n); for (int i = 0; i < n; i++) { f[c][i] = fr[k].v[c * n + i]; } } q.t.push_back(fr[k].t); q.f.push_back(f); }
   q.g.bd.clear(); Record p = q.part([&](int e) { return (bool)keep[e]; }); p.g.bd.clear(); std::map<std::vector<double>, int> id; auto key = [](const P3& x) { return std::vector<double>{ x[0], x[1], x[2] }; }; for (size_t v = 0; v < u.g.x.size(); v++) { id[key(u.g.x[v])] = (int)v; } for (auto& kv : p.g.faces()) if (kv.second.e2 < 0) { std::vector<int> k; for (int v : kv.second.v) { k.push_back(id[key(p.g.x[v])]); } std::sort(k.begin(), k.end()); p.g.bd.push_back({ kv.second.v, surf.count(k) ? NTFF : 1 }); } return p;
}
static std::vector<SphericalAngles> angles(Rng& r, int dim, int n) { std::vector<SphericalAngles> a; for (int i = 0; i < n; i++) { a.push_back({ dim == 2 ? PI / 2 : r.uni(0, PI), r.uni(0, 2 * PI) }); } return a; }
struct Out { std::vector<double> far; std::string err; };
static Out evaluate(const std::string& dir, const std::vector<double>& fr, const std::vector<SphericalAngles>& an)
{
   Out o; std::vector<double> f = fr; for (auto& x : f) { x *= C; } waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); Quiet q; try { RCSSurfacePostProcessor pp(dir, "wave.json", f, an); for (auto& a : an) for (auto& x : f) { o.far.push_back(pp.getFarField(a, x / physicalConstants::speedOfLight_SI)); } } catch (const std::exception& e) { o.err = e.what(); if (o.err.empty()) { o.err = "exception"; } } return o;
}
static std::vector<double> want(const std::vector<const Record*>& rs, const std::vector<double>& fr, const std::vector<SphericalAngles>& an, std::vector<double>& scale, int extra = 2)
{
   std::vector<double> w; scale.clear(); for (auto& a : an) for (double f : fr) { Amp s; for (auto* q : rs) { s += radiate(*q, f, a.theta, a.phi, INFINITY, extra); } const double c = powerFactor(rs[0]->dim(), f); w.push_back(c * s.power()); scale.push_back(c * s.size * s.size); } return w;
}
// Integrals over the surface: area, normals, first moments, normals times positions, second moments.
static std::vector<double> moments(const std::vector<P3>& x, const std::vector<P3>& n, const std::vector<double>& w)
{
   std::vector<double> m(1 + 3 + 3 + 9 + 6, 0.0); for (size_t i = 0; i < x.size(); i++) { int k = 0; m[k++] += w[i]; for (int a = 0; a < 3; a++) { m[k++] += w[i] * n[i][a]; } for (int a = 0; a < 3; a++) { m[k++] += w[i] * x[i][a]; } for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { m[k++] += w[i] * n[i][a] * x[i][b]; } for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) { m[k++] += w[i] * x[i][a] * x[i][b]; } } return m;
}
static void geometryOf(const Record& q, std::vector<P3>& x, std::vector<P3>& n, std::vector<double>& w)
{
   std::ofstream("ideal.bin", std::ios::binary).write(q.bytes().data(), (long)q.bytes().size()); auto p = parse("ideal.bin"); x.insert(x.end(), p.x.begin(), p.x.end()); n.insert(n.end(), p.n.begin(), p.n.end()); w.insert(w.end(), p.w.begin(), p.w.end());
}
static double worst(const std::vector<double>& a, const std::vector<double>& b) { double w = a.size() == b.size() ? 0 : INFINITY; for (size_t i = 0; i < a.size() && i < b.size(); i++) { double e = std::abs(a[i] - b[i]); if (!(e <= w)) { w = e; } } return w; }
// Matches the points of a saved mesh with those of the ideal record; -1 where there is none.
static std::vector<int> matchDofs(const std::string& meshFile, const Record& q, int& unmatched, int& elements)
{
   mfem::Mesh m = mfem::Mesh::LoadFromFile(meshFile, 1, 0); auto o = q.g.mfem(); const int dim = q.dim(); mfem::DG_FECollection fec(q.order, dim, q.basis); mfem::FiniteElementSpace a(&m, &fec), b(&o, &fec); auto ap = dofPos(a), bp = dofPos(b); auto ae = dofElem(a), be = dofElem(b); std::vector<int> par(m.GetNE(), -1); for (int e = 0; e < m.GetNE(); e++) { mfem::Vector c; m.GetElementCenter(e, c); for (int p = 0; p < o.GetNE(); p++) { mfem::Vector d; o.GetElementCenter(p, d); double s = 0; for (int k = 0; k < dim; k++) { s += std::abs(c[k] - d[k]); } if (s < 1e-9) { par[e] = p; } } } std::vector<int> r(ap.size(), -1); unmatched = 0; elements = m.GetNE(); for (size_t i = 0; i < ap.size(); i++) { for (size_t j = 0; j < bp.size(); j++) if (be[j] == par[ae[i]] && norm(ap[i] - bp[j]) < 1e-9) { r[i] = (int)j; } unmatched += r[i] < 0; } return r;
}
#ifndef READER
// Runs of the solver with a surface probe: file contents, geometry, schedule and the far field computed from it.
SECTION(record)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(44, 900); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); Region reg; const int order = r.range(1, dim == 2 ? 3 : 2); Setup u = block(r, s, reg, order); u.tf = u.dt * (r.coin(0.2) ? r.range(0, 9) : r.uni(0.2, 12)); const int N = steps(u.tf, u.dt); RCSSurfaceProbe p; p.name = "surf"; p.tags = { reg.tag }; const bool saves = r.coin(0.3); const int every = r.pick({ 1, 2, 3, N + 1 }); if (saves) { p.saves = r.range(1, std::max(1, N)); } else { p.expSteps = every; } u.probes.rcsSurfaceProbes.push_back(p); u.name = "surface"; const std::string ds = u.str() + fmt(" ne=%zu basis=%d dt=%.5g tf=%.5g %s %d", u.g.el.size(), u.basis, u.dt, u.tf, saves ? "saves" : "every", saves ? p.saves : every); M.label(ds); fs::remove_all("Exports"); std::vector<Frame> fr; { Quiet q; auto sv = u.solver(); fr.push_back({ sv->getTime(), stateOf(*sv) }); while (sv->getTime() <= u.tf - 1e-8 * u.dt && fr.size() < 100) { sv->step(); fr.push_back({ sv->getTime(), stateOf(*sv) }); } }
      const std::string base = "Exports/single-core/surface/RCSSurface/surf", dir = base + "/rank0"; auto got = parse(dir + "/surface_data.bin"); if (!M.expect(got.ok && !got.left && fs::exists(dir + "/mesh"), "unreadable", ds)) { continue; }
      // schedule
      std::vector<int> at; bool known = true; for (double t : got.t) { int k = -1; for (size_t c = 0; c < fr.size(); c++) if (fr[c].t == t) { k = (int)c; } known = known && k >= 0 && (at.empty() || k > at.back()); at.push_back(k); } if (!M.expect(known && !at.empty(), "times", ds + fmt(" %zu snapshots", at.size()))) { continue; } M.expect(at.front() == 0 && at.back() == N, "ends", ds + fmt(" from %d to %d of %d", at.front(), at.back(), N)); auto cyc = [&](int e) { std::set<int> c; for (int k = 0; k <= N; k += e) { c.insert(k); } c.insert(N); return std::vector<int>(c.begin(), c.end()); }; bool ok = false; if (saves) { for (int tot = std::max(0, N - 1); tot <= N + 1; tot++) { ok = ok || cyc(std::max(1, tot / p.saves)) == at; } } else { ok = cyc(every) == at; } M.expect(ok, "interval", ds + fmt(" %zu snapshots in %d steps", at.size(), N));
      // which side: all of it from one
      Record side[2] = { ideal(u, reg, false, fr, at), ideal(u, reg, true, fr, at) }; int un[2], ne; std::vector<int> map[2] = { matchDofs(dir + "/mesh", side[0], un[0], ne), matchDofs(dir + "/mesh", side[1], un[1], ne) }; const int in = un[1] == 0 && ne == (int)side[1].g.el.size() ? 1 : 0; if (!M.expect(un[in] == 0 && ne == (int)side[in].g.el.size(), "elements", ds + fmt(" %d elements, unmatched points %d outside %d inside of %zu", ne, un[0], un[1], map[0].size()))) { continue; } const Record& q = side[in]; const int nd = q.ndofs();
      M.expect(got.h[0] == dim && got.h[1] == nd && got.h[4] == u.basis, "header", ds + fmt(" %d %d %d %d %d", got.h[0], got.h[1], got.h[2], got.h[3], got.h[4])); if (got.h[1] != nd) { continue; }
      size_t bad = 0; for (size_t k = 0; k < at.size(); k++) for (int c = 0; c < 6; c++) for (int j = 0; j < nd; j++) { bad += got.f[k][c * nd + j] != q.f[k][c][map[in][j]]; } M.expect(!bad, "values", ds + fmt(" %zu of %zu values differ", bad, at.size() * 6 * nd)); M.event("snapshot compared", fmt("%s %d", shapeName(s), order));
      std::vector<P3> x, n; std::vector<double> w; Record fine = q; fine.order = order + 2; geometryOf({ q.g, order + 1, q.basis, {}, {} }, x, n, w); double un1 = 0; for (auto& v : got.n) { un1 = std::max(un1, std::abs(norm(v) - 1)); } for (double v : got.w) { un1 = v > 0 ? un1 : INFINITY; } M.expect(un1 <= 1e-12, "unit-normals", ds); auto a = moments(got.x, got.n, got.w), b = moments(x, n, w); M.expect(worst(a, b) <= 1e-10 * (1 + b[0]), "geometry", ds + fmt(" worst %.3g area %.8g for %.8g", worst(a, b), a[0], b[0])); M.expect(std::abs(a[1]) + std::abs(a[2]) + std::abs(a[3]) <= 1e-10 * (1 + a[0]), "open-surface", ds); M.event("geometry", fmt("%s nq=%zu", shapeName(s), got.x.size()));
      std::vector<double> f{ r.uni(0.03, 0.12) }, sc; auto an = angles(r, dim, 2); auto o = evaluate(base, f, an); auto wt = want({ &q }, f, an, sc); if (M.expect(o.err.empty(), "far-field-failed", ds + o.err)) { for (size_t k = 0; k < wt.size(); k++) { M.expect(std::abs(o.far[k] - wt[k]) <= 2e-5 * sc[k], "far-field", ds + fmt(" %.8g for %.8g", o.far[k], wt[k])); M.event("far field", shapeName(s)); } }
   }
}
#else
// The same record in one folder or in any number of them.
SECTION(split)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(70, 2000); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); GMesh g = surfaceMesh(r, s, dim == 2 ? 5 : 3, r.coin(), true); Record q = randomRecord(r, g, r.range(1, 2), mfem::BasisType::GaussLobatto, r.range(1, 6), 0.3); std::vector<int> marked; { std::map<std::vector<int>, int> a; for (auto& b : g.bd) { auto k = b.v; std::sort(k.begin(), k.end()); a[k] = b.attr; } std::set<int> m; for (auto& kv : g.faces()) if (kv.second.e2 < 0 && a[kv.first] == NTFF) { m.insert(kv.second.e1); } marked.assign(m.begin(), m.end()); } const int K = r.range(2, std::min<int>(r.coin(0.4) ? 14 : 4, (int)marked.size())); if ((int)marked.size() < 2) { i--; continue; }
      std::vector<int> own(g.el.size(), -1); for (auto& o : own) { o = r.below(K); } for (size_t k = marked.size(); k > 1; k--) { std::swap(marked[k - 1], marked[r.below((int)k)]); } for (int k = 0; k < K; k++) { own[marked[k]] = k; } const std::string ds = fmt("%s ne=%zu order=%d frames=%zu over %d", shapeName(s), g.el.size(), q.order, q.t.size(), K); M.label(ds); fs::remove_all("one"); fs::remove_all("many"); q.write("one/rank0"); for (int k = 0; k < K; k++) { q.part([&](int e) { return own[e] == k; }).write(fmt("many/rank%d", k)); } if (r.coin(0.3)) { fs::create_directories("many/other"); fs::create_directories("many/ranks"); std::ofstream("many/rank77") << "x"; }
      std::vector<double> f{ r.uni(0.03, 0.2), r.uni(0.03, 0.2) }, sc; auto an = angles(r, dim, 2); auto a = evaluate("one", f, an), b = evaluate("many", f, an); want({ &q }, f, an, sc); if (!M.expect(a.err.empty() && b.err.empty(), "split-failed", ds + " " + a.err + b.err)) { continue; } for (size_t k = 0; k < sc.size(); k++) { M.expect(std::abs(a.far[k] - b.far[k]) <= 1e-10 * sc[k], "split", ds + fmt(" one %.12g many %.12g", a.far[k], b.far[k])); M.event("split", fmt("%s K=%d", shapeName(s), K)); }
   }
}
// A writer stopped at any byte.
SECTION(truncated)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(16, 200); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); GMesh g = surfaceMesh(r, s, 2, true, true); Record q = randomRecord(r, g, 1, mfem::BasisType::GaussLobatto, r.range(1, 4), 0.3); Record twin = randomRecord(r, surfaceMesh(r, s, 1, true, true), 1, mfem::BasisType::GaussLobatto, (int)q.t.size(), 0.3); twin.t = q.t; const long all = (long)q.bytes().size(), head = (long)q.headBytes(), frame = (long)q.frameBytes(); std::vector<double> f{ 0.1 }; auto an = angles(r, dim, 1); std::vector<double> whole(q.t.size() + 1); for (size_t k = 1; k <= q.t.size(); k++) { Record c = q; c.t.resize(k); c.f.resize(k); fs::remove_all("cut"); c.write("cut/rank0"); auto o = evaluate("cut", f, an); whole[k] = o.err.empty() ? o.far[0] : NAN; M.expect(o.err.empty(), "complete-refused", o.err); }
      std::set<long> at{ 0, 1, 4, 19, 20, head - 8, head - 1, head, head + 1, head + 8, all - 1, all }; for (size_t k = 0; k <= q.t.size(); k++) for (long d : { -1, 0, 1, 4, 8, 16 }) { at.insert(head + (long)k * frame + d); } for (int k = 0; k < M.n(14, 60); k++) { at.insert(r.below((int)all + 1)); }
      for (long c : at) {
         if (c < 0 || c > all) { continue; } const int full = c < head ? 0 : (int)((c - head) / frame); const std::string ds = fmt("%s cut at %ld of %ld (header %ld, snapshot %ld)", shapeName(s), c, all, head, frame); M.label(ds); fs::remove_all("cut"); q.write("cut/rank0", c); auto o = evaluate("cut", f, an); if (!full) { M.expect(!o.err.empty(), "incomplete-used", ds + fmt(" gave %.8g", o.err.empty() ? o.far[0] : 0)); } else { M.expect(!o.err.empty() || std::abs(o.far[0] - whole[full]) <= 1e-12 * (1e-30 + std::abs(whole[full])), "tail-used", ds + fmt(" gave %.10g for %.10g", o.err.empty() ? o.far[0] : 0, whole[full])); if (c == all) { M.expect(o.err.empty(), "complete-refused", ds + o.err); } } M.event("cut", fmt("%ld", c < 20 ? c : c < head ? 20 : (c - head) % frame ? 30 + full : 40 + full));
         // beside a rank that completed: instants do not match any more
         if (r.coin(0.2) && full < (int)q.t.size()) { twin.write("cut/rank1"); auto z = evaluate("cut", f, an); M.expect(!z.err.empty(), "uneven-ranks-used", ds); M.event("uneven ranks"); }
      }
   }
}
// Files that do not belong together.
SECTION(inconsistent)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(40, 900); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); GMesh g = surfaceMesh(r, s, 2, true, true); Record q = randomRecord(r, g, 1, mfem::BasisType::GaussLobatto, 3, 0.3); std::vector<double> f{ 0.1 }; auto an = angles(r, dim, 1); fs::remove_all("bad"); q.write("bad/rank0"); const int kind = i % 9; std::string what;
      auto patch = [&](int w, int32_t v) { auto b = q.bytes(); memcpy(b.data() + 4 * w, &v, 4); std::ofstream("bad/rank0/surface_data.bin", std::ios::binary).write(b.data(), (long)b.size()); };
      switch (kind) {
      case 0: { Record p = q; for (auto& t : p.t) { t += r.uni(0.001, 1); } p.write("bad/rank1"); what = "other instants on another rank"; break; }
      case 1: { Record p = q; p.t.pop_back(); p.f.pop_back(); p.write(fmt("bad/rank%d", 1)); what = "fewer snapshots on another rank"; break; }
      case 2: patch(1, q.ndofs() + r.pick({ -1, 1, 7, -q.ndofs(), -2 * q.ndofs() })); what = "number of values"; break;
      case 7: patch(0, 5 - dim); what = "dimension of the other kind"; break;
      case 3: patch(0, r.pick({ 0, 1, 4, -2, 1000000 })); what = "dimension"; break;
      case 4: patch(3, r.pick({ -1, -1000, 2147483647, 1000000000 })); what = "number of points"; break;
      case 5: fs::remove("bad/rank0/mesh"); what = "mesh missing"; break;
      case 6: fs::remove("bad/rank0/surface_data.bin"); what = "data missing"; break;
      default: fs::remove_all("bad/rank0"); what = "no ranks"; }
      const std::string ds = fmt("%s %s", shapeName(s), what.c_str()); M.label(ds); auto o = evaluate("bad", f, an); M.expect(!o.err.empty(), fmt("inconsistent-used-%d", kind), ds + fmt(" gave %.6g", o.err.empty() ? o.far[0] : 0)); M.event("refusal", what);
   }
}
#endif
#ifndef READER
// The solver on several ranks: together they record the surface once, as a single run does.
SECTION(ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(26, 500); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); Region reg; const int order = 1; Setup u = block(r, s, reg, order); u.tf = u.dt * r.uni(1, 5); RCSSurfaceProbe p; p.name = "surf"; p.tags = { reg.tag }; p.expSteps = r.range(1, 2); u.probes.rcsSurfaceProbes.push_back(p); u.name = "surface"; const int ne = (int)u.g.el.size(), P = r.range(2, 4);
      // both sides of the surface stay together
      std::vector<int> root(ne); for (int e = 0; e < ne; e++) { root[e] = e; } std::function<int(int)> find = [&](int x) { return root[x] == x ? x : root[x] = find(root[x]); }; std::map<std::vector<int>, int> attr; for (auto& b : u.g.bd) { auto k = b.v; std::sort(k.begin(), k.end()); attr[k] = b.attr; } for (auto& kv : u.g.faces()) { auto it = attr.find(kv.first); if (it != attr.end() && it->second == reg.tag) { root[find(kv.second.e1)] = find(kv.second.e2); } } std::map<int, int> where; u.part.resize(ne); for (int e = 0; e < ne; e++) { int x = find(e); if (!where.count(x)) { int n = (int)where.size(); where[x] = n < P ? n : r.below(P); } u.part[e] = where[x]; } if ((int)where.size() < P) { i--; continue; } std::set<int> has; for (auto& kv : u.g.faces()) { auto it = attr.find(kv.first); if (it != attr.end() && it->second == reg.tag) { has.insert(u.part[kv.second.e1]); } }
      const std::string ds = u.str() + fmt(" ne=%d P=%d with surface %zu", ne, P, has.size()); M.label(ds); fs::remove_all("Exports"); Setup one = u; one.part.clear(); { Quiet q; auto sv = one.solver(); sv->run(); } auto ref = parse("Exports/single-core/surface/RCSSurface/surf/rank0/surface_data.bin"); if (!M.expect(ref.ok, "serial-unreadable", ds)) { continue; }
      const int bad = shim_mpi_run(P, [&](int) { Quiet q; auto sv = u.solver(); sv->run(); return 0; }, 120); if (!M.expect(!bad, has.size() < (size_t)P ? "rank-without-surface" : "rank-failed", ds + fmt(" code %d", bad))) { continue; }
      const std::string base = fmt("Exports/mpi-%d/surface/RCSSurface/surf", P); std::vector<P3> x, n; std::vector<double> w; bool same = true; int files = 0; for (int k = 0; k < P; k++) { const std::string f = base + fmt("/rank%d/surface_data.bin", k); if (!fs::exists(f)) { M.expect(!has.count(k), "rank-file-missing", ds); continue; } files++; auto q = parse(f); if (!M.expect(q.ok, "rank-unreadable", ds)) { continue; } x.insert(x.end(), q.x.begin(), q.x.end()); n.insert(n.end(), q.n.begin(), q.n.end()); w.insert(w.end(), q.w.begin(), q.w.end()); same = same && q.t == ref.t; } M.expect(same, "rank-times", ds);
      auto a = moments(x, n, w), b = moments(ref.x, ref.n, ref.w); M.expect(x.size() == ref.x.size() && worst(a, b) <= 1e-10 * (1 + b[0]), "rank-geometry", ds + fmt(" %zu points for %zu, area %.8g for %.8g", x.size(), ref.x.size(), a[0], b[0])); std::vector<double> f{ 0.1 }, sc; auto an = angles(r, dim, 2); auto A = evaluate("Exports/single-core/surface/RCSSurface/surf", f, an), B = evaluate(base, f, an); if (M.expect(A.err.empty() && B.err.empty(), "rank-far-field-failed", ds + A.err + B.err)) { for (int k = 0; k < 2; k++) { M.expect(std::abs(A.far[k] - B.far[k]) <= 1e-7 * std::max(A.far[0], A.far[1]), "rank-far-field", ds + fmt(" single %.10g ranks %.10g", A.far[k], B.far[k])); } } M.event("ranks", fmt("%s P=%d files=%d", shapeName(s), P, files));
   }
}
// The older path over folders of grid functions, for one rank and for several.
SECTION(folders)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(12, 300); i++) {
      Shape s = shapes[r.below(4)]; const int dim = shapeDim(s); GMesh g = surfaceMesh(r, s, 2, r.coin(), true); Record q = randomRecord(r, g, 1, mfem::BasisType::GaussLobatto, r.range(2, 5), 0.3); std::vector<int> own(g.el.size(), -1), marked; { std::map<std::vector<int>, int> a; for (auto& b : g.bd) { auto k = b.v; std::sort(k.begin(), k.end()); a[k] = b.attr; } std::set<int> m; for (auto& kv : g.faces()) if (kv.second.e2 < 0 && a[kv.first] == NTFF) { m.insert(kv.second.e1); } marked.assign(m.begin(), m.end()); } const int K = std::min<int>((int)marked.size(), r.range(2, 3)); if (K < 2) { continue; } for (auto& o : own) { o = r.below(K); } for (int k = 0; k < K; k++) { own[marked[k]] = k; }
      const std::string ds = fmt("%s ne=%zu frames=%zu over %d", shapeName(s), g.el.size(), q.t.size(), K); M.label(ds); fs::remove_all("one"); fs::remove_all("many"); q.writeFolders("one/rank0"); for (int k = 0; k < K; k++) { q.part([&](int e) { return own[e] == k; }).writeFolders(fmt("many/rank%d", k)); }
      waveCase("wave.json", 0.8, { -1, 0, 0 }, { 1, 0, 0 }); auto an = angles(r, dim, 1); if (dim == 2) { an[0].theta = M_PI_2; } std::vector<double> f{ 0.1 * C }, far; std::string err; for (const char* d : { "one", "many" }) { Quiet z; try { std::vector<double> ff = f; RCSManager m(d, "wave.json", ff, an); } catch (const std::exception& e) { err = e.what(); } auto t = readTable(std::string(d) + "/farfield/farfieldData_Th_" + std::to_string(an[0].theta) + "_Phi_" + std::to_string(an[0].phi) + "_dgtd.dat", 1); far.push_back(t.size() == 1 && t[0].size() > 3 ? t[0][3] : NAN); }
      if (!M.expect(err.empty() && far[0] >= 0 && far[1] >= 0, "legacy-failed", ds + " " + err)) { continue; } const double z = powerFactor(3, 0.1) * std::pow(radiate(q, 0.1, an[0].theta, an[0].phi, INFINITY, 2).size, 2); double inco = 0; for (int k = 0; k < K; k++) { inco += powerFactor(3, 0.1) * radiate(q.part([&](int e) { return own[e] == k; }), 0.1, an[0].theta, an[0].phi, INFINITY, 2).power(); } M.expect(std::abs(far[0] - far[1]) <= 1e-5 * z, std::abs(far[1] - inco) <= 2e-5 * z ? "legacy-merge-incoherent" : "legacy-merge", ds + fmt(" one %.8g many %.8g", far[0], far[1])); M.event("merged folders", fmt("%s K=%d", shapeName(s), K));
   }
}
#endif
HARNESS_MAIN
