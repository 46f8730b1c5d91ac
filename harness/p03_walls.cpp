// P03: walls act as image fields, nothing passes them, and they act on exactly the faces carrying their tag.
#include "em.hpp"
using namespace em;

static std::vector<int> mirrored(Shape s, const std::vector<int>& v)
{
   switch (s) { case SEG: return { v[1], v[0] }; case TRI: return { v[0], v[2], v[1] }; case QUAD: return { v[0], v[3], v[2], v[1] }; case TET: return { v[0], v[2], v[1], v[3] }; default: return { v[1], v[0], v[3], v[2], v[5], v[4], v[7], v[6] }; }
}
// local dof index in element e of space f closest to a position
struct Locate {
   mfem::FiniteElementSpace& f; std::vector<P3> X; explicit Locate(mfem::FiniteElementSpace& s) : f(s), X(dofPos(s)) {}
   int operator()(int e, const P3& p) { mfem::Array<int> d; f.GetElementDofs(e, d); int b = -1; double m = 1e300; for (int i = 0; i < d.Size(); i++) { double q = norm(X[d[i]] - p); if (q < m) { m = q; b = d[i]; } } return m < 1e-9 ? b : -1; }
};
static EvolutionOperatorType pickOp(Rng& r, Shape s, bool vac) { int k = r.below(s == SEG || !vac ? 2 : 3); return k == 0 ? Global : k == 1 ? Maxwell : Hesthaven; }
static P3 reflect(const P3& v, const P3& n) { return v - 2 * dot(v, n) * n; }

// One half of a mesh that is symmetric about a plane, with a wall on the plane, against the whole mesh with image fields.
static void images(Shape s, int count, int budget, int maxOrder, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      Setup h; const bool vac = r.coin(0.4); auto op = pickOp(r, s, vac); BdrCond wall = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA });
      h.g = randomBox(r, s, budget); const int dim = h.g.dim(); GMesh& g = h.g; const double L = [&] { double m = 0; for (auto& x : g.x) { m = std::max(m, x[0]); } return m; }();
      const int nm = vac ? 1 : 2; g.setAttr([&](const P3&) { return 1 + r.below(nm); }); std::set<int> used; for (auto& e : g.el) { used.insert(e.attr); } for (int t : used) { h.mats.insert({ t, vac ? buildVacuumMaterial() : Material(r.logu(1, 6), r.logu(1, 4), op != Hesthaven && r.coin() ? r.logu(0.1, 5) : 0.0) }); }
      if (dim > 1 && r.coin(0.6)) { double m = 1e9; for (size_t a = 0; a < g.el.size(); a++) for (int p : g.el[a].v) for (int q : g.el[a].v) if (p != q) { m = std::min(m, norm(g.x[p] - g.x[q])); } g.jitter(r, 0.12, { m, m, m }); }
      if (dim > 1 && r.coin()) { g.shuffle(r); } h.order = r.range(1, maxOrder); h.alpha = r.coin() ? 1.0 : r.coin() ? 0.0 : r.uni(); if (wall == BdrCond::SMA) { h.alpha = 1.0; } h.basis = op != Hesthaven && r.coin(0.3) ? mfem::BasisType::GaussLegendre : mfem::BasisType::GaussLobatto;
      BdrCond side[7]; for (auto& b : side) { b = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }); } side[1] = wall;
      Setup f = h; GMesh& w = f.g; const int nv = (int)g.x.size(), ne = (int)g.el.size(); std::vector<int> im(nv);
      for (int k = 0; k < nv; k++) { if (std::abs(g.x[k][0]) < 1e-12) { im[k] = k; } else { im[k] = (int)w.x.size(); P3 p = g.x[k]; p[0] = -p[0]; w.x.push_back(p); } }
      std::vector<int> orig(ne), mir(ne); std::vector<El> el; auto mk = [&](int k) { El e = g.el[k]; std::vector<int> v; for (int q : e.v) { v.push_back(im[q]); } e.v = mirrored(s, v); return e; };
      if (s == SEG) { for (int k = ne - 1; k >= 0; k--) { mir[k] = (int)el.size(); el.push_back(mk(k)); } for (int k = 0; k < ne; k++) { orig[k] = (int)el.size(); el.push_back(g.el[k]); } }
      else { std::vector<int> o; for (int k = 0; k < 2 * ne; k++) { o.push_back(k); } for (size_t k = o.size(); k > 1; k--) { std::swap(o[k - 1], o[r.below((int)k)]); } for (int k : o) { if (k < ne) { orig[k] = (int)el.size(); el.push_back(g.el[k]); } else { mir[k - ne] = (int)el.size(); el.push_back(mk(k - ne)); } } }
      w.el = el; w.tagExterior([&](const P3& c, const P3& n) { return std::abs(std::abs(c[0]) - L) < 1e-9 && std::abs(std::abs(n[0]) - 1) < 1e-9 ? 2 : sideTag(n); }); g.tagExterior([&](const P3&, const P3& n) { return sideTag(n); });
      for (int t = 1; t <= 2 * dim; t++) { h.bdr.insert({ t, side[t] }); if (t > 1) { f.bdr.insert({ t, side[t] }); } }
      P3 n{ 1, 0, 0 }; if (dim > 1 && r.coin(0.4)) { auto R = randomRotation(r, dim); g.affine(R); w.affine(R); n = { R[0][0], R[1][0], R[2][0] }; }
      M.label(fmt("%s %d", what, i)); Evo A(h, op), B(f, op); Locate la(*A.fes), lb(*B.fes); const int na = A.n() / 6, nb = B.n() / 6; auto ea = dofElem(*A.fes); const std::string ds = describe(h) + fmt(" %s wall=%s n=(%.2f,%.2f,%.2f)", opName(op), bcName(wall), n[0], n[1], n[2]);
      std::vector<int> io(na), ii(na); bool ok = nb == 2 * na; for (int k = 0; ok && k < na; k++) { io[k] = lb(orig[ea[k]], la.X[k]); ii[k] = lb(mir[ea[k]], reflect(la.X[k], n)); ok = io[k] >= 0 && ii[k] >= 0; } if (!ok) { M.event("unmatched"); continue; }
      const double sE = wall == BdrCond::PEC ? -1 : wall == BdrCond::PMC ? 1 : 0, sH = wall == BdrCond::PEC ? 1 : wall == BdrCond::PMC ? -1 : 0;
      auto image = [&](const mfem::Vector& v, int k, int ft) { P3 q{ v[(3 * ft) * na + k], v[(3 * ft + 1) * na + k], v[(3 * ft + 2) * na + k] }; return (ft ? sH : sE) * reflect(q, n); };
      for (int q = 0; q < 2; q++) {
         auto x = randomState(r, 6 * na); mfem::Vector y(6 * nb); y = 0.0; for (int k = 0; k < na; k++) for (int ft = 0; ft < 2; ft++) { P3 v = image(x, k, ft); for (int c = 0; c < 3; c++) { y[(3 * ft + c) * nb + io[k]] = x[(3 * ft + c) * na + k]; y[(3 * ft + c) * nb + ii[k]] = v[c]; } }
         auto a = A(x), b = B(y); double e1 = 0, e2 = 0; for (int k = 0; k < na; k++) for (int ft = 0; ft < 2; ft++) { P3 v = image(a, k, ft); for (int c = 0; c < 3; c++) { double p = std::abs(a[(3 * ft + c) * na + k] - b[(3 * ft + c) * nb + io[k]]); if (!(p <= e1)) { e1 = p; } if (wall != BdrCond::SMA) { p = std::abs(v[c] - b[(3 * ft + c) * nb + ii[k]]); if (!(p <= e2)) { e2 = p; } } } }
         M.near(e1 / maxAbs(a), 0, 1e-9, fmt("%s-%s-image", opName(op), bcName(wall)), ds); M.near(e2 / maxAbs(a), 0, 1e-9, fmt("%s-%s-image-side", opName(op), bcName(wall)), ds);
      }
      M.event(fmt("%s as image field", bcName(wall)), ds);
   }
}
SECTION(image_1d2d) { images(SEG, M.n(200, 2000), 5, 5, "seg"); images(TRI, M.n(60, 600), 4, 3, "tri"); images(QUAD, M.n(60, 600), 6, 3, "quad"); }
SECTION(image_3d) { images(TET, M.n(15, 120), 2, 2, "tet"); images(HEX, M.n(15, 120), 3, 2, "hex"); }

// A wall in the interior along a whole plane separates the box into two independent boxes with that wall on the outside.
static void interior(Shape s, int count, int budget, int maxOrder, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      const bool vac = r.coin(0.5); auto op = pickOp(r, s, vac); BdrCond wall = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }); Setup f; int dim = shapeDim(s);
      std::array<int, 3> n; do { n = { r.range(2, 4), dim > 1 ? r.range(1, 2) : 1, dim > 2 ? r.range(1, 2) : 1 }; } while (n[0] * n[1] * n[2] > budget); auto tx = gradedTicks(r, n[0], r.uni(0.8, 2), 0.3); f.g = box(s, tx, gradedTicks(r, n[1], 1, 0.3), gradedTicks(r, n[2], 1, 0.3)); GMesh& g = f.g; const double cut = tx[r.range(1, n[0] - 1)];
      const int nm = vac ? 1 : 2; g.setAttr([&](const P3&) { return 1 + r.below(nm); }); for (int t = 1; t <= nm; t++) { f.mats.insert({ t, vac ? buildVacuumMaterial() : Material(r.logu(1, 6), r.logu(1, 4), r.coin() ? r.logu(0.1, 5) : 0.0) }); }
      std::set<int> used; for (auto& e : g.el) { used.insert(e.attr); } for (int t = 1; t <= nm; t++) if (!used.count(t)) { f.mats.erase(t); }
      if (dim > 1 && r.coin()) { g.shuffle(r); } f.order = r.range(1, maxOrder); f.alpha = r.coin() ? 1.0 : r.coin() ? 0.0 : r.uni(); f.basis = op != Hesthaven && r.coin(0.3) ? mfem::BasisType::GaussLegendre : mfem::BasisType::GaussLobatto;
      g.tagExterior([&](const P3&, const P3& q) { return sideTag(q); }); const int tag = 2 * dim + r.range(1, 2); BdrCond side[7]; for (auto& b : side) { b = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }); } for (int t = 1; t <= 2 * dim; t++) { f.bdr.insert({ t, side[t] }); }
      std::array<P3, 3> Q{ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }; if (dim > 1 && r.coin(0.4)) { Q = randomRotation(r, dim); }
      Setup part[2]; std::vector<int> ids[2]; for (int k = 0; k < 2; k++) { Setup& p = part[k]; p = f; p.g.el.clear(); p.g.bd.clear(); p.bdr.clear(); for (size_t e = 0; e < g.el.size(); e++) if ((g.centre(g.el[e])[0] > cut) == bool(k)) { p.g.el.push_back(g.el[e]); ids[k].push_back((int)e); } std::map<int, int> nu; std::vector<P3> xs; for (auto& e : p.g.el) for (int& v : e.v) { auto it = nu.find(v); if (it == nu.end()) { it = nu.insert({ v, (int)xs.size() }).first; xs.push_back(g.x[v]); } v = it->second; } p.g.x = xs;
         p.g.tagExterior([&](const P3& c, const P3& q) { return std::abs(c[0] - cut) < 1e-9 ? 2 * dim + 1 : sideTag(q); }); std::set<int> have; for (auto& b : p.g.bd) { have.insert(b.attr); } for (int t : have) { p.bdr.insert({ t, t == 2 * dim + 1 ? wall : side[t] }); } std::set<int> ma; for (auto& e : p.g.el) { ma.insert(e.attr); } p.mats.clear(); for (int t : ma) { p.mats.insert({ t, f.mats.at(t) }); } p.g.affine(Q); }
      g.tagInterior([&](const P3& c, const P3& q, int, int) { return std::abs(c[0] - cut) < 1e-9 && std::abs(std::abs(q[0]) - 1) < 1e-9 ? tag : 0; }); f.ibdr.insert({ tag, wall }); g.affine(Q); if (r.coin() && dim > 1) { g.shuffle(r, false, false, false, true); }
      M.label(fmt("%s %d", what, i)); Evo F(f, op); const std::string ds = describe(f) + fmt(" %s interior %s", opName(op), bcName(wall)); auto x = randomState(r, F.n()); auto y = F(x); Locate lf(*F.fes); const int nf = F.n() / 6; double worst = 0;
      for (int k = 0; k < 2; k++) { Evo P(part[k], op); Locate lp(*P.fes); const int np = P.n() / 6; auto ep = dofElem(*P.fes); std::vector<int> m(np); mfem::Vector z(6 * np); for (int j = 0; j < np; j++) { m[j] = lf(ids[k][ep[j]], lp.X[j]); if (m[j] < 0) { M.event("unmatched"); m[j] = 0; } for (int c = 0; c < 6; c++) { z[c * np + j] = x[c * nf + m[j]]; } } auto b = P(z); for (int j = 0; j < np; j++) for (int c = 0; c < 6; c++) { double e = std::abs(b[c * np + j] - y[c * nf + m[j]]); if (!(e <= worst)) { worst = e; } } }
      M.near(worst / maxAbs(y), 0, 1e-9, fmt("%s-%s-interior", opName(op), bcName(wall)), ds); M.event(fmt("interior %s against two boxes", bcName(wall)), ds);
   }
}
SECTION(interior_1d2d) { interior(SEG, M.n(200, 2000), 4, 5, "seg"); interior(TRI, M.n(60, 600), 6, 3, "tri"); interior(QUAD, M.n(60, 600), 8, 3, "quad"); }
SECTION(interior_3d) { interior(TET, M.n(15, 120), 2, 2, "tet"); interior(HEX, M.n(15, 120), 4, 2, "hex"); }

// Outgoing waves with a polynomial profile leave through an absorbing wall at normal incidence without reflection.
static void outgoing(Shape s, int count, int budget, int maxOrder, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      auto op = pickOp(r, s, true); Setup u; u.g = randomBox(r, s, budget, s == SEG ? 1 : 1, 3); const int dim = u.g.dim(); GMesh& g = u.g; P3 hi{}; for (auto& x : g.x) for (int k = 0; k < 3; k++) { hi[k] = std::max(hi[k], x[k]); }
      g.tagExterior([&](const P3&, const P3& n) { return sideTag(n); }); if (dim > 1 && r.coin()) { g.shuffle(r); } u.order = r.range(1, maxOrder); u.alpha = r.coin(0.3) ? 1.0 : r.coin(0.3) ? 0.0 : r.uni(); u.basis = op != Hesthaven && r.coin(0.3) ? mfem::BasisType::GaussLegendre : mfem::BasisType::GaussLobatto;
      const int ax = r.below(dim), out = 2 * ax + (r.coin() ? 2 : 1); P3 d{}; d[ax] = out % 2 ? -1 : 1; P3 p{}; if (dim == 1) { double a = r.uni(0, 6.28); p = { 0, std::cos(a), std::sin(a) }; } else { p = r.unit(); p[ax] = 0; p = unit(p); } P3 hh = cross(d, p);
      for (int t = 1; t <= 2 * dim; t++) { u.bdr.insert({ t, t == out ? BdrCond::SMA : r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }) }); }
      std::array<P3, 3> Q{ P3{ 1, 0, 0 }, P3{ 0, 1, 0 }, P3{ 0, 0, 1 } }; if (dim > 1 && r.coin(0.4)) { Q = randomRotation(r, dim); } std::vector<char> judged(g.el.size(), 1); std::vector<char> touches(g.el.size(), 0); for (auto& kv : g.faces()) if (kv.second.e2 < 0) { int t = sideTag(unit(g.faceNormal(kv.second))); if (t == out) { touches[kv.second.e1] = 1; } else { judged[kv.second.e1] = 0; } }
      auto rot = [&](const P3& v) { return P3{ dot(Q[0], v), dot(Q[1], v), dot(Q[2], v) }; }; g.affine(Q); P3 dr = rot(d), pr = rot(p), hr = rot(hh); std::vector<double> c; for (int k = 0; k <= u.order; k++) { c.push_back(r.uni(-1, 1)); }
      M.label(fmt("%s %d", what, i)); Evo A(u, op); auto X = dofPos(*A.fes); auto el = dofElem(*A.fes); const int n = A.n() / 6; const std::string ds = describe(u) + fmt(" %s out=%d", opName(op), out); mfem::Vector x(6 * n), want(6 * n);
      for (int j = 0; j < n; j++) { double z = dot(dr, X[j]), f = 0, df = 0; for (size_t k = c.size(); k-- > 0;) { df = df * z + f; f = f * z + c[k]; } for (int k = 0; k < 3; k++) { x[k * n + j] = pr[k] * f; x[(3 + k) * n + j] = hr[k] * f; want[k * n + j] = -pr[k] * df; want[(3 + k) * n + j] = -hr[k] * df; } }
      auto y = A(x); double e = 0; int seen = 0; for (int j = 0; j < n; j++) if (judged[el[j]]) { seen += touches[el[j]]; for (int k = 0; k < 6; k++) { double q = std::abs(y[k * n + j] - want[k * n + j]); if (!(q <= e)) { e = q; } } } if (!seen) { M.event("no element touches only the absorbing wall"); continue; }
      M.near(e / maxAbs(y), 0, 1e-9, fmt("%s-absorbs", opName(op)), ds); M.event("outgoing wave left", ds);
      mfem::Vector zero(6 * n); zero = 0.0; M.expect(maxAbs(A(zero)) == 0.0, fmt("%s-injects", opName(op)), ds);
   }
}
SECTION(absorb_1d2d) { outgoing(SEG, M.n(150, 1500), 6, 5, "seg"); outgoing(TRI, M.n(60, 600), 9, 3, "tri"); outgoing(QUAD, M.n(60, 600), 9, 3, "quad"); }
SECTION(absorb_3d) { outgoing(TET, M.n(20, 100), 18, 1, "tet"); outgoing(HEX, M.n(20, 100), 18, 1, "hex"); }

// Changing the condition of one tag changes the right-hand side in the elements touching its faces and nowhere else.
static void exclusive(Shape s, int count, int budget, int maxOrder, const char* what)
{
   auto r = M.rng(what);
   for (int i = 0; i < count; i++) {
      const bool vac = r.coin(0.4); auto op = pickOp(r, s, vac); Draw d; d.materials = !vac; d.conductive = op != Hesthaven; d.budget = budget; d.maxOrder = maxOrder; d.distort = op != Hesthaven || r.coin(); if (op == Hesthaven) { d.bases = { mfem::BasisType::GaussLobatto }; } Setup u = randomProblem(r, s, d); std::vector<int> tags; for (auto& b : u.bdr) { tags.push_back(b.first); } for (auto& b : u.ibdr) { tags.push_back(b.first); }
      const int t = r.pick(tags); Setup w = u; const bool in = u.ibdr.count(t); BdrCond was = in ? u.ibdr.at(t) : u.bdr.at(t), now; do { now = r.pick({ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }); } while (now == was); (in ? w.ibdr.at(t) : w.bdr.at(t)) = now;
      std::set<std::vector<int>> fs; for (auto& b : u.g.bd) if (b.attr == t) { auto k = b.v; std::sort(k.begin(), k.end()); fs.insert(k); } std::vector<char> touch(u.g.el.size(), 0); for (auto& kv : u.g.faces()) if (fs.count(kv.first)) { touch[kv.second.e1] = 1; if (kv.second.e2 >= 0) { touch[kv.second.e2] = 1; } }
      M.label(fmt("%s %d", what, i)); Evo A(u, op), B(w, op); auto x = randomState(r, A.n()); auto a = A(x), b = B(x); auto el = dofElem(*A.fes); const int n = A.n() / 6; const std::string ds = describe(u) + fmt(" %s tag %d %s to %s", opName(op), t, bcName(was), bcName(now)); std::vector<double> diff(touch.size(), 0); for (int j = 0; j < n; j++) for (int c = 0; c < 6; c++) { diff[el[j]] = std::max(diff[el[j]], std::abs(a[c * n + j] - b[c * n + j])); }
      bool same = true, changed = true; for (size_t e = 0; e < touch.size(); e++) { if (!touch[e] && diff[e] > 1e-12 * maxAbs(a)) { same = false; } if (touch[e] && !(diff[e] > 1e-9)) { changed = false; } }
      M.expect(same, fmt("%s-elsewhere", opName(op)), ds); M.expect(changed, fmt("%s-not-applied", opName(op)), ds); M.event(in ? "interior tag changed" : "exterior tag changed", ds);
   }
}
SECTION(tags_1d2d) { exclusive(SEG, M.n(150, 1500), 7, 5, "seg"); exclusive(TRI, M.n(50, 500), 6, 3, "tri"); exclusive(QUAD, M.n(50, 500), 9, 3, "quad"); }
SECTION(tags_3d) { exclusive(TET, M.n(10, 100), 3, 2, "tet"); exclusive(HEX, M.n(12, 100), 6, 2, "hex"); }
HARNESS_MAIN
