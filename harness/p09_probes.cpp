// P09: probes record the discrete solution at the requested place and times, and only record.
#include "case.hpp"
using namespace em;
namespace fs = std::filesystem;
static const double C = 299792458.0;
static const Shape shapes[] = { SEG, TRI, QUAD, TET, HEX };

struct Frame { double t; mfem::Vector v; };
static mfem::Vector stateOf(maxwell::Solver& s) { auto& f = s.getFES(); const int n = f.GetNDofs(); mfem::Vector v(6 * n); int k = 0; for (auto ft : { E, H }) for (auto d : { X, Y, Z }) { auto& g = s.getConstField(ft, d); for (int i = 0; i < n; i++) { v[k++] = g[i]; } } return v; }
// A reference point of the shape: inside, on a face, or at a corner.
static mfem::IntegrationPoint refPoint(Rng& r, Shape s, int where)
{
   const int dim = shapeDim(s); double x[3] = { 0, 0, 0 }; const bool simplex = s == TRI || s == TET;
   for (;;) { double sum = 0; for (int i = 0; i < dim; i++) { x[i] = r.uni(0.02, 0.98); sum += x[i]; } if (!simplex || sum < 0.98) { break; } }
   if (where == 1) { int a = r.below(simplex ? dim + 1 : dim); if (a < dim) { x[a] = simplex ? 0 : r.below(2); } else { double sum = 0; for (int i = 0; i < dim; i++) { sum += x[i]; } for (int i = 0; i < dim; i++) { x[i] /= sum; } } }
   if (where == 2) { if (simplex) { int a = r.below(dim + 1); for (int i = 0; i < dim; i++) { x[i] = i == a; } } else { for (int i = 0; i < dim; i++) { x[i] = r.below(2); } } }
   mfem::IntegrationPoint ip; ip.Set3(x[0], x[1], x[2]); return ip;
}
// Values the discrete solution takes at a position: one per element that contains it.
struct Spot {
   P3 x{}; std::vector<std::pair<mfem::Array<int>, mfem::Vector>> in; // dofs, shape values
   void locate(mfem::FiniteElementSpace& f, double tol = 1e-9)
   {
      const int dim = f.GetMesh()->Dimension();
      for (int e = 0; e < f.GetNE(); e++) {
         auto* T = f.GetElementTransformation(e); mfem::Vector p(dim), q(dim); for (int i = 0; i < dim; i++) { p[i] = x[i]; } mfem::IntegrationPoint ip; ip.Set3(dim ? 0.3 : 0, 0.3, 0.3); bool ok = false;
         for (int it = 0; it < 60; it++) { T->SetIntPoint(&ip); T->Transform(ip, q); mfem::Vector d(dim), u(dim); for (int i = 0; i < dim; i++) { d[i] = p[i] - q[i]; } mfem::DenseMatrix J = T->Jacobian(); J.Invert(); J.Mult(d, u); ip.x += u[0]; if (dim > 1) { ip.y += u[1]; } if (dim > 2) { ip.z += u[2]; } if (std::abs(ip.x) > 5 || std::abs(ip.y) > 5 || std::abs(ip.z) > 5) { break; } if (u.Norml2() < 1e-14) { ok = true; break; } if (it > 40 && u.Norml2() < 1e-12) { ok = true; break; } }
         if (!ok) { continue; } const auto g = f.GetFE(e)->GetGeomType(); double lo = std::min({ ip.x, dim > 1 ? ip.y : 1.0, dim > 2 ? ip.z : 1.0 }), hi = (g == mfem::Geometry::TRIANGLE || g == mfem::Geometry::TETRAHEDRON) ? ip.x + ip.y + (dim > 2 ? ip.z : 0) : std::max({ ip.x, dim > 1 ? ip.y : 0.0, dim > 2 ? ip.z : 0.0 });
         if (lo < -tol || hi > 1 + tol) { continue; } mfem::Array<int> d; f.GetElementDofs(e, d); mfem::Vector sh(f.GetFE(e)->GetDof()); f.GetFE(e)->CalcShape(ip, sh); in.emplace_back(d, sh);
      }
   }
   double value(const mfem::Vector& st, int comp, size_t k) const { const int n = st.Size() / 6; double v = 0; for (int i = 0; i < in[k].first.Size(); i++) { v += in[k].second[i] * st[comp * n + in[k].first[i]]; } return v; }
};
static Sources start(Rng& r, const GMesh& g)
{
   Sources s; const int dim = g.dim(); P3 c{}; for (auto& x : g.x) { c = c + (1.0 / g.x.size()) * x; } mfem::Vector m(dim); for (int i = 0; i < dim; i++) { m[i] = c[i] + r.uni(-0.2, 0.2); }
   for (int k = 0; k < 2; k++) { Gaussian ga(r.uni(0.25, 0.6), m, dim); Polarization p(3); P3 q = r.unit(); for (int i = 0; i < 3; i++) { p[i] = q[i]; } s.add(InitialField(ga, k ? H : E, p, m)); } return s;
}
static int actualSteps(double tf, double dt) { return std::max(0, (int)std::ceil(tf / dt - 1e-8)); }
// Cycles at which a probe must have recorded in a run of N steps.
static std::set<int> cycles(int every, int N) { std::set<int> c; for (int k = 0; k <= N; k += every) { c.insert(k); } c.insert(N); return c; }
// The interval promised by "saves": total steps / saves, where rounding of the run length may count one step more or less.
static bool intervalMatches(const std::vector<int>& got, int saves, int N, std::string& why)
{
   for (int total = std::max(0, N - 1); total <= N + 1; total++) { auto w = cycles(std::max(1, total / saves), N); if (std::vector<int>(w.begin(), w.end()) == got) { return true; } } why = "cycles"; for (int c : got) { why += fmt(" %d", c); } return false;
}
struct Plan { bool saves; int n; };
static Plan plan(Rng& r, int N) { Plan p; p.saves = r.coin(0.4); p.n = r.pick({ 1, 2, 3, r.range(1, std::max(1, N)), N + 1, std::max(1, N), 50 }); return p; }
static std::string pstr(const Plan& p) { return fmt("%s %d", p.saves ? "saves" : "steps", p.n); }
static void judgeSchedule(const std::vector<double>& times, const std::vector<Frame>& fr, const Plan& p, const std::string& key, const std::string& ds, std::vector<int>& at)
{
   const int N = (int)fr.size() - 1; at.clear(); for (size_t i = 0; i < times.size(); i++) { M.expect(!i || times[i] > times[i - 1], key + "-times-order", ds); int k = -1; for (int c = 0; c <= N; c++) if (fr[c].t == times[i]) { k = c; } if (!M.expect(k >= 0, key + "-time-unknown", ds + fmt(" time %.17g", times[i]))) { at.clear(); return; } at.push_back(k); }
   M.expect(!times.empty() && at.front() == 0, key + "-first-missing", ds); M.expect(!times.empty() && at.back() == N, key + "-last-missing", ds + fmt(" of %d steps", N)); std::string why;
   if (p.saves) { M.expect(intervalMatches(at, p.n, N, why), key + "-interval", ds + " " + why); } else { auto w = cycles(p.n, N); M.expect(std::vector<int>(w.begin(), w.end()) == at, key + "-interval", ds + fmt(" recorded %zu expected %zu", at.size(), w.size())); }
}
static Setup problem(Rng& r, Shape s) { Draw d; d.minOrder = 1; d.conductive = r.coin(); Setup u = randomProblem(r, s, d); u.op = r.pick({ Global, Global, Maxwell }); u.sources = start(r, u.g); u.cfl = 1; u.dt = r.uni(0.002, 0.01) / (u.order * u.order); u.tf = r.coin(0.2) ? 0.0 : r.coin(0.3) ? u.dt * r.range(1, 12) : u.dt * r.uni(0.05, 14); if (r.coin(0.1)) { u.dt = u.tf > 0 ? 3 * u.tf : u.dt; } return u; }
static std::string rd(const Setup& u) { return u.str() + fmt(" dt=%.6g tf=%.6g", u.dt, u.tf); }

// Movies and files of point and field probes against an own evaluation of the fields after each step.
SECTION(values)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(260, 8000); i++) {
      Shape s = shapes[r.below(5)]; Setup u = problem(r, s); const int dim = u.g.dim(), N = actualSteps(u.tf, u.dt); auto mesh = u.g.mfem(); mfem::DG_FECollection fec(u.order, dim, u.basis); mfem::FiniteElementSpace fes(&mesh, &fec);
      const int np = r.range(1, 4), nf = r.range(1, 4); std::vector<Spot> ps(np), fp(nf); std::vector<Plan> pp, pf; std::vector<int> comp, where;
      auto place = [&](Spot& sp) { int w = r.below(3); where.push_back(w); int e = r.below(mesh.GetNE()); mfem::Vector x(dim); mesh.GetElementTransformation(e)->Transform(refPoint(r, s, w), x); for (int k = 0; k < dim; k++) { sp.x[k] = x[k]; } sp.locate(fes); };
      std::vector<bool> wp, wf; auto pt = [&](const P3& x) { maxwell::Point q(dim); for (int k = 0; k < dim; k++) { q[k] = x[k]; } return q; }; int id0 = r.range(0, 3);
      for (int k = 0; k < np; k++) { place(ps[k]); pp.push_back(plan(r, N)); wp.push_back(r.coin(0.8)); PointProbe q(pt(ps[k].x), pp[k].saves ? r.range(1, 5) : pp[k].n, wp[k]); if (pp[k].saves) { q.setSaves(pp[k].n); } q.setProbeID(id0 + k); u.probes.pointProbes.push_back(q); }
      for (int k = 0; k < nf; k++) { place(fp[k]); pf.push_back(plan(r, N)); wf.push_back(r.coin(0.8)); comp.push_back(r.below(6)); FieldProbe q(comp[k] < 3 ? E : H, Direction(comp[k] % 3), pt(fp[k].x), pf[k].saves ? r.range(1, 5) : pf[k].n, wf[k]); if (pf[k].saves) { q.setSaves(pf[k].n); } q.setProbeID(id0 + k); u.probes.fieldProbes.push_back(q); }
      u.name = r.pick({ std::string("values"), std::string("a.b"), std::string("v 2") }); const std::string ds0 = rd(u); M.label(ds0); fs::remove_all("Exports"); std::vector<Frame> fr; std::vector<std::vector<double>> tp(np), tq(nf), vq(nf); std::vector<std::vector<FieldsForMovie>> vp(np);
      {
         Quiet q; auto sv = u.solver(); fr.push_back({ sv->getTime(), stateOf(*sv) }); if (r.coin(0.7)) { while (sv->getTime() <= u.tf - 1e-8 * u.dt) { sv->step(); fr.push_back({ sv->getTime(), stateOf(*sv) }); if (fr.size() > 200) { break; } } } else { auto v2 = u; v2.probes = Probes(); auto w = v2.solver(); while (w->getTime() <= u.tf - 1e-8 * u.dt) { w->step(); fr.push_back({ w->getTime(), stateOf(*w) }); if (fr.size() > 200) { break; } } sv->run(); M.expect(maxDiff(stateOf(*sv), fr.back().v) == 0, "probes-change-solution", ds0); }
         for (int k = 0; k < np; k++) { for (auto& kv : sv->getPointProbe(k).getFieldMovies()) { tp[k].push_back(kv.first); vp[k].push_back(kv.second); } } for (int k = 0; k < nf; k++) { auto& pr = sv->getFieldProbe(k); for (auto& kv : pr.getFieldMovie()) { tq[k].push_back(kv.first); vq[k].push_back(kv.second); } auto mx = pr.findFrameWithMax(), mn = pr.findFrameWithMin(); auto& mv = pr.getFieldMovie(); double a = -INFINITY, b = INFINITY; for (double v : vq[k]) { a = std::max(a, v); b = std::min(b, v); } M.expect(mx.second == a && mv.count(mx.first) && mv.at(mx.first) == a, "frame-maximum", ds0); M.expect(mn.second == b && mv.count(mn.first) && mv.at(mn.first) == b, "frame-minimum", ds0); }
      }
      if (!M.expect((int)fr.size() == N + 1, "step-count", ds0 + fmt(" %zu frames", fr.size()))) { continue; } double scale = 1e-3; for (auto& f : fr) { scale = std::max(scale, maxAbs(f.v)); }
      auto judgeValue = [&](const Spot& sp, int c, const std::vector<double>& got, const std::vector<int>& at, const std::string& key, const std::string& ds) { if (!M.expect(!sp.in.empty(), "harness-spot", ds)) { return; } double best = INFINITY; for (size_t k = 0; k < sp.in.size(); k++) { double w = 0; for (size_t n = 0; n < at.size(); n++) { double e = std::abs(got[n] - sp.value(fr[at[n]].v, c, k)); if (!(e <= w)) { w = e; } } best = std::min(best, w); } M.expect(best <= 1e-8 * scale, key, ds + fmt(" component %d off by %.3g of %.3g", c, best, scale)); };
      const std::string base = "Exports/single-core/" + u.name + "/";
      auto judgeFile = [&](const std::string& path, bool asked, const std::vector<double>& t, const std::vector<std::vector<double>>& v, const P3& pos, const std::string& key, const std::string& ds) {
         if (!asked) { M.expect(!fs::exists(path), key + "-unasked-file", ds + path); return; } if (!M.expect(fs::exists(path), key + "-file-missing", ds + path)) { return; } auto rows = readTable(path, 4); auto head = readTable(path, 2); if (M.expect(!head.empty() && head[0].size() == 3, key + "-file-position", ds)) { for (int a = 0; a < 3; a++) { M.expect(std::abs(head[0][a] - pos[a]) <= 1e-6, key + "-file-position", ds + fmt(" axis %d %.8g for %.8g", a, head[0][a], pos[a])); } }
         if (!M.expect(rows.size() == t.size(), key + "-file-rows", ds + fmt(" %zu rows for %zu records", rows.size(), t.size()))) { return; } for (size_t n = 0; n < rows.size(); n++) { bool ok = rows[n].size() == v[n].size() + 1 && std::abs(rows[n][0] - t[n] / C) <= 6e-6 * t[n] / C; for (size_t a = 0; ok && a < v[n].size(); a++) { ok = std::abs(rows[n][a + 1] - v[n][a]) <= 6e-6 * std::abs(v[n][a]); } M.expect(ok, key + "-file-values", ds + fmt(" row %zu", n)); } };
      std::vector<int> at;
      for (int k = 0; k < np; k++) { const std::string ds = ds0 + " point probe " + pstr(pp[k]) + fmt(" place %d", where[k]); judgeSchedule(tp[k], fr, pp[k], "point", ds, at); if (at.size() != tp[k].size()) { continue; } std::vector<std::vector<double>> rows; for (auto& f : vp[k]) { rows.push_back({ f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz }); } for (int c = 0; c < 6; c++) { std::vector<double> g; for (auto& x : rows) { g.push_back(x[c]); } judgeValue(ps[k], c, g, at, "point-value", ds); } judgeFile(base + fmt("PointProbes/PointProbe%d.dat", id0 + k), wp[k], tp[k], rows, ps[k].x, "point", ds); M.event("point probe", fmt("%s place %d n %zu %s", shapeName(s), where[k], tp[k].size(), pstr(pp[k]).c_str())); }
      for (int k = 0; k < nf; k++) { const std::string ds = ds0 + " field probe " + pstr(pf[k]) + fmt(" place %d", where[np + k]); judgeSchedule(tq[k], fr, pf[k], "field", ds, at); if (at.size() != tq[k].size()) { continue; } std::vector<std::vector<double>> rows; for (double v : vq[k]) { rows.push_back({ v }); } judgeValue(fp[k], comp[k], vq[k], at, "field-value", ds); judgeFile(base + fmt("FieldProbes/FieldProbe%d.dat", id0 + k), wf[k], tq[k], rows, fp[k].x, "field", ds); M.event("field probe", fmt("%s component %d n %zu", shapeName(s), comp[k], tq[k].size())); }
   }
}
// Parses a saved grid function: header up to the blank line, then one value per line.
static bool loadValues(const std::string& path, std::vector<double>& v) { v.clear(); std::ifstream f(path); if (!f) { return false; } std::string l; while (std::getline(f, l)) if (l.empty() || l == "\r") { break; } double d; while (f >> d) { v.push_back(d); } return true; }
static const char* NAMES6[6] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
// Whole-domain, near-field, view and state records: when they were written and what they hold.
SECTION(records)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(110, 3000); i++) {
      Shape s = shapes[r.below(5)]; Region reg; Setup u = problem(r, s); const bool near = s != SEG && r.coin(0.6); if (near) { Setup q = surfaceProblem(r, s, reg, std::min(u.order, 2), true); q.dt = u.dt; q.tf = u.tf; q.op = Global; q.tfsf.clear(); q.sources = start(r, q.g); u = q; } const int N = actualSteps(u.tf, u.dt);
      Plan a = plan(r, N), b = plan(r, N), c = plan(r, N); DomainSnapshotProbe sn; ExporterProbe ex; NearFieldProbe nf; MORStateProbe mo; auto put = [&](const Plan& p, int& every, int& saves) { if (p.saves) { saves = p.n; } else { every = p.n; } }; put(a, sn.expSteps, sn.saves); put(b, ex.visSteps, ex.saves); put(c, nf.expSteps, nf.saves); ex.name = "view"; nf.name = "ntff"; nf.tags = { reg.tag };
      u.probes.domainSnapshotProbes.push_back(sn); u.probes.exporterProbes.push_back(ex); if (near) { u.probes.nearFieldProbes.push_back(nf); } const bool mor = u.tf > 0 && N >= 3; double T = u.tf; if (mor) { mo.record_time_start = r.coin() ? 0.0 : r.uni(0, 0.6) * T; mo.record_time_final = r.coin() ? T : r.uni(mo.record_time_start + 2 * u.dt, T + u.dt); mo.saves = r.range(1, N); mo.name = "mor"; u.probes.morStateProbes.push_back(mo); }
      u.name = "records"; const std::string ds0 = rd(u); M.label(ds0 + (near ? " near" : "")); fs::remove_all("Exports"); std::vector<Frame> fr; std::vector<P3> pos; std::vector<int> own; { Quiet q; auto sv = u.solver(); fr.push_back({ sv->getTime(), stateOf(*sv) }); while (sv->getTime() <= u.tf - 1e-8 * u.dt && fr.size() < 200) { sv->step(); fr.push_back({ sv->getTime(), stateOf(*sv) }); } }
      if (!M.expect((int)fr.size() == N + 1, "step-count", ds0)) { continue; } const int n = fr[0].v.Size() / 6; double scale = 1e-3; for (auto& f : fr) { scale = std::max(scale, maxAbs(f.v)); }
      auto listed = [&](const std::string& dir, const std::string& prefix) { std::vector<int> k; if (fs::exists(dir)) { for (auto& e : fs::directory_iterator(dir)) { auto f = e.path().filename().string(); if (e.is_directory() && f.compare(0, prefix.size(), prefix) == 0) { k.push_back(std::stoi(f.substr(prefix.size()))); } } } std::sort(k.begin(), k.end()); return k; };
      auto timesOf = [&](const std::vector<int>& k) { std::vector<double> t; for (int x : k) { t.push_back(x <= N ? fr[x].t : -1); } return t; }; std::vector<int> at; const std::string base = "Exports/single-core/records/";
      auto timeFile = [&](const std::string& p, int k, const std::string& key, const std::string& ds) { std::ifstream f(p); double t = NAN; f >> t; M.expect(std::abs(t - fr[k].t) <= 6e-6 * fr[k].t, key + "-time-file", ds + fmt(" %.8g for %.8g", t, fr[k].t)); };
      { const std::string ds = ds0 + " snapshot " + pstr(a), dir = base + "DomainSnapshotProbes/rank_0"; auto k = listed(dir, "cycle_"); judgeSchedule(timesOf(k), fr, a, "snapshot", ds, at); M.expect(fs::exists(base + "DomainSnapshotProbes/meshes"), "snapshot-mesh-missing", ds); if (at.size() == k.size()) { for (int x : k) { const std::string d = dir + "/cycle_" + mfem::to_padded_string(x, 6); timeFile(d + "/time.txt", x, "snapshot", ds); for (int c6 = 0; c6 < 6; c6++) { std::vector<double> v; M.expect(loadValues(d + "/" + NAMES6[c6] + ".gf", v) && (int)v.size() == n, "snapshot-size", ds + fmt(" %s %zu values for %d", NAMES6[c6], v.size(), n)); double w = 0; for (int j = 0; j < n && j < (int)v.size(); j++) { w = std::max(w, std::abs(v[j] - fr[x].v[c6 * n + j]) - 6e-6 * std::abs(v[j])); } M.expect(w <= 1e-12 * scale, "snapshot-values", ds + fmt(" cycle %d %s off by %.3g", x, NAMES6[c6], w)); } M.event("snapshot", fmt("%s %d", shapeName(u.g.shape), x)); } } }
      { const std::string ds = ds0 + " view " + pstr(b), dir = "Exports/ParaView/single-core/view"; auto k = listed(dir, "Cycle"); judgeSchedule(timesOf(k), fr, b, "view", ds, at); M.event("view", fmt("%zu", k.size()));
         for (int x : k) if (x <= N) {
            std::ifstream f(dir + "/Cycle" + mfem::to_padded_string(x, 6) + "/proc000000.vtu"); std::string w; double t = NAN; std::map<std::string, std::vector<double>> got; while (f >> w) { if (w == "time") { f >> t; } else if (w == "field") { std::string name; long sz = 0; f >> name >> sz; auto& v = got[name]; v.resize(sz); for (auto& d : v) { f >> d; } } }
            M.expect(std::abs(t - fr[x].t) <= 6e-6 * fr[x].t, "view-time", ds + fmt(" cycle %d %.8g for %.8g", x, t, fr[x].t));
            for (int h = 0; h < 2; h++) { auto it = got.find(h ? "H" : "E"); if (it == got.end()) { M.expect(false, "view-field", ds + fmt(" cycle %d has no %s", x, h ? "H" : "E")); continue; } auto& v = it->second; if (!M.expect((int)v.size() == 3 * n, "view-size", ds)) { continue; } double w1 = 0, w2 = 0; for (int c3 = 0; c3 < 3; c3++) for (int j = 0; j < n; j++) { const double want = fr[x].v[(3 * h + c3) * n + j]; w1 = std::max(w1, std::abs(v[c3 * n + j] - want)); w2 = std::max(w2, std::abs(v[3 * j + c3] - want)); } M.expect(std::min(w1, w2) <= 1e-6 * scale, "view-values", ds + fmt(" cycle %d %s off by %.3g of %.3g", x, h ? "H" : "E", std::min(w1, w2), scale)); M.event("view frame", fmt("%d", x)); }
         } }
      if (near) {
         const std::string ds = ds0 + " near field " + pstr(c), dir = base + "NearToFarFieldProbes/ntff/rank0"; auto k = listed(dir, "ntff_"); judgeSchedule(timesOf(k), fr, c, "near", ds, at); if (at.size() == k.size() && M.expect(fs::exists(dir + "/mesh"), "near-mesh-missing", ds)) {
            mfem::Mesh sm = mfem::Mesh::LoadFromFile(dir + "/mesh", 1, 0); const int dim = u.g.dim(); mfem::DG_FECollection fec(u.order, dim, u.basis); mfem::FiniteElementSpace sf(&sm, &fec); auto pm = u.g.mfem(); mfem::FiniteElementSpace pf(&pm, &fec); auto sp = dofPos(sf), pp = dofPos(pf); auto se = dofElem(sf), pe = dofElem(pf); std::vector<P3> cs(sm.GetNE()); std::map<int, int> parent; int lost = 0;
            for (int e = 0; e < sm.GetNE(); e++) { mfem::Vector ct; sm.GetElementCenter(e, ct); double bd = INFINITY; int be = -1; for (int q = 0; q < pm.GetNE(); q++) { mfem::Vector pc; pm.GetElementCenter(q, pc); double dd = 0; for (int x = 0; x < dim; x++) { dd += std::pow(ct[x] - pc[x], 2); } if (dd < bd) { bd = dd; be = q; } } if (std::sqrt(bd) > 1e-5) { lost++; } parent[e] = be; }
            M.expect(!lost, "near-mesh-elements", ds + fmt(" %d elements not of the mesh", lost)); std::vector<int> map(sf.GetNDofs(), -1); int un = 0; for (int j = 0; j < sf.GetNDofs(); j++) { for (int q = 0; q < pf.GetNDofs(); q++) if (pe[q] == parent[se[j]] && norm(sp[j] - pp[q]) < 2e-5) { map[j] = q; } un += map[j] < 0; } M.expect(!un, "near-mesh-points", ds + fmt(" %d points unmatched", un));
            if (!un && !lost) for (int x : k) { const std::string d = dir + "/ntff_" + mfem::to_padded_string(x, 6); timeFile(d + "/time.txt", x, "near", ds); for (int c6 = 0; c6 < 6; c6++) { std::vector<double> v; if (!M.expect(loadValues(d + "/" + NAMES6[c6] + ".gf", v) && (int)v.size() == sf.GetNDofs(), "near-size", ds + fmt(" %s", NAMES6[c6]))) { continue; } double w = 0; for (int j = 0; j < (int)v.size(); j++) { w = std::max(w, std::abs(v[j] - fr[x].v[c6 * n + map[j]]) - 6e-6 * std::abs(v[j])); } M.expect(w <= 1e-12 * scale, "near-values", ds + fmt(" cycle %d %s off by %.3g of %.3g", x, NAMES6[c6], w, scale)); } M.event("near field", fmt("%s %d", shapeName(u.g.shape), x)); }
         }
      }
      if (mor) {
         const double gap = mo.saves > 1 ? (mo.record_time_final - mo.record_time_start) / (mo.saves - 1) : 0; const std::string ds = ds0 + fmt(" states %d in [%.6g, %.6g]", mo.saves, mo.record_time_start, mo.record_time_final), dir = base + "MORStateProbes/mor"; if (mo.saves > 1 && gap < u.dt) { continue; }
         int files = 0; if (fs::exists(dir)) { for (auto& e : fs::directory_iterator(dir)) { (void)e; files++; } } M.expect(files <= mo.saves, "state-count", ds + fmt(" %d files", files)); double last = -1;
         for (int k = 0; k < mo.saves; k++) {
            const double want = mo.record_time_start + k * gap, latest = std::min(mo.record_time_final, T); const std::string p = dir + fmt("/x_%d", k); const bool must = want + u.dt * (1 + 1e-6) <= latest; if (!fs::exists(p)) { M.expect(!must, "state-missing", ds + fmt(" #%d at %.6g", k, want)); continue; }
            std::ifstream f(p); double t = NAN; long sz = -1; f >> t >> sz; int c2 = -1; for (int x = 0; x <= N; x++) if (std::abs(fr[x].t - t) <= 1e-15 * (1 + t)) { c2 = x; } M.expect(t > last, "state-order", ds); last = t; if (!M.expect(c2 >= 0 && sz == fr[0].v.Size(), "state-header", ds + fmt(" time %.17g size %ld", t, sz))) { continue; } M.expect(t >= want - 1e-5 * std::max(gap, u.dt) && t <= want + u.dt * (1 + 1e-6), "state-time", ds + fmt(" #%d taken at %.8g for %.8g", k, t, want)); M.expect(t <= mo.record_time_final + 1e-9, "state-after-window", ds); double w = 0; for (long j = 0; j < sz; j++) { double d = NAN; f >> d; double e = std::abs(d - fr[c2].v[(int)j]) - 1e-15 * std::abs(d); if (!(e <= w)) { w = e; } } M.expect(w <= 1e-300, "state-values", ds + fmt(" #%d off by %.3g", k, w)); M.event("state", fmt("%d of %d", k, mo.saves));
         }
      }
   }
}
// On several ranks exactly one of them records each position, and the record is that of the single run.
SECTION(ranks)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(24, 500); i++) {
      Shape s = shapes[r.below(5)]; Draw d; d.budget = s == SEG ? 14 : s == TET ? 6 : 12; d.minN = s == TET ? 1 : 2; d.maxN = 4; d.interior = false; if (s == TET || s == HEX) { d.maxOrder = 1; d.maxN = 3; } Setup u = randomProblem(r, s, d); if (u.g.el.size() < 4) { i--; continue; } const int P = r.range(2, std::min(4, (int)u.g.el.size() / 2)); u.sources = start(r, u.g); u.dt = 0.004 / (u.order * u.order); u.tf = u.dt * r.uni(2, 7); u.op = Global; const int dim = u.g.dim(), ne = (int)u.g.el.size(), N = actualSteps(u.tf, u.dt);
      std::vector<int> part(ne); for (int e = 0; e < ne; e++) { part[e] = e < P ? e : r.below(P); } auto mesh = u.g.mfem(); mfem::DG_FECollection fec(u.order, dim, u.basis); mfem::FiniteElementSpace fes(&mesh, &fec);
      const int np = r.range(2, 5); std::vector<Spot> sp(np); std::vector<int> where; for (int k = 0; k < np; k++) { int w = r.below(3); where.push_back(w); mfem::Vector x(dim); mesh.GetElementTransformation(r.below(ne))->Transform(refPoint(r, s, w), x); maxwell::Point q(dim); for (int a = 0; a < dim; a++) { sp[k].x[a] = q[a] = x[a]; } sp[k].locate(fes); PointProbe p(q, r.range(1, 3), true); p.setProbeID(k); u.probes.pointProbes.push_back(p); FieldProbe f(r.coin() ? E : H, Direction(r.below(3)), q, 1, true); f.setProbeID(k); u.probes.fieldProbes.push_back(f); }
      u.name = "ranks"; const std::string ds0 = rd(u) + fmt(" P=%d", P); M.label(ds0); fs::remove_all("Exports"); std::vector<Frame> fr; { Setup v = u; v.probes = Probes(); Quiet q; auto sv = v.solver(); fr.push_back({ 0, stateOf(*sv) }); while (sv->getTime() <= u.tf - 1e-8 * u.dt) { sv->step(); fr.push_back({ sv->getTime(), stateOf(*sv) }); } } double scale = 1e-3; for (auto& f : fr) { scale = std::max(scale, maxAbs(f.v)); } fs::remove_all("Exports");
      const int bad = shim_mpi_run(P, [&](int k) { Setup v = u; v.part = part; std::ofstream o(fmt("probes%d.txt", k)); o.precision(17); { Quiet q; auto sv = v.solver(); sv->run(); for (int a = 0; a < np; a++) { for (auto& kv : sv->getPointProbe(a).getFieldMovies()) { auto& f = kv.second; o << a << " " << kv.first << " " << f.Ex << " " << f.Ey << " " << f.Ez << " " << f.Hx << " " << f.Hy << " " << f.Hz << "\n"; } for (auto& kv : sv->getFieldProbe(a).getFieldMovie()) { o << a + np << " " << kv.first << " " << kv.second << "\n"; } } } return 0; }, 120);
      if (!M.expect(!bad, "rank-failed", ds0 + fmt(" code %d", bad))) { continue; } std::vector<std::map<int, std::vector<std::vector<double>>>> rec(2 * np); for (int k = 0; k < P; k++) { for (auto& row : readTable(fmt("probes%d.txt", k), 0)) { rec[(int)row[0]][k].push_back(row); } fs::remove(fmt("probes%d.txt", k)); }
      for (int a = 0; a < 2 * np; a++) {
         const int k = a % np; const std::string ds = ds0 + fmt(" %s probe %d place %d", a < np ? "point" : "field", k, where[k]); if (!M.expect(rec[a].size() == 1, "rank-recorders", ds + fmt(" recorded by %zu ranks", rec[a].size()))) { continue; } auto& rows = rec[a].begin()->second; const int every = a < np ? u.probes.pointProbes[k].getVisSteps() : 1; auto w = cycles(every, N); if (!M.expect(rows.size() == w.size(), "rank-schedule", ds + fmt(" %zu records for %zu", rows.size(), w.size()))) { continue; }
         const int c0 = a < np ? -1 : (u.probes.fieldProbes[k].getFieldType() == E ? 0 : 3) + (int)u.probes.fieldProbes[k].getDirection(); std::vector<int> cs(w.begin(), w.end()); double best = INFINITY; for (size_t e = 0; e < sp[k].in.size(); e++) { double worst = 0; for (size_t n = 0; n < rows.size(); n++) for (int c = 0; c < (a < np ? 6 : 1); c++) { double er = std::abs(rows[n][2 + c] - sp[k].value(fr[cs[n]].v, a < np ? c : c0, e)); if (!(er <= worst)) { worst = er; } } best = std::min(best, worst); } M.expect(best <= 1e-8 * scale, "rank-value", ds + fmt(" off by %.3g of %.3g", best, scale));
         const std::string path = fmt("Exports/mpi-%d/ranks/%s%d.dat", P, a < np ? "PointProbes/PointProbe" : "FieldProbes/FieldProbe", k); M.expect(readTable(path, 4).size() == rows.size(), "rank-file-rows", ds + fmt(" %zu rows in the file", readTable(path, 4).size())); M.event("rank probe", fmt("%s P=%d place %d", shapeName(s), P, where[k]));
      }
   }
}
HARNESS_MAIN
