// P20: the elements on the two sides of a total-field surface are labelled completely, oppositely and by position.
#include "em.hpp"
#include "components/SubMesher.h"
using namespace em;

struct Labels { std::set<int> tf, sf, all; bool dup = false; };
static void take(mfem::SubMesh* m, std::set<int>& s, bool& dup) { if (!m) { return; } const auto& a = m->GetParentElementIDMap(); for (int i = 0; i < a.Size(); i++) { if (!s.insert(a[i]).second) { dup = true; } } }
static Labels labels(mfem::Mesh& m, const std::vector<int>& tags)
{
   mfem::Array<int> k(m.bdr_attributes.Max()); k = 0; for (int t : tags) { k[t - 1] = 1; } Quiet q; TotalFieldScatteredFieldSubMesher s(m, k); Labels l; take(s.getTFSubMesh(), l.tf, l.dup); take(s.getSFSubMesh(), l.sf, l.dup); take(s.getGlobalTFSFSubMesh(), l.all, l.dup); return l;
}
static std::string print(const mfem::Mesh& m) { std::ostringstream o; o.precision(17); m.Print(o); return o.str(); }
// want[e]: 1 total-field side, 0 scattered-field side, -1 not touching the surface
static void judge(const GMesh& g, const std::vector<int>& tags, const std::vector<int>& want, const std::string& ds, const std::string& key)
{
   mfem::Mesh m = g.mfem(); const std::string before = print(m); std::string err; Labels l; try { l = labels(m, tags); } catch (const std::exception& e) { err = e.what(); }
   if (!M.expect(err.empty(), key + "-rejected", ds + " " + err)) { return; }
   M.expect(print(m) == before, key + "-mesh-changed", ds); M.expect(!l.dup, key + "-duplicate", ds); std::set<int> both = l.tf; both.insert(l.sf.begin(), l.sf.end()); M.expect(both == l.all, key + "-union", ds);
   int wrong = 0, missing = 0, stray = 0, twice = 0, n = 0;
   for (int e = 0; e < (int)want.size(); e++) { bool t = l.tf.count(e), s = l.sf.count(e); n += want[e] >= 0; if (want[e] < 0) { stray += t || s; } else if (t && s) { twice++; } else if (!t && !s) { missing++; } else if (t != (want[e] == 1)) { wrong++; } }
   M.expect(!wrong, key + "-wrong-side", ds + fmt(" %d of %d elements on the wrong side", wrong, n)); M.expect(!missing, key + "-unlabelled", ds + fmt(" %d of %d", missing, n)); M.expect(!stray, key + "-stray", ds + fmt(" %d", stray)); M.expect(!twice, key + "-both-sides", ds + fmt(" %d", twice));
   M.event("surfaces labelled", ds + fmt(" n=%d", n)); for (auto e : l.all) { (void)e; }
}
static std::vector<int> wanted(const GMesh& g, const std::vector<char>& tf, const std::set<std::set<int>>* marked = nullptr)
{
   std::vector<int> w(g.el.size(), -1); for (auto& kv : g.faces()) { auto& f = kv.second; if (f.e2 < 0 || tf[f.e1] == tf[f.e2]) { continue; } if (marked && !marked->count(std::set<int>(f.v.begin(), f.v.end()))) { continue; } w[f.e1] = tf[f.e1]; w[f.e2] = tf[f.e2]; } return w;
}
// Boxes of every shape, graded, distorted, rotated and renumbered.
static void boxes(Shape s, int count, int extra, const char* what)
{
   auto r = M.rng(what); for (int i = 0; i < count; i++) { Region g; Setup u = surfaceProblem(r, s, g, 1, true, extra); if (i % 16 == 0) { M.label(fmt("%s %d", what, i)); } judge(u.g, { g.tag }, wanted(u.g, g.tf), describe(u) + fmt(" %s %d", what, i), std::string("box-") + what); }
}
SECTION(boxes)
{
   boxes(SEG, M.n(400, 20000), 1, "seg"); boxes(TRI, M.n(300, 8000), 3, "tri"); boxes(QUAD, M.n(300, 8000), 3, "quad"); boxes(TET, M.n(150, 3000), 2, "tet"); boxes(HEX, M.n(250, 5000), 3, "hex");
}
// Long thin regions, one or a few elements across, arbitrarily numbered.
SECTION(elongated)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(60, 1500); i++) {
      Shape s = r.coin() ? TET : HEX; std::array<int, 3> n{ 3, 3, 3 }; int ax = r.below(3); n[ax] = r.range(6, 14); if (r.coin(0.4)) { n[(ax + 1) % 3] = r.range(4, 8); } std::vector<double> t[3]; for (int k = 0; k < 3; k++) { t[k] = ticks(n[k], n[k] * (k == ax ? r.uni(1, 3) : 1)); }
      GMesh g = box(s, t[0], t[1], t[2]); auto inside = [&](const P3& c) { for (int k = 0; k < 3; k++) if (c[k] < t[k][1] || c[k] > t[k][n[k] - 1]) { return false; } return true; };
      for (size_t k = g.el.size(); k > 1; k--) { std::swap(g.el[k - 1], g.el[r.below((int)k)]); } std::vector<char> in; for (auto& e : g.el) { in.push_back(inside(g.centre(e))); }
      g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); g.tagInterior([&](const P3&, const P3&, int a, int b) { return in[a] != in[b] ? 7 : 0; }); if (r.coin()) { g.affine(randomLinear(r, 3, 0.15)); } if (r.coin()) { g.affine(randomRotation(r, 3)); } g.shuffle(r, true, false, true, true);
      judge(g, { 7 }, wanted(g, in), fmt("%s %dx%dx%d #%d", s == TET ? "tet" : "hex", n[0], n[1], n[2], i), "elongated");
   }
}
// Convex regions that are not boxes: balls and half spaces cut into cells, joined tags, caps of a closed surface.
SECTION(shapes3d)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(80, 2000); i++) {
      Shape s = r.coin() ? TET : HEX; int n = r.range(4, 5); GMesh g = box(s, std::array<int, 3>{ n, n, n }); for (size_t k = g.el.size(); k > 1; k--) { std::swap(g.el[k - 1], g.el[r.below((int)k)]); }
      auto inside = [&](const P3& c) { for (int k = 0; k < 3; k++) if (c[k] < 1.0 / n || c[k] > 1 - 1.0 / n) { return false; } return true; }; std::vector<char> in; for (auto& e : g.el) { in.push_back(inside(g.centre(e))); }
      // one tag per side of the box, all of them marked, or one side left open
      g.tagExterior([](const P3&, const P3& q) { return sideTag(q); }); g.tagInterior([&](const P3& c, const P3&, int a, int b) { if (in[a] == in[b]) { return 0; } P3 d = c - P3{ 0.5, 0.5, 0.5 }; int k = 0; for (int q = 1; q < 3; q++) if (std::abs(d[q]) > std::abs(d[k])) { k = q; } return 7 + 2 * k + (d[k] > 0); });
      std::vector<int> tags; int open = r.coin(0.5) ? r.range(7, 12) : 0; for (int t = 7; t <= 12; t++) if (t != open) { tags.push_back(t); } std::set<std::set<int>> marked; for (auto& b : g.bd) if (b.attr >= 7 && b.attr != open) { marked.insert(std::set<int>(b.v.begin(), b.v.end())); }
      // bulge the box towards a ball so that its faces are curved
      if (r.coin()) { double am = r.uni(0, 0.25); P3 o{ 0.5, 0.5, 0.5 }; for (auto& x : g.x) { P3 d = x - o; double m = std::max({ std::abs(d[0]), std::abs(d[1]), std::abs(d[2]) }), q = norm(d); if (q > 1e-9) { double k = (1 - am) + am * m * std::sqrt(3.0) / q; x = o + (k / (1 - am)) * d; } } }
      auto w = wanted(g, in, &marked); judge(g, tags, w, fmt("%s n=%d open=%d #%d", s == TET ? "tet" : "hex", n, open, i), open ? "cap" : "tags");
   }
}
// In two dimensions the element order decides: any region whose elements are numbered after their outer neighbours, convex or not, closed or open.
SECTION(shapes2d)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(250, 6000); i++) {
      Shape s = r.coin() ? TRI : QUAD; int nx = r.range(3, 7), ny = r.range(3, 7); GMesh g = box(s, std::array<int, 3>{ nx, ny, 1 }); std::vector<char> blob(nx * ny, 0); for (auto& b : blob) { b = r.coin(0.4); } auto cell = [&](const P3& c) { return std::min(nx - 1, int(c[0] * nx)) + nx * std::min(ny - 1, int(c[1] * ny)); };
      bool mixed = r.coin(0.3); std::vector<El> a, b; for (auto& e : g.el) { (blob[cell(g.centre(e))] ? b : a).push_back(e); } if (a.empty() || b.empty()) { continue; } auto mixup = [&](std::vector<El>& v) { for (size_t k = v.size(); k > 1; k--) { std::swap(v[k - 1], v[r.below((int)k)]); } }; mixup(a); mixup(b); g.el = a; g.el.insert(g.el.end(), b.begin(), b.end());
      std::vector<char> in; for (auto& e : g.el) { in.push_back(blob[cell(g.centre(e))]); } if (r.coin()) { g.jitter(r, 0.15, { 1.0 / nx, 1.0 / ny, 1.0 }); } g.tagExterior([](const P3&, const P3& q) { return sideTag(q); });
      std::set<std::set<int>> marked; int keep = mixed ? 2 : 0; for (auto& kv : g.faces()) { auto& f = kv.second; if (f.e2 >= 0 && in[f.e1] != in[f.e2] && (!keep || r.below(keep))) { auto v = f.v; if (r.coin()) { std::swap(v[0], v[1]); } g.bd.push_back({ v, 5 }); marked.insert(std::set<int>(v.begin(), v.end())); } } if (marked.empty()) { continue; }
      if (r.coin()) { g.affine(randomRotation(r, 2)); } if (r.coin()) { auto mv = marked; std::vector<P3> keepx = g.x; std::map<std::array<double, 2>, int> id; g.shuffle(r, true, false, true, true); marked.clear(); for (auto& q : g.bd) if (q.attr == 5) { marked.insert(std::set<int>(q.v.begin(), q.v.end())); } }
      judge(g, { 5 }, wanted(g, in, &marked), fmt("%s %dx%d faces=%zu #%d", s == TRI ? "tri" : "quad", nx, ny, marked.size(), i), "order");
   }
}
// One dimension: two points enclose the total field, one point has it to its right, whatever the numbering; an end of the mesh may be one of them.
SECTION(points)
{
   auto r = M.rng();
   for (int i = 0; i < M.n(600, 30000); i++) {
      int n = r.range(3, 12); GMesh g = box(SEG, gradedTicks(r, n, r.uni(0.5, 2), 0.4)); int a = r.range(0, n - 1), b = r.range(a + 1, n), one = r.coin(0.4); if (one) { a = r.range(1, n - 1); b = n; }
      if (!one && a == 0 && b == n) { continue; } std::vector<char> in(n, 0); for (int e = a; e < b; e++) { in[e] = 1; } std::vector<int> want(n, -1); auto mark = [&](int p) { if (p > 0) { want[p - 1] = in[p - 1]; } if (p < n) { want[p] = in[p]; } };
      g.bd.clear(); if (a != 0) { g.bd.push_back({ { 0 }, 1 }); } if (one || b != n) { g.bd.push_back({ { n }, 2 }); } int t = 3 + r.below(2), t2 = r.coin(0.3) ? t + 1 : t; g.bd.push_back({ { a }, t }); mark(a); if (!one) { g.bd.push_back({ { b }, t2 }); mark(b); } std::vector<int> tags{ t }; if (!one && t2 != t) { tags.push_back(t2); }
      if (r.coin()) { std::vector<int> o(n); for (int k = 0; k < n; k++) { o[k] = k; } for (int k = n; k > 1; k--) { std::swap(o[k - 1], o[r.below(k)]); } auto el = g.el; auto w = want; for (int k = 0; k < n; k++) { g.el[k] = el[o[k]]; want[k] = w[o[k]]; } g.shuffle(r, true, false, false, true); } else if (r.coin()) { g.shuffle(r, false, false, false, true); }
      judge(g, tags, want, fmt("n=%d a=%d b=%d one=%d #%d", n, a, b, one, i), one ? "one-point" : "two-points");
   }
   // more than two points is refused
   for (int i = 0; i < M.n(20, 200); i++) { int n = r.range(4, 9); GMesh g = box(SEG, ticks(n, 1.0)); g.bd.clear(); for (int k = 1; k <= 3; k++) { g.bd.push_back({ { k }, 2 }); } g.bd.push_back({ { 0 }, 1 }); auto m = g.mfem(); M.throws([&] { labels(m, { 2 }); }, "three-points-accepted", fmt("n=%d", n)); M.event("refusals", fmt("%d", n)); }
}
HARNESS_MAIN
