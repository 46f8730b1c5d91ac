// Coordinate, rotation and matrix conversions preserve values.
#define EM_NO_SOLVER
#include "em.hpp"
#include "components/Spherical.h"
#include "math/Calculus.h"
#include "math/Geometry.h"
#include "math/EigenMfemTools.h"
#include "solver/SolverExtension.h"
#include "components/SubMesher.h"
using namespace em;

static std::vector<P3> directions(Rng& r, int n)
{
   std::vector<P3> d;
   for (double a : { -1.0, 0.0, 1.0 }) for (double b : { -1.0, 0.0, 1.0 }) for (double c : { -1.0, 0.0, 1.0 }) { if (a || b || c) { d.push_back(unit({ a, b, c })); } }
   for (double e : { 1e-3, 1e-6, 1e-9, 1e-12, 1e-15 }) for (int ax = 0; ax < 3; ax++) for (int sg : { -1, 1 }) { P3 v{}; v[ax] = sg; v[(ax + 1) % 3] = e; v[(ax + 2) % 3] = -e / 3; d.push_back(unit(v)); }
   for (double q : { 0.9, 0.9 - 1e-12, 0.9 + 1e-12, 0.8999, 0.9001 }) for (int sg : { -1, 1 }) for (int ax = 0; ax < 3; ax++) for (double t : { 0.0, 1.0, 2.5, 4.0 }) { P3 v{}; v[ax] = sg * q; double s = std::sqrt(1 - q * q); v[(ax + 1) % 3] = s * cos(t); v[(ax + 2) % 3] = s * sin(t); d.push_back(v); }
   for (int i = 0; i < n; i++) { d.push_back(r.unit()); }
   return d;
}

SECTION(spherical_position)
{
   auto r = M.rng();
   auto check = [&](const P3& p, int size) {
      M.label(fmt("p=(%.17g,%.17g,%.17g) size=%d", p[0], p[1], p[2], size));
      mfem::Vector v(size); std::vector<double> s(size); for (int i = 0; i < size; i++) { v[i] = s[i] = p[i]; }
      SphericalVector a(v), b(s); double R = norm(p);
      M.expect(a.radius == b.radius && a.theta == b.theta && a.phi == b.phi, "spherical-constructors-differ", M.labelText);
      M.near(a.radius, R, 4e-15 * R, "spherical-radius", M.labelText);
      M.expect(a.theta >= 0 && a.theta <= M_PI * (1 + 1e-15) && std::abs(a.phi) <= M_PI * (1 + 1e-15), "spherical-angle-range", M.labelText);
      if (R > 0) { M.near(R * cos(a.theta), p[2], 1e-14 * R, "spherical-polar-angle-from-z", M.labelText); double rho = std::hypot(p[0], p[1]); if (rho > 1e-7 * R) { M.near(rho * cos(a.phi), p[0], 1e-13 * R, "spherical-azimuth-from-x", M.labelText); M.near(rho * sin(a.phi), p[1], 1e-13 * R, "spherical-azimuth-from-x", M.labelText); } }
      auto c = a.convertToCartesian(); M.expect(c.size() == 3, "spherical-size");
      for (int i = 0; i < 3; i++) { M.near(c[i], p[i], 1e-14 * (R + 1e-300), R == 0 ? "spherical-origin" : "spherical-round-trip", M.labelText); }
      if (R > 0) { SphericalVector d(a.radius, a.theta, a.phi); auto e = d.convertToCartesian(); for (int i = 0; i < 3; i++) { M.near(e[i], p[i], 1e-14 * R, "spherical-from-parameters", M.labelText); } }
      M.event("position", M.labelText);
   };
   for (auto& d : directions(r, M.n(2000, 200000))) { for (double R : { 1.0, 1e-6, 1e6, r.logu(1e-12, 1e12) }) { check(R * d, 3); if (std::hypot(d[0], d[1]) > 0.1) { check(P3{ R * d[0], R * d[1], 0 }, 2); } } }
   check({ 0, 0, 0 }, 3); check({ 0, 0, 0 }, 2); check({ -0.0, 0, -0.0 }, 3);
}
SECTION(spherical_field)
{
   auto r = M.rng();
   for (auto& d : directions(r, M.n(2000, 200000))) {
      M.label(fmt("dir=(%.17g,%.17g,%.17g)", d[0], d[1], d[2]));
      SphericalVector s(vec3(r.logu(1e-3, 1e3) * d)); auto conv = [&](double a, double b, double c) { auto v = s.convertSphericalVectorFieldToCartesian(a, b, c); return P3{ v[0], v[1], v[2] }; };
      P3 er = conv(1, 0, 0), et = conv(0, 1, 0), ep = conv(0, 0, 1);
      for (auto& pr : { std::pair<P3, P3>{ er, et }, { er, ep }, { et, ep } }) { M.near(dot(pr.first, pr.second), 0, 4e-15, "field-basis-orthogonal", M.labelText); }
      for (auto& v : { er, et, ep }) { M.near(norm(v), 1, 4e-15, "field-basis-unit", M.labelText); }
      P3 x = cross(er, et); for (int i = 0; i < 3; i++) { M.near(x[i], ep[i], 4e-15, "field-basis-handedness", M.labelText); M.near(er[i], d[i], 4e-15, "field-radial-is-position", M.labelText); }
      double rho = std::hypot(d[0], d[1]);
      if (rho > 1e-8) { P3 wp{ -d[1] / rho, d[0] / rho, 0 }, wt{ d[2] * d[0] / rho, d[2] * d[1] / rho, -rho }; double tol = 1e-14 / std::min(1.0, rho); for (int i = 0; i < 3; i++) { M.near(ep[i], wp[i], tol, "field-azimuth-direction", M.labelText); M.near(et[i], wt[i], tol, "field-polar-direction", M.labelText); } }
      double a = r.normal(), b = r.normal(), c = r.normal(); P3 v = conv(a, b, c), w = a * er + b * et + c * ep; for (int i = 0; i < 3; i++) { M.near(v[i], w[i], 1e-14 * (std::abs(a) + std::abs(b) + std::abs(c)), "field-linear", M.labelText); }
      double a2 = r.normal(), b2 = r.normal(), c2 = r.normal(); M.near(dot(v, conv(a2, b2, c2)), a * a2 + b * b2 + c * c2, 2e-14 * norm(v) * std::sqrt(a2*a2+b2*b2+c2*c2), "field-dot-product", M.labelText);
      M.event("field", M.labelText);
   }
}
SECTION(cross_product)
{
   auto r = M.rng(); const int perm[3][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
   for (auto& p : perm) { auto c = crossProduct(unitVec(p[0]), unitVec(p[1])), m = crossProduct(unitVec(p[1]), unitVec(p[0])); for (int i = 0; i < 3; i++) { M.expect(c[i] == (i == p[2]), "cross-of-axes"); M.expect(m[i] == -(double)(i == p[2]) + 0.0, "cross-of-axes-reversed"); } }
   for (int d = 0; d < 3; d++) { auto u = unitVec(d), m = minusUnitVec(d); M.expect(u.Size() == 3 && m.Size() == 3, "unit-size"); for (int i = 0; i < 3; i++) { M.expect(u[i] == (i == d), "unit-vector"); M.expect(m[i] == (i == d ? -1.0 : 0.0), "minus-unit-vector"); } }
   for (int k = 0; k < M.n(5000, 500000); k++) {
      P3 a = r.logu(1e-6, 1e6) * r.unit(), b = r.logu(1e-6, 1e6) * r.unit(); if (r.coin(0.2)) { b = r.logu(1e-3, 1e3) * a; } if (r.coin(0.1)) { a[r.below(3)] = 0; }
      auto va = vec3(a), vb = vec3(b); auto c = crossProduct(va, vb); P3 w = cross(a, b); double s = norm(a) * norm(b);
      M.label(fmt("a=(%g,%g,%g) b=(%g,%g,%g)", a[0], a[1], a[2], b[0], b[1], b[2]));
      for (int i = 0; i < 3; i++) { M.near(c[i], w[i], 1e-15 * s, "cross-value", M.labelText); M.expect(va[i] == a[i] && vb[i] == b[i], "cross-changes-input"); }
      M.near(dot(p3(c), a), 0, 4e-15 * s * norm(a), "cross-orthogonal"); M.near(dot(p3(c), b), 0, 4e-15 * s * norm(b), "cross-orthogonal"); M.event("cross", M.labelText);
   }
}
SECTION(face_frame)
{
   auto r = M.rng();
   for (auto& d : directions(r, M.n(3000, 300000))) for (int dim : { 1, 2, 3 }) {
      P3 n = d; if (dim == 2) { if (std::hypot(d[0], d[1]) < 1e-6) { continue; } n[2] = 0; } if (dim == 1) { n = { r.coin() ? 1.0 : -1.0, 0, 0 }; }
      double len = r.logu(1e-6, 1e6); mfem::Vector nv(dim); for (int i = 0; i < dim; i++) { nv[i] = len * n[i]; }
      double R[9]; std::fill(R, R + 9, NAN); buildFaceRotationMatrix(nv, dim, R); M.label(fmt("dim=%d n=(%.17g,%.17g,%.17g)", dim, n[0], n[1], n[2]));
      P3 row[3]; for (int i = 0; i < 3; i++) { row[i] = { R[3*i], R[3*i+1], R[3*i+2] }; }
      for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { M.near(dot(row[i], row[j]), i == j, 1e-14, "frame-orthonormal", M.labelText); }
      P3 c = cross(row[1], row[2]), u = unit(n); for (int i = 0; i < 3; i++) { M.near(c[i], row[0][i], 1e-14, "frame-right-handed", M.labelText); if (dim > 1) { M.near(row[0][i], u[i], 1e-14, "frame-first-row-is-normal", M.labelText); } else { M.near(row[i][i], 1.0, 0, "frame-1d-identity"); } }
      if (dim == 2) { M.near(row[2][2], 1, 1e-15, "frame-2d-z-kept", M.labelText); }
      // rotate there and back, as the coupling code does
      P3 e{ r.normal(), r.normal(), r.normal() }, l{}, g{}; for (int i = 0; i < 3; i++) { l[i] = dot(row[i], e); } for (int i = 0; i < 3; i++) { g[i] = R[i] * l[0] + R[3 + i] * l[1] + R[6 + i] * l[2]; }
      for (int i = 0; i < 3; i++) { M.near(g[i], e[i], 2e-14 * norm(e), "frame-round-trip", M.labelText); } M.near(norm(l), norm(e), 1e-14 * norm(e), "frame-length"); M.event("frame", M.labelText);
   }
}
SECTION(matrices)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(400, 20000); k++) {
      int h = r.range(1, 9), w = r.range(1, 9); M.label(fmt("%dx%d", h, w)); mfem::DenseMatrix a(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { a(i, j) = r.coin(0.3) ? 0.0 : r.normal() * r.logu(1e-9, 1e9); }
      auto e = toEigen(a); bool ok = e.rows() == h && e.cols() == w; for (int i = 0; ok && i < h; i++) for (int j = 0; j < w; j++) { ok = ok && e(i, j) == a(i, j); } M.expect(ok, "dense-to-eigen", M.labelText);
      mfem::Vector v(w); for (int i = 0; i < w; i++) { v[i] = r.normal(); } auto ev = toEigenVector(v); auto ec = toEigenComplexVector(v); auto back = toMFEMVector(ev);
      ok = ev.size() == w && ec.size() == w && back.Size() == w; for (int i = 0; ok && i < w; i++) { ok = ev[i] == v[i] && ec[i] == std::complex<double>(v[i], 0) && back[i] == v[i]; } M.expect(ok, "vector-round-trip", M.labelText);
      Eigen::VectorXd prod = e * ev; mfem::Vector mp(h); a.Mult(v, mp); for (int i = 0; i < h; i++) { M.near(prod[i], mp[i], 1e-12 * (e.row(i).cwiseAbs().sum() * 5 + 1e-300), "dense-product", M.labelText); }
      Eigen::SparseMatrix<double> sp(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (a(i, j) != 0) { sp.insert(i, j) = a(i, j); } if (r.coin()) { sp.makeCompressed(); }
      auto ms = toMFEMSparse(sp); M.expect(ms.Height() == h && ms.Width() == w, "sparse-size", M.labelText); std::unique_ptr<mfem::DenseMatrix> dm(ms.ToDenseMatrix()); ok = true; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { ok = ok && (*dm)(i, j) == a(i, j); } M.expect(ok, "sparse-values", M.labelText);
      mfem::Vector y(h); ms.Mult(v, y); for (int i = 0; i < h; i++) { M.near(y[i], mp[i], 1e-12 * (e.row(i).cwiseAbs().sum() * 5 + 1e-300), "sparse-product", M.labelText); } M.event("matrix", M.labelText + fmt("%d", k));
   }
}
SECTION(orientation)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(500, 50000); k++) {
      int a = r.range(0, 50), b = a + r.range(1, 20), c = b + r.range(1, 20); std::vector<int> v{ a, b, c }; for (int i = 2; i > 0; i--) { std::swap(v[i], v[r.below(i + 1)]); }
      mfem::Triangle t(v.data()); auto tri = [&](int x, int y, int z) { int q[3] = { x, y, z }; return mfem::Triangle(q); }; M.label(fmt("%d %d %d", v[0], v[1], v[2]));
      for (int s = 0; s < 3; s++) { auto u = tri(v[s], v[(s + 1) % 3], v[(s + 2) % 3]), w = tri(v[s], v[(s + 2) % 3], v[(s + 1) % 3]); M.expect(elementsHaveSameOrientation(&t, &u) && elementsHaveSameOrientation(&u, &t), "triangle-rotation-same", M.labelText); M.expect(!elementsHaveSameOrientation(&t, &w), "triangle-reflection-differs", M.labelText); }
      auto o = tri(v[0], v[1], 100); M.expect(!elementsHaveSameOrientation(&t, &o), "triangle-other-vertices-differ"); auto o2 = tri(100, v[1], v[2]); M.expect(!elementsHaveSameOrientation(&t, &o2), "triangle-other-vertices-differ");
      mfem::Segment s1(a, b), s2(b, a), s3(a, b); M.expect(elementsHaveSameOrientation(&s1, &s3) && !elementsHaveSameOrientation(&s1, &s2), "segment-orientation"); M.throws([&] { elementsHaveSameOrientation(&s1, &t); }, "orientation-type-mismatch"); M.event("orientation", M.labelText);
   }
}
// Face normals, tangents and barycentres of generated meshes.
SECTION(mesh_geometry)
{
   auto r = M.rng();
   for (int k = 0; k < M.n(60, 4000); k++) {
      Shape s = r.pick({ SEG, TRI, QUAD, TET, HEX }); auto g = randomBox(r, s); g.tagExterior([](const P3&, const P3& n) { return sideTag(n); }); g.tagInterior([&](const P3&, const P3&, int, int) { return 9; });
      if (s != SEG) { g.affine(randomLinear(r, g.dim(), 0.2)); } g.shuffle(r); M.label(fmt("%s #%d", shapeName(s), k)); auto m = g.mfem(); int dim = g.dim();
      for (int e = 0; e < m.GetNE(); e++) { auto b = getBarycenterOfElement(m, e); P3 c = g.centre(g.el[e]); M.expect(b.Size() == dim, "barycentre-size"); M.near(norm(p3(b) - c), 0, 1e-13, "barycentre-element", M.labelText); }
      auto fc = g.faces();
      for (int be = 0; be < m.GetNBE(); be++) {
         auto key = g.bd[be].v; std::sort(key.begin(), key.end()); auto& f = fc.at(key); auto* t = getFaceElementTransformation(m, be); if (!M.expect(t != nullptr, "face-transformation", M.labelText)) { continue; }
         M.expect((std::set<int>{ t->Elem1No, t->Elem2No } == std::set<int>{ f.e1, f.e2 }), "face-neighbours", fmt("%d %d vs %d %d ", t->Elem1No, t->Elem2No, f.e1, f.e2) + M.labelText);
         P3 n = g.faceNormal(f); if (t->Elem1No != f.e1) { n = -1.0 * n; } auto nv = getNormal(*t); M.expect(nv.Size() == dim, "normal-size");
         if (dim > 1) { P3 got = p3(nv); M.near(dot(unit(got), unit(n)), 1.0, 1e-12, "normal-direction-out-of-first-element", M.labelText); } else { M.near(nv[0], 1.0, 0, "normal-1d"); }
         auto fb = getBarycenterOfFaceElement(m, m.GetBdrElementFaceIndex(be)); M.near(norm(p3(fb) - g.faceCentre(f)), 0, 1e-13, "barycentre-face", M.labelText);
         auto pr = calculateBarycenters(m, be); P3 c1 = g.centre(g.el[t->Elem1No]), c2 = t->Elem2No >= 0 ? g.centre(g.el[t->Elem2No]) : g.faceCentre(f); M.near(norm(p3(pr.first) - c1) + norm(p3(pr.second) - c2), 0, 1e-13, "barycentre-pair", M.labelText);
         auto bv = buildElem1ToElem2BarycenterVector(m, be); M.near(norm(p3(bv) - (c2 - c1)), 0, 1e-13, "barycentre-vector", M.labelText);
         if (dim == 2) { auto tg = buildTangent2D(m, be); P3 T = p3(tg); M.near(dot(T, n), 0, 1e-12 * norm(T) * norm(n), "tangent-orthogonal", M.labelText); M.near(norm(T), norm(g.x[f.v[1]] - g.x[f.v[0]]), 1e-13, "tangent-length", M.labelText); M.near(buildFaceOrientation(m, be), cross(c2 - c1, T)[2], 1e-12, "face-orientation-2d", M.labelText); }
         if (dim == 3) { auto n3 = buildNormal3D(m, be); P3 N = p3(n3); M.near(std::abs(dot(unit(N), unit(n))), 1, 1e-12, "normal3d-direction", M.labelText); double area = norm(n); M.near(norm(N), area, 1e-11 * (1 + area), "normal3d-size", M.labelText); M.near(buildFaceOrientation(m, be), dot(c2 - c1, N), 1e-12, "face-orientation-3d", M.labelText); }
         M.event("face", M.labelText + fmt("/%d", be));
      }
   }
}
HARNESS_MAIN
