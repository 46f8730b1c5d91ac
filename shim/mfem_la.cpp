// Linear algebra part of the MFEM stand-in: vectors, dense and sparse matrices, iterative and ODE solvers.
#include "mfem.hpp"

namespace mfem {

std::ostream& out = std::cout;
std::ostream& err = std::cerr;

void mfem_error(const char* msg) { throw ErrorException(msg ? msg : "MFEM error"); }
void mfem_warning(const char*) {}
void shim_memory_violation(const char* what, long long index, long long size)
{
   std::fprintf(stderr, "SHIM-MEMORY-VIOLATION: %s index %lld size %lld\n", what, index, size);
   std::fflush(nullptr);
   std::abort();
}

// ------------------------------------------------------------------ Vector
void Vector::exact(int n)
{
   double* q = new double[n]; shim_poison(q, n);
   if (own) { delete[] data; }
   data = q; cap = n; own = true;
}
Vector::Vector(int s)
{
   if (s < 0) { mfem_error("Vector: negative size"); }
   if (s > 0) { exact(s); }
   size = s;
}
Vector::Vector(const Vector& v) : dev(v.dev) { SetSize(v.size); std::copy(v.data, v.data + v.size, data); }
Vector::Vector(Vector&& v) noexcept { Swap(v); }
Vector::~Vector() { if (own) { delete[] data; } }
void Vector::SetSize(int s)
{
   if (s < 0) { mfem_error("Vector::SetSize: negative size"); }
   if (s == size) { return; }
   if (s <= cap) { size = s; return; }
   exact(s); size = s;
}
void Vector::MakeRef(Vector& base, int offset, int s)
{
   if (offset < 0 || s < 0 || offset + s > base.size) { shim_memory_violation("Vector::MakeRef", (long long)offset + s, base.size); }
   if (own) { delete[] data; }
   data = base.data + offset; size = cap = s; own = false;
}
void Vector::MakeRef(Vector& base, int offset)
{
   if (offset < 0 || offset + size > base.size) { shim_memory_violation("Vector::MakeRef", (long long)offset + size, base.size); }
   if (own) { delete[] data; }
   data = base.data + offset; cap = size; own = false;
}
void Vector::Load(std::istream& in, int s) { SetSize(s); for (int i = 0; i < s; i++) { in >> data[i]; } }
static void same(const Vector& a, const Vector& b, const char* w) { if (a.Size() != b.Size()) { shim_memory_violation(w, b.Size(), a.Size()); } }
double Vector::operator*(const Vector& v) const { same(*this, v, "Vector dot product"); return *this * v.data; }
Vector& Vector::operator=(const Vector& v) { if (this == &v) { return *this; } SetSize(v.size); std::copy(v.data, v.data + v.size, data); return *this; }
Vector& Vector::operator=(Vector&& v) { v.Swap(*this); return *this; }
Vector& Vector::operator*=(const Vector& v) { same(*this, v, "Vector *="); for (int i = 0; i < size; i++) { data[i] *= v.data[i]; } return *this; }
Vector& Vector::operator/=(const Vector& v) { same(*this, v, "Vector /="); for (int i = 0; i < size; i++) { data[i] /= v.data[i]; } return *this; }
Vector& Vector::operator-=(const Vector& v) { same(*this, v, "Vector -="); for (int i = 0; i < size; i++) { data[i] -= v.data[i]; } return *this; }
Vector& Vector::operator+=(const Vector& v) { same(*this, v, "Vector +="); for (int i = 0; i < size; i++) { data[i] += v.data[i]; } return *this; }
Vector& Vector::Add(double a, const Vector& v) { same(*this, v, "Vector::Add"); if (a != 0.0) { for (int i = 0; i < size; i++) { data[i] += a * v.data[i]; } } return *this; }
Vector& Vector::Set(double a, const Vector& v) { same(*this, v, "Vector::Set"); for (int i = 0; i < size; i++) { data[i] = a * v.data[i]; } return *this; }
void Vector::SetVector(const Vector& v, int off) { if (off < 0 || off + v.size > size) { shim_memory_violation("Vector::SetVector", (long long)off + v.size, size); } for (int i = 0; i < v.size; i++) { data[off + i] = v.data[i]; } }
void Vector::AddSubVector(const Vector& v, int off) { if (off < 0 || off + v.size > size) { shim_memory_violation("Vector::AddSubVector", (long long)off + v.size, size); } for (int i = 0; i < v.size; i++) { data[off + i] += v.data[i]; } }
void Vector::GetSubVector(const Array<int>& dofs, Vector& e) const { e.SetSize(dofs.Size()); GetSubVector(dofs, e.data); }
void Vector::GetSubVector(const Array<int>& dofs, double* p) const { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; p[i] = j >= 0 ? (*this)(j) : -(*this)(-1 - j); } }
void Vector::SetSubVector(const Array<int>& dofs, double v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) { (*this)(j) = v; } else { (*this)(-1 - j) = -v; } } }
void Vector::SetSubVector(const Array<int>& dofs, const Vector& e) { if (e.size < dofs.Size()) { shim_memory_violation("Vector::SetSubVector", dofs.Size(), e.size); } SetSubVector(dofs, e.data); }
void Vector::SetSubVector(const Array<int>& dofs, double* p) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) { (*this)(j) = p[i]; } else { (*this)(-1 - j) = -p[i]; } } }
void Vector::AddElementVector(const Array<int>& dofs, const Vector& e) { AddElementVector(dofs, 1.0, e); }
void Vector::AddElementVector(const Array<int>& dofs, double a, const Vector& e) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) { (*this)(j) += a * e(i); } else { (*this)(-1 - j) -= a * e(i); } } }
void Vector::Print(std::ostream& os, int width) const
{
   if (!size) { return; }
   for (int i = 0; ; ) { os << data[i]; i++; if (i == size) { break; } os << (i % width == 0 ? '\n' : ' '); }
   os << '\n';
}
void Vector::Randomize(int seed) { unsigned long long s = (unsigned)seed * 2654435761u + 12345; for (int i = 0; i < size; i++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; data[i] = double(s >> 11) / 9007199254740992.0; } }
double Vector::Norml2() const { double m = 0; for (int i = 0; i < size; i++) { m += data[i] * data[i]; } return std::sqrt(m); }
double Vector::Normlinf() const { double m = 0; for (int i = 0; i < size; i++) { m = std::max(std::abs(data[i]), m); } return m; }
double Vector::Norml1() const { double m = 0; for (int i = 0; i < size; i++) { m += std::abs(data[i]); } return m; }
double Vector::Normlp(double p) const { double m = 0; for (int i = 0; i < size; i++) { m += std::pow(std::abs(data[i]), p); } return std::pow(m, 1 / p); }
double Vector::Max() const { if (!size) { return -std::numeric_limits<double>::infinity(); } double m = data[0]; for (int i = 1; i < size; i++) { if (m < data[i]) { m = data[i]; } } return m; }
double Vector::Min() const { if (!size) { return std::numeric_limits<double>::infinity(); } double m = data[0]; for (int i = 1; i < size; i++) { if (m > data[i]) { m = data[i]; } } return m; }
void add(const Vector& a, const Vector& b, Vector& c) { same(a, b, "add"); same(a, c, "add"); for (int i = 0; i < a.Size(); i++) { c(i) = a(i) + b(i); } }
void add(const Vector& a, double al, const Vector& b, Vector& c) { same(a, b, "add"); same(a, c, "add"); for (int i = 0; i < a.Size(); i++) { c(i) = a(i) + al * b(i); } }
void add(double al, const Vector& a, const Vector& b, Vector& c) { same(a, b, "add"); same(a, c, "add"); for (int i = 0; i < a.Size(); i++) { c(i) = al * (a(i) + b(i)); } }
void add(double al, const Vector& a, double be, const Vector& b, Vector& c) { same(a, b, "add"); same(a, c, "add"); for (int i = 0; i < a.Size(); i++) { c(i) = al * a(i) + be * b(i); } }
void subtract(const Vector& a, const Vector& b, Vector& c) { same(a, b, "subtract"); same(a, c, "subtract"); for (int i = 0; i < a.Size(); i++) { c(i) = a(i) - b(i); } }
void subtract(double s, const Vector& a, const Vector& b, Vector& c) { for (int i = 0; i < a.Size(); i++) { c(i) = s * (a(i) - b(i)); } }
double InnerProduct(MPI_Comm comm, const Vector& a, const Vector& b) { double l = a * b, g = 0; MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, comm); return g; }

// ------------------------------------------------------------------ DenseMatrix
DenseMatrix& DenseMatrix::operator=(const DenseMatrix& o)
{
   if (this == &o) { return *this; }
   SetSize(o.height, o.width);
   std::copy(o.p(), o.p() + std::size_t(height) * width, p());
   return *this;
}
void DenseMatrix::SetSize(int h, int w)
{
   if (h < 0 || w < 0) { mfem_error("DenseMatrix::SetSize: negative size"); }
   if (h == height && w == width) { return; }
   const std::size_t n = std::size_t(h) * w;
   if (ext) { if (n > std::size_t(height) * width) { ext = nullptr; d.assign(n, 0.0); } }
   else if (n > d.size()) { d.assign(n, 0.0); }
   height = h; width = w;
}
void DenseMatrix::Mult(const double* x, double* y) const
{
   for (int i = 0; i < height; i++) { y[i] = 0.0; }
   const double* a = p();
   for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) { y[i] += a[i + std::size_t(j) * height] * x[j]; }
}
static void chk(int need, const Vector& v, const char* w) { if (v.Size() < need) { shim_memory_violation(w, need, v.Size()); } }
void DenseMatrix::Mult(const Vector& x, Vector& y) const { chk(width, x, "DenseMatrix::Mult x"); chk(height, y, "DenseMatrix::Mult y"); Mult(x.GetData(), y.GetData()); }
void DenseMatrix::MultTranspose(const Vector& x, Vector& y) const { chk(height, x, "DenseMatrix::MultTranspose x"); chk(width, y, "DenseMatrix::MultTranspose y"); for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) { s += (*this)(i, j) * x(i); } y(j) = s; } }
void DenseMatrix::AddMult(const Vector& x, Vector& y, const double a) const { chk(width, x, "DenseMatrix::AddMult x"); chk(height, y, "DenseMatrix::AddMult y"); for (int j = 0; j < width; j++) for (int i = 0; i < height; i++) { y(i) += a * (*this)(i, j) * x(j); } }
void DenseMatrix::AddMultTranspose(const Vector& x, Vector& y, const double a) const { for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) { s += (*this)(i, j) * x(i); } y(j) += a * s; } }
void DenseMatrix::Transpose()
{
   std::vector<double> t(std::size_t(height) * width);
   for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) { t[std::size_t(j) + std::size_t(i) * width] = (*this)(i, j); }
   std::swap(height, width);
   std::copy(t.begin(), t.end(), p());
}
void DenseMatrix::Invert()
{
   MFEM_VERIFY(height == width && height > 0, "DenseMatrix::Invert: matrix not square");
   const int n = height; DenseMatrix a(*this), b; b.Diag(1.0, n);
   for (int c = 0; c < n; c++) {
      int pv = c; for (int i = c + 1; i < n; i++) { if (std::abs(a(i, c)) > std::abs(a(pv, c))) { pv = i; } }
      if (a(pv, c) == 0.0) { mfem_error("DenseMatrix::Invert: singular matrix"); }
      if (pv != c) { for (int j = 0; j < n; j++) { std::swap(a(c, j), a(pv, j)); std::swap(b(c, j), b(pv, j)); } }
      const double iv = 1.0 / a(c, c);
      for (int j = 0; j < n; j++) { a(c, j) *= iv; b(c, j) *= iv; }
      for (int i = 0; i < n; i++) { if (i == c) { continue; } const double f = a(i, c); if (f == 0.0) { continue; } for (int j = 0; j < n; j++) { a(i, j) -= f * a(c, j); b(i, j) -= f * b(c, j); } }
   }
   std::copy(b.p(), b.p() + std::size_t(n) * n, p());
}
double DenseMatrix::Det() const
{
   MFEM_VERIFY(height == width, "DenseMatrix::Det");
   const DenseMatrix& a = *this;
   switch (height) {
      case 0: return 1.0;
      case 1: return a(0, 0);
      case 2: return a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
      case 3: return a(0, 0) * (a(1, 1) * a(2, 2) - a(2, 1) * a(1, 2)) + a(1, 0) * (a(2, 1) * a(0, 2) - a(0, 1) * a(2, 2)) + a(2, 0) * (a(0, 1) * a(1, 2) - a(1, 1) * a(0, 2));
   }
   DenseMatrixInverse inv(*this); return inv.Det();
}
double DenseMatrix::CalcSingularvalue(const int i) const
{
   const int n = width; DenseMatrix A(n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { double t = 0; for (int k = 0; k < height; k++) { t += (*this)(k, a) * (*this)(k, b); } A(a, b) = t; }
   for (int sweep = 0; sweep < 60; sweep++) {
      double off = 0; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { off += A(p, q) * A(p, q); } if (off == 0.0) { break; }
      for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
         if (A(p, q) == 0.0) { continue; } const double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
         for (int k = 0; k < n; k++) { const double x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; } for (int k = 0; k < n; k++) { const double x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
      }
   }
   std::vector<double> d(n); for (int k = 0; k < n; k++) { d[k] = std::sqrt(std::max(A(k, k), 0.0)); } std::sort(d.rbegin(), d.rend()); return d.at(i);
}
double DenseMatrix::Weight() const
{
   if (height == width) { return Det(); }
   const DenseMatrix& a = *this;
   if (width == 0) { return 1.0; }
   if (height == 2 && width == 1) { return std::sqrt(a(0, 0) * a(0, 0) + a(1, 0) * a(1, 0)); }
   if (height == 3 && width == 1) { return std::sqrt(a(0, 0) * a(0, 0) + a(1, 0) * a(1, 0) + a(2, 0) * a(2, 0)); }
   if (height == 3 && width == 2) {
      double E = 0, F = 0, G = 0; for (int i = 0; i < 3; i++) { E += a(i, 0) * a(i, 0); F += a(i, 0) * a(i, 1); G += a(i, 1) * a(i, 1); }
      return std::sqrt(E * G - F * F);
   }
   mfem_error("DenseMatrix::Weight(): mismatched or unsupported dimensions");
}
void DenseMatrix::Print(std::ostream& os, int w) const
{
   for (int i = 0; i < height; i++) { os << "[row " << i << "]\n"; for (int j = 0; j < width; j++) { os << (*this)(i, j) << ((j + 1 == width || (j + 1) % w == 0) ? '\n' : ' '); } }
}
void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a)
{
   if (b.Width() != c.Height() || a.Height() != b.Height() || a.Width() != c.Width()) { shim_memory_violation("Mult(DenseMatrix) sizes", b.Width(), c.Height()); }
   a = 0.0; AddMult(b, c, a);
}
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) { for (int j = 0; j < c.Width(); j++) for (int k = 0; k < b.Width(); k++) for (int i = 0; i < b.Height(); i++) { a(i, j) += b(i, k) * c(k, j); } }
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { if (A.Width() != B.Width() || C.Height() != A.Height() || C.Width() != B.Height()) { shim_memory_violation("MultABt sizes", A.Width(), B.Width()); } for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double s = 0; for (int k = 0; k < A.Width(); k++) { s += A(i, k) * B(j, k); } C(i, j) = s; } }
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { for (int i = 0; i < A.Width(); i++) for (int j = 0; j < B.Width(); j++) { double s = 0; for (int k = 0; k < A.Height(); k++) { s += A(k, i) * B(k, j); } C(i, j) = s; } }
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { M.SetSize(v.Size(), w.Size()); for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) { M(i, j) = v(i) * w(j); } }
void MultVVt(const Vector& v, DenseMatrix& M) { MultVWt(v, v, M); }
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { if (M.Height() != v.Size() || M.Width() != w.Size()) { shim_memory_violation("AddMultVWt sizes", v.Size(), M.Height()); } for (int j = 0; j < w.Size(); j++) for (int i = 0; i < v.Size(); i++) { M(i, j) += v(i) * w(j); } }
void AddMult_a_VWt(const double a, const Vector& v, const Vector& w, DenseMatrix& M) { if (M.Height() != v.Size() || M.Width() != w.Size()) { shim_memory_violation("AddMult_a_VWt sizes", v.Size(), M.Height()); } for (int j = 0; j < w.Size(); j++) { const double c = a * w(j); for (int i = 0; i < v.Size(); i++) { M(i, j) += v(i) * c; } } }
void AddMult_a_VVt(const double a, const Vector& v, DenseMatrix& M) { AddMult_a_VWt(a, v, v, M); }
void AddMultVVt(const Vector& v, DenseMatrix& M) { AddMultVWt(v, v, M); }
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& b)
{
   if (b.Height() != a.Width() || b.Width() != a.Height()) { shim_memory_violation("CalcAdjugate sizes", b.Height(), a.Width()); }
   if (a.Width() < a.Height()) {
      if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) { b(0, i) = a(i, 0); } return; }
      double e = 0, f = 0, g = 0; for (int i = 0; i < 3; i++) { e += a(i, 0) * a(i, 0); g += a(i, 1) * a(i, 1); f += a(i, 0) * a(i, 1); }
      for (int i = 0; i < 3; i++) { b(0, i) = a(i, 0) * g - a(i, 1) * f; b(1, i) = a(i, 1) * e - a(i, 0) * f; }
      return;
   }
   if (a.Width() == 1) { b(0, 0) = 1.0; }
   else if (a.Width() == 2) { b(0, 0) = a(1, 1); b(0, 1) = -a(0, 1); b(1, 0) = -a(1, 0); b(1, 1) = a(0, 0); }
   else {
      b(0, 0) = a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1); b(0, 1) = a(0, 2) * a(2, 1) - a(0, 1) * a(2, 2); b(0, 2) = a(0, 1) * a(1, 2) - a(0, 2) * a(1, 1);
      b(1, 0) = a(1, 2) * a(2, 0) - a(1, 0) * a(2, 2); b(1, 1) = a(0, 0) * a(2, 2) - a(0, 2) * a(2, 0); b(1, 2) = a(0, 2) * a(1, 0) - a(0, 0) * a(1, 2);
      b(2, 0) = a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0); b(2, 1) = a(0, 1) * a(2, 0) - a(0, 0) * a(2, 1); b(2, 2) = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
   }
}
void CalcInverse(const DenseMatrix& a, DenseMatrix& inv)
{
   inv.SetSize(a.Width(), a.Height()); CalcAdjugate(a, inv);
   const double w = a.Width() < a.Height() ? a.Weight() * a.Weight() : a.Det();
   inv *= 1.0 / w;
}
void CalcOrtho(const DenseMatrix& J, Vector& n)
{
   if (J.Height() != J.Width() + 1 || J.Width() < 1 || n.Size() != J.Height()) { shim_memory_violation("CalcOrtho sizes", n.Size(), J.Height()); }
   if (J.Height() == 2) { n(0) = J(1, 0); n(1) = -J(0, 0); }
   else { n(0) = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1); n(1) = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1); n(2) = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1); }
}
void Add(const DenseMatrix& A, const DenseMatrix& B, double alpha, DenseMatrix& C) { for (int j = 0; j < C.Width(); j++) for (int i = 0; i < C.Height(); i++) { C(i, j) = A(i, j) + alpha * B(i, j); } }

void DenseMatrixInverse::Factor(const DenseMatrix& m)
{
   MFEM_VERIFY(m.Height() == m.Width(), "DenseMatrix is not square!");
   const int n = m.Height(); height = width = n; lu = m; piv.resize(n);
   for (int c = 0; c < n; c++) {
      int pv = c; for (int i = c + 1; i < n; i++) { if (std::abs(lu(i, c)) > std::abs(lu(pv, c))) { pv = i; } }
      piv[c] = pv;
      if (pv != c) { for (int j = 0; j < n; j++) { std::swap(lu(c, j), lu(pv, j)); } }
      if (lu(c, c) == 0.0) { mfem_error("DenseMatrixInverse: singular matrix"); }
      for (int i = c + 1; i < n; i++) { lu(i, c) /= lu(c, c); }
      for (int j = c + 1; j < n; j++) { const double f = lu(c, j); if (f != 0.0) { for (int i = c + 1; i < n; i++) { lu(i, j) -= lu(i, c) * f; } } }
   }
}
void DenseMatrixInverse::Mult(const Vector& x, Vector& y) const
{
   const int n = height; chk(n, x, "DenseMatrixInverse::Mult x"); y = x;
   for (int i = 0; i < n; i++) { std::swap(y(i), y(piv[i])); }
   for (int j = 0; j < n; j++) for (int i = j + 1; i < n; i++) { y(i) -= lu(i, j) * y(j); }
   for (int j = n - 1; j >= 0; j--) { y(j) /= lu(j, j); for (int i = 0; i < j; i++) { y(i) -= lu(i, j) * y(j); } }
}
void DenseMatrixInverse::Mult(const DenseMatrix& B, DenseMatrix& X) const
{
   X = B; Vector a(height), b(height);
   for (int j = 0; j < B.Width(); j++) { for (int i = 0; i < height; i++) { a(i) = B(i, j); } Mult(a, b); for (int i = 0; i < height; i++) { X(i, j) = b(i); } }
}
void DenseMatrixInverse::GetInverseMatrix(DenseMatrix& inv) const { DenseMatrix I; I.Diag(1.0, height); Mult(I, inv); }
double DenseMatrixInverse::Det() const { double d = 1; for (int i = 0; i < height; i++) { d *= piv[i] == i ? lu(i, i) : -lu(i, i); } return d; }

// ------------------------------------------------------------------ SparseMatrix
SparseMatrix::SparseMatrix(int nr, int nc) : Operator(nr, nc >= 0 ? nc : nr) { if (nr < 0) { mfem_error("SparseMatrix: bad size"); } rows = new std::vector<std::map<int, double>>(nr); }
void SparseMatrix::clear()
{
   if (ownij) { delete[] I; delete[] J; }
   if (ownd) { delete[] A; }
   delete rows; I = J = nullptr; A = nullptr; rows = nullptr; ownij = ownd = true;
}
SparseMatrix::SparseMatrix(const SparseMatrix& o, bool, MemoryType) : Operator(o.height, o.width), sorted(o.sorted)
{
   if (o.rows) { rows = new std::vector<std::map<int, double>>(*o.rows); }
   if (o.I) {
      const int nnz = o.I[o.height];
      I = new int[height + 1]; J = new int[nnz]; A = new double[nnz];
      std::copy(o.I, o.I + height + 1, I); std::copy(o.J, o.J + nnz, J); std::copy(o.A, o.A + nnz, A);
   }
}
SparseMatrix::SparseMatrix(const Vector& v) : Operator(v.Size()) { rows = new std::vector<std::map<int, double>>(height); for (int i = 0; i < height; i++) { (*rows)[i][i] = v(i); } Finalize(0); }
SparseMatrix& SparseMatrix::operator=(double a) { if (rows) { for (auto& r : *rows) for (auto& e : r) { e.second = a; } } else if (I) { std::fill(A, A + I[height], a); } return *this; }
void SparseMatrix::MakeRef(const SparseMatrix& m) { clear(); height = m.height; width = m.width; I = m.I; J = m.J; A = m.A; ownij = ownd = false; }
int SparseMatrix::RowSize(int i) const { SHIM_CHECK(i, height, "SparseMatrix::RowSize") return rows ? (int)(*rows)[i].size() : I[i + 1] - I[i]; }
int SparseMatrix::MaxRowSize() const { int m = 0; for (int i = 0; i < height; i++) { m = std::max(m, RowSize(i)); } return m; }
int SparseMatrix::NumNonZeroElems() const { if (rows) { int n = 0; for (auto& r : *rows) { n += (int)r.size(); } return n; } return I ? I[height] : 0; }
#define NEED_FINAL MFEM_VERIFY(Finalized(), "Matrix must be finalized.")
int* SparseMatrix::GetRowColumns(int r) { NEED_FINAL; SHIM_CHECK(r, height, "SparseMatrix::GetRowColumns") return J + I[r]; }
const int* SparseMatrix::GetRowColumns(int r) const { NEED_FINAL; SHIM_CHECK(r, height, "SparseMatrix::GetRowColumns") return J + I[r]; }
double* SparseMatrix::GetRowEntries(int r) { NEED_FINAL; SHIM_CHECK(r, height, "SparseMatrix::GetRowEntries") return A + I[r]; }
const double* SparseMatrix::GetRowEntries(int r) const { NEED_FINAL; SHIM_CHECK(r, height, "SparseMatrix::GetRowEntries") return A + I[r]; }
int SparseMatrix::GetRow(int r, Array<int>& cols, Vector& s) const
{
   SHIM_CHECK(r, height, "SparseMatrix::GetRow")
   const int n = RowSize(r); cols.SetSize(n); s.SetSize(n);
   if (rows) { int k = 0; for (auto& e : (*rows)[r]) { cols[k] = e.first; s(k++) = e.second; } return 0; }
   for (int k = 0; k < n; k++) { cols[k] = J[I[r] + k]; s(k) = A[I[r] + k]; }
   return 1;
}
double& SparseMatrix::operator()(int i, int j) { return Elem(i, j); }
double& SparseMatrix::Elem(int i, int j)
{
   SHIM_CHECK(i, height, "SparseMatrix row") SHIM_CHECK(j, width, "SparseMatrix col")
   if (rows) { return (*rows)[i][j]; }
   for (int k = I[i]; k < I[i + 1]; k++) { if (J[k] == j) { return A[k]; } }
   mfem_error("SparseMatrix: entry not in the sparsity pattern");
}
const double& SparseMatrix::Elem(int i, int j) const
{
   static const double zero = 0.0;
   SHIM_CHECK(i, height, "SparseMatrix row") SHIM_CHECK(j, width, "SparseMatrix col")
   if (rows) { auto it = (*rows)[i].find(j); return it == (*rows)[i].end() ? zero : it->second; }
   if (I) { for (int k = I[i]; k < I[i + 1]; k++) { if (J[k] == j) { return A[k]; } } }
   return zero;
}
void SparseMatrix::Set(int i, int j, double v) { Elem(i, j) = v; }
void SparseMatrix::Add(int i, int j, double v) { Elem(i, j) += v; }
void SparseMatrix::SetRow(int r, const Array<int>& c, const Vector& s) { for (int k = 0; k < c.Size(); k++) { Set(r, c[k], s(k)); } }
void SparseMatrix::AddRow(int r, const Array<int>& c, const Vector& s) { for (int k = 0; k < c.Size(); k++) { Add(r, c[k], s(k)); } }
void SparseMatrix::SetWidth(int w) { if (w >= 0) { width = w; return; } int m = -1; if (rows) { for (auto& r : *rows) { if (!r.empty()) { m = std::max(m, r.rbegin()->first); } } } else { for (int k = 0; k < I[height]; k++) { m = std::max(m, J[k]); } } width = m + 1; }
void SparseMatrix::SortColumnIndices()
{
   if (!I) { return; }
   for (int i = 0; i < height; i++) {
      std::vector<std::pair<int, double>> r; for (int k = I[i]; k < I[i + 1]; k++) { r.emplace_back(J[k], A[k]); }
      std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (int k = I[i]; k < I[i + 1]; k++) { J[k] = r[k - I[i]].first; A[k] = r[k - I[i]].second; }
   }
   sorted = true;
}
void SparseMatrix::GetDiag(Vector& d) const { d.SetSize(height); for (int i = 0; i < height; i++) { d(i) = Elem(i, i); } }
void SparseMatrix::ToDenseMatrix(DenseMatrix& B) const
{
   B.SetSize(height, width); B = 0.0;
   Array<int> c; Vector v; for (int i = 0; i < height; i++) { GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { B(i, c[k]) += v(k); } }
}
void SparseMatrix::Mult(const Vector& x, Vector& y) const { chk(height, y, "SparseMatrix::Mult y"); for (int i = 0; i < y.Size(); i++) { y(i) = 0.0; } AddMult(x, y); }
void SparseMatrix::AddMult(const Vector& x, Vector& y, const double a) const
{
   chk(width, x, "SparseMatrix::AddMult x"); chk(height, y, "SparseMatrix::AddMult y");
   const double* xp = x.GetData(); double* yp = y.GetData();
   if (rows) { for (int i = 0; i < height; i++) { double s = 0; for (auto& e : (*rows)[i]) { s += e.second * xp[e.first]; } yp[i] += a * s; } return; }
   if (!I) { return; }
   for (int i = 0; i < height; i++) { double s = 0; for (int k = I[i]; k < I[i + 1]; k++) { SHIM_CHECK(J[k], width, "SparseMatrix column index") s += A[k] * xp[J[k]]; } yp[i] += a * s; }
}
void SparseMatrix::MultTranspose(const Vector& x, Vector& y) const { for (int i = 0; i < y.Size(); i++) { y(i) = 0.0; } AddMultTranspose(x, y); }
void SparseMatrix::AddMultTranspose(const Vector& x, Vector& y, const double a) const
{
   chk(height, x, "SparseMatrix::AddMultTranspose x"); chk(width, y, "SparseMatrix::AddMultTranspose y");
   if (rows) { for (int i = 0; i < height; i++) { for (auto& e : (*rows)[i]) { y(e.first) += a * e.second * x(i); } } return; }
   for (int i = 0; i < height; i++) { for (int k = I[i]; k < I[i + 1]; k++) { y(J[k]) += a * A[k] * x(i); } }
}
void SparseMatrix::Finalize(int skip, bool)
{
   if (!rows) { return; }
   I = new int[height + 1]; int n = 0; I[0] = 0;
   for (int i = 0; i < height; i++) { for (auto& e : (*rows)[i]) { if (!skip || e.second != 0.0) { n++; } } I[i + 1] = n; }
   J = new int[n]; A = new double[n]; n = 0;
   for (auto& r : *rows) { for (auto& e : r) { if (!skip || e.second != 0.0) { J[n] = e.first; A[n++] = e.second; } } }
   delete rows; rows = nullptr; ownij = ownd = true; sorted = true;
}
void SparseMatrix::Threshold(double tol, bool)
{
   MFEM_VERIFY(Finalized(), "SparseMatrix::Threshold : matrix must be finalized");
   int n = 0; for (int k = 0; k < I[height]; k++) { if (std::abs(A[k]) > tol) { n++; } }
   int* nI = new int[height + 1]; int* nJ = new int[n]; double* nA = new double[n]; n = 0; nI[0] = 0;
   for (int i = 0; i < height; i++) { for (int k = I[i]; k < I[i + 1]; k++) { if (std::abs(A[k]) > tol) { nJ[n] = J[k]; nA[n++] = A[k]; } } nI[i + 1] = n; }
   clear(); I = nI; J = nJ; A = nA;
}
void SparseMatrix::ScaleRow(int row, double s) { if (rows) { for (auto& e : (*rows)[row]) { e.second *= s; } } else { for (int k = I[row]; k < I[row + 1]; k++) { A[k] *= s; } } }
void SparseMatrix::ScaleColumns(const Vector& s) { if (rows) { for (auto& r : *rows) for (auto& e : r) { e.second *= s(e.first); } } else { for (int k = 0; k < I[height]; k++) { A[k] *= s(J[k]); } } }
SparseMatrix& SparseMatrix::operator+=(const SparseMatrix& B) { Array<int> c; Vector v; for (int i = 0; i < B.height; i++) { B.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { Add(i, c[k], v(k)); } } return *this; }
SparseMatrix& SparseMatrix::operator*=(double a) { for (int i = 0; i < height; i++) { ScaleRow(i, a); } return *this; }
void SparseMatrix::AddSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int skip)
{
   for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) {
      double v = m(i, j); if (skip && v == 0.0) { continue; }
      int gi = r[i], gj = c[j]; if (gi < 0) { gi = -1 - gi; v = -v; } if (gj < 0) { gj = -1 - gj; v = -v; }
      Add(gi, gj, v);
   }
}
void SparseMatrix::SetSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int) { for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) { Set(r[i], c[j], m(i, j)); } }
void SparseMatrix::GetSubMatrix(const Array<int>& r, const Array<int>& c, DenseMatrix& m) const { m.SetSize(r.Size(), c.Size()); for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) { m(i, j) = Elem(r[i], c[j]); } }
double SparseMatrix::MaxNorm() const { double m = 0; if (rows) { for (auto& r : *rows) for (auto& e : r) { m = std::max(m, std::abs(e.second)); } } else if (I) { for (int k = 0; k < I[height]; k++) { m = std::max(m, std::abs(A[k])); } } return m; }
void SparseMatrix::Print(std::ostream& os, int w) const { Array<int> c; Vector v; for (int i = 0; i < height; i++) { os << "[row " << i << "]\n"; GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { os << " (" << c[k] << "," << v(k) << ")"; if ((k + 1) % w == 0 || k + 1 == c.Size()) { os << '\n'; } } } }
void SparseMatrix::PrintMatlab(std::ostream& os) const { Array<int> c; Vector v; for (int i = 0; i < height; i++) { GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { os << i + 1 << " " << c[k] + 1 << " " << v(k) << '\n'; } } }
void SparseMatrix::PrintMM(std::ostream& os) const { os << "%%MatrixMarket matrix coordinate real general\n" << height << " " << width << " " << NumNonZeroElems() << '\n'; PrintMatlab(os); }
void SparseMatrix::PrintCSR(std::ostream& os) const { MFEM_VERIFY(Finalized(), "Matrix must be finalized."); os << height << '\n'; for (int i = 0; i <= height; i++) { os << I[i] + 1 << '\n'; } for (int k = 0; k < I[height]; k++) { os << J[k] + 1 << '\n'; } for (int k = 0; k < I[height]; k++) { os << A[k] << '\n'; } }
void SparseMatrix::PrintCSR2(std::ostream& os) const { MFEM_VERIFY(Finalized(), "Matrix must be finalized."); os << height << '\n' << width << '\n'; for (int i = 0; i <= height; i++) { os << I[i] << '\n'; } for (int k = 0; k < I[height]; k++) { os << J[k] << '\n'; } for (int k = 0; k < I[height]; k++) { os << A[k] << '\n'; } }
void SparseMatrix::Swap(SparseMatrix& o) { std::swap(height, o.height); std::swap(width, o.width); std::swap(I, o.I); std::swap(J, o.J); std::swap(A, o.A); std::swap(ownij, o.ownij); std::swap(ownd, o.ownd); std::swap(rows, o.rows); std::swap(sorted, o.sorted); }
SparseMatrix* Transpose(const SparseMatrix& A)
{
   auto* T = new SparseMatrix(A.Width(), A.Height()); Array<int> c; Vector v;
   for (int i = 0; i < A.Height(); i++) { A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { T->Set(c[k], i, v(k)); } }
   T->Finalize(0); return T;
}
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix*)
{
   MFEM_VERIFY(A.Width() == B.Height(), "Mult: incompatible sparse matrices");
   auto* C = new SparseMatrix(A.Height(), B.Width()); Array<int> c, d; Vector v, w;
   for (int i = 0; i < A.Height(); i++) { A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { B.GetRow(c[k], d, w); for (int l = 0; l < d.Size(); l++) { C->Add(i, d[l], v(k) * w(l)); } } }
   C->Finalize(0); return C;
}
SparseMatrix* TransposeMult(const SparseMatrix& A, const SparseMatrix& B) { std::unique_ptr<SparseMatrix> t(Transpose(A)); return Mult(*t, B); }
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B)
{
   auto* C = new SparseMatrix(A.Height(), A.Width()); Array<int> c; Vector v;
   for (int i = 0; i < A.Height(); i++) { A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { C->Add(i, c[k], a * v(k)); } B.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { C->Add(i, c[k], b * v(k)); } }
   C->Finalize(0); return C;
}
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B) { return Add(1.0, A, 1.0, B); }

// ------------------------------------------------------------------ iterative solvers
void GMRESSolver::Mult(const Vector& b, Vector& x) const
{
   const int n = width; Vector r(n), w(n);
   if (iterative_mode) { oper->Mult(x, r); subtract(b, r, r); } else { x = 0.0; r = b; }
   if (prec) { w = r; prec->Mult(w, r); }
   double beta = Norm(r); final_norm = std::max(rel_tol * beta, abs_tol);
   MFEM_VERIFY(std::isfinite(beta), "GMRES: beta = " << beta);
   if (beta <= final_norm || beta == 0.0) { final_norm = beta; final_iter = 0; converged = true; return; }
   const double tol = final_norm; int j = 1;
   while (j <= max_iter) {
      std::vector<Vector> v; v.reserve(m + 1); v.emplace_back(r); v[0] /= beta;
      DenseMatrix H(m + 1, m); Vector s(m + 1), cs(m + 1), sn(m + 1); s = 0.0; s(0) = beta; int i;
      for (i = 0; i < m && j <= max_iter; i++, j++) {
         if (prec) { Vector t(n); oper->Mult(v[i], t); prec->Mult(t, w); } else { oper->Mult(v[i], w); }
         for (int k = 0; k <= i; k++) { H(k, i) = Dot(w, v[k]); w.Add(-H(k, i), v[k]); }
         H(i + 1, i) = Norm(w); MFEM_VERIFY(std::isfinite(H(i + 1, i)), "GMRES: norm(w) not finite");
         v.emplace_back(w); if (H(i + 1, i) != 0.0) { v[i + 1] /= H(i + 1, i); }
         for (int k = 0; k < i; k++) { const double t = cs(k) * H(k, i) + sn(k) * H(k + 1, i); H(k + 1, i) = -sn(k) * H(k, i) + cs(k) * H(k + 1, i); H(k, i) = t; }
         const double d = std::hypot(H(i, i), H(i + 1, i)); cs(i) = d == 0 ? 1 : H(i, i) / d; sn(i) = d == 0 ? 0 : H(i + 1, i) / d;
         H(i, i) = d; H(i + 1, i) = 0.0; s(i + 1) = -sn(i) * s(i); s(i) = cs(i) * s(i);
         if (std::abs(s(i + 1)) <= tol) { i++; break; }
      }
      const int k = i; Vector y(k);
      for (int a = k - 1; a >= 0; a--) { double t = s(a); for (int c = a + 1; c < k; c++) { t -= H(a, c) * y(c); } y(a) = t / H(a, a); }
      for (int a = 0; a < k; a++) { x.Add(y(a), v[a]); }
      oper->Mult(x, r); subtract(b, r, r); if (prec) { w = r; prec->Mult(w, r); }
      beta = Norm(r); if (beta <= tol) { final_norm = beta; final_iter = j; converged = true; return; }
   }
   final_norm = beta; final_iter = max_iter; converged = false;
}
void CGSolver::Mult(const Vector& b, Vector& x) const
{
   const int n = width; Vector r(n), d(n), z(n);
   if (iterative_mode) { oper->Mult(x, r); subtract(b, r, r); } else { x = 0.0; r = b; }
   d = r; double nom = Dot(r, r); const double tol = std::max(nom * rel_tol * rel_tol, abs_tol * abs_tol); converged = false;
   for (int i = 1; i <= max_iter; i++) {
      if (nom <= tol) { converged = true; final_iter = i; return; }
      oper->Mult(d, z); const double al = nom / Dot(d, z); x.Add(al, d); r.Add(-al, z); const double nn = Dot(r, r); const double be = nn / nom; nom = nn; d *= be; d += r;
   }
   final_iter = max_iter;
}

// ------------------------------------------------------------------ ODE solvers (MFEM's own schemes)
void ForwardEulerSolver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); dxdt.SetSize(f->Width()); }
void ForwardEulerSolver::Step(Vector& x, double& t, double& dt) { f->SetTime(t); f->Mult(x, dxdt); x.Add(dt, dxdt); t += dt; }
void RK2Solver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); dxdt.SetSize(f->Width()); x1.SetSize(f->Width()); }
void RK2Solver::Step(Vector& x, double& t, double& dt) { const double b = 0.5 / a; f->SetTime(t); f->Mult(x, dxdt); add(x, (1. - b) * dt, dxdt, x1); x.Add(a * dt, dxdt); f->SetTime(t + a * dt); f->Mult(x, dxdt); add(x1, b * dt, dxdt, x); t += dt; }
void RK3SSPSolver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); y.SetSize(f->Width()); k.SetSize(f->Width()); }
void RK3SSPSolver::Step(Vector& x, double& t, double& dt)
{
   f->SetTime(t); f->Mult(x, k); add(x, dt, k, y);
   f->SetTime(t + dt); f->Mult(y, k); y.Add(dt, k); add(3. / 4, x, 1. / 4, y, y);
   f->SetTime(t + dt / 2); f->Mult(y, k); y.Add(dt, k); add(1. / 3, x, 2. / 3, y, x); t += dt;
}
void RK4Solver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); int n = f->Width(); y.SetSize(n); k.SetSize(n); z.SetSize(n); }
void RK4Solver::Step(Vector& x, double& t, double& dt)
{
   f->SetTime(t); f->Mult(x, k); add(x, dt / 2, k, y); add(x, dt / 6, k, z);
   f->SetTime(t + dt / 2); f->Mult(y, k); add(x, dt / 2, k, y); z.Add(dt / 3, k);
   f->Mult(y, k); add(x, dt, k, y); z.Add(dt / 3, k);
   f->SetTime(t + dt); f->Mult(y, k); add(z, dt / 6, k, x); t += dt;
}
void BackwardEulerSolver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); k.SetSize(f->Width()); }
void BackwardEulerSolver::Step(Vector& x, double& t, double& dt) { f->SetTime(t + dt); k = 0.0; f->ImplicitSolve(dt, x, k); x.Add(dt, k); t += dt; }
void ImplicitMidpointSolver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); k.SetSize(f->Width()); }
void ImplicitMidpointSolver::Step(Vector& x, double& t, double& dt) { f->SetTime(t + dt / 2); k = 0.0; f->ImplicitSolve(dt / 2, x, k); x.Add(dt, k); t += dt; }
void TrapezoidalRuleSolver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); k.SetSize(f->Width()); y.SetSize(f->Width()); }
void TrapezoidalRuleSolver::Step(Vector& x, double& t, double& dt) { f->SetTime(t); f->Mult(x, k); add(x, dt / 2, k, y); x.Add(dt / 2, k); f->SetTime(t + dt); k = 0.0; f->ImplicitSolve(dt / 2, y, k); x.Add(dt / 2, k); t += dt; }
SDIRK23Solver::SDIRK23Solver(int g) { gamma = g == 0 ? (3. - std::sqrt(3.)) / 6. : g == 2 ? (2. - std::sqrt(2.)) / 2. : g == 3 ? (2. + std::sqrt(2.)) / 2. : (3. + std::sqrt(3.)) / 6.; }
void SDIRK23Solver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); k.SetSize(f->Width()); y.SetSize(f->Width()); }
void SDIRK23Solver::Step(Vector& x, double& t, double& dt)
{
   f->SetTime(t + gamma * dt); k = 0.0; f->ImplicitSolve(gamma * dt, x, k); add(x, (1. - 2. * gamma) * dt, k, y); x.Add(dt / 2, k);
   f->SetTime(t + (1. - gamma) * dt); f->ImplicitSolve(gamma * dt, y, k); x.Add(dt / 2, k); t += dt;
}
void SDIRK34Solver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); int n = f->Width(); k.SetSize(n); y.SetSize(n); z.SetSize(n); }
void SDIRK34Solver::Step(Vector& x, double& t, double& dt)
{
   const double a = 1. / std::sqrt(3.) * std::cos(M_PI / 18.) + 0.5, b = 1. / (6. * (2. * a - 1.) * (2. * a - 1.));
   f->SetTime(t + a * dt); k = 0.0; f->ImplicitSolve(a * dt, x, k); add(x, (0.5 - a) * dt, k, y); add(x, (2. * a) * dt, k, z); x.Add(b * dt, k);
   f->SetTime(t + dt / 2); f->ImplicitSolve(a * dt, y, k); z.Add((1. - 4. * a) * dt, k); x.Add((1. - 2. * b) * dt, k);
   f->SetTime(t + (1. - a) * dt); f->ImplicitSolve(a * dt, z, k); x.Add(b * dt, k); t += dt;
}
void SDIRK33Solver::Init(TimeDependentOperator& f_) { ODESolver::Init(f_); k.SetSize(f->Width()); y.SetSize(f->Width()); }
void SDIRK33Solver::Step(Vector& x, double& t, double& dt)
{
   const double a = 0.435866521508458999416019, b = 1.20849664917601007033648, c = 0.717933260754229499708010;
   f->SetTime(t + a * dt); k = 0.0; f->ImplicitSolve(a * dt, x, k); add(x, (c - a) * dt, k, y); x.Add(b * dt, k);
   f->SetTime(t + c * dt); f->ImplicitSolve(a * dt, y, k); x.Add((1. - a - b) * dt, k);
   f->SetTime(t + dt); f->ImplicitSolve(a * dt, x, k); x.Add(a * dt, k); t += dt;
}
void Transpose(const Table& A, Table& At, int nc)
{
   At = Table(nc >= 0 ? nc : A.Width());
   for (int i = 0; i < A.Size(); i++) { for (int v : A.raw()[i]) { At.raw()[v].push_back(i); } }
}
} // namespace mfem
