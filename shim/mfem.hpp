// Stand-in for the MFEM finite element library (the OpenSEMBA fork), written for runtime
// monitoring of the solver in an environment where MFEM itself is not available. It follows MFEM's
// interface, numbering and ownership conventions for the parts the solver uses. Differences made on
// purpose: storage that MFEM leaves uninitialised is filled with a poison pattern, and element
// accesses are range checked, so that the monitors see such mistakes.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <complex>
#include <chrono>
#include <mpi.h>

#define MFEM_USE_MPI
#define MFEM_VERSION 40800
#define MFEM_HOST_DEVICE
#define MFEM_DEVICE
#define MFEM_HOST

namespace mfem {

typedef double real_t;
#define MFEM_USE_DOUBLE
constexpr real_t operator""_r(long double v) { return static_cast<real_t>(v); }
constexpr real_t operator""_r(unsigned long long v) { return static_cast<real_t>(v); }

/// Raised where MFEM would call mfem_error(): the library refused the request.
class ErrorException : public std::runtime_error
{ public: explicit ErrorException(const std::string& s) : std::runtime_error(s) {} };

[[noreturn]] void mfem_error(const char* msg = nullptr);
void mfem_warning(const char* msg = nullptr);
/// Called on an out-of-range access or the use of an object in an impossible state. Aborts the
/// process with a recognisable message (the monitors treat it like a sanitizer report).
[[noreturn]] void shim_memory_violation(const char* what, long long index, long long size);

#define MFEM_ABORT(msg) { std::ostringstream mfemMsgStream; mfemMsgStream << msg; mfem::mfem_error(mfemMsgStream.str().c_str()); }
#define MFEM_VERIFY(x, msg) if (!(x)) { MFEM_ABORT("Verification failed: (" << #x << ") is false: " << msg) }
#define MFEM_ASSERT(x, msg) if (!(x)) { MFEM_ABORT("Assertion failed: (" << #x << ") is false: " << msg) }
#define MFEM_WARNING(msg) { }
#define MFEM_CONTRACT_VAR(x) (void)x
#define SHIM_CHECK(i, n, what) if ((long long)(i) < 0 || (long long)(i) >= (long long)(n)) { ::mfem::shim_memory_violation(what, (long long)(i), (long long)(n)); }

extern std::ostream& out;
extern std::ostream& err;

template <typename T> inline void shim_poison(T* p, std::size_t n)
{
   if constexpr (std::is_same_v<T, double>) {
      const std::uint64_t bits = 0x7ff4dead7ff4deadULL; // signalling NaN
      for (std::size_t i = 0; i < n; i++) { std::memcpy(p + i, &bits, sizeof(double)); }
   } else if constexpr (std::is_trivially_copyable_v<T> && std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) {
      std::memset(static_cast<void*>(p), 0x5d, n * sizeof(T));
   }
}

enum class MemoryType { HOST, HOST_32, HOST_64, HOST_DEBUG, HOST_UMPIRE, HOST_PINNED, MANAGED, DEVICE, DEVICE_DEBUG, SIZE, PRESERVE, DEFAULT };
enum class MemoryClass { HOST, HOST_32, HOST_64, DEVICE, MANAGED };

template <typename T> class Memory
{
   T* p_ = nullptr; int cap_ = 0;
public:
   Memory() = default;
   explicit Memory(int n) { New(n); }
   Memory(int n, MemoryType) { New(n); }
   Memory(T* p, int n, bool) : p_(p), cap_(n) {}
   void New(int n) { p_ = new T[n > 0 ? n : 0]; cap_ = n; shim_poison(p_, n > 0 ? n : 0); }
   void New(int n, MemoryType) { New(n); }
   void Delete() { delete[] p_; p_ = nullptr; cap_ = 0; }
   void Reset() { p_ = nullptr; cap_ = 0; }
   void Wrap(T* p, int n, bool) { p_ = p; cap_ = n; }
   int Capacity() const { return cap_; }
   bool Empty() const { return p_ == nullptr; }
   operator T*() { return p_; }
   operator const T*() const { return p_; }
   T& operator[](int i) { return p_[i]; }
   const T& operator[](int i) const { return p_[i]; }
};

struct Backend {
   enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, DEBUG_DEVICE = 1 << 14 };
   enum { CPU_MASK = CPU, CUDA_MASK = CUDA, DEVICE_MASK = CUDA | HIP };
};
class Device {
public:
   Device() = default;
   explicit Device(const std::string&, int = 0) {}
   Device(const Device&) = delete;
   void Configure(const std::string&, int = 0) {}
   void Print(std::ostream& = mfem::out) {}
   static bool Allows(unsigned long m) { return (m & Backend::CPU) != 0; }
   static bool IsEnabled() { return false; }
   static bool IsConfigured() { return true; }
   static void SetGPUAwareMPI(bool = true) {}
   static bool GetGPUAwareMPI() { return false; }
   static void Synchronize() {}
   static int GetNumGPU() { return 0; }
};

template <typename F> inline void forall(int n, F&& f) { for (int i = 0; i < n; i++) { f(i); } }
template <typename F> inline void forall_switch(bool, int n, F&& f) { for (int i = 0; i < n; i++) { f(i); } }
#define MFEM_FORALL(i, N, ...) for (int i = 0; i < (N); i++) { __VA_ARGS__ }

// ---------------------------------------------------------------------------------------- Array
template <typename T> class Array
{
protected:
   T* data_ = nullptr; int size_ = 0, cap_ = 0; bool own_ = true;
   void grow(int n) {
      if (n <= cap_) { return; }
      int c = std::max(n, 2 * cap_);
      T* q = new T[c]; shim_poison(q, c);
      for (int i = 0; i < size_; i++) { q[i] = data_[i]; }
      if (own_) { delete[] data_; }
      data_ = q; cap_ = c; own_ = true;
   }
   // exact (no slack) reallocation so that the sanitizer sees overruns of raw pointers
   void exact(int n) {
      T* q = new T[n]; shim_poison(q, n);
      for (int i = 0; i < std::min(size_, n); i++) { q[i] = data_[i]; }
      if (own_) { delete[] data_; }
      data_ = q; cap_ = n; own_ = true;
   }
public:
   Array() = default;
   explicit Array(int n) { if (n > 0) { exact(n); } size_ = n > 0 ? n : 0; if (n < 0) { mfem_error("Array: negative size"); } }
   Array(int n, MemoryType) : Array(n) {}
   Array(T* d, int n) : data_(d), size_(n), cap_(n), own_(false) {}
   Array(const Array& o) { *this = o; }
   Array(Array&& o) noexcept { std::swap(data_, o.data_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); }
   template <typename CT> Array(const Array<CT>& o) { SetSize(o.Size()); for (int i = 0; i < size_; i++) { data_[i] = T(o[i]); } }
   template <typename CT, std::enable_if_t<std::is_convertible<CT, T>::value, bool> = true>
   explicit Array(std::initializer_list<CT> v) { SetSize((int)v.size()); int i = 0; for (auto& x : v) { data_[i++] = x; } }
   template <typename CT, int N> explicit Array(const CT (&v)[N]) { SetSize(N); for (int i = 0; i < N; i++) { data_[i] = v[i]; } }
   ~Array() { if (own_) { delete[] data_; } }
   Array& operator=(const Array& o) { if (this == &o) { return *this; } SetSize(o.size_); for (int i = 0; i < size_; i++) { data_[i] = o.data_[i]; } return *this; }
   Array& operator=(Array&& o) noexcept { std::swap(data_, o.data_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); return *this; }
   void operator=(const T& a) { for (int i = 0; i < size_; i++) { data_[i] = a; } }
   void Assign(const T* p) { for (int i = 0; i < size_; i++) { data_[i] = p[i]; } }
   operator T*() { return data_; }
   operator const T*() const { return data_; }
   T* GetData() { return data_; }
   const T* GetData() const { return data_; }
   int Size() const { return size_; }
   bool IsEmpty() const { return size_ == 0; }
   int Capacity() const { return cap_; }
   void Reserve(int n) { if (n > cap_) { exact(n); } }
   void SetSize(int n) { if (n < 0) { mfem_error("Array::SetSize: negative size"); } if (n > cap_) { exact(n); } size_ = n; }
   void SetSize(int n, const T& init) { int old = size_; SetSize(n); for (int i = old; i < n; i++) { data_[i] = init; } }
   void SetSize(int n, MemoryType) { SetSize(n); }
   T& operator[](int i) { SHIM_CHECK(i, size_, "Array") return data_[i]; }
   const T& operator[](int i) const { SHIM_CHECK(i, size_, "Array") return data_[i]; }
   int Append(const T& e) { T c = e; grow(size_ + 1); data_[size_] = c; return ++size_; }
   int Append(const T* e, int n) { grow(size_ + n); for (int i = 0; i < n; i++) { data_[size_ + i] = e[i]; } return size_ += n; }
   int Append(const Array& e) { return Append(e.GetData(), e.Size()); }
   int Prepend(const T& e) { Append(e); for (int i = size_ - 1; i > 0; i--) { data_[i] = data_[i - 1]; } data_[0] = e; return size_; }
   T& Last() { SHIM_CHECK(size_ - 1, size_, "Array::Last") return data_[size_ - 1]; }
   const T& Last() const { SHIM_CHECK(size_ - 1, size_, "Array::Last") return data_[size_ - 1]; }
   int Union(const T& e) { int i = 0; while (i < size_ && !(data_[i] == e)) { i++; } if (i == size_) { Append(e); } return i; }
   int Find(const T& e) const { for (int i = 0; i < size_; i++) { if (data_[i] == e) { return i; } } return -1; }
   int FindSorted(const T& e) const { auto it = std::lower_bound(begin(), end(), e); return (it != end() && *it == e) ? int(it - begin()) : -1; }
   void DeleteLast() { if (size_ > 0) { size_--; } }
   void DeleteFirst(const T& e) { for (int i = 0; i < size_; i++) { if (data_[i] == e) { for (i++; i < size_; i++) { data_[i - 1] = data_[i]; } size_--; return; } } }
   void DeleteAll() { if (own_) { delete[] data_; } data_ = nullptr; size_ = cap_ = 0; own_ = true; }
   void Copy(Array& c) const { c = *this; }
   void MakeRef(T* d, int n, bool own = false) { if (own_) { delete[] data_; } data_ = d; size_ = cap_ = n; own_ = own; }
   void MakeRef(const Array& o) { if (own_) { delete[] data_; } data_ = o.data_; size_ = o.size_; cap_ = o.cap_; own_ = false; }
   T Max() const { SHIM_CHECK(0, size_, "Array::Max of empty array") return *std::max_element(begin(), end()); }
   T Min() const { SHIM_CHECK(0, size_, "Array::Min of empty array") return *std::min_element(begin(), end()); }
   T Sum() const { T s = 0; for (int i = 0; i < size_; i++) { s += data_[i]; } return s; }
   void PartialSum() { T s = 0; for (int i = 0; i < size_; i++) { s += data_[i]; data_[i] = s; } }
   void Sort() { std::sort(begin(), end()); }
   template <class C> void Sort(C c) { std::sort(begin(), end(), c); }
   void Unique() { size_ = int(std::unique(begin(), end()) - begin()); }
   bool IsSorted() const { return std::is_sorted(begin(), end()); }
   void LoseData() { data_ = nullptr; size_ = cap_ = 0; }
   void StealData(T** p) { *p = data_; data_ = nullptr; size_ = cap_ = 0; }
   T* begin() { return data_; }
   T* end() { return data_ + size_; }
   const T* begin() const { return data_; }
   const T* end() const { return data_ + size_; }
   const T* Read(bool = true) const { return data_; }
   const T* HostRead() const { return data_; }
   T* Write(bool = true) { return data_; }
   T* HostWrite() { return data_; }
   T* ReadWrite(bool = true) { return data_; }
   T* HostReadWrite() { return data_; }
   bool OwnsData() const { return own_; }
   void Print(std::ostream& os = mfem::out, int width = 4) const { for (int i = 0; i < size_; i++) { os << data_[i] << ((i + 1) % width == 0 || i + 1 == size_ ? '\n' : ' '); } }
   void Save(std::ostream& os, int fmt = 0) const { if (fmt == 0) { os << size_ << '\n'; } for (int i = 0; i < size_; i++) { os << data_[i] << '\n'; } }
   void Load(std::istream& is, int fmt = 0) { if (fmt == 0) { int n; is >> n; SetSize(n); } for (int i = 0; i < size_; i++) { is >> data_[i]; } }
   void Load(int n, std::istream& is) { SetSize(n); Load(is, 1); }
   template <typename U> void GetSubArray(int off, int n, Array<U>& sa) const { sa.SetSize(n); for (int i = 0; i < n; i++) { sa[i] = (*this)[off + i]; } }
};
template <class T> inline bool operator==(const Array<T>& a, const Array<T>& b)
{ if (a.Size() != b.Size()) { return false; } for (int i = 0; i < a.Size(); i++) { if (!(a[i] == b[i])) { return false; } } return true; }
template <class T> inline bool operator!=(const Array<T>& a, const Array<T>& b) { return !(a == b); }
template <class T> inline void Swap(T& a, T& b) { std::swap(a, b); }
template <class T> class Array2D
{
   Array<T> a_; int m_ = 0, n_ = 0;
public:
   Array2D() = default;
   Array2D(int m, int n) : a_(m * n), m_(m), n_(n) {}
   void SetSize(int m, int n) { a_.SetSize(m * n); m_ = m; n_ = n; }
   int NumRows() const { return m_; }
   int NumCols() const { return n_; }
   T& operator()(int i, int j) { return a_[i * n_ + j]; }
   const T& operator()(int i, int j) const { return a_[i * n_ + j]; }
   void operator=(const T& v) { a_ = v; }
};

// ---------------------------------------------------------------------------------------- Vector
class Vector
{
protected:
   double* data = nullptr; int size = 0, cap = 0; bool own = true; bool dev = false;
   void exact(int n);
public:
   typedef double value_type;
   Vector() = default;
   explicit Vector(int s);
   Vector(double* d, int s) : data(d), size(s), cap(s), own(false) {}
   Vector(Vector& base, int offset, int s) { MakeRef(base, offset, s); }
   Vector(int s, MemoryType) : Vector(s) {}
   Vector(const Vector& v);
   Vector(Vector&& v) noexcept;
   template <typename CT, int N> explicit Vector(const CT (&v)[N]) { SetSize(N); for (int i = 0; i < N; i++) { data[i] = v[i]; } }
   template <typename CT, std::enable_if_t<std::is_convertible<CT, double>::value, bool> = true>
   explicit Vector(std::initializer_list<CT> v) { SetSize((int)v.size()); int i = 0; for (auto& x : v) { data[i++] = x; } }
   virtual ~Vector();
   virtual void UseDevice(bool u) const { const_cast<Vector*>(this)->dev = u; }
   virtual bool UseDevice() const { return dev; }
   int Size() const { return size; }
   int Capacity() const { return cap; }
   void SetSize(int s);
   void SetSize(int s, MemoryType) { SetSize(s); }
   void SetSize(int s, const Vector&) { SetSize(s); }
   void SetData(double* d) { if (own) { delete[] data; } data = d; own = false; }
   void SetDataAndSize(double* d, int s) { if (own) { delete[] data; } data = d; size = cap = s; own = false; }
   void NewDataAndSize(double* d, int s) { if (own) { delete[] data; } SetDataNoDelete(d, s); }
   void MakeDataOwner() { own = true; }
   void Destroy() { if (own) { delete[] data; } data = nullptr; size = cap = 0; own = true; }
   void MakeRef(Vector& base, int offset, int s);
   void MakeRef(Vector& base, int offset);
   void Load(std::istream& in, int s);
   void Load(std::istream& in) { int s; in >> s; Load(in, s); }
   void Load(std::istream** in, int np, int* dim);
   double* GetData() const { return const_cast<double*>(data); }
   operator double*() { return data; }
   operator const double*() const { return data; }
   double* begin() { return data; }
   double* end() { return data + size; }
   const double* begin() const { return data; }
   const double* end() const { return data + size; }
   bool OwnsData() const { return own; }
   double* StealData() { double* p = data; data = nullptr; size = cap = 0; own = true; return p; }
   double& Elem(int i) { SHIM_CHECK(i, size, "Vector") return data[i]; }
   const double& Elem(int i) const { SHIM_CHECK(i, size, "Vector") return data[i]; }
   double& operator()(int i) { SHIM_CHECK(i, size, "Vector") return data[i]; }
   const double& operator()(int i) const { SHIM_CHECK(i, size, "Vector") return data[i]; }
   double& operator[](int i) { SHIM_CHECK(i, size, "Vector") return data[i]; }
   const double& operator[](int i) const { SHIM_CHECK(i, size, "Vector") return data[i]; }
   double operator*(const double* v) const { double s = 0; for (int i = 0; i < size; i++) { s += data[i] * v[i]; } return s; }
   double operator*(const Vector& v) const;
   Vector& operator=(const double* v) { for (int i = 0; i < size; i++) { data[i] = v[i]; } return *this; }
   Vector& operator=(const Vector& v);
   Vector& operator=(Vector&& v);
   Vector& operator=(double v) { for (int i = 0; i < size; i++) { data[i] = v; } return *this; }
   Vector& operator*=(double c) { for (int i = 0; i < size; i++) { data[i] *= c; } return *this; }
   Vector& operator*=(const Vector& v);
   Vector& operator/=(double c) { for (int i = 0; i < size; i++) { data[i] /= c; } return *this; }
   Vector& operator/=(const Vector& v);
   Vector& operator-=(double c) { for (int i = 0; i < size; i++) { data[i] -= c; } return *this; }
   Vector& operator-=(const Vector& v);
   Vector& operator+=(double c) { for (int i = 0; i < size; i++) { data[i] += c; } return *this; }
   Vector& operator+=(const Vector& v);
   Vector& Add(double a, const Vector& v);
   Vector& Set(double a, const Vector& v);
   void SetVector(const Vector& v, int offset);
   void AddSubVector(const Vector& v, int offset);
   void Neg() { for (int i = 0; i < size; i++) { data[i] = -data[i]; } }
   void Reciprocal() { for (int i = 0; i < size; i++) { data[i] = 1.0 / data[i]; } }
   void Abs() { for (int i = 0; i < size; i++) { data[i] = std::abs(data[i]); } }
   void Swap(Vector& o) { std::swap(data, o.data); std::swap(size, o.size); std::swap(cap, o.cap); std::swap(own, o.own); std::swap(dev, o.dev); }
   void GetSubVector(const Array<int>& dofs, Vector& elv) const;
   void GetSubVector(const Array<int>& dofs, double* p) const;
   void SetSubVector(const Array<int>& dofs, double v);
   void SetSubVector(const Array<int>& dofs, const Vector& elv);
   void SetSubVector(const Array<int>& dofs, double* p);
   void AddElementVector(const Array<int>& dofs, const Vector& elv);
   void AddElementVector(const Array<int>& dofs, double a, const Vector& elv);
   void Print(std::ostream& os = mfem::out, int width = 8) const;
   void Save(const char* fname, int precision = 16) const { std::ofstream f(fname); f.precision(precision); Print(f, 1); }
   void Randomize(int seed = 0);
   double Norml2() const;
   double Normlinf() const;
   double Norml1() const;
   double Normlp(double p) const;
   double Max() const;
   double Min() const;
   double Sum() const { double s = 0; for (int i = 0; i < size; i++) { s += data[i]; } return s; }
   double DistanceSquaredTo(const double* p) const { double s = 0; for (int i = 0; i < size; i++) { s += (data[i] - p[i]) * (data[i] - p[i]); } return s; }
   double DistanceSquaredTo(const Vector& p) const { if (p.size != size) { shim_memory_violation("Vector::DistanceTo size mismatch", p.size, size); } return DistanceSquaredTo(p.data); }
   double DistanceTo(const double* p) const { return std::sqrt(DistanceSquaredTo(p)); }
   double DistanceTo(const Vector& p) const { return std::sqrt(DistanceSquaredTo(p)); }
   int CheckFinite() const { int n = 0; for (int i = 0; i < size; i++) { n += !std::isfinite(data[i]); } return n; }
   void median(double) {}
   const double* Read(bool = true) const { return data; }
   const double* HostRead() const { return data; }
   double* Write(bool = true) { return data; }
   double* HostWrite() { return data; }
   double* ReadWrite(bool = true) { return data; }
   double* HostReadWrite() { return data; }
   void SyncMemory(const Vector&) const {}
   void SyncAliasMemory(const Vector&) const {}
private:
   void SetDataNoDelete(double* d, int s) { data = d; size = cap = s; own = false; }
};
void add(const Vector& a, const Vector& b, Vector& c);
void add(const Vector& a, double alpha, const Vector& b, Vector& c);
void add(double alpha, const Vector& a, const Vector& b, Vector& c);
void add(double alpha, const Vector& a, double beta, const Vector& b, Vector& c);
void subtract(const Vector& a, const Vector& b, Vector& c);
void subtract(double s, const Vector& a, const Vector& b, Vector& c);
inline double InnerProduct(const Vector& a, const Vector& b) { return a * b; }
double InnerProduct(MPI_Comm, const Vector&, const Vector&);
inline double Distance(const double* x, const double* y, int n) { double s = 0; for (int i = 0; i < n; i++) { s += (x[i] - y[i]) * (x[i] - y[i]); } return std::sqrt(s); }
inline double DistanceSquared(const double* x, const double* y, int n) { double s = 0; for (int i = 0; i < n; i++) { s += (x[i] - y[i]) * (x[i] - y[i]); } return s; }

// ---------------------------------------------------------------------------------------- Operators
class Operator
{
protected:
   int height, width;
public:
   explicit Operator(int s = 0) : height(s), width(s) {}
   Operator(int h, int w) : height(h), width(w) {}
   int Height() const { return height; }
   int NumRows() const { return height; }
   int Width() const { return width; }
   int NumCols() const { return width; }
   virtual MemoryClass GetMemoryClass() const { return MemoryClass::HOST; }
   virtual void Mult(const Vector& x, Vector& y) const = 0;
   virtual void MultTranspose(const Vector&, Vector&) const { mfem_error("Operator::MultTranspose() is not overridden!"); }
   virtual void AddMult(const Vector& x, Vector& y, const double a = 1.0) const { Vector z(y.Size()); Mult(x, z); y.Add(a, z); }
   virtual void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const { Vector z(y.Size()); MultTranspose(x, z); y.Add(a, z); }
   virtual Operator& GetGradient(const Vector&) const { mfem_error("Operator::GetGradient() is not overridden!"); }
   virtual void AssembleDiagonal(Vector&) const { mfem_error("not overridden"); }
   virtual ~Operator() {}
};
class TimeDependentOperator : public Operator
{
public:
   enum Type { EXPLICIT, IMPLICIT, HOMOGENEOUS };
   enum EvalMode { NORMAL, ADDITIVE_TERM_1, ADDITIVE_TERM_2 };
protected:
   double t; Type type; EvalMode eval_mode = NORMAL;
public:
   explicit TimeDependentOperator(int n = 0, double t_ = 0.0, Type ty = EXPLICIT) : Operator(n), t(t_), type(ty) {}
   TimeDependentOperator(int h, int w, double t_ = 0.0, Type ty = EXPLICIT) : Operator(h, w), t(t_), type(ty) {}
   virtual double GetTime() const { return t; }
   virtual void SetTime(const double t_) { t = t_; }
   bool isExplicit() const { return type == EXPLICIT; }
   bool isImplicit() const { return !isExplicit(); }
   bool isHomogeneous() const { return type == HOMOGENEOUS; }
   virtual void ExplicitMult(const Vector&, Vector&) const { mfem_error("not overridden"); }
   void Mult(const Vector&, Vector&) const override { mfem_error("TimeDependentOperator::Mult() is not overridden!"); }
   virtual void ImplicitSolve(const double, const Vector&, Vector&) { mfem_error("TimeDependentOperator::ImplicitSolve() is not overridden!"); }
};
class Solver : public Operator
{
public:
   bool iterative_mode;
   explicit Solver(int s = 0, bool it = false) : Operator(s), iterative_mode(it) {}
   Solver(int h, int w, bool it = false) : Operator(h, w), iterative_mode(it) {}
   virtual void SetOperator(const Operator& op) = 0;
};
class IdentityOperator : public Operator
{ public: explicit IdentityOperator(int n) : Operator(n) {} void Mult(const Vector& x, Vector& y) const override { y = x; } };

class ODESolver
{
protected:
   TimeDependentOperator* f = nullptr;
public:
   virtual void Init(TimeDependentOperator& f_) { f = &f_; }
   virtual void Step(Vector& x, double& t, double& dt) = 0;
   virtual void Run(Vector& x, double& t, double& dt, double tf) { while (t < tf) { Step(x, t, dt); } }
   virtual int GetStateSize() { return 0; }
   virtual ~ODESolver() {}
};
class ForwardEulerSolver : public ODESolver { Vector dxdt; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class RK2Solver : public ODESolver { double a; Vector dxdt, x1; public: explicit RK2Solver(double a_ = 2. / 3.) : a(a_) {} void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class RK3SSPSolver : public ODESolver { Vector y, k; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class RK4Solver : public ODESolver { Vector y, k, z; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class BackwardEulerSolver : public ODESolver { protected: Vector k; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class ImplicitMidpointSolver : public ODESolver { protected: Vector k; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class TrapezoidalRuleSolver : public ODESolver { Vector k, y; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class SDIRK23Solver : public ODESolver { double gamma; Vector k, y; public: explicit SDIRK23Solver(int gamma_opt = 1); void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class SDIRK34Solver : public ODESolver { Vector k, y, z; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class SDIRK33Solver : public ODESolver { Vector k, y; public: void Init(TimeDependentOperator&) override; void Step(Vector&, double&, double&) override; };
class ESDIRK32Solver : public ODESolver { public: void Step(Vector&, double&, double&) override { mfem_error("ESDIRK32 not provided"); } };

// ---------------------------------------------------------------------------------------- Matrices
class DenseMatrix : public Operator
{
   std::vector<double> d;
   double* ext = nullptr;
   double* p() { return ext ? ext : d.data(); }
   const double* p() const { return ext ? ext : d.data(); }
   std::size_t idx(int i, int j) const { SHIM_CHECK(i, height, "DenseMatrix row") SHIM_CHECK(j, width, "DenseMatrix col") return std::size_t(i) + std::size_t(j) * height; }
public:
   DenseMatrix() : Operator(0, 0) {}
   explicit DenseMatrix(int s) : Operator(s, s) { d.assign(std::size_t(s) * s, 0.0); }
   DenseMatrix(int m, int n) : Operator(m, n) { if (m < 0 || n < 0) { mfem_error("DenseMatrix: bad size"); } d.assign(std::size_t(m) * n, 0.0); }
   DenseMatrix(double* e, int h, int w) : Operator(h, w), ext(e) {}
   template <int M, int N, typename CT> explicit DenseMatrix(const CT (&v)[M][N]) : DenseMatrix(M, N) { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { (*this)(i, j) = v[i][j]; } }
   explicit DenseMatrix(std::initializer_list<std::initializer_list<double>> v) : Operator(0, 0)
   {
      int h = (int)v.size(), w = h ? (int)v.begin()->size() : 0; SetSize(h, w); int i = 0;
      for (auto& r : v) { int j = 0; for (auto x : r) { (*this)(i, j++) = x; } i++; }
   }
   DenseMatrix(const DenseMatrix& o) : Operator(o.height, o.width) { d.assign(o.p(), o.p() + std::size_t(height) * width); }
   DenseMatrix& operator=(const DenseMatrix& o);
   DenseMatrix& operator=(double c) { std::fill(p(), p() + std::size_t(height) * width, c); return *this; }
   DenseMatrix& operator=(const double* q) { std::copy(q, q + std::size_t(height) * width, p()); return *this; }
   void UseExternalData(double* e, int h, int w) { d.clear(); ext = e; height = h; width = w; }
   void Reset(double* e, int h, int w) { UseExternalData(e, h, w); }
   void ClearExternalData() { ext = nullptr; height = width = 0; }
   void Clear() { ext = nullptr; d.clear(); height = width = 0; }
   int Size() const { return width; }
   int TotalSize() const { return width * height; }
   void SetSize(int s) { SetSize(s, s); }
   void SetSize(int h, int w);
   double* Data() const { return const_cast<double*>(p()); }
   double* GetData() const { return Data(); }
   double& operator()(int i, int j) { return p()[idx(i, j)]; }
   const double& operator()(int i, int j) const { return p()[idx(i, j)]; }
   double& Elem(int i, int j) { return p()[idx(i, j)]; }
   const double& Elem(int i, int j) const { return p()[idx(i, j)]; }
   double operator*(const DenseMatrix& m) const { double s = 0; for (int i = 0; i < height * width; i++) { s += p()[i] * m.p()[i]; } return s; }
   double Trace() const { double s = 0; for (int i = 0; i < std::min(height, width); i++) { s += (*this)(i, i); } return s; }
   void Mult(const double* x, double* y) const;
   void Mult(const Vector& x, Vector& y) const override;
   void MultTranspose(const Vector& x, Vector& y) const override;
   void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
   void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const override;
   double InnerProduct(const Vector& x, const Vector& y) const { Vector z(height); Mult(x, z); return z * y; }
   void Set(double a, const DenseMatrix& A) { SetSize(A.height, A.width); for (int i = 0; i < height * width; i++) { p()[i] = a * A.p()[i]; } }
   void Add(double c, const DenseMatrix& A) { for (int i = 0; i < height * width; i++) { p()[i] += c * A.p()[i]; } }
   DenseMatrix& operator+=(const DenseMatrix& A) { if (A.height != height || A.width != width) { shim_memory_violation("DenseMatrix +=", A.height, height); } Add(1.0, A); return *this; }
   DenseMatrix& operator-=(const DenseMatrix& A) { Add(-1.0, A); return *this; }
   DenseMatrix& operator*=(double c) { for (int i = 0; i < height * width; i++) { p()[i] *= c; } return *this; }
   void Neg() { *this *= -1.0; }
   void Transpose();
   void Transpose(const DenseMatrix& A) { *this = A; Transpose(); }
   void Symmetrize() { for (int i = 0; i < height; i++) for (int j = 0; j < i; j++) { double a = 0.5 * ((*this)(i, j) + (*this)(j, i)); (*this)(i, j) = (*this)(j, i) = a; } }
   void Invert();
   double Det() const;
   double Weight() const;
   double CalcSingularvalue(const int i) const;
   double FNorm() const { double s = 0; for (int i = 0; i < height * width; i++) { s += p()[i] * p()[i]; } return std::sqrt(s); }
   double FNorm2() const { double s = FNorm(); return s * s; }
   double MaxMaxNorm() const { double s = 0; for (int i = 0; i < height * width; i++) { s = std::max(s, std::abs(p()[i])); } return s; }
   void GetRow(int r, Vector& row) const { row.SetSize(width); for (int j = 0; j < width; j++) { row(j) = (*this)(r, j); } }
   void GetColumn(int c, Vector& col) const { col.SetSize(height); for (int i = 0; i < height; i++) { col(i) = (*this)(i, c); } }
   double* GetColumn(int c) { SHIM_CHECK(c, width, "DenseMatrix::GetColumn") return p() + std::size_t(c) * height; }
   const double* GetColumn(int c) const { SHIM_CHECK(c, width, "DenseMatrix::GetColumn") return p() + std::size_t(c) * height; }
   void GetColumnReference(int c, Vector& col) { col.SetDataAndSize(p() + std::size_t(c) * height, height); }
   void SetRow(int r, const double* row) { for (int j = 0; j < width; j++) { (*this)(r, j) = row[j]; } }
   void SetRow(int r, const Vector& row) { for (int j = 0; j < width; j++) { (*this)(r, j) = row(j); } }
   void SetRow(int r, double v) { for (int j = 0; j < width; j++) { (*this)(r, j) = v; } }
   void SetCol(int c, const double* col) { for (int i = 0; i < height; i++) { (*this)(i, c) = col[i]; } }
   void SetCol(int c, const Vector& col) { for (int i = 0; i < height; i++) { (*this)(i, c) = col(i); } }
   void SetCol(int c, double v) { for (int i = 0; i < height; i++) { (*this)(i, c) = v; } }
   void Diag(double c, int n) { SetSize(n); *this = 0.0; for (int i = 0; i < n; i++) { (*this)(i, i) = c; } }
   void CopyMN(const DenseMatrix& A, int m, int n, int Aro, int Aco) { SetSize(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { (*this)(i, j) = A(Aro + i, Aco + j); } }
   void CopyMN(const DenseMatrix& A, int ro, int co) { for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) { (*this)(ro + i, co + j) = A(i, j); } }
   void AddMatrix(const DenseMatrix& A, int ro, int co) { for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) { (*this)(ro + i, co + j) += A(i, j); } }
   void AddMatrix(double a, const DenseMatrix& A, int ro, int co) { for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) { (*this)(ro + i, co + j) += a * A(i, j); } }
   void AddToVector(int off, Vector& v) const { for (int i = 0; i < height * width; i++) { v(off + i) += p()[i]; } }
   void Threshold(double eps) { for (int i = 0; i < height * width; i++) { if (std::abs(p()[i]) <= eps) { p()[i] = 0.0; } } }
   void Swap(DenseMatrix& o) { std::swap(height, o.height); std::swap(width, o.width); std::swap(d, o.d); std::swap(ext, o.ext); }
   void Print(std::ostream& os = mfem::out, int width_ = 4) const;
   void PrintMatlab(std::ostream& os = mfem::out) const { Print(os); }
   const double* Read(bool = true) const { return p(); }
   double* Write(bool = true) { return p(); }
   double* ReadWrite(bool = true) { return p(); }
   const double* HostRead() const { return p(); }
   double* HostWrite() { return p(); }
   double* HostReadWrite() { return p(); }
   ~DenseMatrix() override {}
};
void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& AtB);
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void MultVVt(const Vector& v, DenseMatrix& vvt);
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VWt(const double a, const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VVt(const double a, const Vector& v, DenseMatrix& VVt);
void AddMultVVt(const Vector& v, DenseMatrix& VVt);
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adja);
void CalcInverse(const DenseMatrix& a, DenseMatrix& inva);
void CalcOrtho(const DenseMatrix& J, Vector& n);
void Add(const DenseMatrix& A, const DenseMatrix& B, double alpha, DenseMatrix& C);

class DenseMatrixInverse : public Operator
{
   DenseMatrix lu; std::vector<int> piv;
public:
   explicit DenseMatrixInverse(bool = false) {}
   explicit DenseMatrixInverse(const DenseMatrix& m, bool = false) { Factor(m); }
   explicit DenseMatrixInverse(const DenseMatrix* m, bool = false) { Factor(*m); }
   int Size() const { return Width(); }
   void Factor() {}
   void Factor(const DenseMatrix& m);
   void Mult(const Vector& x, Vector& y) const override;
   void Mult(const DenseMatrix& B, DenseMatrix& X) const;
   void GetInverseMatrix(DenseMatrix& inv) const;
   double Det() const;
   ~DenseMatrixInverse() override {}
};

class SparseMatrix : public Operator
{
   int *I = nullptr, *J = nullptr; double* A = nullptr; bool ownij = true, ownd = true;
   std::vector<std::map<int, double>>* rows = nullptr; // open (list) format
   bool sorted = false;
   void clear();
public:
   SparseMatrix() : Operator(0, 0) {}
   explicit SparseMatrix(int nrows, int ncols = -1);
   SparseMatrix(int* i, int* j, double* data, int m, int n) : Operator(m, n), I(i), J(j), A(data) {}
   SparseMatrix(int* i, int* j, double* data, int m, int n, bool ownij_, bool owna, bool issorted) : Operator(m, n), I(i), J(j), A(data), ownij(ownij_), ownd(owna), sorted(issorted) {}
   SparseMatrix(const SparseMatrix& o, bool copy_graph = true, MemoryType mt = MemoryType::PRESERVE);
   explicit SparseMatrix(const Vector& diag);
   SparseMatrix(SparseMatrix&& o) : SparseMatrix() { Swap(o); }
   SparseMatrix& operator=(const SparseMatrix& o) { if (this != &o) { SparseMatrix t(o); Swap(t); } return *this; }
   SparseMatrix& operator=(SparseMatrix&& o) { Swap(o); return *this; }
   SparseMatrix& operator=(double a);
   ~SparseMatrix() override { clear(); }
   void MakeRef(const SparseMatrix& m);
   int Size() const { return height; }
   void Clear() { clear(); height = width = 0; }
   bool Empty() const { return !A && !rows; }
   bool Finalized() const { return A != nullptr || I != nullptr; }
   int* GetI() { return I; }
   int* GetJ() { return J; }
   double* GetData() { return A; }
   const int* GetI() const { return I; }
   const int* GetJ() const { return J; }
   const double* GetData() const { return A; }
   const int* HostReadI() const { return I; }
   const int* HostReadJ() const { return J; }
   const double* HostReadData() const { return A; }
   const int* ReadI(bool = true) const { return I; }
   const int* ReadJ(bool = true) const { return J; }
   const double* ReadData(bool = true) const { return A; }
   double* HostReadWriteData() { return A; }
   double* ReadWriteData(bool = true) { return A; }
   int* HostReadWriteI() { return I; }
   int* HostReadWriteJ() { return J; }
   double* HostWriteData() { return A; }
   int* HostWriteI() { return I; }
   int* HostWriteJ() { return J; }
   int RowSize(int i) const;
   int MaxRowSize() const;
   int NumNonZeroElems() const;
   int* GetRowColumns(int r);
   const int* GetRowColumns(int r) const;
   double* GetRowEntries(int r);
   const double* GetRowEntries(int r) const;
   int GetRow(int r, Array<int>& cols, Vector& srow) const;
   void SetRow(int r, const Array<int>& cols, const Vector& srow);
   void AddRow(int r, const Array<int>& cols, const Vector& srow);
   void SetWidth(int w = -1);
   void SortColumnIndices();
   double& Elem(int i, int j);
   const double& Elem(int i, int j) const;
   double& operator()(int i, int j);
   const double& operator()(int i, int j) const { return Elem(i, j); }
   void GetDiag(Vector& d) const;
   DenseMatrix* ToDenseMatrix() const { auto* m = new DenseMatrix(height, width); ToDenseMatrix(*m); return m; }
   void ToDenseMatrix(DenseMatrix& B) const;
   void Mult(const Vector& x, Vector& y) const override;
   void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
   void MultTranspose(const Vector& x, Vector& y) const override;
   void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const override;
   double InnerProduct(const Vector& x, const Vector& y) const { Vector z(height); Mult(x, z); return z * y; }
   void Finalize(int skip_zeros = 1) { Finalize(skip_zeros, false); }
   void Finalize(int skip_zeros, bool fix_empty_rows);
   void Threshold(double tol, bool fix_empty_rows = false);
   void ScaleRow(int row, double s);
   void ScaleRows(const Vector& sl) { for (int i = 0; i < height; i++) { ScaleRow(i, sl(i)); } }
   void ScaleColumns(const Vector& sr);
   SparseMatrix& operator+=(const SparseMatrix& B);
   SparseMatrix& operator*=(double a);
   void Add(int i, int j, double v);
   void Set(int i, int j, double v);
   void AddSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& subm, int skip_zeros = 1);
   void SetSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& subm, int skip_zeros = 1);
   void GetSubMatrix(const Array<int>& rows, const Array<int>& cols, DenseMatrix& subm) const;
   void EliminateRow(int, double = 0.0) { mfem_error("not provided"); }
   double MaxNorm() const;
   void Print(std::ostream& os = mfem::out, int width = 4) const;
   void PrintMatlab(std::ostream& os = mfem::out) const;
   void PrintMM(std::ostream& os = mfem::out) const;
   void PrintCSR(std::ostream& os) const;
   void PrintCSR2(std::ostream& os) const;
   void Swap(SparseMatrix& o);
   void LoseData() { I = J = nullptr; A = nullptr; }
   void SetGraphOwner(bool b) { ownij = b; }
   void SetDataOwner(bool b) { ownd = b; }
};
SparseMatrix* Transpose(const SparseMatrix& A);
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* OAB = nullptr);
SparseMatrix* TransposeMult(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B);
typedef SparseMatrix HypreParMatrix;
class HypreParVector : public Vector { public: using Vector::Vector; };

class IterativeSolver : public Solver
{
protected:
   const Operator* oper = nullptr; Solver* prec = nullptr; int max_iter = 10, print_level = -1; double rel_tol = 0.0, abs_tol = 0.0;
   mutable int final_iter = 0; mutable bool converged = false; mutable double final_norm = 0.0;
   MPI_Comm comm = MPI_COMM_SELF; bool par = false;
   double Dot(const Vector& a, const Vector& b) const { double d = a * b; if (par) { double g = 0; MPI_Allreduce(&d, &g, 1, MPI_DOUBLE, MPI_SUM, comm); d = g; } return d; }
   double Norm(const Vector& a) const { return par ? std::sqrt(Dot(a, a)) : a.Norml2(); }
public:
   IterativeSolver() : Solver(0, true) {}
   explicit IterativeSolver(MPI_Comm c) : Solver(0, true), comm(c), par(true) {}
   void SetRelTol(double r) { rel_tol = r; }
   void SetAbsTol(double a) { abs_tol = a; }
   void SetMaxIter(int m) { max_iter = m; }
   void SetPrintLevel(int p) { print_level = p; }
   int GetNumIterations() const { return final_iter; }
   bool GetConverged() const { return converged; }
   double GetFinalNorm() const { return final_norm; }
   virtual void SetPreconditioner(Solver& p) { prec = &p; }
   void SetOperator(const Operator& op) override { oper = &op; height = op.Height(); width = op.Width(); }
};
class GMRESSolver : public IterativeSolver
{
   int m = 50;
public:
   GMRESSolver() = default;
   explicit GMRESSolver(MPI_Comm c) : IterativeSolver(c) {}
   void SetKDim(int dim) { m = dim; }
   void Mult(const Vector& b, Vector& x) const override;
};
class CGSolver : public IterativeSolver
{ public: CGSolver() = default; explicit CGSolver(MPI_Comm c) : IterativeSolver(c) {} void Mult(const Vector& b, Vector& x) const override; };

class Table
{
   std::vector<std::vector<int>> r;
   mutable Array<int> I_, J_;
public:
   Table() = default;
   explicit Table(int n) : r(n) {}
   int Size() const { return (int)r.size(); }
   int Size_of_connections() const { int n = 0; for (auto& x : r) { n += (int)x.size(); } return n; }
   int RowSize(int i) const { return (int)r.at(i).size(); }
   void GetRow(int i, Array<int>& row) const { row.SetSize((int)r.at(i).size()); for (int k = 0; k < row.Size(); k++) { row[k] = r[i][k]; } }
   const int* GetRow(int i) const { return r.at(i).data(); }
   int* GetRow(int i) { return r.at(i).data(); }
   std::vector<std::vector<int>>& raw() { return r; }
   const std::vector<std::vector<int>>& raw() const { return r; }
   int Width() const { int w = -1; for (auto& x : r) for (int v : x) { w = std::max(w, v); } return w + 1; }
   void Finalize() {}
   void Print(std::ostream& os = mfem::out, int = 4) const { for (auto& x : r) { for (int v : x) { os << v << ' '; } os << '\n'; } }
};
void Transpose(const Table& A, Table& At, int ncols = -1);

class StopWatch
{
   std::chrono::steady_clock::time_point t0; double acc = 0; bool on = false;
public:
   void Clear() { acc = 0; if (on) { t0 = std::chrono::steady_clock::now(); } }
   void Start() { t0 = std::chrono::steady_clock::now(); on = true; }
   void Restart() { acc = 0; Start(); }
   void Stop() { if (on) { acc += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); on = false; } }
   double RealTime() { return acc + (on ? std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() : 0.0); }
   double UserTime() { return RealTime(); }
   double SystTime() { return 0.0; }
};
inline StopWatch tic_toc;
inline void tic() { tic_toc.Restart(); }
inline double toc() { return tic_toc.RealTime(); }

inline std::string to_string(int i) { return std::to_string(i); }
inline std::string to_padded_string(int i, int d) { std::ostringstream s; s << std::setw(d) << std::setfill('0') << i; return s.str(); }
inline void skip_comment_lines(std::istream& is, const char c) { while (true) { is >> std::ws; if (is.peek() != c) { break; } is.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); } }
inline void filter_dos(std::string& line) { if (!line.empty() && line.back() == '\r') { line.pop_back(); } }
inline int to_int(const std::string& s) { int i; std::stringstream(s) >> i; return i; }

// ---------------------------------------------------------------------------------------- Geometry, quadrature
class IntegrationPoint; class IntegrationRule;
class Geometry
{
public:
   enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
   static const int NumGeom = NUM_GEOMETRIES;
   static const int MaxDim = 3;
   static const int NumBdrArray[NumGeom];
   static const char* Name[NumGeom];
   static const double Volume[NumGeom];
   static const int Dimension[NumGeom];
   static const int DimStart[MaxDim + 2];
   static const int NumVerts[NumGeom];
   static const int NumEdges[NumGeom];
   static const int NumFaces[NumGeom];
   static bool IsTensorProduct(Type g) { return g == SEGMENT || g == SQUARE || g == CUBE; }
   int NumBdr(int g) { return NumBdrArray[g]; }
   const IntegrationPoint& GetCenter(int g) const;
   const IntegrationRule* GetVertices(int g) const;
};
extern Geometry Geometries;

class IntegrationPoint
{
public:
   double x = 0, y = 0, z = 0, weight = 0; int index = 0;
   void Init(int i) { x = y = z = weight = 0.0; index = i; }
   void Set(const double* p, const int dim) { x = p[0]; y = dim > 1 ? p[1] : 0.0; z = dim > 2 ? p[2] : 0.0; }
   void Get(double* p, const int dim) const { p[0] = x; if (dim > 1) { p[1] = y; } if (dim > 2) { p[2] = z; } }
   void Set(double x1, double x2, double x3, double w) { x = x1; y = x2; z = x3; weight = w; }
   void Set3w(const double* p) { x = p[0]; y = p[1]; z = p[2]; weight = p[3]; }
   void Set3(double a, double b, double c) { x = a; y = b; z = c; }
   void Set3(const double* p) { x = p[0]; y = p[1]; z = p[2]; }
   void Set2w(double a, double b, double w) { x = a; y = b; weight = w; }
   void Set2(double a, double b) { x = a; y = b; }
   void Set2(const double* p) { x = p[0]; y = p[1]; }
   void Set1w(double a, double w) { x = a; weight = w; }
};
class IntegrationRule : public Array<IntegrationPoint>
{
   int order = 0; mutable Array<double> w_;
public:
   IntegrationRule() = default;
   explicit IntegrationRule(int n) : Array<IntegrationPoint>(n) { for (int i = 0; i < n; i++) { (*this)[i].Init(i); } }
   int GetOrder() const { return order; }
   void SetOrder(int o) { order = o; }
   int GetNPoints() const { return Size(); }
   IntegrationPoint& IntPoint(int i) { return (*this)[i]; }
   const IntegrationPoint& IntPoint(int i) const { return (*this)[i]; }
   const Array<double>& GetWeights() const { w_.SetSize(Size()); for (int i = 0; i < Size(); i++) { w_[i] = (*this)[i].weight; } return w_; }
};
class IntegrationRules
{
   std::map<std::pair<int, int>, std::unique_ptr<IntegrationRule>> cache;
public:
   explicit IntegrationRules(int = 0, int = 0) {}
   const IntegrationRule& Get(int geom, int order);
   ~IntegrationRules() {}
};
extern IntegrationRules IntRules;
extern IntegrationRules RefinedIntRules;
/// Gauss-Legendre / Gauss-Lobatto points on [0,1]
void shim_gauss_legendre(int n, std::vector<double>& x, std::vector<double>& w);
void shim_gauss_lobatto(int n, std::vector<double>& x, std::vector<double>& w);
class QuadratureFunctions1D
{
public:
   void GaussLegendre(const int np, IntegrationRule* ir);
   void GaussLobatto(const int np, IntegrationRule* ir);
};
class Quadrature1D { public: enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, OpenUniform = 2, ClosedUniform = 3, OpenHalfUniform = 4, ClosedGL = 5 }; static int CheckClosed(int t) { return t == GaussLobatto || t == ClosedUniform ? t : Invalid; } static int CheckOpen(int t) { return t == GaussLegendre || t == GaussLobatto || t == OpenUniform || t == OpenHalfUniform ? t : Invalid; } };
class BasisType
{
public:
   enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4, OpenHalfUniform = 5, Serendipity = 6, ClosedGL = 7, IntegratedGLL = 8, NumBasisTypes = 9 };
   static int Check(int b) { MFEM_VERIFY(Invalid < b && b < NumBasisTypes, "unknown BasisType: " << b); return b; }
   static const char* Name(int b) { static const char* n[] = { "Gauss-Legendre", "Gauss-Lobatto", "Positive (Bernstein)", "Open uniform", "Closed uniform", "Open half uniform", "Serendipity", "Closed Gauss-Legendre", "Integrated GLL" }; return n[Check(b)]; }
   static int GetQuadrature1D(int b) { switch (b) { case GaussLegendre: return Quadrature1D::GaussLegendre; case GaussLobatto: case Serendipity: return Quadrature1D::GaussLobatto; case Positive: case ClosedUniform: return Quadrature1D::ClosedUniform; case OpenUniform: return Quadrature1D::OpenUniform; case OpenHalfUniform: return Quadrature1D::OpenHalfUniform; case ClosedGL: return Quadrature1D::ClosedGL; } return -1; }
};

// ---------------------------------------------------------------------------------------- Finite elements
class ElementTransformation;
class Coefficient;
class VectorCoefficient;
class FunctionSpace { public: enum { Pk, Qk, rQk, Qkn, Uk }; };
class FiniteElement
{
public:
   enum RangeType { UNKNOWN_RANGE_TYPE = -1, SCALAR, VECTOR };
   enum MapType { UNKNOWN_MAP_TYPE = -1, VALUE, INTEGRAL, H_DIV, H_CURL };
   enum DerivType { NONE, GRAD, DIV, CURL };
protected:
   int dim = 0; Geometry::Type geom = Geometry::INVALID; int dof = 0, order = 0, func_space = FunctionSpace::Pk, map_type = VALUE;
   IntegrationRule Nodes;
public:
   virtual ~FiniteElement() {}
   int GetDim() const { return dim; }
   int GetVDim() const { return 1; }
   Geometry::Type GetGeomType() const { return geom; }
   int GetDof() const { return dof; }
   int GetOrder() const { return order; }
   int Space() const { return func_space; }
   int GetRangeType() const { return SCALAR; }
   int GetMapType() const { return map_type; }
   int GetDerivType() const { return GRAD; }
   const IntegrationRule& GetNodes() const { return Nodes; }
   virtual void CalcShape(const IntegrationPoint& ip, Vector& shape) const = 0;
   virtual void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const = 0;
   void CalcPhysShape(ElementTransformation& T, Vector& shape) const;
   void CalcPhysDShape(ElementTransformation& T, DenseMatrix& dshape) const;
   virtual void Project(Coefficient& c, ElementTransformation& T, Vector& dofs) const;
};
/// Nodal Lagrange element on any of the supported geometries with arbitrary unisolvent nodes.
class NodalFiniteElement : public FiniteElement
{
   // simplices: modal coefficients; tensor: 1D nodes and local permutation
   std::vector<double> pts; DenseMatrix Vinv; std::vector<std::array<int, 3>> ijk; // node i -> lattice index
   bool tensor = false, simplex_linear = false;
   void modal(const IntegrationPoint& ip, std::vector<double>& u, std::vector<double>* du) const;
public:
   /// nodes ordered lexicographically (L2 ordering) when perm is null, otherwise perm[k] = lexicographic index of k-th node
   NodalFiniteElement(Geometry::Type g, int p, const std::vector<double>& pts1d, const std::vector<int>* perm = nullptr, int map = VALUE);
   void CalcShape(const IntegrationPoint& ip, Vector& shape) const override;
   void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const override;
   const std::array<int, 3>& lattice(int k) const { return ijk[k]; }
   static int ndofs(Geometry::Type g, int p);
   static std::vector<std::array<int, 3>> lex(Geometry::Type g, int p);
};
/// Piecewise constant on a point.
class PointFiniteElement : public FiniteElement
{ public: PointFiniteElement(); void CalcShape(const IntegrationPoint&, Vector& s) const override { s(0) = 1.0; } void CalcDShape(const IntegrationPoint&, DenseMatrix&) const override {} };

class FiniteElementCollection
{
protected:
   int base_p = 0; mutable std::map<int, std::unique_ptr<FiniteElement>> fes; std::string name_;
public:
   enum { CONTINUOUS, TANGENTIAL, NORMAL, DISCONTINUOUS };
   virtual ~FiniteElementCollection() {}
   virtual const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const = 0;
   virtual int DofForGeometry(Geometry::Type g) const = 0;
   virtual const char* Name() const { return name_.c_str(); }
   virtual int GetContType() const = 0;
   int GetOrder() const { return base_p; }
   static FiniteElementCollection* New(const char* name);
   virtual std::unique_ptr<FiniteElementCollection> shim_clone() const = 0;
};
class L2_FECollection : public FiniteElementCollection
{
   int b_type, m_type, dim_;
public:
   L2_FECollection(const int p, const int dim, const int btype = BasisType::GaussLegendre, const int map_type = FiniteElement::VALUE);
   const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override;
   int DofForGeometry(Geometry::Type g) const override;
   int GetContType() const override { return DISCONTINUOUS; }
   int GetBasisType() const { return b_type; }
   std::unique_ptr<FiniteElementCollection> shim_clone() const override { return std::make_unique<L2_FECollection>(base_p, dim_, b_type, m_type); }
};
typedef L2_FECollection DG_FECollection;
class H1_FECollection : public FiniteElementCollection
{
   int b_type, dim_;
public:
   explicit H1_FECollection(const int p, const int dim = 3, const int btype = BasisType::GaussLobatto);
   const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override;
   int DofForGeometry(Geometry::Type g) const override;
   int GetContType() const override { return CONTINUOUS; }
   int GetBasisType() const { return b_type; }
   std::unique_ptr<FiniteElementCollection> shim_clone() const override { return std::make_unique<H1_FECollection>(base_p, dim_, b_type); }
};
class LinearFECollection : public H1_FECollection { public: LinearFECollection() : H1_FECollection(1, 3) {} };

// ---------------------------------------------------------------------------------------- Transformations
class Mesh;
class ElementTransformation
{
protected:
   const IntegrationPoint* IntPoint = nullptr; DenseMatrix dFdx, adjJ, invJ; double Wght = 0; int EvalState = 0;
   enum { JAC = 1, WGT = 2, ADJ = 4, INV = 8 };
   Geometry::Type geom = Geometry::INVALID;
   virtual void EvalJacobian() = 0;
public:
   enum { ELEMENT = 1, BDR_ELEMENT = 2, EDGE = 3, FACE = 4, BDR_FACE = 5 };
   int Attribute = -1, ElementNo = -1, ElementType = -1;
   const Mesh* mesh = nullptr;
   virtual ~ElementTransformation() {}
   void Reset() { EvalState = 0; }
   void SetIntPoint(const IntegrationPoint* ip) { IntPoint = ip; EvalState = 0; }
   const IntegrationPoint& GetIntPoint() { return *IntPoint; }
   virtual void Transform(const IntegrationPoint&, Vector&) = 0;
   virtual void Transform(const IntegrationRule& ir, DenseMatrix& tr);
   const DenseMatrix& Jacobian();
   double Weight();
   const DenseMatrix& AdjugateJacobian();
   const DenseMatrix& InverseJacobian();
   virtual int Order() const = 0;
   virtual int OrderJ() const = 0;
   virtual int OrderW() const = 0;
   virtual int OrderGrad(const FiniteElement* fe) const = 0;
   Geometry::Type GetGeometryType() const { return geom; }
   int GetDimension() const { return Geometry::Dimension[geom]; }
   virtual int GetSpaceDim() const = 0;
   virtual int TransformBack(const Vector& v, IntegrationPoint& ip, const double phys_tol = 1e-15);
};
class IsoparametricTransformation : public ElementTransformation
{
protected:
   const FiniteElement* FElem = nullptr; DenseMatrix PointMat; Vector shape; DenseMatrix dshape;
   void EvalJacobian() override;
public:
   IsoparametricTransformation() = default;
   void SetFE(const FiniteElement* fe) { FElem = fe; geom = fe->GetGeomType(); EvalState = 0; }
   const FiniteElement* GetFE() const { return FElem; }
   void SetPointMat(const DenseMatrix& pm) { PointMat = pm; EvalState = 0; }
   const DenseMatrix& GetPointMat() const { return PointMat; }
   DenseMatrix& GetPointMat() { return PointMat; }
   void SetIdentityTransformation(Geometry::Type g);
   using ElementTransformation::Transform;
   void Transform(const IntegrationPoint& ip, Vector& v) override;
   int Order() const override { return FElem->GetOrder(); }
   int OrderJ() const override;
   int OrderW() const override;
   int OrderGrad(const FiniteElement* fe) const override;
   int GetSpaceDim() const override { return PointMat.Height(); }
};
class IntegrationPointTransformation
{
public:
   IsoparametricTransformation Transf;
   void Transform(const IntegrationPoint& a, IntegrationPoint& b);
   void Transform(const IntegrationRule& a, IntegrationRule& b) { b.SetSize(a.Size()); for (int i = 0; i < a.Size(); i++) { Transform(a[i], b[i]); } }
};
class FaceElementTransformations : public IsoparametricTransformation
{
   IntegrationPoint eip1, eip2;
   friend class Mesh; friend class ParMesh;
protected:
   int mask = 0;
public:
   enum ConfigurationMasks { HAVE_ELEM1 = 1, HAVE_ELEM2 = 2, HAVE_LOC1 = 4, HAVE_LOC2 = 8, HAVE_FACE = 16 };
   int Elem1No = -1, Elem2No = -1;
   Geometry::Type& FaceGeom = geom;
   ElementTransformation *Elem1 = nullptr, *Elem2 = nullptr;
   ElementTransformation* Face = nullptr;
   IntegrationPointTransformation Loc1, Loc2;
   FaceElementTransformations() { Face = this; }
   FaceElementTransformations(const FaceElementTransformations&) = delete;
   FaceElementTransformations& operator=(const FaceElementTransformations&) = delete;
   void SetConfigurationMask(int m) { mask = m; }
   int GetConfigurationMask() const { return mask; }
   void SetIntPoint(const IntegrationPoint* ip) { ElementTransformation::SetIntPoint(ip); }
   void SetAllIntPoints(const IntegrationPoint* face_ip);
   const IntegrationPoint& GetElement1IntPoint() { return eip1; }
   const IntegrationPoint& GetElement2IntPoint() { return eip2; }
   ElementTransformation& GetElement1Transformation() { if (!Elem1) { mfem_error("no Elem1"); } return *Elem1; }
   ElementTransformation& GetElement2Transformation() { if (!Elem2) { mfem_error("no Elem2"); } return *Elem2; }
   IntegrationPointTransformation& GetIntPoint1Transformation() { return Loc1; }
   IntegrationPointTransformation& GetIntPoint2Transformation() { return Loc2; }
   double CheckConsistency(int = 0, std::ostream& = mfem::out) { return 0.0; }
};

// ---------------------------------------------------------------------------------------- Coefficients
class Coefficient
{
protected:
   double time = 0.0;
public:
   virtual void SetTime(double t) { time = t; }
   double GetTime() { return time; }
   virtual double Eval(ElementTransformation& T, const IntegrationPoint& ip) = 0;
   double Eval(ElementTransformation& T, const IntegrationPoint& ip, double t) { SetTime(t); return Eval(T, ip); }
   virtual ~Coefficient() {}
};
class ConstantCoefficient : public Coefficient
{ public: double constant; explicit ConstantCoefficient(double c = 1.0) : constant(c) {} double Eval(ElementTransformation&, const IntegrationPoint&) override { return constant; } };
class PWConstCoefficient : public Coefficient
{
   Vector constants;
public:
   explicit PWConstCoefficient(int n = 0) : constants(n) { constants = 0.0; }
   explicit PWConstCoefficient(Vector& c) : constants(c) {}
   void UpdateConstants(Vector& c) { constants = c; }
   double& operator()(int i) { return constants(i - 1); }
   int GetNConst() { return constants.Size(); }
   double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class FunctionCoefficient : public Coefficient
{
   std::function<double(const Vector&)> Function; std::function<double(const Vector&, double)> TDFunction;
public:
   explicit FunctionCoefficient(std::function<double(const Vector&)> F) : Function(std::move(F)) {}
   explicit FunctionCoefficient(std::function<double(const Vector&, double)> F) : TDFunction(std::move(F)) {}
   double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class GridFunction;
class GridFunctionCoefficient : public Coefficient
{
   const GridFunction* GridF; int Component;
public:
   GridFunctionCoefficient() : GridF(nullptr), Component(1) {}
   explicit GridFunctionCoefficient(const GridFunction* gf, int comp = 1) : GridF(gf), Component(comp) {}
   double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
};
class ProductCoefficient : public Coefficient
{
   Coefficient *a, *b; double ac = 1.0;
public:
   ProductCoefficient(double A, Coefficient& B) : a(nullptr), b(&B), ac(A) {}
   ProductCoefficient(Coefficient& A, Coefficient& B) : a(&A), b(&B) {}
   double Eval(ElementTransformation& T, const IntegrationPoint& ip) override { return (a ? a->Eval(T, ip) : ac) * b->Eval(T, ip); }
};
class VectorCoefficient
{
protected:
   int vdim; double time = 0.0;
public:
   explicit VectorCoefficient(int vd) : vdim(vd) {}
   virtual void SetTime(double t) { time = t; }
   double GetTime() { return time; }
   int GetVDim() { return vdim; }
   virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) = 0;
   virtual ~VectorCoefficient() {}
};
class VectorConstantCoefficient : public VectorCoefficient
{ Vector vec; public: explicit VectorConstantCoefficient(const Vector& v) : VectorCoefficient(v.Size()), vec(v) {} void Eval(Vector& V, ElementTransformation&, const IntegrationPoint&) override { V = vec; } const Vector& GetVec() const { return vec; } };
class VectorFunctionCoefficient : public VectorCoefficient
{
   std::function<void(const Vector&, Vector&)> Function; std::function<void(const Vector&, double, Vector&)> TDFunction;
public:
   VectorFunctionCoefficient(int d, std::function<void(const Vector&, Vector&)> F, Coefficient* = nullptr) : VectorCoefficient(d), Function(std::move(F)) {}
   VectorFunctionCoefficient(int d, std::function<void(const Vector&, double, Vector&)> F, Coefficient* = nullptr) : VectorCoefficient(d), TDFunction(std::move(F)) {}
   void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override;
};
class VectorGridFunctionCoefficient : public VectorCoefficient
{ const GridFunction* gf; public: explicit VectorGridFunctionCoefficient(const GridFunction* g); void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override; };

// ---------------------------------------------------------------------------------------- Mesh
class Element
{
public:
   enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
protected:
   int attribute = 1; Geometry::Type base_geom; std::vector<int> v;
public:
   explicit Element(Geometry::Type g) : base_geom(g), v(Geometry::NumVerts[g], -1) {}
   Element(Geometry::Type g, const int* vi, int attr) : attribute(attr), base_geom(g), v(vi, vi + Geometry::NumVerts[g]) {}
   Type GetType() const;
   Geometry::Type GetGeometryType() const { return base_geom; }
   int GetAttribute() const { return attribute; }
   void SetAttribute(const int a) { attribute = a; }
   void GetVertices(Array<int>& a) const { a.SetSize((int)v.size()); for (size_t i = 0; i < v.size(); i++) { a[i] = v[i]; } }
   void SetVertices(const Array<int>& a) { for (size_t i = 0; i < v.size(); i++) { v[i] = a[i]; } }
   void SetVertices(const int* a) { for (size_t i = 0; i < v.size(); i++) { v[i] = a[i]; } }
   int* GetVertices() { return v.data(); }
   const int* GetVertices() const { return v.data(); }
   int GetNVertices() const { return (int)v.size(); }
   int GetNEdges() const { return Geometry::NumEdges[base_geom]; }
   const int* GetEdgeVertices(int i) const;
   int GetNFaces() const { return Geometry::Dimension[base_geom] == 3 ? Geometry::NumFaces[base_geom] : 0; }
   int GetNFaceVertices(int fi) const;
   const int* GetFaceVertices(int fi) const;
   Element* Duplicate(Mesh*) const { return new Element(*this); }
   virtual ~Element() {}
};
#define SHIM_ELEM(NAME, GEOM, ...) class NAME : public Element { public: NAME() : Element(Geometry::GEOM) {} NAME(const int* i, int attr = 1) : Element(Geometry::GEOM, i, attr) {} __VA_ARGS__ };
SHIM_ELEM(Point, POINT) SHIM_ELEM(Segment, SEGMENT, Segment(int a, int b, int attr = 1) : Element(Geometry::SEGMENT) { v = { a, b }; attribute = attr; })
SHIM_ELEM(Triangle, TRIANGLE, Triangle(int a, int b, int c, int attr = 1) : Element(Geometry::TRIANGLE) { v = { a, b, c }; attribute = attr; })
SHIM_ELEM(Quadrilateral, SQUARE, Quadrilateral(int a, int b, int c, int d, int attr = 1) : Element(Geometry::SQUARE) { v = { a, b, c, d }; attribute = attr; })
SHIM_ELEM(Tetrahedron, TETRAHEDRON, Tetrahedron(int a, int b, int c, int d, int attr = 1) : Element(Geometry::TETRAHEDRON) { v = { a, b, c, d }; attribute = attr; })
SHIM_ELEM(Hexahedron, CUBE, Hexahedron(int a, int b, int c, int d, int e, int f, int g, int h, int attr = 1) : Element(Geometry::CUBE) { v = { a, b, c, d, e, f, g, h }; attribute = attr; })
SHIM_ELEM(Wedge, PRISM)

class Vertex
{
   double c[3] = { 0, 0, 0 };
public:
   Vertex() = default;
   Vertex(const double* xx, int dim) { for (int i = 0; i < dim; i++) { c[i] = xx[i]; } }
   double* operator()() const { return const_cast<double*>(c); }
   double& operator()(int i) { return c[i]; }
   const double& operator()(int i) const { return c[i]; }
};
class FiniteElementSpace;
class GridFunction;
class InverseElementTransformation
{ public: explicit InverseElementTransformation(ElementTransformation* = nullptr) {} };
struct Refinement { int index; explicit Refinement(int i) : index(i) {} };

class Mesh
{
   friend class SubMesh; friend class ParSubMesh; friend class ParMesh; friend class FaceElementTransformations; friend class FiniteElementSpace; friend struct SubMeshBuild;
protected:
   int Dim = 0, spaceDim = 0;
   std::vector<Vertex> vertices;
   std::vector<std::unique_ptr<Element>> elements, boundary;
   struct FaceInfoS { int Elem1No = -1, Elem2No = -1, Elem1Inf = -1, Elem2Inf = -1; }; // Inf = 64*local + orientation
   std::vector<FaceInfoS> faces_info;
   std::vector<std::vector<int>> faces; // vertices of each face, in Elem1's local order
   std::vector<Geometry::Type> face_geom;
   std::vector<std::vector<int>> el_to_face, el_to_edge; std::vector<std::vector<int>> el_edge_ori, el_face_ori;
   std::vector<std::array<int, 2>> edges;
   std::vector<int> be_to_face;
   GridFunction* Nodes = nullptr; bool own_nodes = false;
   IsoparametricTransformation Transformation, Transformation2, BdrTransformation, FaceTransformation, EdgeTransformation;
   FaceElementTransformations FaceElemTr;
   mutable std::unique_ptr<Table> el_el_table, edge_table, face_table; mutable std::vector<std::unique_ptr<Element>> face_elems;
   void facePointMat(const IsoparametricTransformation& loc, ElementTransformation& el, IsoparametricTransformation& T) const; void renumberAfterEdit(bool generate_bdr); void takeFrom(Mesh& m); int nodeOrder() const; void refineOnce();
   bool finalized_topology = false;
   void buildTopology(bool generate_bdr);
   void copyFrom(const Mesh& o);
   void GetPointMatrix(int i, DenseMatrix& pm, const FiniteElement*& fe) const;
   void fillElemTr(int i, IsoparametricTransformation& T) const;
   void GetLocalFaceTransformation(Geometry::Type elGeom, int lf, const std::vector<int>& elv, const std::vector<int>& facev, IsoparametricTransformation& T) const;
   virtual bool FaceIsSharedShim(int) const { return false; }
   static Mesh LoadShim(const std::string& filename, int refine, bool fix_orientation, bool bdrfix);
   void readMFEM(std::istream& is); void readGmsh(std::istream& is); void readGmshImpl(std::istream& is);
   void MarkForRefinement();
   void checkElementOrientation(); void checkBdrOrientation();
   void computeFaceInfoOrientation();
public:
   Array<int> attributes, bdr_attributes;
   Mesh();
   Mesh(const Mesh& m, bool copy_nodes = true);
   Mesh(Mesh&& m);
   Mesh& operator=(Mesh&& m);
   Mesh& operator=(const Mesh& m) = delete;
   Mesh(int Dim_, int NVert, int NElem, int NBdrElem = 0, int spaceDim_ = -1);
   explicit Mesh(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
   explicit Mesh(std::istream& input, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
   virtual ~Mesh();
   static Mesh LoadFromFile(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
   static Mesh LoadFromFileNoBdrFix(const std::string& filename, int generate_edges = 0, int refine = 1, bool fix_orientation = true);
   static Mesh MakeCartesian1D(int n, double sx = 1.0);
   static Mesh MakeCartesian2D(int nx, int ny, Element::Type type, bool generate_edges = false, double sx = 1.0, double sy = 1.0, bool sfc_ordering = true);
   static Mesh MakeCartesian3D(int nx, int ny, int nz, Element::Type type, double sx = 1.0, double sy = 1.0, double sz = 1.0, bool sfc_ordering = true);
   static Mesh MakePeriodic(const Mesh& orig, const std::vector<int>& v2v);
   std::vector<int> CreatePeriodicVertexMapping(const std::vector<Vector>& translations, double tol = 1e-8) const;
   void Load(std::istream& in, int = 0, int refine = 1, bool fix = true);
   virtual void Clear() {}
   int AddVertex(double x, double y = 0.0, double z = 0.0);
   int AddVertex(const double* c) { return AddVertex(c[0], spaceDim > 1 ? c[1] : 0.0, spaceDim > 2 ? c[2] : 0.0); }
   int AddVertex(const Vector& c) { return AddVertex(c.GetData()); }
   int AddElement(Element* e) { elements.emplace_back(e); finalized_topology = false; return GetNE() - 1; }
   int AddBdrElement(Element* e) { boundary.emplace_back(e); return GetNBE() - 1; }
   int AddSegment(int v1, int v2, int attr = 1) { int v[2] = { v1, v2 }; return AddElement(new Element(Geometry::SEGMENT, v, attr)); }
   int AddSegment(const int* v, int attr = 1) { return AddElement(new Element(Geometry::SEGMENT, v, attr)); }
   int AddTriangle(int a, int b, int c, int attr = 1) { int v[3] = { a, b, c }; return AddTriangle(v, attr); }
   int AddTriangle(const int* v, int attr = 1) { return AddElement(new Element(Geometry::TRIANGLE, v, attr)); }
   int AddQuad(int a, int b, int c, int d, int attr = 1) { int v[4] = { a, b, c, d }; return AddQuad(v, attr); }
   int AddQuad(const int* v, int attr = 1) { return AddElement(new Element(Geometry::SQUARE, v, attr)); }
   int AddTet(int a, int b, int c, int d, int attr = 1) { int v[4] = { a, b, c, d }; return AddTet(v, attr); }
   int AddTet(const int* v, int attr = 1) { return AddElement(new Element(Geometry::TETRAHEDRON, v, attr)); }
   int AddHex(const int* v, int attr = 1) { return AddElement(new Element(Geometry::CUBE, v, attr)); }
   int AddHex(int a, int b, int c, int d, int e, int f, int g, int h, int attr = 1) { int v[8] = { a, b, c, d, e, f, g, h }; return AddHex(v, attr); }
   int AddWedge(int a, int b, int c, int d, int e, int f, int attr = 1) { int v[6] = { a, b, c, d, e, f }; return AddElement(new Element(Geometry::PRISM, v, attr)); }
   int AddPyramid(int a, int b, int c, int d, int e, int attr = 1) { int v[5] = { a, b, c, d, e }; return AddElement(new Element(Geometry::PYRAMID, v, attr)); }
   int AddBdrPoint(int v, int attr = 1) { return AddBdrElement(new Element(Geometry::POINT, &v, attr)); }
   int AddBdrSegment(int a, int b, int attr = 1) { int v[2] = { a, b }; return AddBdrElement(new Element(Geometry::SEGMENT, v, attr)); }
   int AddBdrSegment(const int* v, int attr = 1) { return AddBdrElement(new Element(Geometry::SEGMENT, v, attr)); }
   int AddBdrTriangle(int a, int b, int c, int attr = 1) { int v[3] = { a, b, c }; return AddBdrElement(new Element(Geometry::TRIANGLE, v, attr)); }
   int AddBdrTriangle(const int* v, int attr = 1) { return AddBdrElement(new Element(Geometry::TRIANGLE, v, attr)); }
   int AddBdrQuad(int a, int b, int c, int d, int attr = 1) { int v[4] = { a, b, c, d }; return AddBdrElement(new Element(Geometry::SQUARE, v, attr)); }
   int AddBdrQuad(const int* v, int attr = 1) { return AddBdrElement(new Element(Geometry::SQUARE, v, attr)); }
   Element* NewElement(int geom) { return new Element((Geometry::Type)geom); }
   void GenerateBoundaryElements();
   void FinalizeTopology(bool generate_bdr = true);
   virtual void Finalize(bool refine = false, bool fix_orientation = false);
   void FinalizeMesh(int refine = 0, bool fix_orientation = true) { FinalizeTopology(); Finalize(refine, fix_orientation); }
   void FinalizeTriMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
   void FinalizeQuadMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
   void FinalizeTetMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
   void FinalizeHexMesh(int = 0, int refine = 0, bool fix = true) { FinalizeMesh(refine, fix); }
   virtual void SetAttributes(bool elem_attrs_changed = true, bool bdr_face_attrs_changed = true);
   int* GeneratePartitioning(int nparts, int part_method = 1);
   int* CartesianPartitioning(int nxyz[]);
   int Dimension() const { return Dim; }
   int SpaceDimension() const { return spaceDim; }
   int GetNV() const { return (int)vertices.size(); }
   int GetNE() const { return (int)elements.size(); }
   int GetNBE() const { return (int)boundary.size(); }
   int GetNEdges() const { return Dim == 1 ? 0 : (int)edges.size(); }
   int GetNFaces() const { return Dim == 3 ? (int)faces_info.size() : 0; }
   int GetNumFaces() const { return (int)faces_info.size(); }
   int GetNumFacesWithGhost() const { return (int)faces_info.size(); }
   long long GetGlobalNE() const;
   virtual long long ReduceInt(int v) const { return v; }
   int EulerNumber() const { return 0; }
   bool Conforming() const { return true; }
   bool Nonconforming() const { return false; }
   const double* GetVertex(int i) const { SHIM_CHECK(i, GetNV(), "Mesh::GetVertex") return vertices[i](); }
   double* GetVertex(int i) { SHIM_CHECK(i, GetNV(), "Mesh::GetVertex") return vertices[i](); }
   void GetVertices(Vector& c) const;
   void SetVertices(const Vector& c);
   void GetNode(int i, double* coord) const { for (int d = 0; d < spaceDim; d++) { coord[d] = vertices[i](d); } }
   const Element* GetElement(int i) const { SHIM_CHECK(i, GetNE(), "Mesh::GetElement") return elements[i].get(); }
   Element* GetElement(int i) { SHIM_CHECK(i, GetNE(), "Mesh::GetElement") return elements[i].get(); }
   const Element* GetBdrElement(int i) const { SHIM_CHECK(i, GetNBE(), "Mesh::GetBdrElement") return boundary[i].get(); }
   Element* GetBdrElement(int i) { SHIM_CHECK(i, GetNBE(), "Mesh::GetBdrElement") return boundary[i].get(); }
   const Element* GetFace(int i) const;
   Geometry::Type GetFaceGeometry(int i) const { SHIM_CHECK(i, GetNumFaces(), "face") return face_geom[i]; }
   Geometry::Type GetElementGeometry(int i) const { return GetElement(i)->GetGeometryType(); }
   Geometry::Type GetElementBaseGeometry(int i = 0) const { return GetElementGeometry(i); }
   Geometry::Type GetBdrElementGeometry(int i) const { return GetBdrElement(i)->GetGeometryType(); }
   Geometry::Type GetBdrElementBaseGeometry(int i = 0) const { return GetBdrElementGeometry(i); }
   Geometry::Type GetFaceBaseGeometry(int i) const { return GetFaceGeometry(i); }
   Element::Type GetElementType(int i) const { return GetElement(i)->GetType(); }
   Element::Type GetBdrElementType(int i) const { return GetBdrElement(i)->GetType(); }
   Element::Type GetFaceElementType(int f) const;
   void GetElementVertices(int i, Array<int>& v) const { GetElement(i)->GetVertices(v); }
   void GetBdrElementVertices(int i, Array<int>& v) const { GetBdrElement(i)->GetVertices(v); }
   void GetElementEdges(int i, Array<int>& e, Array<int>& cor) const;
   void GetElementFaces(int i, Array<int>& f, Array<int>& ori) const;
   void GetBdrElementEdges(int i, Array<int>& e, Array<int>& cor) const;
   void GetBdrElementFace(int i, int* f, int* o) const;
   void GetFaceVertices(int i, Array<int>& v) const;
   void GetEdgeVertices(int i, Array<int>& v) const;
   void GetFaceEdges(int i, Array<int>& e, Array<int>& o) const;
   Array<int> FindFaceNeighbors(const int elem) const;
   int GetBdrElementFaceIndex(int be) const { SHIM_CHECK(be, (int)be_to_face.size(), "Mesh::GetBdrElementFaceIndex") return be_to_face[be]; }
   int GetBdrElementEdgeIndex(int be) const { return GetBdrElementFaceIndex(be); }
   int GetBdrFace(int be) const { return GetBdrElementFaceIndex(be); }
   Array<int> GetFaceToBdrElMap() const;
   void GetBdrElementAdjacentElement(int be, int& el, int& info) const;
   int GetAttribute(int i) const { return GetElement(i)->GetAttribute(); }
   void SetAttribute(int i, int a) { GetElement(i)->SetAttribute(a); }
   int GetBdrAttribute(int i) const { return GetBdrElement(i)->GetAttribute(); }
   void SetBdrAttribute(int i, int a) { GetBdrElement(i)->SetAttribute(a); }
   const Table& ElementToElementTable();
   const Table& ElementToFaceTable() const;
   const Table& ElementToEdgeTable() const;
   Table* GetVertexToElementTable();
   void GetFaceElements(int f, int* e1, int* e2) const { SHIM_CHECK(f, GetNumFaces(), "face") *e1 = faces_info[f].Elem1No; *e2 = faces_info[f].Elem2No; }
   void GetFaceInfos(int f, int* i1, int* i2) const { SHIM_CHECK(f, GetNumFaces(), "face") *i1 = faces_info[f].Elem1Inf; *i2 = faces_info[f].Elem2Inf; }
   bool FaceIsInterior(int f) const { SHIM_CHECK(f, GetNumFaces(), "Mesh::FaceIsInterior") return faces_info[f].Elem2No >= 0; }
   bool FaceIsTrueInterior(int f) const { return FaceIsInterior(f) || faces_info[f].Elem2Inf >= 0; }
   enum class FaceTopology { Boundary, Conforming, Nonconforming, NA };
   enum class ElementLocation { Local, FaceNbr, NA };
   enum class ElementConformity { Coincident, Superset, Subset, NA };
   enum class FaceInfoTag { Boundary, LocalConforming, SharedConforming, NA };
   struct FaceInformation {
      FaceTopology topology = FaceTopology::NA; FaceInfoTag tag = FaceInfoTag::NA; int ncface = -1;
      struct { ElementLocation location = ElementLocation::NA; ElementConformity conformity = ElementConformity::NA; int index = -1, local_face_id = -1, orientation = -1; } element[2];
      bool IsLocal() const { return element[1].location == ElementLocation::Local; }
      bool IsShared() const { return element[1].location == ElementLocation::FaceNbr; }
      bool IsInterior() const { return topology == FaceTopology::Conforming; }
      bool IsBoundary() const { return topology == FaceTopology::Boundary; }
      bool IsConforming() const { return topology == FaceTopology::Conforming; }
   };
   FaceInformation GetFaceInformation(int f) const;
   ElementTransformation* GetElementTransformation(int i);
   void GetElementTransformation(int i, IsoparametricTransformation* T) const { fillElemTr(i, *T); }
   void GetElementTransformation(int i, IsoparametricTransformation* T) { fillElemTr(i, *T); }
   ElementTransformation* GetBdrElementTransformation(int i);
   void GetBdrElementTransformation(int i, IsoparametricTransformation* T) const;
   ElementTransformation* GetFaceTransformation(int f);
   void GetFaceTransformation(int f, IsoparametricTransformation* T) const;
   ElementTransformation* GetEdgeTransformation(int e);
   virtual FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31);
   void GetFaceElementTransformations(int f, FaceElementTransformations& FT, IsoparametricTransformation& T1, IsoparametricTransformation& T2, int mask = 31) const;
   FaceElementTransformations* GetInteriorFaceTransformations(int f) { return faces_info[f].Elem2No < 0 ? nullptr : GetFaceElementTransformations(f); }
   FaceElementTransformations* GetBdrFaceTransformations(int be);
   FaceElementTransformations* GetInternalBdrFaceTransformations(int be);
   double GetElementSize(int i, int type = 0);
   double GetElementSize(ElementTransformation* T, int type = 0) const;
   double GetElementVolume(int i);
   void GetElementCenter(int i, Vector& c);
   void GetElementJacobian(int i, DenseMatrix& J, const IntegrationPoint* ip = nullptr);
   void GetBoundingBox(Vector& mn, Vector& mx, int ref = 2);
   virtual void GetCharacteristics(double& hmin, double& hmax, double& kmin, double& kmax);
   virtual int FindPoints(DenseMatrix& point_mat, Array<int>& elem_ids, Array<IntegrationPoint>& ips, bool warn = true, InverseElementTransformation* = nullptr);
   void UniformRefinement(int = 0);
   void GeneralRefinement(const Array<int>& el_to_refine, int = -1, int = 0);
   void GeneralRefinement(const Array<Refinement>& r, int a = -1, int b = 0) { Array<int> x; for (auto& q : r) { x.Append(q.index); } GeneralRefinement(x, a, b); }
   void Transform(void (*f)(const Vector&, Vector&));
   void GetNodes(Vector& node_coord) const;
   void GetNodes(GridFunction& nodes) const;
   GridFunction* GetNodes() { return Nodes; }
   const GridFunction* GetNodes() const { return Nodes; }
   void SetNodalFESpace(FiniteElementSpace* nfes);
   void SetNodalGridFunction(GridFunction* nodes, bool make_owner = false);
   const FiniteElementSpace* GetNodalFESpace() const;
   void NewNodes(GridFunction& nodes, bool make_owner = false) { if (own_nodes) { deleteNodes(); } Nodes = &nodes; own_nodes = make_owner; }
   void SwapNodes(GridFunction*& nodes, int& own) { std::swap(Nodes, nodes); int o = own_nodes; own_nodes = own; own = o; }
   void EnsureNodes();
   virtual void SetCurvature(int order, bool discont = false, int space_dim = -1, int ordering = 1);
   virtual void Save(const std::string& fname, int precision = 16) const { std::ofstream f(fname); f.precision(precision); Print(f); }
   virtual void Print(std::ostream& os = mfem::out, const std::string& = "") const;
   virtual void PrintInfo(std::ostream& os = mfem::out) { os << "Mesh dim " << Dim << " ne " << GetNE() << "\n"; }
   int MeshGenerator() const { return 1; }
   int GetNumGeometries(int dim) const;
   void deleteNodes();
   static Geometry::Type GetTransformedGeom(Geometry::Type g) { return g; }
   // used by the monitors
   const std::vector<int>& shimFaceVertices(int f) const { return faces[f]; }
   const std::vector<int>& shimElementFaces(int e) const { return el_to_face[e]; }
};
std::ostream& operator<<(std::ostream& os, const Mesh& m);

// ---------------------------------------------------------------------------------------- Spaces and grid functions
class Ordering { public: enum Type { byNODES, byVDIM }; };
enum class ElementDofOrdering { NATIVE, LEXICOGRAPHIC };
class ElementRestriction;
class DofTransformation {};
class FiniteElementSpace
{
   friend class Mesh; friend class SubMesh;
protected:
   Mesh* mesh = nullptr; const FiniteElementCollection* fec = nullptr; int vdim = 1; Ordering::Type ordering = Ordering::byNODES; int ndofs = 0;
   std::unique_ptr<FiniteElementCollection> owned_fec;
   std::vector<std::vector<int>> elem_dofs; mutable std::unique_ptr<Table> elem_dof_table;
   mutable std::vector<std::unique_ptr<Operator>> restr;
   void build();
public:
   FiniteElementSpace() = default;
   FiniteElementSpace(const FiniteElementSpace& o, Mesh* m = nullptr, const FiniteElementCollection* f = nullptr);
   FiniteElementSpace(Mesh* m, const FiniteElementCollection* f, int vd = 1, int ord = Ordering::byNODES) : mesh(m), fec(f), vdim(vd), ordering((Ordering::Type)ord) { build(); }
   FiniteElementSpace& operator=(const FiniteElementSpace&) = delete;
   virtual ~FiniteElementSpace() {}
   Mesh* GetMesh() const { return mesh; }
   const FiniteElementCollection* FEColl() const { return fec; }
   int GetVDim() const { return vdim; }
   Ordering::Type GetOrdering() const { return ordering; }
   int GetNDofs() const { return ndofs; }
   int GetVSize() const { return ndofs * vdim; }
   virtual int GetTrueVSize() const { return GetVSize(); }
   int GetNConformingDofs() const { return ndofs; }
   int GetNVDofs() const;
   int GetNE() const { return mesh->GetNE(); }
   int GetNBE() const { return mesh->GetNBE(); }
   int GetNF() const { return mesh->GetNumFaces(); }
   int GetOrder(int i) const { return GetFE(i)->GetOrder(); }
   int GetElementOrder(int i) const { return GetFE(i)->GetOrder(); }
   int GetMaxElementOrder() const { return fec->GetOrder(); }
   bool IsVariableOrder() const { return false; }
   bool IsDGSpace() const { return fec->GetContType() == FiniteElementCollection::DISCONTINUOUS; }
   virtual const FiniteElement* GetFE(int i) const { return fec->FiniteElementForGeometry(mesh->GetElementGeometry(i)); }
   const FiniteElement* GetTypicalFE() const { return GetFE(0); }
   const FiniteElement* GetBE(int i) const { return fec->FiniteElementForGeometry(mesh->GetBdrElementGeometry(i)); }
   const FiniteElement* GetFaceElement(int i) const { return fec->FiniteElementForGeometry(mesh->GetFaceGeometry(i)); }
   virtual DofTransformation* GetElementDofs(int elem, Array<int>& dofs) const;
   virtual DofTransformation* GetElementVDofs(int elem, Array<int>& dofs) const;
   void GetElementVertices(int i, Array<int>& v) const { mesh->GetElementVertices(i, v); }
   void GetBdrElementDofs(int be, Array<int>& dofs) const;
   void GetEssentialTrueDofs(const Array<int>& bdr_attr_is_ess, Array<int>& ess, int = -1) const;
   const Table& GetElementToDofTable() const;
   void BuildElementToDofTable() const {}
   int DofToVDof(int dof, int vd, int nd = -1) const { (void)nd; return ordering == Ordering::byNODES ? vd * ndofs + dof : dof * vdim + vd; }
   void DofsToVDofs(Array<int>& dofs) const;
   ElementTransformation* GetElementTransformation(int i) const { return mesh->GetElementTransformation(i); }
   ElementTransformation* GetBdrElementTransformation(int i) const { return mesh->GetBdrElementTransformation(i); }
   int GetAttribute(int i) const { return mesh->GetAttribute(i); }
   int GetBdrAttribute(int i) const { return mesh->GetBdrAttribute(i); }
   const Operator* GetElementRestriction(ElementDofOrdering o) const;
   void Update(bool = true) { elem_dof_table.reset(); build(); }
   void Save(std::ostream& os) const;
   FiniteElementCollection* Load(Mesh* m, std::istream& input);
   virtual const SparseMatrix* GetConformingProlongation() const { return nullptr; }
   long long GetSequence() const { return 0; }
};

class GridFunction : public Vector
{
protected:
   FiniteElementSpace* fes = nullptr; std::unique_ptr<FiniteElementSpace> fes_owned; std::unique_ptr<FiniteElementCollection> fec_owned; bool own_fec_raw = false; FiniteElementCollection* fec_raw = nullptr;
public:
   GridFunction() = default;
   GridFunction(const GridFunction& o) : Vector(o), fes(o.fes) {}
   GridFunction(GridFunction&& o) noexcept : Vector(std::move(o)), fes(o.fes), fes_owned(std::move(o.fes_owned)), fec_owned(std::move(o.fec_owned)) { std::swap(fec_raw, o.fec_raw); }
   explicit GridFunction(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
   GridFunction(FiniteElementSpace* f, double* d) : Vector(d, f->GetVSize()), fes(f) {}
   GridFunction(FiniteElementSpace* f, Vector& base, int offset = 0) : Vector(base, offset, f->GetVSize()), fes(f) {}
   GridFunction(Mesh* m, std::istream& input);
   ~GridFunction() override { delete fec_raw; }
   GridFunction& operator=(const GridFunction& o) { Vector::operator=(static_cast<const Vector&>(o)); return *this; }
   GridFunction& operator=(double v) { Vector::operator=(v); return *this; }
   GridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
   void MakeOwner(FiniteElementCollection* f) { fec_raw = f; fes_owned.reset(fes); }
   FiniteElementSpace* FESpace() { return fes; }
   const FiniteElementSpace* FESpace() const { return fes; }
   int VectorDim() const { return fes->GetVDim(); }
   virtual void SetSpace(FiniteElementSpace* f) { SetSize(f->GetVSize()); fes = f; }
   using Vector::MakeRef;
   virtual void MakeRef(FiniteElementSpace* f, double* v) { fes = f; SetDataAndSize(v, f->GetVSize()); }
   virtual void MakeRef(FiniteElementSpace* f, Vector& v, int off) { fes = f; Vector::MakeRef(v, off, f->GetVSize()); }
   virtual double GetValue(int i, const IntegrationPoint& ip, int vd = 1) const;
   virtual double GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp = 0, Vector* = nullptr) const;
   virtual void GetVectorValue(int i, const IntegrationPoint& ip, Vector& val) const;
   virtual void GetVectorValue(ElementTransformation& T, const IntegrationPoint& ip, Vector& val, Vector* = nullptr) const;
   void GetValues(int i, const IntegrationRule& ir, Vector& vals, int vd = 1) const;
   void GetNodalValues(int i, Array<double>& nval, int vd = 1) const;
   void GetNodalValues(Vector& nval, int vd = 1) const;
   void GetGradient(ElementTransformation& T, Vector& grad) const;
   void GetTrueDofs(Vector& tv) const { tv = *this; }
   void SetFromTrueDofs(const Vector& tv) { Vector::operator=(tv); }
   void GetElementDofValues(int el, Vector& dof_vals) const;
   virtual void ProjectCoefficient(Coefficient& c);
   void ProjectCoefficient(Coefficient& c, Array<int>& dofs, int vd = 0);
   virtual void ProjectCoefficient(VectorCoefficient& c);
   void ProjectBdrCoefficient(Coefficient& c, const Array<int>& attr);
   virtual double ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* = nullptr) const;
   virtual double ComputeMaxError(Coefficient& c) const;
   virtual void Save(std::ostream& os) const;
   virtual void Save(const char* fname, int precision = 16) const { std::ofstream f(fname); f.precision(precision); Save(f); }
   void Save(const std::string& fname, int precision = 16) const { Save(fname.c_str(), precision); }
   using Vector::Load;
};
std::ostream& operator<<(std::ostream& os, const GridFunction& g);

// ---------------------------------------------------------------------------------------- Integrators and forms
class NonlinearFormIntegrator
{
protected:
   const IntegrationRule* IntRule = nullptr;
public:
   virtual void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
   void SetIntegrationRule(const IntegrationRule& ir) { IntRule = &ir; }
   const IntegrationRule* GetIntRule() const { return IntRule; }
   virtual ~NonlinearFormIntegrator() {}
};
class BilinearFormIntegrator : public NonlinearFormIntegrator
{
public:
   virtual void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_error("AssembleElementMatrix not implemented"); }
   virtual void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_error("AssembleElementMatrix2 not implemented"); }
   virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { mfem_error("AssembleFaceMatrix not implemented"); }
   virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { mfem_error("AssembleFaceMatrix not implemented"); }
};
class MassIntegrator : public BilinearFormIntegrator
{
   Coefficient* Q = nullptr;
public:
   explicit MassIntegrator(const IntegrationRule* ir = nullptr) { IntRule = ir; }
   explicit MassIntegrator(Coefficient& q, const IntegrationRule* ir = nullptr) : Q(&q) { IntRule = ir; }
   void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override;
   void AssembleElementMatrix2(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T, DenseMatrix& m) override;
   static const IntegrationRule& GetRule(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T);
};
class InverseIntegrator : public BilinearFormIntegrator
{
   BilinearFormIntegrator* integrator; bool own;
public:
   explicit InverseIntegrator(BilinearFormIntegrator* i, int own_ = 1) : integrator(i), own(own_) {}
   ~InverseIntegrator() override { if (own) { delete integrator; } }
   void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { integrator->AssembleElementMatrix(el, T, m); m.Invert(); }
};
class TransposeIntegrator : public BilinearFormIntegrator
{
   BilinearFormIntegrator* bfi; bool own;
public:
   explicit TransposeIntegrator(BilinearFormIntegrator* i, int own_ = 1) : bfi(i), own(own_) {}
   ~TransposeIntegrator() override { if (own) { delete bfi; } }
   void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { bfi->AssembleElementMatrix(el, T, m); m.Transpose(); }
   using BilinearFormIntegrator::AssembleFaceMatrix;
   void AssembleFaceMatrix(const FiniteElement& a, const FiniteElement& b, FaceElementTransformations& T, DenseMatrix& m) override { bfi->AssembleFaceMatrix(a, b, T, m); m.Transpose(); }
};
class DerivativeIntegrator : public BilinearFormIntegrator
{
   Coefficient* Q; int xi; DenseMatrix dshape, dshapedxt; Vector shape, dshapedxi;
public:
   DerivativeIntegrator(Coefficient& q, int i) : Q(&q), xi(i) {}
   void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { AssembleElementMatrix2(el, el, T, m); }
   void AssembleElementMatrix2(const FiniteElement& tr, const FiniteElement& te, ElementTransformation& T, DenseMatrix& m) override;
};
class ConvectionIntegrator : public BilinearFormIntegrator
{
   VectorCoefficient* Q; double alpha;
public:
   explicit ConvectionIntegrator(VectorCoefficient& q, double a = 1.0) : Q(&q), alpha(a) {}
   void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override;
};
class DGTraceIntegrator : public BilinearFormIntegrator
{
   Coefficient* rho = nullptr; VectorCoefficient* u; double alpha, beta;
public:
   DGTraceIntegrator(VectorCoefficient& u_, double a) : u(&u_), alpha(a), beta(0.5 * a) {}
   DGTraceIntegrator(VectorCoefficient& u_, double a, double b) : u(&u_), alpha(a), beta(b) {}
   DGTraceIntegrator(Coefficient& r, VectorCoefficient& u_, double a, double b) : rho(&r), u(&u_), alpha(a), beta(b) {}
   using BilinearFormIntegrator::AssembleFaceMatrix;
   void AssembleFaceMatrix(const FiniteElement& a, const FiniteElement& b, FaceElementTransformations& T, DenseMatrix& m) override;
};
class LinearFormIntegrator
{
protected:
   const IntegrationRule* IntRule = nullptr;
public:
   explicit LinearFormIntegrator(const IntegrationRule* ir = nullptr) : IntRule(ir) {}
   virtual void AssembleRHSElementVect(const FiniteElement&, ElementTransformation&, Vector&) { mfem_error("AssembleRHSElementVect not implemented"); }
   virtual void AssembleRHSElementVect(const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_error("AssembleRHSElementVect(face) not implemented"); }
   virtual void AssembleRHSElementVect(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_error("AssembleRHSElementVect(2 elements) not implemented"); }
   virtual void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
   const IntegrationRule* GetIntRule() { return IntRule; }
   virtual ~LinearFormIntegrator() {}
};
class DomainLFIntegrator : public LinearFormIntegrator
{
   Coefficient& Q; int oa, ob;
public:
   explicit DomainLFIntegrator(Coefficient& q, int a = 2, int b = 0) : Q(q), oa(a), ob(b) {}
   using LinearFormIntegrator::AssembleRHSElementVect;
   void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
};
class BoundaryLFIntegrator : public LinearFormIntegrator
{
   Coefficient& Q; int oa, ob;
public:
   explicit BoundaryLFIntegrator(Coefficient& q, int a = 1, int b = 1) : Q(q), oa(a), ob(b) {}
   using LinearFormIntegrator::AssembleRHSElementVect;
   void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
};

class BilinearForm : public Operator
{
protected:
   FiniteElementSpace* fes; SparseMatrix* mat = nullptr;
   struct Term { BilinearFormIntegrator* i; const Array<int>* marker = nullptr; };
   Array<int> vdofs; DenseMatrix elemmat;
   std::vector<Term> domain, bdr, intface, bdrface, intbdrface;
   virtual int matWidth() const { return fes->GetVSize(); }
   virtual void assembleShared(int) {}
   void AllocMat() { if (!mat) { mat = new SparseMatrix(fes->GetVSize(), matWidth()); } }
   bool marked(const Term& t, int attr) const;
public:
   BilinearForm() : fes(nullptr) {}
   explicit BilinearForm(FiniteElementSpace* f) : Operator(f->GetVSize()), fes(f) {}
   BilinearForm(const BilinearForm&) = delete;
   BilinearForm(BilinearForm&& o);
   BilinearForm& operator=(const BilinearForm&) = delete;
   ~BilinearForm() override;
   int Size() const { return height; }
   FiniteElementSpace* FESpace() { return fes; }
   const FiniteElementSpace* FESpace() const { return fes; }
   void AddDomainIntegrator(BilinearFormIntegrator* b) { Term t; t.i = b; domain.push_back(t); }
   void AddDomainIntegrator(BilinearFormIntegrator* b, Array<int>& m) { Term t; t.i = b; t.marker = &m; domain.push_back(t); }
   void AddBoundaryIntegrator(BilinearFormIntegrator* b) { Term t; t.i = b; bdr.push_back(t); }
   void AddBoundaryIntegrator(BilinearFormIntegrator* b, Array<int>& m) { Term t; t.i = b; t.marker = &m; bdr.push_back(t); }
   void AddInteriorFaceIntegrator(BilinearFormIntegrator* b) { Term t; t.i = b; intface.push_back(t); }
   /// Fork extension: faces carrying a marked boundary attribute are skipped.
   void AddInteriorFaceIntegrator(BilinearFormIntegrator* b, const Array<int>& ignore) { Term t; t.i = b; t.marker = &ignore; intface.push_back(t); }
   void AddBdrFaceIntegrator(BilinearFormIntegrator* b) { Term t; t.i = b; bdrface.push_back(t); }
   void AddBdrFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { Term t; t.i = b; t.marker = &m; bdrface.push_back(t); }
   /// Fork extension: faces of boundary elements lying inside the domain.
   void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b) { Term t; t.i = b; intbdrface.push_back(t); }
   void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { Term t; t.i = b; t.marker = &m; intbdrface.push_back(t); }
   virtual void Assemble(int skip_zeros = 1);
   virtual void Finalize(int skip_zeros = 1) { AllocMat(); if (!mat->Finalized()) { mat->Finalize(skip_zeros); } }
   const SparseMatrix& SpMat() const { MFEM_VERIFY(mat, "mat is NULL and can't be dereferenced"); return *mat; }
   SparseMatrix& SpMat() { MFEM_VERIFY(mat, "mat is NULL and can't be dereferenced"); return *mat; }
   bool HasSpMat() { return mat != nullptr; }
   SparseMatrix* LoseMat() { auto* m = mat; mat = nullptr; return m; }
   void Mult(const Vector& x, Vector& y) const override { mat->Mult(x, y); }
   void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { mat->AddMult(x, y, a); }
   void MultTranspose(const Vector& x, Vector& y) const override { mat->MultTranspose(x, y); }
   double InnerProduct(const Vector& x, const Vector& y) const { return mat->InnerProduct(x, y); }
   double& Elem(int i, int j) { return mat->Elem(i, j); }
   const double& Elem(int i, int j) const { return mat->Elem(i, j); }
   BilinearForm& operator=(double a) { if (mat) { *mat = a; } return *this; }
   void Update(FiniteElementSpace* = nullptr) { delete mat; mat = nullptr; }
   void EliminateEssentialBC(const Array<int>&) { mfem_error("not provided"); }
   int NumRows() const { return height; }
   int NumCols() const { return mat ? mat->Width() : width; }
   Array<BilinearFormIntegrator*>* GetFBFI() { return nullptr; }
};
class MixedBilinearForm { public: MixedBilinearForm(FiniteElementSpace*, FiniteElementSpace*) { mfem_error("not provided"); } };
class LinearForm : public Vector
{
protected:
   FiniteElementSpace* fes = nullptr;
   struct Term { LinearFormIntegrator* i; const Array<int>* marker = nullptr; };
   std::vector<Term> domain, bdr, bdrface, intbdrface, intface;
public:
   explicit LinearForm(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
   LinearForm() = default;
   LinearForm(LinearForm&& o) : Vector(std::move(o)), fes(o.fes) { domain.swap(o.domain); bdr.swap(o.bdr); bdrface.swap(o.bdrface); intbdrface.swap(o.intbdrface); intface.swap(o.intface); }
   LinearForm(const LinearForm&) = delete;
   ~LinearForm() override;
   LinearForm& operator=(double v) { Vector::operator=(v); return *this; }
   LinearForm& operator=(const Vector& v) { Vector::operator=(v); return *this; }
   FiniteElementSpace* FESpace() { return fes; }
   const FiniteElementSpace* FESpace() const { return fes; }
   FiniteElementSpace* GetFES() { return fes; }
   void AddDomainIntegrator(LinearFormIntegrator* l) { Term t; t.i = l; domain.push_back(t); }
   void AddDomainIntegrator(LinearFormIntegrator* l, Array<int>& m) { Term t; t.i = l; t.marker = &m; domain.push_back(t); }
   void AddBoundaryIntegrator(LinearFormIntegrator* l) { Term t; t.i = l; bdr.push_back(t); }
   void AddBoundaryIntegrator(LinearFormIntegrator* l, Array<int>& m) { Term t; t.i = l; t.marker = &m; bdr.push_back(t); }
   void AddBdrFaceIntegrator(LinearFormIntegrator* l) { Term t; t.i = l; bdrface.push_back(t); }
   void AddBdrFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { Term t; t.i = l; t.marker = &m; bdrface.push_back(t); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l) { Term t; t.i = l; intbdrface.push_back(t); }
   void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { Term t; t.i = l; t.marker = &m; intbdrface.push_back(t); }
   virtual void Assemble();
   void Assemble(bool) { Assemble(); }
   double operator()(const GridFunction& gf) const { return (*this) * static_cast<const Vector&>(gf); }
   using Vector::operator();
};

// ---------------------------------------------------------------------------------------- SubMesh
class TransferMap;
namespace SubMeshUtils { }
class SubMesh : public Mesh
{
public:
   enum class From { Domain, Boundary };
protected:
   const Mesh* parent_ = nullptr; From from_ = From::Domain; Array<int> attributes_, parent_element_ids_, parent_vertex_ids_, parent_face_ids_;
   friend struct SubMeshBuild;
public:
   SubMesh() = default;
   SubMesh(SubMesh&& o) : Mesh(std::move(o)), parent_(o.parent_), from_(o.from_), attributes_(std::move(o.attributes_)), parent_element_ids_(std::move(o.parent_element_ids_)), parent_vertex_ids_(std::move(o.parent_vertex_ids_)), parent_face_ids_(std::move(o.parent_face_ids_)) {}
   SubMesh& operator=(SubMesh&& o) { Mesh::operator=(std::move(o)); parent_ = o.parent_; from_ = o.from_; attributes_ = std::move(o.attributes_); parent_element_ids_ = std::move(o.parent_element_ids_); parent_vertex_ids_ = std::move(o.parent_vertex_ids_); parent_face_ids_ = std::move(o.parent_face_ids_); return *this; }
   SubMesh(const SubMesh& o) : Mesh(static_cast<const Mesh&>(o)), parent_(o.parent_), from_(o.from_), attributes_(o.attributes_), parent_element_ids_(o.parent_element_ids_), parent_vertex_ids_(o.parent_vertex_ids_), parent_face_ids_(o.parent_face_ids_) {}
   static SubMesh CreateFromDomain(const Mesh& parent, const Array<int>& domain_attributes);
   static SubMesh CreateFromBoundary(const Mesh&, const Array<int>&) { mfem_error("CreateFromBoundary not provided"); }
   const Mesh* GetParent() const { return parent_; }
   From GetFrom() const { return from_; }
   const Array<int>& GetParentElementIDMap() const { return parent_element_ids_; }
   const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids_; }
   const Array<int>& GetParentFaceIDMap() const { return parent_face_ids_; }
   static void Transfer(const GridFunction& src, GridFunction& dst);
   static TransferMap CreateTransferMap(const GridFunction& src, const GridFunction& dst);
   static bool IsSubMesh(const Mesh* m) { return dynamic_cast<const SubMesh*>(m) != nullptr; }
};
class TransferMap
{
   Array<int> map_; bool sub_to_parent_ = true;
public:
   TransferMap() = default;
   TransferMap(const GridFunction& src, const GridFunction& dst);
   void Transfer(const GridFunction& src, GridFunction& dst) const;
};
namespace SubMeshUtils
{
Array<int> BuildFaceMap(const Mesh& pm, const Mesh& sm, const Array<int>& parent_element_ids);
void BuildVdofToVdofMap(const FiniteElementSpace& subfes, const FiniteElementSpace& parentfes, const SubMesh::From from, const Array<int>& parent_element_ids, Array<int>& map);
bool ElementHasAttribute(const Element& el, const Array<int>& attributes);
}

// ---------------------------------------------------------------------------------------- Parallel
class Mpi
{
public:
   Mpi() {}
   Mpi(int&, char**&) {}
   static void Init() {}
   static void Init(int&, char**&, int = 0, int* = nullptr) {}
   static void Init(int*, char***, int = 0, int* = nullptr) {}
   static void Finalize() {}
   static bool IsInitialized() { return true; }
   static bool IsFinalized() { return false; }
   static int WorldRank() { return shim_mpi_rank(); }
   static int WorldSize() { return shim_mpi_size(); }
   static bool Root() { return WorldRank() == 0; }
};
class Hypre { public: static void Init() {} static void Finalize() {} };

class ParMesh : public Mesh
{
   friend class ParFiniteElementSpace; friend class ParGridFunction; friend class ParBilinearForm; friend class ParSubMesh;
protected:
   MPI_Comm MyComm = MPI_COMM_NULL; int NRanks = 1, MyRank = 0;
   // global picture (every rank holds the serial mesh it was built from)
   std::shared_ptr<Mesh> global; std::vector<int> part; std::vector<int> local_to_global, global_to_local;
   struct SharedFace { int local_face; int global_face; int nbr_rank; int nbr_global_elem; int nbr_index; };
   std::vector<SharedFace> shared; // ordered by neighbour rank, then global face number
   std::vector<int> nbr_elems; // global element numbers of face neighbours, grouped by rank
   IsoparametricTransformation nbrTransformation;
   bool FaceIsSharedShim(int f) const override { return faces_info[f].Elem2No < 0 && faces_info[f].Elem2Inf >= 0; }
   void buildLocal(const Mesh& m, const int* partitioning);
public:
   ParMesh() = default;
   ParMesh(MPI_Comm comm, Mesh& mesh, const int* partitioning = nullptr, int part_method = 1);
   ParMesh(const ParMesh& o, bool copy_nodes = true);
   ParMesh(ParMesh&& o);
   ParMesh& operator=(ParMesh&& o);
   MPI_Comm GetComm() const { return MyComm; }
   int GetNRanks() const { return NRanks; }
   int GetMyRank() const { return MyRank; }
   void ExchangeFaceNbrData() {}
   void ExchangeFaceNbrNodes() {}
   int GetNSharedFaces() const { return (int)shared.size(); }
   int GetSharedFace(int i) const { return shared[i].local_face; }
   int GetNFaceNeighbors() const { std::set<int> r; for (auto& s : shared) { r.insert(s.nbr_rank); } return (int)r.size(); }
   int GetNFaceNeighborElements() const { return (int)nbr_elems.size(); }
   FaceElementTransformations* GetSharedFaceTransformations(int i, bool fill2 = true);
   FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31) override;
   long long ReduceInt(int v) const override;
   long long GetGlobalElementNum(int e) const { return local_to_global.empty() ? e : local_to_global[e]; }
   int GetLocalElementNum(long long g) const { return global_to_local.empty() ? (int)g : global_to_local[g]; }
   int FindPoints(DenseMatrix& point_mat, Array<int>& elem_ids, Array<IntegrationPoint>& ips, bool warn = true, InverseElementTransformation* = nullptr) override;
   void GetCharacteristics(double& hmin, double& hmax, double& kmin, double& kmax) override;
   void Save(const std::string& fname, int precision = 16) const override { Mesh::Save(fname + "." + to_padded_string(MyRank, 6), precision); }
   const std::vector<int>& shimLocalToGlobal() const { return local_to_global; }
   void SetAttributes(bool a = true, bool b = true) override { Mesh::SetAttributes(a, b); shimReduceAttributes(); }
   void shimReduceAttributes();
};
class ParFiniteElementSpace : public FiniteElementSpace
{
   friend class ParGridFunction; friend class ParBilinearForm;
   ParMesh* pmesh = nullptr; std::vector<int> nbr_offset; bool exchanged = false;
public:
   int num_face_nbr_dofs = -1;
   ParFiniteElementSpace(ParMesh* pm, const FiniteElementCollection* f, int dim = 1, int ord = Ordering::byNODES) : FiniteElementSpace(pm, f, dim, ord), pmesh(pm) {}
   ParFiniteElementSpace(const ParFiniteElementSpace& o, ParMesh* pm = nullptr, const FiniteElementCollection* f = nullptr) : FiniteElementSpace(o, pm, f), pmesh(pm ? pm : o.pmesh) {}
   ParFiniteElementSpace(ParMesh* pm, const FiniteElementSpace* glob, const int*, const FiniteElementCollection* f = nullptr) : FiniteElementSpace(pm, f ? f : glob->FEColl(), glob->GetVDim(), glob->GetOrdering()), pmesh(pm) {}
   ParMesh* GetParMesh() const { return pmesh; }
   MPI_Comm GetComm() const { return pmesh->GetComm(); }
   int GetNRanks() const { return pmesh->GetNRanks(); }
   int GetMyRank() const { return pmesh->GetMyRank(); }
   long long GlobalTrueVSize() const;
   long long GlobalVSize() const { return GlobalTrueVSize(); }
   int TrueVSize() const { return GetVSize(); }
   void ExchangeFaceNbrData();
   int GetFaceNbrVSize() const { return std::max(num_face_nbr_dofs, 0); }
   void GetFaceNbrElementVDofs(int i, Array<int>& vdofs) const;
   const FiniteElement* GetFaceNbrFE(int i) const;
};
class ParGridFunction : public GridFunction
{
protected:
   ParFiniteElementSpace* pfes = nullptr; Vector face_nbr_data;
public:
   ParGridFunction() = default;
   ParGridFunction(const ParGridFunction& o) : GridFunction(o), pfes(o.pfes) {}
   ParGridFunction(ParGridFunction&& o) noexcept : GridFunction(std::move(o)), pfes(o.pfes), face_nbr_data(std::move(o.face_nbr_data)) {}
   explicit ParGridFunction(ParFiniteElementSpace* f) : GridFunction(f), pfes(f) {}
   ParGridFunction(ParFiniteElementSpace* f, double* d) : GridFunction(f, d), pfes(f) {}
   ParGridFunction(ParFiniteElementSpace* f, Vector& base, int off = 0) : GridFunction(f, base, off), pfes(f) {}
   ParGridFunction(ParFiniteElementSpace* f, GridFunction* gf) : GridFunction(f, gf->GetData()), pfes(f) {}
   ParGridFunction(ParMesh* pm, std::istream& in);
   ParGridFunction(ParMesh* pm, const GridFunction* gf, const int* partitioning = nullptr);
   ParGridFunction& operator=(const ParGridFunction& o) { return operator=(static_cast<const Vector&>(o)); }
   ParGridFunction& operator=(double v) { GridFunction::operator=(v); return *this; }
   ParGridFunction& operator=(const Vector& v) { GridFunction::operator=(v); return *this; }
   ParFiniteElementSpace* ParFESpace() const { return pfes; }
   void SetSpace(FiniteElementSpace* f) override { GridFunction::SetSpace(f); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
   void SetSpace(ParFiniteElementSpace* f) { GridFunction::SetSpace(f); pfes = f; }
   using GridFunction::MakeRef;
   void MakeRef(FiniteElementSpace* f, double* v) override { GridFunction::MakeRef(f, v); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
   void MakeRef(ParFiniteElementSpace* f, double* v) { GridFunction::MakeRef(f, v); pfes = f; }
   void MakeRef(FiniteElementSpace* f, Vector& v, int o) override { GridFunction::MakeRef(f, v, o); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
   void MakeRef(ParFiniteElementSpace* f, Vector& v, int o) { GridFunction::MakeRef(f, v, o); pfes = f; }
   void ExchangeFaceNbrData();
   Vector& FaceNbrData() { return face_nbr_data; }
   const Vector& FaceNbrData() const { return face_nbr_data; }
   double ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* = nullptr) const override;
   void Distribute(const Vector* v) { GridFunction::operator=(*v); }
   using GridFunction::Save;
};
class ParBilinearForm : public BilinearForm
{
   ParFiniteElementSpace* pfes; bool keep_nbr_block = false;
   int matWidth() const override;
   void assembleShared(int skip_zeros) override;
public:
   explicit ParBilinearForm(ParFiniteElementSpace* f) : BilinearForm(f), pfes(f) {}
   ParBilinearForm(ParBilinearForm&& o) = default;
   ParFiniteElementSpace* ParFESpace() const { return pfes; }
   void KeepNbrBlock(bool k = true) { keep_nbr_block = k; }
   void Assemble(int skip_zeros = 1) override;
};
class ParLinearForm : public LinearForm
{
   ParFiniteElementSpace* pfes = nullptr;
public:
   explicit ParLinearForm(ParFiniteElementSpace* f) : LinearForm(f), pfes(f) {}
   ParFiniteElementSpace* ParFESpace() const { return pfes; }
   ParLinearForm& operator=(double v) { Vector::operator=(v); return *this; }
};
class ParSubMesh : public ParMesh
{
   const ParMesh* pparent_ = nullptr; SubMesh::From from_ = SubMesh::From::Domain; Array<int> parent_element_ids_, parent_vertex_ids_, parent_face_ids_;
public:
   ParSubMesh() = default;
   ParSubMesh(ParSubMesh&& o) : ParMesh(std::move(o)), pparent_(o.pparent_), parent_element_ids_(std::move(o.parent_element_ids_)), parent_vertex_ids_(std::move(o.parent_vertex_ids_)), parent_face_ids_(std::move(o.parent_face_ids_)) {}
   ParSubMesh(const ParSubMesh& o) : ParMesh(static_cast<const ParMesh&>(o)), pparent_(o.pparent_), parent_element_ids_(o.parent_element_ids_), parent_vertex_ids_(o.parent_vertex_ids_), parent_face_ids_(o.parent_face_ids_) {}
   static ParSubMesh CreateFromDomain(const ParMesh& parent, const Array<int>& domain_attributes);
   const ParMesh* GetParent() const { return pparent_; }
   SubMesh::From GetFrom() const { return from_; }
   const Array<int>& GetParentElementIDMap() const { return parent_element_ids_; }
   const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids_; }
   const Array<int>& GetParentFaceIDMap() const { return parent_face_ids_; }
   static void Transfer(const ParGridFunction& src, ParGridFunction& dst);
   static TransferMap CreateTransferMap(const ParGridFunction& src, const ParGridFunction& dst);
   static bool IsParSubMesh(const ParMesh* m) { return dynamic_cast<const ParSubMesh*>(m) != nullptr; }
};
typedef ParSubMesh ParTransferMapSubMesh;

// ---------------------------------------------------------------------------------------- Data collections
enum class VTKFormat { ASCII, BINARY, BINARY32 };
class DataCollection
{
public:
   enum { NO_ERROR = 0, READ_ERROR = 1, WRITE_ERROR = 2 };
   enum Format { SERIAL_FORMAT = 0, PARALLEL_FORMAT = 1 };
protected:
   std::string name, prefix_path; Mesh* mesh = nullptr; int cycle = -1; double time = 0.0; int precision = 6; std::map<std::string, GridFunction*> field_map;
   int myid = 0, num_procs = 1, error = NO_ERROR;
public:
   explicit DataCollection(const std::string& n, Mesh* m = nullptr) : name(n), mesh(m) {}
   virtual ~DataCollection() {}
   virtual void RegisterField(const std::string& n, GridFunction* gf) { field_map[n] = gf; }
   virtual void DeregisterField(const std::string& n) { field_map.erase(n); }
   bool HasField(const std::string& n) const { return field_map.count(n) != 0; }
   GridFunction* GetField(const std::string& n) { return field_map.at(n); }
   const std::map<std::string, GridFunction*>& GetFieldMap() const { return field_map; }
   void SetPrefixPath(const std::string& p) { prefix_path = p; if (!prefix_path.empty() && prefix_path.back() != '/') { prefix_path += '/'; } }
   const std::string& GetPrefixPath() const { return prefix_path; }
   const std::string& GetCollectionName() const { return name; }
   void SetCycle(int c) { cycle = c; }
   int GetCycle() const { return cycle; }
   void SetTime(double t) { time = t; }
   double GetTime() const { return time; }
   void SetTimeStep(double) {}
   void SetPrecision(int p) { precision = p; }
   void SetPadDigits(int) {}
   virtual void SetMesh(Mesh* m) { mesh = m; }
   Mesh* GetMesh() { return mesh; }
   virtual void Save();
   int Error() const { return error; }
};
class VisItDataCollection : public DataCollection { public: VisItDataCollection(const std::string& n, Mesh* m = nullptr) : DataCollection(n, m) {} void SetLevelsOfDetail(int) {} };
class ParaViewDataCollection : public DataCollection
{
   int lod = 1; bool ho = false; VTKFormat fmt = VTKFormat::BINARY;
public:
   explicit ParaViewDataCollection(const std::string& n, Mesh* m = nullptr) : DataCollection(n, m) {}
   void SetLevelsOfDetail(int l) { lod = l; }
   void SetDataFormat(VTKFormat f) { fmt = f; }
   void SetHighOrderOutput(bool h) { ho = h; }
   bool GetHighOrderOutput() const { return ho; }
   void SetCompression(bool) {}
   void SetCompressionLevel(int) {}
   void SetBoundaryOutput(bool) {}
   void UseRestartMode(bool) {}
   void Save() override;
};

class OptionsParser
{
public:
   OptionsParser(int, char*[]) {}
   void AddOption(bool*, const char*, const char*, const char*, const char*, const char*, bool = false) {}
   template <class... T> void AddOption(T...) {}
   void Parse() {}
   bool Good() const { return true; }
   void PrintUsage(std::ostream&) const {}
   void PrintOptions(std::ostream&) const {}
};
struct socketstream : public std::ostream { template <class... T> socketstream(T...) : std::ostream(nullptr) {} };

} // namespace mfem
