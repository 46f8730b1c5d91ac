// Fork based message passing used by the MFEM stand-in and by the solver's own MPI calls.
#include "mpi.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace {
struct Shared {
   pthread_barrier_t bar; std::atomic<int> failed; std::size_t sizes[64]; std::size_t slot; 
   // slots follow
};
Shared* sh = nullptr; int rank_ = 0, size_ = 1; unsigned long collectives = 0;
char* slot(int r) { return reinterpret_cast<char*>(sh) + 4096 + std::size_t(r) * sh->slot; }
std::size_t tsize(int t)
{
   switch (t) { case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: return 1; case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; default: return 8; }
}
// Ranks leave synchronisation points and open shared files at scattered times.
void stagger(unsigned us) { static std::uint32_t z = 0; if (size_ < 2) { return; } if (!z) { z = 2463534242u ^ (0x9e3779b9u * (unsigned)(rank_ + 1)); } z ^= z << 13; z ^= z >> 17; z ^= z << 5; if (us >= 1000 || z % 8 == 0) { usleep((z >> 4) % us); } }
void barrier() { if (size_ > 1) { pthread_barrier_wait(&sh->bar); stagger(300); } }
template <class T> void red(T* acc, const T* v, int n, int op)
{
   for (int i = 0; i < n; i++) {
      switch (op) {
         case MPI_MAX: acc[i] = v[i] > acc[i] ? v[i] : acc[i]; break;
         case MPI_MIN: acc[i] = v[i] < acc[i] ? v[i] : acc[i]; break;
         case MPI_SUM: acc[i] = T(acc[i] + v[i]); break;
         case MPI_PROD: acc[i] = T(acc[i] * v[i]); break;
         case MPI_LOR: acc[i] = T(acc[i] || v[i]); break;
         case MPI_LAND: acc[i] = T(acc[i] && v[i]); break;
      }
   }
}
void reduce(void* acc, const void* v, int n, int t, int op)
{
   switch (t) {
      case MPI_INT: red((int*)acc, (const int*)v, n, op); break;
      case MPI_UNSIGNED: red((unsigned*)acc, (const unsigned*)v, n, op); break;
      case MPI_FLOAT: red((float*)acc, (const float*)v, n, op); break;
      case MPI_DOUBLE: red((double*)acc, (const double*)v, n, op); break;
      case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: red((char*)acc, (const char*)v, n, op); break;
      case MPI_UNSIGNED_LONG: case MPI_UINT64_T: red((std::uint64_t*)acc, (const std::uint64_t*)v, n, op); break;
      default: red((std::int64_t*)acc, (const std::int64_t*)v, n, op);
   }
}
}
void shim_mpi_allgather_bytes(const void* mine, std::size_t bytes, void* all, std::size_t* sizes)
{
   collectives++;
   if (size_ == 1) { if (sizes) { sizes[0] = bytes; } if (all) { std::memcpy(all, mine, bytes); } return; }
   if (bytes > sh->slot) { std::fprintf(stderr, "SHIM-MPI: block too large\n"); std::_Exit(97); }
   if (bytes) { std::memcpy(slot(rank_), mine, bytes); }
   sh->sizes[rank_] = bytes;
   barrier();
   char* o = static_cast<char*>(all);
   for (int r = 0; r < size_; r++) { if (sizes) { sizes[r] = sh->sizes[r]; } if (o && sh->sizes[r]) { std::memcpy(o, slot(r), sh->sizes[r]); o += sh->sizes[r]; } }
   barrier();
}
unsigned long shim_mpi_collective_count() { return collectives; }
int shim_mpi_rank() { return rank_; }
int shim_mpi_size() { return size_; }
// For code that only asks for its rank and the number of ranks.
void shim_mpi_stagger(unsigned us) { stagger(us); }
void shim_mpi_pretend(int rank, int size) { rank_ = rank; size_ = size; }

int shim_mpi_run(int n, const std::function<int(int)>& fn, double timeout_s)
{
   const std::size_t slotsz = std::size_t(32) << 20; const std::size_t total = 4096 + slotsz * std::size_t(n);
   void* m = mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (m == MAP_FAILED) { return n; }
   Shared* s = new (m) Shared; s->slot = slotsz; s->failed = 0;
   pthread_barrierattr_t a; pthread_barrierattr_init(&a); pthread_barrierattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_barrier_init(&s->bar, &a, n);
   std::fflush(nullptr);
   std::vector<pid_t> pids;
   for (int r = 0; r < n; r++) {
      pid_t p = fork();
      if (p == 0) {
         sh = s; rank_ = r; size_ = n; collectives = 0;
         int rc = 99;
         try { rc = fn(r); } catch (const std::exception& e) { std::fprintf(stderr, "SHIM-MPI rank %d exception: %s\n", r, e.what()); rc = 98; }
         std::fflush(nullptr);
         std::_Exit(rc);
      }
      pids.push_back(p);
   }
   static int hung = 0; if (hung && timeout_s > 5) { timeout_s = hung > 2 ? 5 : 20; } // once ranks have hung, less patience
   int bad = 0; std::vector<char> done(n, 0); int left = n; auto t0 = std::chrono::steady_clock::now();
   while (left > 0) {
      bool progress = false;
      for (int r = 0; r < n; r++) {
         if (done[r]) { continue; }
         int st = 0; pid_t w = waitpid(pids[r], &st, WNOHANG);
         if (w == pids[r]) {
            done[r] = 1; left--; progress = true;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad++; for (int q = 0; q < n; q++) { if (!done[q]) { kill(pids[q], SIGKILL); } } }
         }
      }
      if (!progress) {
         if (timeout_s > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout_s) { for (int q = 0; q < n; q++) { if (!done[q]) { kill(pids[q], SIGKILL); } } timeout_s = 0; bad += 1000; hung++; }
         usleep(300);
      }
   }
   munmap(m, total);
   return bad;
}

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int c) { std::fprintf(stderr, "SHIM-MPI-ABORT %d\n", c); std::fflush(nullptr); std::_Exit(c ? c : 1); }
int MPI_Barrier(MPI_Comm c) { if (c != MPI_COMM_SELF) { collectives++; barrier(); } return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : rank_; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = c == MPI_COMM_SELF ? 1 : size_; return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int, MPI_Info, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_split(MPI_Comm c, int, int, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
static void gatherAll(const void* mine, std::size_t b, std::vector<char>& all, std::vector<std::size_t>& sz)
{
   sz.assign(size_, 0); all.resize(b * size_ + 1);
   // equal or varying sizes: first exchange the sizes
   std::vector<std::size_t> s2(size_);
   std::vector<std::size_t> tmp(size_);
   shim_mpi_allgather_bytes(&b, sizeof b, tmp.data(), s2.data());
   std::size_t tot = 0; for (auto v : tmp) { tot += v; }
   all.resize(tot + 1);
   shim_mpi_allgather_bytes(mine, b, all.data(), sz.data());
   collectives--;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
   if (s == MPI_IN_PLACE) { s = r; }
   const std::size_t b = tsize(t) * std::size_t(n);
   if (c == MPI_COMM_SELF || size_ == 1) { collectives++; if (s != r) { std::memmove(r, s, b); } return 0; }
   std::vector<char> all; std::vector<std::size_t> sz; gatherAll(s, b, all, sz);
   for (int i = 0; i < size_; i++) { if (sz[i] != b) { std::fprintf(stderr, "SHIM-MPI: mismatched collective sizes\n"); std::fflush(nullptr); std::abort(); } }
   std::memcpy(r, all.data(), b);
   for (int i = 1; i < size_; i++) { reduce(r, all.data() + b * std::size_t(i), n, t, op); }
   return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
   const std::size_t b = tsize(t) * std::size_t(n); std::vector<char> tmp(b + 1);
   if (s == MPI_IN_PLACE) { s = r; }
   MPI_Allreduce(s, tmp.data(), n, t, op, c);
   if (rank_ == root || c == MPI_COMM_SELF) { std::memcpy(r, tmp.data(), b); }
   return 0;
}
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
   if (c == MPI_COMM_SELF || size_ == 1) { collectives++; return 0; }
   const std::size_t b = tsize(t) * std::size_t(n); std::vector<char> all; std::vector<std::size_t> sz; gatherAll(d, rank_ == root ? b : 0, all, sz);
   if (rank_ != root) { std::memcpy(d, all.data(), b); }
   return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm c)
{
   const std::size_t b = tsize(t) * std::size_t(n);
   if (c == MPI_COMM_SELF || size_ == 1) { collectives++; std::memcpy(r, s, b); return 0; }
   std::vector<char> all; std::vector<std::size_t> sz; gatherAll(s, b, all, sz); std::memcpy(r, all.data(), b * std::size_t(size_)); return 0;
}
int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cnt, const int* dsp, MPI_Datatype rt, MPI_Comm)
{
   std::vector<char> all; std::vector<std::size_t> sz; gatherAll(s, tsize(t) * std::size_t(n), all, sz); std::size_t o = 0;
   for (int i = 0; i < size_; i++) { std::memcpy((char*)r + tsize(rt) * std::size_t(dsp[i]), all.data() + o, tsize(rt) * std::size_t(cnt[i])); o += sz[i]; }
   return 0;
}
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, int root, MPI_Comm c)
{
   const std::size_t b = tsize(t) * std::size_t(n);
   if (c == MPI_COMM_SELF || size_ == 1) { collectives++; std::memcpy(r, s, b); return 0; }
   std::vector<char> all; std::vector<std::size_t> sz; gatherAll(s, b, all, sz); if (rank_ == root) { std::memcpy(r, all.data(), b * std::size_t(size_)); } return 0;
}
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* cnt, const int* dsp, MPI_Datatype rt, int root, MPI_Comm)
{
   std::vector<char> all; std::vector<std::size_t> sz; gatherAll(s, tsize(t) * std::size_t(n), all, sz); std::size_t o = 0;
   if (rank_ == root) { for (int i = 0; i < size_; i++) { std::memcpy((char*)r + tsize(rt) * std::size_t(dsp[i]), all.data() + o, tsize(rt) * std::size_t(cnt[i])); o += sz[i]; } }
   return 0;
}
double MPI_Wtime(void) { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
