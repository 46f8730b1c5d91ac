// Monitor support shared by all harnesses: events, violations, report writing.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
   va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

struct Rng {
   std::uint64_t s;
   explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
   std::uint64_t next() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
   double uni() { return (next() >> 11) * 0x1p-53; }
   double uni(double a, double b) { return a + (b - a) * uni(); }
   double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
   int below(int n) { return (int)(next() % (std::uint64_t)n); }
   int range(int a, int b) { return a + below(b - a + 1); }
   bool coin(double p = 0.5) { return uni() < p; }
   double normal() { double u = uni() + 1e-300, v = uni(); return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v); }
   template <class C> auto& pick(C& c) { return c[below((int)c.size())]; }
   template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + below((int)c.size())); }
   std::array<double, 3> unit() { for (;;) { std::array<double, 3> v{ normal(), normal(), normal() }; double n = std::sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]); if (n > 1e-3) { for (auto& x : v) { x /= n; } return v; } } }
};

inline std::uint64_t hashStr(const std::string& s) { std::uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; } return h; }

struct Violation { std::string key, detail, label; };

class Monitor {
public:
   std::string section, labelText, reportPath, labelPath, onlyLabel;
   std::uint64_t seed = 1; bool thorough = false;
   std::vector<Violation> violations; std::map<std::string, std::uint64_t> perKey;
   std::map<std::string, std::uint64_t> events; std::map<std::string, std::unordered_set<std::uint64_t>> distinct;
   std::map<std::string, double> worst; std::vector<std::string> samples; std::uint64_t evaluations = 0;
   int n(int quick, int deep) const { return thorough ? deep : quick; }
   Rng rng(const std::string& what = "") const { return Rng(seed * 1000003ull + hashStr(section + "/" + what)); }
   // Names the case being executed; used to attribute crashes and hangs.
   void label(const std::string& l)
   {
      labelText = l;
      if (!labelPath.empty()) { FILE* f = fopen(labelPath.c_str(), "w"); if (f) { fputs(l.c_str(), f); fclose(f); } }
   }
   // An observed event of some kind; the signature tells distinct states apart.
   void event(const std::string& kind, const std::string& signature = "")
   {
      events[kind]++; if (!signature.empty()) { auto& d = distinct[kind]; if (d.insert(hashStr(signature)).second && d.size() <= 3) { samples.push_back(kind + ": " + signature); } }
   }
   bool expect(bool ok, const std::string& key, const std::string& detail = "")
   {
      evaluations++; if (ok) { return true; }
      if (perKey[key]++ < 3) { violations.push_back({ key, detail, labelText }); } return false;
   }
   // |got-want| <= tol, NaN fails; keeps the largest error seen relative to the tolerance.
   bool near(double got, double want, double tol, const std::string& key, const std::string& detail = "")
   {
      const double e = std::abs(got - want); auto& w = worst[key]; if (tol > 0 && e / tol > w) { w = e / tol; }
      return expect(e <= tol, key, e <= tol ? std::string() : fmt("got %.17g want %.17g err %.3g tol %.3g ", got, want, e, tol) + detail);
   }
   template <class F> bool throws(F&& f, const std::string& key, const std::string& detail = "")
   {
      bool t = false; try { f(); } catch (const std::exception&) { t = true; } catch (...) { t = true; }
      return expect(t, key, "accepted instead of rejected: " + detail);
   }
   template <class F> bool nothrow(F&& f, const std::string& key, const std::string& detail = "")
   {
      try { f(); return expect(true, key); } catch (const std::exception& e) { return expect(false, key, "unexpected exception: " + std::string(e.what()) + " " + detail); } catch (...) { return expect(false, key, "unexpected exception " + detail); }
   }
   static std::string esc(const std::string& s)
   {
      std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else { o += (char)c; } } return o;
   }
   void write() const
   {
      FILE* f = fopen(reportPath.c_str(), "w"); if (!f) { return; }
      fprintf(f, "{\"section\":\"%s\",\"evaluations\":%llu,\"events\":{", esc(section).c_str(), (unsigned long long)evaluations);
      const char* c = ""; for (auto& e : events) { auto d = distinct.find(e.first); fprintf(f, "%s\"%s\":[%llu,%llu]", c, esc(e.first).c_str(), (unsigned long long)e.second, (unsigned long long)(d == distinct.end() ? 0 : d->second.size())); c = ","; }
      fprintf(f, "},\"worst\":{"); c = ""; for (auto& e : worst) { fprintf(f, "%s\"%s\":%.4g", c, esc(e.first).c_str(), std::isfinite(e.second) ? e.second : 1e300); c = ","; }
      fprintf(f, "},\"samples\":["); c = ""; for (auto& s : samples) { fprintf(f, "%s\"%s\"", c, esc(s).c_str()); c = ","; }
      fprintf(f, "],\"violations\":["); c = "";
      for (auto& v : violations) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\",\"label\":\"%s\",\"count\":%llu}", c, esc(v.key).c_str(), esc(v.detail).c_str(), esc(v.label).c_str(), (unsigned long long)perKey.at(v.key)); c = ","; }
      fprintf(f, "]}\n"); fclose(f);
   }
};
inline Monitor M;

using SectionFn = void (*)();
inline std::vector<std::pair<std::string, SectionFn>>& registry() { static std::vector<std::pair<std::string, SectionFn>> r; return r; }
struct Reg { Reg(const char* n, SectionFn f) { registry().emplace_back(n, f); } };

// Merge support for monitors that ran in a forked rank: append as text lines.
inline int mainImpl(int argc, char** argv)
{
   std::string sec; bool list = false;
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--list") { list = true; } else if (a == "--section") { sec = val(); } else if (a == "--seed") { M.seed = strtoull(val().c_str(), nullptr, 10); }
      else if (a == "--tier") { M.thorough = val() == "thorough"; } else if (a == "--report") { M.reportPath = val(); } else if (a == "--label") { M.labelPath = val(); }
   }
   if (list) { for (auto& r : registry()) { printf("%s\n", r.first.c_str()); } return 0; }
   for (auto& r : registry()) if (r.first == sec) {
      M.section = sec;
      try { r.second(); }
      catch (const std::exception& e) { M.expect(false, "uncaught-exception:" + sec, e.what()); }
      catch (...) { M.expect(false, "uncaught-exception:" + sec, "non-standard exception"); }
      M.write(); return 0;
   }
   fprintf(stderr, "no such section\n"); return 2;
}
} // namespace mon

#define SECTION(name) static void sec_##name(); static mon::Reg reg_##name(#name, sec_##name); static void sec_##name()
#define HARNESS_MAIN int main(int argc, char** argv) { return mon::mainImpl(argc, argv); }
