// Common part of the replay harnesses: the contracts evaluated on the real code with concrete inputs.
#ifndef VR_HPP
#define VR_HPP
#include "mfem.hpp"
#include <random>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <set>
#include <vector>
#include <functional>
#include <sstream>
#include <cmath>
#include <unistd.h>
namespace vr {
inline std::mt19937_64 &rng() { static std::mt19937_64 g(std::strtoull(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1", 0, 10)); return g; }
inline bool thorough() { const char *t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
inline std::string repo() { const char *t = getenv("VERIF_REPO"); return t ? t : "/repo"; }
inline int reps(int n) { return thorough() ? 10 * n : n; }
inline int I(int lo, int hi) { return lo + (int)(rng()() % (unsigned long)(hi - lo + 1)); }
inline double D(double lo = -1., double hi = 1.) { return lo + (hi - lo) * ((rng()() >> 11) * (1.0 / 9007199254740992.0)); }
inline bool B() { return rng()() & 1; }
inline long &evals() { static long n = 0; return n; }
inline long &nfail() { static long n = 0; return n; }
inline std::set<std::string> &distinct() { static std::set<std::string> s; return s; }
inline std::string &cur() { static std::string s; return s; }
inline std::string fmt(const char *f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// announce the input about to be tried, so that an abort names it
inline void casef(const std::string &s) {
   cur() = s; evals()++; if (distinct().size() < 100000) distinct().insert(s);
   static FILE *fp = NULL; if (!fp) fp = fopen("case.txt", "w"); rewind(fp); fprintf(fp, "%s\n", s.c_str()); fflush(fp); if (ftruncate(fileno(fp), ftell(fp))) {}
   static int ns = 0; if (ns < 3) { printf("SAMPLE %s\n", s.c_str()); ns++; } }
inline void fail(const std::string &what) { if (nfail()++ < 40) { printf("FAIL %s | input: %s\n", what.c_str(), cur().c_str()); fflush(stdout); } }
inline bool near(double a, double b, double tol = 1e-9, double scale = 0.) { return std::fabs(a - b) <= tol * (1. + std::fabs(a) + std::fabs(b) + scale) ; }
inline void expect(bool c, const std::string &what) { if (!c) fail(what); }
inline void eq(double got, double want, const std::string &what, double tol = 1e-9, double scale = 0.) { if (!near(got, want, tol, scale)) fail(what + fmt(": got %.15g, specified %.15g", got, want)); }
inline void veq(const mfem::Vector &g, const mfem::Vector &w, const std::string &what, double tol = 1e-9, double scale = 0.) {
   if (g.Size() != w.Size()) { fail(what + fmt(": size %d, specified %d", g.Size(), w.Size())); return; }
   for (int i = 0; i < g.Size(); i++) if (!near(g(i), w(i), tol, scale)) { fail(what + fmt(": entry %d got %.15g, specified %.15g", i, g(i), w(i))); return; } }
inline void meq(const mfem::DenseMatrix &g, const mfem::DenseMatrix &w, const std::string &what, double tol = 1e-9, double scale = 0.) {
   if (g.Height() != w.Height() || g.Width() != w.Width()) { fail(what + fmt(": %d x %d, specified %d x %d", g.Height(), g.Width(), w.Height(), w.Width())); return; }
   for (int i = 0; i < g.Height(); i++) for (int j = 0; j < g.Width(); j++) if (!near(g(i, j), w(i, j), tol, scale)) { fail(what + fmt(": entry (%d,%d) got %.15g, specified %.15g", i, j, g(i, j), w(i, j))); return; } }
inline void rnd(mfem::Vector &v) { for (int i = 0; i < v.Size(); i++) v(i) = D(); }
inline void rnd(mfem::DenseMatrix &m) { for (int j = 0; j < m.Width(); j++) for (int i = 0; i < m.Height(); i++) m(i, j) = D(); }
inline void rnd(mfem::DenseTensor &t) { for (int k = 0; k < t.SizeK(); k++) rnd(t(k)); }
inline std::string s(const mfem::Vector &v) { std::string r = "["; for (int i = 0; i < v.Size() && i < 24; i++) r += fmt("%s%.6g", i ? "," : "", v(i)); return r + (v.Size() > 24 ? ",..]" : "]"); }
inline std::string s(const mfem::Array<int> &v) { std::string r = "["; for (int i = 0; i < v.Size() && i < 40; i++) r += fmt("%s%d", i ? "," : "", v[i]); return r + "]"; }
inline int done() { printf("\nDONE evaluations=%ld nontrivial=%ld\n", evals(), (long)distinct().size()); fflush(stdout); return 0; }
}
#endif
