// SRC: interface_form nonlinear_integ interfaceinteg hyperreduction_integ topology_handler hdf5_utils etc linalg_utils input_parser
#include "interface_form.hpp"
#include "nonlinear_integ.hpp"
#include "etc.hpp"
#include "nl.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <map>
using namespace mfem; using namespace vr;
// runs f in a child (its stdout goes to a file); true if it ended normally. Only an abort that names the timers counts against P17 when onlytimers is set.
static std::string child_out;
static bool child(const char *file, std::function<void()> f, bool onlytimers)
{
   fflush(stdout); pid_t p = fork();
   if (!p) { int fd = open(file, O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); dup2(fd, 2); { MPIGuard mpi; f(); printf("\nCHILD %ld %ld\n", evals(), (long)distinct().size()); fflush(stdout); } _exit(0); }
   int st = 0; waitpid(p, &st, 0); std::ifstream in(file); std::stringstream b; b << in.rdbuf(); child_out = b.str();
   std::istringstream ls(child_out); bool fin = false; for (std::string l; std::getline(ls, l); ) { if (l.rfind("FAIL ", 0) == 0) { printf("%s\n", l.c_str()); nfail()++; } long e, d; if (sscanf(l.c_str(), "CHILD %ld %ld", &e, &d) == 2) { evals() += e; fin = true; for (long i = 0; i < d; i++) distinct().insert(fmt("%s %ld", file, i)); } }
   std::ifstream cf("case.txt"); std::stringstream cb; cb << cf.rdbuf();
   if (!fin && (!onlytimers || child_out.find("TimeProfiler") != std::string::npos)) { size_t k = child_out.find("TimeProfiler"); printf("FAIL a timed operation aborted: %s | input: %s\n", k == std::string::npos ? "(no message)" : child_out.substr(k, 120).c_str(), cb.str().c_str()); nfail()++; }
   return fin;
}
static void tags()
{
   std::vector<std::string> w = {"", "a", "b", "ab", "a_b", "_", "B", "comp", "vel", "pres", "a_", "_b", "\x7f", "\xc3"};
   for (int it = 0; it < reps(400); it++)
   {
      auto rs = [&]() { if (B()) return w[I(0, w.size() - 1)]; std::string s; for (int k = I(0, 3); k > 0; k--) s += "ab_Z"[I(0, 3)]; return s; };
      std::pair<std::string, std::string> p[3]; BasisTag t[3]; for (int i = 0; i < 3; i++) { p[i] = {rs(), rs()}; if (i && B()) p[i] = p[i - 1]; if (i && B()) p[i].first = p[i - 1].first; t[i] = BasisTag(p[i].first, p[i].second); if (p[i].second.empty() && B()) t[i] = BasisTag(p[i].first); if (B()) { BasisTag c; c = t[i]; t[i] = c; } if (B()) { BasisTag c(t[i]); BasisTag d("old", "tag"); d = c; t[i] = d; } }
      casef(fmt("tags it=%d", it) + " (" + p[0].first + "|" + p[0].second + ") (" + p[1].first + "|" + p[1].second + ") (" + p[2].first + "|" + p[2].second + ")");
      for (int i = 0; i < 3; i++)
      {
         expect(t[i].comp == p[i].first && t[i].var == p[i].second, "a tag stores its parts"); std::string want = p[i].second.empty() ? p[i].first : p[i].first + "_" + p[i].second; expect(t[i].print() == want, "printed name: got " + t[i].print() + ", specified " + want); expect(t[i].comp == p[i].first && t[i].var == p[i].second, "printing changes nothing"); expect(!(t[i] < t[i]), "irreflexive");
         for (int j = 0; j < 3; j++) { bool e = p[i] == p[j]; expect((t[i] == t[j]) == e, "equality"); expect(((t[i] < t[j]) ? 1 : 0) + ((t[j] < t[i]) ? 1 : 0) + (e ? 1 : 0) == 1, fmt("exactly one of <, >, == between tags %d and %d", i, j)); for (int k = 0; k < 3; k++) if (t[i] < t[j] && t[j] < t[k]) expect(t[i] < t[k], "transitivity"); }
      }
   }
}
static void timers()
{
   const char *nm[] = {"a", "b", "Mult", "Mult/init", "Mult/x", "A"}; const int K = 6;
   for (int it = 0; it < reps(60); it++)
   {
      TimeProfiler T("title"); std::map<std::string, int> n; std::set<std::string> run, seen; std::vector<std::string> order; std::string h;
      for (int k = I(0, 60); k > 0; k--)
      {
         std::string s = nm[I(0, K - 1)]; bool on = run.count(s); h += (on ? " -" : " +") + s; casef(fmt("timer sequence it=%d:", it) + h);
         if (on) { T.Stop(s); run.erase(s); n[s]++; } else { if (!seen.count(s)) order.push_back(s); seen.insert(s); T.Start(s); run.insert(s); }
      }
      for (auto &s : std::set<std::string>(run)) { h += " -" + s; casef(fmt("timer sequence it=%d:", it) + h); T.Stop(s); n[s]++; }
      for (int rep = 0; rep < 2; rep++)
      {
         fflush(stdout); int keep = dup(1), fd = open("print.txt", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 1); T.Print("title"); fflush(stdout); dup2(keep, 1); close(keep); close(fd);
         std::ifstream in("print.txt"); std::map<std::string, int> got; for (std::string l; std::getline(in, l); ) { std::istringstream ss(l); std::string a; double t; int c; if (ss >> a >> t >> c) { expect(!got.count(a), "timer " + a + " is printed twice"); got[a] = c; expect(t >= 0. && t < 60., "time of " + a); } }
         expect(got.size() == seen.size(), fmt("%d timers printed, specified %d", (int)got.size(), (int)seen.size())); for (auto &s : seen) expect(got.count(s) && got[s] == n[s], fmt("calls of timer %s: got %d, specified %d", s.c_str(), got.count(s) ? got[s] : -1, n[s]));
      }
   }
}
// the timed operations, run as the checks of P06, P07 and P10 run them, repeated and with the timers printed when the object dies (which requires every timer stopped);
// what they compute is not judged here
#define MPIGuard int
#define fail(...) ((void)0)
#define expect(...) ((void)0)
#define eq(...) ((void)0)
#define veq(...) ((void)0)
#define meq(...) ((void)0)
#define done() 0
#define main main_
namespace h10 {
#include "P10.cpp"
}
namespace h6 {
#include "P06.cpp"
}
namespace h7 {
#include "P07.cpp"
}
#undef main
#undef done
#undef MPIGuard
static void profile() { config.dict_ = YAML::Load("{time_profile: {DGLaxFriedrichsFluxIntegrator: true, InterfaceForm: true, MixedInterfaceForm: true}}"); }
int main()
{
   tags();
   child("timers.txt", timers, false);
   child("forms.txt", []() { profile(); for (int it = 0; it < 30; it++) h10::run(it); }, true);
   child("points.txt", []() { profile(); h6::main_(); }, true);
   child("fast.txt", []() { profile(); h7::main_(); }, true);
   return done();
}
