// SRC: input_parser etc
#include "input_parser.hpp"
#include "vr.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <map>
using namespace mfem; using namespace vr;
// reference: a tree of maps with leaves (text of the value)
struct T { bool map = true; std::string v; std::map<std::string, T> c; std::vector<std::string> order; };
static const char *names[] = {"a", "b", "c", "solver", "x1"};
static std::string scalar() { static const char *w[] = {"3", "-17", "2.5", "1.0e-7", "true", "false", "abc", "'a b'", "[1, 2, 3]", "[1.5, -2]", "[x, yy]", "0"}; return w[I(0, 11)]; }
static T gen(int d) { T t; if (d == 0 || I(0, 3) == 0) { t.map = false; t.v = scalar(); return t; } for (int k = I(0, 3); k > 0; k--) t.c[names[I(0, 4)]] = gen(d - 1); return t; }
static std::string text(const T &t) { if (!t.map) return t.v; std::string s = "{"; for (auto &x : t.c) s += (s.size() > 1 ? ", " : "") + x.first + ": " + text(x.second); return s + "}"; }
static void paths(const T &t, const std::string &p, std::map<std::string, const T *> &out) { for (auto &x : t.c) { std::string q = p.empty() ? x.first : p + "/" + x.first; out[q] = &x.second; paths(x.second, q, out); } }
// the tree that a node holds, as text with sorted keys
static std::string dump(const YAML::Node &n)
{
   if (!n.IsDefined()) return "(absent)"; if (n.IsNull()) return "~"; if (n.IsScalar()) return n.Scalar();
   std::string s; if (n.IsSequence()) { for (auto it = n.begin(); it != n.end(); ++it) s += (s.empty() ? "" : ", ") + dump(*it); return "[" + s + "]"; }
   std::map<std::string, std::string> m; for (auto it = n.begin(); it != n.end(); ++it) m[it->first.Scalar()] = dump(it->second); for (auto &x : m) s += (s.empty() ? "" : ", ") + x.first + ": " + x.second; return "{" + s + "}";
}
static std::string want(const T &t) { return dump(YAML::Load(text(t))); }
static void put(T &t, const std::string &k, const std::string &v) { size_t i = k.find('/'); if (i == std::string::npos) { T l; l.map = false; l.v = v; t.c[k] = l; return; } T &n = t.c[k.substr(0, i)]; put(n, k.substr(i + 1), v); }
static bool settable(const T &t, const std::string &k) { size_t i = k.find('/'); if (!t.map) return false; if (i == std::string::npos) return true; auto f = t.c.find(k.substr(0, i)); return f == t.c.end() || settable(f->second, k.substr(i + 1)); }
static std::string rkey() { std::string s = names[I(0, 4)]; for (int k = I(0, 2); k > 0; k--) s += std::string("/") + names[I(0, 4)]; return s; }
template <class F> static std::string safely(F f) { try { return f(); } catch (std::exception &e) { return std::string("exception ") + e.what(); } }
// exit status of f in a child process
static int status(std::function<void()> f) { fflush(stdout); pid_t p = fork(); if (!p) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); try { f(); } catch (...) { _exit(77); } _exit(0); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000; }
static void lookups()
{
   for (int it = 0; it < reps(250); it++)
   {
      T t = gen(3); t.map = true; t.v = ""; std::string txt = text(t); InputParser ps; ps.dict_ = YAML::Load(txt); std::map<std::string, const T *> pp; paths(t, "", pp); std::string w0 = want(t);
      for (int k = 0; k < 12; k++)
      {
         std::string key = rkey(); if (!pp.empty() && B()) { auto i = pp.begin(); std::advance(i, I(0, pp.size() - 1)); key = i->first; if (I(0, 3) == 0) key += std::string("/") + names[I(0, 4)]; }
         casef("configuration " + txt + " key " + key); bool has = pp.count(key);
         std::string g = safely([&]() { YAML::Node n = ps.FindNode(key); return dump(n); }), w = has ? want(*pp[key]) : "(absent)"; if (g != w) fail("look-up gives " + g + ", specified " + w);
         if (dump(ps.dict_) != w0) { fail("look-up changed the configuration to " + dump(ps.dict_)); ps.dict_ = YAML::Load(txt); }
         if (!has)
         {
            expect(safely([&]() { return ps.GetOption<std::string>(key, "fb"); }) == "fb", "default (string)"); expect(safely([&]() { return fmt("%d", ps.GetOption<int>(key, -9)); }) == "-9", "default (int)"); expect(safely([&]() { return fmt("%g", ps.GetOptionFromDict<double>(key, 0.25, ps.dict_)); }) == "0.25", "default (double)");
            expect(safely([&]() { std::vector<std::string> f{"q"}; return ps.GetOption<std::vector<std::string>>(key, f)[0]; }) == "q", "default (list)"); if (dump(ps.dict_) != w0) { fail("look-up with a default changed the configuration to " + dump(ps.dict_)); ps.dict_ = YAML::Load(txt); }
            if (k < 2) { int s = status([&]() { ps.GetRequiredOption<std::string>(key); }); if (s == 0) fail("a required option that is absent does not terminate the program"); if (s == 77) fail("a required option that is absent is not reported"); }
         }
         else if (!pp[key]->map)
         {
            std::string v = pp[key]->v; if (v[0] == '\'') v = v.substr(1, v.size() - 2);
            if (v[0] == '[') { if (v == "[1, 2, 3]") expect(safely([&]() { Array<int> a = ps.GetRequiredOption<Array<int>>(key); return s(a); }) == "[1,2,3]", "integer list"); if (v == "[1.5, -2]") expect(safely([&]() { Vector f(1), a = ps.GetOption<Vector>(key, f); return s(a); }) == "[1.5,-2]", "vector"); if (v == "[x, yy]") expect(safely([&]() { auto a = ps.GetRequiredOptionFromDict<std::vector<std::string>>(key, ps.dict_); return fmt("%d", (int)a.size()) + a[0] + a[1]; }) == "2xyy", "list of strings"); }
            else { expect(safely([&]() { return ps.GetRequiredOption<std::string>(key); }) == v, "stored value"); expect(safely([&]() { return ps.GetOption<std::string>(key, "fb"); }) == v, "stored value, with default"); if (v == "true" || v == "false") expect(safely([&]() { return ps.GetOption<bool>(key, v == "false") ? "true" : "false"; }) == v, "stored boolean"); if (v == "-17") expect(safely([&]() { return fmt("%d", ps.GetRequiredOption<int>(key)); }) == v, "stored integer"); if (v == "1.0e-7") expect(safely([&]() { return fmt("%d", ps.GetOption<double>(key, 3.) == 1.0e-7); }) == "1", "stored real"); }
         }
         if (dump(ps.dict_) != w0) { fail("reading changed the configuration to " + dump(ps.dict_)); ps.dict_ = YAML::Load(txt); }
      }
   }
}
static void settings()
{
   for (int it = 0; it < reps(250); it++)
   {
      T t = gen(3); t.map = true; t.v = ""; std::string txt = text(t), h; InputParser ps; ps.dict_ = YAML::Load(txt); T all = t;
      for (int k = 0; k < 8; k++)
      {
         std::string key = rkey(); if (!settable(t, key)) continue; int kind = I(0, 4); int iv = I(-50, 50); double dv = D(); bool bv = B(); std::string v, e = kind < 3 ? "" : "s" + std::to_string(iv); Array<int> av; for (int q = I(0, 3); q > 0; q--) av.Append(I(-9, 9));
         if (kind == 0) v = std::to_string(iv); else if (kind == 1) v = fmt("%.17g", dv); else if (kind == 2) v = bv ? "true" : "false"; else if (kind == 3) v = e; else { v = "["; for (int q = 0; q < av.Size(); q++) v += (q ? ", " : "") + std::to_string(av[q]); v += "]"; }
         h += " " + key + "=" + v; casef("configuration " + txt + " set" + h);
         std::string r = safely([&]() { if (kind == 0) ps.SetOption<int>(key, iv); else if (kind == 1) ps.SetOption<double>(key, dv); else if (kind == 2) ps.SetOption<bool>(key, bv); else if (kind == 3) ps.SetOptionInDict<std::string>(key, e, ps.dict_); else ps.SetOption<Array<int>>(key, av); return std::string("ok"); });
         if (r != "ok") { fail("setting: " + r); break; } put(t, key, v);
         if (kind == 0) expect(ps.GetRequiredOption<int>(key) == iv, "set and read an integer"); if (kind == 1) { double g = ps.GetRequiredOption<double>(key); if (g != dv) fail(fmt("set and read a real: got %.17g, specified %.17g", g, dv)); v = ps.GetRequiredOption<std::string>(key); put(t, key, v); } if (kind == 2) expect(ps.GetOption<bool>(key, !bv) == bv, "set and read a boolean"); if (kind == 3) expect(ps.GetRequiredOption<std::string>(key) == e, "set and read a string"); if (kind == 4) expect(safely([&]() { return s(ps.GetRequiredOption<Array<int>>(key)); }) == s(av), "set and read a list");
         if (it % 40 == 0) { InputParser p2; Vector v(I(0, 3)), f(2); for (int q = 0; q < v.Size(); q++) v(q) = I(-9, 9); std::vector<std::string> w; for (int q = I(0, 3); q > 0; q--) w.push_back("w" + std::to_string(q)); f = -1.0;
            std::string g = safely([&]() { p2.SetOption<Vector>("a/b", v); p2.SetOption<std::vector<std::string>>("a/c", w); return s(p2.GetOption<Vector>("a/b", f)); }); if (g != s(v)) fail("set and read a vector: got " + g + ", specified " + s(v)); expect(safely([&]() { return std::string(p2.GetRequiredOption<std::vector<std::string>>("a/c") == w ? "same" : "different"); }) == "same", "set and read a list of strings"); }
         if (dump(ps.dict_) != want(t)) { fail("configuration is " + dump(ps.dict_) + ", specified " + want(t)); break; }
      }
   }
}
// a run on several processes: process 0 reads the file and broadcasts, the others receive (they have no file)
static int frank = -1; static std::vector<std::string> sent; static size_t got = 0;
extern "C" int MPI_Initialized(int *f) { *f = frank >= 0; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm, int *r) { *r = frank; return 0; }
extern "C" int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) { size_t k = (size_t)n * (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT ? 4 : t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_DOUBLE ? 8 : 1); if (frank == root) sent.push_back(std::string((char *)b, k)); else { if (got >= sent.size()) { fail("a process waits for a broadcast that is not sent"); return 0; } std::string &m = sent[got++]; if (k < m.size()) fail("a process receives less than is sent"); memcpy(b, m.data(), std::min(k, m.size())); } return 0; }
static void parallel(const std::string &f, const std::string &w)
{
   frank = 0; sent.clear(); got = 0; std::string a = safely([&]() { InputParser p("cfg.yml", f); return dump(p.dict_); }); if (a != w) fail("configuration of process 0 is " + a + ", specified " + w);
   remove("cfg.yml"); frank = I(1, 3); a = safely([&]() { InputParser p("cfg.yml", f); return dump(p.dict_); }); if (a != w) fail("configuration of process " + std::to_string(frank) + " is " + a + ", specified " + w); frank = -1;
}
static void overrides()
{
   for (int it = 0; it < reps(150); it++)
   {
      T t = gen(2); t.map = true; t.v = ""; if (t.c.empty()) put(t, "z", "1"); std::string txt = text(t), f; { std::ofstream o("cfg.yml"); o << txt << "\n"; } 
      for (int k = I(0, 4); k > 0; k--) { std::string key = rkey(), v = scalar(); if (!settable(t, key) || v.find(':') != std::string::npos) continue; f += (f.empty() ? "" : ":") + key + "=" + v; put(t, key, v); }
      casef("file " + txt + " override '" + f + "'"); std::string g = safely([&]() { InputParser p("cfg.yml", f); return dump(p.dict_); }); if (g != want(t)) fail("configuration is " + g + ", specified " + want(t));
      parallel(f, want(t));
   }
   { std::ofstream o("cfg.yml"); o << "{a: 1, b: {c: 2}}\n"; }
   for (const char *f : {"a", "a=1=2", "a=", "a=3:b", "=", "b/c=1:x=1=1"}) { casef(std::string("override ") + f); int s = status([&]() { InputParser p("cfg.yml", f); }); if (s == 0) fail("an override that is not key=value is accepted"); }
}
static void search()
{
   for (int it = 0; it < reps(200); it++)
   {
      int n = I(0, 5); std::string txt = "["; std::vector<std::map<std::string, std::string>> es; static const char *vs[] = {"p", "q", "r"};
      for (int k = 0; k < n; k++) { std::map<std::string, std::string> m; if (I(0, 4)) m["name"] = vs[I(0, 2)]; if (I(0, 2)) m["val"] = std::to_string(I(0, 9)); if (I(0, 2)) m["id"] = std::to_string(I(0, 2)); es.push_back(m); txt += k ? ", {" : "{"; bool first = true; for (auto &x : m) { txt += (first ? "" : ", ") + x.first + ": " + x.second; first = false; } if (m.empty()) txt += "o: 1"; txt += "}"; }
      txt += "]"; InputParser ps; ps.dict_ = YAML::Load("{list: " + txt + "}"); YAML::Node L = ps.FindNode("list"); std::string w0 = dump(ps.dict_), q = vs[I(0, 2)]; int id = I(0, 2); casef("list " + txt + " name=" + q + fmt(" id=%d", id));
      int w = -1, wi = -1; for (int k = n - 1; k >= 0; k--) { if (es[k].count("name") && es[k]["name"] == q) w = k; if (es[k].count("id") && es[k]["id"] == std::to_string(id)) wi = k; }
      std::string g = safely([&]() { return dump(ps.LookUpFromDict<std::string>("name", q, L)); }), e = w < 0 ? "(absent)" : dump(YAML::Load(txt)[w]); if (g != e) fail("entry " + g + ", specified " + e);
      g = safely([&]() { return dump(ps.LookUpFromDict<int>("id", id, L)); }); e = wi < 0 ? "(absent)" : dump(YAML::Load(txt)[wi]); if (g != e) fail("entry " + g + ", specified " + e);
      g = safely([&]() { int r = ps.LookUpFromDict<std::string, int>("name", q, "val", -4, L); return std::to_string(r); }); e = w < 0 || !es[w].count("val") ? "-4" : es[w]["val"]; if (g != e) fail("value " + g + ", specified " + e);
      if (dump(ps.dict_) != w0) fail("look-up changed the configuration to " + dump(ps.dict_));
   }
}
int main() { lookups(); settings(); overrides(); search(); return done(); }
