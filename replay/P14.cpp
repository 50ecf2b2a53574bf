// SRC: parameter etc input_parser
#include "parameter.hpp"
#include "etc.hpp"
#include "vr.hpp"
using namespace mfem; using namespace vr;
static YAML::Node leaf(YAML::Node d, const std::string &k) { std::istringstream is(k); std::vector<YAML::Node> v{d}; for (std::string s; std::getline(is, s, '/');) { YAML::Node n = v.back()[s]; v.push_back(n); } return v.back(); }
// the configuration without the option k, as text
static std::string others(YAML::Node d, const std::string &k)
{
   YAML::Node c = YAML::Clone(d); std::string p = k, last; size_t i = k.rfind('/'); YAML::Node par = c; if (i == std::string::npos) last = k; else { par = leaf(c, k.substr(0, i)); last = k.substr(i + 1); } par.remove(last); std::ostringstream o; o << c; return o.str();
}
int main()
{
   const char *keys[] = {"nu", "single_run/mu", "a/b/c", "mesh/filename", "a/b/e"}; const char *fm[] = {"f%d.h5", "mesh.%06d.vtk", "%d", "dir/x%3d_y"};
   for (int it = 0; it < reps(400); it++)
   {
      InputParser ps, other; ps.dict_ = YAML::Load("{nu: 1, single_run: {mu: -3, q: [1, 2, 3]}, a: {b: {c: old, d: 5}, e: x}, mesh: {filename: m.vtk, ref: 2}}"); other.dict_ = YAML::Clone(ps.dict_); std::string o0 = (std::ostringstream() << other.dict_).str();
      std::string key = keys[I(0, 4)]; int kind = I(0, 2); YAML::Node opt; bool lg = false; double lo = 0, hi = 0; int il = 0, ih = 0; std::string f;
      if (kind == 0) { lo = D(-5., 5.); hi = lo + (I(0, 5) ? D(0., 10.) : 0.); int m = I(0, 2); lg = m == 2; if (lg) { lo = std::exp(D(-8., 3.)); hi = lo * (I(0, 5) ? std::exp(D(0., 12.)) : 1.); } opt["minimum"] = lo; opt["maximum"] = hi; if (m) opt["log_scale"] = lg; lo = opt["minimum"].as<double>(); hi = opt["maximum"].as<double>(); }
      else { il = I(-20, 20); ih = il + I(0, 30); if (kind == 2) { il = std::abs(il); ih = il + I(0, 30); } opt["minimum"] = il; opt["maximum"] = ih; if (kind == 2) { f = fm[I(0, 3)]; opt["format"] = f; } opt["log_scale"] = true; }
      opt["extra"] = 3; int size = I(0, 4) ? I(1, 12) : 1; std::string what = fmt("it=%d %s key=%s min=%.17g max=%.17g log=%d size=%d fmt=%s", it, kind == 0 ? "double" : kind == 1 ? "integer" : "filename", key.c_str(), kind ? il : lo, kind ? ih : hi, (int)lg, size, f.c_str()); casef(what);
      Parameter *p = kind == 0 ? (Parameter *) new DoubleParam(key, opt) : kind == 1 ? (Parameter *) new IntegerParam(key, opt) : (Parameter *) new FilenameParam(key, opt);
      expect(p->GetKey() == key, "key"); p->SetSize(size); expect(p->GetSize() == size, "size"); std::string rest = others(ps.dict_, key);
      auto text = [&](int i) { char b[200]; snprintf(b, 200, f.c_str(), i); return std::string(b); };
      int d = kind ? (ih - il) / (size == 1 ? 1 : size - 1) : 0;
      std::vector<int> ord; for (int i = 0; i < size; i++) ord.push_back(i); for (int i = size - 1; i > 0; i--) std::swap(ord[i], ord[I(0, i)]);
      for (int i : ord)
      {
         casef(what + fmt(" index=%d", i)); p->SetParam(i, ps); YAML::Node n = leaf(ps.dict_, key);
         if (kind == 0) { double w = size == 1 ? lo : lg ? lo * std::exp(std::log(hi / lo) * i / (size - 1)) : lo + i * (hi - lo) / (size - 1), g = n.as<double>(); if (!(std::fabs(g - w) <= 1e-9 * (lg ? w : std::fabs(lo) + std::fabs(hi)))) fail(fmt("sample %d of %d: got %.15g, specified %.15g", i, size, g, w)); }
         else if (kind == 1) { int g = n.as<int>(); if (g != il + i * d) fail(fmt("sample %d of %d: got %d, specified %d", i, size, g, il + i * d)); expect(g >= il && g <= ih, "range"); }
         else { std::string g = n.as<std::string>(); if (g != text(il + i * d)) fail(fmt("sample %d of %d: got %s, specified %s", i, size, g.c_str(), text(il + i * d).c_str())); }
         if (others(ps.dict_, key) != rest) fail("another option was changed");
      }
      std::set<std::string> seen;
      for (int r = 0; r < (kind ? 60 : 12); r++)
      {
         casef(what + " random"); if (B()) { YAML::Node old = leaf(ps.dict_, key); old = -1000000; } p->SetRandomParam(ps); YAML::Node n = leaf(ps.dict_, key);
         if (kind == 0) { double g = n.as<double>(); if (!(g >= lo - 1e-9 * std::fabs(lo) && g <= hi + 1e-9 * std::fabs(hi))) fail(fmt("random value %.15g outside [%.15g, %.15g]", g, lo, hi)); }
         else if (kind == 1) { int g = n.as<int>(); if (g < il || g > ih) fail(fmt("random value %d outside [%d, %d]", g, il, ih)); }
         else { std::string g = n.as<std::string>(); bool in = false; for (int i = il; i <= ih; i++) if (g == text(i)) in = true; expect(in, "random file name " + g + " is not in the range"); }
         if (others(ps.dict_, key) != rest) fail("another option was changed");
      }
      expect((std::ostringstream() << other.dict_).str() == o0, "another parser was changed");
      if (kind == 2) { std::vector<std::string> v(I(0, 2), "kept"), w; size_t n0 = v.size(); ((FilenameParam *) p)->ParseFilenames(v); w.assign(n0, "kept"); for (int i = il; i <= ih; i++) w.push_back(text(i)); expect(v == w, "list of file names"); }
      delete p;
   }
   for (int it = 0; it < reps(50); it++) { int lo = I(-5, 5), hi = lo + I(0, 4); casef(fmt("UniformRandom(%d,%d)", lo, hi)); for (int k = 0; k < 40; k++) { int r = UniformRandom(lo, hi); if (r < lo || r > hi) fail(fmt("random integer %d", r)); double x = UniformRandom(); if (!(x >= 0. && x <= 1.)) fail(fmt("random real %g", x)); } }
   return done();
}
