// SRC: parameterized_problem input_parser etc
#include "parameterized_problem.hpp"
#include "vr.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace mfem; using namespace vr; using namespace function_factory;
typedef std::function<double *()> Q; typedef std::vector<std::pair<std::string, Q>> Names;
namespace function_factory { namespace linelast_disp { void init_disp_lcantilever(const Vector &, double, Vector &); } }
static Q q(double &x) { return [&x] { return &x; }; }
static Q q(Vector &v, int i) { return [&v, i] { return v.GetData() + i; }; }
static Q q(DenseMatrix &m, int i, int j) { return [&m, i, j] { return &m(i, j); }; }
struct Spec { Names p; std::vector<double> def; std::vector<int> attr; std::string types; void add(const std::string &n, Q x, double d) { p.push_back({n, x}); def.push_back(d); } };
static Spec spec(const std::string &n)
{
   Spec s; auto five = [&] { s.attr = {1, 2, 3, 4, 5}; };
   auto lame = [&](double l, double m) { s.add("lambda", q(linelast_problem::_lambda), l); s.add("mu", q(linelast_problem::_mu), m); };
   if (n == "poisson0") { s.add("k", q(poisson0::k), 1); s.add("offset", q(poisson0::offset), 0); s.attr = {-1}; s.types = "Z"; }
   if (n == "poisson_component") { using namespace poisson_component; for (int d = 0; d < 3; d++) { s.add(fmt("k%d", d), q(poisson_component::k, d), 0); s.add(fmt("bdr_k%d", d), q(bdr_k, d), 0); } s.add("offset", q(poisson_component::offset), 0.1); s.add("bdr_offset", q(bdr_offset), 0); s.add("bdr_idx", q(bdr_idx), -1); s.attr = {-1}; s.types = "D"; }
   if (n == "poisson_spiral") { using namespace poisson_spiral; s.add("L", q(L), 1); s.add("Lw", q(Lw), 0.2); s.add("k", q(poisson_spiral::k), 1); s.add("s", q(poisson_spiral::s), 0.6); s.attr = {-1}; s.types = "Z"; }
   if (n == "channel_flow") { using namespace flow_problem; s.add("nu", q(nu), 1); s.add("L", q(channel_flow::L), 1); s.add("U", q(channel_flow::U), 1); s.add("x0", q(channel_flow::x0), 0.5); five(); s.types = "ZNZDZ"; }
   if (n == "component_flow" || n == "flow_past_array" || n == "advdiff_flow_past_array")
   {
      using namespace flow_problem::component_flow; s.add("nu", q(flow_problem::nu), 1); const char *x[] = {"x", "y", "z"}, *w[] = {"u", "v", "w"};
      for (int i = 0; i < 3; i++) { s.add(std::string("u0_") + x[i], q(u0, i), 0); s.add(std::string("du_") + x[i], q(du, i), 1); s.add(std::string("offsets_") + x[i], q(offsets, i), 0); for (int j = 0; j < 3; j++) s.add(std::string("k_") + w[i] + "_" + x[j], q(flow_problem::component_flow::k, j, i), 1); }
      five(); s.types = "DDDDZ"; if (n[0] == 'a') { using namespace advdiff_problem::advdiff_flow_past_array; s.types = "DDDDN"; s.add("q0", q(q0), 1); s.add("dq", q(dq), 0.1); s.add("qoffset", q(qoffset), 0); for (int i = 0; i < 3; i++) s.add(std::string("qk_") + x[i], q(qk, i), 0); }
   }
   if (n == "backward_facing_step") { using namespace flow_problem::backward_facing_step; s.add("nu", q(flow_problem::nu), 1); s.add("y0", q(flow_problem::backward_facing_step::y0), 0); s.add("y1", q(flow_problem::backward_facing_step::y1), 1); s.add("u0", q(u0), 1); for (int m = 0; m < 2; m++) { s.add(fmt("amp%d", m), q(amp, m), 0); s.add(fmt("ky%d", m), q(ky, m), 0); s.add(fmt("freq%d", m), q(freq, m), 0); s.add(fmt("t_offset%d", m), q(t_offset, m), 0); } s.attr = {1, 2, 3}; s.types = "DZN"; }
   if (n == "lid_driven_cavity") { s.add("nu", q(flow_problem::nu), 1); s.add("u0", q(flow_problem::lid_driven_cavity::u0), 1); s.add("L", q(flow_problem::lid_driven_cavity::L), 1); five(); s.types = "?ZDZZ"; }
   if (n == "periodic_flow_past_array" || n == "force_driven_corner") { s.add("nu", q(flow_problem::nu), 1); const char *x[] = {"fx", "fy", "fz"}; for (int i = 0; i < 3; i++) s.add(x[i], q(flow_problem::periodic_flow_past_array::f, i), 0); if (n[0] == 'p') { s.attr = {5}; s.types = "Z"; } else { five(); s.types = "ZZNNZ"; } }
   if (n.find("linelast_disp") == 0) { s.add("rdisp_f", q(linelast_disp::rdisp_f), 1); lame(1, 1); if (n == "linelast_disp_lattice") { five(); s.types = "NDNDN"; } else { s.attr = {1, 2, 3}; s.types = n == "linelast_disp" ? "DDZ" : "DDN"; } }
   if (n == "linelast_force_cantilever") { s.add("rforce_f", q(linelast_force::rforce_f), 1); lame(1, 1); five(); s.types = "NNNDN"; }
   if (n == "linelast_frame_wind") { using namespace linelast_frame_wind; lame(3846153846., 769230769.); s.add("qwind_f", q(qwind_f), 500); s.add("density", q(density), 78.5); s.add("g", q(linelast_frame_wind::g), 9.81); five(); s.types = "NNNDN"; }
   if (n == "linelast_cwtrain")
   {
      using namespace linelast_cwtrain; lame(1, 1); five(); s.types = "NNNDN";
#define A(x, d) s.add(#x, q(linelast_cwtrain::x), d);
      A(l_ux, 0) A(l_uy, 0) A(r_fx, 0) A(r_fy, 0) A(u_fx, 0) A(u_fy, 0) A(d_fx, 0) A(d_fy, 0) A(b_fx, 0) A(b_fy, 0) A(lx, 0) A(ly, 0) A(rx, 0) A(ry, 0) A(dx, 0) A(dy, 0) A(ux, 0) A(uy, 0) A(bx, 0) A(by, 0)
#define W(x) A(x##_amp, 1) A(x##_freq, 1) A(x##_offset, 0)
      W(xu) W(xf) W(yu) W(yf) W(bxf) W(byf)
   }
   return s;
}
static const double PI = 3.14159265358979323846;
// value of the parameter with this name
static double val(const Spec &s, const std::string &n) { for (auto &p : s.p) if (p.first == n) return *p.second(); fail("no parameter " + n); return 0; }
static double dot(const Vector &a, const Vector &x) { double r = 0; for (int i = 0; i < x.Size(); i++) r += a(i) * x(i); return r; }
static void fields(const std::string &n, const Spec &s, ParameterizedProblem *p, int dim)
{
   Vector x(dim); for (int i = 0; i < dim; i++) x(i) = D(-2., 2.); double t = D(0., 3.); auto v = [&](const std::string &k) { return val(s, k); };
   auto sc = [&](GeneralScalarFunction *f, double want, const std::string &d) { if (!f) { fail(d + ": no field"); return; } eq(f(x, t), want, d); };
   auto vec = [&](GeneralVectorFunction *f, const Vector &want, const std::string &d, bool sized) { if (!f) { fail(d + ": no field"); return; } Vector y(sized ? want.Size() : I(0, 5)); for (int i = 0; i < y.Size(); i++) y(i) = D(5., 9.); Vector x1(x); f(x, t, y); veq(y, want, d); veq(x, x1, d + ": the point"); };
   std::string at = fmt(" at %s t=%g", vr::s(x).c_str(), t); Vector w(dim); w = 0.;
   auto comp = [&](const std::string &k) { Vector r(3); const char *c[] = {"x", "y", "z"}; for (int i = 0; i < 3; i++) r(i) = v(k + c[i]); return r; };
   if (n == "poisson0") { double m = 0; for (int i = 0; i < dim; i++) m += x(i); sc(p->scalar_rhs_ptr, sin(2 * PI * (v("k") * m + v("offset"))), "right-hand side" + at); expect(!p->scalar_bdr_ptr[0], "zero boundary"); }
   if (n == "poisson_component") { Vector k(3), b(3); for (int i = 0; i < 3; i++) { k(i) = v(fmt("k%d", i)); b(i) = v(fmt("bdr_k%d", i)); } sc(p->scalar_rhs_ptr, sin(2 * PI * (dot(k, x) + v("offset"))), "right-hand side" + at); sc(p->scalar_bdr_ptr[0], sin(2 * PI * (dot(b, x) + v("bdr_offset"))), "boundary" + at); }
   if (n == "poisson_spiral" && dim > 1) { double h = 0.5 * v("L"), r = 0; for (int i = 0; i < dim; i++) r += (x(i) - h) * (x(i) - h); r = sqrt(r); double th = atan2(x(1) - h, x(0) - h); if (th < 0) th += 2 * PI; double d = 1e300; for (int a = -1; a < 2; a++) d = std::min(d, std::fabs(r - v("s") * v("L") / 4 / PI * (th + 2 * PI * a))); sc(p->scalar_rhs_ptr, exp(-0.5 * d * d / v("Lw") / v("Lw")) * cos(2 * PI * v("k") * d), "right-hand side" + at); }
   if (n == "channel_flow" && dim > 1) { double c = (x(1) - v("x0")) / v("L"); w(0) = v("U") * (1 - 4 * c * c); for (int b = 0; b < 5; b++) vec(p->vector_bdr_ptr[b], w, "boundary velocity" + at, false); }
   if (n == "lid_driven_cavity") { w(0) = 4 * v("u0") * x(0) * (v("L") - x(0)) / v("L") / v("L"); for (int b = 0; b < 5; b++) vec(p->vector_bdr_ptr[b], w, "boundary velocity" + at, false); }
   if (n == "component_flow" || n == "flow_past_array")
   {
      flow_problem::del_u = D(); flow_problem::x0.SetSize(dim); rnd(flow_problem::x0); Vector u0 = comp("u0_"), du = comp("du_"), off = comp("offsets_"); const char *c[] = {"u", "v", "w"};
      for (int i = 0; i < dim; i++) { Vector k = comp(std::string("k_") + c[i] + "_"); w(i) = u0(i) + du(i) * sin(2 * PI * (dot(k, x) - off(i))) - flow_problem::del_u * (x(i) - flow_problem::x0(i)); }
      for (int b = 0; b < 5; b++) vec(p->vector_bdr_ptr[b], w, "boundary velocity" + at, false);
   }
   if (n == "advdiff_flow_past_array") { for (int b = 0; b < 5; b++) sc(p->scalar_bdr_ptr[b], v("q0") + v("dq") * sin(2 * PI * (dot(comp("qk_"), x) + v("qoffset"))), "boundary concentration" + at); }
   if (n == "backward_facing_step" && dim > 1)
   {
      double g = v("y1") - v("y0"), y = x(1), pr = 4 * v("u0") * (y - v("y0")) * (v("y1") - y) / g / g; w(0) = pr; for (int m = 0; m < 2; m++) w(1) += v(fmt("amp%d", m)) * sin(PI * v(fmt("ky%d", m)) * (y - v("y0")) / g) * sin(2 * PI * (v(fmt("freq%d", m)) * t + v(fmt("t_offset%d", m))));
      for (int b = 0; b < 3; b++) vec(p->vector_bdr_ptr[b], w, "boundary velocity" + at, false); w = 0.; w(0) = y < v("y0") ? 0. : pr; vec(p->ic_ptr[0], w, "initial velocity" + at, false); Vector z(1); z = 0.; vec(p->ic_ptr[1], z, "initial pressure" + at, false);
   }
   if (n == "periodic_flow_past_array" || n == "force_driven_corner") { const char *c[] = {"fx", "fy", "fz"}; for (int i = 0; i < dim; i++) w(i) = v(c[i]); vec(p->vector_rhs_ptr, w, "force" + at, false); }
   if (n.find("linelast") == 0 && dim > 1)
   {
      sc(p->general_scalar_ptr[0], v("lambda"), "lambda"); sc(p->general_scalar_ptr[1], v("mu"), "mu"); auto is = [&](int b, const std::string &d) { vec(p->vector_bdr_ptr[b], w, d + at, true); w = 0.; };
      if (n == "linelast_disp") for (int b = 0; b < 2; b++) { w(dim - 1) = -0.2 * x(0) * v("rdisp_f"); is(b, "displacement"); }
      if (n == "linelast_disp_lattice") for (int b = 1; b < 4; b += 2) { w(dim - 1) = -0.2 * x(0) * v("rdisp_f"); is(b, "displacement"); }
      if (n == "linelast_disp_lcantilever") for (int b = 0; b < 2; b++) { w(dim - 1) = -0.2 * (x(dim - 1) - 5) * v("rdisp_f"); is(b, "displacement"); }
      if (n == "linelast_force_cantilever") { w(dim - 1) = -0.01 * v("rforce_f"); is(1, "tip force"); }
      if (n == "linelast_frame_wind") { w(0) = v("qwind_f"); is(0, "wind"); is(3, "clamped side"); w(dim - 1) = -v("density") * v("g"); vec(p->vector_rhs_ptr, w, "weight" + at, true); }
      if (n == "linelast_cwtrain")
      {
         auto load = [&](const std::string &on, const std::string &c, const std::string &k) { for (int i = 0; i < 2; i++) { std::string a(1, "xy"[i]), b = k == "b" ? "b" + a + "f" : a + k; w(i) = v(on + a) >= 0.5 ? v(c + a) + v(b + "_amp") * sin(PI * v(b + "_freq") * (x(i) / 3 + 2 * v(b + "_offset"))) : 0.; } };
         load("d", "d_f", "f"); is(0, "lower side"); load("r", "r_f", "f"); is(1, "right side"); load("u", "u_f", "f"); is(2, "upper side"); load("l", "l_u", "u"); is(3, "left side"); load("b", "b_f", "b"); vec(p->general_vector_ptr[0], w, "body force" + at, true);
      }
   }
}
static bool ends(std::function<void()> f)
{
   fflush(stdout); pid_t c = fork(); if (!c) { if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(0); f(); _exit(0); }
   int st = 0; waitpid(c, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
int main()
{
   const char *names[] = {"poisson0", "poisson_component", "poisson_spiral", "channel_flow", "component_flow", "flow_past_array", "backward_facing_step", "lid_driven_cavity", "force_driven_corner", "periodic_flow_past_array", "linelast_disp", "linelast_disp_lcantilever", "linelast_disp_lattice", "linelast_force_cantilever", "linelast_cwtrain", "linelast_frame_wind", "advdiff_flow_past_array"};
   for (int it = 0; it < reps(6); it++) for (std::string n : names)
   {
      casef(fmt("it=%d problem %s", it, n.c_str())); config.dict_ = YAML::Load("{parameterized_problem: {name: " + n + "}}"); ParameterizedProblem *p = InitParameterizedProblem(); Spec s = spec(n); int np = s.p.size();
      expect(p->GetProblemName() == n, "name"); if (p->GetNumParams() != np) fail(fmt("number of parameters %d, specified %d", p->GetNumParams(), np));
      for (int k = 0; k < np; k++) eq(*s.p[k].second(), s.def[k], "default value of " + s.p[k].first);
      expect(p->battr.Size() == (int)s.attr.size() && p->bdr_type.Size() == (int)s.attr.size(), "number of boundaries"); for (size_t b = 0; b < s.attr.size() && (int)b < p->battr.Size() && (int)b < p->bdr_type.Size(); b++) { if (p->battr[b] != s.attr[b]) fail(fmt("boundary attribute %d is listed as %d", s.attr[b], p->battr[b])); if (s.types[b] != '?' && (int)p->bdr_type[b] != (int)std::string("ZDN").find(s.types[b])) fail(fmt("type %d of boundary attribute %d, specified %c", (int)p->bdr_type[b], s.attr[b], s.types[b])); }
      if (ends([&] { p->SetParams("no_such_parameter", 1.0); }) == false) fail("an unknown name is accepted");
      auto sides = [&](const std::string &how)
      {
         if (n == "poisson_component") { double b = val(s, "bdr_idx"); int w = b < 0 ? -1 : 1 + (int)std::floor(b); if (p->battr.Size() != 1 || p->battr[0] != w) fail(how + fmt(": boundary index %g selects %d", b, p->battr.Size() ? p->battr[0] : -9)); }
         if (n == "flow_past_array" || n[0] == 'a')
         {
            auto chk = [&](Array<BoundaryType> &t, const std::string &d) { double u = val(s, "u0_x"), w = val(s, "u0_y"); auto D_ = BoundaryType::DIRICHLET, N_ = BoundaryType::NEUMANN; if (t[3] != (u > 0 ? D_ : N_) || t[1] != (u > 0 ? N_ : D_) || t[0] != (w > 0 ? D_ : N_) || t[2] != (w > 0 ? N_ : D_)) fail(how + d + fmt(": mean velocity (%g,%g): types %d %d %d %d", u, w, (int)t[0], (int)t[1], (int)t[2], (int)t[3])); };
            chk(p->bdr_type, ""); if (n[0] == 'a') chk(advdiff_problem::flow_problem->bdr_type, " (flow problem)");
         }
      };
      auto draw = [&](const std::string &k) { if (k == "bdr_idx") return (double)I(-1, 3) + (I(0, 1) ? 0. : D(0., 0.9) * 1.0); if (k.size() == 2 && n == "linelast_cwtrain" && k != "mu") return I(0, 3) ? (double)I(0, 1) : D(0., 1.); if (k.substr(0, 3) == "amp" && I(0, 2) == 0) return 0.; if (k.substr(0, 2) == "u0" && I(0, 3) == 0) return 0.; double d = D(-2., 2.); return d < 0 ? d - 0.1 : d + 0.1; };
      for (int r = 0; r < 12; r++)
      {
         std::vector<double> v(np); for (int k = 0; k < np; k++) v[k] = *s.p[k].second(); int how = I(0, 2); std::vector<int> ch; for (int k = 0; k < np; k++) if (I(0, 2) || np == 1) ch.push_back(k); for (int k = (int)ch.size() - 1; k > 0; k--) std::swap(ch[k], ch[I(0, k)]); if (ch.empty()) ch.push_back(I(0, np - 1));
         std::string what = fmt("it=%d problem %s, %s:", it, n.c_str(), how == 0 ? "by name" : how == 1 ? "by index" : "single run"); YAML::Node list; Array<int> ix; Vector vs(ch.size()); int c = 0;
         for (int k : ch) { v[k] = draw(s.p[k].first); what += fmt(" %s=%.6g", s.p[k].first.c_str(), v[k]); }
         casef(what);
         for (int k : ch) { const std::string &nm = s.p[k].first; if (how == 0) p->SetParams(nm, v[k]); else if (how == 1) { ix.Append(p->GetParamIndex(nm)); vs(c++) = v[k]; } else list[nm] = fmt("%.17g", v[k]); }
         if (how == 1) p->SetParams(ix, vs); if (how == 2) { config.dict_["single_run"][n] = list; p->SetSingleRun(); }
         for (int k = 0; k < np; k++) if (*s.p[k].second() != v[k]) fail(fmt("quantity of %s is %.9g, set to %.9g", s.p[k].first.c_str(), *s.p[k].second(), v[k]));
         sides(what.substr(0, 60)); for (int dim = 1; dim <= 3; dim++) fields(n, s, p, dim);
      }
      delete p;
   }
   config.dict_ = YAML::Load("{parameterized_problem: {name: no_such_problem}}"); casef("unknown problem"); expect(ends([] { InitParameterizedProblem(); }), "an unknown problem is accepted");
   config.dict_ = YAML::Load("{parameterized_problem: {name: poisson0}}"); casef("single run without a list"); expect(ends([] { InitParameterizedProblem()->SetSingleRun(); }), "a single run without a list is accepted");
   return done();
}
