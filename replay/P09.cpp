// SRC: interfaceinteg hyperreduction_integ dg_bilinear dg_mixed_bilin hdf5_utils etc linalg_utils input_parser
#include "interfaceinteg.hpp"
#include "fe.hpp"
using namespace mfem; using namespace vr;
#include "ip.hpp"
// scalar diffusion with optional scalar or matrix coefficient
static void diff(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T1, FaceElementTransformations &T2, const IntegrationRule &ir, Coefficient *Q, MatrixCoefficient *MQ, double sg, double ka, DenseMatrix &R)
{
   int dim = e1.GetDim(), n[2] = {e1.GetDof(), e2.GetDof()}; R.SetSize(n[0] + n[1]); R = 0.; FPoint p; DenseMatrix K;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      fpoint(e1, &e2, T1, &T2, ir.IntPoint(q), p, true); double w = p.w / 2, f[2][3], pen = 0;
      for (int k = 0; k < 2; k++) { ElementTransformation &E = k ? *T2.Elem1 : *T1.Elem1; const IntegrationPoint &ep = k ? p.e2 : p.e1; if (MQ) MQ->Eval(K, E, ep); double c = Q && !MQ ? Q->Eval(E, ep) : 1.;
         for (int l = 0; l < dim; l++) { f[k][l] = 0; if (MQ) for (int m = 0; m < dim; m++) f[k][l] += K(m, l) * p.n(m); else f[k][l] = c * p.n(l); }
         double x = 0; for (int l = 0; l < dim; l++) x += f[k][l] * p.n(l); pen += x / (k ? p.det2 : p.det1); }
      for (int a = 0; a < 2; a++) for (int i = 0; i < n[a]; i++) for (int b = 0; b < 2; b++) for (int j = 0; j < n[b]; j++)
      {
         double va = a ? -p.N2(i) : p.N1(i), ub = b ? -p.N2(j) : p.N1(j), dv = 0, du = 0; for (int l = 0; l < dim; l++) { dv += (a ? p.G2(i, l) : p.G1(i, l)) * f[a][l]; du += (b ? p.G2(j, l) : p.G1(j, l)) * f[b][l]; }
         R((a ? n[0] : 0) + i, (b ? n[0] : 0) + j) += w * (-du * va + sg * dv * ub + ka * pen * va * ub);
      }
   }
}
static void elast(const FiniteElement &e1, const FiniteElement &e2, FaceElementTransformations &T1, FaceElementTransformations &T2, const IntegrationRule &ir, Coefficient &la, Coefficient &mu, double al, double ka, DenseMatrix &R)
{
   int dim = e1.GetDim(), n[2] = {e1.GetDof(), e2.GetDof()}; R.SetSize(dim * (n[0] + n[1])); R = 0.; FPoint p;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      fpoint(e1, &e2, T1, &T2, ir.IntPoint(q), p, true); double w = p.w / 2, nn = p.n * p.n, L[2] = {la.Eval(*T1.Elem1, p.e1), la.Eval(*T2.Elem1, p.e2)}, m[2] = {mu.Eval(*T1.Elem1, p.e1), mu.Eval(*T2.Elem1, p.e2)}, pen = w * ka * nn * ((L[0] + 2 * m[0]) / p.det1 + (L[1] + 2 * m[1]) / p.det2);
      auto sn = [&](int k, int i, int comp, int r) { double gn = 0, gc = k ? p.G2(i, comp) : p.G1(i, comp), gr = k ? p.G2(i, r) : p.G1(i, r); for (int l = 0; l < dim; l++) gn += (k ? p.G2(i, l) : p.G1(i, l)) * p.n(l); return w * (L[k] * gc * p.n(r) + m[k] * gr * p.n(comp) + (r == comp ? m[k] * gn : 0.)); };
      for (int a = 0; a < 2; a++) for (int i = 0; i < n[a]; i++) for (int b = 0; b < 2; b++) for (int j = 0; j < n[b]; j++)
      { double va = a ? -p.N2(i) : p.N1(i), ub = b ? -p.N2(j) : p.N1(j); for (int c = 0; c < dim; c++) for (int d = 0; d < dim; d++) R(dim * (a ? n[0] : 0) + c * n[a] + i, dim * (b ? n[0] : 0) + d * n[b] + j) += -va * sn(b, j, d, c) + al * sn(a, i, c, d) * ub + (c == d ? pen * va * ub : 0.); }
   }
}
struct Grid { DenseMatrix m[4]; Array2D<DenseMatrix *> a; Grid() : a(2, 2) { for (int i = 0; i < 4; i++) { m[i].SetSize(I(0, 5), I(0, 5)); rnd(m[i]); a(i / 2, i % 2) = &m[i]; } } };
static void cmp(Grid &g, const DenseMatrix &R, int r1, int r2, int c1, int c2, const std::string &what)
{
   int r[2] = {r1, r2}, c[2] = {c1, c2};
   for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { DenseMatrix B(r[i], c[j]); for (int x = 0; x < r[i]; x++) for (int y = 0; y < c[j]; y++) B(x, y) = R((i ? r1 : 0) + x, (j ? c1 : 0) + y); meq(g.m[2 * i + j], B, what + fmt(" block (%d,%d)", i + 1, j + 1)); }
}
int main()
{
   MPIGuard mpi;
   for (int it = 0; it < reps(80); it++)
   {
      int dim = I(1, 3), kind = I(0, 1), ord = I(1, dim == 3 ? 2 : 3); if (dim == 3 && kind == 0) ord = I(0, 4) ? 1 : 2; int ord2 = B() ? ord : I(1, ord);
      std::unique_ptr<Mesh> m(rmesh(dim, kind)), m2(rmesh(dim, kind)); std::unique_ptr<FiniteElementCollection> fc(rfec(dim, ord, B())), fc2(rfec(dim, ord2, B())), pc(rfec(dim, I(1, 2), B())), pc2(rfec(dim, I(1, 2), B()));
      FiniteElementSpace f1(m.get(), fc.get(), dim), f2(m2.get(), fc2.get(), dim), p1(m.get(), pc.get()), p2(m2.get(), pc2.get()); FCoef q, la, mu; MCoef mq(dim, false); double al = I(0, 2) ? D(-2, 2) : -1.; double kas[2] = {D(.5, 9), I(0, 2) ? D(.5, 9) : 0.}; if (B()) std::swap(kas[0], kas[1]);
      int mode = I(0, 2); std::unique_ptr<InterfaceDGDiffusionIntegrator> di; double kd = I(0, 2) ? D(.5, 9) : 0.; if (mode == 0) di.reset(new InterfaceDGDiffusionIntegrator(al, kd)); else if (mode == 1) di.reset(new InterfaceDGDiffusionIntegrator(q, al, kd)); else di.reset(new InterfaceDGDiffusionIntegrator(mq, al, kd));
      double kv = kas[0]; InterfaceDGVectorDiffusionIntegrator vd(mu, al, kv); InterfaceDGElasticityIntegrator ei(&la, &mu, al, kas[1]); InterfaceDGNormalFluxIntegrator nf;
      if (kind == 1 || dim == 1)
      { // default rules: exact for constant data on affine cells
         ConstantCoefficient k1(D(.5, 2)), k2(D(.5, 2)); int b1 = I(0, m->GetNBE() - 1), b2 = I(0, m2->GetNBE() - 1); FaceElementTransformations *T1 = m->GetBdrFaceTransformations(b1), *T2 = m2->GetBdrFaceTransformations(b2);
         const FiniteElement &e1 = *f1.GetFE(T1->Elem1No), &e2 = *f2.GetFE(T2->Elem1No), &q1 = *p1.GetFE(T1->Elem1No), &q2 = *p2.GetFE(T2->Elem1No); int n1 = e1.GetDof(), n2 = e2.GetDof(); const IntegrationRule &hi = IntRules.Get(T1->GetGeometryType(), 3 * ord + 6); DenseMatrix R;
         InterfaceDGDiffusionIntegrator d(k1, al, kd); InterfaceDGVectorDiffusionIntegrator v(k1, al, kv); InterfaceDGElasticityIntegrator e(&k1, &k2, al, kas[1]); InterfaceDGNormalFluxIntegrator n;
         casef(fmt("default rule it=%d dim=%d kind=%d orders=%d,%d pressure orders=%d,%d boundary-elements=%d,%d sigma=%g kappas=%g,%g,%g", it, dim, kind, ord, ord2, q1.GetOrder(), q2.GetOrder(), b1, b2, al, kd, kas[0], kas[1]));
         { Grid g; d.AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); diff(e1, e2, *T1, *T2, hi, &k1, NULL, al, kd, R); cmp(g, R, n1, n2, n1, n2, "interface diffusion with the default rule"); }
         { Grid g; v.AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); vdiff(e1, &e2, *T1, T2, hi, k1, al, kv, R); cmp(g, R, n1 * dim, n2 * dim, n1 * dim, n2 * dim, "interface vector diffusion with the default rule"); }
         { Grid g; e.AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); elast(e1, e2, *T1, *T2, hi, k1, k2, al, kas[1], R); cmp(g, R, n1 * dim, n2 * dim, n1 * dim, n2 * dim, "interface elasticity with the default rule"); }
         { Grid g; n.AssembleInterfaceMatrix(e1, e2, q1, q2, *T1, *T2, g.a); nflux(e1, &e2, q1, &q2, *T1, T2, hi, R); cmp(g, R, q1.GetDof(), q2.GetDof(), n1 * dim, n2 * dim, "interface normal flux with the default rule"); }
      }
      for (int rep = 0; rep < 2; rep++)
      {
         int b1 = I(0, m->GetNBE() - 1), b2 = I(0, m2->GetNBE() - 1); FaceElementTransformations *T1 = m->GetBdrFaceTransformations(b1), *T2 = m2->GetBdrFaceTransformations(b2); if (T1->GetGeometryType() != T2->GetGeometryType()) continue;
         const FiniteElement &e1 = *f1.GetFE(T1->Elem1No), &e2 = *f2.GetFE(T2->Elem1No), &q1 = *p1.GetFE(T1->Elem1No), &q2 = *p2.GetFE(T2->Elem1No); int n1 = e1.GetDof(), n2 = e2.GetDof(); IntegrationRule ir, dr; rrule(ir, T1->GetGeometryType(), I(1, 3)); DenseMatrix R; bool def = I(0, 3) == 0; const IntegrationRule *use = def ? &IntRules.Get(T1->GetGeometryType(), 2 * std::max(e1.GetOrder(), e2.GetOrder())) : &ir; (void)dr; use = &ir;
         auto tag = [&](const char *s) { return fmt("%s it=%d dim=%d kind=%d orders=%d,%d boundary-elements=%d,%d sigma=%g kappas=%g,%g,%g coefficient-mode=%d points=%d", s, it, dim, kind, ord, ord2, b1, b2, al, kd, kas[0], kas[1], mode, use->GetNPoints()); };
         { Grid g; casef(tag("InterfaceDGDiffusion")); di->SetIntRule(use); for (int r = 0; r < 2; r++) di->AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); diff(e1, e2, *T1, *T2, *use, mode == 1 ? &q : NULL, mode == 2 ? &mq : NULL, al, kd, R); cmp(g, R, n1, n2, n1, n2, "interface diffusion"); }
         { Grid g; casef(tag("InterfaceDGVectorDiffusion")); vd.SetIntRule(use); vd.AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); vdiff(e1, &e2, *T1, T2, *use, mu, al, kv, R); cmp(g, R, n1 * dim, n2 * dim, n1 * dim, n2 * dim, "interface vector diffusion"); }
         { Grid g; casef(tag("InterfaceDGElasticity")); ei.SetIntRule(use); ei.AssembleInterfaceMatrix(e1, e2, *T1, *T2, g.a); elast(e1, e2, *T1, *T2, *use, la, mu, al, kas[1], R); cmp(g, R, n1 * dim, n2 * dim, n1 * dim, n2 * dim, "interface elasticity"); }
         { Grid g; casef(tag("InterfaceDGNormalFlux")); nf.SetIntRule(use); nf.AssembleInterfaceMatrix(e1, e2, q1, q2, *T1, *T2, g.a); nflux(e1, &e2, q1, &q2, *T1, T2, *use, R); cmp(g, R, q1.GetDof(), q2.GetDof(), n1 * dim, n2 * dim, "interface normal flux"); }
      }
   }
   return done();
}
