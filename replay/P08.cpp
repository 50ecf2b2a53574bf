// SRC: dg_bilinear dg_mixed_bilin dg_linear etc input_parser
#include "dg_bilinear.hpp"
#include "dg_mixed_bilin.hpp"
#include "dg_linear.hpp"
#include "fe.hpp"
using namespace mfem; using namespace vr;
#include "ip.hpp"
int main()
{
   MPIGuard mpi;
   for (int it = 0; it < reps(70); it++)
   {
      int dim = I(1, 3), kind = I(0, 1), ord = I(1, dim == 3 ? 2 : 3); if (dim == 3 && kind == 0) ord = I(0, 4) ? 1 : 2;
      std::unique_ptr<Mesh> m(rmesh(dim, kind)); bool l2 = B(); std::unique_ptr<FiniteElementCollection> fc(rfec(dim, ord, l2)), pc(rfec(dim, std::max(1, ord - 1), B()));
      FiniteElementSpace fes(m.get(), fc.get(), dim), pfes(m.get(), pc.get()); std::unique_ptr<FiniteElementCollection> fc2(rfec(dim, I(1, ord), B())), pc2(rfec(dim, I(1, 2), B())); bool mix = I(0, 2) == 0; FiniteElementSpace fes2(m.get(), mix ? fc2.get() : fc.get(), dim), pfes2(m.get(), mix ? pc2.get() : pc.get()); FCoef mu; VCoef ud(dim), st(dim * dim); double al = I(0, 3) ? D(-2, 2) : -1., ka = I(0, 2) ? D(.5, 9) : 0.; if (I(0, 3) == 0) al = 1.;
      DGVectorDiffusionIntegrator di(mu, al, ka); DGNormalFluxIntegrator nf;
      for (int rep = 0; rep < 3; rep++)
      {
         bool inter = rep == 2 ? B() : rep; FaceElementTransformations *T; if (inter) { int f; do { f = I(0, m->GetNumFaces() - 1); } while (!m->FaceIsInterior(f)); T = m->GetInteriorFaceTransformations(f); } else T = m->GetBdrFaceTransformations(I(0, m->GetNBE() - 1));
         const FiniteElement *e1 = fes.GetFE(T->Elem1No), *e2 = inter ? fes2.GetFE(T->Elem2No) : NULL, *q1 = pfes.GetFE(T->Elem1No), *q2 = inter ? pfes2.GetFE(T->Elem2No) : NULL; IntegrationRule ir; rrule(ir, T->GetGeometryType(), I(1, 3)); DenseMatrix A(I(0, 5), I(0, 5)), R; rnd(A);
         casef(fmt("DGVectorDiffusion it=%d %s dim=%d kind=%d order=%d,%d alpha=%g kappa=%g points=%d", it, inter ? "interior" : "boundary", dim, kind, ord, inter ? e2->GetOrder() : 0, al, ka, ir.GetNPoints()));
         di.SetIntRule(&ir); di.AssembleFaceMatrix(*e1, inter ? *e2 : *e1, *T, A); vdiff(*e1, e2, *T, NULL, ir, mu, al, ka, R); meq(A, R, inter ? "vector diffusion interior face matrix" : "vector diffusion boundary face matrix");
         if (al == -1.) { DenseMatrix At(A); At.Transpose(); meq(A, At, "vector diffusion matrix symmetric for sigma = -1"); }
         casef(fmt("DGNormalFlux it=%d %s dim=%d kind=%d order=%d points=%d", it, inter ? "interior" : "boundary", dim, kind, ord, ir.GetNPoints()));
         rnd(A); nf.SetIntRule(&ir); nf.AssembleFaceMatrix(*e1, inter ? *e2 : *e1, *q1, inter ? *q2 : *q1, *T, A); nflux(*e1, e2, *q1, q2, *T, NULL, ir, R); meq(A, R, "normal flux face matrix");
      }
      for (int rep = 0; rep < 2; rep++)
      {
         int be = I(0, m->GetNBE() - 1); FaceElementTransformations *T = m->GetBdrFaceTransformations(be); const FiniteElement &el = *fes.GetFE(T->Elem1No), &ql = *pfes.GetFE(T->Elem1No); bool given = I(0, 3); bool useZ = B(); FCoef Z;
         for (int k = 0; k < 4; k++)
         {
            std::unique_ptr<LinearFormIntegrator> li; const char *nm[] = {"DGVectorDirichletLF", "DGBoundaryNormalLF", "BoundaryNormalStressLF", "DGBdrTemamLF"}; IntegrationRule ir; rrule(ir, T->GetGeometryType(), I(1, 3)); const FiniteElement &ee = k == 1 ? ql : el; int nc = k == 1 ? 1 : dim, nd = ee.GetDof(); Vector y(I(0, 7)), r(nc * nd); rnd(y); r = 0.;
            if (k == 0) li.reset(new DGVectorDirichletLFIntegrator(ud, mu, al, ka)); else if (k == 1) li.reset(new DGBoundaryNormalLFIntegrator(ud)); else if (k == 2) li.reset(new BoundaryNormalStressLFIntegrator(st)); else li.reset(new DGBdrTemamLFIntegrator(ud, useZ ? &Z : NULL));
            li->SetIntRule(&ir);
            casef(fmt("%s it=%d face dim=%d kind=%d order=%d boundary-element=%d alpha=%g kappa=%g Z=%d points=%d", nm[k], it, dim, kind, ee.GetOrder(), be, al, ka, useZ, ir.GetNPoints()));
            FPoint p; Vector v; for (int q = 0; q < ir.GetNPoints(); q++)
            {
               const IntegrationPoint &ip = ir.IntPoint(q); fpoint(ee, NULL, *T, NULL, ip, p, true); double z = useZ ? Z.Eval(*T, ip) : 1.;
               double a[3], b[3] = {0, 0, 0}; if (k == 2) st.Eval(v, *T, ip); else if (k == 0) ud.Eval(v, *T, ip); else ud.Eval(v, *T->Elem1, p.e1); double nn = p.n * p.n, vn = 0; if (k != 2) vn = v * p.n; double mm = mu.Eval(*T->Elem1, p.e1);
               for (int c = 0; c < nc; c++) { a[c] = 0; if (k == 0) { a[c] = ka * mm * nn / p.det1 * v(c); b[c] = al * mm * v(c); } else if (k == 1) a[c] = vn; else if (k == 2) { for (int l = 0; l < dim; l++) a[c] += v(c + dim * l) * p.n(l); } else a[c] = z * vn * v(c); }
               for (int c = 0; c < nc; c++) for (int i = 0; i < nd; i++) { double dn = 0; for (int l = 0; l < dim; l++) dn += p.G1(i, l) * p.n(l); r(c * nd + i) += p.w * (a[c] * p.N1(i) + b[c] * dn); }
            }
            li->AssembleRHSElementVect(ee, *T, y); veq(y, r, std::string(nm[k]) + " face vector");
            if (k > 0 && dim > 1)
            {
               ElementTransformation *TB = m->GetBdrElementTransformation(be); std::unique_ptr<FiniteElementCollection> hc(new H1_FECollection(ord, dim)); FiniteElementSpace hs(m.get(), hc.get()); const FiniteElement &eb = *hs.GetBE(be); int n = eb.GetDof(); IntegrationRule jr; rrule(jr, eb.GetGeomType(), I(1, 3)); r.SetSize(nc * n); r = 0.; rnd(y);
               casef(fmt("%s it=%d boundary element dim=%d kind=%d order=%d boundary-element=%d Z=%d points=%d", nm[k], it, dim, kind, ord, be, useZ, jr.GetNPoints()));
               for (int q = 0; q < jr.GetNPoints(); q++)
               {
                  const IntegrationPoint &ip = jr.IntPoint(q); TB->SetIntPoint(&ip); const DenseMatrix &J = TB->Jacobian(); double nn[3]; if (dim == 2) { nn[0] = J(1, 0); nn[1] = -J(0, 0); } else for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; nn[i] = J(a, 0) * J(b, 1) - J(b, 0) * J(a, 1); }
                  double z = useZ ? Z.Eval(*TB, ip) : 1.; if (k == 2) st.Eval(v, *TB, ip); else ud.Eval(v, *TB, ip); double vn = 0; if (k != 2) for (int l = 0; l < dim; l++) vn += v(l) * nn[l]; Vector N; shapeN(eb, ip, N);
                  for (int c = 0; c < nc; c++) { double a = k == 1 ? vn : k == 3 ? z * vn * v(c) : 0.; if (k == 2) for (int l = 0; l < dim; l++) a += v(c + dim * l) * nn[l]; for (int i = 0; i < n; i++) r(c * n + i) += ip.weight * a * N(i); }
               }
               li->SetIntRule(&jr); li->AssembleRHSElementVect(eb, *TB, y); veq(y, r, std::string(nm[k]) + " boundary-element vector");
            }
         }
      }
      if (kind == 1 || dim == 1)
      { // default rules: exact for constant data on affine cells
         ConstantCoefficient k1(D(.5, 2)); DGVectorDiffusionIntegrator d2(k1, al, ka); DGNormalFluxIntegrator n2; Vector cv(dim), cs(dim * dim), v; rnd(cv); rnd(cs); VectorConstantCoefficient vc(cv), sc(cs);
         for (int inter = 0; inter < 2; inter++)
         {
            int be = I(0, m->GetNBE() - 1); FaceElementTransformations *T; if (inter) { int f; do { f = I(0, m->GetNumFaces() - 1); } while (!m->FaceIsInterior(f)); T = m->GetInteriorFaceTransformations(f); } else T = m->GetBdrFaceTransformations(be);
            const FiniteElement *e1 = fes.GetFE(T->Elem1No), *e2 = inter ? fes2.GetFE(T->Elem2No) : NULL, *q1 = pfes.GetFE(T->Elem1No), *q2 = inter ? pfes2.GetFE(T->Elem2No) : NULL; const IntegrationRule &hi = IntRules.Get(T->GetGeometryType(), 3 * ord + 4); DenseMatrix A, R;
            casef(fmt("default rule it=%d %s dim=%d kind=%d order=%d,%d alpha=%g kappa=%g", it, inter ? "interior" : "boundary", dim, kind, ord, q1->GetOrder(), al, ka));
            d2.AssembleFaceMatrix(*e1, inter ? *e2 : *e1, *T, A); vdiff(*e1, e2, *T, NULL, hi, k1, al, ka, R); meq(A, R, "vector diffusion with the default rule, constant coefficient, affine cells");
            n2.AssembleFaceMatrix(*e1, inter ? *e2 : *e1, *q1, inter ? *q2 : *q1, *T, A); nflux(*e1, e2, *q1, q2, *T, NULL, hi, R); meq(A, R, "normal flux with the default rule, affine cells");
            if (!inter) for (int k = 0; k < 4; k++)
            {
               std::unique_ptr<LinearFormIntegrator> l[2]; Vector y[2]; for (int h = 0; h < 2; h++) { if (k == 0) l[h].reset(new DGVectorDirichletLFIntegrator(vc, k1, al, ka)); else if (k == 1) l[h].reset(new DGBoundaryNormalLFIntegrator(vc)); else if (k == 2) l[h].reset(new BoundaryNormalStressLFIntegrator(sc)); else l[h].reset(new DGBdrTemamLFIntegrator(vc, NULL)); if (h) l[h]->SetIntRule(&hi); l[h]->AssembleRHSElementVect(k == 1 ? *q1 : *e1, *T, y[h]); }
               veq(y[0], y[1], fmt("boundary vector %d with the default rule, constant data, affine cells", k));
            }
         }
      }
      { // global assembly with markers
         if (m->GetNE() > 12) continue;
         for (int b = 0; b < m->GetNBE(); b++) m->SetBdrAttribute(b, I(1, 3)); m->SetAttributes(); int na = m->bdr_attributes.Max(); MixedBilinearFormDGExtension f(&fes, &pfes); int ni = I(0, 2), nb = I(0, 2); std::vector<Array<int>> mk(nb); std::vector<bool> has(nb); std::vector<IntegrationRule> rl(ni + nb); double rs = 0;
         Geometry::Type g = m->GetFaceGeometry(0); if (dim == 3 && kind == 2) continue;
         for (int k = 0; k < ni + nb; k++) { rrule(rl[k], g, I(1, 3)); DGNormalFluxIntegrator *n = new DGNormalFluxIntegrator; n->SetIntRule(&rl[k]); if (k < ni) f.AddInteriorFaceIntegrator(n); else { has[k - ni] = B(); if (has[k - ni]) { mk[k - ni].SetSize(na); for (int a = 0; a < na; a++) mk[k - ni][a] = B(); f.AddBdrFaceIntegrator(n, mk[k - ni]); } else f.AddBdrFaceIntegrator(n); } }
         std::string ms; for (int k = 0; k < nb; k++) ms += has[k] ? s(mk[k]) : "all";
         casef(fmt("MixedBilinearFormDGExtension it=%d dim=%d kind=%d order=%d interior=%d boundary=%d markers=%s", it, dim, kind, ord, ni, nb, ms.c_str()));
         f.Assemble(); f.Finalize(); DenseMatrix R(pfes.GetVSize(), fes.GetVSize()), E; R = 0.; Array<int> r1, r2, c1, c2;
         auto add = [&](FaceElementTransformations *T, bool inter, const IntegrationRule &ir) {
            nflux(*fes.GetFE(T->Elem1No), inter ? fes.GetFE(T->Elem2No) : NULL, *pfes.GetFE(T->Elem1No), inter ? pfes.GetFE(T->Elem2No) : NULL, *T, NULL, ir, E);
            fes.GetElementVDofs(T->Elem1No, c1); pfes.GetElementVDofs(T->Elem1No, r1); if (inter) { fes.GetElementVDofs(T->Elem2No, c2); pfes.GetElementVDofs(T->Elem2No, r2); c1.Append(c2); r1.Append(r2); }
            for (int i = 0; i < r1.Size(); i++) for (int j = 0; j < c1.Size(); j++) R(r1[i], c1[j]) += E(i, j); };
         for (int k = 0; k < ni; k++) for (int i = 0; i < m->GetNumFaces(); i++) { FaceElementTransformations *T = m->GetInteriorFaceTransformations(i); if (T) add(T, true, rl[k]); }
         for (int k = 0; k < nb; k++) for (int i = 0; i < m->GetNBE(); i++) { if (has[k] && !mk[k][m->GetBdrAttribute(i) - 1]) continue; add(m->GetBdrFaceTransformations(i), false, rl[ni + k]); }
         DenseMatrix G(R.Height(), R.Width()); G = 0.; Vector x(R.Width()), y(R.Height()); x = 0.; for (int j = 0; j < R.Width(); j++) { x(j) = 1.; f.SpMat().Mult(x, y); x(j) = 0.; for (int i = 0; i < R.Height(); i++) G(i, j) = y(i); }
         meq(G, R, "assembled normal-flux operator");
      }
   }
   return done();
}
