// SRC: nonlinear_integ hyperreduction_integ interfaceinteg hdf5_utils etc linalg_utils input_parser
#include "nonlinear_integ.hpp"
#include "interfaceinteg.hpp"
#include "nl.hpp"
// sum over the rule of the point contributions == full local assembly; linear in the weight; independent of history
int main()
{
   MPIGuard mpi;
   for (int it = 0; it < reps(70); it++)
   {
      int dim = I(1, 3), kind = I(0, 1), ord = I(1, dim == 3 ? 2 : 3); if (dim == 3 && kind == 0) ord = I(0, 4) ? 1 : 2;
      std::unique_ptr<Mesh> m(rmesh(dim, kind)), m2(rmesh(dim, kind)); std::unique_ptr<FiniteElementCollection> fc(rfec(dim, ord, B())), fc2(rfec(dim, B() ? ord : 1, B()));
      FiniteElementSpace fes(m.get(), fc.get(), dim), fes2(m2.get(), fc2.get(), dim), fes3(m.get(), B() ? fc2.get() : fc.get(), dim); FCoef q; VCoef vq(dim), ud(dim); bool useq = I(0, 3);
      if (dim > 1)
      {
         int e = I(0, m->GetNE() - 1); const FiniteElement &el = *fes.GetFE(e); ElementTransformation &T = *m->GetElementTransformation(e); int n = el.GetDof() * dim; Vector x(n), y(I(0, 9)), r, yq(I(0, 9)), ys(n), xs(n); rnd(x); rnd(y); rnd(yq); DenseMatrix J(I(0, 5), I(0, 5)), Jq(I(0, 5), I(0, 5)), Js(n); rnd(J); rnd(Jq); Vector x0(x);
         IntegrationRule ir; rrule(ir, el.GetGeomType(), I(1, 4)); bool def = I(0, 3) == 0;
         for (int form = 1; form < 3; form++)
         {
            bool wv = form == 1 && useq && B(); std::unique_ptr<HyperReductionIntegrator> ni;
            if (form == 1) ni.reset(useq ? new VectorConvectionTrilinearFormIntegrator(q, wv ? &vq : NULL) : new VectorConvectionTrilinearFormIntegrator()); else ni.reset(useq ? new IncompressibleInviscidFluxNLFIntegrator(q) : new IncompressibleInviscidFluxNLFIntegrator());
            std::string nm = form == 1 ? "VectorConvection" : "IncompressibleInviscidFlux";
            const IntegrationRule *use = &ir; if (def) use = form == 1 ? &VectorConvectionTrilinearFormIntegrator::GetRule(el, T) : &IncompressibleInviscidFluxNLFIntegrator::GetRule(el, T); else ni->SetIntRule(&ir);
            casef(fmt("%s it=%d dim=%d kind=%d order=%d element=%d coefficient=%d velocity=%d rule=%s points=%d", nm.c_str(), it, dim, kind, ord, e, useq, wv, def ? "default" : "given", use->GetNPoints()));
            bool first = B(); if (first) { ni->AssembleElementVector(el, T, x, y); ni->AssembleElementGrad(el, T, x, J); }
            ys = 0.; Js = 0.;
            for (int k = 0; k < use->GetNPoints(); k++)
            {
               const IntegrationPoint &ip = use->IntPoint(k); double s = B() ? 1. : D(-2., 2.); if (fabs(s) < .1) s = 1.;
               if (B()) { ni->AssembleQuadratureVector(el, T, ip, s * ip.weight, x, yq); ni->AssembleQuadratureGrad(el, T, ip, s * ip.weight, x, Jq); }
               else { ni->AssembleQuadratureGrad(el, T, ip, s * ip.weight, x, Jq); ni->AssembleQuadratureVector(el, T, ip, s * ip.weight, x, yq); }
               if (yq.Size() != n || Jq.Height() != n || Jq.Width() != n) { fail(nm + " point contribution extents"); return done(); }
               ys.Add(1. / s, yq); Js.Add(1. / s, Jq);
               IntegrationRule one(1); one.IntPoint(0) = ip; one.IntPoint(0).weight = s * ip.weight; domain(form, el, T, one, useq ? &q : NULL, wv ? &vq : NULL, x, r); veq(yq, r, nm + " point residual is weight times integrand");
            }
            if (!first) { ni->AssembleElementGrad(el, T, x, J); ni->AssembleElementVector(el, T, x, y); }
            veq(ys, y, nm + ": point residuals sum to the full residual"); meq(Js, J, nm + ": point Jacobians sum to the full Jacobian"); veq(x, x0, "state unchanged", 0.);
         }
      }
      for (int where = 0; where < 3; where++) // interior, boundary, interface
      {
         FaceElementTransformations *T1, *T2 = NULL; const FiniteElement *e1, *e2 = NULL;
         if (where == 0) { int f; do { f = I(0, m->GetNumFaces() - 1); } while (!m->FaceIsInterior(f)); T1 = m->GetInteriorFaceTransformations(f); e1 = fes.GetFE(T1->Elem1No); e2 = fes3.GetFE(T1->Elem2No); }
         else { T1 = m->GetBdrFaceTransformations(I(0, m->GetNBE() - 1)); e1 = fes.GetFE(T1->Elem1No); if (where == 2) { T2 = m2->GetBdrFaceTransformations(I(0, m2->GetNBE() - 1)); e2 = fes2.GetFE(T2->Elem1No); } }
         int n1 = e1->GetDof() * dim, n2 = e2 ? e2->GetDof() * dim : 0, n = n1 + n2; Vector x(n), x1(x, 0, n1), x2(x, n1, n2), y(I(0, 5)), yq(I(0, 5)), y1(I(0, 7)), y2(I(0, 4)), r, ys(n); rnd(x); rnd(y); rnd(yq); rnd(y1); rnd(y2); int st = I(0, 7); if (st == 0) x1 = 0.; if (st == 1 && n2) x2 = 0.; if (st == 2) x = 0.;
         Vector x0(x); IntegrationRule ir; rrule(ir, T1->GetGeometryType(), I(1, 3)); DenseMatrix J(I(0, 5), I(0, 5)), Jq(I(0, 5), I(0, 5)), Js(n); rnd(J); rnd(Jq); ys = 0.; Js = 0.;
         VectorCoefficient *U = B() ? &ud : NULL; ConstantCoefficient c1(1.); Coefficient &c = useq ? (Coefficient &)q : c1; const char *wn[] = {"interior", "boundary", "interface"};
         std::string nm = std::string("DGLaxFriedrichsFlux ") + wn[where];
         casef(fmt("%s it=%d dim=%d kind=%d order=%d dofs=%d,%d coefficient=%d boundary-data=%d state-case=%d points=%d", nm.c_str(), it, dim, kind, ord, n1, n2, useq, U != NULL, st, ir.GetNPoints()));
         DGLaxFriedrichsFluxIntegrator ni(c, U); ni.NonlinearFormIntegrator::SetIntRule(&ir); const FiniteElement &ee2 = e2 ? *e2 : *e1;
         Array2D<DenseMatrix *> jm(2, 2); DenseMatrix js[4]; for (int i = 0; i < 4; i++) { js[i].SetSize(I(0, 4), I(0, 4)); rnd(js[i]); jm(i / 2, i % 2) = &js[i]; }
         auto glue = [&](Vector &v, DenseMatrix *M) { if (where < 2) return true; 
            if (M) { if (js[0].Height() != n1 || js[0].Width() != n1 || js[1].Height() != n1 || js[1].Width() != n2 || js[2].Height() != n2 || js[2].Width() != n1 || js[3].Height() != n2 || js[3].Width() != n2) return false;
               M->SetSize(n); M->CopyMN(js[0], 0, 0); M->CopyMN(js[1], 0, n1); M->CopyMN(js[2], n1, 0); M->CopyMN(js[3], n1, n1); }
            else { if (y1.Size() != n1 || y2.Size() != n2) return false; v.SetSize(n); v.SetVector(y1, 0); v.SetVector(y2, n1); } return true; };
         auto full = [&]() { if (where < 2) { ni.AssembleFaceVector(*e1, ee2, *T1, x, y); ni.AssembleFaceGrad(*e1, ee2, *T1, x, J); }
            else { ni.AssembleInterfaceVector(*e1, *e2, *T1, *T2, x1, x2, y1, y2); if (!glue(y, NULL)) fail(nm + " extents"); ni.AssembleInterfaceGrad(*e1, *e2, *T1, *T2, x1, x2, jm); if (!glue(y, &J)) fail(nm + " extents"); } };
         bool first = B(); if (first) full(); bool ok = true;
         for (int k = 0; k < ir.GetNPoints() && ok; k++)
         {
            const IntegrationPoint &ip = ir.IntPoint(k); double s = B() ? 1. : D(-2., 2.); if (fabs(s) < .1) s = 1.; double w = s * ip.weight;
            for (int o = 0; o < 2; o++) { bool v = (o == 0) == (it % 2 == 0);
               if (v) { if (where < 2) ni.AssembleQuadratureVector(*e1, ee2, *T1, ip, w, x, yq); else { ni.AssembleQuadratureVector(*e1, *e2, *T1, *T2, ip, w, x1, x2, y1, y2); ok = ok && glue(yq, NULL); } }
               else { if (where < 2) ni.AssembleQuadratureGrad(*e1, ee2, *T1, ip, w, x, Jq); else { ni.AssembleQuadratureGrad(*e1, *e2, *T1, *T2, ip, w, x1, x2, jm); ok = ok && glue(yq, &Jq); } } }
            if (!ok || yq.Size() != n || Jq.Height() != n || Jq.Width() != n) { fail(nm + " point contribution extents"); ok = false; break; }
            ys.Add(1. / s, yq); Js.Add(1. / s, Jq);
            IntegrationRule one(1); one.IntPoint(0) = ip; one.IntPoint(0).weight = w; face(true, *e1, e2, *T1, T2, one, &c, U, x, r); veq(yq, r, nm + " point residual is weight times integrand");
         }
         if (!ok) continue; if (!first) full();
         veq(ys, y, nm + ": point residuals sum to the full residual"); meq(Js, J, nm + ": point Jacobians sum to the full Jacobian"); veq(x, x0, "state unchanged", 0.);
      }
   }
   return done();
}
