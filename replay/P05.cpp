// SRC: nonlinear_integ hyperreduction_integ interfaceinteg hdf5_utils etc linalg_utils input_parser
#include "nonlinear_integ.hpp"
#include "interfaceinteg.hpp"
#include "nl.hpp"
int main()
{
   MPIGuard mpi;
   for (int it = 0; it < reps(60); it++)
   {
      int dim = I(1, 3), kind = I(0, 1), ord = I(1, dim == 3 ? 2 : 3); if (dim == 3 && kind == 0) ord = I(0, 4) ? 1 : 2;
      std::unique_ptr<Mesh> m(rmesh(dim, kind)), m2(rmesh(dim, kind)); std::unique_ptr<FiniteElementCollection> fc(rfec(dim, ord, B())), fc2(rfec(dim, B() ? ord : 1, B()));
      FiniteElementSpace fes(m.get(), fc.get(), dim), fes2(m2.get(), fc2.get(), dim), fes3(m.get(), B() ? fc2.get() : fc.get(), dim); FCoef q; VCoef vq(dim), ud(dim); ConstantCoefficient one(1.); bool useq = I(0, 3);
      if (dim > 1)
      {
         int e = I(0, m->GetNE() - 1); const FiniteElement &el = *fes.GetFE(e); ElementTransformation &T = *m->GetElementTransformation(e); Vector x(el.GetDof() * dim), y(I(0, 9)), r; rnd(x); rnd(y); DenseMatrix J(I(0, 5), I(0, 5)), JR; rnd(J); Vector x0(x);
         IntegrationRule ir; rrule(ir, el.GetGeomType(), I(1, 4)); bool def = I(0, 3) == 0;
         for (int form = 0; form < 3; form++)
         {
            bool wv = form == 1 && useq && B(); NonlinearFormIntegrator *ni;
            if (form == 0) ni = useq ? new TemamTrilinearFormIntegrator(q) : new TemamTrilinearFormIntegrator(); else if (form == 1) ni = useq ? new VectorConvectionTrilinearFormIntegrator(q, wv ? &vq : NULL) : new VectorConvectionTrilinearFormIntegrator(); else ni = useq ? new IncompressibleInviscidFluxNLFIntegrator(q) : new IncompressibleInviscidFluxNLFIntegrator();
            const char *nm[] = {"TemamTrilinearForm", "VectorConvectionTrilinearForm", "IncompressibleInviscidFlux"};
            const IntegrationRule *use = &ir; if (def) use = form == 0 ? &TemamTrilinearFormIntegrator::GetRule(el, T) : form == 1 ? &VectorConvectionTrilinearFormIntegrator::GetRule(el, T) : &IncompressibleInviscidFluxNLFIntegrator::GetRule(el, T); else ni->SetIntRule(&ir);
            casef(fmt("%s it=%d dim=%d kind=%d order=%d element=%d coefficient=%d velocity=%d rule=%s points=%d", nm[form], it, dim, kind, ord, e, useq, wv, def ? "default" : "given", use->GetNPoints()));
            auto ref = [&](const Vector &a, Vector &b) { domain(form, el, T, *use, useq ? &q : NULL, wv ? &vq : NULL, a, b); };
            if (B()) { ni->AssembleElementGrad(el, T, x, J); ni->AssembleElementVector(el, T, x, y); } else { ni->AssembleElementVector(el, T, x, y); ni->AssembleElementGrad(el, T, x, J); }
            ref(x, r); veq(y, r, std::string(nm[form]) + " residual"); fdjac(ref, x, JR, 1.); meq(J, JR, std::string(nm[form]) + " Jacobian", 1e-8); veq(x, x0, "state unchanged", 0.);
            delete ni;
         }
      }
      for (int where = 0; where < 3; where++) // interior, boundary, interface
      {
         FaceElementTransformations *T1, *T2 = NULL; const FiniteElement *e1, *e2 = NULL;
         if (where == 0) { int f; do { f = I(0, m->GetNumFaces() - 1); } while (!m->FaceIsInterior(f)); T1 = m->GetInteriorFaceTransformations(f); e1 = fes.GetFE(T1->Elem1No); e2 = fes3.GetFE(T1->Elem2No); }
         else { T1 = m->GetBdrFaceTransformations(I(0, m->GetNBE() - 1)); e1 = fes.GetFE(T1->Elem1No); if (where == 2) { T2 = m2->GetBdrFaceTransformations(I(0, m2->GetNBE() - 1)); e2 = fes2.GetFE(T2->Elem1No); } }
         int n1 = e1->GetDof() * dim, n2 = e2 ? e2->GetDof() * dim : 0; Vector x(n1 + n2), x1(x, 0, n1), x2(x, n1, n2), y(I(0, 5)), y1(I(0, 7)), y2(I(0, 4)), r; rnd(x); rnd(y); rnd(y1); rnd(y2); int st = I(0, 7); if (st == 0) x1 = 0.; if (st == 1 && n2) x2 = 0.; if (st == 2) x = 0.;
         Vector x0(x); IntegrationRule ir; rrule(ir, T1->GetGeometryType(), I(1, 3)); DenseMatrix J(I(0, 5), I(0, 5)), JR; rnd(J);
         for (int lf = 0; lf < 2; lf++)
         {
            VectorCoefficient *U = lf && B() ? &ud : NULL; const char *nm = lf ? (where == 2 ? "InterfaceDGLaxFriedrichsFlux" : "DGLaxFriedrichsFlux") : where == 2 ? "InterfaceDGTemamFlux" : "DGTemamFlux";
            casef(fmt("%s it=%d %s dim=%d kind=%d order=%d dofs=%d,%d coefficient=%d boundary-data=%d state-case=%d points=%d", nm, it, where == 0 ? "interior" : where == 1 ? "boundary" : "interface", dim, kind, ord, n1, n2, useq, U != NULL, st, ir.GetNPoints()));
            std::string what = std::string(nm) + (where == 0 ? " interior" : where == 1 ? " boundary" : " interface"); Coefficient &c = useq ? (Coefficient &)q : one;
            kink = 1e9; auto ref = [&](const Vector &a, Vector &b) { face(lf, *e1, e2, *T1, T2, ir, &c, U, a, b); };
            ref(x, r); double kd = kink; if (lf && where == 2) U = NULL;
            if (where < 2)
            {
               std::unique_ptr<NonlinearFormIntegrator> ni; if (lf) ni.reset(new DGLaxFriedrichsFluxIntegrator(c, U)); else ni.reset(new DGTemamFluxIntegrator(c)); ni->SetIntRule(&ir);
               const FiniteElement &ee2 = e2 ? *e2 : *e1;
               if (B()) { DenseMatrix G(I(0, 9), I(0, 9)); rnd(G); ni->AssembleFaceGrad(*e1, ee2, *T1, x, G); if (B()) { J.SetSize(I(0, 9), I(0, 9)); rnd(J); } else J = G; }
               for (int rep = 0; rep < 2; rep++) { ni->AssembleFaceVector(*e1, ee2, *T1, x, y); veq(y, r, what + " residual"); if (B()) { ni->AssembleFaceGrad(*e1, ee2, *T1, x, J); } }
               ni->AssembleFaceGrad(*e1, ee2, *T1, x, J);
            }
            else
            {
               std::unique_ptr<InterfaceNonlinearFormIntegrator> ni; if (lf) ni.reset(new DGLaxFriedrichsFluxIntegrator(c, B() ? &ud : NULL)); else ni.reset(new InterfaceDGTemamFluxIntegrator(c)); ni->SetIntRule(&ir);
               Array2D<DenseMatrix *> jm(2, 2); DenseMatrix js[4]; for (int i = 0; i < 4; i++) { js[i].SetSize(I(0, 4), I(0, 4)); rnd(js[i]); jm(i / 2, i % 2) = &js[i]; }
               if (B()) { ni->AssembleInterfaceGrad(*e1, *e2, *T1, *T2, x1, x2, jm); if (B()) for (int i = 0; i < 4; i++) { js[i].SetSize(I(0, 4), I(0, 4)); rnd(js[i]); } }
               ni->AssembleInterfaceVector(*e1, *e2, *T1, *T2, x1, x2, y1, y2); y.SetSize(n1 + n2); if (y1.Size() != n1 || y2.Size() != n2) { fail(what + " residual extents"); continue; } y.SetVector(y1, 0); y.SetVector(y2, n1); veq(y, r, what + " residual");
               ni->AssembleInterfaceGrad(*e1, *e2, *T1, *T2, x1, x2, jm); J.SetSize(n1 + n2);
               if (js[0].Height() != n1 || js[0].Width() != n1 || js[1].Height() != n1 || js[1].Width() != n2 || js[2].Height() != n2 || js[2].Width() != n1 || js[3].Height() != n2 || js[3].Width() != n2) { fail(what + " Jacobian extents"); continue; }
               J.CopyMN(js[0], 0, 0); J.CopyMN(js[1], 0, n1); J.CopyMN(js[2], n1, 0); J.CopyMN(js[3], n1, n1);
            }
            veq(x, x0, "state unchanged", 0.);
            if (lf && kd < 1e-3 && st != 2) { for (int i = 0; i < J.Height(); i++) for (int j = 0; j < J.Width(); j++) if (!std::isfinite(J(i, j))) { fail(what + " Jacobian not finite"); i = J.Height() - 1; break; } continue; }
            if (lf && st == 2 && (U == NULL || where != 1)) { JR.SetSize(n1 + n2); JR = 0.; meq(J, JR, what + " Jacobian at rest"); continue; }
            fdjac(ref, x, JR, lf ? 1e-5 : 1.); meq(J, JR, what + " Jacobian", lf ? 1e-6 : 1e-8);
         }
      }
   }
   return done();
}
