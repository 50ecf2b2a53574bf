// SRC: nonlinear_integ hyperreduction_integ interfaceinteg hdf5_utils etc linalg_utils input_parser
#include "nonlinear_integ.hpp"
#include "interfaceinteg.hpp"
#include "nl.hpp"
// values of the basis vectors (columns of Phi, element unknowns byNODES) at a point: dim x nb
static DenseMatrix *vals(const Vector &N, const DenseMatrix &Phi, int off, int dim)
{
   int nd = N.Size(); DenseMatrix *S = new DenseMatrix(dim, Phi.Width()); *S = 0.;
   for (int k = 0; k < Phi.Width(); k++) for (int c = 0; c < dim; c++) for (int i = 0; i < nd; i++) (*S)(c, k) += N(i) * Phi(off + c * nd + i, k);
   return S;
}
static void grads(const DenseMatrix &G, const DenseMatrix &Phi, int dim, Array<DenseMatrix *> &out)
{
   int nd = G.Height(); out.SetSize(Phi.Width());
   for (int k = 0; k < Phi.Width(); k++) { out[k] = new DenseMatrix(dim); *out[k] = 0.; for (int c = 0; c < dim; c++) for (int l = 0; l < dim; l++) for (int i = 0; i < nd; i++) (*out[k])(c, l) += G(i, l) * Phi(c * nd + i, k); }
}
struct Case { std::unique_ptr<EQPSample> s; VFun ref; Vector x, y0; std::string what; double kink; std::function<void(const Vector &, Vector &)> vec; std::function<void(const Vector &, DenseMatrix &)> grad; int nb; bool smooth; };
int main()
{
   MPIGuard mpi;
   for (int it = 0; it < reps(60); it++)
   {
      int dim = I(1, 3), kind = I(0, 1), ord = I(1, dim == 3 ? 1 : 3);
      std::unique_ptr<Mesh> m(rmesh(dim, kind)), m2(rmesh(dim, kind)); std::unique_ptr<FiniteElementCollection> fc(rfec(dim, ord, B())), fc2(rfec(dim, B() ? ord : 1, B()));
      FiniteElementSpace fes(m.get(), fc.get(), dim), fes2(m2.get(), fc2.get(), dim); FCoef q; VCoef vq(dim), ud(dim); ConstantCoefficient one(1.); bool useq = I(0, 3), wv = useq && B();
      IntegrationRule ir; rrule(ir, fes.GetFE(0)->GetGeomType(), I(1, 5)); IsoparametricTransformation T;
      std::unique_ptr<HyperReductionIntegrator> dom[2]; dom[0].reset(useq ? new VectorConvectionTrilinearFormIntegrator(q, wv ? &vq : NULL) : new VectorConvectionTrilinearFormIntegrator()); dom[1].reset(useq ? new IncompressibleInviscidFluxNLFIntegrator(q) : new IncompressibleInviscidFluxNLFIntegrator()); dom[0]->SetIntRule(&ir); dom[1]->SetIntRule(&ir);
      // several samples evaluated through the same integrator objects, vectors and Jacobians interleaved
      int ns = I(1, 4);
      for (int sn = 0; sn < ns && dim > 1; sn++) for (int form = 1; form < 3; form++)
      {
         int e = I(0, m->GetNE() - 1), nb = I(1, 4); const FiniteElement &el = *fes.GetFE(e); m->GetElementTransformation(e, &T); int qp = I(0, ir.GetNPoints() - 1); double w = D(.2, 2.); const IntegrationPoint &ip = ir.IntPoint(qp);
         DenseMatrix Phi(el.GetDof() * dim, nb); rnd(Phi); Vector x(nb), y(nb), y0, x0, N, r; rnd(x); rnd(y); y0 = y; x0 = x; DenseMatrix G, J(nb), J0, JR; rnd(J); J0 = J;
         EQPSample s(SampleInfo({.el = e, .qp = qp, .qw = w})); shapeN(el, ip, N); gradN(el, T, ip, G); s.shape1 = vals(N, Phi, 0, dim); grads(G, Phi, dim, s.dshape1);
         std::string nm = form == 1 ? "VectorConvection" : "IncompressibleInviscidFlux";
         casef(fmt("%s it=%d sample=%d dim=%d kind=%d order=%d element=%d point=%d weight=%.4g basis=%d coefficient=%d velocity=%d", nm.c_str(), it, sn, dim, kind, ord, e, qp, w, nb, useq, wv));
         IntegrationRule o1(1); o1.IntPoint(0) = ip; o1.IntPoint(0).weight = w; auto ref = [&](const Vector &a, Vector &b) { Vector f(Phi.Height()), g; Phi.Mult(a, f); domain(form, el, T, o1, useq ? &q : NULL, wv ? &vq : NULL, f, g); b.SetSize(nb); Phi.MultTranspose(g, b); };
         HyperReductionIntegrator &ni = *dom[form - 1]; ElementTransformation &ET = T; if (B()) { ni.AddAssembleVector_Fast(s, ET, x, y); ni.AddAssembleGrad_Fast(s, ET, x, J); } else { ni.AddAssembleGrad_Fast(s, ET, x, J); ni.AddAssembleVector_Fast(s, ET, x, y); }
         ref(x, r); r += y0; veq(y, r, nm + " fast residual"); fdjac(ref, x, JR, 1.); JR += J0; meq(J, JR, nm + " fast Jacobian", 1e-8); veq(x, x0, "reduced state unchanged", 0.);
         // a second evaluation with the same arguments adds the same again
         Vector y1(y); y1 -= y0; ni.AddAssembleVector_Fast(s, ET, x, y); y -= y0; y1 *= 2.; veq(y, y1, nm + " repeated fast residual"); DenseMatrix J1(J); J1 -= J0; ni.AddAssembleGrad_Fast(s, ET, x, J); J -= J0; J1 *= 2.; meq(J, J1, nm + " repeated fast Jacobian");
      }
      VectorCoefficient *U = B() ? &ud : NULL; Coefficient &c = useq ? (Coefficient &)q : one; DGLaxFriedrichsFluxIntegrator ni(c, U); Geometry::Type fg = dim == 1 ? Geometry::POINT : dim == 2 ? Geometry::SEGMENT : kind ? Geometry::TRIANGLE : Geometry::SQUARE; IntegrationRule fr; rrule(fr, fg, I(1, 4)); ni.NonlinearFormIntegrator::SetIntRule(&fr);
      for (int sn = 0; sn < I(2, 6); sn++)
      {
         int where = I(0, 2); FaceElementTransformations *T1, *T2 = NULL; const FiniteElement *e1, *e2 = NULL;
         if (where == 0) { int f; do { f = I(0, m->GetNumFaces() - 1); } while (!m->FaceIsInterior(f)); T1 = m->GetInteriorFaceTransformations(f); e1 = fes.GetFE(T1->Elem1No); e2 = fes.GetFE(T1->Elem2No); }
         else { T1 = m->GetBdrFaceTransformations(I(0, m->GetNBE() - 1)); e1 = fes.GetFE(T1->Elem1No); if (where == 2) { T2 = m2->GetBdrFaceTransformations(I(0, m2->GetNBE() - 1)); e2 = fes2.GetFE(T2->Elem1No); } }
         int n1 = e1->GetDof() * dim, n2 = e2 ? e2->GetDof() * dim : 0, nb1 = I(1, 4), nb2 = where == 2 ? I(1, 4) : nb1, nx = where == 2 ? nb1 + nb2 : nb1; int qp = I(0, fr.GetNPoints() - 1); double w = D(.2, 2.); const IntegrationPoint &ip = fr.IntPoint(qp); FPoint p; fpoint(*e1, e2, *T1, T2, ip, p);
         DenseMatrix P1(n1, nb1), P2(n2, nb2); rnd(P1); rnd(P2); Vector x(nx), y(nx), y0, x0, r; rnd(x); rnd(y); int st = I(0, 9); if (st == 0) x = 0.; if (st == 1 && where == 2) for (int i = 0; i < nb1; i++) x(i) = 0.; y0 = y; x0 = x; Vector xa(x, 0, nb1), xb(x, nx - nb2, nb2), ya(y, 0, nb1), yb(y, nx - nb2, nb2);
         EQPSample s(SampleInfo({.el = 0, .qp = qp, .qw = w})); s.shape1 = vals(p.N1, P1, 0, dim); if (e2) s.shape2 = vals(p.N2, P2, 0, dim); const char *wn[] = {"interior", "boundary", "interface"}; std::string nm = std::string("DGLaxFriedrichsFlux ") + wn[where];
         casef(fmt("%s it=%d sample=%d dim=%d kind=%d order=%d dofs=%d,%d point=%d weight=%.4g basis=%d,%d coefficient=%d boundary-data=%d state-case=%d", nm.c_str(), it, sn, dim, kind, ord, n1, n2, qp, w, nb1, nb2, useq, U != NULL, st));
         IntegrationRule o1(1); o1.IntPoint(0) = ip; o1.IntPoint(0).weight = w;
         auto ref = [&](const Vector &a, Vector &b) { Vector f(n1 + n2), fa(f, 0, n1), fb(f, n1, n2), g, aa(const_cast<Vector &>(a), 0, nb1), ab(const_cast<Vector &>(a), nx - nb2, nb2); P1.Mult(aa, fa); if (e2) P2.Mult(ab, fb); face(true, *e1, e2, *T1, T2, o1, &c, U, f, g); Vector ga(g, 0, n1), gb(g, n1, n2); b.SetSize(nx); b = 0.; Vector ba(b, 0, nb1), bb(b, nx - nb2, nb2); P1.AddMultTranspose(ga, ba); if (e2) P2.AddMultTranspose(gb, bb); };
         DenseMatrix J(nx), J0, JR; rnd(J); J0 = J; Array2D<SparseMatrix *> jm(2, 2); 
         auto vec = [&]() { if (where < 2) ni.AddAssembleVector_Fast(s, *T1, x, y); else ni.AddAssembleVector_Fast(s, *T1, *T2, xa, xb, ya, yb); };
         auto grad = [&]() { if (where < 2) { ni.AddAssembleGrad_Fast(s, *T1, x, J); return; }
            for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { int h = a ? nb2 : nb1, v = b ? nb2 : nb1; jm(a, b) = new SparseMatrix(h, v); for (int i = 0; i < h; i++) for (int j = 0; j < v; j++) jm(a, b)->Add(i, j, J(a * nb1 + i, b * nb1 + j)); }
            ni.AddAssembleGrad_Fast(s, *T1, *T2, xa, xb, jm);
            for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { jm(a, b)->Finalize(); DenseMatrix d; jm(a, b)->ToDenseMatrix(d); J.CopyMN(d, a * nb1, b * nb1); delete jm(a, b); } };
         if (B()) { vec(); grad(); } else { grad(); vec(); }
         kink = 1e9; ref(x, r); double kd = kink; r += y0; veq(y, r, nm + " fast residual"); veq(x, x0, "reduced state unchanged", 0.);
         Vector y1(y); y1 -= y0; vec(); y -= y0; y1 *= 2.; veq(y, y1, nm + " repeated fast residual"); DenseMatrix Jc(J), J1(J); J1 -= J0; grad(); J -= J0; J1 *= 2.; meq(J, J1, nm + " repeated fast Jacobian");
         if (kd < 1e-3 && st != 0) continue;
         if (st == 0 && (U == NULL || where != 1)) { meq(Jc, J0, nm + " fast Jacobian at rest"); continue; }
         fdjac(ref, x, JR, 1e-5); JR += J0; meq(Jc, JR, nm + " fast Jacobian", 1e-6);
      }
   }
   return done();
}
