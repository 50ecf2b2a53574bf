// Reference quadrature of the interior-penalty and normal-flux terms on faces (T2 == NULL) and two-mesh interfaces.
// vector diffusion: -<{mu du/dn},[v]> + alpha <[u],{mu dv/dn}> + kappa <{mu/h}[u],[v]>
static void vdiff(const FiniteElement &e1, const FiniteElement *e2, FaceElementTransformations &T1, FaceElementTransformations *T2, const IntegrationRule &ir, Coefficient &mu, double al, double ka, DenseMatrix &R)
{
   int dim = e1.GetDim(), n[2] = {e1.GetDof(), e2 ? e2->GetDof() : 0}; R.SetSize(dim * (n[0] + n[1])); R = 0.; FPoint p; int ns = e2 ? 2 : 1;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      fpoint(e1, e2, T1, T2, ir.IntPoint(q), p, true); double w = p.w / ns, m[2], pen = 0, nn = p.n * p.n; m[0] = mu.Eval(*T1.Elem1, p.e1); if (e2) m[1] = T2 ? mu.Eval(*T2->Elem1, p.e2) : mu.Eval(*T1.Elem2, p.e2);
      pen = m[0] / p.det1; if (e2) pen += m[1] / p.det2; pen *= w * ka * nn;
      for (int a = 0; a < ns; a++) for (int i = 0; i < n[a]; i++) for (int b = 0; b < ns; b++) for (int j = 0; j < n[b]; j++)
      {
         double va = a ? -p.N2(i) : p.N1(i), ub = b ? -p.N2(j) : p.N1(j), dv = 0, du = 0; for (int l = 0; l < dim; l++) { dv += (a ? p.G2(i, l) : p.G1(i, l)) * p.n(l); du += (b ? p.G2(j, l) : p.G1(j, l)) * p.n(l); }
         double x = w * (-m[b] * du * va + al * m[a] * dv * ub) + pen * va * ub; for (int c = 0; c < dim; c++) R(dim * (a ? n[0] : 0) + c * n[a] + i, dim * (b ? n[0] : 0) + c * n[b] + j) += x;
      }
   }
}
static void nflux(const FiniteElement &e1, const FiniteElement *e2, const FiniteElement &q1, const FiniteElement *q2, FaceElementTransformations &T1, FaceElementTransformations *T2, const IntegrationRule &ir, DenseMatrix &R)
{
   int dim = e1.GetDim(), n[2] = {e1.GetDof(), e2 ? e2->GetDof() : 0}, r[2] = {q1.GetDof(), q2 ? q2->GetDof() : 0}, ns = e2 ? 2 : 1; R.SetSize(r[0] + r[1], dim * (n[0] + n[1])); R = 0.; FPoint p, t;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      fpoint(q1, q2, T1, T2, ir.IntPoint(q), t); fpoint(e1, e2, T1, T2, ir.IntPoint(q), p);
      for (int a = 0; a < ns; a++) for (int i = 0; i < r[a]; i++) for (int b = 0; b < ns; b++) for (int c = 0; c < dim; c++) for (int j = 0; j < n[b]; j++) R((a ? r[0] : 0) + i, dim * (b ? n[0] : 0) + c * n[b] + j) += p.w / ns * (b ? -p.N2(j) : p.N1(j)) * p.n(c) * (a ? t.N2(i) : t.N1(i));
   }
}
