// Reference quadrature of the nonlinear terms.
#ifndef NL_HPP
#define NL_HPP
#define VR_POINTWISE
#include "fe.hpp"
using namespace mfem; using namespace vr;
static void field(const Vector &N, const Vector &x, int off, int dim, double *u) { int nd = N.Size(); for (int c = 0; c < dim; c++) { u[c] = 0; for (int i = 0; i < nd; i++) u[c] += N(i) * x(off + c * nd + i); } }
static double dot(const double *a, const Vector &n) { double d = 0; for (int i = 0; i < n.Size(); i++) d += a[i] * n(i); return d; }
static double nrm(const double *a, int n) { double d = 0; for (int i = 0; i < n; i++) d += a[i] * a[i]; return sqrt(d); }
// domain terms
static void domain(int form, const FiniteElement &el, ElementTransformation &T, const IntegrationRule &ir, Coefficient *Q, VectorCoefficient *vQ, const Vector &x, Vector &y)
{
   int nd = el.GetDof(), dim = el.GetDim(); y.SetSize(nd * dim); y = 0.; Vector N, vq; DenseMatrix G;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); shapeN(el, ip, N); gradN(el, T, ip, G); double w = ip.weight * T.Weight(); if (Q) w *= Q->Eval(T, ip);
      double u[3], g[3][3], v[3]; field(N, x, 0, dim, u); for (int c = 0; c < dim; c++) for (int l = 0; l < dim; l++) { g[c][l] = 0; for (int i = 0; i < nd; i++) g[c][l] += G(i, l) * x(c * nd + i); }
      for (int l = 0; l < dim; l++) v[l] = u[l]; if (form == 1 && vQ) { vQ->Eval(vq, T, ip); for (int l = 0; l < dim; l++) v[l] = vq(l); }
      for (int c = 0; c < dim; c++) for (int i = 0; i < nd; i++) { double cv = 0, ct = 0; for (int l = 0; l < dim; l++) { cv += v[l] * g[c][l]; ct += u[l] * G(i, l); }
         y(c * nd + i) += w * (form == 0 ? .5 * (cv * N(i) - ct * u[c]) : form == 1 ? cv * N(i) : ct * u[c]); }
   }
}
// Lax-Friedrichs (lf) or Temam flux through a face: y1 tested on side 1, y2 on side 2
static double kink; // smallest distance to the kink of the speed met
static void face(bool lf, const FiniteElement &el1, const FiniteElement *el2, FaceElementTransformations &T1, FaceElementTransformations *T2, const IntegrationRule &ir, Coefficient *Q, VectorCoefficient *UD, const Vector &x, Vector &y)
{
   int dim = el1.GetDim(), n1 = el1.GetDof(), n2 = el2 ? el2->GetDof() : 0; y.SetSize(dim * (n1 + n2)); y = 0.; FPoint p; Vector ud;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); fpoint(el1, el2, T1, T2, ip, p); double w = p.w; if (Q) w *= Q->Eval(*T1.Elem1, p.e1);
      double u1[3], u2[3], F1[3], F2[3]; field(p.N1, x, 0, dim, u1); bool has2 = el2;
      if (el2) field(p.N2, x, dim * n1, dim, u2); else if (lf && UD) { UD->Eval(ud, *T1.Elem1, p.e1); for (int l = 0; l < dim; l++) u2[l] = ud(l); has2 = true; }
      if (lf) { if (!has2) for (int c = 0; c < dim; c++) F1[c] = -dot(u1, p.n) * u1[c];
         else { double a = nrm(u1, dim), b = nrm(u2, dim); kink = std::min(kink, fabs(a - b)); double lam = std::max(a, b) * p.n.Norml2(); for (int c = 0; c < dim; c++) F1[c] = -(.5 * dot(u1, p.n) * u1[c] + .5 * dot(u2, p.n) * u2[c] + lam * (u1[c] - u2[c])); }
         for (int c = 0; c < dim; c++) F2[c] = -F1[c]; }
      else for (int c = 0; c < dim; c++) { double k = .5 * dot(u1, p.n); F1[c] = el2 ? -k * u2[c] : k * u1[c]; F2[c] = k * u1[c]; }
      for (int c = 0; c < dim; c++) { for (int i = 0; i < n1; i++) y(c * n1 + i) += w * F1[c] * p.N1(i); for (int i = 0; i < n2; i++) y(dim * n1 + c * n2 + i) += w * F2[c] * p.N2(i); }
   }
}

#endif
