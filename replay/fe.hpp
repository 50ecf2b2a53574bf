// Finite-element set-ups for the replay harnesses: random distorted meshes, spaces, coefficients, rules.
#ifndef FE_HPP
#define FE_HPP
#include "vr.hpp"
#include <memory>
namespace vr {
using namespace mfem;
struct MPIGuard { MPIGuard() { MPI_Init(NULL, NULL); } ~MPIGuard() { MPI_Finalize(); } };
inline Mesh *rmesh(int dim, int kind, int nx = 2, int ny = 2, int nz = 1)
{
   Mesh *m;
   if (dim == 1) m = new Mesh(Mesh::MakeCartesian1D(nx + 1, 1.3));
   else if (dim == 2) m = new Mesh(Mesh::MakeCartesian2D(nx, ny, kind ? Element::TRIANGLE : Element::QUADRILATERAL, true, 1.1, 0.9));
   else m = new Mesh(Mesh::MakeCartesian3D(nx, ny, nz, kind ? Element::TETRAHEDRON : Element::HEXAHEDRON, 1.0, 0.9, 0.7));
   for (int v = 0; v < m->GetNV(); v++) for (int d = 0; d < dim; d++) m->GetVertex(v)[d] += D(-0.06, 0.06);
   return m;
}
// a piecewise-constant factor: which element (or face) a coefficient is evaluated on matters; with VR_POINTWISE only the point does
inline double piece(ElementTransformation &T)
{
#ifdef VR_POINTWISE
   return 1.;
#else
   return 1. + .1 * ((7 * T.ElementNo + 3 * T.ElementType) % 5) + .05 * (T.Attribute % 3);
#endif
}
struct FCoef : public Coefficient // depends on the physical point and the element
{
   double a, b, c; FCoef() : a(D(0.5, 1.5)), b(D(-.3, .3)), c(D(-.3, .3)) {}
   double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { double x[3] = {0, 0, 0}; Vector t(x, 3); T.Transform(ip, t); return piece(T) * (a + b * x[0] + c * x[1] * x[1] + 0.17 * x[2]); }
};
struct VCoef : public VectorCoefficient
{
   DenseMatrix A; Vector c; VCoef(int d) : VectorCoefficient(d), A(d, 3), c(d) { rnd(A); rnd(c); }
   void Eval(Vector &V, ElementTransformation &T, const IntegrationPoint &ip) override { double x[3] = {0, 0, 0}; Vector t(x, 3); T.Transform(ip, t); V.SetSize(vdim); for (int i = 0; i < vdim; i++) { V(i) = c(i); for (int j = 0; j < 3; j++) V(i) += A(i, j) * x[j]; V(i) *= piece(T); } }
   using VectorCoefficient::Eval;
};
struct MCoef : public MatrixCoefficient
{
   DenseMatrix A; MCoef(int d, bool sym = true) : MatrixCoefficient(d), A(d, d) { rnd(A); if (sym) { for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) A(i, j) = A(j, i); } for (int i = 0; i < d; i++) A(i, i) += 3.; }
   void Eval(DenseMatrix &K, ElementTransformation &T, const IntegrationPoint &ip) override { double x[3] = {0, 0, 0}; Vector t(x, 3); T.Transform(ip, t); K = A; K *= (1. + .3 * x[0] - .1 * x[1]) * piece(T); }
};
// a rule with arbitrary points inside the reference cell and arbitrary weights
inline void rrule(IntegrationRule &r, Geometry::Type g, int n, int which = 0)
{
   const IntegrationRule &b = IntRules.Get(g, 6); r.SetSize(n); r.SetOrder(3);
   for (int i = 0; i < n; i++) { const IntegrationPoint &p = b.IntPoint(I(0, b.GetNPoints() - 1)); r.IntPoint(i).Set(p.x, p.y, p.z, D(.2, 1.)); r.IntPoint(i).index = i; }
}
inline FiniteElementCollection *rfec(int dim, int order, bool l2) { if (l2) return new L2_FECollection(order, dim, BasisType::GaussLobatto); return new H1_FECollection(order, dim); }
// physical gradients, dof x dim
inline void gradN(const FiniteElement &el, ElementTransformation &T, const IntegrationPoint &ip, DenseMatrix &g)
{
   DenseMatrix ds(el.GetDof(), el.GetDim()); el.CalcDShape(ip, ds); T.SetIntPoint(&ip); g.SetSize(el.GetDof(), el.GetDim()); const DenseMatrix &Ji = T.InverseJacobian();
   for (int i = 0; i < g.Height(); i++) for (int d = 0; d < g.Width(); d++) { g(i, d) = 0.; for (int k = 0; k < g.Width(); k++) g(i, d) += ds(i, k) * Ji(k, d); }
}
inline void shapeN(const FiniteElement &el, const IntegrationPoint &ip, Vector &s) { s.SetSize(el.GetDof()); el.CalcShape(ip, s); }
// one point on a face or interface: values on both sides, scaled normal
struct FPoint { Vector N1, N2, n; DenseMatrix G1, G2; double w, det1, det2; IntegrationPoint e1, e2; };
inline void fpoint(const FiniteElement &el1, const FiniteElement *el2, FaceElementTransformations &T1, FaceElementTransformations *T2, const IntegrationPoint &ip, FPoint &p, bool grads = false)
{
   const int dim = el1.GetDim(); T1.SetAllIntPoints(&ip); if (T2 && T2 != &T1) T2->SetAllIntPoints(&ip);
   p.e1 = T1.GetElement1IntPoint(); p.n.SetSize(dim);
   if (dim == 1) p.n(0) = 2 * p.e1.x - 1.;
   else { const DenseMatrix &J = T1.Jacobian(); if (dim == 2) { p.n(0) = J(1, 0); p.n(1) = -J(0, 0); } else for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; p.n(i) = J(a, 0) * J(b, 1) - J(b, 0) * J(a, 1); } }
   shapeN(el1, p.e1, p.N1); p.w = ip.weight; p.N2.SetSize(0); p.det1 = p.det2 = 0;
   if (grads) { gradN(el1, *T1.Elem1, p.e1, p.G1); p.det1 = T1.Elem1->Weight(); }
   if (el2) { if (T2 && T2 != &T1) { p.e2 = T2->GetElement1IntPoint(); shapeN(*el2, p.e2, p.N2); if (grads) { gradN(*el2, *T2->Elem1, p.e2, p.G2); p.det2 = T2->Elem1->Weight(); } }
      else { p.e2 = T1.GetElement2IntPoint(); shapeN(*el2, p.e2, p.N2); if (grads) { gradN(*el2, *T1.Elem2, p.e2, p.G2); p.det2 = T1.Elem2->Weight(); } } }
}
typedef std::function<void(const Vector &, Vector &)> VFun;
// central difference: exact for quadratic functions whatever the step
inline void fdjac(const VFun &f, const Vector &x, DenseMatrix &J, double h)
{
   Vector xp(x), a, b; for (int j = 0; j < x.Size(); j++) { xp(j) = x(j) + h; f(xp, a); xp(j) = x(j) - h; f(xp, b); xp(j) = x(j); if (j == 0) J.SetSize(a.Size(), x.Size()); for (int i = 0; i < a.Size(); i++) J(i, j) = (a(i) - b(i)) / (2 * h); }
}
}
#endif
