// SRC: linalg_utils etc
#include "linalg_utils.hpp"
#include "vr.hpp"
using namespace mfem; using namespace vr;
int main(int argc, char **argv)
{
   for (int it = 0; it < reps(600); it++)
   {
      int a = I(1, 6), b = I(1, 6), c = I(1, 6); DenseTensor T(a, b, c); rnd(T); Vector xi(a), xj(b), xk(c), y(c), r(c); rnd(xi); rnd(xj); rnd(xk); rnd(y); double w = D();
      casef(fmt("tensor it=%d %dx%dx%d w=%g xi=", it, a, b, c, w) + s(xi) + " xj=" + s(xj));
      TensorContract(T, xi, xj, y); r = 0.; for (int k = 0; k < c; k++) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) r(k) += T(i, j, k) * xi(i) * xj(j); veq(y, r, "TensorContract");
      rnd(y); Vector y0(y); TensorAddScaledContract(T, w, xi, xj, y); y0.Add(w, r); veq(y, y0, "TensorAddScaledContract");
      DenseMatrix M(a, b), R(a, b); rnd(M); R = 0.; TensorMult(T, xk, M); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) R(i, j) += T(i, j, k) * xk(k); meq(M, R, "TensorMult");
      DenseMatrix N(a, c), S; rnd(N); S = N; TensorAddMultOnJ(T, xj, N); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) S(i, k) += T(i, j, k) * xj(j); meq(N, S, "TensorAddMultOnJ");
      for (int sc = 0; sc < 2; sc++) for (int ax = 0; ax < 2; ax++) {
         DenseMatrix O(c, ax ? a : b), Q; rnd(O); Q = O; double ww = sc ? w : 1.;
         if (sc) TensorAddScaledMultTranspose(T, w, ax ? xj : xi, ax, O); else TensorAddMultTranspose(T, ax ? xj : xi, ax, O);
         for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < c; k++) Q(k, ax ? i : j) += ww * T(i, j, k) * (ax ? xj(j) : xi(i));
         meq(O, Q, fmt("TensorAdd%sMultTranspose axis %d", sc ? "Scaled" : "", ax)); }
   }
   return done();
}
