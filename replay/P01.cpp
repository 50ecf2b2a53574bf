// SRC: linalg_utils etc
#include "linalg_utils.hpp"
#include "vr.hpp"
using namespace mfem; using namespace vr;
static SparseMatrix *rsp(int h, int w) { SparseMatrix *a = new SparseMatrix(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (I(0, 2)) a->Add(i, j, D()); a->Finalize(); return a; }
static void rows(Array<int> &r, int n, int h) { r.SetSize(n); for (int i = 0; i < n; i++) r[i] = I(0, h - 1); if (n > 1 && I(0, 3) == 0) r[n - 1] = r[0]; }
int main(int argc, char **argv)
{
   for (int it = 0; it < reps(400); it++)
   {
      int h = I(1, 9), nc = I(1, 7), nr = I(1, 10);
      DenseMatrix A(h, nc); rnd(A); Array<int> r; rows(r, nr, h);
      Vector x(nc), y(I(0, 12)), z(nr), t(nc), ref; rnd(x); rnd(y); rnd(z); rnd(t);
      casef(fmt("submatrix it=%d %dx%d rows=", it, h, nc) + s(r) + " x=" + s(x));
      DenseMatrix A0(A); MultSubMatrix(A, r, x, y); ref.SetSize(nr); ref = 0.;
      for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) ref(i) += A0(r[i], j) * x(j);
      veq(y, ref, "MultSubMatrix"); meq(A, A0, "MultSubMatrix left the matrix unchanged");
      ref = t; AddMultTransposeSubMatrix(A, r, z, t);
      for (int j = 0; j < nc; j++) for (int i = 0; i < nr; i++) ref(j) += A0(r[i], j) * z(i);
      veq(t, ref, "AddMultTransposeSubMatrix");
      rnd(t); ref = 0.; MultTransposeSubMatrix(A, r, z, t);
      for (int j = 0; j < nc; j++) for (int i = 0; i < nr; i++) ref(j) += A0(r[i], j) * z(i);
      veq(t, ref, "MultTransposeSubMatrix");

      int hp = I(1, 9), np = I(1, 6), nq = I(1, 8); DenseMatrix P(hp, np), E(nr, nq), O(nc, np), R0; rnd(P); rnd(E); rnd(O); Array<int> q; rows(q, nq, hp);
      casef(fmt("subRtAP it=%d R %dx%d P %dx%d rows=", it, h, nc, hp, np) + s(r) + " " + s(q));
      R0 = O; SparseMatrix S(nc, np); for (int i = 0; i < nc; i++) for (int j = 0; j < np; j++) S.Add(i, j, O(i, j));
      AddSubMatrixRtAP(A, r, E, P, q, O); AddSubMatrixRtAP(A, r, E, P, q, S); S.Finalize();
      for (int a = 0; a < nc; a++) for (int b = 0; b < np; b++) for (int i = 0; i < nr; i++) for (int j = 0; j < nq; j++) R0(a, b) += A0(r[i], a) * E(i, j) * P(q[j], b);
      meq(O, R0, "AddSubMatrixRtAP(dense)"); DenseMatrix SD; S.ToDenseMatrix(SD); meq(SD, R0, "AddSubMatrixRtAP(sparse)");

      int n = I(1, 8), m = I(1, 8), ra = I(1, 5), rb = I(1, 5); SparseMatrix *op = rsp(n, m); DenseMatrix L(n, ra), Q(m, rb), W, ref2(ra, rb); rnd(L); rnd(Q); ref2 = 0.;
      casef(fmt("RtAP it=%d A %dx%d R cols %d P cols %d", it, n, m, ra, rb));
      DenseMatrix od; op->ToDenseMatrix(od);
      for (int a = 0; a < ra; a++) for (int b = 0; b < rb; b++) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) ref2(a, b) += L(i, a) * od(i, j) * Q(j, b);
      RtAP(L, *op, Q, W); meq(W, ref2, "RtAP");
      DenseMatrix *dn = DenseRtAP(L, *op, Q); meq(*dn, ref2, "DenseRtAP"); delete dn;
      SparseMatrix *sp = SparseRtAP(L, *op, Q); sp->ToDenseMatrix(W); meq(W, ref2, "SparseRtAP"); delete sp;
      double w = D(); DenseMatrix B0(ra, rb), B1; rnd(B0); B1 = B0; SparseMatrix BS(ra, rb); for (int i = 0; i < ra; i++) for (int j = 0; j < rb; j++) BS.Add(i, j, B0(i, j));
      AddwRtAP(L, *op, Q, B0, w); AddwRtAP(L, *op, Q, BS, w); BS.Finalize(); B1.Add(w, ref2);
      meq(B0, B1, "AddwRtAP(dense)"); BS.ToDenseMatrix(W); meq(W, B1, "AddwRtAP(sparse)");
      if (it % 3 == 0) { // default weight
         B1 = B0; AddwRtAP(L, *op, Q, B0); B1.Add(1., ref2); meq(B0, B1, "AddwRtAP(dense, default weight)"); }
      delete op;

      int c = I(0, nc - 1); Vector el; GetBasisElement(A, c, r, el); Vector er(nr); for (int i = 0; i < nr; i++) er(i) = A0(r[i], c); veq(el, er, "GetBasisElement"); meq(A, A0, "GetBasisElement left the basis unchanged");

      // block accumulation
      int nb = I(1, 4), mb = I(1, 4); Array<int> ro(nb + 1), co(mb + 1); ro[0] = co[0] = 0; for (int i = 0; i < nb; i++) ro[i + 1] = ro[i] + I(1, 3); for (int i = 0; i < mb; i++) co[i + 1] = co[i] + I(1, 3);
      BlockMatrix bm(ro, co); bm.owns_blocks = 1; DenseMatrix full(ro.Last(), co.Last()); full = 0.;
      casef(fmt("blocks it=%d %dx%d", it, nb, mb));
      for (int rep = 0; rep < 3; rep++) {
         int bi = I(1, nb), bj = I(1, mb); Array<int> ri, ci; for (int i = 0; i < nb && ri.Size() < bi; i++) if (nb - i <= bi - ri.Size() || B()) ri.Append(i); for (int j = 0; j < mb && ci.Size() < bj; j++) if (mb - j <= bj - ci.Size() || B()) ci.Append(j);
         if (B()) for (int i = 0; i < ri.Size() / 2; i++) std::swap(ri[i], ri[ri.Size() - 1 - i]);
         MatrixBlocks mats(ri.Size(), ci.Size());
         for (int i = 0; i < ri.Size(); i++) for (int j = 0; j < ci.Size(); j++) if (I(0, 3)) {
            mats(i, j) = rsp(ro[ri[i] + 1] - ro[ri[i]], co[ci[j] + 1] - co[ci[j]]);
            DenseMatrix d; mats(i, j)->ToDenseMatrix(d); for (int a = 0; a < d.Height(); a++) for (int b = 0; b < d.Width(); b++) full(ro[ri[i]] + a, co[ci[j]] + b) += d(a, b); }
         AddToBlockMatrix(ri, ci, mats, bm);
         MatrixBlocks cp; cp = mats; expect(cp.nrows == mats.nrows && cp.ncols == mats.ncols, "MatrixBlocks copy extents");
         for (int i = 0; i < cp.nrows; i++) for (int j = 0; j < cp.ncols; j++) { expect(!cp(i, j) == !mats(i, j), "MatrixBlocks copy pattern"); if (cp(i, j) && mats(i, j)) { expect(cp(i, j) != mats(i, j), "MatrixBlocks copy is deep"); DenseMatrix d, e; cp(i, j)->ToDenseMatrix(d); mats(i, j)->ToDenseMatrix(e); meq(d, e, "MatrixBlocks copy values"); } }
      }
      bm.Finalize(); SparseMatrix *mono = bm.CreateMonolithic(); mono->ToDenseMatrix(W); delete mono; meq(W, full, "AddToBlockMatrix");

      // orthonormalisation
      int hn = I(2, 9), k1 = I(0, 3), k2 = I(1, 4); if (k1 + k2 > hn) k2 = std::max(1, hn - k1); if (k1 + k2 > hn) k1 = hn - k2;
      DenseMatrix M1(hn, k1), M2(hn, k2); rnd(M1); rnd(M2); if (I(0, 3) == 0) { double f = B() ? 1e-8 : 1e6; int c = I(0, k2 - 1); for (int i = 0; i < hn; i++) M2(i, c) *= f; }
      casef(fmt("ortho it=%d n=%d k1=%d k2=%d", it, hn, k1, k2));
      DenseMatrix G(M2); modifiedGramSchmidt(G);
      for (int a = 0; a < k2; a++) for (int b = 0; b < k2; b++) { double d = 0; for (int i = 0; i < hn; i++) d += G(i, a) * G(i, b); eq(d, a == b, "modifiedGramSchmidt orthonormal columns", 1e-6); }
      for (int a = 0; a < k2; a++) { Vector v; M2.GetColumn(a, v); Vector res(v); double vn = v.Norml2(); for (int b = 0; b <= a; b++) { Vector g; G.GetColumn(b, g); res.Add(-(v * g), g); } eq(res.Norml2() / vn, 0., "modifiedGramSchmidt keeps the span of the leading columns", 1e-6); }
      if (k1) { double sc[3]; for (int c = 0; c < 3; c++) sc[c] = I(0, 2) ? 1. + c : B() ? 1e-9 : 1e7; modifiedGramSchmidt(M1); for (int i = 0; i < hn; i++) for (int c = 0; c < k1; c++) M1(i, c) *= sc[c]; DenseMatrix M0(M1), M20(M2); Orthonormalize(M1, M2); meq(M1, M0, "Orthonormalize keeps the first matrix");
         for (int a = 0; a < k2; a++) { for (int b = 0; b < k2; b++) { double d = 0; for (int i = 0; i < hn; i++) d += M2(i, a) * M2(i, b); eq(d, a == b, "Orthonormalize orthonormal columns", 1e-6); }
            for (int b = 0; b < k1; b++) { double d = 0; for (int i = 0; i < hn; i++) d += M2(i, a) * M1(i, b); eq(d / sc[b], 0., "Orthonormalize orthogonal to the first matrix", 1e-6); } } }
   }
   return done();
}
