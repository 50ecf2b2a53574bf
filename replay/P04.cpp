// SRC: block_smoother linalg_utils etc
#include "block_smoother.hpp"
#include "vr.hpp"
using namespace mfem; using namespace vr;
struct Sys {   // random block system, dense copy, absent off-diagonal blocks
   int n; Array<int> off; DenseMatrix A; std::vector<SparseMatrix *> own; BlockMatrix *M = NULL; std::string d;
   Sys(const Array<int> &off_, double dens) : n(off_.Size() - 1), off(off_), A(off_.Last()) {
      A = 0.; M = new BlockMatrix(off); d = "offsets=" + s(off) + " blocks=";
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
         int h = off[i + 1] - off[i], w = off[j + 1] - off[j]; if (i != j && D(0, 1) > dens) { d += "-"; continue; } d += i == j ? "d" : "x";
         SparseMatrix *S = new SparseMatrix(h, w);
         for (int r = 0; r < h; r++) for (int c = 0; c < w; c++) { double v = i == j ? D() + (r == c ? 4 : 0) : (D(0, 1) < .3 ? 0. : D(-.8, .8)); if (v == 0.) continue; S->Set(r, c, v); A(off[i] + r, off[j] + c) = v; }
         S->Finalize(); own.push_back(S); M->SetBlock(i, j, S); } }
   void dsolve(int b, const Vector &r, Vector &z) const { int h = off[b + 1] - off[b]; DenseMatrix B(h); for (int i = 0; i < h; i++) for (int j = 0; j < h; j++) B(i, j) = A(off[b] + i, off[b] + j); B.Invert(); B.Mult(r, z); }
   void row(int b, const Vector &x, Vector &y) const { int h = off[b + 1] - off[b]; Vector r(h), z(h);
      for (int i = 0; i < h; i++) { r(i) = x(off[b] + i); for (int k = 0; k < y.Size(); k++) if (k < off[b] || k >= off[b + 1]) r(i) -= A(off[b] + i, k) * y(k); }
      dsolve(b, r, z); for (int i = 0; i < h; i++) y(off[b] + i) = z(i); }
   ~Sys() { delete M; for (auto p : own) delete p; } };
int main()
{
   for (int it = 0; it < reps(800); it++) {
      int n = I(1, 5); Array<int> off(n + 1); off[0] = 0; for (int i = 0; i < n; i++) off[i + 1] = off[i] + I(1, 4);
      Sys S(off, D(0, 1)); int type = it % 3, its = I(0, 4); bool im = B(); bool late = it % 5 == 0;
      Vector x(off[n]), y(off[n]), r; rnd(x); rnd(y); r = y; Vector x0(x);
      casef(fmt("it=%d gauss-seidel type=%d sweeps=%d iterative=%d set-operator=%d ", it, type, its, (int)im, (int)late) + S.d + " x=" + s(x) + " y=" + s(y));
      Sys *other = late && B() ? new Sys(off, .5) : NULL;
      BlockGSSmoother *G = late ? (other ? new BlockGSSmoother(*other->M, type, its) : new BlockGSSmoother(type, its)) : new BlockGSSmoother(*S.M, type, its);
      if (late) G->SetOperator(*S.M);
      G->iterative_mode = im; int rp = I(1, 2); 
      for (int q = 0; q < rp; q++) { G->Mult(x, y); if (!im) r = 0.; for (int k = 0; k < its; k++) { if (type != 2) for (int b = 0; b < n; b++) S.row(b, x, r); if (type != 1) for (int b = n - 1; b >= 0; b--) S.row(b, x, r); } }
      double sc = r.Size() ? r.Normlinf() : 0.; if (sc < 1e8) veq(y, r, "Gauss-Seidel sweeps", 1e-8, sc); veq(x, x0, "input unchanged", 0.);
      expect(G->Height() == off[n] && G->Width() == off[n], "size of the preconditioner");
      rnd(y); r = y; casef(fmt("it=%d one sweep ", it) + S.d + " x=" + s(x) + " y=" + s(y)); bool fw = B();
      if (fw) { G->BlockGaussSeidelForw(x, y); for (int b = 0; b < n; b++) S.row(b, x, r); } else { G->BlockGaussSeidelBack(x, y); for (int b = n - 1; b >= 0; b--) S.row(b, x, r); }
      veq(y, r, fw ? "forward sweep" : "backward sweep", 1e-8, r.Normlinf()); delete G; 
      casef(fmt("it=%d jacobi set-operator=%d ", it, (int)late) + S.d + " x=" + s(x));
      BlockDSmoother *J = late ? (other ? new BlockDSmoother(*other->M) : new BlockDSmoother()) : new BlockDSmoother(*S.M); if (late) J->SetOperator(*S.M);
      rnd(y); J->Mult(x, y); for (int b = 0; b < n; b++) { int h = off[b + 1] - off[b]; Vector a(h), z(h), g(h); for (int i = 0; i < h; i++) { a(i) = x(off[b] + i); g(i) = y(off[b] + i); } S.dsolve(b, a, z); veq(g, z, fmt("Jacobi block %d", b), 1e-8); }
      veq(x, x0, "input unchanged", 0.); delete J; delete other;
   }
   return done();
}
