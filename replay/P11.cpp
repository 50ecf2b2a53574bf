// SRC: hdf5_utils linalg_utils etc
#include "hdf5_utils.hpp"
#include "vr.hpp"
#include <functional>
using namespace mfem; using namespace vr; using namespace hdf5_utils;
typedef std::function<void(hid_t &)> Fn;
static double dv() { switch (I(0, 5)) { case 0: return 0.; case 1: return D(-1e300, 1e300); case 2: return D() * 1e-300; case 3: return I(-9, 9); default: return D(); } }
static int iv() { return B() ? I(-9, 9) : I(-2147483647, 2147483647); }
static std::string sv() { std::string r; int n = I(0, 3) ? I(0, 12) : I(0, 300); for (int i = 0; i < n; i++) r += (char)I(32, 126); return r; }
static bool same(double a, double b) { return a == b; }
template <class T> static T gv(); template <> int gv<int>() { return iv(); } template <> double gv<double>() { return dv(); } template <> bool gv<bool>() { return B(); }
template <class T> static void junk(Array<T> &a) { a.SetSize(I(0, 6)); for (int i = 0; i < a.Size(); i++) a[i] = gv<T>(); }
template <class T> static void junk(Array2D<T> &a) { a.SetSize(I(0, 4), I(0, 4)); for (int i = 0; i < a.NumRows(); i++) for (int j = 0; j < a.NumCols(); j++) a(i, j) = gv<T>(); }
static SparseMatrix *sparse(int h, int w, double dens) { SparseMatrix *S = new SparseMatrix(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (D(0, 1) < dens) S->Set(i, j, dv()); S->Finalize(I(0, 1)); if (B()) S->SortColumnIndices(); return S; }
static double at(const SparseMatrix *S, int i, int j) { if (!S) return 0.; Array<int> c; Vector v; S->GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) if (c[k] == j) return v(k); return 0.; }
static void spsame(const SparseMatrix *g, const SparseMatrix *w, int h, int wd, const std::string &what, bool exact) {
   if (!g && w && w->NumNonZeroElems() > 0) { fail(what + ": the matrix is absent"); return; }
   if (g && (g->Height() != h || g->Width() != wd)) { fail(what + fmt(": %d x %d, specified %d x %d", g->Height(), g->Width(), h, wd)); return; }
   if (exact && g->NumNonZeroElems() != w->NumNonZeroElems()) { fail(what + ": number of entries"); return; }
   for (int i = 0; i < h; i++) for (int j = 0; j < wd; j++) if (!same(at(g, i, j), at(w, i, j))) { fail(what + fmt(": entry (%d,%d) got %.17g, specified %.17g", i, j, at(g, i, j), at(w, i, j))); return; } }
template <class T> static void arr(std::string n, Fn &w, Fn &r, std::string &d) {
   auto a = std::make_shared<Array<T>>(); junk(*a); d += fmt("Array(%d) ", a->Size());
   w = [=](hid_t &f) { WriteDataset(f, n, *a); };
   r = [=](hid_t &f) { Array<T> b; if (B()) junk(b); ReadDataset(f, n, b); if (b.Size() != a->Size()) { fail(fmt("array %s: size %d, specified %d", n.c_str(), b.Size(), a->Size())); return; } for (int i = 0; i < b.Size(); i++) if (!same(b[i], (*a)[i])) { fail(fmt("array %s entry %d", n.c_str(), i)); return; }
      hsize_t *dm = NULL; int nd = GetDatasetSize(f, n, dm); expect(nd == 1 && (int)dm[0] == a->Size(), "size of an array in the file"); delete[] dm; }; }
template <class T> static void arr2(std::string n, Fn &w, Fn &r, std::string &d) {
   auto a = std::make_shared<Array2D<T>>(); junk(*a); d += fmt("Array2D(%d,%d) ", a->NumRows(), a->NumCols());
   w = [=](hid_t &f) { WriteDataset(f, n, *a); };
   r = [=](hid_t &f) { Array2D<T> b; if (B()) junk(b); ReadDataset(f, n, b); if (b.NumRows() != a->NumRows() || b.NumCols() != a->NumCols()) { fail(fmt("2D array %s: %d x %d, specified %d x %d", n.c_str(), b.NumRows(), b.NumCols(), a->NumRows(), a->NumCols())); return; }
      for (int i = 0; i < b.NumRows(); i++) for (int j = 0; j < b.NumCols(); j++) if (!same(b(i, j), (*a)(i, j))) { fail(fmt("2D array %s entry (%d,%d)", n.c_str(), i, j)); return; } }; }
template <class T> static void att(std::string n, Fn &w, Fn &r, std::string &d) { T v = gv<T>(); d += "attribute "; w = [=](hid_t &f) { WriteAttribute(f, n, v); }; r = [=](hid_t &f) { T x = gv<T>(); ReadAttribute(f, n, x); expect(same(x, v), "attribute " + n + fmt(": got %.17g, specified %.17g", (double)x, (double)v)); }; }
static void make(std::string n, Fn &w, Fn &r, std::string &d)
{
   switch (I(0, 17)) {
   case 0: arr<int>(n, w, r, d); break; case 1: arr<double>(n, w, r, d); break; case 2: arr<bool>(n, w, r, d); break;
   case 3: arr2<int>(n, w, r, d); break; case 4: arr2<double>(n, w, r, d); break; case 5: arr2<bool>(n, w, r, d); break;
   case 6: att<int>(n, w, r, d); break; case 7: att<double>(n, w, r, d); break; case 8: att<bool>(n, w, r, d); break;
   case 9: { std::string v = sv(); d += fmt("string(%d) ", (int)v.size()); w = [=](hid_t &f) { WriteAttribute(f, n, v); }; r = [=](hid_t &f) { std::string x = sv(); ReadAttribute(f, n, x); expect(x == v, "string attribute: got '" + x + "', specified '" + v + "'"); }; break; }
   case 10: { BasisTag v(sv(), B() ? "" : sv()); d += "tag "; w = [=](hid_t &f) { WriteAttribute(f, n, v); }; r = [=](hid_t &f) { BasisTag x(sv(), sv()); ReadAttribute(f, n, x); expect(x.comp == v.comp && x.var == v.var, "basis tag: got '" + x.comp + "','" + x.var + "', specified '" + v.comp + "','" + v.var + "'"); }; break; }
   case 11: { auto a = std::make_shared<Vector>(I(1, 7)); for (int i = 0; i < a->Size(); i++) (*a)(i) = dv(); d += fmt("Vector(%d) ", a->Size());
      w = [=](hid_t &f) { WriteDataset(f, n, *a); }; r = [=](hid_t &f) { Vector b(I(0, 6)); b = 7.; ReadDataset(f, n, b); expect(b.Size() == a->Size(), "size of a vector"); if (b.Size() == a->Size()) for (int i = 0; i < b.Size(); i++) if (!same(b(i), (*a)(i))) { fail("entry of a vector"); return; } }; break; }
   case 12: { auto a = std::make_shared<DenseMatrix>(I(0, 4), I(0, 4)); for (int i = 0; i < a->Height(); i++) for (int j = 0; j < a->Width(); j++) (*a)(i, j) = dv(); d += fmt("DenseMatrix(%d,%d) ", a->Height(), a->Width());
      w = [=](hid_t &f) { WriteDataset(f, n, *a); }; r = [=](hid_t &f) { DenseMatrix b(I(0, 4), I(0, 4)); b = 7.; ReadDataset(f, n, b); if (b.Height() != a->Height() || b.Width() != a->Width()) { fail(fmt("matrix: %d x %d, specified %d x %d", b.Height(), b.Width(), a->Height(), a->Width())); return; } for (int i = 0; i < b.Height(); i++) for (int j = 0; j < b.Width(); j++) if (!same(b(i, j), (*a)(i, j))) { fail(fmt("matrix entry (%d,%d)", i, j)); return; } }; break; }
   case 13: { auto a = std::make_shared<DenseTensor>(I(0, 3), I(0, 3), I(0, 3)); for (int k = 0; k < a->SizeK(); k++) for (int i = 0; i < a->SizeI(); i++) for (int j = 0; j < a->SizeJ(); j++) (*a)(i, j, k) = dv(); d += fmt("DenseTensor(%d,%d,%d) ", a->SizeI(), a->SizeJ(), a->SizeK());
      w = [=](hid_t &f) { WriteDataset(f, n, *a); }; r = [=](hid_t &f) { DenseTensor b(I(0, 3), I(0, 3), I(0, 3)); b = 7.; ReadDataset(f, n, b); if (b.SizeI() != a->SizeI() || b.SizeJ() != a->SizeJ() || b.SizeK() != a->SizeK()) { fail("extents of a tensor"); return; }
         for (int k = 0; k < a->SizeK(); k++) for (int i = 0; i < a->SizeI(); i++) for (int j = 0; j < a->SizeJ(); j++) if (!same((*a)(i, j, k), b(i, j, k))) { fail(fmt("tensor entry (%d,%d,%d)", i, j, k)); return; } }; break; }
   case 14: { int h = I(1, 6), wd = I(1, 6); std::shared_ptr<SparseMatrix> a(sparse(h, wd, D(0, 1))); d += fmt("SparseMatrix(%d,%d,%d) ", h, wd, a->NumNonZeroElems()); w = [=](hid_t &f) { WriteSparseMatrix(f, n, a.get()); }; r = [=](hid_t &f) { SparseMatrix *b = ReadSparseMatrix(f, n); spsame(b, a.get(), h, wd, "sparse matrix", true); delete b; }; break; }
   case 15: { int m = I(1, 4); auto off = std::make_shared<Array<int>>(m + 1); (*off)[0] = 0; for (int i = 0; i < m; i++) (*off)[i + 1] = (*off)[i] + I(1, 4); auto a = std::make_shared<BlockMatrix>(*off); a->owns_blocks = 1; d += "BlockMatrix" + s(*off) + ":";
      for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { int k = I(0, 2); d += fmt("%d", k); if (k) a->SetBlock(i, j, sparse((*off)[i + 1] - (*off)[i], (*off)[j + 1] - (*off)[j], k == 1 ? 0. : .6)); } d += " ";
      w = [=](hid_t &f) { WriteBlockMatrix(f, n, a.get()); };
      r = [=](hid_t &f) { BlockMatrix *b = ReadBlockMatrix(f, n, *off); expect(b->NumRowBlocks() == m && b->NumColBlocks() == m, "number of blocks"); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { bool za = a->IsZeroBlock(i, j) || a->GetBlock(i, j).NumNonZeroElems() == 0; spsame(b->IsZeroBlock(i, j) ? NULL : &b->GetBlock(i, j), a->IsZeroBlock(i, j) ? NULL : &a->GetBlock(i, j), (*off)[i + 1] - (*off)[i], (*off)[j + 1] - (*off)[j], fmt("block (%d,%d)", i, j), false); if (a->IsZeroBlock(i, j)) expect(b->IsZeroBlock(i, j), fmt("block (%d,%d) was absent", i, j)); } delete b; }; break; }
   case 16: { int nr = I(0, 4), nc = I(0, 4); auto a = std::make_shared<MatrixBlocks>(nr, nc); d += fmt("MatrixBlocks(%d,%d):", nr, nc); std::vector<int> hs, ws; for (int i = 0; i < nr; i++) hs.push_back(I(1, 4)); for (int j = 0; j < nc; j++) ws.push_back(I(1, 4));
      for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { int k = I(0, 2); d += fmt("%d", k); if (k) (*a)(i, j) = sparse(hs[i], ws[j], k == 1 ? 0. : .6); } d += " ";
      w = [=](hid_t &f) { WriteDataset(f, n, *a); };
      r = [=](hid_t &f) { MatrixBlocks b; if (B()) { b.SetSize(I(0, 4), I(0, 4)); for (int i = 0; i < b.nrows; i++) for (int j = 0; j < b.ncols; j++) if (B()) b(i, j) = sparse(2, 2, 1.); } ReadDataset(f, n, b); if (b.nrows != nr || b.ncols != nc || b.blocks.NumRows() != nr || b.blocks.NumCols() != nc) { fail("extents of a block collection"); return; }
         for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { spsame(b(i, j), (*a)(i, j), hs[i], ws[j], fmt("block (%d,%d)", i, j), false); if (!(*a)(i, j)) expect(!b(i, j), fmt("block (%d,%d) was absent", i, j)); } }; break; }
   case 17: { auto a = std::make_shared<Array<SampleInfo>>(I(0, 5)); for (int i = 0; i < a->Size(); i++) { (*a)[i].el = iv(); (*a)[i].qp = iv(); (*a)[i].qw = dv(); } IntegratorType t = (IntegratorType)I(0, NUM_INTEG_TYPE - 1); d += fmt("samples(%d,type %d) ", a->Size(), (int)t);
      w = [=](hid_t &f) { WriteDataset(f, n, t, *a); }; r = [=](hid_t &f) { Array<SampleInfo> b(I(0, 5)); for (int i = 0; i < b.Size(); i++) { b[i].el = b[i].qp = 3; b[i].qw = 1.; } ReadDataset(f, n, t, b); if (b.Size() != a->Size()) { fail(fmt("number of samples: %d, specified %d", b.Size(), a->Size())); return; } for (int i = 0; i < b.Size(); i++) if (b[i].el != (*a)[i].el || b[i].qp != (*a)[i].qp || !same(b[i].qw, (*a)[i].qw)) { fail(fmt("sample %d", i)); return; } }; break; }
   }
}
int main()
{
   for (int it = 0; it < reps(700); it++)
   {
      int n = I(1, 5); std::vector<Fn> ws(n), rs(n); std::string d; for (int k = 0; k < n; k++) make(fmt("d%d", k), ws[k], rs[k], d);
      bool grp = B(), again = B(); casef(fmt("it=%d group=%d ", it, (int)grp) + d);
      hid_t f = H5Fcreate("t.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hid_t g = grp ? H5Gcreate(f, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT) : f;
      for (int k = 0; k < n; k++) ws[k](g); if (grp) H5Gclose(g); H5Fclose(f);
      f = H5Fopen("t.h5", H5F_ACC_RDONLY, H5P_DEFAULT); g = grp ? H5Gopen2(f, "g", H5P_DEFAULT) : f; Array<int> o(n); for (int k = 0; k < n; k++) o[k] = k; for (int k = n - 1; k > 0; k--) std::swap(o[k], o[I(0, k)]);
      for (int k = 0; k < n; k++) { rs[o[k]](g); if (again) rs[o[k]](g); } if (grp) { expect(pathExists(f, "g") && !pathExists(f, "h"), "path look-up"); H5Gclose(g); } H5Fclose(f);
   }
   std::remove("t.h5"); return done();
}
