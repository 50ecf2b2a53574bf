// SRC: rom_element_collection topology_handler hyperreduction_integ hdf5_utils etc linalg_utils input_parser
#include "rom_element_collection.hpp"
#include "hyperreduction_integ.hpp"
#include "etc.hpp"
#include "vr.hpp"
#include <map>
using namespace mfem; using namespace vr;
static SparseMatrix *sparse(int h, int w, double dens) { SparseMatrix *S = new SparseMatrix(h, w); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (D(0, 1) < dens) S->Set(i, j, D()); S->Finalize(); return S; }
static double at(const SparseMatrix *S, int i, int j) { if (!S) return 0.; Array<int> c; Vector v; S->GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) if (c[k] == j) return v(k); return 0.; }
static void same(const MatrixBlocks &g, const MatrixBlocks &w, const std::string &what)
{
   if (g.nrows != w.nrows || g.ncols != w.ncols || g.blocks.NumRows() != w.nrows || g.blocks.NumCols() != w.ncols) { fail(what + ": number of blocks"); return; }
   for (int i = 0; i < w.nrows; i++) for (int j = 0; j < w.ncols; j++)
   {
      const SparseMatrix *a = g.blocks(i, j), *b = w.blocks(i, j); if (!b || b->NumNonZeroElems() == 0) { if (a && a->NumNonZeroElems() > 0) { fail(what + fmt(": block (%d,%d) should have no entries", i, j)); return; } continue; }
      if (!a) { fail(what + fmt(": block (%d,%d) is absent", i, j)); return; } if (a->Height() != b->Height() || a->Width() != b->Width()) { fail(what + ": size of a block"); return; }
      for (int r = 0; r < b->Height(); r++) for (int c = 0; c < b->Width(); c++) if (at(a, r, c) != at(b, r, c)) { fail(what + fmt(": block (%d,%d) entry (%d,%d) got %.17g, specified %.17g", i, j, r, c, at(a, r, c), at(b, r, c))); return; }
   }
}
static void fill(MatrixBlocks &m) { for (int i = 0; i < m.nrows; i++) for (int j = 0; j < m.ncols; j++) { delete m.blocks(i, j); m.blocks(i, j) = I(0, 3) ? sparse(I(1, 4), I(1, 4), D(0, 1)) : NULL; } }
struct Port { int c1, c2, a1, a2; };
struct Topo : public TopologyHandler
{
   std::vector<Mesh *> ms; std::vector<Port> refp;
   Topo() : TopologyHandler(COMPONENT) {}
   void fin(const std::vector<std::string> &n) { comp_names = n; num_comp = n.size(); }
   Mesh *GetMesh(const int k) override { return ms[k]; } Mesh *GetGlobalMesh() override { return NULL; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {} void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
   const int GetNumRefPorts() override { return refp.size(); } Mesh *GetComponentMesh(const int &c) override { return ms[c]; }
   void GetComponentPair(const int &r, int &a, int &b) override { a = refp[r].c1; b = refp[r].c2; }
   void GetRefPortInfo(const int &r, int &c1, int &c2, int &a1, int &a2) override { c1 = refp[r].c1; c2 = refp[r].c2; a1 = refp[r].a1; a2 = refp[r].a2; }
};
template <class T> static void shuffle(std::vector<T> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[I(0, i)]); }
static std::string nm() { static const char *p[] = {"comp", "pipe", "a", "b", "1", "12", "empty", "square-circle", "x_y", "0"}; return p[I(0, 9)] + (B() ? std::string("") : std::to_string(I(0, 30))); }
int main()
{
   { char *av[2] = {(char *)"x", NULL}; int ac = 1; char **p = av; MPI_Init(&ac, &p); }
   for (int rep = 0; rep < reps(150); rep++)
   {
      int nc = I(1, 5), nv = I(1, 3); bool sep = B(); std::vector<std::string> names; while ((int)names.size() < nc) { std::string n = nm(); if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n); }
      std::vector<Mesh *> ms(nc); for (int c = 0; c < nc; c++) { ms[c] = new Mesh(Mesh::MakeCartesian1D(2)); ms[c]->bdr_attributes.SetSize(I(0, 4) ? I(1, 12) : 0); for (int b = 0; b < ms[c]->bdr_attributes.Size(); b++) ms[c]->bdr_attributes[b] = b + 1; }
      std::vector<Port> ports; int np = I(0, 6); for (int k = 0; k < np; k++) { Port p = {I(0, nc - 1), I(0, nc - 1), I(1, 13), I(1, 13)}; bool dup = false; for (auto &q : ports) dup |= q.c1 == p.c1 && q.c2 == p.c2 && q.a1 == p.a1 && q.a2 == p.a2; if (!dup) ports.push_back(p); }
      std::string d = fmt("%d components (", nc); for (int c = 0; c < nc; c++) d += names[c] + fmt(":%d boundaries ", ms[c]->bdr_attributes.Size()); d += fmt(") %d ports, %d variables%s", (int)ports.size(), nv, sep ? ", separate" : ""); casef("save and load, " + d);
      // the loading topology: the same components and ports, or some of them, in any order
      std::vector<int> perm; for (int c = 0; c < nc; c++) perm.push_back(c); if (B()) shuffle(perm); if (!I(0, 2)) perm.resize(I(1, nc)); std::map<int, int> inv; for (int c = 0; c < (int)perm.size(); c++) inv[perm[c]] = c;
      std::vector<int> pp; for (int p = 0; p < (int)ports.size(); p++) if (inv.count(ports[p].c1) && inv.count(ports[p].c2) && I(0, 8)) pp.push_back(p); if (B()) shuffle(pp);
      Topo T1, T2; T1.ms = ms; T1.refp = ports; T1.fin(names); std::vector<std::string> n2; for (int c : perm) { T2.ms.push_back(ms[c]); n2.push_back(names[c]); } for (int p : pp) T2.refp.push_back({inv[ports[p].c1], inv[ports[p].c2], ports[p].a1, ports[p].a2}); T2.fin(n2);
      Array<FiniteElementSpace *> f1(nc * nv), f2((int)perm.size() * nv); f1 = NULL; f2 = NULL; std::string file = fmt("rom%d.h5", rep);
      {
         ROMLinearElement A(&T1, f1, sep), C(&T2, f2, sep); int bs = sep ? nv : 1;
         for (int c = 0; c < nc; c++) { if (A.comp[c]->nrows != bs || A.mass[c]->ncols != bs || A.bdr[c]->Size() != ms[c]->bdr_attributes.Size()) fail("sizes of the operators"); fill(*A.comp[c]); fill(*A.mass[c]); for (int b = 0; b < A.bdr[c]->Size(); b++) fill(*(*A.bdr[c])[b]); }
         for (int p = 0; p < A.port.Size(); p++) { if (A.port[p]->nrows != 2 * bs || A.port[p]->ncols != 2 * bs) fail("sizes of the port operators"); fill(*A.port[p]); }
         if (B()) { for (int c = 0; c < C.comp.Size(); c++) { fill(*C.comp[c]); fill(*C.mass[c]); } }
         if (B()) { A.Save(file); } A.Save(file); C.Load(file); if (!I(0, 5)) C.Load(file);
         for (int c = 0; c < (int)perm.size(); c++) { same(*C.comp[c], *A.comp[perm[c]], "domain operator of " + n2[c]); same(*C.mass[c], *A.mass[perm[c]], "mass operator of " + n2[c]); for (int b = 0; b < C.bdr[c]->Size(); b++) same(*(*C.bdr[c])[b], *(*A.bdr[perm[c]])[b], fmt("boundary %d of ", b) + n2[c]); }
         for (int p = 0; p < (int)pp.size(); p++) same(*C.port[p], *A.port[pp[p]], fmt("port %d", p));
      }
      for (auto m : ms) delete m; std::remove(file.c_str());
   }
   for (int rep = 0; rep < reps(150); rep++)
   {
      std::string file = fmt("eqp%d.h5", rep); hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); int ne = I(1, 5); std::vector<Array<SampleInfo>> L(ne); std::vector<IntegratorType> ty(ne); std::string d;
      for (int k = 0; k < ne; k++) { L[k].SetSize(I(0, 3) ? I(1, 9) : 0); for (int i = 0; i < L[k].Size(); i++) { L[k][i].el = I(0, 100000); L[k][i].qp = I(0, 70); L[k][i].qw = I(0, 9) ? D(0, 1) : 0.; } ty[k] = (IntegratorType)I(0, 3); d += fmt("%d ", L[k].Size()); }
      casef(fmt("samples of %d terms: ", ne) + d);
      for (int k = 0; k < ne; k++) { EQPElement E(L[k]); expect(E.Size() == L[k].Size(), "number of samples held"); E.Save(f, fmt("term%d", k), ty[k]); }
      if (B()) { H5Fclose(f); f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); }
      EQPElement R; for (int k : [&] { std::vector<int> o; for (int i = 0; i < ne; i++) o.push_back(i); shuffle(o); return o; }())
      {
         EQPElement N, &E = B() ? N : R; E.Load(f, fmt("term%d", k), ty[k]); if (E.Size() != L[k].Size()) { fail(fmt("%d samples, specified %d", E.Size(), L[k].Size())); continue; }
         for (int i = 0; i < L[k].Size(); i++) { EQPSample *s = E.GetSample(i); if (s->info.el != L[k][i].el || s->info.qp != L[k][i].qp || s->info.qw != L[k][i].qw) { fail(fmt("term %d sample %d: element %d point %d weight %.17g, specified %d %d %.17g", k, i, s->info.el, s->info.qp, s->info.qw, L[k][i].el, L[k][i].qp, L[k][i].qw)); break; } expect(!s->shape1 && !s->shape2 && !s->dshape1.Size(), "no stored values yet"); }
      }
      H5Fclose(f); std::remove(file.c_str());
   }
   int r = done(); MPI_Finalize(); return r;
}
