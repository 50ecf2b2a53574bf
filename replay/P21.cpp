// SRC: rom_handler multiblock_solver topology_handler component_topology_handler rom_element_collection linalg_utils input_parser etc hdf5_utils block_smoother interfaceinteg
#include "rom_handler.hpp"
#include "multiblock_solver.hpp"
#include "etc.hpp"
#include "vr.hpp"
#include <memory>
using namespace mfem; using namespace vr;
struct Topol : TopologyHandler
{
   std::vector<std::unique_ptr<Mesh>> cm; std::vector<Array<int>> c2g; std::vector<int> ptype; std::vector<PortInfo> refp;
   Topol() : TopologyHandler(TopologyHandlerMode::COMPONENT) { dim = 2; }
   Mesh *GetMesh(const int k) override { return cm[mesh_types[k]].get(); }
   Mesh *GetGlobalMesh() override { return NULL; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {}
   void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
   const int GetPortType(const int &p) override { return ptype[p]; }
   const int GetNumRefPorts() override { return (int)refp.size(); }
   Mesh *GetComponentMesh(const int &c) override { return cm[c].get(); }
   Array<int> *GetBdrAttrComponentToGlobalMap(const int &m) override { return &c2g[m]; }
   // ns subdomains of nc components, each used at least once
   void setup(int ns, int nc, int np)
   {
      numSub = ns; num_comp = nc; sub_composition.SetSize(nc); sub_composition = 0; mesh_types.SetSize(ns); mesh_comp_idx.SetSize(ns);
      std::vector<int> t(ns); for (int m = 0; m < ns; m++) t[m] = m < nc ? m : I(0, nc - 1); std::shuffle(t.begin(), t.end(), rng());
      for (int m = 0; m < ns; m++) { mesh_types[m] = t[m]; mesh_comp_idx[m] = sub_composition[t[m]]++; }
      for (int c = 0; c < nc; c++) { comp_names.push_back(fmt("comp%d", c)); cm.emplace_back(new Mesh(Mesh::MakeCartesian2D(1, 1, Element::QUADRILATERAL))); }
      c2g.resize(ns); for (int m = 0; m < ns; m++) { c2g[m].SetSize(cm[t[m]]->bdr_attributes.Size()); for (int b = 0; b < c2g[m].Size(); b++) c2g[m][b] = I(-1, 5); }
      num_ports = np; port_infos.SetSize(np); for (int p = 0; p < np; p++) { int a = I(0, ns - 1), b = I(0, ns - 2); if (b >= a) b++; port_infos[p].Mesh1 = a; port_infos[p].Mesh2 = b; int r = -1; for (size_t k = 0; k < refp.size(); k++) if (refp[k].Mesh1 == t[a] && refp[k].Mesh2 == t[b]) r = k; if (r < 0) { PortInfo i; i.Mesh1 = t[a]; i.Mesh2 = t[b]; r = refp.size(); refp.push_back(i); } ptype.push_back(r); }
   }
   std::string str() { return "types " + s(mesh_types); }
};
struct H : MFEMROMHandler
{
   using MFEMROMHandler::MFEMROMHandler;
   Array<int> &nb() { return num_basis; } Array<int> &off() { return rom_block_offsets; } Array<int> &coff() { return rom_comp_block_offsets; } Array<int> &nref() { return num_ref_basis; } Array<int> &dref() { return dim_ref_basis; }
   Array<DenseMatrix *> &ref() { return ref_basis; } int blocks() { return num_rom_blocks; } int refs() { return num_rom_ref_blocks; }
   void load() { carom_ref_basis.SetSize(num_rom_ref_blocks); for (int k = 0; k < num_rom_ref_blocks; k++) { carom_ref_basis[k] = new CAROM::Matrix(dim_ref_basis[k], num_ref_basis[k], false); for (int i = 0; i < dim_ref_basis[k]; i++) for (int j = 0; j < num_ref_basis[k]; j++) carom_ref_basis[k]->item(i, j) = D(); } basis_loaded = true; LoadReducedBasis(); }
};
struct Setup
{
   int ns, nv, nc; bool sep, byvar; Topol *t; std::unique_ptr<H> h; Array<int> fom; std::vector<int> dof, nbas; std::vector<std::string> names;
   int idx(int m, int v) { return !sep ? m : byvar ? v * ns + m : m * nv + v; }
   Setup(Topol *topol = NULL, int maxnv = 3)
   {
      nc = I(1, 3); ns = I(nc < 2 ? 2 : nc, 5); nv = I(1, maxnv); sep = I(0, 3); byvar = B(); t = topol ? topol : new Topol; t->setup(ns, nc, topol ? I(0, 4) : 0);
      for (int v = 0; v < nv; v++) names.push_back(fmt("var%d", v)); dof.resize(nc * nv); for (auto &d : dof) d = I(3, 6);
      fom.SetSize(ns * nv + 1); fom[0] = 0; for (int m = 0; m < ns; m++) for (int v = 0; v < nv; v++) fom[m * nv + v + 1] = fom[m * nv + v] + dof[t->GetMeshType(m) * nv + v];
      config = InputParser(); config.dict_ = YAML::Node(); config.dict_["basis"]["number_of_basis"] = 2; config.dict_["model_reduction"]["ordering"] = byvar ? "variable" : "domain"; config.dict_["model_reduction"]["linear_solver_type"] = "cg";
      int nr = sep ? nc * nv : nc; for (int k = 0; k < nr; k++) { int n = I(1, 3); if (I(0, 3)) { YAML::Node e; e["name"] = fmt("comp%d", sep ? k / nv : k) + (sep ? "_" + names[k % nv] : ""); e["number_of_basis"] = n; config.dict_["basis"]["tags"].push_back(e); } else n = 2; nbas.push_back(n); }
      casef(fmt("%d subdomains, %d variables%s, %s order, ", ns, nv, sep ? " reduced separately" : "", byvar ? "variable" : "domain") + t->str());
      h.reset(new H(t, fom, names, sep));
   }
   int nb() { return sep ? ns * nv : ns; }
   int ref(int m, int v) { int c = t->GetMeshType(m); return sep ? c * nv + v : c; }
   void sizes(const std::string &w)
   {
      if (h->nb().Size() != nb() || h->off().Size() != nb() + 1) { fail("number of reduced blocks" + w); return; }
      for (int m = 0; m < ns; m++) for (int v = 0; v < (sep ? nv : 1); v++) { int b = idx(m, v); if (h->nb()[b] != nbas[ref(m, v)] || h->off()[b + 1] - h->off()[b] != nbas[ref(m, v)]) { fail(fmt("reduced block of subdomain %d, variable %d has %d basis vectors, specified %d", m, v, h->nb()[b], nbas[ref(m, v)]) + w); return; } }
      expect(h->off()[0] == 0 && h->coff()[0] == 0, "first offset" + w);
      for (size_t k = 0; k < nbas.size(); k++) if (h->coff()[k + 1] - h->coff()[k] != nbas[k]) { fail("component offsets" + w); return; }
   }
   DenseMatrix &basis(int m, int v) { return *h->ref()[ref(m, v)]; }
};
static SparseMatrix *sparse(int r, int c) { SparseMatrix *a = new SparseMatrix(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (I(0, 4)) a->Set(i, j, D()); a->Finalize(); return a; }
static DenseMatrix dense(const SparseMatrix &a) { DenseMatrix d(a.Height(), a.Width()); d = 0.0; for (int i = 0; i < a.Height(); i++) { Array<int> c; Vector v; const_cast<SparseMatrix &>(a).GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) d(i, c[k]) += v(k); } return d; }
static DenseMatrix rap(DenseMatrix &p, const SparseMatrix *a, DenseMatrix &q) { DenseMatrix r(p.Width(), q.Width()); r = 0.0; if (!a) return r; DenseMatrix d = dense(*a); for (int i = 0; i < p.Width(); i++) for (int j = 0; j < q.Width(); j++) for (int k = 0; k < p.Height(); k++) for (int l = 0; l < q.Height(); l++) r(i, j) += p(k, i) * d(k, l) * q(l, j); return r; }
typedef std::vector<std::pair<int, int>> MV;   // (subdomain, variable) of each row of operators
static void blocks(Setup &S, const MV &r, const MV &c, std::function<void(Array2D<Operator *> &, Array2D<SparseMatrix *> &)> f, bool holes, const std::string &what)
{
   Array2D<Operator *> A(r.size(), c.size()); Array2D<SparseMatrix *> R; 
   for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) A(i, j) = holes && !I(0, 3) ? NULL : sparse(S.basis(r[i].first, r[i].second).Height(), S.basis(c[j].first, c[j].second).Height());
   f(A, R); if (B()) f(A, R);
   if (R.NumRows() != (int)r.size() || R.NumCols() != (int)c.size()) fail(what + ": number of blocks");
   else for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) { meq(dense(*R(i, j)), rap(S.basis(r[i].first, r[i].second), (SparseMatrix *)A(i, j), S.basis(c[j].first, c[j].second)), what + fmt(": block (%d,%d)", (int)i, (int)j)); delete R(i, j); }
   for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < c.size(); j++) delete A(i, j);
}
static void handler()
{
   Setup S; H &h = *S.h; int nb = S.nb(), nv = S.sep ? S.nv : 1; S.sizes("");
   expect(h.blocks() == nb && h.refs() == (int)S.nbas.size(), "number of blocks");
   for (int m = 0; m < S.ns; m++) { expect(h.GetRefIndexForSubdomain(m) == S.t->GetMeshType(m), "component of a subdomain"); for (int v = 0; v < nv; v++) { int b = h.GetBlockIndex(m, S.sep ? v : -1), m1 = -2, v1 = -2; if (b != S.idx(m, v)) fail(fmt("block of subdomain %d, variable %d is %d, specified %d", m, v, b, S.idx(m, v))); h.GetDomainAndVariableIndex(b, m1, v1); if (m1 != m || v1 != (S.sep ? v : -1)) fail(fmt("block %d is of subdomain %d, variable %d", b, m1, v1)); } }
   h.load(); std::vector<int> rdim(S.nbas.size());
   for (int m = 0; m < S.ns; m++) for (int v = 0; v < nv; v++) { int d = 0; for (int w = 0; w < S.nv; w++) if (!S.sep || w == v) d += S.dof[S.t->GetMeshType(m) * S.nv + w]; if (h.dref()[S.ref(m, v)] != d || S.basis(m, v).Height() != d) { fail("dimension of a basis"); return; } }
   auto use = [&](const std::string &w)
   {
      Array<int> fo(nb + 1); fo[0] = 0; for (int m = 0; m < S.ns; m++) for (int v = 0; v < nv; v++) fo[m * nv + v + 1] = fo[m * nv + v] + S.basis(m, v).Height();
      BlockVector u(fo); rnd(u); BlockVector *r = B() ? new BlockVector(fo) : NULL; h.ProjectGlobalToDomainBasis(&u, r); BlockVector lift(fo); rnd(lift); h.LiftUpGlobal(*r, lift);
      for (int m = 0; m < S.ns; m++) for (int v = 0; v < nv; v++)
      {
         int b = S.idx(m, v), k = S.ref(m, v); DenseMatrix &P = S.basis(m, v); DenseMatrix *G = NULL; h.GetDomainBasis(b, G); expect(G == &P, fmt("basis of block %d", b) + w); Vector x(P.Width()), y(P.Height()), z;
         P.MultTranspose(u.GetBlock(m * nv + v), x); veq(r->GetBlock(b), x, fmt("projection of subdomain %d, variable %d", m, v) + w); z.SetSize(P.Width()); h.ProjectToDomainBasis(b, u.GetBlock(m * nv + v), z); veq(z, x, "projection of one block" + w); h.ProjectToRefBasis(k, u.GetBlock(m * nv + v), z); veq(z, x, "projection on a component basis" + w);
         P.Mult(x, y); veq(lift.GetBlock(m * nv + v), y, fmt("lifting of subdomain %d, variable %d", m, v) + w); z.SetSize(P.Height()); h.LiftUpFromDomainBasis(b, x, z); veq(z, y, "lifting of one block" + w); h.LiftUpFromRefBasis(k, x, z); veq(z, y, "lifting from a component basis" + w);
      }
      delete r;
      MV all(nb), one, two, vi, vj; int a = I(0, S.ns - 1), c = I(0, S.ns - 1), v1 = I(0, nv - 1), v2 = I(0, nv - 1);
      for (int m = 0; m < S.ns; m++) for (int v = 0; v < nv; v++) all[S.idx(m, v)] = {m, v};
      for (int v = 0; v < nv; v++) { one.push_back({a, v}); two.push_back({a, v}); } for (int v = 0; v < nv; v++) two.push_back({c, v}); for (int m = 0; m < S.ns; m++) { vi.push_back({m, v1}); vj.push_back({m, v2}); }
      blocks(S, all, all, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectGlobalToDomainBasis(A, R); }, true, "projected global operator" + w);
      blocks(S, one, one, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectComponentToDomainBasis(a, A, R); }, true, fmt("projected operator of subdomain %d", a) + w);
      blocks(S, two, two, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectInterfaceToDomainBasis(a, c, A, R); }, true, fmt("projected interface operator of subdomains %d, %d", a, c) + w);
      blocks(S, one, one, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectComponentToRefBasis(S.t->GetMeshType(a), A, R); }, true, "projected component operator" + w);
      blocks(S, two, two, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectInterfaceToRefBasis(S.t->GetMeshType(a), S.t->GetMeshType(c), A, R); }, true, "projected reference interface operator" + w);
      if (S.sep) blocks(S, vi, vj, [&](Array2D<Operator *> &A, Array2D<SparseMatrix *> &R) { h.ProjectVariableToDomainBasis(v1, v2, A, R); }, true, fmt("projected operator of variables %d, %d", v1, v2) + w);
   };
   use("");
   for (int n = I(0, 2); n > 0; n--)
   {
      int k = I(0, (int)S.nbas.size() - 1); DenseMatrix old(*h.ref()[k]), add(old.Height(), I(1, 2)); rnd(add); h.AppendReferenceBasis(k, add); S.nbas[k] += add.Width(); DenseMatrix want(old.Height(), S.nbas[k]); for (int i = 0; i < old.Height(); i++) for (int j = 0; j < want.Width(); j++) want(i, j) = j < old.Width() ? old(i, j) : add(i, j - old.Width());
      meq(*h.ref()[k], want, fmt("basis %d after appending", k)); expect(h.nref()[k] == S.nbas[k], "number of basis vectors after appending"); S.sizes(" after appending"); if (nfail()) return;
   }
   use(" after appending"); delete S.t;
}
struct Solver_ : MultiBlockSolver
{
   Topol *t; std::set<int> bc;
   Solver_() { U = RHS = NULL; delete topol_handler; topol_handler = t = new Topol; topol_mode = TopologyHandlerMode::COMPONENT; }
   void InitVariables() override {} void BuildOperators() override {} void BuildRHSOperators() override {} void BuildDomainOperators() override {} bool BCExistsOnBdr(const int &g) override { return bc.count(g); }
   void SetupBCOperators() override {} void SetupRHSBCOperators() override {} void SetupDomainBCOperators() override {} void Assemble() override {} void AssembleRHS() override {} void AssembleOperator() override {} void AssembleInterfaceMatrices() override {}
   void BuildCompROMLinElems() override {} void BuildBdrROMLinElems() override {} void BuildItfaceROMLinElems() override {} bool Solve(SampleGenerator *) override { return true; } void ProjectOperatorOnReducedBasis() override {}
   static void fill(MatrixBlocks &b, const std::vector<int> &n, bool holes) { for (size_t i = 0; i < n.size(); i++) for (size_t j = 0; j < n.size(); j++) b(i, j) = holes && !I(0, 4) ? NULL : sparse(n[i], n[j]); }
   void go()
   {
      Setup S(t); H &h = *S.h; rom_handler = S.h.release(); numSub = S.ns; num_var = S.nv; separate_variable_basis = S.sep; int nb = S.sep ? S.nv : 1;
      global_bdr_attributes.SetSize(0); for (int g = 1; g <= 5; g++) if (B()) global_bdr_attributes.Append(g); bdr_type.SetSize(global_bdr_attributes.Size()); bdr_type = BoundaryType::NUM_BDR_TYPE; bc.clear(); for (int g = 0; g < bdr_type.Size(); g++) { if (I(0, 3)) bc.insert(g); }
      if (B()) SetBdrType(BoundaryType::DIRICHLET); for (int n = I(0, 3); n > 0 && bdr_type.Size(); n--) { int g = I(0, bdr_type.Size() - 1); Array<BoundaryType> o(bdr_type); BoundaryType ty = B() ? BoundaryType::NEUMANN : BoundaryType::DIRICHLET; SetBdrType(ty, g); for (int k = 0; k < o.Size(); k++) expect(bdr_type[k] == (k == g ? ty : o[k]), "boundary type"); }
      Array<FiniteElementSpace *> fe(S.nc * S.nv); fe = NULL; rom_elems = new ROMLinearElement(t, fe, S.sep);
      auto nbs = [&](int c, std::vector<int> &n) { for (int v = 0; v < nb; v++) n.push_back(S.nbas[S.sep ? c * S.nv + v : c]); };
      for (int c = 0; c < S.nc; c++) { std::vector<int> n; nbs(c, n); fill(*rom_elems->comp[c], n, true); for (int b = 0; b < rom_elems->bdr[c]->Size(); b++) fill(*(*rom_elems->bdr[c])[b], n, true); }
      for (size_t p = 0; p < t->refp.size(); p++) { std::vector<int> n; nbs(t->refp[p].Mesh1, n); nbs(t->refp[p].Mesh2, n); fill(*rom_elems->port[p], n, true); }
      int N = h.off().Last(); DenseMatrix want(N); want = 0.0;
      auto add = [&](MatrixBlocks &B, const std::vector<int> &ix) { for (size_t i = 0; i < ix.size(); i++) for (size_t j = 0; j < ix.size(); j++) if (B(i, j)) { DenseMatrix d = dense(*B(i, j)); for (int k = 0; k < d.Height(); k++) for (int l = 0; l < d.Width(); l++) want(h.off()[ix[i]] + k, h.off()[ix[j]] + l) += d(k, l); } };
      auto mix = [&](int m, std::vector<int> &ix) { for (int v = 0; v < nb; v++) ix.push_back(S.idx(m, v)); };
      for (int m = 0; m < S.ns; m++) { int c = t->GetMeshType(m); std::vector<int> ix; mix(m, ix); add(*rom_elems->comp[c], ix); for (int b = 0; b < t->c2g[m].Size(); b++) { int g = global_bdr_attributes.Find(t->c2g[m][b]); if (g >= 0 && bc.count(g) && bdr_type[g] != BoundaryType::NEUMANN) add(*(*rom_elems->bdr[c])[b], ix); } }
      for (int p = 0; p < t->GetNumPorts(); p++) { std::vector<int> ix; mix(t->GetPortInfo(p)->Mesh1, ix); mix(t->GetPortInfo(p)->Mesh2, ix); add(*rom_elems->port[t->ptype[p]], ix); }
      MultiBlockSolver::AssembleROMMat(); meq(dense(*h.GetOperator()), want, "global reduced matrix");
      // reordering
      Array<int> os(S.ns * S.nv + 1), ov(S.ns * S.nv + 1), o1(S.ns + 1); os[0] = ov[0] = o1[0] = 0; auto sz = [&](int m, int v) { return S.fom[m * S.nv + v + 1] - S.fom[m * S.nv + v]; }; int w = I(0, S.nv - 1);
      for (int m = 0; m < S.ns; m++) { for (int v = 0; v < S.nv; v++) os[m * S.nv + v + 1] = sz(m, v), ov[v * S.ns + m + 1] = sz(m, v); o1[m + 1] = sz(m, w); } os.PartialSum(); ov.PartialSum(); o1.PartialSum();
      BlockVector a(os), b(ov), c(os), d(ov), x(o1), e(os); rnd(a); rnd(c); rnd(d); rnd(x); SortByVariables(a, b); SortBySubdomains(d, c); e = a; BlockVector y(o1); GetVariableVector(w, a, y); SetVariableVector(w, x, e);
      for (int m = 0; m < S.ns; m++) { for (int v = 0; v < S.nv; v++) { veq(b.GetBlock(v * S.ns + m), a.GetBlock(m * S.nv + v), fmt("block of subdomain %d, variable %d by variables", m, v)); veq(c.GetBlock(m * S.nv + v), d.GetBlock(v * S.ns + m), fmt("block of subdomain %d, variable %d by subdomains", m, v)); veq(e.GetBlock(m * S.nv + v), v == w ? x.GetBlock(m) : a.GetBlock(m * S.nv + v), "set variable"); } veq(y.GetBlock(m), a.GetBlock(m * S.nv + w), "variable of the global vector"); }
      // errors and spaces of the components
      vdim.SetSize(S.nv); fec.SetSize(S.nv); for (int v = 0; v < S.nv; v++) { vdim[v] = I(1, 2); fec[v] = new H1_FECollection(1, 2); } GetComponentFESpaces(comp_fes);
      if (comp_fes.Size() != S.nc * S.nv) fail("number of component spaces"); else for (int k = 0; k < comp_fes.Size(); k++) expect(comp_fes[k]->GetMesh() == t->cm[k / S.nv].get() && comp_fes[k]->FEColl() == fec[k % S.nv] && comp_fes[k]->GetVDim() == vdim[k % S.nv], "space of a component");
      Array<GridFunction *> f(S.ns * S.nv), r(S.ns * S.nv); Vector en(S.nv), nn(S.nv), er; en = 0.0; nn = 0.0;
      for (int m = 0; m < S.ns; m++) for (int v = 0; v < S.nv; v++) { int k = m * S.nv + v; f[k] = new GridFunction(comp_fes[t->GetMeshType(m) * S.nv + v]); r[k] = new GridFunction(f[k]->FESpace()); rnd(*f[k]); rnd(*r[k]); GridFunction df(f[k]->FESpace()); subtract(*f[k], *r[k], df); Vector zv(vdim[v]); zv = 0.0; ConstantCoefficient z(0.0); VectorConstantCoefficient z2(zv); double p = vdim[v] > 1 ? df.ComputeLpError(2, z2) : df.ComputeLpError(2, z), q = vdim[v] > 1 ? f[k]->ComputeLpError(2, z2) : f[k]->ComputeLpError(2, z); en(v) += p * p; nn(v) += q * q; }
      for (int v = 0; v < S.nv; v++) en(v) = std::sqrt(en(v) / nn(v)); ComputeRelativeError(f, r, er); veq(er, en, "relative error"); for (auto *g : f) delete g; for (auto *g : r) delete g;
   }
};
int main(int ac, char **av)
{
   MPI_Init(&ac, &av); if (!getenv("VP_SHOW")) { freopen("/dev/null", "w", stderr); }
   for (int it = 0; it < reps(150); it++) handler();
   { Mesh m = Mesh::MakeCartesian2D(2, 2, Element::QUADRILATERAL); for (int e = 0; e < 4; e++) m.SetAttribute(e, 1 + e / 2); m.SetAttributes(); m.Save("domain.mesh"); }
   for (int it = 0; it < reps(100); it++) { config = InputParser(); config.dict_ = YAML::Node(); config.dict_["mesh"]["filename"] = "domain.mesh"; Solver_ *s = new Solver_; s->go(); delete s; }
   int r = done(); fflush(stdout); _exit(r);
}
