// SRC: interface_form interfaceinteg hyperreduction_integ topology_handler hdf5_utils etc linalg_utils input_parser
#include "interface_form.hpp"
#include "etc.hpp"
#include "fe.hpp"
using namespace mfem; using namespace vr;
// a topology given explicitly: meshes, ports, interfaces
struct Topo : public TopologyHandler
{
   std::vector<Mesh *> ms; Array<Array<InterfaceInfo> *> ref; Array<PortInfo> refp;
   Topo(bool comp) : TopologyHandler(comp ? COMPONENT : SUBMESH) {}
   ~Topo() { for (int i = 0; i < interface_infos.Size(); i++) delete interface_infos[i]; for (int i = 0; i < ref.Size(); i++) delete ref[i]; }
   void add(int m1, int m2, Array<InterfaceInfo> *a) { PortInfo p; p.PortAttr = 100 + port_infos.Size(); p.Mesh1 = m1; p.Mesh2 = m2; p.Attr1 = p.Attr2 = 1; port_infos.Append(p); interface_infos.Append(a); num_ports = port_infos.Size(); }
   void addref(int m1, int m2, Array<InterfaceInfo> *a) { PortInfo p; p.PortAttr = -1; p.Mesh1 = m1; p.Mesh2 = m2; p.Attr1 = p.Attr2 = 1; refp.Append(p); ref.Append(a); }
   void fin() { numSub = num_comp = ms.size(); }
   Mesh *GetMesh(const int k) override { return ms[k]; } Mesh *GetGlobalMesh() override { return NULL; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {} void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
   const int GetNumRefPorts() override { return ref.Size(); } Mesh *GetComponentMesh(const int &c) override { return ms[c]; }
   void GetComponentPair(const int &r, int &a, int &b) override { a = refp[r].Mesh1; b = refp[r].Mesh2; }
   Array<InterfaceInfo> *const GetRefInterfaceInfos(const int &k) override { return ref[k]; }
};
// the local face transformation that (local face, orientation) stands for, by the reference vertices it lists
static void refpt(Geometry::Type eg, int inf, const IntegrationPoint &ip, double *x)
{
   int lf = inf / 64, o = inf % 64; const IntegrationRule *V = Geometries.GetVertices(eg); x[0] = x[1] = x[2] = 0; int v[4], nv; double w[4];
   switch (eg)
   {
      case Geometry::SEGMENT: nv = 1; v[0] = lf; w[0] = 1; break;
      case Geometry::TRIANGLE: case Geometry::SQUARE: { nv = 2; const int *fv = eg == Geometry::TRIANGLE ? Geometry::Constants<Geometry::TRIANGLE>::Edges[lf] : Geometry::Constants<Geometry::SQUARE>::Edges[lf]; for (int k = 0; k < 2; k++) v[k] = fv[Geometry::Constants<Geometry::SEGMENT>::Orient[o][k]]; w[0] = 1 - ip.x; w[1] = ip.x; break; }
      case Geometry::TETRAHEDRON: nv = 3; for (int k = 0; k < 3; k++) v[k] = Geometry::Constants<Geometry::TETRAHEDRON>::FaceVert[lf][Geometry::Constants<Geometry::TRIANGLE>::Orient[o][k]]; w[0] = 1 - ip.x - ip.y; w[1] = ip.x; w[2] = ip.y; break;
      default: nv = 4; for (int k = 0; k < 4; k++) v[k] = Geometry::Constants<Geometry::CUBE>::FaceVert[lf][Geometry::Constants<Geometry::SQUARE>::Orient[o][k]]; w[0] = (1 - ip.x) * (1 - ip.y); w[1] = ip.x * (1 - ip.y); w[2] = ip.x * ip.y; w[3] = (1 - ip.x) * ip.y;
   }
   for (int k = 0; k < nv; k++) { const IntegrationPoint &p = V->IntPoint(v[k]); x[0] += w[k] * p.x; x[1] += w[k] * p.y; x[2] += w[k] * p.z; }
}
// what one registered term contributes: any function of (term, elements, local states)
struct Val { double seed; double h(int a, int b, int c, int d) const { double v = std::sin(12.9898 * (a + 1) + 78.233 * (b + 1) + 37.719 * (c + 1) + 11.131 * (d + 1) + seed) * 43758.5453; v -= std::floor(v); return v < .15 ? 0. : v - .5; } };
struct Side { int e, lf; double c[3]; };
struct Mock : public InterfaceNonlinearFormIntegrator
{
   Val f; bool mixed = false; Mock() { f.seed = D(0, 100); }
   static double pos(FaceElementTransformations &T) { double x[3] = {0, 0, 0}; Vector v(x, 3); const IntegrationPoint &c = Geometries.GetCenter(T.GetGeometryType()); IntegrationPoint e; T.Loc1.Transform(c, e); T.Elem1->SetIntPoint(&e); T.Elem1->Transform(e, v); return x[0] + 3 * x[1] + 7 * x[2]; }
   double val(int b, int i, int j, int e1, int e2, double p1, double p2) const { return f.h(4 * i + b, j, e1, e2) * (1 + .3 * p1 - .2 * p2); }
   void Blocks(int r1, int r2, int c1, int c2, int e1, int e2, double p1, double p2, Array2D<DenseMatrix *> &E) const
   { int r[2] = {r1, r2}, c[2] = {c1, c2}; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { E(a, b)->SetSize(r[a], c[b]); for (int i = 0; i < r[a]; i++) for (int j = 0; j < c[b]; j++) (*E(a, b))(i, j) = val(2 * a + b, i, j, e1, e2, p1, p2); } }
   void Res(const Vector &x1, const Vector &x2, int e1, int e2, double p1, double p2, Vector &y1, Vector &y2) const
   { y1.SetSize(x1.Size()); y2.SetSize(x2.Size()); for (int i = 0; i < y1.Size(); i++) { y1(i) = val(5, i, 0, e1, e2, p1, p2); for (int j = 0; j < x1.Size(); j++) y1(i) += val(0, i, j, e1, e2, p1, p2) * x1(j) * x1(j); for (int j = 0; j < x2.Size(); j++) y1(i) += val(1, i, j, e1, e2, p1, p2) * x2(j); }
     for (int i = 0; i < y2.Size(); i++) { y2(i) = val(6, i, 0, e1, e2, p1, p2); for (int j = 0; j < x1.Size(); j++) y2(i) += val(2, i, j, e1, e2, p1, p2) * x1(j); for (int j = 0; j < x2.Size(); j++) y2(i) += val(3, i, j, e1, e2, p1, p2) * x2(j) * x2(j); } }
   void Jac(const Vector &x1, const Vector &x2, int e1, int e2, double p1, double p2, Array2D<DenseMatrix *> &E) const
   { Blocks(x1.Size(), x2.Size(), x1.Size(), x2.Size(), e1, e2, p1, p2, E); for (int j = 0; j < x1.Size(); j++) for (int i = 0; i < x1.Size(); i++) (*E(0, 0))(i, j) *= 2 * x1(j); for (int j = 0; j < x2.Size(); j++) for (int i = 0; i < x2.Size(); i++) (*E(1, 1))(i, j) *= 2 * x2(j); }
   void AssembleInterfaceVector(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T1, FaceElementTransformations &T2, const Vector &x1, const Vector &x2, Vector &y1, Vector &y2) override { Res(x1, x2, T1.Elem1No, T2.Elem1No, pos(T1), pos(T2), y1, y2); }
   void AssembleInterfaceGrad(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T1, FaceElementTransformations &T2, const Vector &x1, const Vector &x2, Array2D<DenseMatrix *> &E) override { Jac(x1, x2, T1.Elem1No, T2.Elem1No, pos(T1), pos(T2), E); }
   int vd1 = 1, vd2 = 1; // vector dimension of the trial and test spaces
   void AssembleInterfaceMatrix(const FiniteElement &a, const FiniteElement &b, FaceElementTransformations &T1, FaceElementTransformations &T2, Array2D<DenseMatrix *> &E) override { Blocks(vd1 * a.GetDof(), vd1 * b.GetDof(), vd1 * a.GetDof(), vd1 * b.GetDof(), T1.Elem1No, T2.Elem1No, pos(T1), pos(T2), E); }
   void AssembleInterfaceMatrix(const FiniteElement &a, const FiniteElement &b, const FiniteElement &ta, const FiniteElement &tb, FaceElementTransformations &T1, FaceElementTransformations &T2, Array2D<DenseMatrix *> &E) override { Blocks(vd2 * ta.GetDof(), vd2 * tb.GetDof(), vd1 * a.GetDof(), vd1 * b.GetDof(), T1.Elem1No, T2.Elem1No, pos(T1), pos(T2), E); }
};
// element on the boundary element, and the value of pos() at the middle of its face
static int elemof(Mesh &m, int be) { int e, inf; m.GetBdrElementAdjacentElement(be, e, inf); return e; }
static double posof(Mesh &m, int be) { Array<int> v; m.GetBdrElementVertices(be, v); double s = 0; for (int i = 0; i < v.Size(); i++) { const double *x = m.GetVertex(v[i]); s += x[0] + 3 * (m.SpaceDimension() > 1 ? x[1] : 0.) + 7 * (m.SpaceDimension() > 2 ? x[2] : 0.); } return s / v.Size(); }
static void add(DenseMatrix &G, const Array<int> &r, const Array<int> &c, const DenseMatrix &E) { for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) { int ri = r[i] < 0 ? -1 - r[i] : r[i], cj = c[j] < 0 ? -1 - c[j] : c[j]; double s = (r[i] < 0 ? -1 : 1) * (c[j] < 0 ? -1 : 1); G(ri, cj) += s * E(i, j); } }
static void sp(SparseMatrix &S, DenseMatrix &G) { for (int k = I(0, 6); k > 0; k--) { int i = I(0, S.Height() - 1), j = I(0, S.Width() - 1); double v = D(); S.Add(i, j, v); G(i, j) += v; } }
static DenseMatrix dn(SparseMatrix &S) { DenseMatrix R(S.Height(), S.Width()); R = 0.; Array<int> c; Vector v; for (int i = 0; i < S.Height(); i++) { S.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) R(i, c[k]) += v(k); } return R; }
struct Grid { DenseMatrix m[4]; Array2D<DenseMatrix *> a; Grid() : a(2, 2) { for (int i = 0; i < 4; i++) a(i / 2, i % 2) = &m[i]; } };
struct Case
{
   int dim, kind, N; std::vector<std::unique_ptr<Mesh>> ms; std::vector<std::unique_ptr<FiniteElementCollection>> fc; std::vector<std::unique_ptr<FiniteElementSpace>> fs, ts; Array<Mesh *> am; Array<FiniteElementSpace *> af, at; std::string d; int vd, tvd;
   Case(int it)
   {
      dim = I(1, 3); kind = I(0, 1); if (dim == 3 && I(0, 1)) dim = 2; N = I(2, 4); vd = I(0, 1) ? dim : 1; tvd = I(0, 1) ? dim : 1; d = fmt("it=%d dim=%d kind=%d meshes=%d vdim=%d,%d", it, dim, kind, N, vd, tvd);
      for (int m = 0; m < N; m++)
      {
         ms.emplace_back(rmesh(dim, kind, I(1, 2), I(1, 2), 1)); bool l2 = B(); int o = I(1, 2), to = I(1, 2); fc.emplace_back(rfec(dim, o, l2)); fs.emplace_back(new FiniteElementSpace(ms[m].get(), fc.back().get(), vd, B() ? Ordering::byNODES : Ordering::byVDIM));
         fc.emplace_back(rfec(dim, to, B())); ts.emplace_back(new FiniteElementSpace(ms[m].get(), fc.back().get(), tvd, B() ? Ordering::byNODES : Ordering::byVDIM)); am.Append(ms[m].get()); af.Append(fs[m].get()); at.Append(ts[m].get()); d += fmt(" [ne=%d nbe=%d n=%d tn=%d]", ms[m]->GetNE(), ms[m]->GetNBE(), fs[m]->GetTrueVSize(), ts[m]->GetTrueVSize());
      }
   }
   int inf(int m, int be, bool flip) { int f = ms[m]->GetBdrFace(be), i1, i2; ms[m]->GetFaceInfos(f, &i1, &i2); if (flip) { int no = dim == 1 ? 1 : dim == 2 ? 2 : kind ? 6 : 8; i1 = (i1 / 64) * 64 + I(0, no - 1); } return i1; }
   Array<InterfaceInfo> *infos(int a, int b) { auto *r = new Array<InterfaceInfo>; for (int k = I(0, 4); k > 0; k--) { InterfaceInfo x; x.BE1 = I(0, ms[a]->GetNBE() - 1); x.BE2 = I(0, ms[b]->GetNBE() - 1); x.Inf1 = inf(a, x.BE1, B()); x.Inf2 = inf(b, x.BE2, B()); r->Append(x); } return r; }
};
static void trans(Case &c, Topo &T, int a, int b, Array<InterfaceInfo> *in)
{
   for (int k = 0; k < in->Size(); k++)
   {
      const InterfaceInfo f = (*in)[k]; FaceElementTransformations *t[2]; T.GetInterfaceTransformations(c.ms[a].get(), c.ms[b].get(), &f, t[0], t[1]); casef(c.d + fmt(" transformations of interface (%d,%d,%d,%d) of meshes %d,%d", f.BE1, f.BE2, f.Inf1, f.Inf2, a, b));
      for (int s = 0; s < 2; s++)
      {
         int m = s ? b : a, be = s ? f.BE2 : f.BE1, inf = s ? f.Inf2 : f.Inf1; if (!t[s]) { fail("no transformation on a boundary face"); continue; }
         expect(t[s]->Elem1No == elemof(*c.ms[m], be), fmt("side %d: element %d, specified %d", s + 1, t[s]->Elem1No, elemof(*c.ms[m], be)));
         IntegrationPoint ip, e; ip.Set3(D(.1, .4), D(.1, .4), 0.); t[s]->Loc1.Transform(ip, e); double x[3]; refpt(c.ms[m]->GetElementGeometry(elemof(*c.ms[m], be)), inf, ip, x); double g[3] = {e.x, e.y, e.z}; for (int q = 0; q < c.dim; q++) eq(g[q], x[q], fmt("side %d: reference coordinate %d of a face point", s + 1, q));
      }
   }
}
static void run(int it)
{
   Case c(it); const int N = c.N; Topo T(true); for (auto &m : c.ms) T.ms.push_back(m.get()); T.fin();
   for (int p = I(0, 4); p > 0; p--) { int a = I(0, N - 1), b = I(0, N - 2); if (b >= a) b++; T.add(a, b, c.infos(a, b)); trans(c, T, a, b, T.GetInterfaceInfos(T.GetNumPorts() - 1)); }
   for (int p = 0; p < I(1, 3); p++) { int a = I(0, N - 1), b = I(0, N - 1); T.addref(a, b, c.infos(a, b)); }
   if (T.GetNumPorts() < 0) T.add(0, 1, new Array<InterfaceInfo>);
   InterfaceForm F(c.am, c.af, &T); MixedInterfaceForm M(c.am, c.af, c.at, &T); std::vector<Mock *> fk, mk; for (int k = I(0, 3); k > 0; k--) { Mock *m = new Mock; m->vd1 = m->vd2 = c.vd; fk.push_back(m); F.AddInterfaceIntegrator(m); } for (int k = I(0, 2); k > 0; k--) { Mock *m = new Mock; m->vd1 = c.vd; m->vd2 = c.tvd; mk.push_back(m); M.AddInterfaceIntegrator(m); }
   expect(F.GetIntefaceIntegrators().Size() == (int)fk.size() && M.GetIntefaceIntegrators().Size() == (int)mk.size(), "number of registered terms");
   Array<int> off(N + 1); off[0] = 0; for (int i = 0; i < N; i++) off[i + 1] = off[i] + c.fs[i]->GetTrueVSize(); expect(F.GetBlockOffsets().Size() == N + 1, "number of block offsets"); for (int i = 0; i <= N; i++) expect(F.GetBlockOffsets()[i] == off[i], "block offset");
   // operation: what is added for the given list of (mesh a, mesh b, interfaces)
   auto blocks = [&](int a, int b, const InterfaceInfo &f, Mock *m, bool mix, const Vector *x, std::function<void(int, int, const Array<int> &, const Array<int> &, const DenseMatrix &)> put) {
      Mesh &A = *c.ms[a], &Bm = *c.ms[b]; int e1 = elemof(A, f.BE1), e2 = elemof(Bm, f.BE2); double p1 = posof(A, f.BE1), p2 = posof(Bm, f.BE2); Array<int> v[2], w[2]; c.fs[a]->GetElementVDofs(e1, v[0]); c.fs[b]->GetElementVDofs(e2, v[1]); if (mix) { c.ts[a]->GetElementVDofs(e1, w[0]); c.ts[b]->GetElementVDofs(e2, w[1]); } else { w[0] = v[0]; w[1] = v[1]; }
      Grid E; if (x) { Vector u[2]; for (int s = 0; s < 2; s++) { u[s].SetSize(v[s].Size()); for (int i = 0; i < v[s].Size(); i++) u[s](i) = (*x)(off[s ? b : a] + v[s][i]); } m->Jac(u[0], u[1], e1, e2, p1, p2, E.a); } else m->Blocks(w[0].Size(), w[1].Size(), v[0].Size(), v[1].Size(), e1, e2, p1, p2, E.a);
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) put(i, j, w[i], v[j], E.m[2 * i + j]); };
   for (int rep = 0; rep < 2; rep++)
   {
      Vector x(off[N]), y(off[N]), r, u; rnd(x); rnd(y); r = y; u = x; std::string d = c.d + fmt(" ports=%d terms=%d,%d rep=%d", T.GetNumPorts(), (int)fk.size(), (int)mk.size(), rep);
      { casef(d + " InterfaceAddMult"); F.InterfaceAddMult(x, y);
        for (int p = 0; p < T.GetNumPorts(); p++) { const PortInfo &P = *T.GetPortInfo(p); for (auto &f : *T.GetInterfaceInfos(p)) for (Mock *m : fk) { Mesh &A = *c.ms[P.Mesh1], &Bm = *c.ms[P.Mesh2]; int e1 = elemof(A, f.BE1), e2 = elemof(Bm, f.BE2); Array<int> v1, v2; c.fs[P.Mesh1]->GetElementVDofs(e1, v1); c.fs[P.Mesh2]->GetElementVDofs(e2, v2); Vector x1(v1.Size()), x2(v2.Size()), y1, y2; for (int i = 0; i < v1.Size(); i++) x1(i) = x(off[P.Mesh1] + v1[i]); for (int i = 0; i < v2.Size(); i++) x2(i) = x(off[P.Mesh2] + v2[i]); m->Res(x1, x2, e1, e2, posof(A, f.BE1), posof(Bm, f.BE2), y1, y2); for (int i = 0; i < v1.Size(); i++) r(off[P.Mesh1] + v1[i]) += y1(i); for (int i = 0; i < v2.Size(); i++) r(off[P.Mesh2] + v2[i]) += y2(i); } }
        veq(y, r, "residual"); veq(x, u, "state (not modified)", 0.); }
      for (int op = 0; op < 3; op++)
      {
         bool mix = op == 2, grad = op == 1; auto &R = mix ? c.ts : c.fs; std::vector<DenseMatrix> ref(N * N); Array2D<SparseMatrix *> mats(N, N); casef(d + (mix ? " Mixed AssembleInterfaceMatrices" : grad ? " InterfaceGetGradient" : " AssembleInterfaceMatrices"));
         for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int h = R[i]->GetTrueVSize(), w = c.fs[j]->GetTrueVSize(); mats(i, j) = new SparseMatrix(h, w); ref[i * N + j].SetSize(h, w); ref[i * N + j] = 0.; sp(*mats(i, j), ref[i * N + j]); }
         if (mix) M.AssembleInterfaceMatrices(mats); else if (grad) F.InterfaceGetGradient(x, mats); else F.AssembleInterfaceMatrices(mats);
         for (int p = 0; p < T.GetNumPorts(); p++) { const PortInfo &P = *T.GetPortInfo(p); int mm[2] = {P.Mesh1, P.Mesh2}; for (auto &f : *T.GetInterfaceInfos(p)) for (Mock *m : mix ? mk : fk) blocks(P.Mesh1, P.Mesh2, f, m, mix, grad ? &x : NULL, [&](int i, int j, const Array<int> &w, const Array<int> &v, const DenseMatrix &E) { add(ref[mm[i] * N + mm[j]], w, v, E); }); }
         for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { meq(dn(*mats(i, j)), ref[i * N + j], fmt("block (%d,%d)", i, j)); delete mats(i, j); } veq(x, u, "state (not modified)", 0.);
      }
      for (int p = 0; p < T.GetNumRefPorts(); p++) for (int mix = 0; mix < 2; mix++)
      {
         int mm[2]; T.GetComponentPair(p, mm[0], mm[1]); auto &R = mix ? c.ts : c.fs; std::vector<DenseMatrix> ref(4); Array2D<SparseMatrix *> mats(2, 2); casef(d + fmt(" %sAssembleInterfaceMatrixAtPort components %d,%d", mix ? "Mixed " : "", mm[0], mm[1])); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { mats(i, j) = B() ? NULL : new SparseMatrix(3, 3); ref[2 * i + j].SetSize(R[mm[i]]->GetTrueVSize(), c.fs[mm[j]]->GetTrueVSize()); ref[2 * i + j] = 0.; }
         if (mix) M.AssembleInterfaceMatrixAtPort(p, c.af, c.at, mats); else F.AssembleInterfaceMatrixAtPort(p, c.af, mats);
         for (auto &f : *T.GetRefInterfaceInfos(p)) for (Mock *m : mix ? mk : fk) blocks(mm[0], mm[1], f, m, mix, NULL, [&](int i, int j, const Array<int> &w, const Array<int> &v, const DenseMatrix &E) { add(ref[2 * i + j], w, v, E); });
         expect(mats.NumRows() == 2 && mats.NumCols() == 2, "2 x 2 blocks"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { meq(dn(*mats(i, j)), ref[2 * i + j], fmt("block (%d,%d)", i, j)); delete mats(i, j); }
      }
   }
}
int main() { MPIGuard mpi; for (int it = 0; it < reps(60); it++) run(it); return done(); }
