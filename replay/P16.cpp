// SRC: topology_handler hdf5_utils etc linalg_utils input_parser
#include "topology_handler.hpp"
#include "etc.hpp"
#include "vr.hpp"
#include <set>
#include <map>
using namespace mfem; using namespace vr;
static void centre(Mesh &m, const Array<int> &v, double *c) { c[0] = c[1] = c[2] = 0; for (int k = 0; k < v.Size(); k++) for (int d = 0; d < m.Dimension(); d++) c[d] += m.GetVertex(v[k])[d] / v.Size(); }
static std::string key(const double *c) { return fmt("%.7f %.7f %.7f", c[0] + 1e-12, c[1] + 1e-12, c[2] + 1e-12); }
static std::string bkey(Mesh &m, int be) { Array<int> v; m.GetBdrElementVertices(be, v); double c[3]; centre(m, v, c); return key(c); }
static std::string fkey(Mesh &m, int f) { Array<int> v; m.GetFaceVertices(f, v); double c[3]; centre(m, v, c); return key(c); }
// distinct centres for all faces: vertices moved at random
static void perturb(Mesh &m, double h) { for (int v = 0; v < m.GetNV(); v++) for (int d = 0; d < m.Dimension(); d++) m.GetVertex(v)[d] += h * D(-1, 1); }
// in 3D the installed MFEM marks the faces that its sub-meshes generate with 900 (later versions with the largest attribute plus one, which the code expects): the largest attribute of a 3D mesh is made 899
struct Probe : SubMeshTopologyHandler { using SubMeshTopologyHandler::SubMeshTopologyHandler; using TopologyHandler::UpdateAttributes; using TopologyHandler::UpdateBdrAttributes; };
static void lists(Mesh &m, const std::string &w) { Array<int> a, b; for (int e = 0; e < m.GetNE(); e++) if (a.Find(m.GetAttribute(e)) < 0) a.Append(m.GetAttribute(e)); for (int e = 0; e < m.GetNBE(); e++) if (b.Find(m.GetBdrAttribute(e)) < 0) b.Append(m.GetBdrAttribute(e)); a.Sort(); b.Sort(); Array<int> c(m.attributes), d(m.bdr_attributes); c.Sort(); d.Sort(); if (!(a == c)) fail(w + ": list of attributes is " + s(c) + ", specified " + s(a)); if (!(b == d)) fail(w + ": list of boundary attributes is " + s(d) + ", specified " + s(b)); }
int main()
{
   { int ac = 0; MPI_Init(NULL, NULL); }
   for (int rep = 0; rep < reps(160); rep++)
   {
      int dim = I(2, 3), nx = I(1, 5), ny = I(1, 4), nz = I(1, 3); Element::Type et = dim == 2 ? (B() ? Element::TRIANGLE : Element::QUADRILATERAL) : (B() ? Element::TETRAHEDRON : Element::HEXAHEDRON);
      if (dim == 3) { nx = I(1, 3); ny = I(1, 2); nz = I(1, 2); } if (nx * ny == 1) nx = 2;
      Mesh *pm = new Mesh(dim == 2 ? Mesh::MakeCartesian2D(nx, ny, et) : Mesh::MakeCartesian3D(nx, ny, nz, et)); perturb(*pm, .12 / std::max(nx, std::max(ny, nz)));
      int na = std::min(I(1, 6), pm->GetNE()); bool scattered = B(); for (int e = 0; e < pm->GetNE(); e++) pm->SetAttribute(e, scattered ? I(1, na) : std::min(na, 1 + e * na / pm->GetNE()));
      for (int a = 1; a <= na; a++) { bool has = false; for (int e = 0; e < pm->GetNE(); e++) has |= pm->GetAttribute(e) == a; if (!has) { for (int e = 0; e < pm->GetNE(); e++) { int cnt = 0; for (int g = 0; g < pm->GetNE(); g++) cnt += pm->GetAttribute(g) == pm->GetAttribute(e); if (cnt > 1) { pm->SetAttribute(e, a); break; } } } }
      if (B()) for (int b = 0; b < pm->GetNBE(); b++) pm->SetBdrAttribute(b, I(1, I(0, 3) ? 6 : 30));
      if (dim == 3) pm->SetBdrAttribute(I(0, pm->GetNBE() - 1), SubMesh::GENERATED_ATTRIBUTE - 1);
      pm->SetAttributes(); int ref = dim == 2 && !I(0, 4) ? 1 : 0; config = InputParser(); config.SetOption("mesh/uniform_refinement", ref); bool nodd = !I(0, 9); if (nodd) config.SetOption("domain-decomposition/type", std::string("none"));
      casef(fmt("%dD mesh %d x %d x %d of elements %d, %d attributes %s, refined %d times%s", dim, nx, ny, dim == 3 ? nz : 0, (int)et, na, scattered ? "scattered" : "in layers", ref, nodd ? ", not decomposed" : ""));
      std::map<std::string, int> battr0; Probe *T = new Probe(pm); int ns = T->GetNumSubdomains();
      if (ns != (nodd ? 1 : na)) { fail(fmt("%d subdomains", ns)); continue; } expect(T->GetNumComponents() == ns && T->GetGlobalMesh() == pm, "components and parent mesh");
      for (int m = 0; m < ns; m++) expect(T->GetMeshType(m) == m && T->GetComponentIndexOfMesh(m) == 0 && T->GetNumSubdomains(m) == 1, "every subdomain is a component of its own");
      int maxb = 0; for (int b = 0; b < pm->GetNBE(); b++) { maxb = std::max(maxb, pm->GetBdrAttribute(b)); battr0[bkey(*pm, b)] = pm->GetBdrAttribute(b); }
      // what the parent mesh says
      std::map<std::string, std::pair<int, int>> shared; std::map<std::string, int> pface; std::map<std::pair<int, int>, int> want;
      for (int f = 0; f < pm->GetNumFaces(); f++) { int e1, e2; pm->GetFaceElements(f, &e1, &e2); std::string k = fkey(*pm, f); if (pface.count(k)) { fail("harness: faces not distinct"); break; } pface[k] = f; if (e2 < 0 || nodd) continue; int i = pm->GetAttribute(e1) - 1, j = pm->GetAttribute(e2) - 1; if (i == j) continue; shared[k] = {std::min(i, j), std::max(i, j)}; want[shared[k]]++; }
      std::map<std::pair<int, int>, int> ports; std::set<int> attrs; std::map<std::pair<int, std::string>, int> battr;
      if (T->GetNumPorts() != (int)want.size()) { fail(fmt("%d ports, specified %d", T->GetNumPorts(), (int)want.size())); continue; }
      std::set<std::string> seen;
      for (int p = 0; p < T->GetNumPorts(); p++)
      {
         const PortInfo *q = T->GetPortInfo(p); std::pair<int, int> ij(q->Mesh1, q->Mesh2); if (!want.count(ij)) { fail(fmt("port %d joins %d and %d, which share no face", p, ij.first, ij.second)); break; } if (ports.count(ij)) { fail("two ports join the same subdomains"); break; } ports[ij] = p;
         if (q->PortAttr <= maxb || attrs.count(q->PortAttr)) { fail("attribute of a port is already used"); break; } attrs.insert(q->PortAttr); expect(q->Attr1 == q->PortAttr && q->Attr2 == q->PortAttr, "attributes of both sides of a port");
         Array<InterfaceInfo> *L = T->GetInterfaceInfos(p); if (L->Size() != want[ij]) { fail(fmt("port %d lists %d faces, specified %d", p, L->Size(), want[ij])); break; }
         Mesh *m1 = T->GetMesh(ij.first), *m2 = T->GetMesh(ij.second);
         for (int k = 0; k < L->Size(); k++)
         {
            InterfaceInfo &x = (*L)[k]; std::string k1 = bkey(*m1, x.BE1), k2 = bkey(*m2, x.BE2); if (k1 != k2) { fail(fmt("port %d entry %d: the boundary elements lie on different faces", p, k)); break; }
            if (!shared.count(k1) || shared[k1] != ij) { fail(fmt("port %d entry %d: not a face shared by these subdomains", p, k)); break; } if (!seen.insert(k1).second) { fail("a face is listed twice"); break; }
            int f = pface[k1], e1, e2, i1, i2; pm->GetFaceElements(f, &e1, &e2); pm->GetFaceInfos(f, &i1, &i2); bool first = pm->GetAttribute(e1) - 1 == ij.first;
            if (x.Inf1 != (first ? i1 : i2) || x.Inf2 != (first ? i2 : i1)) { fail(fmt("port %d entry %d: orientation %d %d, specified %d %d", p, k, x.Inf1, x.Inf2, first ? i1 : i2, first ? i2 : i1)); break; }
            if (m1->GetBdrAttribute(x.BE1) != q->PortAttr || m2->GetBdrAttribute(x.BE2) != q->PortAttr) { fail("boundary attribute of an interface"); break; } battr[{ij.first, k1}] = battr[{ij.second, k1}] = q->PortAttr;
            FaceElementTransformations *t1 = NULL, *t2 = NULL; T->GetInterfaceTransformations(m1, m2, &x, t1, t2); const IntegrationRule &ir = IntRules.Get(t1->GetGeometryType(), 3);
            for (int g = 0; g < ir.GetNPoints(); g++) { IntegrationPoint a, b; double px[3] = {0, 0, 0}, py[3] = {0, 0, 0}; Vector vx(px, dim), vy(py, dim); t1->Loc1.Transform(ir.IntPoint(g), a); t2->Loc1.Transform(ir.IntPoint(g), b); t1->Elem1->Transform(a, vx); t2->Elem1->Transform(b, vy); if (!(std::abs(px[0] - py[0]) + std::abs(px[1] - py[1]) + std::abs(px[2] - py[2]) <= 1e-9)) { fail(fmt("port %d entry %d: the two sides disagree on the position of a point", p, k)); break; } }
         }
      }
      // every boundary element of every subdomain: port attribute or its original attribute
      for (int m = 0; m < ns; m++)
      {
         Mesh *M = T->GetMesh(m); std::set<int> used; for (int b = 0; b < M->GetNBE(); b++) { std::string k = bkey(*M, b); int a = M->GetBdrAttribute(b); used.insert(a); int w = shared.count(k) ? battr[{m, k}] : battr0.count(k) ? battr0[k] : -1; if (a != w) { fail(fmt("subdomain %d boundary element %d: attribute %d, specified %d", m, b, a, w)); break; } }
         std::set<int> got(M->bdr_attributes.begin(), M->bdr_attributes.end()); if (got != used || (int)got.size() != M->bdr_attributes.Size()) fail("list of boundary attributes of a subdomain"); int ne = 0; for (int e = 0; e < pm->GetNE(); e++) ne += nodd || pm->GetAttribute(e) == m + 1; expect(M->GetNE() == ne, "elements of a subdomain");
      }
      Array<Mesh *> mp; TopologyData td; T->ExportInfo(mp, td); expect(mp.Size() == ns && td.numSub == ns && td.dim == dim && td.global_bdr_attributes == &pm->bdr_attributes, "exported data"); for (int m = 0; m < std::min(ns, mp.Size()); m++) expect(mp[m] == T->GetMesh(m), "exported mesh");
      // transfer of discontinuous fields: every element of the parent gets the values of its subdomain
      if (dim == 2 || B())
      {
         int nv = I(1, 2); L2_FECollection fec(0, dim); FiniteElementSpace gf(pm, &fec); Array<GridFunction *> us(ns * nv), gu(nv); std::vector<FiniteElementSpace *> fs; for (int m = 0; m < ns; m++) { fs.push_back(new FiniteElementSpace(T->GetMesh(m), &fec)); for (int v = 0; v < nv; v++) { us[m * nv + v] = new GridFunction(fs[m]); *us[m * nv + v] = 10. * (m + 1) + v; } } for (int v = 0; v < nv; v++) { gu[v] = new GridFunction(&gf); *gu[v] = -1.; }
         T->TransferToGlobal(us, gu, nv); for (int v = 0; v < nv; v++) for (int e = 0; e < pm->GetNE(); e++) { double w = 10. * (nodd ? 1 : pm->GetAttribute(e)) + v; if ((*gu[v])(e) != w) { fail(fmt("transferred variable %d on element %d: %g, specified %g", v, e, (*gu[v])(e), w)); break; } }
         for (auto x : us) delete x; for (auto x : gu) delete x; for (auto x : fs) delete x;
      }
      lists(*pm, "parent mesh");
      { Mesh c(*pm); for (int k = 0; k < 2; k++) { for (int e = 0; e < c.GetNE(); e++) c.SetAttribute(e, I(1, 5)); for (int e = 0; e < c.GetNBE(); e++) c.SetBdrAttribute(e, I(1, 5)); T->UpdateAttributes(c); T->UpdateBdrAttributes(c); lists(c, "mesh with new attributes"); } }
      delete T; delete pm;
   }
   int r = done(); MPI_Finalize(); return r;
}
