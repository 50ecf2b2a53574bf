// SRC: component_topology_handler topology_handler hdf5_utils etc linalg_utils input_parser
#include "component_topology_handler.hpp"
#include "hdf5_utils.hpp"
#include "etc.hpp"
#include "vr.hpp"
#include <set>
#include <map>
#include <numeric>
#include <algorithm>
using namespace mfem; using namespace vr;
typedef std::array<double, 3> P3;
// the unit cell [0,1]^dim cut into n^dim boxes (elements et), vertices numbered at random, elements turned at random, coordinates of the inside moved
static Mesh cell(int dim, int n, Element::Type et, const std::vector<int> &attr, int split, int ord)
{
   int N = n + 1, nv = dim == 2 ? N * N : N * N * N; std::vector<int> pi(nv), inv(nv); std::iota(pi.begin(), pi.end(), 0); std::shuffle(pi.begin(), pi.end(), rng()); for (int k = 0; k < nv; k++) inv[pi[k]] = k;
   auto V = [&](int i, int j, int k) { return pi[i + N * (j + N * k)]; };
   std::vector<std::vector<int>> els;
   auto turn = [&](std::vector<int> v) {
      if (et == Element::QUADRILATERAL || et == Element::TRIANGLE) std::rotate(v.begin(), v.begin() + I(0, v.size() - 1), v.end());
      else if (et == Element::TETRAHEDRON) { if (B()) v = {v[1], v[2], v[0], v[3]}; if (B()) v = {v[1], v[0], v[3], v[2]}; if (B()) v = {v[0], v[2], v[3], v[1]}; }
      else for (int k = I(0, 4); k > 0; k--) { if (B()) v = {v[1], v[2], v[3], v[0], v[5], v[6], v[7], v[4]}; else v = {v[3], v[2], v[6], v[7], v[0], v[1], v[5], v[4]}; }
      els.push_back(v); };
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < (dim == 2 ? 1 : n); k++)
   {
      if (et == Element::QUADRILATERAL) turn({V(i, j, 0), V(i + 1, j, 0), V(i + 1, j + 1, 0), V(i, j + 1, 0)});
      else if (et == Element::TRIANGLE) { if (B()) { turn({V(i, j, 0), V(i + 1, j, 0), V(i + 1, j + 1, 0)}); turn({V(i, j, 0), V(i + 1, j + 1, 0), V(i, j + 1, 0)}); } else { turn({V(i, j, 0), V(i + 1, j, 0), V(i, j + 1, 0)}); turn({V(i + 1, j, 0), V(i + 1, j + 1, 0), V(i, j + 1, 0)}); } }
      else if (et == Element::HEXAHEDRON) turn({V(i, j, k), V(i + 1, j, k), V(i + 1, j + 1, k), V(i, j + 1, k), V(i, j, k + 1), V(i + 1, j, k + 1), V(i + 1, j + 1, k + 1), V(i, j + 1, k + 1)});
      else { int p[3] = {0, 1, 2}; do { int s = (p[0] == 0 && p[1] == 1) || (p[0] == 1 && p[1] == 2) || (p[0] == 2 && p[1] == 0), c[3] = {i, j, k}; std::vector<int> v; v.push_back(V(c[0], c[1], c[2])); for (int q = 0; q < 3; q++) { c[p[q]]++; v.push_back(V(c[0], c[1], c[2])); } if (!s) std::swap(v[0], v[1]); turn(v); } while (std::next_permutation(p, p + 3)); }
   }
   std::shuffle(els.begin(), els.end(), rng());
   Mesh m(dim, nv, els.size(), 0, dim);
   for (int q = 0; q < nv; q++) { int k = inv[q], c[3] = {k % N, k / N % N, k / N / N}; double x[3] = {0, 0, 0}; bool in = true; for (int d = 0; d < dim; d++) { x[d] = double(c[d]) / n; in &= c[d] > 0 && c[d] < n; } if (in) for (int d = 0; d < dim; d++) x[d] += D(-.1, .1) / n; m.AddVertex(x); }
   for (auto &v : els) { if (dim == 2) { if (v.size() == 4) m.AddQuad(v.data()); else m.AddTriangle(v.data()); } else { if (v.size() == 8) m.AddHex(v.data()); else m.AddTet(v.data()); } }
   m.FinalizeTopology(); m.Finalize();
   for (int b = 0; b < m.GetNBE(); b++) { Array<int> v; m.GetBdrElementVertices(b, v); double c[3] = {0, 0, 0}; for (int k = 0; k < v.Size(); k++) for (int d = 0; d < dim; d++) c[d] += m.GetVertex(v[k])[d] / v.Size(); for (int d = 0; d < dim; d++) { if (c[d] < 1e-9) m.SetBdrAttribute(b, attr[2 * d]); if (c[d] > 1 - 1e-9) m.SetBdrAttribute(b, attr[2 * d + 1]); } }
   m.SetAttributes(); if (split >= 0) m.SetCurvature(ord, split == 1); return m;
}
struct Probe : public ComponentTopologyHandler {
   using ComponentTopologyHandler::ref_ports; using ComponentTopologyHandler::WritePortDataToFile; using ComponentTopologyHandler::ReadPortDatasFromFile; using ComponentTopologyHandler::port_names; using ComponentTopologyHandler::components; using ComponentTopologyHandler::GetOrientation;
};
static void same(const ComponentTopologyHandler::PortData &a, const ComponentTopologyHandler::PortData &b, const std::string &what)
{
   if (a.Component1 != b.Component1 || a.Component2 != b.Component2 || a.Attr1 != b.Attr1 || a.Attr2 != b.Attr2) { fail(what + ": components or attributes of a port"); return; }
   if (a.vtx2to1 != b.vtx2to1) { fail(what + ": vertex map of a port"); return; }
   if (a.be_pairs.NumRows() != b.be_pairs.NumRows() || a.be_pairs.NumCols() != b.be_pairs.NumCols()) { fail(what + ": number of boundary element pairs"); return; }
   for (int i = 0; i < a.be_pairs.NumRows(); i++) for (int j = 0; j < a.be_pairs.NumCols(); j++) if (a.be_pairs(i, j) != b.be_pairs(i, j)) { fail(what + fmt(": boundary element pair %d", i)); return; }
}
static P3 place(Mesh *m, int e, const IntegrationPoint &ip) { P3 x = {0, 0, 0}; Vector v(x.data(), m->Dimension()); m->GetElementTransformation(e)->Transform(ip, v); return x; }
static double dist(const P3 &a, const P3 &b) { return std::abs(a[0] - b[0]) + std::abs(a[1] - b[1]) + std::abs(a[2] - b[2]); }
static P3 bcentre(Mesh *m, int be) { P3 x = {0, 0, 0}; Vector v(x.data(), m->Dimension()); ElementTransformation *T = m->GetBdrElementTransformation(be); T->Transform(Geometries.GetCenter(T->GetGeometryType()), v); return x; }
int main()
{
   { int ac = 0; MPI_Init(NULL, NULL); } H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
   // motions: the inverse undoes the motion, and the motion is what the configuration says
   for (int rep = 0; rep < reps(200); rep++)
   {
      int dim = I(2, 3); casef(fmt("motion in %dD, draw %d", dim, rep)); for (int d = 0; d < 3; d++) { mesh_config::trans[d] = D(-5, 5); mesh_config::rotate[d] = I(0, 5) ? D(-7, 7) : 0.; }
      Vector x(dim), y, z; rnd(x); auto f = dim == 2 ? mesh_config::Transform2D : mesh_config::Transform3D; auto g = dim == 2 ? mesh_config::InverseTransform2D : mesh_config::InverseTransform3D;
      f(x, y); g(y, z); veq(z, x, "inverse of the motion"); g(x, y); f(y, z); veq(z, x, "motion of the inverse"); f(x, y); double t = dim == 2 ? mesh_config::rotate[0] : 0., w[3] = {cos(t) * x(0) - sin(t) * x(1) + mesh_config::trans[0], sin(t) * x(0) + cos(t) * x(1) + mesh_config::trans[1], dim == 3 ? x(2) + mesh_config::trans[2] : 0.}; veq(y, Vector(w, dim), "motion");
   }
   for (int rep = 0; rep < reps(60); rep++)
   {
      int dim = rep % 2 ? 2 : 3, n = dim == 2 ? I(1, 4) : I(1, 2), nc = I(1, 3), G[3] = {I(1, 3), I(1, 3), dim == 2 ? 1 : I(1, 2)}; if (dim == 3) { G[0] = I(1, 2); G[1] = I(1, 2); }
      if (G[0] * G[1] * G[2] == 1 && I(0, 4)) G[I(0, 1)] = 2;
      Element::Type et = dim == 2 ? (B() ? Element::TRIANGLE : Element::QUADRILATERAL) : (B() ? Element::TETRAHEDRON : Element::HEXAHEDRON);
      // components: names, attributes of their sides (pairwise different within a component)
      std::vector<std::string> names, files; std::vector<std::vector<int>> attr(nc); std::vector<int> perm(nc); int hi = I(0, 2) ? 12 : 60;
      for (int c = 0; c < nc; c++) { std::vector<int> a(hi); std::iota(a.begin(), a.end(), 1); std::shuffle(a.begin(), a.end(), rng()); attr[c].assign(a.begin(), a.begin() + 2 * dim); names.push_back(fmt("%s%c", c % 2 ? "room" : "a", 'z' - c)); files.push_back(fmt("comp%d.mesh", c)); }
      int ord = I(1, 2); for (int c = 0; c < nc; c++) { Mesh m = cell(dim, n, et, attr[c], rep % 5 == 4 ? 1 : 0, ord); m.Save(files[c].c_str(), 17); }
      // subdomains: cells of a grid, in random order, each turned by a multiple of a right angle in 2D
      int ns = G[0] * G[1] * G[2]; std::vector<int> order(ns), type(ns), turn(ns); std::iota(order.begin(), order.end(), 0); std::shuffle(order.begin(), order.end(), rng()); bool rotate = dim == 2 && B();
      Array2D<double> cf(ns, 6); cf = 0.; Array<int> types(ns); std::map<P3, int> at; double base[3] = {D(-3, 3), D(-3, 3), D(-3, 3)}; std::vector<P3> pos(ns);
      for (int m = 0; m < ns; m++)
      {
         type[m] = m < nc ? m : I(0, nc - 1); if (ns < nc) type[m] = I(0, nc - 1); types[m] = type[m]; turn[m] = rotate ? I(0, 3) : 0; int g = order[m]; P3 x = {double(g % G[0]), double(g / G[0] % G[1]), double(g / G[0] / G[1])}; pos[m] = x; at[x] = m;
         // corner of the turned cell
         double off[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (int d = 0; d < dim; d++) cf(m, d) = base[d] + x[d] + (d < 2 ? off[turn[m]][d] : 0.); cf(m, 3) = turn[m] * M_PI / 2; if (dim == 3) for (int d = 3; d < 6; d++) cf(m, d) = 0.;
      }
      // the side (0..2 dim-1) of the component that points in a direction of the grid
      auto side = [&](int m, int d, int pos) { if (dim == 3) return 2 * d + pos; int dir = d == 0 ? (pos ? 0 : 2) : (pos ? 1 : 3); int loc = ((dir - turn[m]) % 4 + 4) % 4; int tab[4] = {1, 3, 0, 2}; return tab[loc]; };
      struct Ref { int c1, c2, a1, a2; double cf[6]; std::string name; }; std::vector<Ref> refs; std::vector<std::array<int, 5>> ports; std::map<std::pair<int, int>, int> portOf; std::vector<std::array<int, 3>> bdr; std::set<int> gattrs; int gmax = I(0, 3) ? 9 : 80;
      for (int m = 0; m < ns; m++) for (int d = 0; d < dim; d++) for (int ps = 0; ps < 2; ps++)
      {
         P3 q = pos[m]; q[d] += ps ? 1 : -1; if (!at.count(q)) { int ga = I(1, gmax); bdr.push_back({ga, m, attr[type[m]][side(m, d, ps)]}); gattrs.insert(ga); continue; }
         int k = at[q]; if (k < m) continue; int s1 = m, s2 = k, p1 = ps, p2 = 1 - ps; if (B()) { std::swap(s1, s2); std::swap(p1, p2); }
         Ref r; r.c1 = type[s1]; r.c2 = type[s2]; r.a1 = attr[r.c1][side(s1, d, p1)]; r.a2 = attr[r.c2][side(s2, d, p2)]; int found = -1; for (int i = 0; i < (int)refs.size(); i++) if (refs[i].c1 == r.c1 && refs[i].c2 == r.c2 && refs[i].a1 == r.a1 && refs[i].a2 == r.a2) found = i;
         if (found < 0) { double t = -turn[s1] * M_PI / 2, dx = cf(s2, 0) - cf(s1, 0), dy = cf(s2, 1) - cf(s1, 1); for (int j = 0; j < 6; j++) r.cf[j] = 0.; if (dim == 2) { r.cf[0] = cos(t) * dx - sin(t) * dy; r.cf[1] = sin(t) * dx + cos(t) * dy; r.cf[3] = (turn[s2] - turn[s1]) * M_PI / 2; } else for (int j = 0; j < 3; j++) r.cf[j] = cf(s2, j) - cf(s1, j); r.name = fmt("port%d", (int)refs.size()); found = refs.size(); refs.push_back(r); }
         ports.push_back({s1, s2, r.a1, r.a2, found}); portOf[{s1, r.a1}] = ports.size() - 1; portOf[{s2, r.a2}] = ports.size() - 1;
      }
      if (bdr.empty()) continue; std::shuffle(bdr.begin(), bdr.end(), rng());
      { std::vector<int> po(ports.size()); std::iota(po.begin(), po.end(), 0); std::shuffle(po.begin(), po.end(), rng()); auto old = ports; for (size_t i = 0; i < po.size(); i++) ports[i] = old[po[i]]; portOf.clear(); for (size_t i = 0; i < ports.size(); i++) { portOf[{ports[i][0], ports[i][2]}] = i; portOf[{ports[i][1], ports[i][3]}] = i; } }
      std::vector<int> ro(refs.size()); std::iota(ro.begin(), ro.end(), 0); std::shuffle(ro.begin(), ro.end(), rng()); { auto old = refs; for (size_t i = 0; i < ro.size(); i++) refs[ro[i]] = old[i]; for (auto &p : ports) p[4] = ro[p[4]]; }
      int nr = refs.size(); double thr = I(0, 2) ? 1e-10 : .2 / n; if (thr > 1e-3) for (auto &r : refs) for (int d = 0; d < dim; d++) r.cf[d] += D(-.15, .15) / n; bool write = !I(0, 2); int how0 = I(0, 2); bool sepb = !I(0, 3);
      casef(fmt("%dD grid %d x %d x %d of cells cut %d times into elements %d, %d components, %d ports (%d reference), %s%s%s", dim, G[0], G[1], G[2], n, (int)et, nc, (int)ports.size(), nr, rotate ? "turned cells" : "", sepb ? ", boundary file" : "", write ? ", port files" : ""));
      // global configuration file
      config = InputParser(); std::vector<int> inYaml;
      {
         hid_t f = H5Fcreate("global.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gcreate(f, "components", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(g, "number_of_components", nc); for (int c = 0; c < nc; c++) hdf5_utils::WriteAttribute(g, std::to_string(c).c_str(), names[c]); hdf5_utils::WriteDataset(g, "meshes", types); hdf5_utils::WriteDataset(g, "configuration", cf); H5Gclose(g);
         g = H5Gcreate(f, "ports", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(g, "number_of_references", nr); for (int r = 0; r < nr; r++) hdf5_utils::WriteAttribute(g, std::to_string(r).c_str(), refs[r].name);
         for (int r = 0; r < nr; r++) { if (write || (how0 == 1 || (how0 == 2 && B()))) { inYaml.push_back(r); continue; } hid_t p = H5Gcreate(g, refs[r].name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(p, "comp1", names[refs[r].c1]); hdf5_utils::WriteAttribute(p, "comp2", names[refs[r].c2]); hdf5_utils::WriteAttribute(p, "attr1", refs[r].a1); hdf5_utils::WriteAttribute(p, "attr2", refs[r].a2); Array<double> t(refs[r].cf, 6); hdf5_utils::WriteDataset(p, "comp2_configuration", t); H5Gclose(p); }
         if (nr) { Array2D<int> t(ports.size(), 5); for (int i = 0; i < (int)ports.size(); i++) for (int j = 0; j < 5; j++) t(i, j) = ports[i][j]; hdf5_utils::WriteDataset(g, "interface", t); } H5Gclose(g);
         Array2D<int> t(bdr.size(), 3); for (int i = 0; i < (int)bdr.size(); i++) for (int j = 0; j < 3; j++) t(i, j) = bdr[i][j]; if (!sepb) hdf5_utils::WriteDataset(f, "boundary", t); H5Fclose(f);
         if (sepb) { f = H5Fcreate("bdr.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteDataset(f, "boundary", t); H5Fclose(f); config.SetOption("mesh/component-wise/bdr_config", std::string("bdr.h5")); }
      }
      config.SetOption("mesh/component-wise/global_config", std::string("global.h5")); if (thr != 1e-10) config.SetOption("mesh/component-wise/vertex_gap_threshold", thr); if (write) config.SetOption("mesh/component-wise/write_ports", true);
      YAML::Node list; std::vector<int> co(nc + 1); std::iota(co.begin(), co.end(), 0); std::shuffle(co.begin(), co.end(), rng()); for (int c : co) { YAML::Node e; if (c == nc) { e["name"] = "unused"; e["file"] = "nofile.mesh"; } else { e["name"] = names[c]; e["file"] = files[c]; } list.push_back(e); }
      YAML::Node root = config.FindNode("mesh/component-wise"); root["components"] = list;
      if (inYaml.size()) { YAML::Node pl; std::shuffle(inYaml.begin(), inYaml.end(), rng()); for (int r : inYaml) { YAML::Node e; e["name"] = refs[r].name; e["comp1"]["name"] = names[refs[r].c1]; e["comp1"]["attr"] = refs[r].a1; e["comp2"]["name"] = names[refs[r].c2]; e["comp2"]["attr"] = refs[r].a2; for (int j = 0; j < 6; j++) e["comp2_configuration"].push_back(fmt("%.17g", refs[r].cf[j])); if (write) { e["file"] = fmt("p%d.h5", r); remove(fmt("p%d.h5", r).c_str()); } pl.push_back(e); } root["ports"] = pl; }
      std::vector<ComponentTopologyHandler::PortData> first;
      for (int pass = 0; pass < (write && nr ? 2 : 1); pass++)
      {
         Probe T; if (T.GetNumSubdomains() != ns || T.GetNumComponents() != nc || T.GetNumPorts() != (int)ports.size() || T.GetNumRefPorts() != nr || T.GetType() != TopologyHandlerMode::COMPONENT) { fail("numbers of subdomains, components or ports"); break; }
         { int v[4]; for (int q = 0; q < 4; q++) v[q] = 10 * q + I(0, 9); std::shuffle(v, v + 4, rng()); auto ori = [&](Element::Type ty, std::vector<int> p, int want) { Array<int> a(p.size()), b(p.size()); for (size_t q = 0; q < p.size(); q++) { a[q] = v[q]; b[q] = v[p[q]]; } int got = T.GetOrientation(T.components[0], ty, a, b); if (got != want) fail(fmt("orientation of a face with %d vertices is %d, specified %d", (int)p.size(), got, want)); };
           ori(Element::SEGMENT, {0, 1}, 0); ori(Element::SEGMENT, {1, 0}, 1);
           static const int tri[6][3] = {{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}}; for (auto &x : tri) ori(Element::TRIANGLE, {x[0], x[1], x[2]}, BlockMesh::GetTriOrientation(v, std::vector<int>{v[x[0]], v[x[1]], v[x[2]]}.data()));
           for (int q = 0; q < 4; q++) for (int dd = 1; dd < 4; dd += 2) { std::vector<int> p, w; for (int r = 0; r < 4; r++) { p.push_back((q + r * dd) % 4); w.push_back(v[p.back()]); } ori(Element::QUADRILATERAL, p, BlockMesh::GetQuadOrientation(v, w.data())); } }
         std::vector<int> count(nc, 0); for (int m = 0; m < ns; m++) { expect(T.GetMeshType(m) == type[m], "component of a subdomain"); expect(T.GetComponentIndexOfMesh(m) == count[type[m]]++, "position of a subdomain among those of its component"); } for (int c = 0; c < nc; c++) expect(T.GetNumSubdomains(c) == count[c] && T.GetComponentName(c) == names[c], "number of subdomains or name of a component");
         // meshes: the component moved
         for (int m = 0; m < ns; m++)
         {
            Mesh *M = T.GetMesh(m), *C = T.GetComponentMesh(type[m]); if (M->GetNE() != C->GetNE() || M->GetNBE() != C->GetNBE()) { fail("elements of a subdomain"); break; }
            for (int e = 0; e < M->GetNE(); e++) { const IntegrationRule &ir = IntRules.Get(M->GetElementBaseGeometry(e), 3); for (int g = 0; g < ir.GetNPoints(); g += 2) { P3 x = place(C, e, ir.IntPoint(g)), y = place(M, e, ir.IntPoint(g)); double t = cf(m, 3); P3 w = {cos(t) * x[0] - sin(t) * x[1] + cf(m, 0), sin(t) * x[0] + cos(t) * x[1] + cf(m, 1), dim == 3 ? x[2] + cf(m, 2) : 0.}; if (!(dist(y, w) <= 1e-9)) { fail(fmt("subdomain %d: position of a point of element %d", m, e)); e = M->GetNE(); break; } } }
         }
         // ports
         int used = 0; for (int c = 0; c < nc; c++) for (int a : attr[c]) used = std::max(used, a); std::set<int> pa; std::vector<int> pattr;
         for (int p = 0; p < T.GetNumPorts(); p++)
         {
            const PortInfo *q = T.GetPortInfo(p); int r = T.GetPortType(p); pattr.push_back(q->PortAttr);
            if (q->Mesh1 != ports[p][0] || q->Mesh2 != ports[p][1] || q->Attr1 != ports[p][2] || q->Attr2 != ports[p][3] || r != ports[p][4]) { fail(fmt("port %d: not the one of the global configuration", p)); break; }
            int c1, c2, a1, a2; T.GetRefPortInfo(r, c1, c2, a1, a2); if (c1 != type[q->Mesh1] || c2 != type[q->Mesh2] || a1 != q->Attr1 || a2 != q->Attr2) { fail(fmt("port %d: reference port with other components or attributes", p)); break; } T.GetComponentPair(r, c1, c2); expect(c1 == type[q->Mesh1] && c2 == type[q->Mesh2], "components of a reference port");
            if (gattrs.count(q->PortAttr) || !pa.insert(q->PortAttr).second || q->PortAttr <= used) { fail(fmt("port %d: attribute %d is used by a boundary or another port", p, q->PortAttr)); break; }
            Array<InterfaceInfo> *L = T.GetInterfaceInfos(p); if (L != T.GetRefInterfaceInfos(r)) { fail(fmt("port %d: interface list of another reference port", p)); break; }
            Mesh *M1 = T.GetMesh(q->Mesh1), *M2 = T.GetMesh(q->Mesh2), *C1 = T.GetComponentMesh(c1), *C2 = T.GetComponentMesh(c2); int n1 = 0; for (int b = 0; b < C1->GetNBE(); b++) n1 += C1->GetBdrAttribute(b) == a1; if (L->Size() != n1) { fail(fmt("port %d: %d pairs, specified %d", p, L->Size(), n1)); break; }
            std::set<int> s1, s2;
            for (int k = 0; k < L->Size(); k++)
            {
               InterfaceInfo &x = (*L)[k]; if (x.BE1 < 0 || x.BE2 < 0 || x.BE1 >= C1->GetNBE() || x.BE2 >= C2->GetNBE() || C1->GetBdrAttribute(x.BE1) != a1 || C2->GetBdrAttribute(x.BE2) != a2 || !s1.insert(x.BE1).second || !s2.insert(x.BE2).second) { fail(fmt("port %d pair %d: boundary elements %d and %d", p, k, x.BE1, x.BE2)); break; }
               double tol = thr > 1e-3 ? 1e-9 : 1e-9; if (dist(bcentre(M1, x.BE1), bcentre(M2, x.BE2)) > tol) { fail(fmt("port %d pair %d: the boundary elements lie on different faces", p, k)); break; }
               int f1 = C1->GetBdrFace(x.BE1), f2 = C2->GetBdrFace(x.BE2), i1, i2, du; C1->GetFaceInfos(f1, &i1, &du); C2->GetFaceInfos(f2, &i2, &du); if (x.Inf1 != i1 || x.Inf2 / 64 != i2 / 64) { fail(fmt("port %d pair %d: local faces", p, k)); break; }
               FaceElementTransformations *t1 = NULL, *t2 = NULL; T.GetInterfaceTransformations(M1, M2, &x, t1, t2); const IntegrationRule &ir = IntRules.Get(t1->GetGeometryType(), 3);
               for (int g = 0; g < ir.GetNPoints(); g++) { IntegrationPoint a, b; P3 px = {0, 0, 0}, py = {0, 0, 0}; Vector vx(px.data(), dim), vy(py.data(), dim); t1->Loc1.Transform(ir.IntPoint(g), a); t2->Loc1.Transform(ir.IntPoint(g), b); t1->Elem1->Transform(a, vx); t2->Elem1->Transform(b, vy); if (!(dist(px, py) <= 1e-9)) { fail(fmt("port %d pair %d: the two sides disagree on the position of a point", p, k)); break; } }
            }
         }
         // boundary attributes
         for (int m = 0; m < ns; m++)
         {
            Mesh *M = T.GetMesh(m), *C = T.GetComponentMesh(type[m]); std::set<int> us; for (int b = 0; b < M->GetNBE(); b++) { int ca = C->GetBdrAttribute(b), w = -1; if (portOf.count({m, ca})) w = pattr.size() > (size_t)portOf[{m, ca}] ? pattr[portOf[{m, ca}]] : -2; else for (auto &q : bdr) if (q[1] == m && q[2] == ca) w = q[0]; us.insert(w); if (M->GetBdrAttribute(b) != w) { fail(fmt("subdomain %d boundary element %d: attribute %d, specified %d", m, b, M->GetBdrAttribute(b), w)); break; } int ci = C->bdr_attributes.Find(ca); if ((*T.GetBdrAttrComponentToGlobalMap(m))[ci] != w) { fail("map from component to global attributes"); break; } }
            std::set<int> got(M->bdr_attributes.begin(), M->bdr_attributes.end()); if (got != us || (int)got.size() != M->bdr_attributes.Size()) fail("list of boundary attributes of a subdomain");
         }
         Array<Mesh *> mp; TopologyData td; T.ExportInfo(mp, td); expect(mp.Size() == ns && td.numSub == ns && td.dim == dim, "exported data"); for (int m = 0; m < std::min(ns, mp.Size()); m++) expect(mp[m] == T.GetMesh(m), "exported mesh"); std::set<int> ga(td.global_bdr_attributes->begin(), td.global_bdr_attributes->end()); expect(ga == gattrs && td.global_bdr_attributes->Size() == (int)gattrs.size(), "global boundary attributes");
         // port data: as built, as written to its file and read back
         for (int r = 0; r < nr; r++)
         {
            ComponentTopologyHandler::PortData &d = *T.GetPortData(r); if (pass == 0) first.push_back(d); else same(d, first[r], "port read from its file"); Mesh *C1 = T.GetComponentMesh(d.Component1), *C2 = T.GetComponentMesh(d.Component2); double tol = thr + 1e-12;
            std::set<int> im; for (auto &v : d.vtx2to1) { double x[3] = {0, 0, 0}, t = refs[r].cf[3], *b = C2->GetVertex(v.first), *a = C1->GetVertex(v.second); x[0] = cos(t) * b[0] - sin(t) * b[1] + refs[r].cf[0]; x[1] = sin(t) * b[0] + cos(t) * b[1] + refs[r].cf[1]; if (dim == 3) x[2] = b[2] + refs[r].cf[2]; for (int k = 0; k < dim; k++) if (std::abs(x[k] - a[k]) > tol) { fail(fmt("reference port %d: vertices %d and %d are not the same", r, v.first, v.second)); break; } if (!im.insert(v.second).second) fail("vertex map of a port is not one to one"); }
            std::vector<std::set<int>> bv(2); for (int k = 0; k < d.be_pairs.NumRows(); k++) { Array<int> v1, v2; C1->GetBdrElementVertices(d.be_pairs(k, 0), v1); C2->GetBdrElementVertices(d.be_pairs(k, 1), v2); std::set<int> w1(v1.begin(), v1.end()), w2; for (int v = 0; v < v2.Size(); v++) { bv[1].insert(v2[v]); w2.insert(d.vtx2to1.count(v2[v]) ? d.vtx2to1[v2[v]] : -1); } if (w1 != w2) { fail(fmt("reference port %d pair %d: other vertices", r, k)); break; } } expect(bv[1].size() == d.vtx2to1.size(), "vertex map of a port: other vertices");
         }
         if (nr)
         {
            int r = I(0, nr - 1); T.WritePortDataToFile(*T.ref_ports[r], T.port_names[r], "one.h5"); ComponentTopologyHandler::PortData old = *T.ref_ports[r]; delete T.ref_ports[r]; T.ref_ports[r] = NULL; T.ReadPortDatasFromFile("one.h5"); if (!T.ref_ports[r]) { fail("port not found in its file"); break; } same(*T.ref_ports[r], old, "port written and read");
            // a file with several ports: unknown ones, known ones that are still missing, one that is already set up
            std::vector<int> some; for (int i = 0; i < nr; i++) if (B()) some.push_back(i); std::shuffle(some.begin(), some.end(), rng()); int unk = B(), tot = some.size() + unk; std::vector<ComponentTopologyHandler::PortData> olds; std::vector<int> kept;
            if (tot) {
               hid_t f = H5Fcreate("many.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(f, "number_of_ports", tot); int up = unk ? I(0, tot - 1) : -1;
               for (int k = 0, s = 0; k < tot; k++) { hid_t g = H5Gcreate(f, std::to_string(k).c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); int q = k == up ? r : some[s++]; auto &d = *T.ref_ports[q]; hdf5_utils::WriteAttribute(g, "name", k == up ? std::string("nowhere") : T.port_names[q]); hdf5_utils::WriteAttribute(g, "bdr_attr1", d.Attr1); hdf5_utils::WriteAttribute(g, "bdr_attr2", d.Attr2); hdf5_utils::WriteAttribute(g, "component1", names[d.Component1]); hdf5_utils::WriteAttribute(g, "component2", names[d.Component2]); Array<int> v1, v2, b1, b2; for (auto &v : d.vtx2to1) { v2.Append(v.first); v1.Append(v.second); } for (int i = 0; i < d.be_pairs.NumRows(); i++) { b1.Append(d.be_pairs(i, 0)); b2.Append(d.be_pairs(i, 1)); } hdf5_utils::WriteDataset(g, "vtx1", v1); hdf5_utils::WriteDataset(g, "vtx2", v2); hdf5_utils::WriteDataset(g, "be1", b1); hdf5_utils::WriteDataset(g, "be2", b2); H5Gclose(g); }
               H5Fclose(f); for (int i = 0; i < nr; i++) olds.push_back(*T.ref_ports[i]); for (int q : some) { if (B()) { delete T.ref_ports[q]; T.ref_ports[q] = NULL; } else { T.ref_ports[q]->Attr1 += 1000; kept.push_back(q); } }
               T.ReadPortDatasFromFile("many.h5"); for (int i = 0; i < nr; i++) { if (!T.ref_ports[i]) { fail("port not read from a file with several"); break; } if (std::count(kept.begin(), kept.end(), i)) T.ref_ports[i]->Attr1 -= 1000; same(*T.ref_ports[i], olds[i], "port of a file with several"); } }
         }
      }
   }
   int r = done(); MPI_Finalize(); return r;
}
