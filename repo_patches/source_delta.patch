From 30b798058b598c6d7f672d2486c1c84f534286ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:41 +0000
Subject: [PATCH 01/21] fix: TensorAddMultOnJ contracted every j with x_0

The inner loop never advanced the pointer into x, so M_ik += T_ijk x_0 was
computed instead of M_ik += T_ijk x_j.
---
 src/linalg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg_utils.cpp b/src/linalg_utils.cpp
index 3c89265..be29674 100644
--- a/src/linalg_utils.cpp
+++ b/src/linalg_utils.cpp
@@ -658,7 +658,7 @@ void TensorAddMultOnJ(const DenseTensor &tensor, const Vector &x, DenseMatrix &M
       {
          dx = x.HostRead();
          tdata = tensor.GetData(k) + i;
-         for (int j = 0; j < tensor.SizeJ(); j++)
+         for (int j = 0; j < tensor.SizeJ(); j++, dx++)
          {
             (*dM) += (*tdata) * (*dx);
             tdata += stride;
-- 
2.43.0


From d15103461c3a1d0862443ed5e58d8866ee5eb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:48 +0000
Subject: [PATCH 02/21] fix: VectorConvectionTrilinearFormIntegrator Jacobian
 ignored the prescribed velocity

With a VectorCoefficient the residual is Q (vQ . grad) u, but the element and
quadrature Jacobians and the EQP fast path used u itself as the convection
velocity, so the Jacobian was not the derivative of the residual and the fast
path did not evaluate the same term.
---
 src/hyperreduction_integ.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/hyperreduction_integ.cpp b/src/hyperreduction_integ.cpp
index 6b3a7b3..819ed4c 100644
--- a/src/hyperreduction_integ.cpp
+++ b/src/hyperreduction_integ.cpp
@@ -365,7 +365,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
       }
 
       MultAtB(EF, dshapex, gradEF);
-      EF.MultTranspose(shape, vec1);
+      if (vQ)
+         vQ->Eval(vec1, trans, ip);
+      else
+         EF.MultTranspose(shape, vec1);
 
       trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -378,6 +381,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleElementGrad(
          elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
       }
 
+      // the prescribed convection velocity does not depend on the state.
+      if (vQ) { continue; }
+
       MultVVt(shape, elmat_comp);
       w = ip.weight * trans.Weight();
       if (Q)
@@ -434,7 +440,10 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
    }
 
    MultAtB(EF, dshapex, gradEF);
-   EF.MultTranspose(shape, vec1);
+   if (vQ)
+      vQ->Eval(vec1, trans, ip);
+   else
+      EF.MultTranspose(shape, vec1);
 
    trans.AdjugateJacobian().Mult(vec1, vec2);
 
@@ -447,6 +456,9 @@ void VectorConvectionTrilinearFormIntegrator::AssembleQuadratureGrad(
       elmat.AddMatrix(elmat_comp, ii * nd, ii * nd);
    }
 
+   // the prescribed convection velocity does not depend on the state.
+   if (vQ) { return; }
+
    MultVVt(shape, elmat_comp);
    // w = ip.weight * trans.Weight();
    w = iw * trans.Weight();
@@ -478,7 +490,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleVector_Fast(
 
    dim = shape1->NumRows();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -506,7 +521,10 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    dim = shape1->NumRows();
    int nbasis = shape1->NumCols();
    Vector vec1(dim), vec2(dim);
-   shape1->Mult(x, vec1);
+   if (vQ)
+      vQ->Eval(vec1, T, ip);
+   else
+      shape1->Mult(x, vec1);
 
    gradEF.SetSize(dim);
    gradEF = 0.0;
@@ -515,7 +533,11 @@ void VectorConvectionTrilinearFormIntegrator::AddAssembleGrad_Fast(
    gradEF *= w;
 
    ELV.SetSize(dim, nbasis);
-   Mult(gradEF, *shape1, ELV);
+   // the prescribed convection velocity does not depend on the state.
+   if (vQ)
+      ELV = 0.0;
+   else
+      Mult(gradEF, *shape1, ELV);
 
    for (int k = 0; k < nbasis; k++)
    {
-- 
2.43.0


From 2b4f6f51e7d646137721720675fe15e30467b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 03/21] fix: EQP fast Jacobian of the Lax-Friedrichs face flux
 used a stale dof count

AddAssembleGrad_Fast passed the member ndofs2, left over from whichever face was
assembled last (or never set), instead of whether this face has a second
element. After a boundary face the Jacobian of an interior face lost every
derivative with respect to the second element's state.
---
 src/interfaceinteg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e791a07..e75a4a8 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1826,7 +1826,7 @@ void DGLaxFriedrichsFluxIntegrator::AddAssembleGrad_Fast(
       CalcOrtho(T.Jacobian(), nor);
    }
 
-   ComputeGradFluxDotN(u1, u2, nor, eval2, ndofs2, gradu1, gradu2);
+   ComputeGradFluxDotN(u1, u2, nor, eval2, el2, gradu1, gradu2);
 
    double w = qw;
    if (Q) 
-- 
2.43.0


From a297cee0271d299674216f93f2ee29ecabdccfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:46 +0000
Subject: [PATCH 04/21] fix: Lax-Friedrichs flux Jacobian was NaN where both
 velocities vanish

normag / u1mag is inf at u1 = u2 = 0 and inf * 0 filled the element Jacobian with
NaN, e.g. on the first Newton step from a zero state. The derivative of
max(|u1|,|u2|) |n| (u1 - u2) is zero there.
---
 src/interfaceinteg.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaceinteg.cpp b/src/interfaceinteg.cpp
index e75a4a8..b54f7d0 100644
--- a/src/interfaceinteg.cpp
+++ b/src/interfaceinteg.cpp
@@ -1383,8 +1383,12 @@ void DGLaxFriedrichsFluxIntegrator::ComputeGradFluxDotN(
    Vector du(u1);
    du.Add(-1.0, u2);
 
+   /* if both velocities are zero, this term vanishes. */
    if (u1_lg_u2)
-      AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
+   {
+      if (u1mag > 0.0)
+         AddMult_a_VWt(normag / u1mag, du, u1, gradu1);
+   }
    else
       AddMult_a_VWt(normag / u2mag, du, u2, gradu2);
 
-- 
2.43.0


From 978bdaf0829ec85a82c37744708a63d62a21944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:11 +0000
Subject: [PATCH 05/21] fix: DGBdrTemamLFIntegrator on boundary elements used
 the boundary dimension as space dimension

---
 src/dg_linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_linear.cpp b/src/dg_linear.cpp
index afafd48..d7ae08e 100644
--- a/src/dg_linear.cpp
+++ b/src/dg_linear.cpp
@@ -491,7 +491,7 @@ void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
 void DGBdrTemamLFIntegrator::AssembleRHSElementVect(
    const FiniteElement &el, ElementTransformation &Tr, Vector &elvect)
 {
-   int dim = el.GetDim();
+   int dim = el.GetDim()+1;
    int dof = el.GetDof();
    Vector nor(dim), Qvec, gn(dim);
    double un;
-- 
2.43.0


From 5c2a2a4f893d1dbe212abc3bf131f0fe0beb06f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 06/21] fix: BlockSmoother::SetOperator rebuilds the offsets
 and diagonal inverses of the new operator

---
 src/block_smoother.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/block_smoother.cpp b/src/block_smoother.cpp
index cfb0bec..72e96ba 100644
--- a/src/block_smoother.cpp
+++ b/src/block_smoother.cpp
@@ -48,6 +48,21 @@ void BlockSmoother::SetOperator(const Operator &a)
    }
    height = oper->Height();
    width = oper->Width();
+
+   num_row_blocks = oper->NumRowBlocks();
+   num_col_blocks = oper->NumColBlocks();
+   assert(num_row_blocks == num_col_blocks);
+   row_offsets = oper->RowOffsets();
+   col_offsets = oper->ColOffsets();
+
+   // the diagonal inverses must belong to the new operator.
+   DeletePointers(diag_inv);
+   diag_inv.SetSize(num_row_blocks);
+   for (int b = 0; b < num_row_blocks; b++)
+   {
+      diag_inv[b] = oper->GetBlock(b, b).ToDenseMatrix();
+      diag_inv[b]->Invert();
+   }
 }
 
 void BlockSmoother::PrintOperator()
-- 
2.43.0


From 61c6615e2e47cadd48e43b696bfcd3796207d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 07/21] fix: looking up an option below a scalar or list throws
 or destroys the list

---
 src/input_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input_parser.cpp b/src/input_parser.cpp
index 17a57f7..6cc996b 100644
--- a/src/input_parser.cpp
+++ b/src/input_parser.cpp
@@ -58,6 +58,10 @@ YAML::Node InputParser::FindNodeFromDict(const std::string &keys, YAML::Node inp
    int dd = 0;
    for (std::string s; std::getline(key_iterator, s, '/'); )
    {
+      // only a map has an entry named s. On any other node operator[] would throw, or turn the node into a map.
+      if (!create && !nodes.back().IsMap())
+         return YAML::Node(YAML::NodeType::Undefined);
+
       if (!(nodes.back()[s]))
       {
          if (create)
-- 
2.43.0


From d1d5a4c1fd9646a5ae1edc6711cfcc70c4ba350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 08/21] fix: an option set to an empty list reads back as null

---
 include/input_parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/input_parser.hpp b/include/input_parser.hpp
index 98c40af..d9114e3 100644
--- a/include/input_parser.hpp
+++ b/include/input_parser.hpp
@@ -15,7 +15,7 @@ namespace YAML {
 template<typename T>
 struct convert<Array<T>> {
    static Node encode(const Array<T>& rhs) {
-      Node node;
+      Node node(NodeType::Sequence);
       for (int k = 0; k < rhs.Size(); k++)
          node.push_back(rhs[k]);
       return node;
@@ -37,7 +37,7 @@ struct convert<Array<T>> {
 template<>
 struct convert<Vector> {
    static Node encode(const Vector& rhs) {
-      Node node;
+      Node node(NodeType::Sequence);
       for (int k = 0; k < rhs.Size(); k++)
          node.push_back(rhs[k]);
       return node;
@@ -59,7 +59,7 @@ struct convert<Vector> {
 template<>
 struct convert<std::vector<std::string>> {
    static Node encode(const std::vector<std::string>& rhs) {
-      Node node;
+      Node node(NodeType::Sequence);
       for (int k = 0; k < rhs.size(); k++)
          node.push_back(rhs[k]);
       return node;
-- 
2.43.0


From a6de924cb153c1e7caea6a92a43591f3f50734a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 09/21] fix: options set in a default-constructed InputParser
 are lost

---
 include/input_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/input_parser.hpp b/include/input_parser.hpp
index d9114e3..5b48d9d 100644
--- a/include/input_parser.hpp
+++ b/include/input_parser.hpp
@@ -91,7 +91,7 @@ public:
    YAML::Node dict_;
 
 public:
-   InputParser() {};
+   InputParser() : rank(0), dict_(YAML::NodeType::Map) {};
 
    InputParser(const std::string &input_file, const std::string forced_input="");
 
-- 
2.43.0


From 94d23308888efd884e601f34b90b5448e318fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 10/21] fix: a sparse matrix without entries reads back as not
 finalized

---
 src/hdf5_utils.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 1109241..896ed25 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -195,14 +195,24 @@ SparseMatrix* ReadSparseMatrix(hid_t &source, std::string matrix_name)
    assert(j_read.Size() == i_read[size[0]]);
    assert(data_read.Size() == i_read[size[0]]);
 
-   // Need to transfer the ownership to avoid segfault or double-free.
-   int *ip, *jp;
-   double *vp;
-   i_read.StealData(&ip);
-   j_read.StealData(&jp);
-   data_read.StealData(&vp);
-
-   SparseMatrix *mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   SparseMatrix *mat = NULL;
+   if (j_read.Size() == 0)
+   {
+      // An empty Array has no data to transfer, and SparseMatrix takes a matrix without J and A as not finalized.
+      mat = new SparseMatrix(size[0], size[1]);
+      mat->Finalize();
+   }
+   else
+   {
+      // Need to transfer the ownership to avoid segfault or double-free.
+      int *ip, *jp;
+      double *vp;
+      i_read.StealData(&ip);
+      j_read.StealData(&jp);
+      data_read.StealData(&vp);
+
+      mat = new SparseMatrix(ip, jp, vp, size[0], size[1]);
+   }
 
    errf = H5Gclose(grp_id);
    assert(errf >= 0);
-- 
2.43.0


From 875d69288e7c0e91a519ef86adf88c3611cd3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 11/21] fix: writing or reading an empty 2D array, matrix or
 tensor dereferences NULL

---
 include/hdf5_utils.hpp | 2 +-
 src/hdf5_utils.cpp     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hdf5_utils.hpp b/include/hdf5_utils.hpp
index 1a31d9b..2ea77bc 100644
--- a/include/hdf5_utils.hpp
+++ b/include/hdf5_utils.hpp
@@ -216,7 +216,7 @@ void WriteDataset(hid_t &source, std::string dataset, const Array2D<T> &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0));
+   hid_t dataType = hdf5_utils::GetType(T());
    hsize_t dims[2];
    dims[0] = value.NumRows();
    dims[1] = value.NumCols();
diff --git a/src/hdf5_utils.cpp b/src/hdf5_utils.cpp
index 896ed25..e5803f6 100644
--- a/src/hdf5_utils.cpp
+++ b/src/hdf5_utils.cpp
@@ -112,7 +112,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseMatrix &value)
 
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we load the transpose.
    value.SetSize(dims[1], dims[0]);
-   hid_t dataType = hdf5_utils::GetType(value(0, 0));
+   hid_t dataType = hdf5_utils::GetType(double());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
    errf = H5Dclose(dset_id);
@@ -123,7 +123,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseMatrix &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0));
+   hid_t dataType = hdf5_utils::GetType(double());
    hsize_t dims[2];
    // hdf5 is row-major, while mfem::DenseMatrix is column major. we save the transpose.
    dims[0] = value.NumCols();
@@ -409,7 +409,7 @@ void ReadDataset(hid_t &source, std::string dataset, DenseTensor &value)
 
    // hdf5 is row-major, while mfem::DenseTensor is column major. we load the transpose.
    value.SetSize(dims[2], dims[1], dims[0]);
-   hid_t dataType = hdf5_utils::GetType(value(0, 0, 0));
+   hid_t dataType = hdf5_utils::GetType(double());
    H5Dread(dset_id, dataType, H5S_ALL, H5S_ALL, H5P_DEFAULT, value.Write());
 
    errf = H5Dclose(dset_id);
@@ -420,7 +420,7 @@ void WriteDataset(hid_t &source, std::string dataset, const DenseTensor &value)
 {
    herr_t errf = 0;
 
-   hid_t dataType = hdf5_utils::GetType(value(0,0,0));
+   hid_t dataType = hdf5_utils::GetType(double());
    hsize_t dims[3];
    // hdf5 is row-major, while mfem::DenseTensor is column major. we save the transpose.
    dims[0] = value.SizeK();
-- 
2.43.0


From afd3e1fc04962b26218c5fa389900d82768a6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 12/21] fix: loading reduced operators aborts for a component
 without boundaries

---
 src/rom_element_collection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_element_collection.cpp b/src/rom_element_collection.cpp
index 47ffa6d..f621eba 100644
--- a/src/rom_element_collection.cpp
+++ b/src/rom_element_collection.cpp
@@ -214,7 +214,7 @@ void ROMLinearElement::LoadBdrElems(hid_t &comp_grp_id, const int &comp_idx)
 
    Mesh *comp = topol_handler->GetComponentMesh(comp_idx);
    assert(num_bdr == comp->bdr_attributes.Size());
-   assert(num_bdr = bdr[comp_idx]->Size());
+   assert(num_bdr == bdr[comp_idx]->Size());
 
    Array<MatrixBlocks *> *bdr_c = bdr[comp_idx];
    for (int b = 0; b < num_bdr; b++)
-- 
2.43.0


From b49b5e9be39eaca196f75b6b9fe6771b21c5622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 13/21] fix: close the group of a port that is already set up,
 so that its file is closed

---
 src/component_topology_handler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 25a2a86..6e19d45 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -455,7 +455,12 @@ void ComponentTopologyHandler::ReadPortDatasFromFile(const std::string filename)
 
       int port_idx = port_name2idx[port_name];
       // Skip if the port is already set up.
-      if (ref_ports[port_idx] != NULL) continue;
+      if (ref_ports[port_idx] != NULL)
+      {
+         errf = H5Gclose(grp_id);
+         assert(errf >= 0);
+         continue;
+      }
 
       int battr1, battr2;
       hdf5_utils::ReadAttribute(grp_id, "bdr_attr1", battr1);
-- 
2.43.0


From 88560e687ba5dea26c3a329a0d4c859e7d9d718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 14/21] fix: close the configuration file when it holds no
 boundary data

---
 src/component_topology_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/component_topology_handler.cpp b/src/component_topology_handler.cpp
index 6e19d45..0f1ca80 100644
--- a/src/component_topology_handler.cpp
+++ b/src/component_topology_handler.cpp
@@ -399,7 +399,11 @@ bool ComponentTopologyHandler::ReadBoundariesFromFile(const std::string filename
       assert(errf >= 0);
    }
    else
+   {
+      errf = H5Fclose(file_id);
+      assert(errf >= 0);
       return false;
+   }
 
    {  // Boundary data.
       Array2D<int> tmp;
-- 
2.43.0


From 9362c1fb3755fa48018e5998243f637ba9e33592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 15/21] fix: frame wind problem lists boundary attribute 5, not
 3 twice

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 10699fc..00785c1 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1237,7 +1237,7 @@ LinElastFrameWind::LinElastFrameWind()
    vector_bdr_ptr[3] = &(function_factory::linelast_frame_wind::dirichlet);
 
    // battr 5: Unloaded
-   battr[4] = 3;
+   battr[4] = 5;
    bdr_type[4] = BoundaryType::NEUMANN;
    vector_bdr_ptr[4] = NULL;
 
-- 
2.43.0


From ce159a108c5b2cfc55cfb31875774aa41936982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 16/21] fix: periodic flow force has one component per space
 dimension

---
 src/parameterized_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 00785c1..d72bec5 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -222,7 +222,7 @@ void force(const Vector &x, double t, Vector &y)
 {
    const int dim = x.Size();
    y.SetSize(dim);
-   y = f;
+   for (int i = 0; i < dim; i++) y(i) = f(i);
 }
 
 }  // namespace periodic_flow_past_array
-- 
2.43.0


From 49898d748fa2140e785bf6caf81711a2b95de344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 17/21] fix: component-wise train loads are zero in directions
 that are switched off

---
 src/parameterized_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index d72bec5..7e84666 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -382,6 +382,7 @@ double perturb_func(const double x, const double amp, const double freq, const d
 
 void left_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (lx >= 0.5)
       u(0) = l_ux + perturb_func(x(0), xu_amp, xu_freq, xu_offset);
    if (ly >= 0.5)
@@ -390,6 +391,7 @@ void left_disp(const Vector &x, double t, Vector &u)
 
 void right_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (rx >= 0.5)
       u(0) = r_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (ry >= 0.5)
@@ -398,6 +400,7 @@ void right_disp(const Vector &x, double t, Vector &u)
 
 void up_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (ux >= 0.5)
       u(0) = u_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (uy >= 0.5)
@@ -406,6 +409,7 @@ void up_disp(const Vector &x, double t, Vector &u)
 
 void down_disp(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (dx >= 0.5)
       u(0) = d_fx + perturb_func(x(0), xf_amp, xf_freq, xf_offset);
    if (dy >= 0.5)
@@ -414,6 +418,7 @@ void down_disp(const Vector &x, double t, Vector &u)
 
 void body_force(const Vector &x, double t, Vector &u)
 {
+   u = 0.0;
    if (bx >= 0.5)
       u(0) = b_fx + perturb_func(x(0), bxf_amp, bxf_freq, bxf_offset);
    if (by >= 0.5)
-- 
2.43.0


From c40a656dcaa67f7a4d331faddd2dd03043835396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 18/21] fix: linear elasticity problems set their number of
 parameters

---
 src/parameterized_problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parameterized_problem.cpp b/src/parameterized_problem.cpp
index 7e84666..cbfb395 100644
--- a/src/parameterized_problem.cpp
+++ b/src/parameterized_problem.cpp
@@ -1052,6 +1052,7 @@ LinElastDisp::LinElastDisp()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
+   param_num = 3;
    param_ptr.SetSize(3);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
@@ -1091,6 +1092,7 @@ LinElastDispLCantilever::LinElastDispLCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
+   param_num = 3;
    param_ptr.SetSize(3);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
@@ -1147,6 +1149,7 @@ LinElastDispLattice::LinElastDispLattice()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
+   param_num = 3;
    param_ptr.SetSize(3);
    param_ptr[0] = &(function_factory::linelast_disp::rdisp_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
@@ -1204,6 +1207,7 @@ LinElastForceCantilever::LinElastForceCantilever()
    param_map["lambda"] = 1;
    param_map["mu"] = 2;
 
+   param_num = 3;
    param_ptr.SetSize(3);
    param_ptr[0] = &(function_factory::linelast_force::rforce_f);
    param_ptr[1] = &(function_factory::linelast_problem::_lambda);
@@ -1264,6 +1268,7 @@ LinElastFrameWind::LinElastFrameWind()
    param_map["density"] = 3;
    param_map["g"] = 4;
 
+   param_num = 5;
    param_ptr.SetSize(5);
    param_ptr[0] = &(function_factory::linelast_problem::_lambda);
    param_ptr[1] = &(function_factory::linelast_problem::_mu);
@@ -1457,6 +1462,7 @@ LinElastComponentWiseTrain::LinElastComponentWiseTrain()
    param_map["bx"] = 38;
    param_map["by"] = 39;
 
+   param_num = 40;
    param_ptr.SetSize(40);
    param_ptr[0] = &(function_factory::linelast_cwtrain::l_ux);
    param_ptr[1] = &(function_factory::linelast_cwtrain::l_uy);
-- 
2.43.0


From 6453b4d28338a67e6334e945286a2e4f1f18b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:28 +0000
Subject: [PATCH 19/21] fix: ROMHandlerBase::GetBlockIndex without a variable
 is for a monolithic basis

---
 src/rom_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 3edc51f..8d727ad 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -199,7 +199,7 @@ const int ROMHandlerBase::GetBlockIndex(const int m, const int v)
 {
    if (v < 0)
    {
-      assert(separate_variable);
+      assert(!separate_variable);
       return m;
    }
 
-- 
2.43.0


From 832045c96288e159c3eeae25d3be6ef0077484d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 20/21] fix: projections on the domain basis find their blocks
 in the ordering in use

---
 src/rom_handler.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 8d727ad..4aebb81 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -816,10 +816,7 @@ void MFEMROMHandler::ProjectComponentToDomainBasis(
    idx = c;
    if (separate_variable)
       for (int v = 0; v < num_var; v++)
-      {
-         idx[v] *= num_var;
-         idx[v] += v;
-      }
+         idx[v] = GetBlockIndex(c, v);
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
 
@@ -856,8 +853,8 @@ void MFEMROMHandler::ProjectInterfaceToDomainBasis(
    if (separate_variable)
       for (int v = 0; v < num_var; v++)
       {
-         idx[v] = c1 * num_var + v;
-         idx[v + num_var] = c2 * num_var + v;
+         idx[v] = GetBlockIndex(c1, v);
+         idx[v + num_var] = GetBlockIndex(c2, v);
       }
    else
    {
@@ -879,8 +876,8 @@ void MFEMROMHandler::ProjectVariableToDomainBasis(
    Array<int> idx_i(size), idx_j(size);
    for (int m = 0; m < numSub; m++)
    {
-      idx_i[m] = m * num_var + vi;
-      idx_j[m] = m * num_var + vj;
+      idx_i[m] = GetBlockIndex(m, vi);
+      idx_j[m] = GetBlockIndex(m, vj);
    }
 
    assert((mats.NumRows() == size) && (mats.NumCols() == size));
-- 
2.43.0


From 7424f05fbcc15248e2de09dd98c019409c94d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 21/21] fix: projecting an absent block on the component basis
 gives an empty block

---
 src/rom_handler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rom_handler.cpp b/src/rom_handler.cpp
index 4aebb81..2e3dedb 100644
--- a/src/rom_handler.cpp
+++ b/src/rom_handler.cpp
@@ -720,11 +720,12 @@ SparseMatrix* MFEMROMHandler::ProjectToRefBasis(const int &i, const int &j, cons
    GetReferenceBasis(i, basis_i);
    GetReferenceBasis(j, basis_j);
 
-   assert(basis_i->NumRows() == mat->Height());
-   assert(basis_j->NumRows() == mat->Width());
-
    if (mat)
+   {
+      assert(basis_i->NumRows() == mat->Height());
+      assert(basis_j->NumRows() == mat->Width());
       return mfem::SparseRtAP(*basis_i, *mat, *basis_j);
+   }
    else
       return new SparseMatrix(basis_i->NumCols(), basis_j->NumCols());
 }
-- 
2.43.0

