#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the tables below (run by hand; the outputs are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def p(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
PROPS = [
p('P01', 'Sub-matrix, Galerkin-projection and orthonormalisation kernels are exact',
  'Products with a selection of matrix rows (rows in any order, possibly repeated), their transposes and accumulating forms, and the reduced operators R^T A P (full, row-restricted, weighted, dense or sparse) equal their algebraic definition entry by entry, for every matrix, vector and row list. Accumulating forms add to what was there, plain forms replace it, and no input is modified. Block accumulation adds each non-empty block at the position its row and column index select and leaves every other block as it was, and orthonormalising a basis yields the classical Gram-Schmidt vectors.',
  ['inputs'], 'all matrix sizes, all entries, all row index lists, all weights',
  'The unit tests compare three sub-matrix kernels on random matrices of one size with sorted-random rows; weighted, sparse, accumulating and block variants have no test.',
  ['src/linalg_utils.cpp', 'include/linalg_utils.hpp'],
  [('row-restricted products', 'src/linalg_utils.cpp: MultSubMatrix, AddMultTransposeSubMatrix, MultTransposeSubMatrix, AddSubMatrixRtAP'), ('projection', 'src/linalg_utils.cpp: RtAP, DenseRtAP, SparseRtAP, AddwRtAP'), ('block accumulation', 'src/linalg_utils.cpp: AddToBlockMatrix'), ('orthonormalisation', 'src/linalg_utils.cpp: modifiedGramSchmidt, Orthonormalize'), ('element restriction of a basis column', 'src/linalg_utils.cpp: GetBasisElement')]),
p('P02', 'Third-order tensor contractions equal their index formula',
  'Each contraction of a third-order tensor with one or two vectors, along any supported axis, with or without a weight, and with or without accumulation, equals the sum its documentation states, for every tensor extent and every entry. In particular the contracted vector is read at the index that is summed over. Tensor and vectors are not modified.',
  ['inputs'], 'all tensor extents (not only cubes), entries, weights and axes',
  'No stable test calls the tensor contractions; the reduced nonlinear operator built on them is only exercised in tests that need libROM and cubic tensors.',
  ['src/linalg_utils.cpp', 'include/linalg_utils.hpp'],
  [('contractions', 'src/linalg_utils.cpp: TensorContract, TensorAddScaledContract, TensorMult, TensorAddMultOnJ, TensorAddMultTranspose, TensorAddScaledMultTranspose')]),
p('P04', 'Block smoothers perform exact block Gauss-Seidel / block Jacobi sweeps',
  'Applying the block Gauss-Seidel preconditioner performs the configured number of forward, backward or symmetric sweeps: in each sweep, block row i of the result solves its diagonal block against the right-hand side minus the off-diagonal blocks applied to the most recent blocks of the iterate, starting from zero unless iterative mode is on. The block Jacobi preconditioner applies the inverse of each diagonal block to its own part of the input. Absent (zero) blocks contribute nothing and the input is not modified.',
  ['inputs', 'configurations'], 'all block counts and block sizes, all entries with invertible diagonal blocks, all sweep types and iteration counts',
  'The existing tests check one fixed block structure against a dense Gauss-Seidel for one right-hand side.',
  ['src/block_smoother.cpp', 'include/block_smoother.hpp'],
  [('sweeps', 'src/block_smoother.cpp: BlockGSSmoother::BlockGaussSeidelForw, BlockGaussSeidelBack, Mult'), ('Jacobi', 'src/block_smoother.cpp: BlockDSmoother::Mult'), ('diagonal inverses', 'src/block_smoother.cpp: BlockSmoother::BlockSmoother')]),
p('P05', 'Nonlinear terms: residual is the stated weak form, Jacobian its derivative',
  'For every nonlinear convection or flux term (skew-symmetric Temam form, convection form, inviscid flux form, and the Temam and Lax-Friedrichs fluxes on interior faces, boundary faces and two-mesh interfaces) the local residual equals the quadrature of the weak form it documents, with optional coefficient, prescribed velocity and boundary data taken into account. The local Jacobian equals the derivative of that residual with respect to every local unknown, wherever the residual is differentiable (at the kink of the Lax-Friedrichs speed, a one-sided derivative). States are not modified.',
  ['inputs', 'configurations'], 'all elements and numbers of unknowns, all states, all quadrature rules, space dimensions 1-3, every combination of optional coefficients',
  'The gradient tests use finite differences at random states with one fixed mesh, no coefficient and no prescribed data, with loose tolerance.',
  ['src/nonlinear_integ.cpp', 'src/hyperreduction_integ.cpp', 'src/interfaceinteg.cpp'],
  [('domain terms', 'src/nonlinear_integ.cpp: TemamTrilinearFormIntegrator; src/hyperreduction_integ.cpp: VectorConvectionTrilinearFormIntegrator, IncompressibleInviscidFluxNLFIntegrator'), ('face terms', 'src/nonlinear_integ.cpp: DGTemamFluxIntegrator; src/interfaceinteg.cpp: DGLaxFriedrichsFluxIntegrator'), ('interface terms', 'src/interfaceinteg.cpp: InterfaceDGTemamFluxIntegrator, DGLaxFriedrichsFluxIntegrator::AssembleInterfaceVector/Grad')]),
p('P06', 'Quadrature-point contributions add up to the full local assembly',
  'For every term that supports point-wise evaluation for hyper-reduction, summing the single-point residual (and Jacobian) over all points of the rule with the rule weights gives the full local residual (and Jacobian). A single-point contribution scales linearly with the weight it is given and depends on no other point.',
  ['inputs', 'configurations'], 'all elements, states, rules and weights, every coefficient combination, dimensions 2-3 (faces 1-3)',
  'Stable tests never call the point-wise interface; the libROM tests compare one random case per term.',
  ['src/hyperreduction_integ.cpp', 'src/interfaceinteg.cpp'],
  [('domain terms', 'src/hyperreduction_integ.cpp: AssembleQuadratureVector, AssembleQuadratureGrad'), ('faces and interfaces', 'src/interfaceinteg.cpp: DGLaxFriedrichsFluxIntegrator::AssembleQuadratureVector/Grad')]),
p('P07', 'Precomputed (fast) hyper-reduced evaluation equals the reduced residual',
  'The fast hyper-reduced evaluation of a term from the stored basis values at one sampled point adds to the reduced residual exactly the sampled weight times the point contribution of the field spanned by the reduced coefficients, tested with every basis vector. Its fast Jacobian is the derivative of that contribution with respect to the reduced coefficients. The result depends only on the sample itself, never on what was evaluated before.',
  ['inputs', 'histories'], 'all basis sizes, stored values, weights, reduced states, coefficient combinations; any order of evaluations on the same integrator object',
  'No stable test calls the fast path at all.',
  ['src/hyperreduction_integ.cpp', 'src/interfaceinteg.cpp'],
  [('domain', 'src/hyperreduction_integ.cpp: AddAssembleVector_Fast, AddAssembleGrad_Fast'), ('faces and interfaces', 'src/interfaceinteg.cpp: DGLaxFriedrichsFluxIntegrator::AddAssembleVector_Fast, AddAssembleGrad_Fast')]),
p('P08', 'DG diffusion, normal-flux and boundary terms equal their bilinear/linear forms',
  'The local matrix of the vector-diffusion interior-penalty term equals the quadrature of -<{mu grad u.n},[v]> + sigma <[u],{mu grad v.n}> + kappa <{mu/h}[u],[v]> on interior and boundary faces, and the normal-flux term equals <[u].n,{q}>. The boundary right-hand-side vectors (Dirichlet data of the diffusion term, normal component of given data, normal stress, Temam inflow) equal the quadrature of their stated functional. Swapping the roles of trial and test with sigma = -1 gives a symmetric diffusion matrix.',
  ['inputs', 'configurations'], 'all elements, rules, coefficients, penalty parameters, dimensions 1-3, interior and boundary faces',
  'Only convergence-rate tests (which need libROM here) exercise them, with constant coefficients on one mesh family.',
  ['src/dg_bilinear.cpp', 'src/dg_mixed_bilin.cpp', 'src/dg_linear.cpp'],
  [('diffusion', 'src/dg_bilinear.cpp: DGVectorDiffusionIntegrator'), ('normal flux and assembly', 'src/dg_mixed_bilin.cpp: DGNormalFluxIntegrator, MixedBilinearFormDGExtension::Assemble'), ('right-hand sides', 'src/dg_linear.cpp')]),
p('P09', 'Two-mesh interface terms equal the single-mesh interior-face terms',
  'For each linear interface term between two meshes (scalar diffusion, vector diffusion, normal flux, linear elasticity) the four coupling blocks equal the quadrature of the same interior-penalty form that a conforming interior face between the two elements would give, with each side evaluated on its own mesh. Block (i,j) couples test functions of mesh i with trial functions of mesh j, and the blocks have the sizes of those elements.',
  ['inputs', 'configurations'], 'all element pairs, rules, coefficients, penalty parameters, dimensions 1-3',
  'Stable tests check only nonlinear interface gradients; the linear interface terms are tested only through libROM-dependent convergence runs.',
  ['src/interfaceinteg.cpp', 'include/interfaceinteg.hpp'],
  [('scalar and vector diffusion', 'src/interfaceinteg.cpp: InterfaceDGDiffusionIntegrator, InterfaceDGVectorDiffusionIntegrator'), ('normal flux', 'src/interfaceinteg.cpp: InterfaceDGNormalFluxIntegrator'), ('elasticity', 'src/interfaceinteg.cpp: InterfaceDGElasticityIntegrator')]),
p('P10', 'Global interface assembly scatters each interface once to the right unknowns',
  'Assembling the interface operator, residual or Jacobian of a multi-mesh problem adds, for every port, every interface of the port and every registered term, the local contribution of that term to the unknowns of exactly the two adjacent elements in exactly the two meshes the port joins, and nothing else. Assembling at a reference port gives the same blocks for the component meshes. Contributions accumulate onto the existing values.',
  ['inputs', 'configurations'], 'all numbers of meshes, ports, interfaces and terms, all unknown numberings',
  'Tests use one or two ports; wrong block order or skipped interfaces at other positions are not sampled.',
  ['src/interface_form.cpp', 'include/interface_form.hpp', 'src/topology_handler.cpp'],
  [('port loop and scatter', 'src/interface_form.cpp: InterfaceForm, MixedInterfaceForm'), ('interface transformations', 'src/topology_handler.cpp: GetInterfaceTransformations')]),
p('P11', 'Data written to an HDF5 file read back equal',
  'Integers, reals, booleans, strings and basis tags written as attributes, and arrays, 2D arrays, vectors, dense matrices, tensors, sparse matrices, block matrices, matrix-block collections and sample lists written as datasets, read back with the same extents and the same entries, including empty arrays and absent blocks. Reading replaces whatever the receiving object held before.',
  ['inputs', 'histories'], 'all extents (empty included where the format allows it), all entries, any previous content of the receiving object',
  'The HDF5 tests round-trip a few fixed small arrays into fresh objects.',
  ['src/hdf5_utils.cpp', 'include/hdf5_utils.hpp', 'include/linalg_utils.hpp'],
  [('readers and writers', 'src/hdf5_utils.cpp, include/hdf5_utils.hpp: ReadDataset, WriteDataset, ReadAttribute, WriteAttribute, Read/WriteSparseMatrix, Read/WriteBlockMatrix')]),
p('P12', 'Saved reduced operators and hyper-reduction samples load back unchanged',
  'Saving the reduced linear operators of all components, boundaries and reference ports and loading them into an equally configured collection restores every operator under the component name, boundary index and port identity it was saved with, even when the file holds components or ports in another order. Saved hyper-reduction samples (element, quadrature point, weight) load back one for one.',
  ['inputs', 'configurations', 'histories'], 'all numbers and names of components, boundaries and ports, all operators',
  'No stable test saves or loads a reduced-operator collection.',
  ['src/rom_element_collection.cpp', 'src/hyperreduction_integ.cpp', 'src/hdf5_utils.cpp'],
  [('collections', 'src/rom_element_collection.cpp: ROMLinearElement::Save, Load'), ('samples', 'src/hyperreduction_integ.cpp: EQPElement::Save, Load')]),
p('P13', 'Configuration look-up returns the stored value, the default, or fails loudly',
  'Looking up a slash-separated key returns the value stored at exactly that path, the given default when any part of the path is absent, and terminates with an error when the option is required and absent. Setting an option makes exactly that path read back the new value, creates missing levels, and leaves all other options unchanged; command-line overrides behave like setting each key in order. Looking up an entry of a list by a key-value pair returns the first matching entry.',
  ['inputs', 'histories'], 'all key paths, dictionaries, values and sequences of set/get operations',
  'The parser tests read one fixed input file.',
  ['src/input_parser.cpp', 'include/input_parser.hpp'],
  [('path walk', 'src/input_parser.cpp: InputParser::FindNodeFromDict'), ('set/override', 'include/input_parser.hpp: SetOptionInDict; src/input_parser.cpp: OverwriteOption'), ('list look-up', 'include/input_parser.hpp: LookUpFromDict')]),
p('P14', 'Parameter sampling stays in range and spans it as documented',
  'A deterministic real parameter takes, for sample index 0 to size-1, equally spaced (or, on request, geometrically spaced) values from the minimum to the maximum inclusive; a single sample gives the minimum. Integer and file-name parameters take integer values that start at the minimum, are equally spaced and never exceed the maximum. Random values always lie between minimum and maximum, and exactly the option the parameter names is changed.',
  ['inputs', 'configurations'], 'all ranges, sample sizes, indices and random draws',
  'No stable test runs the parameter classes.',
  ['src/parameter.cpp', 'include/parameter.hpp', 'src/etc.cpp'],
  [('values', 'src/parameter.cpp: DoubleParam, IntegerParam, FilenameParam')]),
p('P15', 'Component topology: ports, interfaces and boundary attributes are consistent',
  'In a component-wise configuration every subdomain is its component mesh moved once by the configured translation and, in 2D, rotation (the inverse motion undoes it), and knows its component and its position among the subdomains of that component. Every port refers to the reference port with the same components and boundary attributes, gets a boundary attribute shared with no boundary or other port, and its interface list pairs each boundary element of one side with the element of the other side that has the same vertices, with the orientation that maps one onto the other. Port data written to a file read back to the same port.',
  ['inputs', 'configurations'], 'all component lists, arrangements, boundary and port tables',
  'Topology tests compare a few fixed configurations with a sub-mesh reference.',
  ['src/component_topology_handler.cpp', 'include/component_topology_handler.hpp', 'src/topology_handler.cpp'],
  [('set-up', 'src/component_topology_handler.cpp: ReadComponentsFromFile, ReadPortsFromFile, ReadBoundariesFromFile, SetupMeshes, SetupPorts, SetupReferenceInterfaces, SetupBdrAttributes, BuildPortDataFromInput'), ('port files', 'src/component_topology_handler.cpp: ReadPortDatasFromFile, WritePortDataToFile'), ('motion', 'include/component_topology_handler.hpp: mesh_config')]),
p('P16', 'Sub-mesh decomposition finds every interface once with matching faces',
  'When a mesh is decomposed by element attribute, every face shared by two subdomains appears exactly once, in the one port that joins those two subdomains, with the boundary element of each side that lies on that face and the face orientation of the parent mesh on the matching side. Each such boundary element gets the attribute of its port, which no original boundary uses, and original boundary elements keep their attribute.',
  ['inputs', 'configurations'], 'all meshes and all attribute assignments in 2D and 3D',
  'Topology tests use one mesh per element type.',
  ['src/topology_handler.cpp', 'include/topology_handler.hpp'],
  [('interface search', 'src/topology_handler.cpp: BuildInterfaceInfos, FindParentInterfaceInfo, BuildSubMeshBoundary2D, BuildFaceMap2D')]),
p('P17', 'Timers are balanced and basis tags order and name consistently',
  'Every timed operation leaves each of its timers stopped, and a timer counts exactly one call per start/stop pair, so an operation can be repeated any number of times without aborting. Basis tags compare equal exactly when both parts agree, their ordering is a strict total order compatible with equality, and the printed name joins the parts.',
  ['histories', 'inputs'], 'all sequences of start/stop calls and timed operations; all tag strings',
  'Tests do not inspect timers and use at most two tags.',
  ['include/etc.hpp', 'include/hdf5_utils.hpp', 'src/interfaceinteg.cpp', 'src/interface_form.cpp'],
  [('timers', 'include/etc.hpp: TimeProfiler'), ('tags', 'include/hdf5_utils.hpp: BasisTag')]),
p('P18', 'Sample indices enumerate the grid once and are distributed completely',
  'The flat sample index and the per-parameter index are inverse to each other on the whole parameter grid. Every sample is assigned to exactly one process, the assignment is contiguous, and the numbers of samples of any two processes differ by at most one. Setting the parameters of a sample sets each parameter to its own index, and port tags are strictly totally ordered.',
  ['inputs', 'configurations'], 'all numbers of parameters, sample sizes and processes',
  'Needs libROM to build here; the workflow tests use one process.',
  ['src/sample_generator.cpp', 'include/sample_generator.hpp'],
  [('indexing', 'src/sample_generator.cpp: GetSampleIndex, SetParamSpaceSizes, SetSampleParams; src/random_sample_generator.cpp'), ('distribution', 'src/sample_generator.cpp: DistributeSamples; include/sample_generator.hpp: IsMyJob'), ('port tags', 'src/sample_generator.cpp: operator<')]),
p('P19', 'Preset problems: parameter names, fields and boundary types are as stated',
  'For every preset problem, setting a parameter by name, by index or from the single-run list changes exactly the quantity the name stands for, and an unknown parameter or problem name ends the run. At every point, time and parameter value the boundary, forcing, material and initial fields equal the stated formula of the problem, with one component per space dimension whatever the output vector held before. Every listed boundary attribute appears once with the type of the problem, the boundary index of the component problem selects that boundary or all of them, and in flow past an array the inflow sides are Dirichlet and the opposite sides Neumann for every sign of the mean velocity, also in the flow problem inside the advection-diffusion problem.',
  ['inputs', 'configurations', 'histories'], 'all points, times, parameter values and orders of setting them',
  'test_param_prob needs libROM and sets a few parameters of two problems; no test looks at the fields.',
  ['src/parameterized_problem.cpp', 'include/parameterized_problem.hpp'],
  [('function library', 'src/parameterized_problem.cpp: function_factory'), ('parameters', 'src/parameterized_problem.cpp: ParameterizedProblem::SetParams, SetSingleRun, InitParameterizedProblem, constructors'), ('boundary types', 'src/parameterized_problem.cpp: FlowPastArray::SetBattr, PoissonComponent::SetBattr')]),
p('P20', 'Reduced solutions reproduce full-order solutions in the span of the basis',
  'With a reduced basis that contains the full-order solution, the reduced model of every supported physics returns that solution up to solver tolerance, in every training mode and for every topology.',
  ['inputs', 'configurations'], 'all problems, bases and topologies',
  'Workflow tests sample a handful of configurations and need libROM, which is absent here.',
  ['src/main_workflow.cpp', 'src/rom_handler.cpp', 'src/multiblock_solver.cpp'],
  [('reduced solve', 'src/rom_handler.cpp: MFEMROMHandler::Solve')]),
p('P21', 'Reduced blocks, projections and reduced matrix use the right subdomain',
  'Every pair of subdomain and variable has exactly one reduced block in both block orderings, of as many entries as its component has basis vectors for that variable, and block index and pair are inverse to each other. Projecting and lifting vectors and operators use for every block the basis of its component and variable and the full-order block of its subdomain and variable, and extending a basis keeps its old vectors and updates all sizes. The global reduced matrix is the sum of the component, non-Neumann boundary and port matrices placed at the blocks of their subdomains, reordering between subdomain and variable order moves every block once, and the relative error of a variable sums over all subdomains.',
  ['inputs', 'configurations'], 'all numbers of subdomains, components, variables and basis vectors, both orderings, separate and joint bases',
  'Needs libROM to build here; the workflow tests use the default ordering.',
  ['src/rom_handler.cpp', 'src/multiblock_solver.cpp', 'include/rom_handler.hpp'],
  [('blocks', 'src/rom_handler.cpp: GetBlockIndex, GetDomainAndVariableIndex, SetBlockSizes, LoadReducedBasis, AppendReferenceBasis'), ('projection', 'src/rom_handler.cpp: ProjectTo*Basis, LiftUp*'), ('global matrix', 'src/multiblock_solver.cpp: AssembleROMMat, SortBySubdomains, SortByVariables, Get/SetVariableVector, ComputeRelativeError')]),
]
CLAIMED = ["P01","P02","P04","P05","P06","P07","P08","P09","P10","P11","P12","P13","P14","P15","P16","P17","P18","P19","P21"]
NA = {
 'P20': 'needs libROM (basis generation, SVD, NNLS) and iterative solver convergence: neither the library nor its contracts are available here, and convergence up to a tolerance is a floating-point whole-history property outside deductive contracts',
}
def manifest():
    return {
     'version': 1, 'setup_cmd': './check setup',
     'checks': [{'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'contract-based deductive verification: pre/postconditions discharged by an own verifier (symbolic execution with loop summarisation by induction, z3 back end) over the AST extracted from /repo on every run; failing obligations are replayed on the real compiled code',
                 'level': 'proof', 'level_note': NOTES.get(i, DEFAULT_NOTE)} for i in CLAIMED],
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in CLAIMED],
     'notes': 'See DESIGN.md. No hooks in /repo. Every check extracts the current sources with clang, proves each contract for all inputs, and runs a bounded replay harness on the compiled code (never counted as proof).'}
DEFAULT_NOTE = 'proved over mathematical integers and reals, for all sizes; MFEM/HDF5/YAML primitives by assumed contracts listed in the evidence; the verification engine /verif/vc is trusted'
NOTES = {}
if __name__ == '__main__':
    ids = [q['id'] for q in PROPS]; assert len(set(ids)) == len(ids)
    for i in ids: assert (i in CLAIMED) or i in NA, i
    with open(ROOT + '/properties.jsonl', 'w') as o:
        for q in PROPS:
            assert len(q['title']) <= 80, q['id']
            assert q['statement'].count('. ') <= 2, q['id']
            o.write(json.dumps(q) + '\n')
    with open(ROOT + '/MANIFEST.json', 'w') as o: json.dump(manifest(), o, indent=1); o.write('\n')
