"""writes properties.jsonl (kept as a script so that statements stay easy to edit)"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

prop("C01", "Preconditioner is symmetric positive definite and never overshoots",
     "For every symmetric positive definite H1 or linear-elasticity problem and every combination of the supported Gauss-Seidel-type smoother, coarsening, prolongation and cycle (V, W) options, the set-up preconditioner is a linear, symmetric operator that is positive definite on the free unknowns. It ignores input on constrained (Dirichlet) unknowns and writes exact zeros there. All eigenvalues of the preconditioned matrix are at most one.",
     ["inputs", "configurations"], "all meshes (2d/3d, simplex and non-simplex, holes, anisotropy), coefficients, Dirichlet parts, component layouts, and AMG flag combinations",
     "The tests solve a dozen fixed problems with CG and default-like flags and only look at iteration counts; loss of symmetry, indefiniteness or overshoot for other flags or meshes is not looked at.",
     ["src/base/solve/amg_matrix.cpp", "src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/precond/amg_pc.cpp"],
     [("cycle with adjoint post-smoothing", "src/base/solve/amg_matrix.cpp AMGMatrix::SmoothV/SmoothW"), ("smoother and coarse-inverse construction", "src/base/precond/amg_pc.cpp BaseAMGPC::BuildSmoother, CoarseLevelInv")])

prop("C02", "Preconditioned CG converges quickly to the solution of the system",
     "For H1 and elasticity problems with moderate mesh anisotropy and comparable coefficients, the smallest eigenvalue of the preconditioned matrix stays bounded away from zero uniformly in mesh size and matrix scaling, for all coarsening and prolongation algorithms. Conjugate gradients with the preconditioner reach a 1e-8 residual reduction within 50 iterations, for H1 problems with arbitrary piecewise-constant material jumps within 260, and the result agrees with a direct solve.",
     ["inputs", "configurations"], "problem sizes up to several thousand unknowns, material contrast up to 1e6 (H1), factors 1e-6 to 1e6, all coarsening algorithms and prolongation types",
     "The tests bound iteration counts for a dozen fixed meshes and coefficient settings.",
     ["src/base/coarsening", "src/base/precond/amg_pc_vertex_impl.hpp", "src/h1/h1_energy_impl.hpp", "src/elasticity/elasticity_energy_impl.hpp"],
     [("strength of connection and agglomeration", "src/base/coarsening/mis_agglomerator_impl.hpp, spw_agglomerator_impl.hpp"), ("smoothed prolongation", "src/base/coarsening/sprol*, src/base/precond/amg_pc_vertex_impl.hpp")])

prop("C03", "Coarse operators are Galerkin projections; restriction transposes prolongation",
     "On every level of the hierarchy the restriction of residuals is the exact transpose of the prolongation, and the next coarser matrix is prolongation-transposed times matrix times prolongation. For elasticity a coarse matrix may differ from that projection only by a positive semi-definite term in the kernel of individual diagonal blocks. Coarse functions vanish on constrained unknowns, and the finest level is the assembled system matrix.",
     ["inputs", "configurations"], "all problems and flags as in C01, every level",
     "No test looks at any level matrix or grid transfer.",
     ["src/base/coarsening/dof_map.cpp", "src/base/coarsening/dof_map.hpp", "src/base/precond/amg_pc.cpp", "src/base/linalg"],
     [("projection of matrices", "src/base/coarsening/dof_map.* ProlMap/MultiDofMapStep::AssembleMatrix"), ("level construction", "src/base/factory/*")])

prop("C04", "Coarse spaces reproduce constants and rigid-body modes exactly",
     "Vectors that represent a constant (per component) or, for elasticity, a rigid-body motion are reproduced exactly by the coarse space of every level on all parts of the domain that are not tied to Dirichlet boundaries, for all prolongation types. With Dirichlet conditions, coarse functions still add up to the constant or rigid motion at every unknown that is not near the boundary. Without Dirichlet conditions coarse-level constants lie in the kernel of the projected stiffness matrix.",
     ["inputs", "configurations"], "all meshes, weights, coarsening and prolongation flags, number of levels",
     "Loss of kernel preservation only shows up as slower convergence; the fixed iteration bounds of the tests leave room for it and sample few meshes and flags.",
     ["src/base/precond/amg_pc_vertex_impl.hpp", "src/base/factory", "src/elasticity/elasticity_energy_impl.hpp", "src/elasticity/elasticity_impl.hpp"],
     [("piecewise and smoothed prolongation", "src/base/factory/nodal_factory_impl.hpp / vertex_factory_impl.hpp"), ("rigid-body transformation between vertices", "src/elasticity/elasticity_energy*.hpp")])

prop("C05", "Multigrid cycles compute exactly the textbook V, W and BS cycle",
     "Applying the multigrid operator gives the result of the textbook cycle of the selected type (V, W, or BS) evaluated with the exposed level matrices, grid transfers, smoothers and coarse solver, for every number of levels and starting from any level. Repeated application, application with a scale factor, and the version assembled by hand from the exposed parts give the same result. The coarse solver applies the inverse of the coarsest matrix (or nothing, if so configured).",
     ["inputs", "configurations", "histories"], "hierarchies of two and more levels, right-hand sides, cycle types, coarse level treatments, sub-hierarchies",
     "The tests only use the V cycle, through CG iteration counts.",
     ["src/base/solve/amg_matrix.cpp", "src/base/solve/amg_matrix.hpp", "src/base/solve/python_solve.cpp"],
     [("cycle implementations", "src/base/solve/amg_matrix.cpp SmoothV, SmoothW, SmoothBS, Mult, MultAdd"), ("sub hierarchy", "src/base/solve/amg_matrix.cpp AMGMatrix::GetSubAMGMatrix")])

prop("C06", "Smoothers perform the documented sweep whatever the residual flags say",
     "A smoothing step of a Gauss-Seidel, block Gauss-Seidel or dynamic block Gauss-Seidel smoother yields the same iterate whether or not the residual is supplied, requested or the start vector is declared zero, and equals the classical sweep (forward, backward, symmetric, repeated) over the free unknowns or blocks of the matrix. If the residual is requested it equals right-hand side minus matrix times the new iterate. The backward sweep is the adjoint of the forward sweep, constrained unknowns stay untouched and the right-hand side is not modified.",
     ["inputs", "configurations", "histories"], "random sparse SPD matrices (scalar and block entries), constrained sets, block partitions (overlapping or not), step counts, flag combinations and call sequences",
     "Tests exercise smoothers only inside the default cycle, where only a few flag combinations occur.",
     ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother.cpp", "src/base/smoothers/loc_block_gssmoother_impl.hpp", "src/base/smoothers/dyn_block_smoother.cpp", "src/base/smoothers/hybrid_base_smoother.cpp"],
     [("residual-updating sweeps", "GSS3/GSS4::SmoothInternal, SmoothRESInternal"), ("block sweeps", "BSmoother, BSmoother2, DynBlockSmoother")])

prop("C07", "Composite smoothers equal the composition of their parts",
     "A smoother built from others - k repeated (optionally symmetric) steps, potential-space plus range-space smoothing, or a damped Jacobi / Richardson correction with another operator - changes the iterate exactly like carrying out its parts one after the other with exact residuals. This holds for all residual and zero-start flags, forwards and backwards; with symmetric option the operator is self-adjoint.",
     ["inputs", "configurations"], "random matrices, discrete gradients, smoother parts, step numbers, flag combinations",
     "No test uses these smoothers.",
     ["src/base/smoothers/base_smoother.cpp", "src/base/smoothers/base_smoother.hpp", "src/base/smoothers/jacobi_smoother.cpp", "src/base/precond/amg_pc.cpp"],
     [("step repetition", "ProxySmoother"), ("two-space smoother", "HiptMairSmoother"), ("diagonal correction", "RichardsonSmoother, JacobiSmoother"), ("multigrid as smoother", "AMGSmoother")])

prop("C08", "Grid-transfer maps compose, split and concatenate consistently",
     "Transferring a vector between any two levels of a map, in either direction, equals applying the single steps one after the other. Sub-maps, concatenated steps and maps rebuilt from steps give the same transfers, and projecting a matrix with a (concatenated) step equals projecting through the single steps. A two-level method built on a concatenated step is the textbook two-level method, and the operands are not modified.",
     ["inputs", "histories", "configurations"], "all sequences of transfer, splitting and concatenation operations on hierarchies from generated problems, including embeddings and permutations",
     "No test calls these operations.",
     ["src/base/coarsening/dof_map.cpp", "src/base/coarsening/dof_map.hpp", "src/base/coarsening/python_coarse.cpp"],
     [("map algebra", "DOFMap::TransferAtoB, SubMap, ConcStep; BaseDOFMapStep::Concatenate; ProlMap, VDofMapStep, MultiDofMapStep")])

prop("C09", "Sparse-matrix utilities are exact",
     "Products of sparse matrices, evaluation of operator expressions (sums, products, transposes, identities, embeddings, block operators) to a sparse matrix, compression with a tolerance, restriction to blocks of unknowns and conversion to the dynamic-block format all represent exactly the operator they are computed from; compression drops only entries not above the tolerance. Inputs are left unchanged and every stored structure is valid. Unsupported operands are refused with an exception.",
     ["inputs", "programs"], "random sparsity patterns and values (empty rows, zero and negative values, rectangular shapes, block entries) and random operator expressions",
     "No test calls these utilities directly.",
     ["src/base/utils/python_utils.cpp", "src/base/linalg/utils_sparseMM.cpp", "src/base/linalg/dyn_block.cpp", "src/base/linalg/utils_sparseLA.cpp", "src/base/linalg/utils_sparseLA.hpp"],
     [("sparse product", "MatMultAB"), ("expression to sparse", "BaseMatrixToSparse"), ("dynamic block format", "DynBlockSparseMatrix, ConvertToDynSPM")])

prop("C10", "Distributed runs are consistent and equivalent to sequential ones",
     "On any number of MPI processes the preconditioner acts consistently: its output is the same at every unknown shared by several processes, it is symmetric positive definite on the free unknowns, zero on constrained ones and does not overshoot, and grid transfers and coarse matrices satisfy the transpose and Galerkin relations globally, including when coarse levels are merged onto fewer processes. Setup and application terminate on all processes for every partition, also with processes that own nothing. Distributed products and smoothing residuals agree with the assembled global matrix.",
     ["schedules", "configurations", "inputs"], "2 to 4 processes, partitions, redistribution settings, problems and flags",
     "Tests run MPI with few process counts, fixed partitions, and only compare iteration counts.",
     ["src/base/distributed", "src/base/smoothers/hybrid_matrix.cpp", "src/base/smoothers/hybrid_base_smoother.cpp", "src/base/mesh", "src/base/precond/amg_pc.cpp"],
     [("equivalence-class hierarchy", "src/base/distributed/eqchierarchy.*"), ("hybrid smoothers", "src/base/smoothers/hybrid_*"), ("redistribution", "src/base/distributed/ctr_map.*, src/base/mesh/*")])

prop("C11", "Coarsening yields valid aggregates and respects the configured limits",
     "With unsmoothed prolongation every free unknown of a level belongs to exactly one aggregate and, if a vertex threshold is configured, only vertices pinned by their own lower-order term or by constrained neighbours may be left out; aggregates are never empty and connected in the mesh graph. Every level is strictly smaller than the previous one, coarsening stops at the configured maximal number of levels and sizes, and does not stop on a level larger than the configured coarsest size whose unpinned vertices are comparably connected. Constrained vertices belong to no aggregate.",
     ["inputs", "configurations"], "all meshes, edge weights, coarsening algorithms and their parameters",
     "Tests never look at aggregates or level sizes.",
     ["src/base/coarsening", "src/base/factory", "src/base/precond/amg_pc.cpp"],
     [("agglomeration", "MISAgglomerator, SPWAgglomerator"), ("level loop", "BaseAMGFactory::SetUpLevels / RecursiveSetUp")])

prop("C12", "Setup is deterministic, repeatable, and scales with the matrix",
     "Setting up the preconditioner twice for the same problem and options gives the same operator, does not depend on memory contents, on other preconditioners set up or destroyed before, or on reassembling, and applying it repeatedly always gives the same result. Setup and application leave the system matrix, right-hand sides and free-unknown information unchanged. Multiplying the bilinear form by a positive factor divides the operator by that factor (for scalar problems: with the default pairwise agglomeration; MIS agglomeration compares their lower-order weights with a fixed number).",
     ["histories", "inputs", "configurations"], "sequences of setup, apply, update, reassemble and destroy over generated problems and options; scale factors over 22 orders of magnitude (even powers of two, so that ties stay ties)",
     "Tests set up each problem once per process.",
     ["src/base/precond/amg_pc.cpp", "src/base/precond/amg_pc_vertex_impl.hpp", "src/base/solve/amg_matrix.cpp"],
     [("setup from assembly", "BaseAMGPC::FinalizeLevel, BuildAMGMat"), ("work vectors", "AMGMatrix")])

prop("C13", "Higher-order and embedded spaces: AMG covers the low-order part correctly",
     "For higher-order, compound, multi-component and statically condensed spaces the preconditioner is symmetric positive definite on all free unknowns of the space, and its coarse space consists of the low-order (or selected) functions only: kernel functions of the low-order space are reproduced and unknowns outside of the selection receive no coarse contribution. Selecting the low-order subset by range, by explicit list, by mask or by low-order space leads to the same preconditioner when the sets agree. Storing the components in another order, or as one compound or vector-valued space, leads to the same coarse space, and to the same operator when the finest smoother does not depend on the order of the unknowns.",
     ["inputs", "configurations"], "element orders 1 to 4, subset selections, compound layouts, static condensation",
     "Tests use few orders and layouts, and only look at iteration counts.",
     ["src/base/precond/amg_pc_vertex_impl.hpp", "src/base/precond/amg_pc.cpp", "src/h1/h1_impl.hpp", "src/elasticity/elasticity_pc_impl.hpp"],
     [("embedding of the low-order part", "VertexAMGPC::BuildEmbedding, BuildES, BuildED, BuildEMap"), ("subset selection", "VertexAMGPCOptions::SetFromFlags, SetVertexTables / SetUpMaps")])

prop("C14", "Stokes AMG conserves fluxes, preserves fields, and has divergence-free loops",
     "For the discontinuous Stokes discretisations (nonconforming and H(div)-conforming hybrid) on simplicial meshes: every coarse level matrix is the Galerkin projection of the finer one, restriction is the transposed prolongation, constrained unknowns take no part. Coarse functions of every level have a constant divergence inside of every coarse cell, so coarse fields without net flux out of the coarse cells have none out of the fine ones. The preserved fields of the chosen kind (constants for P0; additionally divergence-free linear fields for P1, all linear fields for FULL_P1) are in the range of the prolongation away from constrained facets. The loops used by the Hiptmair smoother have no flux out of any element away from constrained facets, and without constraints and holes they span all divergence-free fluxes. The preconditioner is symmetric, leaves constrained unknowns alone, is positive definite and does not overshoot (lambda_max(M^-1 A) <= 1); definiteness is not claimed for the AMG-as-smoother type.",
     ["inputs", "configurations"], "2d and 3d simplicial meshes with holes, viscosities, div-div penalties, mass terms, Dirichlet parts, orders, static condensation, smoother and coarsening flags",
     "There is no Stokes test.",
     ["src/stokes"],
     [("flux-preserving prolongation", "src/stokes/common/stokes_factory_impl.hpp"), ("HDiv prolongation and preserved vectors", "src/stokes/hdiv/hdiv_stokes_factory_impl.hpp"), ("NC prolongation", "src/stokes/ncfes/nc_stokes_factory_impl.hpp"), ("loops", "src/stokes/common/stokes_pc_impl.hpp"), ("smoothers", "src/stokes/common/stokes_pc.cpp")])

prop("C15", "Per-level options take effect on exactly the stated levels",
     "An option given as a list applies entry k to level k and, past its end, the default to all coarser levels; giving the same value for all levels equals giving the option once. Smoother type, number of steps and symmetry, as well as coarsening and prolongation options chosen for a level do not affect other levels' smoothers. Options given as strings, numbers or booleans, with or without the library prefix as documented, have the same meaning, and unknown values are refused or leave the default.",
     ["configurations", "inputs"], "all list-valued options, list lengths and hierarchies",
     "Tests give single-valued options only.",
     ["src/base/utils/SpecOpt.hpp", "src/base/precond/amg_pc.cpp", "src/base/precond/amg_pc.hpp", "src/base/factory/base_factory.cpp", "src/base/coarsening/mis_agg.hpp", "src/base/coarsening/spw_agg.hpp"],
     [("level-dependent options", "SpecOpt"), ("flag parsing", "BaseAMGPC::Options::SetFromFlags")])

prop("C16", "All ways of feeding a problem to the preconditioner agree",
     "For a given symmetric positive definite matrix and free unknowns, setting up from an assembled matrix directly, through assembly of the bilinear form, through the manual two-step interface, and through the generic preconditioner registry yields the same operator. The free unknowns may be left out, the default then being those of the finite element space, or all unknowns of a matrix given directly. In algebraic mode the operator depends only on the matrix entries and the set of free unknowns: the order or splitting in which entries are assembled, additional unconnected constrained unknowns, and a second unconnected copy of the problem interleaved in an order-preserving way do not change what is done to the original unknowns.",
     ["inputs", "histories", "configurations"], "random graph-Laplacian-like and finite element matrices, block sizes, free sets, interfaces",
     "Tests use one interface each and never compare.",
     ["src/base/python/python_amg.hpp", "src/h1/python_h1.cpp", "src/base/precond/amg_pc_vertex_impl.hpp"],
     [("matrix mode constructor", "src/h1/python_h1.cpp"), ("manual mode", "BaseAMGPC::InitLevel/FinalizeLevel")])

prop("C17", "Auxiliary finite element spaces and embeddings are correct",
     "The nonconforming low-order space has one unknown per facet whose basis functions are edge-mean (facet-mean) dual, so interpolation reproduces affine functions and its stiffness matrix annihilates constants. The embedding of a low-order facet-type space into a higher-order one maps every low-order function to the same function in the larger space, for all free unknowns and orders.",
     ["inputs", "configurations"], "meshes, element types, orders, Dirichlet parts",
     "No test uses these spaces.",
     ["src/base/ngs_extension", "src/base/utils/python_utils.cpp"],
     [("nonconforming space", "NoCoH1FESpace"), ("facet embedding", "LOToHOFacetEmbedding")])

prop("C18", "Regularising coarse matrices fixes exactly the singular directions",
     "Regularisation of an elasticity matrix changes only diagonal blocks. It adds a symmetric positive semi-definite term supported in the kernel of the block that makes the singular directions (2d: the rotation and the displacements; 3d: all) definite, and leaves blocks that are already well conditioned untouched, whatever the scaling of the matrix. Regularising twice is the same as regularising once, the coarsest matrix of a displacement-only hierarchy is regularised in this way, and matrices with entries of another size are refused.",
     ["inputs", "configurations"], "block diagonal kernels of every dimension, scalings, elasticity in 2d and 3d",
     "Tests do not call it or look at its result.",
     ["src/elasticity/elasticity_pc_impl.hpp", "src/base/utils/utils_denseLA.hpp"],
     [("regularisation", "VertexAMGPC::RegularizeMatrix, RegTM"), ("pseudo inverse", "CalcPseudoInverse*")])

prop("C19", "Queries on the hierarchy report what the operator uses",
     "The reported coarse basis functions are exactly the prolongated coarse unit vectors, on every level and for every unknown and component, and requests for a function that does not exist deliver none (a zero vector). Reported numbers of levels, unknowns, block sizes and processes agree with the grid transfers, vectors and matrices. The coarse-grid correction reported for a right-hand side equals prolongating the coarse solution of the restricted right-hand side.",
     ["inputs", "configurations"], "all problems and flags as in C01, every level, unknown and component, in and out of range",
     "No test queries the hierarchy.",
     ["src/base/precond/amg_pc.cpp", "src/base/solve/amg_matrix.cpp", "src/base/python/python_amg.hpp"],
     [("basis functions", "AMGMatrix::GetBF"), ("coarse solve query", "AMGMatrix::CINV"), ("sizes", "AMGMatrix::GetNDof, GetBlockSize")])

prop("C20", "Any problem and option combination is handled or cleanly refused",
     "For every combination of options and every input problem - including single elements, no free unknowns, disconnected parts, isolated vertices, zero rows, degenerate coefficients, all values of every documented option - setup and application either work, producing finite values for well-posed problems (with regularisation of coarse matrices left on), or raise an exception. They never crash, hang, read or write outside of allocated memory, or leave the process unusable for further setups.",
     ["inputs", "configurations", "histories"], "the full option space crossed with degenerate and ordinary problems, sequences of setups in one process",
     "Tests use a handful of option sets on well-behaved problems.",
     ["src/base/precond", "src/base/factory", "src/base/coarsening", "src/base/smoothers", "src/h1", "src/elasticity"],
     [("option handling", "SetFromFlags of all option classes"), ("level loop", "BaseAMGPC::FinalizeLevel / BuildAMGMat")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
