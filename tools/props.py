"""The property table: properties.jsonl and MANIFEST.json are written from it.

  /opt/venv/bin/python tools/props.py
"""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe,
         level, technique, note, state=()):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(
      entry=dict(
          id=id, title=title, statement=statement,
          quantifier=dict(over=over, text=qtext),
          why_tests_cant=why,
          anchors=dict(
              files=files,
              state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
              mechanism=[dict(name=n, where=w) for n, w in mechanism],
              observe_at=observe, hook_needed=None)),
      level=level, technique=technique, note=note))


LUT = 'e3x/so3/_lookup_table_generation_utility.py'
TAB = [
    'e3x/so3/_clebsch_gordan_lut.py', 'e3x/so3/_wigner_d_lut.py',
    'e3x/so3/_spherical_harmonics_lut.py', 'e3x/so3/_tensor_conversion_lut.py',
]

prop(
    'C01', 'Lookup-table caches survive crashes and I/O errors at any point',
    'If a process is killed at any point while it generates or saves a lookup'
    ' table to the configured cache path, the cache file holds the complete'
    ' old or the complete new table (never a partial one, and never one labelled'
    ' with a degree it does not cover), and every later request by any process'
    ' returns correct tables without an exception. If reading or writing the'
    ' cache fails with an I/O error (disk full, no permission, device error,'
    ' short write), the request still returns the correct table without an'
    ' exception and leaves no temporary files behind.',
    ['crash_points', 'fault_sequences'],
    'every file-system call (and torn write) of a request x tables x initial'
    ' cache states x requested degrees; every single and persistent I/O error',
    'The tests only save and load in one undisturbed process; crash points, torn'
    ' writes and failing system calls never occur in them.',
    [LUT, *TAB],
    [('_save_lookup_table_to_disk', LUT), ('_load_lookup_table_from_disk', LUT)],
    ['the cache file', 'results of later requests in fresh processes'],
    'fault_enumeration',
    'exhaustive fault injection on the real code: LD_PRELOAD controller kills or'
    ' fails the process at every file-system call and torn-write size',
    'Real code and real file system; process crash semantics (completed system'
    ' calls persist), degrees 0..2. Trusts the interposition of libc calls.',
    [('cache file', 'npz at the path set in Config', LUT)])

prop(
    'C02', 'Lookup tables do not depend on caches, their history or their damage',
    'A request for a lookup table returns the same correct table whatever the'
    ' process did before, whichever cache paths were configured in which order,'
    ' and whatever the cache file contains: nothing, a table of a lower or higher'
    ' degree, a truncated, bit-flipped or foreign file, or a directory. No such'
    ' content raises an exception. Pre-generation with several worker processes'
    ' gives the same tables and files as a single process.',
    ['histories', 'inputs'],
    'all histories of path changes, requests, restarts and file replacements up to'
    ' the bound x four tables; every truncation and bit flip of a cache file',
    'The tests use one path and an undamaged file; results after path switches,'
    ' lower-degree or damaged files in every combination are not sampled.',
    [LUT, *TAB, 'e3x/config.py'],
    [('_load_lookup_table_from_disk', LUT), ('partial tables are extended', TAB[0])],
    ['tables returned by requests', 'contents of the cache file'],
    'model_checking',
    'explicit-state exploration of all bounded histories by forking the real'
    ' process and snapshotting the directory',
    'Explores the real code; the reference is the table without a cache, whose'
    ' values other properties decide. Degrees 0..2.',
    [('cache path', 'path per table', 'e3x/config.py'),
     ('cache file', 'npz at that path', LUT)])

prop(
    'C03', 'Processes can share one cache file concurrently',
    'When several processes request lookup tables with the same cache path at the'
    ' same time, every process gets the correct table without an exception in'
    ' every interleaving of their file operations. The shared cache file is'
    ' complete after every such schedule and later requests succeed.'
    ' No schedule deadlocks.',
    ['schedules'],
    'all interleavings of file-system calls of two processes within the preemption'
    ' bound x tables x initial cache states x pairs of degrees',
    'No test runs two processes; races need a particular interleaving of opening,'
    ' writing, replacing and reading.',
    [LUT, *TAB],
    [('_save_lookup_table_to_disk', LUT), ('_load_lookup_table_from_disk', LUT)],
    ['tables returned in each process', 'the shared cache file'],
    'model_checking',
    'stateless model checking of the real processes: controlled scheduler over'
    ' intercepted file-system calls, preemption-bounded, partial-order reduced',
    'Preemption bound 2 (thorough 3), two processes (thorough also three). Trusts'
    ' the interposition of libc calls and atomicity of single system calls.',
    [('cache file', 'npz at the path set in Config', LUT)])

prop(
    'C04', 'Spherical harmonics agree with their definition for every vector',
    'For every degree limit up to 15, both component orders, every normalization'
    ' and every real 3-vector (including the zero vector, vectors of any'
    ' representable magnitude and any batch shape), spherical and solid harmonics'
    ' equal their mathematical definition: documented component order and sign,'
    ' the norm promised by the normalization, solid = r^l times spherical, and the'
    ' degree-0 component constant. First derivatives are finite'
    ' and equal to those of the definition.',
    ['inputs', 'configurations'],
    'all degree limits 0..15 x orders x normalizations x input vectors',
    'The tests compare a few low degrees on a handful of vectors; a wrong'
    ' coefficient of a high degree, another normalization, or a special direction'
    ' (zero vector, axes, tiny/huge magnitude) is outside that sample.',
    ['e3x/so3/irreps.py', 'e3x/so3/_normalization.py', TAB[2]],
    [('spherical_harmonics / solid_harmonics', 'e3x/so3/irreps.py'),
     ('normalization constants', 'e3x/so3/_normalization.py')],
    ['e3x.so3.spherical_harmonics', 'e3x.so3.solid_harmonics'],
    'model_checking',
    'exhaustive enumeration of configurations x unisolvent input grids against an'
    ' independent model',
    'Every configuration in the bound is executed; solid harmonics are polynomials,'
    ' so agreement on the enumerated tensor grid decides all vectors up to'
    ' rounding. Trusts the numpy reference model (mc/ref.py) and jax.')

prop(
    'C05', 'Wigner-D matrices are the rotation representation of the harmonics',
    'For every rotation matrix, every degree limit and both component orders, the'
    ' Wigner-D matrix is orthogonal, block diagonal in the degree, respects'
    ' products of rotations, equals the identity for the identity, and rotating a'
    ' vector before evaluating the harmonics equals multiplying the harmonics with'
    ' the Wigner-D matrix of that rotation.',
    ['inputs', 'configurations'],
    'all rotations in SO(3) (decided by grids that determine the trigonometric'
    ' polynomials), all degree limits within the bound, both orders, batch shapes',
    'Tests use a few fixed or random rotations; the matrix elements are'
    ' polynomials with many coefficients that a sample does not determine.',
    ['e3x/so3/irreps.py', TAB[1]],
    [('wigner_d', 'e3x/so3/irreps.py')],
    ['e3x.so3.wigner_d'],
    'model_checking',
    'exhaustive enumeration of rotation grids and of the Cayley graph of finite'
    ' rotation groups against an independent model',
    'Complete Euler-angle grids determine each matrix element; products are'
    ' explored over all pairs of the octahedral group. Bounded by degree 4 (quick) /'
    ' 5 (thorough).')

prop(
    'C06', 'Clebsch-Gordan coefficients are the orthonormal equivariant couplings',
    'For every combination of degree limits and both component orders, the'
    ' coefficients couple the product of two irreducible representations to a'
    ' third equivariantly, are zero unless the degrees satisfy the triangle'
    ' inequality, form an orthonormal and complete basis, carry a fixed sign, and'
    ' do not depend on which degree limits were requested together.',
    ['inputs', 'configurations'],
    'all triples of degree limits within the bound, both orders, all rotations',
    'Tests spot-check small tables; every coefficient of every triple and the'
    ' intertwining relation for all rotations cannot be sampled.',
    ['e3x/so3/irreps.py', TAB[0]],
    [('clebsch_gordan', 'e3x/so3/irreps.py')],
    ['e3x.so3.clebsch_gordan'],
    'model_checking',
    'exhaustive enumeration of all coefficient blocks against an independent'
    ' Racah-formula model plus intertwining on SO(3)-deciding grids',
    'Every coefficient of every triple of degree limits in the bound is compared.')

prop(
    'C07', 'Cartesian tensor and irrep conversion is an equivariant bijection',
    'For every degree, component order and normalization, converting irreps to'
    ' Cartesian tensors yields symmetric traceless tensors, is linear, commutes'
    ' with rotations, maps harmonics of a vector to the traceless part of its'
    ' outer power, and converting back returns the original values; the symmetric'
    ' traceless predicate accepts exactly the symmetric traceless tensors.',
    ['inputs', 'configurations'],
    'all degrees within the bound x orders x normalizations; all (linear) inputs'
    ' through bases; batch shapes',
    'Tests cover a few degrees and one random input each.',
    ['e3x/so3/irreps.py', TAB[3]],
    [('irreps_to_tensor / tensor_to_irreps / is_traceless_symmetric',
      'e3x/so3/irreps.py')],
    ['e3x.so3.irreps_to_tensor', 'e3x.so3.tensor_to_irreps'],
    'model_checking',
    'exhaustive enumeration of complete bases of the linear maps',
    'Linear maps are decided by their complete bases; degrees up to 6/7.')

prop(
    'C08', 'Rotation constructors return the proper rotation they promise',
    'For every axis, angle, Euler angles and pair of vectors (including parallel,'
    ' antiparallel and nearly antiparallel ones, gimbal lock, and non-unit'
    ' lengths) the constructed matrix is a proper rotation about the documented'
    ' axis in the documented direction, alignment maps the first direction onto'
    ' the second, Euler angles round-trip, and random rotations are proper,'
    ' reproducible and interpolate from the identity to uniform ones.',
    ['inputs'],
    'all axes/angles/pairs on complete grids including every degenerate'
    ' configuration; all keys 0..255; batch shapes',
    'The failing inputs are measure-zero configurations (antiparallel vectors,'
    ' gimbal lock) that random test inputs never hit.',
    ['e3x/so3/rotations.py'],
    [('rotation, rotation_euler, euler_angles_from_rotation,'
      ' alignment_rotation, random_rotation', 'e3x/so3/rotations.py')],
    ['e3x.so3.*rotation*'],
    'model_checking',
    'exhaustive enumeration of direction/angle grids with all degenerate cases',
    'All grid points incl. all degenerate ones are executed; between grid points'
    ' the formulas are trigonometric polynomials or smooth.')

prop(
    'C09', 'Quadrature grids integrate all polynomials up to their precision',
    'For every request by precision or number of points, the returned grid consists'
    ' of unit vectors with weights of total one and integrates every polynomial up'
    ' to the requested precision exactly; among the available grids the smallest'
    ' adequate (or largest allowed) one is chosen and impossible requests raise.',
    ['inputs', 'configurations'],
    'all precisions and numbers of points over the full range of both families',
    'Tests sample a few rules; a corrupted grid or an off-by-one in the selection'
    ' shows only at particular requests.',
    ['e3x/so3/quadrature.py'],
    [('lebedev_quadrature, delley_quadrature', 'e3x/so3/quadrature.py')],
    ['e3x.so3.lebedev_quadrature', 'e3x.so3.delley_quadrature'],
    'model_checking',
    'exhaustive enumeration of all requests; each grid integrated against the'
    ' complete harmonic basis',
    'Every request in the range is executed; exactness checked on all harmonics up'
    ' to min(precision, 35/60).')

prop(
    'C10', 'Norms are accurate, independent per slice and differentiable',
    'For every real vector, including zero vectors and vectors of any magnitude'
    ' whose norm is representable, the norm is accurate to rounding along any'
    ' choice of axes, is not influenced by other entries of the batch, and its'
    ' first and second derivatives are finite everywhere (zero at the zero'
    ' vector) and correct.',
    ['inputs'],
    'all magnitude combinations over the exponent range, all axis specifications'
    ' and keepdims, all ranks 0..3',
    'Tests use moderate magnitudes and uniform batches; underflow, overflow and'
    ' interference between batch entries need mixed extreme magnitudes.',
    ['e3x/ops/base.py'],
    [('norm with custom derivative', 'e3x/ops/base.py')],
    ['e3x.ops.norm'],
    'model_checking',
    'exhaustive enumeration of magnitude tuples x axis specifications x'
    ' derivatives',
    'All tuples over a magnitude alphabet spanning the exponent range; norms above'
    ' 1/tiny excluded (XLA flushes the reciprocal).')

prop(
    'C11', 'Dense and sparse neighbour lists describe the same set of pairs',
    'Pairwise index lists contain every ordered pair of distinct entries exactly'
    ' once, converting between dense and sparse neighbour lists in either'
    ' direction (batched or not, with any padding index) preserves exactly the'
    ' multiset of non-padding pairs, and padding never refers to a valid entry.',
    ['inputs', 'programs'],
    'all index lists of small shapes over all index values incl. padding; chains of'
    ' conversions',
    'Tests use a few graphs; isolated atoms, empty rows, duplicate edges, batches'
    ' with different numbers of pairs and padding in the middle of a row occur only'
    ' in particular lists.',
    ['e3x/ops/indexed.py'],
    [('sparse_pairwise_indices, dense_pairwise_indices,'
      ' sparse_to_dense_indices, dense_to_sparse_indices', 'e3x/ops/indexed.py')],
    ['e3x.ops.sparse_pairwise_indices', 'e3x.ops.dense_to_sparse_indices'],
    'model_checking',
    'explicit enumeration of all small index lists and conversion chains on the'
    ' real code against a multiset model',
    'All lists within the shape/index bounds.')

prop(
    'C12', 'Indexed gather and reductions match the per-pair definition',
    'For every neighbour list, dense or sparse, batched or not, gathering returns'
    ' the entry each index names, and sum, max, min and softmax over the neighbours'
    ' of each entry equal their definition over exactly its unmasked,'
    ' non-padding neighbours; entries without neighbours yield the documented'
    ' neutral values and masked inputs never influence any output, whatever their'
    ' value.',
    ['inputs', 'programs'],
    'all index lists of small shapes incl. padding and unsorted ones, all masks,'
    ' dtypes, feature ranks and batch ranks',
    'Tests use one or two graphs without empty rows, fully masked rows or'
    ' non-finite values in masked positions.',
    ['e3x/ops/indexed.py'],
    [('gather_src, gather_dst, indexed_sum/max/min/softmax',
      'e3x/ops/indexed.py')],
    ['e3x.ops.indexed_sum', 'e3x.ops.indexed_softmax'],
    'model_checking',
    'explicit enumeration of all small index lists x masks x shapes on the real'
    ' code against a loop model',
    'All lists and masks within the bounds.')

prop(
    'C13', 'Feature transforms keep every parity and degree block in place',
    'Every sequence of feature operations (changing the maximum degree or type,'
    ' adding features, reflecting, rotating) acts on each block of given parity'
    ' and degree exactly as documented: kept blocks are unchanged, dropped blocks'
    ' vanish, new blocks are zero, and a block never moves to another parity or'
    ' degree. Invalid shapes are rejected.',
    ['programs', 'configurations'],
    'all operation sequences up to depth 3/4 from every feature shape up to degree'
    ' 3/4',
    'Tests apply single operations to a few shapes; block mix-ups appear for'
    ' particular parity/degree combinations and compositions.',
    ['e3x/nn/features.py'],
    [('change_max_degree_or_type, add, reflect, rotate', 'e3x/nn/features.py')],
    ['e3x.nn.change_max_degree_or_type', 'e3x.nn.add', 'e3x.nn.reflect',
     'e3x.nn.rotate'],
    'model_checking',
    'explicit-state breadth-first search over feature shapes and operation'
    ' sequences with an abstract block model replayed on the implementation',
    'Complete to the stated depth; every model transition is executed by the'
    ' implementation.')

prop(
    'C14', 'Layers couple exactly the symmetry-allowed paths, for every shape',
    'For every combination of input and output degree limits, pseudotensor'
    ' channels and component order, the dense, tensor, fused tensor, tensor-dense'
    ' and embedding layers are equivariant under all rotations and reflections:'
    ' no symmetry-forbidden coupling contributes and every allowed coupling does'
    ' (in plain tensor layers each with its own trainable weight). Bias terms reach'
    ' true scalars only.',
    ['inputs', 'configurations', 'programs'],
    'all degree limit / parity / order configurations within the bound; all inputs'
    ' through bases of the (bi)linear maps',
    'Tests check equivariance for a few configurations with random rotations'
    ' (proper ones mostly); a missing or forbidden path in one configuration is'
    ' invisible to them.',
    ['e3x/nn/modules.py', 'e3x/nn/initializers.py'],
    [('Dense, Tensor, FusedTensor, TensorDense, Embed', 'e3x/nn/modules.py')],
    ['e3x.nn.Dense', 'e3x.nn.Tensor', 'e3x.nn.FusedTensor', 'e3x.nn.TensorDense',
     'e3x.nn.Embed'],
    'model_checking',
    'exhaustive enumeration of layer configurations; complete (bi)linear map read'
    ' out and compared with the coupling model',
    'All configurations in the bound; parameters are generic rather than'
    ' universally quantified.')

prop(
    'C15', 'Interaction models are equivariant under rotations and reflections',
    'For every configuration of message passing, self-attention and multi-head'
    ' attention (degree limits, pseudotensor channels, tensor product kind,'
    ' component order, dense or sparse lists, positional encodings, cut-offs),'
    ' rotating, reflecting or translating all positions and transforming the input'
    ' features accordingly transforms the output features in the same way.',
    ['inputs', 'configurations', 'programs'],
    'all configurations within the bound x generators of a dense subgroup of O(3)'
    ' and translations',
    'Tests check a few configurations, mostly with proper rotations.',
    ['e3x/nn/modules.py', 'e3x/nn/wrappers.py', 'e3x/nn/features.py'],
    [('MessagePass, MultiHeadAttention, SelfAttention', 'e3x/nn/modules.py'),
     ('basis', 'e3x/nn/wrappers.py')],
    ['e3x.nn.MessagePass', 'e3x.nn.SelfAttention', 'e3x.nn.MultiHeadAttention'],
    'model_checking',
    'exhaustive enumeration of layer configurations x symmetry generators on the'
    ' real pipeline positions -> basis -> layer',
    'Generators of a dense subgroup decide all of O(3); positions, features and'
    ' parameters are generic.')

prop(
    'C16', 'Interaction layers treat every graph as the documented sum over edges',
    'For every graph (isolated nodes, self loops and padding included), message'
    ' passing adds the weighted message of each edge, a function of source'
    ' features and basis only, to its destination and nothing else; attention'
    ' averages the values of the neighbours with softmax weights, multiplied by the'
    ' cut-off values before normalization. Results do not depend on list format,'
    ' edge order, padding content, node numbering or other batch entries, and'
    ' gradients are finite.',
    ['inputs', 'programs', 'configurations'],
    'all directed graphs with self loops on 3 nodes and all bipartite 2x3 graphs x'
    ' formats x orders x paddings x options',
    'Tests use one or two complete graphs; isolated nodes, unsorted lists, padding'
    ' in the middle of a row and asymmetric graphs never occur.',
    ['e3x/nn/modules.py', 'e3x/ops/indexed.py'],
    [('MessagePass, MultiHeadAttention', 'e3x/nn/modules.py'),
     ('indexed operations', 'e3x/ops/indexed.py')],
    ['e3x.nn.MessagePass', 'e3x.nn.SelfAttention', 'e3x.nn.MultiHeadAttention'],
    'model_checking',
    'exhaustive enumeration of all small graphs on the real layers against a'
    ' per-edge compositional model',
    'Complete for graphs up to the bound; larger graphs only through compositionality'
    ' (disjoint unions are checked).')

prop(
    'C17', 'Activation functions are equivariant gates equal to their definition',
    'For every feature shape and every input value, an activation multiplies all'
    ' components of a feature channel with one scalar gate that is the documented'
    ' function of the even-parity scalar of that channel, hence commutes with'
    ' rotations and reflections; on scalars it equals the documented activation.'
    ' Gates and derivatives are finite and accurate from the smallest to very'
    ' large magnitudes, including zero and break points.',
    ['inputs', 'configurations'],
    'all activations x parameters x magnitudes 1e-38..1e12 of both signs x feature'
    ' shapes x dtypes',
    'Tests compare a few inputs of order one with tolerances; cancellation next to'
    ' zero, saturation and break points are not sampled.',
    ['e3x/nn/activations.py'],
    [('_gated_activation and every activation', 'e3x/nn/activations.py')],
    ['e3x.nn.relu, silu, gelu, mish, ... (18 functions)'],
    'model_checking',
    'exhaustive enumeration of activations x logarithmic input grids x feature'
    ' shapes against arbitrary-precision definitions',
    'All grid points (dense over the whole exponent range) and all feature shapes'
    ' in the bound; between grid points the gates are smooth.')

prop(
    'C18', 'Radial functions, cut-offs, switches and mappings equal their definition',
    'For every distance, number of functions, limit and option, the radial bases'
    ' (Bernstein, Chebyshev, Gaussian, Fourier, sinc, windows; basic, reciprocal'
    ' or exponential), mappings, cut-offs, switch and damping equal their'
    ' documented formulas with finite, correct derivatives, including zero'
    ' distance and both sides of every boundary. Cut-offs are exactly zero beyond'
    ' the cut-off, switches exactly 0 and 1 outside of their interval, Bernstein'
    ' functions and smooth windows sum to one, and invalid parameters raise.',
    ['inputs', 'configurations'],
    'all families x parameters x distances on grids with all boundaries and their'
    ' neighbours x dtypes x derivative orders',
    'Tests use linspace grids with a few parameters; the fragile points are the'
    ' boundaries, zero distance and higher derivatives.',
    ['e3x/nn/functions/bernstein.py', 'e3x/nn/functions/chebyshev.py',
     'e3x/nn/functions/gaussian.py', 'e3x/nn/functions/trigonometric.py',
     'e3x/nn/functions/window.py', 'e3x/nn/functions/cutoff.py',
     'e3x/nn/functions/switch.py', 'e3x/nn/functions/damping.py',
     'e3x/nn/functions/mappings.py'],
    [('all radial functions', 'e3x/nn/functions/')],
    ['e3x.nn.basic_bernstein, smooth_cutoff, ...'],
    'model_checking',
    'exhaustive enumeration of functions x parameters x boundary-complete distance'
    ' grids against arbitrary-precision definitions',
    'All parameter combinations in the bound on all grid points, values and'
    ' derivatives.')

prop(
    'C19', 'Basis functions are the documented product of radial and angular parts',
    'For every vector, the basis is the product of angular functions of the'
    ' direction, radial functions of the length, cut-off and (for degrees above'
    ' zero only) damping, in shape (..., 1, (L+1)^2, num), with cut-off values and'
    ' norms returned in that order when requested. It is finite with finite'
    ' gradients for every vector including zero and tiny ones, exactly zero beyond'
    ' the cut-off, and ExponentialBasis uses gamma = softplus(parameter),'
    ' initially the requested value.',
    ['inputs', 'configurations'],
    'all option combinations x degrees x radial functions x vectors of lengths 0 to'
    ' 50 x batch shapes',
    'Tests try one configuration on random vectors of order one; zero and tiny'
    ' vectors, gradients there, and option combinations are not sampled.',
    ['e3x/nn/wrappers.py'],
    [('basis, ExponentialBasis', 'e3x/nn/wrappers.py')],
    ['e3x.nn.basis', 'e3x.nn.ExponentialBasis'],
    'model_checking',
    'exhaustive enumeration of options x vector grids against a compositional model',
    'All combinations of the options; degrees, numbers and radial functions pairwise'
    ' (they enter independently).')

prop(
    'C20', 'Initial parameters are zero on unused paths and have the promised variance',
    'For every kernel shape, tensor initializers draw zeros exactly for coupling'
    ' paths forbidden by parity or triangle rule and numbers of the documented'
    ' distribution elsewhere, with variance scale divided by the number of allowed'
    ' paths into the output, out of the input, or their mean. Fused initializers'
    ' respect scale and mask. Draws are reproducible, differ between keys, have'
    ' the requested dtype; invalid modes, distributions and shapes raise.',
    ['configurations', 'inputs'],
    'all kernel shapes (parities x degrees) x initializers x scales x dtypes',
    'Tests check a single shape; the number of allowed paths depends on all six'
    ' shape parameters.',
    ['e3x/nn/initializers.py', 'e3x/nn/modules.py'],
    [('tensor_variance_scaling and named initializers, fused_tensor_*',
      'e3x/nn/initializers.py')],
    ['e3x.nn.initializers.*', 'initial parameters of Tensor, FusedTensor, Dense'],
    'model_checking',
    'exhaustive enumeration of kernel shapes against a path-counting model',
    'Every path of every shape in the bound; variances are read off the end points of'
    ' the distributions (4096 draws per path), hence exact to 2.5 percent.')

prop(
    'C21', 'Matrices built from irreps are equivariant and use every irrep once',
    'For every list of degrees, multiplicity and maximum degree, the square matrix'
    ' built from irreps is their isometric embedding: each irrep becomes one'
    ' Clebsch-Gordan block of exactly one submatrix, every admissible degree of'
    ' every submatrix occurs once, rotating the irreps conjugates the matrix, the'
    ' identity is added only on request, and traces, multiplicities, weights and'
    ' channel mixing are as documented.',
    ['configurations', 'inputs'],
    'all lists of degrees up to length 3 (4) x multiplicities x maximum degrees; all'
    ' (linear) inputs through complete bases',
    'The tests build one or two matrices; index bookkeeping over degrees,'
    ' submatrices and multiplicities breaks for other lists.',
    ['e3x/matrix/matmat.py'],
    [('make_square_matrix, make_rectangular_matrix, combine_irreps, get_traces',
      'e3x/matrix/matmat.py')],
    ['e3x.matrix.*'],
    'model_checking',
    'exhaustive enumeration of degree lists, complete read-out of the linear map'
    ' against a Clebsch-Gordan model',
    'The map is linear, hence decided by its basis for each configuration in the'
    ' bound.')

prop(
    'C22', 'Defaults follow the configuration after every history of changes',
    'After every sequence of configuration changes, each operation and each newly'
    ' constructed layer with default options behaves like the one with explicitly'
    ' given current values; explicit options always win, layers keep the options'
    ' of their construction, setters without argument restore the initial values'
    ' (Cartesian order, Racah normalization, unfused), invalid values raise and'
    ' change nothing, and the two component orders differ by a fixed permutation.',
    ['histories', 'configurations'],
    'all transitions of the configuration automaton (16 states x 13 actions),'
    ' thorough: all paths of length 2 from every state',
    'Tests never change the configuration between calls; stale defaults captured at'
    ' import or construction go unnoticed.',
    ['e3x/config.py', 'e3x/nn/modules.py', 'e3x/nn/wrappers.py',
     'e3x/so3/irreps.py', 'e3x/so3/rotations.py'],
    [('Config', 'e3x/config.py'), ('option defaults', 'e3x/so3/irreps.py')],
    ['e3x.Config', 'operations with default options'],
    'model_checking',
    'explicit-state exploration of the configuration automaton, every transition'
    ' replayed on the implementation',
    'All states and transitions; longer histories matter only through hidden state,'
    ' covered to depth 2 (thorough).',
    state=[('Config', 'global options', 'e3x/config.py')])

prop(
    'C23', 'Operations act on each batch entry alone in every shape and transform',
    'For every operation and batch shape, the result of a batch entry equals the'
    ' result of that entry alone, no matter how the entries are arranged, what the'
    ' other entries contain (NaN, infinities, huge values), and whether it is'
    ' executed eagerly, under jit or under vmap. The floating point type is'
    ' preserved, and forward and reverse mode derivatives agree with each other'
    ' and with the function.',
    ['inputs', 'configurations'],
    'all public array operations x batch shapes x transformations x dtypes x'
    ' contents of the other entries',
    'Tests use one batch of similar random entries; coupling between entries'
    ' appears only for heterogeneous ones.',
    ['e3x/so3/irreps.py', 'e3x/so3/rotations.py', 'e3x/ops/safe.py',
     'e3x/nn/features.py', 'e3x/nn/activations.py', 'e3x/nn/wrappers.py',
     'e3x/nn/modules.py', 'e3x/nn/functions'],
    [('all public operations', 'e3x/__init__.py')],
    ['public functions of e3x.so3, e3x.ops, e3x.nn'],
    'model_checking',
    'exhaustive enumeration of operations x batch shapes x transformations x'
    ' poisoned neighbours (self-composition)',
    'All combinations in the bound; four entries with generic contents.')

prop(
    'C24', 'Derivative evaluation and softplus inversion are exact for all inputs',
    'evaluate_derivatives returns the function and its first derivatives up to the'
    ' requested order, element-wise, for every function, order, shape and dtype;'
    ' inverse_softplus inverts softplus in both directions with finite derivatives'
    ' for all positive magnitudes.',
    ['inputs', 'configurations'],
    'all functions of the family and their compositions x orders x shapes; all'
    ' magnitudes 1e-37..1e30',
    'Tests use one function and a few inputs of order one.',
    ['e3x/ops/helpers.py'],
    [('evaluate_derivatives, inverse_softplus', 'e3x/ops/helpers.py')],
    ['e3x.ops.evaluate_derivatives', 'e3x.ops.inverse_softplus'],
    'model_checking',
    'exhaustive enumeration of functions x orders x shapes and of magnitudes against'
    ' symbolic derivatives',
    'All combinations in the bound.')

prop(
    'C25', 'Documented models are conservative invariant potentials everywhere',
    'A potential assembled as documented (embedding, basis functions with a cut-off,'
    ' message passing or attention, refinement, sum over atoms) has finite energies'
    ' and forces for every placement of the atoms (coincident, collinear, isolated,'
    ' exactly at or just inside the cut-off), is invariant under rotation, reflection,'
    ' translation and renumbering, has forces that are the gradient of the energy'
    ' without net force or torque, does not change when pairs beyond the cut-off are'
    ' dropped, is continuous where an atom crosses the cut-off, and is not influenced'
    ' by padding or by the other molecules of a batch.',
    ['inputs', 'configurations'],
    'all placements of three atoms on a lattice x models x symmetry generators x'
    ' permutations x subsets of dropped pairs',
    'Tests exercise layers one at a time on one random input; none assembles a model'
    ' or looks at forces, the cut-off or isolated atoms.',
    ['e3x/nn/modules.py', 'e3x/nn/wrappers.py', 'e3x/nn/functions', 'e3x/ops'],
    [('MessagePass, MultiHeadAttention, SelfAttention', 'e3x/nn/modules.py'),
     ('basis', 'e3x/nn/wrappers.py'), ('indexed_softmax', 'e3x/ops/indexed.py')],
    ['e3x.nn.MessagePass', 'e3x.nn.SelfAttention', 'e3x.nn.MultiHeadAttention',
     'e3x.nn.basis'],
    'model_checking',
    'exhaustive enumeration of placements x models x transformations of the input',
    'All combinations in the bound; generic parameters.')

prop(
    'C26', 'Parameters are a function of configuration and key, not of the data',
    'The structure, shapes, types and initial values of the parameters of every module'
    ' depend on its options, the shape of its features and the key only: not on batch'
    ' axes, number of atoms or pairs, index format, values or compilation. Parameters'
    ' obtained for one input serve every other one, can be saved and restored, have the'
    ' requested type, are drawn independently of each other, and are the only state.'
    ' Each initialiser and bias option controls exactly the parameters it is named'
    ' after, and layers that end in a linear map compute in the requested type.',
    ['inputs', 'configurations', 'histories'],
    'all modules x options x feature shapes x pairs of inputs',
    'Tests initialise and apply with the same input.',
    ['e3x/nn/modules.py', 'e3x/nn/initializers.py', 'e3x/nn/wrappers.py'],
    [('all modules', 'e3x/nn/modules.py'), ('ExponentialBasis', 'e3x/nn/wrappers.py')],
    ['public modules of e3x.nn'],
    'model_checking',
    'exhaustive enumeration of modules x options x feature shapes x pairs of inputs'
    ' (self-composition)',
    'All combinations in the bound.')

prop(
    'C27', 'Malformed requests are rejected, well-formed ones are served',
    'Every public operation accepts exactly the requests its documentation allows and'
    ' then returns the documented shape: features with at least three axes, one or two'
    ' parity channels and a square number of degree channels; operands with the same'
    ' batch, feature and (for sums) number types; exactly one kind of index list with the'
    ' arguments that kind needs; shapes of bases, weights, cutoffs and index lists that'
    ' match; non-negative degrees, positive cutoffs and counts, known option names.'
    ' Anything else raises an error instead of being broadcast to a wrong result.',
    ['inputs', 'configurations'],
    'grids of shapes x options x subsets of arguments x sets of modifications',
    'Tests check one malformed example per error message.',
    ['e3x/nn/features.py', 'e3x/nn/modules.py', 'e3x/ops/indexed.py', 'e3x/so3/irreps.py'],
    [('_extract_max_degree_and_check_shape', 'e3x/nn/features.py'), ('_determine_index_type', 'e3x/ops/indexed.py')],
    ['public functions and modules of e3x'],
    'model_checking',
    'exhaustive enumeration of requests (abstract evaluation of the real code) against a'
    ' model of the documented acceptance rules',
    'All requests in the bound.')

#INSERT


def main():
  order = sorted(P, key=lambda p: p['entry']['id'])
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in order:
      f.write(json.dumps(p['entry'], ensure_ascii=False) + '\n')
  checks, missing = [], []
  for p in order:
    id = p['entry']['id']
    if os.path.exists(os.path.join(VERIF, 'mc', 'checks', id.lower() + '.py')):
      checks.append(dict(
          property=id,
          quick_cmd=f'bash run.sh {id} quick',
          thorough_cmd=f'bash run.sh {id} thorough',
          technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
      missing.append(dict(property=id, reason='check not built yet'))
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='bash setup.sh', checks=checks,
        not_applicable=missing,
        notes='No hooks in /repo; every check imports e3x from /repo\'s working'
              ' tree. Checks are deterministic; VERIF_SEED permutes the order of'
              ' jobs only.'), f, indent=1)
    f.write('\n')
  print(len(checks), 'checks,', len(missing), 'missing')


main()
