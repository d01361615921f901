prop('C01', 'A flip moves every lamination exactly as its square dictates, reversibly',
    'Flipping a flippable edge of a triangulation takes every integral lamination to the integral lamination on the new triangulation with the same weights off the flipped edge and, on the new edge, the geometric intersection number read off from the strands in the square. Applying the inverse gives back the original weights. This holds for curves, arcs, parallel arcs, peripheral curves and any mixture, of any size.',
    'all integral laminations (unbounded integer weights, any signs) on the listed triangulations; all flippable oriented edges and all ways the sides of the square can be identified',
    'The tests apply flips to a few dozen random laminations; the nine case regions of the weight formula and their boundaries are not enumerated, and wrong answers on thin regions (many parallel arcs plus terminal arcs) are never sampled.',
    ['moves.py', 'triangulation.py'], [('EdgeFlip.apply_lamination', K + 'moves.py'), ('Triangulation.encode_flip / square', K + 'triangulation.py')])
prop('C02', 'Flip-graph relations hold on every lamination',
    'Flipping a set of edges with disjoint support at once, or one at a time in any order, has the same effect on every lamination, and the inverse undoes it. Flipping two adjacent edges alternately five times (a pentagon) acts as the relabelling that swaps them, on every lamination.',
    'all integral laminations (unbounded weights); all disjoint sets of edges / pentagons in the listed triangulations',
    'Tests only compare packages or round trips of random words; a formula which is self-inverse but wrong would still pass. The relations quantify over every lamination.',
    ['moves.py', 'triangulation.py'], [('MultiEdgeFlip.apply_lamination', K + 'moves.py'), ('EdgeFlip.apply_lamination', K + 'moves.py'), ('encode_multiflip', K + 'triangulation.py')])
prop('C03', 'Isometries and relabellings permute weights and commute with flips',
    'An isometry or relabelling of a triangulation sends each lamination and homology class to the one whose measure on the image of each (oriented) edge is the measure on that edge. Inverses and composites act accordingly, every isometry found between two triangulations is one, and flipping an edge then applying the induced isometry equals applying the isometry then flipping the image edge. Rewriting a mapping so that it uses a single isometry does not change what it does.',
    'all laminations and homology classes (unbounded) on the listed triangulations, all their (self-)isometries and a family of relabellings',
    'Tests use random encodings and check equality of mappings on finitely many curves; transposing a map and its inverse is invisible on involutions and on symmetric weights.',
    ['moves.py', 'triangulation.py', 'encoding.py'], [('Isometry.apply_lamination/apply_homology', K + 'moves.py'), ('find_isometry, isometries_to, encode_relabel_edges', K + 'triangulation.py'), ('Mapping.combine_isometries', K + 'encoding.py')])
prop('C04', 'Powers of a Dehn twist act as iterated single twists',
    'Applying the k-th power of a Dehn twist to a lamination gives the same answer as applying the single twist k times, for positive and negative k. The twist fixes its own curve and every lamination disjoint from it, and opposite powers cancel. A twist about a multicurve is the product of the twists about its components, raised to their multiplicities.',
    'all laminations meeting the curve at most a bounded number of times (weights otherwise unbounded) and all integers k (unbounded); the listed curves',
    'The accelerated computation branches on the slope and on how far the power crosses the dangerous region; the tests compare a few random powers of random laminations.',
    ['twist.py', 'curve.py'], [('Twist.apply_lamination', K + 'twist.py'), ('Curve.slope', K + 'curve.py'), ('MultiCurve.encode_twist', K + 'curve.py')])
prop('C05', 'Powers of a half-twist act as iterated half-twists',
    'Applying the k-th power of a half-twist to a lamination gives the same answer as applying the single half-twist k times, for positive and negative k. Its square is the Dehn twist about the boundary of a neighbourhood of the arc, it fixes the arc and opposite powers cancel.',
    'all laminations meeting the boundary curve at most a bounded number of times (weights otherwise unbounded) and all integers k; the listed arcs',
    'Even, odd, negative and small powers take different code paths, each correct only on its own; the tests sample a few of them.',
    ['twist.py', 'arc.py'], [('HalfTwist.__init__/apply_lamination', K + 'twist.py'), ('MultiArc.encode_halftwist/boundary', K + 'arc.py')])
prop('C06', 'Homology classes are equal exactly when they differ by triangles',
    'Two homology classes on a triangulation are equal if and only if they differ by an integer combination of boundaries of triangles, and equal classes have equal hashes. The canonical form is equal to the class it came from, is idempotent and additive, and the basis elements are canonical and of the right number.',
    'all integer edge vectors (unbounded) on the listed triangulations',
    'Tests only check round trips of canonical forms of random classes; equality is an "if and only if" over a whole lattice.',
    ['homology.py', 'triangulation.py'], [('HomologyClass.canonical/__eq__', K + 'homology.py'), ('Triangulation.homology_matrix/dual_tree/homology_basis', K + 'triangulation.py')])
prop('C07', 'Mappings act on homology linearly, functorially and consistently',
    'Every mapping acts on homology classes additively, respects equality of classes, is undone by its inverse, and the action of a composite is the composite of the actions. Flips, multi-flips, isometries, twists and half-twists raised to any power act as the product of the flips they stand for, and the homology matrix of a mapping describes that action. A Dehn twist adds a multiple of its own curve.',
    'all integer homology classes (unbounded) under generator moves and words in them; twist powers: all integers against each basis class',
    'Tests compare homology matrices of random pairs of words; a formula for twist powers that is wrong for one crossing pattern is rarely seen.',
    ['moves.py', 'twist.py', 'encoding.py', 'homology.py'], [('apply_homology of each move', K + 'moves.py'), ('Twist.apply_homology', K + 'twist.py'), ('Mapping.homology_matrix', K + 'encoding.py')])
prop('C08', 'The piecewise-linear action agrees with the action on its whole cell',
    'The partial linear function that a mapping reports for a multicurve sends that multicurve to its image. Moreover for every other multicurve that satisfies the function\'s conditions, the linear map gives exactly the image under the mapping.',
    'all pairs of multicurves in a common cell (unbounded weights), for flips, multi-flips, isometries, twists, half-twists and words in them',
    'Tests check only the multicurve the cell was computed from; a missing or reversed condition is invisible there.',
    ['moves.py', 'twist.py', 'encoding.py', 'PL.py'], [('pl_action of each move', K + 'moves.py'), ('Twist.pl_action', K + 'twist.py'), ('PartialLinearFunction', K + 'PL.py')])
prop('C09', 'Geometric intersection numbers are invariant, additive and homogeneous',
    'The intersection number of two laminations is a non-negative integer that does not change when both are moved by the same mapping, is additive over several laminations and over disjoint components with multiplicity, and scales. With an edge of the triangulation it is the (positive) weight on that edge and with a peripheral curve it counts the ends of arcs at that vertex. It is zero for disjoint laminations.',
    'a family of curves, arcs, peripheral curves and multi-laminations against all integral laminations (unbounded weights)',
    'Tests compare a few random pairs; the peripheral, arc and isolating-curve branches each need particular laminations on particular, non-short, representatives.',
    ['lamination.py', 'curve.py'], [('IntegralLamination.intersection', K + 'lamination.py')])
prop('C10', 'Slopes count twisting and shift by one under a Dehn twist',
    'The slope of a lamination about a curve is a fraction whose denominator is (a divisor of) their intersection number and a right Dehn twist about the curve changes it by exactly one outside of the region between -1 and 1. It is defined exactly when the curve is not peripheral and meets the lamination, and is unchanged when both are moved by a mapping that keeps the curve short.',
    'the listed curves against all laminations meeting them at most a bounded number of times (weights otherwise unbounded)',
    'The tests check one twist on random curves; sign and parity conventions depend on how arcs end in the annulus.',
    ['curve.py'], [('Curve.slope', K + 'curve.py')])
prop('C11', 'Crushing along a curve and lifting back are inverse where they should be',
    'Crushing a lamination along a curve produces a lamination on the crushed surface, lifting a lamination that does not end at the new punctures and crushing it again gives it back, and crushing then lifting any lamination disjoint from the curve gives it back. The curve itself crushes to curves around punctures and twisting about the curve does not change what a lamination crushes to.',
    'all multicurves/laminations (unbounded weights) and the listed short curves',
    'Tests crush only a few random curves; the tightening loops have cases for arcs ending inside the annulus that appear only for particular weights.',
    ['crush.py', 'curve.py'], [('Crush.apply_lamination', K + 'crush.py'), ('Lift', K + 'crush.py'), ('Curve.crush', K + 'curve.py')])
prop('C12', 'Components with multiplicity determine, and are found from, the weights',
    'Decomposing the sum of disjoint arcs and curves taken with multiplicities returns exactly those components with exactly those multiplicities, however large, wherever on the surface they lie. Shortening returns a short lamination that is the image of the original under the returned mapping, and the class that a lamination promotes to reflects the kinds of its components.',
    'sums of listed disjoint components (moved by words) with all non-negative multiplicities; and every integral lamination of bounded total weight',
    'Tests round-trip a few random laminations; multiplicities beyond small numbers and mixtures of arcs, curves and peripheral curves are not covered.',
    ['lamination.py', 'triangulation.py'], [('shorten, components, parallel_components, peripheral_components, promote', K + 'lamination.py')])
prop('C13', 'Peripheral and parallel parts split off exactly',
    'Every lamination is the sum of its peripheral part and its non-peripheral part; the peripheral part is the largest multiple of each curve around a puncture that can be removed, so adding k such curves raises it by exactly k. Dual, left and right weights count the strands across each corner of each triangle (with arcs that end recorded negatively) and the weights can be recovered from them.',
    'all integral laminations (unbounded weights) on the listed triangulations',
    'Tests see random laminations with few peripheral components and never enumerate corner patterns.',
    ['lamination.py', 'utilities.py'], [('peripheral_components, peripheral, non_peripheral, dual_weight, left_weight, right_weight', K + 'lamination.py'), ('maximin', K + 'utilities.py')])
prop('C14', 'Regular neighbourhood boundaries are disjoint, natural and multiplicity-free',
    'The boundary of a neighbourhood of a multiarc is a multicurve that misses the multiarc, depends only on which arcs are present and not on their multiplicities, and commutes with every mapping. The boundary of a multicurve is two copies of it, the boundary curve of an edge is that of the corresponding arc, and an arc or lamination is reported as filling only when that boundary is peripheral.',
    'multiarcs of listed disjoint arcs with all positive multiplicities, moved by generator words',
    'Tests call boundary on a handful of unit arcs.',
    ['arc.py', 'lamination.py', 'curve.py', 'triangulation.py'], [('MultiArc.boundary', K + 'arc.py'), ('IntegralLamination.boundary/is_filling', K + 'lamination.py'), ('Triangulation.edge_curve', K + 'triangulation.py')])
prop('C15', 'Straight-line programs behave as the lists they stand for',
    'A straight-line program built by concatenation, sums, repetition, reversal and mapping has the length, items (by any valid positive or negative index), iteration order, reversed iteration and membership of the list built by the same operations. An index out of range raises an IndexError.',
    'all item values (unbounded integers), all repetition counts and indices within stated bounds, all expression shapes up to the stated size',
    'Tests draw random lists; off-by-one errors in the index walk or the binary expansion only show for particular repetition counts and indices.',
    ['structures.py'], [('StraightLineProgram', K + 'structures.py')])
prop('C16', 'Signatures, packages, pickles and base 64 round-trip',
    'Encoding a natural number in base 64 and decoding it, taking the index of a permutation and rebuilding it, taking the signature of a triangulation and rebuilding it, and packaging or pickling a mapping, triangulation, lamination and rebuilding it all give back the original. Distinct triangulations have distinct signatures.',
    'integers, permutation indices, edge labellings and twist powers within the stated bounds',
    'Tests round-trip random samples only.',
    ['utilities.py', 'permutation.py', 'triangulation.py', 'encoding.py', 'moves.py'], [('b64encode/b64decode', K + 'utilities.py'), ('Permutation.index/from_index', K + 'permutation.py'), ('Triangulation.sig/from_sig/package', K + 'triangulation.py'), ('Encoding.package', K + 'encoding.py')])
prop('C17', 'Permutations obey the group laws and their invariants',
    'Composition of permutations is composition of functions, inverses and powers (of any sign) are what they should be, the order is the least positive power giving the identity, parity is multiplicative, cycle lengths partition the points and conjugate permutations are recognised exactly. The matrix of a product is consistent with the product of matrices.',
    'all permutations on at most the stated number of points, all exponents within the stated bounds',
    'Tests use random permutations and small powers.',
    ['permutation.py'], [('Permutation', K + 'permutation.py')])
prop('C18', 'Union-find keeps exactly the generated equivalence relation',
    'After any sequence of unions two items have the same representative if and only if they are linked by a chain of unioned items. The groups iterated over are the classes, each item once, and the length is the number of classes.',
    'all sequences of at most the stated number of unions on at most the stated number of items',
    'Only random sequences are tested; the rank bookkeeping is history dependent.',
    ['structures.py'], [('UnionFind.__call__/union2/union', K + 'structures.py')], over=('histories',))
prop('C19', 'Early-terminating extrema equal the plain ones',
    'The early-terminating maximum of minima equals the maximum of the minima, the early-terminating maximum is a maximal item whenever the bound really is one, and the list of maximal items contains all of them in order. Cyclic slices, halving and products equal their definitions, raising an error exactly when undefined.',
    'all integer inputs (unbounded) for lists up to the stated lengths',
    'Tests use random small integers, so ties and early exits are rare.',
    ['utilities.py'], [('maximin, maximum, maxes, cyclic_slice, Half, product', K + 'utilities.py')])
prop('C20', 'Sums and multiples of laminations are the sums of their weights',
    'Adding laminations adds their weights, multiplying by a natural number multiplies them, and sums of several laminations (as a list or with multiplicities) equal the sum taken one at a time; the result keeps the kind (multicurve, multiarc) that all of its parts share. Equal laminations have equal weights and equal hashes and laminations on different triangulations are never summed.',
    'laminations with all weights / all multiplicities (unbounded) on the listed triangulations',
    'Tests use random pairs of distinct laminations, so repeated summands, zero multiples and mixed kinds are not seen.',
    ['lamination.py', 'triangulation.py'], [('Lamination.__add__/__mul__/__eq__/__hash__', K + 'lamination.py'), ('Triangulation.sum/disjoint_sum', K + 'triangulation.py')])
prop('C21', 'Encodings compose, invert, slice and take powers as functions',
    'The product of encodings acts as the composite, the inverse undoes it, powers iterate it (zero gives the identity, negative the inverse), and slicing at any valid places gives encodings whose product is the whole. Composites of mappings are mappings and have the right source and target; encodings over mismatched triangulations are refused. A mapping rewritten with flips only, or simplified, acts as before.',
    'all laminations (unbounded weights) for listed words; all slice positions and powers within bounds',
    'Tests check a few random words against a few random curves.',
    ['encoding.py', 'triangulation.py'], [('Encoding.__mul__/__getitem__/inverse/__call__', K + 'encoding.py'), ('MappingClass.__pow__/__call__', K + 'encoding.py'), ('Mapping.flip_mapping/simplify', K + 'encoding.py')])
prop('C22', 'Equality and order decide how mapping classes act on everything',
    'Two mapping classes that compare equal act in the same way on every lamination, and generators satisfy the commutation, braid and chain relations of the mapping class group. If the order of a mapping class is n > 0 then its n-th power fixes every lamination and no smaller positive power acts as the identity.',
    'listed pairs and words on the listed surfaces against all laminations (unbounded weights unless stated)',
    'The implementation compares images of one lamination; that this suffices for all laminations is exactly what a test cannot see.',
    ['encoding.py', 'load.py', 'twist.py', 'moves.py'], [('Mapping.__eq__, MappingClass.order', K + 'encoding.py'), ('load', 'curver/load.py')])
prop('C23', 'The order bound is at least the largest order of a periodic mapping class',
    'The maximum order reported for a surface is at least the largest finite order that a mapping class of it can have, for every genus, number of punctures and number of components. Orders computed with it are therefore never reported as infinite by mistake.',
    'all genera and numbers of punctures (unbounded integers), up to the stated number of components',
    'Tests only evaluate it on the few surfaces that they use.',
    ['triangulation.py', 'encoding.py'], [('Triangulation.max_order', K + 'triangulation.py'), ('MappingClass.order', K + 'encoding.py')])
prop('C24', 'Words describing mapping classes mean what they say',
    'The mapping class built from a string with letters, powers, parentheses and dots is the composite of the named generators in that order with every power expanded, where a swapped case letter or a negative power means the inverse and a negative power of a group reverses it. A power applies to the letter or group just before it only. Words that cannot be decomposed, unbalanced parentheses, a missing power and a power of nothing raise ValueError.',
    'all powers within bounds for listed word shapes (nested and adjacent)',
    'Tests try fixed words and a few random powers.',
    ['mappingclassgroup.py', 'structures.py'], [('MappingClassGroup.mapping_class', K + 'mappingclassgroup.py'), ('StraightLineProgram', K + 'structures.py')], over=('inputs', 'programs'))
prop('C25', 'Topological type is invariant and sees multiplicities',
    'The topological type of a lamination does not change when it is moved by any mapping class. Laminations made from the same components whose multiplicities differ in a way that no mapping class can undo have different types.',
    'sums of listed disjoint components with all multiplicities, moved by generators',
    'Tests move random laminations by random words; the labelled graph comparison with multiplicities (ties, order) is not explored.',
    ['lamination.py'], [('IntegralLamination.topological_type', K + 'lamination.py')])
prop('C26', 'Refining a triangulation keeps every multicurve',
    'Adding a vertex in any set of triangles takes each multicurve to the multicurve with the same weights on the old edges and the weights forced by its corners on the new ones. Going back returns the original.',
    'all multicurves (unbounded weights) and all subsets of triangles of the listed triangulations',
    'Tests refine a few random multicurves.',
    ['triangulation.py', 'crush.py'], [('Triangulation.encode_pachner_1_3', K + 'triangulation.py'), ('LinearTransformation', K + 'crush.py')])
prop('C27', 'Vertex cycles of a multicurve are curves carried by it',
    'Every vertex cycle reported for a multicurve is a single curve that turns only across corners that the multicurve uses and crosses each edge at most twice. Every curve like this that crosses each edge at most once in each direction is reported, and every non-empty multicurve has one.',
    'all multicurves (unbounded weights) on the listed triangulations',
    'Tests check a few random curves.',
    ['curve.py'], [('MultiCurve.vertex_cycles', K + 'curve.py')])
prop('C28', 'Tracing along a lamination returns the curve actually followed',
    'Tracing from a strand of a lamination either returns the closed curve obtained by following that strand until it first returns to the edge, provided that the strand followed can be closed up along that edge without crossing itself, or raises ValueError when it does not close up within the allowed length, runs into a vertex or cannot be closed.',
    'all laminations (unbounded weights) and all starting strands, up to the stated number of steps',
    'Tracing is only used inside shortening, and tests never compare it with an independent tracing.',
    ['lamination.py'], [('Lamination.trace_curve', K + 'lamination.py')])
prop('C29', 'Mapping classes permute punctures as they move peripheral curves',
    'The vertex map of a mapping sends each vertex to the vertex whose peripheral curve is the image, it is multiplicative, and every peripheral part of a lamination (with its multiplicity) is carried along it. Peripheral curves and being peripheral are preserved by every mapping.',
    'all laminations (unbounded weights) under flips, isometries, twists and half-twists of the listed triangulations',
    'Tests check composites of random words on vertices only.',
    ['encoding.py', 'lamination.py'], [('Mapping.vertex_map/vertex_permutation', K + 'encoding.py'), ('peripheral_components', K + 'lamination.py')])
prop('C30', 'Curve-complex distances and Nielsen-Thurston types are correct',
    'The reported distance between two curves in the curve complex is the length of a shortest path, geodesics are tight, and the reported Nielsen-Thurston type is that of the mapping class.',
    'all pairs of curves and all mapping classes',
    'Tests avoid these because the running times are astronomical.',
    ['curvegraph.py', 'encoding.py'], [('CurveGraph.distance/tight_paths', K + 'curvegraph.py'), ('MappingClass.nielsen_thurston_type', K + 'encoding.py')],
    na='The constants (for example powers of D*R iterations and balls of radius 2*zeta*length+2*zeta) make a single concrete run infeasible, and fills_with/explore paths are search procedures over graphs with no bounded integer core: nothing that a solver could decide within reach.')
prop('C31', 'Conjugacy of periodic mapping classes is decided by quotient orbifolds',
    'Two periodic mapping classes are reported conjugate if and only if they are conjugate; the quotient orbifold signature is a complete conjugacy invariant and does not depend on choices.',
    'all periodic mapping classes',
    'Tests only check conjugates of one element.',
    ['finite.py', 'encoding.py'], [('FiniteSubgroup.quotient_orbifold_signature/invariant_polygonalisation', K + 'finite.py')],
    na='There is no integer input to make symbolic: the input is a finite group of mapping classes (a combinatorial object), so an encoding would degenerate into enumerating concrete runs.')
prop('C32', 'Invariant laminations of pseudo-Anosov classes are eigenvectors',
    'The projectively invariant lamination returned for a pseudo-Anosov mapping class is non-zero and is scaled by the returned dilatation.',
    'all pseudo-Anosov mapping classes',
    'Tests use a few fixed words.',
    ['encoding.py', 'PL.py'], [('MappingClass.projective_invariant_lamination', K + 'encoding.py'), ('PartialLinearFunction.eigenvector', K + 'PL.py')],
    na='Relies on realalg/cypari algebraic number arithmetic (compiled code behind an FFI) to find eigenvectors; that cannot be executed on symbolic values.')
prop('C33', 'Standard generating sets live on the surface asked for',
    'Loading the surface of genus g with n punctures gives a triangulation of exactly that surface, whose named curves and arcs are connected, have the stated kinds and pairwise intersection numbers of the standard picture.',
    'all g and n with n >= 1 (n >= 3 for g = 0)',
    'Tests load a few small surfaces.',
    ['load.py'], [('load, S_g_n', 'curver/load.py')],
    na='The triangulation is a list whose length and whose dictionary keys depend on g and n, so g and n would be concretised immediately: only enumeration of concrete runs is possible.')
