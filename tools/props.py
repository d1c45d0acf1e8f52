NOT_APPLICABLE = []
PROPS = []
E = "ebsdtorch/"
REPLAY = "TLA+ spec checked by TLC; its behaviours replayed into the code"
TRACE = "TLA+ trace spec: recorded executions of the code judged by TLC"
BOTH = "TLA+ spec checked by TLC; behaviours replayed and recorded traces judged"
UNTESTED = "No test in the repository exercises this; a test would fix a few "


def prop(id, title, statement, over, quant, why, files, mech, technique, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=[E + f for f in files], mech=[(n, E + w) for n, w in mech],
                      technique=technique, note=note, **k))


prop("A01", "Streaming nearest neighbour search equals exhaustive search",
     "However the data is split into chunks and the queries into blocks (in any order, some blocks possibly skipped for some chunks), after every step the k neighbours retrieved for each query are the best k of all the data vectors it has been matched with so far, best first, with their scores and their positions in the whole data stream. This holds for the angular (inner product), Euclidean and Manhattan metrics (squared distances for Euclidean), for each supported precision, and for int8-quantised matching up to its rounding.",
     ["histories", "inputs", "configurations"],
     "every sequence of chunk and query-block operations, every metric, precision and k up to the number of data vectors",
     UNTESTED + "chunkings, while the guarantee is over every sequence of chunks and blocks.",
     ["utils/knn.py"], [("top-k merge of a chunk into the running table", "utils/knn.py:ChunkedKNN.query_chunk"),
                        ("chunk offsets", "utils/knn.py:ChunkedKNN.set_data_chunk"), ("per metric chunk search", "utils/knn.py:knn_chunk")],
     REPLAY, "TLC enumerates every chunking and block order for small sizes (StreamingIsExhaustive) and simulates larger random ones; each behaviour is replayed with exact integer scores. Bounds: at most 14 data vectors and 6 queries per behaviour; quantised arithmetic only with well separated scores.")

prop("A02", "Dictionary indexing finds the exhaustive best matches",
     "Dictionary indexing gives every experimental pattern, for each phase, the k dictionary orientations whose simulated patterns score best under the chosen metric, best first with their metrics, and as result the phase, orientation and metric of the best match over all phases. The outcome does not depend on the dictionary or experiment chunk sizes, and masked-out detector pixels, binning and mean subtraction apply alike to both sides; the patterns of the scan are left as they were.",
     ["inputs", "configurations"],
     "every scan, mask, metric, precision, phase list, number of matches and pair of chunk sizes",
     "tests/test_di.py runs two chunk sizes on downloaded data and asserts nothing about the matches.",
     ["ebsd/indexing.py", "ebsd/experiment_pats.py", "utils/knn.py"],
     [("chunked loops", "ebsd/indexing.py:dictionary_index_orientations"), ("metrics per phase", "ebsd/experiment_pats.py:ExperimentPatterns.combine_indexing_results")],
     TRACE, "IndexRun.tla walks the chunk loops over the recorded score matrix (its invariant LoopsAreExhaustive) and judges the recorded indices, metrics, phases and orientations. Score matrices come from an independent float64 simulation through the public geometry and master pattern lookup; ties within tolerance are accepted.")

prop("A03", "PCA dictionary indexing searches the leading principal subspace",
     "PCA-compressed dictionary indexing gives every experimental pattern, per phase, the k dictionary orientations that score best after projecting both sides on the n leading principal components of the simulated dictionary patterns of the learning resolution, best first with their metrics. The best match over all phases becomes the result, and with as many components as pixels the result is that of plain dictionary indexing; chunk sizes do not matter.",
     ["inputs", "configurations"],
     "every scan, mask, metric, number of components, learning and indexing resolution and pair of chunk sizes",
     "tests/test_di_pca.py runs on downloaded data and asserts nothing about the matches.",
     ["ebsd/indexing.py", "utils/pca_covmat.py", "utils/knn.py"],
     [("component selection", "ebsd/indexing.py:pca_dictionary_index_orientations"), ("covariance", "utils/pca_covmat.py:OnlineCovMatrix")],
     TRACE, "As A02 (IndexRun.tla), over scores in the subspace of a float64 eigendecomposition; numbers of components are chosen where the spectrum has a gap, so that the subspace is defined.")

prop("A04", "Combining phases keeps, per pattern, the best match of any phase",
     "After combining the registered results of any set of phases, each pattern holds the phase, orientation and metric of its best first match over all phases registered (highest or lowest metric as requested), registering a phase again replaces its results, and the per-phase index lists partition the scan.",
     ["histories", "inputs"], "every sequence of registrations and combinations, any scan shape, number of phases and matches",
     UNTESTED + "registrations.", ["ebsd/experiment_pats.py"],
     [("combination", "ebsd/experiment_pats.py:ExperimentPatterns.combine_indexing_results"), ("index lists", "ebsd/experiment_pats.py:ExperimentPatterns.get_indices_per_phase")],
     REPLAY, "PhaseCombine.tla: exhaustive small histories and random larger ones, invariants Chosen and Partition; every history replayed. Metrics are distinct multiples of 1/8, exact in all precisions.")

prop("A05", "Scan attributes read back the last value written for each pattern",
     "Orientations, spatial coordinates and inverse deformation gradients of a scan read back, for any list of pattern indices, the value last written for each pattern, whether written for the whole scan, for a list of patterns, or (deformation gradients) as one value for all, and resetting deformation gradients makes them the identity. Reading an attribute that was never written, or writing a wrong number of values, is refused with a ValueError and changes nothing; no attribute write changes the patterns or another attribute.",
     ["histories"], "every sequence of whole, partial, broadcast and refused writes and reads, in any scan shape",
     UNTESTED + "call sequences.", ["ebsd/experiment_pats.py"],
     [("setters and getters", "ebsd/experiment_pats.py:ExperimentPatterns.set_orientations, set_spatial_coords, set_inv_f_matrix")],
     REPLAY, "ScanStore.tla (invariant ReadsLastWrite) simulated by TLC; every history replayed. Up to 6 patterns, 20 operations.")

prop("A06", "Pattern corrections act per pattern and are read back exactly",
     "Every correction of a scan does exactly what it says, to all patterns and each pattern independently of the order of the scan: background subtraction removes the scan's mean pattern, per-pattern normalisation gives zero mean, range 0..1 or zero mean and unit deviation, contrast enhancement and NLPAR equal the stand-alone functions on each pattern or scan, and the standard clean is background, range, contrast, range. Reading patterns by any list of indices gives the current patterns in that order, binned reads give block means, and reading changes nothing.",
     ["histories", "inputs"], "every sequence of corrections and reads on scans of any shape",
     UNTESTED + "correction sequences.", ["ebsd/experiment_pats.py", "preprocessing/clahe.py", "preprocessing/nlpar.py"],
     [("corrections", "ebsd/experiment_pats.py:ExperimentPatterns.subtract_overall_background, normalize_per_pattern, contrast_enhance_clahe, standard_clean, do_nlpar"), ("reads", "ebsd/experiment_pats.py:ExperimentPatterns.get_patterns")],
     TRACE, "CorrectionTrace.tla judges every step of recorded random histories in fixed point (1e-4). Scans of up to 12 patterns of up to 8x8 pixels; contrast enhancement on values in 0..1.")

prop("A07", "Master pattern lookups do not depend on earlier lookups",
     "A lookup in a master pattern sees the pattern as it is at that moment at the binning requested, whatever normalisations, contrast enhancements and lookups (with other binning factors) came before, and changes nothing. Normalising rescales the whole pattern (both hemispheres together) and any number and shape of directions gives the values that each direction gives alone.",
     ["histories", "inputs"], "every sequence of modifications and lookups with any binning factor dividing the pattern",
     UNTESTED + "sequences.", ["ebsd/master_pattern.py"],
     [("binned copy kept between lookups", "ebsd/master_pattern.py:MasterPattern.interpolate"), ("modifications", "ebsd/master_pattern.py:MasterPattern.normalize, apply_clahe")],
     REPLAY, "MasterLookup.tla (invariant LookupsAreCurrent); every history replayed next to a fresh object made from the current pattern. Patterns of 4 to 12 pixels.")

prop("A08", "Master pattern lookup is the bilinear equal-area value of its hemisphere",
     "Looking up a direction in a master pattern returns the bilinear interpolation, at the direction's equal-area square position (pixel centres), of the northern (z >= 0) or southern hemisphere, averaged over blocks of the binning factor when binned. Unnormalised directions give the value of their normalised direction when normalisation is requested, batch shapes are kept, and a pattern given as two hemispheres or side by side is the same pattern.",
     ["inputs", "configurations"], "every pattern, direction, binning factor and batch shape",
     UNTESTED + "directions.", ["ebsd/master_pattern.py", "s2_and_so3/sphere.py"],
     [("lookup", "ebsd/master_pattern.py:MasterPattern.interpolate"), ("projection", "s2_and_so3/sphere.py:rosca_lambert_side_by_side")],
     REPLAY, "MasterLookup.tla computes exact values in sixteenths at quarter-pixel positions; replayed in float32 and float64. Positions between the outermost pixel centres and the equator are not judged.")

prop("B11", "Sphere and plane projections are equal-area, inverse and on the sphere",
     "The square equal-area projection maps every unit vector of a hemisphere into the unit square following the Rosca-Lambert formulas (equator on the border, pole in the centre) and the inverse maps take every point of the square to the unit vector it came from. The hexagonal map takes every point of the hexagon (tips on the first axis at distance one) to a unit vector at an equal-area height, and polar coordinates and unit vectors convert into each other with declination first; batch shapes are kept and results are finite everywhere.",
     ["inputs"], "every unit vector and point of the square or hexagon, both precisions, any batch shape",
     "No test projects anything; special points (centre, edges, diagonals, poles) are where formulas break.",
     ["s2_and_so3/sphere.py", "utils/rosca_lambert.py", "crystallography/kvectors.py"],
     [("square", "s2_and_so3/sphere.py:rosca_lambert, inv_rosca_lambert"), ("hexagon", "utils/rosca_lambert.py:hexagon_to_hemisphere"), ("polar", "s2_and_so3/sphere.py:theta_phi_to_xyz, xyz_to_theta_phi")],
     TRACE, "Projection.tla states the maps in fixed point (1e-4) and judges thousands of recorded points including all special ones.")

prop("B01", "Laue group tables are the complete rotation groups",
     "For each of the 11 Laue groups the table of rotations holds, as unit quaternions in double precision with non-negative real part and the identity first, exactly the elements of the group generated by its axes in the standard setting, each once, and the multiplicity is twice their number.",
     ["configurations"], "all 11 Laue groups and every rotation of each",
     "No test looks at the tables; one wrong digit passes every test that does not use that very element.",
     ["s2_and_so3/laue_generators.py"], [("tables", "s2_and_so3/laue_generators.py:laue_elements"), ("multiplicity", "s2_and_so3/laue_generators.py:get_laue_mult")],
     REPLAY, "LaueGroups.tla closes the generators over Z[sqrt2]/2 and Z[sqrt3]/2 exactly (exhaustive, all groups) and emits the groups.")

prop("B02", "Space groups and point groups map to their Laue group",
     "Every space group number from 1 to 230 and every point group symbol is assigned the Laue group (1 to 11) and multiplicity of its crystal class, numbers and symbols that denote none are refused, and a master pattern made for a space group, a point group or a Laue group (exactly one of them) has that Laue group.",
     ["configurations"], "all space group numbers and neighbouring integers, all point group symbols",
     "No test maps a space group.", ["utils/symmetry_classes.py", "ebsd/master_pattern.py"],
     [("space groups", "utils/symmetry_classes.py:space_group_to_laue"), ("point groups", "utils/symmetry_classes.py:point_group_to_laue"), ("master pattern", "ebsd/master_pattern.py:MasterPattern.__init__")],
     REPLAY, "SpaceGroupTables.tla enumerates every number and crystal class (exhaustive).")

prop("B03", "Reduction to the fundamental zone picks the symmetry equivalent of least angle",
     "For every orientation and Laue group the orientations listed as equivalent are exactly the products of the group elements with the orientation, and reduction returns one of them, with real part not smaller than that of any other and not negative. Equivalent orientations reduce to the same angle, the input is unchanged and batch shapes and precision are kept.",
     ["inputs", "configurations"], "every unit quaternion of either sign, Laue group, batch shape and precision",
     UNTESTED + "orientations; boundaries and special rotations are where reductions go wrong.", ["s2_and_so3/laue_fz_ori.py"],
     [("reduction", "s2_and_so3/laue_fz_ori.py:ori_to_fz_laue"), ("orbit", "s2_and_so3/laue_fz_ori.py:ori_equiv_laue")],
     TRACE, "FzTrace.tla over the exact groups of LaueOps.tla judges recorded results in fixed point (1e-4), including special rotations and near-boundary ones; ties are accepted.")

prop("B04", "Fundamental zone membership is the least-angle condition",
     "An orientation with non-negative real part is reported inside the fundamental zone of a Laue group exactly when no symmetry equivalent has a larger real part in size, by the fast test and by the exhaustive test alike, for every batch shape.",
     ["inputs", "configurations"], "every orientation with non-negative real part, Laue group, batch shape and precision",
     UNTESTED + "orientations.", ["s2_and_so3/laue_fz_ori.py"],
     [("fast test", "s2_and_so3/laue_fz_ori.py:ori_in_fz_laue"), ("exhaustive test", "s2_and_so3/laue_fz_ori.py:ori_in_fz_laue_brute")],
     TRACE, "FzTrace.tla; orientations within 2e-3 of the boundary may be reported either way.")

prop("B05", "Disorientations are least-angle over both crystal symmetries",
     "The disorientation of two orientations of any two Laue groups is a rotation equivalent to the misorientation under the groups of both sides, with the least angle over all of them; the disorientation angle functions return that angle, finite, symmetric in the two crystals, and the reduced misorientation and the angle under one symmetry follow the same rule. Results keep the batch shape and pairs of different shapes are refused.",
     ["inputs", "configurations"], "every pair of orientations, both orders of the 121 pairs of Laue groups, batch shapes and precisions",
     UNTESTED + "pairs.", ["s2_and_so3/laue_fz_ori.py", "s2_and_so3/laue_fz_misori.py"],
     [("disorientation", "s2_and_so3/laue_fz_ori.py:disorientation, disori_angle_laue"), ("misorientation", "s2_and_so3/laue_fz_misori.py:misori_to_fz_laue, disorientation_naive")],
     TRACE, "FzTrace.tla, all 121 pairs, identical, nearly equivalent and unrelated orientations; angles judged by their cosines in fixed point 1e-4, and FzFine.tla judges pairs near the walls of the zone and angles down to 1e-6 radians in 1e-8.")

prop("B06", "Crystal directions reduce to one equivalent inside the sector",
     "For every direction and Laue group the listed equivalents are exactly the images under the group's rotations and their inversion, reduction returns one of them lying in the group's standard sector, and membership is reported exactly for directions of the sector. Batch shapes are kept.",
     ["inputs", "configurations"], "every unit vector including those on sector walls, Laue group, batch shape and precision",
     UNTESTED + "directions; the sector walls need special points.", ["s2_and_so3/laue_fz_s2.py"],
     [("reduction", "s2_and_so3/laue_fz_s2.py:s2_to_fz_laue"), ("membership", "s2_and_so3/laue_fz_s2.py:s2_in_fz_laue"), ("orbit", "s2_and_so3/laue_fz_s2.py:s2_equiv_laue")],
     TRACE, "FzTrace.tla with the sectors stated as half spaces; directions within tolerance of a wall may be either.")

prop("B07", "Samplings of zones and spheres are complete and near their target",
     "Sampling the fundamental zone of a Laue group (orientations) or its sector (directions) returns exactly the points of a regular equal-volume grid or spiral of the whole space that fall in the zone, each once (up to order when permuted), with a number of points near the target, and spirals and random samplers return the requested number of unit vectors or rotations spread evenly. The map between the cubic zone and its cube takes each point to one of the zone and back.",
     ["inputs", "configurations"], "every Laue group and target number, spirals of any length, random seeds, every point of the cube",
     UNTESTED + "samplings.", ["s2_and_so3/laue_fz_ori.py", "s2_and_so3/laue_fz_s2.py", "s2_and_so3/sampling.py"],
     [("orientation zones", "s2_and_so3/laue_fz_ori.py:sample_ori_fz_laue, sample_ori_fz_laue_angle"), ("sectors", "s2_and_so3/laue_fz_s2.py:sample_s2_fz_laue_fibonacci"), ("spirals and random", "s2_and_so3/sampling.py:s2_fibonacci, so3_fibonacci, so3_cu_rand"), ("cube", "s2_and_so3/laue_fz_ori.py:cube_to_rfz, rfz_to_cube")],
     TRACE, "SamplerTrace.tla walks each grid and judges which points are in the zone by the exact groups. Evenness of random samples by octant and moment counts with wide margins.")

prop("B08", "Quaternion algebra and interpolation",
     "Products, standardised and partial products, conjugates, triple products and rotation of vectors obey the Hamilton quaternion algebra exactly, for any broadcastable batch shapes; standardised quaternions have non-negative real part. Spherical interpolation moves along the shorter arc from the first to the second rotation at constant rate with unit results, angles are those of the shorter rotation, and the rotation between two directions takes the first to the second by the least angle.",
     ["histories", "inputs"], "every sequence of operations on quaternions, every pair of rotations or directions (equal, opposite and nearly so), any batch shape and precision",
     UNTESTED + "quaternions.", ["s2_and_so3/quaternions.py"],
     [("products", "s2_and_so3/quaternions.py:qu_prod, qu_prod_raw, qu_triple_prod_pos_real"), ("interpolation", "s2_and_so3/quaternions.py:qu_slerp"), ("directions", "s2_and_so3/quaternions.py:quaternion_rotate_sets_sphere")],
     BOTH, "QuatMachine.tla generates exact integer behaviours (invariant Homomorphic) that are replayed; QuatTrace.tla judges norms, interpolation, angles and rotations between directions in fixed point.")

prop("B09", "Orientation conversions keep the rotation",
     "Converting an orientation between quaternions, matrices, axis-angle, Rodrigues-Frank, homochoric, cubochoric, Bunge angles and the six-dimensional form, directly or through any chain of conversions, yields the same rotation in the target's definition and range (unit quaternions with non-negative real part, angles up to pi, Bunge angles in 0..2pi, 0..pi, 0..2pi). This holds for every rotation including the identity, 180 degrees and the degenerate Bunge angles, for every batch shape and both precisions, without changing the input.",
     ["inputs", "histories"], "every rotation, every chain of conversion functions, batch shape and precision",
     "tests/test_orientation.py checks round trips of random and a few special rotations; a round trip hides a pair of functions that agree on the wrong thing.",
     ["s2_and_so3/orientations.py"], [("conversions", "s2_and_so3/orientations.py:om2qu, om2ax, ho2ax, cu2ho, ho2cu, qu2bu, bu2qu, qu2ro")],
     BOTH, "ConversionWalk.tla generates every conversion and random chains of up to six; ConversionTrace.tla states each representation's definition and judges every value on the way (fixed point 1e-4; single precision with wider tolerance); values of rotations down to 1e-6 radians are magnified to one radian and judged by the same definitions.")

prop("B10", "Rigid motion exponential and logarithm",
     "The exponential of a tangent vector is the rigid motion with its rotation and screw translation, the same whether given as a 4x4 matrix, a quaternion with translation or a rotation with translation, and motions along one screw compose by adding their parameters. The logarithm recovers the tangent vector for angles below 180 degrees, for all angles down to zero, batch shapes (at least one batch dimension) and precisions.",
     ["inputs", "histories"], "every tangent vector, every sequence of steps along a screw, batch shape and precision",
     "tests/test_lie_algebra_se3.py checks a round trip of random vectors; a consistent error in both directions passes it, and small angles hardly occur.",
     ["lie_algebra/se3.py"], [("exponential", "lie_algebra/se3.py:w_exp_vmat, se3_exp_map_om, se3_exp_map_quat, se3_exp_map_split"), ("logarithm", "lie_algebra/se3.py:se3_log_map_om, se3_log_map_split, se3_log_map_quat")],
     BOTH, "Se3Walk.tla checks the closed form against the group law (invariant StepsAddUp) and emits walks; Se3Trace.tla judges recorded exponentials, logarithms and the second and third order of small motions. Logarithms within 0.14 rad of 180 degrees are not judged.")

prop("B12", "Wigner d tables in logspace",
     "For every angle from 0 to 180 degrees, degree bound and precision, the table of Wigner d values holds for each degree l and orders l>=m>=n>=0, in lexicographic order, the entries of the reduced rotation matrix: each column completed by the symmetries is the unit eigenvector of the rotated angular momentum with the documented sign. Table indices and coordinates are inverse to each other for every degree in the supported range, and the readers for 90 degrees return the entry for orders of either sign, transposed when the orders are swapped in meaning.",
     ["inputs", "configurations"], "every angle in 0..pi, degree bound up to 1500 (tables judged to 350, indices to 1600), single and double precision, orders of either sign",
     "tests/test_wigner_d.py checks one entry of one table.", ["harmonics/wigner_d_logspace.py"],
     [("tables", "harmonics/wigner_d_logspace.py:wigner_d_lt_half_pi, wigner_d_eq_half_pi, wigner_d_gt_half_pi"), ("order", "harmonics/wigner_d_logspace.py:index_from_coords, coords_from_index"), ("readers", "harmonics/wigner_d_logspace.py:read_lmn_wigner_d_half_pi_table, read_mn_wigner_d_half_pi_table")],
     BOTH, "WignerIndex.tla walks the table order (invariant Counted) and is replayed; WignerAngles.tla generates angles with rational cosine and sine, WignerTrace.tla judges the recorded columns by the eigenvector equation in fixed point 1e-8.")

prop("B13", "Wigner d tables by extended exponents",
     "For every angle from 0 to 180 degrees and degree bound, including degrees whose intermediate values leave the range of doubles, the table of Wigner d values holds the entries of the reduced rotation matrix in lexicographic order of l>=m>=n>=0, and the reader returns any pair of non-negative orders, transposed when the orders are swapped in meaning. Normalising an extended number keeps its value and sums of extended numbers are exact to rounding.",
     ["inputs", "configurations"], "every angle in 0..pi, degree bound, pairs of extended numbers",
     UNTESTED + "the extended-exponent tables.", ["harmonics/wigner_d_xnum.py"],
     [("tables", "harmonics/wigner_d_xnum.py:wigner_d_xnum"), ("numbers", "harmonics/wigner_d_xnum.py:xnum_norm, xnum_sum"), ("reader", "harmonics/wigner_d_xnum.py:retrieve_wigner_d")],
     BOTH, "WignerAngles.tla, WignerIndex.tla and WignerTrace.tla (eigenvector equation in fixed point 1e-8, extended sums of powers of two); degrees to 330 (600 thorough), finiteness at 1026.")

prop("B14", "Spherical harmonic transforms",
     "For every bandlimit and both precisions, the inverse transform of coefficients is the sum of orthonormal spherical harmonics on the equiangular grid, the forward transform is the quadrature sum against the conjugate harmonics, and the forward transform of a bandlimited function returns its coefficients. The real transform is the restriction of the complex one to non-negative orders, batches are transformed independently, inputs are unchanged, and the precomputed weights do not depend on the chunks they are computed in.",
     ["inputs", "configurations"], "every bandlimit (judged to 65), coefficients, signals, batch sizes, chunk sizes and precisions",
     "tests/test_SHT.py checks that transforms are mutually inverse for bandlimits 3 to 5; any invertible basis passes it.",
     ["harmonics/sht.py", "harmonics/wigner_d_logspace.py"],
     [("complex", "harmonics/sht.py:CSHT, DLT"), ("real", "harmonics/sht.py:RSHT, RDLT"), ("weights", "harmonics/wigner_d_logspace.py:csht_weights_half_pi, rsht_weights_half_pi"), ("grid", "harmonics/sht.py:grid_DriscollHealy, theta_phi_to_xyz")],
     TRACE, "SphereTrace.tla characterises the harmonics as eigenfunctions with norm and sign, the quadrature by Driscoll and Healy's weights, in fixed point 1e-8.")

prop("B15", "Correlation of spherical functions over rotations",
     "The correlation volume of two bandlimited functions on the sphere holds, at each Euler angle triple of its grid, the sum over degrees and orders of coefficient times conjugate coefficient times the rotation matrix entry, for real functions as its value and for complex ones as its magnitude. The fast routine agrees with the plain one, single batches broadcast, other mismatched batches are refused, and inputs are unchanged.",
     ["inputs", "configurations"], "every pair of coefficient sets, bandlimit (values to 3, agreement and shifts to 16), batch sizes and precisions",
     UNTESTED + "the correlation routines.", ["harmonics/sht_cc.py"],
     [("real", "harmonics/sht_cc.py:rs2cc_, rs2cc_fast_"), ("complex", "harmonics/sht_cc.py:cs2cc_")],
     TRACE, "SphereTrace.tla computes the sum with small-d matrices from its own factorial formula (fixed point 1e-4).")

prop("C01", "Space group numbers give exactly the operations of the space group",
     "For every space group and setting, the operators computed are exactly the symmetry operations of that space group of the International Tables (second origin where there are two, hexagonal axes for rhombohedral lattices), each once, with translations reduced to the cell and with the homogeneous last row.",
     ["configurations"], "all 230 space groups in all 254 settings",
     "No test builds a space group.", ["crystallography/groups.py"],
     [("generators", "crystallography/groups.py:read_sg_gen_string"), ("closure", "crystallography/groups.py:sg_operators")],
     REPLAY, "SpaceGroupWalk.tla generates each group from its Hall symbol (an independent source), one round of products per step, with invariants Factors, Centring, OrbitStabilizer (and IsGroup in thorough); every group emitted is compared as a set. Exhaustive.")

prop("C02", "Atom sites of a cell are the orbits of the given sites",
     "The atom positions of a unit cell are, for each given site, exactly the sites equivalent to it under the space group, each once and inside the cell (sites within 1e-4 coincide, positions are periodic, rounded special positions count as special), and multiplicities count them. Density is the mass of all atoms with their occupancies over the volume; the average atomic number and weight are averages over all atoms.",
     ["inputs", "configurations"], "every setting, any sites (special, on lines, general, outside the cell, rounded), elements, occupancies, cells and units",
     "No test builds a unit cell.", ["crystallography/unit_cell.py"],
     [("orbits", "crystallography/unit_cell.py:Cell.__init__"), ("duplicates", "crystallography/unit_cell.py:unique_rows"), ("density", "crystallography/unit_cell.py:Cell.density")],
     BOTH, "SpaceGroupWalk.tla emits the orbits of random sites in 240ths of the edges for all 254 settings; densities and averages judged by CellTrace.tla with its own table of atomic weights (to 0.3 %). Averages are judged for full occupancies only, as partial ones can be averaged in more than one way; elements up to 96.")

prop("C03", "Cells are classified by their space group and centring",
     "A unit cell has the crystal class, Laue group and crystal system of its space group, and calls a reflection allowed exactly when the lattice centring does (all lattice translations are whole numbers of its waves), for reflections in any batch shape. Space group numbers or settings that do not exist, unknown units and cells without volume are refused with a ValueError.",
     ["configurations", "inputs"], "all 254 settings, all small and random large reflections",
     "No test builds a unit cell.", ["crystallography/unit_cell.py", "crystallography/groups.py"],
     [("classification", "crystallography/unit_cell.py:Cell.__init__"), ("centring", "crystallography/unit_cell.py:Cell.is_g_allowed")],
     REPLAY, "Class and Laue group follow in SpaceGroups.tla from the numbers of rotation parts of each kind of the generated group, the allowed reflections from its translations. Exhaustive over settings; reflections up to index 2 (thorough: 4) and 50 random ones up to 15.")

prop("C04", "Reflection lists hold every allowed reflection within the resolution, once",
     "The reflection list of a cell holds exactly the reflections other than 000 whose plane spacing exceeds the given limit and, if asked, that the centring allows, each once, for any cell however oblique. The difference list holds every difference of two listed reflections except 000, each once, and only reflections that the centring allows.",
     ["inputs", "configurations"], "every space group, cell metric, resolution, with and without the centring filter",
     "No test lists reflections.", ["crystallography/unit_cell.py"],
     [("lists", "crystallography/unit_cell.py:Cell.get_reflections"), ("index limits", "crystallography/unit_cell.py:Cell.get_hkl_limits")],
     TRACE, "CellTrace.tla enumerates the index box of each recorded list (from the cell edges, which bound the indices of any cell) against the reciprocal metric, which C05 judges; reflections within rounding of the limit are accepted either way. Indices up to 10.")

prop("C05", "Direct, reciprocal and Cartesian frames of a cell agree",
     "The metric tensors, structure matrices and volume of a cell are those of its edges and angles in any units (first edge along x, second in the x-y plane, reciprocal matrices inverse to the direct ones), in double precision and after conversion to single. Changes of space and of frame, dot and cross products, lengths, normalisation and angles agree between the three spaces for any vectors in any batch shape, the zero vector has no angle and normalises to zero, and converting a rhombohedral cell to hexagonal axes gives the same crystal.",
     ["inputs", "configurations"], "any cell of any crystal system, any vectors, spaces, units and precisions",
     "No test builds a unit cell.", ["crystallography/unit_cell.py"],
     [("matrices", "crystallography/unit_cell.py:Cell.__init__"), ("changes of space", "crystallography/unit_cell.py:Cell.transform_space, transform_coordinates"), ("products", "crystallography/unit_cell.py:Cell.calc_dot, calc_cross, calc_angle, norm_vec"), ("axes", "crystallography/unit_cell.py:Cell.convert_from_R_to_H")],
     TRACE, "CellTrace.tla judges the matrices in 1e-8 fixed point from edges in half angstroms and cosines in tenths, and all products through Cartesian components in 1e-4. Edges 0.4 to 1 nm, cosines up to 0.4, vector components up to 3.")

prop("C06", "Sampled directions are a grid over one asymmetric unit of the sphere",
     "The incident directions generated for a cell are points of the equal-area grid (square, or hexagonal for trigonal and hexagonal cells) of the requested half width, each once, with their grid indices, as unit vectors. Every direction of the sphere is equivalent under the crystal class to a sampled sector, of the size of an asymmetric unit (two for class 23), and numbered schemes give their sector. Schemes that do not exist or are not supported are refused.",
     ["configurations"], "all 230 space groups, all schemes, half widths 1 to 25",
     "No test samples incident directions.", ["crystallography/kvectors.py"],
     [("scheme choice", "crystallography/kvectors.py:kvectors_grid"), ("mapping", "crystallography/kvectors.py:hexagon_to_hemisphere")],
     TRACE, "KVectorTrace.tla computes the grid, the equal-area maps and the operations of each crystal class on grid points in integers; coverage and area of the sampled sector are decided on the full grid of the recorded half width.")

prop("C07", "Diffraction coefficients follow from sites, factors and voltage",
     "Site matrices are Z squared, occupancy and Debye-Waller weighted structure sums of beam differences; potential coefficients are the structure sums of the complex scattering factors over the cell volume; wavelengths are relativistic and refracted by the mean inner potential; scattering matrix entries are wavelength times coefficient (or turned by the elastic phase), with mean absorption from the 000 coefficient. Excitation errors put the tip on the Ewald sphere along the incident direction. All of this holds for any cell, voltage list, precision and option, and unknown scattering factors are refused.",
     ["inputs", "configurations"], "every cell of 34 space groups (all centrings and systems), sites, occupancies, Debye-Waller factors, resolutions, voltages and options",
     "No test computes diffraction coefficients.", ["crystallography/diffraction.py", "crystallography/ebsd_master.py"],
     [("site matrix", "crystallography/diffraction.py:calc_sgh"), ("potential", "crystallography/diffraction.py:calc_helper_bloch_formalism"), ("scattering matrix", "crystallography/diffraction.py:calc_helper_scatter_matrix"), ("excitation error", "crystallography/diffraction.py:calc_sg")],
     TRACE, "DiffractionTrace.tla computes the sums in 1e-8 fixed point from site positions in 240ths, judging entries for random pairs of beams; the scattering factors of single atoms are inputs here (C09 judges them).")

prop("C08", "Master patterns are dynamical intensities of each site along each direction",
     "For each voltage, atom site and sampled direction the master pattern is the intensity of the electron wave propagated slice by slice through the crystal (potential coefficients, excitation errors, mean absorption), summed over depths with the share of electrons of each depth and voltage, up to the depth where 95 % of the electrons of that voltage are reached (at most 100 slices). It does not depend on chunk size or on the choice of origin, holds for any number of voltages, either precision and all options, and leaves the weights unchanged.",
     ["inputs", "histories", "configurations"], "every cell, direction, voltage list, depth step, depth distribution, chunk size and option, up to 15 beams",
     "No test computes a master pattern.", ["crystallography/ebsd_master.py"],
     [("propagation", "crystallography/ebsd_master.py:ebsd_master_pattern"), ("excitation errors", "crystallography/ebsd_master.py:calc_sg_batched")],
     TRACE, "BeamTrace.tla is a state machine of the beam amplitudes: one step per depth slice (Taylor series of the slice operator in 1e-8 fixed point), accumulating the products that the site matrices weigh; invariants: no electrons are created, intensities agree to 4e-4.")

prop("C09", "Atomic scattering factors follow the published parametrisations",
     "The elastic factors are the Weickenmeier-Kohl or Lobato-Van Dyck sums of the published coefficients times the Debye-Waller and relativistic factors (neither in the tabulated convention, which reproduces the International Tables), for every element. Absorption is the hydrogenic core loss plus the thermal diffuse integral: the three implementations agree, contributions add up and vanish when disabled, and vary continuously to zero scattering vector and with voltage as gamma squared over the wave number. Exponential integrals, wavelengths and Simpson's rule are exact to their precision, and unknown options are refused.",
     ["inputs", "configurations"], "elements 1 to 98, scattering vectors to 8 per angstrom (absorption to 4), displacements to 0.13 angstrom, 2 to 400 kV, scalars and vectors, both precisions, all options",
     "Only a script compares some values with tables; the tests compute no scattering factor.", ["crystallography/scattering_factors"],
     [("Weickenmeier-Kohl", "crystallography/scattering_factors/scattering_factors_WK.py:scatter_factor_WK"), ("hybrid", "crystallography/scattering_factors/scattering_factors_Hybrid.py:scatter_factor_hybrid"), ("Lobato-Van Dyck", "crystallography/scattering_factors/scattering_factors_LVD_TCB.py:scatter_factor_LVD"), ("exponential integrals", "crystallography/scattering_factors/scattering_factors_WK.py:expi, exp1, RIH2_torch")],
     TRACE, "ScatterTables.tla holds the coefficients and the International Tables values; ScatterTrace.tla evaluates sums, core losses, exponential integrals and wavelengths in 1e-8 fixed point. Thermal absorption is judged by agreement of the analytical (2e-4) and numerical (2.5 percent) implementations, scaling and continuity, not by a table.")

prop("A10", "Streaming covariance equals the covariance of all samples seen so far",
     "However a stream of samples is cut into batches (down to single samples) and in any order, after every batch the covariance (or correlation) matrix reported is the one of all samples fed so far, in the requested type, and its eigenvectors are orthonormal, in ascending order of variance. Reading it changes nothing and the samples are left as they were.",
     ["histories", "inputs", "configurations"], "every cutting of a stream into batches, any samples, constant offset, precision and covariance or correlation",
     "A test feeds one or two cuttings of a stream; the guarantee is over all of them and after every batch.", ["utils/pca_covmat.py"],
     [("update", "utils/pca_covmat.py:OnlineCovMatrix.forward"), ("report", "utils/pca_covmat.py:OnlineCovMatrix.get_covmat, get_eigenvectors")],
     BOTH, "StreamSchedule.tla enumerates every cutting and rotation of a stream of six samples for replay; PcaStream.tla keeps the exact integer sums of recorded streams (up to 12 samples of 5 features) and judges every report. In single precision the tolerance grows in proportion to the offset (up to 12000), as the rounding of the means does, not with its square.")

prop("A11", "Online principal components follow the Oja and Krasulina updates",
     "After every batch the Oja components are the orthonormalisation of the previous ones plus the learning rate times the batch applied to them (Oja++ draws its next column anew), and with orthogonal data they converge to the directions of largest variance in order, whatever the batches. Krasulina components move by the weighted residuals of the batch, with dual components kept in step. Projections and reconstructions use the current components, in shape and type.",
     ["histories", "inputs", "configurations"], "any samples, batches, numbers of features and components, rates and precisions",
     "No test covers online components; the guarantee is about every step of a history.", ["utils/pca_online.py"],
     [("Oja", "utils/pca_online.py:OjaPCA.forward"), ("Krasulina", "utils/pca_online.py:KrasulinaPCA.forward")],
     BOTH, "PcaStream.tla: one transition per batch, the recorded components of the previous state determine those of the next in 1e-8 fixed point. Convergence of Krasulina's method is not judged, of Oja's only for orthogonal samples.")

prop("A12", "Grid refinement keeps the best of a shrinking local grid, per pattern",
     "In every round each pattern is compared with simulations at its current orientation turned by each point of the local cubochoric grid (full, biaxial or uniaxial, of the given half edge); the best becomes its next orientation and its own grid shrinks exactly when the centre was best. After all rounds every pattern holds the orientation found for it, reduced to the fundamental zone of its phase, and the score of every round is returned. Batches, other patterns, phases nobody was assigned to and the precision of matching do not change the outcome.",
     ["histories", "inputs", "configurations"], "any scan, phases, grid shape and size, shrink factor, rounds, batch size, binning and match precision",
     "No test runs refinement; each run is a history of decisions per pattern.", ["ebsd/refining.py", "ebsd/experiment_pats.py"],
     [("search", "ebsd/refining.py:orientation_grid_refinement"), ("grid", "ebsd/refining.py:get_local_orientation_grid")],
     TRACE, "RefineTrace.tla: state is the set of orientations (rotation matrices in 1e-8) and steps each pattern may be at; lookups recorded by a probe master pattern drive it. Steps under 0.2 degree, near the resolution of single precision, are not told apart; average_pattern_center=False is not covered (it is not implemented for scan coordinates).")

prop("A13", "Gradient refinement keeps the best orientation it scored, per pattern",
     "In every round each pattern is simulated along its detector rays turned by its current orientation, a small first step does not lower the correlation, and after all rounds a pattern holds the best orientation scored for it, reduced to the fundamental zone of its phase, or the one it started with if nothing beat it. Batches, other patterns and phases nobody was assigned to do not change the outcome.",
     ["histories", "inputs", "configurations"], "any scan, phases, rounds, learning rate, batch size, binning and match precision",
     "No test runs refinement; each run is a history of walks.", ["ebsd/refining.py"],
     [("walk", "ebsd/refining.py:orientation_grad_refinement")],
     TRACE, "RefineTrace.tla collects every scored orientation with its correlation in fixed point; the final one must be among the best. Walks start well apart so that rows are told apart; 4x4 patterns; smooth master patterns for the first-step clause.")

prop("D01", "CLAHE equalises each tile under its clip limit and blends tile tables",
     "Every image of a batch is equalised alone: counts per tile (mirrored at the lower and right edge), clipped at the limit with the excess handed out evenly and in full, cumulated, and interpolated between grey levels and tile centres. Values in [0, 1] give values in [0, 1], and the images are left as they were.",
     ["inputs", "configurations"], "images of any size, content and batch, any number of tiles, bins and clip limit",
     "No test runs CLAHE.", ["preprocessing/clahe.py"],
     [("equalisation", "preprocessing/clahe.py:clahe_grayscale")],
     TRACE, "ClaheTrace.tla computes counts, clipping, redistribution and tables in integers and interpolates in 1e-8. Grey values are 64ths.")

prop("D03", "Radial masks hold exactly the pixels inside the circle",
     "A radial mask is true exactly for the pixels whose distance to the centre, given as a fraction of the way from the first to the last pixel, is below the radius, which defaults to half the shorter side.",
     ["inputs", "configurations"], "any shape, radius and centre",
     "No test builds a mask.", ["preprocessing/radial_mask.py"],
     [("mask", "preprocessing/radial_mask.py:get_radial_mask")],
     TRACE, "ImageTrace.tla compares every pixel exactly, with centres and radii in sixteenths; all shapes below 9 (thorough: 20) and random ones.")

prop("D04", "Blurring and downsampling are Gaussian means on the coarser grid",
     "A blurred pixel is the normalised Gaussian mean of its surroundings up to the cutoff, mirrored at (or zero beyond) the edges, for images of any size, and keeps the size. Downsampling blurs with a third of the factor and interpolates (nearest, bilinear, bicubic, aligned or not) on a grid with the size divided by the factor, rounded down.",
     ["inputs", "configurations"], "images of any size and batch, any width, cutoff, factor and mode",
     "No test blurs or downsamples.", ["preprocessing/resampling.py"],
     [("blur", "preprocessing/resampling.py:GaussianBlur2d.forward"), ("downsampling", "preprocessing/resampling.py:BlurAndDownsample.forward")],
     TRACE, "ImageTrace.tla evaluates kernels and interpolation in 1e-8 fixed point on images up to 18 pixels; widths at which the kernel grows by a pixel are left out.")

prop("D07", "Integers are factorised completely into primes",
     "The factorisation of a number is the ordered list of its primes, also for Carmichael numbers, prime powers and products of large primes, whatever the random curves. The nearly square rectangle multiplies to the number (also for zero) and is at least as square as handing the primes, largest first, to the shorter side.",
     ["inputs"], "every number to 2500 (thorough 20000), Carmichael numbers, powers, random numbers of up to 31 bits and products of known primes beyond",
     "The tests factor no number.", ["utils/factorize.py"],
     [("factors", "utils/factorize.py:FactorECM"), ("rectangle", "utils/factorize.py:nearly_square_factors")],
     TRACE, "FactorTrace.tla proves each factor prime by trial division and runs the greedy rectangle as a machine.")

prop("D11", "The progress bar hands out every item and reports the items done",
     "Iterating a progress bar hands out every item once and in order; each time the next one is asked for, a frame is written and flushed to the chosen destination only, showing the items done, their share and a bar of the given size, after the padded prefix, and the line ends after the last item. The frame also tells the time elapsed since the first item was asked for, the time left at that pace, both with minutes once there are any, and the pace.",
     ["histories", "inputs"], "any collection with a length, sizes, prefixes, destinations, stopping early",
     "No test prints a bar.", ["utils/progressbar.py"],
     [("bar", "utils/progressbar.py:progressbar")],
     TRACE, "ProgressTrace.tla is the state machine of items and frames; times are judged with a clock replaced by one that moves only while an item is worked on, from tenths of a second to hours.")

prop("D05", "Binned mutual information is that of the joint histogram",
     "The mutual information of two images is the sum of the entropies of their binned values minus the entropy of the pairs, in nats or bits, after rescaling to the range if wished (a constant image lies in the first bin) and leaving out the lowest bins if wished. Normalised, it is divided by the named mean (arithmetic, smallest, largest, geometric, logarithmic) of the two entropies or by the joint one. Batches are matched one to one, a single image with all; the top of the range belongs to the last bin.",
     ["inputs", "configurations"], "images of any length, batch, number of bins, unit, normalisation",
     UNTESTED + "images.", ["utils/mutual_information.py"],
     [("rescaled", "utils/mutual_information.py:mutual_information"), ("normalised", "utils/mutual_information.py:binned_nmi"), ("batches", "utils/mutual_information.py:batch_binned_nmi")],
     TRACE, "MutualTrace.tla counts bins and pairs and evaluates logarithms in 1e-8, for up to 60 pixels; values inside bins or on the ends of the range; logarithmic means of entropies that differ by 4e-6 to 2e-2 are judged through equal-entropy candidates only.")

prop("D06", "Cross mutual information maps hold every cyclic shift",
     "The cross mutual information map of a destination and a source image holds, relative to its centre, the (normalised) mutual information of the destination with the source rolled by every number of rows and columns, for every pair of images, any numbers of bins and any chunk size. Pixels outside of a given foreground do not count, and constant marginals are those of the whole foreground for every shift. Images of different sizes and unknown normalisations are refused.",
     ["inputs", "configurations"], "images of any size and batch, numbers of bins, chunk sizes, normalisations",
     UNTESTED + "maps.", ["utils/mutual_information.py"],
     [("map", "utils/mutual_information.py:cmif")],
     TRACE, "MutualTrace.tla counts the pairs of bins at every shift of images up to 6x6; indicator images and constant marginals over 8 bins are not covered.")

prop("D08", "Detector points are placed in the sample frame and found again",
     "A detector point lies, in the sample frame, where the pattern center, the three tilts and the chosen parts of the rigid motion (applied first) put it, less the scan position; the points of a binned detector are the mean centers of their pixels, and other binnings are refused. A ray from a scan position meets the detector at the point that lies in its direction. Only the chosen parts of the motion are applied and optimised, after any sequence of choices.",
     ["inputs", "configurations", "histories"], "any detector, binning, tilts, pattern center, motion, points, scan positions, choices",
     UNTESTED + "points.", ["ebsd/geometry.py", "ebsd/fitting.py"],
     [("to the sample", "ebsd/geometry.py:EBSDGeometry.project2sample"), ("to the detector", "ebsd/geometry.py:EBSDGeometry.backproject2detector"), ("binned pixels", "ebsd/geometry.py:EBSDGeometry.get_coords_sample_frame"), ("chosen parts", "ebsd/geometry.py:EBSDGeometry.set_optimizable_se3_params")],
     TRACE, "DetectorTrace.tla composes frames and series of the motion in 1e-8 of the detector height and folds the sequence of choices; motions up to 0.87 rad.")

prop("D09", "Bruker geometries become rigid motions and come back",
     "The motion of a Bruker pattern center and tilts has the axes of the tilted detector as its columns and puts the first pixel where the pattern center, measured from its outer edge in detector widths and heights, lies at the origin at the given distance. The pattern center and both tilts, with their signs, are recovered from it.",
     ["inputs"], "any detector, batch of pattern centers, tilts in the full circle",
     UNTESTED + "geometries.", ["ebsd/geometry.py", "ebsd/fitting.py"],
     [("motion", "ebsd/geometry.py:bruker_geometry_to_SE3"), ("back", "ebsd/geometry.py:bruker_geometry_from_SE3")],
     TRACE, "DetectorTrace.tla builds the axes from the two tilts in 1e-8 fixed point.")

prop("D02", "Non-local averaging weighs the patterns around by likeness",
     "Every pattern becomes the mean of the patterns of the scan at most the radius away in rows and columns, weighted by the negative exponential of their squared difference in excess of the noise, in its standard deviations, where the noise of a pattern is taken from its closest adjacent pattern. The sharpness is common to the scan and such that patterns keep, on average over adjacent patterns only, the wished share of themselves, where it can be met; a bias adds to their own logit. No scan, with identical patterns or of any shape, gives undefined or outlying values.",
     ["inputs", "configurations"], "any scan, pattern size, radius, share and bias",
     UNTESTED + "scans.", ["preprocessing/nlpar.py"],
     [("averaging", "preprocessing/nlpar.py:nlpar")],
     TRACE, "NlparTrace.tla computes differences in integers and finds the sharpness by bisection in 1e8, for scans up to 4x4 on which Newton's method from 1 converges (patterns far from zero); on all others it checks that values lie between those around.")

prop("A09", "Reading a master pattern file weighs its energies with their electrons",
     "The master pattern read from a file is, per hemisphere (north left, south right), the sum over the atom sites of the patterns averaged over the energies, each with its share of all the electrons counted in the Monte Carlo run, and has the Laue group of the file's space group.",
     ["inputs"], "any file: sizes, energies (also one, also empty), sites, counts, all space groups",
     "No test reads a file without a download.", ["io/read_master_pattern.py", "ebsd/master_pattern.py"],
     [("reading", "io/read_master_pattern.py:read_master_pattern")],
     TRACE, "MasterFile.tla sums in integers; files of up to 6 energies, 3 sites and 5x5 pixels are written and read.")

prop("A14", "The pattern center search returns the best of its whole grid",
     "The pattern center search returns, of all depths and all whole (binned) pixel shifts within its limits, the pattern center at which the mean over the patterns of their best inner product with the simulated dictionary is largest, and for every pattern the dictionary orientation that is best there. Batches of the dictionary and padding do not matter, and the patterns are left as they were.",
     ["inputs", "configurations"], "any detector, binning, limits, depths, tilts, Laue group, dictionary batch and patterns",
     UNTESTED + "searches.", ["ebsd/fitting.py", "ebsd/master_pattern.py"],
     [("search", "ebsd/fitting.py:spatial_fft_pc_fitter"), ("padding", "ebsd/fitting.py:get_3D_pixel_coords_with_periphery"), ("projection", "ebsd/fitting.py:generate_dictionary_coords")],
     TRACE, "FitRun.tla walks depths and batches over scores computed independently (float64) without Fourier transforms, checks that the running table is exhaustive and judges the outcome. Inner products only (not mutual information); dictionaries of up to 300.")

prop("D10", "Simulated electrons lose energy, turn and leave as the model says",
     "The Monte Carlo histogram of backscattered electrons has in every class of energy, escape depth and direction the share of electrons that the model (screened Rutherford angles, exponential path lengths of the energy's mean free path, continuous energy loss, a limited number of events) sends there. Every electron that leaves within the ranges is counted once, in the bin of its energy, depth and direction on the square.",
     ["inputs", "histories"], "any material, beam energy, tilt, number of events, bins and bin sizes",
     "No test runs the simulation, and a single run says nothing about its distribution.", ["simulation/monte_carlo.py"],
     [("simulation", "simulation/monte_carlo.py:bse_sim_mc"), ("square", "simulation/monte_carlo.py:rosca_lambert")],
     TRACE, "ElectronTrace.tla flies electrons event by event on given variates and compares tallies with 400,000 simulated ones within five standard deviations (some 15% of a class in the quick check); single-event energy losses and angles are compared with their laws (about 1%), and histograms of one seed with finer or more bins exactly.")

prop("D12", "Directions in deformed crystals",
     "For every pattern and (binned) pixel, the direction used in the crystal is the inverse deformation gradient applied to the orientation's rotation of the direction of that pixel's center in the sample, under the parts of the motion that are chosen, as a unit vector. Without deformation the pattern is that of the detector's geometry.",
     ["inputs", "configurations"], "any detector, binning, motion, mask, orientations and deformation gradients",
     UNTESTED + "deformed crystals.", ["ebsd/project_hrebsd.py", "lie_algebra/se3.py"],
     [("directions", "ebsd/project_hrebsd.py:hrebsd_coords"), ("values", "ebsd/project_hrebsd.py:project_hrebsd")],
     TRACE, "DetectorTrace.tla composes detector, motion, rotation and gradient in 1e-8 fixed point; motions up to 0.87 rad or any detector tilts.")
