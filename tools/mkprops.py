"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['IMTreatment/' + f for f in files],
                               mechanism=[dict(name=n, where='IMTreatment/' + w) for n, w in mech],
                               observe_at=observe, hook_needed=False)))


GOLD = ("The existing tests compare one fixed field (and one fixed argument set) with stored results; ")

prop('C01', 'Operations that return a new object never touch their inputs',
     "An operation on a field, profile, point set or temporal series that is not asked to work in place returns its result and leaves every observable part (axes, values, mask, units, times, sub-fields) of the object and of its arguments exactly as it was. "
     "The returned object (including copies) shares no state with the inputs: modifying one afterwards, in place, never changes the other.",
     ['inputs', 'programs'], "all public non-in-place operations of ScalarField, VectorField, Profile, Points, OrientedPoints, temporal scalar/vector fields and temporal points, over generated objects (masked or not, any units), followed by any in-place change of either side",
     GOLD + "they hardly ever look at the input after the call, never mutate the result afterwards, and do not touch the temporal containers at all.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/points.py', 'core/orientedpoints.py', 'core/temporalfields.py', 'core/temporalscalarfields.py', 'core/temporalvectorfields.py', 'core/temporalpoints.py'],
     [('copy-then-modify in every non in-place method', 'core/field.py'), ('arithmetic operators', 'core/scalarfield.py')],
     'public method boundary (snapshot before / after, then mutate result)')

prop('C02', 'In-place and out-of-place variants of an operation agree',
     "For every operation that offers an in-place switch, running it in place on a copy leaves that copy in the same observable state (axes, values, mask, units, times, consistency) as the object returned by the out-of-place call on the original with the same arguments. ",
     ['inputs', 'configurations'], "all public operations with an in-place switch of fields, profiles, points, temporal fields and temporal points, over generated objects and arguments",
     "Tests exercise mostly one of the two code paths per operation, on one field.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/points.py', 'core/temporalfields.py', 'core/temporalpoints.py'],
     [('inplace branches', 'core/scalarfield.py'), ('inplace branches', 'core/temporalfields.py')],
     'public method boundary')

prop('C03', 'Objects stay internally consistent through any history of operations',
     "After any sequence of accepted operations a field's axes are strictly increasing with lengths matching its value and mask arrays, masked points are exactly those flagged by the mask (and read back as not-a-number), a profile's abscissa, ordinate and mask have equal length with abscissa increasing, a point set has as many values as points (or none), and a temporal series has as many strictly ordered times as sub-objects, all on the same axes and units. "
     "Giving a field values or a mask of another shape, a profile a mask or abscissa of another length, a point set another number of values, a series another number of times, an invalid unit, arrays of inconsistent shapes, or (to a series) a field on other axes or of another kind, is refused with an error that leaves the object unchanged.",
     ['histories', 'inputs'], "random sequences of public operations (2 to 12 steps) starting from generated objects",
     "Invariants over operation histories: unit tests apply a single operation to a fixed object and never check the invariants of temporal containers.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/points.py', 'core/temporalfields.py', 'core/temporalpoints.py'],
     [('setters', 'core/scalarfield.py'), ('import_from_arrays', 'core/vectorfield.py'), ('add_field / remove_fields / crop', 'core/temporalfields.py')],
     'after every public call of a random operation sequence')

prop('C04', 'Importing arrays keeps every sample at its own position',
     "Building a scalar or vector field from axes, values, mask and units keeps, at every position, exactly the given value and mask flag, whichever direction the axes run in and whether the mask is given explicitly, as a scalar or through not-a-number values; the input arrays are neither modified nor referenced afterwards. "
     "Axes, values or masks whose sizes do not agree are refused.",
     ['inputs'], "all grids from 2x2 to about 15x15 (uniform or not, increasing or decreasing axes), all mask patterns and forms, list or array inputs",
     GOLD + "only increasing axes with no explicit mask are covered.",
     ['core/scalarfield.py', 'core/vectorfield.py'],
     [('import_from_arrays', 'core/scalarfield.py'), ('import_from_arrays', 'core/vectorfield.py')],
     'import_from_arrays then get_value(ind=True) / values / mask')

prop('C05', 'Field arithmetic is pointwise, mask-propagating and unit-correct',
     "Sums, differences, products, quotients, powers, negation and absolute value of scalar and vector fields with numbers, quantities with units, fields on the same grid or (products, quotients, vector sums) arrays give at every point the value of that operation on the physical quantities (operands in different but compatible units are converted first), and the result is masked exactly where an operand is masked or a divisor is zero. "
     "The result's unit is the one dimensional analysis gives, and operands with incompatible dimensions or grids without common point are refused for sums and differences (grids sharing some points give the sum at those).",
     ['inputs'], "all operand pairs of generated fields, numbers, arrays and quantities with units; all masks",
     GOLD + "operands share one unit and one mask.",
     ['core/scalarfield.py', 'core/vectorfield.py'],
     [('__add__/__sub__/__mul__/__truediv__/__pow__', 'core/scalarfield.py'), ('__add__/__mul__/__truediv__/__pow__', 'core/vectorfield.py')],
     'operator results against an independent SI-valued reference model')

prop('C06', 'Changing units or scaling preserves the physical quantity',
     "Changing the unit of an axis, of the values or of time to a compatible unit leaves the physical coordinates and values (number times unit) of every sample unchanged, and changing back restores the numbers; an incompatible unit is refused. "
     "Scaling by numbers or quantities multiplies exactly the requested coordinates, values or times by that factor (in number and unit), keeping every sample attached to its scaled position even for negative factors (which also flip the component of vectors along the flipped axis).",
     ['inputs', 'configurations'], "all compatible unit pairs among length, time, velocity and dimensionless, all factors of either sign, on scalar/vector fields, profiles, points, temporal fields and temporal points",
     GOLD + "one unit pair per class; temporal containers are not covered.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/points.py', 'core/temporalfields.py', 'core/temporalpoints.py', 'utils/units.py'],
     [('change_unit', 'core/field.py'), ('scale', 'core/field.py'), ('make_unit', 'utils/units.py')],
     'object state in SI before and after')

prop('C07', 'Geometric transformations move samples without altering them',
     "Rotating by multiples of 90 degrees, moving the origin, cropping, extending and mirroring a scalar, vector or temporal field maps each sample to its transformed position with its value (vectors turned with the grid), mask and units intact; rotations compose and four quarter turns give back the original. "
     "A crop keeps exactly the samples inside the closed interval (or inclusive index range), extension adds only masked samples at the grid step, mirroring keeps the given side and adds on the other one the mirror images of its samples (times the coefficient, the component across the mirror flipped), and cropping the masked border removes exactly the fully masked outer rows and columns.",
     ['inputs', 'histories'], "all angles, intervals inside or overlapping the grid, extension counts and mirror positions on generated masked, uniform or non-uniform grids",
     GOLD + "a single angle / interval on a fixed grid, never on temporal series.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/temporalfields.py'],
     [('rotate/crop/extend/set_origin', 'core/field.py'), ('mirroring/crop_masked_border', 'core/scalarfield.py')],
     'set of (position, value, mask) triples before and after')

prop('C08', 'Value look-up and interpolation reproduce the sampled field',
     "Reading a scalar or vector field at a grid point returns that sample, between grid points returns the linear interpolation of the samples around it (exact along cell edges and for affine fields), and outside the grid is refused; the index and coordinate forms of a query agree. "
     "Index look-ups return the true bounding, nearest or fractional index of a coordinate, profiles extracted along an axis at a position equal the (interpolated) row or column, those extracted over an interval equal its mean over the grid lines in it (masked where one of them is), iteration and export to points list every unmasked sample once, and resampling on an even grid reproduces affine fields.",
     ['inputs'], "all positions in and around generated uniform and non-uniform grids, both directions, both query forms",
     GOLD + "a few positions on one grid.",
     ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py'],
     [('get_value/get_profile/get_interpolator', 'core/scalarfield.py'), ('get_indice_on_axe/get_points_around', 'core/field.py')],
     'query results against direct bilinear evaluation')

prop('C09', 'Filling, smoothing and resampling respect existing data',
     "Filling the masked points of a field or profile changes no unmasked value, leaves no masked point, uses the given constant for constant filling, the nearest valid sample for nearest filling, and reproduces a linear field exactly with linear filling inside the hull of the valid samples. "
     "Smoothing keeps constants (and each uniform average stays within the data range), and reducing the spatial resolution by a factor gives the averages of the corresponding blocks at the block centres with units kept.",
     ['inputs'], "all mask patterns (sparse, block, border), fill kinds, smoothing kinds and sizes, reduction factors",
     GOLD + "one mask pattern and one factor.",
     ['core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/temporalfields.py'],
     [('fill/smooth/reduce_spatial_resolution', 'core/scalarfield.py'), ('fill/smooth', 'core/vectorfield.py')],
     'values before and after against direct evaluation')

prop('C10', 'Reductions over a field ignore masked points and are exact',
     "Minimum, maximum, mean, median, norms, histograms, and line and surface integrals of a field use every unmasked sample once and no masked sample, and agree with direct evaluation (trapezoidal rule along lines, mean times area over surfaces; masked regions are refused), the integral unit being value unit times length or area. "
     "Vector magnitude and angle fields are the pointwise norm and direction, and local extrema and zone centres lie where the data put them.",
     ['inputs'], "all generated fields, masks, intervals and units",
     GOLD + "one field.",
     ['core/scalarfield.py', 'core/vectorfield.py'],
     [('min/max/mean/get_norm/get_histogram/integrate_over_*', 'core/scalarfield.py'), ('magnitude/theta', 'core/vectorfield.py')],
     'reduction results against numpy on the unmasked samples')

prop('C11', 'Profiles behave as sampled functions',
     "Arithmetic between profiles and numbers, quantities or profiles on the same abscissa is pointwise on physical quantities with masks united; crops keep exactly the samples in the interval (closed along x, open along y, half-open in indices); interpolation returns samples at sample points and linear interpolation between them; and intersections found by value have that value. "
     "Gradients and integrals are exact for linear data, extrema and means ignore masked points, and adding, removing or sorting points keeps all other (x, y, mask) triples.",
     ['inputs', 'histories'], "generated profiles (2 to 40 points, uneven abscissa, masks, units) and arguments",
     GOLD + "one fixed profile.",
     ['core/profile.py'],
     [('Profile', 'core/profile.py')],
     'profile state against a list-of-triples model')

prop('C12', 'Point sets keep each position attached to its value',
     "Adding, removing, sorting, cropping, cutting, reversing, merging, decomposing and converting points keeps each point's position together with its own value and units, and keeps or drops exactly the requested points; merged sets in different units represent the same physical positions and values. "
     "The same holds for oriented points and their orientations under sorting, cutting, reversing, cropping and removal, and for point sets attached to times.",
     ['inputs', 'histories'], "generated point sets (0 to 30 points, with or without values, any units) and operation sequences",
     "Only copying and displaying points are tested.",
     ['core/points.py', 'core/orientedpoints.py', 'core/temporalpoints.py'],
     [('Points', 'core/points.py'), ('OrientedPoints', 'core/orientedpoints.py'), ('TemporalPoints', 'core/temporalpoints.py')],
     'multiset of (x, y, v, orientation, time) in SI before and after')

prop('C13', 'A temporal series keeps every field attached to its time',
     "Adding fields in any order, removing, cropping in time or by index, and reducing or augmenting temporal resolution keep each field paired with its own time, sorted by time, and keep or drop exactly the requested instants; times given in another unit are converted. "
     "Spatial operations and arithmetic on a series give the same result as applying them to each field, keeping times, and time profiles, point-in-time look-ups and interpolated fields equal the per-field values (linear interpolation in time); two series at the same times add instant by instant, at other times merge.",
     ['inputs', 'histories'], "generated temporal scalar and vector series (1 to 8 fields, irregular times, per-field masks, units) and operation sequences",
     "No stable test covers temporal fields.",
     ['core/temporalfields.py', 'core/temporalscalarfields.py', 'core/temporalvectorfields.py', 'core/fields.py'],
     [('add_field/remove_fields/crop/get_time_profile', 'core/temporalfields.py')],
     'series state as a list of (time, field) pairs')

prop('C14', 'Ensemble statistics of a series equal direct evaluation',
     "Mean, minimum and maximum fields, fluctuations, turbulent kinetic energy, Reynolds stresses, and turbulence intensity of a series equal, at each point, direct evaluation over the instants at which that point is valid, in the right units, and are masked exactly where fewer valid instants than the required minimum exist. "
     "Fluctuations average to zero where always valid, and the mean of identical fields is that field.",
     ['inputs'], "generated series with per-instant masks and every required-minimum setting",
     "No stable test covers temporal fields.",
     ['core/temporalfields.py', 'core/temporalscalarfields.py', 'core/temporalvectorfields.py'],
     [('get_mean_field', 'core/temporalfields.py'), ('get_tke/get_reynolds_stress/get_turbulent_intensity', 'core/temporalvectorfields.py'), ('get_min_field/get_max_field', 'core/temporalscalarfields.py')],
     'result fields against per-point numpy evaluation')

prop('C15', 'Saving and reloading an object is lossless and failure-safe',
     "Exporting any object of the library to the native format and importing it back (compressed or not, with or without extension in the name) yields an equal object of the same type: same axes, values, masks, units, times and attached data. "
     "A failed import or export raises an error, leaves the interpreter's state as it was, and does not alter the in-memory object.",
     ['inputs', 'fault_sequences'], "all public container classes with generated content; I/O faults injected at open, write and read, and truncated or garbage files",
     "Tests round-trip one object per class and inject no fault.",
     ['file_operation/file_operation.py', 'utils/files.py'],
     [('export_to_file/import_from_file', 'file_operation/file_operation.py')],
     'object before export vs after import; process-wide state after faults')

prop('C16', 'Foreign file formats place every sample where the file says',
     "A field exported to text, MATLAB or image files and read back, a text table read with any row order, or a DaVis buffer read through its reader, gives every sample its own position, value and mask within the format's resolution; units given at import are attached to the right quantity. "
     "A series imported from a list of files keeps file order and the requested time step.",
     ['inputs'], "generated fields, all row orders and axis directions of text tables, missing rows, number of header lines and separators",
     "Tests import a few sample files.",
     ['file_operation/file_operation.py'],
     [('import_*_from_ascii/export_to_ascii/export_to_matlab/export_to_picture', 'file_operation/file_operation.py')],
     'write with an independent writer or the library, read with the library')

prop('C17', 'Derivatives are exact for linear fields and carry the right units',
     "Gradients, divergence, Jacobian eigen-properties, shear and related differential fields of a linear scalar, vector or profile field equal the analytic constants at every point with valid neighbours on any uniform grid with distinct steps in x and y, with unit value over length; reconstruction from gradients gives back the field up to a constant. "
     "They are linear in the field, unchanged when a constant is added, and follow the field when it is rotated by quarter turns.",
     ['inputs'], "all linear fields, grid steps and units; random fields for the symmetry relations",
     GOLD + "one field with unit steps.",
     ['field_treatment/field_treatment.py'],
     [('get_gradients/get_divergence/get_jacobian_eigenproperties/reconstruct_from_gradients', 'field_treatment/field_treatment.py')],
     'result fields against closed forms')

prop('C18', 'Streamlines follow the flow',
     "A streamline integrated from a point starts there, stays inside the field (to its last step), stops only at its border, in a masked zone, at rest or after the allowed steps, and follows the local direction of the velocity (downstream, or upstream when reversed): on linear flows it matches the exact solution within the integration tolerance, and track lines follow the perpendicular direction. "
     "One line is returned per starting point, carrying the field's units.",
     ['inputs'], "uniform, rotating, shearing and straining flows, all starting points and both directions",
     GOLD + "one vortex field.",
     ['field_treatment/field_treatment.py'],
     [('get_streamlines/get_streamlines_fast/get_tracklines', 'field_treatment/field_treatment.py')],
     'returned point sets against exact trajectories')

prop('C19', 'Vortex criteria give their defining values and are frame-consistent',
     "Vorticity, Q, Delta, lambda2, swirling strength, Stokes, shear and residual vorticity, gamma and kappa criteria and their companions take, on rigid rotation, pure shear, pure strain, uniform and arbitrary flows, the values their definitions give (right sign, scale and unit), at every point whose neighbourhood is valid. "
     "They do not depend on a uniform velocity offset when their definition does not, scale with the velocity by the defined power, and follow the field under quarter turns; masked input points never contribute values.",
     ['inputs'], "all linear flows, grid steps (including different steps in x and y), offsets and masks",
     "No stable test covers the criteria.",
     ['vortex_criterions/vortex_criterions.py'],
     [('get_* criteria', 'vortex_criterions/vortex_criterions.py')],
     'criterion fields against closed forms and an independent implementation')

prop('C20', 'Synthetic vortices and potential flows obey their defining laws',
     "Each synthetic vortex model reproduces its analytic velocity around its centre with the asked circulation or vorticity, radius and rotation sense, translating with its centre; a system of vortices is the sum of its members (with wall images when a wall or two perpendicular walls are set, giving zero normal velocity at the walls), and removing or adding a member changes the field by exactly that member. "
     "Potential-flow singularities superpose linearly, are divergence- and curl-free away from singularities, and a solved body has no normal flow through its surface.",
     ['inputs', 'histories'], "all models, centres, strengths, radii, senses, walls and bodies on generated grids; add/remove sequences",
     "No stable test covers these generators.",
     ['vortex_creation/vortex_creation.py', 'potential_flow/potential_flow.py'],
     [('vortex models / VortexSystem', 'vortex_creation/vortex_creation.py'), ('System', 'potential_flow/potential_flow.py')],
     'generated fields against closed forms')

prop('C21', 'Critical points of a flow are found at their place and type',
     "On flows with isolated, well-resolved critical points (vortices of either sense, nodes, saddles) the detection returns each of them once, within a grid cell or two of its true place, with the right type and rotation sense, and reports none in flows without any. "
     "Detection commutes with unit changes, translation of the origin and change of velocity scale; saddle orientations follow the true axes.",
     ['inputs'], "linear and multi-structure analytic flows with random centres, strengths, grid steps and all detection kinds",
     "Tests compare one synthetic field with stored results.",
     ['vortex_detection/vortex_detection.py'],
     [('get_critical_points/get_vortex_position', 'vortex_detection/vortex_detection.py')],
     'detected point sets against the planted structures')

prop('C22', 'Tracked trajectories link the same structure through time',
     "Over a series in which structures move by less than the linking distance per step and stay farther apart than it, the computed trajectories are exactly the planted tracks: each detected point belongs to one trajectory, in time order, with its position and time, and no trajectory jumps farther than the linking distance. "
     "Adding, cropping, scaling, changing units or origin, breaking, averaging, refining, simplifying and cleaning short trajectories act consistently on points and trajectories.",
     ['inputs', 'histories'], "generated tracks (births, deaths, several types), time units, linking distances and operation sequences",
     "Tests compare one synthetic series with stored results.",
     ['vortex_detection/vortex_detection.py'],
     [('CritPoints.compute_traj', 'vortex_detection/vortex_detection.py'), ('CritPoints.crop/scale/change_unit/clean_traj', 'vortex_detection/vortex_detection.py')],
     'trajectories against planted tracks')

prop('C23', 'Modal decomposition reconstructs the data it was given',
     "A proper orthogonal decomposition of a scalar or vector series yields orthonormal modes with uncorrelated temporal coefficients and energies that are non-negative, decreasing and equal to the fluctuation energy; reconstruction from all modes gives back the series and from the first modes the best approximation of that rank. "
     "Keeping, removing, cropping, smoothing or scaling modes acts on modes, coefficients and energies alike.",
     ['inputs'], "generated series of low rank plus noise, scalar and vector, masked, any units and time steps",
     "No stable test covers modal decomposition.",
     ['pod/pod.py'],
     [('modal_decomposition', 'pod/pod.py'), ('ModalFields.reconstruct', 'pod/pod.py')],
     'decomposition object against an independent SVD')

prop('C24', 'Boundary-layer quantities match their definitions',
     "Boundary-layer, displacement and momentum thicknesses and shape factor of a measured velocity profile equal their integral definitions, scale linearly with the wall distance and do not depend on the velocity scale; wall stresses and Clauser thickness follow theirs, in the right units and for fields swept in both directions. Analytical models (Blasius, Falkner-Skan from m = -0.085 to 1.1, Thwaites, wall and wake laws, confinement) satisfy their published relations and scalings, and a straight separation line is extrapolated to the wall. ",
     ['inputs'], "generated profiles and fields (both wall directions), model parameters over several decades",
     "No stable test covers boundary layers.",
     ['boundary_layer/boundary_layer.py'],
     [('get_*_thickness', 'boundary_layer/boundary_layer.py'), ('BlasiusBL/FalknerSkanBL/ThwaitesBL/WallLaw', 'boundary_layer/boundary_layer.py')],
     'returned values against quadrature and published constants')

prop('C25', 'Vortex size and circulation are those of the vortex',
     "The radius, circulation and properties measured around a resolved synthetic vortex agree with the planted ones within grid resolution, whatever the position, sense and units, and the time-evolution variants return per instant what the single-field functions return. ",
     ['inputs'], "synthetic vortices of random centre, radius, strength, sense and grid step",
     "No stable test covers vortex properties.",
     ['vortex_properties/vortex_properties.py'],
     [('get_vortex_radius/get_vortex_circulation/get_vortex_property', 'vortex_properties/vortex_properties.py')],
     'returned values against planted parameters')

prop('C26', 'Stacked spatial fields answer like the field covering each position',
     "A collection of spatially adjacent fields answers value, grid and profile queries at any covered position (borders included) with the value of the field covering it (the mean of several ones), refuses others, and holds the fields added in common units without changing the given ones. Arithmetic, scaling, rotation, smoothing and change of origin act on each member. ",
     ['inputs', 'histories'], "generated collections of adjacent or overlapping scalar and vector fields",
     "No stable test covers spatial field collections.",
     ['core/spatialfields.py', 'core/spatialscalarfields.py', 'core/spatialvectorfields.py', 'core/fields.py'],
     [('SpatialFields', 'core/spatialfields.py')],
     'query results against the member fields')

prop('C27', 'Units, caching and file helpers do what they say',
     "Unit strings are parsed to the quantity they denote whatever the order, powers, parentheses and spacing, and text that is no unit (function calls included) is refused without being run; a cached function returns what the uncached function returns for every argument set, over any life of its cache file, damaged or not. "
     "File sets select, list, remove from the list and delete exactly the files that match, and touch no other; progress counters report the true counts and times, and hiding compiled output restores it and keeps no file open.",
     ['inputs', 'histories'], "generated unit expressions, argument sets and scratch directory trees",
     "Only a handful of unit strings are exercised indirectly.",
     ['utils/units.py', 'utils/memoization.py', 'utils/files.py', 'utils/progresscounter.py', 'utils/codeinteraction.py'],
     [('make_unit', 'utils/units.py'), ('memoize', 'utils/memoization.py'), ('Files', 'utils/files.py')],
     'return values and scratch directory listing')

prop('C28', 'Quantities derived from point sets follow their definitions',
     "For any set of points (any units, order, repeated or aligned positions), the velocity along a trajectory, the kernel and count densities, smoothing, the evolution of a field at the points, the polynomial fit and the envelope equal a direct evaluation of their definitions, in the units announced, and leave the points as they were. ",
     ['inputs'], "generated clouds and trajectories with every option of the derived quantities",
     "Tests only copy and display point sets.",
     ['core/points.py'],
     [('Points.get_velocity/get_points_density/smooth/fit/get_envelope', 'core/points.py')],
     'returned values against a direct evaluation on the list of points')

prop('C29', 'Signal analysis recovers the signal it was given',
     "For any evenly sampled profile, the spectrum (every scaling, Welch averaging, detrending, interval, filled gaps), wavelet transform, probability density, distribution, auto-correlation, convolution, lag, extrema positions, fit and outlier removal equal a direct evaluation of their definitions, in the right units, and band, low and high-pass filters keep what is in the band and remove the rest. "
     "Spatial spectra and correlations of fields average those of their lines and instants; frequency, amplitude and phase maps and filtering of a series give at each point the planted signal; the background of a series is recovered and removed without touching what stands out of it. None of them changes its input. ",
     ['inputs'], "generated signals (sums of sines, noise, gaps, trends, steps, origins, units) alone, along lines and at points of series",
     "Tests compare one stored profile with stored results.",
     ['core/profile.py', 'core/scalarfield.py', 'core/temporalfields.py', 'core/temporalscalarfields.py', 'core/temporalvectorfields.py'],
     [('Profile.get_spectrum/get_wavelet_transform/get_pdf/get_auto_correlation/get_convolution/get_dephasage/spectral_filtering', 'core/profile.py'), ('ScalarField.get_spatial_spectrum', 'core/scalarfield.py'), ('TemporalFields.get_spectrum_map', 'core/temporalfields.py'), ('TemporalScalarFields.get_phase_map/get_background', 'core/temporalscalarfields.py')],
     'returned profiles and fields against explicit sums and planted parameters')

prop('C30', 'Equal objects hold the same data, and only they',
     "Comparing two fields, series, profiles or point sets never fails and is symmetric: an object equals its copy and any object rebuilt from the same data, and differs from anything in which one unmasked sample, mask bit, coordinate, instant, unit (of the same or another dimension), size or class differs. What lies under the mask does not count. ",
     ['inputs'], "generated objects and versions of them that differ in exactly one thing",
     "Tests use equality to compare results with stored ones but never check that it can fail.",
     ['core/scalarfield.py', 'core/vectorfield.py', 'core/temporalfields.py', 'core/profile.py', 'core/points.py'],
     [('ScalarField.__eq__', 'core/scalarfield.py'), ('VectorField.__eq__', 'core/vectorfield.py'), ('TemporalFields.__eq__', 'core/temporalfields.py'), ('Profile.__eq__', 'core/profile.py'), ('Points.__eq__', 'core/points.py')],
     'result of == and != against the planted difference')

prop('C31', 'Particles follow the flow and are stretched as it stretches',
     "The displacement of a particle over a positive or negative time is that of the motion along the (interpolated) steady flow within the asked error, whatever the scales of length and velocity, or the particle is reported to have left the field. The finite-time Lyapunov exponent of a linear flow is the logarithm of the largest stretching of its flow map over the duration, in inverse time (zero for uniform flows and rotations), on the grid asked for, masked next to particles that left; fields with masked points are refused or answered with numbers, never looped on.",
     ['inputs'], "generated linear and arbitrary steady flows at all scales, particles, durations and resolutions",
     "No test runs this module; the answers look plausible when the step of the grid or of the integration is wrong.",
     ['vortex_criterions/FTLE/ftle.py'],
     [('FTLE.get_pts_displacement', 'vortex_criterions/FTLE/ftle.py'), ('FTLE.get_displaced_point_field', 'vortex_criterions/FTLE/ftle.py'), ('FTLE.get_FTLE', 'vortex_criterions/FTLE/ftle.py')],
     'displacements and exponents against the matrix exponential and a fine integration')

prop('C32', 'Displays show the data of the object and leave it alone',
     "Drawing an object puts its data on the axes and never changes the object. An image of a scalar field or of a component (evenly spaced grid) shows every unmasked sample in its own cell, nothing where masked, over the range of the values; contours lie where the samples, linearly interpolated, take the level; arrows stand at the grid points with their components and are coloured by the magnitude; streamlines follow the flow; profiles (either way round, linear or logarithmic) pass through their unmasked samples and break at masked ones; point sets show the chosen coordinates coloured by the chosen one, or in the colour asked for; trajectories and critical points are drawn by type. Labels and colour bars name the units. Collections and panels of several instants show every member asked for, on a common range when asked. "
     "A window on a series, driven by any sequence of keys, buttons, slider moves and animation steps, stays within the series and shows exactly the instant of its index, alone, for any buffer of at least one frame; linked windows stay together; the cursor reads the sample nearest to it. ",
     ['inputs', 'histories'], "generated objects, display options and navigation histories, on an off-screen canvas",
     "Tests compare a few stored pictures of static plots and never drive a window.",
     ['plotlib/plotlib.py', 'core/scalarfield.py', 'core/vectorfield.py', 'core/profile.py', 'core/points.py', 'core/orientedpoints.py', 'core/spatialfields.py', 'core/temporalfields.py', 'core/temporalpoints.py', 'vortex_detection/vortex_detection.py'],
     [('Displayer', 'plotlib/plotlib.py'), ('ButtonManager', 'plotlib/plotlib.py'), ('ScalarField.display', 'core/scalarfield.py'), ('VectorField.display', 'core/vectorfield.py'), ('Profile.display', 'core/profile.py'), ('Points.display', 'core/points.py'), ('TemporalFields.display/display_multiple', 'core/temporalfields.py'), ('CritPoints.display/display_traj', 'vortex_detection/vortex_detection.py')],
     'artists left on the axes against the data of the object; index shown against a model of the window')

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        p['statement'] = p['statement'].strip()
        f.write(json.dumps(p) + '\n')
print(len(P))
