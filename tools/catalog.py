PROPS = []
NA = []


def P(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=['IMTreatment/' + f for f in files],
                     mechanism=[dict(name=n, where='IMTreatment/' + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


CORE = ['core/field.py', 'core/scalarfield.py', 'core/vectorfield.py']
TCORE = ['core/fields.py', 'core/temporalfields.py', 'core/temporalscalarfields.py',
         'core/temporalvectorfields.py']

P('C01', 'Imported samples stay on their own coordinates',
  'When a scalar or vector field is built from raw arrays, every sample is found back on the '
  'coordinates it was given for and with its mask, whatever the direction of the axes '
  '(increasing or decreasing), the layout of the coordinates (vectors or mesh grids) or the '
  'orientation of the arrays (x first or y first when the shape tells); the stored axes are '
  'increasing. Points whose value (or any component) is not a number are masked, no other '
  'point is. Components, magnitude, and iteration over a field give back exactly those '
  'samples: iteration yields each valid point once with its indices, coordinates and value.',
  'all axes, values, masks, axis directions and array layouts',
  'tests import one or two fixed arrays per class; direction, layout, mask and NaN pattern '
  'combine freely',
  CORE, [('import_from_arrays', 'core/scalarfield.py'), ('import_from_arrays', 'core/vectorfield.py'),
         ('axis setters', 'core/field.py')])

P('C02', 'Field arithmetic is pointwise, with masks united and units tracked',
  'Adding, subtracting, multiplying, dividing (or negating, taking the absolute value, a power '
  'of) fields on the same grid, or a field with a number, a physical quantity or an array, '
  'gives at each point the operation on the values of that point, expressed consistently with '
  'the units (values of the other operand are converted; units multiply and divide). A point is '
  'masked in the result if and only if it is masked in an operand (or is a division by zero '
  'between two scalar fields), and the operands are left unchanged. Adding fields with incompatible units of values or of axes is '
  'rejected.',
  'all values, masks and units of both operands, all operators',
  'tests compare a few sums and products on one field with identical masks and units',
  CORE, [('__add__, __mul__, __truediv__, ...', 'core/scalarfield.py'),
         ('__add__, __mul__, __truediv__, ...', 'core/vectorfield.py')])

P('C03', 'Adding partially overlapping fields keeps exactly the shared points',
  'When two fields whose grids only partly coincide are added or subtracted, the result lives '
  'exactly on the coordinates present in both, and at each of them holds the sum (difference) '
  'of the two samples of those coordinates, with units converted and masks united. Fields that share '
  'no coordinate along an axis are rejected, and operands are never modified.',
  'all pairs of grids, offsets, values and masks',
  'tests use a single pair of overlapping fields',
  CORE[1:], [('__add__', 'core/scalarfield.py'), ('__add__', 'core/vectorfield.py')])

P('C04', 'Cropping keeps exactly the points inside the window',
  'Cropping a field (or a series of fields) to an interval on x, y or time keeps exactly the points '
  '(or instants) whose coordinate lies in the closed interval, with their values, masks, coordinates and '
  'units unchanged; index windows keep the points from the first to the last index included. Windows that lie entirely outside of the field '
  'are rejected. In a series, every field and the series itself end up on the same axes.',
  'all axes, windows, values and masks',
  'tests crop one field with one window',
  CORE + TCORE[1:2], [('crop', 'core/field.py'), ('crop', 'core/scalarfield.py'),
                      ('crop', 'core/vectorfield.py'), ('crop', 'core/temporalfields.py')])

P('C05', 'Rotation by quarter turns rotates points, masks, components and units',
  'Rotating a field by any multiple of 90 degrees moves each sample from (x, y) to the '
  'coordinates rotated counter-clockwise by that angle about the origin, together with its mask; the components of '
  'a vector are rotated by the same angle and the units of the two axes are exchanged for odd quarter turns. '
  'The axes stay increasing, four quarter turns give the field back, and other angles are '
  'rejected; the same holds for each field of a series.',
  'all fields, all multiples of 90 degrees of either sign',
  'tests rotate one fixed field and compare to stored data',
  CORE + TCORE[:2], [('rotate', 'core/field.py'), ('rotate', 'core/scalarfield.py'),
                     ('rotate', 'core/vectorfield.py'), ('rotate', 'core/fields.py')])

P('C06', 'Scaling, unit changes and origin shifts keep every sample in place',
  'Scaling axes, values or times by a number multiplies exactly those numbers, and by a quantity '
  'also multiplies the unit; with a negative axis factor samples, masks and axes are reversed together (and the '
  'vector component along that axis changes sign), so every sample stays on its scaled coordinate. Changing a unit multiplies the numbers by the conversion '
  'factor, leaves everything else alone, is undone by the reverse change, and is rejected between incompatible units. '
  'Setting the origin shifts the axes so that the given point gets coordinate zero, and nothing else.',
  'all fields and series, all factors and compatible units',
  'tests scale one field by one factor and never by a negative one with masks',
  CORE + TCORE[:2], [('scale, change_unit, set_origin', 'core/field.py'),
                     ('scale', 'core/vectorfield.py'), ('scale', 'core/temporalfields.py')])

P('C07', 'Operations that are not in place leave their operands alone and share nothing',
  'Any operation on a field or a series of fields that is not asked to work in place (crop, scale, rotate, extend, '
  'crop_masked_border, fill with a value, reduce/augment resolution, arithmetic, copy, adding a field to a series) returns a new object, leaves its '
  'operands exactly as they were, and shares no memory with them: changing the operand or the result '
  'afterwards never changes the other. The in-place variant leaves in the object exactly what the other variant returns. '
  'Applied to a series, any sequence of in-place operations gives each field, and the axes and units of the series, exactly what it gives when applied '
  'to that field alone.',
  'all operations, values, masks, and sequences of operations',
  'aliasing only shows after a later change of one of the two objects, and never in the value returned',
  CORE + TCORE, [('inplace switches', 'core/scalarfield.py'), ('inplace switches', 'core/vectorfield.py'),
                 ('add_field', 'core/temporalfields.py'), ('copy', 'core/field.py')],
  over=('inputs', 'histories'))

P('C08', 'Extension and mirroring keep the original samples and only add what is asked',
  'Extending a field or a series adds exactly the asked number of points on each side (a length is rounded up to whole steps), continuing '
  'the axis with its first or last step; the original samples, masks, and units stay on their coordinates and the new points are '
  'masked (or hold the given value, unmasked). Mirroring keeps the samples on the larger side of the symmetry plane, and '
  'gives each new point the value and mask of its mirror image times the coefficient, the vector component normal to '
  'the plane changing sign unless coefficients are given for both components; new points without an image are masked.',
  'all fields, numbers of points, planes and coefficients',
  'tests extend one field by one amount and compare to stored data',
  CORE + TCORE[:2], [('extend', 'core/field.py'), ('extend, mirroring', 'core/scalarfield.py'),
                     ('extend, mirroring', 'core/vectorfield.py'), ('extend, mirroring', 'core/fields.py')])

P('C09', 'Looking up positions and values in a field is consistent with the grid',
  'get_indice_on_axe gives the two successive indices surrounding a position (equal exactly on a grid point), the index of a closest point, or '
  'the decimal index, and positions outside of the axis are rejected, as in get_value. get_value gives the sample at a grid point (not a number if masked), is linear '
  'along grid lines (not a number if an end is masked), stays between the values of the valid corners inside a cell and is '
  'exact for data affine in the cell. get_points_around returns, once each, exactly the grid points within the radius.',
  'all axes, positions, values and masks',
  'tests look at one or two positions',
  CORE, [('get_indice_on_axe, get_points_around', 'core/field.py'), ('get_value', 'core/scalarfield.py'),
         ('get_value', 'core/vectorfield.py')])

P('C10', 'Profiles and integrals take exactly the samples of the asked lines',
  'A profile of a field at a position x (or y) has the other axis as abscissa with its unit, and the samples and masks of that grid line; between '
  'two grid lines it is their linear (or nearest) interpolation, masked where a used sample is masked; on an interval it is the mean of the lines inside the interval, '
  'masked where one of them is; positions outside of the field are rejected. The integral over a line is the trapezoidal integral of the mean profile, the integral over a surface is '
  'the mean value times the area of the window, units included, and masked points inside the window are refused.',
  'all axes, positions, intervals, values and masks',
  'tests extract one profile and compare to stored data',
  CORE, [('get_profile', 'core/scalarfield.py'), ('get_profile', 'core/vectorfield.py'),
         ('integrate_over_line, integrate_over_surface', 'core/scalarfield.py')])

P('C11', 'Statistics of fields count every valid point once and no masked point',
  'Minimum, maximum, mean and median of a scalar field, minimum and maximum magnitude of a vector field, norms (p-norm of the valid '
  'samples of all components, divided by the number of valid points when normalised per point) and histograms are those of the valid samples only, '
  'whatever is stored under the mask. The histogram gives, at the centre of each bin, the number (or density, or cumulated number) of valid samples in the '
  'bin. The magnitude is the Euclidean norm of the components, masked where the field is, on the same axes and with the same units.',
  'all values and masks',
  'tests compute one statistic of one field',
  CORE[1:], [('min, max, mean, median, get_norm, get_histogram', 'core/scalarfield.py'),
             ('min, max, magnitude, get_norm', 'core/vectorfield.py')])

P('C12', 'Border cropping, filling, smoothing and resolution changes only do what they say',
  'crop_masked_border removes exactly the fully masked border lines (for a series: masked at every instant; hard: until no masked point is left in the window) '
  'and keeps every other sample; fill leaves valid points alone, unmasks all the others and gives them the asked value, the value of '
  'a nearest valid point, or (linear) a value between the valid ones, exact for affine data inside of them. Smoothing (uniform, gaussian) stays within the bounds of the samples and the '
  'uniform one is the mean of the neighbours; reducing the spatial resolution gives each block the mean of its valid points at the centre of the '
  'block, masked only if the whole block is. Making a field evenly spaced keeps the ends, uses the smallest step and interpolates '
  'linearly; all of them keep units.',
  'all values and masks, grids up to the bounds',
  'tests apply each once on one field and compare to stored data',
  CORE[1:] + TCORE[1:2], [('crop_masked_border, fill, smooth, reduce_spatial_resolution, make_evenly_spaced', 'core/scalarfield.py'),
                          ('crop_masked_border, fill, smooth, reduce_spatial_resolution', 'core/vectorfield.py'),
                          ('crop_masked_border', 'core/temporalfields.py')])

P('C13', 'Profiles keep each value on its abscissa, and their arithmetic is pointwise',
  'A profile built from arrays in any order is sorted along x, each value and mask staying on its abscissa, and a point is masked exactly if '
  'asked or not a number (a boolean masks everything or nothing); replacing the abscissa reorders the values with them. Sums, differences, products, ratios, powers and '
  'opposites, with profiles, numbers or quantities, are taken at each point in consistent units (other operand converted, plain resulting unit), are masked exactly where an operand is (or a '
  'ratio divides by zero), leave the operands unchanged, and are refused for different abscissa or inconsistent units. Minimum, maximum and mean are those of the valid points (None '
  'without any), and two profiles are equal exactly if their masks, valid points and units are.',
  'all abscissa, values, masks and units of both operands, all operators',
  'tests combine two stored profiles with the same mask, abscissa and unit',
  ['core/profile.py'], [('__init__, setters', 'core/profile.py'),
                        ('__add__, __mul__, __truediv__, __pow__', 'core/profile.py')])

P('C14', 'Editing and resampling profiles touches exactly the intended points',
  'Cropping a profile keeps exactly the points with abscissa in the closed interval (values: strictly inside and valid; indices: last one excluded; masked borders: between the first and last valid points); adding, '
  'removing and merging points leave all the others as they are; removing duplicates gives each abscissa the mean, minimum or maximum of its values. '
  'Scaling and changing units multiply abscissa and values consistently with the units. Filling keeps the valid points and gives the others the asked value, the nearest one, or the linear interpolation, constant outside (or cropped); '
  'augmenting the resolution, evenly spacing (same ends) and smoothing (means of neighbours along the asked direction) give the corresponding interpolations or means, without masked points; unless in place, the original is unchanged.',
  'all profiles up to the bounds, intervals, points, factors and masks',
  'tests run each operation once, on one profile',
  ['core/profile.py'], [('crop, fill, scale, add_point(s), remove_point, remove_doublons, augment_resolution, evenly_space, smooth',
                         'core/profile.py')])

P('C15', 'Reading a profile agrees with the broken line through its valid points',
  'Interpolated values lie on the segment between the two neighbouring points (no value next to a masked point or outside), the positions of a value are exactly the '
  'abscissa (or decimal indices) where the segments between valid points take it, in order, and the integral is the trapezoidal one through the valid points, in the product of the units. The gradient is the '
  'centered difference (one-sided at the ends) in consistent units, and gives the slope of a line anywhere; the extremum of a parabola is found at its place. Convolution, auto-correlation (one at its center) and the mean distance '
  'to a shifted profile are the discrete sums they stand for, on abscissa with the same step, whatever the origin; profiles are not modified.',
  'all values, masks, positions',
  'tests evaluate each at one position of one profile',
  ['core/profile.py'], [('get_interpolated_values, get_value_position, get_integral, get_gradient, get_extrema_position, '
                         'get_convolution, get_auto_correlation', 'core/profile.py')])

P('C16', 'Clouds of points keep positions, values and orientations together',
  'Points (and oriented points, and sets of points along time) keep the position, the value and the orientations of a point together through concatenation (units converted, inconsistent ones refused, operands unchanged), '
  'addition, removal, removal of points that are not numbers, sorting (along a coordinate or in a given order), cropping (exactly the points in the closed intervals kept; by indices: last one excluded), cutting (exactly the points strictly in the window removed), decomposition, and merging of the points with the same value '
  '(mean, min or max); they copy what they are given. Scaling, rotating (trigonometric direction), reversing, translating the origin and changing units transform every coordinate accordingly, units included; added points lie on the segments between the original ones, and uniform smoothing is the mean '
  'of the neighbours. The exported profile, the velocity (displacement over duration between successive values), the values read on a field (of the time of the point, for a series) and the density (each point counted once, at its nearest node, per area) are those of the '
  'points, with consistent units. Sets of points stay sorted along time, each set with its time, the times being converted, scaled and cropped with them. Unless in place, originals are unchanged.',
  'all coordinates, values, orientations, intervals, factors and times',
  'tests only cover copies, scaling and displays of points',
  ['core/points.py', 'core/orientedpoints.py', 'core/temporalpoints.py'],
  [('__add__, add, remove, crop, cut, sort, scale, get_velocity', 'core/points.py'),
   ('add, remove, crop, sort', 'core/orientedpoints.py'), ('add_pts, remove_pts, crop, scale', 'core/temporalpoints.py')])

P('C17', 'Series of fields stay ordered in time, and their statistics are those of the valid samples',
  'A series keeps its fields sorted along time, each with its own time (converted to the unit of the series) whatever the order of insertion, refuses fields on other axes or of another kind, and loses exactly the removed fields. Arithmetic with a series of the same times (in any time unit), a field, a number or a quantity acts '
  'on the fields of each instant, keeps the times and leaves the operands unchanged. Mean, minimum and maximum fields are those of the valid samples of each point (masked if there are not enough), fluctuations are differences to the mean field, kinetic energies '
  'and Reynolds stresses are the corresponding half squares and means of products, on valid samples, in squared units; the series of components and magnitude, the time auto-correlation and the recurrence map agree with the fields. Interpolation in time is linear between neighbouring instants (masked if one of them '
  'is, refused outside); augmenting and reducing the temporal resolution give the interpolated fields, or the mean (or first) field and time of each complete group. Time profiles give the value of the point, or of each point at its own time, at the wanted times; filling along time interpolates between valid samples and keeps these. A point that never changes is its own background. Unless in place, the original is unchanged.',
  'all values, masks, times, orders of insertion',
  'tests combine one stored series of two or three identical or similar fields',
  ['core/temporalfields.py', 'core/temporalscalarfields.py', 'core/temporalvectorfields.py', 'core/fields.py'],
  [('__add__, __mul__, get_mean_field, get_interpolated_field, get_time_profile, augment_temporal_resolution, reduce_temporal_resolution', 'core/temporalfields.py'),
   ('get_min_field, get_max_field, fill', 'core/temporalscalarfields.py'), ('get_tke, get_reynolds_stress, fill', 'core/temporalvectorfields.py')])

P('C18', 'Derivatives of fields are difference quotients in consistent units',
  'On evenly spaced axes, the gradients of scalar and vector fields are the centered differences (one-sided at the borders) divided by the step, hence exact for affine fields; they are masked exactly where one '
  'of the four used samples is masked, and are expressed in the unit of the values over the one of the axis. Divergence (also of a series, instant by instant) is the sum of the x gradient of the first component and the y gradient of the second one, whatever the units of the axes; gradient fields and shear stress '
  'are the corresponding gradients. A field is recovered, with zero mean and in its unit, from the gradients of any polynomial of degree two. The track field is the field turned by a quarter of turn; a field extrapolated until a wall keeps its values, is zero on the last line before the wall and linear between; the fast streamlines advance by '
  'steps of constant length along (or against) the local velocity until they leave the field. The original fields are unchanged.',
  'all values, masks, steps, origins and units; all polynomials of degree two',
  'tests compare one stored field to stored derivatives',
  ['field_treatment/field_treatment.py'],
  [('get_gradients, reconstruct_from_gradients, get_divergence, get_grad_field, get_shear_stress, get_track_field, extrapolate_until_wall, get_streamlines_fast',
    'field_treatment/field_treatment.py')])


P('C19', 'Vortex criteria follow their definitions, at every point where their data is known',
  'gamma1 (kappa1) is the mean over the surrounding points of the sine (cosine) of the angle between position and velocity: it does not depend on the magnitudes (points without velocity count for zero) and is plus or minus one at '
  'the center of any rotation (source); gamma2 and kappa2 are the same for the velocity relative to the mean of these points, hence do not change when a uniform velocity is added; the gamma of a series is that of each instant. The radius may be given in points or axis units, the axes may have different steps. '
  'These criteria and the local enstrophy are known exactly where the point and its whole window are within the field and unmasked, and have the values of the unmasked field there. '
  'The angle deviation is 0 in a uniform flow and depends only on the spread of the directions (relative to the central point or to the mean when asked); iota is half the norm of the gradient of the angles. '
  'Vorticity is half the curl, divergence the trace of the velocity gradient (series: instant by instant), both in consistent units; residual and shear vorticity add up to the vorticity, the residual one being zero where the deformation is stronger than the rotation; '
  'Q is half the difference of the squared norms of rotation and deformation, Nk their ratio, lambda2 the smallest eigenvalue of S2+O2, the swirling strength the imaginary part of the eigenvalues of the velocity gradient (improved: the ratio of real and imaginary parts) '
  'and Stokes vorticity the circulation along each window divided by its area. Both axes of the field are in the same unit. The field itself is unchanged.',
  'all uniform velocities, strengths and magnitudes, masks, velocity gradients and units within the bounds',
  'tests compare one stored field to stored criteria',
  ['vortex_criterions/vortex_criterions.py'],
  [('get_gamma, get_kappa, get_angle_deviation, get_iota, get_enstrophy, get_vorticity, get_divergence, get_stokes_vorticity, get_swirling_strength, get_improved_swirling_strength, get_q_criterion, get_Nk_criterion, get_lambda2, '
    'get_residual_vorticity, get_shear_vorticity', 'vortex_criterions/vortex_criterions.py')])

P('C20', 'Synthetic vortices obey their velocity law, and systems of vortices superpose, respect walls and evolve consistently',
  'The velocity of solid, free, Rankine, Burger, Lamb-Oseen and modified Burger vortices at any point is the azimuthal (and radial) law of the model at that distance, counter-clockwise for positive strengths, and zero at the center; the velocity of a Lamb-Chaplygin dipole '
  'is the one of the potential flow around a cylinder outside, and the one given by Bessel functions (finite at the center, continuous) inside. The velocity of a system is the sum of those of its vortices, of their images in the walls (mirrored in each wall, of opposite '
  'strength) and of its custom fields: as a vector, as a vector field, as filtered by identifiers or as the sum of the separate contributions; with axisymmetric vortices no fluid crosses a wall. This holds after any sequence of additions, removals and requests: a removed vortex leaves nothing '
  'behind and the others are renumbered. An evolution moves each movable vortex by the time step times the velocity of the system at its center, leaves the others and the original system as they are, and moves the images; series of fields and of positions '
  'are given at 0, dt, 2 dt... Velocity maps give the velocity the vortex would have at each point. Systems, their copies and the vortices or fields they were made from are independent.',
  'all centers, strengths, positions, wall positions, custom affine fields and time steps; all removal indices',
  'vortex creation has no test',
  ['vortex_creation/vortex_creation.py'],
  [('Vortex and its subclasses (except HillVortex), CustomField, Wall, VortexSystem', 'vortex_creation/vortex_creation.py')])
P('C21', 'Boundary layer laws and measured boundary layers: thicknesses, wall stress and separation follow their definitions',
  'A Blasius boundary layer has, at any position (number, list or array), the Reynolds number U x/nu, no thickness at the leading edge and, below a Reynolds number of 5e5, the 99 % (95 %) thickness 4.91 (3.92) x/sqrt(Re), the momentum thickness 0.664 x/sqrt(Re), the displacement thickness 2.59 times that, '
  'the friction coefficient 0.664/sqrt(Re) and the wall stress Cf rho U2/2; above (or when asked to be all turbulent) the thickness 0.3806 x/Re^0.2, the friction 0.0592/Re^0.2 and a 1/7 power law profile, constant above the thickness; confinement reduces the thickness by 0.26547 delta2/h; the position of a laminar thickness is found within 1 %. '
  'The outer velocity of a Falkner-Skan layer is c0 (x/L)^m. Wall laws are linear in the viscous sublayer (y+ below 11.63), logarithmic (2.5 ln y+ + 5.1, plus the sine squared wake of strength 0.55 for the wake law) above, constant above delta (for y+ over 450), and positions out of the water are refused. '
  'On a measured profile, the thickness is the first position where the (linearly interpolated) velocity reaches the given part (95 % by default) of its maximum; displacement and momentum thicknesses are the trapezoidal integrals of (1-u/ue) and u/ue (1-u/ue) over the known points of the layer, with zero velocity at the wall and ue the largest velocity among them; '
  'the shape factor is their ratio; none depends on the velocity scale, and all follow the length scale. The shear stress is rho nu times the gradient (or u/y in the linear sublayer), in consistent units; the Clauser thickness is the displacement thickness times the last velocity over sqrt(tau/rho). A field gives the profile (or field) of the values of its own profiles along either direction, in the units of its axes. '
  'The separation position is the extrapolation to the wall of the zeros of the streamwise velocity on the nearest lines (exact if these are aligned), for walls on any side of or inside the field, at each instant of a series.',
  'all outer velocities, viscosities, densities, positions, profiles and stresses within the bounds',
  'boundary layers have no test',
  ['boundary_layer/boundary_layer.py'],
  [('BlasiusBL, FalknerSkanBL.get_u_e, WallLaw, WakeLaw, get_bl_thickness, get_displ_thickness, get_momentum_thickness, get_shape_factor, get_shear_stress, get_clauser_thickness, get_separation_position', 'boundary_layer/boundary_layer.py')])

P('C22', 'Vortex radius, circulation and other vortex properties are those of the connected zone around the given center',
  'The zone of a vortex is made of the points connected (by their sides) to the grid point nearest to the given center where the absolute size criterion exceeds the given part (10 % by default) of its maximum over the vortex; the property of a vortex is the integral (Simpson) of the property criterion over that zone only, 0 if the center is in no zone, '
  'in the unit of the criterion times those of the axes; with "value" it is the criterion interpolated at the center. The radius is that of the disk that has the area of the zone of same-sign residual vorticity, it does not depend on the strength, on the direction of rotation or on a uniform velocity, '
  'is 0 where there is no vortex, and is in the unit of the axes; the computed center is the barycentre of the vorticity over the zone. The circulation is the sum of the vorticity over the zone around the center where its magnitude exceeds the given part of its maximum over the field, times the area of a cell, with a consistent unit. '
  'Evolutions give the value of each point of the trajectory, on the field of its own time, whatever the order of the points.',
  'all values of the criteria, strengths and positions within the bounds; zones of any shape on the free points',
  'vortex properties have no test',
  ['vortex_properties/vortex_properties.py'],
  [('get_vortex_radius, get_vortex_radius_time_evolution, get_vortex_property, get_vortex_property_time_evolution, get_vortex_circulation', 'vortex_properties/vortex_properties.py')])

P('C23', 'Sets of critical points stay consistent: instants, trajectories, transformations and topological simplification',
  'A set of critical points holds, at increasing times whatever the order in which they are added, the points of each type at each instant (copies of what was given), in common units; equal times, other units or other objects are refused and leave the set as it was; removing an instant (by time or index) leaves the others; the sum of two sets has all their instants, and leaves both as they are. '
  'Trajectories share out the points: each point of each type belongs to exactly one trajectory, made of points of consecutive instants no farther than the given distance (number, or length in any unit) from one another; two points of consecutive instants within that distance are only left unlinked if one of them has a partner at most as far; the longest trajectories come first, times are those of the instants, in the unit of the set. '
  'Cleaning removes the trajectories of less than the given number of points, and their points, and nothing else. New origins, units, scales and time intervals (times or indices) apply to the points and to the trajectories alike, whether these were computed or not, and do not touch the original unless asked; adding, removing or cropping points in space discards the trajectories. '
  'Simplification keeps the total index (+1 for foci and nodes, -1 for saddles) unless points of the same sign are within the distance, leaves isolated points as they are, and no two points (deletion: no opposite pair, no point moved) nearer than the distance; points that are all near are replaced by their barycentre. '
  'Scaling and cropping a mean trajectory applies to its associated deviations, real times and base trajectories; the fields reconstructed from it are the means of the fields at the associated times.',
  'all times, positions, linking distances, scales, origins, intervals and simplification distances within the bounds',
  'these methods are only exercised by tests that do not run here, on one stored set of points',
  ['vortex_detection/vortex_detection.py'],
  [('CritPoints (add_point, remove_point, __add__, __eq__, compute_traj, clean_traj, set_origin, change_unit, scale, crop, topo_simplify), TopoPoints, MeanTrajectory.scale, crop, reconstruct_fields', 'vortex_detection/vortex_detection.py')])

P('C24', 'Critical points and vortices are found where they are, with their type, position and instant',
  'In an unmasked field each cell along whose border the vector turns once has one critical point: a saddle if it turns against the direction of travel, else a focus or a node; a cell where it does not turn (in particular where a component keeps its sign) has none. '
  'The critical point of a linear field is the only one found; it has the type given by the eigenvalues of the gradient on any grid step (anticlockwise or clockwise focus, ingoing or outgoing node, saddle), and is placed at the centre of its cell (pbi_cell) or at the zero of the bilinear interpolation (pbi). The directions of a saddle are the unstable, then the stable eigenvector, of unit norm. '
  'Points come in the units of the field, at the given time and unit; a series gives the points of each field at its time; mirroring keeps the points of the field and adds none beyond the mirror. Masked fields are refused; the field given is left as it was. '
  'Vortices found with a criterion are the centres of mass of the connected zones beyond the threshold (absolute, or relative to the largest absolute value): anticlockwise ones where the criterion is positive, clockwise ones where it is negative.',
  'all positions of the critical point inside its cell, all vectors at a corner of the cell, all values of a criterion, times and fields within the bounds',
  'the tests of the detection compare with stored results on one measured field',
  ['vortex_detection/vortex_detection.py', 'vortex_detection/levelset_data.py'],
  [('get_critical_points, VF.get_cp_cell_position, VF.get_cp_position, VF.get_pbi, get_vortex_position, _get_saddle_orientations', 'vortex_detection/vortex_detection.py')])

P('C25', 'Modal decompositions give the series back, and stay consistent when modes are selected, cropped or scaled',
  'The field reconstructed from a decomposition at an instant is the mean field plus the sum of the wanted modes (all, the first ones, or a list) times their coefficients at that instant, interpolated linearly between the instants; times out of the decomposition and modes that do not exist are refused. '
  'Decomposing a series and reconstructing it with all its modes gives the series back, on its axes, times and units, whatever orthonormal basis the eigenvalue solver returns, and leaves the series as it was. '
  'Keeping or removing modes leaves exactly the wanted ones with their numbers, coefficients and eigenvalues. Cropping in time (bounds included) or space, scaling, and augmenting the temporal resolution commute with the reconstruction; smoothing applies to each mode or to each coefficient. '
  'The energy of a mode is the mean of its half squared values times the mean square of its coefficients (cumulated on demand). Nothing of this alters the original unless asked to, and reading energies, coherences or modes alters nothing.',
  'all mean fields, modes, coefficients, times, windows, scales and selections of modes within the bounds',
  'the tests compare the decomposition of one stored series with stored results',
  ['pod/pod.py'],
  [('ModalFields (reconstruct, crop_modal_base, crop, scale, smooth_*, augment_temporal_resolution, get_modes_energy), modal_decomposition', 'pod/pod.py')])

P('C26', 'What is written to a file is read back as it was',
  'An object (field, series, profile, points, critical points) saved in the native format and loaded again is the same object: type, coordinates, values, mask, units and times, compressed or not, whatever the file held before; the extension follows the compression; files that do not exist, or have an unknown extension, are refused. '
  'Fields, profiles and points exported to text or matlab files and imported again are the same; in text files each row is found at its own coordinates whatever the order of the rows and of the columns, and points without a row or without a number are masked. '
  'Pictures have x along the columns and y upwards, and come back as the same field; series of pictures keep the wanted ones, in the order of their names, at their times. Separate files gathered in one keep every field of the wanted kind. Writing alters nothing of what is written.',
  'all coordinates, values, masks, times, orders of rows and columns within the bounds',
  'the tests write and read back a few stored objects, always in the order of the exporting function',
  ['file_operation/file_operation.py'],
  [('export_to_file, import_from_file, imts_to_imt, export_to_ascii, import_*_from_ascii, export_to_matlab, matlab_parser, import_from_matlab, export_to_picture(s), import_from_picture(s)', 'file_operation/file_operation.py')])

P('C27', 'Objects are equal exactly when their content is the same',
  'Two fields, series of fields, profiles, clouds of points or sets of critical points of the same type are equal if and only if they have the same axes or positions, the same mask, the same values at the valid points, the same units and the same times (within the rounding of floating point numbers); what is stored under the mask does not matter. '
  '!= is the negation of ==, both are symmetric, an object is equal to its copy, and its copy is not altered by (nor alters) it. '
  'Comparing objects of different sizes or with incompatible units, or with an object of another type, says that they are different, and never fails.',
  'all coordinates, values, times, masks, units and sizes within the bounds',
  'the tests compare a few stored objects with their own copies',
  ['core/scalarfield.py', 'core/vectorfield.py', 'core/temporalfields.py', 'core/profile.py', 'core/points.py', 'core/field.py', 'vortex_detection/vortex_detection.py'],
  [('ScalarField.__eq__', 'core/scalarfield.py'), ('VectorField.__eq__', 'core/vectorfield.py'), ('TemporalFields.__eq__', 'core/temporalfields.py'), ('Profile.__eq__', 'core/profile.py'), ('Points.__eq__', 'core/points.py'), ('CritPoints.__eq__', 'vortex_detection/vortex_detection.py')])

P('C28', 'Sets of fields side by side give at each place the values of the fields that cover it',
  'A set of spatial fields holds copies of the fields given (freed of their masked borders and converted to the units of the first; incompatible units and other types are refused and leave the set as it was), and spans the smallest to the largest coordinates of its fields. '
  'The value at a position is the interpolated one of the field that covers it (borders included), the mean of those of the fields that cover it if there are several, and positions out of all of them are refused (or give nothing, when asked); in the unit of the set when asked. '
  'The field on a grid has these values at each point of the grid, masked where no field gives any; profiles are those of the fields, put together in order. '
  'Operations with numbers and units apply to each field; scales, units and new origins apply to all the fields alike; none of this alters the original unless asked.',
  'all values, positions, scales and operands within the bounds',
  'spatial fields have no test',
  ['core/spatialfields.py', 'core/spatialscalarfields.py', 'core/spatialvectorfields.py', 'core/fields.py'],
  [('SpatialFields (add_field, remove_field, get_value, get_values_on_grid, get_profile, scale, set_origin, operators)', 'core/spatialfields.py'), ('SpatialScalarFields', 'core/spatialscalarfields.py'), ('SpatialVectorFields', 'core/spatialvectorfields.py')])
