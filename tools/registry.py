NOTE = ('Every obligation is decided by z3 for all values inside the stated bounds on every feasible path of '
        'the real functions; counterexamples are replayed on the unpatched build. Arithmetic over the reals '
        '(float64 rounding outside the claim); numpy, datetime and random sources are modelled by '
        'symex/symnp.py and symex/shims.py, which sampled paths validate against the real build.')
PROPS = [
 dict(id='C01', title='Response actions remove exactly the oil they book',
      statement='In every step, the mass a skimming, burning, chemical dispersion or manual beaching operation '
                'books in the mass balance equals the mass that left the elements; it is never negative, never more than the elements '
                'held or the requested rate allows, and manual beaching takes the observed amounts over the observed '
                'times while there is oil. No component becomes negative, elements keep their composition, '
                'and oil that is not floating is left alone.',
      over=['inputs', 'configurations'],
      text='all element masses, water fractions, amounts, units, areas, efficiencies, active ranges and step times '
           'within the bounds',
      why='test_weatherers cannot be run here and samples a few amounts with plenty of oil; running out of oil, '
          'ranges inside one step and mixed fates are not sampled',
      files=['py_gnome/gnome/weatherers/cleanup.py', 'py_gnome/gnome/weatherers/manual_beaching.py',
             'py_gnome/gnome/spill_container.py'],
      mech=[('Skimmer/Burn/ChemicalDispersion.weather_elements', 'weatherers/cleanup.py'),
            ('FateDataView.update_sc', 'spill_container.py')], note=NOTE),
 dict(id='C02', title='A response action acts over its active range and nothing else',
      statement='Over any run whose steps (and weathering sub-steps) cover the active range, a skimming, burning or '
                'dispersant operation removes exactly the amount asked for times its efficiency when enough oil is '
                'there, wherever step boundaries fall. It removes nothing outside the active range or when off.',
      over=['inputs', 'configurations', 'histories'],
      text='all step lengths, start and stop times and amounts, runs of up to three steps (five in thorough)',
      why='the tests use ranges aligned with steps; the interplay of range ends and step boundaries is a '
          'for-all over times',
      files=['py_gnome/gnome/weatherers/cleanup.py'],
      mech=[('RemoveMass.prepare_for_model_step and the sub-step time', 'weatherers/cleanup.py')], note=NOTE),
 dict(id='C03', title='Weathering moves mass from the elements to the mass balance, never back',
      statement='In every step, the mass booked as evaporated, dispersed or sedimented equals what the elements '
                'lost; it is never negative. No component becomes negative or gains mass, components sum to the '
                'element mass, the lost fraction agrees with the mass left, non-floating oil is left alone, and '
                'a half-life leaves exactly half after its half-life. A weatherer that is off or outside its '
                'active range changes nothing.',
      over=['inputs', 'configurations'],
      text='all masses, areas, water fractions, oil properties, wind and wave values within the bounds',
      why='tests sample a few oils and winds, and they cannot be run here; clipping when the demand exceeds the '
          'mass is a for-all over wave and element state',
      files=['py_gnome/gnome/weatherers/evaporation.py', 'py_gnome/gnome/weatherers/natural_dispersion.py',
             'py_gnome/gnome/weatherers/core.py', 'py_gnome/gnome/spill_container.py'],
      mech=[('Evaporation.weather_elements', 'weatherers/evaporation.py'),
            ('NaturalDispersion.weather_elements', 'weatherers/natural_dispersion.py'),
            ('HalfLifeWeatherer.weather_elements', 'weatherers/core.py')], note=NOTE),
 dict(id='C07', title='A spill releases its elements at the configured place and times',
      statement='Nothing is released before the release time or by a spill that is off; during a continuous release '
                'the count follows the schedule to within an element per release step, and once the release has '
                'ended exactly the configured number (or number per time step) is out. Elements start in the water '
                'with age 0, at the point, on the line (a moving source never goes back), at the given positions or '
                'on the grid, marked with their spill, with ids counting from 0. Uncertain containers release the '
                'same, and a rewound container releases the same again.',
      over=['inputs', 'configurations', 'histories'],
      text='all release times, durations, step lengths, line ends and amounts; runs of up to four model steps in '
           'the half-step release pattern',
      why='test_spill cannot be run here and samples durations aligned with steps; how release ends and step '
          'boundaries interleave is a for-all over times',
      files=['py_gnome/gnome/spills/release.py', 'py_gnome/gnome/spills/spill.py',
             'py_gnome/gnome/spill_container.py', 'py_gnome/gnome/environment/timeseries_objects_base.py'],
      mech=[('Release/PointLineRelease/GridRelease', 'spills/release.py'),
            ('Spill.release_elements', 'spills/spill.py'),
            ('SpillContainer.release_elements', 'spill_container.py')], note=NOTE),
 dict(id='C08', title='The amount of a spill means the same oil in every unit',
      statement='An amount given in mass or volume units reads back as given, is the same mass whatever unit it is '
                'shown in (volume times the standard density of the substance), and negative amounts are refused. '
                'The elements share exactly that mass equally, split over components by the mass fractions of the '
                'substance. Amount uncertainty scales it by two thirds of the scale up or down, or is refused.',
      over=['inputs', 'configurations'],
      text='all amounts and uncertainty scales, ten units, weathering and non-weathering substances',
      why='tests sample single amounts in two units',
      files=['py_gnome/gnome/spills/spill.py', 'py_gnome/gnome/spills/release.py',
             'py_gnome/gnome/spills/gnome_oil.py'],
      mech=[('Spill.amount, Spill.units, set_amount_uncertainty', 'spills/spill.py')], note=NOTE),
 dict(id='C10', title='Movers displace elements in the water, while active, by velocity times time',
      statement='SimpleMover, CurrentMover and WindMover move an element only if it is in the water and the mover is '
                'on and active in the step; everything else stays. The move is the scaled velocity (times the '
                'windage for wind) over the step by the chosen method (Euler, RK2, RK4), in degrees at the latitude '
                'of the element, forward or backward in time; in a run the moves of all movers add up. Uncertain '
                'current factors stay within their scales, start after the delay, are kept for the duration and follow their element when others are removed.',
      over=['inputs', 'configurations', 'histories'],
      text='all velocities, positions, statuses, active ranges, scales and windages within the bounds',
      why='mover tests cannot be run here and sample a few fields; stage times, latitudes and statuses are a for-all',
      files=['py_gnome/gnome/movers/movers.py', 'py_gnome/gnome/movers/simple_mover.py',
             'py_gnome/gnome/movers/py_current_movers.py', 'py_gnome/gnome/movers/py_wind_movers.py',
             'py_gnome/gnome/utilities/projections.py'],
      mech=[('PyMover.get_delta_*', 'movers/movers.py'), ('CurrentMover.get_move', 'movers/py_current_movers.py'),
            ('WindMover.get_move', 'movers/py_wind_movers.py')], note=NOTE),
 dict(id='C13', title='Ordered collections behave like lists that are also keyed by id',
      statement='After any sequence of adding, removing and replacing by position or id, an OrderedCollection (movers, '
                'weatherers, environment, outputters) iterates, counts, indexes, slices and looks up exactly as a '
                'list of the same objects would, adds an object once, refuses wrong types and positions outside, '
                'and tells its callbacks what happened, once.',
      over=['histories', 'inputs'],
      text='all sequences of two operations (three in thorough) on collections of up to three objects, any index or '
           'slice',
      why='the tests for it cannot be run here and use fixed sequences; removal leaves holes in the storage that only '
          'some later operations see',
      files=['py_gnome/gnome/utilities/orderedcollection.py'],
      mech=[('OrderedCollection', 'utilities/orderedcollection.py')], note=NOTE),
 dict(id='C18', title='Point-in-polygon answers follow the even-odd rule, for any polygon',
      statement='A point is inside a polygon exactly if a ray from it crosses the outline an odd number of times, '
                'whatever the orientation, shape or closing of the polygon, for single points, many points and '
                'polygon/point pairs; of two polygons with a common edge, a point on it is in exactly one and no '
                'point is in both. Asking changes no argument. is_clockwise tells the sign of the area.',
      over=['inputs'],
      text='all polygons of 3 to 4 vertices (5 in thorough) and all points; 1 to 2 points per call',
      why='tests sample a few polygons and points; edges, vertices and orientation are a for-all',
      files=['py_gnome/gnome/utilities/geometry/cy_point_in_polygon.pyx',
             'py_gnome/gnome/utilities/geometry/c_point_in_polygon.c',
             'py_gnome/gnome/utilities/geometry/poly_clockwise.py'],
      mech=[('points_in_poly', 'utilities/geometry/cy_point_in_polygon.pyx'),
            ('c_point_in_poly1', 'utilities/geometry/c_point_in_polygon.c')], note=NOTE),
 dict(id='C23', title='The model clock: steps, times and sub-steps of a run',
      statement='A run makes one step at the start time and then every step that fits in the duration, no more; after '
                'step k the model time is the start plus (backwards: minus) k time steps, the elements carry that time '
                'and their age is k steps. Each mover is asked once per step and container, for the step it moves '
                'over; weathering covers each step exactly with its sub-steps, and nothing is weathered backwards. '
                'Changing time step, start, direction or uncertainty, or shortening the duration, starts the run over '
                'with nothing released; a second run is like the first.',
      over=['inputs', 'configurations', 'histories'],
      text='all start times and durations up to four steps, forward and backward, certain and uncertain, one to five '
           'sub-steps, every setter after one or two steps',
      why='model tests cannot be run here and sample durations that are whole multiples of the step',
      files=['py_gnome/gnome/model.py', 'py_gnome/gnome/spill_container.py'],
      mech=[('Model.step, setup_model_run, rewind, setters', 'model.py')], note=NOTE),
 dict(id='C09', title='The element arrays of a spill container stay aligned',
      statement='Through any history of releasing, removing and splitting, every data array has one row per element, '
                'each element keeps its own values, new elements get ids never used before and the number of their '
                'spill, a split divides masses by the given fractions (equally by default) and copies the rest. A '
                'process that reads the elements of a fate sees exactly those with mass, and what it writes back '
                'reaches exactly those, also when fates changed in between. The uncertain container holds a copy of '
                'each spill in the same order.',
      over=['histories', 'inputs'],
      text='all histories of two operations (three in thorough) after a release by two spills, all masses, fractions '
           'and fates',
      why='spill container tests cannot be run here; misaligned arrays show only after particular orders of removal, '
          'split and release',
      files=['py_gnome/gnome/spill_container.py', 'py_gnome/gnome/array_types.py', 'py_gnome/gnome/spills/spill.py'],
      mech=[('SpillContainer, FateDataView, SpillContainerPair', 'spill_container.py'),
            ('ArrayType', 'array_types.py')], note=NOTE),
 dict(id='C30', title='Density and viscosity follow the state of the oil, and bulk figures the elements',
      statement='After a step each element on the surface has the density of its present composition and water content, '
                'never above that of the water; evaporation and water uptake never make oil thinner, and fresh oil has '
                'its density and viscosity at the water temperature; other elements keep theirs. The mass balance '
                'gives mass-weighted average density and viscosity, the mass floating at the surface, the '
                'non-weathering mass, and the amount released as the mass of all elements ever released.',
      over=['inputs', 'configurations'],
      text='all component masses, water and evaporated fractions, fates and statuses of up to three elements',
      why='tests use containers in which all elements float; mixtures of fates are a for-all',
      files=['py_gnome/gnome/ops/density.py', 'py_gnome/gnome/ops/viscosity.py',
             'py_gnome/gnome/ops/aggregated_data.py', 'py_gnome/gnome/spill_container.py'],
      mech=[('recalc_density, init_density', 'ops/density.py'), ('recalc_viscosity', 'ops/viscosity.py'),
            ('aggregate', 'ops/aggregated_data.py')], note=NOTE),
 dict(id='C04', title='The mass balance closes over whole model runs',
      statement='After every step of a run the amount released equals the mass of the elements still in the model plus '
                'what the weathering and cleanup processes have booked plus what has left the map, whatever the '
                'elements do: beached mass is the mass of the elements ashore, floating mass that of the elements on '
                'the water, nothing is negative, oil that left the map is gone and counted once, and uncertain '
                'elements lose no mass to weathering.',
      over=['histories', 'inputs', 'configurations'],
      text='all runs of three steps (four in thorough) with up to two elements: any displacements over the map '
           'boundary, any beaching, any shares taken by the processes',
      why='model tests cannot be run here; double counting needs leaving the map, beaching and weathering to fall in '
          'particular steps',
      files=['py_gnome/gnome/model.py', 'py_gnome/gnome/maps/map.py', 'py_gnome/gnome/spill_container.py',
             'py_gnome/gnome/ops/aggregated_data.py'],
      mech=[('Model.step', 'model.py'), ('GnomeMap._set_off_map_status', 'maps/map.py'),
            ('aggregate', 'ops/aggregated_data.py')], note=NOTE),
 dict(id='C05', title='Land is a barrier',
      statement='On a raster map a straight move that passes through or ends in a land cell, or slips diagonally between '
                'two land cells, is stopped: the element ends in the first land cell on its way, marked as beached, '
                'with the cell before it as last water position. A move that meets no land goes through unchanged, and '
                'elements ashore are left alone. Coarser layers of the raster never change the outcome.',
      over=['inputs', 'configurations'],
      text='all rasters of 3 x 3 and 4 x 3 cells and all moves over and around them, with and without coarse layers',
      why='tests try a few moves on a few rasters; land missed between two coarse cells needs a particular move',
      files=['py_gnome/gnome/cy_gnome/cy_land_check.pyx', 'py_gnome/gnome/maps/map.py'],
      mech=[('c_find_first_pixel, check_land, check_land_layers', 'cy_land_check.pyx'),
            ('RasterMap.build_coarser_rasters', 'maps/map.py')], note=NOTE),
 dict(id='C06', title='Beaching, refloating and leaving the map',
      statement='After a step on a raster map an element whose move meets land lies in the land cell hit, is marked as '
                'beached and remembers a position in the last water cell; without land it is where the movers put it, '
                'and never above the surface; outside of the map bounds it is marked as off the map. Beached elements '
                'stay put until refloated, which returns them to their last water position with the probability '
                'given by time step and half life: always for a half life of zero, never for a negative one. Beached '
                'and off-map masses are those of the elements so marked. Land, water and allowed spill positions '
                'agree with the raster and the bounds, on and off the raster.',
      over=['inputs', 'configurations'],
      text='all small rasters, moves, depths, masses, states and random draws',
      why='map tests cannot be run here, and would sample a few moves',
      files=['py_gnome/gnome/maps/map.py', 'py_gnome/gnome/cy_gnome/cy_land_check.pyx'],
      mech=[('RasterMap.beach_elements, refloat_elements, in_water', 'maps/map.py'),
            ('GnomeMap._set_off_map_status', 'maps/map.py')], note=NOTE),
 dict(id='C15', title='Coordinate conversions are inverse, aligned and free of side effects',
      statement='Projecting to pixels and back returns the same point; a whole pixel contains the points that project to '
                'it, and maps back to a point in itself; north is up, the bounding box fits the image and fills it one '
                'way. On rectangular grids of any spacing columns and rows are the intervals of the axes, and points '
                'off the grid are taken to its edge. Metres to degrees and back is the identity, scaled by the '
                'cosine of the reference latitude, depth untouched. None of these change the arrays they are given.',
      over=['inputs', 'configurations'],
      text='all points within 1000 degrees, all bounding boxes, grids of any spacing',
      why='tests convert a few points; alignment and side effects are for-alls',
      files=['py_gnome/gnome/utilities/projections.py'],
      mech=[('GeoProjection, FlatEarthProjection, RegularGridProjection, RectangularGridProjection', 'projections.py')],
      note=NOTE),
 dict(id='C24', title='Output is written for exactly the steps that are due',
      statement='Without an output time step every step is written; with one, the first step at or past each multiple of it, '
                'counted from the start of output; before the start of output nothing; as a single step only the first '
                'at or past the start. The zero and the last step follow their own switches whatever the rest says. '
                'The same holds for backward runs, after rewinding, for output made after the run, and in a model run.',
      over=['inputs', 'histories', 'configurations'],
      text='all time steps from 1 s to an hour, starts of output, switches; forward and backward runs of five steps',
      why='outputter tests cannot be run here; the schedule depends on combinations of switches, steps and direction',
      files=['py_gnome/gnome/outputters/outputter.py', 'py_gnome/gnome/model.py'],
      mech=[('Outputter.prepare_for_model_step, write_output, write_output_post_run', 'outputters/outputter.py'),
            ('Model.write_output', 'model.py')], note=NOTE),
 dict(id='C11', title='Saved steps and output report the state of the run',
      statement='The cache returns for each step exactly the arrays, amounts and time stamp of that step, for certain and '
                'uncertain elements separately, from memory or from disk, whatever the model does later; rewinding '
                'empties it. Weathering and memory output report those same values, for the steps due, and nothing '
                'when switched off.',
      over=['inputs', 'histories', 'configurations'],
      text='all masses, moves and losses in runs of three steps, with and without the disk cache and uncertainty',
      why='cache tests cannot be run here; aliasing of arrays shows only in later steps',
      files=['py_gnome/gnome/utilities/cache.py', 'py_gnome/gnome/outputters/weathering.py',
             'py_gnome/gnome/outputters/memory_outputter.py', 'py_gnome/gnome/model.py'],
      mech=[('ElementCache.save_timestep, load_timestep, rewind', 'utilities/cache.py'),
            ('WeatheringOutput', 'outputters/weathering.py'), ('MemoryOutputter', 'outputters/memory_outputter.py')],
      note=NOTE),
 dict(id='C14', title='A wind reports what was entered, in any units and at any time',
      statement='A wind built from speeds and directions or from components, in m/s, knots, mph or cm/s, through the '
                'constructor, set_wind_data, the timeseries property or the helper functions, gives the entered velocity at '
                'each entry, the linear interpolation of the components between neighbouring entries, and outside of the '
                'series the first or last value if extrapolation is allowed and an error if not; a single entry holds at '
                'all times. What was entered reads back in its own units and the caller\'s data is not changed. A change of '
                'time zone shifts the series by the difference of the offsets and nothing else; entries out of order are '
                'refused.',
      over=['inputs', 'configurations'],
      text='all values and query times for series of one to six entries (nine in the thorough tier), four units, two forms',
      why='wind tests cannot be run here; tests sample a few values in m/s at the entries',
      files=['py_gnome/gnome/environment/wind.py', 'py_gnome/gnome/utilities/timeseries.py',
             'py_gnome/gnome/utilities/convert.py', 'py_gnome/gnome/cy_gnome/cy_ossm_time.pyx',
             'py_gnome/lib_gnome/OSSMTimeValue_c.cpp'],
      mech=[('Wind.at, get_wind_data, set_wind_data, new_set_timeseries', 'environment/wind.py'),
            ('Timeseries.get_timeseries', 'utilities/timeseries.py'),
            ('OSSMTimeValue_c::GetTimeValue (LLVM IR)', 'lib_gnome/OSSMTimeValue_c.cpp')], note=NOTE),
 dict(id='C29', title='Speed and direction convert to components and back',
      statement='Wind and current conversions between (speed, direction) and (u, v) agree with the compass: directions '
                'clockwise from north in [0, 360), winds named by where they come from and currents by where they go, speed '
                'equal to the length of the velocity, for every row; negative speeds and directions outside 0 to 360 are '
                'refused and the input is not changed.',
      over=['inputs'],
      text='all speeds, directions and components, one and two rows',
      why='tests check a handful of directions',
      files=['py_gnome/gnome/utilities/transforms.py'],
      mech=[('r_theta_to_uv_wind/current, uv_to_r_theta_wind/current', 'utilities/transforms.py')], note=NOTE),
 dict(id='C25', title='Diffusion throws elements no further than the coefficients say',
      statement='RandomMover moves floating elements in the water by a uniform draw within sqrt(6 D t) metres north and east '
                '(times the square root of the uncertain factor for uncertain elements, and within a circle on the first '
                'step), with the longitude stretched by latitude, and nothing else, forward and backward in time. '
                'RandomMover3D uses the horizontal coefficient of the layer the element is in, moves it vertically by at most '
                'the sum of the two vertical ranges, reflects it at the surface and at the base of the mixed layer, never '
                'throws it out of the water, and leaves surface elements alone when the surface is allowed.',
      over=['inputs', 'random draws', 'configurations'],
      text='every value of the random source, all diffusion coefficients and steps, all latitudes within 80 degrees',
      why='a random walk is sampled by tests; its range and reflections are for-alls over the draws',
      files=['py_gnome/gnome/movers/random_movers.py', 'py_gnome/gnome/cy_gnome/cy_random_mover.pyx',
             'py_gnome/gnome/cy_gnome/cy_random_mover_3d.pyx', 'py_gnome/lib_gnome/Random_c.cpp',
             'py_gnome/lib_gnome/RandomVertical_c.cpp'],
      mech=[('Random_c::GetMove (LLVM IR)', 'lib_gnome/Random_c.cpp'),
            ('RandomVertical_c::GetMove (LLVM IR)', 'lib_gnome/RandomVertical_c.cpp')], note=NOTE),
 dict(id='C26', title='Wind drift is windage times wind, and windages persist as configured',
      statement='An element released from a substance gets a windage drawn from the whole of its range. At each step of an '
                'active wind mover elements with a persistence up to 900 s get a new one, drawn from the range widened or '
                'narrowed about its middle by sqrt(persistence / |step|); longer, infinite (-1) persistence keeps it; ranges '
                'and persistences stay. PointWindMover then moves elements that float in the water by windage times the '
                'wind at the start of the step times the step, forward or backward, with the longitude stretched by '
                'latitude; submerged, stranded and removed elements stay.',
      over=['inputs', 'random draws', 'configurations'],
      text='all ranges, windages, winds of one or two records, times, latitudes; persistences and steps from a set',
      why='mover tests cannot be run here; windages are random and tests sample them',
      files=['py_gnome/gnome/movers/c_wind_movers.py', 'py_gnome/gnome/utilities/rand.py',
             'py_gnome/gnome/spills/initializers.py', 'py_gnome/gnome/spills/substance.py',
             'py_gnome/lib_gnome/WindMover_c.cpp', 'py_gnome/gnome/cy_gnome/cy_wind_mover.pyx'],
      mech=[('random_with_persistance', 'utilities/rand.py'), ('PointWindMover', 'movers/c_wind_movers.py'),
            ('WindMover_c::GetMove (LLVM IR)', 'lib_gnome/WindMover_c.cpp')], note=NOTE),
 dict(id='C27', title='Droplets rise at the speed of their size',
      statement='RiseVelocityMover changes the depth of elements in the water by minus rise speed times step, forward and '
                'backward, and nothing else. The rise speed of a droplet follows the law of Stokes below 0.2 mm, form drag '
                'from 1 cm, and in between a cubic blend that joins both without a jump and stays between them. '
                'A subsurface release draws droplet sizes (or speeds) from its distribution and stores the speed that '
                'belongs to the size and the density of the oil, for new elements only.',
      over=['inputs', 'random draws'],
      text='all droplet sizes from 1 micron to 20 cm, all oil densities below the water\'s, three viscosities; all steps',
      why='tests compare a few droplet sizes against stored numbers',
      files=['py_gnome/gnome/movers/vertical_movers.py', 'py_gnome/gnome/cy_gnome/cy_rise_velocity_mover.pyx',
             'py_gnome/lib_gnome/RiseVelocity_c.cpp', 'py_gnome/gnome/spills/initializers.py',
             'py_gnome/gnome/spills/release.py'],
      mech=[('RiseVelocity_c::get_move, GetRiseVelocity (LLVM IR)', 'lib_gnome/RiseVelocity_c.cpp'),
            ('InitRiseVelFromDropletSizeFromDist', 'spills/initializers.py')], note=NOTE),
 dict(id='C34', title='What is saved loads back the same',
      statement='A mover, weatherer, environment object, release, substance, spill, distribution, outputter or model that is '
                'saved to a file or turned into its web form, and loaded again, has the class, the name and every setting it '
                'had - numbers, times, switches, active range, time series - and equals the original. The objects it refers '
                'to come back too, as copies of their own, shared where they were shared. An update from the web form changes '
                'the settings it names, leaves the others, and reports a change.',
      over=['inputs', 'configurations'],
      text='every value of every numeric and time setting of the classes listed, switches on and off, given at construction or later',
      why='persistence tests compare a few default objects; a setting lost in a schema shows for values other than the default',
      files=['py_gnome/gnome/gnomeobject.py', 'py_gnome/gnome/persist/base_schema.py', 'py_gnome/gnome/persist/extend_colander.py',
             'py_gnome/gnome/movers', 'py_gnome/gnome/weatherers', 'py_gnome/gnome/environment', 'py_gnome/gnome/spills',
             'py_gnome/gnome/outputters', 'py_gnome/gnome/model.py'],
      mech=[('GnomeId.save, load, serialize, deserialize, update_from_dict', 'gnomeobject.py'),
            ('ObjType, ObjTypeSchema', 'persist/base_schema.py')], note=NOTE),
 dict(id='C21', title='Floating oil takes up water once weathered enough, up to its maximum',
      statement='Emulsification starts for an element when the given number of hours has passed or, if none is given, when '
                'its evaporated fraction reaches the threshold of the oil; before that its water fraction is zero. From '
                'then on the interfacial area grows in each step by k dt exp(-k (age - start) / S_max), with k from the '
                'square of the wind (or of the wind that belongs to a given wave height, if stronger), never shrinks, and '
                'the water fraction stays within zero and the maximum of the oil. No mass is lost, only floating oil is '
                'affected, only while the process is on and active, and the reported water content is the average '
                'weighted by mass.',
      over=['inputs', 'configurations', 'histories'],
      text='all evaporated fractions, thresholds, winds, interfacial areas, maxima and start times within the bounds',
      why='weatherer tests cannot be run here and follow one oil; start, cap and memory of the start are a for-all',
      files=['py_gnome/gnome/weatherers/emulsification.py', 'py_gnome/lib_gnome/Weatherers_c.cpp',
             'py_gnome/gnome/cy_gnome/cy_weatherers.pyx', 'py_gnome/gnome/environment/waves.py'],
      mech=[('Emulsification.weather_elements', 'weatherers/emulsification.py'), ('emulsify', 'lib_gnome/Weatherers_c.cpp'),
            ('Waves.get_emulsification_wind', 'environment/waves.py')], note=NOTE),
 dict(id='C22', title='Slicks spread, never shrink, and stop at their thickness limit',
      statement='In a step the spreading area of a floating element past the first minutes grows by the gravity-viscous and '
                'the diffusive term, never shrinks, and stops where the initial volume is as thin as the limit that the '
                'viscosity of the oil gives. A release begins with the gravity spreading area of its whole volume, shared '
                'by its elements. Langmuir circulation leaves covered a fraction between a tenth and one, falling with wind '
                'and rising with the thickness of the own spill, and the area is that part of the spreading area. No mass '
                'is lost, and nothing changes while the process is off or inactive.',
      over=['inputs', 'configurations'],
      text='all areas, densities, winds and amounts within the bounds, one and two spills',
      why='spreading tests cannot be run here; caps and independence of spills concern every area and mix',
      files=['py_gnome/gnome/weatherers/spreading.py', 'py_gnome/gnome/spills/release.py'],
      mech=[('FayGravityViscous.update_area, weather_elements', 'weatherers/spreading.py'),
            ('Langmuir.weather_elements', 'weatherers/spreading.py'),
            ('Release.initialize_elements_post_substance', 'spills/release.py')], note=NOTE),
 dict(id='C31', title='Water keeps its values in any unit; waves follow wind, fetch or given height',
      statement='A Water value given in any valid unit, at construction, by set or by assignment, is read back as given, '
                'converted to the unit asked for and, by default, to the units of the model; a wrong unit is refused without '
                'effect, and other values and other Water objects keep theirs. Without a given wave height the rms height '
                'is that of the wind, limited by the fetch and by 30 m; with one it is 0.707 of the given height, and '
                'whitecaps are those of the wind that raises such waves. The whitecap fraction is between 0 and 1 and '
                'follows wind and salinity, the dissipated energy follows the square of the height, and the wind used for '
                'emulsification is the actual one or, if stronger, the one that belongs to the given height.',
      over=['inputs', 'configurations'],
      text='all winds, fetches, wave heights and water values within the bounds, in each unit listed',
      why='environment tests sample a few winds and units; limits and unit mixes concern every value',
      files=['py_gnome/gnome/environment/water.py', 'py_gnome/gnome/environment/waves.py',
             'py_gnome/gnome/utilities/weathering/adios2.py', 'py_gnome/gnome/utilities/weathering/lehr_simecek.py'],
      mech=[('Water.get, set, units', 'environment/water.py'), ('Waves.get_value, get_emulsification_wind', 'environment/waves.py'),
            ('Adios2', 'utilities/weathering/adios2.py')], note=NOTE),
 dict(id='C28', title='A running average is the mean wind speed of the past hours',
      statement='A RunningAverage of a wind gives, at equal steps of an hour (or of the smallest gap of the wind, where that is '
                'shorter) from the start of the wind, the mean over the past hours of the wind speed taken hour by hour '
                '(trapezoids); hours before the start of the wind count with its first value, whether or not the wind allows '
                'extrapolation. Between those steps the average is linear; its second component is zero. For winds longer '
                'than two days the averages cover the two days from the model time on and follow the model time when it '
                'leaves them. A changed wind or number of hours shows from the next run on; the wind itself is not changed.',
      over=['inputs', 'configurations'],
      text='all speeds of winds of one to four entries, one to three past hours, short and long winds, all times in between',
      why='its tests cannot be run here; they use one wind whose average is constant',
      files=['py_gnome/gnome/environment/running_average.py', 'py_gnome/gnome/cy_gnome/cy_ossm_time.pyx',
             'py_gnome/lib_gnome/OSSMTimeValue_c.cpp'],
      mech=[('RunningAverage.get_value, get_timeseries, prepare_for_model_run/step', 'environment/running_average.py'),
            ('OSSMTimeValue_c::CalculateRunningAverage (LLVM IR)', 'lib_gnome/OSSMTimeValue_c.cpp')], note=NOTE),
 dict(id='C35', title='Tide flats hold the oil exactly while they are dry',
      statement='On a TideflatMap an element in the water that ends a step over a dry tide flat gets the on_tideflat status, '
                'and gets back to in_water at the first refloating at which the flat is wet there; no other element changes '
                'state through the flat, and none is moved by it. Landfall on the enclosed map is decided first and elements '
                'on land, off the map or to be removed are never put on the flat; the enclosed map refloats as it would '
                'alone and answers everything else. A SimpleTideflat is dry exactly inside of its polygon from the first to '
                'the last dry time (inclusive), and wet otherwise.',
      over=['inputs', 'histories', 'configurations'],
      text='all points and times for three forms of flat; all states of up to three elements, all answers of the flat over '
           'up to three steps; all small land maps below it',
      why='the map tests cannot be run here; they follow a single scenario',
      files=['py_gnome/gnome/maps/tideflat_map.py', 'py_gnome/gnome/maps/map.py'],
      mech=[('TideflatMap.beach_elements, refloat_elements', 'maps/tideflat_map.py'),
            ('SimpleTideflat.is_dry, TideflatBase.is_wet', 'maps/tideflat_map.py')], note=NOTE),
 dict(id='C37', title='Ice slows wind, current and diffusion by the 80-20 rule, per point',
      statement='IceAwareCurrent gives the velocity of the water where less than 20 percent of the surface is ice, that of '
                'the ice from 80 percent on, and the straight line between the two in between; IceAwareWind gives all of the '
                'wind, none, and a share falling along the same line, in every coordinate system, without touching its '
                'direction; IceAwareRandomMover shortens each draw by that share and moves only floating elements in the '
                'water; each point has its own coverage. Gridded currents and winds are turned by the angle of the grid, a '
                'current has no vertical part at the surface and there is no wind under water; weathering gets the wind '
                'speed, at least the minimum it asks for, less what the ice takes.',
      over=['inputs', 'configurations'],
      text='all velocities, coverages, depths and minimum speeds at one or two points; every value of the random source',
      why='the tests of these objects need data files and packages that cannot be had here, and sample a few places',
      files=['py_gnome/gnome/environment/environment_objects.py', 'py_gnome/gnome/movers/random_movers.py',
             'py_gnome/gnome/weatherers/core.py'],
      mech=[('IceAwareCurrent.at, IceAwareWind.at, GridCurrent.at, GridWind.at', 'environment/environment_objects.py'),
            ('IceAwareRandomMover.get_move', 'movers/random_movers.py'),
            ('Weatherer.get_wind_speed', 'weatherers/core.py')], note=NOTE),
 dict(id='C36', title='Outputs show the elements and amounts of their step',
      statement='For every step written, GeoJSON, spill JSON and binary output have exactly one entry for each element of '
                'each container, with its own longitude and latitude, mass, status and spill number (to the rounding asked '
                'for), forecast elements as forecast and uncertain ones as uncertain, under the time of the step; the '
                'weathering output and the oil budget table have the forecast\'s amounts of that step, each under its own '
                'name or heading. Files hold the same as what is returned, one file (budget: one row) per step written; '
                'files of the same kind left by an earlier run are removed at the start of a run, other files are not '
                'touched; an output that is switched off returns and writes nothing.',
      over=['inputs', 'histories', 'configurations'],
      text='runs of three or four steps of two spills moved and losing oil in any way, with and without uncertain elements; '
           'files read back',
      why='the outputter tests cannot be run here; they count files and look at a few fields of one run',
      files=['py_gnome/gnome/outputters/geo_json.py', 'py_gnome/gnome/outputters/json.py',
             'py_gnome/gnome/outputters/weathering.py', 'py_gnome/gnome/outputters/oil_budget.py',
             'py_gnome/gnome/outputters/binary.py', 'py_gnome/gnome/outputters/outputter.py'],
      mech=[('TrajectoryGeoJsonOutput', 'outputters/geo_json.py'), ('SpillJsonOutput', 'outputters/json.py'),
            ('WeatheringOutput', 'outputters/weathering.py'), ('OilBudgetOutput', 'outputters/oil_budget.py'),
            ('BinaryOutput', 'outputters/binary.py')], note=NOTE),
 dict(id='C32', title="An oil's density, viscosity and vapor pressure follow its measurements",
      statement='The density of a fresh oil at a measured temperature is the measured one, between two measured '
                'temperatures it follows the line between the two measurements around it, above the highest it falls and '
                'below the lowest it rises by 0.0008 per kelvin (0.0009 for an API above 30), but no further than at the '
                'pour point or the lowest measured temperature, whichever is lower; measurements of weathered oil '
                'do not count and the order of the measurements does not matter; several temperatures at once give the '
                'same as one by one. Viscosity is positive, falls with temperature and passes through one or two measured '
                'values (near three). Vapor pressure is positive, grows with temperature, equals the atmospheric '
                'pressure at the boiling point of each component, and is given for each component by its own boiling point.',
      over=['inputs', 'configurations'],
      text='all tables of up to three densities, all temperatures and pour points; all single viscosities and some tables; '
           'all boiling points',
      why='the oil tests cannot be run here; they compare a few sample oils at a few temperatures',
      files=['py_gnome/gnome/spills/gnome_oil.py'],
      mech=[('GnomeOil.density_at_temp, kvis_at_temp, vapor_pressure', 'spills/gnome_oil.py')], note=NOTE),
 dict(id='C33', title='What a response system takes out of the oil is booked, and only that',
      statement='The oil that a ROC response system (Burn, Skim or Disperse) takes in a step leaves the elements, '
                'never more from an element than it has, with the composition of each element unchanged and its mass '
                'still the sum of its components; it is booked once in the mass balance (boomed and burned for a burn, '
                'skimmed for a skimmer, chem_dispersed for spraying, which also leaves the floating total), and once under '
                'the own entry of the system. Burn and Skim leave elements that are not on the surface alone; the phases of '
                'a step are never of negative length, and those of Burn and Skim last the step. Nothing is taken or '
                'booked by a system that is switched off or outside of its periods of activity.',
      over=['inputs', 'histories'],
      text='all masses and compositions of one or two elements, up to three steps in a row; all times of a step relative to '
           'the periods of activity',
      why='the response tests cannot be run here, and check a few amounts for one oil and one time series',
      files=['py_gnome/gnome/weatherers/roc.py'],
      mech=[('Burn, Skim, Disperse (weather_elements), Response', 'weatherers/roc.py')], note=NOTE),
 dict(id='C12', title='A run depends on its own settings alone, and repeats after rewinding',
      statement='A model that is rewound, at the end or half way, runs again exactly as before: the same elements and the '
                'same mass balance at each step, random values included (they are seeded when it is rewound). '
                'The state of movers, weatherers and response systems starts afresh with each run, and a run after a setting '
                'was changed is that of a model which had the setting from the start. '
                'Another model stepped or rewound in between does not change a run that draws no random values. '
                'Neither does simulating uncertainty change the forecast, nor components that are switched off, spills '
                'that are off and outputters.',
      over=['histories', 'configurations', 'inputs'],
      text='all velocities, amounts, efficiencies, winds, waves and random values within the bounds, rewound after any of '
           'the tested numbers of steps',
      why='state that survives a rewind shows only in a second run, from some states; tests run a model once',
      files=['py_gnome/gnome/model.py', 'py_gnome/gnome/utilities/rand.py', 'py_gnome/gnome/spill_container.py',
             'py_gnome/gnome/movers/py_current_movers.py', 'py_gnome/gnome/movers/py_wind_movers.py',
             'py_gnome/gnome/weatherers/cleanup.py', 'py_gnome/gnome/weatherers/roc.py'],
      mech=[('Model.rewind, setup_model_run', 'model.py'), ('seed', 'utilities/rand.py'),
            ('prepare_for_model_run', 'weatherers/*.py, movers/*.py')], note=NOTE),
]
NA = []
NA_TEXT = '''
No listed property is claimed by another technique. Parts of the repository about which no property is stated, because their
code cannot be encoded within reach: file formats (netCDF, KMZ, shapefile, GeoTIFF; C libraries without source here),
`gridded`-based interpolation (package absent), shapely-based polygon releases, Shio tide prediction (large tables and
float-time searches), the multi-process model broadcast (zmq/tornado processes), and statistical quality of random numbers.
'''
COST = {}
CAUGHT = {}
TAIL = '''
Apart from the seeds kept under `seeded/`, each check is tried against one-line mutants of the code it is anchored in
(about two to six per property); those that change behaviour inside the stated property are caught, and misses led to
stronger checks.

## False alarms met and what was done

* Oil heavier than water in the form-drag range gives a NaN rise speed: outside of the stated property (droplets rise).
* `OSSMTimeValue_c` treats times within 1e-5 s of an entry as that entry: tolerated by the oracle.
* `RectangularGridProjection` clips to the grid by design: the property says so.
* Replays that do not confirm (weak axioms for exp/pow) are never alarms.
'''
