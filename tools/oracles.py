"""Per property: how the solver decides it (DESIGN.md)"""
ORACLE = {
'C01': 'One or two calls of weather_elements on a container whose masses, water fractions, fates, amounts, rates and window are symbolic. '
       'Asserted: booked = lost, 0 <= booked <= held and <= rate x active part of the step, components keep their ratios. The requested amount is '
       'recomputed in the harness from the user-level amount, units and efficiency, not from private attributes.',
'C02': 'Runs of 1-5 steps with symbolic start, stop, step length and amount; the total removed is compared with amount x efficiency x (part of the window the steps cover).',
'C03': 'One step of each weatherer with symbolic masses, areas, wind, wave, sediment and oil state. exp/log/pow are uninterpreted with monotonicity and range axioms, '
       'so the accounting is decided for any rate, and the half-life closed form exactly.',
'C04': 'Whole Model runs (start, moves onto land / off the map / free, weathering with arbitrary loss fractions, sub-steps, skimmer); after each step released = in the model + booked + off map.',
'C05': 'Every land/water raster of the bound is one bit vector of symbols; the walked line of the Cython code (parsed from the .pyx) is compared with a declarative specification of the '
       'first land cell on the Bresenham line, diagonals included; coarse layers are compared with the walk on the fine raster.',
'C06': 'RasterMap.beach_elements / refloat_elements / on_map / in_water / allowable_spill_position on symbolic rasters, positions and random draws, against a cell-by-cell specification.',
'C07': 'The release pattern of Model.step over symbolic times; counts compared with the linear schedule, positions with the point/line/grid.',
'C08': 'Symbolic amount, ten units; mass recomputed with NIST unit factors in the harness.',
'C09': 'Histories of two (three) operations from release/remove/split with symbolic masks, fractions and fates, against a list-of-records model of the elements.',
'C10': 'get_move of Python movers over a velocity field that is linear in space and piecewise in time with symbolic coefficients; expected displacement by the textbook Euler/RK2/RK4 formulas.',
'C11': 'Model runs; a deep copy of the state taken by the harness after each step is compared with what cache and outputters give back later.',
'C13': 'Sequences of operations with symbolic kind and position, against a Python list; all observations (iteration, len, index, slices, lookup, events) compared.',
'C28': 'RunningAverage over a real Wind; OSSMTimeValue_c::CalculateRunningAverage is executed from LLVM IR. The whole average series is compared with trapezoids of hourly speeds computed by the harness.',
'C32': 'GnomeOil built from symbolic tables; density_at_temp compared with the measurement, the expansion law outside of the table and the straight line inside (up to the square of the step over the density); viscosity and vapor pressure through monotonicity and their values at the measured temperatures, exp as a bounded, strictly growing function.',
'C36': 'Model runs with a mover and a weatherer of any (symbolic) effect; each entry returned and each file read back is compared with the arrays and amounts of the containers after the step. Numbers in files are marks standing for the symbolic values (symex/outenc.py).',
'C35': 'TideflatMap over GnomeMap and RasterMap; statuses after refloat and beach compared with a state machine over the answers of the flat (symbolic flags per element and step); SimpleTideflat compared with inequalities of the polygon and the times.',
'C14': 'Wind through all construction paths; the OSSMTimeValue_c interpolation is executed from LLVM IR. Values at symbolic times compared with linear interpolation by the harness.',
'C15': 'to_pixel/to_lonlat/asint and grid projections on symbolic points and boxes; inverse, containment and no-change-of-arguments assertions.',
'C18': 'CrossingsTest / point_in_poly (C compiled to LLVM IR, called through the Cython glue) on polygons with symbolic vertices, against the even-odd definition; shared-edge rule as a two-polygon query.',
'C23': 'Model runs with recording movers and weatherers; symbolic durations and step lengths; calls, times and ages against the clock arithmetic.',
'C24': 'Outputter.prepare_for_model_step over runs of 5 (7) steps with symbolic output step, start and switches, against a declarative rule per step; also through Model runs and write_output_post_run.',
'C25': 'Random_c::GetMove and RandomVertical_c::GetMove from LLVM IR; each rand() call is a fresh symbolic integer, so the claim is over all draws. Replay feeds the draws to the real library (LD_PRELOAD).',
'C26': 'random_with_persistance with symbolic uniform draws; PointWindMover/WindMover_c::GetMove from LLVM IR with symbolic wind records, windage, depth, status.',
'C27': 'GetRiseVelocity from LLVM IR on symbolic droplet sizes and densities; ranges and continuity as polynomial queries (nlsat).',
'C29': 'The transforms on symbolic rows; sin/cos/atan2 uninterpreted with the identities the claims need, exact at multiples of 45 degrees.',
'C30': 'WeatheringData.weather_elements and spill-container aggregation with symbolic composition, water content and fates.',
'C34': 'Objects built with symbolic settings (through the real colander schemas, with symbolic leaves), saved to a zip or web form and loaded; every setting of the copy compared with the original and with what was given; '
       'identity of shared references; one symbolic setting updated from the web form.',
'C21': 'Emulsification.weather_elements (with the C++ emulsify executed from LLVM IR) on symbolic evaporated fractions, thresholds, winds and interfacial areas, against the uptake law and its bounds.',
'C22': 'FayGravityViscous, Langmuir and the initial area of a release on symbolic areas, densities, winds and amounts, against the spreading law, the thickness limit and the coverage bounds.',
'C31': 'Water with symbolic values in chosen units, read and set in others; Waves with symbolic winds, fetches and heights against the stated relations.',
'C33': 'ROC Burn, Skim and Disperse run for up to three steps on elements with symbolic component masses; each step is compared with what the elements held before: conservation, proportion, the two bookings; and with a symbolic model time against the periods of activity.',
'C12': 'Two executions of the real run, compared value by value: after rewinding, beside another model, with uncertainty, with components that are off; random sources are symbolic streams indexed by seed and position.',
'C37': 'GridCurrent, GridWind and their ice-aware kinds at points with symbolic velocities, coverages and depths, against the piecewise linear share written out as a formula; the interpolation of the package gridded is an input.',
}
