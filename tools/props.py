"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'gravity_toolkit/'
# id: (title, statement, over, quantifier text, why tests cannot settle it, files, [(mechanism, where)], observe_at)
P = {}
def p(id, title, statement, over, text, why, files, mech, obs):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=[G + f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None))

p('C01', 'Month numbers and calendar months are a bijection',
  'The month number of a calendar month is the count of months from December 2001 (January 2002 is 1), and converting a month number to a year and month and back, or a year and month to a number and back, returns the original, for single values and for arrays. Consecutive calendar months have consecutive numbers across year ends. A date given only as a decimal year gets the number of the twelfth of the year it falls in.',
  ['inputs'], 'every year and calendar month, every month number (also before 2002), arrays of any length', 'The tests convert a handful of dates; the bijection is over all months.',
  ['time.py'], [('calendar date to month number', G + 'time.py calendar_to_grace'), ('month number to calendar date', G + 'time.py grace_to_calendar')], ['returned month numbers, years and months'])
p('C02', 'Calendar dates and day counts agree for every civil date',
  'Every year has the month lengths of the Gregorian calendar, with leap days in years divisible by 4 except centuries not divisible by 400. The day count of a calendar date with its clock time is the number of days since the modified Julian epoch (or the requested epoch, times the requested scale), and the calendar date computed from a Julian day is the one that day count names, so that dates survive the round trip. The Julian day of a decimal year is that of the same fraction of its calendar year, and arrays are converted element by element.',
  ['inputs'], 'every date with clock time in years 1600 to 3999 (conversion from Julian days: from 17 November 1858), arrays of any length, all epochs and scales', 'The tests check one date per function; the calendar rules only differ at century years, month ends and leap days.',
  ['time.py'], [('month lengths', G + 'time.py calendar_days'), ('calendar date to days', G + 'time.py convert_calendar_dates'), ('Julian day to calendar date', G + 'time.py convert_julian'), ('decimal year to Julian day', G + 'time.py calendar_to_julian')], ['returned days and calendar dates'])
p('C03', 'Decimal years are the elapsed fraction of the calendar year',
  'A calendar date converts to its year plus the elapsed days, hours, minutes and seconds since the start of 1 January over the length of that year (365 or 366 days); a clock time not given is midnight, a day not given is the middle of the month, and a day of the year can be given in place of month and day. Later dates have later decimal years within and across years, and the decimal year of the middle of a month carries the month number of that month. Single dates give a series of one and arrays are converted element by element.',
  ['inputs'], 'every calendar date and clock time in the Gregorian calendar, arrays of any length', 'The tests sample one conversion per test run.',
  ['time.py'], [('calendar date to decimal year', G + 'time.py convert_calendar_decimal')], ['returned decimal years'])
p('C04', 'Elapsed times keep their instant when epochs and units change',
  'Converting an elapsed time from one epoch to another shifts it by exactly the seconds between the epochs and multiplies by the requested scale, so that converting back restores it; dates are counted in seconds from the stated epoch. The named epochs of the toolkit are the instants they name, and a unit string such as "days since 2000-01-01" gives the seconds of its unit and the instant of its epoch. Time zone offsets are removed when dates are parsed.',
  ['inputs'], 'every elapsed time, epoch, scale and unit name', 'The tests use two epochs and a few unit strings.',
  ['time.py'], [('epoch conversion', G + 'time.py convert_delta_time, convert_datetime'), ('unit strings', G + 'time.py parse_date_string, split_date_string, parse')], ['returned elapsed times, scales and epochs'])
p('C05', 'Special months are separated without inventing or losing any',
  'Adjusting a series of month numbers gives back one month per input in the original order: series with no repeated month are returned unchanged, and a month counted twice is separated into itself and a free neighbour: the month before when the series has the month two before, or the month after, or ends there, and the month after otherwise or when the month before is taken. The documented special months of the mission (for example April and May 2015) come out as they are published when the centre-date rule counted one of them twice.',
  ['inputs', 'histories'], 'every increasing series of month numbers from 1 on with isolated repeats', 'The tests do not reach the adjustment; it depends on which neighbouring months are present.',
  ['time.py'], [('adjustment of repeated months', G + 'time.py adjust_months')], ['returned month numbers'])
p('C06', 'Harmonic arithmetic acts on every coefficient and leaves operands alone',
  'Adding, subtracting, multiplying and dividing spherical harmonic objects acts coefficient by coefficient up to the common degree and order; scaling, raising to a power, convolving with degree factors, drift (rate times time since the epoch) and temporal mean (of all or selected epochs, optionally removed) do what they say for every degree, order and epoch. Operations that return new objects leave their operands unchanged. Degree amplitude and complex form are those of the current coefficients.',
  ['inputs', 'histories', 'configurations'], 'all degrees and orders, truncations of both operands, any number of epochs, any coefficients', 'The tests compare sums on one file; aliasing, truncation differences and series are not sampled.',
  ['harmonics.py'], [('in-place arithmetic', G + 'harmonics.py add, subtract, multiply, divide'), ('new objects', G + 'harmonics.py scale, power, drift'), ('means and amplitude', G + 'harmonics.py mean, amplitude, ilm, convolve')], ['clm, slm, time and month of the objects'])
p('C07', 'Restructuring harmonics neither loses nor mixes coefficients',
  'Flattening to vectors and expanding back restores every coefficient of the degree-order triangle; merging a list of objects into a series and indexing, subsetting or iterating the series gives back each epoch with its time and month. Truncation keeps exactly the degrees from the minimum up to the new maximum and the orders up to the new maximum order and zeroes or drops the rest, and added dimensions are removed again without change. Copies are independent of their originals, and a subset for a month the series lacks is refused.',
  ['inputs', 'histories', 'configurations'], 'all maximum degrees and orders, any number of epochs, any coefficients', 'The tests restructure one file of one size.',
  ['harmonics.py'], [('vector form', G + 'harmonics.py flatten, expand'), ('series', G + 'harmonics.py from_list, to_list, index, subset, __iter__'), ('truncation', G + 'harmonics.py truncate'), ('shape', G + 'harmonics.py expand_dims, squeeze, copy, zeros, zeros_like')], ['clm, slm, time, month, lmax, mmax and shape'])
p('C08', 'Harmonics written to a file read back unchanged',
  'Coefficients of any maximum degree and order written as text, netCDF4 or HDF5 and read back have the same value at every degree and order (text: single epochs, to its printed precision) and the same date and month (text: the month of its date; undated files none), for single epochs and series; writing leaves the object unchanged. Text in any order, with Fortran exponents or with terms missing reads to the listed values and zeros. Units, names and titles given or owned are those read. Index files list every file of a series once, from the home directory where they are within it, and give back the series in order of date or, unsorted, as listed, skipping comments. Files compressed by gzip or zip and files held in memory read the same as plain ones, names of files are found in any case, missing files are refused, and dictionaries give back coefficients, dates and attributes in independent copies.',
  ['inputs', 'configurations', 'histories'], 'all coefficients, truncations and formats', 'The tests round-trip one shipped file.',
  ['harmonics.py'], [('text', G + 'harmonics.py from_ascii, to_ascii'), ('netCDF4 and HDF5', G + 'harmonics.py to_netCDF4, from_netCDF4, to_HDF5, from_HDF5'), ('lists', G + 'harmonics.py from_index, to_index, from_file, to_file')], ['the object read back'])
p('C09', 'Grid arithmetic acts pointwise and respects invalid cells',
  'Offsetting and scaling a grid or a series of grids by a number, a series of numbers, a grid or a series of grids, raising it to a power, and sums, means, maxima and minima over time act on every valid cell and epoch as the named operation does; a cell invalid in the operand (for reductions: at any of the epochs) is invalid in the result and holds the fill value. Removing the temporal mean leaves the anomaly of every cell with a valid mean. Updating the mask marks exactly the cells that hold the fill value or were masked; replacing the fill value or masking with another mask changes only the invalid cells, of errors too. Scaling factors are the least squares fit of one series to another with the root mean square of its residual. Operations that return new objects leave their operands unchanged.',
  ['inputs', 'histories', 'configurations'], 'all grid sizes, masks, fill values and values, single grids and series', 'The repository has no tests of grid arithmetic.',
  ['spatial.py'], [('arithmetic', G + 'spatial.py offset, scale, power, sum, mean, max, min'), ('mask', G + 'spatial.py update_mask, replace_invalid, replace_masked'), ('scaling factors', G + 'spatial.py kfactor')], ['data, mask, error and fill value'])
p('C10', 'Restructuring grids neither loses nor moves cells',
  'Merging a list of grids into a series (sorted by date unless asked otherwise) and indexing, subsetting or iterating it gives each grid back with its date; adding and removing the time dimension, flipping an axis twice (latitude, longitude or time with its dates), and transposing and back restore every cell, its mask, its error and its coordinates. Extending a global grid wraps one column around on each side. Copies, flipped, transposed, indexed and merged grids are independent of their originals. Latitude and longitude spacing, extent and shape reported by a grid are those of its coordinate arrays.',
  ['inputs', 'histories', 'configurations'], 'all grid sizes, axes, masks and numbers of epochs', 'The repository has no tests of grid restructuring.',
  ['spatial.py'], [('series', G + 'spatial.py from_list, index, subset, __iter__'), ('axes', G + 'spatial.py expand_dims, squeeze, flip, transpose, extend_matrix'), ('copies and geometry', G + 'spatial.py copy, zeros_like, spacing, extent, shape')], ['data, mask, error, lat, lon, time and month'])
p('C11', 'Grids written to a file read back unchanged',
  'Grids of at least two latitudes and longitudes written as netCDF4 or HDF5 and read back have the same values, the same validity (of grids with a fill value), coordinates, errors, fill value and dates with their months, for single grids and series under any variable names; units and titles are those written, and grids stored by longitude and latitude are turned. Text lists exactly the valid cells of a grid and reads back, from its spacing and numbers or its extent, to the same values and date to the printed precision at their coordinates, with all other cells invalid; scaling factors keep their errors and magnitudes as text. Index files list every file of a series once and give back the series in order of date or as listed. Compressed files and files held in memory read the same as plain ones; dictionaries give back grids in independent copies.',
  ['inputs', 'configurations'], 'all grid sizes, values, masks and formats', 'The repository has no round-trip tests of grids.',
  ['spatial.py'], [('text', G + 'spatial.py from_ascii, to_ascii'), ('netCDF4 and HDF5', G + 'spatial.py to_netCDF4, from_netCDF4, to_HDF5, from_HDF5')], ['the object read back'])
p('C12', 'Unit factors are the physical conversions they name',
  'For every degree the factors for fully normalised, cm and mm water equivalent, mm geoid height, crustal uplift and horizontal deformation, viscoelastic uplift, microGal, pascal and millibar units equal their closed forms in the density, radius, gravity and load Love numbers of the Earth model, with the elastic and ellipsoidal options applied only when asked. Factors from grids to coefficients are the inverse of those from coefficients to grids up to the area of the unit sphere. The Earth parameters derived from the ellipsoid are consistent and unit codes and names select the matching factors.',
  ['inputs', 'configurations'], 'every maximum degree, every Love number with 1 + k > 0, every ellipsoid, every option', 'The tests compare one factor for one set of Love numbers.',
  ['units.py'], [('coefficient factors', G + 'units.py harmonic'), ('grid factors', G + 'units.py spatial'), ('Earth parameters', G + 'units.py rad_e, rho_e, b_axis, mass'), ('selection', G + 'units.py bycode, get_attributes')], ['factor arrays per degree'])
p('C13', 'Geocenter conversions are inverse to each other',
  'Cartesian geocenter motion in mm and degree-one coefficients convert into each other with the sign and axis convention C10-Z, C11-X, S11-Y and the factor of the Earth radius, and converting there and back restores every epoch. Arithmetic, scaling, powers and means of a geocenter series act on all three components of every epoch, and copies are independent. Geocenter files of the supported layouts are read to the values, errors, dates and months listed in them.',
  ['inputs', 'histories'], 'all components, radii and numbers of epochs', 'The repository has no tests of geocenter conversions.',
  ['geocenter.py'], [('conversions', G + 'geocenter.py to_cartesian, from_cartesian, to_cmwe, to_mmwe'), ('arithmetic', G + 'geocenter.py add, subtract, multiply, divide, scale, power, mean, copy, subset')], ['C10, C11, S11, X, Y, Z'])
p('C14', 'Associated Legendre functions are the normalised solutions',
  'The associated Legendre functions of every algorithm offered have the fully normalised values of their defining recurrences for every degree, order and argument; those of order above the degree are zero, the algorithms agree, and the Legendre polynomials are the order-zero functions. The first derivatives returned alongside are the derivatives with respect to colatitude, (l x P(l,m) - f(l,m) P(l-1,m)) / sin(colatitude). At the poles, where the sine is zero, machine epsilon takes its place. A truncated maximum order gives the same values as the full table, in arrays cut at that order. The functions of one degree are those of the table, unnormalised ones with the phase of Condon and Shortley.',
  ['inputs', 'configurations'], 'all maximum degrees of at least one, orders and arguments from -1 to 1, any number of arguments', 'The tests compare algorithms at one degree and one set of latitudes.',
  ['associated_legendre.py', 'legendre.py', 'legendre_polynomials.py'], [('recurrences', G + 'associated_legendre.py plm_colombo, plm_holmes, plm_mohlenkamp'), ('unnormalised functions', G + 'legendre.py'), ('polynomials', G + 'legendre_polynomials.py')], ['returned function and derivative arrays'])
p('C15', 'Synthesis is the double sum of coefficients and basis functions',
  'The grid synthesised from coefficients is, at every latitude and longitude, the sum over degrees and orders of the Legendre function times C cos(m lon) + S sin(m lon), times the unit factor and smoothing weight of the degree where these are asked for; coefficients outside the requested range of degrees and orders do not contribute. The Fourier transform and the sum at points (Clenshaw) give that same sum. Rows are the longitudes and columns the latitudes, in the order of the coordinates given. Legendre functions passed in and computed give the same grid. Gradients are the derivatives of the sum, eastward then northward, and geostrophic currents follow from differences of neighbouring degrees; both count only the requested degrees. The inputs are not modified.',
  ['inputs', 'configurations'], 'all coefficients, degree ranges, coordinates and Legendre tables; maximum degrees of at least one for the sum at points, and even for gradients', 'The tests synthesise one set of coefficients on one grid and compare with a stored grid.',
  ['harmonic_summation.py', 'clenshaw_summation.py', 'harmonic_gradients.py'], [('grid synthesis', G + 'harmonic_summation.py'), ('point summation', G + 'clenshaw_summation.py'), ('gradients', G + 'harmonic_gradients.py')], ['synthesised grids'])
p('C16', 'Analysis integrates the grid against every basis function',
  'The coefficients computed from a grid are, at every degree and order, the area-weighted sum over its cells of the grid times the Legendre function times the cosine or sine of the order times longitude, times the unit factor of the degree: zero where order exceeds degree, and zero below the minimum degree. The area weight is the sine of colatitude times the spacings, or the given mass over the squared radius for loads in gigatonnes. The result does not depend on whether Legendre functions are passed in or computed, nor on whether rows of the grid are latitudes or longitudes; longitudes may be negative; inputs are not modified. Analysis by Fourier series, for grids of cells or with both poles and in either order of latitudes, recovers the coefficients of a grid synthesised from them.',
  ['inputs', 'configurations'], 'all grids, degree ranges, orders, unit factors and coordinates; even maximum degrees for Fourier series', 'The tests analyse one grid and compare with one stored set of coefficients to a tolerance.',
  ['gen_stokes.py', 'gen_harmonics.py', 'fourier_legendre.py'], [('regular grids', G + 'gen_stokes.py'), ('integration and Fourier methods', G + 'gen_harmonics.py')], ['coefficients of the returned object'])
p('C17', 'Loads have the coefficients of their shape and total mass',
  'The coefficients of point loads are, at every degree and order, the sum over the points of mass times Legendre function times cosine or sine of the order times longitude, times the unit factor of the degree over the area of the sphere. Those of a uniform disc of given area, or a spherical cap of given angle, radius or area, are the load per area times the integral of the Legendre polynomial over the disc (half the difference of the polynomials of neighbouring degrees; at degree zero half of one minus the cosine) times the Legendre function at the centre, so that degree zero is the mass of the disc. Loads in centimeters of water, gigatonnes, kilograms per square meter or grams describe the same load. Coefficients with order above degree are zero, and coefficients up to the maximum degree and order are given. Legendre functions passed in and computed give the same coefficients; inputs are not modified.',
  ['inputs', 'configurations'], 'all positions, sizes, masses, units, maximum degrees of at least one and orders', 'The tests compare point loads with one grid; discs and caps have no tests.',
  ['gen_point_load.py', 'gen_disc_load.py', 'gen_spherical_cap.py'], [('points', G + 'gen_point_load.py'), ('discs', G + 'gen_disc_load.py'), ('caps', G + 'gen_spherical_cap.py')], ['coefficients of the returned object'])
p('C18', 'Averaging kernels weight every degree as defined',
  'Gaussian smoothing weights start at one over two pi at degree zero and its stated multiple at degree one, follow the recurrence of the averaging function from there, and are the cutoff from the first degree below it on; they never grow with degree beyond rounding, and a zero radius gives equal weights. Smoothing multiplies every order of a degree by the weight of the degree. The averaging kernel of minimum error divides each coefficient of the exact kernel by one plus twice its squared error (in the mass units of its degree) over the smoothed variance of the signal, and by the area of the kernel; it is zero above the degree and leaves its inputs alone.',
  ['inputs', 'configurations'], 'all radii, maximum degrees of at least one, cutoffs, kernels, errors and variances', 'The repository has no tests of smoothing weights beyond one stored grid.',
  ['gauss_weights.py', 'gen_averaging_kernel.py', 'harmonics.py'], [('Gaussian weights', G + 'gauss_weights.py'), ('averaging kernels', G + 'gen_averaging_kernel.py')], ['weights per degree'])
p('C19', 'Destriping removes only smooth even or odd degree runs',
  'Destriping subtracts from every coefficient of order five and above the value at its degree of the quadratic in degree fitted by least squares to the window of coefficients of equal order and degree parity around it (at the ends of a run the nearest whole window); the half width of the window of an order is 15 exp(-order/10), rounded or truncated as requested, and at least two. Runs shorter than their window are removed, or with the narrow option kept, and orders below five are unchanged. The filter is linear in the coefficients and removes any quadratic of either parity; coefficients beyond the requested degree and order are kept. An object is filtered epoch by epoch with its dates kept, and the inputs are not modified.',
  ['inputs', 'configurations'], 'all coefficients and truncations', 'The repository has no tests of destriping.',
  ['destripe_harmonics.py'], [('destriping', G + 'destripe_harmonics.py')], ['coefficients of the filtered object'])
p('C20', 'Regressions solve the normal equations of the requested terms',
  'For any series, the coefficients of a regression (polynomial, cycles and additional terms, optionally weighted by the data errors; or two lines that join at a break, by index or by time) satisfy the normal equations of the requested terms, so that a series made from the terms is recovered with no residual; the fitted values are the sum of the terms and with the residuals add up to the data, and terms and degrees of freedom are counted exactly. The covariance is the inverse of the normal matrix, the errors are those propagated from the residuals at the requested confidence or from the data errors, and the coefficients of determination, likelihood and information criteria are those of the residuals. Amplitudes and phases describe the same sinusoid as its sine and cosine coefficients, aliasing terms are split at 2018, and the inputs are left unchanged.',
  ['inputs', 'configurations'], 'all series lengths, epochs, orders, cycles, terms, weights and errors', 'The repository has no regression tests; the guarantees are identities over every series and configuration.',
  ['time_series/regress.py', 'time_series/piecewise.py', 'time_series/amplitude.py', 'time_series/fit.py'], [('regression', G + 'time_series/regress.py'), ('piecewise regression', G + 'time_series/piecewise.py'), ('amplitude and phase', G + 'time_series/amplitude.py'), ('aliasing terms', G + 'time_series/fit.py')], ['beta, error, covariance, residuals, model and statistics'])
p('C21', 'Smoothing and spectral filters follow their least-squares definitions',
  'A moving average is the mean over its window with half weight at the ends, keeps constants and is linear in the data; a Loess filter evaluates the fit of a line with annual and semi-annual cycles to each window at its middle (or, weighted, averages the fits of all windows holding an epoch), so that the smoothed, seasonal and residual parts add up to the data, and lines and cycles are separated exactly. A Savitzky-Golay filter evaluates the polynomial fit (or a scaled derivative) of each window and refuses windows that are even or too small. A periodogram covers the requested range of periods, frequencies or angular frequencies with its probabilities; epochs trimmed at the ends are those the window cannot cover, errors are propagated from the residuals or the data errors, and the inputs are left unchanged.',
  ['inputs', 'configurations'], 'all series, window sizes, weights, orders and ranges', 'The repository has no tests of series smoothing.',
  ['time_series/smooth.py', 'time_series/savitzky_golay.py', 'time_series/lomb_scargle.py'], [('moving average and Loess', G + 'time_series/smooth.py'), ('Savitzky-Golay', G + 'time_series/savitzky_golay.py'), ('periodogram', G + 'time_series/lomb_scargle.py')], ['returned series'])
p('C22', 'Love numbers are read and moved between frames exactly',
  'Load Love numbers read from a file or buffer are its values at every tabulated degree up to the requested one, whatever the order of the columns, the number of header lines and the style of the exponents; missing degrees are interpolated linearly between their neighbours and degrees beyond the table are extrapolated linearly, never altering a tabulated one. Moving degree-one Love numbers from the centre of mass of the solid Earth to another frame takes one constant, defined by the frame, from all three numbers and leaves other degrees alone; frames that do not exist are refused. Every output format holds the same numbers, and the shipped sets are read from their tables in the frame asked for.',
  ['inputs', 'configurations'], 'all tables, maximum degrees, columns, frames and formats', 'The tests compare a few shipped values only.',
  ['read_love_numbers.py'], [('reading', G + 'read_love_numbers.py read_love_numbers'), ('shipped sets', G + 'read_love_numbers.py load_love_numbers'), ('frames', G + 'read_love_numbers.py love_numbers')], ['hl, kl, ll arrays'])
p('C23', 'Gravity field files read to the coefficients they contain',
  'Reading a level-2 file (every convention of the processing centres, plain, compressed or in memory) gives every coefficient and error listed at its degree and order up to the requested truncation, zero elsewhere (one for an unlisted degree zero), the header, the dates of its period and their middle. Drift rates of release 4 are added for the time since 2003.3 and the pole tide correction (Wahr et al. 2015, by centre) is taken from degree two, order one of gravity fields only; nothing else changes. Gravity model files are dated by their names. Monthly laser ranging fields are the mean field plus the scaled anomalies (errors added in quadrature), weekly ones are as listed and averaged over the days nearest to each date. Glacial isostatic adjustment models are read in the layout of their authors with its scale, truncated to the degree and order asked for, titled by their file names, and converted to and from files of harmonics without change.',
  ['inputs', 'configurations'], 'all coefficient files of the supported conventions', 'The tests need files that are downloaded; none is read offline.',
  ['read_GRACE_harmonics.py', 'read_gfc_harmonics.py', 'read_SLR_harmonics.py', 'read_GIA_model.py', 'harmonics.py'], [('level-2 files', G + 'read_GRACE_harmonics.py'), ('model files', G + 'read_gfc_harmonics.py'), ('glacial isostatic adjustment', G + 'read_GIA_model.py')], ['dictionaries or objects returned'])
p('C24', 'Mascon conversions keep cells, weights and values',
  'Converting a grid to mascons gives, for every mascon, the mean over exactly the grid cells within its bounds weighted by the cosine of latitude (across the date line and at the poles for GSFC mascons; JPL mascons without cells are masked and zero), with the centres of the mascons. Converting mascons to a grid of the requested spacing gives every cell the value of the (last) mascon that holds it and zero elsewhere, optionally transposed. For mascons that cover the sphere the two conversions are inverse, and the inputs are left unchanged.',
  ['inputs', 'configurations'], 'all grids, mascon geometries and values', 'The repository has no tests of mascons; the guarantees are over every geometry.',
  ['mascons.py'], [('to mascons', G + 'mascons.py to_gsfc, to_jpl'), ('to grids', G + 'mascons.py from_gsfc, from_jpl')], ['mascon arrays and grids'])
p('C25', 'Sea level fingerprints conserve mass and converge',
  'The sea level of a load is, over the ocean, the sum of the harmonics of the load and of the water of the previous pass (the first: a uniform layer) with the factors of the load Love numbers plus a uniform layer so that the water balances the mass of the load, and zero or the fill value over land; passes feed each other until the coefficients change by at most one part in ten thousand or the requested number of passes is reached. Polar feedback adds only its term at degree two and order one, with the body tide and fluid Love numbers of the chosen option or those given. One pass is linear in the load and the inputs are unchanged. The sums of an order equal the direct sums of Legendre functions. Ocean and land coefficients are those of the cells of a mask file outside and within the classes 1 to 3, without isolated land points when simplified.',
  ['inputs', 'configurations'], 'all loads, ocean functions and Love numbers', 'The repository has no tests of the sea level equation.',
  ['sea_level_equation.py', 'ocean_stokes.py'], [('iteration', G + 'sea_level_equation.py'), ('ocean function', G + 'ocean_stokes.py')], ['returned coefficients'])
p('C26', 'Input months are the requested ones, read once, with the named corrections',
  'Reading a range of months returns exactly the months of the range that are not listed as missing, in order, each once from its own file at the truncation asked for. Low-degree replacements (by the sources named), geocenter corrections (given or modelled) and atmospheric corrections change only the coefficients and months they name, by the values of their files; months without a replacement are refused. Months and dates of a product, its missing months and the table of months are those its file names give, with the newest version of a period kept. Values and errors of low degrees are read from the rows of their files; modelled values are those of the least squares fit.',
  ['inputs', 'configurations'], 'all ranges, lists of missing months, products and replacement options', 'The tests of input months need downloaded data.',
  ['grace_input_months.py', 'grace_date.py', 'grace_find_months.py', 'grace_months_index.py'], [('reading', G + 'grace_input_months.py'), ('available months', G + 'grace_find_months.py, grace_date.py')], ['returned series'])
p('C27', 'File utilities are faithful to the bytes and names they handle',
  'Digests are those of the bytes of a file (empty for missing files), copies and transfers give the same bytes and times, and local files are rewritten only when their digest differs; new files never replace those present. Names found without case are whole names. Paths split into parts join to the same path. Listings and queries of a host give exactly the matching names, each with its own time and address, of every page; missing pages and unknown products are refused. Patterns select the files of the centre, release, product, mission, solution and version asked for. Dates in text are the instants they name; rounding is to the even number below and to the integer above.',
  ['inputs', 'configurations'], 'all files and names', 'Tests cover downloads only.',
  ['utilities.py'], [('hashes and copies', G + 'utilities.py get_hash, copy, create_unique_file; harmonics.py, spatial.py, geocenter.py case_insensitive_filename'), ('paths', G + 'utilities.py url_split, get_data_path'), ('hosts', G + 'utilities.py http_list, ftp_list, from_http, from_ftp, cmr, compile_regex_pattern')], ['returned digests, paths and files'])
p('C28', 'Map helpers keep values at their places',
  'Shifting a grid to a new base longitude moves whole columns: the column of the longitude nearest the base comes first, each value (and mask) stays with its meridian, longitudes before the end of the domain are lowered by its width, a meridian repeated at the end is not repeated within, and columns follow each other to the east, for every base longitude, the first one included. Nearest interpolation gives each point the value of the closest node along each axis, those outside the grid the value at the edge; splines pass through the nodes, have the polynomials of their degree, and are bilinear for degree one. Wrapped longitudes are the same meridian from -180 to 180. A color palette file becomes the map of its colors at their normalised positions, with the colors of its extremes.',
  ['inputs', 'configurations'], 'all grids, positions, base longitudes and palettes', 'Not tested.',
  ['tools.py'], [('shifted grids', G + 'tools.py shift_grid'), ('interpolated grids', G + 'tools.py interp_grid'), ('longitudes', G + 'tools.py wrap_longitudes'), ('palettes', G + 'tools.py from_cpt')], ['returned grids and maps'])
p('C29', 'Programs deliver what their parts compute',
  'A program combining harmonics to a grid writes, for every month of its input (file or index), the sum over the degrees and orders asked for of the coefficients given, less the mean field and the mass redistributed over the ocean when asked, destriped when asked, times the unit factor and smoothing weight of the degree, on the grid of the spacing, interval and bounds asked for, with the dates of its input. A program converting a grid to harmonics writes, for every month, the weighted sums of the valid cells (invalid cells count as zero) in the unit asked for, whatever the shape of the grid. A program averaging a product asks for the months and options given and writes the mean of the coefficients, the root mean square of their errors and the mean date. Programs reading dealiasing data write the degree-one coordinates and the oblateness of every hour of every day of every month, and, for each period of a product whose days are all there, the mean of all its hours (periods across the turn of a month or a year included), its dates, and no file for periods with missing days; files are written again only if asked for or if the data are newer. Every format asked for holds the same values.',
  ['inputs', 'configurations'], 'all input files, grids, periods and options', 'Programs are not tested.',
  ['scripts/combine_harmonics.py', 'scripts/convert_harmonics.py', 'scripts/grace_mean_harmonics.py', 'scripts/aod1b_geocenter.py', 'scripts/aod1b_oblateness.py', 'scripts/dealiasing_monthly_mean.py'],
  [('grids and harmonics', 'scripts/combine_harmonics.py, scripts/convert_harmonics.py'), ('means', 'scripts/grace_mean_harmonics.py'), ('dealiasing data', 'scripts/aod1b_geocenter.py, aod1b_oblateness.py, dealiasing_monthly_mean.py')], ['written files'])
p('C30', 'Mass change programs deliver what their parts compute',
  'For every month asked for, the program of monthly maps writes the synthesis of the input harmonics, less the mean field named (or the mean of the months themselves when the product is a change), destriped when asked, less the modelled drift of land since 2003.3 and less the fields of the files to remove (months of the series, to the degrees asked for, their mass redistributed over the ocean and destriped when asked), times the unit factor and smoothing weight of each degree, from the minimum degree up, on the grid asked for, in the file named by the product, options, degrees, smoothing and month, with its date; scaled maps are these times the factor of each cell, with the cells without one marked invalid. Sensitivity kernels are the area-weighted least squares rows of the mascons given; a mascon series has, for each month, its date, the mass (Gt) of the kernel applied to those coefficients, the propagated error and the area; a reconstructed field is the sum over the mascons of their coefficients scaled by mass over area. Regressed maps have, for each cell, the terms of the regression of its series, their errors, amplitudes and phases and statistics, in files named by the term. One month works as any number does.',
  ['inputs', 'configurations'], 'all input series, grids, mascons, periods and options', 'Programs are not tested.',
  ['scripts/grace_spatial_maps.py', 'scripts/calc_sensitivity_kernel.py', 'scripts/calc_mascon.py', 'scripts/mascon_reconstruct.py', 'scripts/scale_grace_maps.py', 'scripts/regress_grace_maps.py'],
  [('maps', 'scripts/grace_spatial_maps.py, scripts/scale_grace_maps.py, scripts/regress_grace_maps.py'), ('mascons', 'scripts/calc_sensitivity_kernel.py, scripts/calc_mascon.py, scripts/mascon_reconstruct.py')], ['written files'])
p('C31', 'Degree one, sea level and error programs deliver what their parts compute',
  'Maps of errors hold, for each cell, the root of the sum of squares over the degrees asked for of the errors of the harmonics times the unit factor and smoothing weight, averaged over the months where they are in a series, in the file named by the product. Sea level fingerprints are, for each month of the load, the solution of the sea level equation for the land of the mask with the options asked for, with its date. Degree-one coefficients are those that balance the mass of the ocean: the modelled ocean degree one, plus the eustatic (or self-attracting) response to the change over land, less the part of the higher degrees that the ocean function maps to degree one, through the inverse of the integrals of degree one over the ocean, with the atmosphere and glacial adjustment restored and the mean removed; the text and netCDF outputs hold them with their dates and months. Maps of piecewise regressions have, for each cell, the terms of the regression of its series, their errors, amplitudes and phases and statistics, in files named by the term, whatever the order of the terms.',
  ['inputs', 'configurations'], 'all input series, grids, solvers, periods and options', 'Programs are not tested.',
  ['scripts/grace_spatial_error.py', 'scripts/run_sea_level_equation.py', 'scripts/calc_degree_one.py', 'scripts/piecewise_grace_maps.py'],
  [('maps', 'scripts/grace_spatial_error.py, scripts/piecewise_grace_maps.py'), ('sea level and degree one', 'scripts/run_sea_level_equation.py, scripts/calc_degree_one.py')], ['written files'])

# claimed: id -> (level, note)
CL = {}
def c(id, level, note): CL[id] = (level, note)
PROOF = 'Every obligation of the contracts is discharged for all inputs and sizes, on the transformed source of the functions that run; floats are reals. Refuted obligations are replayed on the real code and every contract is also evaluated on it.'
c('C01', 'proof', PROOF)
c('C02', 'proof', PROOF)
c('C03', 'proof', PROOF)
c('C04', 'proof', PROOF + ' Parsing of unit strings is a bounded stand-in (exhaustive over unit names, drawn dates).')
c('C05', 'exploration', 'Bounded: the contract is evaluated on the real code over all presence patterns of neighbouring months and all months of the mission; np.unique and list membership over symbolic series are outside the verifier.')
c('C06', 'proof', PROOF)
c('C07', 'proof', PROOF + ' Bounded stand-ins (drawn inputs) remain for vector form, sorting, iteration, subsets and masked arrays.')
c('C09', 'proof', PROOF)
c('C10', 'proof', PROOF + ' Bounded stand-ins (drawn inputs) remain for sorting, iteration and subsets.')
c('C12', 'proof', PROOF)
c('C13', 'proof', PROOF + ' Reading of geocenter files is a bounded stand-in (drawn files).')
c('C14', 'proof', PROOF + ' The Colombo functions and the polynomials are proved for every degree, order and argument; the Holmes and Mohlenkamp algorithms are proved equal to them for every argument up to degree 4 and compared on drawn arguments up to degree 60 (bounded); the unnormalised functions of one degree are a bounded stand-in.')
c('C15', 'proof', PROOF + ' Bounded stand-ins (drawn inputs): the Fourier transform, the sum at points, the Fourier coefficients of the Legendre functions, gradients and geostrophic currents.')
c('C16', 'proof', PROOF + ' Analysis by Fourier series is a bounded stand-in (drawn coefficients and grids).')
c('C17', 'proof', PROOF + ' The Legendre functions are used through their contracts (property C14).')
c('C18', 'proof', PROOF + ' The recurrence of the weights is proved for every radius and cutoff up to degree 5, the averaging kernel up to degree 2 (the recurrence stops at a degree that depends on the data); larger degrees are evaluated for drawn inputs (bounded).')
c('C20', 'proof', PROOF + ' Regressions of one to three terms (polynomials, a cycle, additional terms) and the statistics of a piecewise fit are proved for every number of epochs and every value; larger designs and the normal equations of a piecewise fit are evaluated for drawn series (bounded). numpy.linalg inverse and least squares are assumed exact on full-rank matrices, the quantile of the t distribution and the error function are uninterpreted.')
c('C21', 'exploration', PROOF + ' Only the moving average is proved, for every length and half width; the Loess and Savitzky-Golay filters and the periodogram (least squares of six terms and pseudoinverses, beyond the symbolic linear algebra) are evaluated for drawn series (bounded).')
c('C22', 'exploration', PROOF + ' The moves between frames and the output formats are proved for every maximum degree and every value; reading text is outside the fragment (regular expressions) and is evaluated for drawn and for the shipped tables (bounded).')
c('C24', 'proof', PROOF + ' Averages are proved for every grid, number of mascons and geometry with spans up to 180 degrees; grids from mascons for one and two mascons on grids of 30 and 60 degrees with every geometry and value (the loop over mascons is unrolled); more mascons, finer grids and the round trip are evaluated for drawn inputs (bounded).')
c('C19', 'proof', PROOF + ' The filter is proved for degree 8 and for degree 30 with orders up to 20, with all four options and every value; larger degrees and objects are evaluated for drawn coefficients (bounded). scipy.linalg and numpy.linalg solve small exact systems.')
c('C25', 'exploration', PROOF + ' Proved for every grid, sea, load and Love number: the first pass for degrees up to two, its mass balance for degrees up to three, the sums of an order up to degree four, isolated points of every mask. gen_harmonics enters by its contract (property C16). Further passes, larger degrees and mask files are evaluated for drawn inputs (bounded).')
FILES = ' netCDF4 and h5py enter by their contract (a variable or attribute of a file reads as it was written) in the proofs; text, compressed, in-memory and index files are evaluated on real files for drawn inputs (bounded).'
c('C08', 'proof', PROOF + ' Round trips of netCDF4 and HDF5 are proved for maximum degrees up to 3 with every coefficient, date and number of epochs.' + FILES)
c('C11', 'proof', PROOF + ' Round trips of netCDF4 and HDF5 are proved for every size, value, mask, fill value and date.' + FILES)
TEXT = ' The text of a symbolic number is a numeral of its own and reading it gives the number again: the precision of printed numbers is not modelled in proofs, only evaluated.'
c('C23', 'proof', PROOF + ' Level-2 files, monthly and weekly laser ranging files and the layouts of the adjustment models are proved for every value of the coefficients, for listed conventions, periods, degrees and truncations (bounded in those); other names, degrees, containers and model files are evaluated for drawn inputs (bounded). geoid_toolkit is not installed and enters by its assumed contract.' + TEXT)
c('C26', 'proof', PROOF + ' Assembled months, low-degree values of the rows of their files, atmospheric corrections and the least squares model are proved for every value of the coefficients (the model for every number of dates), for listed months, sources, products, truncations and terms (bounded in those); the readers of the files enter the assembled months by their contracts (C13, C23 and those of this property). Indices of products, names, tables of months, tabulated and weekly low degrees and whole products on disk are evaluated for drawn inputs (bounded).' + TEXT)
c('C27', 'exploration', PROOF + ' Rounding is proved for every number; digests, copies, names, listings, transfers, patterns and queries handle bytes, names and regular expressions, which are outside the fragment, and are evaluated for drawn files, names and responses (bounded). Hosts enter by stand-ins of urllib.request and ftplib; time zones other than UTC are not covered.')
c('C28', 'proof', PROOF + ' Shifted grids (masked or not, of every size and base longitude) and nearest interpolation are proved; splines (SciPy), wrapped longitudes (inverse tangents) and palettes (text) are evaluated for drawn inputs (bounded). The position of the nearest longitude is NumPy argmin, in code and contract alike. mask_oceans needs data files that are not in this checkout.')
c('C29', 'proof', PROOF + ' Grids of combined harmonics, harmonics of converted grids and means are proved for all degrees, grids and coefficients, one or two months, and the listed combinations of options, with the files replaced by what they hold (C08, C13), and Legendre functions, smoothing weights and Love numbers by their contracts (C14, C16); whole runs with files of every format and option, and the programs reading dealiasing archives (text), are evaluated for drawn inputs (bounded). Degree-one loads in the centre of mass are unbounded and excluded.')
c('C30', 'proof', PROOF + ' Monthly maps, scaled maps and reconstructed harmonics are proved for all degrees, grids, coefficients and factors, one or two months, and the listed combinations of options, with files replaced by what they hold (C08, C10, C13), and Legendre functions, smoothing weights, Love numbers and the drift of land by their contracts; whole runs with written files, the sensitivity kernels, mascon series and regressions (linear algebra of many unknowns) are evaluated for drawn inputs (bounded).')
c('C31', 'proof', PROOF + ' Maps of errors and fingerprints are proved for all degrees, grids, errors and loads, one to three months, and the listed combinations of options, with files replaced by what they hold (C08, C10) and the Legendre functions and the solver of the sea level equation by their contracts (C14, C25); whole runs with written files, degree one and piecewise regressions are evaluated for drawn inputs (bounded).')
# not claimed: id -> reason
NA = {}
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for k in sorted(P): f.write(json.dumps(P[k]) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
           'notes': 'Contract-based deductive verification: contracts/cNN.py hold the contracts, dv/ the verifier; see DESIGN.md.'}
    for k in sorted(P):
        if k in CL:
            lv, note = CL[k]
            cmd = '/opt/venv/bin/python run.py --property %s --tier ' % k
            man['checks'].append({'property': k, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': 'evidence/%s.json' % k,
                                  'technique': 'contract-based deductive verification of the real functions (symbolic execution of the transformed source, z3)' if lv == 'proof' else 'contracts on the real functions: obligations discharged where the fragment reaches (see level note), bounded evaluation for the rest' if k != 'C05' else 'contracts on the real functions, bounded evaluation (not proved)',
                                  'level': lv, 'level_note': note})
        else:
            man['not_applicable'].append({'property': k, 'reason': NA.get(k, 'No contract of this property has been written yet.')})
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
