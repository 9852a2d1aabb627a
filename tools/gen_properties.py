"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
MU, CU, DU, CH, CF, PU = ['chaosmagpy/%s.py' % n for n in (
    'model_utils', 'coordinate_utils', 'data_utils', 'chaos', 'config_utils', 'plot_utils')]
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    d['anchors'].update(kw)
    P.append(d)

prop('P01', 'Synthesized field is minus the gradient of the harmonic potential',
     'For any Gauss coefficients, radius, colatitude away from the poles and longitude, the radial, southward and eastward components returned by field synthesis equal minus the gradient, in spherical components, of the Schmidt quasi-normalized spherical harmonic potential referenced to the configured surface radius. This holds for internal and for external sources, and the result is linear in the coefficients.',
     ['inputs', 'configurations'], 'all real coefficients, radii, colatitudes in (0,180), longitudes and surface radii; degrees up to the stated bound; both sources',
     'Tests compare a handful of points and degrees against stored MATLAB output (most of those files are absent) or against the design matrix at fixed points; they never relate the result to the potential for all points.',
     [MU], [('field synthesis', 'model_utils.synth_values'), ('associated Legendre functions', 'model_utils.legendre_poly')])
prop('P02', 'Degree/order truncation equals zero padding, in every combination',
     'Evaluating a coefficient vector that only lists degrees nmin..nmax and orders up to mmax gives the same field as the full vector with zeros for the missing coefficients, whether nmax is given or inferred from the number of coefficients. Passing a smaller nmax ignores exactly the coefficients of higher degree; requests with nothing to compute, non-positive nmin, unknown sources or colatitudes outside [0,180] are refused with an error.',
     ['inputs', 'configurations'], 'all coefficient values and evaluation points; every (nmin, nmax, mmax, source) combination up to the stated degree, given or inferred',
     'Tests cover a few (nmin, mmax) values at fixed points; the index bookkeeping has separate cases (mmax below nmin-1, mmax=0, inferred nmax) that must agree for all combinations.',
     [MU], [('truncation and dimension inference', 'model_utils.synth_values'), ('same in the design matrix', 'model_utils.design_gauss')])
prop('P03', 'Design matrix times coefficients equals field synthesis',
     'For every set of points and every choice of minimum/maximum degree, maximum order and source, the design matrices of the three components multiplied with a coefficient vector give the field synthesized from the same vector, and the number of columns is the number of coefficients of that truncation. Inconsistent degree or order limits are refused.',
     ['inputs', 'configurations'], 'all coefficient values, radii, colatitudes (also the poles), longitudes; every truncation up to the stated degree, both sources, scalar and broadcast point arrays',
     'The tests compare at random points with default truncation only, for one degree.',
     [MU], [('design matrix', 'model_utils.design_gauss'), ('field synthesis', 'model_utils.synth_values')])
prop('P04', 'Field values at the poles are the limit along the given meridian',
     'At colatitude exactly 0 or 180 degrees the synthesized components equal the limit of the components when the pole is approached along the given longitude; in particular the cartesian field vector at a pole does not depend on the longitude chosen there. The presence of a pole in the input never changes the values at the other points.',
     ['inputs', 'configurations'], 'all coefficients, radii, longitudes; both poles, alone or mixed with regular points; both sources',
     'One test evaluates the poles for one model at fixed longitudes.',
     [MU], [('L\'Hopital branch at the poles', 'model_utils.synth_values'), ('same branch in the design matrix', 'model_utils.design_gauss')])
prop('P05', 'Broadcast and grid evaluation equal pointwise evaluation',
     'Field synthesis on arrays that broadcast together (including the leading dimensions of the coefficients) returns, at each grid position, the value that a single-point call with the corresponding elements returns, with the broadcast shape. With the grid option the result equals the call with the explicit outer product of colatitude and longitude; shapes that do not broadcast are refused.',
     ['inputs', 'configurations'], 'all values of all inputs; a set of shape combinations (scalars, vectors, singleton axes, coefficient time axes, grid on/off)',
     'Tests use fixed numbers for two or three shapes.',
     [MU], [('broadcasting and grid option', 'model_utils.synth_values'), ('broadcasting', 'model_utils.design_gauss')])
prop('P06', 'Legendre table holds Schmidt functions and their exact derivatives',
     'The Legendre table contains, for every degree and order in range and every colatitude in [0,180], the Schmidt quasi-normalized associated Legendre function (non-negative leading convention, no Condon-Shortley phase) and, in the transposed positions, its derivative with respect to colatitude in radians.',
     ['inputs'], 'all colatitudes in [0,180] degrees; degrees up to the stated bound',
     'The only numerical test of the table needs a MATLAB reference file that is not in the repository.',
     [MU], [('three-term recursion and derivative formulas', 'model_utils.legendre_poly')])
prop('P07', 'Power spectrum is the mean square field per degree',
     'The spatial power spectrum returned for degree n equals the mean over the sphere of the squared field of the degree-n coefficients at the given radius (default: the surface radius) for internal and external sources, and n(n+1)/(2n+1) times the sum of squared coefficients for toroidal ones. It is computed along the requested axis, truncated at the requested degree, is never negative, and the model method gives the spectrum of the coefficients at the requested time with the source of the model.',
     ['inputs', 'configurations'], 'all coefficients, radii and surface radii; every source, axis and truncation degree within the stated bound',
     'One test compares one internal spectrum of ones; external and toroidal factors, axis and truncation are not exercised.',
     [MU, CH], [('degree-wise power', 'model_utils.power_spectrum'), ('model method', 'BaseModel.power_spectrum')])
prop('P08', 'Degree correlation and sensitivity follow their definitions',
     'For any two coefficient vectors with non-zero power in each degree, the degree correlation is the normalized inner product per degree: symmetric, within [-1,1], unchanged by positive rescaling, and 1 against itself. The sensitivity is the coefficient error divided by the root-mean-square target coefficient of the same degree; vectors of different length or dimension are refused.',
     ['inputs'], 'all coefficient pairs with non-zero degree power up to the stated degree',
     'Tests evaluate one pair of vectors for the correlation and none for the sensitivity.',
     [MU], [('degree correlation', 'model_utils.degree_correlation'), ('sensitivity', 'model_utils.sensitivity')])
prop('P09', 'B-spline and piecewise-polynomial forms are the same function',
     'Converting a B-spline (full endpoint multiplicity, possibly repeated interior knots) to piecewise-polynomial form gives a model whose value and every time derivative equal those of the B-spline at every time of the interval. The breaks are the distinct knots, and the knot vector built from breaks repeats only the endpoints.',
     ['inputs', 'configurations'], 'all spline coefficients and all times in the interval; orders 1..4(5) and a family of knot patterns including repeated interior knots',
     'No passing test converts a B-spline; the conversion is exercised only through files that are absent.',
     [MU, CH], [('conversion', 'model_utils.pp_from_bspline'), ('constructor', 'BaseModel.from_bspline'), ('knot augmentation', 'model_utils.augment_breaks')])
prop('P10', 'Collocation and combined design matrices evaluate the stated expansion',
     'Each row of the collocation matrix holds the requested derivative of every B-spline basis function at that time (zero when the derivative order reaches the spline order), so that matrix times coefficients is the spline. The combined time-space design matrix times the stacked coefficients equals the field of the model whose low degrees are that spline and whose higher degrees are static.',
     ['inputs', 'configurations'], 'all times, positions and coefficients; orders, derivatives, degrees and knot patterns within the stated bounds',
     'The only tests of these matrices need files that are absent from the repository.',
     [MU], [('collocation matrix', 'model_utils.colloc_matrix'), ('combined matrix', 'model_utils.design_matrix')])
prop('P11', 'Model coefficients inside the period are the piecewise polynomial in time',
     'At every time within the model period the returned coefficients equal the polynomial of the interval containing that time evaluated at the time since the left break, and the k-th derivative is the exact time derivative converted to per year^k with 365.25 days per year. The extrapolation option and any truncation of dimensions never change those values, also when other requested times lie outside the period.',
     ['inputs', 'configurations'], 'all polynomial coefficients, breaks and times inside the period; orders 1..4, derivatives 0..order, all extrapolation options, mixed inside/outside time arrays',
     'Tests evaluate a few stored model epochs, mostly from files that are absent.',
     [CH, MU], [('time evaluation', 'Base.synth_coeffs'), ('functional form', 'model_utils.synth_from_pp')])
prop('P12', 'Extrapolation follows the documented polynomial degree',
     'Outside the model period the coefficients are the Taylor polynomial of the requested degree about the nearest end of the period (constant, linear by default, quadratic, cubic or the full spline, by name, integer or boolean), so that they connect continuously; with extrapolation off they are NaN. Time derivatives are the derivatives of that polynomial, each evaluation outside the period warns, unknown names are refused, and repeated evaluations of a model give the same result.',
     ['inputs', 'configurations', 'histories'], 'all coefficients and all times before and after the period; orders 1..4, every option, derivatives 0..3',
     'No passing test checks extrapolated values.',
     [CH], [('extrapolation by extending the polynomial', 'Base.synth_coeffs')])
prop('P13', 'A model evaluates as synthesis of its coefficients at the requested time',
     'The field values of a model at given time and position equal the field synthesized from the coefficients of the model at that time, with the source of the model and the truncation degree requested; asking for a larger degree than available warns and uses the available one. The stand-alone piecewise-polynomial evaluation gives the same values inside the period, and NaN outside.',
     ['inputs', 'configurations'], 'all times, positions, coefficients; truncation degrees, derivatives, sources and grid option within the bounds',
     'Tests compare stored MATLAB outputs from absent files.',
     [CH, MU], [('model evaluation', 'BaseModel.synth_values'), ('functional form', 'model_utils.synth_from_pp')])
prop('P14', 'SHC files keep times and coefficients to the printed precision',
     'Loading a file written by the SHC writer returns the same times (with the same leap-year option) and the same coefficients up to the eight printed decimals, with the degree range, number of snapshots and order recorded in the file, for any degree range. Comment lines are skipped, and each coefficient is stored in the row of its degree and signed order.',
     ['inputs', 'configurations'], 'all coefficients and times of printable magnitude; degree ranges nmin..nmax, numbers of snapshots, orders and leap-year options within the bounds',
     'One test writes and reads one static and one time-dependent model with default options.',
     [DU], [('writer', 'data_utils.save_shcfile'), ('reader', 'data_utils.load_shcfile')])
prop('P15', 'Models survive the SHC round trip as functions of time',
     'Saving a piecewise-polynomial model that is a spline (continuous up to its order minus two) to SHC and loading it back yields a model with the same period, order and, at every time, the same coefficients up to the printed precision; models of order one come back with the same pieces. Saving with a minimum degree returns zeros below it. Snapshots of a file behind its last complete piece do not change the model.',
     ['inputs', 'configurations'], 'all spline coefficients and times; orders 1..4, numbers of pieces and degree ranges within the bounds, both leap-year options',
     'One test round-trips one model and compares two arrays.',
     [CH, DU], [('export', 'BaseModel.to_shc, CHAOS.save_shcfile'), ('import', 'BaseModel.from_shc, load_CHAOS_shcfile')])
prop('P16', 'MAT files written for a model reload to the same model',
     'The piecewise-polynomial dictionary follows the MATLAB layout (order, pieces, dim, breaks as a row, one row of coefficients per dimension and piece with highest power first), and a complete model saved to a MAT-file and loaded again has identical time-dependent, static, magnetospheric, baseline-offset, Euler angle and calibration coefficients, breaks and pre-rotation information. A file without one of the optional parts loads with that part missing.',
     ['inputs', 'configurations'], 'all coefficient and break values; numbers of pieces, degrees and satellites within the bounds; presence of optional parts',
     'The MAT tests need model files that are absent; no passing test writes or reads a MAT-file.',
     [CH, DU], [('layout', 'Base.to_ppdict'), ('writer', 'CHAOS.save_matfile'), ('reader', 'load_CHAOS_matfile, data_utils.load_matfile')])
prop('P17', 'Text-file loaders reproduce the models the files define',
     'The IGRF loader returns, at each epoch in the file, the listed coefficients, interpolates linearly in between and applies the listed secular variation for the last five years; the COV-OBS, gufm1 and CALS7K loaders return the B-spline model defined by the knots and coefficients in the file inside the interval where the splines are complete. Times are converted from decimal years with the convention of the respective format.',
     ['inputs', 'configurations'], 'all coefficient values in files of the documented formats; small degrees and numbers of knots',
     'The tests of the loaders need model files that are absent.',
     [CH], [('loaders', 'load_IGRF_txtfile, load_CovObs_txtfile, load_gufm1_txtfile, load_CALS7K_txtfile')])
prop('P18', 'Spherical and cartesian coordinates convert back and forth',
     'Converting spherical coordinates to cartesian ones and back returns the same point (colatitude in [0,180], longitude in (-180,180], equal modulo 360), and the reverse composition returns the same cartesian vector. The radius is the euclidean norm.',
     ['inputs'], 'all radii, colatitudes, longitudes and cartesian vectors, including all octants and the axis',
     'Tests convert a few fixed points.',
     [CU], [('conversion', 'coordinate_utils.spherical_to_cartesian, cartesian_to_spherical')])
prop('P19', 'Reference frame base vectors are right-handed orthonormal and well aligned',
     'For every time and dipole in any of the accepted formats the base vectors of the magnetospheric (GSM), solar magnetic (SM) and centered-dipole (MAG) frames are orthonormal and right-handed. GSM has its first vector towards the Sun and the dipole axis in its first-third plane; SM and MAG have the third vector along the geomagnetic north pole, with the Sun (SM) in the first-third half plane and the geographic pole (MAG) in the first-third plane; the local up-south-east and geodetic frames are orthonormal with up radial, respectively downward normal to the ellipsoid.',
     ['inputs', 'configurations'], 'all sun positions, dipole directions/coefficients, points; all dipole input formats and broadcast shapes within the bounds',
     'Tests check a few fixed times, dipoles and points.',
     [CU], [('base vectors', 'coordinate_utils.basevectors_gsm/_sm/_mag/_use/_gg'), ('dipole formats', 'coordinate_utils.dipole_to_vec')])
prop('P20', 'Point and vector transformations preserve the physical vector and invert',
     'Transforming points to a rotated frame gives the spherical coordinates of the same unit vector resolved in that frame, and transforming components gives the components of the same tangent vector in the local frame at the new coordinates, so that lengths and angles are preserved. The inverse option undoes the forward transformation for points and for components.',
     ['inputs', 'configurations'], 'all points off the poles of both frames, all tangent vectors, all rotations; forward and inverse; GSM, SM, MAG references',
     'Tests check one time and reference with stored values.',
     [CU], [('points', 'coordinate_utils.geo_to_base, transform_points'), ('components', 'coordinate_utils.matrix_geo_to_base, transform_vectors')])
prop('P21', 'Geodetic and geocentric conversion describe the same point and vector',
     'The geocentric radius and colatitude returned for a geodetic height and colatitude locate exactly the point at that height along the ellipsoid normal, for the configured ellipsoid, and the components describe the same vector; the reverse conversion returns the original height, colatitude and components wherever it returns a number. Vector length is preserved in both directions.',
     ['inputs', 'configurations'], 'all heights, colatitudes, vector components and ellipsoids with a>=b within the stated ranges (reverse conversion: stated subsets)',
     'The existing geodetic tests compare two stored points.',
     [CU], [('geodetic to geocentric', 'coordinate_utils.gg_to_geo'), ('geocentric to geodetic', 'coordinate_utils.geo_to_gg'), ('frame', 'coordinate_utils.basevectors_gg')])
prop('P22', 'Coefficient rotation represents the same potential in the rotated frame',
     'For every right-handed orthonormal frame the coefficient rotation matrix maps the coefficients of a function in the rotated frame to those of the same function in geographic coordinates, for every input and output degree limit: degrees do not mix, the degree-one block is the rotation of the vector components, and power per degree is conserved. Matrices are computed independently for each set of base vectors in the array.',
     ['inputs', 'configurations'], 'all rotations (Euler-angle parametrized); all degree limits up to the stated bound; array shapes of the base vectors',
     'Tests compare against stored matrices in absent files.',
     [CU], [('quadrature-based rotation', 'coordinate_utils.rotate_gauss')])
prop('P23', 'Fourier form of the rotation reproduces the matrices in time',
     'Synthesizing rotation matrices from the computed positive-frequency spectrum with all components kept returns the sampled rotation matrices at the sample times, whether or not the spectrum is scaled and for scalar or array times, and one-dimensional frequency vectors act like the full frequency array. When fewer components are kept they are the largest ones, and the induced spectrum is the inducing one multiplied with the response of that coefficient at the same frequency.',
     ['inputs', 'configurations'], 'all matrix time series, response values and times; sample numbers, kept components and scaling option within the bounds',
     'One test synthesizes one random spectrum with full-shape frequencies.',
     [CU], [('synthesis', 'coordinate_utils.synth_rotate_gauss'), ('analysis', 'coordinate_utils.rotate_gauss_fft')])
prop('P24', 'Spherical harmonic analysis recovers band-limited functions exactly',
     'Analysing any function that is a finite Schmidt spherical harmonic series whose degree does not exceed the resolution degree returns its coefficients up to the requested degree in natural order, and zero for those not present. Requesting a resolution degree below the analysis degree has no effect.',
     ['inputs', 'configurations'], 'all series coefficients; analysis and resolution degrees within the bounds',
     'No passing test runs the analysis.',
     [CU], [('Gauss-Legendre/FFT analysis', 'coordinate_utils.sh_analysis')])
prop('P25', 'Sun position follows the ephemeris and is refused outside 1901-2099',
     'For every time from 1901 to 2099 the returned colatitude in [0,180] and longitude in (-180,180] point along the direction given by the documented low-precision ephemeris: ecliptic longitude rotated by the obliquity and by Greenwich sidereal time. Any input containing a time outside those years is refused.',
     ['inputs'], 'all times in and out of the validity range, scalars and arrays',
     'One file-based test (absent file) compares stored positions; the bounds are not tested.',
     [CU], [('ephemeris', 'coordinate_utils.sun_position')])
prop('P26', 'Azimuth, local time and zenith angle stay in range and match geometry',
     'Centered azimuths lie in (-180,180] and differ from the input by a multiple of 360 degrees; local time lies in [0,24) and advances one hour per 15 degrees of longitude and 24 hours per day. The zenith angle is in [0,180] with cosine equal to the inner product of the local vertical and the Sun direction.',
     ['inputs'], 'all real azimuths, times and positions (real arithmetic), scalars and arrays',
     'Tests evaluate a few azimuths and one zenith angle.',
     [CU], [('wrap', 'coordinate_utils.center_azimuth'), ('local time', 'coordinate_utils.local_time'), ('zenith angle', 'coordinate_utils.zenith_angle')])
prop('P27', 'Calendar dates convert to day numbers and back exactly',
     'The modified Julian day of any Gregorian date and time of day within the supported range equals the number of days (with fraction) since 2000-01-01, broadcasts over arrays, and agrees for date components and datetime objects (hours, minutes, seconds and smaller units are added as durations, so that, e.g., the second of the day can be given); converting a day number to a timestamp is its inverse. A year is a leap year exactly by the Gregorian rule, and non-integer years are refused.',
     ['inputs'], 'all calendar dates and times of day in the range representable with nanoseconds; all integer years for the leap rule',
     'Tests convert a few dates.',
     [DU], [('date to day number', 'data_utils.mjd2000'), ('day number to date', 'data_utils.timestamp'), ('leap rule', 'data_utils.is_leap_year')])
prop('P28', 'Decimal years and day numbers convert consistently and invertibly',
     'Converting day numbers to decimal years and back returns the input for every time, with or without leap years taken into account; with leap years, the integer part is the calendar year and the fraction is the elapsed fraction of that year of 365 or 366 days, and without, a year has 365.25 days counted from 2000. Both conversions are strictly increasing and continuous across year boundaries, for historic epochs as well.',
     ['inputs', 'configurations'], 'all times from year 0 to 4000 (leap years on), all times (off)',
     'Tests convert a few modern epochs; model files with epochs before 1678 depend on this conversion.',
     [DU], [('conversions', 'data_utils.dyear_to_mjd, data_utils.mjd_to_dyear')])
prop('P29', 'Configuration stays valid and temporary changes are always undone',
     'Assigning a configuration key stores a value of the documented type or raises an error and leaves the configuration unchanged; unknown keys are refused. A temporary change is undone when its block ends, normally or by an exception; resetting one or all keys restores the documented defaults whatever was changed before; saving and loading the configuration returns the same values.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'all numeric values of the parameters; sequences of set/reset/context operations of bounded length, with exceptions',
     'No passing test touches the configuration object.',
     [CF], [('validated dictionary', 'config_utils.BasicConfig')])
prop('P30', 'External field coefficients are the rotated, index-scaled model coefficients',
     'The coefficients of the far-magnetospheric field in geographic coordinates are the time-dependent rotation matrix applied to the model coefficients, and those of the near-magnetospheric field are the rotation applied to the coefficients whose first degree is the ring-current index times the scaling factors plus the baseline offset at that time. Induced parts use the induced rotation for the offsets and higher degrees and the unmodified rotation with the internal index for the scaled part; truncation selects the leading coefficients and a dipole that does not match the rotation file is refused.',
     ['inputs', 'configurations'], 'all model coefficients, offsets, index values and rotation matrices, times in scalar or array form; sources and degrees',
     'The tests of the external field need model files that are absent.',
     [CH, CU], [('far magnetosphere', 'CHAOS.synth_coeffs_gsm'), ('near magnetosphere', 'CHAOS.synth_coeffs_sm')])
prop('P31', 'The total field is the sum of the selected sources',
     'Calling the model returns the sum of the fields of exactly the selected sources (time-dependent internal, static internal to the requested degree, far and near magnetosphere), whatever their order in the list; the default is all of them, and the names "internal" and "external" select the two internal, respectively the two magnetospheric sources. For each magnetospheric source the default field is the sum of its external and its induced field, each with its own ring-current index.',
     ['inputs', 'configurations'], 'all coefficients, times, positions and index values; all subsets of sources, scalars and arrays',
     'The tests of the complete model need model files that are absent.',
     [CH], [('model call', 'CHAOS.__call__'), ('per-source fields', 'CHAOS.synth_values_tdep/_static/_gsm/_sm')])
prop('P32', 'Euler angles and static parts are selected per satellite and source',
     'The Euler angles returned for a satellite are the piecewise constant angles of that satellite (alpha, beta, gamma in that order) in the bin containing the time, with a warning naming its own pre-rotation angles; unknown satellites are refused. The static field of the model does not depend on time and starts above the degrees it leaves to the time-dependent part as saved in its own file; missing parts are refused with an error.',
     ['inputs', 'configurations'], 'all angles, breaks and times; several satellites with different bins, with and without pre-rotation',
     'The tests of the Euler angles need model files that are absent.',
     [CH], [('Euler angles', 'CHAOS.synth_euler_angles, CHAOS.__init__'), ('static part', 'CHAOS.synth_coeffs_static, CHAOS.save_shcfile')])
prop('P33', 'Evaluation and export never change the inputs or the model',
     'Evaluating, exporting or analysing fields and coefficients leaves all arrays passed by the caller, the model coefficients and breaks, and the configuration unchanged, so that repeating a call gives the same result.',
     ['inputs', 'histories'], 'all values of array inputs; each public evaluation, export and analysis function, called twice',
     'No test looks at the inputs after a call.',
     [MU, CU, DU, CH], [('evaluation functions', 'model_utils, coordinate_utils, data_utils, chaos')])
prop('P34', 'Layered-Earth response obeys the induction relations',
     'For a sphere of layers, splitting a layer at any radius without changing its conductivity profile leaves the C- and Q-response unchanged, a one-layer sphere gives the closed-form response, and Q follows from C by n/(n+1)(1-(n+1)C/a)/(1+nC/a). The apparent resistivity is the real number omega mu |C|^2 for both kinds of layering. Scalar periods give vectors of length one, and the table of responses has one row per degree with zero at zero frequency.',
     ['inputs', 'configurations'], 'all conductivities, periods and radii in the stated ranges; degrees and numbers of layers within the bounds',
     'The only test needs a reference file that is absent.',
     [CU], [('response recursion', 'coordinate_utils.q_response_1D'), ('table of responses', 'coordinate_utils.q_response')])
prop('P35', 'Ring-current index files are read and copied without change',
     'Loading the text file of the ring-current index returns one row per data line with the columns time, RC, RC_e, RC_i and flag as listed (comments and blank lines skipped), or the same with the calendar dates of the times as index. The HDF5 copy holds the same columns and rows, replaces an older copy, and the model finds the same index in both; when the source cannot be read a warning is given and an existing copy is left as it was.',
     ['inputs', 'configurations', 'histories'], 'all numbers of the table; numbers of rows, positions of comments and flags within the bounds',
     'The test of the index file needs the network.',
     [DU, CH], [('text file', 'data_utils.load_RC_datfile'), ('copy', 'data_utils.save_RC_h5file'), ('use', 'CHAOS.synth_coeffs_sm')])

prop('P36', 'Plots draw the values of the model at the drawn points',
     "A time series plot of a model covers its whole period and draws, at each drawn date, the radial, southward and eastward component (in this order) of the field of the requested degree and derivative at that date; a map draws at each drawn longitude and latitude the component of the field for the requested time, radius, degree, derivative, source and reference frame; a spectrum plot draws the power of each degree from 1 on, leaving out zeros. Labels carry the units of the derivative unless given. Layouts not matching the number of panels and missing model parts are refused; the arrays given are not changed.",
     ['inputs', 'configurations'], 'all coefficients, positions, radii and times; models, degrees, derivatives and parts within the bounds',
     'The only test of plots checks that no error is raised, and needs a model file that is absent.',
     [CH, PU, DU], [('plots of a model', 'BaseModel.plot_timeseries, plot_maps, plot_power_spectrum'), ('plots of the parts', 'CHAOS.plot_*'), ('drawing', 'plot_utils')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
