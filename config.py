"""One entry per claimed property: what properties.jsonl / MANIFEST.json say, and which harnesses decide it."""
PROPERTIES = {}
def P(id, title, statement, text, why, files, mech, harnesses, over=('inputs', 'configurations'), level='proof', assumptions=(), note='', **kw):
    PROPERTIES[id] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                          harnesses=[dict(file=h[0], fns=h[1], **(h[2] if len(h) > 2 else {})) if not isinstance(h, dict) else h for h in harnesses],
                          level=level, assumptions=list(assumptions), note=note, tus=None, **kw)
METRICS = ['lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/Hayward.C', 'lib/ReissnerNordstrom.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C',
           'lib/SchwarzschildHarmonic.C', 'lib/ChernSimons.C', 'lib/BalasinGrumiller.C', 'lib/Kerr2PN.C', 'lib/Metric.C']

P('M01', 'Metric coefficients: component and matrix forms agree and are symmetric',
  'For every analytic metric, every admissible parameter value and every event, asking for one metric coefficient gives the same number as asking for the whole matrix, the matrix is symmetric, and the coefficients are those of the documented line element.',
  'every analytic metric kind, all real parameter values accepted by its setters, every event of its coordinate domain',
  'tests evaluate a few coefficients at a few events for default parameters; branches of the formulae (r<1, r<0, each deformation parameter) are never visited',
  METRICS, [dict(name='gmunu component/matrix overloads', where='lib/*.C gmunu')],
  [('m_metric.cpp', 'H_coef_'), ('m_krz.cpp', 'H_coef_')])
P('M02', 'Contravariant metric is the matrix inverse of the covariant metric',
  'For every analytic metric, every admissible parameter value and every event where the metric is regular, the contravariant coefficients are the matrix inverse of the covariant ones, in matrix form and component by component.',
  'every analytic metric kind, all parameter values, every regular event',
  'tests compare a handful of points numerically for a few metrics; ray-tracing tests only check that a file is produced',
  METRICS + ['lib/Utils.C'], [dict(name='gmunu_up overrides and the generic inversion', where='lib/*.C gmunu_up, lib/Utils.C matrix4Invert')],
  [('m_metric.cpp', 'H_inv_')])
P('M03', 'Connection coefficients are the Levi-Civita connection of the metric',
  'For every analytic metric with closed-form connection coefficients, every admissible parameter value and every regular event, the connection coefficients returned (whole table and single component) and the metric derivatives returned are exactly those of the metric coefficients returned.',
  'every analytic metric kind, all parameter values, every regular event; all 64 symbols',
  'tests compare to finite differences at a few equatorial points of a few metrics, with loose tolerance',
  METRICS, [dict(name='christoffel / jacobian / gmunu_up_and_jacobian overrides', where='lib/*.C')],
  [('m_metric.cpp', 'H_(conn|jac)_')])
P('M05', 'Four-vector algebra and observer tetrads are exact for any metric',
  'For any metric and any vectors: scalar product, norm, index lowering, projection, Gram-Schmidt, normalisation of velocities, the null condition solver and the zero-angular-momentum observer return what their definition says, and every tetrad built from a timelike velocity is orthonormal.',
  'an arbitrary symmetric metric at an arbitrary event, arbitrary vectors within the stated signature preconditions',
  'tests check tetrads at a few positions in Kerr and Minkowski with diagonal bases',
  ['lib/Metric.C'], [dict(name='ScalarProd, norm, projectFourVect, GramSchmidt, observerTetrad, nullifyCoord, SysPrimeToTdot, normalizeFourVel, zamoVelocity', where='lib/Metric.C')],
  [('m_vector.cpp', 'H_'), ('m_metric.cpp', 'H_scalar_')])

P('M04', 'Integrated equations are the geodesic and parallel-transport equations',
  'For every metric, the right-hand side handed to the integrators is the geodesic equation for the tangent vector and the parallel-transport equation for every vector carried along; the Hamiltonian (principal-momenta) form used for Kerr and the 3+1 form describe the same motion. States of the wrong size are refused and a failing connection stops the integration.',
  'arbitrary connection coefficients, arbitrary state and mass, 8- and 16-component states; Kerr and analytic metrics with arbitrary parameters and events',
  'tests integrate a few trajectories and check that they finish; a wrong term changes the trajectory without any failure',
  METRICS, [dict(name='diff, diff31, MakeMomentum/MakeCoord, computeCst, KerrBL overrides of the vector algebra', where='lib/Metric.C, lib/KerrBL.C, lib/Minkowski.C')],
  [('m_geodesic.cpp', 'H_')])
P('M07', 'Circular orbits are geodesic, unit-normalised and of the requested sense',
  'For every metric offering circular orbits, the velocity returned in the equatorial plane is the unit, future-directed tangent of the circular geodesic rotating in the requested sense; with the Keplerian option it obeys the third law at the projected radius in every metric. The specific angular momentum and effective potential offered for tori are those of such circular motion.',
  'every analytic metric kind and parameter value, every equatorial radius where the orbit exists, both senses, option on and off',
  'tests call the function at one or two radii and at most check its norm',
  METRICS, [dict(name='circularVelocity overrides, getSpecificAngularMomentum, getPotential', where='lib/*.C')],
  [('m_orbit.cpp', 'H_')])
P('M08', 'One integration step advances the state exactly as the scheme says',
  'For any right-hand side, the fixed-order steps are the classical fourth-order Runge-Kutta formula and report a failing right-hand side; steps of the adaptive integrators respect minimum, maximum and radius-relative limits, convert to and from the 3+1 variables without loss, advance proper time and coordinate time consistently, and bring angles back to their range by a transformation under which the point, the velocity and every transported vector are unchanged.',
  'arbitrary right-hand side, lapse and shift functions, states, step sizes and limits; angles within three turns (bounded)',
  'tests only exercise whole trajectories; a photon crossing the polar axis, a capped step or the 3+1 variant is not checked for its values',
  ['lib/Metric.C', 'lib/KerrBL.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C'], [dict(name='myrk4, deltaMax, checkPhiTheta, Boost::nextStep/doStep, reorthonormalizeBasis', where='lib/Metric.C lib/KerrBL.C lib/Worldline.C lib/WorldlineIntegState.C')],
  [('m_step.cpp', 'H_')], bounds='angles folded: |theta|<3 pi, -4 pi<phi<6 pi; the stepper inside Boost is assumed (arbitrary function)')
CL = ['lib/Astrobj.C', 'lib/StandardAstrobj.C', 'lib/UniformSphere.C', 'lib/Star.C', 'lib/FixedStar.C', 'lib/Torus.C', 'lib/ThinDisk.C', 'lib/Jet.C', 'lib/PolishDoughnut.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Photon.C', 'lib/Screen.C',
      'lib/Spectrometer.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C', 'lib/ComplexAstrobj.C', 'lib/Shift.C', 'lib/Object.C', 'lib/Property.C', 'lib/Value.C'] + METRICS
P('C01', 'A clone equals its original and shares no mutable state with it',
  'Cloning any metric, astronomical object, spectrum, spectrometer, screen or photon, whatever values its parameters were given, yields a distinct object of the same kind whose every parameter (including those of the metric, spectra and elements it holds) and every computed numeric member equals the original; changing the clone afterwards, or the objects it holds, changes nothing in the original, and vice versa. Worker threads ray-trace on such clones.',
  'every class with a property table, every value of its numeric and boolean parameters, clone taken after any such setting',
  'tests clone with default parameters and compare at most one or two values; ray-traced images only test the exit status',
  CL, [dict(name='copy constructors and clone() of every class', where='lib/*.C'), dict(name='Object::get/set property tables', where='lib/Object.C')],
  [('c_clone.cpp', 'H_copy'), ('c_clone2.cpp', 'H_copy'), ('c_clone3.cpp', 'H_copy')], bounds='string- and file-valued parameters keep their defaults; grids read from FITS files are empty; vectors keep their default length; PolishDoughnut is cloned before its metric is attached',
  assumptions=['libudunits2 unit conversion is linear or inverse with the factor the installed library reports'])
P('C02', 'A parameter reads back as it was set, in the unit it was set in',
  'Setting a numeric, boolean or vector parameter of any object through its property and reading the property back returns the value that was set, also when a unit is given, and reading a parameter of a freshly made object never fails.',
  'every numeric, boolean and vector property of every class and every value the setter accepts',
  'unit tests set and read a couple of values per class; conversions hidden in one of the two accessors cancel only if both are right',
  CL, [dict(name='accessors declared by GYOTO_PROPERTY_*', where='lib/*.C'), dict(name='Units conversions', where='lib/Converters.C')],
  [('c_clone.cpp', 'H_read'), ('c_clone2.cpp', 'H_read'), ('c_clone3.cpp', 'H_read')], bounds='the unordered pair properties (StarTrace TMin/TMax, PowerLaw CutOff) and XillverReflection TimeLampPhiZero (kept modulo a period) are excluded; Torus SmallRadius positive',
  assumptions=['libudunits2 unit conversion is linear or inverse with the factor the installed library reports'])
P('C03', 'Objects live exactly as long as they are referenced; changes are notified',
  'An object held through the library\'s smart pointers is destroyed exactly once, when its last reference goes away, whatever the sequence of copies, assignments (including self-assignment and assignment from a member of the old target) and releases; every listener hooked to an object is told of each change until it unhooks, exactly once per registration, an object stops listening to a part that is replaced and when it is destroyed itself, and its clone listens to the part of the clone; containers of objects and spectrometers refuse an index past their end and keep the remaining elements in order after a removal.',
  'every history of pointer operations (each operation is proved from an arbitrary reference count, so the count invariant is inductive), hook/unhook/tell sequences on three listeners, containers of up to three elements, every index',
  'tests hold objects in simple patterns; reference leaks or double frees only show in unusual ownership patterns',
  ['include/GyotoSmartPointer.h', 'lib/SmartPointer.C', 'lib/Hooks.C', 'lib/Value.C', 'lib/ComplexAstrobj.C', 'lib/ComplexSpectrometer.C', 'lib/ComplexMetric.C'],
  [dict(name='SmartPointer<T>, SmartPointee, Hook::Teller/Listener, Complex containers', where='include/GyotoSmartPointer.h lib/Hooks.C')],
  [('c_core.cpp', 'H_ref'), ('c_core.cpp', 'H_hook'), ('c_core.cpp', 'H_cont'), ('c_core.cpp', 'H_range'), ('c_core.cpp', 'H_listen')], over=('histories', 'inputs'),
  bounds='listeners and container elements up to three; single thread')
P('M09', 'Composed metrics are the sum or translate of their parts',
  'A Complex metric returns, for any elements, at any event, the coefficient-wise sum of its elements\' metric and connection coefficients, in every form in which they can be asked for; a Shift metric returns those of its sub-metric at the shifted event, in every form, and both follow a later change of mass or coordinate kind of their parts; elements of incompatible coordinate kind are refused.',
  'arbitrary sub-metrics (uninterpreted coefficient functions), arbitrary events and offsets, one to three elements',
  'tests combine at most Minkowski or Kerr parts at one or two events',
  ['lib/ComplexMetric.C', 'lib/Shift.C', 'lib/Metric.C'], [dict(name='Metric::Complex and Metric::Shift overrides', where='lib/ComplexMetric.C lib/Shift.C')],
  [('m_comp.cpp', 'H_')], bounds='one to three elements')
P('S01', 'Spectrometer channels tile the requested band in order',
  'For any band, number of channels and kind (frequency, wavelength, and their logarithms), set in any order and in any supported unit, the channel boundaries divide the band evenly in the requested variable, midpoints and widths are those of the channels, every exported list agrees with the internal arrays, and the band reads back in the unit it was set in. A composite spectrometer presents exactly the channels of its elements, in order, also after an element changed or was removed, and tells its listeners.',
  'every band, the four kinds, every order of setting, several channel counts and units, one to three elements',
  'tests build one spectrometer of a kind with a fixed band and look at its size',
  ['lib/Spectrometer.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C', 'lib/Converters.C'], [dict(name='Uniform::reset_, band, Complex::tell, Generic getters', where='lib/*Spectrometer.C')],
  [('s_spectro.cpp', 'H_')], bounds='channel counts 1, 2, 3 and 5; composite of up to three elements; units eV, GHz, mm, nm')
P('R01', 'One hit adds emission times transmission times the redshift factor',
  'When a photon hits an object, each requested quantity changes exactly as radiative transfer demands and nothing else changes: intensity and spectra grow by emission times accumulated transmission times the third power of nu_obs/nu_em (fourth for binned spectra), the Stokes vector by the transmission matrix applied to the polarized emission, converted to the requested unit; redshift, time and impact coordinates are those of the hit; the photon\'s transmission is multiplied once, per channel, after use, also through refined photons. Whatever subset of emission(), transmission() and radiativeQ() a class provides, and whatever was asked before, the remaining ones agree with it.',
  'arbitrary metric, photon and emitter state, arbitrary emission and absorption functions, every combination of requested quantities, one to three channels, every subset of provided hooks and every pair of successive requests',
  'tests ray-trace whole images and check that they run; a wrong power of the redshift, a missed or doubled absorption or a dropped hook changes every pixel without any failure',
  ['lib/Astrobj.C', 'lib/Photon.C', 'lib/Metric.C'], [dict(name='Astrobj::Generic::processHitQuantities, emission, transmission, radiativeQ, integrateEmission; Photon::transmit, transfer, Refined', where='lib/Astrobj.C lib/Photon.C')],
  [('r_transfer.cpp', 'H_')], over=('inputs', 'configurations', 'histories'), bounds='one to three spectral channels; integration over a channel up to three refinements')
P('R02', 'Polarized transfer matrix is the exponential of the absorption matrix',
  'For any absorption and Faraday coefficients, path length and orientation, the transmission matrix is the identity for no path and solves the polarized transfer equation along the path, including media without polarized absorption and the degenerate case; absorption coefficients and Stokes vectors are turned by twice the position angle; the angle between field and ray and the position angle of the electric vector are those measured in the emitter\'s frame, for a magnetic or an electric field in any direction.',
  'arbitrary real coefficients, path lengths, mass of the metric, angles; arbitrary metric, field, ray and velocity for the field angle',
  'tests run one polarized example and check that it finishes',
  ['lib/Astrobj.C', 'lib/Metric.C'], [dict(name='Omatrix, rotateJs, get_theta_mag, getChi, getSinCos2Chi', where='lib/Astrobj.C')],
  [('r_polar.cpp', 'H_')], bounds='position angle: eight field directions, exact arithmetic, in the rest frame of the emitter (bounded); Pmatrix is not covered')
P('I01', 'Grid data are interpolated between the grid points around the query',
  'Linear interpolation of gridded data returns, for any data, any evenly or unevenly spaced grid and any query, the multilinear combination of the data at the corners of the cell containing the query, and never reads outside the grid, also on its upper edges and for axes of length one; outside the grid each axis obeys the boundary condition asked for it (refused, nearest value, linear extrapolation, periodic image, zero). Disk data on a (t, phi, r) grid are continued periodically in phi and constantly before and after the time range, whether times are evenly spaced or listed. A pattern disk emits and moves as the bilinear combination of the grid points around the place, in the frame of the rotating pattern, emits nothing beyond its radii, and absorbs with the opacity of the grid point.',
  'arbitrary data, axis origins and spacings, queries anywhere (periodic axes within two turns), one and two dimensions with one to four points per axis, all boundary conditions and positions; grids of one to three times, two or three azimuths and radii',
  'no test reads a grid; queries on the upper edge, below the origin of a periodic axis or with different conditions per axis never occur in tests',
  ['lib/Astrobj.C', 'lib/GridData2D.C', 'lib/PatternDisk.C'], [dict(name='Astrobj::Generic::interpolate, interpNd, getIndice; GridData2D::interpolate, getIndices; PatternDisk::getIndices, emission, transmission, getVelocity', where='lib/Astrobj.C lib/GridData2D.C lib/PatternDisk.C')],
  [('i_interp.cpp', 'H_'), ('i_disk.cpp', 'H_')], bounds='grid sizes up to four points per axis, two dimensions; periodic queries within two turns; pattern disks of one or three azimuths and three radii, one pattern per turn')
P('W01', 'A trajectory is stored completely, in order, and looked up exactly',
  'However a trajectory is extended (towards the future or the past, in any order, by date, by proper time or while tracing a photon, and whatever the size of the arrays), every event the integrator produced is stored once, in order, without gap, next to its proper time and transported vectors, the starting event stays the starting event, and nothing is written outside the arrays; a new start forgets the old trajectory. Looking up a date returns the stored event where there is one and otherwise the step from its neighbours, extending the line when needed; a refined photon covers exactly the requested interval finely enough; while a photon is traced the object is shown each event exactly once, in order, until the date limit, opacity or the metric stops it.',
  'arbitrary event contents and rates of proper time, arrays of one to three elements, sequences of up to three extensions forwards and backwards, one or two look-ups each at or between events, with and without polarization',
  'tests integrate one way with the default array size, which never fills; the expansion code and mixed directions are not exercised',
  ['lib/Worldline.C', 'lib/Photon.C'], [dict(name='Worldline::xFill, xExpand, xStore, setInitCoord, getCoord; Photon::hit; refining constructor', where='lib/Worldline.C lib/Photon.C')],
  [('w_line.cpp', 'H_')], over=('inputs', 'histories'), bounds='integrator replaced by an arbitrary trajectory with unit steps (its contract is M08); array sizes one to three, up to three extensions, look-ups in four cells; the exactness of interpolation is stated for a step function that follows the trajectory',
  assumptions=['the integration step function is exact between neighbouring events (look-up between stored events only)'])
P('G01', 'Each pixel sends its ray in the direction the screen geometry says',
  'For any position angle of the line of nodes, inclination, argument, distance and date, the observer sits on the line of sight at the requested distance and date, positions on the sky are the rotation by these angles (kept by the inverse map and by setting the observer position), and the ray of a pixel or of a pair of angles is null, future directed, arrives from exactly the direction these stand for (equatorial, spherical or rectilinear angles, field of view in any unit, offset of the field), beyond the maximum distance too, where the observer is moved inwards along the same line of sight with a matching date. The polarization basis of a ray is a direct orthonormal triad with it. For a local observer the ray is the observer velocity plus a unit vector of its tetrad. Masks and pixel sets visit exactly the requested pixels, once, in order.',
  'every Euler angle, distance, date, mass, angle pair (equatorial within a quarter turn, spherical within a full turn), offset, both coordinate kinds, flat space at the observer; pixels of screens of two to four pixels with any field of view; an arbitrary tetrad; ranges, grids and lists of up to five elements',
  'tests trace images at one orientation and only look that they run; sign and handedness errors in one branch keep every test passing',
  ['lib/Screen.C', 'lib/Metric.C', 'lib/Converters.C'], [dict(name='Screen::getRayTriad, getObserverPos, setObserverPos, coordToSky, skyToCoord, computeBaseVectors, mask, fieldOfView, dangle1, dangle2; Range, Indices, Angles, RepeatAngle, Grid, Bucket, Empty', where='lib/Screen.C')],
  [('g_screen.cpp', 'H_')], bounds='screens of two to four pixels; sets of up to five elements; inclination strictly between 0 and pi in spherical coordinates; offsets shown for positive values',
  assumptions=['boost::multiprecision is exact real arithmetic', 'the metric at the observer is flat (the observer is far away) except for local observers'])
P('R03', 'Emission laws obey their formula, Kirchhoff and the symmetries of the field',
  'A power law is its formula between its cut-offs, given in any order and unit, and nothing outside; a black body is the Planck law of its temperature, diluted and shifted by its color correction, in whatever order these are set, and its temperature reads back as set; integrals over a band are exact for spectra linear in frequency and do not depend on the order of the limits; an absorbing slab emits the source function times one minus the transmission. Thermal bremsstrahlung and thermal synchrotron obey Kirchhoff law for every Stokes parameter. For each synchrotron law the quantities given to the transfer, with and without polarization, averaged or not over the field direction, are the coefficients of the law in SI units for each frequency; emission, absorption and Faraday rotation are proportional to the density, have no U component in the frame of the field, and only circular quantities change sign when the field is reversed; emission and absorption coefficients are the published fits (Pandya et al. 2016, Marszewski et al. 2021).',
  'every frequency, temperature, density, field and angle in the domain of the formulas (opaque but consistent powers, exponentials and Bessel functions), every order of setting, five units',
  'tests draw two spectra with default parameters; unit factors, sign conventions and the order of setters are not examined',
  ['lib/Spectrum.C', 'lib/PowerLawSpectrum.C', 'lib/BlackBodySpectrum.C', 'lib/ThermalBremsstrahlungSpectrum.C', 'lib/ThermalSynchrotronSpectrum.C', 'lib/PowerLawSynchrotronSpectrum.C', 'lib/KappaDistributionSynchrotronSpectrum.C', 'lib/Utils.C'],
  [dict(name='Spectrum::*::operator(), integrate, jnuCGS, alphanuCGS, r?nuCGS, radiativeQ, setters', where='lib/*Spectrum.C')],
  [('r_spectra.cpp', 'H_')], bounds='two frequencies per call; power-law index between 2 and 5; the four tabulated kappa values; bremsstrahlung below 1e9 K; averages not for the kappa law',
  assumptions=['pow, exp, tgamma and Bessel functions are opaque but consistent functions, compared argument by argument'])
P('O01', 'A ray meets an object exactly where its surface or plane is',
  'Along one step of a ray, the generic search reports a hit whenever a point it looks at is inside the object and a miss only if none is; the pieces it reports are disjoint, go from late to early, stay within the step, end inside, cover a step inside the object entirely and leave out only what is outside to within the time tolerance, each with the photon state and the emitter velocity of that place; on a miss the closest distance, its date and the first minimum are updated. A thin disk is hit exactly when the ray crosses its plane between its radii, once, with its thickness counted along the ray. The distance functions, surfaces, step limits, maximum radii and emitter positions of spheres, fixed and orbiting stars, tori, doughnuts, jets, accretion flows and disks are those of their geometry in either kind of coordinates; uniform media emit and absorb consistently, at a frequency and over a band. A composite object asks each part once and then only the parts hit, in pieces from late to early when there are several.',
  'arbitrary object functions and trajectories (uninterpreted functions of time), any critical and safety values and step inside the object, steps up to four time tolerances; arbitrary positions, radii and orbit points; one to three parts and any combination of hits',
  'tests trace images of a few scenes and only look that they run; a grazing ray, an object seen twice in one step or a position with negative coordinates does not occur',
  ['lib/StandardAstrobj.C', 'lib/Photon.C', 'lib/ThinDisk.C', 'lib/UniformSphere.C', 'lib/FixedStar.C', 'lib/Star.C', 'lib/Torus.C', 'lib/ComplexAstrobj.C', 'lib/Jet.C', 'lib/SphericalAccretion.C', 'lib/FlaredDiskSynchrotron.C', 'lib/DeformedTorus.C', 'lib/PolishDoughnut.C'],
  [dict(name='Standard::Impact, Photon::findValue, findMin; ThinDisk::Impact, operator(), projectedRadius, sphericalPhi; UniformSphere, FixedStar, Star, Torus geometry and emission; Complex::Impact, deltaMax, rMax', where='lib/*.C')],
  [('o_object.cpp', 'H_'), ('o_shape.cpp', 'H_')], bounds='steps of up to four time tolerances and at most three sub-steps inside the object; hits on spherical-coordinate trajectories through the same code with Cartesian trajectories; composite of up to three parts',
  assumptions=['the trajectory between two stored events is the one the integrator gives (W01)'])
P('V01', 'The matter that emits has a unit, future-directed velocity of the stated kind',
  'The four-velocity that an object reports at an event has norm -1 and points to the future in any stationary, axisymmetric metric, and is the one its documentation describes: Keplerian or ZAMO for a thin disk, circular, infalling or in between for a thick disk, infall from rest at infinity for spherical accretion, of the given Lorentz factor along the sheath for a jet, of constant angular momentum per unit energy for doughnuts and oscillating tori. A blob, free star or plasmoid moves, from one date to the next, at the velocity it reports. The magnetic field used for the emission is a unit vector orthogonal to that velocity, in the requested direction.',
  'an arbitrary circular metric (five arbitrary coefficients of Lorentzian signature) at an arbitrary event, arbitrary parameters of the object, every kind of motion and perturbation; for magnetic fields an arbitrary timelike velocity, also in Cartesian coordinates with an arbitrary metric',
  'tests build the objects and trace a few rays; a velocity or field slightly off its norm changes the redshift or the polarization without any failure',
  ['lib/ThinDisk.C', 'lib/ThickDisk.C', 'lib/Jet.C', 'lib/SphericalAccretion.C', 'lib/Blob.C', 'lib/Plasmoid.C', 'lib/FreeStar.C', 'lib/FixedStar.C', 'lib/Torus.C', 'lib/PolishDoughnut.C', 'lib/OscilTorus.C', 'lib/DeformedTorus.C', 'lib/Astrobj.C'],
  [dict(name='getVelocity of every analytic object; getCartesian of the moving ones; Astrobj::Generic::computeB4vect', where='lib/*.C')],
  [('v_velocity.cpp', 'H_')], bounds='objects whose velocity is read from FITS grids are not covered (their grid lookup is not); the ipole variant of the magnetic field, off by default, is not covered',
  assumptions=['circularVelocity of the metric meets its contract (M07)'])
P('R04', 'Thin disks and inflating stars emit by the law they are documented with',
  'For any parameters, place and frequency: a Page-Thorne disk emits the flux of the torque balance of matter on circular orbits of the Kerr metric, none at the innermost orbit, scaled by the accretion rate and the mass; a power-law disk is a black body of a temperature that is a power of the radius; an iron-line disk emits a power of the radius beyond its cut-off and within one percent of the line frequency, given in any unit; a black-body pattern disk emits the Planck law of the temperature on its grid; an inflating star grows evenly between its dates and is diluted with its volume. A hit on a Page-Thorne or profile disk adds its emission times the transmission and the power of the frequency ratio to the spectrum and bolometric intensity asked for.',
  'arbitrary spin, inner edge, radius, temperature, slope, frequency, dates and radii, both kinds of coordinates',
  'tests only look that such scenes run',
  ['lib/PageThorneDisk.C', 'lib/ThinDiskPL.C', 'lib/ThinDiskIronLine.C', 'lib/PatternDiskBB.C', 'lib/InflateStar.C'],
  [dict(name='PageThorneDisk::bolometricEmission, processHitQuantities; ThinDiskPL, ThinDiskIronLine, PatternDiskBB, InflateStar::emission, radiusAt', where='lib/*.C')],
  [('r_objects.cpp', 'H_'), ('r_objects.cpp', 'B_')], bounds='the roots and the innermost orbit that PageThorneDisk caches from the spin: 200 sampled spins (bounded); hits with one or two channels', assumptions=['pow, exp and log are opaque functions, log with its derivative'])
NOT_APPLICABLE = {}
def NA(id, title, statement, text, why, files, mech, reason, over=('inputs', 'configurations')):
    NOT_APPLICABLE[id] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, reason=reason)
NA('T01', 'The image does not depend on the number of threads or their schedule',
  'Ray-tracing a set of pixels with any number of threads gives, under every interleaving, the same quantities in the same cells as with one thread, and every requested pixel is traced exactly once.',
  'every number of threads and every interleaving', 'a test run samples one interleaving',
  ['lib/Scenery.C', 'include/GyotoSmartPointer.h', 'lib/SmartPointer.C'], [dict(name='SceneryThreadWorker, Scenery::rayTrace, SmartPointee mutexes', where='lib/Scenery.C')],
  'The verifier built here executes one thread; interleavings of pthread code have no contract in it (no permission or ownership logic for C++ is installed). The sequential half is claimed: worker threads operate on clones (C01) and the pixel sets visit each pixel once (G01).', over=('schedules',))
NA('T02', 'Distributing an image over MPI processes changes nothing in it',
  'With any number of MPI workers, for any order of message arrival, the manager stores each pixel result in its own cell and ends with the same image as a single process.',
  'every number of workers and every order of message arrival', 'tests run one process, or one history of messages',
  ['lib/Scenery.C', 'bin/gyoto-mpi-worker.C'], [dict(name='Scenery::mpiTask, mpiClone, rayTrace', where='lib/Scenery.C')],
  'The history is made by boost::mpi and an MPI runtime outside the sources; no contract of message matching can be stated within the sequential verifier.', over=('histories', 'schedules'))
NA('X01', 'A scene written to XML and read again is the same scene',
  'Writing any object to XML and reading the text back gives an object with the same kind, parameters and parts.',
  'every object and parameter value', 'tests round-trip a few example files',
  ['lib/Factory.C', 'lib/Object.C', 'lib/Property.C'], [dict(name='Factory, FactoryMessenger, Object::fillElement/setParameters', where='lib/Factory.C lib/Object.C')],
  'The text passes through Xerces-C (DOM, parser, transcoding) and decimal formatting, external code without contracts; the accessor half of the round trip is claimed as C02.')
NA('X02', 'Data written to FITS files read back unchanged',
  'Grids of disk and pattern objects written with fitsWrite and read with fitsRead are the same grids with the same geometry.',
  'every grid', 'no stable test covers all kinds', ['lib/PatternDisk.C', 'lib/Disk3D.C', 'lib/GridData2D.C', 'lib/DirectionalDisk.C', 'lib/XillverReflection.C'],
  [dict(name='fitsRead, fitsWrite', where='lib/*Disk*.C lib/GridData2D.C')],
  'Contents go through CFITSIO and the file system, external code without contracts that can be discharged here.')
NA('X03', 'Numerical spacetimes reproduce the LORENE data they are read from',
  'Numerical and rotating-star metrics return the coefficients of the LORENE solution interpolated in time, and consistent derivatives.',
  'every file and event', 'tests need data files that are not shipped', ['lib/NumericalMetricLorene.C', 'lib/RotStar3_1.C'], [dict(name='NumericalMetricLorene, RotStar3_1', where='lib/')],
  'Values come from LORENE spectral expansions (external library, external data); the 3+1 equations they feed are under contract in M04 and M08.')
NA('X04', 'A Python-implemented object behaves as its Python methods say',
  'Metric, Spectrum and Astrobj implemented in Python get the arguments of the C++ call and return their result.',
  'every Python class', 'tests use one class per kind', ['plugins/python/lib/Base.C', 'plugins/python/lib/Metric.C'], [dict(name='Gyoto::Python wrappers', where='plugins/python')],
  'The behaviour is that of the CPython and NumPy C API, external code outside the verifier.')
NA('X05', 'Integrated trajectories converge to the true geodesic within the tolerance',
  'For any initial conditions the error of the integrated trajectory is bounded by the requested tolerances, and conserved quantities drift by no more.',
  'every metric, initial condition and tolerance', 'tests follow a few orbits', ['lib/WorldlineIntegState.C', 'lib/Metric.C'], [dict(name='WorldlineIntegState::Boost, Metric::myrk4_adaptive', where='lib/')],
  'Floating-point accuracy and the adaptive error control of boost::odeint are outside the verifier, which treats doubles as reals; what is claimed is the right-hand side (M04) and the bookkeeping of one step (M08).')
