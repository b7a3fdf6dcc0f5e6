"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)
OTF="src/pybsm/otf/functional.py"; RAD="src/pybsm/radiance/functional.py"; MET="src/pybsm/metrics/functional.py"
SIM="src/pybsm/simulation/functional.py"; SEN="src/pybsm/simulation/sensor.py"; SCN="src/pybsm/simulation/scenario.py"
REF="src/pybsm/simulation/ref_image.py"; UT="src/pybsm/utils.py"; GEO="src/pybsm/geospatial.py"; NOI="src/pybsm/noise.py"

p("C01","Every OTF has unit response at zero spatial frequency",
 "Every optical transfer function the library offers (aperture with and without defocus, detector with and without aggregation, charge transfer, diffusion, drift, jitter, Gaussian, geometric defocus, TDI, turbulence, wavefront and their wavelength-weighted or system products) equals exactly 1 at zero spatial frequency, for every physically valid set of parameters; blur never changes the mean level of a scene.",
 ["inputs"],"all valid parameter values of every OTF, and all weight vectors",
 "Tests evaluate a few frequency grids and parameter sets with tolerances; several pass all-zero or all-one arrays and none covers central obscuration, aggregation factor or weights in general.",
 [OTF],[("closed-form OTF expressions",OTF),("weight normalisation",OTF+": weighted_by_wavelength")],observe=["value of each OTF at u=v=0"])
p("C02","OTFs are even in each frequency axis; complex ones are Hermitian",
 "Every rotationally or axis-separable OTF takes real values that are unchanged when the sign of either spatial frequency is flipped, for all frequencies and parameters. The time-delay-and-integration OTF, which carries phase, takes the complex-conjugate value at the negated frequency, so every resulting point-spread function is real.",
 ["inputs"],"all frequencies (both signs) and all parameters",
 "Existing tests sample non-negative frequencies almost exclusively.",
 [OTF],[("even functions of u and v",OTF),("phasor sum",OTF+": tdi_OTF")])
p("C03","Horizontal and vertical axes are treated alike and independently",
 "For every OTF with separate horizontal and vertical parameters, exchanging the two frequency axes together with their parameters leaves the result unchanged, and a horizontal parameter influences the response only through horizontal frequency (and vertical only through vertical). Geometric image and metric quantities given per axis (instantaneous field of view, ground sample distance) follow the matching axis' parameters.",
 ["inputs"],"all frequencies and parameter pairs with unequal x and y values",
 "Tests nearly always use equal x/y parameters or equal grids, so swapped or reused axis parameters are invisible.",
 [OTF,MET,SEN],[("separable products",OTF),("per-axis ifov/gsd",MET+": niirs, niirs5")])
p("C04","No OTF amplifies",
 "Inside the optical cutoff no component OTF (aperture, detector, aggregation, charge transfer, diffusion, drift, jitter, Gaussian, geometric defocus, TDI, turbulence, wavefront) ever exceeds 1 in magnitude (the empirical second wavefront form within its stated range of errors), and the aperture response is zero beyond cutoff, for every valid parameter set.",
 ["inputs"],"all frequencies within cutoff and valid parameters",
 "Tests compare a few points with stored numbers; they never bound the response over ranges of frequency and parameters.",
 [OTF],[("exponentials of non-positive arguments, sinc, arccos chains",OTF)])
p("C05","A blur with zero extent is the identity; more blur never raises response",
 "Setting a blur's strength to zero (jitter, drift, wavefront error, geometric defocus radius, charge-transfer loss, Gaussian size in the limit, aggregation of one pixel) makes that OTF equal to 1 (or its un-aggregated form) at every frequency. Increasing the strength of a Gaussian-type or loss-type blur never increases its response at any frequency.",
 ["inputs"],"all frequencies and all pairs of blur strengths",
 "Tests check single strengths only; monotonicity quantifies over pairs of strengths at every frequency.",
 [OTF],[("exponent and sinc arguments proportional to strength",OTF)])
p("C06","Component OTFs follow their documented equations",
 "Each component OTF and blur-related helper (diffraction aperture with obscuration and with defocus, detector, aggregation, charge transfer, diffusion, drift, jitter, Gaussian, geometric defocus, wavefront (both forms), TDI, digital filter, defocus radii, dark current from density) equals its documented closed-form model at every frequency and for all valid parameters, including at branch boundaries such as no obscuration and no defocus.",
 ["inputs"],"all frequencies, parameters and both sides of each branch",
 "Stored expected values cover a handful of points, several of them degenerate (all-zero frequency, defocus 0 only), so wrong terms that vanish there pass.",
 [OTF],[("closed-form expressions",OTF)])
p("C07","The system OTF is the product of exactly its seven components",
 "For every sensor and scenario the combined transfer function is the product of aperture, turbulence, detector, jitter, drift, wavefront and digital-filter responses, each evaluated on the same frequency grid with this sensor's and scenario's own parameters and each reported in its own result field. Turbulence contributes exactly 1 when the turbulence strength is not positive, the filter exactly 1 for a one-row kernel, and drift and turbulence act over the full exposure including all TDI stages.",
 ["inputs","configurations"],"all sensors, scenarios, grids and on/off combinations of turbulence and filtering",
 "One configuration with mostly zero-effect components is tested; a dropped or doubled component or wrong-axis parameter is invisible there.",
 [OTF,"src/pybsm/otf/otf.py"],[("component assembly",OTF+": common_OTFs")])
p("C08","Wavelength weighting is a normalised average over all bands",
 "A wavelength-weighted quantity equals the sum over all wavelengths of weight times value divided by the sum of weights, each wavelength used exactly once with its own weight. It is therefore unchanged by scaling the weights, linear in the weighted function, and equal to the constant when the function is constant.",
 ["inputs"],"all wavelength vectors with distinct entries, weights and functions",
 "Tests use one or two wavelengths with equal weights.",
 [OTF],[("weighted sum",OTF+": weighted_by_wavelength")])
p("C09","Blurring an image uses a centred, normalised point-spread function",
 "The point-spread function derived from a transfer function sampled with zero frequency at the centre is real, sums to one, is centred, and is resampled from the transfer function's own sampling to the requested output sampling in both directions; a kernel is always returned, whatever the array size. Applying it to an image filters with that kernel at the reference image's angular sampling and then resamples image and kernel from the reference sampling to the sensor's pixel angle, preserving the image's axis order.",
 ["inputs","configurations"],"all transfer-function sizes (odd, even, small), samplings and non-square images",
 "Tests mock or use tiny symmetric arrays; odd sizes, small arrays and non-square images are never exercised.",
 [OTF],[("ifftshift/ifft2/fftshift and crop",OTF+": otf_to_psf"),("filtering and resampling",OTF+": apply_otf_to_image, resample_2D")])
p("C10","A transfer-function slice follows the requested orientation",
 "Slicing a two-dimensional transfer function at an angle returns its values along the ray from zero frequency towards that angle, in order of increasing radial frequency, with horizontal and vertical directions matched to the grid layout (horizontal frequency increasing with column, vertical frequency decreasing with row), for every angle.",
 ["inputs"],"all angles and all grids",
 "Tests use symmetric 2x2 arrays for which every slice is the same.",
 [OTF],[("interpolation along the ray",OTF+": slice_otf")])
p("C11","The turbulence chain integrates the right path with the right scaling",
 "Turbulence blur is computed from the Hufnagel-Valley profile evaluated at the altitude belonging to each point of the slant path from target to sensor, a spherical-wave coherence diameter weighted by normalised distance to the 5/3 power and scaling as wavelength to the 6/5, and an average of short- and long-exposure transfer functions weighted by the wind and exposure time. Every step equals its documented equation for all inputs.",
 ["inputs"],"all altitudes, ranges, wind speeds, turbulence strengths, exposure times and wavelengths",
 "Tests compare stored numbers for a few inputs, mostly at zero frequency or with the coherence diameter mocked to one value.",
 [OTF,GEO],[("path profile",GEO+": altitude_along_slant_path"),("profile, coherence and OTFs",OTF)])
p("C12","Radiometric quantities follow their physical equations",
 "Black-body radiance follows Planck's law, focal-plane irradiance follows the f-number relation, cold-shield, cold-stop and optics self-emission follow their solid-angle relations, photon detection rate is irradiance times area and quantum efficiency over photon energy, and total target radiance combines path emission, transmitted self-emission, path scatter and reflectance-scaled surface reflection, for every input.",
 ["inputs"],"all spectra, temperatures, reflectances and optical parameters",
 "The radiance tests are not collected in the build environment, so nothing samples these functions at all.",
 [RAD],[("closed-form expressions",RAD)])
p("C13","Target and background are processed identically in the SNR",
 "The signal-to-noise computation applies exactly the same optics, self-emission, detector, dark-current, exposure and saturation treatment to target and background, so swapping the two radiances negates the contrast signal and SNR and leaves every noise term unchanged, and equal radiances give exactly zero contrast. Sensor self-emission from shield, optics and cold stop, plus the sensor's other stray irradiance, is added exactly once to each.",
 ["inputs"],"all sensors and all pairs of radiance spectra",
 "No collected test runs the SNR calculation.",
 [RAD,SEN],[("paired signal-rate calls",RAD+": photon_detector_SNR")])
p("C14","Total noise is a complete root-sum-square; SNR is contrast over it",
 "Total noise is the root-sum-square of photon (shot) noise of the brighter of target and background, quantisation noise of the full well at the sensor's bit depth, read noise and every user-supplied other noise source, each counted once, and SNR is contrast signal divided by that total. Dark-current and self-emission noise are the square roots of their own accumulated electrons over the effective exposure and all TDI stages; noise gain is the root-sum-square of a unit-sum kernel and kernels not summing to one (beyond rounding) are rejected.",
 ["inputs"],"all sensors, spectra and noise settings",
 "The SNR and noise budget are not covered by any collected test; quantisation noise is checked at a few points.",
 [RAD,NOI],[("noise budget",RAD+": photon_detector_SNR"),("quantisation noise and gain",NOI)])
p("C15","Accumulated charge never exceeds the allowed well fill",
 "If the brighter of target and background would exceed the permitted fraction of the well, signals and exposure time are scaled by one common factor that brings it exactly to the limit; otherwise nothing is scaled. The reported exposure time, well fraction and scale factor are consistent with that factor, and the factor is never above one.",
 ["inputs"],"all sensors and radiances on both sides of the saturation limit",
 "No collected test reaches saturation.",
 [RAD],[("well-fill check and rescaling",RAD+": check_well_fill, photon_detector_SNR")])
p("C16","Reflectance maps to photoelectrons through the same sensor model",
 "The table relating scene reflectance to photoelectrons covers reflectance 0 to 1, uses the in-band part of the atmosphere, the requested target temperature and the same optics, self-emission, detector and dark-current model as the SNR calculation, accumulates over the requested exposure and all TDI stages, and never exceeds the full well: when the brightest entry would, all entries are scaled by one common factor. The returned spectral weights are relative to their maximum and paired with the in-band wavelengths.",
 ["inputs"],"all atmospheres, sensors, exposure times and target temperatures",
 "The function is mocked in the collected tests.",
 [RAD],[("reflectance table",RAD+": reflectance_to_photoelectrons")])
p("C17","Every interpolation node exists in the atmosphere database",
 "For every altitude, ground range and haze index inside the advertised limits (ground ranges up to the last one stored for the altitude node below), every grid point consulted for interpolation is a condition the database actually contains, so an in-range request never fails for lack of data. Requests outside the limits are rejected with an index error.",
 ["inputs"],"all altitudes in [2,20000] m, ground ranges in [0,300000] m and both haze models",
 "The database tests cannot be collected, and no finite sample of altitudes visits every grid cell.",
 [UT,"src/pybsm/atms/fileDecoder.csv"],[("grid tables and decoder",UT+": load_database_atmosphere")])
p("C18","Atmosphere interpolation is bilinear, convex and exact at grid nodes",
 "The interpolated atmosphere is the bilinear blend of the four enclosing database entries: weights are in [0,1], sum to one, tend to the nearer node, and at a grid node the database entry itself is returned. Requests share the requested haze index in every database access.",
 ["inputs"],"all in-range altitudes and ground ranges, on and between nodes",
 "The database tests cannot be collected in this environment.",
 [UT],[("interpolation weights",UT+": load_database_atmosphere")])
p("C19","A database request reads exactly the requested condition, in SI units",
 "A database lookup selects the entry whose haze index, altitude and ground range all equal the request (metres converted to kilometres), reads that entry's file, and returns one row per wavelength from 0.3 to 14 micrometres in metres followed by the five database columns in order. Transmission is returned unscaled and all four radiance columns are converted to SI by the same factor; a request that matches no stored entry or whose file is missing raises an index error.",
 ["inputs"],"all database conditions and requests that match none",
 "Database files are stubs here and the tests are not collected.",
 [UT,"src/pybsm/atms/fileDecoder.csv"],[("decoder filtering and unit conversion",UT+": load_database_atmosphere_no_interp")])
p("C20","A scenario's atmosphere always matches its current settings",
 "Reading a scenario's atmosphere after any sequence of reads and changes of haze index, altitude or ground range yields exactly what the database returns for the current settings and the scenario's chosen interpolation mode. Repeated reads without changes do not reload.",
 ["histories"],"all interleavings of attribute changes and atmosphere reads",
 "Histories are unbounded, and the scenario tests are not collected.",
 [SCN],[("cache invalidation in setters",SCN)],state=[("cached atmosphere","memoised database result",SCN)])
p("C21","Library calls never modify the caller's data",
 "No public function changes the contents of the arrays, or the attributes of the sensor, scenario, image or metrics objects, passed to it; constructors and functions only create new results. Calling a function twice with the same arguments therefore sees the same inputs.",
 ["inputs","histories"],"all inputs and all sequences of calls sharing arguments",
 "Tests build fresh inputs for every call and never compare inputs before and after.",
 [OTF,RAD,MET,SIM,UT,NOI,GEO,SCN,SEN,REF],[("copy-on-write style",SIM)])
p("C22","Results depend only on arguments, randomness only on sensor noise",
 "Every public calculation is a function of its arguments and the installed database alone: no module-level state, earlier call, clock, environment or random draw affects it. The single exception is the noisy simulated image, whose randomness is one photon-noise draw around the blurred image followed by one zero-mean Gaussian draw, while the noiseless and blurred images it returns are deterministic.",
 ["histories","inputs"],"all call sequences and inputs",
 "Tests call each function once per input in isolation.",
 [OTF,RAD,MET,SIM,UT,NOI,GEO,SCN,SEN,REF],[("absence of mutable globals",SIM)])
p("C23","Image simulation applies the sensor model in physical order",
 "A simulated image converts pixel values to reflectance by interpolating the given calibration (extrapolating, then limiting to 0..1), maps reflectance to photoelectrons at the sensor's exposure, blurs with the system transfer function weighted by the in-band detected spectrum, resamples to the sensor's pixel angle, and only then applies shot noise and Gaussian noise with variance quantisation plus read noise. All stages share the same slant range, exposure and wavelength weights, and true, blurred and noisy images are returned in that order.",
 ["inputs"],"all images, calibrations, sensors and scenarios",
 "Tests of the simulation use mocked pieces and a single small image.",
 [SIM],[("pipeline",SIM+": simulate_image, img_to_reflectance"),("filter and field of view",SIM)])
p("C24","Constructed sensors, scenarios and images hold what they were given",
 "Each constructor argument of a sensor, scenario or reference image is observable unchanged under its own name, omitted ones take their documented defaults, and derived defaults are consistent: vertical pitch equals horizontal pitch, the default detector fill factor is the same in both directions, wavefront correlation lengths equal the aperture, optics transmission and quantum efficiency default to one over the band, and default calibration uses the image's low and high percentiles.",
 ["inputs","configurations"],"all argument combinations including omitted ones",
 "Tests check defaults for a few parameter sets, with width equal to pitch.",
 [SEN,SCN,REF],[("constructors",SEN)])
p("C25","Estimated capture parameters reproduce the image's sampling",
 "The sensor and scenario estimated for a reference image imply exactly the image's ground sample distance at the given altitude straight down, an aperture consistent with the estimated pixel angle and band centre, no turbulence and no motion, and carry the image's name and the given altitude.",
 ["inputs"],"all ground sample distances, altitudes and names",
 "One example is checked.",
 [REF],[("capture estimation",REF+": estimate_capture_parameters")])
p("C26","Contrast stretch always yields valid 8-bit data",
 "The 8-bit contrast stretch returns unsigned 8-bit values for every image and percentile pair. When the two percentile levels differ, levels at or below the low percentile map to 0, levels at or above the high percentile map to 255, ordering in between is preserved with limiting and rounding before conversion, and the input image is untouched. The stretch is unaffected by adding a constant to the image or multiplying it by a positive constant.",
 ["inputs"],"all images and percentile settings",
 "Two sample images are checked.",
 [SIM],[("stretch, clip, round, convert",SIM+": stretch_contrast_convert_8bit")])
p("C27","NIIRS predictions follow the published GIQE equations",
 "The version 3, 4 and 5 image quality equations are evaluated with their published coefficients, branch threshold, ground-sample projections and units (ground sample distance converted to inches) for all inputs, and report the projected quantities actually used. Predicted quality never decreases when SNR rises, never decreases when ground sample distance shrinks, and in versions 3 and 4 never decreases when edge response sharpens within a branch.",
 ["inputs"],"all edge responses, distances, overshoots, gains, SNRs and elevation angles",
 "The metrics equations have no collected tests.",
 [MET],[("GIQE equations",MET+": giqe3, giqe4, giqe5")])
p("C28","NIIRS drivers feed the image quality equations consistently",
 "The two NIIRS computations derive geometry, in-band atmosphere, radiances, SNR, frequency grid, transfer function and edge terms for the given sensor and scenario in the same way and pass each to the matching input of the equation: SNR improved by the square root of frame stacks, effective exposure time, elevation as complement of nadir angle, geometric-mean or horizontal ground sample distance, and image enhancement excluded only in version 5. Every intermediate result is reported under its own name and the spectral class switches the assumed reflectances and temperatures of both target and background.",
 ["inputs","configurations"],"all sensors and scenarios, emissive and reflective bands, both database modes",
 "Neither driver is run by any collected test.",
 [MET],[("drivers",MET+": niirs, niirs5, giqe_radiance")])
p("C29","Edge and resolution metrics are faithful to the transfer-function slice",
 "The edge response is the standard normalised integral of the slice, so it is one half at the edge and its values at opposite offsets sum to one; relative edge response is the difference half a pixel either side; overshoot is the response at 1.25 pixels if monotone from 1 to 3 pixels and otherwise the maximum sampled there every quarter pixel; directional terms are combined by geometric mean from the horizontal and vertical slices with the matching pixel angle. Ground resolved distance is the coarser of the contrast-limited distance (where the slice falls to three over SNR) and twice the pixel footprint.",
 ["inputs"],"all slices, sampling steps, pixel angles, SNRs and ranges",
 "These metric functions have no collected tests.",
 [MET],[("edge response family",MET)])
p("C30","Viewing geometry is consistent on a curved earth",
 "Slant range, nadir angle and altitude along the path are all law-of-cosines relations of the same earth radius and mutually consistent: slant range is unchanged by exchanging target and sensor heights and reduces to the height difference at zero ground range, the nadir angle is the angle opposite the target radius, and altitude along the path starts at target height at the target end and reaches sensor height at the sensor end. Ground sample distance is pixel angle times range.",
 ["inputs"],"all heights and ranges",
 "The geospatial tests are not collected in this environment.",
 [GEO],[("law of cosines",GEO)])
p("C31","Image operations need OpenCV and say so; everything else works without it",
 "The library imports where OpenCV is absent or cannot be loaded, every image operation that needs it raises an import error naming the install extras before touching OpenCV when it is absent, and no other public function depends on it.",
 ["configurations"],"installations with and without OpenCV and all entry points",
 "Tests patch a flag for the functions they know about; they cannot show that no other path reaches the missing module.",
 [OTF],[("import guard",OTF)])
p("C32","Empty spectra warn, malformed calibrations are rejected",
 "Every radiometric function that documents it issues exactly one kind of user warning when any of its spectral inputs is empty, and none otherwise. Giving pixel values without reflectance values is rejected with a value error before an image object exists, and simulation rejects a non-increasing frequency grid.",
 ["inputs"],"all combinations of empty and non-empty inputs",
 "The tests that look at warnings are not collected, and sample single combinations.",
 [RAD,REF,SIM],[("emptiness checks",RAD)])
p("C33","Result objects are complete on every path",
 "On every path to a normal return, each computation returns a defined value and fills every documented field of its result object that belongs to it: all signal-to-noise fields, all transfer-function fields and the fields of the NIIRS version computed. No path reads a result before it is computed.",
 ["inputs","configurations"],"all branches, loop counts and switches",
 "Tests take one branch each and read a few fields.",
 [RAD,OTF,MET,"src/pybsm/radiance/snr_metrics.py","src/pybsm/metrics/metrics.py","src/pybsm/otf/otf.py"],[("field assignment",RAD)])
p("C34","Plots show every term under its own label",
 "The transfer-function plot draws each component and the system curve against its spatial frequency in the same order as the legend names them and marks the sensor's Nyquist frequency in the axis' units, and the noise plot draws each noise term above its own label. Both complete without error for any metrics result.",
 ["inputs"],"all metrics results and orientations",
 "Plot functions have no collected tests.",
 [MET],[("plotting",MET+": plot_common_MTFs, plot_noise_terms")])
p("C35","Physical constants are correct and agree everywhere",
 "Planck's constant, the speed of light, Boltzmann's constant, the electron charge and the earth radius have the same accepted SI value in every module that defines them.",
 ["configurations"],"every module and every definition",
 "Tests compare derived numbers loosely; nothing compares definitions across modules.",
 [OTF,RAD,GEO],[("module constants",OTF)])
p("C36","Every documented parameter influences what it should, and nothing else",
 "Each parameter a public function documents influences its result unless it is documented as unused (or, as the geometric defocus aperture, is absent from the documented equation), and a function's result does not depend on sensor or scenario settings outside those its documentation ties to it. In particular stray irradiance, target temperature, exposure, TDI stages, fill, noise and haze settings each reach the result.",
 ["inputs"],"all parameters of all public functions",
 "A parameter that is silently ignored is invisible to tests using its default.",
 [OTF,RAD,MET,SIM,UT,NOI,GEO],[("parameter use",RAD)])
p("C37","Statistical distribution of simulated noise",
 "Over many simulated images the noisy image has the blurred image as mean and the sum of photon, quantisation and read variance as variance in every pixel.",
 ["inputs","histories"],"all images and random streams","A statistical statement over an unbounded ensemble of draws.",[SIM],[("random draws",SIM+": simulate_image")])
p("C38","The truncated blur kernel keeps at least 95 percent of the energy",
 "Whenever the transfer function allows it, the truncated kernel used for blurring contains at least 95 percent of the energy of the full point-spread function.",
 ["inputs"],"all transfer functions","Depends on the energy distribution of run-time data.",[OTF],[("growing crop",OTF+": otf_to_psf")])
p("C39","Database values are physically valid",
 "All database transmissions lie in 0..1 and all radiances are finite and non-negative for every stored condition.",
 ["inputs"],"all stored conditions","The binary database files are not present in this checkout.",["src/pybsm/atms"],[("data files","src/pybsm/atms")])
p("C40","Sampled integrals and grids are accurate enough",
 "Discretisation (path steps, frequency grid, wavelength grid, trapezoidal integration, grid interpolation) changes no reported metric by more than its documented precision.",
 ["inputs"],"all inputs","Numerical accuracy over all inputs.",[OTF,MET,GEO],[("sampling choices",MET)])
p("C41","Restoration filter, field of view and image display follow definitions",
 "The Wiener filter of a transfer function (real or complex) is its conjugate over its squared magnitude plus the noise-to-signal power ratio, frequency by frequency, so that without noise it exactly undoes the transfer function wherever that is not zero. The instantaneous field of view of a detector is its width over the focal length. Showing a reference image draws that image once over its own width and height in metres (pixels times ground sample distance), centred on the origin.",
 ["inputs"],"all transfer functions including complex ones, noise ratios, detector sizes and images of any shape",
 "The filter is tested with a few real values only, and displays are not inspected.",
 [SIM,REF],[("restoration filter and field of view",SIM+": wiener_filter, instantaneous_FOV"),("display",REF+": RefImage.show")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
