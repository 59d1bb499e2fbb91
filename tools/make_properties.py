#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
SLM, LIB, SIM, PRO, WIN, ANA, CTL, BAK = ("pySLM2/slm.py", "pySLM2/_lib.py", "pySLM2/simulation.py",
    "pySLM2/profile.py", "pySLM2/window.py", "pySLM2/analysis.py", "pySLM2/util/controller.py", "pySLM2/_backend.py")

prop("C01", "Device-plane coordinates are centred, square-pitched and y-up",
 "For every modulator of Nx by Ny pixels with pitch d, the published device-plane grids have shape (Ny, Nx) and pixel (i, j) lies at x = (j - Nx/2) d, y = (Ny/2 - i) d. Converting a pixel position to coordinates and back recovers the same (i, j). The grids stay the same for the whole life of the device, whatever was computed in between.",
 ["inputs", "configurations", "histories"], "all Nx, Ny >= 1 (odd and even, square or not), all pitches d > 0, all pixels, both precisions, any earlier calls",
 "The tests only compare padded against unpadded grids of one 1920x1080 device; no test states where a pixel is, and no odd or tall device is ever built.",
 [SLM], [("pixel index <-> coordinate conversion", SLM + " SLM._convert_pixel_index_to_dmd_coordinate / _convert_slm_coordinate_to_pixel_index"),
         ("grid construction and caching", SLM + " SLM._fourier_plane_pixel_grid, _fourier_plane_grid, fourier_plane_grid")],
 observe=["SLM.fourier_plane_grid"])

prop("C02", "The image-plane grid is the reciprocal lattice of the device plane",
 "For every modulator, the published image-plane grids have shape (Ny, Nx) and sample (i, j) lies at x = (j - floor(Nx/2)) * wavelength * focal_length / (Nx d), y = -(i - floor(Ny/2)) * wavelength * focal_length / (Ny d). The optical axis is therefore exactly on sample (floor(Ny/2), floor(Nx/2)), x grows with j and y falls with i.",
 ["inputs", "configurations"], "all Nx, Ny >= 1, d > 0, wavelength > 0, focal length > 0, all samples, both precisions",
 "Tests only take differences of neighbouring samples on one even-sized device; odd sizes, absolute position and axis orientation are never asserted.",
 [SLM], [("reciprocal grid", SLM + " SLM._image_plane_grid, image_plane_grid"), ("scaling factor", SLM + " SLM.scaling_factor")],
 observe=["SLM.image_plane_grid"])

prop("C03", "Zero padding extends both simulation planes on the same lattice",
 "For every device and non-negative padding, a simulation has Nx + 2 padding_x by Ny + 2 padding_y samples; its padded device-plane grid continues the device's own pixel lattice (the inner window is exactly the device grid) and its padded image-plane grid is the reciprocal lattice of the padded size. The published pixel areas of the two planes equal the product of the x and y spacings of those grids.",
 ["inputs", "configurations"], "all device sizes, all paddings >= 0 chosen independently in x and y, all pixels",
 "Tests use one device with paddings Nx/2, Ny/2; asymmetric, odd and zero paddings on non-square devices are not covered.",
 [SIM, SLM], [("padded grids", SIM + " SLMSimulation._fourier_plane_padded_grid, _image_plane_padded_grid"), ("pixel areas", SIM + " fourier_plane_pixel_area, image_plane_pixel_area"), ("padded size", SIM + " SLMSimulation.Nx, Ny")],
 observe=["SLMSimulation.fourier_plane_padded_grid", "SLMSimulation.image_plane_padded_grid"])

prop("C04", "The simulated image field is the centred transform of light times state",
 "After propagating an illumination through a device, the input field is the illumination surrounded by exactly padding_x / padding_y zero columns / rows on each side, the output field is the same with the illumination multiplied pixel by pixel by the device's transmission, and the image-plane field is the unitary-scaled centred inverse discrete Fourier transform of the output field: pixel area over (wavelength * focal_length), times the sum over samples of output times exp(+2 pi i (u m / Nx + v n / Ny)) with all indices counted from the array centres floor(N/2).",
 ["inputs", "configurations"], "all illuminations, device states, sizes and paddings; both precisions and both FFT backends",
 "Tests compare one on-axis Gaussian at 1 percent of the peak amplitude, which is blind to shifts, flips and swapped axes of asymmetric fields.",
 [SIM, LIB, SLM], [("propagation", SIM + " SLMSimulation.propagate_to_image"), ("FFT wrappers", LIB + " _inverse_fourier_transform")],
 state=[("_input_field/_output_field/_image_plane_field", "fields of the last propagation", SIM + " SLMSimulation.__init__")],
 observe=["SLMSimulation.input_field", "SLMSimulation.output_field", "SLMSimulation.image_plane_field"])

prop("C05", "Power bookkeeping between the planes is exact",
 "Input, output and image-plane power are the sums of the respective intensities times the respective pixel area; the image-plane power always equals the output power and padding changes none of the input and output powers. A mirror device never outputs more power than comes in, and a phase-only device outputs exactly the power that comes in.",
 ["inputs", "configurations"], "all illuminations, all device states (mirror states in [0,1], real phase maps), all sizes and paddings",
 "One Gaussian with all mirrors on is tested; conservation for arbitrary states and fields is a theorem (Parseval), not a sample.",
 [SIM], [("power sums", SIM + " get_input_power, get_output_power, get_image_plane_power"), ("field scale", SIM + " propagate_to_image")],
 observe=["SLMSimulation.get_input_power", "get_output_power", "get_image_plane_power"])

prop("C06", "Blocking the zeroth order clears exactly the central disk",
 "Blocking the zeroth order sets the image-plane field to zero at exactly the samples whose distance from the optical axis is less than r and leaves every other sample, the input field and the output field unchanged; without r, the radius is half the distance wavelength * focal_length / (grating period). Before any propagation it raises TypeError and changes nothing; repeating it with the same radius changes nothing further.",
 ["inputs", "histories"], "all fields, radii, paddings, grating periods and angles; any earlier calls",
 "The call is only used as a step in a hologram test that looks at the first order; which samples are cleared is never asserted.",
 [SIM], [("mask", SIM + " DMDSimulation.block_zeroth_order")], observe=["DMDSimulation.image_plane_field"])

prop("C07", "Simulation results reflect exactly the last propagation",
 "All fields and intensities are None before the first propagation and after a clear; otherwise they belong to the most recent propagation and are the same as those of a fresh simulation given the same illumination and device state, regardless of earlier propagations, blocks, clears, reads, or device-state changes made afterwards. Each intensity is the squared modulus of its field, and simulating never alters the device's state.",
 ["histories", "inputs"], "all sequences of propagate / block / clear / read / device-state change, all inputs",
 "Every test propagates once on a fresh simulation; no test clears, re-propagates, or changes the device after propagating.",
 [SIM, SLM], [("field storage", SIM + " SLMSimulation.clear, propagate_to_image, *_field, *_intensity"), ("state snapshot", SLM + " _state_tensor")],
 state=[("_input_field/_output_field/_image_plane_field", "fields of the last propagation, or None", SIM + " SLMSimulation.__init__")],
 observe=["SLMSimulation.*_field", "SLMSimulation.*_intensity"])

prop("C08", "Profiles are sampled on the right plane with grid shape and precision",
 "Converting a profile for a device yields a tensor of the device's grid shape (Ny, Nx) and of the configured real or complex precision as requested: a function profile is evaluated at every device-plane sample (or every image-plane sample when so requested), a full-size array or tensor keeps its values pixel by pixel, and a scalar or constant fills the grid. The argument is never modified.",
 ["inputs", "configurations"], "all profile kinds (function, array, tensor, int, float, complex), both planes, real and complex requests, all device sizes, both precisions",
 "No test calls the conversion directly; constants and scalars are never passed where a full grid is required.",
 [SLM, PRO], [("conversion", SLM + " SLM.profile_to_tensor")], observe=["SLM.profile_to_tensor", "SLMSimulation.input_field"])

prop("C09", "Profile arithmetic is pointwise arithmetic",
 "For all profiles f and g and scalars c, the profiles f+g, f-g, f*g, f/g, f**g, -f, and the same with c on the right (or c+f, c*f with c on the left) evaluate at every point to that operation on the values of f, g and c, including when real and complex operands are mixed, when expressions are nested, and when the same profile appears twice. Building an expression changes none of its operands.",
 ["inputs", "programs"], "all expressions over profiles and int / float / complex scalars, all coordinates, both precisions",
 "Tests cover a few same-dtype pairs at fixed points; mixed real/complex, reflected operators on complex and nested expressions are not covered.",
 [PRO], [("operator factories", PRO + " FunctionProfile._make_attribute_func, __add__ ... __pow__, __neg__")], observe=["FunctionProfile.__call__"])

prop("C10", "Shift, rotate, rescale and phase-to-complex act on coordinates as stated",
 "For every profile f: f.shift(dx, dy) evaluates at (x, y) to f(x-dx, y-dy); f.rotate(t) to f(x cos t - y sin t, x sin t + y cos t); f.rescale_x(m) and f.rescale_y(m) to f(x/m, y) and f(x, y/m); f.as_complex_profile() to exp(i f(x, y)). Hence transforms compose as coordinate maps, shifting back undoes a shift, and the original profile is unaffected.",
 ["inputs", "programs"], "all profiles, parameters (m nonzero), points and compositions",
 "Only as_complex_profile is tested directly (one Zernike); direction conventions and compositions are not.",
 [PRO], [("transforms", PRO + " FunctionProfile.rotate, shift, rescale_x, rescale_y, as_complex_profile")], observe=["FunctionProfile.__call__"])

prop("C11", "Beam profiles equal their published formulas at every order",
 "With X=(x-x0)/w and Y=(y-y0)/w: the Hermite-Gaussian profile equals a H_n(sqrt2 X) H_m(sqrt2 Y) exp(-(X^2+Y^2)) with physicists' Hermite polynomials, the super-Gaussian equals a exp(-(X^2+Y^2)^p), the Laguerre-Gaussian equals a (sqrt2 R)^|l| L_p^|l|(2R^2) exp(-R^2) exp(-i l phi) with (R, phi) the polar coordinates of (X, Y) about the centre (for w > 0), and a constant profile equals its constant everywhere. Evaluation returns one value per coordinate.",
 ["inputs"], "all orders n, m, p >= 0 and all l (either sign), all parameters with w > 0, all points",
 "Tests check a handful of low orders against each other at one centre and width.",
 [PRO], [("formulas", PRO + " HermiteGaussian._func, LaguerreGaussian._func, SuperGaussian._func, ConstantProfile._func"), ("polynomial coefficients", PRO + " HermiteGaussian.__init__, LaguerreGaussian.__init__")], observe=["FunctionProfile.__call__"])

prop("C12", "Changing a profile parameter takes effect everywhere, immediately",
 "Assigning a public parameter of a profile or window (centre, amplitude, width, power, radius, constant) changes only that parameter, reading it back gives the assigned value, and every later evaluation - of the profile itself and of every expression or transform built from it earlier, even if already evaluated before - equals that of the same object freshly built with the new parameters. Other profiles are unaffected.",
 ["histories", "inputs"], "all interleavings of evaluations and assignments, all parameters of all profile and window classes, all derived expressions",
 "No test assigns a parameter; compiled graphs are cached per object, so staleness appears only after an evaluate-assign-evaluate history.",
 [PRO, WIN], [("graph variables", PRO + " tf.Variable attributes and setters"), ("graph caching", PRO + " @tf.function _func"), ("window setters", WIN)],
 state=[("tf.Variable parameters", "live parameters read by compiled graphs", PRO + ", " + WIN)], observe=["FunctionProfile.__call__"])

prop("C13", "Zernike profiles equal the ANSI/OSA polynomials and reject bad indices",
 "For every n >= |m| >= 0 with n - |m| even, a Zernike profile of amplitude a and radius R equals a N R_n^|m|(rho) cos(m phi) for m >= 0 and a N R_n^|m|(rho) sin(|m| phi) for m < 0, with rho = r/R, R_n^|m| the standard radial polynomial, and N = sqrt(n+1) for m = 0, sqrt(2n+2) otherwise, or N = 1 if not normalized. Without extrapolation it is zero at exactly rho > 1, with extrapolation the same formula holds everywhere. Any (n, m) with n < |m| or n - m odd raises ValueError, and the published n, m, radius and amplitude are those given.",
 ["inputs", "configurations"], "all integer n, m, all radii > 0, amplitudes, points, both flags",
 "Tests list orders up to n = 3; the radial coefficients are produced by a loop whose behaviour for general n, m is only sampled, and invalid indices are never tried.",
 [PRO], [("coefficients and validation", PRO + " Zernike.__init__"), ("evaluation", PRO + " Zernike._func")], observe=["Zernike.__call__", "Zernike.n", "Zernike.m", "Zernike.radius"])

prop("C14", "Windows are exact binary indicators of their region",
 "A rectangular window is 1 exactly where |x-x0| < wx/2 and |y-y0| < wy/2, and 0 everywhere else; a circular window is 1 exactly where (x-x0)^2+(y-y0)^2 <= r^2, and 0 everywhere else. Values are in the configured real precision.",
 ["inputs"], "all centres, sizes and points, boundary points included",
 "A window is used in one test as a mask; membership, including the boundary, is never asserted.",
 [WIN], [("indicator", WIN + " RectangularWindowRectangle._func, RectangularWindowCircular._func")], observe=["FunctionProfile.__call__"])

prop("C15", "The greyscale grating is the Lee hologram of amplitude and phases",
 "With method 'ideal', every mirror (i, j) gets amp * (1 + cos(2 pi (x cos theta + y sin theta) / period - (phase_out - phase_in))) / 2 evaluated at its own coordinates, with the sign of the phase difference flipped for negative-order devices; period is the periodicity in pixels times the pitch. For amplitudes in [0, 1] all values lie between 0 and the local amplitude, and scalars act as constant maps.",
 ["inputs", "configurations"], "all amplitude and phase maps, angles, periods, sizes, both orders",
 "Only the negative_order=False branch runs, inside an RMS comparison with 5 percent tolerance.",
 [LIB, SLM], [("grating", LIB + " _grating_phase, _calculate_dmd_grating_ideal, calculate_dmd_grating"), ("device call", SLM + " DMD.set_dmd_grating_state")], observe=["DMD.dmd_state"])

prop("C16", "The ideal mirror hologram puts the exact target into the chosen order",
 "For illuminations that vanish nowhere the target spectrum is nonzero, the greyscale hologram times the illumination splits exactly into a zeroth order, a chosen first order and its twin, where the chosen first order is the (windowed) target's centred Fourier transform times one positive constant times the grating carrier exp(-+ i 2 pi (x cos theta + y sin theta)/period), so the target appears at plus (negative-order: minus) the published first-order origin. That constant makes the brightest required mirror use full amplitude (all mirrors in [0, 1], maximum duty exactly 1), and the returned efficiency is such that the simulated first order equals efficiency / 4 times the target.",
 ["inputs", "configurations"], "all illuminations and targets with a nonzero spectrum inside the support of the light, all optional windows, sizes, angles, periods, both orders",
 "The only test is one example at 5 percent RMS, the efficiency tests are skipped as unstable; exactness for every beam is an algebraic identity.",
 [SLM, LIB], [("mode matching", SLM + " DMD._calc_amp_phase"), ("hologram and efficiency", SLM + " DMD.calculate_dmd_state"), ("grating", LIB + " _calculate_dmd_grating_ideal"), ("origin", SLM + " DMD.first_order_origin")],
 observe=["DMD.dmd_state", "return value of DMD.calculate_dmd_state"])

prop("C17", "Binary mirror methods give on/off states with the stated on-criterion",
 "Methods 'simple', 'random' and 'ifta' always leave a boolean state of the device shape, so it can be packed. 'simple' turns a mirror on exactly where the greyscale value exceeds 1/2; 'random' turns it on exactly where a fresh independent uniform draw from [0, 1) is below (tanh(r(q+w)) - tanh(r(q-w)))/2, with q in [0, pi] the folded grating phase, w = arcsin(amplitude), and r the given steepness (default 10), so zero-amplitude mirrors are always off and the on-probability lies in [0, 1).",
 ["inputs", "configurations"], "all amplitude maps in [0, 1], phases, angles, periods, steepness r > 0, both orders, every draw",
 "'simple' and 'random' are not run by any test; randomness makes point tests blind to a wrong probability.",
 [LIB, SLM], [("threshold", LIB + " _calculate_dmd_grating_simple, _calculate_dmd_grating_random"), ("dispatch and defaults", LIB + " calculate_dmd_grating")], observe=["DMD.dmd_state"])

prop("C18", "The iterative mirror method performs exactly the documented N iterations",
 "'ifta' starts from s times the greyscale hologram and N times: forces values above 1-t to 1 and below t to 0 with t rising linearly to 1/2 (t = k/(2N) in iteration k = 1..N), transforms the illuminated hologram to the image plane, replaces the image by the ideal one inside the signal window only, transforms back and divides by the illumination, taking the real part. Mirrors without light are set to 0 in every iteration, the result is thresholded at 1/2, and N defaults to 200, s to 1.",
 ["inputs", "configurations"], "all illuminations (zeros allowed), targets, signal windows (also partial weights), N >= 0, s, sizes, both orders",
 "One N=100 run is compared at 5 percent RMS; iteration count, threshold schedule and window placement could all change unnoticed.",
 [LIB, SLM], [("loop", LIB + " _calculate_dmd_grating_ifta, _ifta_binarize_hologram, _ifta_correct_profile"), ("window sampling", SLM + " DMD.calculate_dmd_state")], observe=["DMD.dmd_state"])

prop("C19", "Gerchberg-Saxton holograms are N exact projections from a random start",
 "Method 'gs' starts from a phase map drawn uniformly in [0, 2 pi) and N times: applies the phase to the illumination, transforms to the image plane, replaces the image amplitude by the target amplitude keeping the image phase, transforms back, and takes as new phase the phase the modulator must add to the illumination to have the phase of that field. The result is a real map of the device shape with, for N >= 1, values in [-pi, pi]; N defaults to 200.",
 ["inputs", "configurations"], "all illuminations (with any phase), targets, N >= 0, sizes, every random start",
 "No test runs the LCOS algorithms at all.",
 [LIB, SLM], [("loop", LIB + " _calculate_lcos_slm_hologram_gs"), ("dispatch", LIB + " calculate_lcos_slm_hologram, " + SLM + " LCOS_SLM.calculate_hologram")], observe=["LCOS_SLM.slm_state"])

prop("C20", "MRAF holograms mix target and free field exactly as documented",
 "Method 'mraf' iterates like 'gs' except that the corrected image is mixing_factor times the target amplitude with the image phase inside the signal window plus (1 - mixing_factor) times the unmodified image (the inverse discrete Fourier transform of the modulated light) outside it; the window is sampled on the image plane, N defaults to 200 and mixing_factor to 0.4. With mixing_factor 1 and an all-one window each iteration is a 'gs' iteration.",
 ["inputs", "configurations"], "all illuminations, targets, signal windows (partial weights too), mixing factors in [0, 1], N >= 0, every random start",
 "No test runs the LCOS algorithms at all.",
 [LIB, SLM], [("loop", LIB + " _calculate_lcos_slm_hologram_mraf"), ("dispatch", LIB + " calculate_lcos_slm_hologram, " + SLM + " LCOS_SLM.calculate_hologram")], observe=["LCOS_SLM.slm_state"])

prop("C21", "A phase modulator only adds its phase, so simulation shows the hologram's image",
 "Simulating a phase modulator multiplies the illumination pixel by pixel by exp(+i phase) with phase the displayed map, a fresh or reset device being flat (phase zero). It is the same modulation the hologram algorithms assume, so the simulated unpadded image of a computed hologram has, sample by sample, the intensity of the image the algorithm formed for that phase map, not a mirrored copy.",
 ["inputs", "histories"], "all phase maps, illuminations, targets, device sizes; any reset / set history",
 "No test simulates a phase modulator; the shipped examples are symmetric under the mirror flip.",
 [SLM, SIM, LIB], [("transmission", SLM + " LCOS_SLM._state_tensor, reset_slm_state"), ("algorithm modulation", LIB + " _calculate_lcos_slm_hologram_gs, _mraf")], state=[("slm_state", "phase map shown", SLM + " LCOS_SLM.__init__")], observe=["SLMSimulation.output_field"])

prop("C22", "Mirror-state updates touch exactly the mirrors they name",
 "All-off and all-on set every mirror of a fresh boolean (Ny, Nx) state to off or on. A circular patch of diameter d at pixel (i, j) gives every mirror whose index distance from (i, j) is less than d/2 exactly the value the grating method yields there and leaves every other mirror as it was, for every method and every previous state. Two devices never share state.",
 ["inputs", "histories"], "all centres (integer or fractional, also off the device), diameters, methods, earlier states and sequences of patches",
 "No test draws a patch; the frame condition (nothing else changes, nothing is rounded) ranges over all states.",
 [SLM], [("patch", SLM + " DMD.circular_patch, _circular_mask"), ("reset", SLM + " DMD.set_dmd_state_off, set_dmd_state_on")], state=[("dmd_state", "mirror states", SLM + " DMD.__init__")], observe=["DMD.dmd_state"])

prop("C23", "Packing mirror states is lossless and refuses greyscale",
 "Packing a boolean state gives ceil(Nx*Ny/8) bytes in which mirror (i, j) is bit 7-(k mod 8) (most significant first) of byte floor(k/8), k = i*Nx + j, with zero padding bits, so unpacking recovers the state. A state that is not boolean raises TypeError, and packing never alters the state.",
 ["inputs"], "all boolean states of all sizes (also sizes not divisible by 8), all non-boolean dtypes",
 "Only all-off and all-on are packed, for which bit and byte order are invisible.",
 [SLM], [("packing", SLM + " DMD.pack_dmd_state")], observe=["DMD.pack_dmd_state"])

prop("C24", "The ANSI single index enumerates every Zernike mode exactly once",
 "For every index j >= 0 the conversion returns integers (n, m) with n >= 0, |m| <= n, n - m even and j = (n(n+2) + m)/2; conversely every such (n, m) is returned for exactly that j. Every mode it returns is therefore accepted by the Zernike profile.",
 ["inputs"], "all integers j >= 0 (real arithmetic for the square root)",
 "The test walks j < 15; the formula uses sqrt and ceil, where an off-by-one shows only at particular indices.",
 [ANA], [("index map", ANA + " ansi_j_to_n_m")], observe=["ansi_j_to_n_m"])

prop("C25", "Aberration analysis projects on Zernike modes and subtracts only those",
 "Decomposition returns num_terms coefficients in ANSI order, the j-th being the mean over the open aperture of the map times the j-th normalized Zernike mode centred on the map (y up); the optional reconstruction is the sum of coefficient times mode, with the given extrapolation. Trivial-phase removal successively subtracts mean-projection times mode for piston and the two tilts, plus defocus exactly when asked, leaves every pixel beyond the radius untouched and never modifies the input map.",
 ["inputs", "configurations"], "all phase maps (any shape), radii, numbers of terms, flags",
 "Tests use one centred 1920x1080 example with smooth modes; arbitrary maps, parity of sizes and pixels outside the aperture are not covered.",
 [ANA, PRO], [("decomposition", ANA + " zernike_decomposition"), ("removal", ANA + " remove_trivial_phase")], observe=["zernike_decomposition", "remove_trivial_phase"])

prop("C26", "Precision is one consistent setting, frozen at first use",
 "The precision can be set to 32-bit or 64-bit only (anything else raises ValueError), and once any precision value has been read it can never change: a later set raises and leaves the setting as it was. Real, complex and integer precisions always belong to the same width, and profiles, grids, holograms and fields are computed in that width.",
 ["configurations", "histories"], "both precisions, all sequences of set and read operations, all values set",
 "The test of the flag is skipped; each test process fixes one precision at start.",
 [BAK, SLM, PRO, SIM], [("dtype properties", BAK + " _BackEnd.dtype, dtype_complex, dtype_int")], state=[("_initialized", "precision has been read", BAK), ("_dtype", "configured precision", BAK)], observe=["BACKEND.dtype", "dtype of results"])

prop("C27", "The two FFT backends are interchangeable and inverse to each other",
 "Forward and inverse transforms used by all computations are the 2-D discrete Fourier transform and its exact inverse in the configured complex precision and unchanged shape, whichever FFT backend is selected. Selecting the other backend takes effect on the next computation, also for device sizes already computed with, and never changes any result beyond rounding.",
 ["configurations", "histories", "inputs"], "both backends and switches between them at any point, all fields and sizes, both precisions",
 "The suite runs with the one backend picked at import; no test ever switches.",
 [LIB, BAK], [("backend switch", LIB + " _fourier_transform, _inverse_fourier_transform"), ("selector", BAK + " _BackEnd.fft_backend")], state=[("_fft_backend", "selected backend, read inside compiled graphs", BAK)], observe=["SLMSimulation.image_plane_field", "DMD.dmd_state"])

prop("C28", "Device models and optics parameters are reported and used exactly as given",
 "A device reports exactly the wavelength, focal length, size and pitch it was built with, its scaling factor is wavelength * focal_length, and these never change. DLP9500, DLP7000, DLP9000 and PLUTO_2 have 1920x1080 at 10.8 um, 1024x768 at 13.68 um, 2560x1600 at 7.56 um and 1920x1080 at 8 um. The first-order origin is (cos theta, sin theta) * wavelength * focal_length / (periodicity * pitch), for the device and its simulation.",
 ["inputs", "configurations"], "all optical parameters, all models, both orders",
 "Sizes and pitches of the models and the origin are only exercised indirectly in one optical configuration.",
 [SLM, SIM], [("parameters", SLM + " SLM.__init__, DMD.__init__ and model classes"), ("origin", SLM + " DMD.first_order_origin, " + SIM + " DMDSimulation.first_order_origin")], observe=["SLM properties", "DMD.first_order_origin"])

prop("C29", "Controllers refuse every device operation until initialized",
 "On every controller, loading one or several frames, loading a sequence, asking for the size and drawing a number image raise an exception and send nothing to the hardware unless initialize has completed; after it they are carried out. A failed initialization leaves the controller uninitialized.",
 ["histories"], "all controller classes, all guarded operations, all call orders and initialization failures",
 "The controller tests need hardware and a person, so they never run here.",
 [CTL], [("guard", CTL + " _check_initialization"), ("initialization", CTL + " DMDControllerBase/ALPController/LuxbeamController.initialize")], state=[("_initialized", "hardware is ready", CTL)], observe=["exceptions and vendor-library calls"])

prop("C30", "The Vialux controller sends every frame, in order, at full scale",
 "Loading a single frame or a list of N >= 1 frames first halts the display, allocates exactly that many 1-bit pictures in uninterrupted binary mode, transfers the frames in list order with on-mirrors as 255 and off-mirrors as 0 and no frame altered, sets the timing, and starts the run last. A list advances on the rising edge of the external trigger at the minimal picture time, a single frame is displayed without trigger whatever was loaded before, and inversion is enabled at initialization exactly when requested.",
 ["histories", "inputs"], "all boolean frames, all N, all sequences of loads",
 "The controller tests need hardware and a person, so they never run here.",
 [CTL], [("transfer", CTL + " ALPController.load_single, load_multiple, initialize")], observe=["calls on the vendor library"])

prop("C31", "The Visitech controller loads each frame to its own slot and shows all",
 "Loading a single frame or a list of N >= 1 frames stops the sequencer, sets the image-count register to exactly the number of frames while the sequencer is held in reset and releases it, writes frame k unaltered to image slot k for k = 0..N-1 in order, and restarts the sequencer last. Initialization loads the sequencer program under reset with the sequencer stopped; a software trigger is one on/off pulse.",
 ["histories", "inputs"], "all frame lists and lengths, all sequences of loads",
 "The controller tests need hardware and a person, so they never run here.",
 [CTL], [("transfer", CTL + " LuxbeamController.load_single, load_multiple, initialize, fire_software_trigger")], observe=["calls on the vendor library"])

prop("C32", "An unknown hologram method is rejected without touching the device",
 "Asking a mirror device or a phase modulator for a method other than the documented ones raises ValueError naming the method and leaves the displayed state exactly as it was; every documented method name runs the algorithm of that name.",
 ["inputs", "histories"], "all method strings, all profiles and earlier states",
 "No test passes an invalid method, and only two of six methods are run.",
 [LIB, SLM], [("dispatch", LIB + " calculate_dmd_grating, calculate_lcos_slm_hologram")], observe=["ValueError", "DMD.dmd_state", "LCOS_SLM.slm_state"])

prop("N01", "Rounding error of single-precision results stays below a stated bound",
 "Every hologram and simulated field computed in 32-bit precision differs from the exact real-arithmetic result by less than a stated relative bound.",
 ["inputs", "configurations"], "all inputs in single precision", "Tolerances in the tests are sampled at a few points.",
 [LIB, SIM], [("32-bit kernels", "TensorFlow / NumPy")])
prop("N02", "Iterative hologram methods reach a given image quality",
 "After the default number of iterations, the image error inside the signal window of 'gs', 'mraf' and 'ifta' holograms is below a stated fraction of the target for every physically reachable target.",
 ["inputs"], "all targets, illuminations and random starts", "One ifta example is tested at 5 percent RMS.",
 [LIB], [("iterations", LIB + " _calculate_dmd_grating_ifta, _calculate_lcos_slm_hologram_gs, _mraf")])
prop("N03", "The number image shows a legible decimal number",
 "The image produced for a number shows exactly that number's decimal digits, legible and inside the frame, for every device size.",
 ["inputs"], "all numbers and device sizes", "Needs a person at the device.",
 ["pySLM2/util/sample.py"], [("rendering", "pySLM2/util/sample.py number_image (Pillow, FreeType)")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
