prop("P01", "Rectangles and positions form the documented algebra",
 "Whatever sequence of constructors and operators built them, rectangles (integer-pixel and real) and positions behave as the documented point sets: union is the hull, intersection the common part (empty if none), shift/border/expand/centre/area/containment follow from the corners, integer kinds reject non-integers, and asking for the centre of an empty rectangle raises an error. Values never change after creation; equal values hash equal; copies, pickles, repr round trips, conversion to and from the reference library and passage through jit/vmap preserve them.",
 ["histories", "inputs"], "all construction/operator histories over integer and real corners, given as python, numpy or jax scalars, evaluated eagerly, under jit, under vmap or after a pytree round trip",
 "The tests check a few literal rectangles per method; they cannot cover mixed histories (e.g. the union of a jitted shift with an empty intersection) nor all argument kinds.",
 ["jax_galsim/bounds.py", "jax_galsim/position.py"],
 [("corner/width bookkeeping", "jax_galsim/bounds.py Bounds._parse_args, BoundsI.__init__"), ("set operations", "jax_galsim/bounds.py Bounds.__and__/__add__/includes"), ("pytree registration", "jax_galsim/bounds.py tree_flatten/tree_unflatten"), ("positions", "jax_galsim/position.py")],
 "public attributes, methods and operators of BoundsI/BoundsD/PositionI/PositionD", check="bounds",
 note="TLC checks 14 laws of the TLA+ rectangle algebra on every pair over a small grid; 200 random 70-call histories on the real code are validated call by call against the same operators.")

prop("P02", "Image pixels, bounds, type and wcs after any call history are the specified ones",
 "After any sequence of public image calls (construction from sizes, arrays or images, copies, sub-images, item and block assignment, arithmetic with images and scalars, in-place arithmetic, fills, flips/rotations, recentering, resizing, retyping), the pixel type, the bounds, the value at every pixel position and the world position of every pixel are exactly those of the reference semantics, including integer rounding/wrapping and type promotion. The result is the same whether the calls run eagerly or inside jit. Out-of-bounds access, shape mismatches, integer-only operators on float images and undefined images are refused with the documented error.",
 ["histories", "inputs"], "all call histories over six pixel types, all shapes and origins, with and without a wcs",
 "Tests sample one shape and one literal array per operator; the product type x operator x history x coordinate origin x jit is unbounded.",
 ["jax_galsim/image.py", "jax_galsim/core/utils.py"],
 [("pixel access and blocks", "jax_galsim/image.py Image.subImage/setSubImage/setValue/addValue"), ("arithmetic and rounding", "jax_galsim/image.py Image_add..Image_ior, _safe_cast"), ("coordinates", "jax_galsim/image.py shift/setCenter/setOrigin"), ("construction", "jax_galsim/image.py Image.__init__/copy")],
 "public attributes of Image (array, bounds, dtype, isconst, wcs) after each call", check="image",
 note="TLA+ heap of images with 34 transitions; exhaustive small-scope TLC run (well-formedness, rotation group, frame laws) and trace validation of random 60-call histories on real images, eager and jitted.")

prop("P03", "Images never alias; immutable images and refused calls change nothing",
 "No call on an image changes any other image, any array previously read from an image, or any array supplied by the caller, and later changes to the caller's array are never seen by an image. An image created as constant keeps its pixels through every later call: every mutating call, including in-place arithmetic and adding noise, is refused with the immutable-image error. A refused call of any kind leaves every object exactly as it was.",
 ["histories", "fault_sequences"], "all interleavings of calls, including failing ones, on a heap of several images and arrays",
 "Aliasing and atomicity are statements about every other live object after every call; tests look at one result at a time.",
 ["jax_galsim/image.py", "jax_galsim/noise.py"],
 [("immutability", "jax_galsim/image.py isconst checks"), ("copy semantics", "jax_galsim/image.py Image.copy/subImage/from arrays"), ("failed calls", "jax_galsim/image.py bounds checks before writes")],
 "full projection of every live image and array after every call", check="isolation",
 note="Frame/immutability/atomicity are action properties checked by TLC on the image heap model; simulator-generated and random histories are replayed on the real code with every live object projected after every call.")

prop("P04", "Image wrapping and image Fourier transforms follow their definitions",
 "Wrapping an image onto a sub-rectangle sums all pixels congruent modulo the rectangle's size (using Hermitian symmetry when requested), stores the sums in that rectangle and returns it; a rectangle that is not inside the image is refused without touching the image. The forward transform of an image is the discrete Fourier sum with the documented scale and padding, its inverse returns the original pixel values, and the recommended transform size is the smallest allowed even 2^n or 3*2^n not below the request.",
 ["inputs", "histories"], "all image sizes, origins, target rectangles, scales and pixel values",
 "Tests compare a few fixed sizes with the reference library; the modular bookkeeping depends on every combination of origin, size and target.",
 ["jax_galsim/image.py", "jax_galsim/core/wrap_image.py"],
 [("wrapping", "jax_galsim/core/wrap_image.py"), ("fft", "jax_galsim/image.py calculate_fft/calculate_inverse_fft/good_fft_size")],
 "wrap, calculate_fft, calculate_inverse_fft, good_fft_size", check="fourier",
 note="The specification folds every pixel by its residue class (and its Hermitian mirror) and evaluates the discrete Fourier sums term by term; TLC checks conservation, idempotence and inversion on small images, and every recorded call is judged pixel by pixel (1e-11 of the total magnitude; 3e-6 for single precision wraps).")

prop("P05", "Angles and shears obey their algebra",
 "Angles keep one value whatever unit they are written or read in, add, subtract, scale, wrap into the requested half-open turn, and parse/print sexagesimal strings consistently with their value, trigonometric functions included. Shears built from any of the documented parametrisations (g, e, eta, q and beta, complex) describe the same distortion through every accessor and matrix, compose by matrix multiplication up to a rotation, and invert by negation; inconsistent or out-of-range arguments are refused.",
 ["inputs", "histories"], "all angle values/units and shear parameters, all composition histories",
 "Round trips and group laws hold over a continuum; tests sample a handful of values.",
 ["jax_galsim/angle.py", "jax_galsim/shear.py"],
 [("units and wrapping", "jax_galsim/angle.py Angle/AngleUnit"), ("shear composition", "jax_galsim/shear.py Shear.__add__/rotationWith")],
 "public attributes and operators of Angle, AngleUnit and Shear", check="angles",
 note="TLA+ algebra of angles (units, wrap, sexagesimal) and shears; TLC checks group, round-trip and composition laws on every short history, and random histories on the real classes are validated call by call against the same operators.")

prop("P06", "Celestial coordinates obey spherical geometry",
 "Separation between sky positions is the great-circle distance (symmetric, zero only for the same point, accurate for tiny and near-antipodal separations); angles, areas and great-circle points are those of spherical trigonometry. Each of the tangent-plane projections and its inverse are mutually inverse about any centre with the documented sign convention and Jacobian, and precession, galactic and ecliptic conversions are rotations whose inverses return the original position.",
 ["inputs"], "all positions, centres and projections, including poles, the 0/360 degree line and small separations",
 "Tests use a few sky positions; the identities must hold on the whole sphere.",
 ["jax_galsim/celestial.py"],
 [("projection", "jax_galsim/celestial.py CelestialCoord.project/deproject"), ("distance", "jax_galsim/celestial.py distanceTo/angleBetween"), ("frames", "jax_galsim/celestial.py precess/galactic/ecliptic")],
 "methods of CelestialCoord", check="celestial",
 note="TLA+ sphere: separation, angles, areas, great circles, the four projections, precession/galactic/ecliptic frames; TLC checks spherical-trigonometry and inverse laws, and calls on real CelestialCoord objects (poles, antipodes, tiny separations) are validated against it.")

prop("P07", "Flat coordinate systems are consistent affine maps",
 "Every flat coordinate system, built in any way and then shifted to any origin, maps pixel to sky positions by its affine formula; mapping to the sky and back returns the pixel position, and the local Jacobian, pixel area, linear scales, decomposition and affine form all describe that same map. Shifting the origin moves positions without changing the local map, and converting profiles between sky and image coordinates agrees with the map, conserves flux and round-trips.",
 ["inputs", "histories"], "all pixel-scale, shear, Jacobian, offset and affine systems, all origins, all positions (scalar and array), all shift histories",
 "Tests check single maps at a few points; consistency must hold for every class, parameter and composition of shifts.",
 ["jax_galsim/wcs.py"],
 [("maps", "jax_galsim/wcs.py PixelScale/ShearWCS/JacobianWCS/Offset*/AffineTransform"), ("profile transport", "jax_galsim/wcs.py profileToImage/profileToWorld"), ("shifts", "jax_galsim/wcs.py shiftOrigin/withOrigin")],
 "methods of the wcs classes", check="flatwcs",
 note="TLA+ affine systems with origins; TLC follows pixels through every short history of shifts, inverses and headers; random histories on every real flat WCS class are validated call by call (positions, jacobian, decomposition, profiles, headers).")

prop("P08", "Celestial coordinate systems invert and linearise consistently",
 "Tangent-plane sky coordinate systems, whether given directly or read from FITS header keywords (with CD, PC or CDELT forms, polynomial distortions included), map pixel to sky by their definition, and mapping back returns the pixel position. The local Jacobian at any position is the derivative of the map projected on the sky there, shifting the origin moves positions without changing the map, and writing to a header and reading back gives the same map.",
 ["inputs", "histories"], "all tangent-plane parameters, reference positions, distortion coefficients and positions near the reference point",
 "Tests use a few stored headers; inversion and differentiation must hold at every position and parameter.",
 ["jax_galsim/fitswcs.py", "jax_galsim/wcs.py", "jax_galsim/celestial.py"],
 [("tangent plane and distortion", "jax_galsim/fitswcs.py GSFitsWCS._radec/_xy"), ("linearisation", "jax_galsim/fitswcs.py GSFitsWCS._local"), ("headers", "jax_galsim/fitswcs.py _read_header/_writeHeader")],
 "GSFitsWCS, TanWCS, FitsWCS methods", check="fitswcs",
 note="TLA+ FITS header/TanWCS/TPV/SIP specification; TLC checks inversion and linearisation laws; real TanWCS, FitsWCS and GSFitsWCS objects built from random headers are validated call by call against it.")

prop("P09", "Random streams are deterministic and shared or separated as documented",
 "Generators built from the same seed produce the same values; a duplicate continues exactly where the original is and is independent afterwards; reset, discard, serialisation and clearing the cache have their documented effect on what comes next. Drawing one value at a time, generating arrays and adding generated values consume one stream in a reproducible way, eagerly, under jit and after any copy or round trip, and each distribution is the documented transformation of its parameters.",
 ["histories", "schedules"], "all interleavings of draws, duplications, resets, discards and array generation over several generators, seeds and distributions",
 "Stream sharing is a statement about all histories of several generators; tests check fixed short sequences.",
 ["jax_galsim/random.py"],
 [("state", "jax_galsim/random.py BaseDeviate seed/reset/duplicate/discard/raw"), ("distributions", "jax_galsim/random.py *Deviate"), ("permutation", "jax_galsim/random.py permute")],
 "values drawn from the public deviate classes", check="rng",
 note="TLA+ stream model (cells, linked handles, positions): TLC explores all interleavings to depth 4 with stream laws as invariants; TLC-simulated and random 60-call histories on the real classes must deliver values that are a function of (distribution, seed, position), and 20000-sample moments/CDF must match the documented distribution.")

prop("P10", "Noise objects add exactly the noise they describe",
 "Applying a noise model adds to each pixel a draw whose distribution (mean, variance, dependence on pixel value, sky level, gain and read noise) is the documented one, uses and advances its own random stream reproducibly, and leaves everything but the pixel values unchanged. Variance queries, rescaling, replacing the variance, multiplication and division change the variance by exactly the documented factor and nothing else.",
 ["inputs", "histories"], "all noise types, parameters, images and call histories",
 "Tests check sample moments for one configuration; exactness and stream use must hold for all.",
 ["jax_galsim/noise.py"],
 [("application", "jax_galsim/noise.py _applyTo"), ("variance algebra", "jax_galsim/noise.py withVariance/withScaledVariance/__mul__")],
 "applyTo/addNoise, getVariance and the variance operators of the noise classes", check="noise",
 note="The specification names the stream position behind every pixel (row order, shot noise then read noise) and requires the same value that a direct draw from the same position gives; moments of flat fields are checked against the documented distributions; float pixels to 1e-10 (4e-7 single precision), integer pixels to one unit.")

prop("P11", "Photon arrays conserve photons through every operation",
 "After any history of creating, assigning, scaling, shifting, copying ranges and writing/reading, a photon array holds exactly the specified positions, fluxes, directions and wavelengths. Adding photons to an image puts each photon's flux in the pixel that contains it, drops those outside and returns exactly the flux that was added; making photons from an image reproduces its pixel fluxes.",
 ["histories", "inputs"], "all photon sets including positions on pixel edges and outside the image, all histories of photon-array calls",
 "Conservation and assignment must hold for every position and history; tests use one random set.",
 ["jax_galsim/photon_array.py"],
 [("storage and flux bookkeeping", "jax_galsim/photon_array.py PhotonArray"), ("binning", "jax_galsim/photon_array.py addTo"), ("deposit through a sensor", "jax_galsim/sensor.py Sensor.accumulate"), ("fixed sizes and masks", "jax_galsim/photon_array.py fixed_photon_array_size")],
 "public attributes and methods of PhotonArray, Sensor.accumulate and images the photons are added to", check="photons",
 note="Photon.tla: slots of photons, masks, channels, deposits; PhotonMC checks deposit/mask/copy/convolution laws with a ledger; recorded histories (constructors, assignment, copy ranges, masks, convolution, deposits on every dtype, makeFromImage, files, eager and jit) are checked against it.")

prop("P12", "Transformed profiles are the original profile under the composed map",
 "Whatever sequence of dilation, magnification, shear, rotation, shift, lensing, expansion, general linear maps and flux changes is applied to a profile, its surface brightness, Fourier transform, flux, centroid and peak surface brightness are those of the original under the single composed affine map. Flux-preserving operations keep the flux, the others change it by the documented factor; the original profile is never changed.",
 ["histories", "inputs"], "all sequences of transformations of every profile class, evaluated at all positions and wave vectors, eagerly and under jit",
 "The composition law quantifies over all histories and all points; tests compare single transformations with stored images.",
 ["jax_galsim/transform.py", "jax_galsim/gsobject.py", "jax_galsim/wcs.py"],
 [("composition", "jax_galsim/transform.py Transform/Transformation"), ("operators", "jax_galsim/gsobject.py dilate/magnify/shear/rotate/shift/lens")],
 "xValue, kValue, flux, centroid, max_sb of transformed profiles", check="transforms",
 note="TLC: every chain of calls up to depth 2 (3 thorough) on four leaves, the collapsed map agrees with the step-by-step meaning, flux rule, centroid, Fourier laws; random histories of real profiles (chains up to 6 calls, eager/jit/vmap/pytree probes, originals re-probed) validated against the same operators.")

prop("P13", "Sums, convolutions and deconvolutions follow linear-systems laws",
 "A sum's surface brightness, transform, flux and centroid are the sums (flux-weighted for the centroid) of its parts; a convolution's transform and flux are products and its centroid the sum; deconvolution inverts, for any nesting and any transformations or scale factors of the parts and the whole. Resolution limits of a composite are derived from the parts as documented, accuracy settings given to the composite reach every part, and evaluations that need real-space access to a convolution are refused.",
 ["programs", "inputs", "configurations"], "all expression trees over the profile classes, all evaluation points and accuracy settings",
 "Algebraic laws over all trees; tests check a few fixed pairs.",
 ["jax_galsim/sum.py", "jax_galsim/convolve.py", "jax_galsim/gsobject.py"],
 [("sum", "jax_galsim/sum.py"), ("convolution", "jax_galsim/convolve.py"), ("settings propagation", "jax_galsim/gsparams.py, withGSParams")],
 "kValue, xValue, flux, centroid, stepk, maxk, gsparams of composite profiles", check="compose",
 note="TLC: linear-systems laws (commutation, association, distribution, inverse, settings reach every part, limits) on every expression of up to two composition calls over a leaf pool; random expression histories of real profiles validated against the same operators.")

prop("P14", "Drawing an image renders the profile where and how it was asked to",
 "For every combination of size, bounds, image, scale, wcs, offset, centre, method, area, exposure time, gain and add-to-image, the drawn image has the specified size, bounds and wcs, and its pixels are the profile (integrated over pixels unless told otherwise) placed at the specified point and scaled as specified; added flux is reported, adding accumulates onto existing pixels, and Fourier-space drawing samples the transform. Inconsistent requests are refused and a failed or setup-only draw leaves existing pixels and bounds as they were.",
 ["inputs", "configurations", "histories"], "all argument combinations, even/odd sizes, image origins, fractional offsets and wcs",
 "The argument space is combinatorial; tests use a few combinations with one profile.",
 ["jax_galsim/gsobject.py", "jax_galsim/core/draw.py", "jax_galsim/wcs.py"],
 [("argument resolution", "jax_galsim/gsobject.py drawImage/_setup_image/_get_new_bounds/_adjust_offset/_local_wcs"), ("evaluation", "jax_galsim/core/draw.py, drawFFT, drawReal, drawKImage")],
 "drawImage, drawKImage, drawReal, drawFFT results", check="draw",
 note="TLC: every combination of placing, size, coordinate system, scaling and method over histories of draws into one image, against the meaning of a drawing stated on the sky, pixel integrals and flux of the sampled transform; random histories of real drawImage/drawKImage calls (images of five types, eight flat coordinate systems and FITS ones, refusals, adding, jit) validated pixel by pixel against the TLA+ plan, including the discrete Fourier sum.")

prop("P15", "Photon shooting distributes the profile's flux as photons",
 "The number of photons and the flux each carries follow from the profile flux, requested number, Poisson option, allowed extra noise and gain as documented, also when the photon array has a fixed size or the photons come in batches (maxN); photons carry in total the specified flux and, for every profile and composition, are positioned according to the profile (the flux-weighted average of exp(-ikx) over the photons is the profile's transform up to counting noise; transformations move photons by the same map, sums split photons, convolutions and photon operators add positions). The drawn image is the deposit of the photons saved, added flux is what landed on it, requests that cannot be met are refused, and a given seed always gives the same result.",
 ["inputs", "configurations", "histories"], "all profiles, photon counts, seeds, Poisson/extra-noise options and image placements",
 "Accounting identities must hold for every configuration; tests check coarse statistics for a few.",
 ["jax_galsim/core/draw.py", "jax_galsim/gsobject.py", "jax_galsim/photon_array.py"],
 [("photon budget", "jax_galsim/core/draw.py calculate_n_photons"), ("shooting", "jax_galsim/gsobject.py makePhot/drawPhot, _shoot of each profile")],
 "makePhot, drawPhot, shoot, drawImage(method='phot')", check="shoot",
 note="TLC: every budget (flux of either sign, share of negative photons, number asked for, extra noise, gain, Poisson number) spent in every batch size: equal weights, all photons shot, flux brought, sums shared by size. Random histories of real shoot/makePhot/drawImage(method='phot') calls validated against the TLA+ budget, deposit and refusal rules; the sampled transform of 20000 photons compared with the TLA+ transform within 5.5 standard errors. Two known findings shared with GalSim 2.8.5 (sums of opposite signs, flux under max_extra_noise).")

prop("P16", "Interpolants and interpolated images reproduce their kernels and samples",
 "Each interpolation kernel has its documented form in real and Fourier space, range, and properties (unit value at zero, zero at other integers where exact, unit sum of weights). A profile made from an image passes through the pixel values when the kernel is interpolating, evaluates as the kernel-weighted sum of pixels everywhere else, has the requested flux, centre, scale and normalisation, is zero outside its footprint, and its transform is the kernel transform times the discrete transform of the pixels.",
 ["inputs", "configurations"], "all kernels and tolerances, image sizes, pixel values, offsets, scales, wcs and evaluation points",
 "Pointwise identities over a continuum of positions and all images; tests sample a few positions of one image.",
 ["jax_galsim/interpolant.py", "jax_galsim/interpolatedimage.py", "jax_galsim/core/interpolate.py"],
 [("kernels", "jax_galsim/interpolant.py xval/kval"), ("evaluation", "jax_galsim/interpolatedimage.py _xValue/_kValue"), ("placement and flux", "jax_galsim/interpolatedimage.py __init__/flux/normalization")],
 "Interpolant.xval/kval/xrange/krange and InterpolatedImage xValue/kValue/flux/centroid", check="interp",
 note="specification Interp.tla computes every kernel, integral and interpolated value in the string reals; traces recorded from the code are checked clause by clause")

prop("P17", "jit, vmap and pytree passage never change a result",
 "Every public object survives being taken apart and rebuilt as a pytree, passed through jit and mapped with vmap: all its attributes, type, settings and later behaviour are those of the original. Every value computed inside jit or vmap equals the eagerly computed value, for objects built outside and passed in as well as for objects built inside from traced parameters.",
 ["inputs", "programs"], "all object classes and constructions, each evaluated eagerly, via pytree round trip, under jit (parameters closed over or traced) and under vmap",
 "The statement quantifies over every class, attribute and computation; tests pick one construction per class.",
 ["jax_galsim/gsobject.py", "jax_galsim/transform.py", "jax_galsim/sum.py", "jax_galsim/convolve.py", "jax_galsim/interpolatedimage.py", "jax_galsim/image.py", "jax_galsim/photon_array.py", "jax_galsim/noise.py"],
 [("pytree registration", "tree_flatten/tree_unflatten of every class"), ("static/traced split", "jax_galsim/gsobject.py, core/utils.py")],
 "every public attribute and evaluation method, eager versus transformed", check="traced",
 note="Programs (profile constructions, transformations, compositions and probes) are run with every literal traced inside jit, vmap, jit(vmap) and lax.scan and objects are passed through pytrees/jit/vmap; TLC validates each result against the call-by-call TLA+ semantics.")

prop("P18", "Equality, hashing, repr, copying and reference conversion agree on identity",
 "Two objects built from the same description are equal and hash equal; objects differing in any constructor argument that matters are not equal; equality is an equivalence relation. Copies, deep copies, pickles, evaluated reprs and conversion to the reference library and back give an object equal to the original with the same behaviour, and the accuracy settings, noise and random state are carried along.",
 ["inputs", "programs"], "all pairs of constructed objects of every public class, all copying mechanisms",
 "Injectivity and equivalence are pairwise over all descriptions; tests compare a few hand-picked pairs.",
 ["jax_galsim/gsobject.py", "jax_galsim/core/utils.py", "jax_galsim/gsparams.py", "jax_galsim/wcs.py", "jax_galsim/interpolant.py"],
 [("value equality and hashing", "jax_galsim/core/utils.py ensure_hashable, __eq__/__hash__ of each class"), ("reference conversion", "from_galsim/to_galsim of each class")],
 "==, hash, repr, copy, pickle, to_galsim/from_galsim")

prop("P19", "FITS writing and reading round-trip",
 "Writing any image, list of images or cube to a FITS file and reading it back returns the same pixels, pixel type, bounds and coordinate system, in any of the supported compressions, extensions and container forms; header entries are kept. Refused requests (existing file without overwrite, missing extension, inconsistent stack) leave existing files unchanged.",
 ["histories", "inputs"], "all images (types, shapes, origins, wcs), compressions, extension numbers and write/read histories on a directory",
 "Tests write a few fixed files; the product of type, wcs, compression and history is larger.",
 ["jax_galsim/fits.py", "jax_galsim/_pyfits.py", "jax_galsim/wcs.py", "jax_galsim/fitswcs.py"],
 [("writing", "jax_galsim/fits.py write/writeMulti/writeCube"), ("reading", "jax_galsim/fits.py read/readMulti/readCube"), ("wcs in headers", "jax_galsim/wcs.py writeToFitsHeader/readFromFitsHeader")],
 "galsim.fits functions and Image.write/read", check="fits",
 note="The specification is a directory of files, lists of HDUs and images; TLC checks the round trip, compression and refusal laws on a small directory; histories of real writes and reads run in a scratch directory, every file touched by a call is part of what is observed. Tile compression of real numbers is lossy, only closeness is required there.")

prop("P20", "Gradients are the derivatives of the values",
 "Automatic differentiation of any documented differentiable quantity (surface brightness, transform, flux, drawn pixels, coordinate maps) with respect to any continuous parameter gives, wherever the quantity is smooth, the derivative of the value that is computed, in reverse mode and (Bessel functions aside) forward mode, and never NaN where the derivative exists (in particular at a profile's centre and at the origin of Fourier space).",
 ["inputs"], "all profiles and parameters, evaluation points including the centre, zero shear and zero wave vector",
 "Derivatives must be right at every parameter and point; tests check a few.",
 ["jax_galsim/gaussian.py", "jax_galsim/exponential.py", "jax_galsim/moffat.py", "jax_galsim/spergel.py", "jax_galsim/bessel.py", "jax_galsim/core/math.py", "jax_galsim/transform.py", "jax_galsim/interpolant.py"],
 [("safe square roots", "jax_galsim/core/math.py"), ("custom derivatives", "jax_galsim/bessel.py, jax_galsim/spergel.py")],
 "jax.grad / jax.jvp of public quantities", check="gradients",
 note="TLC differentiates the TLA+ semantics of the recorded program in every literal (five-point differences, with a smoothness test) and compares with jax.grad / jacfwd / jit(grad) of the real program, including special points (centre, zero shear, zero wave vector).")

prop("P21", "Each basic profile has its defining surface brightness, transform and scales",
 "A basic profile built from any of its equivalent size or flux parameters has the documented surface brightness and Fourier transform at every radius and wave number, total flux, half-light radius, FWHM and scale consistent with each other, and peak surface brightness at the centre. Accuracy settings determine the resolution limits (stepk, maxk) by their documented definitions; missing, conflicting or unsupported parameters are refused.",
 ["inputs", "configurations"], "all parameter values, radii and wave vectors of Gaussian, Exponential, Moffat, Spergel, Box, Pixel and delta profiles, every accuracy setting",
 "The defining formulas hold on a continuum of radii and parameters; tests sample a few.",
 ["jax_galsim/gaussian.py", "jax_galsim/exponential.py", "jax_galsim/moffat.py", "jax_galsim/spergel.py", "jax_galsim/box.py", "jax_galsim/deltafunction.py"],
 [("closed forms", "_xValue/_kValue of each class"), ("size conversions", "constructors of each class")],
 "constructors, xValue, kValue and size attributes of the basic profiles", check="leafs",
 note="TLC: the closed forms satisfy their defining integrals (normalisation, Hankel transform, half-light radius, folding fraction at stepk, threshold at maxk) by quadrature; random constructions of real profiles probed at random and extreme points validated against the same closed forms.")
