"""Every property: text for properties.jsonl, check for MANIFEST.json."""

SI = "properimage/single_image.py"
OP = "properimage/operations.py"
UT = "properimage/utils.py"
PL = "properimage/plot.py"
ST = "properimage/simtools.py"
NI = "properimage/__init__.py"

VN = "gated value-numbering dataflow over the syntax tree, normal-form "\
     "comparison with the defining formula"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None,
         note=None, na=None):
    PROPS.append(dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        over=over, text=" ".join(text.split()),
        why=" ".join(why.split()), files=files, mech=mech,
        technique=technique or VN,
        note=" ".join((note or "").split()), na=na))


prop(
    "P01", "Difference image follows the proper-subtraction formula",
    """For every pair of images and every combination of options, the
    returned difference is the inverse transform of (P_r N - b P_n R moved by
    the fitted shift) over sqrt(var_n^2 |P_r|^2 + b^2 var_r^2 |P_n|^2), with
    each PSF recentred, and b the flux scale. The choice of PSF model, flux
    fit, shift fit and optimiser changes only b, the shift and the PSFs, never
    the formula, and Gaussian PSF models are drawn in the middle of the
    frame, also when it is not square.""",
    ["inputs", "configurations"],
    "every reference and new image, PSF model, flux-scale and shift option, "
    "optimiser choice, and fit outcome",
    """The tests run a few option combinations on one simulated field and
    mostly check shapes; a swapped variance, a missing conjugate or a wrong
    branch in one option combination gives a plausible image.""",
    [OP], [dict(name="subtract", where=OP)],
    note="""Decides, for all 16 option combinations and both fit outcomes,
    that the returned array is the defining expression of the symbolic
    inputs. Assumes the declared semantics of the NumPy/SciPy calls used;
    rounding and the numerical quality of the fit are outside.""")

prop(
    "P02", "Difference PSF and detection significance follow their formulas",
    """For every pair of images and every combination of options, the PSF
    returned with a difference is that of the difference at the same flux
    scale, and the significance image is the matched filter of the difference
    with that PSF over the square root of the propagated source-noise
    variance of both images.""",
    ["inputs", "configurations"],
    "every image pair, option combination and fit outcome",
    """The tests only look at types and shapes of these outputs for a handful
    of runs; the values depend on which image each variance, PSF and flux
    scale is taken from.""",
    [OP], [dict(name="subtract", where=OP)],
    note="""Same method and assumptions as P01; the two outputs are compared
    with their defining expressions in every option combination, up to how
    the PSF centre is located (peak or centre of mass).""")

prop(
    "P03", "Flux scale and shift honour the options and survive a failed fit",
    """With the flux fit on, the difference uses the fitted flux scale; with
    it off, or when the fit does not converge, it uses the ratio of the
    photometric zero points of the two images. With the shift fit on, the
    fitted shift is applied, and otherwise none; each fitted parameter lies in
    bounds that contain its starting point, whichever optimiser runs.""",
    ["inputs", "configurations", "fault_sequences"],
    "every option combination, optimiser choice and fit outcome",
    """Optimiser failure is not triggered by the tests, and a mixed-up
    parameter order or an ignored option still returns a well-formed image.""",
    [OP], [dict(name="subtract", where=OP)],
    technique=VN + "; optimiser calls replaced by fresh symbols",
    note="""Decides which symbol (fit result, zero-point ratio, zero) reaches
    the result in every option combination and fit outcome. That the
    optimiser converges is not decided.""")

prop(
    "P04", "The fit minimises the residual of the difference it returns",
    """The quantity minimised to choose flux scale and shift is, in every
    option combination, a norm of the difference image formed at the trial
    parameters with the same formula and the same images as the returned
    difference, and it uses only pixels that are not flagged bad.""",
    ["inputs", "configurations"],
    "every option combination and every trial parameter value",
    """Tests see only the final image; a cost function that uses other
    weights or another sign converges to a slightly wrong scale that no
    sample reveals.""",
    [OP], [dict(name="cost functions of subtract", where=OP)],
    technique=VN + " of the cost closure handed to the optimiser",
    note="""Compares the symbolic cost at trial parameters with the returned
    difference at the fitted ones; accepts any trimming by constants or by
    the image shape. Optimiser behaviour itself is trusted.""")

prop(
    "P05", "Difference mask is the full-size union of both masks",
    """The mask returned by a subtraction has the shape of the difference
    and flags exactly the pixels flagged in the reference or in the new
    image, also when one or both have no bad pixels at all.""",
    ["inputs", "configurations"],
    "every pair of input masks and option combination",
    """The tests use one mask configuration; an empty mask collapsing to a
    scalar or a dropped operand goes unnoticed.""",
    [OP], [dict(name="subtract", where=OP)],
    note="Boolean normal form of the returned mask in all combinations.")

prop(
    "P06", "Alignment puts images on the reference frame with their masks",
    """When alignment is requested, each other image is registered onto the
    reference (subtraction) or the first image (coaddition), and the
    registered pixels, with the bad pixels of the source and the part the
    source does not cover flagged, are what enters the result on the frame
    of that reference. The images passed in keep their own pixels, and no
    trimming or rescaling is applied a second time.""",
    ["inputs", "configurations"],
    "every image pair or list, mask and option combination with alignment on",
    """Tests align one simulated pair and cannot see a lost mask, exchanged
    roles or a second crop.""",
    [OP, UT], [dict(name="subtract", where=OP),
               dict(name="_align_for_coadd", where=UT)],
    technique=VN + "; registration call recorded with its arguments",
    note="""Decides which arrays and masks enter the registration call and
    the construction of the registered image. The registration library is
    trusted to return the source resampled on the target grid.""")

prop(
    "P07", "Size mismatch is rejected and images are taken in any form",
    """Subtracting without alignment two images whose sizes differ raises a
    value error, and images of equal size never do, for any PSF
    model. Inputs of a subtraction or coaddition that are not yet image
    objects (arrays, masked arrays, paths) are wrapped, for a subtraction in
    the class of the requested PSF model, and give the same computation as
    wrapped ones, each in its own place.""",
    ["inputs", "configurations"],
    "every combination of image sizes, input kinds and PSF model",
    """Tests try one mismatch; a comparison of one axis only, or the wrong
    wrapper class for one role, is invisible to them.""",
    [OP], [dict(name="subtract", where=OP)],
    note="""Enumerates the equal/different cases per axis and the wrapped and
    unwrapped cases per role.""")

prop(
    "P08", "Coadd image and PSF follow the proper-coaddition formula",
    """For every list of images, the coadd is the inverse transform of the
    sum of every image's matched-filter component over the root of the
    summed PSF power weighted by (zero point / variance)^2, with each image
    weighted by its own flux zero point and variance. Its PSF is the inverse
    transform of that root, recentred by the largest PSF stamp size, and has
    unit sum.""",
    ["inputs", "configurations"],
    "every list of images, number of workers and alignment option",
    """Tests check shapes on two or three simulated images; weights that
    pair one image with the zero point of another go unnoticed.""",
    [OP], [dict(name="coadd", where=OP),
           dict(name="process_chunk_joblib", where=OP)],
    note="""Lists of one to three (thorough: four) symbolic images with one to
    three workers; per-image pixels, variances, PSFs and zero points are
    symbols.""")

prop(
    "P09", "Coadd does not depend on the number of workers",
    """For every list of images, coaddition returns the same image, PSF and
    mask for every number of workers, including more workers than images.
    Splitting a list in chunks puts every item in exactly one chunk.""",
    ["inputs", "configurations", "schedules"],
    "every worker count and list length",
    """Tests compare one or two worker counts; uneven splits and empty
    chunks happen only at particular pairs of counts.""",
    [OP, UT], [dict(name="coadd", where=OP), dict(name="chunk_it", where=UT)],
    note="""List lengths 1-4 with up to length+2 workers for the coadd, 1-7
    (thorough 1-12) squared for the chunking; equality of normal forms.""")

prop(
    "P10", "Coadd mask flags every pixel bad in any image",
    """The mask of a coadd has the shape of the coadd and flags exactly the
    pixels flagged in at least one image of the list, for every number of
    images and workers, also when some or all images have no bad pixels.""",
    ["inputs", "configurations"],
    "every list of masks and number of workers",
    """Tests use at most three images with one mask pattern; a skipped first
    or last image or chunk shows only in the right place.""",
    [OP], [dict(name="coadd", where=OP)],
    note="Boolean normal form of the returned mask, 1-4 images, 1-3 workers.")

prop(
    "P11", "Matched-filter image, PSF power and normalisation follow Lauer/Zackay",
    """For every image and every number of PSF components, the matched-filter
    component is zp / var^2 times the sum over components of the transform of
    (clean image x coefficient / normalisation image) times the conjugate
    PSF transform, recentred by the first component; with one constant PSF
    the coefficient and normalisation are absent. The filtered image is its
    real inverse transform, the PSF power is the sum of |P|^2 over all
    components, and the normalisation image is the sum of each coefficient
    field convolved with its own component.""",
    ["inputs", "configurations"],
    "every image, zero point, noise level and number of components",
    """Tests check shapes, types or one Gaussian field with few components;
    a coefficient paired with the wrong component or a missing conjugate
    still yields finite, plausible images.""",
    [SI], [dict(name="s_hat_comp", where=SI),
           dict(name="normal_image", where=SI),
           dict(name="psf_hat_sqnorm", where=SI)],
    note="Normal-form equality for one constant PSF and 2-3 (thorough 1-3) "
         "components.")

prop(
    "P14", "Cached products always reflect the current settings",
    """After any change of an image's zero point or of its information-loss
    setting (by attribute or by argument), every derived product read
    afterwards (PSF components, coefficient fields, normalisation image,
    filtered image and its transform, PSF power, PSF at a position) equals
    that of a fresh image with the same settings. It does not matter which
    products were read before the change, nor in which order.""",
    ["histories", "configurations"],
    "every sequence of reads and setting changes on one image",
    """Tests read each product once on a fresh object; a stale cached value
    shows only for a read, change, read-again history over the right pair of
    products.""",
    [SI], [dict(name="inf_loss setter, zp setter", where=SI),
           dict(name="get_variable_psf", where=SI),
           dict(name="s_hat_comp", where=SI)],
    technique="heap-sensitive abstract interpretation of read/change/read "
              "histories, normal-form comparison with the fresh object",
    note="""One change of zero point, loss or both (and back again) between
    reads; quick: each product after itself and after all, thorough: every
    ordered pair of products. Four symbolic stars with a concrete
    spectrum.""")

prop(
    "P22", "PSF components are the leading modes of the image's own stars",
    """For every set of stars, the PSF expansion keeps the fewest leading
    covariance modes whose power reaches one minus the allowed loss; each
    component is the projection of the star stamps on its own mode, with unit
    sum when it is smoothed, the only one, or made of more than 250 stars, and
    its coefficient field is fitted, at the star positions, to the weights of
    that same mode, with no field when one component suffices.
    With the Gaussian model the PSF is one constant Gaussian of unit volume,
    centred on the stamp, whose parameters each pool the values fitted to
    every star.""",
    ["inputs", "configurations"],
    "every set of stars, spectrum and information loss",
    """Tests check lengths and types on one simulated field whose PSF is
    nearly round and constant; a coefficient fitted to the wrong mode or with
    swapped axes looks plausible there.""",
    [SI], [dict(name="kl_basis, kl_a_fields", where=SI),
           dict(name="SingleImageGaussPSF.get_variable_psf", where=SI)],
    note="""2-5 symbolic stars; concrete spectra incl. negative and equal
    eigenvalues, several loss values (more in thorough); eigenvectors,
    stamps and positions symbolic; plain and smoothed PSFs.""")

prop(
    "P23", "The PSF at a position is normalised and uses that position",
    """For every image with a PSF of one or several components and every
    position, also close to an edge, the local PSF is the sum of the
    components weighted with their coefficients around that position over the
    normalisation there, scaled to unit sum. Rows and columns of the position
    are never exchanged, and with one constant PSF it is that PSF.""",
    ["inputs"],
    "every image, number of components and position",
    """Tests ask for the PSF at central positions of a nearly symmetric
    simulated field.""",
    [SI], [dict(name="get_psf_xy", where=SI)],
    note="One constant PSF and two or three symbolic components, symbolic "
         "position.")

prop(
    "P12", "Relative zero points solve the photometry of the common stars",
    """For every list of images, every star matched in all of them, and no
    other, contributes exactly one equation per image: its own magnitude in
    that image is the zero point of the image plus the mean magnitude of the
    star. The zero points returned, one per image in the order of the list
    (after the separate reference, when there is one), are the flux ratios to
    the first image, and all one when there is no common star. Sources
    already labelled by an earlier call give the same result.""",
    ["inputs", "histories"],
    "every list of source catalogues, order of sources, and previous call",
    """Tests use catalogues of the same simulated stars in the same order,
    where pairing rows by position or using a stale label gives the right
    answer by accident.""",
    [UT], [dict(name="transparency", where=UT)],
    technique="constant propagation of source positions with symbolic fluxes; "
              "the equations handed to the solver are compared with the "
              "defining ones",
    note="""18 layouts of one to three catalogues with two to five sources
    (shuffled, missing, extra, blended, offset), each on fresh and labelled
    catalogues, called twice, and with a separate reference; the least-squares
    solver is taken as documented.""")

prop(
    "P13", "Sources are matched only with their mutual nearest neighbours",
    """Two sources of two catalogues are matched exactly when each is the
    nearest of the other and they lie within the matching radius (two pixels
    for the zero points); the first source can be matched like any other, and
    unmatched ones are marked so that they cannot be taken for a source. The
    cross-match itself returns for every point the distance and index of the
    nearest point of the other set, infinity and the size of that set beyond
    the limit, and rejects sets of different dimension.""",
    ["inputs"],
    "every pair of catalogues and matching radius",
    """Tests match a catalogue with a copy of itself; ties, blends, swapped
    coordinates and the first source need particular layouts.""",
    [UT], [dict(name="crossmatch", where=UT),
           dict(name="_matching", where=UT)],
    technique="constant propagation of source positions through the "
              "documented nearest-neighbour query",
    note="""The same layouts as P12 and six pairs of point sets of two and
    three dimensions.""")

FRAME = "abstract interpretation of the constructor over frames of pixel "\
        "classes (interval and provenance domains, pixel by pixel)"
FRAME_NOTE = """Frames of 54 to 130 pixels; every pixel is a symbol ranging
    over all values of its class (usable, below the floor, saturated, not
    finite, blank), so each frame stands for all images with that layout of
    classes. The library readers of files hand over those frames."""

prop(
    "P15", "Every kind of input gives the same pixels times the gain",
    """For every image handed over as an array, a masked array, a file path,
    an open HDU list or a primary HDU, every usable pixel of the image object
    is the source's pixel times the gain, in its place, whether or not a mask
    comes with it. The gain is the one given, else the one in the header of
    the source, else one.""",
    ["inputs"], "every pixel content, input kind and gain",
    """Tests build images from arrays with the default gain and compare a
    few files; no test crosses input kinds with masks and gains.""",
    [SI], [dict(name="SingleImage.__init__", where=SI)],
    technique=FRAME, note=FRAME_NOTE)

prop(
    "P16", "Every bad pixel is flagged, whatever mask comes with the image",
    """Every pixel that is not finite, below -50 or above 65000 counts, or
    marked in the mask given (array or file) or, when none is given, in the
    mask of a masked array or (unless guessing is off) in the mask extension
    of the file, is flagged in the image. Mask images count as marks the values at
    or above the threshold (16 unless given) when their median is zero, and
    those at or below it otherwise. No pixel more than seven pixels away from
    every such bad pixel is flagged.""",
    ["inputs"], "every layout of bad pixels, mask source and threshold",
    """Tests use one or two bad pixels and no mask, or a mask and no bad
    pixel; a bad pixel lost under some combination spoils every transform
    computed later.""",
    [SI], [dict(name="mask setter", where=SI)],
    technique=FRAME, note=FRAME_NOTE)

prop(
    "P17", "Trimming and cropping keep the asked window of pixels and mask",
    """Border trimming removes exactly the blank rows and columns that frame
    the image, on every side and none when there are none, and a crop removes
    exactly the given number of rows and columns at the start and end of each
    axis. Pixels and mask always cover the same window, whether the mask was
    given as an array or file of the full frame or of the kept pixels, or came
    with the source, and a mask of any other size is refused with a
    ValueError.""",
    ["inputs"], "every frame, border width, crop and mask",
    """Tests crop symmetric borders without a mask; an off-by-one on one side
    or a mask left on the full frame goes unnoticed.""",
    [SI], [dict(name="data setter", where=SI)],
    technique=FRAME, note=FRAME_NOTE)

prop(
    "P18", "Flagged pixels never feed the measurements on the image",
    """The background estimate and every source detection are told of exactly
    the flagged pixels, and detection runs on the image minus its background.
    The interpolated image equals the background-subtracted pixels wherever
    neither a flag nor a cosmic-ray hit marks them, holds an interpolated
    value at every flagged or hit pixel, with none left undefined, and no
    flagged or hit pixel is used to fill another. Interpolating leaves the
    image's own flags as they were.""",
    ["inputs"], "every layout of flagged pixels and cosmic-ray hits",
    """Tests look at images without flags or only check shapes and absence
    of NaN.""",
    [SI], [dict(name="_bkg", where=SI), dict(name="interped", where=SI)],
    technique=FRAME, note=FRAME_NOTE)

prop(
    "P19", "What is handed over keeps its contents",
    """The arrays, masks, headers, units and lists given to the library, and
    the pixels and flags of the images given to it, hold after any call what
    they held before: when an image is built from them, subtracted, coadded,
    aligned, given a zero point, stored, plotted, searched for sources or
    simulated from. Only the zero point, and what an image has measured on
    itself and keeps, change.""",
    ["inputs", "configurations"],
    "every image, array, mask, list and option combination",
    """A test that looks at the result does not look at its input again, and
    whether a buffer is shared depends on the type and layout of what was
    given.""",
    [SI, OP, UT, ST], [dict(name="data setter", where=SI),
                       dict(name="subtract, coadd", where=OP),
                       dict(name="transparency, store_img", where=UT),
                       dict(name="image, sim_varpsf", where=ST)],
    technique="effect and alias analysis: every write of the interpreted code "
    "is traced to the buffers it may share memory with",
    note="""Assumes the declared views, copies and in-place effects of the
    NumPy calls used, and that code outside the repository does not write to
    its arguments; a conversion that copies only for some dtypes counts as a
    view. Columns an image adds to its own cached source table are its own
    measurements.""")

prop(
    "P24", "Stamp files are private to an image and go away with it",
    """The star stamps of an image are kept in files inside a temporary folder
    made by the library, under a name no other living image has, also when
    both were made of the same data. The files are removed when the image's
    with block ends, whether by an exception, which passes on, or not, and
    when the image is dropped without one; leaving twice, or without stamps,
    is no error. Subtracting, coadding, aligning and plotting images remove
    none of their files and write no other.""",
    ["inputs", "histories"],
    "every way an image is made, used, left and dropped",
    """The tests never look at the files; a name clash corrupts the PSF of the
    other image only when both are alive, and files left behind or removed
    too early show up only in long sessions or on a second use.""",
    [SI], [dict(name="SingleImage", where=SI),
           dict(name="subtract, coadd", where=OP)],
    technique="effect analysis: files made and removed along the "
    "interpreted life of an image, paths compared as terms",
    note="""The folder must come from tempfile. Assumes what tinynpydb does
    with the name it is given (its suffix is replaced) and that an image is
    dropped when nothing refers to it. The empty temporary folder itself
    stays until the system cleans it.""")

prop(
    "P25", "A stored image holds the real pixels and every flag",
    """A stored image carries exactly the real part of the pixels in its
    primary unit, for plain, masked, real and complex images alike, and for a
    masked image also one extension, labelled as a bad-pixel mask, with the
    flag of every pixel, an image of zeros where no flag was set. With a path
    the file is written there, replacing an existing one, exactly once;
    without one nothing is written and the units are returned.""",
    ["inputs"], "every image, mask and destination",
    """Tests store one array without a mask; lost flags or pixels show up
    only when the file is used later.""",
    [UT], [dict(name="store_img", where=UT)],
    note="""Every combination of real/complex, unmasked/masked/masked without
    flags, and destination, on symbolic pixels. The precision (float32) and
    the FITS format itself are outside.""")

prop(
    "P26", "Every significant peak is listed once at its own position",
    """Every connected group of pixels whose significance, counted in
    clipped standard deviations from the clipped mean, exceeds the threshold
    (2.5 unless given) yields exactly one entry and nothing else does; pixels
    masked in the image yield none. The entry is the column and row of the
    group's centre, weighted with the pixel values, and the significance of a
    pixel of the group itself.""",
    ["inputs"], "every significance image, threshold and mask",
    """Tests count peaks of one smooth image; axes exchanged, a neighbouring
    pixel's significance or masked pixels reported pass there.""",
    [UT], [dict(name="find_S_local_maxima", where=UT)],
    technique="abstract interpretation on representative skies: sky level, "
              "spread and layout of significant pixels are concrete numbers; "
              "labelling and centring follow their documentation",
    note="""Eighteen layouts of separate, elongated, touching, edge and masked
    peaks, also exactly at the threshold, on
    frames that are not square; groups whose centre lies outside them are
    outside.""")

prop(
    "P29", "A plot is chosen by name, and quick-look plots go where asked",
    """Calling the plotter of an image with the name of one of its plots draws
    just that plot with the options given and hands back what it returns, no
    name means the picture of the image, and any other name, private or not
    a plot included, is a ValueError. The quick-look plots of a difference
    or significance image show the array given (filled where masked), are
    saved to the path when one is given and shown otherwise, and are closed
    unless in a notebook.""",
    ["inputs", "configurations"], "every name and option",
    """Tests draw with a few valid names; private names, data attributes and
    dropped options pass unseen.""",
    ["properimage/plot.py"],
    [dict(name="Plot.__call__, plot_S, plot_R", where="properimage/plot.py")],
    technique="abstract interpretation of the call for every kind of name, "
              "with the plots as opaque functions",
    note="What the drawing library does with an array is outside.")

prop(
    "P30", "Every PSF component is drawn on its own panel",
    """Plotting the components of a PSF, or their coefficients over the image,
    draws every one exactly once, in order, each on a panel of its own, for
    any number of components: on the first of the given panels, flat or in
    a grid, or on new ones, of which there are enough. Fewer panels than
    components is a ValueError and a PSF that does not vary has no
    coefficients to plot, an error too; nothing is drawn then.""",
    ["inputs", "configurations"],
    "every number of components and of given panels",
    """Tests plot two or three components; the layout formula treats primes,
    squares and other numbers differently.""",
    ["properimage/plot.py"],
    [dict(name="Plot.autopsf, Plot.autopsf_coef",
          where="properimage/plot.py")],
    technique="abstract interpretation with the loop over the panels unrolled "
              "for each number of components; drawings are matched with "
              "panels and components",
    note="""Up to 13 components and 16, 20, 25 (60, 72 and 97 in the thorough
    run), 0 to N + 2 given panels.""")

prop(
    "P31", "Plot options take effect and are left as they are",
    """Options handed to the plots of an image or its PSF reach the drawing
    they are for (picture, colour bar, contour lines) on every panel, and a
    default gives way to an option given. The dictionaries given are not
    changed, the components plotted are those for the given loss and shape,
    and every colour bar, title and contour belongs to the picture on the
    same panel, contours being drawn just when asked for and at the pixels'
    own coordinates.""",
    ["inputs", "configurations"], "every set of options",
    """Tests pass one option at a time and compare pictures; an option that
    holds for the first panel only, or a dictionary filled with defaults,
    goes unseen.""",
    ["properimage/plot.py"],
    [dict(name="Plot.imshow, Plot.autopsf, Plot.autopsf_coef",
          where="properimage/plot.py")],
    technique="abstract interpretation with symbolic options; every drawing "
              "call and the dictionaries after the call are compared with "
              "what was given",
    note="Two and three components, no, some and all options given.")

prop(
    "P32", "Deprecated names behave exactly like their replacements",
    """Calling a deprecated function passes every positional and keyword
    argument on unchanged, once, returns what the replacement returns, and
    warns that the name is deprecated.""",
    ["inputs"], "every combination of arguments",
    """Tests call them with one fixed set of arguments.""",
    [OP], [dict(name="diff, stack_R", where=OP)],
    note="Symbolic arguments: none to three positional, none to three "
         "keywords.")

prop(
    "P21", "Every star has one stamp, cut at its own position",
    """Stamps are stored under the numbers 0, 1, ... without gaps, in step
    with the recorded positions (row, column) and the number of stars; each
    is cut from the interpolated image around the position of its own star,
    scaled to unit sum, and has the recorded stamp size. A star whose stamp
    holds undefined pixels is never used; every other candidate is used,
    unless strict picking is asked for and there are more than twenty
    candidates, when stars that peak off centre, scatter too much, hold one
    overbright pixel or several peaks are left out too. The catalogue loses
    exactly the stars left out when at least fifteen remain, and none
    otherwise.""",
    ["inputs", "configurations"],
    "every catalogue, and every outcome of the tests on each star",
    """Tests use images where every star passes; numbers or positions that
    slip by one after a rejected star mix up the PSF of different stars.""",
    [SI], [dict(name="stamps_pos, n_sources", where=SI)],
    technique="abstract interpretation with a symbolic image: a valuation of "
              "the conditions on each star drives the book-keeping, which is "
              "compared with the defining one",
    note="""Nine mixes of 3 to 27 stars with every kind of rejection, with
    and without strict picking. The thresholds of the single tests are
    outside.""")

prop(
    "P20", "Which detections make the source catalogue of an image",
    """The source catalogue lists the unflagged detections whose size lies
    within the 20th and 80th percentile and whose flux lies within the 15th
    and 85th, limits included, or all detections when fewer than five
    qualify, and never more than 1800 different ones. When fewer than the
    asked minimum are found detection is tried again with a lower threshold
    and the longer list is kept; when it fails a higher threshold is tried,
    and none or just one detection is a ValueError. The catalogue is the
    same when read again, and asking for an update detects it anew or puts
    the given one in its place.""",
    ["inputs", "histories"],
    "every detected field, requested minimum and detection failure",
    """Tests run the detection on a few simulated fields where every branch
    gives a usable catalogue; a wrong percentile or an exchanged threshold
    still gives stars.""",
    [SI], [dict(name="best_sources, update_sources", where=SI)],
    technique="abstract interpretation with the detection library replaced by "
              "a list of answers; the resulting table is compared row by row "
              "with the defining selection",
    note="""Eleven fields (35 in the thorough run) with flags and ties, every
    order of detection outcomes; what the detection library finds is
    outside.""")

prop(
    "P27", "Seeded frames repeat; nothing else draws or watches the clock",
    """A frame simulated with a seed, zero included, depends on nothing but
    the arguments, whatever was simulated or drawn before; without a seed
    each frame has noise of its own. No call of the library draws from or
    seeds the random generators shared by the process, and building images,
    picking their sources, subtracting and coadding give results that depend
    on no unseeded draw, clock, or object identity.""",
    ["inputs", "histories"],
    "every seed, argument and earlier call in the process",
    """Tests compare two runs in a fresh process, where a leftover generator
    or a forgotten seed of one branch is not visible, and never with seed
    zero or more than 1800 sources.""",
    [ST, SI, OP], [dict(name="image, sim_varpsf", where=ST),
                   dict(name="best_sources", where=SI)],
    technique="provenance analysis: the generator behind each draw, and the "
    "terms of every result, over repeated interpreted calls",
    note="""Each simulator is analysed twice in one interpreted process, so a
    generator kept between calls shows. Thread timing and the determinism of
    the numerical libraries themselves are outside.""")

prop(
    "P28", "Simulated images have the profile, place and flux asked for",
    """A simulated Gaussian PSF of any size and widths is centred on its
    array, symmetric, sums to one, and has each width along its own axis (the
    same along both when one is given), turned by the angle asked for; Airy
    discs and Sersic galaxies have their defining value at every pixel, and
    point sources stand at their own positions with their own weights. A
    simulated image is the field blurred with that PSF plus the bias plus
    noise of the asked distribution at peak over signal-to-noise, drawn from
    the seed when one is given, and an unknown distribution is a
    ValueError.""",
    ["inputs"], "every size, width, position, weight and noise option",
    """Tests check sums and shapes of one wide PSF; asymmetric truncation,
    exchanged axes or misplaced weights leave those unchanged.""",
    ["properimage/simtools.py"],
    [dict(name="Psf, astropy_Psf, airy_patron, gal_sersic, delta_point, "
          "image", where="properimage/simtools.py")],
    technique="abstract interpretation pixel by pixel with symbolic profile "
              "values, fluxes, widths and indices",
    note="""Fourteen sizes and widths of Gaussians (tails beyond four sigma
    may be left out), two of Airy discs, three of galaxies; noise and seed
    options symbolic. The numerical profile functions of SciPy and astropy
    are taken as documented.""")

prop(
    "P33", "Parallel workers write to nothing they share",
    """While a coaddition runs on several workers, everything one worker
    writes to (running sums, flags, the products kept with an image) is its
    own: arrays it made itself, or the images of its own share of the list.
    No worker changes an array, list, dictionary, module or class variable
    that another worker or the caller also holds, so the order in which the
    workers run cannot change the result, for any list of different
    images.""",
    ["schedules", "inputs"],
    "every interleaving of the workers and every split of the list",
    """Tests run a few coadditions whose workers rarely collide; a shared
    running sum gives the right numbers almost every time.""",
    [OP, SI], [dict(name="coadd, process_chunk_joblib", where=OP),
               dict(name="s_hat_comp, psf_hat_sqnorm", where=SI)],
    technique="effect and ownership analysis: every cell of the abstract heap "
              "a worker writes to, against what every other worker and the "
              "caller can reach",
    note="""Lists of two to six images on two to four workers, with the
    products of an image taken as given and computed (one and several PSF
    components). Writes guarded by a lock are left undecided; distinct items
    of one list are not shared. Thread safety of the numerical libraries is
    assumed.""")
prop(
    "P34", "Nothing carries over from one call to the next",
    """Whatever was built, measured, subtracted, coadded, plotted or
    simulated before, also when it failed, a call finds the package and the
    process as they were at the start: no call changes a module or class
    variable, a default argument, an object these hold, or a setting shared
    by the process, such as the pixel limit of source detection, numerical
    error handling, warning filters, plot style, working directory or the
    options of a library, without putting it back on every way out. So the
    same image gives the same sources, PSF and products in any order of
    processing.""",
    ["histories", "inputs"],
    "every history of calls, failed ones included",
    """Tests run each call on fresh objects and never compare a call with
    the same call after others.""",
    [SI, OP, UT, PL], [dict(name="best_sources", where=SI),
                       dict(name="subtract, coadd", where=OP),
                       dict(name="transparency", where=UT),
                       dict(name="Plot", where=PL)],
    technique="effect analysis over the abstract heap: cells, variables and "
              "process settings that outlive a call, on normal and "
              "exceptional exits of every analysed run, and a syntactic "
              "census of the functions no run reaches",
    note="""Runs of the analyses behind the other properties (construction,
    sources, stamps, expansion, products, subtraction, coaddition, matching,
    plots, storing, simulation); quick mode stops a family of runs once the
    last ones reach no further function. Random generators are P27, stamp
    files P24. The current figure of the plotting library and memoised pure
    functions (functools caches) are not counted. Exceptions a library may
    raise outside any try block are not followed.""")

