"""Which function decides which property."""

from . import carry, subtract, coadd, components, kl, cache, catalog, frame, \
    tools, simulate, stamps, sources, plots, effects, files, draws, workers


def plotted(chk):
    plots.check_dispatch(chk)
    plots.check_looks(chk)


def align(chk):
    subtract.check_align_subtract(chk)
    coadd.check_align(chk)


def inputs(chk):
    subtract.check_inputs(chk)
    coadd.check_given(chk)


CHECKS = {
    "P01": (subtract.check_difference, "difference formula"),
    "P02": (subtract.check_products, "PSF and significance formulas"),
    "P03": (subtract.check_scale, "flux scale and shift"),
    "P04": (subtract.check_objective, "fit objective"),
    "P05": (subtract.check_mask, "difference mask"),
    "P06": (align, "alignment"),
    "P07": (inputs, "size mismatch and input kinds"),
    "P08": (coadd.check_formula, "coadd formula"),
    "P09": (coadd.check_workers, "worker independence"),
    "P11": (components.check_components, "per-image products"),
    "P22": (kl.check_expansion, "PSF expansion"),
    "P23": (components.check_local_psf, "PSF at a position"),
    "P14": (cache.check_cache, "cached products"),
    "P12": (catalog.check_zeropoints, "relative zero points"),
    "P13": (catalog.check_matching, "source matching"),
    "P10": (coadd.check_mask, "coadd mask"),
    "P15": (frame.check_pixels, "pixels and gain"),
    "P16": (frame.check_flags, "bad-pixel flags"),
    "P17": (frame.check_window, "trimming and cropping"),
    "P18": (frame.check_use, "flagged pixels unused"),
    "P19": (effects.check_inputs, "inputs kept"),
    "P20": (sources.check_sources, "source catalogue"),
    "P21": (stamps.check_stamps, "star stamps"),
    "P27": (draws.check_draws, "random draws"),
    "P28": (simulate.check_simulated, "simulated images"),
    "P24": (files.check_files, "stamp files"),
    "P25": (tools.check_store, "stored images"),
    "P26": (tools.check_peaks, "significant peaks"),
    "P29": (plotted, "plots by name"),
    "P30": (plots.check_panels, "panels"),
    "P31": (plots.check_options, "plot options"),
    "P33": (workers.check_workers, "worker isolation"),
    "P34": (carry.check_carry, "nothing carried over"),
    "P32": (tools.check_aliases, "deprecated names"),
}

# Obligations confirmed by hand on the reference tree.
FLOOR = {}

ASSUMPTIONS = [
    "NumPy, SciPy, astropy, sep and astroalign calls have their documented "
    "meaning; the analyser holds a summary of each one used.",
    "Floating-point rounding is ignored: sums and products are compared as "
    "real/complex expressions.",
    "Attributes and functions are not replaced at run time from outside the "
    "package.",
]
