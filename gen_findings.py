"""known_findings.jsonl: defects of forcepho found by the checks and repaired in /repo ('fix:' commits); none is left open."""
import json
F = [
("C05", "2de01a0", "Posterior with bounds given as all zeros was treated as unbounded"),
("C05", "821b9bc", "SlowPosterior crashed without a prior and had no negative log-likelihood"),
("C06", "22ec3f7", "the cached point aliased the caller's vector, so in-place changes returned the previous answer"),
("C06", "40a2c23", "the first query at a vector of -99s was answered from the empty cache"),
("C08", "75d895d", "a source active in an outstanding region could be drawn as seed"),
("C08", "95aae5d", "seed weights underflowed to zero for sources that are not active"),
("C08", "e318a17", "a friends-of-friends checkout could include sources active in another region"),
("C13", "ade4622", "flux bounds of a zero flux had zero width"),
("C13", "b8a322d", "adjust_bounds used an attribute that does not exist"),
("C13", "f060bc5", "adjust_bounds left fluxes above the upper bound"),
("C13", "c6f3928", "make_bounds crashed on per-source position half-widths"),
("C21", "3901cf7", "convert_pa left angles beyond +-pi/2 for inputs beyond one turn"),
("C11", "78068ba", "param_indices counted fixed sources that have no slot"),
("C11", "fe515aa", "param_indices without filter returned one flux slot"),
("C11", "27cfb12", "catalog export rounded positions to single precision"),
("C16", "624c95f", "exposure footprints used one image dimension for both axes"),
("C15", "049a671", "StorePatch looked up exposures in a missing attribute"),
("C15", "58c8649", "DirectPatch returned exposures out of band order"),
("C01", "4868b6c", "all sources used the PSF Gaussians of the first source"),
("C17", "0fd679b", "padding pixels overwrote a real pixel of the image"),
("C17", "d227645", "images of one call leaked into the next through mutable defaults"),
("C18", "b03b243", "subtracting with no active sources referenced coordinates twice"),
("C18", "3295d51", "empty catalogs of fixed or big sources crashed"),
("C18", "4b9655d", "render did not send the scene and returned no model"),
("C23", "5d1400d", "default_config_file crashed"),
("C23", "d5d6f52", "yaml_to_namespace rejected the dictionaries it documents"),
("C23", "5c3375c", "arguments spelled --key=value or abbreviated were dropped"),
("C23", "711f9dd", "a store directory with an unset store file crashed"),
("C24", "fca63e2", "dispatcher could not be imported (read_config)"),
("C24", "1a6ec46", "MPI and logger undefined when the dispatcher is imported"),
("C24", "12ffcc0", "submit sent with an invalid tag by default"),
("C24", "2c1576b", "collect without outstanding tasks crashed"),
("C24", "792b7fc", "collect freed the wrong worker (status of another request)"),
("C04", "7eb5f88", "PSF centers given in arcsec crashed or were mapped with the wrong matrix"),
("C04", "b260f95", "gradients were NaN for zero fluxes and zero mixture amplitudes"),
("C04", "f36dd66", "default PSF did not have the requested FWHM (variance scaled by the width)"),
("C04", "72c952a", "fixed sources were left out of the slow residual and likelihood"),
("C28", "23e2e7d", "postsample_catalog had one row per patch when a list of patches was given"),
("C28", "e01d30f", "flux_unc_linear crashed or kept stale values where a patch had no precision matrices"),
("C28", "36b3f4a", "find_multipatch indexed patches by position and not by their ID"),
("C28", "d5c1141", "append_catalogs crashed on files without extension names"),
("C27", "c0d0ed6", "run_opt reported the negative ln-probability divided by ndof as ln-probability"),
("C27", "57f6299", "run_dynesty passed a keyword dynesty rejects"),
("C04", "802f3c2", "SlowPosterior.residuals crashed when given a parameter vector"),
("C29", "ee2034c", "kron_radius with rmax used normalised incomplete gamma functions (wrong by Gamma(3n)/Gamma(2n))"),
("C29", "114424b", "write_sourcereg called a function that does not exist and wrote outside the run directory"),
("C29", "2ceb230", "source regions were drawn perpendicular to the source's major axis"),
("C30", "c823273", "PSF centers of images that are not square used the offsets of the wrong axis"),
]
open("/verif/known_findings.jsonl", "w").write("".join(json.dumps({"status": "fixed", "property": p, "commit": c, "what": w,
    "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n" for p, c, w in F))
