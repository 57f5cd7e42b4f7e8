"""Sizes of the workloads of every check (fixed numbers of cases, never a time budget)."""

# property -> workload -> (quick, thorough)
SIZES = {}
RULE = {}
ASSUMPTIONS = {}


def add(prop, rule, sizes, assumptions=()):
    RULE[prop] = rule
    SIZES[prop] = sizes
    ASSUMPTIONS[prop] = list(assumptions)


def workloads(prop, tier):
    """Number of cases of each workload"""
    col = 1 if tier == "thorough" else 0
    return {name: num[col] for name, num in SIZES[prop].items()}


add("C01", "distinct (representation/variant, method, layout of x, relation of sizes) situations in which vectorised values were compared with scalar evaluations of single-row ensembles",
    dict(layout=(432, 9000), rows=(160, 4000), session=(63, 1500)),
    ["NaN and points exactly on a rounded uniform bin edge are compared between layouts only, never with the reference"])
add("C02", "distinct (representation/variant, npdf, rounded region) situations in which pdf() was compared with an independent model",
    dict(model=(540, 12000), constructors=(60, 1200)),
    ["piecewise_constant is only specified at the midpoints of the locations"])
add("C03", "distinct (representation/variant, npdf) situations in which monotonicity, limits, the model and the integral of pdf() were judged",
    dict(cdf=(480, 10000), quant=(60, 1200), known=(1, 1)))
add("C04", "distinct (representation/variant, npdf) situations in which ppf() was inverted and compared",
    dict(inverse=(420, 9000), quant=(60, 1200), known=(1, 1)))
add("C05", "distinct (representation/variant, identity) situations judged",
    dict(identities=(270, 5000), histogramize=(135, 2500)))
add("C06", "distinct (representation/variant, dtype, exponent of the factor) situations judged",
    dict(scale=(300, 6000), near=(160, 4000), reject=(20, 200), unchecked=(160, 4000)))
add("C07", "distinct (representation/variant, file format, ancillary data) round trips judged",
    dict(roundtrip=(252, 5000), overwrite=(63, 1260), notqp=(8, 40)))
add("C08", "distinct (representation/variant, source of the slices, number of slices, order, ancillary data) writes judged",
    dict(chunks=(225, 4500), writers=(45, 900), like_write=(72, 1400), allocate=(54, 900)),
    ["parallel hdf5 (an MPI build of h5py) is not available here: several writers are serialised in every order"])
add("C09", "distinct (representation/variant, number of ranks, relation of chunk size and rows, ancillary data) iterations whose log was checked",
    dict(ranks=(225, 4500), several=(72, 1400), whole=(72, 1400)))
add("C10", "distinct (number of ensembles, representation of the first, number of representations, number with ancillary data) dictionaries judged",
    dict(dicts=(144, 2800), rejects=(16, 160)))
add("C11", "distinct (representation/variant, kind of key, depth, ancillary data, single PDF) slices judged",
    dict(slices=(270, 5400), iterate=(63, 1260), independent=(90, 1800)),
    ["keys that select no PDF at all are not specified"])
add("C12", "distinct (representation/variant, number of ensembles, ancillary data) joins and (reason) rejections judged",
    dict(join=(180, 3600), rejects=(108, 2000), units=(20, 200), mixed=(108, 1800)),
    ["shared metadata are the same when they agree to the relative precision of np.allclose"])
add("C13", "distinct (representation, operation) steps after which the live ensemble was compared with one built afresh from the model",
    dict(history=(252, 5000), at_birth=(27, 270)))
add("C14", "distinct (representation, operation before, relation of the grid to those used before) calls of gridded() and mode() judged",
    dict(history=(216, 4300), kinds_of_grid=(45, 900)))
add("C15", "distinct (source representation/variant, target, single PDF) conversions judged",
    dict(convert=(324, 6500), sampled=(36, 540), own_grids=(270, 3600), chain=(42, 840), unknown=(9, 45)),
    ["rows whose pdf vanishes on the whole target grid are not judged, they can not be normalised"])
add("C16", "distinct (packing, floor, style of the values, shape, precision) arrays packed and unpacked",
    dict(pack=(600, 16000), levels=(40, 600), ensemble=(60, 1200), rejects=(1, 1)),
    ["values within half a step of the logarithmic floor may be packed as 0, which stands for zero"])
add("C17", "distinct (dictionary dimensions, number of elements, tolerance, number of PDFs) codings and code shapes judged",
    dict(codec=(40, 1024), basis=(30, 400), search=(150, 3000), represent=(120, 2400), accurate=(40, 600), defaults=(24, 240), rows=(40, 400)),
    ["PDFs that vanish everywhere are not coded"])
add("C18", "distinct (representation/variant, metric, function or class, single PDF) situations judged",
    dict(formulas=(225, 4500), others=(135, 2700), arrays=(60, 1200), rbpe=(12, 120), rejects=(45, 450), known=(1, 1)),
    ["the reference values of pdf and cdf are those of fresh ensembles holding one row (judged by C01 to C03)",
     "when the divergence of any PDF over the limits is negative, kld may be epsilon (known finding)"])
add("C19", "distinct (representation/variant, statistic, kind of reference, N vs N or 1, number of samples) situations judged",
    dict(fit=(270, 5400), direct=(60, 1200), rejects=(9, 90)),
    ["N estimates against M references (M neither 1 nor N) only log a warning and are not specified"])
add("C20", "distinct (representation/variant, style and form of the truth, grid, number of PDFs) situations judged",
    dict(pit=(270, 5400), pairs=(32, 400)),
    ["samples with fewer than four different interior quantiles can not make a quant ensemble, only the samples are judged then"])
add("C21", "distinct (metric, representation or style of the values, style of the partition, size) partitions whose finalized result was judged",
    dict(dist_exact=(180, 3600), file_chunks=(45, 900), point=(150, 3000), pit=(48, 960), same=(12, 60)),
    ["metrics built on a tdigest are judged to within 2 ranks + 0.6 % of the sample"])
add("C22", "distinct (style, number of points) samples, and (metric, options) made by the factory, judged",
    dict(definitions=(400, 12000), factory=(32, 400), registered=(18, 90), first=(4, 4)),
    ["points whose |ez| is within 1e-9 of the cut are not judged"])
add("C23", "distinct (representation/variant, number of samples, single PDF) samplings judged",
    dict(follow=(320, 6400), shapes=(160, 3200), slow=(8, 80), after=(40, 800)),
    ["distances are judged at a significance of 1e-10 per row, plus what the documented grids of mixmod and quant allow"])
add("C24", "distinct (representation/variant, single PDF, way of comparing) situations in which moments were judged",
    dict(fast=(240, 6000), convergence=(40, 800), scipy_exact=(60, 1200), slow=(24, 200), partial=(180, 3600)),
    ["moments of irr, mixmod, quant and spline are integrated numerically by scipy; they are judged within the documented grids of these representations"])
add("C25", "distinct (representation/variant, operation) pairs whose arguments were fingerprinted before and after",
    dict(calls=(90, 1800), helpers=(60, 1500), tables=(90, 1800), sessions=(90, 1800)))
add("C26", "distinct (distribution, parameters given, single PDF), (distribution, operation) situations compared with scipy.stats",
    dict(methods=(115, 2300), moments=(3, 28), tails=(60, 2400), history=(120, 2400), independent=(30, 600), types=(80, 3200), registry=(1, 1)),
    ["a value agrees when it is that of scipy.stats for the scalar parameters of the row, or for the whole array of parameters",
     "methods which scipy.stats itself declines for arrays of parameters (moments of levy_stable) are not judged"])
add("C27", "distinct (missing quantiles, types) paddings, and (constructor, single PDF, layout) states of a history of switches, judged",
    dict(padding=(300, 12000), history=(120, 2400), constructors=(40, 800), birth=(16, 160)),
    ["piecewise_constant is compared with freshly built ensembles here, and with its definition at the midpoints by C02",
     "construct_pdf() is used with sorted rows only"])
add("C28", "distinct (helper, layout, style of the grid, single PDF, options) situations compared with the definition",
    dict(hists=(150, 5000), interps=(150, 5000), indices=(150, 6000), profiles=(120, 6000), small=(60, 1500)),
    ["points within 1e-8 of the edges of bins whose edges are not exactly representable are not judged",
     "with a 2-D table of points, rows are given as a column"])
add("C29", "distinct (representation/variant, function, kind of key, axes or limits, several PDFs) plots judged",
    dict(draw=(270, 4500), pieces=(135, 2250), rejects=(18, 90)),
    ["drawn points within 1e-7 of a discontinuity of the pdf are not judged"])
add("C30", "distinct (what the user's class defines, operation, several PDFs, ancillary data), (conversion, method) and (registry operation) situations judged",
    dict(user=(240, 3600), convert=(60, 900), registry=(54, 540), helpers=(150, 3000), tables=(90, 1800)),
    ["classes that define only the pdf, or only the cdf, are evaluated by scipy numerically and judged to 1e-4 and 1e-5"])
add("C31", "distinct (representation/variant, way of copying, operation after, ancillary data) copies judged",
    dict(copies=(270, 5400), frozen=(45, 900)),
    ["ensembles of scipy distributions can not be pickled (their classes are made at run time), only copied"])
add("C32", "distinct (representation/variant, operation or damage, point of the fault, outcome) situations judged",
    dict(files=(54, 900), faults=(135, 2700), broken=(144, 2160), places=(18, 90)),
    ["files whose bytes were changed without changing their structure carry no checksum and can not be rejected",
     "an iteration that is given up releases the file when the iterator is deleted, as in a for loop that breaks",
     "astropy reads fits files cut in their padding; such files must give the right contents"])
add("C33", "distinct interleavings (sequences of switches between threads, with the lines of qp where they happened) and (representation, operations, number of threads) situations judged",
    dict(shared=(900, 18000), stress=(180, 3600), lives=(270, 5400), metrics=(180, 3600), pairs=(450, 9000)),
    ["threads only read the ensembles they share: changing an ensemble while others use it is not judged",
     "threads are switched at lines of qp, one at a time, by a seeded generator; a schedule that waits for a lock is given up and the threads run freely",
     "pairs: one switch to another thread, which then runs to its end, at each of up to 20 lines of an evaluation"])
add("C34", "distinct (representation/variant, arrangement of the PDFs, operation) situations compared with the plain list of the same PDFs",
    dict(values=(180, 3600), summaries=(60, 900), samples=(90, 1800), conversions=(90, 1800), mixtures=(4, 40), lives=(135, 2700)),
    ["the plain list of PDFs is judged by the other checks",
     "slicing and iterating over arranged ensembles, sparse ensembles and conversion to splines are not judged"])
add("C35", "distinct (representation/variant, function or operation, argument, form of the array) situations compared with plain arrays",
    dict(points=(180, 3600), data=(180, 3600), arguments=(90, 1800), helpers=(120, 2400), narrow=(192, 3840), nested=(120, 2400)),
    ["numbers given in single precision are chosen to be the same in both precisions, results may then be computed in single precision",
     "object data given as lists are not accepted by the constructors, and not judged"])

# The same workloads on ensembles of more PDFs (rows), or of more points per PDF (grid), than an
# 8 bit integer can count
LARGE = {
    "rows": {
        "C01": ["layout", "rows", "session"],
        "C02": ["model", "constructors"],
        "C03": ["cdf"],
        "C04": ["inverse", "quant"],
        "C05": ["identities", "histogramize"],
        "C06": ["unchecked"],
        "C07": ["roundtrip", "overwrite"],
        "C08": ["chunks", "writers", "like_write"],
        "C09": ["ranks", "several", "whole"],
        "C10": ["dicts"],
        "C11": ["slices"],
        "C12": ["join", "mixed"],
        "C13": ["history"],
        "C14": ["history", "kinds_of_grid"],
        "C15": ["convert", "sampled", "own_grids"],
        "C16": ["ensemble"],
        "C18": ["formulas"],
        "C20": ["pit"],
        "C21": ["file_chunks", "pit"],
        "C23": ["follow", "shapes"],
        "C24": ["scipy_exact", "partial"],
        "C25": ["sessions"],
        "C29": ["draw"],
        "C30": ["user"],
        "C31": ["copies"],
        "C32": ["files"],
        "C33": ["lives"],
        "C34": ["values", "lives"],
        "C35": ["points", "data"],
    },
    "grid": {
        "C01": ["layout", "rows", "session"],
        "C02": ["model", "constructors"],
        "C03": ["cdf", "quant"],
        "C04": ["inverse", "quant"],
        "C05": ["identities", "histogramize"],
        "C06": ["scale", "near", "unchecked"],
        "C07": ["roundtrip", "overwrite"],
        "C08": ["chunks", "writers", "like_write"],
        "C09": ["ranks", "several", "whole"],
        "C10": ["dicts"],
        "C11": ["slices", "iterate"],
        "C12": ["join", "mixed"],
        "C13": ["history"],
        "C14": ["history", "kinds_of_grid"],
        "C15": ["convert", "sampled", "own_grids", "chain"],
        "C16": ["ensemble"],
        "C18": ["formulas", "others"],
        "C19": ["fit"],
        "C20": ["pit"],
        "C21": ["file_chunks", "pit"],
        "C23": ["follow", "shapes"],
        "C24": ["scipy_exact", "partial"],
        "C25": ["sessions"],
        "C27": ["history"],
        "C29": ["draw", "pieces"],
        "C30": ["user", "convert"],
        "C31": ["copies"],
        "C32": ["files"],
        "C33": ["lives", "pairs"],
        "C34": ["values", "conversions"],
        "C35": ["points", "data", "narrow", "nested"],
    },
}
for _mode, _props in LARGE.items():
    for _prop, _names in _props.items():
        for _name in _names:
            SIZES[_prop][_name + "+" + _mode] = (18, 90)
