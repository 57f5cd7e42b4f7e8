"""Writes MANIFEST.json from the list of properties."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "differential monitor: every value of a vectorised call against a scalar call on a one-row ensemble built afresh, plus API sessions in which every evaluation is spot-checked",
    "C02": "evaluations monitored against independent models of each representation (numpy/scipy only)",
    "C03": "monitors of range, monotonicity, limits, and of the increments against the quadrature of the model pdf; one known finding (jump in the first interval of interpolated grids)",
    "C04": "monitors of the inverse in both directions, order, support, and layouts; one known finding (same mechanism as C03)",
    "C05": "identities between the evaluators checked on the same ensemble",
    "C06": "metamorphic monitor: scaling each input row changes nothing, integrals are 1, non-finite or vanishing input is rejected where documented",
    "C07": "round trips through real files of each format, in a scratch directory, judged on data, metadata, ancillary data and evaluations",
    "C08": "files written in chunks by any partition and order of writers, compared with the file written whole",
    "C09": "logs of the iteration of every rank checked for exactly-once delivery and content; chunks are judged again after the iteration has moved on",
    "C10": "dictionaries of ensembles through real files",
    "C11": "slices (of slices) judged against the rows numpy selects",
    "C12": "joins judged row by row; rejected joins must leave all arguments as they were",
    "C13": "history monitor: a model of what each operation does, and the live ensemble compared with one built afresh from the model after every step",
    "C14": "history monitor of the cache: gridded() and mode() against a fresh ensemble after every operation",
    "C15": "conversions judged by what the target stores, against the evaluations of the source",
    "C16": "packing judged against the definition of a step, including neighbours and ties",
    "C17": "codec judged over all code words (thorough) or a stratified sample (quick); sparse searches judged by a referee of the greedy algorithm's guarantees",
    "C18": "metrics against their formulas over fresh one-row ensembles; one known finding (reset of negative divergences)",
    "C19": "statistics against scipy.stats one-sample statistics of the very samples drawn",
    "C20": "PIT samples against the cdf of one-row ensembles; PIT metrics against the samples",
    "C21": "conservation monitor: any partition into chunks gives the result of the whole (exactly, or within the resolution of the digest)",
    "C22": "point metrics against their definitions",
    "C23": "shape, support, seeds, state, and Kolmogorov distance, correlation and independence of the samples at a significance of 1e-10",
    "C24": "moments against closed sums, scipy.stats, and quadrature of the model",
    "C25": "fingerprints of all arguments and receivers before and after every call, also in sessions",
    "C26": "all 110 wrapped distributions and all methods against scipy.stats itself, and parameters through histories of operations",
    "C27": "padding against its definition; histories of constructor switches against fresh ensembles and the documented models",
    "C28": "helpers against their definitions pair by pair in every layout",
    "C29": "artists of the axes before and after every plot, judged against the values of the selected PDFs",
    "C30": "classes defined by the harness with closed formulas, registered and driven through the whole API; files of other versions; dictionary helpers against their definitions",
    "C31": "snapshots of an ensemble and its copies before and after operations on either",
    "C32": "open file descriptors watched after every operation; faults injected at the n-th dataset or group; damaged files",
    "C33": "seeded schedules of threads, switched at lines of qp by a trace function, every result compared with the sequential one; free-running stress",
    "C34": "ensembles arranged along several axes compared with the plain list of the same PDFs, in every evaluation, summary, sample, conversion and storage",
    "C35": "every argument given in another form (layout, byte order, read-only, masked, subclass, single precision, integers, lists) compared with plain arrays of the same numbers",
}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8") as fin:
        props = [json.loads(line) for line in fin if line.strip()]
    checks = []
    for prop in props:
        pid = prop["id"]
        checks.append(
            dict(
                property=pid,
                quick_cmd="bash run.sh %s" % pid,
                thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % pid,
                evidence_file="evidence/%s.json" % pid,
                technique="runtime monitoring: " + NOTE[pid],
                level="exploration",
                level_note="The real code of /repo/src is run on seeded generated workloads while oracles observe every result; "
                "nothing is proved beyond the executions observed. Trusts numpy, scipy and the models in harness/gens.py. "
                "Bounds and what is left out: DESIGN.md, and 'assumptions' in the evidence file.",
            )
        )
    out = dict(
        version=1,
        setup_cmd="bash setup.sh",
        checks=checks,
        not_applicable=[],
        notes="No hooks are needed: monitors wrap the public API from outside. run.sh takes --replay FILE to run one reported case again.",
    )
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fout:
        json.dump(out, fout, indent=1)
        fout.write("\n")


if __name__ == "__main__":
    main()
