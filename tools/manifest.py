"""Writes MANIFEST.json: every property whose check exists is claimed."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitor: reference formulas and inverse-consistency oracles on random camera workloads",
    "C02": "runtime monitor: numerical differentiation of the executed functions as oracle for analytic derivatives",
    "C03": "runtime monitor: state machine histories checked online against a plain rotation/translation model",
    "C04": "runtime monitor: PROJ and extended-precision oracles over hostile positions, both implementations side by side",
    "C05": "runtime monitor: cross-convention round-trip oracles on regular and singular rotations",
    "C06": "runtime monitor: operation histories checked online against a set-of-observations model",
    "C07": "runtime monitor: write/read histories with corrupted files, offline comparison with an independent parser",
    "C08": "runtime monitor: operation histories with an online invariant checker over every view of the map",
    "C09": "runtime monitor: deep state snapshots compared before and after copying, pickling and mutation",
    "C10": "runtime monitor: save/load round trips of random reconstructions, snapshot and document comparison",
    "C11": "runtime monitor: dataset operation histories against an in-memory model with per-file digests",
    "C12": "runtime monitor: audit hooks watching for code execution, processes and file access while hostile files load",
    "C13": "runtime monitor: networkx connected-components oracle on random match graphs and feature sets",
    "C14": "runtime monitor: exhaustive-distance oracle on matcher results, epipolar-residual oracle on robust matches",
    "C15": "runtime monitor: brute-force selection oracle for each criterion, metamorphic permutation of inputs",
    "C16": "runtime monitor: ground-truth and threshold oracles on random viewing configurations",
    "C17": "runtime monitor: ground-truth and constraint oracles on exact and contaminated correspondences",
    "C18": "runtime monitor: independent cost evaluation, frozen-parameter and recovery oracles on solver runs",
    "C19": "runtime monitor: reprojection-invariance and ground-truth similarity oracles on alignment runs",
    "C20": "runtime monitor: invariant checker and ground-truth oracle over full reconstruction pipeline runs",
    "C21": "runtime monitor: geometric oracle on undistorted shots and pixels of synthetic images",
    "C22": "runtime monitor: ray-traced scene oracle on depth maps; threaded estimation under a race-free comparison",
    "C23": "runtime monitor: partition and distance oracles on split datasets, ground-truth oracle on merged ones",
    "C24": "runtime monitor: independent parsers of each export format compared with the source reconstruction",
    "C25": "runtime monitor: generated EXIF/XMP images with known encodings as oracle",
    "C26": "runtime monitor: call logs with exactly-once, ordering and conservation checkers under injected delays and faults",
    "C27": "AddressSanitizer and UndefinedBehaviorSanitizer over hostile calls to every native entry point",
    "C28": "runtime monitor: per-feature oracles on generated images, masks and segmentations",
    "C29": "runtime monitor: partition and composition oracles on random rigs, ground-truth calibration oracle",
    "C30": "runtime monitor: independent recomputation of every statistic from random datasets",
    "C31": "runtime monitor: generated control-point files and GPS logs with known content as oracle",
    "C32": "runtime monitor: ray casting, area and Delaunay oracles on the meshes of random images",
    "C33": "runtime monitor: disturbed, partial and empty stored reconstructions judged against the true scene",
    "C34": "runtime monitor: recorders in place of the steps under random command lines, and the programs compared with the steps",
    "C35": "runtime monitor: requests of all forms to the running viewer, judged against the files of random datasets",
    "C36": "runtime monitor: sessions of a simulated user, pages run by a JavaScript engine, judged against a model of the control points",
    "C37": "runtime monitor: analyses of split, moved and annotated scenes judged against the true scene",
    "C38": "runtime monitor: sessions with the viewer's modules in a JavaScript engine, judged against the reconstructions written",
    "C39": "runtime monitor: the import script on COLMAP databases and models written by the check, judged against the scene they were written from",
}
NOTE = ("Holds on every execution explored: random, hostile and stress workloads from VERIF_SEED, with the counts of what the "
        "monitors saw in the evidence file; a bug outside the generated inputs and histories can escape. Trusts the oracle "
        "formulas in checks/, numpy/scipy, and that the pybind11-compatible shim under native/shim exposes the native code as "
        "upstream's pybind11 does.")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(here, "checks", i.lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": [
        {"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
         "technique": TECH[i], "level": "exploration", "level_note": NOTE}
        for i in have
    ],
    "not_applicable": [{"property": i, "reason": "no check registered yet"} for i in ids if i not in have],
    "notes": "The native modules are compiled from /repo's working tree into /verif/build (git-ignored), with and without sanitizers; "
             "no hooks were needed in /repo.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
