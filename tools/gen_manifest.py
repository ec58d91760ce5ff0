#!/usr/bin/env python3
"""Writes MANIFEST.json from recipes.RECIPES and the texts below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import recipes  # noqa: E402

ENUM = "explicit enumeration of a bounded input/state space, each element executed on the real code and compared with a naive reference model"
T = {
    "C01": ("exhaustive enumeration of all images of small shapes through the real pipeline against brute force", "All pairs of images over small alphabets for shapes up to 5 pixels per row (thorough: 6x1, 3x3), all levels, six pairs of weights; larger shapes only as a fixed list."),
    "C02": ("exhaustive enumeration of all availability subsets, real solver against naive greatest fixpoint", "All subsets of small grids under listed thresholds and reparametrizations, all single pixel perturbations of larger ones."),
    "C03": ("stateless model checking of the OpenMP build: controlled scheduler over all memory accesses with visited-state pruning", "All interleavings of the memory accesses of teams of one to three (thorough: four) threads on small problems, sequentially consistent at the granularity of single loads and stores; weak memory reorderings are outside."),
    "C04": ("explicit-state enumeration: every availability subset x every solving step of the real code", "All subsets of small grids, all steps (worker shares for all team sizes, single pixels)."),
    "C05": ("exhaustive enumeration of availability subsets, real labeling against greedy labeling by brute force", "All subsets of small grids, structured families with dead ends, newly built graphs at every candidate threshold."),
    "C06": (ENUM, "All penalty assignments over alphabets with negative, zero and positive values, all subsets of a pixel's nodes, all pixels of small grids."),
    "C07": (ENUM, "All ascending sublists of candidate lists of small problems; position of the boundary at every index of longer lists."),
    "C08": (ENUM, "All small images, all shapes up to the bound with pattern images, single and double reparametrization elements at all positions."),
    "C09": (ENUM, "All small images, all shapes up to the bound with pattern images, single and double reparametrization elements at all positions."),
    "C10": (ENUM, "All small images, all shapes up to the bound, reparametrization elements at all positions, all disparity maps of small problems."),
    "C11": (ENUM, "All shapes up to the bound and all coordinates in and around the images, plus extreme values of the coordinate type."),
    "C12": (ENUM, "All shapes up to the bound with all positions, plus huge sizes for overflow at chosen positions."),
    "C13": (ENUM, "All combinations of sizes, maxima, levels, weights and flaws over small alphabets with boundary values."),
    "C14": ("exhaustive enumeration of texts (characters, tokens, edits, delivery of bytes, read errors) through the real reader under sanitizers, against an independent grammar", "All strings over listed alphabets up to a length, all single byte edits of valid images, all token combinations at numeric limits."),
    "C15": ("exhaustive enumeration of small images and all widths around line breaks, real writer and reader, independent grammar", "All images of small shapes over alphabets of every digit count, all widths up to the bound."),
    "C16": (ENUM, "All small images over an alphabet with extremes, one bad intensity at every position of longer ones."),
    "C17": (ENUM, "All availability subsets of small grids, every subset of one pixel of larger ones."),
    "C18": ("exhaustive enumeration of command lines and file states, executed with the real program, against a model of the command line", "All subsets and orders of options over listed values and file states; the program is built from the working tree."),
    "C19": ("model checking of host code and kernels natively: all interleavings of work items of each launch with visited-state pruning, fake OpenCL runtime", "Small problems, all group sizes dividing the global size; sequentially consistent memory accesses; the fake runtime stands for driver and compiler."),
    "C20": ("model checking of host code and kernels of CUDA natively: all interleavings of device threads of each launch with visited-state pruning, stand-in for the CUDA runtime", "Small problems and all block sizes which fit; sequentially consistent memory accesses; large images run in one fixed schedule; the stand-in replaces driver and compiler."),
    "C21": ("explicit-state enumeration: all subsets x all operations, all operation sequences up to a depth on the real code", "All reachable states of small graphs with every operation; sequences up to depth 6 (thorough: 8); single marks of larger graphs."),
    "C22": (ENUM, "All small images and all shapes up to the bound, every threshold at, between and around the deviations, all edges over coordinates in and around the images, all subsets of marks of small grids."),
    "C23": ("exhaustive fault enumeration: a failure of each output system call and at each byte, executed with the real program", "Each system call on the output fails with each listed error, file size limits at every byte, full devices."),
    "C24": ("exhaustive enumeration of shapes and parameters executed under AddressSanitizer, UBSan and checked containers", "All shapes up to the bound with pattern images and reparametrizations, all queries over coordinates in and around the images; absence of sanitizer reports is the oracle."),
    "C25": ("explicit enumeration of all operation sequences on two instances and copies up to a depth, real code against per-instance reference models", "All sequences up to depth 3 (thorough: 4; copies 6) over 24 operations, all interleavings of pairs of fixed sequences of six."),
    "C26": ("exhaustive fault enumeration: every operation of the OpenCL and CUDA runtimes fails, once or for good, host code and kernels executed natively", "All fault points of every operation on small problems; one schedule of device threads per execution; the stand-ins replace drivers and devices."),
    "C27": ("exhaustive enumeration of builds, names of technologies, small inputs and device failures, executed with the real program in four configurations on stand-ins for OpenMP, OpenCL and CUDA", "Four configurations, all small image pairs, every failing device operation on twelve problems; one schedule of threads per execution (C03, C19 and C20 explore schedules); the stand-ins replace drivers and devices."),
    "C28": ("exhaustive fault enumeration: every system call on the images and every allocation of memory fails, executed with the real program", "Each open and read of an image fails with each listed error or delivers each listed number of bytes, two faults per run; each allocation fails alone and with all later ones."),
}
PENDING = "check under construction"


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in recipes.RECIPES:
            checks.append({
                "property": p,
                "quick_cmd": "VERIF_TIER=quick python3 run.py " + p,
                "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": "model checking: " + T[p][0],
                "level": "model_checking",
                "level_note": T[p][1],
            })
        else:
            na.append({"property": p, "reason": getattr(recipes, "NOT_APPLICABLE", {}).get(p, PENDING)})
    m = {
        "version": 1,
        "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \"tools\"); import recipes; print(len(recipes.RECIPES), \"checks\")'",
        "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are, with own flags and runtimes", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check builds what it needs from /repo's working tree below /verif/build, which is removed afterwards. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
