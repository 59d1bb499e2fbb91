"""writes MANIFEST.json from properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "Rounding error: the verifier treats machine floating point as exact real arithmetic, and no contract within reach describes the rounding of TensorFlow's and NumPy's compiled kernels.",
 "N02": "Convergence quality of heuristic iterations (Gerchberg-Saxton, MRAF, IFTA): no bound is provable, so no postcondition can state it.",
 "N03": "Legibility of a rasterised font: it depends on FreeType and Pillow rendering, and 'legible' has no contract.",
}
NOTE = {
 "C05": "Parseval, cyclic-shift and zero-padding sum lemmas are proved in proofs/Lemmas.lean, which Lean checks in every run.",
 "C21": "The DFT shift lemma is proved in proofs/Lemmas.lean, which Lean checks in every run.",
 "C27": "The DFT inversion lemma is proved in proofs/Lemmas.lean, which Lean checks in every run; that np.fft and tf.signal compute the DFT is an assumed contract, cross-checked at run time (bounded).",
 "C29": "The vendor library is a recorder that may fail at any call.",
 "C30": "The vendor library is a recorder; load histories are the five listed ones, frame lists have symbolic length.",
 "C31": "The vendor library is a recorder; the meaning of the sequencer program is checked for image counts 1..3 (bounded part), everything else for symbolic length.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
        "technique": "contract-based deductive verification: verification conditions generated by executing the real source on symbolic inputs, discharged by a term normaliser, z3 and cvc5",
        "level": "proof",
        "level_note": ("For all inputs, sizes and iterations within the stated preconditions, over exact real arithmetic; dependencies by assumed contracts (slmv/shim_*.py). "
                       "Failed obligations are replayed on the real code by a bounded runtime oracle. " + NOTE.get(i, "")).strip()})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Known findings and repairs: known_findings.txt. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
