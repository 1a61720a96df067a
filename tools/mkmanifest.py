#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC; "
TR = T + "TLC validates recorded executions of the three builds as behaviours of "
NOTE = {
    "C01": (TR + "Codec.tla (rules rec); the code design (MDS) is model checked in MCCode.tla, erasure patterns are enumerated by ErasureGen.tla",
            "Every pattern of exactly k and k+1 fragments of small codes, sampled patterns of larger ones up to the largest legal; contents sampled, with crafted out-of-range symbols. The harness compares contents by digests of 128 bits."),
    "C02": (TR + "Codec.tla (rules fail); patterns enumerated by ErasureGen.tla",
            "All too-small patterns of small codes, samples of larger ones, interleaved with successful decodes."),
    "C03": (TR + "Codec.tla with the generator of RSCode.tla (rules marks, rec); the cursor over the marks is model checked in MCMarks.tla",
            "TLC computes the codeword of every column shown and so the exact list of positions; contents are crafted to hit chosen outputs at packet edges."),
    "C06": (TR + "Codec.tla with the generator of RSCode.tla (rules words); MDS design checked in MCCode.tla",
            "TLC computes the defining codeword in the field's arithmetic (GF.tla), independent of the library, for sampled columns of sampled codes."),
    "C07": (TR + "Codec.tla (rules mem, fun), with guard pages and AddressSanitizer; C API in FragmentStore.tla",
            "Sampled wanted/missing sets; unwanted outputs and missing inputs are null or inaccessible."),
    "C08": (TR + "Codec.tla (rules len, fun, rec); adversarial check of the rules in MCCodec.tla",
            "All lengths around two packets for some packet sizes, sampled otherwise; every pair of interfaces."),
    "C15": (TR + "Codec.tla and MathTrace.tla, the memo of results being shared by the scalar, SSE and AVX builds",
            "Sampled calls; results must be identical and correct in the three builds."),
    "C16": (TR + "Codec.tla (rules fun, rec, fail) on histories generated by CodecGen.tla",
            "Histories of 16 to 60 operations over up to 3 instances, sampled by TLC's simulator."),
    "C19": (TR + "Codec.tla (rules stats) on histories generated by CodecGen.tla",
            "Histories sampled by TLC's simulator."),
    "C04": (TR + "Header.tla, model checked by MCHeader.tla",
            "All small headers exhaustively on the model; sampled and extreme headers on the code, in guarded memory."),
    "C05": (TR + "FragmentStore.tla, model checked by MCFragmentStore.tla, on histories generated by FragmentGen.tla",
            "Histories of losses, corruptions, reconstructions and decodes sampled by TLC's simulator and enumerated for small codes."),
    "C09": (TR + "Transform.tla (DFT by definition over GF.tla)",
            "All lengths up to a bound and sampled inputs in each field; TLC evaluates the polynomial at each point."),
    "C10": (TR + "FieldOps.tla over GF.tla (exact arithmetic by definition, big numbers as limbs)",
            "All pairs of the small fields, sampled and extreme elements of the large ones."),
    "C11": (TR + "FieldOps.tla (divisors, orders, roots by definition)",
            "Requested lengths up to a bound in every field, with the known factorizations of the orders verified by TLC."),
    "C12": (TR + "Arith.tla (definitions over big naturals)",
            "All small arguments and sampled and extreme 32- and 64-bit ones."),
    "C13": (TR + "LinAlg.tla and RSCode.tla; MDS design checked in MCCode.tla",
            "Sampled matrices over every kind of field, with zero pivots; generators of all small codes."),
    "C14": (TR + "BufferViews.tla on histories generated by BufferGen.tla",
            "Histories sampled by TLC's simulator; every live view is read after each operation."),
    "C17": (TR + "PropsText.tla",
            "Sampled lists and layouts, with 64-bit positions."),
    "C18": (TR + "PolyAlg.tla over GF.tla",
            "Sampled polynomials, special degrees and coefficients, over every kind of field."),
    "C20": (TR + "VectorViews.tla on histories generated by VectorGen.tla",
            "Histories sampled by TLC's simulator; every live vector and view is read after each operation."),
    "C21": (TR + "Dumps.tla, model checked by MCDump.tla (what is shown can be read back)",
            "Every power of two and of ten and sampled 128-bit numbers; every length of memory up to 100 bytes and sampled longer ones; sampled containers."),
    "C22": (TR + "Memory.tla, model checked by MCMemory.tla (no sound history is ever blamed; leaks, memory kept after the end and memory of others given back are)",
            "A sample of the histories of all other checks, each gone through three times, with operations repeated three times in place; blocks are counted by interposed allocation functions in the three builds."),
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "vf", i.lower() + ".py")):
        t, n = NOTE[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": t, "level": "model_checking", "level_note": n,
            "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo: the harnesses use its "
              "public interface."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
