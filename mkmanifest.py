#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = {}
def t(i, technique, note): T[i] = (technique, note)
X = "exhaustive bounded enumeration of executions of the real code against a reference model"
t("C01", X, "All programs of the stated grammar alphabets and bounds are assembled and compared with an independent two-pass assembler model; trusts that model and the bounds.")
t("C02", X, "All combinations of up to the stated number of injected faults in base programs and all short statement lists; oracle is an independent acceptance predicate.")
t("C03", X, "All statements x surface spellings up to the stated number of deviations; oracle is the generating statement list. Longer layouts are outside the bound.")
t("C04", X, "All strings over token-critical alphabets up to the stated length and all single (some double) mutations of seed programs; no panic, error spans in range.")
t("C05", X, "Every literal value in a range exceeding all fields in every notation, all operand fields; oracle is arithmetic.")
t("C06", "complete enumeration of the finite state space against an independent decoder", "All 65536 words and all instructions: complete.")
t("C07", "complete enumeration of the finite state space", "All 65536 words at several origins: complete.")
t("C15", "exhaustive enumeration with an exact reachability oracle over uninitialized bits", "Complete on small-width slices and a boundary alphabet of masks and values at 16 bits.")
t("C17", X, "All object files of the bounded generators (assembled and linked); equality after binary round trip.")
t("C18", X, "All object files of the bounded generators (assembled and linked); equality after text round trip.")
t("C19", X, "All chunk/line sequences up to the stated length and all single structured mutations of valid files; no panic in read, write, link, load.")
t("C20", "explicit-state enumeration of link trees (all orders and groupings) against a link model", "All tuples of files of a bounded alphabet in every order and bracketing.")
t("C21", "explicit-state enumeration of link trees against a link model", "All tuples of files of a bounded alphabet; one documented limitation is a known finding.")
t("C22", "explicit-state enumeration of link trees against a source model", "All tuples of files with debug symbols of a bounded alphabet; line texts and label spans compared.")
t("C23", X, "All programs of bounded label alphabets; every query under several spellings compared with the symbol model.")
t("C24", X, "All programs of bounded layout alphabets; the whole line map compared with the model in both directions.")
t("C25", X, "All texts up to a length over an alphabet of line-structure characters; every index queried.")
t("C26", X, "All erroneous programs and failing links of bounded alphabets; all spans queried and compared with spellings.")
t("C35", "complete enumeration of the finite state space", "All widths and all 16-bit values, signed and unsigned: complete.")
t("C36", X, "All statements of the grammar alphabet, and all short string literals over the allowed characters.")
exec(open(os.path.join(H, "mkmanifest_sim.py")).read()) if os.path.exists(os.path.join(H, "mkmanifest_sim.py")) else None
have = [i for i in sorted(T) if os.path.exists(f"{H}/mc/src/bin/{i.lower()}.rs")]
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
   "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]} for i in have],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
 "notes": "Rust explorer /verif/mc drives the public API of /repo's crate directly (no hooks in /repo): every behaviour in a bounded space is executed on the real code and compared with a reference model. known_findings.txt lists findings and fixes.",
}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
