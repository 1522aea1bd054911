#!/usr/bin/env python3
"""Writes PureOps.tla: the definitions of FieldOps, PolyOps and GroupOps under names that TLC does not
replace by Java, for the self-test MCOps."""
import re, sys, pathlib
spec = pathlib.Path(__file__).resolve().parent.parent / "spec"
body, names = [], []
for m in ("FieldOps", "PolyOps", "GroupOps"):
    t = (spec / f"{m}.tla").read_text()
    t = re.sub(r"\(\*.*?\*\)", "", t, flags=re.S)
    t = re.sub(r"^-+ MODULE.*$|^=+$|^EXTENDS.*$", "", t, flags=re.M)
    names += re.findall(r"^([A-Z]\w*)\([^)]*\)\s*==", t, flags=re.M)
    body.append(t)
text = "\n".join(body)
for n in sorted(set(names), key=len, reverse=True):
    text = re.sub(rf"(?<!\w){n}(?=\()", "Pure" + n, text)
out = pathlib.Path(sys.argv[1]) / "PureOps.tla"
out.write_text("---- MODULE PureOps ----\nEXTENDS Integers, Sequences\n" + text + "\n====\n")
