#!/usr/bin/env python3
"""One-off: transcribe the codec's published tables (as printed in the headers of the base tree) into TLA+ modules.
The committed modules are the specification; this script is kept for the record and is not run by any check."""
import re, sys, os
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src/internal"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
def table(fn, name, nth=0):
    s = open(os.path.join(SRC, fn)).read()
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S); s = re.sub(r"//.*", "", s)
    ms = list(re.finditer(r"\b%s((?:\[\d+\])+)\s*=\s*(\{.*?\});" % name, s, re.S))
    m = ms[nth]
    dims = [int(x) for x in re.findall(r"\d+", m.group(1))]
    nums = re.findall(r"-?\d+\.?\d*(?:[eE]-?\d+)?", m.group(2))
    return dims, nums
def scaled(x, scale):
    from decimal import Decimal
    v = Decimal(x) * scale
    assert v == v.to_integral_value(), (x, scale)
    assert abs(v) < 2**31
    return str(int(v))
def nest(nums, dims):
    if len(dims) == 1: return "<<" + ", ".join(nums) + ">>"
    step = len(nums) // dims[0]
    return "<<" + ",\n  ".join(nest(nums[i*step:(i+1)*step], dims[1:]) for i in range(dims[0])) + ">>"
def emit(mod, doc, items):
    o = ["-" * 20 + " MODULE %s " % mod + "-" * 20, "\\* " + doc, "EXTENDS Integers"]
    for tla, fn, name, nth, scale in items:
        dims, nums = table(fn, name, nth)
        tot = 1
        for d in dims: tot *= d
        if len(nums) != tot:
            print(name, dims, len(nums))
            if len(dims) == 1: nums += ["0"] * (tot - len(nums))
        if scale: nums = [scaled(x, scale) for x in nums]
        else: nums = [str(int(float(x))) for x in nums]
        o.append("\\* %s" % ("in units of 1/%d" % scale if scale else "integers"))
        o.append("%s == %s" % (tla, nest(nums, dims)))
    o.append("=" * 60)
    open(os.path.join(OUT, mod + ".tla"), "w").write("\n".join(o) + "\n")
M = 1000000
emit("TablesImbe", "Quantiser tables of the IMBE 4400 codec (annexes of the standard, as printed in the base tree).", [
    ("TQuantStep", "imbe7200x4400_const.h", "quantstep", 0, M), ("TStdDev", "imbe7200x4400_const.h", "standdev", 0, M),
    ("TB2", "imbe7200x4400_const.h", "B2", 0, M), ("TBa", "imbe7200x4400_const.h", "ba", 0, M),
    ("THoba", "imbe7200x4400_const.h", "hoba", 0, None), ("TBo", "imbe7200x4400_const.h", "bo", 0, None),
    ("TJi", "imbe7200x4400_const.h", "ImbeJi", 0, None)])
a = "ambe3600x2450_const.h"
emit("TablesAmbe2450", "Quantiser tables of the AMBE+2 (2450) codec.", [
    ("TW0", a, "AmbeW0table", 0, M), ("TL", a, "AmbeLtable", 0, None), ("TVuv", a, "AmbeVuv", 0, None),
    ("TLmprbl", a, "AmbeLmprbl", 0, None), ("TDg", a, "AmbeDg", 0, M), ("TPrba24", a, "AmbePRBA24", 0, M),
    ("TPrba58", a, "AmbePRBA58", 0, M), ("THocB5", a, "AmbeHOCb5", 0, M), ("THocB6", a, "AmbeHOCb6", 0, M),
    ("THocB7", a, "AmbeHOCb7", 0, M), ("THocB8", a, "AmbeHOCb8", 0, M)])
b = "ambe3600x2400_const.h"
emit("TablesAmbe2400", "Quantiser tables of the AMBE (2400) codec.", [
    ("TL", b, "AmbePlusLtable", 0, None), ("TVuv", b, "AmbePlusVuv", 0, None), ("TLmprbl", b, "AmbePlusLmprbl", 0, None),
    ("TDg", b, "AmbePlusDg", 0, M), ("TPrba24", b, "AmbePlusPRBA24", 0, M), ("TPrba58", b, "AmbePlusPRBA58", 0, M),
    ("THocB5", b, "AmbePlusHOCb5", 0, M), ("THocB6", b, "AmbePlusHOCb6", 0, M), ("THocB7", b, "AmbePlusHOCb7", 0, M),
    ("THocB8", b, "AmbePlusHOCb8", 0, M)])
