"""ref/udunits2.json: what the UDUNITS-2 C library says about every unit and prefix
of its own database (run once, with cf_units; the checks only read the result)."""
import json
import os
import re
import xml.etree.ElementTree as ET

import cf_units

SHARE = os.path.join(os.path.dirname(cf_units.__file__), "etc", "share")
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "udunits2.json")


def local(t):
    return t.tag.rpartition("}")[2]


def plural(s):
    """formPlural of the C library."""
    if len(s) < 2:
        return s + "s"
    last, pen = s[-1], s[-2]
    if last == "y":
        return s + "s" if pen in "aeiou" else s[:-1] + "ies"
    if last in "sxz" or s.endswith(("ch", "sh")):
        return s + "es"
    return s + "s"


def names(e):
    d = {local(c): (c.text or "").strip() for c in e}
    out = [d["singular"]]
    if "plural" in d:
        out.append(d["plural"])
    elif "noplural" not in d:
        out.append(plural(d["singular"]))
    return out


units, prefixes = [], []
for f in ("prefixes", "base", "derived", "accepted", "common"):
    root = ET.parse(os.path.join(SHARE, f"udunits2-{f}.xml")).getroot()
    for e in root:
        if local(e) == "prefix":
            d = {"name": None, "symbols": [], "value": None}
            for c in e:
                if local(c) == "symbol":
                    d["symbols"].append(c.text.strip())
                elif local(c) in d:
                    d[local(c)] = c.text.strip()
            prefixes.append(d)
        elif local(e) == "unit":
            texts = []
            definition = None
            for c in e:
                if local(c) == "name":
                    texts += names(c)
                elif local(c) == "symbol":
                    texts.append(c.text.strip())
                elif local(c) == "def":
                    definition = c.text.strip()
                elif local(c) == "aliases":
                    for a in c:
                        if local(a) == "name":
                            texts += names(a)
                        elif local(a) == "symbol":
                            texts.append(a.text.strip())
            units.append({"texts": texts, "definition": definition})

LOG = re.compile(r"^(?:(\S+) )?(lg|ln|lb)\(re (.*)\)$")
DIM = re.compile(r"^([A-Za-z]+)(?:\^(-?\d+))?$")


def linear(u):
    """definition without scale and offset -> dims"""
    t = u.format(cf_units.UT_NAMES | cf_units.UT_DEFINITION)
    t = t.split(" from ")[0]
    dims = {}
    for part in t.split():
        if re.match(r"^[-+.\deE]+$", part):
            continue
        for tok in re.split(r"-(?=[A-Za-z])", part):
            m = DIM.match(tok)
            assert m, (t, tok)
            dims[m.group(1)] = dims.get(m.group(1), 0) + int(m.group(2) or 1)
    return dims


def describe(text):
    u = cf_units.Unit(text)
    t = u.format(cf_units.UT_NAMES | cf_units.UT_DEFINITION)
    m = LOG.match(t)
    if m:
        ref = cf_units.Unit(m.group(3))
        dims = linear(ref)
        basis = cf_units.Unit(" ".join(f"{k}^{n}" for k, n in dims.items()) or "1")
        k = float(m.group(1) or 1)
        return {"kind": m.group(2), "k": k, "dims": dims, "ref": ref.convert(1.0, basis)}
    dims = linear(u)
    basis = cf_units.Unit(" ".join(f"{k}^{n}" for k, n in dims.items()) or "1")
    b = u.convert(0.0, basis)
    if b:
        a = u.convert(1e6, basis) / 1e6 - b / 1e6
    else:
        a = u.convert(1.0, basis)
    return {"kind": "lin", "a": a, "b": b, "dims": dims}


out, missing = [], []
taken = set()
for u in units:
    for t in u["texts"]:
        if t in taken:
            continue
        taken.add(t)
        try:
            d = describe(t)
        except ValueError as e:
            missing.append((t, str(e)))
            continue
        out.append({"text": t, **d})
json.dump({"prefixes": prefixes, "units": out}, open(OUT, "w"), indent=0, ensure_ascii=True)
print(len(units), len(out), missing, len(prefixes))
