"""Known findings committed under /verif/known_findings.json (never written at run time)."""
import json
import os

_P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
_c = None


def _load():
    global _c
    if _c is None:
        try:
            _c = json.load(open(_P))
        except FileNotFoundError:
            _c = {"findings": []}
    return _c


def listed(prop, kid):
    return any(f["id"] == kid and f["property"] == prop and f.get("status") == "known" for f in _load()["findings"])


def describe(prop, kid):
    for f in _load()["findings"]:
        if f["id"] == kid and f["property"] == prop:
            return f["what"]
    return kid
