"""The parts of each property's check."""
import c18
import pipeline
import scen

COMMON = [
    "classes, values and calls are drawn from the generator's language (DESIGN.md lists the corners it avoids)",
    "str(), int(), UUID(), date.fromisoformat() and the like are taken from tables computed with the standard library",
    "documents are decoded by the same third-party codecs that serde uses",
]


def sized(quick, thorough):
    def n(check):
        return thorough if check.tier == "thorough" else quick
    return n


def campaign(profile, quick=300, thorough=6000):
    def random_sessions(check):
        n = sized(quick, thorough)(check)
        step = 1500
        for k in range(0, n, step):
            camp = pipeline.campaign(profile, check.seed + k // step * 1000, min(step, n - k))
            check.judge(camp, "random")
    return random_sessions


# The bounded families (spec/mc) of a property, and how many sessions of each a quick run takes.
FAMILIES = {
    "C01": {"types": 24, "top": 20},
    "C02": {"formats": 50, "formats-top": 30},
    "C03": {"types": 30, "top": 20},
    "C04": {"names": 50, "cases": 50},
    "C05": {"skips": 48, "skips-nested": 40},
    "C06": {"defaults": 72, "decls": 120},
    "C07": {"unions": 16, "unions-top": 7},
    "C08": {"kinds-strict": 50, "kinds-top": 14},
    "C09": {"kinds-modes": 50, "mutated": 40},
    "C10": {"keys": 120},
    "C11": {"keys": 120},
    "C12": {"hooks": 60, "mutated": 50, "kinds-top": 10},
    "C13": {"history": 260},
    "C14": {"custom": 56},
    "C15": {"generics": 19},
    "C16": {"inheritance": 60, "diamonds": 27},
    "C17": {"transparent": 40, "decls": 120},
    "C19": {"defaults": 72, "types": 20},
    "C20": {"kinds-strict": 40, "kinds-top": 14},
    "C21": {"kinds-top": 20, "unions-top": 7},
    "C22": {"numbers": 39, "formats": 40, "formats-top": 20},
}

PROPS = {}
for p, families in FAMILIES.items():
    parts = [scen.part(f, want) for f, want in families.items()]
    PROPS[p] = {"parts": [campaign(p), *parts], "assumptions": COMMON}

PROPS["C18"] = {"parts": [c18.model, c18.lines, c18.random_classes], "assumptions": COMMON + [
    "threads are switched between lines of serde's own and generated code, and where they wait for a lock of serde's",
]}
