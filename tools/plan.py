"""Which models and how much testing each property's check uses."""


def ok(module, cfg, workers=4):
    return (module, cfg, workers, "ok")


def bad(module, cfg):
    """a deliberately wrong design that the model's properties must refute"""
    return (module, cfg, 2, "refuted")


V = ok("MCViSQOL", "MCViSQOL")
VD = ok("MCViSQOL", "MCViSQOL_deep", 8)
VBAD = [bad("MCViSQOL", "MCViSQOL_" + x) for x in ("nodrop", "shortref", "underflow")]
M = ok("MCMatching", "MCMatching")
MW = ok("MCMatching", "MCMatching_wide", 8)
MD = ok("MCMatching", "MCMatching_deep", 8)
MBAD = [bad("MCMatching", "MCMatching_legacy")]
S = ok("MCSession", "MCSession")
SD = ok("MCSession", "MCSession_deep", 8)
SBAD = [bad("MCSession", "MCSession_" + x) for x in ("noreset", "once", "shared")]
FBAD = [bad("MCSession", "MCSession_persignal")]
C = ok("MCCli", "MCCli")
CD = ok("MCCli", "MCCli_deep", 8)
CBAD = [bad("MCCli", "MCCli_" + x) for x in ("early", "skip", "truncate", "last", "silent")]

def refuted(module, *designs):
    return [bad(module, module + "_" + d) for d in designs]


G = ok("MCSegmentation", "MCSegmentation")
GBAD = refuted("MCSegmentation", "gridend", "nohead", "memory1", "strict")
X = ok("MCNsim", "MCNsim")
W = ok("MCWav", "MCWav")
WBAD = refuted("MCWav", "partial", "clamp", "front")
Q = ok("MCQuality", "MCQuality")
QBAD = refuted("MCQuality", "le", "nocut", "twice")
A = ok("MCAggregates", "MCAggregates")
ABAD = refuted("MCAggregates", "negative", "population", "lostframes")
L = ok("MCDelay", "MCDelay")
LBAD = refuted("MCDelay", "padding", "limit", "fromstart")
F = ok("MCFrames", "MCFrames")
FRBAD = refuted("MCFrames", "partial", "hop", "keepstate")
N = ok("MCNoiseFloor", "MCNoiseFloor")
NBAD = refuted("MCNoiseFloor", "oneside", "refmin", "last")
E = ok("MCLevel", "MCLevel")
EBAD = refuted("MCLevel", "silent", "gate", "sums")


def deep(module, suffix="deep"):
    return ok(module, module + "_" + suffix, 8)


MODELS = {
    "C01": {"quick": [V], "thorough": [VD] + VBAD},
    "C02": {"quick": [V, W], "thorough": [VD, deep("MCWav")] + VBAD + WBAD[:1]},
    "C03": {"quick": [S] + SBAD[:1], "thorough": [SD] + SBAD},
    "C04": {"quick": [W] + WBAD[2:], "thorough": [W, deep("MCWav")] + WBAD},
    "C05": {"quick": [X, M], "thorough": [deep("MCNsim"), MW]},
    "C06": {"quick": [Q, ok("MCQuality", "MCQuality_audio")] + QBAD[:1], "thorough": [Q, deep("MCQuality")] + QBAD},
    "C07": {"quick": [A] + ABAD[:1], "thorough": [A, deep("MCAggregates")] + ABAD},
    "C08": {"quick": [V, L], "thorough": [VD, deep("MCDelay"), deep("MCDelay", "wide")] + LBAD},
    "C09": {"quick": [E] + EBAD[1:2], "thorough": [E, deep("MCLevel")] + EBAD},
    "C10": {"quick": [S, F] + FBAD, "thorough": [SD, F, deep("MCFrames")] + FBAD + FRBAD},
    "C11": {"quick": [N] + NBAD[:1], "thorough": [N, deep("MCNoiseFloor")] + NBAD},
    "C12": {"quick": [V, G] + GBAD[2:3], "thorough": [VD, deep("MCSegmentation")] + GBAD[1:]},
    "C13": {"quick": [V, G] + GBAD[:1], "thorough": [VD, deep("MCSegmentation")] + GBAD[:1]},
    "C14": {"quick": [M] + MBAD, "thorough": [MW, MD] + MBAD},
    "C15": {"quick": [M, V], "thorough": [MW, MD, VD]},
    "C16": {"quick": [V, L], "thorough": [VD, deep("MCDelay"), deep("MCDelay", "wide")] + LBAD[2:]},
    "C17": {"quick": [X] + refuted("MCNsim", "corners"), "thorough": [deep("MCNsim")] + refuted("MCNsim", "corners")},
    "C18": {"quick": [C] + CBAD[1:2], "thorough": [CD] + CBAD},
    "C19": {"quick": [C] + CBAD[2:3], "thorough": [CD] + CBAD},
    "C20": {"quick": [C], "thorough": [CD]},
    "C21": {"quick": [C], "thorough": [CD]},
}

# percent of the generator's plan
EFFORT = {}

ASSUMPTIONS = {
    "*": [
        "the harness records what the code did faithfully (observations are rounded to the stated decimal units)",
        "the code runs on 64-bit IEEE floating point; numeric obligations carry explicit tolerances",
    ],
}
