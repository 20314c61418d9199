"""What each property's check runs."""
from kit import Stream, TIER, SEED

THOROUGH = TIER == "thorough"
def scale(q, t):
    return t if THOROUGH else q

PLANS = {}
def plan(*ids):
    def deco(f):
        for i in ids:
            PLANS[i] = f
        return f
    return deco


def line_streams(focus, edit, query):
    s = []
    if edit:
        s.append(Stream("edits", "GenLine", "TraceLine", edit[0], edit[1], {"MODE": "edit"}, {"FOCUS": focus}, chunks=scale(8, 64)))
    if query:
        s.append(Stream("queries", "GenLine", "TraceLine", query[0], query[1], {"MODE": "query"}, {"FOCUS": focus}, chunks=scale(8, 64)))
    return s


def line_edges(run, focus):
    # quick: the states of one shard, chosen by the seed; thorough: all states
    shards = scale(12, 1)
    return run.exhaustive("edges", "GenEdges", "TraceLine:TraceLineMC",
                          {"SHARD": SEED % shards, "SHARDS": shards}, {"FOCUS": focus}, timeout=scale(600, 3000))

@plan("C01")
def c01(run):
    s = line_edges(run, "sound")
    run.streams([s] + line_streams("sound", (150, 45), (60, 40)))
    if THOROUGH:
        run.model("MCLine:MCLineBig", timeout=3000)

@plan("C02")
def c02(run):
    s = line_edges(run, "edit")
    run.streams([s] + line_streams("edit", (150, 45), (40, 40)))
    if THOROUGH:
        run.model("MCLine:MCLineBig", timeout=3000)

@plan("C03")
def c03(run):
    run.streams(line_streams("copy", (100, 45), (100, 60)))

@plan("C04")
def c04(run):
    run.streams(line_streams("coord", None, (150, 60)))


# ---- "set inputs, ask for results" objects
def obj(family, mode, focus, num=200, depth=40, chunks=8, deep=10):
    return Stream("%s-%s" % (family, mode), "GenObj", "TraceObj", num, depth, {"MODE": mode, "FAMILY": family},
                  {"FOCUS": focus}, chunks=scale(chunks, chunks * deep))

def base(mode, focus, num=250, depth=60, chunks=8, deep=10):
    return Stream("base-%s" % mode, "GenBase", "TraceBase", num, depth, {"MODE": mode},
                  {"FOCUS": focus}, chunks=scale(chunks, chunks * deep))

def pairs(run, family, mode="calc", seed=SEED):
    """every question, input change and question of every class of the family"""
    return run.exhaustive("%s-pairs" % family, "GenPairs", "TraceObj",
                          {"FAMILY": family, "MODE": mode, "SEED": seed}, {"FOCUS": mode})

# property -> families judged against the calculation oracle
CALC = {"C06": ["catenary2d"], "C07": ["catenary3d"], "C08": ["catenarysolver"], "C09": ["locator"],
        "C10": ["equilibrium"], "C11": ["unitload", "cylinder"], "C14": ["polynomial"],
        "C16": ["component"], "C17": ["elongation"], "C18": ["strainer", "reloader"],
        "C19": ["rulingspan", "linereloader", "lineunloader"], "C20": ["sagger"],
        "C21": ["corrector"], "C22": ["field"], "C23": ["heat"], "C24": ["steady"], "C25": ["transient"], "C26": ["solar"]}

CHUNKS = {"C16": 12, "C17": 10, "C18": 4, "C19": 4, "C20": 8}
# judging an answer is costly here: quick compares the answers after a change of
# one input with those of a fresh object, and calculates those of the walks only
COSTLY = {"C17", "C18", "C19", "C20"}
# histories per chunk where judging an answer is costly
NUM = {"linereloader": 50, "lineunloader": 50, "sagger": 50}

def calc_plan(pid, fams):
    def f(run):
        run.streams([pairs(run, x, "fresh" if pid in COSTLY and not THOROUGH else "calc") for x in fams] + [obj(x, "calc", "calc", num=NUM.get(x, 200), chunks=CHUNKS.get(pid, max(4, 16 // len(fams)))) for x in fams])
        if THOROUGH:
            for k in range(2, 8):
                run.streams([pairs(run, x, seed=SEED * 100 + k) for x in fams])
    PLANS[pid] = f
for _p, _f in CALC.items():
    calc_plan(_p, _f)

@plan("C12")
def c12(run):
    run.streams([base("unit", "unit", chunks=16)])

@plan("C13")
def c13(run):
    run.streams([base("vector", "vector", chunks=16)])

@plan("C15")
def c15(run):
    run.streams([base("helper", "helper", chunks=16)])

@plan("C05")
def c05(run):
    run.streams([run.exhaustive("parts", "MCParts", "TraceParts", {}, {}),
                 Stream("walks", "GenParts", "TraceParts", 250, 60, {}, {}, chunks=scale(16, 160))])

# ---- results depend on current inputs only; copies are independent
@plan("C27")
def c27(run):
    run.streams([pairs(run, "all", "fresh")] + [obj("all", "fresh", "fresh", num=150, depth=60, chunks=8)])
    if THOROUGH:
        for k in range(2, 6):
            run.streams([pairs(run, "all", "fresh", seed=SEED * 100 + k)])

@plan("C29")
def c29(run):
    run.streams([obj("all", "copy", "copy", num=200, depth=60, chunks=8)])

# ---- validation
def faults(run, family, seed=SEED):
    """every class of the family, complete and valid but for one input"""
    return run.exhaustive("%s-faults" % family, "GenFaults", "TraceObj", {"FAMILY": family, "SEED": seed}, {"FOCUS": "valid"})

@plan("C28")
def c28(run):
    run.streams([faults(run, x) for x in ("values", "all")] +
                [obj("values", "part", "valid", num=250, depth=40), obj("all", "part", "valid", num=400, depth=50)])
    if THOROUGH:
        for k in range(2, 8):
            run.streams([faults(run, x, SEED * 100 + k) for x in ("values", "all")])

# ---- questions asked with missing or invalid inputs
@plan("C30")
def c30(run):
    run.streams([obj("all", "wild", "fresh", num=250, depth=60), obj("held", "early", "fresh", num=200, depth=50)])
