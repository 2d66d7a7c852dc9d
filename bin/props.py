"""The properties and how each is decided."""
from mbv import CheckError


class Prop:
    level = "model_checking"
    assumptions = [
        "TLC evaluates the specification correctly",
        "the controlled scheduler explores sequentially consistent interleavings at statement/synchronization granularity; the native -race runs look for data races that would invalidate this",
        "coverage of schedules, programs and inputs is bounded (see coverage counts)",
    ]

    technique = "TLA+ specification; controlled-schedule histories of the real code validated by TLC"
    note = ("every recorded history of the real code within the explored programs and schedules is a behaviour of the TLA+ "
            "specification; bounded exploration, sequentially consistent interleavings plus a native race-detector run")

    def __init__(self, rule, fn, level=None, note="", technique=""):
        self.rule, self.fn = rule, fn
        if note:
            self.note = note
        if technique:
            self.technique = technique
        if level:
            self.level = level

    def run(self, c):
        self.fn(c)


PROPS = {}
F = dict


def th(c, q, t):
    return t if c.tier == "thorough" else q


def concurrent(driver, module, fams, race=None, design=(), known=None, maxhist=0, extra=()):
    def run(c):
        fs = c.explore_safe(driver, [dict(f, **(dict(sched=f.get("tsched", f.get("sched", 100) * 5), maxhist=f.get("tmaxhist", 0)) if c.tier == "thorough" else {})) for f in fams], maxhist=maxhist)
        c.validate(module, fs, known=known)
        for m, fam in extra:
            fam = dict(fam)
            c.validate(m, c.explore_safe(fam.pop("driver", driver), [fam]), known=known)
        if race:
            c.race(driver, race)
        # the design of the component, checked against the same specification
        for d in design:
            d = dict(d)
            if c.tier == "thorough" or not d.pop("deep", False):
                d.pop("deep", None)
                c.design(d.pop("module"), **d)
        if c.tier == "thorough" and driver == "mapd":
            c.check_shapes()
        if c.tier == "thorough" and design:
            for m, bugs in {d["module"]: BROKEN[d["module"]] for d in design}.items():
                for b in bugs:
                    c.design(m, Bug=b, broken=True)
    return run


BROKEN = F(MapImpl=range(1, 7), ResImpl=range(1, 4), MRImpl=range(1, 4), StreamImpl=range(1, 4), DoImpl=range(1, 5), SpinImpl=range(1, 4),
           PoolImpl=range(1, 4), RingImpl=range(1, 4), OnceImpl=range(1, 4), BarrierImpl=range(1, 4), JoinImpl=range(1, 4), IOImpl=range(1, 4),
           WorkerImpl=range(1, 4))


def MAP(*meths, booms="FALSE"):
    """xsync.Map: two operations on two keys from every shape of the map; deep: three, and two after one another."""
    m = "{%s}" % ", ".join('"%s"' % x for x in meths)
    return [F(module="MapImpl", Meths=m, Booms=booms),
            F(module="MapImpl", Meths=m, Booms=booms, Procs="{1, 2, 3}", Keys="{1}", deep=True),
            F(module="MapImpl", Meths=m, Booms=booms, NOps=2, Keys="{1}", deep=True)]


RES = [F(module="ResImpl", Procs="{1, 2}", Keys="{1, 2}"), F(module="ResImpl", NOps=1), F(module="ResImpl", deep=True)]
MR = [F(module="MRImpl"), F(module="MRImpl", N=3, W=2, Buf=2, deep=True), F(module="MRImpl", N=4, W=1, Slots=2, Buf=2, deep=True)]
STREAM = [F(module="StreamImpl"), F(module="StreamImpl", N=4, Stages=3, deep=True), F(module="StreamImpl", N=5, Stages=2, Workers=3, deep=True)]

SPIN = [F(module="SpinImpl"), F(module="SpinImpl", Procs="{1, 2, 3, 4}", deep=True), F(module="SpinImpl", MaxBack=4, Rounds=3, deep=True)]
ONCE = [F(module="OnceImpl"), F(module="OnceImpl", Writers="{1, 2, 3, 4}", deep=True)]
RING = [F(module="RingImpl"), F(module="RingImpl", Cap=3, NAdds=3, deep=True), F(module="RingImpl", Cap=1, NAdds=3, deep=True)]
POOL = [F(module="PoolImpl"), F(module="PoolImpl", MaxBlocks=3, deep=True)]
DO = [F(module="DoImpl"), F(module="DoImpl", N=3, deep=True)]
WORKER = [F(module="WorkerImpl"), F(module="WorkerImpl", Size=2)]
BARRIER = [F(module="BarrierImpl"), F(module="BarrierImpl", Cap=0), F(module="BarrierImpl", Readers="{1, 2}", Cap=2, deep=True)]
JOIN = [F(module="JoinImpl"), F(module="JoinImpl", Big=1)]
IO = [F(module="IOImpl"), F(module="IOImpl", Users="{1, 2, 3}", deep=True)]


RULE = ("each scenario is a small concurrent program over the public API; its schedules are enumerated depth-first with bounded preemptions "
        "and then sampled (random walk, PCT); an execution counts as non-trivial when its recorded history is distinct within its scenario")

def LONG(f):
    """Streams of up to 150000 elements, natively scheduled."""
    return "LongTrace", F(family=f, sched=1, tsched=1, native=True)


def VOL(f):
    """Large volumes of alike operations, natively scheduled."""
    return "VolTrace", F(family=f, driver="vold", sched=1, tsched=1, native=True)


PROPS["C01"] = Prop(RULE, concurrent("mapd", "MapTrace", [
    F(family="basic-pairs", sched=150, maxhist=12), F(family="basic-shapes", sched=80, tsched=150, maxhist=8), F(family="basic-duos", sched=100, tsched=400, maxhist=6), F(family="clear-shapes", sched=60, tsched=150, maxhist=8), F(family="basic", sched=200, maxhist=40), F(family="seq", sched=1), F(family="many", sched=1)],
    race=[F(family="basic", sched=6), F(family="many-race", sched=6)], design=MAP("Load", "Store", "LoadOrStore", "LoadAndDelete", "Clear"), extra=[VOL("vmap")]))
PROPS["C02"] = Prop(RULE, concurrent("mapd", "MapTrace", [
    F(family="compute-pairs", sched=250, maxhist=20), F(family="compute-shapes", sched=150, tsched=250, maxhist=8), F(family="compute-duos", sched=100, tsched=400, maxhist=6), F(family="compute", sched=300, maxhist=40), F(family="seq", sched=1), F(family="many", sched=1)],
    race=[F(family="compute", sched=6)], design=MAP("Load", "Store", "LoadAndDelete", "CIA", "CIP", booms="TRUE"), extra=[VOL("vcomp")]))
PROPS["C03"] = Prop(RULE, concurrent("mapd", "MapTrace", [
    F(family="range", sched=400, maxhist=50), F(family="range-shapes", sched=150, tsched=300, maxhist=8), F(family="seq", sched=1), F(family="many", sched=1), F(family="many-conc", sched=30, maxhist=8)],
    race=[F(family="range", sched=6)], design=MAP("Store", "LoadOrStore", "LoadAndDelete", "Clear", "Range"), extra=[VOL("vrange")]))
PROPS["C04"] = Prop(RULE, concurrent("sharedd", "SharedTrace", [
    F(family="conc", sched=150, maxhist=20), F(family="seq", sched=1), F(family="many", sched=1)],
    race=[F(family="conc", sched=5)], extra=[VOL("vshared")]))
PROPS["C05"] = Prop(RULE, concurrent("resd", "ResTrace", [
    F(family="conc", sched=400, tmaxhist=200, maxhist=40), F(family="seq", sched=1)],
    race=[F(family="conc", sched=8)], design=RES, extra=[VOL("vres")]))
PROPS["C06"] = Prop(RULE, concurrent("objd", "LockTrace", [F(family="lock", sched=400, maxhist=60), F(family="lock-long", sched=1, native=True, shards=2)],
    race=[F(family="lock", sched=15, guards=True)], design=SPIN))
PROPS["C07"] = Prop(RULE, concurrent("objd", "OnceTrace", [
    F(family="value", sched=200, maxhist=25), F(family="chan", sched=200, maxhist=25)],
    race=[F(family="value", sched=10), F(family="chan", sched=10)], design=ONCE))
PROPS["C08"] = Prop(RULE, concurrent("objd", "RingTrace", [
    F(family="ring", sched=200, maxhist=30), F(family="ring-seq", sched=1), F(family="ring-long", sched=1)],
    race=[F(family="ring", sched=10)], design=RING))
PROPS["C09"] = Prop(RULE, concurrent("poold", "PoolTrace", [
    F(family="conc", sched=150, maxhist=20), F(family="seq", sched=1)],
    race=[F(family="conc", sched=10)], design=POOL, extra=[VOL("vpool")]))
PROPS["C10"] = Prop(RULE, concurrent("taskd", "DoTrace", [
    F(family="do", sched=200, maxhist=40), F(family="do-timeout", sched=200, maxhist=40)],
    race=[F(family="do", sched=8)], design=DO, extra=[VOL("vdo")]))
PROPS["C11"] = Prop(RULE, concurrent("taskd", "RetryTrace", [F(family="retry", sched=3), F(family="batch", sched=1)], extra=[VOL("vretry")]))
PROPS["C12"] = Prop(RULE, concurrent("taskd", "WorkerTrace", [
    F(family="worker", sched=200, maxhist=40), F(family="meet", sched=200, maxhist=50)],
    race=[F(family="worker", sched=8)], design=WORKER, extra=[VOL("vworker")]))
PROPS["C13"] = Prop(RULE, concurrent("taskd", "BarrierTrace", [
    F(family="write", sched=200, maxhist=25), F(family="read", sched=200, maxhist=25)],
    race=[F(family="write", sched=8), F(family="read", sched=8)], design=BARRIER, extra=[VOL("vbarrier")]))
PROPS["C14"] = Prop(RULE, concurrent("mrd", "MRTrace", [
    F(family="live", sched=200, maxhist=40), F(family="big", sched=40, maxhist=10)],
    race=[F(family="live", sched=8), F(family="big", sched=3)], design=MR, extra=[VOL("vmr")]))
PROPS["C15"] = Prop(RULE, concurrent("mrd", "MRTrace", [
    F(family="cancel", sched=250, maxhist=50)],
    race=[F(family="cancel", sched=8)], design=MR, extra=[VOL("vmrc")]))

SEQ_RULE = ("each scenario is one randomly composed program over the public API with its input; an execution counts as non-trivial "
            "when its recorded history is distinct within its scenario")

PROPS["C16"] = Prop(SEQ_RULE, concurrent("strd", "StreamTrace", [F(family="seq", sched=3, tsched=6)],
    design=STREAM, extra=[LONG("long")]))
PROPS["C17"] = Prop(RULE, concurrent("strd", "WalkTrace", [F(family="walk", sched=120, maxhist=25)],
    race=[F(family="walk", sched=8)], design=STREAM, extra=[LONG("long-par")]))
PROPS["C18"] = Prop(RULE, concurrent("strd", "JoinTrace", [
    F(family="concat", sched=120, maxhist=25), F(family="copy", sched=120, maxhist=25)],
    race=[F(family="concat", sched=8), F(family="copy", sched=8)], design=JOIN, extra=[LONG("long-join")]))
PROPS["C19"] = Prop(SEQ_RULE, concurrent("strd", "StreamTrace", [F(family="term", sched=4, tsched=8)],
    extra=[LONG("long-term")]))
PROPS["C20"] = Prop(RULE, concurrent("strd", "LifeTrace", [
    F(family="life", sched=120, maxhist=15), F(family="crowd", sched=2), F(family="crowd", sched=1, native=True, shards=2)],
    race=[F(family="life", sched=5)], design=STREAM, extra=[LONG("long-life")]))
PROPS["C21"] = Prop(SEQ_RULE, concurrent("seqd", "JoinerTrace", [F(family="joiner", sched=1)]))
PROPS["C22"] = Prop(SEQ_RULE, concurrent("seqd", "CodecTrace", [
    F(family="codec", sched=1), F(family="codec-huge", sched=1), F(family="codec-conc", sched=60, maxhist=10)],
    race=[F(family="codec-conc", sched=10)]))
PROPS["C23"] = Prop(SEQ_RULE, concurrent("seqd", "BufTrace", [
    F(family="io-seq", sched=1), F(family="io", sched=100, maxhist=20)],
    race=[F(family="io", sched=10)], design=IO))
PURE_RULE = ("each history is a batch of 60 calls: first every call of a small scope (all short strings over a few characters with all "
             "positions), then random calls over wide alphabets; all calls are distinct by construction or drawn at random")
PURE_TECH = "TLA+ definitions of the functions; recorded calls of the real code evaluated against them by TLC (small scopes completely, wide ones at random)"
for p, fam in (("C24", "slice"), ("C25", "search"), ("C26", "abbrev"), ("C27", "class"), ("C28", "math")):
    PROPS[p] = Prop(PURE_RULE, concurrent("fund", "StrTrace", [F(family=fam, sched=1)]), technique=PURE_TECH)
