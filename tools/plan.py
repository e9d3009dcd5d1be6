"""What each property's check runs."""


def drv(*profiles, n=90, steps=50, thorough=(400, 60)):
    """Shards: each profile of the random driver, judged by DocTrace."""
    def f(tier, seed):
        out = []
        for k, p in enumerate(profiles):
            p, _, nn = p.partition("@")       # profile*parts@traces
            nn = int(nn or n)
            p, parts = (p.split("*") + ["1"])[:2]
            for i in range(int(parts) if tier == "quick" else 8 * int(parts)):
                out.append(dict(name=f"{p}-{i}", module="DocTrace",
                                args=["drive", p, seed * 1000 + i * 31 + k, nn if tier == "quick" else 250,
                                      steps if tier == "quick" else thorough[1]]))
        return out
    return f


RULE = ("random operation histories over many profiles run on the real library; every call's result and full "
        "observable state is one line, judged by one TLC step against the specification")
MC = "TLC explores the model exhaustively within its bounds, checks its invariants, and every transition it finds is " \
     "replayed into the real code and compared"


def mc(name, module, cfg, replay, **k):
    return dict(name=name, module=module, cfg=cfg, replay=[replay], **k)


def sim(name, module, cfg, replay, num, depth, seed=1, **k):
    """Random behaviours of the specification, deeper than the exhaustive search, replayed the same way."""
    return dict(name=name, module=module, cfg=cfg, replay=[replay],
                extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)), **k)


def opdrive(parts, n):
    """Histories of imports, exports, cancels and waits through the public handle, judged by OpTrace."""
    def f(tier, seed):
        return [dict(name=f"op-{i}", module="OpTrace", hang_is_violation=True,
                     args=["opdrive", seed * 1000 + i, n if tier == "quick" else 6 * n, 40])
                for i in range(parts)]
    return f


def none(tier, seed):
    return []


PLAN = {
    "P01": dict(shards=drv("edit*2", "block", "cursor", "undo", "list", "frag", "fail"), rule=RULE),
    "P02": dict(shards=drv("fmt*3", "edit", "undo", "block", "event"), rule=RULE),
    "P03": dict(shards=drv("block*3", "list*2", "undo", "event", "frag"), rule=RULE),
    "P04": dict(shards=drv("cursor*3", "edit", "undo", "repl", "frag", "reset", "table@60"), rule=RULE),
    "P05": dict(shards=drv("undo*3", "group*4@25", "list", "frag", "fmt", "repl"), rule=RULE),
    "P06": dict(shards=drv("group*8@25", "undo*3", "edit", "repl"), rule=RULE),
    "P07": dict(shards=drv("event*3", "undo", "list", "frag", "repl", "block", "table@60"), rule=RULE),
    "P08": dict(shards=drv("event*2", "undo", "list", "frag", "meta", "fail"), rule=RULE + "; " + MC, env={"VH_CB": "1"},
                models=lambda t: [
                    mc("events", "Events", "Events.cfg" if t == "quick" else "EventsDeep.cfg", "eventsmc"),
                    sim("events-long", "Events", "EventsSim.cfg", "eventsmc", 150 if t == "quick" else 1500, 30)]),
    "P09": dict(shards=drv("view*4", "undo", "frag", "list", "reset", "tabx@60"), rule=RULE),
    "P10": dict(shards=drv("nav*6", "cursor*2"), rule=RULE),
    "P11": dict(shards=drv("search*8"), rule=RULE),
    "P12": dict(shards=drv("repl*6", "undo", "fmt"), rule=RULE),
    "P13": dict(shards=drv("list*4", "undo", "group*2@25", "frag", "fail"), rule=RULE),
    "P14": dict(shards=drv("table*2@60"), rule=RULE + "; " + MC, models=lambda t: [
        mc("table", "Table", "Table.cfg" if t == "quick" else "TableDeep.cfg", "tablemc"),
        sim("table-long", "Table", "TableSim.cfg", "tablemc", 20 if t == "quick" else 400, 10)]),
    "P15": dict(shards=drv("table*6@60", "tabx*2@60"), rule=RULE),
    "P16": dict(shards=drv("frag*7", "list", "tabx@60"), rule=RULE),
    "P17": dict(shards=drv("reset*6"), rule=RULE),
    "P19": dict(shards=opdrive(4, 100), rule=RULE + "; " + MC, models=lambda t: [
        mc("longop", "LongOp", "LongOp.cfg" if t == "quick" else "LongOpDeep.cfg", "longopmc"),
        sim("longop-long", "LongOp", "LongOpSim.cfg", "longopmc", 100 if t == "quick" else 1000, 40)]),
    "P20": dict(shards=none, rule=MC, models=lambda t: [
        mc("undo", "Undo", "Undo.cfg" if t == "quick" else "UndoDeep.cfg", "undomc", xmx="10g"),
        sim("undo-long", "Undo", "UndoSim.cfg", "undomc", 1500 if t == "quick" else 6000, 40)]),
    "P21": dict(shards=drv("fail*4", "repl", "list", "frag", "edit"), rule=RULE),
    "P22": dict(shards=drv("hl*6"), rule=RULE + "; " + MC, env={"VH_HL": "1"}, models=lambda t: [
        mc("spans", "Spans", "Spans.cfg" if t == "quick" else "SpansDeep.cfg", "spansmc"),
        mc("cascade", "Cascade", "Cascade.cfg" if t == "quick" else "CascadeDeep.cfg", "cascademc"),
        sim("cascade-long", "Cascade", "CascadeSim.cfg", "cascademc", 40 if t == "quick" else 400, 15)]),
    "P23": dict(shards=drv("edit", "block", "frag", "list", "undo", "reset"), rule=RULE + "; " + MC, env={"VH_ROPE": "1"},
                models=lambda t: [
                    mc("rope", "Rope", "Rope.cfg" if t == "quick" else "RopeDeep.cfg", "ropemc"),
                    sim("rope-long", "Rope", "RopeSim.cfg", "ropemc", 100 if t == "quick" else 600, 40)]),
    "P24": dict(shards=drv("meta*5", "reset", "undo", "group*3@25"), rule=RULE, env={"VH_RES": "1"}),
    "P26": dict(shards=drv("fmt*2", "edit", "repl", "frag", "undo"), rule=RULE + "; " + MC, env={"VH_ROPE": "1"},
                models=lambda t: [
                    mc("runs", "Runs", "Runs.cfg" if t == "quick" else "RunsDeep.cfg", "runsmc"),
                    mc("inline", "Inline", "Inline.cfg" if t == "quick" else "InlineDeep.cfg", "inlinemc")]),
}
NOT_APPLICABLE = {}
