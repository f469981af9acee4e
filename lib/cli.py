"""Checks of the command: C18-C25, C28, C29."""
import json, os
from common import *
from api import Background
import clidrive
import cliscen as S

GEN, REC, CON = ["generate"], ["recover"], ["convert"]


def rep(f, n, start=0):
    """Histories 0..n-1 of a family."""
    return lambda ctx: [(f, "%s-%d" % (f.__name__, i), (i,)) for i in range(start, start + (n if isinstance(n, int) else n(ctx)))]


def traced(f, n):
    """Histories that need the system-call tracer."""
    return lambda ctx: rep(f, n)(ctx) if ctx.tracer else []


def q(quick, thorough):
    return lambda ctx: thorough if ctx.thorough else quick


def options(*kinds, rounds=(1, 4)):
    def jobs(ctx):
        out = []
        for r in range(rounds[1] if ctx.thorough else rounds[0]):
            for kind in kinds:
                out += [(S.option, "option-%s-%d-%d" % (kind, i, r), (i, kind)) for i in range(S.COUNTS[kind])]
        return out
    return jobs


def entries(quick, thorough):
    def jobs(ctx):
        num = thorough if ctx.thorough else quick
        got = scripts(ctx, "GenWordEntry", "GenWordEntry.cfg", num, 40, {}, depth_bound=400)
        ctx.cov["entries_generated"] = len(got)
        ctx.cov["samples"].append({"keys": got[0][:600]})
        return [(S.entry, "entry-%d" % i, (json.loads(g), i)) for i, g in enumerate(got)]
    return jobs


def lines(quick, thorough):
    def jobs(ctx):
        num = thorough if ctx.thorough else quick
        got = scripts(ctx, "GenArgs", "GenArgs.cfg", num, 8, {})
        ctx.cov["command_lines_generated"] = 8 * len(got)
        ctx.cov["samples"].append({"command_lines": [x["argv"] for x in json.loads(got[0])]})
        return [(S.args, "args-%d" % i, (json.loads(g),)) for i, g in enumerate(got)]
    return jobs


PLANS = {
    "C18": dict(fams=[entries(60, 600), rep(S.entry_plain, q(S.NENTRY, 10 * S.NENTRY))], focus=None,
                models=[("MCWordEntry", {}, {"MaxBuf": "6"}), ("MCCli", {"Configs": "KeyConfigs", "MaxRuns": "1"}, {"Configs": "KeyConfigs", "MaxRuns": "2"})]),
    "C19": dict(fams=[rep(S.lines, q(3 * S.NLINES, 24 * S.NLINES)), rep(S.files, q(S.NFILES, 10 * S.NFILES)), traced(S.unreadable, q(4, 40)),
                      rep(S.decorated, q(8, 80)), rep(S.nearly, q(6, 60))], focus=None,
                models=[("MCCli", {"Configs": "LineFew", "MaxRuns": "1"}, {"Configs": "LineFew", "MaxRuns": "2", "MaxCreations": "0"})]),
    "C20": dict(fams=[rep(S.generated, q(32, 320)), rep(S.repeated, q(4, 24)), rep(S.slow, q(4, 16)), rep(S.entropy, q(14, 84)), traced(S.unreadable, q(6, 36))], focus=GEN + GEN + REC,
                models=[("MCCli", {"Configs": "GenConfigs", "MaxCreations": "0"}, {"Configs": "FileConfigs"})]),
    "C21": dict(fams=[rep(S.converted, q(24, 240)), rep(S.convert_places, q(20, 80))], focus=CON + CON + GEN + REC,
                models=[("MCCli", {"Configs": "ChainConfigs", "MaxCreations": "0"}, {"Configs": "ChainConfigs", "MaxRuns": "3", "MaxCreations": "0"})]),
    "C22": dict(fams=[rep(S.wordfile, q(60, 480)), rep(S.appears, q(12, 96)), traced(S.raced, q(12, 96)), traced(S.killed, q(20, 320)),
                      traced(S.faulted, q(9, 72))], focus=GEN + CON,
                models=[("MCCli", {"Configs": "Faulty"}, {"Configs": "FileConfigs"})]),
    "C23": dict(fams=[rep(S.outputs, q(3 * S.NOUT + 19, 20 * S.NOUT)), rep(S.refused, q(S.NREF, 2 * S.NREF)), rep(S.mixed, q(18, 180)), rep(S.noterminal, q(S.NNOTERM, 4 * S.NNOTERM)),
                      traced(S.hangup, q(S.NHANG, 5 * S.NHANG))], focus=GEN + REC + CON,
                models=[("MCCli", {"Configs": "Faulty"}, {"Configs": "FileConfigs"})]),
    "C24": dict(fams=[rep(S.prompts, q(4 * S.NPROMPT, 20 * S.NPROMPT)), rep(S.guesses, q(2 * S.NGUESS, 12 * S.NGUESS)), rep(S.bothprompts, q(6, 60)), rep(S.nearmiss, q(12, 96)), rep(S.noterminal, q(S.NNOTERM, 4 * S.NNOTERM)),
                      traced(S.hangup, q(S.NHANG, 5 * S.NHANG)), traced(S.overtaken, q(6, 24)), rep(S.oddpassword, q(len(S.PASSWORDS), 4 * len(S.PASSWORDS)))], focus=GEN + REC + CON,
                models=[("MCCli", {"Configs": "PromptConfigs", "MaxCreations": "0"}, {"Configs": "PromptConfigs", "MaxCreations": "1"})]),
    "C25": dict(fams=[options("ttl", "badttl", "only", "badonly", "ix", "badix", "name", "cert", "mix"), rep(S.stray, q(S.NSTRAY, 5 * S.NSTRAY)), lines(60, 600)], focus=None,
                models=[("MCOptions", {}, {"MaxLen": "6"}), ("MCArgs", {}, {"MaxArgs": "4"})]),
    "C28": dict(fams=[rep(S.looked, q(96, 960)), traced(S.watched, q(16, 160)), rep(S.generated, q(8, 80)), rep(S.converted, q(6, 60)), rep(S.files, q(S.NFILES, 4 * S.NFILES)),
                      rep(S.outputs, q(S.NOUT, 10 * S.NOUT)), rep(S.guesses, q(S.NGUESS, 4 * S.NGUESS)), rep(S.prompts, q(S.NPROMPT, 4 * S.NPROMPT)), rep(S.mixed, q(12, 120)), rep(S.refused, S.NREF)],
                focus=GEN + REC + CON,
                models=[("MCCli", {"Configs": "ToldConfigs", "MaxCreations": "0"}, {"Configs": "ToldConfigs"})]),
    "C29": dict(fams=[rep(S.helps, q(2 * S.NHELP, 10 * S.NHELP)), rep(S.refused, S.NREF), lines(30, 300)], focus=None,
                models=[("MCArgs", {}, {"MaxArgs": "4"}), ("MCCli", {"Configs": "HelpConfigs", "MaxRuns": "1"}, {"Configs": "HelpConfigs"})]),
}


def models(ctx, plan):
    for module, quick, thorough in plan["models"]:
        c = thorough if ctx.thorough else quick
        model_check(ctx, module, module + ".cfg", c or None, label=module + (" " + c["Configs"] if "Configs" in c else ""), workers=4, timeout=1800)


def listed(prop):
    """The known findings: history family -> what fails."""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            w = l.split(None, 3)
            if l.startswith("known: property=%s history=" % prop):
                out[w[2][len("history="):]] = w[3].strip()
    return out


def excuse(ctx, hs):
    """Takes what a known finding is about, and nothing else, out of its histories."""
    for fam, what in listed(ctx.prop).items():
        mine = [h for h in hs if h["id"].startswith(fam + "-") and "error" not in h]
        n = 0
        for h in mine:
            for e in h["ev"]:
                if e["op"] == "run" and not e["r"]["restored"] and e["r"]["exit"] == "fail":
                    e["r"]["restored"] = True
                    n += 1
        if mine:
            print("KNOWN-FINDING: property=%s %s (in %d of %d attempts)" % (ctx.prop, what, n, len(mine)))
            ctx.cov["known_findings"] = ctx.cov.get("known_findings", []) + [{"finding": what, "attempts": len(mine), "failed": n}]


def record(ctx, jobs, binary, name):
    """Plays the jobs and writes the histories; the driver's own trouble is not the command's."""
    hs = clidrive.play(jobs, binary, ctx.seed, ctx.scratch)
    excuse(ctx, hs)
    t = ctx.path(name)
    with open(t, "w") as f:
        for h in hs:
            if "error" in h:
                raise CheckError("driver failed in %s:\n%s" % (h["id"], h["error"]))
            f.write(json.dumps(h) + "\n")
    ctx.cov["runs"] = ctx.cov.get("runs", 0) + sum(e["op"] == "run" for h in hs for e in h["ev"])
    exits = ctx.cov.setdefault("exits", {})
    for h in hs:
        for e in h["ev"]:
            if e["op"] == "run":
                x = e["cmd"] + " " + e["r"]["exit"]
                exits[x] = exits.get(x, 0) + 1
    return t


def timing(v):
    """Whether the judgement hangs on when the driver believed the command to be waiting."""
    i = v.replay
    if "events" not in i:
        return False
    e = i["events"][-1]
    return e.get("op") == "run" and (e["r"]["exit"] in ("waiting", "hung") or i["property"] in ("C18", "C24"))


def judge(ctx, jobs, binary, name):
    """Plays the jobs and has their histories judged. A machine too busy to keep time can mislead the driver about what the command was
    waiting for, so where that matters a rejected history is played again, three times and on its own: it counts if it is rejected again."""
    t = record(ctx, jobs, binary, name)
    while True:
        try:
            return validate(ctx, "TraceCli", "TraceCli.cfg", t)
        except Violation as v:
            if not timing(v):
                raise
            again = [j for j in jobs if j[1] == v.replay["history"]] * 3
            r = ctx.path("again.ndjson")
            with open(r, "w") as f:
                for j in again:
                    h = clidrive.play([j], binary, ctx.seed, ctx.scratch, workers=1)[0]
                    excuse(ctx, [h])
                    if "error" in h:
                        raise CheckError("driver failed in %s:\n%s" % (h["id"], h["error"]))
                    f.write(json.dumps(h) + "\n")
            try:
                validate(ctx, "TraceCli", "TraceCli.cfg", r)
            except Violation:
                raise v
            print("note: %s was rejected once and accepted three times; the driver had been kept waiting" % v.replay["history"])
            ctx.cov["replayed"] = ctx.cov.get("replayed", 0) + 1
            if ctx.cov["replayed"] > 5:
                raise v
            with open(t) as f:
                keep = [x for x in f if json.loads(x)["id"] != v.replay["history"]]
            with open(t, "w") as f:
                f.writelines(keep)


def check(ctx):
    plan = PLANS[ctx.prop]
    clidrive.RECORD_TEXT = S.WORDS if ctx.prop in ("C28", "C29") else []
    build_prims(ctx)
    binary = build_cli(ctx)
    ctx.tracer = clidrive.can_trace()
    ctx.cov["tracer"] = ctx.tracer
    gen = None
    if plan["focus"]:
        focus = ctx.path("focus.json")
        with open(focus, "w") as f:
            json.dump(plan["focus"], f)
        num, depth = (300, 90) if ctx.thorough else (60, 50)
        gen = Background(lambda: scripts(ctx, "GenCli", "GenCli.cfg", num, depth, {"VERIF_FOCUS": focus}))
    jobs = []
    for f in plan["fams"]:
        jobs += f(ctx)
    judge(ctx, jobs, binary, "families.ndjson")
    m = Background(lambda: models(ctx, plan))
    if gen:
        got = gen.get()
        ctx.cov["scripts_generated"] = len(got)
        ctx.cov["samples"].append({"script": got[0][:1500]})
        judge(ctx, [(S.script, "script-%d" % i, (json.loads(g),)) for i, g in enumerate(got)], binary, "scripts.ndjson")
    m.get()


ASSUMPTIONS = [
    "The Argon2id implementation is replaced by a stand-in that depends on every argument.",
    "SHA-1/SHA-2, HMAC, AES, Ed25519 and X25519 of the JDK are trusted as the oracle's primitives (java/Prim.java).",
    "The driver observes the command through a pseudo-terminal, pipes and the file system; it types only when the command is quiescent.",
]
