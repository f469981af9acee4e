"""Checks of the library: C01-C17, C26, C27."""
import json, os, threading
from common import *

# What each property's check runs: families of systematic histories, the operations its random
# histories concentrate on, and the model explored.
BASE = ["newseed", "genseed"]
PHR = BASE + ["encplain", "encenc", "decode", "decode", "seedof", "decrypt"]
KEY = BASE + ["encplain", "encenc", "decode", "seedof", "decrypt", "newkey", "samekey", "recover"]
EXP = ["newseed", "encplain", "decode", "seedof", "newkey", "newkey", "samekey", "recover", "export", "exportpw", "export"]

PLANS = {
    "C01": dict(fams="bits,offsets,chains,relatives", focus=PHR + ["encplain", "newkey", "look"], model="phrases"),
    "C02": dict(fams="encrypted,ciphers,offsets,guesses,chains,passwords,relatives", focus=PHR + ["encenc", "decrypt", "newkey"], model="phrases"),
    "C03": dict(fams="bits,offsets,encrypted,ciphers,forged,passwords,relatives", focus=PHR, model="phrases", real=True),
    "C04": dict(fams="words,edits,forged,wordsweep", focus=PHR + ["decodeany", "decodeany", "parsever", "recoverany"], model="phrases"),
    "C05": dict(fams="encrypted,ciphers,guesses,forged,passwords,relatives", focus=PHR + ["encenc", "decrypt", "decrypt", "recover"], model="phrases"),
    "C06": dict(fams="chains,ciphers,times,repeat,relatives", focus=KEY + ["export", "samekey", "recover"], model="keys", again=True),
    "C07": dict(fams="indices,times,oddnumbers,edgebytes,exports,relatives,deepnumbers", focus=EXP, model="keys", real=True),
    "C08": dict(fams="indexsweep,indices,uids,ttls,relatives", focus=KEY + ["newkey", "newkey"], model="keys"),
    "C09": dict(fams="times,offsets,exports,relatives", focus=KEY + ["export"], model="keys"),
    "C10": dict(fams="ttls,times", focus=KEY + ["newkey", "export", "export"], model="keys"),
    "C11": dict(fams="exports,oddnumbers,edgebytes,uids,ttls,indices,deepnumbers", focus=EXP, model="exports"),
    "C12": dict(fams="exports,oddnumbers,uids,deepnumbers", focus=EXP + ["export", "exportpw"], model="exports"),
    "C13": dict(fams="exports,oddnumbers,nonces,locks,deepnumbers", focus=EXP + ["exportpw", "exportpw"], model="exports"),
    "C14": dict(fams="exports,uids,indices", focus=EXP, model="exports"),
    "C15": dict(fams="repeat,exports,oddnumbers,chains,relatives", focus=EXP + ["export", "look"], model="exports", concurrent=True),
    "C16": dict(fams="aliases,repeat,codec", focus=KEY + ["scribble", "look", "look", "scribble", "export", "exportpw"], model="looks"),
    "C17": dict(fams="sources,salts,bits", focus=PHR + ["newseed", "genseed", "encenc"], model="phrases"),
    "C26": dict(fams="codec,codecwords", focus=None, model="codec"),
    "C27": dict(fams="pgpkeys,pgpsets,pgpblocks,pgpsigs", focus=None, model="pgp", trace="TracePgp", argon=False),
}

OPS_PHR = '{"newseed", "genseed", "encplain", "encenc", "decode", "seedof", "decrypt"}'
OPS_LOOK = '{"newseed", "genseed", "encplain", "encenc", "decode", "seedof", "decrypt", "newkey", "look"}'
OPS_KEYS = '{"newseed", "encplain", "newkey", "recover"}'
OPS_FULL = '{"newseed", "encplain", "encenc", "decode", "seedof", "decrypt", "newkey", "recover"}'
OPS_EXP = '{"newseed", "newkey", "export"}'


def mc(seeds, phrases, decs, keys, exports, ops, opts="TwoOpts", passwords='{"p", "q"}'):
    return dict(MaxSeeds=str(seeds), MaxPhrases=str(phrases), MaxDecs=str(decs), MaxKeys=str(keys),
                MaxExports=str(exports), Ops=ops, KeyOpts=opts, Passwords=passwords)


MODELS = {
    ("phrases", "quick"): [mc(2, 2, 1, 0, 0, OPS_PHR)],
    ("phrases", "thorough"): [mc(2, 2, 2, 0, 0, OPS_PHR), mc(3, 1, 2, 0, 0, OPS_PHR, passwords='{"p", "q", "r"}')],
    ("looks", "quick"): [mc(2, 1, 1, 1, 0, OPS_LOOK)],
    ("looks", "thorough"): [mc(2, 2, 1, 1, 0, OPS_LOOK)],
    ("keys", "quick"): [mc(2, 1, 0, 2, 0, OPS_KEYS, "FewOpts")],
    ("keys", "thorough"): [mc(2, 1, 0, 2, 0, OPS_KEYS, "FewOpts"), mc(2, 1, 1, 2, 0, OPS_FULL)],
    ("exports", "quick"): [mc(1, 0, 0, 1, 2, OPS_EXP, "SomeOpts")],
    ("exports", "thorough"): [mc(1, 0, 0, 1, 2, OPS_EXP, "SomeOpts"), mc(1, 0, 0, 2, 2, OPS_EXP)],
}


def models(ctx, which):
    if which == "codec":
        model_check(ctx, "MCCodec", "MCCodec.cfg", dict(CWordBits="3", MaxSize="10" if ctx.thorough else "8"), label="word codec")
        return
    if which == "pgp":
        model_check(ctx, "MCPgp", "MCPgp.cfg", label="key sets")
        if ctx.thorough:
            model_check(ctx, "MCPgp", "MCPgp.cfg", dict(MaxKeys="2", MaxOuts="2", SeedsPerKey="2"), label="key sets taken apart")
        return
    for c in MODELS[which, ctx.tier]:
        model_check(ctx, "MCMnemonikey", "MCMnemonikey.cfg", c, label="library, " + which)


class Background(threading.Thread):
    """Runs f; join() re-raises what f raised."""
    def __init__(self, f):
        super().__init__(daemon=True)
        self.f, self.exc, self.val = f, None, None
        self.start()

    def run(self):
        try:
            self.val = self.f()
        except BaseException as e:
            self.exc = e

    def get(self):
        self.join()
        if self.exc:
            raise self.exc
        return self.val


def harness(ctx, binary, args, env=None):
    rc, o, e = run([binary] + args, timeout=400, cwd=ctx.scratch, env=dict(os.environ, **(env or {})))
    if rc != 0:
        err = e.decode(errors="replace")
        if "harness:" in err:
            raise CheckError("harness failed: " + err[-2000:])
        raise Violation("the calls of this run do not complete" if rc is None else "the library brings the process down",
                        {"property": ctx.prop, "command": args, "stderr": err[-6000:]})
    return o.decode(errors="replace"), e.decode(errors="replace")


# What must not matter: each process of a run gets other surroundings.
SURROUNDINGS = [{}, {"GOMAXPROCS": "1", "TZ": "Asia/Kathmandu"}, {"GOMAXPROCS": "2", "LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"},
                {"GOMAXPROCS": "3", "TZ": "America/St_Johns", "GOGC": "20"}, {"TZ": "Pacific/Apia", "HOME": "/nonexistent"},
                {"GOMAXPROCS": "16", "TZ": "UTC", "LC_ALL": "C", "USER": "nobody"}]


def sharded(ctx, binary, args, out, shards=6, env=None):
    """Splits the histories over several processes; within each they run one after another."""
    js = [Background(lambda i=i: harness(ctx, binary, args + ["-shard", str(i), "-shards", str(shards), "-out", "%s.%d" % (out, i)],
                                         env or SURROUNDINGS[i % len(SURROUNDINGS)]))
          for i in range(shards)]
    for j in js:
        j.join()
    for j in js:
        j.get()
    nonces = []
    with open(out, "w") as f:
        for i in range(shards):
            with open("%s.%d" % (out, i)) as g:
                for line in g:
                    if line.startswith('{"ev":[{"op":"noncesweep"'):      # what several processes drew is judged together
                        nonces += json.loads(line)["ev"][0]["raws"]
                    else:
                        f.write(line)
            os.unlink("%s.%d" % (out, i))
        if nonces:
            f.write(json.dumps({"id": "nonces", "ev": [{"op": "noncesweep", "raws": nonces}]}) + "\n")


def check(ctx):
    plan = PLANS[ctx.prop]
    build_prims(ctx)
    jobs = [Background(lambda: models(ctx, plan["model"]))]
    gen = None
    if plan["focus"]:
        focus = ctx.path("focus.json")
        with open(focus, "w") as f:
            json.dump(plan["focus"], f)
        num, depth = (600, 18) if ctx.thorough else (160, 14)
        gen = Background(lambda: scripts(ctx, "GenApi", "GenApi.cfg", num, depth, {"VERIF_FOCUS": focus}))
    common = ["-seed", str(ctx.seed)] + (["-thorough"] if ctx.thorough else [])
    api = build_api(ctx)

    t = ctx.path("families.ndjson")
    sharded(ctx, api, ["-families", plan["fams"]] + common, t)
    module = plan.get("trace", "TraceApi")
    validate(ctx, module, module + ".cfg", t)

    if plan.get("again"):          # what one process wrote down, another one recovers
        t2 = ctx.path("again.ndjson")
        sharded(ctx, api, ["-again", t] + common, t2)
        validate(ctx, "TraceApi", "TraceApi.cfg", t2)
        with open(t2) as f:
            ctx.cov["histories_continued_in_another_process"] = sum(1 for _ in f)

    if gen:
        s = ctx.path("scripts.txt")
        got = gen.get()
        with open(s, "w") as f:
            f.write("\n".join(got) + "\n")
        ctx.cov["scripts_generated"] = len(got)
        ctx.cov["samples"].append({"script": got[0][:1500]})
        t = ctx.path("scripts.ndjson")
        sharded(ctx, api, ["-scripts", s] + common, t)
        validate(ctx, "TraceApi", "TraceApi.cfg", t)

    if plan.get("concurrent"):
        race = build_api(ctx, race=True)
        t = ctx.path("concurrent.ndjson")
        n = 40 if ctx.thorough else 8
        _, err = harness(ctx, race, ["-concurrent", str(n), "-out", t] + common, {"GORACE": "halt_on_error=0 exitcode=0"})
        if "DATA RACE" in err:
            raise Violation("data race between concurrent calls", {"property": ctx.prop, "report": err[:8000]})
        ctx.cov["concurrent_groups"] = n
        validate(ctx, "TraceApi", "TraceApi.cfg", t)
        # another process derives the same bytes
        t2 = ctx.path("again.ndjson")
        sharded(ctx, api, ["-families", "repeat"] + common, t2)
        t3 = ctx.path("again2.ndjson")
        sharded(ctx, api, ["-families", "repeat"] + common, t3, env={"GOMAXPROCS": "1", "TZ": "America/New_York"})
        with open(t2) as a, open(t3) as b:
            if unprotected(a) != unprotected(b):
                raise Violation("two processes disagree on the same history", {"property": ctx.prop, "family": "repeat"})

    if plan.get("argon", True) and (plan.get("real") or ctx.thorough):
        r = build_api(ctx, real=True)
        t, facts = ctx.path("real.ndjson"), ctx.path("facts.json")
        if ctx.prop != "C26":
            harness(ctx, r, ["-real", "-families", "real", "-facts", facts, "-out", t] + common)
            validate(ctx, "TraceApi", "TraceApi.cfg", t, env={"VERIF_FACTS": facts})
            with open(facts) as f:
                ctx.cov["real_argon2id_values"] = len(json.load(f))
    for j in jobs:
        j.get()


def unprotected(f):
    return [[e["r"]["raw"] for e in json.loads(l)["ev"] if e["op"] == "export" and e["req"]["pw"] == "" and not e["req"]["armor"]] for l in f]


ASSUMPTIONS = [
    "The Argon2id implementation is replaced by a stand-in that depends on every argument, except in the runs counted by real_argon2id_values.",
    "SHA-1/SHA-2, HMAC, AES, Ed25519 and X25519 of the JDK are trusted as the oracle's primitives (java/Prim.java).",
]
