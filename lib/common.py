"""Scratch space, builds, TLC: what every check needs. Standard library only."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"

GOENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off")


class CheckError(Exception):
    """The check itself could not do its work (exit status 2)."""


class Violation(Exception):
    """The code under check did something the specification does not allow."""
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(self.cleanup)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "trace_states": 0, "samples": [], "models": []}

    def cleanup(self):
        subprocess.run(["chmod", "-R", "u+rwx", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    @property
    def thorough(self):
        return self.tier == "thorough"


def run(cmd, timeout=600, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    kw.setdefault("stdin", subprocess.DEVNULL)
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


# ------------------------------------------------------------------ Go builds

def _copy_tree(src, dst):
    shutil.copytree(src, dst)
    for d, _, fs in os.walk(dst):
        os.chmod(d, 0o755)
        for f in fs:
            os.chmod(os.path.join(d, f), 0o644)


def crypto_version():
    with open(os.path.join(REPO, "go.mod")) as f:
        m = re.search(r"golang\.org/x/crypto\s+(v\S+)", f.read())
    if not m:
        raise CheckError("/repo/go.mod does not require golang.org/x/crypto")
    return m.group(1)


def stand_in(ctx):
    """A copy of x/crypto whose argon2 is a fast stand-in (harness/stub)."""
    dst = ctx.path("xcrypto")
    if not os.path.isdir(dst):
        cache = subprocess.run(["go", "env", "GOMODCACHE"], env=GOENV, capture_output=True, text=True).stdout.strip()
        _copy_tree(os.path.join(cache, "golang.org/x/crypto@" + crypto_version()), dst)
        a = os.path.join(dst, "argon2")
        shutil.rmtree(a)
        os.mkdir(a)
        shutil.copy(os.path.join(VERIF, "harness/stub/argon2.go"), a)
    return dst


def build_api(ctx, real=False, race=False):
    """The API harness, linked against /repo's working tree."""
    d = ctx.path("src-real" if real else "src-api")
    if not os.path.isdir(d):
        os.mkdir(d)
        src = os.path.join(VERIF, "harness/api")
        for f in os.listdir(src):
            if f.endswith(".go"):
                shutil.copy(os.path.join(src, f), d)
        with open(os.path.join(REPO, "go.mod")) as f:
            mod = f.read()
        reqs = "".join("\t%s %s\n" % m for m in re.findall(r"^\s*(?:require\s+)?([\w./-]+\.[\w./-]+) (v[\w.+-]+)", mod, re.M))
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module verif/api\n\ngo 1.20\n\nrequire (\n\tgithub.com/kklash/mnemonikey v0.0.0\n%s)\n\n" % reqs)
            f.write("replace github.com/kklash/mnemonikey => %s\n" % REPO)
            if not real:
                f.write("replace golang.org/x/crypto => %s\n" % stand_in(ctx))
        shutil.copy(os.path.join(REPO, "go.sum"), d)
    out = ctx.path("api" + ("-real" if real else "") + ("-race" if race else ""))
    rc, o, e = run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=d, env=GOENV, timeout=600)
    if rc != 0:
        raise CheckError("building the API harness failed:\n" + e.decode(errors="replace"))
    return out


def build_cli(ctx, race=False, real=False):
    """The mnemonikey command from /repo's working tree, with the Argon2id stand-in."""
    out = ctx.path("mnemonikey" + ("-race" if race else "") + ("-real" if real else ""))
    mod = ctx.path("climod.mod" if not real else "climod-real.mod")
    with open(os.path.join(REPO, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(text)
        if not real:
            f.write("\nreplace golang.org/x/crypto => %s\n" % stand_in(ctx))
    shutil.copy(os.path.join(REPO, "go.sum"), mod[:-3] + "sum")
    rc, o, e = run(["go", "build"] + (["-race"] if race else []) + ["-modfile", mod, "-o", out, "./cmd/mnemonikey"], cwd=REPO, env=GOENV, timeout=600)
    if rc != 0:
        raise CheckError("building the command failed:\n" + e.decode(errors="replace"))
    return out


# ------------------------------------------------------------------------ TLC

def build_prims(ctx):
    cls = ctx.path("cls")
    if not os.path.isdir(cls):
        os.mkdir(cls)
        rc, o, e = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", cls, os.path.join(VERIF, "java/Prim.java")])
        if rc != 0:
            raise CheckError("javac failed: " + e.decode(errors="replace"))
    return cls


_n = 0


def tlc(ctx, module, cfg, env=None, args=(), workers=8, timeout=800, heap="6g"):
    """Runs TLC in the specification directory; returns its output."""
    global _n
    _n += 1
    md = ctx.path("md%d" % _n)
    cp = ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", build_prims(ctx), SPEC])
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + ctx.scratch, "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", *args, "-config", cfg, module + ".tla"]
    rc, out, err = run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    out = out.decode(errors="replace")
    if rc is None:
        raise CheckError("TLC ran out of time on %s (%s)\n%s" % (module, cfg, out[-2000:]))
    return rc, out + err.decode(errors="replace")


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def set_constants(ctx, cfg, consts, name):
    """A copy of a committed configuration with some constants replaced."""
    with open(os.path.join(SPEC, cfg)) as f:
        text = f.read()
    for k, v in consts.items():
        text, n = re.subn(r"(?m)^(  %s (?:=|<-)) .*$" % k, lambda m: m.group(1) + " " + v, text)
        if n != 1:
            raise CheckError("no constant %s in %s" % (k, cfg))
    p = ctx.path(name)
    with open(p, "w") as f:
        f.write(text)
    return p


def model_check(ctx, module, cfg, consts=None, workers=4, label=None, timeout=800):
    """Explores a model completely. A violated property of the model is an error of the specification."""
    c = set_constants(ctx, cfg, consts, "mc%d-%s.cfg" % (len(ctx.cov["models"]), module)) if consts else os.path.join(SPEC, cfg)
    t = time.time()
    rc, out = tlc(ctx, module, c, workers=workers, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking %s did not succeed:\n%s" % (label or module, out[-4000:]))
    gen, dist = counts(out)
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["models"].append({"model": label or module, "constants": consts or {}, "distinct_states": dist,
                              "states_generated": gen, "complete": True, "wall_s": round(time.time() - t, 1)})


EVAL = re.compile(r"(Error: (?:Evaluating|Attempted|The (?:first|second|behavior)|In (?:evaluation|applying|computing))|TLC threw an unexpected exception"
                  r"|Attempted to|was not in the domain|The exception was)")


def validate(ctx, module, cfg, traces, env=None, describe=None, workers=8, timeout=800):
    """Are the recorded histories behaviours of the specification? Raises Violation if not."""
    e = {"VERIF_TRACES": traces, "VERIF_WORDLIST": os.path.join(SPEC, "wordlist.json"), "VERIF_PROP": ctx.prop}
    e.update(env or {})
    n = ev = 0
    with open(traces) as f:
        for line in f:
            n += 1
            h = json.loads(line)
            ev += len(h["ev"])
            if n == 1:
                s = json.dumps(h["ev"][min(1, len(h["ev"]) - 1)])
                ctx.cov["samples"].append({"history": h["id"], "event": s[:1500]})
    if n == 0:
        raise CheckError("no histories to validate in " + traces)
    rc, out = tlc(ctx, module, os.path.join(SPEC, cfg), env=e, workers=workers, timeout=timeout)
    gen, dist = counts(out)
    if rc == 0 and "No error has been found" in out:
        ctx.cov["traces_validated_against_impl"] += n
        ctx.cov["events_validated"] += ev
        ctx.cov["trace_states"] += dist
        return
    if "OutOfMemory" in out or "StackOverflow" in out:
        raise CheckError("TLC ran out of memory:\n" + out[-3000:])
    kind = None
    if "Deadlock reached" in out:
        kind = "call not allowed by the specification"
    elif re.search(r"Invariant \w+ is violated", out):
        kind = "history breaks a relational property"
    elif EVAL.search(out):
        kind = "result outside the specification's domain"
    if kind is None:
        raise CheckError("TLC failed on the recorded histories:\n" + out[-4000:])
    idx = re.findall(r"/\\ (?:index|t) = (\d+)", out)
    at = re.findall(r"/\\ (?:event|l) = (\d+)", out)
    info = {"property": ctx.prop, "kind": kind, "seed": ctx.seed, "tier": ctx.tier, "tlc": out[-3000:]}
    if idx:
        with open(traces) as f:
            h = json.loads(f.readlines()[int(idx[-1]) - 1])
        k = int(at[-1])
        info.update(history=h["id"], event=k, events=h["ev"][:k])
        what = "%s: history %s, event %d (%s)" % (kind, h["id"], k, h["ev"][k - 1].get("op") if k <= len(h["ev"]) else "end")
    else:
        what = kind
    raise Violation(what, info)


def scripts(ctx, module, cfg, num, depth, env, consts=None, depth_bound=None):
    """Random behaviours of a specification, as scripts (one JSON text each)."""
    c = set_constants(ctx, cfg, consts, "gen.cfg") if consts else os.path.join(SPEC, cfg)
    e = dict(env, VERIF_DEPTH="x" * depth, VERIF_WORDLIST=os.path.join(SPEC, "wordlist.json"))
    rc, out = tlc(ctx, module, c, env=e, workers=1,
                  args=["-simulate", "num=%d" % num, "-depth", str(depth_bound or depth + 1), "-seed", str(ctx.seed)])
    got = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            got.append(json.loads(line)[7:])
    if len(got) < num // 2:
        raise CheckError("the generator produced %d of %d scripts:\n%s" % (len(got), num, out[-3000:]))
    return got


# ------------------------------------------------------------------- reporting

def save_replay(prop, info):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "replay-%s.json" % prop)
    with open(p, "w") as f:
        json.dump(info, f, indent=1)
    return p


def save_evidence(ctx, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": ctx.cov,
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
