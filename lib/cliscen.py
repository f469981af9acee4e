"""Scenarios for the command: histories of runs, each a function of (History, ...)."""
import json, os, time, zlib
from clidrive import line, keys, pause, touch, INT, EOF, hx, l1

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
with open(os.path.join(SPEC, "wordlist.json")) as f:
    WORDS = json.load(f)
WINS = [(24, 80), (0, 0), (1, 1), (5, 3), (200, 1000), (24, 12), (65535, 65535)]


def plain_phrase(seed, off):
    """A plaintext phrase (only used to have inputs; the specification decides what they mean)."""
    bits = "0000" + "".join("{:08b}".format(b) for b in seed) + "{:031b}".format(off)
    payload = int(bits, 2).to_bytes((len(bits) + 7) // 8, "big")
    bits += "{:05b}".format(zlib.crc32(payload) & 31)
    return [WORDS[int(bits[i:i + 12], 2)] for i in range(0, 168, 12)]


def some_seed(rng):
    k = rng.randrange(8)
    if k == 0:
        return bytes(16)
    if k == 1:
        return b"\xff" * 16
    if k == 2:
        return bytes(rng.randrange(1, 4)) + rng.randbytes(16)[rng.randrange(1, 4):][:16].ljust(16, b"\1")[:13]
    return rng.randbytes(16)


def some_off(rng):
    return rng.choice([0, 1, 2**31 - 1, 60 * 60 * 24, rng.randrange(2**31), rng.randrange(2**31), rng.randrange(2**27)])


def seed16(rng):
    s = some_seed(rng)
    return (s + bytes(16))[:16]


def fresh_plain(rng):
    return plain_phrase(seed16(rng), some_off(rng))


PASSWORDS = ["a", "correct horse", " leading and trailing ", "p\u00e4ssw\u00f6rd \u2603", "x" * 70, "q" * 300, "-", "\t tab", "0", "P@$$w0rd!\"'\\",
             "caf\u00e9", "cafe\u0301", "same", "Same", "same ", " ", "   ", "\t", "\u00a0", "\u3000\u3000",
             "raw\udc80\udcff\udcc3", "\udce9t\udce9", "bell\x07\x01\x0b\x0c", "w" * 1000, "\u00e9" * 150, "\ufeffmark", "\x01"]


def pwset(rng, n=3):
    return rng.sample(PASSWORDS, n)


def got(h):
    """The phrase the last run handed out, or a stand-in when it handed out none."""
    if h.ev[-1]["op"] == "run":
        e = h.ev[-1]
        if h.out:
            for f in e["r"]["files"]:
                if f["path"] == l1(h.out) and f["kind"] == "file" and not f["hex"].startswith("sha"):
                    w = bytes.fromhex(f["hex"]).decode("latin-1").split()
                    if len(w) in (14, 16):
                        return w
        if len(e["r"]["words"]) in (14, 16):
            return e["r"]["words"]
    return fresh_plain(h.rng)


# ----------------------------------------------------------------- C18: interactive entry

def entry(h, script, k):
    cmd = ["recover", "convert", "recover"][k % 3]
    ks = "".join(script["keys"])
    chunk = k % 4
    if chunk == 0:
        items = [keys(bytes.fromhex(x)) for x in script["keys"]]
    elif chunk == 1:
        items = [keys(bytes.fromhex(ks))]
    elif chunk == 2:
        b = bytes.fromhex(ks)
        items = [keys(b[i:i + 1]) for i in range(len(b))]
    else:
        b = bytes.fromhex(ks)
        items, i = [], 0
        while i < len(b):
            n = h.rng.randrange(1, 12)
            items.append(keys(b[i:i + n]))
            i += n
    items = [i for i in items if i["hex"]]
    if script["locked"]:
        items += [line("nope"), line("pw")]
    h.run(cmd, {}, items, win=WINS[k % len(WINS)])


def entry_plain(h, k):
    """Hand-made entries: the corner cases of the prompt, always ending with a valid phrase or an abort."""
    rng = h.rng
    ws = fresh_plain(rng)
    other = rng.choice(WORDS)
    lockw = WORDS[rng.randrange(256, 512)]
    bad = WORDS[rng.randrange(512, 4096)]
    L = "\x1b[D"
    ent = lambda w: w + rng.choice("\r ")
    rest = "".join(ent(w) for w in ws[1:])
    whole = "".join(ent(w) for w in ws)
    cases = [
        whole,
        L + L + "abc" + L + whole,                                               # the arrow on the first position
        ent(lockw) + ent(other) + L + L + whole,                                 # from a 16-word phrase to a 14-word one
        ent(lockw) + "".join(ent(rng.choice(WORDS)) for _ in range(14)) + L * 15 + whole,
        ent(bad) + "\x7f" * len(bad) + whole,                                    # unsupported version
        ent(bad) * 3 + "\x7f" * len(bad) + whole,
        "zzzz\r\x7f\x7f\x7f\x7f" + whole,                                        # no such word
        "\r \t\r" + whole,                                                       # nothing typed
        "\x7f\x7f" + ent(ws[0]) + "\x7f" + rest,                                 # backspace on an empty word
        ent(ws[0]) + "".join(ent(other) + L + ent(w) for w in ws[1:-1]) + ent(ws[-1]),
        "".join(ent(w) for w in ws[:7]) + L * 7 + whole,
        "".join(ent(w) for w in ws[:13]) + L * 13 + L * 3 + whole,
        "".join(ent(w) for w in ws[:13]) + "aa" + L + ent(ws[12]) + ent(ws[13]),
        "".join(w[:-1] + "\x7f" + w[-2:] + ent("") for w in ws) if all(len(w) > 2 for w in ws) else whole,
        "\x1b[A\x1b[B\x1b[C12!?AZ" + whole,
        "".join(w + "\t" + ent("") for w in ws),
        "".join(w + "\t\t" + ent("") for w in ws),
        "".join(ent(w) for w in ws[:13]) + ent(ws[13] + "zz") + "\x7f\x7f" + ent(""),
        "".join(ent(w) for w in ws[:5]) + "\x03",
        "\x04",
        "ab\x03",
        "".join(ent(w) for w in ws[:13]) + ws[13] + "\x04",
        "".join(ent(w) for w in ws[:13]),                                        # left waiting
        ent(ws[0]) + L + ent(lockw) + L + ent(ws[0]) + rest,
        "z" * 150 + "\r" + "\x7f" * 150 + whole,                                  # a very long word
        ent(ws[0]) + "".join("q" * 70 + "\t \r" + "\x7f" * 70 + ent(w) for w in ws[1:]),
        ws[0] + "z" * 100 + "\x7f" * 100 + "\r" + "".join(w + "z" * n + "\x7f" * n + ent("") for n, w in enumerate(ws[1:], 20)),
        (ent(bad) + "\x7f" * len(bad)) * 9 + whole,
        ("zzz\r\x7f\x7f\x7f") * 12 + whole,
        "".join(ent(w) for w in ws[:13]) + (L + ent(ws[12])) * 9 + ent(ws[13]),
    ]
    s = cases[k % len(cases)]
    h.run(["recover", "convert"][(k // len(cases)) % 2], {}, [keys(s)])


NENTRY = 30


# ----------------------------------------------------------------- C19: line and file input

def odd_case(rng, w):
    return "".join(c.upper() if rng.random() < 0.5 else c for c in w)


def lines(h, k):
    rng = h.rng
    ws = fresh_plain(rng)
    bad = WORDS[rng.randrange(512, 4096)]
    blanks = [" ", "\t", "  ", "\u00a0", "\u3000", "\v", ""]
    pad = lambda w: rng.choice(blanks) + w + rng.choice(blanks)
    flip = lambda w: WORDS[WORDS.index(w) ^ (1 << rng.randrange(5))]
    cases = [
        ws,
        [odd_case(rng, w) for w in ws],
        [pad(w) for w in ws],
        [pad(odd_case(rng, w)) for w in ws],
        ["", " ", ws[0]] + [x for w in ws[1:] for x in rng.choice([[w], ["", w], ["zzz", w], [w[:-1] + "~", w]])],
        [bad, bad.upper(), ws[0]] + ws[1:],                                      # unsupported version
        [ws[0] + " " + ws[1]] + ws,                                              # two words on a line
        [ws[0][:3] if ws[0][:3] not in WORDS else "zq"] + ws,                    # abbreviations do not count
        ws[:rng.randrange(14)] + [None],                                         # ends early
        ws[:13] + [None],
        [None],
        ws[:13] + [flip(ws[13])],                                                # checksum
        [ws[1]] + [ws[0]] + ws[2:] if ws[0] != ws[1] else ws,
        ws[:6] + [flip(ws[6])] + ws[7:],
        [WORDS[rng.randrange(256, 512)]] + ws[1:] + [ws[3], ws[4]],              # 16 words, arbitrary
        [WORDS[rng.randrange(256, 512)]] + ws[1:] + [None],
        ws + ["surplus", "lines"],
        [w + "\r" for w in ws],
        ["\ufeff" + ws[0]] + ws,
        [WORDS[rng.randrange(512, 4096)] for _ in range(12)] + ws,               # many unsupported versions
        [x for w in ws for x in ["zzz"] * 4 + [w]],
        [w + "." for w in ws[:3]] + ws,
        [" " * 70 + ws[0], "z" * 200] + [" " * rng.choice([100, 1000, 3000]) + w + "\t" * 400 for w in ws[1:4]] + ["q" * 3000] + ws[4:],
    ]
    c = list(cases[k % len(cases)])
    early = c and c[-1] is None
    if early:
        c.pop()
    cmd = ["recover", "convert"][(k // len(cases)) % 2]
    how = (k // (2 * len(cases)) + k) % 3
    if how == 0:
        # the newline of the last line may be missing
        items = [line(x) for x in c]
        if items and rng.random() < 0.4:
            items[-1] = keys(c[-1])
        h.run(cmd, {"simple": True} if rng.random() < 0.3 else {}, items, stdin="pipe")
    else:
        c = [x.replace("\r", "") for x in c]
        if not early and len(c) > 14 and c[14:] == ["surplus", "lines"]:
            c = c[:14]
        h.run(cmd, {"simple": True}, [line(x) for x in c] + ([EOF if rng.random() < 0.7 else INT] if early else []))
    if k % len(cases) == 0:
        h.run(cmd, {"simple": True}, [], stdin="null")


NLINES = 23


def files(h, k):
    rng = h.rng
    ws = fresh_plain(rng)
    sp = lambda: rng.choice([" ", "\n", "\t", "\r\n", "   ", "\n\n", "\v", "\f", "\u00a0", "\u2003", "\u0085", "\u3000", "\u2028"])
    join = lambda w: "".join(x + sp() for x in w)
    flip = lambda w: WORDS[WORDS.index(w) ^ (1 << rng.randrange(5))]
    one = " ".join
    foreign = rng.choice(["zzzz", "\ufeff", "#", "1:", "w\u00f6rd", ws[0] + ",", "abandonn", ".", "\x00", "\u200b", ws[1] + "\u200b"])
    cases = [
        one(ws), one(ws) + "\n", join(ws), sp() + join(ws) + sp(), one(odd_case(rng, w) for w in ws), one(ws).upper(),
        join(odd_case(rng, w) for w in ws),
        "", " \n\t ", "\n" * 3000,
        one(ws[:13]), one(ws[:1]), one(ws + [ws[0]]), one(ws + ws[:2]), one(ws + ws[3:9]), one(ws + ["abandon"] * 86), one(ws + ["abandon"] * 87), one(ws + ws), one(ws * 8), one(ws * 1000), one(["abandon"] * 14),
        one(ws + [foreign]), one([foreign] + ws), one(ws[:5] + [foreign] + ws[5:]), one(ws[:5] + [foreign] + ws[6:]),
        one(ws[:13] + [flip(ws[13])]), one(ws[:4] + [flip(ws[4])] + ws[5:]), one([ws[1], ws[0]] + ws[2:]),
        one([WORDS[rng.randrange(512, 4096)]] + ws[1:]), one([WORDS[rng.randrange(256, 512)]] + ws[1:]),
        one([WORDS[rng.randrange(256, 512)]] + ws[1:] + ["abandon", "ability"]),
        one(ws) + "\n" * 70000, " " * 70000 + one(ws), one(ws) + " " * 66000 + "zzzz", one(ws) + " " * 66000 + ws[0],
        "z" * 70000, one(ws) + " " + "z" * 70000, one(w[:4] for w in ws),
        "".join(ws), "-".join(ws), ",".join(ws), one("%d: %s" % (i + 1, w) for i, w in enumerate(ws)),
        one(ws) + "\x00", one(ws) + "\n\xff",
        one(["zoo"] * 16), one(WORDS[512:526]), one(ws[::-1]),
    ]
    body = cases[k % len(cases)]
    cmd = ["recover", "convert"][(k // len(cases) + k) % 2]
    name = rng.choice(["w", "w", "w", " w", "w ", "W.TXT", "w.txt", "\u00e9", "-w", "~", "$HOME", "w\\x", "w%s"])
    h.put(name, body.encode("utf-8") if "\xff" not in body else body.encode("latin-1"))
    o = {"in-word-file": name}
    if rng.random() < 0.3:
        o["simple"] = True
    if rng.random() < 0.5:
        o["verbose"] = True
    h.run(cmd, o, stdin=rng.choice(["tty", "null", "pipe"]))
    if k % 7 == 0:
        h.put("dir", kind="dir")
        h.run(cmd, {"in-word-file": "dir"})
        h.run(cmd, {"in-word-file": "missing"})
        h.put("ln", name, kind="link")
        h.run(cmd, {"in-word-file": "ln"})
        h.run(cmd, {"in-word-file": name + "/under"})


NFILES = 47


DECOR = list(",;.:!?-_'\"()[]{}<>#*/\\|&%$@^~`+=0123456789") + ["\u2019", "\u201c", "\u200b", "\u200d", "\ufeff", "\u0301", "\u00ad", "\u2060", "\x00", "\x7f", "\x1b[1m", "'s", "s", "ed", "...", "--", "1.", "\u2013", "\u00b7", "\u2028x", "\u180e"]


def decorations(rng, w, n):
    """n texts that are not the word w nor any other list word, but close to it."""
    out = []
    while len(out) < n:
        d = rng.choice(DECOR)
        i = rng.randrange(len(w) + 1)
        x = rng.choice([d + w, w + d, w[:i] + d + w[i:], w[:-1], w[1:], w[:4], w + w, w[::-1], w[:i] + w[i + 1:], w + rng.choice("aeioust"), "un" + w])
        if x.lower().strip() not in WORDS and "\x1b" not in x and x.strip() and x.split() == [x]:
            out.append(x)
    return out


def around(w):
    """The word w with every decoration in front, behind and on both sides."""
    return [x for d in DECOR if "\x1b" not in d for x in (d + w, w + d, d + w + d) if x.lower().strip() not in WORDS and x.split() == [x]]


def decorated(h, k):
    """Word files with something that is nearly a word; the rest of the file is in order."""
    rng = h.rng
    ws = fresh_plain(rng)
    for x in range(k % 8, len(around(ws[0])), 8):
        i = rng.choice([0, 0, 13, rng.randrange(14)])
        a = around(ws[i])
        h.put("w", " ".join(ws[:i] + [a[x % len(a)]] + ws[i + 1:]).encode())
        h.run(["recover", "convert"][rng.randrange(2)], {"in-word-file": "w"})
    alone = [d for d in DECOR if "\x1b" not in d and d.split() == [d] and d.lower() not in WORDS]
    for x in range(k % 8, len(alone), 8):
        # something by itself, which does not take the place of a word
        i = rng.choice([0, 14, rng.randrange(15)])
        h.put("w", rng.choice([" ", "\n"]).join(ws[:i] + [rng.choice([alone[x], alone[x] + WORDS[rng.randrange(4096)]])] + ws[i:]).encode())
        h.run(["recover", "convert"][rng.randrange(2)], {"in-word-file": "w"})
    for x in range(10):
        i = rng.randrange(len(ws))
        d = decorations(rng, ws[i], 1)[0]
        body = [ws[:i] + [d] + ws[i + 1:], ws + [d], ws[:i] + [d] + ws[i:], [v + d[-1] if d[-1] not in "abcdefghijklmnopqrstuvwxyz" and d[-1].split() else v + "," for v in ws]][x % 4]
        text = " ".join(body)
        if x % 5 == 4:
            text = rng.choice(["# my phrase\n%s", "%s\n# end", "phrase: %s", "%s;", "\"%s\"", "(%s)", "%s\n--\n", "// %s", "1. %s", "%s\0", "mnemonic=%s"]) % " ".join(ws)
        h.put("w", text.encode())
        h.run(["recover", "convert"][k % 2], {"in-word-file": "w"})
    h.put("w", " ".join(ws).encode())
    h.run(["recover", "convert"][k % 2], {"in-word-file": "w"})


def nearly(h, k):
    """Line input in which every word is preceded by texts that are not words."""
    rng = h.rng
    ws = fresh_plain(rng)
    other = WORDS[rng.randrange(256)]
    c = []
    for j, w in enumerate(ws):
        a = around(w)
        c += [a[x] for x in range((14 * k + j) % 84, len(a), 84)]
        c += decorations(rng, w, 3)
        c += rng.sample(["", other + " " + other, w + " " + w, w + "\t" + other, WORDS[rng.randrange(512, 4096)] if not c else ""], 2)
        c.append(rng.choice([w, " " + w, w + "\t", odd_case(rng, w)]))
    c = [x.replace("\r", "").replace("\x7f", "").replace("\n", "") for x in c]
    if k % 2:
        h.run(["recover", "convert"][(k // 2) % 2], {}, [line(x) for x in c], stdin="pipe")
    else:
        h.run(["recover", "convert"][(k // 2) % 2], {"simple": True}, [line(x) for x in c if "\x00" not in x])


# ------------------------------------------------------------------------ key options

NAMES = [None, "Alice Example", "two  blanks", "Tab\tIn McName", "", "  ", " \t Bob \n", "Zo\u00eb \u2603", "a<b>", "\u3000\u00a0trim\u2003", "x" * 300, "n\udc80\udcffraw", "-dash"]
EMAILS = [None, "a@b.c", "Mixed.Case+Tag@Example.ORG", "<a@b.c>", "a@b.c, d@e.f", " a@b.c\t", "", "  ", "\u00a0e@x\u00a0", "weird <> address", "y" * 200]
TTLS = [None, "1d", "24d", "49710d", "7w", "7101W", "3m", "1634M", "2y", "136Y", "007d", "0000000000000000000000000000000049710d", "1D", "000000000000001y", "0365d"]
BADTTLS = ["0d", "d", "y", "", None, "-1d", "+1d", "1", "1h", "1s", "1.5d", "1 d", " 1d", "1d ", "1dd", "d1", "0x1d", "1_0d", "49711d", "7102w", "1635m", "137y",
           "213503982334602d", "18446744073709551616d", "18446744073709551617d", "99999999999999999999999y", "9223372036854775807w", "213504d", "106752d",
           "106751991167301d", "30500568904944w", "\u0661d", "1\u00b5", "4294967296d", "4294967297d", "1\ud83d".encode("utf-8", "replace").decode(), "000d", "1d\n", "49711D", "1000000000000001d", "4294967296000001w", "10000000000000000000000000001y", "00000000000000000000d", "1000000001m", "2000000000y", "0000049711d"]
BADTTLS = [t for t in BADTTLS if t]
ONLYS = [None, "master", "encryption", "signing", "authentication", "master,signing", "encryption,authentication", "signing,encryption,authentication",
         "master,encryption,signing,authentication", "signing,signing", "master,master", "authentication,master,authentication"]
KINDS = ["master", "encryption", "authentication", "signing"]
SUBSETS = [[x for i, x in enumerate(KINDS) if n >> i & 1] for n in range(1, 16)]
ONLYS += [",".join(o) for s in SUBSETS if len(s) > 1 for o in (s, s[::-1], s[1:] + s[:1])]
ONLYS = list(dict.fromkeys(ONLYS))
BADONLYS = ["Master", "sign", "encryption,", ",", ",encryption", "encryption,,signing", "encryption signing", "encryption, signing", " master", "master ", "all", "none",
            "encryption;signing", "certify", "ENCRYPTION", "master,bogus", "bogus,master", "encrypt", "signing\n", "subkeys",
            "certification", "cert", "primary", "main", "auth", "enc", "sig", "s", "e,a", "Signing", "MASTER", "master,Encryption", "authenticate", "signing.", "encryption|signing",
            "master,", ",master", "signing,\tencryption", "sub", "-", "*", "true", "\u017figning", "master\u00a0", "encryption,encryption,bogus"]
GOODIX = ["0", "1", "2", "255", "256", "65534", "65535", "9999"]
BADIX = ["65536", "65537", "131072", "100000", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "x", "", "1.0", "1e3", " 1", "70000", "4294967297", "65536000"]


def key_opts(rng, cmd):
    o = {}
    for k, vals in (("name", NAMES), ("email", EMAILS), ("ttl", TTLS), ("only", ONLYS)):
        v = rng.choice(vals)
        if v is not None and rng.random() < 0.75:
            o[k] = v
    if cmd == "recover":
        for k in ("enc-index", "auth-index", "sig-index"):
            if rng.random() < 0.4:
                o[k] = rng.choice(GOODIX)
        if rng.random() < 0.4:
            o["self-cert"] = rng.random() < 0.5
    if rng.random() < 0.25:
        o["verbose"] = rng.random() < 0.8
    return o


# -------------------------------------------------------------- C20: generate, then recover

def enter(h, words, how, pws=()):
    """Items and options that hand the words over in one of the ways."""
    if how == "file":
        h.put("in%d" % len(h.ev), (" ".join(words) + "\n").encode())
        return {"in-word-file": "in%d" % (len(h.ev) - 1)}, []
    if how == "simple":
        return {"simple": True}, [line(w) for w in words]
    return {}, [keys(w + "\r") for w in words]


def generated(h, k):
    rng = h.rng
    kp, pp, wrong = pwset(rng)
    ko = key_opts(rng, "generate")
    o = dict(ko)
    lockk, lockp = bool(k & 1), bool(k & 2)
    items = []
    if lockk:
        o["encrypt-keys"] = True
        items += [line(kp), line(kp)]
    if lockp:
        o["encrypt-phrase"] = True
        items += [line(pp), line(pp)]
    if k & 4:
        o["out-word-file"] = "words"
    src = (k >> 3) % 4
    if src == 1:
        h.put("ent", rng.choice([seed16(rng), seed16(rng) + b"more", os.urandom(4096), bytes(16), b"\xff" * 16]))
        o["unsafe-entropy"] = "ent"
    h.run("generate", o, items, win=rng.choice(WINS))
    ws = got(h)
    for how in rng.sample(["file", "simple", "raw"], 2):
        r = {x: v for x, v in ko.items()}
        more, it = enter(h, ws, how)
        r.update(more)
        if lockp:
            it = it + ([line(wrong)] if rng.random() < 0.3 else []) + [line(pp)]
        if lockk:
            r["encrypt-keys"] = True
            it = it + [line(kp), line(kp)]
        if rng.random() < 0.3:
            r["verbose"] = True
        h.run("recover", r, it, win=rng.choice(WINS))
    if not lockp:
        h.run("recover", dict(ko), [line(w) for w in ws], stdin="pipe")


def slow(h, k):
    """The user takes his time: the clock moves on between the prompts."""
    rng = h.rng
    o = [{"encrypt-phrase": True}, {"encrypt-keys": True}, {"encrypt-phrase": True, "encrypt-keys": True, "out-word-file": "w"}, {"encrypt-phrase": True, "verbose": True, "ttl": "1d"}][k % 4]
    items = ([line("k"), pause(1.1), line("k")] if "encrypt-keys" in o else []) + ([pause(1.1), line("p"), line("p")] if "encrypt-phrase" in o else [])
    h.run("generate", o, items)
    ws = got(h)
    r, it = enter(h, ws, "file")
    r.update({x: v for x, v in o.items() if x in ("encrypt-keys", "ttl")})
    h.run("recover", r, it + ([line("p")] if "encrypt-phrase" in o else []) + ([line("k"), line("k")] if "encrypt-keys" in o else []))


def repeated(h, k):
    """Several keys from one session: every seed is new."""
    for i in range(4):
        h.run("generate", {"encrypt-phrase": True} if k % 2 else {}, [line("pw"), line("pw")] if k % 2 else [])


def entropy(h, k):
    rng = h.rng
    sizes = [0, 1, 15, 16, 17, 32, 5000]
    n = sizes[k % len(sizes)]
    data = rng.randbytes(n) if rng.random() < 0.7 else bytes(n)
    h.put("e", data)
    o = {"unsafe-entropy": "e"}
    if k % 3 == 1:
        o["encrypt-phrase"] = True
    if k % 3 == 2:
        o["out-word-file"] = "w"
    h.run("generate", o, [line("zz"), line("zz")] if k % 3 == 1 else [])
    # the same from standard input, in one piece
    h.run("generate", {"unsafe-entropy": "-"}, [keys(data)] if data else [], stdin="pipe")
    if k % len(sizes) == 0:
        h.put("d", kind="dir")
        h.run("generate", {"unsafe-entropy": "d"})
        h.run("generate", {"unsafe-entropy": "missing"})
        h.run("generate", {"unsafe-entropy": "-"}, stdin="null")
        h.run("generate", {"unsafe-entropy": "missing", "out-word-file": "w2", "encrypt-keys": True}, [line("a"), line("a")])


# --------------------------------------------------------------------------- C21: convert

def converted(h, k):
    rng = h.rng
    a, b, c = pwset(rng)
    ws = fresh_plain(rng)
    ko = {x: v for x, v in key_opts(rng, "generate").items() if x != "verbose"}
    pw = None
    first = True
    for step in range(3):
        lock = bool((k >> step) & 1)
        new = rng.choice([a, b, c])
        how = rng.choice(["file", "simple", "raw"])
        o, it = enter(h, ws, how)
        if pw is not None:
            it = it + ([line(rng.choice([x for x in (a, b, c) if x != pw]))] if rng.random() < 0.3 else []) + [line(pw)]
        if lock:
            o["encrypt-phrase"] = True
            it = it + [line(new), line(new)]
        if rng.random() < 0.5:
            o["out-word-file"] = "out%d" % step
        if rng.random() < 0.2:
            o["verbose"] = True
        h.run("convert", o, it, win=rng.choice(WINS))
        ws = got(h)
        pw = new if lock else None
    o, it = enter(h, ws, rng.choice(["file", "simple", "raw"]))
    o.update(ko)
    h.run("recover", o, it + ([line(pw)] if pw is not None else []))


def convert_places(h, k):
    """Where the result goes: same file, existing file, directory, missing directory; the input is never touched."""
    rng = h.rng
    ws = fresh_plain(rng)
    h.put("in", (" ".join(ws) + "\n").encode())
    h.put("old", b"precious\n")
    h.put("d", kind="dir")
    outs = ["in", "old", "d", "d/x", "none/x", "new", "old/x", "./new2", "", "d/../new3"]
    out = outs[k % len(outs)]
    lock = (k // len(outs)) % 2 == 1
    o = {"in-word-file": "in"}
    if out:
        o["out-word-file"] = out
    items = []
    if lock:
        o["encrypt-phrase"] = True
        items = [line("one"), line("one")]
    if out.startswith("./") or ".." in out:
        o["out-word-file"] = out = "new2"
    h.run("convert", o, items)
    h.run("convert", o, items)                      # again: now it exists
    if lock:
        h.run("convert", dict(o, **{"out-word-file": "aborted"}), [line("one"), INT])
        h.run("convert", dict(o, **{"out-word-file": "aborted2"}), [line("one"), EOF])


# ------------------------------------------------------------------------- C22: word files

def neighbours(path):
    """Files next to a path whose names a program might use for itself."""
    d, n = os.path.split(path)
    return [os.path.join(d, x % n) for x in ("%s~", "%s.bak", "%s.tmp", "%s.new", "%s.part", "%s.lock", "%s.old", "%s.orig", "%s.1", ".%s", ".%s.swp", ".%s.tmp", "tmp-%s", "%s.tmp~")]


def wordfile(h, k):
    rng = h.rng
    h.put("file", b"precious\n")
    h.put("ro", b"read only\n", perm=0o444)
    h.put("empty", b"")
    h.put("d", kind="dir")
    h.put("ln", "file", kind="link")
    h.put("lnd", "d", kind="link")
    h.put("phrase", (" ".join(fresh_plain(rng)) + "\n").encode())
    h.put("dangling", "nowhere", kind="link")
    for n in neighbours("new") + neighbours("file")[:4] + neighbours("d/new")[:4]:
        h.put(n, rng.choice([b"kept\n", b"", (" ".join(fresh_plain(rng)) + "\n").encode()]))
    for n in ("words.txt", "w.asc", "phrase.key", "backup 1", "x.gpg", "old.json", "words.words"):
        h.put(n, rng.choice([b"", b"precious\n", (" ".join(fresh_plain(rng)) + "\n").encode()]))
    outs = ["file", "ro", "empty", "d", "ln", "lnd", "new", "d/new", "none/new", "file/new", "dangling", "new with blanks",
            rng.choice(["words.txt", "w.asc", "phrase.key", "backup 1", "x.gpg", "old.json", "words.words"]), rng.choice(["new.txt", "new.asc", "-new", "NEW.TXT", " new", "new.", "n" * 200]),
            "words.txt"]
    out = outs[k % len(outs)]
    if rng.random() < 0.6:
        cmd, o = "generate", {}
    else:
        cmd, o = "convert", {"in-word-file": "phrase"}
    o["out-word-file"] = out
    lock = rng.random() < 0.3
    items = []
    if lock:
        o["encrypt-phrase"] = True
        items = [line("pw"), line("pw")]
    std = ["pipe", "pipe", "full", "broken", "block"][(k // len(outs)) % 5]
    h.run(cmd, o, items, stdout=std, fsize=rng.choice([0, 1, 10, 40]) if rng.random() < 0.2 else None)
    if std == "pipe":
        h.run(cmd, o, items)


def appears(h, k):
    """The file appears while the command waits at a prompt."""
    rng = h.rng
    o = {"out-word-file": "w", "encrypt-phrase": True}
    cmd = "generate"
    if k % 3 == 2:
        h.put("phrase", " ".join(fresh_plain(rng)).encode())
        cmd, o = "convert", dict(o, **{"in-word-file": "phrase"})
    elif k % 2:
        o["encrypt-keys"] = True
    pws = [line("k"), line("k")] if "encrypt-keys" in o else []
    items = pws + [line("pw"), line("pw")]
    i = rng.randrange(len(items))
    items.insert(i, touch("w", rng.choice([b"", b"precious\n", b"a" * 500])))
    h.run(cmd, o, items)


def raced(h, k):
    """Another process creates the file just when the command is about to make its k-th system call on it."""
    rng = h.rng
    cmd, o = "generate", {}
    if k % 3 == 2:
        h.put("phrase", " ".join(fresh_plain(rng)).encode())
        cmd, o = "convert", {"in-word-file": "phrase"}
    o["out-word-file"] = "w"
    h.run(cmd, o, trace={"kind": "race", "path": "w", "when": 1 + k % 4, "data": rng.choice([b"", b"precious\n", b"z" * 3000])})
    h.run(cmd, o)


def killed(h, k):
    """The command is killed: at a system call on the word file, or at any call."""
    rng = h.rng
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    h.put("old", b"precious\n")
    for n in rng.sample(neighbours("w"), 3):
        h.put(n, b"kept\n")
    o = {"out-word-file": "old" if k % 7 == 6 else "w"}
    cmd = "generate"
    if k % 4 == 3:
        cmd = "convert"
        o["in-word-file"] = "phrase"
    if k % 2:
        t = {"kind": "crash", "path": o["out-word-file"], "when": 1 + (k // 2) % 5}
    else:
        t = {"kind": "crash", "when": 1 + rng.randrange(16)}
    h.run(cmd, o, trace=t, env={"GOMAXPROCS": "1"})
    h.run("recover", {"in-word-file": "w"})


def faulted(h, k):
    """System calls on the word file fail."""
    rng = h.rng
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    cmd, o = ("generate", {}) if k % 2 else ("convert", {"in-word-file": "phrase"})
    o["out-word-file"] = "w"
    calls, errs = [("write,pwrite64,writev", ["ENOSPC", "EIO", "EDQUOT"]), ("openat,open,creat", ["EROFS", "EMFILE", "EACCES", "ENOSPC"]), ("close", ["EIO", "ENOSPC"])][k % 3]
    h.run(cmd, o, trace={"kind": "fault", "fault": "disk", "path": "w", "calls": calls, "error": rng.choice(errs)})
    if k % 3 == 0:
        # interrupted calls are made again
        h.put("other", b"") if k % 2 else None
        h.run(cmd, dict(o, **{"out-word-file": "w2"}), trace={"kind": "fault", "fault": "none", "path": "w2", "calls": "write,openat", "error": "EINTR", "when": "1"})


def unreadable(h, k):
    """Reading the word file or the entropy fails, at the first read or later."""
    rng = h.rng
    when = {} if k % 2 else {"when": "2+"}
    h.put("in", (" ".join(fresh_plain(rng)) + "\n").encode())
    h.put("ent", seed16(rng) + bytes(rng.choice([0, 5000])))
    t = {"kind": "fault", "fault": "source", "calls": "read,pread64", "error": rng.choice(["EIO", "EISDIR", "EACCES"])}
    kind = (k // 2) % 3
    if kind == 0:
        h.run("recover", {"in-word-file": "in"}, trace=dict(t, path="in", **when))
    elif kind == 1:
        h.run("convert", {"in-word-file": "in"}, trace=dict(t, path="in", **when))
    else:
        h.run("generate", {"unsafe-entropy": "ent"}, trace=dict(t, path="ent"))


# ----------------------------------------------------------------------- C23: standard output

def outputs(h, k):
    rng = h.rng
    ws = fresh_plain(rng)
    h.put("phrase", " ".join(ws).encode())
    h.put("bad", " ".join(ws[:13]).encode())
    win = WINS[k % len(WINS)]
    env = {"GOMAXPROCS": rng.choice(["1", "2", "8"])}
    cases = [
        ("generate", {"verbose": True}, []),
        ("generate", {"encrypt-keys": True, "encrypt-phrase": True, "verbose": True}, [line("a"), line("a"), line("b"), line("b")]),
        ("generate", {"encrypt-keys": True, "encrypt-phrase": True}, [line(""), line("a"), line("b"), line("a"), line("a"), line("b"), line("b")]),
        ("recover", {"verbose": True}, [keys(w + " ") for w in ws]),
        ("recover", {"simple": True, "verbose": True}, [line(w) for w in ws]),
        ("recover", {"in-word-file": "phrase", "encrypt-keys": True}, [line("a"), line("a")]),
        ("recover", {"in-word-file": "bad"}, []),
        ("recover", {"in-word-file": "phrase", "only": "nothing"}, []),
        ("generate", {"ttl": "1x"}, [line("a")]),
        ("generate", {"encrypt-keys": True}, [line("a"), INT]),
        ("generate", {"encrypt-phrase": True}, [line("a"), EOF]),
        ("recover", {"in-word-file": "phrase", "encrypt-keys": True}, [EOF]),
        ("recover", {}, [keys(ws[0] + " "), INT]),
        ("recover", {"simple": True}, [line(ws[0]), INT]),
        ("convert", {"in-word-file": "phrase", "verbose": True}, []),
        ("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, [line("a"), line("a")]),
        ("convert", {"in-word-file": "bad", "verbose": True}, []),
        ("generate", {"out-word-file": "phrase"}, []),
        ("generate", {"encrypt-keys": True}, [line("a")]),
    ]
    cmd, o, items = cases[k % len(cases)]
    std = ["pipe", "pipe", "full", "broken", "block"][(k // len(cases)) % 5]
    h.run(cmd, o, items, stdout="term" if std == "pipe" and (k // len(cases)) % 2 else std, win=win, env=env)
    if k % 5 == 0 and not items:
        h.run(cmd, o, [], stdout=std, stdin="null")


NOUT = 19


def mixed(h, k):
    """Any options, any phrase: old and future keys, expired ones, odd names."""
    rng = h.rng
    cmd = ["recover", "recover", "generate"][k % 3]
    off = rng.choice([0, 86400 * 30, int(time.time()) - 1672531200 - 100, int(time.time()) - 1672531200 + 86400 * 30, 2**31 - 1, rng.randrange(2**31)])
    h.put("phrase", " ".join(plain_phrase(seed16(rng), off)).encode())
    o = key_opts(rng, cmd)
    o.setdefault("ttl", rng.choice(["1d", "1w", "1y", "10y"])) if k % 2 else None
    if cmd == "recover":
        o["in-word-file"] = "phrase"
    elif k % 4 == 1:
        o["out-word-file"] = "w"
    h.run(cmd, o, win=rng.choice(WINS), stdin=rng.choice(["tty", "tty", "null"]))


def refused(h, k):
    """Command lines the command cannot make sense of."""
    bads = [("generate", ["generate", "-nonsense"]), ("recover", ["recover", "-encrypt-phrase"]), ("convert", ["convert", "-ttl", "1d"]),
            ("generate", ["generate", "-verbose=maybe"]), ("recover", ["recover", "-enc-index"]), ("generate", []), ("generate", ["frobnicate"]),
            ("recover", ["recover", "-enc-index", "1e2"]), ("generate", ["-name", "x", "generate"]), ("generate", ["generate", "-ttl"]),
            ("convert", ["convert", "-only", "master"]), ("generate", ["Generate"]), ("generate", ["generate", "-encrypt-keys=2"])]
    cmd, argv = bads[k % len(bads)]
    h.run(cmd, {}, [line("a"), line("a")], argv=argv, win=WINS[k % len(WINS)], stdout=["pipe", "full"][(k // len(bads)) % 2])


NREF = 13


def stray(h, k):
    """Options behind something that is not an option do not count: the command has to say so."""
    rng = h.rng
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    word = rng.choice(["stray", "true", "false", "", "-", "0", "master", " ", "help", "generate"])
    cmd = ["generate", "recover", "convert"][k % 3]
    before = [[], ["-verbose"], ["-encrypt-keys"] if cmd != "convert" else ["-simple"], ["-in-word-file", "phrase"] if cmd != "generate" else ["-name", "x"]][(k // 3) % 4]
    behind = [[], ["-ttl", "1y"] if cmd != "convert" else ["-verbose"], ["-encrypt-phrase"] if cmd != "recover" else ["-enc-index=3"],
              ["--out-word-file", "w"] if cmd != "recover" else ["-only=master"]][(k // 12) % 4]
    if not before and not behind and word == "help":
        word = "stray"
    h.run(cmd, {}, [line("a"), line("a")], argv=[cmd] + before + ["--"] * (k % 5 == 0) + [word] + behind)


NSTRAY = 48


def places(h):
    """What the paths in generated command lines lead to."""
    h.put("phrase", " ".join(fresh_plain(h.rng)).encode())
    h.put("ent", h.rng.randbytes(16 + h.rng.randrange(3)))
    h.put("short", b"abc")
    h.put("d", kind="dir")


def args(h, script):
    """Generated command lines, one after the other in one directory."""
    places(h)
    h.run("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, [line("a"), line("a")])
    h.put("locked", " ".join(got(h)).encode())
    for s in script:
        items = [[line("a")] * 6, [line(""), line("b"), line("a"), line("a"), line("a"), line("a"), line("a")], [line("a"), line("a")], []][s["typed"] % 4]
        h.run(s["cmd"], {}, items, argv=s["argv"], stdin=s["stdin"])


def helps(h, k):
    """Asking for help, in every way and whatever else is asked for."""
    rng = h.rng
    places(h)
    cmd = ["generate", "recover", "convert"][k % 3]
    own = {"generate": [["-name", "x"], ["-out-word-file", "w"], ["--encrypt-keys"], ["-encrypt-phrase"], ["-ttl=1d"], ["-only", "nonsense"], ["-ttl", "nonsense"], ["-unsafe-entropy", "ent"], ["-verbose"]],
           "recover": [["-in-word-file", "phrase"], ["-simple"], ["--encrypt-keys"], ["-enc-index", "4"], ["-self-cert=false"], ["-in-word-file=none"], ["-ttl", "nonsense"], ["-verbose"]],
           "convert": [["-in-word-file", "phrase"], ["-simple"], ["-encrypt-phrase"], ["--out-word-file=w"], ["-in-word-file=none"], ["-verbose"]]}[cmd]
    ask = rng.choice(["-h", "--h", "-help", "--help"])
    few = lambda: [a for g in rng.sample(own, rng.randrange(4)) for a in g]
    some = lambda: [a for g in rng.sample(own, rng.randrange(1, 4)) for a in g]
    ways = [["help"], ["-h"], ["--help"], ["-help"], ["--h"], ["-h=x"], ["help", cmd], ["help", "nonsense"], ["--", "help"], ["help", "-h"], ["help", "help"],
            [cmd, "help"], [cmd, ask], [cmd, ask] + few(), [cmd] + few() + [ask], [cmd] + some() + [ask] + some(), [cmd, ask, "-nonsense"], [cmd, ask, "stray"],
            [cmd, ask + "=false"], [cmd] + some() + [ask], ["--", cmd, ask], ["-h", cmd], ["help", cmd] + some(),
            # and what is not a call for help
            [cmd, "help", "help"], [cmd] + some() + ["help"], [cmd, "-nonsense", ask], [cmd, "stray", ask], [cmd, "--", ask], [cmd, "-H"], [cmd, "--Help"], ["Help"], [cmd, "-hh"], [cmd, "HELP"]]
    h.run(cmd, {}, [line("a")] * 4, argv=ways[(k // 3) % len(ways)], win=rng.choice(WINS), stdout=["pipe", "full", "pipe", "broken"][k % 4], stdin=["tty", "tty", "null"][(k // 7) % 3])


NHELP = 99


def noterminal(h, k):
    """Passwords are only taken from a terminal: without one nothing that needs a password comes about."""
    rng = h.rng
    ws = fresh_plain(rng)
    h.put("phrase", " ".join(ws).encode())
    h.run("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, [line("pw"), line("pw")])
    h.put("locked", " ".join(got(h)).encode())
    pw = [line("pw"), line("pw"), line("pw"), line("pw")]
    cases = [
        ("generate", {"encrypt-keys": True}, pw), ("generate", {"encrypt-phrase": True}, pw), ("generate", {"encrypt-phrase": True, "out-word-file": "w"}, pw),
        ("generate", {"encrypt-keys": True, "unsafe-entropy": "-"}, [keys(seed16(rng))] + pw), ("generate", {"encrypt-keys": True, "encrypt-phrase": True, "only": "signing"}, pw),
        ("recover", {"in-word-file": "phrase", "encrypt-keys": True}, pw), ("recover", {"encrypt-keys": True}, [line(w) for w in ws] + pw),
        ("recover", {"in-word-file": "locked"}, pw), ("recover", {"in-word-file": "locked", "encrypt-keys": True, "verbose": True}, pw),
        ("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, pw), ("convert", {"in-word-file": "phrase", "encrypt-phrase": True, "out-word-file": "w"}, pw),
        ("convert", {"in-word-file": "locked", "out-word-file": "w"}, pw), ("convert", {"in-word-file": "locked"}, pw), ("convert", {"encrypt-phrase": True}, [line(w) for w in ws] + pw),
    ]
    cmd, o, items = cases[k % len(cases)]
    if k // len(cases) % 2:
        o["verbose"] = True
    h.run(cmd, o, items, stdin="pipe")
    h.run(cmd, o, [], stdin="pipe")
    h.run(cmd, o, [], stdin="null")


NNOTERM = 14


def hangup(h, k):
    """The terminal stops delivering: the read at the k-th prompt fails."""
    rng = h.rng
    ws = fresh_plain(rng)
    h.put("phrase", " ".join(ws).encode())
    cases = [("generate", {"encrypt-keys": True}), ("generate", {"encrypt-phrase": True, "out-word-file": "w"}), ("recover", {"in-word-file": "phrase", "encrypt-keys": True}),
             ("convert", {"in-word-file": "phrase", "encrypt-phrase": True}), ("recover", {}), ("recover", {"simple": True}), ("convert", {}), ("convert", {"simple": True, "out-word-file": "w"})]
    cmd, o = cases[k % len(cases)]
    h.run(cmd, o, [], trace={"kind": "fault", "fault": "terminal", "path": "@tty", "calls": "read", "error": rng.choice(["EIO", "ENXIO", "EBADF"])})


NHANG = 8


# --------------------------------------------------------------------------- C24: passwords

def prompts(h, k):
    rng = h.rng
    a, b, c = pwset(rng)
    E, A, B, C = line(""), line(a), line(b), line(c)
    near = line(a + "x")
    short = line(a[:-1]) if len(a) > 1 else line("zz")
    confirm = [
        [A, A], [E, A, A], [E, E, E, A, A], [A, B, A, A], [A, B, B, B], [A, B, B, A, C, C], [A, E, A, A], [A, E, E, B, B], [A, near, A, A], [near, A, near, near],
        [A, short, A, A], [INT], [EOF], [A, INT], [A, EOF], [E, INT], [A, B, INT], [A, B, A, INT], [A, B, EOF], [A], [A, B, A], [E], [A, B, C, C],
        [A, B] * 7 + [C, C], [E] * 9 + [A, A], [A, B] * 5 + [A, E] * 3 + [INT],
    ]
    seq = confirm[k % len(confirm)]
    which = (k // len(confirm)) % 4
    ws = fresh_plain(rng)
    win = rng.choice(WINS)
    env = {"GOMAXPROCS": rng.choice(["1", "2", "8"])}
    if which == 0:
        h.run("generate", {"encrypt-keys": True}, seq, win=win, env=env)
    elif which == 1:
        h.run("generate", {"encrypt-phrase": True, "out-word-file": "w"}, seq, win=win, env=env)
    elif which == 2:
        h.put("phrase", " ".join(ws).encode())
        h.run("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, seq, win=win, env=env)
    else:
        h.put("phrase", " ".join(ws).encode())
        h.run("recover", {"in-word-file": "phrase", "encrypt-keys": True}, seq, win=win, env=env)
    return


NPROMPT = 26


def variants(rng, a):
    """Passwords that are nearly a."""
    import unicodedata
    out = [a + " ", " " + a, a + "\t", a[:-1], a[1:], a + a, a.swapcase(), a.upper(), a.lower(), a + "\u00a0", a + "x", a[:8], a[:16], a[:64], a[:72] + "y", unicodedata.normalize("NFC", a),
           unicodedata.normalize("NFD", a), a.strip(), a[:-1] + "Z", "Z" + a[1:], a[:len(a) // 2] + "Z" + a[len(a) // 2 + 1:], a.replace(" ", ""), a + "0"]
    out = [x for x in dict.fromkeys(out) if x != a and x]
    rng.shuffle(out)
    return out


LONG = ["a", "Secret 1", "pass word", "l" * 73, "m" * 129, "n" * 260, "\u00e9t\u00e9", "e\u0301te\u0301", " both ends ", "0x00", "MiXeD cAsE", "tr\u00e4il "]


def overtaken(h, k):
    """An interrupt that arrives while the prompt is being put up again (every system call of the command takes 0.2 s)."""
    slow = {"kind": "slow", "calls": "ioctl,write", "delay": 200000}
    h.run("generate", {"encrypt-keys": True}, [dict(line(""), nowait=True), dict(INT, hasty=0.42 + 0.08 * (k % 3))], trace=slow, env={"GOMAXPROCS": "4"})


def nearmiss(h, k):
    """Confirmations that are nearly right, one after the other, and in the end the right one."""
    rng = h.rng
    a = LONG[k % len(LONG)]
    seq = []
    for v in variants(rng, a)[:9]:
        seq += [line(a), line(v)] if rng.random() < 0.7 else [line(v), line(a)]
    seq += [line(a), line(a)]
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    cmd, o = [("generate", {"encrypt-keys": True}), ("generate", {"encrypt-phrase": True}), ("convert", {"in-word-file": "phrase", "encrypt-phrase": True}),
              ("recover", {"in-word-file": "phrase", "encrypt-keys": True})][(k + k // len(LONG)) % 4]
    h.run(cmd, o, seq)
    if "encrypt-phrase" in o:
        ws = got(h)
        for v in variants(rng, a)[:4]:
            o, it = enter(h, ws, "file")
            h.run("recover", o, it + [line(v), line(a)])


def oddpassword(h, k):
    """Any bytes but none at all are a password."""
    rng = h.rng
    a = PASSWORDS[k % len(PASSWORDS)]
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    cmd, o = [("generate", {"encrypt-phrase": True}), ("recover", {"in-word-file": "phrase", "encrypt-keys": True}), ("generate", {"encrypt-keys": True}),
              ("convert", {"in-word-file": "phrase", "encrypt-phrase": True})][(k + k // len(PASSWORDS)) % 4]
    h.run(cmd, o, [line(a), line(a)])
    if "encrypt-phrase" in o:
        o, it = enter(h, got(h), "file")
        h.run(rng.choice(["recover", "convert"]), o, it + [line(a)])


def guesses(h, k):
    """The prompt for the password of an encrypted phrase."""
    rng = h.rng
    a, b, c = pwset(rng)
    if k % NGUESS >= 16:
        a, b, c = rng.choice([" ", "\t", "0", "\u00a0"]), "b", "c"
    h.put("phrase", " ".join(fresh_plain(rng)).encode())
    h.run("convert", {"in-word-file": "phrase", "encrypt-phrase": True}, [line(a), line(a)])
    ws = got(h)
    A, B, C, E = line(a), line(b), line(c), line("")
    seqs = [[A], [B, A], [B, C, B, A], [E, A], [E, B, E, A], [INT], [EOF], [B, INT], [B, EOF], [E, INT], [B], [B, C], [line(a + " "), line(" " + a), A], [line(a[:-1] or "zz"), A],
            [B, C] * 5 + [A], [E] * 7 + [A], [E, INT], [E, E, B, INT]]
    seq = seqs[k % len(seqs)]
    how = ["file", "simple", "raw"][k % 3]
    o, it = enter(h, ws, how)
    cmd = ["recover", "convert"][(k // len(seqs)) % 2]
    if cmd == "recover" and k % 4 == 0:
        o["encrypt-keys"] = True
        seq = seq + [C, C]
    if cmd == "convert" and k % 4 == 0:
        o["encrypt-phrase"] = True
        seq = seq + [C, C]
    h.run(cmd, o, it + seq, win=rng.choice(WINS), env={"GOMAXPROCS": rng.choice(["1", "2", "8"])})
    if k % 3 == 0:
        h.run(cmd, o if how == "file" else {}, [line(w) for w in ws] if how != "file" else [], stdin="pipe")


NGUESS = 18


def bothprompts(h, k):
    """Every combination of prompts in one run."""
    rng = h.rng
    a, b, c = pwset(rng)
    d1 = rng.choice([[], [line("")], [line(a), line(b)]])
    d2 = rng.choice([[], [line("")], [line(c), line(b)]])
    h.run("generate", {"encrypt-keys": True, "encrypt-phrase": True}, d1 + [line(a), line(a)] + d2 + [line(b), line(b)], win=rng.choice(WINS))
    ws = got(h)
    o, it = enter(h, ws, rng.choice(["file", "simple", "raw"]))
    h.run("recover", dict(o, **{"encrypt-keys": True}), it + [line(c), line(b)] + d1 + [line(c), line(c)])
    o, it = enter(h, ws, rng.choice(["file", "simple", "raw"]))
    h.run("convert", dict(o, **{"encrypt-phrase": True}), it + [line(b)] + d2 + [line(a), line(a)])


# ------------------------------------------------------------------------------ C25: options

def option(h, k, kind):
    rng = h.rng
    ws = fresh_plain(rng)
    h.put("phrase", " ".join(ws).encode())
    cmd = rng.choice(["generate", "recover"])
    o = {}
    if kind == "ttl":
        o["ttl"] = [t for t in TTLS if t][k]
    elif kind == "badttl":
        o["ttl"] = BADTTLS[k]
    elif kind == "only":
        o["only"] = [t for t in ONLYS if t][k]
    elif kind == "badonly":
        o["only"] = BADONLYS[k]
    elif kind == "ix":
        cmd = "recover"
        o[["enc-index", "auth-index", "sig-index"][k % 3]] = GOODIX[k // 3]
        if rng.random() < 0.5:
            o["only"] = rng.choice(ONLYS[2:])
    elif kind == "badix":
        cmd = "recover"
        o[["enc-index", "auth-index", "sig-index"][k % 3]] = BADIX[k // 3]
    elif kind == "name":
        v = NAMES[k % len(NAMES)]
        if v is not None:
            o["name"] = v
        v = EMAILS[(k // len(NAMES) + k) % len(EMAILS)]
        if v is not None:
            o["email"] = v
    elif kind == "cert":
        cmd = "recover"
        o["only"] = ONLYS[k % len(ONLYS)] or "signing"
        o["self-cert"] = (k // len(ONLYS)) % 2 == 0
    elif kind == "mix":
        o = key_opts(rng, cmd)
    bad = kind.startswith("bad")
    if bad:
        for x, v in key_opts(rng, cmd).items():
            o.setdefault(x, v)
        o["encrypt-keys"] = rng.random() < 0.4
        if cmd == "generate":
            o["out-word-file"] = "w"
            o["encrypt-phrase"] = rng.random() < 0.4
        elif rng.random() < 0.5:
            o["in-word-file"] = "phrase"
        h.run(cmd, o, [line("a"), line("a"), line("b"), line("b")], win=rng.choice(WINS))
        return
    items = []
    if cmd == "recover":
        o["in-word-file"] = "phrase"
    h.run(cmd, o)
    # the same with password protection and other options: they do not get in each other's way
    for x, v in key_opts(rng, cmd).items():
        o.setdefault(x, v)
    o["encrypt-keys"] = True
    items += [line("k"), line("k")]
    if cmd == "generate" and k % 2:
        o["encrypt-phrase"] = True
        items += [line("p"), line("p")]
    if cmd == "generate" and k % 3 == 0:
        o["out-word-file"] = "w"
    h.run(cmd, o, items)


COUNTS = {"ttl": len(TTLS) - 1, "badttl": len(BADTTLS), "only": len(ONLYS) - 1, "badonly": len(BADONLYS), "ix": 3 * len(GOODIX), "badix": 3 * len(BADIX),
          "name": 30, "cert": 2 * len(ONLYS), "mix": 20}


# ----------------------------------------------------------------------- C28: what is shown

SECRETS = ["correct horse battery", "hunter2hunter2", "p\u00e4ssw\u00f6rd \u2603 long", "y7k" * 24, " leading and trailing ", "tr0ub4dor&3", "0123456789abcdef"]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", ""]


def looked(h, k, trace=None):
    """Every command with every way in and out, quiet and verbose."""
    rng = h.rng
    kp, pp, wp = rng.sample(SECRETS, 3)
    wrong = rng.choice(["wrong password 1", "not the right one"])
    off = rng.choice([some_off(rng), 0, 2**31 - 1, int(time.time()) - 1672531200])
    ws = plain_phrase(seed16(rng), off)
    h.put("phrase", " ".join(ws).encode())
    if k % 3 == 0:
        h.put("old", b"precious\n")
    h.run("convert", {"in-word-file": "phrase", "encrypt-phrase": True, "out-word-file": "locked"}, [line(pp), line(pp)])
    verbose = k % 2 == 0
    cmd = ["generate", "recover", "convert"][(k // 2) % 3]
    o, items, stdin = {}, [], "tty"
    if verbose:
        o["verbose"] = True
    if cmd != "generate":
        locked = (k // 6) % 2
        how = ["file", "raw", "simple", "pipe"][(k // 12) % 4]
        if locked and how == "pipe":
            how = "file"
        words = got(h) if locked else ws
        if how == "file":
            o["in-word-file"] = "locked" if locked else "phrase"
        elif how == "raw":
            items += [keys(w + "\r") for w in words]
        else:
            items += [line(w) for w in words]
            o["simple"] = True
            stdin = "pipe" if how == "pipe" else "tty"
        if locked:
            items += ([line(wrong)] if rng.random() < 0.5 else []) + [line(pp)]
    if cmd != "convert":
        for x, v in key_opts(rng, cmd).items():
            if x != "verbose":
                o.setdefault(x, v)
        if rng.random() < 0.5 and stdin == "tty":
            o["encrypt-keys"] = True
            items += ([line(kp), line(wrong)] if rng.random() < 0.3 else []) + [line(kp), line(kp)]
    if cmd != "recover":
        if rng.random() < 0.5 and stdin == "tty":
            o["encrypt-phrase"] = True
            items += ([line(wp), line(wrong)] if rng.random() < 0.3 else []) + [line(wp), line(wp)]
        if rng.random() < 0.6:
            o["out-word-file"] = "old" if k % 9 == 0 else "new"
    if cmd == "generate" and rng.random() < 0.3:
        h.put("ent", seed16(rng))
        o["unsafe-entropy"] = "ent"
    std = "pipe" if trace else rng.choice(["pipe"] * 5 + ["full", "broken", "block"])
    h.run(cmd, o, items, stdin=stdin, stdout=std, win=rng.choice(WINS), env={"TZ": rng.choice(ZONES)}, trace=trace)


def watched(h, k):
    """The same under the tracer: no program is started, nothing is sent, nothing is written but the word file."""
    looked(h, 5 * k + k // 6, trace={"kind": "watch"})


# -------------------------------------------------------------- behaviours generated by TLC

def script(h, steps):
    rng = h.rng
    pw = dict(zip("pqr", pwset(rng)))
    pw[""] = ""
    h.put("j", rng.choice([b"junk\n", b"", b"not a phrase at all\n"]))
    h.put("d", kind="dir")
    h.put("e16", seed16(rng))
    h.put("e40", seed16(rng) + rng.randbytes(24))
    h.put("e3", b"abc")
    h.put("l", "f", kind="link")
    phrases, n, i = {}, 0, 0
    while i < len(steps):
        s = steps[i]
        i += 1
        if s["op"] != "run":
            continue
        n += 1
        syms = []
        while i < len(steps) and steps[i]["op"] == "type":
            syms.append(steps[i])
            i += 1
        ws = phrases.get(s["goal"]) or fresh_plain(rng)
        parts = [ws[:7], ws[7:]] if len(ws) == 14 else [ws[:6], ws[6:11], ws[11:]]
        raw = s["interactive"] and s["tty"]
        items = []
        def word(w):
            items.append(keys(w + rng.choice("\r ")) if raw else line(w))
        for y in syms:
            k = y["k"]
            if k == "word":
                for w in parts[y["i"] - 1] if y["i"] <= len(parts) else []:
                    if not raw:
                        w = {"exact": w, "case": odd_case(rng, w), "blanks": " %s\t" % w}[y["x"]]
                    word(w)
            elif k == "other":
                word(WORDS[rng.randrange(512)])
                for _ in range(5):
                    word(rng.choice(WORDS))
            elif k in ("junk", "version"):
                w = "zzqq" if k == "junk" else WORDS[rng.randrange(512, 4096)]
                word(w)
                if raw:
                    items.append(keys("\x7f" * len(w)))
            elif k == "pw":
                items.append(line(pw[y["x"]]))
            elif k == "touch":
                items.append(touch(y["x"], rng.choice([b"", b"first\n"])))
            else:
                items.append(INT if k == "int" else EOF)
        o = {}
        q = s["key"]
        if s["cmd"] != "convert":
            v = {"default": None, "plain": "Alice", "blank": " ", "odd": " Zo\u00eb <z>\t"}[q["name"]]
            if v is not None:
                o["name"] = v
            v = {"none": None, "plain": "a@b.c", "padded": " a@b.c "}[q["email"]]
            if v is not None:
                o["email"] = v
            v = {"none": None, "days": "24d", "weeks": "3W", "years": "2y", "max": "49710d"}[q["ttl"]]
            if v is not None:
                o["ttl"] = v
            v = {"all": None, "master": "master", "enc": "encryption", "two": "signing,authentication", "subs": "encryption,signing,authentication"}[q["only"]]
            if v is not None:
                o["only"] = v
            if s["lockkeys"]:
                o["encrypt-keys"] = True
        if s["cmd"] == "recover":
            if q["ix"] != "zero":
                o[rng.choice(["enc-index", "auth-index", "sig-index"])] = "65535" if q["ix"] == "last" else str(rng.randrange(65536))
            if not q["cert"]:
                o["self-cert"] = False
        if s["cmd"] != "recover":
            if s["lockphrase"]:
                o["encrypt-phrase"] = True
            if s["out"]:
                o["out-word-file"] = s["out"]
        if s["cmd"] != "generate" and s["in"]:
            o["in-word-file"] = s["in"]
        if s["entropy"]:
            o["unsafe-entropy"] = s["entropy"]
        if s["cmd"] != "generate" and not raw:
            o["simple"] = True
        if s["verbose"]:
            o["verbose"] = True
        stdin = "tty"
        if not s["tty"]:
            stdin = "pipe"
            items = [line(w) for w in (ws[:-1] if s["cut"] else ws)]
        r = h.run(s["cmd"], o, items, stdin=stdin, stdout=s["stdout"], win=WINS[s["win"]], fsize=10 if s["fsize"] else None)
        if s["cmd"] != "recover" and r["exit"] == "ok":
            phrases[n] = got(h)
