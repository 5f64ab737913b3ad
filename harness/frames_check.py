"""C13, C23, C24: messages, their durations, link timings and the exchange prepared for tag-time."""
import contextlib, random
from harness.core import Check

DR = {8: "DR_8", 64: "DR_643"}
SEL = {"ALL": "ALL", "~SL": "NOT_SEL", "SL": "SEL"}
BANK = {"Reserved": "RESERVED", "EPC": "EPC", "TID": "TID", "User": "USER"}
STD = dict(tari=6250, rtcal=15625, trcal=31250, delim=12500, q=4, dr=8, m=1, sel="ALL", session=0, target="A",
           trext=False, bank="TID", ptr=0, count=4, ext=False, rn=0, crc5=0, crc16=0)
NAME = dict(q="Q", dr="divide_ratio", m="tag_encoding", bank="read_default_bank", ptr="read_default_word_ptr",
            count="read_default_word_count", ext="temp_range", rn="default_rn", crc5="default_crc5", crc16="default_crc16")
ARG = dict(ptr="word_ptr", count="word_count", ext="temp")


def real(name, v):
    """The value as the code under test wants it."""
    from pysim.models.rfid import epcstd as p
    if name in ("tari", "rtcal", "trcal", "delim"):
        return v * 1e-9
    if name == "dr":
        return p.DivideRatio[DR[v]]
    if name == "m":
        return p.TagEncoding.get(v)
    if name == "sel":
        return p.SelFlag[SEL[v]]
    if name == "session":
        return p.Session[f"S{v}"]
    if name == "target":
        return p.InventoryFlag.A if v == "A" else p.InventoryFlag.B
    if name == "bank":
        return p.MemoryBank[BANK[v]]
    if name == "ext":
        return p.TempRange.EXTENDED if v else p.TempRange.NOMINAL
    return v


STICK, LAST = [0.0], {}


def keep(rng, name, f):
    """At times the value drawn before under this name: calls that differ in few things follow each other."""
    if name not in LAST or rng.random() >= STICK[0]:
        LAST[name] = f()
    return LAST[name]


def draw(rng, name):
    return keep(rng, name, lambda: draw_new(rng, name))


def draw_new(rng, name):
    if name == "tari":
        return rng.choice([6250, 12500, 25000, rng.randrange(6250, 25001)])
    if name == "delim":
        return rng.choice([12500, rng.randrange(11875, 13126)])
    if name == "rtcal":
        return rng.choice([15625, 37500, 75000, rng.randrange(15625, 75001)])
    if name == "trcal":
        return trcal(rng)
    return dict(dr=lambda: rng.choice([8, 64]), m=lambda: rng.choice([1, 2, 4, 8]), trext=lambda: rng.random() < .5,
        sel=lambda: rng.choice(list(SEL)), session=lambda: rng.randrange(4), target=lambda: rng.choice("AB"),
        q=lambda: rng.randrange(16), bank=lambda: rng.choice(list(BANK)),
        ptr=lambda: rng.choice([0, 1, 127, 128, 255, 256, 16383, 16384, rng.randrange(2**21), 2**21 - 1, 2**21, rng.randrange(2**28)]),
        count=lambda: rng.choice([0, 1, 4, 255, rng.randrange(256)]), ext=lambda: rng.random() < .5,
        rn=lambda: rng.choice([0, 1, 0xFFFF, 0x8000, rng.randrange(65536)]),
        crc5=lambda: rng.randrange(32), crc16=lambda: rng.choice([0, 0xFFFF, rng.randrange(65536)]))[name]()


EDGES = {(64, True): (33.633, 66.033, 82.467, 84.133, 131.967, 198.0, 227.25),
         (64, False): (33.633, 66.033, 67.367, 82.467, 131.967, 198.0, 227.25),
         (8, True): (24.75, 30.9375, 49.5, 75.0, 202.0), (8, False): (24.75, 25.25, 30.9375, 49.5, 75.0, 202.0)}
ALLEDGES = sorted({round(x * 1000) for v in EDGES.values() for x in v})


def trcal(rng):
    while True:
        v = rng.choice([rng.randrange(17200, 300001), rng.randrange(17200, 90000), rng.choice(ALLEDGES) + rng.choice([-9, -2, 2, 9])])
        if all(abs(v - e) >= 2 for e in ALLEDGES):
            return v


class Args:
    """Named parameters, some of them left to the defaults in force."""
    def __init__(self, rng, names, defaults, given=.75):
        self.v, self.kw = {}, {}
        for n in names:
            if keep(rng, ("given", n, given), lambda: rng.random() < given):
                self.v[n] = draw(rng, n)
                self.kw[n] = real(n, self.v[n])
            else:
                self.v[n] = defaults[n]

    def call(self, fn, *pos, names=None, **more):
        kw = {ARG.get(k, k): v for k, v in self.kw.items() if names is None or k in names}
        kw.update(more)
        return fn(*pos, **kw)


@contextlib.contextmanager
def defaults(rng, change):
    """The defaults in force: the built-in ones, or changed ones."""
    from pysim.models.rfid import epcstd as p
    d = dict(STD)
    saved = {}
    try:
        if change:
            for n in STD:
                if keep(rng, ("changed", n), lambda: rng.random() < .5):
                    d[n] = draw(rng, n)
                    a = NAME.get(n, n)
                    saved[a] = getattr(p.stdParams, a)
                    setattr(p.stdParams, a, real(n, d[n]))
        yield d
    finally:
        for a, v in saved.items():
            setattr(p.stdParams, a, v)


def ns(v):
    v = float(v)
    return -1 if v == float("inf") else max(-2 * 10**9, min(2 * 10**9, round(v * 1e9))) if v == v else -2 * 10**9


CMDS = dict(Query=("dr", "m", "trext", "sel", "session", "target", "q", "crc5"), QueryRep=("session",),
            QueryAdjust=("session",), Ack=("rn",), ReqRN=("rn", "crc16"), Read=("bank", "ptr", "count", "rn", "crc16"))


def command(rng, kind, d, given=.75):
    """(spec record, constructor call, keyword arguments)"""
    from pysim.models.rfid import epcstd as p
    a = Args(rng, CMDS[kind], d, given)
    c = {("crc" if k.startswith("crc") else k): v for k, v in a.v.items()}
    c["cmd"] = kind
    kw = {ARG.get(k, "crc" if k.startswith("crc") else k): v for k, v in a.kw.items()}
    if kind == "QueryAdjust":
        c["updn"] = rng.choice([-1, 0, 1])
        kw["updn"] = c["updn"]
    if kind == "Ack" and "rn" not in kw:
        kw["rn"] = None
    return c, getattr(p, kind)(**kw), kw


def bits(s):
    return [int(x) for x in s]


LINK = ("tari", "rtcal", "trcal", "delim")


def reader_frames(rng, d, ev):
    from pysim.models.rfid import epcstd as p
    kind = keep(rng, "kind", lambda: rng.choice(list(CMDS)))
    c, obj, kw = command(rng, kind, d)
    ev.append(dict(op="enc", c=c, bits=bits(obj.encode()), len=obj.bitlen))
    x = Args(rng, LINK, d)
    res = [dict(k="all", n="reader_frame_duration", v=ns(x.call(p.reader_frame_duration, obj))),
           dict(k="all", n="reader_frame_duration", v=ns(x.call(p.reader_frame_duration, obj.encode())))]
    pre = (p.ReaderPreamble(x.v["tari"] * 1e-9, x.v["rtcal"] * 1e-9, x.v["trcal"] * 1e-9, delim=x.v["delim"] * 1e-9)
           if kind == "Query" else p.ReaderSync(x.v["tari"] * 1e-9, x.v["rtcal"] * 1e-9, x.v["delim"] * 1e-9))
    f = p.ReaderFrame(pre, obj)
    res += [dict(k="all", n="frame", v=ns(f.duration)), dict(k="body", n="frame", v=ns(f.body_duration)),
            dict(k="pre", n="frame", v=ns(f.preamble_duration)), dict(k="pre", n="preamble", v=ns(pre.duration))]
    fn = dict(Query=p.query_duration, QueryRep=p.query_rep_duration, QueryAdjust=p.query_adjust_duration, Ack=p.ack_duration,
              ReqRN=p.reqrn_duration, Read=p.read_duration)[kind]
    ok = {k: v for k, v in x.kw.items() if kind != "QueryAdjust" or k != "trcal"}
    k2 = {k: v for k, v in kw.items() if v is not None}
    res.append(dict(k="all", n=kind + "_helper", v=ns(fn(**ok, **k2))))
    if kind != "QueryAdjust":
        code = dict(Query="QUERY", QueryRep="QUERY_REP", Ack="ACK", ReqRN="REQ_RN", Read="READ")[kind]
        k3 = {(("crc5" if kind == "Query" else "crc16") if k == "crc" else k): v for k, v in k2.items()}
        res.append(dict(k="all", n="command_duration", v=ns(p.command_duration(p.CommandCode[code], **x.kw, **k3))))
    ev.append(dict(op="rframe", c=c, d=res, **x.v))
    # the default delimiter of the preambles
    t, r = draw(rng, "tari"), draw(rng, "rtcal")
    s = p.ReaderFrame(p.ReaderSync(t * 1e-9, r * 1e-9), obj)
    if kind != "Query":
        ev.append(dict(op="rframe", c=c, tari=t, rtcal=r, trcal=1, delim=12500, d=[dict(k="all", n="frame", v=ns(s.duration))]))
    # arbitrary bit strings
    b = [rng.randrange(2) for _ in range(rng.randrange(0, 60))]
    if rng.random() < .3:
        b = [1, 0, 0, 0] + b
    ev.append(dict(op="rframe", b=b, d=[dict(k="all", n="string", v=ns(x.call(p.reader_frame_duration, "".join(map(str, b)))))], **x.v))


def tag_frames(rng, d, ev):
    from pysim.models.rfid import epcstd as p
    x = Args(rng, ("dr", "trcal", "m", "trext"), d)
    v = x.v
    kind = keep(rng, "reply", lambda: rng.choice(["rn16", "epc", "handle", "data"]))
    n = keep(rng, "reply length", lambda: rng.choice([0, 2, 8, 12, 16, 2 * rng.randrange(32), 2 * rng.randrange(32, 256)]))
    hexs = keep(rng, ("content", n), lambda: "".join(f"{rng.randrange(256):02X}" for _ in range(n)))
    rep = dict(rn16=lambda: p.QueryReply(rng.randrange(65536)), handle=lambda: p.ReqRNReply(rng.randrange(65536), 0x1234),
               epc=lambda: p.AckReply(hexs), data=lambda: p.ReadReply(hexs, 1, 2))[kind]()
    blf = p.get_blf(real("dr", v["dr"]), v["trcal"] * 1e-9)
    enc = real("m", v["m"])
    pre = p.create_tag_preamble(enc, v["trext"])
    f = p.TagFrame(pre, rep)
    res = [dict(k="all", n="frame", v=ns(f.get_duration(blf))), dict(k="body", n="frame", v=ns(f.get_body_duration(blf))),
           dict(k="pre", n="preamble", v=ns(pre.get_duration(blf))), dict(k="pre", n="preamble_duration", v=ns(p.tag_preamble_duration(blf, enc, v["trext"]))),
           dict(k="len", n="frame", v=f.bitlen), dict(k="blen", n="reply", v=rep.bitlen), dict(k="plen", n="preamble", v=pre.bitlen),
           dict(k="plen", n="preamble_helper", v=x.call(p.tag_preamble_bitlen, names=("trext",), **({"encoding": enc} if "m" in x.kw else {})))]
    kw = dict(x.kw)
    if "m" in kw:
        kw["encoding"] = kw.pop("m")
    k2 = {k: w for k, w in kw.items() if k in ("encoding", "trext")}
    res.append(dict(k="all", n="tag_frame_duration", v=ns(p.tag_frame_duration(rep, blf, **k2))))
    res.append(dict(k="pre", n="preamble_duration_defaults", v=ns(p.tag_preamble_duration(blf, **k2))))
    if "dr" not in kw and "trcal" not in kw:
        res.append(dict(k="pre", n="preamble_duration_defaults", v=ns(p.tag_preamble_duration(**k2))))
        res.append(dict(k="all", n="tag_frame_duration", v=ns(p.tag_frame_duration(rep, **k2))))
    T = p.ReplyType
    fn, ty, more = dict(rn16=(p.query_reply_duration, T.QUERY_REPLY, {}), handle=(p.reqrn_reply_duration, T.REQRN_REPLY, {}),
                        epc=(p.ack_reply_duration, T.ACK_REPLY, dict(epc_bytelen=n)),
                        data=(p.read_reply_duration, T.READ_REPLY, dict(words_count=n // 2)))[kind]
    res += [dict(k="all", n="helper", v=ns(fn(**kw, **more))), dict(k="all", n="reply_duration", v=ns(p.reply_duration(ty, **kw, **more)))]
    ev.append(dict(op="tframe", kind=kind, bytes=n, d=res, **v))
    if kind == "epc":
        ev.append(dict(op="tframe", kind=kind, bytes=12, d=[dict(k="all", n="default_epc", v=ns(fn(**kw)))], **v))
    if kind == "data":
        ev.append(dict(op="tframe", kind=kind, bytes=2 * d["count"], d=[dict(k="all", n="default_words", v=ns(fn(**kw)))], **v))
    # byte strings as text, lists, tuples and bytes
    raw = list(bytes.fromhex(hexs))
    ok = all(list(p.AckReply(y).epc) == raw and list(p.ReadReply(y).memory) == raw and p.AckReply(y).bitlen == 32 + 8 * n
             for y in (hexs, hexs.lower(), raw, tuple(raw), bytes(raw), bytearray(raw)))
    ok = ok and p.AckReply(raw).get_epc_string() == hexs and p.ReadReply(hexs).get_memory_string() == hexs
    for bad in ([256], [-1], ["0"], 5, [1.5], None):
        try:
            p.AckReply(bad)
            ok = False
        except ValueError:
            pass
    ev.append(dict(op="bytes", ok=ok))


def conforming(rng):
    """Calibration symbols that fit together; at times the last ones with one of them changed."""
    new = conforming_new(rng)
    old = LAST.get("conforming", new)
    if rng.random() < STICK[0]:
        x = tuple(n if rng.random() < .1 else o for o, n in zip(old, new))
        if 2.5 * x[0] <= x[1] <= 3 * x[0] and 1.1 * x[1] <= x[2] <= 3 * x[1]:
            new = x
    LAST["conforming"] = new
    return new


def conforming_new(rng):
    t = draw(rng, "tari")
    r = round(t * rng.uniform(2.5, 3))
    for _ in range(1000):
        c = trcal(rng)
        if 1.1 * r <= c <= 3 * r:
            return t, r, c
    return t, r, 2 * r + 1


def slots(rng, d, ev):
    from pysim.models.rfid import epcstd as p
    t, r, c = conforming(rng)
    if any(abs(c - e) < 2 for e in ALLEDGES):
        return
    a = Args(rng, ("dr", "m", "trext", "sel", "session", "target", "q", "ext", "crc5", "crc16"), d, .9)
    v, delim, rn, epc = a.v, draw(rng, "delim"), draw(rng, "rn"), keep(rng, "epc length", lambda: rng.choice([2, 12, 30]))
    typ = keep(rng, "slot", lambda: rng.choice(["EMPTY", "COLLISION", "INVENTORY", "ACCESS"]))
    first = keep(rng, "first", lambda: rng.random() < .5)
    ops, reads = [], []
    if typ == "ACCESS" and keep(rng, "reads", lambda: rng.random() < .8):
        for j in range(keep(rng, "read number", lambda: rng.choice([0, 1, 2, 3, rng.randrange(4, 9)]))):
            o = p.TagReadOp()
            b, w, n = draw(rng, "bank"), draw(rng, "ptr"), keep(rng, ("words", j), lambda: rng.randrange(1, 40))
            o.bank, o.word_ptr, o.word_count = real("bank", b), w, n
            ops.append(o)
            reads.append(dict(cmd="Read", bank=b, ptr=w, count=n, rn=rn, crc=v["crc16"]))
    else:
        ops = None
    how = keep(rng, "how", lambda: rng.choice(["plain", "plain", "min", "max"]))
    if how == "plain":
        got = a.call(p.slot_duration, p.SlotType[typ], ops, tari=t * 1e-9, rtcal=r * 1e-9, trcal=c * 1e-9, delim=delim * 1e-9,
                     rn=rn, epc=epc, is_first=first)
    else:
        v.update(dict(m=1, trext=False, sel="ALL", session=0, target="A", q=0, crc5=0, crc16=0) if how == "min" else
                 dict(m=8, trext=True, sel="SL", session=3, target="B", q=15, crc5=31, crc16=65535))
        rn = 0 if how == "min" else 65535
        reads = [dict(x, rn=rn, crc=v["crc16"]) for x in reads]
        fn = p.slot_duration_min if how == "min" else p.slot_duration_max
        got = a.call(fn, p.SlotType[typ], ops, names=("dr", "ext"), tari=t * 1e-9, rtcal=r * 1e-9, trcal=c * 1e-9, delim=delim * 1e-9,
                     epc=epc, is_first=first)
    q = {k: v[k] for k in ("dr", "m", "trext", "sel", "session", "target", "q")}
    ev.append(dict(op="slot", type=typ, first=first, v=ns(got), c=dict(query=dict(q, cmd="Query", crc=v["crc5"]),
        rep=dict(cmd="QueryRep", session=v["session"]), ack=dict(cmd="Ack", rn=rn), reads=reads),
        x=dict(tari=t, rtcal=r, trcal=c, delim=delim, dr=v["dr"], ext=v["ext"], m=v["m"], trext=v["trext"], epc=epc)))


def elementary(rng, d, ev):
    from pysim.models.rfid import epcstd as p
    a = Args(rng, ("tari", "rtcal", "trcal", "delim", "ext", "dr", "m", "trext", "sel", "session", "target", "q", "bank", "ptr", "count"), d)
    v = a.v
    rn, crc = draw(rng, "rn"), draw(rng, "crc5")
    ne, nm = keep(rng, "epc bytes", lambda: rng.randrange(0, 20)), keep(rng, "data bytes", lambda: 2 * rng.randrange(0, 20))
    r = a.call(p.get_elementary_timings, rn=rn, crc=crc, epc="5A" * ne, mem="C3" * nm)
    link = {k: v[k] for k in LINK}
    q = {k: v[k] for k in ("dr", "m", "trext", "sel", "session", "target", "q")}
    for key, c in (("Query", dict(q, cmd="Query", crc=crc)), ("QueryRep", dict(cmd="QueryRep", session=v["session"])),
                   ("ACK", dict(cmd="Ack", rn=rn)), ("ReqRN", dict(cmd="ReqRN", rn=rn, crc=crc)),
                   ("Read", dict(cmd="Read", bank=v["bank"], ptr=v["ptr"], count=v["count"], rn=rn, crc=crc))):
        shown = [dict(k="all", n="printed", v=printed(p, r, key))]
        ev.append(dict(op="rframe", c=c, d=[dict(k="all", n="elementary", v=ns(r[key]))] + shown, **link))
    for key, kind, n in (("RN16", "rn16", 0), ("Response", "epc", ne), ("Handle", "handle", 0), ("Data", "data", nm)):
        ev.append(dict(op="tframe", kind=kind, bytes=n, d=[dict(k="all", n="elementary", v=ns(r[key])), dict(k="all", n="printed", v=printed(p, r, key))],
                       **{k: v[k] for k in ("dr", "trcal", "m", "trext")}))
    same = all(r[k] == w for k, w in (("Tari", v["tari"] * 1e-9), ("RTcal", v["rtcal"] * 1e-9), ("TRcal", v["trcal"] * 1e-9),
        ("Q", v["q"]), ("DR", real("dr", v["dr"])), ("M", real("m", v["m"])), ("Session", real("session", v["session"])),
        ("Target", real("target", v["target"])), ("TRext", v["trext"])) if not isinstance(w, float)) and all(
        abs(r[k] - v[n] * 1e-9) < 1e-12 for k, n in (("Tari", "tari"), ("RTcal", "rtcal"), ("TRcal", "trcal"), ("Delim", "delim")))
    ev.append(dict(op="bytes", ok=same))
    return v, r


def printed(p, r, name):
    """A timing as the report of all timings shows it, in ns."""
    for line in p.prettify_elementary_timings(r).split("\n"):
        k, _, w = line.partition(":")
        if k.strip() == name:
            return ns(float(w.replace("us", "")) * 1e-6)
    return -1


def c23(chk: Check):
    from pysim.models.rfid import epcstd as p
    rng = random.Random(chk.seed * 29 + 23)
    mc(chk)
    ev = []
    # every Query, and every other command over its small fields
    for dr in DR:
        for m in (1, 2, 4, 8):
            for trext in (False, True):
                for sel in SEL:
                    for s in range(4):
                        for t in "AB":
                            for q in (range(16) if not chk.quick else [rng.randrange(16)]):
                                crc = rng.randrange(32)
                                o = p.Query(real("dr", dr), real("m", m), trext, real("sel", sel), real("session", s), real("target", t), q, crc)
                                ev.append(dict(op="enc", c=dict(cmd="Query", dr=dr, m=m, trext=trext, sel=sel, session=s, target=t, q=q, crc=crc),
                                               bits=bits(o.encode()), len=o.bitlen))
    for s in range(4):
        for u in (-1, 0, 1):
            o = p.QueryAdjust(real("session", s), u)
            ev.append(dict(op="enc", c=dict(cmd="QueryAdjust", session=s, updn=u), bits=bits(o.encode()), len=o.bitlen))
        o = p.QueryRep(real("session", s))
        ev.append(dict(op="enc", c=dict(cmd="QueryRep", session=s), bits=bits(o.encode()), len=o.bitlen))
    for q in range(16):
        o = p.Query(q=q)
        ev.append(dict(op="enc", c=dict({k: STD[k] for k in ("dr", "m", "trext", "sel", "session", "target")}, cmd="Query", q=q, crc=0),
                       bits=bits(o.encode()), len=o.bitlen))
    for w in list(range(0, 300)) + [2**k + j for k in range(7, 28) for j in (-1, 0, 1)]:
        o = p.Read(p.MemoryBank.USER, w, 1, 2, 3)
        ev.append(dict(op="enc", c=dict(cmd="Read", bank="User", ptr=w, count=1, rn=2, crc=3), bits=bits(o.encode()), len=o.bitlen))
    for k in range(chk.n(1000, 14000)):
        if k % 20 == 0:
            STICK[0] = (0.0, .9, .97)[k // 20 % 3]
        with defaults(rng, k % 3 == 0 if not STICK[0] else k // 20 % 6 > 2) as d:
            for f in (reader_frames, tag_frames, slots):
                f(rng, d, ev)
            if k % 4 == 0:
                elementary(rng, d, ev)
    chk.sample(dict(events=[ev[0], ev[-1]]))
    chk.validate("FrameTrace", [dict(ev=ev[k::16]) for k in range(16)])


def mc(chk):
    chk.model_check("FramesMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        f"CONSTANTS Small = {'TRUE' if chk.quick else 'FALSE'} TrcalStep = {chk.n(250, 10)}\n"
        "INVARIANTS DecodesBack Lengths TimesGrowWithOnes LinkOrdered\n", "FramesMC", workers=8)


def timings(p, a, v):
    """Every accessor of every link timing, as (timing, max?, accessor, value)."""
    kw = {ARG.get(k, k): w for k, w in a.kw.items()}
    sub = lambda *n: {ARG.get(k, k): w for k, w in a.kw.items() if k in n}
    full = ("rtcal", "trcal", "dr", "ext")
    t = []
    one = dict(T1n=(1, 0, p.link_t1_min, full), T1x=(1, 1, p.link_t1_max, full), T2n=(2, 0, p.link_t2_min, ("trcal", "dr")),
               T2x=(2, 1, p.link_t2_max, ("trcal", "dr")), T3=(3, 0, p.link_t3, ()), T4=(4, 0, p.link_t4, ("rtcal",)),
               T5n=(5, 0, p.link_t5_min, full), T5x=(5, 1, p.link_t5_max, ()), T6n=(6, 0, p.link_t6_min, full),
               T6x=(6, 1, p.link_t6_max, ()), T7n=(7, 0, p.link_t7_min, ("trcal", "dr")), T7x=(7, 1, p.link_t7_max, ()))
    for k, mx, fn, names in one.values():
        t.append((k, mx, "single", fn(**sub(*names))))
    for k in range(1, 8):
        lo, hi = p.link_t(k, **kw)
        t += [(k, 0, "pair", lo), (k, 1, "pair", hi), (k, 0, "indexed", p.min_link_t(k, **kw)), (k, 1, "indexed", p.max_link_t(k, **kw))]
    lists = [p.link_t(**kw), p.min_link_t(None, **kw), p.max_link_t(None, **kw)]
    for k in range(7):
        if len(lists[0]) > k and len(lists[1]) > k and len(lists[2]) > k:
            t += [(k + 1, 0, "list", lists[1][k]), (k + 1, 1, "list", lists[2][k]), (k + 1, 0, "pairs", lists[0][k][0]), (k + 1, 1, "pairs", lists[0][k][1])]
    return t, [len(x) for x in lists]


def rejects(p, kw):
    for k in (0, 8, -1, 9):
        for fn in (p.min_link_t, p.max_link_t, p.link_t):
            try:
                fn(k, **kw)
                return False
            except ValueError:
                pass
    return True


def c24(chk: Check):
    from pysim.models.rfid import epcstd as p
    rng = random.Random(chk.seed * 29 + 24)
    mc(chk)
    ev = []
    for k in range(chk.n(2500, 40000)):
        if k % 20 == 0:
            STICK[0] = (0.0, .8)[k // 20 % 2]
        with defaults(rng, k % 3 == 0 if not STICK[0] else k // 20 % 6 > 2) as d:
            a = Args(rng, ("rtcal", "trcal", "dr", "ext"), d, rng.choice([.3, .8, 1]))
            v = a.v
            if any(abs(v["trcal"] - e) < 2 for e in ALLEDGES):
                continue
            kw = {("temp_range" if n == "ext" else n): w for n, w in a.kw.items() if n != "rtcal"}
            t, n = timings(p, a, v)
            if k % 5 == 0:
                v2, r = elementary(rng, d, [])
                for j in range(1, 8):
                    for mx, w in ((0, r[f"T{j}(min)"]), (1, r[f"T{j}(max)"])):
                        shown = [dict(k=j, mx=bool(mx), n="printed", v=printed(p, r, f"T{j}({'max' if mx else 'min'})"))] if k % 25 == 0 else []
                        ev.append(dict(op="link", t=[dict(k=j, mx=bool(mx), n="elementary", v=ns(w))] + shown, **_link(p, rng, v2)))
            fd = {x: w for x, w in kw.items() if x != "temp_range"}
            ev.append(dict(op="link", frt=round(float(p.get_frt(**kw)) * 10000), pri=round(p.get_pri(**fd) * 1e11),
                           blf=round(1e11 / p.get_blf(**fd)), t=[dict(k=a_, mx=bool(b), n=c, v=ns(e)) for a_, b, c, e in t],
                           lists=n, rejects=rejects(p, {}) if k % 50 == 0 else True, **{x: v[x] for x in ("rtcal", "trcal", "dr", "ext")}))
    for (dr, ext), tab in EDGES.items():
        for e in tab:
            ev.append(dict(op="edge", frt=round(float(p.get_frt(e * 1e-6, real("dr", dr), real("ext", ext))) * 10000),
                           trcal=-(-round(e * 10000) // 10), dr=dr, ext=ext))
    chk.sample(dict(events=[ev[0]]))
    chk.validate("FrameTrace", [dict(ev=ev[k::16]) for k in range(16)])


def _link(p, rng, v):
    dr, tr = real("dr", v["dr"]), v["trcal"] * 1e-9
    return dict(frt=round(float(p.get_frt(tr, dr, real("ext", v["ext"]))) * 10000), pri=round(p.get_pri(tr, dr) * 1e11),
                blf=round(1e11 / p.get_blf(dr, tr)), lists=[7, 7, 7], rejects=True, **{x: v[x] for x in ("rtcal", "trcal", "dr", "ext")})


def c13(chk: Check):
    import math
    import numpy as np
    from pysim.models.rfid import epcstd as p
    from pysim.models.tag_time import calculate_params as cp
    rng = random.Random(chk.seed * 29 + 13)
    mc(chk)
    ev = []
    for k in range(chk.n(900, 12000)):
        words = rng.choice([1, 2, 4, 7, 16, 32, 64, 255, 256, rng.randrange(1, 300)])
        chunks = rng.choice([1, 1, 2, 3, 4, 5, 8, rng.randrange(1, 40)])
        if chunks > words:
            chunks = rng.choice([1, words])
        x = dict(words=words, chunks=chunks, tari=80 * rng.randrange(79, 313), m=rng.choice([1, 2, 4, 8]), dr=rng.choice([8, 64]),
                 trext=rng.random() < .5)
        trc = x["tari"] * 429 // 80
        if any(abs(trc - e) < 2 for e in ALLEDGES):
            continue
        points = rng.choice([1, 1, 2, 5, 20])
        ber = np.array(sorted(rng.choice([0.0, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, .05, rng.uniform(0, .02), 1.0]) for _ in range(points)))
        if rng.random() < .3:
            ber = ber[::-1]
        w, last = cp.calculate_chunks(words, chunks)
        par = cp.build_messages_df(tari_us=x["tari"] / 1000, m=real("m", x["m"]), dr=real("dr", x["dr"]), trext=x["trext"],
                                   chunks_number=chunks, words_number_in_one_chunk=w, last_chunk_len=last)
        probs = cp.prepare_probs(par, chunks, ber, points)
        times = cp.prepare_times(par, probs, chunks)
        lens, ends = [], True
        for b, row in zip(ber, probs):
            o = []
            for y in row:
                y = float(y)
                if b in (0.0, 1.0):
                    ends = bool(ends and y == 1.0 - float(b))
                    o.append(-1)
                elif y < 1e-280 or (1 - y) < 1e-7:
                    # too small or too close to one to recover the length; still compared with the next coarser unit
                    o.append(-1 if 0 <= y <= 1 else -2)
                else:
                    o.append(round(math.log(y) / math.log1p(-b) * 1000) if 0 < y else -2)
            # logarithms of values close to one lose digits: snap to whole bits where the loss explains the difference
            o = [round(v / 1000) * 1000 if v > 0 and abs(v - round(v / 1000) * 1000) <= 2 + 3e-13 / float(b) else v for v in o]
            lens.append(o)
        mono = all(float(probs[i][j]) >= float(probs[i2][j]) - 1e-15 for i in range(len(probs)) for i2 in range(len(probs))
                   for j in range(min(len(probs[i]), len(probs[i2]))) if i < len(ber) and i2 < len(ber) and ber[i] <= ber[i2])
        sc = 3 if chunks > 1 else rng.choice([1, 2, 3])
        n = rng.randrange(1, 1000)
        dd = cp.create_dicts(probs, times, chunks, sc, n)
        ok = (dd.get("probability") == probs and dd.get("processing_time") == times and dd.get("chunks_number") == chunks
              and dd.get("scenario") == sc and dd.get("max_transmisions") == n)
        ev.append(dict(op="prep", x=x, w=int(w), last=int(last), points=points, lens=lens, times=[[ns(y) for y in r] for r in times],
                       ends=ends, mono=mono, dict=ok))
        
    chk.sample(dict(events=[ev[0]]))
    chk.validate("FrameTrace", [dict(ev=ev[k::16]) for k in range(16)])
    chk.assumptions.append("the length of a reply is recovered from its survival probability as log p / log(1 - BER)")
