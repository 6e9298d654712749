"""One function per property: what is explored in the model, run on the code and validated."""


def strset(*a):
    return "{" + ", ".join('"%s"' % x for x in a) + "}"


def p09(c):
    mods = [dict(Tids="{0, 1, 2}", Vals=strset("aa", "bbbb"), MaxLen="2", MaxOps="9", UsePut="FALSE"),
            dict(Tids="{0, 1}", Vals=strset("", "aa"), MaxLen="2", MaxOps="9", UsePut="TRUE")]
    if c.thorough:
        mods = [dict(Tids="{0, 1, 2}", Vals=strset("", "aa", "bbbb"), MaxLen="2", MaxOps="9", UsePut="FALSE"),
                dict(Tids="{0, 1}", Vals=strset("", "aa", "bbbb"), MaxLen="3", MaxOps="12", UsePut="TRUE")]
    tests = []
    for m in mods:
        tests += c.model("MC_Tagset", m, invariants=["InvType", "InvUniq"], properties=["ActOthers"],
                         constraints=["Bound", "Depth"], view="View")
    c.validate("Trace_Tagset", c.harness("tagset", c.sample(tests, 400000 if c.thorough else 25000)))
    c.validate("Trace_Tagset", c.harness("tagraw"))


ALLMODES = strset("single", "split")


def store_consts(ops, keys, conts, maxtab, maxputs, maxops, modes=ALLMODES, tagvals=None, cuts="{}", sim=False):
    return {k: str(v) for k, v in dict(
        Modes=modes, Keys0=keys, Contents=conts, TagVals=tagvals or strset("6c31", "6c6f6e6765722076616c7565"),
        OpSet=ops, MaxTab=maxtab, MaxPuts=maxputs, MaxOps=maxops, Cuts=cuts, Sim="TRUE" if sim else "FALSE").items()}


def store_model(c, *a, **kw):
    return c.model("MC_Store", store_consts(*a, **kw), invariants=["I1", "I2", "I3"],
                   properties=["ActDisk", "ActKeep"], constraints=["Bound"], view="View", timeout=850)


def store_sim(c, num, *a, **kw):
    k = store_consts(*a, sim=True, **kw)
    return c.simulate("MC_Store", k, 10 * num, int(k["MaxOps"]) + 1, constraints=["Bound"])


def store_run(c, area, tests, aspects, args=()):
    c.validate("Trace_Store", c.harness(area, tests, args=args), consts=dict(Aspects=strset(*aspects)))


BIGKEYS = strset("a", "b", "d/a", "A")   # and a name with a backslash, see MC_Store
BIGCONT = strset("c0", "c1", "c3", "c4", "c6")


def p01(c):
    ops = strset("begin", "put", "settag", "setinfo", "del", "sync", "append", "reopen")
    allops = strset("new", "begin", "put", "settag", "deltag", "setinfo", "del", "rename", "alias", "sync", "append", "reopen")
    asp = ("mem", "disk")
    t = store_model(c, ops, strset("a", "d/b"), strset("c1"), 2, 2 if not c.thorough else 3, 7 if not c.thorough else 9)
    store_run(c, "store", c.sample(t, 60000 if c.thorough else 5000), asp)
    t = store_sim(c, 40 if not c.thorough else 600, allops, BIGKEYS, BIGCONT, 5, 9, 16 if not c.thorough else 30)
    store_run(c, "store", c.sample(t, 12000 if c.thorough else 700), asp)
    # tag sets near the longest that can be stored, and longer
    big = dict(tagvals=strset("6c31", "@32768", "@65000", "@65530"))
    t = store_model(c, strset("begin", "put", "settag", "setinfo", "sync", "append"), strset("a"), strset("c1"), 1, 1,
                    5 if not c.thorough else 7, **big)
    store_run(c, "store", c.sample(t, 20000 if c.thorough else 1500), asp)
    # the longest tag set that can be stored: with an offset and a size of two bytes
    t = store_model(c, strset("begin", "put", "settag", "sync"), strset("a", "b"), strset("c3"), 2, 2,
                    5 if not c.thorough else 6, tagvals=strset("@65514"))
    store_run(c, "store", c.sample(t, 20000 if c.thorough else 500), asp)
    t = store_sim(c, 10 if not c.thorough else 100, allops, BIGKEYS, strset("c0", "c3"), 3, 5, 14, **big)
    store_run(c, "store", c.sample(t, 2000 if c.thorough else 100), asp)


def p03(c):
    ops = strset("begin", "put", "alias", "sync", "append", "reopen", "hold", "del")
    allops = strset("begin", "put", "settag", "deltag", "setinfo", "del", "rename", "alias", "sync", "append", "reopen", "hold")
    asp = ("mem", "cont", "memext")
    t = store_model(c, ops, strset("a", "b"), strset("c3"), 2, 3, 7 if not c.thorough else 9)
    store_run(c, "store", c.sample(t, 60000 if c.thorough else 4000), asp)
    t = store_sim(c, 40 if not c.thorough else 600, allops, BIGKEYS, BIGCONT, 5, 9, 16 if not c.thorough else 30)
    store_run(c, "store", c.sample(t, 12000 if c.thorough else 700), asp)
    # packing calls that fail at every point of theirs
    t = store_sim(c, 20 if not c.thorough else 200, strset("begin", "put", "alias", "sync", "append", "del"), strset("a", "b", "d/a"), strset("c0", "c3", "c7"), 4, 8, 10)
    store_run(c, "fault", c.sample(t, 1500 if c.thorough else 80), asp)


def p08(c):
    ops = strset("begin", "put", "settag", "setinfo", "del", "sync", "append", "reopen")
    asp = ("disk", "quick")
    t = store_model(c, ops, strset("a"), strset("c1"), 2, 2, 7 if not c.thorough else 10)
    store_run(c, "store", c.sample(t, 60000 if c.thorough else 4000), asp)
    t = store_sim(c, 30 if not c.thorough else 400, ops, BIGKEYS, BIGCONT, 5, 9, 14 if not c.thorough else 24)
    store_run(c, "store", c.sample(t, 8000 if c.thorough else 600), asp)
    format_run(c, ("quick",))


CRASHOPS = ("begin", "put", "settag", "del", "setinfo", "sync", "append", "reopen")
CRASHASP = ("mem", "disk", "cont")


def p04(c):
    ops = strset(*CRASHOPS, "stop")
    kw = dict(modes=strset("split"), cuts="{0, 1, 2, 3, 4, 5}")
    t = store_model(c, ops, strset("a"), strset("c2"), 2, 2 if not c.thorough else 3, 6 if not c.thorough else 8, **kw)
    store_run(c, "crash", c.sample(t, 30000 if c.thorough else 2500), CRASHASP)
    t = store_sim(c, 30 if not c.thorough else 300, ops, strset("a", "b", "d/a"), strset("c0", "c2", "c3", "c7"), 4, 8, 14, **kw)
    store_run(c, "crash", c.sample(t, 6000 if c.thorough else 500), CRASHASP)


def p05(c):
    ops = strset(*CRASHOPS)
    kw = dict(modes=strset("single"))
    t = store_model(c, ops, strset("a"), strset("c2"), 2, 2 if not c.thorough else 3, 7 if not c.thorough else 9, **kw)
    store_run(c, "crash", c.sample(t, 30000 if c.thorough else 2500), CRASHASP)
    t = store_sim(c, 30 if not c.thorough else 300, ops, strset("a", "b", "d/a"), strset("c0", "c2", "c3", "c7"), 4, 8, 14, **kw)
    store_run(c, "crash", c.sample(t, 6000 if c.thorough else 500), CRASHASP)


def p06(c):
    ops = strset(*CRASHOPS)
    kw = dict(modes=strset("split"))
    t = store_model(c, ops, strset("a"), strset("c2"), 2, 2 if not c.thorough else 3, 6 if not c.thorough else 7, **kw)
    store_run(c, "crash", c.sample(t, 10000 if c.thorough else 600), CRASHASP, args=["overlap"])
    t = store_sim(c, 30 if not c.thorough else 300, ops, strset("a", "b", "d/a"), strset("c0", "c2", "c3"), 4, 8, 12, **kw)
    store_run(c, "crash", c.sample(t, 1500 if c.thorough else 120), CRASHASP, args=["overlap"])


def p18(c):
    ops = strset("begin", "put", "settag", "setinfo", "del", "sync", "append", "reopen")
    asp = ("mem", "disk", "cont")
    t = store_model(c, ops, strset("a", "b"), strset("c2"), 2, 2, 6 if not c.thorough else 7)
    store_run(c, "fault", c.sample(t, 8000 if c.thorough else 700), asp)
    t = store_sim(c, 20 if not c.thorough else 200, ops, strset("a", "b", "d/a"), strset("c0", "c3", "c7"), 4, 8, 12)
    store_run(c, "fault", c.sample(t, 1500 if c.thorough else 80), asp)
    # a lasting failure, over several syncs
    t = store_sim(c, 60 if not c.thorough else 600, strset("begin", "put", "del", "sync"), strset("a", "b"), strset("c2"), 2, 8, 10,
                  modes=strset("split"))
    store_run(c, "fault", c.sample(t, 3000 if c.thorough else 250), asp, args=["lasting"])


def p02(c):
    def consts(**k):
        return {a: str(b) for a, b in k.items()}
    m = consts(Sizes="{0, 1, 3}", Lens="{0, 1, 2, 5}", Offs="{0, 1, 2, 4}", Handles="{1, 2}", MaxPos=4, MaxOps=5, Sim="FALSE")
    if c.thorough:
        m = consts(Sizes="{0, 1, 2, 4}", Lens="{0, 1, 2, 3, 6}", Offs="{0, 1, 3, 5}", Handles="{1, 2}", MaxPos=6, MaxOps=6, Sim="FALSE")
    t = c.model("MC_Reader", m, invariants=["I1", "I2"], properties=["ActCursor"], constraints=["Bound"], view="View")
    t = c.sample(t, 60000 if c.thorough else 8000)
    m = consts(Sizes="{9, 100, 4096, 65535, 65536, 65537, 131073}", Lens="{0, 1, 13, 100, 4096, 65536, 200000}",
               Offs="{0, 1, 17, 4095, 65535, 65536, 70000}", Handles="{1, 2}", MaxPos=300000, MaxOps=12, Sim="TRUE")
    u = c.simulate("MC_Reader", m, 40 if not c.thorough else 600, 13, constraints=["Bound"])
    t += c.sample(u, 30000 if c.thorough else 1500)
    c.validate("Trace_Reader", c.harness("reader", t))


def format_run(c, aspects):
    t = c.model("MC_Format", dict(Rich="TRUE" if c.thorough else "FALSE"), invariants=["RoundTrip", "Sound"])
    c.validate("Trace_Format", c.harness("format", t), consts=dict(Aspects=strset(*aspects)))


def p07(c):
    format_run(c, ("open",))


def names_consts(ops, comps, subs, maxtab, maxputs, maxops, maxviews=1, styles="{0, 1}", sim=False):
    return dict(Comps=comps, OpSet=strset(*ops), Subs=subs, MaxTab=str(maxtab), MaxPuts=str(maxputs), MaxOps=str(maxops),
                MaxViews=str(maxviews), Styles=styles, Sim="TRUE" if sim else "FALSE")


def names_model(c, *a, **kw):
    return c.model("MC_Names", names_consts(*a, **kw), invariants=["InvUnique", "InvTree"],
                   properties=["ActInside", "ActKeep"], constraints=["Bound"], view="View", timeout=850)


def names_sim(c, num, *a, **kw):
    k = names_consts(*a, sim=True, **kw)
    return c.simulate("MC_Names", k, num, int(k["MaxOps"]) + 1, constraints=["Bound"])


def names_run(c, tests, aspects):
    c.validate("Trace_Names", c.harness("names", tests), consts=dict(Aspects=strset(*aspects)))


NAMEOPS = ("put", "del", "tag", "rename", "alias", "renamedir", "reopen")


def p10(c):
    t = names_model(c, NAMEOPS, strset("a", "d"), "{}", 2, 2, 4 if not c.thorough else 5, styles="{0}")
    names_run(c, c.sample(t, 40000 if c.thorough else 3500), ("ops",))
    t = names_sim(c, 150 if not c.thorough else 2000, NAMEOPS + ("sub",), strset("a", "d", "da", "longer name"), strset("d", "d/d", "da"), 7, 9, 12, maxviews=3, styles="{0, 1, 2}")
    names_run(c, c.sample(t, 15000 if c.thorough else 900), ("ops",))


def p12(c):
    ops = ("put", "del", "rename", "alias", "renamedir", "reopen")
    t = names_model(c, ("put", "del", "rename"), strset("a", "d"), "{}", 3, 3, 4 if not c.thorough else 5, styles="{0}")
    names_run(c, c.sample(t, 20000 if c.thorough else 900), ("root",))
    t = names_sim(c, 150 if not c.thorough else 2000, ops, strset("a", "d", "da", "B", "d.b", "longer name"), "{}", 9, 9, 12, styles="{0, 1, 2}")
    names_run(c, c.sample(t, 12000 if c.thorough else 700), ("root",))


def p13(c):
    ops = ("put", "del", "rename", "tag", "sub")
    t = names_model(c, ops, strset("a", "d"), strset("d", "a", "d/a"), 2, 3, 4 if not c.thorough else 5, maxviews=2, styles="{0}")
    t = [x for x in t if any(o["op"] == "sub" for o in x["ops"])]
    names_run(c, c.sample(t, 20000 if c.thorough else 900), ("sub",))
    t = names_sim(c, 200 if not c.thorough else 2500, NAMEOPS + ("sub",), strset("a", "d", "da", "e"), strset("d", "d/d", "da", "e", "a"), 9, 9, 13, maxviews=4, styles="{0, 1, 2}")
    names_run(c, c.sample([x for x in t if any(o["op"] == "sub" for o in x["ops"])], 12000 if c.thorough else 700), ("sub",))


def p14(c):
    t = c.model("MC_Union", dict(MaxPk="3"), invariants=["InvSub", "InvFirst", "InvAll"])
    c.validate("Trace_Names", c.harness("union", c.sample(t, 9000 if c.thorough else 800)), consts=dict(Aspects=strset("union")))


def p11(c):
    t = c.model("MC_Enc", dict(Rich="TRUE" if c.thorough else "FALSE"), invariants=["Back"])
    c.validate("Trace_Enc", c.harness("enc", c.sample(t, 100000 if c.thorough else 12000)))


def conc_model(c, calls, threads="{1, 2}", per=1, locked="TRUE", emit=False, expect=None):
    k = dict(Threads=threads, CallIds=strset(*calls), PerThread=str(per), Locked=locked, Sim="FALSE")
    return c.model("MC_Conc", k, invariants=["InvKept", "InvDisk"], properties=["ActSync"], emit=emit, view="View",
                   workers=4, expect_violation=expect, timeout=850)


def conc_gen(c, calls, num, threads="{1, 2, 3}", per=2, depth=60):
    return c.simulate("MC_Conc", dict(Threads=threads, CallIds=strset(*calls), PerThread=str(per), Locked="FALSE", Sim="TRUE"), num, depth)


def conc_run(c, tests, aspects, race=True):
    k = dict(Aspects=strset(*aspects))
    c.validate("Trace_Conc", c.harness("conc", tests), consts=k)
    c.validate("Trace_Conc", c.harness("concfree"), consts=k)
    if race:
        c.validate("Trace_Conc", c.harness("concfree", race=True, args=["race"], env=dict(GORACE="halt_on_error=1")), consts=k)


PACKS = ("pa1", "pa2", "pb2", "fa1", "xb1", "pa0", "fc2")


def conc_pre(c, setup, a, b, maxb, num, aspects):
    t = c.model("MC_ConcPre", dict(SetupIds=strset(*setup), AIds=strset(*a), BIds=strset(*b), MaxB=str(maxb)),
                invariants=["InvUniq", "InvCount", "InvKept", "InvMoved", "InvEnd"], workers=4)
    c.validate("Trace_Conc", c.preempt("concpre", c.sample(t, num)), consts=dict(Aspects=strset(*aspects)))


def p15(c):
    small = PACKS[:5]
    conc_model(c, small, threads="{1, 2, 3}" if c.thorough else "{1, 2}", per=1 if c.thorough else 2)
    conc_model(c, small, locked="FALSE", expect="InvKept")
    t = conc_gen(c, PACKS, 20000 if c.thorough else 1500)
    conc_run(c, c.sample(t, 20000 if c.thorough else 1500), ())
    a = ("pa1", "fa1", "xa1", "pb1", "rcb", "rca", "lca", "mdg", "mde", "da")
    b = ("pa2", "da", "dc", "ddp", "pb1", "fb1", "rca", "rcb", "lcb", "pgp")
    conc_pre(c, ("pa2", "pc1", "pdp"), a[:-2], b, 1, 150 if not c.thorough else 1000, ())
    conc_pre(c, ("pa2", "pc1", "pdp", "pdq"), a, b + ("peq",), 2, 60 if not c.thorough else 2500, ())


def p16(c):
    small = ("pa1", "pb2", "xb1", "sync")
    conc_model(c, small, threads="{1, 2, 3}" if c.thorough else "{1, 2}", per=1 if c.thorough else 2)
    conc_model(c, small, locked="FALSE", per=2, expect="InvDisk")
    t = conc_gen(c, PACKS + ("sync",), 20000 if c.thorough else 1500)
    t = [x for x in t if any(k["k"] == "sync" for p in x["prog"] for k in p)]
    conc_run(c, c.sample(t, 20000 if c.thorough else 1500), ("views",))
    rest = ("pb1", "fb1", "xb1", "da", "rab", "lcb", "mdg")
    conc_pre(c, ("pa2", "pc1", "pdp"), ("sync",), rest + ("sync",), 2, 100 if not c.thorough else 2000, ("views",))
    conc_pre(c, ("pa2", "pc1", "pdp"), rest, ("sync",), 2, 80 if not c.thorough else 1000, ("views",))


def p17(c):
    k = dict(Ks=strset("a", "b", "c"), Vs=strset("x", "y"), MaxOps="5")
    if c.thorough:
        k = dict(Ks=strset("a", "b", "c", "d"), Vs=strset("x", "y"), MaxOps="7")
    t = c.model("MC_SeqMap", k, invariants=["InvUniq"], properties=["ActOrder"], constraints=["Bound"], view="View")
    c.validate("Trace_SeqMap", c.harness("seqmap", c.sample(t, 60000 if c.thorough else 5000)))
    t = c.model("MC_SeqMapPre", dict(Ks=strset("a", "b"), MaxB="1"), invariants=["InvUniq", "InvStay"], workers=4)
    u = c.model("MC_SeqMapPre", dict(Ks=strset("a", "b"), MaxB="2"), invariants=["InvUniq", "InvStay"], workers=4)
    # iterating beside every two changes
    t += [x for x in u if x["a"]["op"] == "range" and x["a"]["n"] > 1 and len(x["b"]) == 2
          and all(o["op"] in ("poke", "push", "delete", "pop") for o in x["b"])]
    t += c.sample(u, 800 if not c.thorough else 8000)
    c.validate("Trace_SeqMap", c.preempt("seqmappre", t))
    c.validate("Trace_SeqMap", c.harness("seqmapfree"))
    c.validate("Trace_SeqMap", c.harness("seqmapfree", race=True, env=dict(GORACE="halt_on_error=1")))


def p19(c):
    sizes = strset("3", "20", "4G", "5G") if not c.thorough else strset("0", "3", "20", "2G-1", "4G-1", "4G", "5G")
    jumps = strset("4G-84", "1T") if not c.thorough else strset("2G-84", "4G-84", "1T")
    t = c.model("MC_Large", dict(SizeIds=sizes, JumpIds=jumps, MaxPacks="3", MaxOps="7"),
                invariants=["InvApart", "InvDisk"], constraints=["Bound"], view="View")
    s = c.simulate("MC_Large", dict(SizeIds=strset("0", "3", "20", "2G-1", "2G", "4G-1", "4G", "4G+1", "5G", "64K"),
                   JumpIds=strset("2G-84", "4G-84", "4G", "1T", "64K"), MaxPacks="6", MaxOps="14"),
                   60 if not c.thorough else 1000, 15, constraints=["Bound"])
    c.validate("Trace_Large", c.harness("large", c.sample(t, 150 if not c.thorough else 1500) + c.sample(s, 100 if not c.thorough else 1000)))


def lua_consts(ops, keys, contents, tagkeys, vals, autos, secrets, tables, maxtab, maxops, paths=strset("p1"), sim=False, warm=False, loaded=False, hist=False):
    return dict(Hist="TRUE" if hist else "FALSE", Loaded="TRUE" if loaded else "FALSE", OpSet=strset(*ops), Keys=strset(*keys), Contents=strset(*contents), Tagkeys=strset(*tagkeys), Vals=strset(*vals),
                Autos=strset(*autos), Secrets=strset(*secrets), Paths=paths, Tables=strset(*tables), MaxTab=str(maxtab),
                MaxOps=str(maxops), Sim="TRUE" if sim else "FALSE", Warm="TRUE" if warm else "FALSE")


def lua_model(c, *a, **kw):
    return c.model("MC_Lua", lua_consts(*a, **kw), invariants=["I1", "I2", "I3"], properties=["ActDisk", "ActPack"],
                   constraints=["Bound"], view="View", timeout=850)


def lua_sim(c, num, *a, **kw):
    k = lua_consts(*a, sim=True, **kw)
    return c.simulate("MC_Lua", k, num, int(k["MaxOps"]) + 1, constraints=["Bound"])


def lua_run(c, tests, aspects):
    c.validate("Trace_Lua", c.harness("lua", tests), consts=dict(Aspects=strset(*aspects)))


LUANAMES = ("a", "b.txt", "d/c.png", "img.PNG", "u.xyz1", "m.m3u8", "M.EOT", "x.map")
LUASES = ("begin", "load", "append", "putdata", "flush", "finalize")


def p20(c):
    th = c.thorough
    t = lua_model(c, LUASES, ("a", "b.txt"), ("c1",), (), (), (), ("s0",), ("t0",), 2, 7 if not th else 9,
                  paths=strset("p1") if not th else strset("p1", "p2"))
    lua_run(c, c.sample(t, 40000 if th else 3000), ("session",))
    t = lua_model(c, ("putdata", "rename", "putalias", "renamedir"), ("d/c.png", "x/c.png", "b.txt/c.png", "a"), ("c1",), (), (), (), ("s0",), ("t0",), 4, 6, warm=True)
    lua_run(c, c.sample([x for x in t if any(o["op"] == "renamedir" for o in x["ops"])], 20000 if th else 1200), ("session", "tags"))
    ops = LUASES + ("new", "putfile", "rename", "renamedir", "putalias", "delalias", "settag", "setupinfo", "label", "auto", "secret")
    t = lua_sim(c, 150 if not th else 2500, ops, LUANAMES[:4], ("c0", "c1", "c2", "c3"), ("comment", "fid"), ("abc", "n5"), ALLAUTOS,
                ("s0", "s1"), ("t0", "t1", "t2", "t5", "bad1", "bad2"), 6, 24, paths=strset("p1", "p2"))
    lua_run(c, c.sample(t, 5000 if th else 600), ("session", "tags"))


ALLVALS = ("abc", "hex", "num", "n5", "n300", "n70000", "n8", "neg", "negs", "frac", "true", "false", "tm", "ms", "tbl", "nil",
           "empty", "long", "toolong")
ALLKEYS = ("fid", "mtime", "mime", "crc32", "crc32c", "crc64", "crc64iso", "md5", "comment", "author", "#115", "#200", "#4", "#5", "#65535", "attr",
           "label", "keywords", "offset", "size", "path", "#1", "#3", "bogus", "#-1", "#1.5", "#65541", "#65536", "@true")
MOREKEYS = ("atime", "ctime", "btime", "crc32ieee", "crc32k", "sha1", "sha224", "sha256", "sha384", "sha512", "tmbjpeg", "tmbwebp", "link",
            "category", "version")
ALLTABLES = ("t0", "t1", "t2", "t3", "t4", "t5", "bad1", "bad2", "bad3", "bad4", "bad5", "bad6", "bad7", "bad8", "del1")
TAGOPS = ("hastag", "gettag", "settag", "addtag", "deltag", "gettags", "settags", "addtags", "deltags")


def p21(c):
    th = c.thorough
    # every value under every key, on files with tags
    t = lua_model(c, ("settag", "addtag", "deltag", "hastag", "gettag"), ("a", "b.txt"), ("c1",), ALLKEYS, ALLVALS, (), ("s0",), ("t1",), 2, 4, warm=True)
    for x in t:     # and read back
        o = x["ops"][-1]
        x["ops"] += [dict(o, op="gettag"), dict(o, op="gettags")]
    # the other names, by fewer values
    u = lua_model(c, ("settag", "addtag", "deltag", "hastag", "gettag"), ("a", "b.txt"), ("c1",), MOREKEYS, ("abc", "hex", "n300", "tm"), (), ("s0",), ("t1",), 2, 4, warm=True)
    for x in u:
        o = x["ops"][-1]
        x["ops"] += [dict(o, op="gettag"), dict(o, op="gettags")]
    lua_run(c, t + u, ("tags",))
    if th:
        t = lua_model(c, ("settag", "addtag", "gettag"), ("a", "b.txt"), ("c1",), ALLKEYS, ALLVALS, (), ("s0",), ("t1",), 2, 5, warm=True)
        lua_run(c, c.sample(t, 60000), ("tags",))
    # tables, on two files
    t = lua_model(c, ("begin", "putdata", "settags", "addtags", "deltags", "putalias", "gettags"), ("a", "b.txt"), ("c1",), (), (), (), ("s0",),
                  ALLTABLES, 2, 5, warm=True)
    lua_run(c, c.sample(t, 40000 if th else 2500), ("tags",))
    # on a package loaded from its file
    t = lua_model(c, TAGOPS[2:5] + TAGOPS[6:], ("a", "b.txt"), ("c1",), ("fid", "comment", "label", "#200"), ("abc", "n5", "n300", "empty"), (), ("s0",),
                  ALLTABLES, 2, 8, warm=True, loaded=True)
    lua_run(c, c.sample(t, 20000 if th else 1500), ("tags",))
    ops = TAGOPS + ("putalias", "rename", "setupinfo", "getinfo", "label", "putdata", "putfile")
    ops2 = ops + ("begin", "finalize", "load", "append")
    t = lua_sim(c, 150 if not th else 2500, ops2, LUANAMES[:3], ("c1", "c2"), ALLKEYS, ALLVALS, ("crc32",),
                ("s0",), ALLTABLES, 6, 24, warm=True)
    lua_run(c, c.sample(t, 5000 if th else 500), ("tags",))


ALLAUTOS = ("fid", "mime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512")


def p22(c):
    th = c.thorough
    t = lua_model(c, ("begin", "auto", "putdata", "finalize", "append", "load", "new"), ("a", "b.txt"), ("c1",), (), (), ("fid",), ("s0",),
                  ("t0", "t2"), 2, 7 if not th else 9, hist=True)
    lua_run(c, c.sample(t, 40000 if th else 4000), ("auto",))
    # identifiers of more than one and two bytes
    t = lua_model(c, ("begin", "auto", "putdata", "delalias", "finalize", "append"), ("a", "b.txt", "d/e"), ("c1",), (), (), ("fid",), ("s0",),
                  ("t0", "t6", "t7"), 3, 5 if not th else 7, hist=True)
    t = [x for x in t if x["ops"][-1]["op"] == "putdata" and any(o["T"] for o in x["ops"][:-1])]
    lua_run(c, c.sample(t, 20000 if th else 1500), ("auto",))
    # types of all names and contents
    t = [x for x in lua_model(c, ("begin", "auto", "putdata", "putfile"), LUANAMES, ("c0", "c1", "c2", "c3", "c4"), (), (), ("mime",), ("s0",),
                              ("t0", "t3"), 1, 3) if [o["op"] for o in x["ops"][:2]] == ["begin", "auto"] or [o["op"] for o in x["ops"][:2]] == ["auto", "begin"]]
    lua_run(c, t, ("auto",))
    ops = LUASES + ("new", "auto", "secret", "putfile", "settag", "settags", "putalias", "rename", "delalias", "deltag", "gettags")
    t = lua_sim(c, 250 if not th else 4000, ops, LUANAMES, ("c0", "c1", "c2", "c3", "c4"), ("fid", "mime", "md5"), ("n5", "n300", "abc"), ALLAUTOS,
                ("s0", "s1", "s2"), ("t0", "t0", "t1", "t2", "t3", "t4"), 9, 30)
    lua_run(c, c.sample(t, 8000 if th else 900), ("auto",))


GOODNAMES = ("a.txt", "d/c.png", "b", "d", "d/e/f.HTML", ".hid", "..x", "a..b", "x y.bin", "D/c.png", "u.xyz1")
HOSTILE = ("a.txt", "d/c.png", "b", "d", "../x", "../../new/y", "a/../../x", "..", ".", "", "/a.txt", "/../x", "a//b", "./b", "a/../b", "d/",
           "..x", "a..b", "d/../../x4/x", "@BASE/x", "../../../../x", "...", "d/..", "x1/x2/x", "d/..x", "a.txt/..", ".../x")


def tools_consts(ops, names, kinds, contents, hostiles, maxops, pkgs=("p1",), sim=False, warm=False, last=None):
    return dict(LastOps=strset(*(last or ops)), Folders=strset("f1", "f2"), Names=strset(*names), Kinds=strset(*kinds), Contents=strset(*contents), Hostiles=strset(*hostiles),
                Pkgs=strset(*pkgs), OpSet=strset(*ops), MaxOps=str(maxops), Sim="TRUE" if sim else "FALSE", Warm="TRUE" if warm else "FALSE")


def tools_model(c, *a, **kw):
    return c.model("MC_Tools", tools_consts(*a, **kw), invariants=["InvTree", "InvWhere", "InvBack"], properties=["ActTree"], view="View", timeout=850)


def tools_sim(c, num, *a, **kw):
    k = tools_consts(*a, sim=True, **kw)
    return c.simulate("MC_Tools", k, num, int(k["MaxOps"]) + 1)


def tools_run(c, tests, aspects):
    tr = c.harness("tools", tests, args=[c.build_cmd("pack"), c.build_cmd("extract")], timeout=800)
    c.validate("Trace_Tools", tr, consts=dict(Aspects=strset(*aspects)))


def p23(c):
    th = c.thorough
    # every name alone, and pairs of some
    t = tools_model(c, ("make", "extract"), ("b",), ("file",), ("c1",), HOSTILE, 2, last=("extract",))
    t += tools_model(c, ("make", "extract", "plant"), ("b", "d"), ("file",), ("c1",), ("b", "d", "d/c.png", "../x"), 3 if not th else 4, last=("extract",))
    tools_run(c, c.sample(t, 6000 if th else 500), ("extract",))
    # packed by the tool and extracted, also with hindrances
    t = tools_model(c, ("put", "pack", "tool", "extract"), ("b", "d/c.png"), ("file",), ("c7",), ("b",), 6, warm=True, last=("extract",))
    tools_run(c, c.sample(t, 4000 if th else 250), ("extract",))
    s = tools_sim(c, 100 if not th else 1500, ("put", "pack", "tool", "make", "cut", "extract", "plant", "clean"), GOODNAMES,
                  ("file", "file", "ln", "dir"), ("c0", "c1", "c2", "c3", "c7"), HOSTILE, 24, pkgs=("p1", "p2"), warm=True)
    tools_run(c, c.sample(s, 3000 if th else 200), ("extract",))
    s = tools_sim(c, 100 if not th else 1500, ("put", "pack", "tool", "make", "extract", "plant"), GOODNAMES,
                  ("file", "file", "file", "dir"), ("c0", "c1", "c2", "c3", "c7"), ("a.txt", "d/c.png", "b", "e/f"), 24, pkgs=("p1", "p2"), warm=True)
    tools_run(c, c.sample(s, 3000 if th else 200), ("extract",))


def p24(c):
    th = c.thorough
    t = tools_model(c, ("put", "pack", "tool"), ("a.txt", "d/c.png", "b"), ("file", "shut", "shutdir", "ln", "lnbad", "dir"), ("c1",), ("b",), 3 if not th else 4, last=("pack",))
    tools_run(c, c.sample(t, 6000 if th else 500), ("pack", "times"))
    s = tools_sim(c, 150 if not th else 2500, ("put", "put", "del", "pack", "tool", "inside"), GOODNAMES,
                  ("file", "file", "shut", "shutdir", "ln", "lndir", "lnbad", "dir"), ("c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"), ("b",), 20, pkgs=("p1", "p2"))
    s += tools_sim(c, 150 if not th else 2500, ("put", "del", "pack", "tool", "inside"), GOODNAMES,
                   ("file",), ("c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"), ("b",), 20, pkgs=("p1", "p2"), warm=True)
    tools_run(c, c.sample(s, 4000 if th else 300), ("pack", "times"))


def p26(c):
    th = c.thorough
    t = tools_model(c, ("pack", "api", "lua", "tool", "make", "extract"), ("a.txt",), ("file",), ("c1",), ("b",), 5 if not th else 6,
                    warm=True, last=("extract",))
    tools_run(c, c.sample(t, 3000 if th else 250), ("times",))
    s = tools_sim(c, 200 if not th else 3000, ("put", "pack", "tool", "api", "lua", "make", "extract", "clean"), GOODNAMES,
                  ("file",), ("c0", "c1", "c3"), ("a.txt", "d/c.png", "b", "e/f"), 20, pkgs=("p1", "p2"), warm=True)
    tools_run(c, c.sample(s, 4000 if th else 300), ("times",))
    # the accessors, on all bytes of time tags
    t = c.model("MC_Enc", dict(Rich="TRUE" if th else "FALSE"), invariants=["Back"])
    t = [x for x in t if (x["op"] == "enc" and x["kind"] in ("time", "unixms")) or (x["op"] == "dec" and len(x["v"]) in (8, 12))]
    c.validate("Trace_Enc", c.harness("enc", c.sample(t, 20000 if th else 2500)))


def p25(c):
    th = c.thorough
    t = []
    for kind, n in (("env", 6 if th else 5), ("str", 7 if th else 5), ("join", 3 if not th else 4), ("match", 4 if th else 3)):
        x = c.model("MC_PathUtil", dict(Kind='"%s"' % kind, MaxLen=str(n)), invariants=["InvEnv", "InvStr", "InvPair"], timeout=850)
        t += c.sample(x, 300000 if th else 12000)
    c.validate("Trace_PathUtil", c.harness("pathutil", t))


BUILDOPS = ("begin", "load", "append", "putdata", "flush", "finalize", "log", "where", "set", "get", "fail")


def build_consts(ops, keys, kinds, stmts, scripts, runs, sim=False, paths=("p1", "p2")):
    return dict(OpSet=strset(*ops), Keys=strset(*keys), Paths=strset(*paths), Kinds=strset(*kinds), MaxStmts=str(stmts), MaxScripts=str(scripts),
                MaxRuns=str(runs), Sim="TRUE" if sim else "FALSE")


def p27(c):
    th = c.thorough
    t = c.model("MC_Build", build_consts(("begin", "putdata", "flush", "finalize", "fail"), ("a",), ("ok",), 4, 1, 1, paths=("p1",)),
                invariants=["InvReady"], properties=["ActRun", "ActStop"], view="View", timeout=850)
    t2 = c.model("MC_Build", build_consts(("log", "where", "set", "get", "fail"), ("a",), ("ok", "absent", "syntax"), 2, 3, 1, paths=("p1",)),
                 invariants=["InvReady"], properties=["ActRun", "ActStop"], view="View", timeout=850)
    s = c.simulate("MC_Build", build_consts(BUILDOPS + ("new", "rename", "delalias", "label", "auto", "secret"), ("a", "b.txt", "d/c.png"),
                   ("ok", "absent", "syntax"), 12, 3, 3, sim=True), 400 if not th else 5000, 90)
    n = 8000 if th else 500
    tr = c.harness("build", c.sample(t, n) + c.sample(t2, n) + c.sample(s, n), args=[c.build_cmd("build")], timeout=800)
    c.validate("Trace_Build", tr)
