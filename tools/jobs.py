"""The jobs of every check: which specification runs, within which bounds, replayed how."""
import importlib


ASSUME = ["TLC evaluates the specification as TLA+ defines it",
          "the specification (spec/*.tla) states what the property asks; it is written against the vimwiki markup, not generated from the code",
          "the driver built from harness/ reports what the library of /repo's working tree does"]


def pages(which, n, op="page", sim=None, inv="EmitSound", **opts):
    from __main__ import Job
    name = "%s-%s%d%s" % (op, which, n, "s" if sim else "")
    for k, v in sorted(opts.items()):
        name += "-%s%s" % (k, v)
    if sim:
        return Job(name, "Pages", dict(Which=which, N=n), op, next="NextSim", inv=(inv,), sim=sim, depth=n + 1, opts=opts)
    return Job(name, "Pages", dict(Which=which, N=n), op, inv=(inv,), opts=opts)


def tables(r, c, kinds, sim=None):
    from __main__ import Job
    name = "table-%dx%d-%s" % (r, c, kinds)
    k = dict(R=r, Cs=c, KindSet=kinds)
    if sim:
        return Job(name + "s", "Tables", k, "table", next="NextSim", inv=("Emit",), sim=sim, depth=r * c + 2)
    return Job(name, "Tables", k, "table", inv=("Emit",))


def progress(n, d, marks, sim=None):
    from __main__ import Job
    k = dict(N=n, D=d, MarkSet=marks)
    name = "progress-%d-%d-%s" % (n, d, marks)
    if sim:
        return Job(name + "s", "Progress", k, "progress", next="NextSim", inv=("Emit",), sim=sim, depth=n + 1)
    return Job(name, "Progress", k, "progress", inv=("Emit",))


def progresslong(marks):
    from __main__ import Job
    return Job("progress-long-%s" % marks, "Progress", dict(N=0, D=0, MarkSet=marks), "progress", init="LInit", next="LNext", inv=("EmitLong",))


def forms(which, n, m, sim=None):
    from __main__ import Job
    name = "forms-%s%d-%d" % (which, n, m)
    k = dict(Which=which, N=n, Steps=m)
    if sim:
        return Job(name + "s", "Forms", k, "forms", init="FInit", next="FNextSim", inv=("EmitForms",), sim=sim, depth=n + m + 1)
    return Job(name, "Forms", k, "forms", init="FInit", next="FNext", inv=("EmitForms",))


def pairs(which, n, sim=None):
    from __main__ import Job
    name = "pair-%s%d" % (which, n)
    k = dict(Which=which, N=n)
    if sim:
        return Job(name + "s", "Pairs", k, "pair", init="PInit", next="PNextSim", inv=("EmitPair",), sim=sim, depth=n + 2)
    return Job(name, "Pairs", k, "pair", init="PInit", next="PNext", inv=("EmitPair",))


def html(which, n, conf, sim=None, inv="EmitHtml"):
    from __main__ import Job
    name = "html-%s%d-%s" % (which, n, conf)
    k = dict(Which=which, N=n, Conf=conf)
    if sim:
        return Job(name + "s", "Html", k, "html", next="NextSim", inv=(inv,), sim=sim, depth=n + 1)
    return Job(name, "Html", k, "html", inv=(inv,))


def fmt(which, n, conf, sim=None):
    from __main__ import Job
    name = "format-%s%d-%s" % (which, n, conf)
    k = dict(Which=which, N=n, Conf=conf)
    if sim:
        return Job(name + "s", "Format", k, "format", next="NextSim", inv=("EmitFmt",), sim=sim, depth=n + 1)
    return Job(name, "Format", k, "format", inv=("EmitFmt",))


def fmtlong(n):
    from __main__ import Job
    return Job("format-long%d" % n, "Format", dict(Which="", N=n, Conf="default"), "format", init="LNInit", next="LNNext", inv=("EmitLong",))


def fmtknown():
    from __main__ import Job
    return Job("format-known", "Format", dict(Which="", N=0, Conf="default"), "format", init="KInit", next="KNext", inv=("EmitKnown",))


def command(mode, n, sim=None):
    from __main__ import Job
    name = "%s-%d" % (mode, n)
    k = dict(Mode=mode, Depth=n)
    if sim:
        return Job(name + "s", "Convert", k, mode, init="InitSim", next="NextSim", inv=("EmitAtEnd",), sim=sim, depth=n + 1, driver="cli.py", alone=True)
    return Job(name, "Convert", k, mode, inv=("EmitRun",), driver="cli.py")


def warm(which, n, sim):
    from __main__ import Job
    return Job("warm-%s%d" % (which, n), "Pages", dict(Which=which, N=n), "warm", next="NextSim", inv=("EmitSound",), sim=sim, depth=n + 1, driver="cli.py", alone=True)


def cache(n, t, scope, sim=None):
    from __main__ import Job
    name = "cache-%d-%d-%s" % (n, t, scope)
    k = dict(N=n, T=t, Scope=scope)
    if sim:
        return Job(name + "s", "Cache", k, "cache", next="NextSim", inv=("EmitHist",), sim=sim, depth=n + 1, driver="cli.py", alone=True)
    return Job(name, "Cache", k, "cache", inv=("EmitHist",), driver="cli.py")


def macros(which, n, sim=None):
    from __main__ import Job
    k = dict(Which=which, N=n)
    if sim:
        return Job("macro-%s%ds" % (which, n), "Macro", k, "macros", init="MInitSim", next="MNextSim", inv=("EmitMacro",), sim=sim, depth=n + 1, driver="macros.py", alone=True)
    return Job("macro-%s%d" % (which, n), "Macro", k, "macros", init="MInit", next="MNext", inv=("EmitMacro",), driver="macros.py")


def links(which, n, sim=None):
    from __main__ import Job
    k = dict(Which=which, N=n, Conf="plain")
    if sim:
        return Job("links-%ss" % which, "Links", k, "html", init="LInitSim", next="LNextSim", inv=("EmitLink",), sim=sim, depth=n + 1)
    return Job("links-%s" % which, "Links", k, "html", init="LInit", next="LNext", inv=("EmitLink",))


def paths(n, sim=None):
    from __main__ import Job
    k = dict(Which="", N=n, Conf="plain")
    if sim:
        return Job("paths-%ds" % n, "Paths", k, "paths", init="PInitSim", next="PNextSim", inv=("EmitPath",), sim=sim, depth=n + 1)
    return Job("paths-%d" % n, "Paths", k, "paths", init="PInit", next="PNext", inv=("EmitPath",))


def confpaths(n):
    from __main__ import Job
    return Job("confpaths-%d" % n, "Paths", dict(Which="", N=n, Conf="plain"), "paths", init="CInit", next="CNext", inv=("EmitConf",))


def template(n, nt, init="TInit1", sim=None):
    from __main__ import Job
    k = dict(Which="", N=n, NT=nt, Conf="plain")
    if sim:
        return Job("template-%d-%ds" % (n, nt), "Template", k, "template", init="TInitSim", next="TNextSim", inv=("EmitDoc",), sim=sim, depth=n + nt + 1)
    return Job("template-%d-%d-%s" % (n, nt, init), "Template", k, "template", init=init, next="TNext", inv=("EmitDoc",))


def checks(pid, tier):
    q = tier == "quick"

    def pick(a, b):
        return a if q else b
    P = pages
    ALLBLOCKS = ["h", "hr", "ph", "bq", "list", "dl", "table", "code_block", "math_block", "p"]
    ALLINLINE = ["t", "kw", "code", "math", "lc", "mlc", "tags", "b", "i", "s", "sup", "sub"]
    LINKS = ["wiki", "tr", "raw", "iwi", "iwn", "diary"]
    A = {}
    # every text is a page: any characters, any lines, any pieces of markup
    A["C01"] = lambda: dict(
        jobs=[P("LAll", 1, op="total", inv="Emit"), P("LInlines", 1, op="total", inv="Emit"), P("LLinks", 1, op="total", inv="Emit"), P("LTables", 1, op="total", inv="Emit"), P("AChars", 2, op="total"), P("ALinesCore", pick(3, 4), op="total"), P("AChars", 14, op="total", sim=pick(60, 3000)),
              P("AMix", 9, op="total", sim=pick(150, 6000)), P("ARich", 12, op="total", sim=pick(80, 4000)),
              P("ATable2", 12, op="total", sim=pick(40, 2000)), P("AList2", 7, op="total", sim=pick(60, 2500)), P("ALink2", 2, op="total"), P("ARuns2", 6, op="total", sim=pick(40, 2000)),
              P("ARichU", 9, op="total", sim=pick(60, 2500))] +
             pick([], [P("AChars", 3, op="total"), P("AFence2", 9, op="total", sim=2000), P("ALink2", 9, op="total", sim=4000)]),
        need=ALLBLOCKS + ALLINLINE + LINKS)
    A["C02"] = lambda: dict(
        jobs=[P("LLines", 1, inv="Emit"), P("LAll", 1, inv="Emit"), P("ALinesCore", 3), P("ALinesCr", 2), P("ALines", 7, sim=pick(60, 2000)),
              P("ALinesCr", 9, sim=pick(40, 2000)), P("ARich", 10, sim=pick(60, 2500)),
              P("ARuns", pick(2, 3)), P("ARuns0", pick(3, 4)), P("ARuns2", 7, sim=pick(40, 2000)), P("ARichU", 10, sim=pick(60, 2500)), P("AVariants", pick(1, 2))] +
             pick([], [P("ALines", 3), P("ALinesCore", 4)]),
        need=ALLBLOCKS)
    A["C03"] = lambda: dict(
        jobs=[P("LLists", 1, inv="Emit"), P("AList", 3), P("AList2", 7, sim=pick(150, 6000)), P("AListCore", pick(5, 6)),
              P("ATabs", pick(4, 5)), P("ATabs2", 6, sim=pick(60, 2500))] +
             pick([], [P("AList", 4)]),
        need=["list", "p", "dl", "table"])
    A["C04"] = lambda: dict(
        jobs=[progress(3, 2, "all"), progress(pick(4, 5), 3, "three"), progress(9, 4, "all", sim=pick(200, 10000)),
              progress(14, 3, "five", sim=pick(100, 5000)), progresslong("all")] + pick([], [progress(4, 3, "all")]),
        need=["none", "some", "fresh"])
    A["C05"] = lambda: dict(
        jobs=[P("LTables", 1, inv="Emit"), P("LTables40", 1, inv="EmitTables"), P("ATable", pick(4, 5), inv="EmitTables"), P("ATableTok", 4, inv="EmitTables"),
              P("ATable2", 12, sim=pick(120, 6000), inv="EmitTables"), P("GTable", 16, inv="EmitTables", sim=pick(150, 8000))] +
             pick([], [P("ATableTok", 6, inv="EmitTables")]),
        need=["table", "cell", "up", "left", "align", "header"])
    A["C06"] = lambda: dict(
        jobs=[tables(2, 70, "all", sim=pick(1, 4)), tables(70, 2, "all", sim=pick(1, 4)), tables(12, 12, "all", sim=pick(2, 20)), tables(2, 3, "five"), tables(3, 2, "four"), tables(2, 2, "all"), tables(4, 4, "all", sim=pick(300, 20000))] +
             pick([], [tables(3, 3, "two"), tables(2, 3, "all"), tables(4, 2, "four")]),
        need=["cell", "up", "left", "align", "header", "hole"])
    A["C07"] = lambda: dict(
        jobs=[P("LFences", 1, inv="Emit"), P("AFence", pick(3, 4)), P("GFence", pick(3, 4)), P("AFence2", 7, sim=pick(150, 6000)), P("GFenceSim", 8, sim=pick(150, 6000))],
        need=["code_block", "math_block", "p"])
    A["C08"] = lambda: dict(
        jobs=[P("LDefs", 1, inv="Emit", lookups=1), P("ADef", pick(4, 5), lookups=1), P("ADef2", 4, lookups=1), P("ADef2", 12, sim=pick(150, 6000), lookups=1),
              P("ADef", 9, sim=pick(100, 4000), lookups=1)],
        need=["dl", "lc", "list"])
    A["C09"] = lambda: dict(
        jobs=[P("LInlines", 1, inv="Emit"), P("AInline", pick(4, 5)), P("ADeco", 5), P("AComment", 4), P("AInline2", 12, sim=pick(150, 6000)),
              P("ARuns2", 5, sim=pick(40, 2000)), P("ARichU", 6, sim=pick(60, 2500))] +
             pick([], [P("ADeco", 6), P("AComment", 5), P("AInline2", 3)]),
        need=ALLINLINE + ["wiki"])
    A["C10"] = lambda: dict(
        jobs=[P("GPct", 6), P("LLinks", 1, inv="Emit"), P("GLink", 7), P("ALink2", 2), P("ALink", 3), P("ALink2", 8, sim=pick(150, 6000))] +
             pick([], [P("GLink", 8), P("ALink2", 3), P("ALink", 4)]),
        need=LINKS)
    A["C11"] = lambda: dict(
        jobs=[P("GPct", 6, regions=1, sim=pick(50, 2000)), P("GLink", 7, regions=1, sim=pick(50, 2000)), P("LAll", 1, regions=1), P("LInlines", 1, regions=1, inv="Emit"), P("LLists", 1, regions=1, inv="Emit"), P("ALinesCore", 3, regions=1), P("AInline", 3, regions=1), P("ATable", 3, regions=1), P("ADef2", 3, regions=1),
              P("AList", 2, regions=1), P("ARich", 11, sim=pick(150, 6000), regions=1), P("AMix", 9, sim=pick(150, 6000), regions=1),
              P("ALinesCr", 8, sim=pick(50, 3000), regions=1), P("AInline2", 10, sim=pick(100, 3000), regions=1),
              P("ARichU", 9, sim=pick(60, 3000), regions=1), P("ATabs2", 5, sim=pick(30, 1500), regions=1),
              P("AVariants", 1, regions=1, far=70000, inv="EmitFar"), P("ARichU", 8, sim=pick(3, 100), regions=1, far=70000, inv="EmitFar")] +
             pick([], [P("GLink", 7, regions=1), P("GFence", 4, regions=1), P("ADeco", 5, regions=1), P("AComment", 4, regions=1)]),
        need=ALLBLOCKS + ALLINLINE + LINKS + ["cell", "up", "left", "align"])
    A["C18"] = lambda: dict(
        jobs=[forms("GPct", 6, 1, sim=pick(20, 500)), forms("GLink", 7, 1, sim=pick(20, 500)), forms("LAll", 1, 2), forms("ALinesCore", 1, 4), forms("ARich", 8, 5, sim=pick(80, 3000)), forms("AMix", 6, 3, sim=pick(60, 2000)),
              pairs("AVariants", 1), pairs("ALinesCore", 2), pairs("ARich", 4, sim=pick(12, 400)), pairs("AInline2", 5, sim=pick(12, 400)),
              pairs("ALink2", 4, sim=pick(12, 400)), pairs("ATable2", 5, sim=pick(8, 300))] +
             pick([], [forms("ALinesCore", 2, 3), pairs("AList2", 3, sim=300)]),
        need=ALLBLOCKS + ALLINLINE + LINKS + ["clone", "borrow", "own", "json", "strict", "same", "different"])
    A["C23"] = lambda: dict(
        jobs=[P("LAll", 1, op="walk", inv="EmitWalk"), P("LLists", 1, op="walk", inv="EmitWalk"), P("LDefs", 1, op="walk", inv="EmitWalk"), P("ALinesCore", pick(2, 3), op="walk", inv="EmitWalk"), P("AInline", 3, op="walk", inv="EmitWalk"),
              P("ATable", 3, op="walk", inv="EmitWalk"), P("ADef2", 3, op="walk", inv="EmitWalk"), P("ADef", 4, op="walk", inv="EmitWalk"), P("AVariants", 1, op="walk", inv="EmitWalk"),
              P("ARuns", 2, op="walk", inv="EmitWalk"),
              P("ARichU", 11, sim=pick(150, 6000), op="walk", inv="EmitWalk"), P("AMix", 9, sim=pick(80, 4000), op="walk", inv="EmitWalk"),
              P("AList2", 6, sim=pick(60, 3000), op="walk", inv="EmitWalk")],
        need=ALLBLOCKS + ALLINLINE + LINKS + ["li", "term", "def"])
    A["C24"] = lambda: dict(
        jobs=[P("LAll", 1, op="parts", inv="Emit"), P("ALinesCore", pick(2, 3), op="parts"), P("ALinesCr", pick(1, 2), op="parts"), P("AInline", 3, op="parts"), P("ATable", 3, op="parts"),
              P("AFence", pick(2, 3), op="parts"), P("GFence", pick(2, 3), op="parts"), P("ADef", 3, op="parts"), P("ADef2", 3, op="parts"), P("AVariants", pick(1, 2), op="parts"), P("AList", 2, op="parts"),
              P("AComment", 3, op="parts"), P("GPct", 6, op="parts", sim=pick(30, 1000)), P("GLink", 7, op="parts", sim=pick(60, 3000)), P("ARuns", 1, op="parts"),
              P("ARichU", 11, op="parts", sim=pick(100, 5000)), P("AMix", 9, op="parts", sim=pick(100, 5000)), P("AInline2", 9, op="parts", sim=pick(100, 5000)),
              P("ATabs2", 5, op="parts", sim=pick(40, 2000)), P("AList2", 6, op="parts", sim=pick(60, 3000)), P("AFence2", 6, op="parts", sim=pick(60, 3000)),
              P("ARuns2", 5, op="parts", sim=pick(30, 2000)), P("ALink2", 6, op="parts", sim=pick(40, 2000)), P("AChars", 12, op="parts", sim=pick(40, 2000))],
        need=ALLBLOCKS + ALLINLINE + LINKS + ["li"])
    A["C12"] = lambda: dict(
        jobs=[html("LAnchors", 1, "plain"), html("LAnchors", 1, "other"), html("AAnchor", pick(3, 4), "plain"), html("AAnchor2", 2, "other"), html("AAnchor", 9, "other", sim=pick(60, 3000)),
              html("AAnchor2", 10, "plain", sim=pick(150, 6000)), html("ARichU", 10, "other", sim=pick(40, 2000))] +
             pick([], [html("AAnchor2", 3, "plain")]),
        need=["h1", "h2", "h3", "h4", "h6", "strong", "span", "div"])
    A["C13"] = lambda: dict(
        jobs=[html("LAll", 1, "plain"), html("LAll", 1, "other"), html("LTables", 1, "plain"), html("AEsc", 1, "plain"), html("AEsc", 1, "other"), html("AEsc", 1, "server"), html("AVariants", 1, "plain"),
              html("ALinesCore", pick(2, 3), "other"), html("ALines", 1, "server"), html("ALines", 6, "plain", sim=pick(20, 2000)),
              html("ARichU", 10, "plain", sim=pick(40, 3000)), html("ARichU", 10, "other", sim=pick(40, 3000)),
              html("ARuns", 1, "other"), html("ATable2", 9, "other", sim=pick(30, 3000)), html("AInline2", 9, "plain", sim=pick(30, 3000)),
              html("AInline2", 2, "other"), html("AList2", 6, "plain", sim=pick(30, 3000)), html("ADef", pick(3, 4), "plain"), html("AFence2", 6, "server", sim=pick(20, 2000)),
              html("ALinesCr", 5, "other", sim=pick(20, 2000)), html("AMix", 7, "other", sim=pick(30, 3000)), html("ATable", pick(3, 4), "plain")] +
             pick([], [html("AEsc", 2, "plain", sim=4000)]),
        need=["h1", "hr", "blockquote", "dl", "dt", "dd", "ul", "ol", "li", "table", "th", "td", "pre", "code", "div", "p", "strong", "em", "del", "sup", "sub", "span", "a", "img", "comment"])
    A["C15"] = lambda: dict(
        jobs=[html("GPct", 6, "other"), html("GLink", 7, "other", sim=pick(300, 6000)), html("LLinks", 1, "other"), links("GPath", 5, sim=pick(500, 20000)), links("GDiary", 4), html("ALink2", 2, "other"),
              html("ALink2", 8, "other", sim=pick(60, 3000)), html("ALink", pick(2, 3), "plain")],
        need=["a", "img", "place", "uri", "error"])
    A["C14"] = lambda: dict(
        jobs=[template(14, 14, sim=pick(20, 500)), template(2, 1), template(1, 2), template(1, 1, "TInit"), template(6, 8, sim=pick(120, 6000))] +
             pick([], [template(3, 1), template(2, 2), template(1, 3)]),
        need=["content", "error", "text", "title", "today"])
    A["C16"] = lambda: dict(
        jobs=[paths(14, sim=pick(60, 2000)), paths(3), paths(6, sim=pick(200, 8000)), confpaths(pick(4, 5))] + pick([], [paths(4)]),
        need=["absolute", "relative", "output", "foreign", "owned", "within", "named", "accepted", "refused"])
    A["C17"] = lambda: dict(
        jobs=[fmt("GPct", 6, "default"), fmt("GLink", 7, "default", sim=pick(150, 6000)), fmt("LAll", 1, "default"), fmt("LAll", 1, "tab"), fmt("LTables", 1, "default"), fmt("AEsc", 1, "default"), fmt("AVariants", 1, "tab"), fmt("AVariants", 1, "bare"), fmt("AVariants", 1, "kept"), fmt("AVariants", 1, "quote"),
              fmt("ALinesCore", pick(2, 3), "default"), fmt("ARichU", 9, "default", sim=pick(16, 3000)), fmt("ARichU", 9, "tab", sim=pick(8, 2000)),
              fmt("ARichU", 8, "bare", sim=pick(8, 2000)), fmt("ARichU", 8, "kept", sim=pick(8, 2000)), fmt("ARichU", 8, "quote", sim=pick(8, 2000)),
              fmt("AMix", 7, "default", sim=pick(12, 3000)), fmt("ARuns", 1, "default"), fmt("ARuns2", 5, "quote", sim=pick(8, 2000)),
              fmt("AList2", 6, "default", sim=pick(12, 3000)), fmt("AList2", 5, "quote", sim=pick(8, 2000)), fmt("AListCore", pick(3, 4), "default"), fmt("ATabs2", 5, "tab", sim=pick(8, 1000)),
              fmt("ADef2", 8, "default", sim=pick(12, 3000)), fmt("ADef", 3, "kept"), fmt("ATable2", 9, "default", sim=pick(12, 3000)), fmt("ATable", 3, "bare"),
              fmt("AInline2", 2, "default"), fmt("AInline2", 7, "kept", sim=pick(8, 2000)), fmt("ALink2", pick(1, 2), "default"), fmt("ALink2", 7, "default", sim=pick(12, 3000)), 
              fmt("AFence", 2, "default"), fmt("AComment", 3, "default"), fmt("AComment", 3, "bare"), fmtlong(pick(110, 1000)), fmtknown()] +
             pick([], [fmt("ALinesCr", 2, "default"), fmt("ALines", 2, "tab"), fmt("AChars", 2, "default"), fmt("ADeco", 4, "default"), fmt("AVariants", 2, "default", sim=3000), fmt("AFence2", 6, "default", sim=2000), fmt("GLink", 7, "tab", sim=3000)]),
        need=ALLBLOCKS + ALLINLINE + LINKS + ["cell", "up", "left", "align", "same", "other"])
    A["C19"] = lambda: dict(
        jobs=[macros("AVariants", 1), macros("AFormat" if not q else "AFormatOne", 1), macros("ARichU", 9, sim=pick(120, 1200)),
              macros("AAll", 4, sim=pick(150, 1500)), macros("AFormat", 4, sim=pick(120, 1200)),
              macros("AHoles", 1 if q else 2), macros("AHoles", 2, sim=pick(150, 1500))] +
             pick([], [macros("AInline2", 4, sim=1000), macros("ALink2", 4, sim=1000), macros("ATable2", 8, sim=1000), macros("AChars", 12, sim=800)]),
        need=["page", "block_element", "inline_element", "inline_element_container", "list_item", "header", "divider", "placeholder", "blockquote", "code_block", "math_block",
              "definition_list", "table", "list", "paragraph", "keyword", "code_inline", "math_inline", "line_comment", "multi_line_comment", "comment", "tags",
              "decorated_text", "link", "text", "raw", "esc", "bytes", "format", "indented", "raw mode"])
    A["C20"] = lambda: dict(cli=True,
        jobs=[cache(pick(3, 4), 2, "small"), cache(12, 5, "all", sim=pick(150, 3000)), cache(5, 4, "all", sim=pick(200, 4000)), warm("ARichU", 9, sim=pick(100, 2000))],
        need=["plain", "keep", "off", "only0", "only1", "keep1", "off1", "inspect", "look", "killed", "full", "shut", "cold", "warm"])
    A["C21"] = lambda: dict(cli=True,
        jobs=[command("convert", pick(2, 3)), command("convert", 5, sim=pick(250, 5000)), command("convert", 9, sim=pick(150, 4000))],
        need=["files", "stdout", "nested", "single", "paths", "wikis", "include", "all", "css", "none", "some", "missing"])
    A["C22"] = lambda: dict(cli=True,
        jobs=[command("format", pick(3, 4)), command("format", 7, sim=pick(120, 3000)), command("inspect", pick(2, 3)), command("inspect", 6, sim=pick(200, 4000))],
        need=["inline", "print", "missing", "there", "some", "none", "again", "to a file", "$", "$.wikis[*].index", "$.wikis[*].name", "$.wikis[*].path", "$..checksum",
              "$.wikis[*].files[*].path", "$.wikis[0].files[*].data", "$.wikis[?(@.index == 1)].name"])
    if pid in A:
        d = A[pid]()
        d.setdefault("features", "html")
        d.setdefault("assumptions", ASSUME)
        return d
    raise SystemExit("ERROR: no check for " + pid)
