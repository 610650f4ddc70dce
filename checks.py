"""The checks: which harnesses decide each property, and how they are built."""

SEARCHLIB = ["search/search.cc", "search/anyprof/profile.cc", "rdb/rdb.cc", "utils"]
MC = ["-DSEARCH_MC_CLOSEDSZ=2", "-DMC_POISON", "-ftrivial-auto-var-init=pattern"]

CHECKS = {}


def check(pid, bins, **kw):
    CHECKS[pid] = dict(bins=bins, **kw)


def search(name, src, **kw):
    return dict(name=name, src=[src], repo=SEARCHLIB, flags=MC + kw.pop("extra", []), libs=["-Wl,-z,muldefs"], **kw)


check("C01", [search("c01", "c01.cc")])


def perdomain(name, src, extra=[], doms="ABCD"):
    """One binary per domain type (they compile in parallel)."""
    return [search(name + d.lower(), src, extra=extra + ["-DDOM_" + d]) for d in doms]


check("C04", perdomain("c04", "c04.cc"))
check("C05", perdomain("c05", "c04.cc", ["-DC05"]))
check("C02", perdomain("c02", "c02.cc", doms="AB"))
check("C03", perdomain("c03", "c03.cc", doms="ABC"))
check("C06", perdomain("c06", "c06.cc", doms="ABC"))
check("C07", perdomain("c07", "c07.cc", doms="AB"))
check("C08", perdomain("c08", "c08.cc", doms="AB"))
check("C09", perdomain("c09", "c09.cc", doms="ABC"))
check("C10", perdomain("c10", "c10.cc", doms="AB"))


def plain(name, src, repo=(), extra=[], libs=(), **kw):
    """A harness over parts that are not searches."""
    return dict(name=name, src=[src], repo=list(repo), flags=list(extra), libs=["-Wl,-z,muldefs"] + list(libs), **kw)


check("C11", [plain("c11", "c11.cc", SEARCHLIB)])
check("C12", [plain("c12", "c12.cc")])
check("C13", [plain("c13", "c13.cc")])
check("C14", [plain("c14", "c14.cc", ["structs/stn.cc"])])


def domain(name, src, repo, extra=[], **kw):
    """A harness over a search domain."""
    return dict(name=name, src=[src] if isinstance(src, str) else src, repo=SEARCHLIB + list(repo),
                flags=["-DSEARCH_MC_CLOSEDSZ=2", "-ftrivial-auto-var-init=pattern"] + list(extra),
                libs=["-Wl,-z,muldefs"] + kw.pop("libs", []), **kw)


check("C15", [domain("c15x%d%d" % (w, h), "c15.cc", ["tiles/tiles.cc", "tiles/mdist.cc", "tiles/pdb.cc"],
                     ["-DWIDTH=%d" % w, "-DHEIGHT=%d" % h]) for w, h in ((3, 3), (4, 4), (2, 8), (8, 2))] +
      [domain("c15gen", "c15gen.cc", [], progs=["tiles/generator.cc"])])
check("C16", [domain("c16n%d" % n, "c16.cc", ["pancake/pancake.cc"], ["-DNCAKES=%d" % n]) for n in (2, 4, 5, 8, 50, 70)])
GRID = ["gridnav/gridmap.cc", "gridnav/gridnav.cc"]
check("C17", [domain("c17", "c17.cc", ["vacuum/vacuum.cc"] + GRID)])
check("C18", [domain("c18", "c18.cc", ["drobot/drobot.cc"])])
check("C19", [domain("c19", "c19.cc", GRID), domain("c19scen", "c19.cc", GRID + ["gridnav/scenario.cc"], ["-DSCEN"])])
check("C20", [plain("c20", "c20.cc", ["utils"])])
VISNAV = ["visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/visgraph.cc", "visnav/visnav.cc", "graphics/image.cc"]
check("C21", [domain("c21", "c21.cc", VISNAV, progs=["visnav/%s.cc" % p for p in ("pbm2poly", "rand", "mkgraph", "inst")])])
check("C22", [domain("c22", "c22.cc", ["segments/segments.cc"], progs=["segments/mkinst.cc"])])
PLAT = ["plat2d/plat2d.cc", "plat2d/lvl.cc", "plat2d/body.cc", "plat2d/player.cc", "plat2d/tile.cc",
        "visnav/polymap.cc", "visnav/grid2poly.cc", "visnav/visgraph.cc", "graphics/image.cc"]
check("C23", [domain("c23", "c23.cc", PLAT)])
check("C24", [domain("c24", "c24.cc", ["traffic/traffic.cc", "traffic/gridmap.cc"], progs=["traffic/randinst.cc"])])
check("C25", [plain("c25", "c25.cc", ["utils"])])
check("C26", [dict(name="c26", src=["c26.cc"], progs=["rdb/%s.cc" % p for p in ("pathfor", "withattrs", "pathattrs", "addattrs", "dfcmplt")],
                   repo=["rdb/rdb.cc", "utils"], libs=["-Wl,-z,muldefs"])])
check("C27", [dict(name="c27", src=["c27.cc"], repo=SEARCHLIB + ["search/learnh/leastsquares.cc"],
                   progs=["search/anyprof/%s.cc" % p for p in ("mkprof", "bestwt", "sptcounts", "sptpolicy")] + ["search/learnh/hlms.cc"], flags=MC, libs=["-Wl,-z,muldefs"])])
check("C28", [domain("c28", "c28.cc", GRID + ["rdb/rdb.cc"] + PLAT, progs=[
    "gridnav/2poly.cc", "plat2d/2poly.cc", "gridnav/ppm2grid.cc", "gridnav/mkseedinst.cc", "gridnav/randinst.cc", "gridnav/scenario2rdb.cc"])])


def solver(dom, repo, progs, extra=[]):
    return domain("c29" + dom, "c29.cc", repo, ["-USEARCH_MC_CLOSEDSZ", "-DSEARCH_MC_CLOSEDSZ=20011", "-DDOM_" + dom.upper()] + extra, progs=progs)


check("C29", [
    solver("gridnav", GRID + ["gridnav/scenario.cc"], ["gridnav/main_gridnav.cc", "gridnav/main_scenario.cc"]),
    solver("tiles", ["tiles/tiles.cc", "tiles/mdist.cc", "tiles/pdb.cc"], ["tiles/main_mdist.cc"], ["-DWIDTH=3", "-DHEIGHT=3"]),
    solver("pancake", ["pancake/pancake.cc"], ["pancake/main.cc"], ["-DNCAKES=4"]),
    solver("pancake8", ["pancake/pancake.cc"], ["pancake/main.cc"], ["-DDOM_PANCAKE", "-DNCAKES=8"]),
    solver("drobot", ["drobot/drobot.cc"], ["drobot/main.cc"]),
    solver("vacuum", ["vacuum/vacuum.cc"] + GRID, ["vacuum/main.cc", "vacuum/main_cs730.cc"]),
    solver("plat2d", PLAT, ["plat2d/main.cc"]),
    solver("segments", ["segments/segments.cc"], ["segments/main.cc"]),
    solver("traffic", ["traffic/traffic.cc", "traffic/gridmap.cc"], ["traffic/main_traffic.cc"]),
    solver("visnav", VISNAV, ["visnav/main.cc"]),
])
