"""What each check runs: exhaustive models of the specification, and recorded histories."""
ASSUMPTIONS = [
    "the drivers observe the code through its public interface and the public fields of BDD::node",
    "random_device is replaced by a seeded generator, so that hash keys are reproducible; every shard uses other keys",
]
def mgr(profile, hist, ops, shards=2, t=4, spec="ManagerTrace", **kw):
    return dict(driver="mgr", profile=profile, spec=spec, hist=hist, ops=ops, shards=shards, thorough=dict(shards=shards * t, hist=hist * 2), **kw)
def col(profile, hist, ops, shards=2, t=4, **kw):
    return dict(driver="col", profile=profile, spec="CollectionTrace", hist=hist, ops=ops, shards=shards, thorough=dict(shards=shards * t, hist=hist * 2), **kw)
def unit(driver, spec, profile, hist, ops, shards=1, t=6, **kw):
    return dict(driver=driver, profile=profile, spec=spec, hist=hist, ops=ops, shards=shards, thorough=dict(shards=shards * t, hist=hist * 2), **kw)
BF2 = dict(module="MC_BoolFun", cfg="MC_BoolFun2")
BF3 = dict(module="MC_BoolFun", cfg="MC_BoolFun", tiers=("thorough",), timeout=1200)
MG1 = dict(module="MC_Manager", cfg="MC_Manager1")
MG2 = dict(module="MC_Manager", cfg="MC_Manager", tiers=("thorough",), workers=8, heap="12g", timeout=1800)

def faulty(module, name, inv): return dict(module=module, cfg=module + "_" + name, expect=inv, workers=1)
def deep(module, cfg, **kw): return dict(dict(module=module, cfg=cfg, tiers=("thorough",), workers=8, heap="12g", timeout=1800), **kw)
# the manager's algorithms, on all short histories, and faulty variants of them that have to be rejected
AQ = [dict(module="MC_BddAlg", cfg="MC_BddAlg_q1", workers=4)]
AQ2, AQ3 = dict(module="MC_BddAlg", cfg="MC_BddAlg_q2", workers=4), dict(module="MC_BddAlg", cfg="MC_BddAlg_q3", workers=4)
AT1, AT2, AT3, AT4, AT5 = [deep("MC_BddAlg", "MC_BddAlg_t%d" % i) for i in (1, 2, 3, 4, 5)]
def alg(name, inv): return faulty("MC_BddAlg", name, inv)
UT = [dict(module="MC_UniqueTable", cfg="MC_UniqueTable_q", workers=4), deep("MC_UniqueTable", "MC_UniqueTable_t")]
UT += [faulty("MC_UniqueTable", v, i) for v, i in (("no-wrap-around", "LookupExact"), ("copy-without-rehash", "LookupExact"), ("gaps-stay", "LookupExact"), ("count-not-updated", "LeftRight"), ("shrink-by-dead", "LookupExact"))]
MT = [dict(module="MC_MemoTable", cfg="MC_MemoTable_q", workers=4), deep("MC_MemoTable", "MC_MemoTable_t")]
MT += [faulty("MC_MemoTable", v, i) for v, i in (("third-operand-ignored", "RightAnswers"), ("copies-stay", "InPlace"), ("not-moved", "InPlace"), ("old-slot", "InPlace"), ("first-stays", "RightAnswers"), ("results-only", "RightAnswers"))]
SP = [dict(module="MC_StorePages", cfg="MC_StorePages_q", workers=2), deep("MC_StorePages", "MC_StorePages_t")]
SP += [faulty("MC_StorePages", v, i) for v, i in (("first-page-from-zero", "RefsKept"), ("one-too-many", "Inside"), ("list-unused", "Economical"), ("list-not-advanced", "FreeList"), ("counted-twice", "Counted"), ("link-first", "RefsKept"), ("one-child", "RefsKept"))]
PB = [dict(module="MC_PageBlocks", cfg="MC_PageBlocks_q", workers=2), deep("MC_PageBlocks", "MC_PageBlocks_t")]
PB += [faulty("MC_PageBlocks", v, i) for v, i in (("last-not-ended", "FreeList"), ("skips-a-page", "FreeList"), ("not-cleared", "Empty"), ("first-slot-kept", "Empty"), ("cleared-before-unlinking", "FreeList"), ("list-dropped", "FreeList"))]
DP = [dict(module="MC_Depth", cfg="MC_Depth_q", workers=2), deep("MC_Depth", "MC_Depth_t")]
DP += [faulty("MC_Depth", v, "DepthIsLongestPath") for v in ("shorter", "first-branch")]
# collections as they are built; the counting recursions
CA = {i: dict(module="MC_CollectionAlg", cfg="MC_CollectionAlg_q%d" % i, workers=3) for i in (1, 2, 3)}
CT = {i: deep("MC_CollectionAlg", "MC_CollectionAlg_t%d" % i, workers=8) for i in (1, 2, 3, 4)}
def ca(**names): return [faulty("MC_CollectionAlg", v.replace("_", "-"), i) for v, i in names.items()]
CN = [dict(module="MC_CountAlg", cfg="MC_CountAlg_q"), deep("MC_CountAlg", "MC_CountAlg_t")]
CN += [faulty("MC_CountAlg", v, i) for v, i in (("two-pairs", "One"), ("same-half", "One"), ("split-without-all-left", "Bounds"), ("large-bound-false", "Bounds"), ("rest-at-least", "Bounds"))]

# behaviours generated by TLC from the specification: every transition of a model, with the history leading to it
GEN_OF = {"b1": ("MC_BddAlg", "MC_BddAlg_g1"), "b2": ("MC_BddAlg", "MC_BddAlg_g2"), "b3": ("MC_BddAlg", "MC_BddAlg_g3"),
          "c1": ("MC_CollectionAlg", "MC_CollectionAlg_g1"), "c2": ("MC_CollectionAlg", "MC_CollectionAlg_g2"), "c3": ("MC_CollectionAlg", "MC_CollectionAlg_g3"),
          "memo": ("Gen_MemoTable", "Gen_MemoTable_g"), "page2": ("Gen_PageBlocks", "Gen_PageBlocks_g"), "page4": ("Gen_PageBlocks", "Gen_PageBlocks_g4"),
          "store": ("Gen_StorePages", "Gen_StorePages_g"), "table": ("Gen_UniqueTable", "Gen_UniqueTable_g"), "depth": ("Gen_Depth", "Gen_Depth_g")}
def gen(driver, spec, which, num, shards=1, tshards=8, tnum=None, **kw):
    m, c = GEN_OF[which]
    g = dict(module=m, cfg=c, num=num, **kw)
    return dict(driver=driver, profile="script", spec=spec, hist=2, shards=shards, gen=g, thorough=dict(shards=tshards, gen=dict(g, num=tnum or num * 10), timeout=900, vtimeout=1200))
def gm(which, num, **kw): return gen("mgr", "ManagerTrace", which, num, **kw)
def gc(which, num, **kw): return gen("col", "CollectionTrace", which, num, **kw)

PLAN = {
 "C01": dict(models=[BF2, BF3, AQ3, AT4, alg("xor-shares-or-key", "MemoRight")], runs=[gm("b3", 700), mgr("eachn", 1, 0, 2), mgr("tabnary", 1, 0, 1, 1), dict(driver="mgr", profile="tabnary", spec="ManagerTrace", hist=2, ops=2, shards=1, thorough=dict(ops=3, shards=1)), mgr("tab", 2, 0, 1), dict(driver="mgr", profile="tabite", spec="ManagerTrace", hist=2, ops=0, shards=1),
            dict(driver="mgr", profile="tab", spec="ManagerTrace", hist=3, ops=20, shards=1, thorough=dict(ops=0)),
            dict(driver="mgr", profile="tabite", spec="ManagerTrace", hist=3, ops=1, shards=1, thorough=dict(ops=4, shards=4)),
            mgr("conn", 80, 250, 4), mgr("connbig", 50, 250, 3), mgr("widec", 4, 100, 1), mgr("conn", 3, 4000, 1)]),
 "C02": dict(models=[BF2, BF3, MG1, MG2, *AQ, AT1, AT5, alg("xor-larger-variable", "Ordered")], runs=[gm("b1", 700), mgr("canon", 80, 250, 4), mgr("canonbig", 50, 200, 3), mgr("widec", 4, 100, 2), mgr("canon", 3, 4000, 1)]),
 "C03": dict(models=[BF2, BF3, *CN], runs=[mgr("tabn", 1, 0, 1, 1), dict(driver="mgr", profile="tabn", spec="ManagerTrace", hist=2, ops=2, shards=1, thorough=dict(ops=3, shards=1)), mgr("eachc", 1, 0, 2), mgr("count", 80, 250, 5), mgr("countbig", 20, 150, 4)]),
 "C04": dict(models=[MG1, MG2, AQ2, AT2, *[alg(v, "MemoRight") for v in ("purge-by-result-only", "no-purge", "purge-before-sweep", "purge-ignores-else")]], runs=[gm("b2", 700, want=r"gc;.*(and|xor|not)"), mgr("gc", 80, 250, 6), mgr("gc", 3, 4000, 2), mgr("wideg", 3, 100, 2)]),
 "C05": dict(models=[MG1, MG2, AQ2, AT3, alg("sweep-bottom-up", "CollectedExactly")], runs=[gm("b2", 700), mgr("cnt", 80, 250, 6), mgr("cnt", 3, 4000, 2), mgr("widec", 4, 100, 2)]),
 "C06": dict(models=[MG1, MG2, *AQ, AT1, alg("one-reference-only", "RefsRight")], runs=[gm("b1", 500), gm("b2", 500), mgr("ref", 80, 250, 6), mgr("ref", 3, 4000, 2), mgr("widex", 2, 100, 2)]),
 "C07": dict(models=[MG1, MG2, *AQ], runs=[gm("b1", 700), mgr("query", 80, 250, 4), mgr("querybig", 50, 250, 3), mgr("wideq", 4, 100, 2)]),
 "C08": dict(models=[BF2, BF3, *AQ, AT1, alg("rename-keeps-order", "Ordered")], runs=[gm("b1", 700, want="rebase"), mgr("rebase", 80, 250, 4), mgr("rebasebig", 30, 150, 3), mgr("wider", 1, 100, 2)]),
 "C09": dict(models=[BF2, BF3, AQ3, AT4, alg("limit-skips-sinks", "RightLimit")], runs=[gm("b1", 700, want="lim"), mgr("lim", 80, 250, 4), mgr("limbig", 50, 250, 3), mgr("widel", 3, 100, 2)]),
 "C21": dict(models=[MG1, MG2], runs=[mgr("vars", 80, 250, 7)]),
 "C22": dict(models=[MG1, MG2], runs=[mgr("multi", 80, 250, 5), col("multi", 50, 200, 3)]),
 "C10": dict(models=[BF2, BF3, CA[2], CT[3]], runs=[gc("c2", 500), col("impexp", 60, 200, 5), col("impexpbig", 10, 300, 3), col("huge", 1, 700, 1)]),
 "C11": dict(models=[BF2, BF3, CA[1], CT[1], *ca(no_reduction="Right", first_operand_as_key="Right", larger_variable="Right", root_not_first="Denotes")], runs=[gc("c1", 500, want="and"), dict(driver="col", profile="pairs", spec="CollectionTrace", hist=2, ops=0, shards=1),
            dict(driver="col", profile="pairs", spec="CollectionTrace", hist=3, ops=6, shards=1, thorough=dict(ops=0)),
            col("each", 1, 0, 2), col("and", 60, 200, 3), col("andN", 50, 150, 3), col("andbig", 15, 200, 2), col("huge", 1, 700, 1)]),
 "C12": dict(models=[BF2, BF3, CA[1], CT[1], *ca(limit_without_sinks="Right", limit_one_less="Right", failure_keeps_reduction="Right")], runs=[gc("c1", 500, want="and"), dict(driver="col", profile="pairs", spec="CollectionTrace", hist=2, ops=0, shards=1), col("each", 1, 1, 2), col("limit", 60, 200, 4), col("andbig", 15, 200, 3), col("huge", 1, 700, 1)]),
 "C13": dict(models=[BF2, BF3, CA[2], CT[3], *ca(one_offset="WellFormed", renames_the_rest="Ordered")], runs=[gc("c2", 500, want="rm|reb"), col("remove", 60, 200, 4), col("removebig", 15, 200, 3), col("huge", 1, 700, 1)]),
 "C14": dict(models=[BF2, BF3, CA[1], CT[2], *ca(or_stops_at_false="Denotes", or_skips_variables="Denotes", one_literal_per_variable="Denotes")], runs=[gc("c1", 500, want="or"), col("or", 60, 200, 4), col("orbig", 15, 200, 3), col("huge", 1, 700, 1)]),
 "C15": dict(models=[BF2, BF3, CA[1], CA[2], CT[3], *ca(root_not_first="Denotes")], runs=[gc("c1", 300), gc("c2", 300), col("view", 60, 200, 4), col("viewbig", 15, 200, 3), col("huge", 1, 700, 1)]),
 "C16": dict(models=[BF2, BF3, CA[3], CT[4], *ca(unset_branch_accepted="Right", sinks_exchanged="Denotes")], runs=[gc("c3", 500, want="close"), col("build", 60, 200, 4), col("buildbig", 15, 200, 3), col("huge", 1, 700, 1)]),
 "C17": dict(models=UT, runs=[*[gen("table", "TableTrace", "table", 250, prefix="new %d %d;" % (p, f), tshards=2) for p, f in ((2, 0), (2, 29), (1, 30), (9, 61))], unit("table", "TableTrace", "small", 60, 200, 3), unit("table", "TableTrace", "mgr", 60, 200, 2), unit("table", "TableTrace", "mid", 30, 8, 2), unit("table", "TableTrace", "big", 1, 8, 1), unit("table", "TableTrace", "huge", 1, 5, 1, 3), mgr("widex", 2, 100, 2)]),
 "C18": dict(models=MT, runs=[*[gen("memo", "MemoTrace", "memo", 2000, prefix="new 2 %d;hold 3;hold 4;" % p, suffix="look 3 4 -1;look 4 3 -1;look 3 4 -2;look 3 4 4", tshards=1, tnum=20000) for p in (0, 1, 6)], unit("memo", "MemoTrace", "small", 60, 200, 4), unit("memo", "MemoTrace", "big", 3, 12, 2), unit("memo", "MemoTrace", "huge", 1, 6, 1, 3)]),
 "C19": dict(models=SP, runs=[gen("store", "StoreTrace", "store", 5000, prefix="new;fill 4093;", suffix="all", tshards=1, tnum=20000), gen("store", "StoreTrace", "store", 2000, prefix="new;", suffix="all", tshards=1, tnum=20000), unit("store", "StoreTrace", "small", 60, 200, 4), unit("store", "StoreTrace", "big", 3, 30, 2)]),
 "C20": dict(models=PB, runs=[gen("page", "PageTrace", "page2", 400, prefix="which 13;", tshards=4, tnum=800), gen("page", "PageTrace", "page4", 400, prefix="which 12;", tshards=4), unit("page", "PageTrace", "all", 1, 40, 2), unit("page", "PageTrace", "small", 20, 120, 2)]),
 "C23": dict(models=DP, runs=[gen("depth", "DepthTrace", "depth", 3000, prefix="new 0;", tshards=1), gen("depth", "DepthTrace", "depth", 3000, prefix="new 1;", tshards=1), unit("depth", "DepthTrace", "small", 60, 100, 3), unit("depth", "DepthTrace", "small", 2, 3000, 2), unit("depth", "DepthTrace", "long", 1, 75000, 2)]),
}
