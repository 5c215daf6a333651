"""What each check explores, and which clauses of the specification count for its property."""

# a text that is no query has no meaning: it must not be given one
EVAL = ["query", "panic", "reject", "accept"]


def tr(profile, quick, thorough, reg="custom"):
    return {"profile": profile, "quick": quick, "thorough": thorough, "reg": reg}


def mo(module, suite, reg="custom", **k):
    return dict({"module": module, "suite": suite, "reg": reg, "cfg": module + ("Shadow" if reg == "shadow" else "") + ".cfg"}, **k)


NEST = mo("MC_Eval", "nest", cfg="MC_EvalNest.cfg")

PLAN = {
    "C01": {"clauses": EVAL, "models": [mo("MC_Big", "child"), mo("MC_Eval", "child")], "traces": [tr("C01", 3000, 60000)]},
    "C02": {"clauses": EVAL, "models": [mo("MC_Big", "deep"), mo("MC_Eval", "desc")], "traces": [tr("C02", 1000, 20000)]},
    "C03": {"clauses": EVAL, "models": [mo("MC_Big", "slice"), mo("MC_Slice", "slice"), mo("MC_Slice", "index"), mo("MC_Syntax", "sing")], "traces": [tr("C03", 2500, 50000)]},
    "C04": {"clauses": EVAL, "models": [mo("MC_Big", "filt"), mo("MC_Eval", "bool"), NEST], "traces": [tr("C04", 1500, 30000)]},
    "C05": {"clauses": EVAL, "models": [mo("MC_Big", "filt"), mo("MC_Cmp", "laws", novec=True), mo("MC_Cmp", "cmp")], "traces": [tr("C05", 2000, 40000)]},
    "C06": {"clauses": ["locnodes", "ext", "location", "follow", "loceq", "panic"],
            "models": [mo("MC_Big", "child"), mo("MC_Big", "deep"), mo("MC_Eval", "child"), mo("MC_Eval", "desc"), mo("MC_Norm", "loc")], "traces": [tr("C06", 2000, 40000)]},
    "C07": {"clauses": ["np", "ser", "distinct", "ptr", "ptrnode", "pn", "rp", "missing", "reparse", "reloc", "panic"],
            "models": [mo("MC_Big", "child"), mo("MC_Big", "deep"), mo("MC_Norm", "loc")], "traces": [tr("C07", 2000, 40000)]},
    "C08": {"clauses": ["reject", "accept", "accept-lenient", "query", "panic"], "models": [mo("MC_Edit", "fn"), mo("MC_Edit", "filt"), mo("MC_Edit", "segs"), mo("MC_Big", "long"), mo("MC_Syntax", "segs"), mo("MC_Syntax", "filt"), mo("MC_Syntax", "sing")], "traces": [tr("C08", 3000, 80000)]},
    "C09": {"clauses": ["panic-parse", "agree", "equal", "position", "message"], "models": [mo("MC_Edit", "str"), mo("MC_Edit", "segs"), mo("MC_Big", "long"), mo("MC_Syntax", "segs"), mo("MC_Syntax", "sur")], "traces": [tr("C09", 3000, 80000)]},
    "C10": {"clauses": ["reject", "accept", "panic-parse", "counts"], "models": [mo("MC_Edit", "fn"), mo("MC_Types", "types"), mo("MC_Types", "types", "shadow"), mo("MC_Syntax", "call"), mo("MC_Sig", "sig", "sigs")], "traces": [tr("C10", 1500, 30000), tr("C10", 800, 15000, "shadow"), tr("C10", 150, 3000, "sigs")]},
    "C11": {"clauses": EVAL, "models": [mo("MC_Big", "fn"), mo("MC_Fn", "fn")], "traces": [tr("C11", 1000, 20000)]},
    "C12": {"clauses": EVAL, "models": [mo("MC_Big", "fn"), mo("MC_Regex", "ops"), mo("MC_Regex", "class"), mo("MC_Regex", "esc")], "traces": [tr("C12", 1500, 30000)]},
    "C13": {"clauses": EVAL, "register": ["sigs"], "models": [mo("MC_Types", "types"), mo("MC_Types", "types", "shadow"), mo("MC_Sig", "sig", "sigs")], "traces": [tr("C13", 800, 16000), tr("C13", 600, 12000, "shadow"), tr("C13", 110, 2500, "sigs")]},
    "C14": {"clauses": ["dispparse", "dispser", "dispeq", "dispfix", "dispsame", "panic-disp", "disp-reparse", "disp-eq", "disp-fix", "disp-query"],
            "models": [mo("MC_Big", "long"), mo("MC_Text", "leaf"), mo("MC_Text", "expr"), mo("MC_Syntax", "strq"), mo("MC_Slice", "slice")], "traces": [tr("C14", 2000, 40000), tr("C14", 400, 8000, "shadow")]},
    "C15": {"clauses": ["len", "empty", "first", "last", "get", "at_most_one", "exactly_one", "all", "iter", "serialize", "nodes", "locations",
                        "serloc", "iterator", "rebuild", "one", "panic"], "models": [mo("MC_Big", "child"), mo("MC_Iter", "it"), mo("MC_Iter", "big")], "traces": [tr("C15", 2000, 40000)]},
    "C16": {"clauses": ["dedup", "dedupnodes", "inplace", "idempotent", "locorder", "panic-dedup", "panic-matrix"], "models": [mo("MC_Big", "child"), mo("MC_Dedup", "dd")], "traces": [tr("C16", 2000, 40000)]},
    "C17": {"clauses": ["query", "reject", "accept", "docchanged", "panic"], "alone": True, "models": [mo("MC_Session", "texts"), mo("MC_Session", "docs"), mo("MC_Session", "bad")], "traces": [tr("C17", 600, 8000), tr("C17r", 250, 4000)]},
    "C18": {"clauses": ["reject", "accept", "query", "panic"], "models": [mo("MC_Edit", "str"), mo("MC_Big", "long"), mo("MC_Syntax", "strq"), mo("MC_Syntax", "strd"), mo("MC_Syntax", "sur")], "traces": [tr("C18", 3000, 60000)]},
    "C19": {"clauses": ["reject", "accept", "query", "panic"], "models": [mo("MC_Edit", "num"), mo("MC_Syntax", "num"), mo("MC_Syntax", "int")], "traces": [tr("C19", 3000, 60000)]},
    "C21": {"clauses": ["elements", "elemlen", "elemget", "elemends", "elemrange", "elemeq", "elemcmp", "elemtext", "elemser", "loceq", "locorder",
                        "panic"], "models": [mo("MC_Big", "child"), mo("MC_Big", "deep"), mo("MC_Norm", "loc")], "traces": [tr("C21", 1500, 30000)]},
    "C22": {"clauses": ["samesound", "samerefl", "sameequiv", "query", "panic"], "models": [mo("MC_Big", "deep"), mo("MC_Big", "long"), mo("MC_Same", "same")], "traces": [tr("C22", 1000, 20000)]},
    "C20": {"clauses": ["add", "sub", "mul", "abs", "from", "text", "eq", "cmp"], "models": [mo("MC_Int", "int")], "traces": [tr("C20", 1500, 30000)]},
}
