"""C16: histories of writing and reading files of states."""
CFG = "SPECIFICATION Spec\nCONSTANTS NoFile = NoFile MaxSteps = %d Careless = %s\nINVARIANT Reads\nCHECK_DEADLOCK FALSE\n"
WRITE = {"op": "write", "file": 1, "time": [2016, 8, 1, 900, 1], "kind": ""}
READ = {"op": "read", "file": 1, "time": [], "vars": [], "kind": ""}


def var(name, units, *dims):
    return {
        "name": name, "units": units, "dtype": "float64", "mem": "C", "seed": 1, "special": False,
        "dims": [{"name": d, "extent": 3, "pad": [0, 0]} for d in dims],
    }


def run(ctx):
    ctx.design("StateFileMC", CFG % (ctx.size(3, 4), "FALSE"))
    ctx.mutant("StateFileMC", CFG % (2, "TRUE"), "a refused state destroys the file")
    sc = ctx.generate("StateFileGen", "", ctx.size(400, 6000), 40, "f")
    fixed = {
        "own-dimension": [var("land", "m", "land"), var("u", "m", "land", "z")],
        "units-of-time": [var("u", "seconds", "z"), var("v", "days since 2000-01-01", "z"), var("w", "hours")],
    }
    for name, v in fixed.items():
        sc.append({"id": name, "no": 2, "len": [], "where": "path", "ops": [{**WRITE, "vars": v}, READ]})
    ctx.conform("statefile", "StateFileTrace", sc, consts="CONSTANT NoFile = NoFile", chunk=800)
