import os

REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = ["drivers/eng.cc", "drivers/mon.cc", "drivers/scenario.cc", "drivers/fam_arith.cc", "drivers/fam_count.cc", "drivers/fam_seq.cc", "drivers/fam_sched.cc"]


def S(names):
    return ["gcs/" + n + ".cc" for n in names.split()]


DRIVERS = {
    "solve": (["drivers/drv_solve.cc"] + ENG, []),
    "proof": (["drivers/drv_proof.cc", "drivers/pbcheck.cc"] + ENG, []),
    "scp": (["drivers/drv_scp.cc"] + ENG, []),
    "fzn": ("drivers/drv_fzn.cc", []),
    "fzn_glasgow": (REPO + "/minizinc/fzn_glasgow.cc", []),
    "xcsp": ("drivers/drv_xcsp.cc", []),
    "xcsp_solver": (REPO + "/xcsp/xcsp_glasgow_constraint_solver.cc", []),
    "api": (["drivers/drv_api.cc"] + ENG, []),
    "weigh": (["drivers/drv_weigh.cc"] + ENG, []),
    "multi": (["drivers/drv_multi.cc"] + ENG, []),
    "reject": ("drivers/drv_reject.cc", []),
    "scp_solver": (REPO + "/scp/glasgow_scp_solver.cc", []),
    "core": ("drivers/drv_core.cc", [], S("constraints/linear/utils current_state exception innards/integer_overflow innards/literal innards/power innards/proofs/bits_encoding innards/state innards/variable_id_utils variable_id")),
    "state": ("drivers/drv_state.cc", [], S("current_state exception innards/integer_overflow innards/state innards/variable_id_utils")),
    "algo": ("drivers/drv_algo.cc", [], S("constraint constraints/difference/difference_incremental constraints/difference/difference_simplify constraints/regular/regex exception innards/integer_overflow innards/s_expr restarts stats")),
    "read": ("drivers/drv_read.cc", [], S("exception innards/integer_overflow")),
}
ASAN = {"variant": "asan", "only_crashes": True}
VARIANT_DRIVERS = {"plain": ["core", "state", "algo", "solve", "proof", "read", "scp", "scp_solver", "reject", "multi", "api", "weigh", "fzn", "fzn_glasgow", "xcsp", "xcsp_solver"],
                   "tsan": ["multi"],
                   "asan": ["core", "state", "algo", "solve", "proof", "read", "scp", "scp_solver", "reject", "api", "fzn", "fzn_glasgow", "xcsp", "xcsp_solver"]}


def job(driver, mode, quick, thorough, variant="plain", cap=(100, 700), **kw):
    d = {"driver": driver, "mode": mode, "variant": variant, "cases": {"quick": quick, "thorough": thorough}, "cap": {"quick": cap[0], "thorough": cap[1]}}
    d.update(kw)
    return d


# thresholds that pick between algorithms inside the propagators; read once per process
ENVS = [{}, {}, {"GCS_LINEAR_INCREMENTAL_THRESHOLD": "0", "GCS_LINEAR_SLACK_WATCH_THRESHOLD": "0", "GCS_LINEAR_SLACK_WATCH_COVER_PERCENT": "1000"},
        {"GCS_LINEAR_INCREMENTAL_THRESHOLD": "0", "GCS_TABULATION_THRESHOLD": "0"},
        {"GCS_LINEAR_SLACK_WATCH_THRESHOLD": "0", "GCS_LINEAR_SLACK_WATCH_COVER_PERCENT": "1000"}, {"GCS_LINEAR_INCREMENTAL_THRESHOLD": "1000000", "GCS_LINEAR_SLACK_WATCH_THRESHOLD": "1000000"},
        {"GCS_TABULATION_THRESHOLD": "1000000"}, {"GCS_DIFFERENCE_AUDIT": "1"}]

PROPS = {
    "P01": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "directed", 64, 640, family="P01"), job("solve", "exact", 96000, 1600000, family="A", envs=ENVS)]},
    "P02": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "directed", 64, 640, family="P02"), job("solve", "exact", 96000, 1600000, family="B")]},
    "P03": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "directed", 64, 640, family="P03"), job("solve", "exact", 96000, 1600000, family="C")]},
    "P04": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "exact", 96000, 1600000, family="D")]},
    "P05": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "directed", 64, 640, family="P05"), job("solve", "conj", 96000, 1600000, envs=ENVS)]},
    "P06": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "opt", 96000, 1600000)]},
    "P07": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "config", 24000, 500000, envs=ENVS)]},
    "P08": {"rule": "distinct models with some but not all assignments as solutions", "jobs": [job("solve", "directed", 64, 640, family="P08"), job("solve", "presolve", 48000, 1000000)]},
    "P09": {"rule": "distinct pruned domain states", "jobs": [job("solve", "consistency", 96000, 1600000)]},
    "P10": {"rule": "distinct domain states at search nodes", "jobs": [job("solve", "sound", 48000, 1000000, envs=ENVS)]},
    "P11": {"rule": "distinct domain changing operations", "jobs": [job("state", "state", 16000, 400000)]},
    "P12": {"rule": "distinct proofs with more than a trivial number of steps", "jobs": [job("proof", "directed", 44, 440), job("proof", "proof", 16000, 400000)]},
    "P13": {"rule": "distinct models with both satisfiable and unsatisfiable assignments", "jobs": [job("proof", "model", 16000, 400000)]},
    "P14": {"rule": "distinct proofs with more than a trivial number of steps", "jobs": [job("proof", "account", 16000, 400000)]},
    "P15": {"rule": "distinct search traces with more than one node", "jobs": [job("solve", "determinism", 24000, 500000)]},
    "P28": {"rule": "distinct stopped searches", "jobs": [job("solve", "callbacks", 96000, 1600000)]},
    "P33": {"rule": "distinct statistics vectors", "jobs": [job("solve", "stats", 96000, 1600000), job("solve", "restarts", 24000, 800000), job("weigh", "counted", 24000, 500000)]},
    "P34": {"rule": "distinct branching decisions", "jobs": [job("solve", "branch", 24000, 500000), job("weigh", "weights", 24000, 500000)]},
    "P18": {"rule": "distinct operand pairs", "jobs": [job("core", "integer", 8000, 200000)]},
    "P19": {"rule": "distinct argument boxes", "jobs": [job("core", "arith", 8000, 200000)]},
    "P20": {"rule": "distinct ranges", "jobs": [job("core", "bits", 8000, 200000)]},
    "P21": {"rule": "distinct resulting sets", "jobs": [job("core", "intervalset", 20000, 400000)]},
    "P22": {"rule": "distinct query answer vectors", "jobs": [job("core", "tree", 4000, 100000)]},
    "P23": {"rule": "distinct view tuples", "jobs": [job("core", "views", 8000, 200000)]},
    "P17": {"rule": "distinct canonical terms", "jobs": [job("algo", "sexpr", 20000, 400000)]},
    "P24": {"rule": "distinct acceptance vectors of expressions accepting some but not all words", "jobs": [job("algo", "regex", 8000, 200000)]},
    "P25": {"rule": "distinct graphs on which something was removed, fixed or cyclic; distinct fixpoint traces", "jobs": [job("algo", "simplify", 60000, 2000000), job("algo", "incremental", 40000, 1000000)]},
    "P26": {"rule": "distinct (length, scale) schedules; distinct restarting searches", "jobs": [job("algo", "luby", 800, 20000), job("solve", "restarts", 12000, 400000)]},
    "P32": {"rule": "distinct accepted files and distinct rejected files", "jobs": [job("read", "directed", 48, 480), job("read", "dzn", 8000, 400000), job("read", "instances", 8000, 400000)]},
    "P35": {"rule": "distinct generated instances", "jobs": [job("read", "bounds", 80000, 2000000)]},
    "P16": {"rule": "distinct descriptions whose problem has some but not all assignments as solutions; distinct rejected texts", "jobs": [job("scp", "roundtrip", 40000, 800000), job("scp", "damaged", 24000, 400000)]},
    "P30": {"rule": "distinct FlatZinc models with some but not all assignments as solutions; distinct refused files", "jobs": [job("fzn", "front", 8000, 200000, also=["fzn_glasgow"])]},
    "P37": {"rule": "distinct sets of asserted steps judged in proofs with more than three of them", "jobs": [job("proof", "asserted", 96000, 2400000)]},
    "P29": {"rule": "distinct (scenario, damage, outcome) combinations; distinct naming sequences with both accepted and refused names", "jobs": [job("reject", "models", 64000, 1600000), job("reject", "names", 24000, 600000)]},
    "P27": {"rule": "distinct non-trivial observations of the workloads run under the sanitizers", "jobs": [
        job("solve", "conj", 6000, 200000, envs=ENVS, **ASAN), job("solve", "opt", 3000, 100000, **ASAN), job("solve", "presolve", 3000, 100000, **ASAN),
        job("solve", "consistency", 3000, 100000, **ASAN), job("solve", "callbacks", 3000, 100000, **ASAN), job("solve", "stats", 2000, 60000, **ASAN), job("solve", "restarts", 1000, 40000, **ASAN),
        job("solve", "config", 800, 30000, envs=ENVS, **ASAN), job("solve", "branch", 800, 30000, **ASAN),
        job("proof", "proof", 1600, 60000, **ASAN), job("proof", "account", 800, 30000, **ASAN), job("proof", "asserted", 800, 30000, **ASAN), job("scp", "roundtrip", 1600, 60000, **ASAN),
        job("scp", "damaged", 4000, 200000, **ASAN), job("scp", "program", 400, 10000, also=["scp_solver"], **ASAN), job("fzn", "front", 400, 10000, also=["fzn_glasgow"], **ASAN), job("xcsp", "front", 400, 10000, also=["xcsp_solver"], **ASAN), job("api", "report", 2000, 60000, **ASAN), job("api", "readback", 2000, 60000, **ASAN), job("reject", "models", 6000, 200000, **ASAN),
        job("state", "state", 1600, 60000, **ASAN), job("core", "integer", 400, 20000, **ASAN), job("core", "arith", 800, 40000, **ASAN), job("core", "intervalset", 4000, 100000, **ASAN),
        job("core", "tree", 1000, 40000, **ASAN), job("core", "views", 1600, 60000, **ASAN), job("algo", "sexpr", 1600, 60000, **ASAN), job("algo", "regex", 1600, 60000, **ASAN),
        job("algo", "simplify", 8000, 200000, **ASAN), job("algo", "incremental", 6000, 200000, **ASAN), job("read", "dzn", 400, 20000, **ASAN), job("read", "instances", 4000, 100000, **ASAN), job("read", "bounds", 8000, 200000, **ASAN)]},
    "P36": {"rule": "distinct sequences of solves, nested solves and thread line-ups", "jobs": [job("multi", "repeat", 24000, 500000), job("multi", "nested", 16000, 400000), job("multi", "threads", 3200, 80000, variant="tsan")]},
    "P31": {"rule": "distinct program runs", "jobs": [job("scp", "program", 8000, 160000, also=["scp_solver"])]},
    "P38": {"rule": "distinct sequences of reports", "jobs": [job("api", "report", 48000, 1000000), job("api", "report", 6000, 200000, variant="asan")]},
    "P39": {"rule": "distinct states read and kept", "jobs": [job("api", "readback", 48000, 1000000), job("api", "readback", 6000, 200000, variant="asan")]},
    "P40": {"rule": "distinct XCSP instances with some but not all assignments as solutions; distinct refused instances", "jobs": [job("xcsp", "front", 16000, 400000, also=["xcsp_solver"])]},
}
