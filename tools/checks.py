"""Which targets decide which property, and how many cases each tier runs."""

BINARIES = {
    "containers": {"sources": ["containers/*.cc"]},
    "search": {"sources": ["search/*.cc"]},
    # The whole library over the stand-in for VAL.
    "core": {"sources": ["shim/*.cc", "core/*.cc"], "includes": ["shim", "core"], "repo_includes": ["src"],
             "repo_sources": ["src/*.cc", "src/planning/*.cc", "src/utils/*.cc"], "flags": ["-I/usr/include/eigen3"]},
    # The command-line planner.
    "app": {"sources": ["shim/*.cc", "core/model.cc", "core/plan_model.cc", "app/*.cc"], "includes": ["shim", "core"], "repo_includes": ["src"],
            "repo_sources": ["src/*.cc", "src/planning/*.cc", "src/utils/*.cc"], "repo_mains": {"apps/pddl.cc": "pddl_app_main"}, "flags": ["-I/usr/include/eigen3"]},
    # The Python API over a stand-in for pybind11.
    "bindings": {"sources": ["shim/*.cc", "core/model.cc", "core/plan_model.cc", "bindings/*.cc"], "includes": ["pyshim", "shim", "core"], "repo_includes": ["src"],
                 "repo_sources": ["src/*.cc", "src/planning/*.cc", "src/utils/*.cc", "src/python/*.cc"], "flags": ["-I/usr/include/eigen3"]},
}


def T(binary, target, quick, thorough=None, **kw):
    d = dict(binary=binary, target=target, quick=quick, **kw)
    d["thorough"] = thorough if thorough else quick * 15
    return d


HASHES = "element hashes are the ones the library computes, plus deliberately colliding ones for synthetic elements"

SIZES = "domains, problems and formulas of the generated sizes (core/model.cc): up to a handful of types, objects, predicates and actions per case"
SHIM = "the real VAL parser is not in the sandbox: a stand-in (shim/) with VAL's interface and parse-tree shapes reads the PDDL text"

CHECKS = {
    "C01": dict(targets=[T("containers", "C01_hash_set", 300000), T("containers", "C01_initializer_and_vector", 200000), T("containers", "C01_large_sets", 1500), T("core", "C01_state_history", 40000)],
                assumptions=[HASHES]),
    "C02": dict(targets=[T("containers", "C02_hash_set", 300000), T("containers", "C02_large", 3000), T("core", "C02_state_equality", 30000), T("core", "C02_partial_equality", 30000)], assumptions=[HASHES]),
    "C03": dict(targets=[T("core", "C03_partial_history", 40000), T("core", "C03_assembled", 40000)], assumptions=[SIZES]),
    "C04": dict(targets=[T("core", "C04_propositions", 60000)], assumptions=[SIZES, SHIM]),
    "C05": dict(targets=[T("containers", "C05_enumerate", 20000), T("containers", "C05_large", 8000)],
                assumptions=["products of option-list sizes stay below 2^31, as the iterator index is an int"]),
    "C06": dict(targets=[T("containers", "C06_walk", 200000), T("containers", "C06_all_jumps", 10000)], assumptions=[]),
    "C07": dict(targets=[T("core", "C07_generators", 30000)], assumptions=[SIZES, SHIM]),
    "C08": dict(targets=[T("core", "C08_state_index", 30000)], assumptions=[SIZES, SHIM]),
    "C09": dict(targets=[T("search", "C09_bfs", 12000), T("search", "C09_large", 400)], assumptions=[]),
    "C10": dict(targets=[T("search", "C10_dfs", 16000), T("search", "C10_large", 400)], assumptions=[]),
    "C11": dict(targets=[T("search", "C11_a_star", 6000), T("search", "C11_large", 400)], assumptions=[]),
    "C12": dict(targets=[T("core", "C12_children", 16000), T("core", "C12_walks", 1500)], assumptions=[SIZES, SHIM]),
    "C13": dict(targets=[T("core", "C13_planning", 14000), T("core", "C13_long", 800)], assumptions=[SIZES, SHIM]),
    "C14": dict(targets=[T("core", "C14_types", 60000)], assumptions=[SIZES, SHIM]),
    "C15": dict(targets=[T("core", "C15_parsing", 30000)], assumptions=[SIZES, SHIM]),
    "C16": dict(targets=[T("core", "C16_formulas", 60000)], assumptions=[SIZES, SHIM]),
    "C17": dict(targets=[T("core", "C17_partial_formulas", 50000)], assumptions=[SIZES, SHIM]),
    "C18": dict(targets=[T("core", "C18_apply", 20000)], assumptions=[SIZES, SHIM]),
    "C19": dict(targets=[T("core", "C19_partial_apply", 20000)], assumptions=[SIZES, SHIM]),
    "C20": dict(targets=[T("core", "C20_facade", 14000)], assumptions=[SIZES, SHIM]),
    "C21": dict(targets=[T("core", "C21_derived", 20000)], assumptions=[SIZES, SHIM]),
    "C22": dict(targets=[T("core", "C22_closure", 30000), T("core", "C22_rigid", 30000), T("core", "C22_partial", 20000), T("core", "C22_conflicts", 8000)], assumptions=[SIZES, SHIM]),
    "C23": dict(targets=[T("core", "C23_triggers", 25000), T("core", "C23_partial_triggers", 20000)], assumptions=[SIZES, SHIM]),
    "C24": dict(targets=[T("core", "C24_normal_forms", 60000)], assumptions=[SIZES, SHIM]),
    "C25": dict(targets=[T("core", "C25_conditions", 40000)], assumptions=[SIZES, SHIM]),
    "C26": dict(targets=[T("core", "C26_loading", 16000), T("core", "C26_objects", 8000)], assumptions=[SIZES, SHIM]),
    "C27": dict(targets=[T("core", "C27_printing", 40000)], assumptions=[SIZES, SHIM]),
    "C29": dict(targets=[T("app", "C29_tool", 12000)], assumptions=[SIZES, SHIM]),
    "C30": dict(targets=[T("bindings", "C30_api", 8000)], assumptions=[SIZES, SHIM, "pybind11 is not in the sandbox: a stand-in (pyshim/) follows its documented conversion, overload, return value and keep-alive rules"]),
    "C28": dict(targets=[dict(script="pyprop/C28_problem.py", quick=4000, thorough=40000)], assumptions=["names contain no spaces, commas or parentheses"]),
}
