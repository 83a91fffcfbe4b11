from core import Component

BUILD = "lib"
COMPONENTS = [
    Component("solver_run", "SolverRun", "solverrun.cpp",
              mc={"Models": '{"g"}', "Stages": '{"s"}', "Methods": '{"m", "n"}',
                  "Codes": "{1, 4}", "MaxScript": "2", "MaxRuns": "2"},
              tier_mc={"Models": '{"g"}', "Stages": '{"s"}',
                       "Methods": '{"m", "n"}',
                       "Codes": "{1, 4}", "MaxScript": "3", "MaxRuns": "1"},
              sim={"Models": '{"g", "q"}', "Stages": '{"s", "t"}',
                   "Methods": '{"m", "n"}', "Codes": "{1, 4, 12}",
                   "MaxScript": "3", "MaxRuns": "1000"},
              num_sim=(60, 1500), sim_len=(12, 16), max_edges=4000),
]
