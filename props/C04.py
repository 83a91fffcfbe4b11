from core import Component

BUILD = "lib"
COMPONENTS = [
    Component("store", "ResultStore", "resultstore.cpp",
              mc={"Models": '{"g"}', "Stages": '{"s"}', "Methods": '{"m"}',
                  "Names": '{"x"}', "Tpls": '{"T1"}', "MaxPut": "2"},
              tier_mc={"Models": '{"g", "q"}', "Stages": '{"s"}',
                       "Methods": '{"m"}', "Names": '{"x"}',
                       "Tpls": '{"T1"}', "MaxPut": "2"},
              sim={"Models": '{"g", "q"}', "Stages": '{"s", "t", "g"}',
                   "Methods": '{"m", "n"}', "Names": '{"x", "y", "xy"}',
                   "Tpls": '{"T1", "T2"}', "MaxPut": "1000"},
              num_sim=(150, 1500), sim_len=(60, 80)),
    Component("candidates", "CandidateStore", "candstore.cpp",
              mc={"Models": '{"g", "q"}', "Methods": '{"m"}', "MaxCand": "2",
                  "MaxPut": "3"},
              sim={"Models": '{"g", "q", "r"}', "Methods": '{"m", "n"}',
                   "MaxCand": "6", "MaxPut": "9"},
              num_sim=(40, 400), sim_len=(9, 9)),
]
