from core import Component

BUILD = "lib"
TEXTS = '{"true", "1", "3", "2.5", "abc", "", "0", "-2", "false"}'
COMPONENTS = [
    Component("store", "ParamStore", "paramstore.cpp",
              mc={"Names": '{"a", "b"}', "Texts": '{"3", "abc"}', "MaxStack": "1", "MaxPath": "2",
                  "MaxNodes": "2", "Acts": '"store"'},
              tier_mc={"Names": '{"a", "b"}', "Texts": '{"3", "abc"}', "MaxStack": "2", "MaxPath": "2",
                       "MaxNodes": "3", "Acts": '"store"'},
              sim={"Names": '{"a", "b"}', "Texts": TEXTS, "MaxStack": "5", "MaxPath": "3",
                   "MaxNodes": "20", "Acts": '"store"'},
              num_sim=(300, 3000), sim_len=(40, 60), max_edges=(4000, 60000)),
    Component("facts", "ParamStore", "paramstore.cpp",
              mc={"Names": '{}', "Texts": '{}', "MaxStack": "0", "MaxPath": "1",
                  "MaxNodes": "1", "Acts": '"facts"'}, maxlen=1, pack=20),
]
