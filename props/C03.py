from core import Component

BUILD = "lib"
COMPONENTS = [
    Component("scope_stack", "ScopeStack", "scope.cpp",
              mc={"Names": '{"a", "b"}', "MaxStack": "3", "UseGuards": "FALSE"},
              tier_mc={"Names": '{"a", "b"}', "MaxStack": "4",
                       "UseGuards": "FALSE"},
              sim={"Names": '{"gal", "qso", "x", ""}', "MaxStack": "7",
                   "UseGuards": "TRUE"},
              num_sim=(300, 3000), sim_len=(40, 60)),
    Component("scope_guards", "ScopeStack", "scope.cpp",
              mc={"Names": '{"a"}', "MaxStack": "4", "UseGuards": "TRUE"},
              tier_mc={"Names": '{"a"}', "MaxStack": "5", "UseGuards": "TRUE"}),
]
