from core import Component

BUILD = "lib"
ALL = "0..17"
COMPONENTS = [
    Component("flags", "WarningFlags", "flags.cpp",
              mc={"Codes": "{0, 3, 17}", "MaxMsgs": "3"},
              tier_mc={"Codes": "{0, 5, 16, 17}", "MaxMsgs": "3"},
              sim={"Codes": ALL, "MaxMsgs": "40"},
              num_sim=(100, 1000), sim_len=(40, 80)),
    Component("flags_every_code", "WarningFlags", "flags.cpp",
              mc={"Codes": ALL, "MaxMsgs": "1"},
              tier_mc={"Codes": ALL, "MaxMsgs": "2"}),
]
