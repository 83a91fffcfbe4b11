from core import Component

BUILD = "lib"
COMPONENTS = [
    Component("catalog", "TemplateCatalog", "templatecatalog.cpp",
              mc={"CatSeq": '<<"a", "b">>', "Names": "2", "MaxLenL": "2", "MaxAdd": "4"},
              sim={"CatSeq": '<<"a", "b">>', "Names": "2", "MaxLenL": "3", "MaxAdd": "60"},
              maxlen=(6, 8), max_edges=(15000, 200000), num_sim=(500, 8000), sim_len=(40, 60)),
]
