"""Per property: trace specification, number of cases, design models, behaviour generators."""


def col(gen=None, models=(), quick=700):
    d = dict(spec="T_COL", cases=dict(quick=quick, thorough=8000), models=[])
    for m in models:
        d["models"].append(dict(module="MC_COL", cfg=f"MC_COL_{m}1.cfg"))
        d["models"].append(dict(module="MC_COL", cfg=f"MC_COL_{m}.cfg", thorough=True, workers=4))
    if gen:
        d["gen"] = dict(module="MC_COL", cfg=f"GEN_COL_{gen}.cfg", depth=14, num=dict(quick=250, thorough=4000))
    return d


CFG = {
    "C01": col("all", ["sel", "par"]),
    "C02": col("sel", ["sel"]),
    "C03": col(None, ["sel"]),
    "C04": col("par", ["par"]),
    "C05": col(None, ["par"]),
    "V01": dict(spec="T_CV", cases=dict(quick=300, thorough=6000), models=[dict(module="MC_CV", cfg="MC_CV.cfg")],
                gen=dict(module="MC_CV", cfg="GEN_CV.cfg", bfs=True, num=dict(quick=400, thorough=100000))),
    "T01": dict(spec="T_TRF", cases=dict(quick=360, thorough=6000),
                models=[dict(module="MC_EST", cfg="MC_EST.cfg"), dict(module="MC_EST", cfg="MC_EST_T.cfg", thorough=True, workers=4)],
                gen=dict(module="MC_EST", cfg="GEN_EST.cfg", depth=12, num=dict(quick=120, thorough=2000))),
    "M08": dict(spec="T_EST", cases=dict(quick=300, thorough=8000),
                models=[dict(module="MC_EST", cfg="MC_EST.cfg"), dict(module="MC_EST", cfg="MC_EST_T.cfg", thorough=True, workers=4)],
                gen=dict(module="MC_EST", cfg="GEN_EST.cfg", depth=12, num=dict(quick=150, thorough=2000))),
    "T02": dict(spec="T_TRV", cases=dict(quick=550, thorough=12000)),
    "M01": dict(spec="T_DMD", cases=dict(quick=260, thorough=6000)),
    "M05": dict(spec="T_DMD", cases=dict(quick=260, thorough=6000)),
    "M07": dict(spec="T_EDM", cases=dict(quick=270, thorough=6000)),
    "M04": dict(spec="T_STR", cases=dict(quick=300, thorough=8000)),
    "M06": dict(spec="T_EDM", cases=dict(quick=240, thorough=6000)),
    "K01": dict(spec="T_DST", cases=dict(quick=500, thorough=10000)),
    "K03": dict(spec="T_DMP", cases=dict(quick=260, thorough=8000)),
    "K04": dict(spec="T_OOS", cases=dict(quick=300, thorough=8000)),
    "P01": dict(spec="T_MPC", cases=dict(quick=250, thorough=8000)),
    "K02": dict(spec="T_KER", cases=dict(quick=320, thorough=10000)),
    "M03": dict(spec="T_DMD", cases=dict(quick=500, thorough=10000)),
    "M02": dict(spec="T_LIN", cases=dict(quick=500, thorough=12000)),
    "V02": dict(spec="T_MET", cases=dict(quick=900, thorough=20000)),
}
