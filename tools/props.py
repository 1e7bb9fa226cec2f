"""What check.py runs for each property."""
PROPS = {
    "C01": dict(bins=["c01"], trace="TraceOwn", scale=2, thorough_scale=6, thorough_rounds=3, laws=[("MC_Own", "MC_Own.cfg", None)], proofs=["OwnProof"],
                scenarios=[("MC_OwnWords", "MC_OwnWords1.cfg", None, None), ("MC_OwnWords", "MC_OwnWords2.cfg", "MC_OwnWords2full.cfg", None),
                           ("MC_OwnWords", "MC_OwnWordsSim.cfg", None, (1500, 6000)), ("MC_OwnWords", "MC_OwnWordsSimLong.cfg", None, (300, 2000))]),
    "C02": dict(bins=["c02"], scale=15, thorough_scale=60, thorough_rounds=10, laws=[("MC_Seqs", "MC_Seqs.cfg", "MC_SeqsDeep.cfg")]),
    "C03": dict(bins=["c03"], scale=15, thorough_scale=60, thorough_rounds=10, laws=[("MC_Seqs", "MC_Seqs.cfg", "MC_SeqsDeep.cfg")],
                scenarios=("MC_IterWords", "MC_IterWords.cfg", "MC_IterWords5.cfg")),
    "C04": dict(bins=["c04"], scale=8, thorough_scale=25, thorough_rounds=10, laws=[("MC_Store", "MC_Store.cfg", "MC_StoreDeep.cfg")]),
    "C05": dict(bins=["c05"], scale=10, thorough_scale=40, thorough_rounds=10, laws=[("MC_Elem", "MC_Elem.cfg", None)]),
    "C06": dict(bins=["c06"], scale=12, thorough_scale=30, thorough_rounds=10, laws=[("MC_Elem", "MC_Elem.cfg", None), ("MC_Func", "MC_Func.cfg", "MC_FuncDeep.cfg")]),
    "C07": dict(bins=["c07"], scale=5, thorough_scale=10, thorough_rounds=10, laws=[("MC_Reduce", "MC_Reduce.cfg", "MC_ReduceDeep.cfg")]),
    "C08": dict(bins=["c08"], scale=12, thorough_scale=20, thorough_rounds=10, laws=[("MC_Linalg", "MC_Linalg.cfg", "MC_Linalg5.cfg")]),
    "C09": dict(bins=["c09"], scale=8, thorough_scale=10, thorough_rounds=10,
                laws=[("MC_Linalg", "MC_Linalg.cfg", "MC_Linalg5.cfg"), ("MC_Det", "MC_Det.cfg", "MC_DetDeep.cfg")]),
    "C10": dict(bins=["c10"], scale=20, thorough_scale=30, thorough_rounds=10, laws=[("MC_Hyper", "MC_Hyper.cfg", "MC_HyperAll.cfg")]),
    "C11": dict(bins=["c11"], scale=20, thorough_scale=30, thorough_rounds=10, laws=[("MC_Hyper", "MC_Hyper.cfg", "MC_HyperAll.cfg")]),
    "C12": dict(bins=["c12"], scale=8, thorough_scale=16, thorough_rounds=10, scenarios=("MC_Words", "MC_Words.cfg", "MC_Words4.cfg"),
                laws=[("MC_Xform", "MC_Xform.cfg", "MC_XformDeep.cfg")]),
    "C13": dict(bins=["c13"], scale=12, thorough_scale=20, thorough_rounds=10, laws=[("MC_Xform", "MC_Xform.cfg", "MC_XformDeep.cfg")]),
    "C14": dict(bins=["c14"], scale=6, thorough_scale=10, thorough_rounds=10,
                laws=[("MC_Fx", "MC_Fx.cfg", "MC_FxDeep.cfg"), ("MC_Xform", "MC_Xform.cfg", "MC_XformDeep.cfg")]),
    "C15": dict(bins=["c15"], scale=6, thorough_scale=20, thorough_rounds=10, laws=[("MC_Mobius", "MC_Mobius.cfg", "MC_Mobius5.cfg")]),
    "C16": dict(bins=["c16"], scale=40, thorough_scale=100, thorough_rounds=10, laws=[("MC_Sampler", "MC_Sampler.cfg", "MC_SamplerDeep.cfg")]),
    "C17": dict(bins=["c17"], scale=15, thorough_scale=50, thorough_rounds=10, laws=[("MC_Format", "MC_Format.cfg", "MC_FormatDeep.cfg")]),
    "C18": dict(bins=["c18"], scale=4, thorough_scale=10, thorough_rounds=10, laws=[("MC_Near", "MC_Near.cfg", "MC_NearDeep.cfg")]),
    "C19": dict(bins=["c19"], scale=3, thorough_scale=10, thorough_rounds=10, laws=[("MC_Prim", "MC_Prim.cfg", "MC_PrimDeep.cfg")]),
    "C21": dict(bins=["c21"], scale=240, thorough_scale=600, thorough_rounds=10, laws=[("MC_Fx", "MC_Fx.cfg", "MC_FxDeep.cfg")]),
    "C20": dict(bins=["c20"], scale=4, thorough_scale=20, thorough_rounds=10),
}
