"""Workload bias per property (see gen.swarm); a list is drawn from per run."""
KNOBS = {
    "R01": {"p_df": [0.4, 0.7, 0.9], "p_props": [0.15, 0.4, 0.8], "p_meta": [0.0, 0.3, 0.8], "p_wc": [0.0, 0.3],
            "peripherals": [2, 3, 4, 5], "p_dim": [0.0, 0.15, 0.35]},
    "R02": {"p_dim": [0.35, 0.6, 0.8], "p_df": [0.0, 0.2, 0.4], "p_meta": [0.0, 0.3, 0.8], "bigdim": [0, 0, 1],
            "p_wrong": 0.12, "wrongs": [["narrow", "dimindex", "nodim", "dimzero", "fieldarray"]]},
    "R03": {"p_df": [0.7, 0.9], "reuse": [0, 1, 1, 1], "p_dim": [0.0, 0.15, 0.35, 0.6], "depth": [1, 2, 3],
            "p_cluster": [0.2, 0.4, 0.6], "p_alt": [0.0, 0.2, 0.4], "p_text": [0.0, 0.3], "p_mark": 1.0, "decoys": [0, 1],
            "p_wrong": 0.06, "wrongs": [["dangling", "cycle2", "cycle3", "ambiguous"]]},
    "R04": {"p_props": [0.15, 0.4, 0.8], "p_devprops": [0.0, 0.5, 1.0], "depth": [1, 2, 3],
            "p_cluster": [0.2, 0.4, 0.6], "p_df": [0.0, 0.2, 0.4]},
    "R05": {"p_enum": [0.7, 0.9], "fields": [2, 4, 6], "p_default": [0.0, 0.4, 0.7], "p_wild": [0.0, 0.4, 0.7],
            "p_df": [0.0, 0.2, 0.5], "df_kinds": [["enums", "field"], ["enums"], None], "p_drop": [0.0, 0.1, 0.3],
            "p_text": [0.3, 0.8], "p_wrong": 0.06, "wrongs": [["enumuse", "twodefault"]]},
    "R06": {"p_df": [0.2, 0.4, 0.7], "reuse": [0, 1]},
    "M01": {"p_cluster": [0.2, 0.4, 0.6], "p_dim": [0.15, 0.35, 0.6], "p_df": [0.0, 0.2, 0.4], "depth": [1, 2, 3]},
}
for _k in KNOBS.values():
    _k["p_tower"] = 0.04
