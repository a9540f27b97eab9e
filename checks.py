CHECKS = {
 "P01": {"units": [
   {"name": "scalar", "h": "p01_tree.cpp", "mode": "fp", "srcs": ["tree"], "quick": {"D": {"K": 3, "DIM": 1}}, "thorough": {"D": {"K": 4, "DIM": 1}}},
   {"name": "vector", "h": "p01_tree.cpp", "mode": "fp", "srcs": ["tree"], "quick": {"D": {"K": 3, "DIM": 2}}, "thorough": {"D": {"K": 4, "DIM": 2}}},
   {"name": "reuse", "h": "p01_tree.cpp", "mode": "fp", "srcs": ["tree"], "quick": {"D": {"K": 3, "DIM": 2, "PRE": 1}}, "thorough": {"D": {"K": 4, "DIM": 1, "PRE": 1}}},
 ], "assumptions": []},
 "P02": {"units": [
   {"name": "walk", "h": "p02_route.cpp", "mode": "fp", "srcs": ["tree"], "quick": {"D": {"SPLITS": 2, "FEATS": 2, "PRUNE": 0}}, "thorough": {"D": {"SPLITS": 3, "FEATS": 2, "PRUNE": 0}}},
   {"name": "regrown", "h": "p02_route.cpp", "mode": "fp", "srcs": ["tree"], "quick": {"D": {"SPLITS": 2, "FEATS": 1, "PRUNE": 1}}, "thorough": {"D": {"SPLITS": 3, "FEATS": 1, "PRUNE": 1}}},
 ], "assumptions": []},
 "P03": {"units": [
   {"name": "history", "h": "p03_tracker.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 3, "N": 2, "FEATS": 1, "NAN": 1, "RESET": 1}}, "thorough": {"D": {"K": 4, "N": 2, "FEATS": 1, "NAN": 1, "RESET": 1}}},
   {"name": "wider", "h": "p03_tracker.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 2, "N": 3, "FEATS": 2, "NAN": 0, "RESET": 0}}, "thorough": {"D": {"K": 3, "N": 3, "FEATS": 2, "NAN": 0, "RESET": 0}}},
   {"name": "reuse", "h": "p03_tracker.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 3, "N": 1, "FEATS": 1, "NAN": 0, "RESET": 0, "PRE": 1}}, "thorough": {"D": {"K": 3, "N": 2, "FEATS": 1, "NAN": 0, "RESET": 1, "PRE": 1}}},
 ], "assumptions": []},
 "P04": {"units": [
   {"name": "features", "h": "p04_presort.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 1, "N": 3, "FEATS": 2, "ROUNDS": 1, "CATS": 0}}, "thorough": {"D": {"K": 2, "N": 3, "FEATS": 2, "ROUNDS": 1, "CATS": 0}, "budget": 1500}},
   {"name": "deep", "h": "p04_presort.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 2, "N": 3, "FEATS": 1, "ROUNDS": 1, "CATS": 0}}, "thorough": {"D": {"K": 2, "N": 4, "FEATS": 1, "ROUNDS": 1, "CATS": 0}, "budget": 1500}},
   {"name": "rounds", "h": "p04_presort.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 2, "N": 2, "FEATS": 2, "ROUNDS": 2, "CATS": 0}}, "thorough": {"D": {"K": 2, "N": 2, "FEATS": 2, "ROUNDS": 2, "CATS": 0}, "budget": 1500}},
   {"name": "categories", "h": "p04_presort.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data"], "quick": {"D": {"K": 1, "N": 2, "FEATS": 1, "ROUNDS": 1, "CATS": 1}}, "thorough": {"D": {"K": 2, "N": 2, "FEATS": 1, "ROUNDS": 1, "CATS": 1}, "budget": 1500}},
 ], "assumptions": []},
 "P05": {"units": [
   {"name": "constant", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 2, "TREES": 2, "DIM": 1, "SAMPLES": 1, "CONST": "true", "WB": 0}}, "thorough": {"D": {"N": 2, "TREES": 2, "DIM": 1, "SAMPLES": 2, "CONST": "true", "WB": 0}, "budget": 1200}},
   {"name": "constant_samples", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 1, "TREES": 2, "DIM": 1, "SAMPLES": 2, "CONST": "true", "WB": 0}}, "thorough": {"D": {"N": 1, "TREES": 2, "DIM": 1, "SAMPLES": 2, "CONST": "true", "WB": 0}}},
   {"name": "constant_with_basis", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 1, "TREES": 2, "DIM": 1, "SAMPLES": 1, "CONST": "true", "WB": 1}}, "thorough": {"D": {"N": 2, "TREES": 2, "DIM": 1, "SAMPLES": 1, "CONST": "true", "WB": 1}}},
   {"name": "univariate", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 1, "TREES": 2, "DIM": 1, "SAMPLES": 2, "CONST": "false", "WB": 1}}, "thorough": {"D": {"N": 2, "TREES": 2, "DIM": 1, "SAMPLES": 1, "CONST": "false", "WB": 1}}},
   {"name": "univariate_rows", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 2, "TREES": 1, "DIM": 1, "SAMPLES": 2, "CONST": "false", "WB": 1}}, "thorough": {"D": {"N": 3, "TREES": 1, "DIM": 1, "SAMPLES": 2, "CONST": "false", "WB": 1}}},
   {"name": "multivariate", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 1, "TREES": 2, "DIM": 2, "SAMPLES": 2, "CONST": "false", "WB": 1}}, "thorough": {"D": {"N": 2, "TREES": 2, "DIM": 2, "SAMPLES": 1, "CONST": "false", "WB": 1}}},
   {"name": "multivariate_rows", "h": "p05_predict.cpp", "mode": "real", "srcs": ["tree", "container", "data"], "quick": {"D": {"N": 2, "TREES": 1, "DIM": 2, "SAMPLES": 2, "CONST": "false", "WB": 1}}, "thorough": {"D": {"N": 3, "TREES": 1, "DIM": 2, "SAMPLES": 2, "CONST": "false", "WB": 1}}},
 ], "assumptions": []},
 "P06": {"units": [
   {"name": "tree", "h": "p06_json.cpp", "mode": "fp", "srcs": ["tree", "container", "data", "random_effects"], "quick": {"D": {"WHAT": 0, "DIM": 1, "K": 2, "ANY": 1, "POST": 1}}, "thorough": {"D": {"WHAT": 0, "DIM": 1, "K": 3, "ANY": 1, "POST": 1}, "budget": 1200}},
   {"name": "tree_vector", "h": "p06_json.cpp", "mode": "fp", "srcs": ["tree", "container", "data", "random_effects"], "quick": {"D": {"WHAT": 0, "DIM": 2, "K": 2, "ANY": 1, "POST": 1}}, "thorough": {"D": {"WHAT": 0, "DIM": 2, "K": 3, "ANY": 1, "POST": 1}, "budget": 1200}},
   {"name": "container", "h": "p06_json.cpp", "mode": "fp", "srcs": ["tree", "container", "data", "random_effects"], "quick": {"D": {"WHAT": 1, "DIM": 1, "K": 2, "ANY": 1}}, "thorough": {"D": {"WHAT": 1, "DIM": 1, "K": 3, "ANY": 1}, "budget": 1200}},
   {"name": "container_vector", "h": "p06_json.cpp", "mode": "fp", "srcs": ["tree", "container", "data", "random_effects"], "quick": {"D": {"WHAT": 1, "DIM": 2, "K": 2, "ANY": 1}}, "thorough": {"D": {"WHAT": 1, "DIM": 2, "K": 3, "ANY": 1}, "budget": 1200}},
   {"name": "random_effects", "h": "p06_json.cpp", "mode": "fp", "srcs": ["tree", "container", "data", "random_effects"], "quick": {"D": {"WHAT": 2, "DIM": 2, "K": 2, "ANY": 0}}, "thorough": {"D": {"WHAT": 2, "DIM": 2, "K": 2, "ANY": 0}}},
 ], "assumptions": []},
 "P07": {"units": [
   {"name": "scalar", "h": "p07_container.cpp", "mode": "fp", "srcs": ["tree", "container", "data"], "quick": {"D": {"K": 3, "DIM": 1}}},
   {"name": "vector", "h": "p07_container.cpp", "mode": "fp", "srcs": ["tree", "container", "data"], "quick": {"D": {"K": 3, "DIM": 2}}},
 ], "assumptions": []},
 "P08": {"units": [
   {"name": "external", "h": "p08_leafindex.cpp", "mode": "real", "srcs": ["tree", "data"], "quick": {"D": {"N": 2, "M": 1, "SPLITS": 1, "MASK": 1, "EXT": 1, "FIRST": 0, "SPLIT2": 1}}, "thorough": {"D": {"N": 2, "M": 1, "SPLITS": 2, "MASK": 1, "EXT": 1, "FIRST": 0, "SPLIT2": 1}}},
   {"name": "stored", "h": "p08_leafindex.cpp", "mode": "real", "srcs": ["tree", "data"], "quick": {"D": {"N": 2, "M": 2, "SPLITS": 1, "MASK": 1, "EXT": 0, "FIRST": 0, "SPLIT2": 0}}, "thorough": {"D": {"N": 2, "M": 1, "SPLITS": 2, "MASK": 1, "EXT": 0, "FIRST": 1, "SPLIT2": 1}}},
   {"name": "deep", "h": "p08_leafindex.cpp", "mode": "real", "srcs": ["tree", "data"], "quick": {"D": {"N": 2, "M": 1, "SPLITS": 2, "MASK": 1, "EXT": 0, "FIRST": 1, "SPLIT2": 0}}, "thorough": {"D": {"N": 2, "M": 2, "SPLITS": 2, "MASK": 1, "EXT": 0, "FIRST": 1, "SPLIT2": 0}}},
   {"name": "pruned", "h": "p08_leafindex.cpp", "mode": "real", "srcs": ["tree", "data"], "quick": {"D": {"N": 1, "M": 1, "SPLITS": 3, "MASK": 7, "EXT": 0, "FIRST": 0, "SPLIT2": 1}}, "thorough": {"D": {"N": 2, "M": 1, "SPLITS": 3, "MASK": 7, "EXT": 0, "FIRST": 0, "SPLIT2": 1}}},
 ], "assumptions": []},
 "P09": {"units": [
   {"name": "thinned", "h": "p09_cutpoints.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"N": 5, "KIND": 0, "GRID": 4, "SPLIT": 0}}, "thorough": {"D": {"N": 6, "KIND": 0, "GRID": 5, "SPLIT": 0}, "budget": 1500}},
   {"name": "nodes", "h": "p09_cutpoints.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"N": 4, "KIND": 0, "GRID": 3, "SPLIT": 1}}, "thorough": {"D": {"N": 5, "KIND": 0, "GRID": 4, "SPLIT": 1}, "budget": 1500}},
   {"name": "ordered", "h": "p09_cutpoints.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"N": 4, "KIND": 1, "GRID": 2, "SPLIT": 1}}, "thorough": {"D": {"N": 5, "KIND": 1, "GRID": 2, "SPLIT": 1}}},
   {"name": "unordered", "h": "p09_cutpoints.cpp", "mode": "real", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"N": 3, "KIND": 2, "GRID": 2, "SPLIT": 1}}, "thorough": {"D": {"N": 4, "KIND": 2, "GRID": 2, "SPLIT": 1}, "budget": 1500}},
 ], "assumptions": ["feature values are equal or differ by more than 1e-6"]},
 "P10": {"units": [
   {"name": "constant", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "CAT": 0, "DEEP": 1}}, "thorough": {"D": {"LEAF": 0, "N": 4, "WT": 0, "FIX": 0, "CAT": 0, "DEEP": 1}, "budget": 1500}},
   {"name": "constant_weighted", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 1, "FIX": 0, "CAT": 0, "DEEP": 1}}, "thorough": {"D": {"LEAF": 0, "N": 4, "WT": 1, "FIX": 0, "CAT": 0, "DEEP": 1}, "budget": 1500}},
   {"name": "constant_categories", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 0, "CAT": 2, "DEEP": 0}}, "thorough": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "CAT": 2, "DEEP": 0}, "budget": 1500}},
   {"name": "univariate", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 1, "N": 3, "WT": 0, "FIX": 0, "CAT": 0, "DEEP": 1}}, "thorough": {"D": {"LEAF": 1, "N": 4, "WT": 0, "FIX": 0, "CAT": 0, "DEEP": 1}, "budget": 1500}},
   {"name": "univariate_weighted", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 1, "N": 3, "WT": 1, "FIX": 0, "CAT": 0, "DEEP": 0}}, "thorough": {"D": {"LEAF": 1, "N": 4, "WT": 1, "FIX": 0, "CAT": 0, "DEEP": 0}, "budget": 1500}},
   {"name": "univariate_categories", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 1, "N": 2, "WT": 0, "FIX": 0, "CAT": 2, "DEEP": 0}}, "thorough": {"D": {"LEAF": 1, "N": 2, "WT": 0, "FIX": 0, "CAT": 2, "DEEP": 1}, "budget": 1500}},
   {"name": "multivariate", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 0, "FIX": 1, "CAT": 0, "DEEP": 0}}, "thorough": {"D": {"LEAF": 2, "N": 3, "WT": 0, "FIX": 1, "CAT": 0, "DEEP": 1}, "budget": 1500}},
   {"name": "multivariate_weighted", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 1, "FIX": 3, "CAT": 0, "DEEP": 1}}, "thorough": {"D": {"LEAF": 2, "N": 4, "WT": 1, "FIX": 3, "CAT": 0, "DEEP": 0}, "budget": 1500}},
   {"name": "multivariate_values", "h": "p10_marginal.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 0, "FIX": 5, "CAT": 0, "DEEP": 1}}, "thorough": {"D": {"LEAF": 2, "N": 4, "WT": 0, "FIX": 5, "CAT": 0, "DEEP": 1}, "budget": 1500}},
 ], "assumptions": []},
 "P11": {"units": [
   {"name": "constant", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}}, "thorough": {"D": {"LEAF": 0, "N": 4, "WT": 0, "FIX": 0, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}, "budget": 1500}},
   {"name": "constant_unordered", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 1, "FIX": 0, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}}, "thorough": {"D": {"LEAF": 0, "N": 4, "WT": 1, "FIX": 0, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}, "budget": 1500}},
   {"name": "constant_mixed", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "K0": 0, "K1": 1, "DEEP": 0, "MINS": 2, "GRID": 9}}, "thorough": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "K0": 0, "K1": 2, "DEEP": 1, "MINS": 2, "GRID": 9}, "budget": 1500}},
   {"name": "univariate", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 1, "N": 3, "WT": 1, "FIX": 0, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}}, "thorough": {"D": {"LEAF": 1, "N": 4, "WT": 1, "FIX": 0, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}, "budget": 1500}},
   {"name": "univariate_unordered", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 1, "N": 3, "WT": 0, "FIX": 1, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}}, "thorough": {"D": {"LEAF": 1, "N": 3, "WT": 0, "FIX": 0, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}, "budget": 1500}},
   {"name": "multivariate", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 0, "FIX": 5, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}}, "thorough": {"D": {"LEAF": 2, "N": 4, "WT": 0, "FIX": 5, "K0": 0, "K1": -1, "DEEP": 1, "MINS": 3, "GRID": 2}, "budget": 1500}},
   {"name": "multivariate_unordered", "h": "p11_allsplits.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 1, "FIX": 7, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}}, "thorough": {"D": {"LEAF": 2, "N": 4, "WT": 1, "FIX": 7, "K0": 2, "K1": -1, "DEEP": 0, "MINS": 3, "GRID": 9}, "budget": 1500}},
 ], "assumptions": ["feature values are equal or differ by more than 1e-6"]},
 "P12": {"units": [
   {"name": "constant", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "CAT": 0, "SPLITS": 1, "PRUNE": 0, "SCALE": 1}}, "thorough": {"D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "CAT": 0, "SPLITS": 2, "PRUNE": 1, "SCALE": 1}, "budget": 1500}},
   {"name": "constant_weighted", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 0, "N": 2, "WT": 1, "FIX": 0, "CAT": 0, "SPLITS": 2, "PRUNE": 1, "SCALE": 0}}, "thorough": {"D": {"LEAF": 0, "N": 3, "WT": 1, "FIX": 0, "CAT": 0, "SPLITS": 2, "PRUNE": 0, "SCALE": 0}, "budget": 1500}},
   {"name": "univariate", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 1, "N": 2, "WT": 0, "FIX": 0, "CAT": 2, "SPLITS": 1, "PRUNE": 0, "SCALE": 1}}, "thorough": {"D": {"LEAF": 1, "N": 2, "WT": 0, "FIX": 0, "CAT": 2, "SPLITS": 2, "PRUNE": 0, "SCALE": 1}, "budget": 1500}},
   {"name": "univariate_weighted", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 1, "N": 2, "WT": 1, "FIX": 3, "CAT": 0, "SPLITS": 1, "PRUNE": 1, "SCALE": 0}}, "thorough": {"D": {"LEAF": 1, "N": 3, "WT": 1, "FIX": 2, "CAT": 0, "SPLITS": 1, "PRUNE": 0, "SCALE": 0}, "budget": 1500}},
   {"name": "multivariate", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 2, "N": 2, "WT": 0, "FIX": 7, "CAT": 0, "SPLITS": 1, "PRUNE": 0, "SCALE": 0}}, "thorough": {"D": {"LEAF": 2, "N": 3, "WT": 0, "FIX": 7, "CAT": 0, "SPLITS": 1, "PRUNE": 0, "SCALE": 0}, "budget": 1500}},
   {"name": "multivariate_weighted", "h": "p12_leafdraw.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates"], "quick": {"D": {"LEAF": 2, "N": 3, "WT": 1, "FIX": 7, "CAT": 0, "SPLITS": 0, "PRUNE": 0, "SCALE": 0}}, "thorough": {"D": {"LEAF": 2, "N": 2, "WT": 1, "FIX": 7, "CAT": 0, "SPLITS": 2, "PRUNE": 1, "SCALE": 0}, "budget": 1500}},
 ], "assumptions": ["std::normal_distribution draws from its distribution (C++ library, modelled)"]},
 "P13": {"units": [
   {"name": "one_tree", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 4, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 2, "ZERO": 0, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 0, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 2, "ZERO": 0, "BETA": 2}, "budget": 1500}},
   {"name": "two_trees", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 4, "K0": 0, "K1": -1, "TREES": 2, "ITERS": 1, "MINS": 1, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 1, "FIX": 6, "K0": 0, "K1": -1, "TREES": 2, "ITERS": 1, "MINS": 1, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "two_passes", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 4, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 2, "MINS": 1, "ZERO": 0, "BETA": 1}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 4, "K0": 0, "K1": -1, "TREES": 2, "ITERS": 2, "MINS": 1, "ZERO": 0, "BETA": 1}, "budget": 1500}},
   {"name": "two_features", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 4, "K0": 0, "K1": 1, "TREES": 1, "ITERS": 1, "MINS": 1, "ZERO": 0, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 2, "WT": 0, "FIX": 4, "K0": 0, "K1": 2, "TREES": 1, "ITERS": 1, "MINS": 1, "ZERO": 0, "BETA": 2}, "budget": 1500}},
   {"name": "categories", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 4, "K0": 2, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 1, "ZERO": 0, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 3, "WT": 0, "FIX": 4, "K0": 2, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 2, "ZERO": 0, "BETA": 2}, "budget": 1500}},
   {"name": "univariate", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 1, "N": 2, "WT": 0, "FIX": 5, "K0": 0, "K1": -1, "TREES": 2, "ITERS": 1, "MINS": 1, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 1, "N": 3, "WT": 0, "FIX": 5, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 2, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "multivariate", "h": "p13_gfr.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 2, "N": 2, "WT": 1, "FIX": 7, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 1, "ZERO": 0, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 2, "N": 3, "WT": 1, "FIX": 7, "K0": 0, "K1": -1, "TREES": 1, "ITERS": 1, "MINS": 2, "ZERO": 0, "BETA": 2}, "budget": 1500}},
 ], "assumptions": ["the C++ library's random distributions draw from the distributions they name (modelled)", "feature values are equal or differ by more than 1e-6"]},
 "P14": {"units": [
   {"name": "first_step", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 1, "WT": 1, "FIX": 6, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 0, "SPLITS": 0, "SPLITS2": 0, "ZERO": 0, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 4, "P": 1, "WT": 1, "FIX": 0, "TREES": 1, "ITERS": 1, "MINS": 2, "START": 0, "SPLITS": 0, "SPLITS2": 0, "ZERO": 0, "BETA": 2}, "budget": 1500}},
   {"name": "one_split", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 4, "P": 1, "WT": 0, "FIX": 0, "TREES": 1, "ITERS": 1, "MINS": 2, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "two_splits", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 4, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 2, "SPLITS2": 0, "ZERO": 1, "BETA": 1}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 5, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 2, "START": 2, "SPLITS": 2, "SPLITS2": 0, "ZERO": 1, "BETA": 1}, "budget": 1500}},
   {"name": "three_splits", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 4, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 3, "SPLITS2": 0, "ZERO": 1, "BETA": 1}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 5, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 3, "SPLITS2": 0, "ZERO": 1, "BETA": 1}, "budget": 1500}},
   {"name": "features", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 2, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 2, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 2, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "two_trees", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 1, "WT": 0, "FIX": 4, "TREES": 2, "ITERS": 1, "MINS": 1, "START": 1, "SPLITS": 0, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 1, "WT": 0, "FIX": 4, "TREES": 2, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "two_passes", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 0, "N": 3, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 2, "MINS": 1, "START": 0, "SPLITS": 0, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 0, "N": 4, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 2, "MINS": 1, "START": 0, "SPLITS": 0, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "univariate", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 1, "N": 3, "P": 1, "WT": 1, "FIX": 7, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 1, "N": 3, "P": 1, "WT": 0, "FIX": 4, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
   {"name": "multivariate", "h": "p14_mcmc.cpp", "srcs": ["tree", "partition_tracker", "data", "cutpoint_candidates", "container"], "quick": {"validate": 24, "D": {"LEAF": 2, "N": 3, "P": 1, "WT": 1, "FIX": 7, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 1, "SPLITS": 0, "SPLITS2": 0, "ZERO": 1, "BETA": 2}}, "thorough": {"validate": 24, "D": {"LEAF": 2, "N": 3, "P": 1, "WT": 1, "FIX": 7, "TREES": 1, "ITERS": 1, "MINS": 1, "START": 2, "SPLITS": 1, "SPLITS2": 0, "ZERO": 1, "BETA": 2}, "budget": 1500}},
 ], "assumptions": ["the C++ library's random distributions draw from the distributions they name (modelled)"]},
 "P15": {"units": [
   {"name": "constant", "h": "p15_residual.cpp", "srcs": ["tree", "partition_tracker", "data", "container", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"BASIS": 0, "N": 2, "TREES": 2, "STEPS": 2, "CAT": 1}}, "thorough": {"D": {"BASIS": 0, "N": 2, "TREES": 2, "STEPS": 3, "CAT": 1}, "budget": 1500}},
   {"name": "constant_with_basis", "h": "p15_residual.cpp", "srcs": ["tree", "partition_tracker", "data", "container", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"BASIS": 1, "N": 2, "TREES": 2, "STEPS": 2, "CAT": 0}}, "thorough": {"D": {"BASIS": 1, "N": 2, "TREES": 2, "STEPS": 3, "CAT": 0}, "budget": 1500}},
   {"name": "univariate", "h": "p15_residual.cpp", "srcs": ["tree", "partition_tracker", "data", "container", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"BASIS": 2, "N": 2, "TREES": 2, "STEPS": 2, "CAT": 0}}, "thorough": {"D": {"BASIS": 2, "N": 2, "TREES": 2, "STEPS": 3, "CAT": 0}, "budget": 1500}},
   {"name": "univariate_history", "h": "p15_residual.cpp", "srcs": ["tree", "partition_tracker", "data", "container", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"BASIS": 2, "N": 2, "TREES": 1, "STEPS": 3, "CAT": 0}}, "thorough": {"D": {"BASIS": 2, "N": 3, "TREES": 1, "STEPS": 4, "CAT": 0}, "budget": 1500}},
   {"name": "multivariate", "h": "p15_residual.cpp", "srcs": ["tree", "partition_tracker", "data", "container", "cutpoint_candidates", "leaf_model"], "quick": {"D": {"BASIS": 3, "N": 2, "TREES": 2, "STEPS": 2, "CAT": 0}}, "thorough": {"D": {"BASIS": 3, "N": 2, "TREES": 2, "STEPS": 3, "CAT": 0}, "budget": 1500}},
 ], "assumptions": []},
 "P16": {"units": [
   {"name": "error_variance", "h": "p16_variance.cpp", "srcs": ["tree", "data"], "quick": {"D": {"WHAT": 0, "N": 3, "SPLITS": 0}}, "thorough": {"D": {"WHAT": 0, "N": 6, "SPLITS": 0}}},
   {"name": "leaf_scale", "h": "p16_variance.cpp", "srcs": ["tree", "data"], "quick": {"D": {"WHAT": 1, "N": 0, "SPLITS": 2}}, "thorough": {"D": {"WHAT": 1, "N": 0, "SPLITS": 3}}},
   {"name": "leaf_scale_basis", "h": "p16_variance.cpp", "srcs": ["tree", "data"], "quick": {"D": {"WHAT": 2, "N": 0, "SPLITS": 1}}},
 ], "assumptions": ["std::gamma_distribution(shape, scale) draws from the gamma distribution (C++ library, modelled)"]},
 "P17": {"units": [
   {"name": "scalar", "h": "p17_random.cpp", "srcs": [], "quick": {"D": {"DIM": 1}}},
   {"name": "bivariate", "h": "p17_random.cpp", "srcs": [], "quick": {"D": {"DIM": 2}}},
 ], "assumptions": ["std::normal_distribution and std::gamma_distribution draw from their distributions (C++ library, modelled)"]},
 "P18": {"units": [
   {"name": "storage", "h": "p18_data.cpp", "mode": "fp", "srcs": ["data"], "quick": {"D": {"N": 2, "P": 2}}, "thorough": {"D": {"N": 3, "P": 3}}},
 ], "assumptions": []},
 "P19": {"units": [
   {"name": "labels", "h": "p19_category.cpp", "mode": "fp", "srcs": ["data", "random_effects"], "quick": {"D": {"N": 3}}, "thorough": {"D": {"N": 4}}},
 ], "assumptions": []},
 "P20": {"units": [
   {"name": "two_components", "h": "p20_rfxpredict.cpp", "srcs": ["data", "random_effects"], "quick": {"D": {"N": 2, "C": 2, "G": 2, "S": 2}}, "thorough": {"D": {"N": 3, "C": 2, "G": 3, "S": 2}}},
   {"name": "one_component", "h": "p20_rfxpredict.cpp", "srcs": ["data", "random_effects"], "quick": {"D": {"N": 2, "C": 1, "G": 3, "S": 2}}, "thorough": {"D": {"N": 3, "C": 1, "G": 3, "S": 3}}},
 ], "assumptions": []},
 "P21": {"units": [
   {"name": "conditionals", "h": "p21_rfxsampler.cpp", "srcs": ["data"], "quick": {"D": {"N": 3, "C": 1, "G": 2, "STEP": 0, "CORR": 0}}, "thorough": {"D": {"N": 4, "C": 1, "G": 3, "STEP": 0, "CORR": 0}}},
   {"name": "conditionals2", "h": "p21_rfxsampler.cpp", "srcs": ["data"], "quick": {"D": {"N": 2, "C": 2, "G": 1, "STEP": 0, "CORR": 1, "FIX": 4}}, "thorough": {"D": {"N": 3, "C": 2, "G": 1, "STEP": 0, "CORR": 1, "FIX": 4}}},
   {"name": "blocks", "h": "p21_rfxsampler.cpp", "srcs": ["data"], "quick": {"D": {"N": 2, "C": 1, "G": 2, "STEP": 1, "CORR": 0}}, "thorough": {"D": {"N": 3, "C": 1, "G": 2, "STEP": 1, "CORR": 0}}},
   {"name": "step", "h": "p21_rfxsampler.cpp", "srcs": ["data"], "quick": {"D": {"N": 2, "C": 1, "G": 2, "STEP": 2, "CORR": 0, "FIX": 2}}, "thorough": {"D": {"N": 3, "C": 1, "G": 2, "STEP": 2, "CORR": 0, "FIX": 3}}},
 ], "assumptions": ["std::normal_distribution and std::gamma_distribution draw from their distributions (C++ library, modelled)", "observation weights are not used by the random effects model"]},
 "P22": {"runner": "pyrunner", "technique": "symbolic execution of the real Python code with proxy objects and Z3, exact real arithmetic", "units": [
   {"name": "samples", "h": "h_bart", "quick": {"D": {}}, "thorough": {"D": {"MCMC": 3, "BURN": 2, "GFR": 2, "NTEST": 1}}},
   {"name": "covariates", "h": "h_bart", "quick": {"D": {"MCMC": 1, "SYMX": 1, "N": 3, "NTEST": 1, "GFR": 0, "BURN": 0}}, "thorough": {"D": {"MCMC": 2, "SYMX": 1, "N": 3, "NTEST": 1, "GFR": 0, "BURN": 0}}},
   {"name": "priors", "h": "h_bart", "quick": {"D": {"MCMC": 1, "P": 2, "OPTS": "p", "GFR": 0, "BURN": 0}}, "thorough": {"D": {"MCMC": 2, "P": 2, "OPTS": "p", "GFR": 1, "BURN": 0}}},
   {"name": "basis", "h": "h_bart", "quick": {"D": {"MCMC": 1, "BASIS": 1, "OPTS": "vt1", "BURN": 0}}, "thorough": {"D": {"MCMC": 2, "BASIS": 1, "OPTS": "vt1", "BURN": 1}}},
   {"name": "basis_priors", "h": "h_bart", "quick": {"D": {"MCMC": 1, "BASIS": 1, "BURN": 0, "OPTS": "p", "GFR": 0}}, "thorough": {"D": {"MCMC": 1, "BASIS": 1, "BURN": 0, "OPTS": "p", "GFR": 1}}},
   {"name": "basis2", "h": "h_bart", "quick": {"D": {"MCMC": 1, "BASIS": 2, "OPTS": "v", "BURN": 0}}, "thorough": {"D": {"MCMC": 2, "BASIS": 2, "OPTS": "v", "BURN": 0}}},
   {"name": "vectors", "h": "h_bart", "quick": {"D": {"MCMC": 2, "OPTS": "1tv", "BURN": 0}}, "thorough": {"D": {"MCMC": 2, "OPTS": "1tv", "BURN": 1}}},
   {"name": "table", "h": "h_bart", "quick": {"D": {"MCMC": 1, "FRAME": 1, "N": 5, "OPTS": "t"}}, "thorough": {"D": {"MCMC": 2, "FRAME": 1, "N": 5, "OPTS": "t", "GFR": 2}}},
 ], "assumptions": ["the compiled extension meets its contract (P03, P05, P14, P15, P16); it is modelled: forests are uninterpreted functions of the covariates the forest may split on, variance draws are arbitrary positive numbers, residual updates are exact", "the variance of the outcome is at least 1/16"]},
 "P23": {"runner": "pyrunner", "technique": "symbolic execution of the real Python code with proxy objects and Z3, exact real arithmetic", "units": [
   {"name": "adaptive", "h": "h_bcf", "quick": {"D": {"Z": "bin", "PROP": ["mu"], "OWN": 1, "ADAPT": 1}}, "thorough": {"D": {"Z": "bin", "PROP": ["mu", "tau", "both", "none"], "OWN": 1, "ADAPT": 1, "MCMC": 3, "GFR": 2, "BURN": 1}}},
   {"name": "two_treatments", "h": "h_bcf", "quick": {"D": {"Z": "multi", "PROP": ["none"], "OWN": 1}}, "thorough": {"D": {"Z": "multi", "PROP": ["none", "mu", "tau", "both"], "OWN": 1}}},
   {"name": "propensity_binary", "h": "h_bcf", "quick": {"D": {"Z": "bin", "PROP": ["mu", "tau", "both"], "OWN": 0, "ADAPT": 0, "TEST": 2, "MCMC": 1}}, "thorough": {"D": {"Z": "bin", "PROP": ["mu", "tau", "both"], "OWN": 0, "ADAPT": 0, "TEST": 2}}},
   {"name": "propensity_continuous", "h": "h_bcf", "quick": {"D": {"Z": "cont", "PROP": ["mu", "tau", "both"], "OWN": 2, "ADAPT": 0, "TEST": 2, "MCMC": 1}}, "thorough": {"D": {"Z": "cont", "PROP": ["mu", "tau", "both"], "OWN": 2, "ADAPT": 0, "TEST": 2}}},
   {"name": "propensity_adaptive", "h": "h_bcf", "quick": {"D": {"Z": "bin", "PROP": ["mu", "both"], "OWN": 0, "ADAPT": 1, "MCMC": 1, "GFR": 1}}, "thorough": {"D": {"Z": "bin", "PROP": ["mu", "tau", "both"], "OWN": 0, "ADAPT": 1, "MCMC": 2, "GFR": 1}}},
   {"name": "variables_index", "h": "h_bcf", "quick": {"D": {"Z": "cont", "PROP": ["none"], "ADAPT": 0, "FRAME": 1, "GFR": 0, "MCMC": 1, "SUBSET": [0, 1, 2, 3, 9]}}},
   {"name": "variables_name", "h": "h_bcf", "quick": {"D": {"Z": "cont", "PROP": ["none"], "ADAPT": 0, "FRAME": 1, "GFR": 0, "MCMC": 1, "SUBSET": [4, 5, 6, 7, 8]}}},
   {"name": "weights", "h": "h_bcf", "quick": {"D": {"VW": 1, "Z": "cont", "PROP": ["none", "mu"], "OWN": 1, "GFR": 0, "MCMC": 1, "FRAME": 1, "SUBSET": [0, 1]}}},
   {"name": "variances", "h": "h_bcf", "quick": {"D": {"VARS": 1, "Z": "cont", "PROP": ["none"], "GFR": 0, "MCMC": 2}}, "thorough": {"D": {"VARS": 1, "Z": "cont", "PROP": ["none"], "GFR": 1, "MCMC": 2}}},
   {"name": "variances_binary", "h": "h_bcf", "quick": {"D": {"Z": "bin", "PROP": ["none"], "ADAPT": 0, "VARS": 1, "GFR": 1, "MCMC": 1}}},
   {"name": "priors", "h": "h_bcf", "quick": {"D": {"PRIORS": 1, "Z": "cont", "PROP": ["none"], "GFR": 0, "MCMC": 1}}},
   {"name": "samples", "h": "h_bcf", "quick": {"D": {"KEEP": 1, "BURN": 1, "Z": "cont", "PROP": ["none"], "MCMC": 1}}, "thorough": {"D": {"KEEP": 1, "BURN": 2, "GFR": 2, "Z": "cont", "PROP": ["none"], "MCMC": 2}}},
   {"name": "coding", "h": "h_bcf", "quick": {"D": {"B01": 1, "Z": "bin", "PROP": ["none"], "ADAPT": 1}}, "thorough": {"D": {"B01": 1, "Z": "bin", "PROP": ["none"], "ADAPT": 1, "KEEP": 1, "BURN": 1}}},
   {"name": "vectors", "h": "h_bcf", "quick": {"D": {"ONED": 1, "Z": "cont", "PROP": ["none", "mu"], "OWN": 1, "MCMC": 1}}},
 ], "assumptions": ["the compiled extension meets its contract (P03, P05, P14, P15, P16); it is modelled: forests are uninterpreted functions of the covariates the forest may split on, variance draws are arbitrary positive numbers, residual updates are exact", "the variance of the outcome is at least 1/16"]},
 "P24": {"runner": "pyrunner", "technique": "symbolic execution of the real Python code with proxy objects and Z3, exact real arithmetic", "units": [
   {"name": "array1", "h": "h_prep", "quick": {"D": {"NUMPY": 1, "P": 1, "N": 3}}, "thorough": {"D": {"NUMPY": 1, "P": 1, "N": 4}}},
   {"name": "array2", "h": "h_prep", "quick": {"D": {"NUMPY": 1, "P": 2, "N": 3}}, "thorough": {"D": {"NUMPY": 1, "P": 2, "N": 3}}},
   {"name": "levels", "h": "h_prep", "quick": {"D": {"KINDS": "float,ord,cat", "N": 3}}, "thorough": {"D": {"KINDS": "float,ord,cat", "N": 3, "FREE": 3}}},
   {"name": "ignored", "h": "h_prep", "quick": {"D": {"KINDS": "cat,date,object,float,ord", "N": 2}}, "thorough": {"D": {"KINDS": "cat,date,object,float,ord", "N": 3}}},
   {"name": "integers", "h": "h_prep", "quick": {"D": {"KINDS": "int,float,Int,string", "N": 3}}, "thorough": {"D": {"KINDS": "int,float,Int,string", "N": 4}}},
   {"name": "refit", "h": "h_prep", "quick": {"D": {"KINDS": "float,cat,ord", "REFIT": 1, "FREE": 1, "N": 3}}, "thorough": {"D": {"KINDS": "float,cat,ord", "REFIT": 1, "FREE": 2, "N": 3}}},
   {"name": "mixtures", "h": "h_prep", "quick": {"D": {"KINDS": "float,cat2,ord,bool,int", "PICK": 2, "FREE": 1, "NEW": 1, "N": 2}}, "thorough": {"D": {"KINDS": "float,cat2,ord,bool,int", "PICK": 3, "FREE": 1, "NEW": 1, "N": 2}}},
   {"name": "strings", "h": "h_prep", "quick": {"D": {"KINDS": "string,ord,int,object", "FREE": 1, "N": 3}}, "thorough": {"D": {"KINDS": "string,ord,int,object", "FREE": 2, "N": 3}}},
 ], "assumptions": ["pandas and scikit-learn are executed, not modelled; levels, dtypes and missing patterns are enumerated choices"]},
}
