"""Cases per shard and shards of each facet in the quick tier.

Chosen so that a facet takes about 10-60 s of CPU; the thorough tier runs 12 times as many.
"""

QUICK = {
    "C01": {
        "auto_domain": (1200, 2),
        "indices": (1200, 2),
        "flags": (1718, 4),
    },
    "C02": {
        "merge": (2000, 2),
        "split": (1600, 2),
    },
    "C03": {
        "history": (913, 8),
    },
    "C04": {
        "blobs": (1000, 2),
        "moons": (800, 2),
        "shifted": (960, 2),
        "frequency": (50, 2),
    },
    "C05": {
        "routing": (803, 8),
    },
    "C06": {
        "labels": (400, 8),
        "steps": (500, 2),
    },
    "C07": {
        "inputs": (400, 8),
        "standalone": (250, 5),
    },
    "C08": {
        "predict_rows": (350, 8),
        "fit_rows": (400, 8),
        "transform_rows": (350, 4),
    },
    "C09": {
        "history": (300, 8),
        "standalone": (450, 8),
    },
    "C10": {
        "nested_meta": (227, 3),
        "params": (480, 1),
        "compose": (214, 3),
        "options": (40, 3),
    },
    "C11": {
        "adapter_output": (473, 8),
    },
    "C31": {
        "methods": (300, 8),
        "selectors": (300, 4),
        "evaluation": (250, 3),
    },
    "C32": {
        "contents": (700, 3),
        "download": (700, 3),
        "digits": (600, 2),
        "data_home": (250, 1),
    },
    "C12": {
        "fit_defaults": (300, 6),
        "defaults": (350, 8),
    },
    "C13": {
        "density": (715, 2),
        "gaussian": (615, 2),
        "neighbors": (585, 2),
        "pipelines": (245, 2),
        "discriminator": (550, 2),
        "mmdtars": (595, 2),
        "kliep": (140, 2),
        "kmm": (260, 2),
    },
    "C14": {
        "coral": (730, 2),
        "linear_ot": (645, 2),
        "monge": (525, 2),
        "pipelines": (105, 2),
        "emd": (595, 2),
        "entropic": (140, 2),
        "class_regularized": (280, 2),
        "mmd_ls": (55, 2),
        "mmd_ls_maps": (150, 2),
    },
    "C15": {
        "alignment": (777, 3),
        "tca": (610, 3),
        "pipelines": (90, 3),
        "tjm": (470, 3),
        "tsl": (100, 3),
    },
    "C16": {
        "blocks": (2400, 2),
        "regression": (640, 3),
        "classification": (430, 4),
    },
    "C17": {
        "ot": (230, 5),
        "jcpot": (800, 4),
        "pipelines": (98, 5),
    },
    "C18": {
        "history": (346, 7),
        "api": (267, 3),
    },
    "C19": {
        "steps": (132, 7),
        "network": (20, 5),
    },
    "C20": {
        "torch_minimize": (314, 3),
        "qp_scipy": (807, 3),
        "frank_wolfe": (697, 3),
    },
    "C21": {
        "entropy": (1480, 1),
        "mixval": (500, 2),
        "mano": (615, 2),
        "supervised": (1160, 1),
        "importance_weighted": (425, 2),
        "soft_neighborhood": (1120, 1),
        "deep_embedded": (270, 2),
        "circular": (90, 2),
        "cross_validate": (40, 4),
    },
    "C22": {
        "target_labels": (60, 8),
    },
    "C23": {
        "stratified": (800, 2),
        "leave_one_domain_out": (800, 2),
        "source_target": (1200, 1),
        "domain": (1200, 1),
        "cross_validate": (320, 1),
        "coverage": (240, 1),
    },
    "C24": {
        "subset": (1000, 2),
        "pipeline": (400, 2),
        "random": (120, 1),
    },
    "C25": {
        "histories": (506, 7),
    },
    "C26": {
        "only": (800, 2),
        "balanced": (800, 5),
    },
    "C27": {
        "kmeans": (710, 2),
        "coral": (1200, 1),
        "dan": (1200, 1),
        "jdot": (445, 2),
        "mcc": (1200, 1),
        "gda": (1200, 1),
        "adversarial": (600, 2),
        "cdd": (295, 2),
        "spa": (1025, 2),
    },
    "C28": {
        "criterion": (1600, 1),
        "module": (1200, 1),
        "weights": (155, 2),
        "step": (400, 4),
        "pipeline": (25, 4),
        "secret": (180, 2),
        "predict": (70, 4),
    },
    "C29": {
        "reversal": (1600, 1),
        "networks": (640, 1),
        "generator": (480, 1),
        "bank": (120, 3),
        "clusters": (120, 3),
    },
    "C33": {
        "search": (220, 6),
        "networks": (150, 2),
    },
    "C30": {
        "relabel": (600, 8),
    },
}
