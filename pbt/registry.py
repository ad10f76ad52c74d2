MODULES = {
    "C01": "p_utils",
    "C02": "p_utils",
    "C03": "p_dataset",
    "C04": "p_dataset",
    "C05": "p_selectors",
    "C10": "p_selectors",
    "C11": "p_selectors",
    "C13": "p_reweight",
    "C20": "p_solvers",
    "C14": "p_mapping",
    "C15": "p_subspace",
    "C16": "p_ot",
    "C17": "p_ot",
    "C18": "p_self",
    "C19": "p_self",
    "C21": "p_metrics",
    "C22": "p_metrics",
    "C23": "p_cv",
    "C24": "p_cv",
    "C06": "p_catalog",
    "C07": "p_catalog",
    "C08": "p_catalog",
    "C09": "p_catalog",
    "C12": "p_catalog",
    "C30": "p_catalog",
    "C25": "p_deep",
    "C26": "p_deep",
    "C27": "p_losses",
    "C28": "p_net",
    "C29": "p_callbacks",
    "C31": "p_forms",
    "C32": "p_loaders",
    "C33": "p_search",
}
