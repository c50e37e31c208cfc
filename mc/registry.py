L, T, A, E, V, H = ("mc.checks_" + x for x in ("lang", "tree", "api", "err", "val", "hist"))
MC, EX = "model_checking", "exploration"
G = "mc.checks_gram"
REG = {
    "C19": (H, "C19", MC),
    "C20": (H, "C20", MC),
    "C21": (V, "C21", MC),
    "C22": (V, "C22", MC),
    "C23": (V, "C23", MC),
    "C24": (V, "C24", MC),
    "C25": (V, "C25", MC),
    "C26": (G, "C26", MC),
    "C27": (G, "C27", MC),
    "C18": (E, "C18", MC),
    "C03": (E, "C03", MC),
    "C15": (A, "C15", MC),
    "C16": (A, "C16", MC),
    "C17": (A, "C17", MC),
    "C28": (A, "C28", MC),
    "C29": (A, "C29", MC),
    "C30": (A, "C30", MC),
    "C04": (T, "C04", MC),
    "C05": (T, "C05", MC),
    "C06": (T, "C06", MC),
    "C07": (T, "C07", MC),
    "C08": (T, "C08", MC),
    "C09": (T, "C09", MC),
    "C10": (T, "C10", MC),
    "C11": (T, "C11", MC),
    "C13": (T, "C13", MC),
    "C14": (T, "C14", MC),
    "C01": (L, "C01", MC),
    "C02": (L, "C02", MC),
    "C12": (L, "C12", MC),
}
