"""Property id -> (module, number of quick runs, thorough factor)."""
TABLE = {
    "C01": ("history", 6000, 6),
    "C02": ("history", 6000, 6),
    "C03": ("history", 6000, 6),
    "C04": ("history", 3000, 6),
    "C05": ("history", 6000, 6),
    "C06": ("history", 4000, 6),
    "C07": ("faults", 8000, 6),
    "C08": ("refused", 8000, 6),
    "C09": ("torn", 6000, 6),
    "C10": ("growing", 8000, 6),
    "C11": ("threads", 3000, 6),
    "C12": ("amnesia", 6000, 6),
    "C13": ("args", 6000, 6),
    "C14": ("footprint", 6000, 6),
    "C15": ("bytes", 4000, 6),
    "C19": ("history", 6000, 6),
    "C17": ("models", 6000, 6),
    "C18": ("session", 6000, 6),
    "C20": ("registry", 6000, 6),
}
