"""Simulated runs per check: (quick, thorough).  Quick takes some 40-50 s on 8 cores."""
RUNS = {
    "C01": (1800, 60000), "C02": (1800, 60000), "C03": (1800, 60000), "C04": (1300, 40000),
    "C05": (1400, 40000), "C06": (900, 30000), "C07": (900, 30000), "C08": (1800, 60000),
    "C09": (800, 25000), "C10": (1800, 60000), "C11": (1100, 35000), "C12": (2800, 90000),
    "C13": (600, 18000), "C14": (450, 15000), "C15": (280, 9000), "C16": (1100, 35000),
    "C17": (1800, 60000), "C18": (1400, 45000), "C19": (1800, 60000),
    "C20": (1200, 36000),
}
