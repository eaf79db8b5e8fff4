"""property id -> the function that decides it"""
import importlib

TABLE = {
    "C01": ("vlib.c_engine", "install"),
    "C02": ("vlib.c_engine", "refused"),
    "C03": ("vlib.c_engine", "conflicts"),
    "C04": ("vlib.c_engine", "removal"),
    "C05": ("vlib.c_engine", "upgrade"),
    "C06": ("vlib.c_engine", "rules"),
    "C07": ("vlib.c_engine", "history"),
    "C10": ("vlib.c_crash", "crash"),
    "C11": ("vlib.c_crash", "faults"),
    "C12": ("vlib.c_engine", "scripts"),
    "C08": ("vlib.c_root", "check"),
    "C09": ("vlib.c_conc", "check"),
    "C16": ("vlib.c_chostile", "check"),
    "C17": ("vlib.c_elf", "check"),
    "C15": ("vlib.c_hostile", "check"),
    "C13": ("vlib.c_archive", "check"),
    "C14": ("vlib.c_info", "info"),
    "C18": ("vlib.c_cards", "install"),
    "C19": ("vlib.c_cards", "remove"),
    "C20": ("vlib.c_cards", "upgrade"),
    "C21": ("vlib.c_cards", "verified"),
    "C22": ("vlib.c_cards", "sync"),
    "C23": ("vlib.c_cards", "query"),
    "C24": ("vlib.c_ports", "check"),
    "C25": ("vlib.c_ccrash", "crash"),
    "C26": ("vlib.c_ccrash", "faults"),
    "C27": ("vlib.c_repo", "check"),
    "C28": ("vlib.c_pkgmk", "check"),
    "C29": ("vlib.c_pkgfault", "check"),
    "C30": ("vlib.c_create", "check"),
    "C31": ("vlib.c_cli", "conf"),
    "C32": ("vlib.c_cli", "lines"),
    "C33": ("vlib.c_cconc", "check"),
    "C34": ("vlib.c_signal", "check"),
}


def run(pid):
    mod, fn = TABLE[pid]
    getattr(importlib.import_module(mod), fn)(pid)
