"""Checks over histories of pkgadd and pkgrm, each with the mixture of operations its property is about."""
from . import build, core, engine, jail
from .engine import LEAVES, Profile, TOOL_LEAVES, register

RULE = ("A case is a history of package operations (random packages with files, directories, symbolic links, hard links, "
        "FIFOs, modes, owners; random pkgadd.conf; administrator edits in between; with and without -r) run on the real "
        "tools, compared after every operation with an executable model of the whole tree and database. Non-trivial: at "
        "least one operation of the kind the property is about took effect (or was refused, where that is the subject). "
        "Distinct: the whole written-out history differs.")

PROFS = {
    "install": Profile("install", {"install": 6, "upgrade": 1, "remove": 2}, nops=(3, 6), rules=.25, forced=.1, admin=.1, npk=(3, 6)),
    "refused": Profile("refused", {"install": 4, "upgrade": 1, "remove": 1, "refuse": 8}, nops=(5, 9), forced=.15, scripts=.15, counts=("refused",)),
    "conflicts": Profile("conflicts", {"install": 6, "upgrade": 3, "remove": 1}, nops=(4, 8), forced=.5, admin=.35, npk=(3, 6), rules=.35,
                         prepop=.4, counts=("refused-conflict", "install-forced", "upgrade-forced")),
    "removal": Profile("removal", {"install": 5, "remove": 5, "upgrade": 1}, nops=(5, 10), forced=.35, admin=.25, npk=(3, 6), counts=("remove",)),
    "upgrade": Profile("upgrade", {"install": 2, "upgrade": 6, "remove": .5}, nops=(4, 8), rules=.5, forced=.35, admin=.4, npk=(2, 3),
                       autodep=.4, counts=("upgrade",)),
    "rules": Profile("rules", {"install": 4, "upgrade": 4, "remove": 1, "refuse": .5}, nops=(4, 7), rules=1.0, forced=.3, admin=.25),
    "history": Profile("history", {"install": 4, "upgrade": 3, "remove": 3, "refuse": 1}, nops=(14, 30), rules=.5, forced=.4,
                       admin=.2, npk=(4, 7), scripts=.15),
    "scripts": Profile("scripts", {"install": 4, "upgrade": 4, "remove": 3, "refuse": 1}, nops=(4, 8), rules=.8, forced=.4, scripts=.6,
                       ignore_scripts=.15, leaves=TOOL_LEAVES, tools=True, admin=.1, symdir=0, noshell=.08),
}
for p in PROFS.values():
    register(p)


def template(scratch, variant="asan"):
    t = build.tools(variant)
    return jail.make_template(scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t})


def _run(pid, tag, title, quick, thorough, minimum):
    c = core.Check(pid, title, RULE, assumptions=[
        "observed on a Linux tmpfs/overlay file system inside a user namespace; ownership is that of the namespace",
        "libarchive, the C++ library and the kernel behave as installed here"])
    t = template(c.scratch)
    n = c.size(quick, thorough)
    c.run(t, engine.run_history, [[c.seed, tag, i] for i in range(n)])
    c.finish(min_nontrivial=minimum)


def install(pid):
    _run(pid, "install", "install exactness", 1400, 12000, 200)


def refused(pid):
    _run(pid, "refused", "refused operations", 1000, 9000, 150)


def conflicts(pid):
    _run(pid, "conflicts", "conflicts", 1000, 10000, 150)


def removal(pid):
    _run(pid, "removal", "removal", 900, 9000, 150)


def upgrade(pid):
    _run(pid, "upgrade", "upgrade", 1100, 10000, 150)


def rules(pid):
    _run(pid, "rules", "rules", 1100, 10000, 150)


def history(pid):
    _run(pid, "history", "history", 320, 3000, 60)


def scripts(pid):
    _run(pid, "scripts", "scripts", 900, 9000, 150)
