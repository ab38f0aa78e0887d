import importlib
import logging
import sys

import vf

logging.disable(logging.CRITICAL)
Q = not vf.THOROUGH


def c07(c):
    import core
    if Q:
        core.exhaustive(c, 'tree', core.TREE, 1, 3600, E=3, G=2, L=3)
        core.walks(c, 'tree', 200, 40)
        core.walks(c, 'all', 80, 40, salt=1)
    else:
        core.exhaustive(c, 'tree', core.TREE, 1, 60000, E=3, G=2, L=5)
        core.walks(c, 'tree', 2400, 60)
        core.walks(c, 'all', 1200, 60, salt=1)


def c08(c):
    import core
    if Q:
        core.exhaustive(c, 'fields', core.FLD, 1, 2700, H=1, L=3, vals=('', 'x'), keys=('Title', 'Password', 'k1'))
        core.walks(c, 'fields', 300, 40)
        core.walks(c, 'all', 80, 40, salt=1)
    else:
        core.exhaustive(c, 'fields', core.FLD, 1, 60000, H=2, L=4, vals=('', 'x', 'y'), keys=('Title', 'Password', 'otp', 'k1'))
        core.walks(c, 'fields', 3000, 60)
        core.walks(c, 'all', 1200, 60, salt=1)


def c09(c):
    import core
    if Q:
        core.exhaustive(c, 'history', core.FLD + core.ATT, 1, 3500, B=1, A=1, H=2, L=3, vals=('x',), keys=('Title', 'Password', 'k1'))
        core.walks(c, 'history', 260, 40)
    else:
        core.exhaustive(c, 'history', core.FLD + core.ATT, 1, 60000, B=2, A=2, H=2, L=4, vals=('x',), keys=('Title', 'Password', 'k1'))
        core.walks(c, 'history', 3000, 60)
        core.walks(c, 'all', 800, 60, salt=1)


def c10(c):
    import core
    if Q:
        core.exhaustive(c, 'attachments', core.ATT, 1, 3000, B=3, A=3, H=1, L=5, vals=('x', 'y'))
        core.walks(c, 'attach', 260, 45)
    else:
        core.exhaustive(c, 'attachments', core.ATT, 1, 60000, B=3, A=3, H=2, L=6, vals=('x', 'y'))
        core.walks(c, 'attach', 3000, 60)
        core.walks(c, 'all', 800, 60, salt=1)


def c12(c):
    import core
    if Q:
        core.exhaustive(c, 'trash, bin exists', core.TRASH, 2, 2500, E=2, G=4, L=3)
        core.exhaustive(c, 'trash, no bin', core.TRASH, 1, 1500, E=2, G=3, L=3)
        core.walks(c, 'trash', 240, 40)
    else:
        core.exhaustive(c, 'trash, bin exists', core.TRASH, 2, 60000, E=2, G=4, L=4)
        core.exhaustive(c, 'trash, no bin', core.TRASH, 1, 40000, E=2, G=3, L=4)
        core.walks(c, 'trash', 3000, 60)


def c03(c):
    import vault
    if Q:
        vault.exhaustive(c, 'credentials', 2200, L=4, ops=["open", "opentk", "reload", "save", "savetk", "setpw", "setkf", "read"])
        vault.walks(c, 160, 40)
        vault.walks(c, 8, 8, creates=3, salt=1)
        vault.near_misses(c, 96, 24)
    else:
        vault.near_misses(c, 2000, 60)
        vault.exhaustive(c, 'credentials', 40000, L=6, maxedit=3, sess=('s1',), ops=["open", "opentk", "reload", "save", "savetk", "setpw", "setkf", "read"])
        vault.walks(c, 3000, 60)
        vault.walks(c, 64, 12, creates=5, salt=1)


def c15(c):
    import core
    import vault
    if Q:
        core.walks(c, 'all', 240, 45, nerr=0.6)
        vault.walks(c, 100, 40, salt=2)
    else:
        core.walks(c, 'all', 3000, 60, nerr=0.6)
        vault.walks(c, 1500, 60, salt=2)


def c17(c):
    import vault
    if Q:
        vault.exhaustive(c, 'sessions', 2200, L=4, ops=["open", "read", "reload", "save", "saveas", "edit", "setpw", "rm", "peek"])
        vault.walks(c, 120, 40)
        vault.walks(c, 16, 8, creates=3, salt=1)
    else:
        vault.exhaustive(c, 'sessions', 40000, L=5, ops=["open", "read", "reload", "save", "saveas", "edit", "setpw", "rm", "peek"])
        vault.walks(c, 3000, 60)
        vault.walks(c, 128, 12, creates=5, salt=1)


def c01(c):
    import container
    import core
    import vault
    if Q:
        container.sizes(c, False)
        container.configs(c, 500)
        core.walks(c, 'persist', 140, 35)
        vault.walks(c, 60, 40, salt=3)
    else:
        container.sizes(c, True)
        container.configs(c, 10**6)
        core.walks(c, 'persist', 2400, 60)
        vault.walks(c, 1500, 60, salt=3)


def c02(c):
    import savefs
    savefs.saves(c, 40 if Q else 600, not Q)


def c04(c):
    import container
    if Q:
        container.faults(c, 240, 340)
    else:
        container.faults(c, 900, 1500)


def c05(c):
    import keyfile
    import vault
    if Q:
        keyfile.keyfiles(c, 700, 600)
    else:
        keyfile.keyfiles(c, 10**6, 20000)
        vault.walks(c, 1000, 60, salt=6)


def c06(c):
    import container
    import core
    if Q:
        container.configs(c, 1200)
        container.sizes(c, False, True)
        core.walks(c, 'persist', 100, 30, salt=5)
    else:
        container.configs(c, 10**6)
        container.sizes(c, True)
        core.walks(c, 'persist', 1600, 60, salt=5)


def c11(c):
    import search
    if Q:
        search.searches(c, 3, 3)
    else:
        search.searches(c, 40, 4)


def c13(c):
    import deref
    if Q:
        deref.run(c, 2, ['a', 'b', 'none', 'lost', 'byTa', 'T1', 'T2', 'U1', 'xT2'], 900, 96, 6)
    else:
        deref.run(c, 2, ['a', 'b', 'none', 'bad', 'lost', 'byTa', 'byUb', 'T1', 'T2', 'U1', 'U2', 'xT1', 'xT2'], 10**6, 0, 0)
        deref.run(c, 3, ['a', 'T1', 'T2', 'T3', 'xT1', 'byTa'], 6000, 2400, 12)


def c14(c):
    import times
    times.shim()
    import core
    if Q:
        times.run(c, True, dict(enc=9000, dec=3000, exp=2500, touch=40))
        core.walks(c, 'times', 160, 40)
    else:
        times.run(c, True, dict(enc=10**6, dec=10**6, exp=10**6, touch=600))
        core.walks(c, 'times', 2400, 60)


def c18(c):
    import times
    times.shim()
    import vault
    if Q:
        times.run(c, False, dict(cred=3000, steps=80))
        vault.walks(c, 60, 40, salt=7)
    else:
        times.run(c, False, dict(cred=10**6, steps=1500))
        vault.walks(c, 1500, 60, salt=7)


def c16(c):
    import container
    import core
    if Q:
        container.secrets(c, 300, 40)
        container.configs(c, 300)
        core.exhaustive(c, 'protection', ['set_f', 'set_c', 'save_hist', 'add_entry'], 1, 1600, H=1, L=3, vals=('', 'x'), keys=('Password', 'otp', 'k1'))
        core.exhaustive(c, 'protection, foreign file', ['set_f', 'set_c', 'save_hist'], 3, 800, H=1, L=3, vals=('', 'x'), keys=('Password', 'otp', 'UserName'))
        core.walks(c, 'fields', 120, 40, salt=2)
    else:
        container.secrets(c, 4000, 60)
        container.configs(c, 4000)
        core.exhaustive(c, 'protection', ['set_f', 'set_c', 'del_c', 'save_hist', 'add_entry', 'del_hist'], 1, 60000, H=2, L=4, vals=('', 'x', 'y'), keys=('Password', 'otp', 'Title', 'k1'))
        core.exhaustive(c, 'protection, foreign file', ['set_f', 'set_c', 'save_hist', 'del_hist', 'add_entry'], 3, 30000, E=3, H=2, L=4, vals=('', 'x'), keys=('Password', 'otp', 'UserName', 'k1'))
        core.walks(c, 'fields', 2000, 60, salt=2)


def c19(c):
    import container
    import vault
    if Q:
        container.configs(c, 700)
        vault.walks(c, 80, 40, salt=4)
        vault.exhaustive(c, 'reported parameters', 1200, L=4, ops=["open", "opentk", "reload", "save", "saveas", "peek", "setpw", "read"])
    else:
        container.configs(c, 10**6)
        vault.walks(c, 2000, 60, salt=4)
        vault.exhaustive(c, 'reported parameters', 30000, L=5, ops=["open", "opentk", "reload", "save", "saveas", "peek", "setpw", "read"])


def c20(c):
    import core
    if Q:
        core.exhaustive(c, 'objects', core.TREE + core.ATT + ['set_f'], 1, 900, look=True, E=3, G=2, B=1, A=1, H=1, L=3)
        core.walks(c, 'objects', 280, 40)
    else:
        core.exhaustive(c, 'objects', core.TREE + core.ATT + ['set_f'], 1, 20000, look=True, E=3, G=3, B=2, A=2, H=1, L=4)
        core.walks(c, 'objects', 4000, 60)


CHECKS = {p.upper(): (f, 'model_checking') for p, f in sorted(globals().items()) if len(p) == 3 and p[0] == 'c' and p[1:].isdigit()}

if __name__ == '__main__':
    pid = sys.argv[1]
    fn, level = CHECKS[pid]
    sys.exit(vf.guard(pid, level, fn))
