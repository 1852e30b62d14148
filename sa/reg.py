CHECKS = {}


def check(pid, rule, jobs, **kw):
    CHECKS[pid] = dict(rule=rule, jobs=jobs, **kw)
