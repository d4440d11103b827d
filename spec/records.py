"""Drivers: any number of records, in loops cut by invariants like those of the code."""


def send(c, n, step, hooks):
    for k in range(n):
        hooks.before(c, k, step)
        hooks.run(c.encrypt)
        hooks.after(c, k)


def receive(c, n, step, hooks):
    for k in range(n):
        hooks.before(c, k, step)
        hooks.run(c.decrypt)
        hooks.after(c, k)
