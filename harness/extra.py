"""What the checks of particular properties do besides random sessions."""

EXTRA = {}


def run(r):
    for f in EXTRA.get(r.prop, []):
        f(r)
