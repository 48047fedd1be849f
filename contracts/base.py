"""Registry of contract harnesses (see DESIGN.md)."""


def contract(prop, targets, **meta):
    """prop: property id; targets: functions of /repo under contract."""
    def d(f):
        f.prop = prop
        f.targets = targets
        f.meta = meta
        return f
    return d
