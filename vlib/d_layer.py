"""Runs the deductive obligations registered for a property (contracts/*.py) and records them in the context."""


def run(ctx, pid):
    try:
        from contracts import registry
    except ImportError:
        return
    registry.run(ctx, pid)
