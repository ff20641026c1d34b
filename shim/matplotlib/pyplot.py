"""Nothing is drawn."""
def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return lambda *a, **k: None
