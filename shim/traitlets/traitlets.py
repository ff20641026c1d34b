def default(name):
    return lambda f: f
