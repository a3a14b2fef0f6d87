def getDisplay(*args, **kw):
    raise NotImplementedError("no display")
