import logging


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def getDict(self):
        return dict(self.__dict__)


class TaskError(Exception):
    pass


class _Log(logging.LoggerAdapter):
    def warn(self, msg, *a, **kw):
        self.warning(msg, *a, **kw)


class Task:
    ConfigClass = None
    _DefaultName = "task"

    def __init__(self, config=None, name=None, parentTask=None, log=None):
        if config is None:
            config = self.ConfigClass()
        self.config = config
        self.log = _Log(logging.getLogger("standin." + (name or self._DefaultName)), {})

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name)
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))
