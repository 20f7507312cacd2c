import logging


class TaskError(Exception):
    pass


class Struct(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def getDict(self):
        return dict(self.__dict__)


class _Log(logging.LoggerAdapter):
    def warn(self, *a, **k):
        self.warning(*a, **k)

    def verbose(self, *a, **k):
        self.debug(*a, **k)


class Task(object):
    ConfigClass = None
    _DefaultName = None

    def __init__(self, config=None, name=None, parentTask=None, log=None, **kw):
        if kw:
            raise TypeError('unexpected keywords %s' % sorted(kw))
        if config is None:
            config = self.ConfigClass()
        elif not isinstance(config, self.ConfigClass):
            raise TypeError('config is a %s, not a %s' % (
                type(config).__name__, self.ConfigClass.__name__))
        self.config = config
        self.log = _Log(logging.getLogger(name or self._DefaultName or 'task'), {})

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name)
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))
