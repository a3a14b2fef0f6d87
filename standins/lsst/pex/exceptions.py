class Exception(Exception):  # noqa
    pass


class LogicError(Exception):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, RuntimeError):  # noqa
    pass


class NotFoundError(Exception, LookupError):
    pass
