"""exception classes with the hierarchy of lsst.pex.exceptions"""
import builtins


class Exception(builtins.Exception):  # noqa
    pass


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):  # noqa
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass
