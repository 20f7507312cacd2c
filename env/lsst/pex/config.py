"""configuration classes: typed fields, nested configs, freezing"""
import copy


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        self.fieldName = getattr(field, 'name', str(field))
        super().__init__('Field %s failed validation: %s' % (self.fieldName, msg))


class Field(object):
    _dtype = None

    def __class_getitem__(cls, t):
        return type(cls.__name__, (cls,), {'_dtype': t})

    def __init__(self, doc='', dtype=None, default=None, check=None, optional=False,
                 **kw):
        self.doc, self.default, self.check, self.optional = doc, default, check, optional
        if dtype is not None:
            self._dtype = dtype
        self.name = None

    def __set_name__(self, owner, name):
        self.name = name

    def new(self):
        return copy.deepcopy(self.default)

    def __get__(self, inst, owner=None):
        if inst is None:
            return self
        return inst._storage[self.name]

    def cast(self, v, inst):
        dt = self._dtype
        if v is None or dt is None:
            return v
        if dt is float and isinstance(v, int) and not isinstance(v, bool):
            return float(v)
        if dt is int and isinstance(v, bool):
            raise FieldValidationError(self, inst, 'bool is not int')
        import numpy as np
        if dt is float and isinstance(v, (np.floating, np.integer)):
            return float(v)
        if dt is int and isinstance(v, np.integer):
            return int(v)
        if not isinstance(v, dt):
            raise FieldValidationError(
                self, inst, 'value %r is of incorrect type %s, expected %s' % (
                    v, type(v).__name__, dt.__name__))
        return v

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(self, inst, 'Cannot modify a frozen Config')
        inst._storage[self.name] = self.cast(v, inst)

    def validate(self, inst):
        v = inst._storage[self.name]
        if not self.optional and v is None:
            raise FieldValidationError(self, inst, 'Required value cannot be None')
        if self.check is not None and v is not None and not self.check(v):
            raise FieldValidationError(self, inst, 'bad value %r' % (v,))

    def toDict(self, inst):
        return inst._storage[self.name]

    def freeze(self, inst):
        pass


class ChoiceField(Field):
    def __init__(self, doc='', dtype=None, allowed=None, default=None, optional=True,
                 **kw):
        super().__init__(doc, dtype, default, None, optional)
        self.allowed = dict(allowed)

    def cast(self, v, inst):
        v = super().cast(v, inst)
        if v is None and self.optional:
            return v
        if v not in self.allowed:
            raise FieldValidationError(self, inst, 'Value %r is not allowed' % (v,))
        return v


class RangeField(Field):
    def __init__(self, doc='', dtype=None, default=None, optional=False, min=None,
                 max=None, **kw):
        super().__init__(doc, dtype, default, None, optional)
        self.min, self.max = min, max

    def cast(self, v, inst):
        v = super().cast(v, inst)
        if v is not None and (
            (self.min is not None and v < self.min)
            or (self.max is not None and v > self.max)
        ):
            raise FieldValidationError(self, inst, '%r is out of range' % (v,))
        return v


class ListField(Field):
    def new(self):
        return None if self.default is None else list(self.default)

    def cast(self, v, inst):
        if v is None:
            return v
        if isinstance(v, (str, bytes)) or not hasattr(v, '__iter__'):
            raise FieldValidationError(self, inst, 'value %r is not a list' % (v,))
        v = list(v)
        for x in v:
            if self._dtype is not None and not isinstance(x, self._dtype):
                raise FieldValidationError(self, inst, 'item %r has a bad type' % (x,))
        return v

    def toDict(self, inst):
        v = inst._storage[self.name]
        return None if v is None else list(v)


class ConfigField(Field):
    def new(self):
        return self._dtype()

    def cast(self, v, inst):
        if isinstance(v, type) and issubclass(v, self._dtype):
            v = v()
        if not isinstance(v, self._dtype):
            raise FieldValidationError(self, inst, 'not a %s' % self._dtype.__name__)
        return copy.deepcopy(v)

    def validate(self, inst):
        inst._storage[self.name].validate()

    def toDict(self, inst):
        return inst._storage[self.name].toDict()

    def freeze(self, inst):
        inst._storage[self.name].freeze()


class ConfigurableInstance(object):
    def __init__(self, field, target, configclass=None):
        object.__setattr__(self, '_field', field)
        object.__setattr__(self, '_target', target)
        object.__setattr__(self, '_frozen', False)
        object.__setattr__(self, '_value', (configclass or target.ConfigClass)())

    target = property(lambda s: s._target)
    value = property(lambda s: s._value)
    ConfigClass = property(lambda s: type(s._value))

    def retarget(self, target, ConfigClass=None):
        if self._frozen:
            raise FieldValidationError(self._field, self, 'Cannot modify a frozen Config')
        object.__setattr__(self, '_target', target)
        object.__setattr__(self, '_value', (ConfigClass or target.ConfigClass)())

    def apply(self, *a, **kw):
        return self._target(*a, config=self._value, **kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._value, n)

    def __setattr__(self, n, v):
        if n in ('_value', '_frozen'):
            object.__setattr__(self, n, v)
        else:
            setattr(self._value, n, v)

    def __deepcopy__(self, memo):
        n = ConfigurableInstance.__new__(ConfigurableInstance)
        for k in ('_field', '_target', '_frozen'):
            object.__setattr__(n, k, getattr(self, k))
        object.__setattr__(n, '_value', copy.deepcopy(self._value, memo))
        return n


class ConfigurableField(Field):
    def __init__(self, doc='', target=None, ConfigClass=None, default=None, check=None,
                 **kw):
        super().__init__(doc)
        self.target, self.configclass = target, ConfigClass
        self._dtype = None

    def new(self):
        return ConfigurableInstance(self, self.target, self.configclass)

    def __set__(self, inst, v):
        if inst._frozen:
            raise FieldValidationError(self, inst, 'Cannot modify a frozen Config')
        cur = inst._storage[self.name]
        if isinstance(v, type) and issubclass(v, Config):
            v = v()
        if isinstance(v, ConfigurableInstance):
            inst._storage[self.name] = copy.deepcopy(v)
            return
        if not isinstance(v, type(cur.value)):
            raise FieldValidationError(self, inst, 'value %r has the wrong type' % (v,))
        cur._value = copy.deepcopy(v)

    def validate(self, inst):
        inst._storage[self.name].value.validate()

    def toDict(self, inst):
        return inst._storage[self.name].value.toDict()

    def freeze(self, inst):
        c = inst._storage[self.name]
        c._frozen = True
        c.value.freeze()


class Config(object):
    def __init__(self, **kw):
        object.__setattr__(self, '_frozen', False)
        object.__setattr__(self, '_storage', {})
        for n, f in self._fields().items():
            self._storage[n] = f.new()
        self.setDefaults()
        self.update(**kw)

    @classmethod
    def _fields(cls):
        out = {}
        for c in reversed(cls.__mro__):
            for n, f in vars(c).items():
                if isinstance(f, Field):
                    out[n] = f
        return out

    def setDefaults(self):
        pass

    def update(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __setattr__(self, n, v):
        f = self._fields()
        if n in f:
            f[n].__set__(self, v)
        elif hasattr(getattr(type(self), n, None), '__set__'):
            object.__setattr__(self, n, v)
        elif n in ('_frozen', '_storage'):
            object.__setattr__(self, n, v)
        else:
            raise AttributeError('%s has no attribute %s' % (type(self).__name__, n))

    def keys(self):
        return list(self._storage)

    def items(self):
        return [(k, getattr(self, k)) for k in self._storage]

    def __iter__(self):
        return iter(self._storage)

    def __contains__(self, k):
        return k in self._storage

    def toDict(self):
        return {n: f.toDict(self) for n, f in self._fields().items()}

    def validate(self):
        for f in self._fields().values():
            f.validate(self)

    def freeze(self):
        object.__setattr__(self, '_frozen', True)
        for f in self._fields().values():
            f.freeze(self)

    def __deepcopy__(self, memo):
        n = type(self).__new__(type(self))
        object.__setattr__(n, '_frozen', False)
        object.__setattr__(n, '_storage', copy.deepcopy(self._storage, memo))
        return n

    def __eq__(self, o):
        return type(self) is type(o) and self.toDict() == o.toDict()

    __hash__ = None
