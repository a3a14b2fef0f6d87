import copy


class FieldValidationError(ValueError):
    def __init__(self, field, config, msg):
        super().__init__("%s: %s" % (getattr(field, "name", field), msg))


class Field:
    supported = (str, bool, int, float, complex, tuple)
    dtype = None

    def __class_getitem__(cls, item):
        return type(cls.__name__, (cls,), {"dtype": item})

    def __init__(self, doc="", dtype=None, default=None, check=None, optional=False,
                 deprecated=None):
        if dtype is not None:
            self.dtype = dtype
        self.doc, self.default, self.optional, self.check = doc, default, optional, check

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj._storage[self.name]

    def __set__(self, obj, value):
        if obj._frozen:
            raise FieldValidationError(self, obj, "cannot modify a frozen Config")
        obj._storage[self.name] = self.cast(obj, value)

    def cast(self, obj, value):
        if value is None:
            return None
        if self.dtype is float and isinstance(value, int) and not isinstance(value, bool):
            value = float(value)
        if self.dtype is not None and not isinstance(value, self.dtype) or (
                self.dtype is int and isinstance(value, bool)):
            raise FieldValidationError(
                self, obj, "value %r is of incorrect type %s, expected %s"
                % (value, type(value), self.dtype))
        return value

    def initial(self, obj):
        return copy.deepcopy(self.default)

    def todict(self, obj):
        return obj._storage[self.name]

    def validate(self, obj):
        if not self.optional and obj._storage[self.name] is None:
            raise FieldValidationError(self, obj, "required value cannot be None")

    def freeze(self, obj):
        pass


class ChoiceField(Field):
    def __init__(self, doc="", dtype=None, allowed=None, default=None, optional=True,
                 deprecated=None):
        super().__init__(doc, dtype, default, None, optional)
        self.allowed = dict(allowed)

    def cast(self, obj, value):
        value = super().cast(obj, value)
        if value is not None and value not in self.allowed:
            raise FieldValidationError(self, obj, "%r is not allowed" % (value,))
        return value


class ListField(Field):
    def __init__(self, doc="", dtype=None, default=None, optional=False, **kw):
        super().__init__(doc, dtype, default, None, optional)

    def cast(self, obj, value):
        if value is None:
            return None
        if isinstance(value, str) or not hasattr(value, "__iter__"):
            raise FieldValidationError(self, obj, "%r is not a list" % (value,))
        return [Field.cast(self, obj, v) for v in value]

    def todict(self, obj):
        v = obj._storage[self.name]
        return None if v is None else list(v)


class ConfigField(Field):
    def __init__(self, doc="", dtype=None, default=None, check=None):
        super().__init__(doc, dtype, default)

    def initial(self, obj):
        return self.dtype()

    def cast(self, obj, value):
        if isinstance(value, type):
            value = value()
        if not isinstance(value, self.dtype):
            raise FieldValidationError(self, obj, "expected %s" % self.dtype)
        return copy.deepcopy(value)

    def todict(self, obj):
        return obj._storage[self.name].toDict()

    def validate(self, obj):
        obj._storage[self.name].validate()

    def freeze(self, obj):
        obj._storage[self.name].freeze()


class ConfigurableInstance:
    def __init__(self, owner, field):
        object.__setattr__(self, "_owner", owner)
        object.__setattr__(self, "_field", field)
        object.__setattr__(self, "_target", field.target)
        object.__setattr__(self, "_value", field.target.ConfigClass())

    target = property(lambda s: s._target)
    value = property(lambda s: s._value)

    def retarget(self, target, ConfigClass=None):
        if self._owner._frozen:
            raise FieldValidationError(self._field, self._owner, "frozen")
        object.__setattr__(self, "_target", target)
        object.__setattr__(self, "_value", (ConfigClass or target.ConfigClass)())

    def apply(self, *args, **kw):
        return self._target(*args, config=self._value, **kw)

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, "_value"), name)

    def __setattr__(self, name, v):
        if self._owner._frozen:
            raise FieldValidationError(self._field, self._owner, "frozen")
        setattr(self._value, name, v)

    def __deepcopy__(self, memo):
        new = object.__new__(ConfigurableInstance)
        for k in ("_owner", "_field", "_target"):
            object.__setattr__(new, k, object.__getattribute__(self, k))
        object.__setattr__(new, "_value", copy.deepcopy(self._value, memo))
        return new


class ConfigurableField(Field):
    def __init__(self, doc="", target=None, ConfigClass=None, default=None, check=None):
        super().__init__(doc)
        self.target = target

    def initial(self, obj):
        return ConfigurableInstance(obj, self)

    def __set__(self, obj, value):
        if obj._frozen:
            raise FieldValidationError(self, obj, "frozen")
        inst = obj._storage[self.name]
        if isinstance(value, ConfigurableInstance):
            inst.retarget(value.target)
            object.__setattr__(inst, "_value", copy.deepcopy(value.value))
        else:
            object.__setattr__(inst, "_value", copy.deepcopy(value))

    def todict(self, obj):
        return obj._storage[self.name].value.toDict()

    def validate(self, obj):
        obj._storage[self.name].value.validate()

    def freeze(self, obj):
        obj._storage[self.name].value.freeze()


class Config:
    def __init__(self, **kw):
        object.__setattr__(self, "_frozen", False)
        object.__setattr__(self, "_storage", {})
        for n, f in self._fields().items():
            self._storage[n] = f.initial(self)
        self.setDefaults()
        for k, v in kw.items():
            setattr(self, k, v)

    @classmethod
    def _fields(cls):
        out = {}
        for c in reversed(cls.__mro__):
            for n, f in vars(c).items():
                if isinstance(f, Field):
                    out[n] = f
        return out

    def __setattr__(self, name, value):
        f = getattr(type(self), name, None)
        if f is None or not hasattr(f, "__set__"):
            raise AttributeError("%s has no attribute %s" % (type(self).__name__, name))
        if self._frozen and not isinstance(f, Field):
            raise FieldValidationError(name, self, "cannot modify a frozen Config")
        object.__setattr__(self, name, value)

    def setDefaults(self):
        pass

    def freeze(self):
        object.__setattr__(self, "_frozen", True)
        for f in self._fields().values():
            f.freeze(self)

    def validate(self):
        for f in self._fields().values():
            f.validate(self)

    def toDict(self):
        return {n: f.todict(self) for n, f in self._fields().items()}

    def update(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __deepcopy__(self, memo):
        new = object.__new__(type(self))
        object.__setattr__(new, "_frozen", False)
        st = {}
        for k, v in self._storage.items():
            st[k] = copy.deepcopy(v, memo)
            if isinstance(v, ConfigurableInstance):
                object.__setattr__(st[k], "_owner", new)
        object.__setattr__(new, "_storage", st)
        return new
