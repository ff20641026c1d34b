class Signature:
    def __init__(self, ret, args):
        self.ret, self.args = ret, tuple(args)


class Type:
    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return Signature(self, args)

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        lay = 'A'
        if key[-1] == slice(None, None, 1):
            lay = 'C'
        elif len(key) > 1 and key[0] == slice(None, None, 1):
            lay = 'F'
        return Array(self, len(key), lay)


class Array(Type):
    def __init__(self, dtype, ndim, layout, readonly=False, **kw):
        self.name = 'array'
        self.dtype, self.ndim, self.layout, self.readonly = dtype, ndim, layout, readonly


class Tuple(Type):
    def __init__(self, elts):
        self.name, self.elts = 'tuple', tuple(elts)


def UniTuple(t, n):
    return Tuple((t,) * n)


float64 = f8 = double = Type('float64')
float32 = f4 = Type('float32')
int64 = i8 = intp = Type('int64')
int32 = i4 = Type('int32')
uint32 = u4 = Type('uint32')
uint64 = u8 = Type('uint64')
boolean = b1 = bool_ = Type('boolean')
complex128 = c16 = Type('complex128')
void = none = Type('void')
