"""Independent differentiation: second-order jets, truncated power series and
first-order duals over any of these.  Shares nothing with autograd."""
import math
import numpy as np


class D2(object):
    """value, gradient and Hessian in n variables (forward mode)."""
    __slots__ = ('v', 'g', 'h')
    __array_ufunc__ = None

    def __init__(self, v, g, h):
        self.v, self.g, self.h = v, g, h

    @staticmethod
    def variables(x):
        n = len(x)
        out = []
        for i in range(n):
            g = np.zeros(n)
            g[i] = 1.0
            out.append(D2(float(x[i]), g, np.zeros((n, n))))
        return out

    def _lift(self, o):
        if isinstance(o, D2):
            return o
        return D2(float(o), np.zeros_like(self.g), np.zeros_like(self.h))

    def unary(self, f0, f1, f2):
        return D2(f0, f1 * self.g, f1 * self.h + f2 * np.outer(self.g, self.g))

    def __add__(self, o):
        if isinstance(o, D2):
            return D2(self.v + o.v, self.g + o.g, self.h + o.h)
        return D2(self.v + o, self.g, self.h)
    __radd__ = __add__

    def __neg__(self):
        return D2(-self.v, -self.g, -self.h)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, D2):
            go = np.outer(self.g, o.g)
            return D2(self.v * o.v, self.v * o.g + o.v * self.g,
                      self.v * o.h + o.v * self.h + go + go.T)
        return D2(self.v * o, self.g * o, self.h * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, D2):
            return self * o.unary(1 / o.v, -1 / o.v ** 2, 2 / o.v ** 3)
        return self * (1.0 / o)

    def __rtruediv__(self, o):
        return self.unary(1 / self.v, -1 / self.v ** 2, 2 / self.v ** 3) * o


class Series(object):
    """Truncated power series in one variable."""
    __slots__ = ('c',)
    __array_ufunc__ = None

    def __init__(self, c):
        self.c = np.asarray(c, dtype=float)

    def _l(self, o):
        if isinstance(o, Series):
            return o.c
        c = np.zeros_like(self.c)
        c[0] = o
        return c

    def __add__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        return Series(self.c + self._l(o))
    __radd__ = __add__

    def __neg__(self):
        return Series(-self.c)

    def __sub__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        return Series(self.c - self._l(o))

    def __rsub__(self, o):
        return Series(self._l(o) - self.c)

    def __mul__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, Series):
            return Series(np.convolve(self.c, o.c)[:len(self.c)])
        return Series(self.c * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, Series):
            n = len(self.c)
            q = np.zeros(n)
            for k in range(n):
                q[k] = (self.c[k] - np.dot(q[:k], o.c[k:0:-1])) / o.c[0]
            return Series(q)
        return Series(self.c / o)

    def __rtruediv__(self, o):
        return Series(self._l(o)) / self

    # x' as series of the same length (last coefficient unused)
    def _d(self):
        n = len(self.c)
        d = np.zeros(n)
        d[:n - 1] = self.c[1:] * np.arange(1, n)
        return Series(d)

    def _int(self, c0):
        n = len(self.c)
        d = np.zeros(n)
        d[0] = c0
        d[1:] = self.c[:n - 1] / np.arange(1, n)
        return Series(d)

    def exp(self):
        n = len(self.c)
        e = np.zeros(n)
        e[0] = math.exp(self.c[0])
        for k in range(1, n):
            e[k] = np.dot(np.arange(1, k + 1) * self.c[1:k + 1],
                          e[k - 1::-1][:k]) / k
        return Series(e)

    def log(self):
        return (self._d() / self)._int(math.log(self.c[0]))

    def sincos(self):
        n = len(self.c)
        s, c = np.zeros(n), np.zeros(n)
        s[0], c[0] = math.sin(self.c[0]), math.cos(self.c[0])
        for k in range(1, n):
            w = np.arange(1, k + 1) * self.c[1:k + 1]
            s[k] = np.dot(w, c[k - 1::-1][:k]) / k
            c[k] = -np.dot(w, s[k - 1::-1][:k]) / k
        return Series(s), Series(c)


class Multi(object):
    """Square-free algebra on m nilpotent directions: the coefficient of a set
    of directions is the derivative along them, contracted in that order."""
    __slots__ = ('c', 'm')
    __array_ufunc__ = None

    def __init__(self, c):
        self.c = np.asarray(c, dtype=float)
        self.m = int(len(self.c)).bit_length() - 1

    @staticmethod
    def point(x0, m, parts):
        """x0 + sum over (mask, coefficient)"""
        c = np.zeros(1 << m)
        c[0] = x0
        for mask, k in parts:
            c[mask] += k
        return Multi(c)

    def _l(self, o):
        if isinstance(o, Multi):
            return o.c
        c = np.zeros_like(self.c)
        c[0] = o
        return c

    def __add__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        return Multi(self.c + self._l(o))
    __radd__ = __add__

    def __neg__(self):
        return Multi(-self.c)

    def __sub__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        return Multi(self.c - self._l(o))

    def __rsub__(self, o):
        return Multi(self._l(o) - self.c)

    def __mul__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        if not isinstance(o, Multi):
            return Multi(self.c * o)
        n = len(self.c)
        out = np.zeros(n)
        for s in range(n):
            t = s
            while True:                     # all subsets t of s
                out[s] += self.c[t] * o.c[s ^ t]
                if t == 0:
                    break
                t = (t - 1) & s
        return Multi(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return NotImplemented
        if isinstance(o, Multi):
            return self * o.apply(lambda x: 1.0 / x)
        return Multi(self.c / o)

    def __rtruediv__(self, o):
        return self.apply(lambda x: 1.0 / x) * o

    def apply(self, f):
        t = np.zeros(self.m + 1)
        t[0] = self.c[0]
        if self.m:
            t[1] = 1.0
        coef = f(Series(t)).c
        nil = np.array(self.c)
        nil[0] = 0.0
        nil = Multi(nil)
        out = Multi(np.zeros_like(self.c)) + coef[-1]
        for a in coef[-2::-1]:
            out = out * nil + a
        return out


class Dual(object):
    """First-order dual whose parts are any of the above (or floats)."""
    __slots__ = ('v', 'g')
    __array_ufunc__ = None

    def __init__(self, v, g):
        self.v, self.g = v, g

    @staticmethod
    def variables(xs):
        n = len(xs)
        return [Dual(x, [1.0 if i == j else 0.0 for j in range(n)])
                for i, x in enumerate(xs)]

    def scale(self, v, f1):
        return Dual(v, [g if isinstance(g, float) and g == 0.0 else f1 * g
                        for g in self.g])

    def __add__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v + o.v, [a + b for a, b in zip(self.g, o.g)])
        return Dual(self.v + o, self.g)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, [-a for a in self.g])

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v * o.v, [self.v * b + o.v * a
                                       for a, b in zip(self.g, o.g)])
        return Dual(self.v * o, [a * o for a in self.g])
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return self * (1.0 / o)
        return Dual(self.v / o, [a / o for a in self.g])

    def __rtruediv__(self, o):
        r = 1.0 / self.v
        return self.scale(r, -(r * r)) * o


def val(x):
    if isinstance(x, D2):
        return x.v
    if isinstance(x, (Series, Multi)):
        return float(x.c[0])
    if isinstance(x, Dual):
        return val(x.v)
    return float(x)


def sig(x):
    """stable logistic of a float"""
    if x >= 0:
        return 1.0 / (1.0 + math.exp(-x))
    e = math.exp(x)
    return e / (1.0 + e)


def exp(x):
    if isinstance(x, Multi):
        return x.apply(exp)
    if isinstance(x, D2):
        e = math.exp(x.v)
        return x.unary(e, e, e)
    if isinstance(x, Series):
        return x.exp()
    if isinstance(x, Dual):
        e = exp(x.v)
        return x.scale(e, e)
    return math.exp(x)


def log(x):
    if isinstance(x, Multi):
        return x.apply(log)
    if isinstance(x, D2):
        return x.unary(math.log(x.v), 1 / x.v, -1 / x.v ** 2)
    if isinstance(x, Series):
        return x.log()
    if isinstance(x, Dual):
        return x.scale(log(x.v), 1.0 / x.v)
    return math.log(x)


def sin(x):
    if isinstance(x, Multi):
        return x.apply(sin)
    if isinstance(x, D2):
        s, c = math.sin(x.v), math.cos(x.v)
        return x.unary(s, c, -s)
    if isinstance(x, Series):
        return x.sincos()[0]
    if isinstance(x, Dual):
        return x.scale(sin(x.v), cos(x.v))
    return math.sin(x)


def cos(x):
    if isinstance(x, Multi):
        return x.apply(cos)
    if isinstance(x, D2):
        s, c = math.sin(x.v), math.cos(x.v)
        return x.unary(c, -s, -c)
    if isinstance(x, Series):
        return x.sincos()[1]
    if isinstance(x, Dual):
        return x.scale(cos(x.v), -sin(x.v))
    return math.cos(x)


def sqrt(x):
    if isinstance(x, Multi):
        return x.apply(sqrt)
    if isinstance(x, D2):
        s = math.sqrt(x.v)
        return x.unary(s, 0.5 / s, -0.25 / s ** 3)
    if isinstance(x, (Series, Dual)):
        return exp(0.5 * log(x))
    return math.sqrt(x)


def sigmoid(x):
    if isinstance(x, Multi):
        return x.apply(sigmoid)
    if isinstance(x, D2):
        s = sig(x.v)
        sc = sig(-x.v)
        return x.unary(s, s * sc, s * sc * (sc - s))
    if isinstance(x, Series):
        if x.c[0] >= 0:
            return 1.0 / (1.0 + exp(-x))
        e = exp(x)
        return e / (1.0 + e)
    if isinstance(x, Dual):
        s = sigmoid(x.v)
        return x.scale(s, s * sigmoid(-x.v))
    return sig(x)


def log1pexp(x):
    if isinstance(x, Multi):
        return x.apply(log1pexp)
    if isinstance(x, D2):
        s, sc = sig(x.v), sig(-x.v)
        return x.unary(log1pexp(x.v), s, s * sc)
    if isinstance(x, Series):
        s = sigmoid(x)
        return (s * x._d())._int(log1pexp(float(x.c[0])))
    if isinstance(x, Dual):
        return x.scale(log1pexp(x.v), sigmoid(x.v))
    return max(x, 0.0) + math.log1p(math.exp(-abs(x)))


def d2_parts(y, n):
    """(value, grad, hess) of y, a D2 or a constant."""
    if isinstance(y, D2):
        return y.v, y.g, y.h
    return float(y), np.zeros(n), np.zeros((n, n))
