"""An independent evaluator of weighting formulas."""
import re

TOK = re.compile(r'\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|([A-Za-z_]\w*)|(.))')
FUN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqr': 'sqrt', 'sqrt': 'sqrt',
       'abs': 'abs', 'max': 'max', 'min': 'min', 'asin': 'arcsin',
       'acos': 'arccos', 'atan': 'arctan', 'exp': 'exp', 'log': 'log'}


class Formula:
    """An independent reading of a formula: sums of products of signed
    powers, powers binding tightest and to the right."""

    def __init__(self, text):
        self.t = [m.group(0).strip() for m in TOK.finditer(text) if m.group(0).strip()]
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        t = self.peek()
        if x is not None and t != x:
            raise SyntaxError(f'{x} expected, {t} found')
        self.i += 1
        return t

    def value(self, c, env):
        self.i = 0
        self.c, self.env = c, env
        v = self.sum()
        if self.peek() is not None:
            raise SyntaxError(self.peek())
        return v

    def sum(self):
        v = self.product()
        while self.peek() in ('+', '-'):
            v = v + self.product() if self.take() == '+' else v - self.product()
        return v

    def product(self):
        v = self.signed()
        while self.peek() in ('*', '/'):
            v = v * self.signed() if self.take() == '*' else v / self.signed()
        return v

    def signed(self):
        if self.peek() == '-':
            self.take()
            return -self.signed()
        if self.peek() == '+':
            self.take()
            return self.signed()
        v = self.atom()
        if self.peek() == '^':
            self.take()
            e = self.signed()
            v = v ** e
        return v

    def atom(self):
        t = self.take()
        c = self.c
        if t == '(':
            v = self.sum()
            self.take(')')
            return v
        if t[0].isdigit() or t[0] == '.':
            return c.num(float(t)) if '.' in t or 'e' in t.lower() else c.num(int(t))
        if self.peek() == '(' and t.lower() in FUN:
            self.take('(')
            args = [self.sum()]
            while self.peek() == ',':
                self.take()
                args.append(self.sum())
            self.take(')')
            f = FUN[t.lower()]
            if f == 'max':
                return args[0] if args[0] >= args[1] else args[1]
            if f == 'min':
                return args[0] if args[0] <= args[1] else args[1]
            if f == 'abs':
                return args[0] if args[0] >= 0 else -args[0]
            if f == 'sin':
                return c.sin(args[0])
            if f == 'cos':
                return c.cos(args[0])
            if f == 'tan':
                return c.sin(args[0]) / c.cos(args[0])
            if f == 'sqrt':
                return c.sqrt(args[0])
            if f == 'log':
                return c.log(args[0])
            return getattr(c.np, f)(args[0])
        if t.lower() == 'pi':
            return c.pi
        return self.env[t.lower()]
