"""Numbers written in the analysed functions where they can act as a limit: operands of comparisons, min/max, clip, slices,
remainders and shifts, named constants, default arguments, and the ranges of narrow types."""
import ast
from fractions import Fraction as F

TYPES = {"int8": 127, "uint8": 255, "i1": 127, "u1": 255, "int16": 32767, "uint16": 65535, "i2": 32767, "u2": 65535, "int32": 2 ** 31, "uint32": 2 ** 32, "i4": 2 ** 31, "float32": 2 ** 24, "float16": 2048}


def fold(n):
    """value of a constant expression, or None"""
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool) or not isinstance(n.value, (int, float)) or n.value != n.value or n.value in (float("inf"), float("-inf")):
            return None
        return F(repr(n.value)) if isinstance(n.value, float) else F(n.value)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        v = fold(n.operand)
        return None if v is None else -v if isinstance(n.op, ast.USub) else v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Pow) and b.denominator == 1 and abs(b) <= 80:
                return a ** int(b)
            if isinstance(n.op, ast.LShift) and 0 <= b <= 80:
                return F(int(a) << int(b))
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    return None


def gather(node, out):
    def see(x):
        v = fold(x)
        if v is not None:
            out.add(abs(v))
            return
        if isinstance(x, ast.BinOp):
            see(x.left)
            see(x.right)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for e in x.elts:
                see(e)
    for n in ast.walk(node):
        if isinstance(n, ast.Compare):
            for x in [n.left] + n.comparators:
                see(x)
        elif isinstance(n, ast.Call):
            for x in n.args + [k.value for k in n.keywords]:
                see(x)
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    see(x)
        elif isinstance(n, ast.Subscript):
            see(n.slice.value if isinstance(n.slice, ast.Index) else n.slice)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
            see(n.left)
            see(n.right)
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
            if not isinstance(n.value, ast.BinOp) or fold(n.value) is not None:
                see(n.value)
        elif isinstance(n, ast.arguments):
            for x in n.defaults + [k for k in n.kw_defaults if k is not None]:
                see(x)
        elif isinstance(n, ast.IfExp):
            see(n.test)
        if isinstance(n, ast.Attribute) and n.attr in TYPES:
            out.add(F(TYPES[n.attr]))
        elif isinstance(n, ast.Name) and n.id in TYPES:
            out.add(F(TYPES[n.id]))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in TYPES:
            out.add(F(TYPES[n.value]))


def literals(I, calls):
    """of the functions in calls (module, name, line), the rest of their modules' top level and their classes' bodies"""
    out = set()
    mods = {}
    for m, f, line in calls:
        mods.setdefault(m, set()).add((f, line))
    for m, fs in mods.items():
        tree = I.trees.get(m)
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                nm = getattr(n, "name", "<lambda>")
                first = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", ())])
                if any((nm, k) in fs for k in range(first, n.lineno + 1)):
                    gather(n, out)
            elif isinstance(n, (ast.Module, ast.ClassDef)):
                for s in n.body:
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                        gather(s, out)
    return sorted(v for v in out if v not in (0, 1, 2) and v != F(1, 2))
