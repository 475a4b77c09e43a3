# coding=utf-8
"""numeric ways of writing (x, y are numbers)"""
import functools
import itertools
import math
import operator


def abs_diff(x, y):
    return "near" if abs(x - y) < 1 else "far"


def min_max(x, y):
    return "in" if min(x, 5) <= y <= max(x, 5) else "out"


def square(x, y):
    return "in" if x ** 2 + y ** 2 <= 25 else "out"


def prod(x, y):
    return "neg" if x * y < 0 else "zero" if x * y == 0 else "pos"


def sign_tuple(x, y):
    return str((x > y) - (x < y))


def sorted_pair(x, y):
    lo, hi = sorted((x, y))
    return "eq" if lo == hi else "x" if lo is x else "y"


def tuple_lt(x, y):
    return "lt" if (x, y) < (y, x) else "ge"


def tuple_eq(x, y):
    return "eq" if (x, y) == (3, 4) else "ne"


def in_list(x, y):
    return "in" if x in [1, 2, y] else "out"


def in_range_cmp(x, y):
    return "in" if 0 <= x < 3 else "out"


def all_between(x, y):
    return "yes" if all(0 <= v <= 3 for v in (x, y)) else "no"


def sum_list(x, y):
    return "yes" if sum([x, y, 1]) == 6 else "no"


def neg(x, y):
    return "yes" if -x == y else "no"


def half(x, y):
    return "yes" if x / 2 == y else "no"


def avg(x, y):
    return "yes" if (x + y) / 2 > 3 else "no"


def truth(x, y):
    return "zero" if not x else "set"


def max_key(x, y):
    return str(max([(x, "a"), (y, "b")], key=lambda t: t[0])[1])


def itemgetter(x, y):
    return str(sorted([(x, "a"), (y, "b")], key=operator.itemgetter(0))[0][1])


def reduce_max(x, y):
    return "x" if functools.reduce(max, [x, y]) is x else "y"


def reduce_add(x, y):
    return "yes" if functools.reduce(operator.add, [x, y]) == 5 else "no"


def op_lt(x, y):
    return "lt" if operator.lt(x, y) else "ge"


def pairs(x, y):
    return str(sum(1 for a, b in itertools.combinations([x, y, 3], 2) if a == b))


def accumulate(x, y):
    return "yes" if list(itertools.accumulate([x, y]))[-1] == 5 else "no"


def cross(x, y):
    (ax, ay), (bx, by) = (x, 1), (y, 2)
    return "col" if ax * by - ay * bx == 0 else "not"


def str_num(x, y):
    return "same" if str(x) == str(y) else "differ"


def map_abs(x, y):
    return "yes" if sum(map(abs, (x, y))) <= 3 else "no"


def mul_const(x, y):
    return "yes" if 150 * x + 50 == 350 else "no"


def dict_num_val(x, y):
    return "yes" if {"x": x}["x"] == y else "no"


def any_zip(x, y):
    return "yes" if any(a > b for a, b in zip((x, y), (y, 3))) else "no"


def clamp(x, y):
    return "yes" if max(0, min(x, 10)) == 10 else "no"


def xor_bool(x, y):
    return "yes" if (x > 2) ^ (y > 2) else "no"


def bool_and(x, y):
    return "yes" if (x > 2) & (y > 2) else "no"


def bool_sum(x, y):
    return str((x > 2) + (y > 2))


def ternary(x, y):
    z = x if x < y else y
    return "yes" if z == 2 else "no"


def int_of(x, y):
    return "yes" if int(x) == x else "no" if int(x) == 2 else "other"


def float_int(x, y):
    return "same" if float(int(float(x))) == float(x) else "cut"


def floor_ceil(x, y):
    return "eq" if math.floor(x) == math.ceil(y) else "lt" if math.ceil(x) < math.floor(y) else "other"


def rounded(x, y):
    return "yes" if round(x) == 3 else "two" if round(x / 2) == 2 else "no"


def rounded2(x, y):
    return "yes" if round(x, 1) == x else "no"


def real_mod(x, y):
    return "odd" if x % 2 == 1 else "even" if x % 2.0 == 0 else "third" if x // 3 == 1 else "other"


def mathy(x, y):
    return "close" if math.isclose(x, y, abs_tol=0.5) else "neg" if math.copysign(1, x) < 0 else "big" if math.fabs(y) > 4 else "other"


def is_int(x, y):
    return "int" if float(x).is_integer() else "frac"


def tiny(x, y):
    return "same" if x == y else "near" if abs(x - y) < 1e-9 else "far"
