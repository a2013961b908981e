"""Record classes importable by name (for pickling, also from other processes)."""
from typing import Dict, List, Optional, Tuple

from records import RecordBase, Annotated, check, check_strict, Factory, Loose, Clamp, Tag, exclude_from_ordering


class F1(RecordBase, frozen=True):
    x: object
    y: object = 0


class F2(F1, frozen=True):
    z: object = None


class FT(RecordBase, frozen=True):
    """same shape as F1, another class"""
    x: object
    y: object = 0


class FO(RecordBase, frozen=True, ordered=True):
    x: Annotated[object, exclude_from_ordering]
    y: Annotated[object, Tag('t')] = Factory(tuple)


class M1(RecordBase):
    x: object
    y: object = 0


class M2(F1):
    """mutable, derived from a frozen class"""
    z: object = None


class F3(M1, frozen=True):
    """frozen, derived from a mutable class"""
    z: object = None


class Conv(RecordBase, frozen=True, default_type_check=check):
    i: Annotated[int, Loose]
    l: List[Annotated[int, Clamp(0, 9)]] = Factory(list)
    o: Optional['Conv'] = None


class Node(RecordBase):
    v: object
    kids: object = ()


class All(RecordBase):
    """only defaults"""
    a: object = 1
    b: object = None


class Point(RecordBase, frozen=True, unary_parse=True):
    x: Annotated[int, check]
    y: Annotated[int, check]
    name: str = ''
    fac: list = Factory(list)


class Outer:
    class Inner(RecordBase, frozen=True):
        x: object


ALL = [F1, F2, FT, FO, M1, M2, F3, Conv, Node, All, Point, Outer.Inner]
