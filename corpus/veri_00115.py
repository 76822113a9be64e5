# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from nagini_contracts.contracts import *
from typing import List, Tuple


def argh() -> None:
    flags = []  # type: List[Tuple[int, ...]]
    for (flag, *args) in flags:
        pass