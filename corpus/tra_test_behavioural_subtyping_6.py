# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from nagini_contracts.contracts import *


class Super:
    def some_function(self, a: int) -> int:
        Requires(a >= 0)
        Ensures(Result() > 17)
        return 18 + a


class Sub(Super):

    @Pure       #:: ExpectedOutput(invalid.program:invalid.override)
    def some_function(self, a: int) -> int:
        Requires(True)
        Ensures(Result() > 17)
        return 19
