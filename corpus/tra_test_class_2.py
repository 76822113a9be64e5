# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from nagini_contracts.contracts import *

class RegClass:
    pass

@Ghost
#:: ExpectedOutput(invalid.program:invalid.ghost.classDef)
class GhostClass(RegClass):
    pass