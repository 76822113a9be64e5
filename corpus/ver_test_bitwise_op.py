# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

from nagini_contracts.contracts import *
from typing import cast



def and_1(a: bool, b: bool, c: object) -> None:
    anded = a & b
    Assert(anded == b & a)
    if not a:
        Assert(not anded)
    if anded:
        Assert(b)
    if isinstance(c, bool):
        other = cast(bool, c) & a
        if other:
            Assert(cast(bool, c))

def and_2(a: bool, b: bool, c: object) -> None:
    anded = a & b
    if not anded:
        Assert(not a or not b)
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(not a)


def or_1(a: bool, b: bool, c: object) -> None:
    ored = a | b
    Assert(ored == b | a)
    if a:
        Assert(ored)
    if not ored:
        Assert(not b)
    if isinstance(c, bool):
        other = cast(bool, c) | a
        if not other:
            Assert(not cast(bool, c))


def or_2(a: bool, b: bool, c: object) -> None:
    ored = a | b
    if ored:
        Assert(not (not a and not b))
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(a)


def xor_1(a: bool, b: bool, c: object) -> None:
    xored = a ^ b
    Assert(xored == b ^ a)
    if not a:
        Assert(xored or not b)
    if xored and a:
        Assert(not b)
    if isinstance(c, bool):
        other = cast(bool, c) ^ a
        if other ^ a:
            Assert(cast(bool, c))

def xor_2(a: bool, b: bool, c: object) -> None:
    xored = a ^ b
    if not xored:
        Assert(a == b)
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(a and b)


def and_3(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -128 and c < 127)
    intbool = a & b
    boolint = b & a
    intint = a & c
    Assert(intbool == boolint)
    if isinstance(a, bool):
        Assert(intbool == (cast(bool, a) and b))
    if a == 3:
        if c == 17:
            Assert(intint == 1)
        if c == 19:
            Assert(intint == 3)
        if c == 16:
            #:: ExpectedOutput(assert.failed:assertion.false)
            Assert(intint == 1)

def and_3a(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -128 and c < 127)
    intbool = a & b
    boolint = b & a
    if a == 5:
        Assert(intbool == (1 if b else 0))
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(intbool == 1)

def and_4(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -260 and c < 127)
    #:: ExpectedOutput(application.precondition:assertion.false)
    intint = a & c


def or_3(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -128 and c < 127)
    intbool = a | b
    boolint = b | a
    intint = a | c
    Assert(intbool == boolint)
    if isinstance(a, bool):
        Assert(intbool == (cast(bool, a) or b))

    if a == 3:
        if c == 17:
            Assert(intint == 19)
        if c == 19:
            Assert(intint == 19)
        if c == 16:
            #:: ExpectedOutput(assert.failed:assertion.false)
            Assert(intint == 1)

def or_3a(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -128 and c < 127)
    intbool = a | b
    boolint = b | a
    if a == 4:
        Assert(intbool == (5 if b else 4))
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(intbool == 5)

def or_4(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c > -260 and c < 127)
    #:: ExpectedOutput(application.precondition:assertion.false)
    intint = a | c


def xor_3(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c >= -128 and c <= 127)
    intbool = a ^ b
    boolint = b ^ a
    intint = a ^ c
    Assert(intbool == boolint)
    if isinstance(a, bool):
        Assert(intbool == (cast(bool, a) != b))

    if a == 3:
        if c == 17:
            Assert(intint == 18)
        if c == 19:
            Assert(intint == 16)
        if c == 16:
            #:: ExpectedOutput(assert.failed:assertion.false)
            Assert(intint == 16)

def xor_3a(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c >= -128 and c <= 127)
    intbool = a ^ b
    boolint = b ^ a
    if a == 5:
        Assert(intbool == (4 if b else 5))
        #:: ExpectedOutput(assert.failed:assertion.false)
        Assert(intbool == 5)

def xor_4(a: int, b: bool, c: int) -> None:
    Requires(a > -100 and a < 100)
    Requires(c >= -128 and c < 257)
    #:: ExpectedOutput(application.precondition:assertion.false)
    intint = a ^ c
        
def lshift_general(a: int, b: int) -> None:
    Requires(a > -128 and a <= 127)
    Requires(b >=0 and b <= 127)
    
    shift = a << b

    if b <= 8:
        lshift_unlimited(a, b)

    if b == 9:
        assert shift == a * 512

    #:: ExpectedOutput(assert.failed:assertion.false)
    assert shift == 1

def lshift_unlimited(a: int, b: int) -> None:
    Requires(b >= 0 and b <= 64)

    shift = a << b
    
    # Unfortunately we cannot prove the equivalence shift == a * (2**b)
    if b == 0:
        assert shift == a
    if b == 1:
        assert shift == a * 2
    if b == 2:
        assert shift == a * 4
    if b == 3:
        assert shift == a * 8
    if b == 4:
        assert shift == a * 16
    if b == 5:
        assert shift == a * 32
    if b == 6:
        assert shift == a * 64
    if b == 7:
        assert shift == a * 128
    if b == 8:
        assert shift == a * 256
    if b == 32:
        assert shift == a * 4_294_967_296
    if b == 33:
        assert shift == a * 8_589_934_592
    
    #:: ExpectedOutput(assert.failed:assertion.false)
    assert shift == 1

def lshift_neg(a: int, b: int) -> None:
    Requires(a > -128 and a <= 127)
    Requires(b >= -128 and b <= 127)
    
    #:: ExpectedOutput(application.precondition:assertion.false)
    shift = a << b
        
def rshift_general(a: int, b: int) -> None:
    Requires(a >= -128 and a <= 127)
    Requires(b >=0 and b <= 127)
    
    shift = a >> b
    
    if b <= 8:
        rshift_unlimited(a, b)

    if b == 9:
        assert shift == a // 512

    #:: ExpectedOutput(assert.failed:assertion.false)
    assert shift == 1

def rshift_unlimited(a: int, b: int) -> None:
    Requires(b >= 0 and b <= 8)

    shift = a >> b

    # Unfortunately we cannot prove the equivalence shift == a // (2 ** b)
    if b == 0:
        assert shift == a
    if b == 1:
        assert shift == a // 2
    if b == 2:
        assert shift == a // 4
    if b == 3:
        assert shift == a // 8
    if b == 4:
        assert shift == a // 16
    if b == 5:
        assert shift == a // 32
    if b == 6:
        assert shift == a // 64
    if b == 7:
        assert shift == a // 128
    if b == 8:
        assert shift == a // 256

    #:: ExpectedOutput(assert.failed:assertion.false)
    assert shift == 1

def int_bit_length() -> None:

    assert (0).bit_length() == 0
    assert (1).bit_length() == 1
    assert (3).bit_length() == 2
    assert (7).bit_length() == 3
    assert (15).bit_length() == 4

    #:: ExpectedOutput(assert.failed:assertion.false)
    assert (3245).bit_length() == 6

def int_bit_length_general(a: int) -> None:
    Requires(a >= 0 and a < (1 << 64))

    if a > 2:
        assert a.bit_length() == (a >> 1).bit_length() + 1
    