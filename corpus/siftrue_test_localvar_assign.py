# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/

def main() -> None:
    a = 5
    b = 10
    c = a + b
