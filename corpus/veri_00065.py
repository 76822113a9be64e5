# Any copyright is dedicated to the Public Domain.
# http://creativecommons.org/publicdomain/zero/1.0/


class TextIO:
    """A replacement for real io.TextIO class."""


stdout = TextIO()
