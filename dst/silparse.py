"""Shallow parser for Nagini's bundled .sil resources.

Declarations get their name, kind, formal arguments/returns and types; contract
clauses and bodies stay opaque text (which is what makes the configuration that
produced them - bit size, float encoding - visible in the translated program).
"""

import os
import re

from . import silver as S
from .silver import Seq, Some, NONE, mk, NoPosition, NoInfo, NoTrafos

_COMMENT = re.compile(r'/\*.*?\*/|//[^\n]*', re.S)
_IMPORT = re.compile(r'import\s+(?:"([^"]+)"|<([^>]+)>)')
_DECL = re.compile(r'\b(domain|function|method|predicate|field|define|adt)\b')
_TOK = re.compile(r'\s*([A-Za-z_$][A-Za-z_0-9$]*|\S)')


class ParseError(Exception):
    pass


class _P:
    def __init__(self, text):
        self.t = text
        self.i = 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i].isspace():
            self.i += 1

    def peek(self):
        m = _TOK.match(self.t, self.i)
        return m.group(1) if m else None

    def next(self):
        m = _TOK.match(self.t, self.i)
        if not m:
            raise ParseError('unexpected end of input')
        self.i = m.end()
        return m.group(1)

    def expect(self, tok):
        g = self.next()
        if g != tok:
            raise ParseError('expected %r, got %r at %r'
                             % (tok, g, self.t[max(0, self.i - 60):self.i + 20]))

    def balanced(self, op, cl):
        """Consume from an opening bracket to its match; return inner text."""
        self.ws()
        if self.t[self.i] != op:
            raise ParseError('expected %r' % op)
        depth = 0
        j = self.i
        while j < len(self.t):
            c = self.t[j]
            if c == '"':
                j = self.t.index('"', j + 1)
            elif c == op:
                depth += 1
            elif c == cl:
                depth -= 1
                if depth == 0:
                    inner = self.t[self.i + 1:j]
                    self.i = j + 1
                    return inner
            j += 1
        raise ParseError('unbalanced %r' % op)


def _type(p):
    n = p.next()
    if n in ('Int', 'Bool', 'Ref', 'Perm'):
        return {'Int': S.Int, 'Bool': S.Bool, 'Ref': S.Ref, 'Perm': S.Perm}[n]
    args = []
    if p.peek() == '[':
        p.next()
        while True:
            args.append(_type(p))
            t = p.next()
            if t == ']':
                break
            if t != ',':
                raise ParseError('type args')
    if n == 'Seq':
        return S.SeqType(args[0])
    if n == 'Set':
        return S.SetType(args[0])
    if n == 'Multiset':
        return S.MultisetType(args[0])
    if n == 'Map':
        return S.MapType(*args)
    return S.DomainType(n, S.SMap({i: a for i, a in enumerate(args)}),
                        Seq(list(range(len(args)))))


def _formals(text):
    p = _P(text)
    out = []
    k = 0
    while p.peek() is not None:
        start = p.i
        name = p.next()
        if p.peek() == ':':
            p.next()
        else:
            p.i = start
            name = '_a%d' % k
        out.append(mk('LocalVarDecl', name, _type(p)))
        k += 1
        if p.peek() == ',':
            p.next()
    return Seq(out)


_CLAUSE = re.compile(r'\s*(requires|ensures|decreases)\b')
_STOP = re.compile(r'\b((domain|function|method|predicate|field|define|adt)'
                   r'\s+[A-Za-z_]|import\b|(requires|ensures|decreases)\b)')


def _clauses(p):
    pres, posts = [], []
    while True:
        m = _CLAUSE.match(p.t, p.i)
        if not m:
            return Seq(pres), Seq(posts)
        j = m.end()
        depth = 0
        k = j
        while k < len(p.t):
            c = p.t[k]
            if c == '"':
                k = p.t.index('"', k + 1)
            elif c in '([':
                depth += 1
            elif c in ')]':
                depth -= 1
            elif c == '{' and depth == 0:
                # trigger / body at clause level: body starts a clause end only
                # if the text before is a complete clause (no forall pending).
                break
            elif depth == 0 and (c.isalpha()) and not (
                    p.t[k - 1].isalnum() or p.t[k - 1] in '_$'):
                mm = _STOP.match(p.t, k)
                if mm:
                    break
                w = S._WORD.match(p.t, k)
                k = w.end() - 1
            elif depth == 0 and c == '@' and p.t.startswith('@opaque', k):
                break
            k += 1
        text = ' '.join(p.t[j:k].split())
        # a top-level trigger `forall x :: {T} e` keeps its braces in parens in
        # the bundled files, except in a few clauses: swallow those braces.
        while (k < len(p.t) and p.t[k] == '{'
               and text.rstrip().endswith('::')):
            q = _P(p.t)
            q.i = k
            inner = q.balanced('{', '}')
            text += ' {' + ' '.join(inner.split()) + '}'
            k = q.i
            rest_start = k
            depth = 0
            while k < len(p.t):
                c = p.t[k]
                if c in '([':
                    depth += 1
                elif c in ')]':
                    depth -= 1
                elif depth == 0 and c == '{':
                    break
                elif depth == 0 and c.isalpha() and not (
                        p.t[k - 1].isalnum() or p.t[k - 1] in '_$'):
                    if _STOP.match(p.t, k):
                        break
                    w = S._WORD.match(p.t, k)
                    k = w.end() - 1
                k += 1
            text += ' ' + ' '.join(p.t[rest_start:k].split())
        (pres if m.group(1) == 'requires' else posts).append(
            mk('OpaqueExp', m.group(1) + ' ' + text))
        p.i = k


def _body(p):
    p.ws()
    if p.i < len(p.t) and p.t[p.i] == '{':
        return ' '.join(p.balanced('{', '}').split())
    return None


def load(text, path, seen=None):
    """Parse `text` (located at `path`), following imports from disk."""
    seen = set() if seen is None else seen
    out = {'domains': [], 'fields': [], 'functions': [], 'predicates': [],
           'methods': []}
    base = os.path.dirname(path)
    text = _COMMENT.sub(' ', text)
    for m in _IMPORT.finditer(text):
        if m.group(1):
            q = os.path.normpath(os.path.join(base, m.group(1)))
            if q not in seen:
                seen.add(q)
                with open(q) as f:
                    sub = load(f.read(), q, seen)
                for k in out:
                    out[k].extend(sub[k])
    text = _IMPORT.sub(' ', text)
    p = _P(text)
    defines = []
    while True:
        p.ws()
        if p.i >= len(p.t):
            break
        if p.t.startswith('@opaque()', p.i):
            p.i += len('@opaque()')
            continue
        kw = p.next()
        if kw == 'define':
            name = p.next()
            p.ws()
            params = ''
            val = p.balanced('(', ')')
            p.ws()
            if p.i < len(p.t) and p.t[p.i] in '({' and p.t[p.i - 1] != '\n':
                # parametrised macro
                params = val
                val = (p.balanced('(', ')') if p.t[p.i] == '('
                       else p.balanced('{', '}'))
            defines.append('%s(%s)=%s' % (name, params, ' '.join(val.split())))
        elif kw == 'field':
            name = p.next()
            p.expect(':')
            out['fields'].append(mk('Field', name, _type(p)))
        elif kw in ('domain', 'adt'):
            name = p.next()
            j = p.t.index('{', p.i)
            head = ' '.join(p.t[p.i:j].split())
            if 'interpretation' in head:
                j = p.t.index('{', p.t.index(')', p.i))
                head = ' '.join(p.t[p.i:j].split())
            p.i = j
            body = ' '.join(p.balanced('{', '}').split())
            ax = mk('OpaqueExp', head + ' ' + body)
            out['domains'].append(S.Nodes.Domain(
                name, Seq(), Seq([S.Nodes.NamedDomainAxiom(
                    '_text', ax, NoPosition, NoInfo, name, NoTrafos)]),
                Seq(), NONE, NoPosition, NoInfo, NoTrafos))
        elif kw == 'function':
            name = p.next()
            fa = _formals(p.balanced('(', ')'))
            p.expect(':')
            t = _type(p)
            pres, posts = _clauses(p)
            b = _body(p)
            out['functions'].append(mk(
                'Function', name, fa, t, pres, posts,
                NONE if b is None else Some(mk('OpaqueExp', b))))
        elif kw == 'predicate':
            name = p.next()
            fa = _formals(p.balanced('(', ')'))
            b = _body(p)
            out['predicates'].append(mk(
                'Predicate', name, fa,
                NONE if b is None else Some(mk('OpaqueExp', b))))
        elif kw == 'method':
            name = p.next()
            fa = _formals(p.balanced('(', ')'))
            fr = Seq()
            if p.peek() == 'returns':
                p.next()
                fr = _formals(p.balanced('(', ')'))
            pres, posts = _clauses(p)
            b = _body(p)
            out['methods'].append(mk(
                'Method', name, fa, fr, pres, posts,
                NONE if b is None else Some(mk('Seqn', Seq([mk(
                    'Inhale', mk('OpaqueExp', b))]), Seq()))))
        else:
            raise ParseError('unexpected %r near %r'
                             % (kw, p.t[max(0, p.i - 80):p.i + 40]))
    if defines:
        out['domains'].append(S.Nodes.Domain(
            '_defines', Seq(), Seq([S.Nodes.NamedDomainAxiom(
                '_text', mk('OpaqueExp', '; '.join(defines)),
                NoPosition, NoInfo, '_defines', NoTrafos)]),
            Seq(), NONE, NoPosition, NoInfo, NoTrafos))
    return out


_CACHE = {}


def program(text, path):
    key = (S.fingerprint(text), path)
    d = _CACHE.get(key)
    if d is None:
        d = _CACHE[key] = load(text, path)
    return mk('Program', Seq(d['domains']), Seq(d['fields']),
              Seq(d['functions']), Seq(d['predicates']), Seq(d['methods']),
              Seq())
