"""Simulated ZeroMQ: REQ/REP sockets inside the simulation."""

import sys
import types

from . import hooks

ENDPOINTS = {}


class ZMQError(Exception):
    pass


class _Rep:
    def __init__(self):
        self.queue = []
        self.closed = False


def _norm(addr):
    # the server binds *, clients connect to localhost
    return addr.rsplit(':', 1)[-1]


class Socket:
    n = 0

    def __init__(self, ctx, kind):
        self.kind = kind
        self.state = 'idle'
        self.addr = None
        self.reply = None
        self.cur = None
        Socket.n += 1
        self.id = Socket.n
        self.rep = None

    def bind(self, addr):
        if self.kind != REP:
            raise ZMQError('only REP sockets bind here')
        self.rep = _Rep()
        ENDPOINTS[_norm(addr)] = self.rep
        hooks.log('zmq.bind', addr=addr)

    def connect(self, addr):
        self.addr = _norm(addr)

    def setsockopt(self, *a):
        pass

    setsockopt_string = setsockopt

    def close(self, linger=None):
        if self.rep is not None:
            self.rep.closed = True
        self.state = 'closed'

    def send(self, data, flags=0, *a, **kw):
        data = bytes(data)
        hooks.site('zmq.send')
        if self.kind == REQ:
            if self.state == 'sent':
                raise ZMQError('Operation cannot be accomplished in current state')
            hooks.block(lambda: self.addr in ENDPOINTS, None, 'zmq.connect')
            self.state = 'sent'
            self.reply = None
            hooks.log('zmq.request', sock=self.id, data=data.decode('latin1'))
            ENDPOINTS[self.addr].queue.append((self, data))
        else:
            if self.cur is None:
                raise ZMQError('Operation cannot be accomplished in current state')
            c, self.cur = self.cur, None
            hooks.log('zmq.reply', sock=c.id, data=data.decode('latin1'))
            if c.state == 'sent':
                c.reply = data
        return None

    def recv(self, flags=0, *a, **kw):
        hooks.site('zmq.recv')
        if self.kind == REQ:
            if self.state != 'sent':
                raise ZMQError('Operation cannot be accomplished in current state')
            hooks.block(lambda: self.reply is not None, None, 'zmq.reply')
            self.state = 'idle'
            r, self.reply = self.reply, None
            return r
        if self.cur is not None:
            raise ZMQError('Operation cannot be accomplished in current state')
        hooks.block(lambda: self.rep.queue, None, 'zmq.idle')
        self.cur, data = self.rep.queue.pop(0)
        hooks.log('zmq.recv', sock=self.cur.id)
        return data

    def send_string(self, s, flags=0, encoding='utf-8', **kw):
        if not isinstance(s, str):
            raise TypeError('str objects only')
        return self.send(s.encode(encoding))

    send_unicode = send_string

    def recv_string(self, flags=0, encoding='utf-8'):
        return self.recv().decode(encoding)

    recv_unicode = recv_string

    def send_json(self, o, **kw):
        import json
        return self.send(json.dumps(o).encode())

    def recv_json(self, **kw):
        import json
        return json.loads(self.recv().decode())


class Context:
    def __init__(self, *a, **kw):
        pass

    @classmethod
    def instance(cls):
        return cls()

    def socket(self, kind, **kw):
        return Socket(self, kind)

    def term(self):
        pass

    destroy = term


REQ, REP = 3, 4
LINGER = 17


def reset():
    ENDPOINTS.clear()
    Socket.n = 0


def install():
    m = types.ModuleType('zmq')
    m.Context, m.Socket, m.REQ, m.REP, m.ZMQError, m.LINGER = (
        Context, Socket, REQ, REP, ZMQError, LINGER)
    m.error = types.ModuleType('zmq.error')
    m.error.ZMQError = ZMQError
    sys.modules['zmq'] = m
    sys.modules['zmq.error'] = m.error
