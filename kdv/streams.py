"""Loopback ports and clients for the streaming checks"""
import os
import socket

WAIT_S = 30       # for something which takes milliseconds
FIRST, BLOCK, BLOCKS = 11000, 500, 42     # below the range for outgoing connections

_guard = None
_next = 0


def _take_block():
    """A block of ports for this process: others see its first port in use"""
    global _guard
    for i in range(BLOCKS):
        base = FIRST + BLOCK * ((os.getpid() + i) % BLOCKS)
        s = socket.socket()
        try:
            s.bind(('0.0.0.0', base))
            s.listen(1)
        except OSError:
            s.close()
            continue
        _guard = (os.getpid(), s, base)
        return
    raise RuntimeError('no block of ports')


def free_port():
    """A TCP port which nobody uses"""
    global _next
    if _guard is None or _guard[0] != os.getpid():
        _take_block()
    for _ in range(BLOCK):
        _next += 1
        port = _guard[2] + 1 + _next % (BLOCK - 1)
        with socket.socket() as s:
            # As the server does: closed connections don't matter
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(('0.0.0.0', port))
            except OSError:
                continue
        return port
    raise RuntimeError('no free port')


def connect(port, timeout=WAIT_S):
    from karabo_bridge import Client
    return Client('tcp://127.0.0.1:%d' % port, timeout=timeout)
