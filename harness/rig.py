"""A StorageServer of the code under test, serving in a thread, with
fragmented streams and pack steps that happen when the case says so."""
import os
import random
import select as select_module
import socket
import struct
import threading
import time

real_select = select_module.select
GATES = {}


def gated_select(r, w, e, *timeout):
    """Stands for select.select: in the thread of a server that has a gate, a
    call with timeout 0 (the server is packing) waits for a request or a
    token, so that the case decides when the pack goes on."""
    gate = GATES.get(threading.get_ident())
    if gate is None or not timeout or timeout[0] is None or timeout[0] > 0:
        return real_select(r, w, e, *timeout)
    if gate.taken:
        gate.taken = False
        gate.idle.set()
    ready = real_select(list(r) + [gate.inner], w, e)
    first = [s for s in ready[0] if s is not gate.inner]
    if first:
        return first, ready[1], ready[2]
    gate.inner.recv(1)
    gate.taken = True
    return [], [], []


select_module.select = gated_select


class Gate(object):
    def __init__(self):
        self.outer, self.inner = socket.socketpair()
        self.taken = False
        self.idle = threading.Event() # the step of the last token is done


class Trickle(object):
    """A socket whose stream is cut in small pieces, both ways."""
    def __init__(self, sock, rng, mode):
        self.sock = sock
        self.rng = rng
        self.mode = mode
    def fileno(self):
        return self.sock.fileno()
    def piece(self):
        if self.mode == 1:
            return 1
        return self.rng.choice([1, 2, 3, 5, 8, 100, 5000])
    def recv(self, n, *a):
        return self.sock.recv(max(min(n, self.piece()), 1 if n else 0), *a)
    def recv_into(self, buf, n=0, *a):
        n = n or len(buf)
        return self.sock.recv_into(buf, max(min(n, self.piece()), 1), *a)
    def send(self, s, *a):
        return self.sock.send(s[:self.piece()], *a)
    def sendall(self, s, *a):
        return self.sock.sendall(s, *a)
    def settimeout(self, t):
        self.sock.settimeout(t)
    def setsockopt(self, *a):
        self.sock.setsockopt(*a)
    def close(self):
        self.sock.close()
    def shutdown(self, how):
        self.sock.shutdown(how)
    def accept(self):
        conn, addr = self.sock.accept()
        return Trickle(conn, self.rng, self.mode), addr
    def __getattr__(self, name):
        # neither 'read' nor 'write': this is a socket
        return getattr(self.sock, name)


class Rig(object):
    def __init__(self, c, make_storage, trickle=0, gate=False, gcbytes=0, timeout=5):
        from durus import storage_server
        from durus.storage_server import StorageServer, UnixDomainSocketAddress
        self.c = c
        self.trickle = trickle
        seed = c.rng.random()
        rng = random.Random(seed)
        crng = random.Random(seed + 1)
        storage_server.TIMEOUT = timeout
        rig = self

        class Address(UnixDomainSocketAddress):
            def get_listening_socket(self):
                s = UnixDomainSocketAddress.get_listening_socket(self)
                return Trickle(s, rng, trickle) if trickle else s
            def get_connected_socket(self):
                s = UnixDomainSocketAddress.get_connected_socket(self)
                if s is not None:
                    s.settimeout(20)
                return Trickle(s, crng, trickle) if s and trickle else s
        self.address = Address(c.path('sock'))
        self.gate = Gate() if gate else None
        self.error = None
        self.stopped = False
        self.server = None
        self.sockets = []
        ready = threading.Event()

        def run():
            if self.gate:
                GATES[threading.get_ident()] = self.gate
            try:
                self.storage = make_storage()
                self.server = StorageServer(self.storage, address=self.address, gcbytes=gcbytes)
                plain = self.address.get_listening_socket
                def listening():
                    s = plain()
                    ready.set()
                    return s
                self.address.get_listening_socket = listening
                self.server.serve()
            except SystemExit:
                pass
            except BaseException as e:
                import traceback
                self.error = e
                self.error_text = traceback.format_exc()
            finally:
                self.stopped = True
                ready.set()
                GATES.pop(threading.get_ident(), None)
                # nobody shall wait for a dead server
                for cl in list(getattr(self.server, 'clients', [])):
                    try:
                        cl.s.close()
                    except Exception:
                        pass
        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()
        ready.wait(20)
        self.check()

    def check(self):
        if self.error is not None:
            self.c.log(self.error_text)
            self.c.fail('the server stopped: %s: %s' % (type(self.error).__name__, self.error))

    def raw(self):
        s = self.address.get_connected_socket()
        self.check()
        self.c.check(s is not None, 'no connection to the server')
        self.sockets.append(s)
        return s

    def client(self):
        from durus.client_storage import ClientStorage
        storage = ClientStorage(address=self.address)
        self.sockets.append(storage.s)
        return storage

    def step(self, wait=10):
        """let an ongoing pack make one step"""
        if self.gate is None or self.server.packer is None:
            return
        self.gate.idle.clear()
        self.gate.outer.send(b'x')
        end = time.time() + wait
        while time.time() < end and not self.stopped:
            if self.gate.idle.wait(0.0005) or self.server.packer is None:
                break
        self.check()

    def finish_pack(self):
        for _ in range(100000):
            if self.server.packer is None or self.stopped:
                break
            if self.gate is None:
                time.sleep(0.001)
            else:
                self.step()
        self.check()
        self.c.check(self.server.packer is None, 'the pack does not end')

    def wait_clients(self, n):
        """until the server has noticed the connections that were closed"""
        end = time.time() + 8
        while len(self.server.clients) != n and time.time() < end and not self.stopped:
            time.sleep(0.0002)
        self.check()
        self.c.check(len(self.server.clients) == n, 'the server has %d clients, not %d',
                     len(self.server.clients), n)

    def close(self, dispatch=True):
        """stop the server; what it says of its end is checked"""
        try:
            for s in self.sockets:
                try:
                    s.close()
                except OSError:
                    pass
            if not self.stopped:
                s = self.address.get_connected_socket()
                if s is not None:
                    s.sendall(b'Q') if hasattr(s, 'sendall') else s.send(b'Q')
                    s.close()
                self.thread.join(8)
        finally:
            if self.gate:
                self.gate.outer.close()
                self.gate.inner.close()
        self.check()
        self.c.check(self.stopped, 'the server does not quit')


def recv_all(sock, n):
    s = b''
    while len(s) < n:
        x = sock.recv(n - len(s))
        if not x:
            raise EOFError('closed after %d of %d bytes' % (len(s), n))
        s += x
    return s


def at_end(sock):
    """True if the server has closed the connection, with nothing sent"""
    try:
        return sock.recv(1) == b''
    except ConnectionError:
        return True
