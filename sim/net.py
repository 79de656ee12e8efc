"""Simulated network: hosts, TCP connections and UDP datagrams with faults."""

from __future__ import annotations

import asyncio
import contextvars
import errno
import ipaddress
import os
import socket as _socket
import ssl as _ssl

from . import boot

OWNER = contextvars.ContextVar("owner", default=None)     # whose call opens a socket


class FakeSock:
    def __init__(self, addr=None):
        self.addr = addr
        self.family = _socket.AF_INET
        self.type = _socket.SOCK_STREAM
        self.proto = _socket.IPPROTO_TCP
        self.conn = None
        self.closed = False

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return ("10.0.0.1", 40000)

    def getpeername(self):
        return self.addr

    def fileno(self):
        return -1

    def close(self):
        if not self.closed:
            self.closed = True
            if self.conn is not None:
                self.conn.client_gone()


async def sim_start_connection(addr_infos, **kw):
    """Stand-in for aiohappyeyeballs.start_connection."""
    w = boot.CUR.world
    addr = addr_infos[0][-1]
    conn = await w.net.tcp_connect(addr[0], addr[1])
    sock = FakeSock(addr)
    sock.conn = conn
    return sock


class Conn:
    """One TCP connection between the client under test and a simulated host."""

    def __init__(self, net, host, port, no):
        self.net = net
        self.w = net.w
        self.host = host
        self.port = port
        self.no = no
        self.client_open = True     # the client has not closed its end
        self.server_open = True
        self.client_transport = None
        self.server = None          # server-side handler object
        self.dead = False           # RST happened / link cut
        self._c2s_t = 0.0
        self._s2c_t = 0.0
        self._pending_c = []        # delivered before transport exists
        self.blackhole = False      # nothing travels any more
        self.rng = self.w.rng(f"conn/{host.ip}/{no}")
        self.inflight = False       # request (partly) sent, reply not complete
        self.begun = False          # part of the reply was delivered
        self.tls_fault = None
        self.awaiting = False       # a complete request waits for its full reply

    def lat(self):
        lo, hi = self.host.latency
        return lo + (hi - lo) * self.rng.random()

    # client -> server
    def client_send(self, data):
        if self.dead or not self.client_open:
            return
        self.net.bytes_to(self, len(data))
        if self.net.on_client_send is not None:
            self.net.on_client_send(self)
        if not self.inflight:
            self.begun = False
            self.net.wire.append((self.w.now, "send", self.host.ip, self.no))
        self.inflight = True
        t = max(self.w.now + self.lat(), self._c2s_t + 1e-6)
        self._c2s_t = t
        self.w.loop.call_at(t, self._srv_recv, bytes(data), self.w.now)

    def _srv_recv(self, data, sent_t):
        if self.dead or not self.server_open or self.blackhole or self.server is None:
            return
        self.server.sent_t = sent_t
        self.server.data_received(data)

    def client_gone(self):
        """The client closed its socket."""
        if not self.client_open:
            return
        self.client_open = False
        self.ended("closed")
        self.net.open_conns.discard(self)
        self.w.log("c_close", dev=self.host.name, conn=self.no)
        t = max(self.w.now + self.lat(), self._c2s_t + 1e-6)
        self._c2s_t = t
        self.w.loop.call_at(t, self._srv_fin)

    def _srv_fin(self):
        if self.dead or not self.server_open:
            return
        self.server_open = False
        if self.server is not None:
            self.server.client_closed()

    def ended(self, how):
        """The request in flight ended, as seen by the client: answered, eof, rst or closed."""
        if self.inflight:
            self.inflight = False
            self.net.wire.append((self.w.now, how, self.host.ip, self.no))

    # server -> client
    def server_send(self, data, segments=None, final=True):
        """Send data, optionally cut in segments [(nbytes, extra_delay), ...].

        final: these bytes complete the reply to the request in flight.
        """
        if self.dead or not self.server_open or not data:
            return
        parts = []
        pos = 0
        for n, d in segments or ():
            if pos >= len(data):
                break
            parts.append((data[pos:pos + n], d))
            pos += n
        if pos < len(data):
            parts.append((data[pos:], 0.0))
        t = self.w.now + self.lat()
        for i, (p, d) in enumerate(parts):
            t = max(t + d, self._s2c_t + 1e-6)
            self._s2c_t = t
            last = final and i == len(parts) - 1
            self.w.loop.call_at(t, self._cli_deliver, ("last" if last else "data", p))

    def server_fin(self):
        if self.dead or not self.server_open:
            return
        self.server_open = False
        t = max(self.w.now + self.lat(), self._s2c_t + 1e-6)
        self._s2c_t = t
        self.w.loop.call_at(t, self._cli_deliver, ("eof", None))

    def server_rst(self):
        if self.dead or not self.server_open:
            return
        self.server_open = False
        t = max(self.w.now + self.lat(), self._s2c_t + 1e-6)
        self._s2c_t = t
        self.w.loop.call_at(t, self._cli_deliver, ("rst", None))

    def _cli_deliver(self, item):
        if not self.client_open or self.blackhole:
            return
        if self.client_transport is None:
            self._pending_c.append(item)
            return
        self.client_transport._deliver(item)


class SimTransport(asyncio.Transport):
    def __init__(self, loop, conn, protocol, sock, tls):
        super().__init__()
        self._loop = loop
        self._conn = conn
        self._protocol = protocol
        self._closing = False
        self._closed_called = False
        self._paused = False
        self._buf = []
        self._sock = sock
        self._start_tls_compatible = True
        self._extra = {
            "socket": sock,
            "peername": (conn.host.ip, conn.port),
            "sockname": ("10.0.0.1", 40000 + conn.no % 20000),
        }
        if tls:
            self._extra["sslcontext"] = tls
            self._extra["ssl_object"] = None

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    def is_closing(self):
        return self._closing

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return (0, 65536)

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def is_reading(self):
        return not self._paused and not self._closing

    def pause_reading(self):
        self._paused = True

    def resume_reading(self):
        if self._paused:
            self._paused = False
            self._loop.call_soon(self._flush)

    def _flush(self):
        while self._buf and not self._paused and not self._closing:
            self._handle(self._buf.pop(0))

    def write(self, data):
        if self._closing:
            return
        self._conn.client_send(data)

    def writelines(self, lines):
        self.write(b"".join(bytes(x) for x in lines))

    def close(self):
        if self._closing:
            return
        self._closing = True
        self._conn.client_gone()
        self._loop.call_soon(self._lost, None)

    def abort(self):
        self.close()

    def _lost(self, exc):
        if self._closed_called:
            return
        self._closed_called = True
        self._protocol.connection_lost(exc)

    def _deliver(self, item):
        if self._closing:
            return
        if self._paused or self._buf:
            self._buf.append(item)
            return
        self._handle(item)

    def _handle(self, item):
        kind, data = item
        if kind == "last":
            self._conn.ended("answered")
            self._conn.awaiting = False
            self._protocol.data_received(data)
        elif kind == "data":
            self._conn.begun = True
            self._protocol.data_received(data)
        elif kind == "eof":
            self._conn.ended("eof_mid" if self._conn.begun else "eof")
            keep = self._protocol.eof_received()
            if not keep:
                self.close()
        elif kind == "rst":
            self._closing = True
            self._conn.ended("rst_mid" if self._conn.begun else "rst")
            self._conn.client_gone()
            self._lost(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))


class SimDatagramTransport(asyncio.DatagramTransport):
    def __init__(self, net, protocol, local):
        super().__init__()
        self.net = net
        self._protocol = protocol
        self._sock = FakeSock(local)
        self._extra = {"socket": self._sock, "sockname": local}
        self._closing = False
        self.local = local
        self.no = net.next_udp()

    def is_closing(self):
        return self._closing

    def sendto(self, data, addr=None):
        if self._closing:
            return
        self.net.udp_out(self, bytes(data), addr)

    def close(self):
        if self._closing:
            return
        self._closing = True
        self.net.open_udp.discard(self)
        self.net.w.log("udp_close", no=self.no)
        self.net.w.loop.call_soon(self._protocol.connection_lost, None)

    abort = close

    def deliver(self, data, addr):
        if not self._closing:
            self._protocol.datagram_received(data, addr)

    def deliver_error(self, exc):
        if not self._closing:
            self._protocol.error_received(exc)


class Host:
    """A network host: a simulated device attaches listeners to it."""

    def __init__(self, net, ip, name=None, latency=(0.001, 0.02)):
        self.net = net
        self.w = net.w
        self.ip = ip
        self.name = name or ip
        self.latency = latency
        self.tcp = {}     # port -> factory(conn) -> server handler
        self.udp = {}     # port -> fn(data, src_transport)
        self.up = True    # False: packets vanish
        self.conn_no = 0
        self.conns = []
        self.connect_hook = None  # fn(host, port, n) -> fault dict or None
        self.tls_ports = set()
        self.connect_times = []
        self.connect_log = []
        net.hosts[ip] = self

    def cut_all(self, how="rst"):
        for c in list(self.conns):
            if c.server_open and not c.dead:
                if how == "rst":
                    c.server_rst()
                elif how == "fin":
                    c.server_fin()
                else:
                    c.blackhole = True
            if c.server is not None:
                c.server.killed()
        self.conns = []


class Net:
    def __init__(self, world):
        self.w = world
        self.hosts = {}
        self.names = {}
        self.open_conns = set()
        self.open_udp = set()
        self.total_conns = 0
        self.wire = []          # (t, what, ip, conn) request starts and ends at the client's side
        self.sent = []          # (t, host, conn, n) bytes client sent
        self._udp = 0
        self.on_client_send = None
        self.udp_sent = []      # (t, transport no, addr, data)
        self.udp_fate = None    # fn(direction, host, idx) -> list of delays
        self.udp_count = {}

    def next_udp(self):
        self._udp += 1
        return self._udp

    def bytes_to(self, conn, n):
        self.sent.append((self.w.now, conn.host.name, conn.no, n))

    async def getaddrinfo(self, host, port, family, type, proto):
        await asyncio.sleep(0.001 + 0.01 * self.w.rng("dns").random())
        if isinstance(host, bytes):
            host = host.decode()
        try:
            ipaddress.ip_address(host)
            ip = host
        except ValueError:
            ip = self.names.get(host)
            if ip is None:
                raise _socket.gaierror(_socket.EAI_NONAME, "Name or service not known") from None
        return [(_socket.AF_INET, type or _socket.SOCK_STREAM, proto or 6, "", (ip, port or 0))]

    async def tcp_connect(self, ip, port):
        w = self.w
        host = self.hosts.get(ip)
        if host is None:
            w.log("connect", dev=ip, port=port, out="nohost")
            await asyncio.sleep(3.0)
            raise OSError(errno.EHOSTUNREACH, f"No route to host {ip}")
        host.conn_no += 1
        n = host.conn_no
        host.connect_times.append(w.now)
        fault = host.connect_hook(host, port, n) if host.connect_hook else None
        kind = fault["kind"] if fault else None
        r = w.rng(f"connect/{ip}/{n}")
        lo, hi = host.latency
        rtt = 2 * (lo + (hi - lo) * r.random())
        host.connect_log.append((w.now, port, n, kind, port in host.tcp, host.up))
        if kind == "slow_accept":
            w.fault(kind)
            rtt += fault.get("delay", 1.0)
        if kind == "unreachable":
            w.fault(kind)
            w.log("connect", dev=host.name, n=n, port=port, out="unreachable")
            await asyncio.sleep(fault.get("delay", 0.05))
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        if kind == "enetdown":
            w.fault(kind)
            w.log("connect", dev=host.name, n=n, port=port, out="enetdown")
            await asyncio.sleep(0)
            raise OSError(errno.ENETDOWN, "Network is down")
        if kind == "emfile":
            w.fault(kind)
            w.log("connect", dev=host.name, n=n, port=port, out="emfile")
            await asyncio.sleep(0)
            raise OSError(errno.EMFILE, "Too many open files")
        if not host.up or kind == "blackhole":
            if kind:
                w.fault(kind)
            w.log("connect", dev=host.name, n=n, port=port, out="blackhole")
            await asyncio.sleep(127.0)
            raise OSError(errno.ETIMEDOUT, "Connection timed out")
        await asyncio.sleep(rtt)
        if not host.up:
            await asyncio.sleep(127.0)
            raise OSError(errno.ETIMEDOUT, "Connection timed out")
        if port not in host.tcp or kind == "refuse":
            if kind:
                w.fault(kind)
            w.log("connect", dev=host.name, n=n, port=port, out="refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        conn = Conn(self, host, port, n)
        self.total_conns += 1
        self.open_conns.add(conn)
        host.conns.append(conn)
        conn.server = host.tcp[port](conn)
        w.log("connect", dev=host.name, n=n, port=port, out="ok")
        if kind == "accept_rst":
            w.fault(kind)
            conn.server_rst()
        elif kind == "accept_fin":
            w.fault(kind)
            conn.server_fin()
        elif kind == "accept_mute":
            w.fault(kind)
            conn.blackhole = True
        conn.tls_fault = fault if kind in ("tls_fail", "tls_reset", "tls_stall") else None
        return conn

    async def create_connection(self, loop, protocol_factory, host, port, *, ssl, sock):
        if sock is None:
            try:
                ipaddress.ip_address(host)
                ip = host
            except ValueError:
                infos = await self.getaddrinfo(host, port, 0, 0, 0)
                ip = infos[0][-1][0]
            conn = await self.tcp_connect(ip, port)
            sock = FakeSock((ip, port))
            sock.conn = conn
        else:
            conn = sock.conn
        if ssl:
            tf = conn.tls_fault
            try:
                if tf:
                    self.w.fault(tf["kind"])
                if tf and tf["kind"] == "tls_stall":
                    await asyncio.sleep(60.0)
                    raise ConnectionAbortedError("SSL handshake is taking longer than 60.0 seconds: aborting the connection")
                await asyncio.sleep(2 * conn.lat())
                if tf and tf["kind"] == "tls_fail":
                    raise _ssl.SSLError(1, "[SSL: TLSV1_ALERT_INTERNAL_ERROR] tlsv1 alert internal error")
                if tf and tf["kind"] == "tls_reset" or conn._pending_c or conn.dead:
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                if conn.port not in conn.host.tls_ports:
                    raise _ssl.SSLError(1, "[SSL: WRONG_VERSION_NUMBER] wrong version number")
                if conn.blackhole:
                    await asyncio.sleep(60.0)
                    raise ConnectionAbortedError("SSL handshake is taking longer than 60.0 seconds: aborting the connection")
            except BaseException:
                sock.close()
                raise
        elif conn.port in conn.host.tls_ports:
            # plaintext towards a TLS port: the server resets after first bytes
            conn.server.plain_on_tls = True
        protocol = protocol_factory()
        tr = SimTransport(loop, conn, protocol, sock, ssl or None)
        conn.client_transport = tr
        protocol.connection_made(tr)
        for item in conn._pending_c:
            tr._deliver(item)
        conn._pending_c = []
        try:
            await asyncio.sleep(0)
        except BaseException:
            tr.close()
            raise
        return tr, protocol

    # --- UDP -----------------------------------------------------------
    async def create_datagram_endpoint(self, loop, protocol_factory, local_addr, remote_addr):
        fault = self.udp_open_fault() if getattr(self, "udp_open_fault", None) else None
        if fault:
            raise fault
        protocol = protocol_factory()
        tr = SimDatagramTransport(self, protocol, local_addr or ("0.0.0.0", 0))
        tr.owner = OWNER.get()
        self.open_udp.add(tr)
        loop.call_soon(protocol.connection_made, tr)
        try:
            await asyncio.sleep(0)
            await asyncio.sleep(0)
        except BaseException:
            tr.close()
            raise
        return tr, protocol

    def udp_out(self, tr, data, addr):
        ip, port = addr
        self.udp_sent.append((self.w.now, tr.no, addr, data))
        self.w.log("udp_out", dev=ip, port=port, no=tr.no)
        bcast = ip.endswith(".255")
        for h in list(self.hosts.values()):
            if (bcast or h.ip == ip) and port in h.udp and h.up:
                for d in self._fate("q", h, port):
                    self.w.loop.call_later(d, self._udp_in, h, port, data, tr)

    def _fate(self, direction, host, port):
        key = (direction, host.ip, port)
        i = self.udp_count.get(key, 0)
        self.udp_count[key] = i + 1
        if self.udp_fate is not None:
            return self.udp_fate(direction, host, port, i)
        lo, hi = host.latency
        return [lo + (hi - lo) * self.w.rng(f"udp/{host.ip}").random()]

    def _udp_in(self, host, port, data, tr):
        if host.up:
            host.udp[port](data, tr)

    def udp_reply(self, host, port, data, tr, *, src_port=None, src_ip=None):
        for d in self._fate("r", host, port):
            self.w.loop.call_later(d, self._udp_deliver, tr, data,
                                   (src_ip or host.ip, port if src_port is None else src_port), host)

    def _udp_deliver(self, tr, data, addr, host):
        if tr in self.open_udp:
            self.w.log("udp_in", dev=host.name, port=addr[1], n=len(data))
            tr.deliver(data, addr)
