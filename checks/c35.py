"""C35: security material of the TLS services: real handshakes over memory buffers."""
import asyncio
import os
import shutil
import ssl
import tempfile
import warnings

from aiomisc.service import RobustTLSClient, TLSClient, TLSServer
from mc.core import Violation
from mc.run import Unit
from mc.vloop import Stuck, run_loop
from mc.vnet import FakeSocket, NetLoop

try:
    from aiomisc.service.aiohttp import AIOHTTPSSLService
except ImportError:
    AIOHTTPSSLService = None

warnings.simplefilter("ignore", DeprecationWarning)
PROPERTY = "C35"
ASSUMPTIONS = [
    "the TLS library is trusted: contexts are judged by handshakes with peers of every kind",
    "the handshake runs over memory buffers; eight configurations are compared with the loopback network",
    "a server without configured authority which requires client certificates is not judged on "
    "clients certified by an authority of the system",
]
CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")
# the authorities the system trusts
os.environ["SSL_CERT_FILE"] = os.path.join(CERTS, "caB.pem")
os.environ["SSL_CERT_DIR"] = os.path.join(CERTS, "none")
V2, V3 = ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3
ISSUER = {"srvA": "caA", "srvB": "caB", "srvAhost": "caA", "srvAold": None, "srvSelf": None,
          "cliA": "caA", "cliB": "caB", "cliAold": None, "cliSelf": None}
HOSTS = {"srvAhost": ("other.test",)}
GOOD = ("good.test", "127.0.0.1")


def pem(name):
    return os.path.join(CERTS, name + ".pem")


def key(name):
    return os.path.join(CERTS, name + ".key")


DER = {}


def der(name):
    if name not in DER:
        with open(pem(name)) as f:
            DER[name] = ssl.PEM_cert_to_DER_cert(f.read())
    return DER[name]


def handshake(sctx, cctx, host):
    a, b = ssl.MemoryBIO(), ssl.MemoryBIO()
    s = sctx.wrap_bio(a, b, server_side=True)
    c = cctx.wrap_bio(b, a, server_side=False, server_hostname=host)
    r = {"client": None, "server": None, "early": None}
    done = {}
    shaken = []

    def step(name, o, fn):
        if r[name] is not None:
            return
        try:
            done[name] = fn(o)
        except ssl.SSLWantReadError:
            pass
        except OSError as e:
            r[name] = e
            if name == "client" and not shaken:
                r["early"] = e           # what connecting would raise
        else:
            if name == "client":
                shaken.append(1)
    for first, second in ((lambda o: o.do_handshake() or True, lambda o: o.do_handshake() or True),
                          (lambda o: o.write(b"ping"), lambda o: o.read(100)),
                          (lambda o: o.read(100), lambda o: o.write(b"pong")),
                          (lambda o: o.read(100), lambda o: True)):
        done.clear()
        for _ in range(6):
            if "client" not in done:
                step("client", c, first)
            if "server" not in done:
                step("server", s, second)
            if first is not second or len(done) == 2:
                if second is not None and (len(done) == 2 or r["client"] or r["server"]):
                    break
        if r["client"] or r["server"]:
            break
    # what is still on its way, such as the alert about a refused certificate
    step("server", s, lambda o: o.read(100))
    step("client", c, lambda o: o.read(100))
    r["ok"] = not (r["client"] or r["server"])
    if r["ok"]:
        r["version"], r["cipher"] = c.version(), c.cipher()[0]
        r["server_cert"] = c.getpeercert(True)
        r["client_cert"] = s.getpeercert(True)
    else:
        try:
            r["client_cert"] = s.getpeercert(True)
        except ValueError:
            r["client_cert"] = None
    return r


class TlsLoop(NetLoop):
    """Records the context of listeners; clients meet the configured peer."""
    peer = None
    server_ctx = None
    results = None

    def _start_serving(self, factory, sock, ssl, server, backlog, *a):
        self.server_ctx = ssl
        super()._start_serving(factory, sock, ssl, server, backlog, *a)

    async def create_connection(self, factory, host=None, port=None, **kw):
        cctx = kw.pop("ssl", None)
        name = kw.pop("server_hostname", None) or host
        if not isinstance(cctx, ssl.SSLContext):
            raise Violation("connection without TLS: %r" % (cctx,), "plain")
        r = handshake(self.peer, cctx, name)
        self.results.append(r)
        if r["early"] is not None:
            raise r["early"]
        return await super().create_connection(factory, host, port)


def new_loop(ch):
    loop = TlsLoop(ch)
    loop.exec_urgent = True
    loop.results = []

    async def hook(*a):
        return "peer"
    loop.connect_hook = hook
    return loop


def run(loop, coro):
    from aiomisc._context_vars import EVENT_LOOP
    EVENT_LOOP.set(loop)
    try:
        return run_loop(loop, coro)
    except Stuck as e:
        raise Violation("stuck: %s" % e, "stuck")


# -- servers --------------------------------------------------------------------
class Server(TLSServer):
    async def handle_client(self, reader, writer):
        writer.close()


def make_server(kind, **kw):
    if kind == "tls":
        return Server(sock=FakeSocket(), **kw)

    class Http(AIOHTTPSSLService):
        async def create_application(self):
            import aiohttp.web
            return aiohttp.web.Application()
    return Http(sock=FakeSocket(), **kw)


def start_server(ch, kind, change=None, **kw):
    loop = new_loop(ch)

    async def main():
        s = make_server(kind, **kw)
        if change is not None:
            change()
        s.set_loop(loop)
        await s.start()
        await s.stop(None)
    run(loop, main())
    if not isinstance(loop.server_ctx, ssl.SSLContext):
        raise Violation("a listener without TLS", "plain")
    return loop.server_ctx


def peer_client(cert=None, versions=(V2, V3), ciphers=None):
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.verify_mode = ssl.CERT_NONE
    ctx.minimum_version, ctx.maximum_version = versions
    ctx.post_handshake_auth = True
    if ciphers:
        ctx.set_ciphers(ciphers)
    if cert:
        ctx.load_cert_chain(pem(cert), key(cert))
    return ctx


def server(ch, kind, ca, require):
    verify = bool(ch.choose((0, 0), "verify"))
    cert = ch.pick(("srvA", "srvB", "srvSelf"), "cert")
    kw = {"verify": verify, "require_client_cert": require}
    if not require and verify and ch.choose((0, 0), "defaults"):
        kw.clear()
    versions = (V3, V3)
    if kind == "tls":
        versions = ch.pick(((V3, V3), (V2, V3), (V2, V2)), "versions")
        if versions != (V3, V3) or ch.choose((0, 0), "explicit"):
            kw["minimum_version"], kw["maximum_version"] = versions
    try:
        ctx = start_server(ch, kind, cert=pem(cert), key=key(cert), ca=ca and pem(ca), **kw)
    except OSError as e:
        raise Violation("start raised %r" % e, "start")
    n = 0
    for peer in (None, "cliA", "cliB", "cliSelf", "cliAold"):
        for pv in ((V2, V2), (V3, V3), (V2, V3)):
            r = handshake(ctx, peer_client(peer, pv), "good.test")
            n += 1
            common = [v for v in (V2, V3) if versions[0] <= v <= versions[1] and pv[0] <= v <= pv[1]]
            trusted = not require or peer is not None and ca is not None and ISSUER[peer] == ca
            want = bool(common) and trusted
            if require and ca is None and peer == "cliB":
                continue
            what = "server ca=%s require=%s verify=%s cert=%s versions=%s, client %s %s" % (
                ca, require, verify, cert, versions, peer, pv)
            if r["ok"] != want:
                raise Violation("%s: %s" % (what, "accepted" if r["ok"] else "refused: %r" % r),
                                "accepted" if r["ok"] else "refused")
            if want:
                if r["server_cert"] != der(cert):
                    raise Violation("%s: presents another certificate" % what, "certificate")
                if r["version"] != {V2: "TLSv1.2", V3: "TLSv1.3"}[common[-1]]:
                    raise Violation("%s: speaks %s" % (what, r["version"]), "version")
                if require and r["client_cert"] != der(peer):
                    raise Violation("%s: sees another certificate" % what, "certificate")
            ch.observe("server", str(peer), want)
    return n


CIPHERS = ("ECDHE-ECDSA-AES256-GCM-SHA384", "ECDHE-ECDSA-CHACHA20-POLY1305", "ECDHE-ECDSA-AES128-GCM-SHA256",
           "ECDHE-ECDSA-AES128-SHA256", "ECDHE-ECDSA-AES256-SHA384")


def ciphers(ch):
    """TLS 1.2: exactly the configured cipher suites are spoken."""
    allowed = [c for c in CIPHERS if ch.choose((0, 0), c)]
    default = ch.choose((0, 0), "default") if not allowed else 0
    if not allowed and not default:
        return
    kw = {} if default else {"ciphers": tuple(allowed)}
    ctx = start_server(ch, "tls", cert=pem("srvA"), key=key("srvA"), minimum_version=V2, maximum_version=V2, **kw)
    if default:
        allowed = CIPHERS[:3]
    for c in CIPHERS:
        r = handshake(ctx, peer_client(None, (V2, V2), c), "good.test")
        if r["ok"] != (c in allowed):
            raise Violation("cipher %s with %r: %s" % (c, allowed, r), "cipher")
        if r["ok"] and r["cipher"] != c:
            raise Violation("speaks %r" % r["cipher"], "cipher")
    ch.observe("ciphers", tuple(allowed))


# -- clients ----------------------------------------------------------------------
CLIENTS = {"tls": TLSClient, "rtls": RobustTLSClient}


def make_client(kind, handled, **kw):
    class Client(CLIENTS[kind]):
        async def handle_connection(self, reader, writer):
            handled.append(1)
            await asyncio.Event().wait()
    return Client(**kw)


def peer_server(cert, ca=None, versions=(V2, V3)):
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.minimum_version, ctx.maximum_version = versions
    ctx.load_cert_chain(pem(cert), key(cert))
    if ca:
        ctx.load_verify_locations(pem(ca))
        ctx.verify_mode = ssl.CERT_REQUIRED
    return ctx


def client_expect(ca, verify, address, cert):
    return not verify or ISSUER[cert] == (ca or "caB") and address in HOSTS.get(cert, GOOD)


def client(ch, kind, ca, verify):
    address = ch.pick(GOOD + ("other.test",), "address")
    own = ch.pick(("cliA", "cliB"), "own")
    cert = ch.pick(("srvA", "srvB", "srvAhost", "srvAold", "srvSelf"), "server")
    asks = ch.pick((None, "caA"), "server asks")
    versions = ch.pick(((V2, V3), (V2, V2)), "server speaks")
    kw = {} if verify and ch.choose((0, 0), "default") else {"verify": verify}
    loop = new_loop(ch)
    loop.peer = peer_server(cert, asks, versions)
    handled = []

    async def main():
        c = make_client(kind, handled, address=address, port=4433, cert=pem(own), key=key(own),
                        ca=ca and pem(ca), **kw)
        c.set_loop(loop)
        t = loop.create_task(c.start())
        await asyncio.sleep(0.5)
        await c.stop(None)
        await asyncio.wait([t])
        if not t.cancelled():
            t.exception()
    run(loop, main())
    want = client_expect(ca, verify, address, cert) and versions[1] == V3
    what = "client ca=%s verify=%s %s -> server %s %s" % (ca, verify, address, cert, versions)
    if bool(handled) != want:
        raise Violation("%s: %s" % (what, "connected" if handled else "refused: %r" % loop.results),
                        "connected" if handled else "refused")
    if want:
        r = loop.results[-1]
        if r["ok"] != (asks is None or own == "cliA"):
            raise Violation("%s: presented %r" % (what, r), "own")
        if asks and r["ok"] and r["client_cert"] != der(own):
            raise Violation("%s: presented another certificate" % what, "own")
    ch.observe("client", want)
    return want


# -- changed files ------------------------------------------------------------------
class Folder:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c35-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path)

    def name(self, what):
        return os.path.join(self.path, what)

    def put(self, what, src):
        if src is None:
            if os.path.exists(self.name(what)):
                os.unlink(self.name(what))
        else:
            shutil.copy(src, self.name(what))


def changed_client(ch, kind, depth):
    with Folder() as d:
        loop = new_loop(ch)
        handled = []
        for what, src in (("ca", pem("caA")), ("cert", pem("cliA")), ("key", key("cliA"))):
            d.put(what, src)

        async def main():
            c = make_client(kind, handled, address="good.test", port=4433, cert=d.name("cert"),
                            key=d.name("key"), ca=d.name("ca"), verify=True)
            c.set_loop(loop)
            ca, own = "caA", "cliA"
            for i in range(depth):
                new = ch.pick(((ca, own), ("caB", own), ("caA", own), (None, own), (ca, "cliB"), (ca, "cliA")), "change")
                ca, own = new
                d.put("ca", ca and pem(ca))
                d.put("cert", pem(own))
                d.put("key", key(own))
                cert = ch.pick(("srvA", "srvB"), "server")
                loop.peer = peer_server(cert, "caA")
                n = len(loop.results)
                try:
                    r, w = await c.connect()
                except OSError as e:
                    ok = e
                else:
                    ok = True
                    w.close()
                want = ca is not None and ISSUER[cert] == ca
                if (ok is True) != want:
                    raise Violation("connection %d with authority %s to %s: %r" % (i, ca, cert, ok), "changed")
                if want and loop.results[n]["ok"] != (own == "cliA"):
                    raise Violation("connection %d does not present %s" % (i, own), "changed-own")
                if not ca and len(loop.results) > n:
                    raise Violation("connected without the authority file", "changed")
                ch.observe("changed", want)
        run(loop, main())


def changed_server(ch):
    with Folder() as d:
        for what, src in (("ca", pem("caA")), ("cert", pem("srvA")), ("key", key("srvA"))):
            d.put(what, src)
        ca = ch.pick(("caA", "caB", None), "ca")
        cert = ch.pick(("srvA", "srvB", None, "mixed"), "cert")
        kind = ch.pick(("tls", "http") if AIOHTTPSSLService else ("tls",), "kind")

        def change():
            d.put("ca", ca and pem(ca))
            d.put("cert", cert and pem("srvB" if cert == "mixed" else cert))
            if cert != "mixed":
                d.put("key", cert and key(cert))
        try:
            ctx = start_server(ch, kind, change=change, ca=d.name("ca"), cert=d.name("cert"), key=d.name("key"),
                               require_client_cert=True)
        except OSError as e:
            ok, err = False, e
        else:
            ok = True
        want = ca is not None and cert not in (None, "mixed")
        if ok != want:
            raise Violation("start with %s and %s: %s" % (ca, cert, "went well" if ok else repr(err)), "changed-start")
        if ok:
            for peer in ("cliA", "cliB"):
                r = handshake(ctx, peer_client(peer), "x")
                if r["ok"] != (ISSUER[peer] == ca) or r["ok"] and r["server_cert"] != der(cert):
                    raise Violation("files at the start are not used: %r" % r, "changed-server")
        ch.observe("changed", ca, cert)


# -- the real network -----------------------------------------------------------------
REAL = [("caA", True, "srvA", False, None, "cliA"), ("caB", True, "srvA", False, None, "cliA"),
        (None, True, "srvB", False, None, "cliA"), (None, True, "srvSelf", False, None, "cliA"),
        (None, False, "srvSelf", False, None, "cliA"), ("caA", True, "srvA", True, "caA", "cliA"),
        ("caA", True, "srvA", True, "caA", "cliB"), ("caA", False, "srvAold", True, "caB", "cliB")]


def loopback(ch):
    """The same verdicts on real sockets."""
    ca, verify, cert, require, sca, own = ch.pick(REAL, "configuration")
    got = []

    class S(TLSServer):
        async def handle_client(self, reader, writer):
            got.append("served")
            writer.write(await reader.readline())
            await writer.drain()
            writer.close()

    class C(TLSClient):
        async def handle_connection(self, reader, writer):
            got.append("handled")
            writer.write(b"hello\n")
            got.append(await reader.readline())

    async def main():
        loop = asyncio.get_running_loop()
        from aiomisc._context_vars import EVENT_LOOP
        EVENT_LOOP.set(loop)
        s = S(address="127.0.0.1", port=0, cert=pem(cert), key=key(cert), ca=sca and pem(sca),
              require_client_cert=require)
        s.set_loop(loop)
        await s.start()
        c = C(address="127.0.0.1", port=s.port, cert=pem(own), key=key(own), ca=ca and pem(ca), verify=verify)
        c.set_loop(loop)
        try:
            await asyncio.wait_for(c.start(), 60)
        except OSError as e:
            got.append("refused")
        await c.stop(None)
        await asyncio.wait_for(s.stop(None), 60)
    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *a: None)
    try:
        loop.run_until_complete(main())
    finally:
        loop.close()
    ok = client_expect(ca, verify, "127.0.0.1", cert)
    admitted = not require or ISSUER[own] == sca
    want = (["handled", "served", b"hello\n"] if admitted else ["handled"]) if ok else ["refused"]
    seen = [g for g in got if g not in (b"",)]
    if sorted(map(str, seen)) != sorted(map(str, want)):
        raise Violation("%r: %r instead of %r" % ((ca, verify, cert, require, sca, own), got, want), "loopback")
    ch.observe("loopback", ok, admitted)


def units(tier):
    deep = tier == "thorough"
    cap = 100000
    for kind in ("tls",) + ("http",) * (AIOHTTPSSLService is not None):
        for ca in (None, "caA", "caB"):
            for require in (False, True):
                yield Unit("server %s ca=%s require=%s" % (kind, ca, require),
                           lambda ch, kind=kind, ca=ca, require=require: server(ch, kind, ca, require),
                           bound=0, cap=cap, weight=5)
    for kind in ("tls", "rtls"):
        for ca in (None, "caA", "caB"):
            for verify in (True, False):
                yield Unit("client %s ca=%s verify=%s" % (kind, ca, verify),
                           lambda ch, kind=kind, ca=ca, verify=verify: client(ch, kind, ca, verify),
                           bound=0, cap=cap, weight=5)
        yield Unit("changed client %s" % kind, lambda ch, kind=kind: changed_client(ch, kind, 3 if deep else 2),
                   bound=0, cap=cap, weight=5)
    yield Unit("ciphers", ciphers, bound=0, cap=cap, weight=5)
    yield Unit("changed server", changed_server, bound=0, cap=cap, weight=5)
    yield Unit("loopback", loopback, bound=0, cap=cap, weight=5)
