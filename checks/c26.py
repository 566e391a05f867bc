"""C26: the DNS store against a flat reference model."""
from aiomisc.service.dns import DNSStore, DNSZone, records as R
from mc.core import Violation
from mc.run import Unit

PROPERTY = "C26"
ASSUMPTIONS = [
    "the oracle is a flat list of zones and records; names are compared by whole labels, ignoring "
    "the case and the final dot of zone names",
    "store.replace() is not called with two spellings of the same zone",
]
T = R.RecordType


def rec(name, i):
    return R.A.create(name, "192.0.2.%d" % i)


def txt(name, s):
    return R.TXT.create(name, s)


def norm(name):
    name = name.strip(".").lower()
    return tuple(reversed(name.split("."))) if name else ()


UNIVERSES = {
    # zones (spelling used for the zone object), records, queries
    "nested": (
        ["com", "b.com.", "c.b.com"],
        [rec("b.com.", 1), rec("c.b.com.", 2), rec("d.c.b.com.", 3), rec("com.", 4)],
        ["com", "b.com.", "c.b.com.", "d.c.b.com", "e.d.c.b.com.", "x.com.", "c.com.", "org."],
    ),
    "lookalike": (
        ["b.com", "ab.com.", "com.b"],
        [rec("ab.com.", 1), rec("x.b.com.", 2), rec("b.com.", 3), rec("a.com.b.", 4)],
        ["b.com", "ab.com.", "x.b.com.", "x.ab.com.", "com.b.", "a.com.b", "com", "b"],
    ),
    "gap": (
        ["b.com", "e.d.c.b.com", "d.x.com."],
        [rec("c.b.com.", 1), rec("d.c.b.com.", 2), txt("d.c.b.com.", "t"), rec("e.d.c.b.com.", 3)],
        ["b.com", "c.b.com.", "d.c.b.com.", "e.d.c.b.com.", "f.c.b.com.", "x.com", "d.x.com"],
    ),
    "case": (
        ["B.com", "c.b.COM."],
        [rec("x.B.com.", 1), rec("x.b.com.", 1), rec("C.b.com.", 2), rec("y.c.B.com.", 3)],
        ["X.b.com", "x.b.com", "x.B.COM.", "c.b.com", "Y.C.b.com", "y.c.b.com."],
    ),
    "root": (
        [".", "com", "a.com"],
        [rec("com.", 1), rec(".", 2), rec("a.com.", 3), rec("org.", 4)],
        [".", "com", "a.com.", "org", "x.org.", "b.com", "x.a.com"],
    ),
    "types": (
        ["b.com", "c.b.com"],
        [rec("b.com.", 1), rec("b.com.", 2), txt("b.com.", "t"), txt("c.b.com.", "t"),
         R.DNSRecord("b.com.", T.A, R.A("192.0.2.1"), R.DNSClass.CH)],
        ["b.com", "c.b.com", "x.b.com"],
    ),
}


class Broken(Exception):
    pass


def broken(items):
    yield from items
    raise Broken


class Model:
    def __init__(self, names):
        self.zones = {}                                # norm -> zone key
        self.objs = {norm(n): [] for n in names}       # norm -> list of records

    def encloses(self, z, r):
        labels = norm(r.name)
        return r.name.endswith(".") and labels[:len(z)] == z

    def query(self, name, t):
        labels = norm(name)
        best = None
        for z in self.zones:
            if labels[:len(z)] == z and (best is None or len(z) > len(best)):
                best = z
        if best is None:
            return None, []
        return best, [r for r in self.objs[best] if norm(r.name) == labels and r.type == t]


def make_ops(names, recs):
    n = len(recs)
    ops = []
    for z in names:
        ops.append(("add", z))
        ops.append(("remove", z))
        for i in range(n):
            ops.append(("rec+", z, i))
        for i in range(n):
            ops.append(("rec-", z, i))
        ops.append(("zreplace", z, (), False))
        ops.append(("zreplace", z, tuple(range(n)), False))
        ops.append(("zreplace", z, (0, 1), False))
        ops.append(("zreplace", z, (1,), True))
    ops.append(("sreplace", (), False))
    ops.append(("sreplace", ((names[0], ()),), False))
    ops.append(("sreplace", tuple((z, ()) for z in names[1:]), False))
    for i in range(n):
        ops.append(("sreplace", ((names[0], (i,)), (names[1], (n - 1 - i,))), False))
    ops.append(("sreplace", ((names[-1], ()), (names[0], ())), True))
    return ops


def perform(store, objs, m, recs, op, ch):
    kind = op[0]
    want = None
    if kind == "add":
        z = norm(op[1])
        want = ValueError if z in m.zones else None
        if want is None:
            m.zones[z] = True

        def do():
            store.add_zone(objs[z])
    elif kind == "remove":
        z = norm(op[1])
        want = None if z in m.zones else ValueError
        m.zones.pop(z, None)

        def do():
            store.remove_zone(op[1])
    elif kind in ("rec+", "rec-"):
        z = norm(op[1])
        r = recs[op[2]]
        lst = m.objs[z]
        if kind == "rec+":
            if not m.encloses(z, r):
                want = ValueError
            elif r not in lst:
                lst.append(r)

            def do():
                objs[z].add_record(r)
        else:
            if r in lst:
                lst.remove(r)

            def do():
                objs[z].remove_record(r)
    elif kind == "zreplace":
        z = norm(op[1])
        new = [recs[i] for i in op[2]]
        if not all(m.encloses(z, r) for r in new):
            want = ValueError
        elif op[3]:
            want = Broken
        else:
            m.objs[z] = list(new)

        def do():
            objs[z].replace(broken(new) if op[3] else new)
    else:
        data = {}
        flat = [(norm(name), [recs[i] for i in idx]) for name, idx in op[1]]
        for j, (name, idx) in enumerate(op[1]):
            v = [recs[i] for i in idx]
            data[name] = broken(v) if op[2] and j == len(op[1]) - 1 else iter(v)
        for z, v in flat:
            if not all(m.encloses(z, r) for r in v):
                want = ValueError
                break
        else:
            if op[2]:
                want = Broken
            else:
                m.zones = {z: True for z, _ in flat}
                for z, v in flat:
                    m.objs[z] = list(v)

        def do():
            store.replace(data)
            for name, _ in op[1]:
                objs[norm(name)] = store.get_zone(name)
    try:
        do()
        got = None
    except Exception as e:
        got = type(e)
    if got is not want:
        raise Violation("%r: expected %s, got %s" % (
            op, want and want.__name__, got and got.__name__), "op-result")


def check(store, objs, m, names, queries, recs):
    seen = []
    for z in names:
        k = norm(z)
        want = objs[k] if k in m.zones else None
        for form in (z, z.rstrip(".") + ".", z.upper()):
            got = store.get_zone(form)
            if got is not want:
                raise Violation("get_zone(%r) is %r" % (form, got), "get-zone")
        for r in recs:
            got = list(objs[k].get_records(r.name, r.type))
            exp = [x for x in m.objs[k] if norm(x.name) == norm(r.name) and x.type == r.type]
            same(got, exp, "zone %r record %r" % (z, r.name))
    for q in queries:
        best, _ = m.query(q, T.A)
        got = store.get_zone_for_name(q)
        if got != best:
            raise Violation("zone for %r is %r, expected %r" % (q, got, best), "zone-for-name")
        for t in (T.A, T.TXT, T.AAAA):
            got = list(store.query(q, t))
            exp = m.query(q, t)[1]
            same(got, exp, "query %r %s" % (q, t.name))
            seen.append(len(got))
    return tuple(seen)


def same(got, exp, what):
    def k(rs):
        return sorted(repr((r.name, int(r.type), int(r.cls), r.data)) for r in rs)
    if k(got) != k(exp):
        raise Violation("%s: got %r, expected %r" % (what, k(got), k(exp)), "records")


def history(ch, uni, prepared, depth):
    names, recs, queries = UNIVERSES[uni]
    store = DNSStore()
    objs = {norm(n): DNSZone(n) for n in names}
    m = Model(names)
    ops = make_ops(names, recs)
    for op in prepared:
        perform(store, objs, m, recs, op, ch)
    for _ in range(depth):
        i = ch.pick(range(len(ops)), "op")
        perform(store, objs, m, recs, ops[i], ch)
        ch.observe(*map(repr, ops[i]))
    return check(store, objs, m, names, queries, recs)


# ---- record types

N = "n.b.com."
TYPES = {
    "A": (R.A.create, dict(name=N, ip="192.0.2.1"), dict(ip="192.0.2.2")),
    "AAAA": (R.AAAA.create, dict(name=N, ipv6="2001:db8::1"), dict(ipv6="2001:db8::2")),
    "CNAME": (R.CNAME.create, dict(name=N, label="a.b.com."), dict(label="c.b.com.")),
    "NS": (R.NS.create, dict(name=N, label="a.b.com."), dict(label="c.b.com.")),
    "PTR": (R.PTR.create, dict(name=N, label="a.b.com."), dict(label="c.b.com.")),
    "DNAME": (R.DNAME.create, dict(name=N, label="a.b.com."), dict(label="c.b.com.")),
    "MX": (R.MX.create, dict(name=N, exchange="a.b.com.", preference=1),
           dict(exchange="c.b.com.", preference=2)),
    "TXT": (R.TXT.create, dict(name=N, text="a"), dict(text="b")),
    "SOA": (R.SOA.create, dict(name=N, mname="a.b.", rname="r.b.", serial=1, refresh=2, retry=3,
                               expire=4, minimum=5),
            dict(mname="c.b.", rname="d.b.", serial=9, refresh=9, retry=9, expire=9, minimum=9)),
    "SRV": (R.SRV.create, dict(name=N, priority=1, weight=2, port=80, target="a.b."),
            dict(priority=2, weight=3, port=81, target="c.b.")),
    "CAA": (R.CAA.create, dict(name=N, flags=0, tag="issue", value="a.b"),
            dict(flags=1, tag="issuewild", value="c.b")),
    "NAPTR": (R.NAPTR.create, dict(name=N, order=1, preference=2, flags="S", service="SIP",
                                   regexp="", replacement="a.b."),
              dict(order=2, preference=3, flags="U", service="X", regexp="!a!b!",
                   replacement="c.b.")),
    "DS": (R.DS.create, dict(name=N, key_tag=1, algorithm=5, digest_type=1, digest="abc"),
           dict(key_tag=2, algorithm=6, digest_type=2, digest="abd")),
    "DNSKEY": (R.DNSKEY.create, dict(name=N, flags=256, protocol=3, algorithm=5, key="abc"),
               dict(flags=257, protocol=4, algorithm=6, key="abd")),
    "RRSIG": (R.RRSIG.create, dict(name=N, type_covered=T.A, algorithm=5, labels=2,
                                   original_ttl=300, expiration=2000, inception=1000, key_tag=1,
                                   signer="a.b.", signature="abc"),
              dict(type_covered=T.TXT, algorithm=6, labels=3, original_ttl=301, expiration=2001,
                   inception=1001, key_tag=2, signer="c.b.", signature="abd")),
    "NSEC": (R.NSEC.create, dict(name=N, next_domain="a.b.", rrtypes=[T.A, T.TXT]),
             dict(next_domain="c.b.", rrtypes=[T.A])),
    "HTTPS": (R.HTTPS.create, dict(name=N, priority=1, target="a.b.", params=["alpn=h2"]),
              dict(priority=2, target="c.b.", params=["alpn=h3"])),
    "LOC": (R.LOC.create, dict(name=N, latitude=1.5, longitude=2.5, altitude=10.0, size=1.0,
                               h_precision=2.0, v_precision=3.0),
            dict(latitude=2.5, longitude=3.5, altitude=11.0, size=2.0, h_precision=3.0,
                 v_precision=4.0)),
    "RP": (R.RP.create, dict(name=N, mbox="a.b.", txt="t.b."), dict(mbox="c.b.", txt="u.b.")),
    "TLSA": (R.TLSA.create, dict(name=N, usage=1, selector=1, mtype=1, cert="abc"),
             dict(usage=2, selector=0, mtype=2, cert="abd")),
    "SSHFP": (R.SSHFP.create, dict(name=N, algorithm=1, fptype=1, fingerprint="abc"),
              dict(algorithm=2, fptype=2, fingerprint="abd")),
}


def record_types(ch, name, depth):
    """Records of one type which differ in one argument each, in a zone."""
    create, base, other = TYPES[name]
    variants = [dict(base)] + [dict(base, **{k: v}) for k, v in other.items()]
    variants.append(dict(base, ttl=7))             # the same record
    zone = DNSZone("b.com")
    store = DNSStore()
    store.add_zone(zone)
    ids = list(range(len(variants)))
    last = ids[-1]
    live = []
    for _ in range(depth):
        i = ch.pick(ids, "record")
        op = ch.pick(("add", "remove", "replace"), "op")
        r = create(**variants[i])
        v = 0 if i == last else i
        if op == "add":
            zone.add_record(r)
            if v not in live:
                live.append(v)
        elif op == "remove":
            zone.remove_record(r)
            if v in live:
                live.remove(v)
        else:
            zone.replace([r, create(**variants[0])])
            live = sorted({0, v})
        ch.observe(op, i)
    got = store.query(N, T[name])
    exp = [create(**variants[v]) for v in live]
    if len(got) != len(exp) or any(sum(g == e for g in got) != 1 for e in exp):
        raise Violation("got %r, expected %r" % (got, exp), "record-identity")
    for g in got:
        if g.type != T[name] or g.name != N:
            raise Violation("%r" % (g,), "record-fields")
    return len(got)


def units(tier):
    deep = tier == "thorough"

    def hist(uni, prepared, depth):
        return lambda ch: history(ch, uni, prepared, depth)

    for uni, (names, recs, _) in UNIVERSES.items():
        prep = {
            "empty": (),
            "all": tuple(("add", z) for z in names),
            "full": tuple(("add", z) for z in names) + tuple(
                ("rec+", z, i) for z in names for i, r in enumerate(recs)
                if Model(names).encloses(norm(z), r)),
        }
        for p, ops in prep.items():
            for d in (1, 2):
                yield Unit("%s after %s: %d" % (uni, p, d), hist(uni, ops, d), weight=10 ** d)
            if deep:
                for i, op in enumerate(make_ops(names, recs)):
                    yield Unit("%s after %s, op %d: 2 more" % (uni, p, i),
                               hist(uni, ops + (op,), 2), weight=100)
        # every order of adding and removing zones, records present
        if deep or uni in ("nested", "gap", "root"):
            yield Unit("%s zones" % uni, zones_only(uni, 6 if deep else 5), weight=1500)

    def rt(name, depth):
        return lambda ch: record_types(ch, name, depth)
    for name in TYPES:
        for d in (1, 2, 3) if deep else (1, 2):
            yield Unit("record type %s: %d" % (name, d), rt(name, d), weight=d * 3)


def zones_only(uni, depth):
    names, recs, queries = UNIVERSES[uni]

    def run(ch):
        store = DNSStore()
        objs = {norm(n): DNSZone(n) for n in names}
        m = Model(names)
        for z in names:
            for i, r in enumerate(recs):
                if m.encloses(norm(z), r):
                    perform(store, objs, m, recs, ("rec+", z, i), ch)
        for _ in range(depth):
            op = ch.pick([(k, z) for z in names for k in ("add", "remove")], "op")
            perform(store, objs, m, recs, op, ch)
            ch.observe(*op)
        return check(store, objs, m, names, queries, recs)
    return run
