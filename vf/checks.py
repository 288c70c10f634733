"""One function per property."""
import argparse
import json
import os
import sys
import traceback

from . import core
from . import gen_msg as gm
from . import gen_mem as gmem
from . import gen_srv as gs
from . import gen_cli as gc
from . import gen_sys as gy
from . import gen_http as gh
from . import gen_uri as gu
from . import gen_cross as gx
from . import gen_proxy as gp
from . import gen_config as gf
from . import gen_reg as gr
from . import gen_dtls as gd
from . import gen_tls as gt
from . import gen_listen as gl

H = {}


def prop(pid, level="model_checking", assumptions=()):
    def deco(f):
        H[pid] = (f, level, list(assumptions))
        return f
    return deco


def many(n, f, *a, **k):
    return [f(*a, **k) for _ in range(n)]


MSG_SRC = ["lib/src/coap_msg.c", "lib/src/coap_mem.c", "lib/src/coap_log.c"]


def b_msg(ctx):
    return core.build(ctx, "msg", ["h_msg.c"], MSG_SRC)


@prop("P01")
def p01(ctx):
    b = b_msg(ctx)
    r = ctx.rng("parse")
    gen = core.generate(ctx, "CodecGen", "CodecGen%d.cfg" % ctx.n(3, 4))
    dg = [bytes(x) for x in gen]
    core.conform(ctx, "tlc-enumerated", b, "CodecTrace", gm.parse_scenarios(dg))
    core.conform(ctx, "random", b, "CodecTrace", gm.parse_scenarios(gm.datagrams(r, ctx.n(6000, 60000)), 150))
    core.conform(ctx, "large", b, "CodecTrace", gm.parse_scenarios(gm.big_datagrams(r), 10))


@prop("P02")
def p02(ctx):
    b = b_msg(ctx)
    r = ctx.rng("api")
    core.conform(ctx, "api-histories", b, "CodecTrace", [gm.api_scenario(r) for _ in range(ctx.n(500, 6000))])
    core.conform(ctx, "tight-buffers", b, "CodecTrace", gm.tight_fmt_scenarios())
    core.conform(ctx, "reformat", b, "CodecTrace", gm.parse_scenarios(gm.datagrams(r, ctx.n(1500, 15000)), 100))


@prop("P03")
def p03(ctx):
    b = b_msg(ctx)
    r = ctx.rng("block")
    core.model_check(ctx, "BlockMC", ctx.n("BlockMC.cfg", "BlockMCBig.cfg"), "every block value round-trips")
    core.conform(ctx, "block-values", b, "CodecTrace", gm.block_scenarios(r, ctx.n(1500, 20000)))


@prop("P05")
def p05(ctx):
    b = core.build(ctx, "mem", ["h_mem.c"], ["lib/src/coap_mem.c"])
    r = ctx.rng("mem")
    core.model_check(ctx, "MemPoolMC", "MemPoolMC.cfg", "one pool, all allocation/free orders")
    core.conform(ctx, "histories", b, "MemPoolTrace", [gmem.scenario(r, r.choice([20, 60, 150])) for _ in range(ctx.n(300, 4000))])
    core.conform(ctx, "exhaustion", b, "MemPoolTrace", sum((gmem.exhaust(n) for n in (8, 16, 24, 64)), []))


# ---------------------------------------------------------------- client
def b_cli(ctx):
    return core.build(ctx, "cli", ["h_cli.c", "vnet.c"], MSG_SRC + ["lib/src/coap_client.c"], wraps=core.VN_WRAPS)


def cli(ctx, family, scns):
    core.conform(ctx, family, b_cli(ctx), "ClientTrace", scns, post=gc.post)


def cli_model(ctx):
    core.model_check(ctx, "ClientMC", "ClientMCb.cfg", "client design: two exchanges, one arbitrary datagram")
    if ctx.thorough:
        core.model_check(ctx, "ClientMC", "ClientMCMid.cfg", "client design: two exchanges, two arbitrary datagrams")
        core.model_check(ctx, "ClientMC", "ClientMCBig.cfg", "client design: one exchange, three arbitrary datagrams")


def cli_seq(ctx):
    cli(ctx, "tlc-sequences", gc.sequences(core.generate(ctx, "SeqGen", "SeqGen12x%d.cfg" % ctx.n(3, 4))))


@prop("P07")
def p07(ctx):
    r = ctx.rng("retransmit")
    cli_model(ctx)
    cli(ctx, "timeouts", many(ctx.n(300, 4000), gc.timeouts, r))
    cli(ctx, "exchanges", many(ctx.n(200, 2000), gc.exchanges, r, None, 0.3))
    cli(ctx, "faults", many(ctx.n(100, 1000), gc.exchanges, r, None, 0.3, 0.9))
    cli_seq(ctx)


@prop("P08")
def p08(ctx):
    r = ctx.rng("match")
    cli_model(ctx)
    cli_seq(ctx)
    cli(ctx, "exchanges", many(ctx.n(500, 6000), gc.exchanges, r, None, 0.6))
    cli(ctx, "faults", many(ctx.n(100, 1000), gc.exchanges, r, None, 0.5, 0.8))
    cli(ctx, "invalid", [gc.invalid(r)])
    cli(ctx, "blockwise", many(ctx.n(60, 600), gc.upload, r) + many(ctx.n(60, 600), gc.download, r))


@prop("P09")
def p09(ctx):
    r = ctx.rng("up")
    cli(ctx, "upload", many(ctx.n(600, 8000), gc.upload, r))
    cli(ctx, "every-deviation", gc.deviations(r, gc.upload, 13, ctx.n(4, 30)))


@prop("P10")
def p10(ctx):
    r = ctx.rng("down")
    cli(ctx, "download", many(ctx.n(600, 8000), gc.download, r))
    cli(ctx, "every-deviation", gc.deviations(r, gc.download, 14, ctx.n(4, 30)))
    cli(ctx, "upload-with-response-body", many(ctx.n(250, 2500), gc.upload, r))


# ---------------------------------------------------------------- server
def b_srv(ctx):
    return core.build(ctx, "srv", ["h_srv.c", "vnet.c"], MSG_SRC + ["lib/src/coap_server.c"], wraps=core.VN_WRAPS)


def srv(ctx, family, scns):
    core.conform(ctx, family, b_srv(ctx), "ServerTrace", scns, post=gs.post)


def srv_model(ctx):
    core.model_check(ctx, "ServerMC", "ServerMC.cfg", "server design: one-entry table")
    if ctx.thorough:
        core.model_check(ctx, "ServerMC", "ServerMCMid.cfg", "server design: two-entry table, three endpoints")
        core.model_check(ctx, "ServerMC", "ServerMCBig.cfg", "server design: four inputs, six requests, full retransmission schedule")


def srv_seq(ctx, pick=None):
    seqs = core.generate(ctx, "SeqGen", "SeqGen14x%d.cfg" % ctx.n(3, 4))
    srv(ctx, "tlc-sequences", gs.sequences(q for q in seqs if pick is None or pick & set(q)))


@prop("P11")
def p11(ctx):
    r = ctx.rng("dedup")
    srv_model(ctx)
    srv_seq(ctx, {1})
    srv(ctx, "mixed", many(ctx.n(250, 3000), gs.mixed, r, 2, 16))
    srv(ctx, "upload", many(ctx.n(100, 1000), gs.upload, r))
    srv(ctx, "separate", many(ctx.n(60, 600), gs.separate, r))


@prop("P12")
def p12(ctx):
    r = ctx.rng("match")
    srv_model(ctx)
    srv(ctx, "mixed", many(ctx.n(300, 3000), gs.mixed, r, 4, 20, noise=0.1))
    srv(ctx, "separate", many(ctx.n(80, 800), gs.separate, r))
    srv(ctx, "download", many(ctx.n(80, 800), gs.download, r, 2))
    srv(ctx, "upload", many(ctx.n(80, 800), gs.upload, r, 0.0, 2))


@prop("P13")
def p13(ctx):
    r = ctx.rng("sep")
    srv_model(ctx)
    srv_seq(ctx, {2, 11})
    srv(ctx, "separate", many(ctx.n(300, 3000), gs.separate, r))
    srv(ctx, "mixed", many(ctx.n(100, 1000), gs.mixed, r, 3, 14, 0.1))


@prop("P14")
def p14(ctx):
    r = ctx.rng("table")
    srv_model(ctx)
    srv(ctx, "evict", many(ctx.n(300, 3000), gs.evict, r))
    srv(ctx, "many-endpoints", many(ctx.n(100, 1000), gs.mixed, r, 11, 40, noise=0.15))
    srv(ctx, "transfers-side-by-side", many(ctx.n(60, 600), gs.upload, r, 0.0, 3))


@prop("P15")
def p15(ctx):
    r = ctx.rng("robust")
    srv_seq(ctx, {7, 10, 13})
    srv(ctx, "noise", many(ctx.n(250, 2500), gs.mixed, r, 3, 20, 0.25, noise=0.5))
    srv(ctx, "separate", many(ctx.n(80, 800), gs.separate, r))
    srv(ctx, "upload-faults", many(ctx.n(80, 800), gs.upload, r, 0.15))
    srv(ctx, "download", many(ctx.n(60, 600), gs.download, r))


@prop("P16")
def p16(ctx):
    r = ctx.rng("crit")
    srv(ctx, "critical", many(ctx.n(250, 2500), gs.critical, r))
    srv(ctx, "mixed", many(ctx.n(100, 1000), gs.mixed, r, 3, 14, 0.0, crit=0.4))
    srv(ctx, "upload", many(ctx.n(60, 600), gs.upload, r))
    srv(ctx, "every-option", gs.every_option(ctx.n(300, 3000)))


@prop("P17")
def p17(ctx):
    r = ctx.rng("up")
    srv(ctx, "upload", many(ctx.n(350, 4000), gs.upload, r))
    srv(ctx, "every-deviation", gs.deviations(r, (gs.upload, 15), ctx.n(3, 30)))
    srv(ctx, "upload-faults", many(ctx.n(80, 800), gs.upload, r, 0.1))
    srv(ctx, "side-by-side", many(ctx.n(60, 600), gs.upload, r, 0.0, 3))


@prop("P18")
def p18(ctx):
    r = ctx.rng("down")
    srv(ctx, "download", many(ctx.n(350, 4000), gs.download, r))
    srv(ctx, "every-deviation", gs.deviations(r, (gs.download, 11), ctx.n(3, 30)))
    srv(ctx, "side-by-side", many(ctx.n(60, 600), gs.download, r, 3))
    srv(ctx, "upload-with-response-body", many(ctx.n(120, 1200), gs.upload, r))


# ---------------------------------------------------------------- client, network and server together
def b_sys(ctx):
    return core.build(ctx, "sys", ["h_sys.c", "vnet.c"], MSG_SRC + ["lib/src/coap_client.c", "lib/src/coap_server.c"],
                      wraps=core.VN_WRAPS + core.MEM_WRAPS)


@prop("P06")
def p06(ctx):
    r = ctx.rng("resources")
    b = b_sys(ctx)
    kinds = [["con"], ["sep"], ["non", "con"], ["up"], ["down"], ["up", "sep"], ["down", "con"]]
    bases = [gy.fault_base(r, k) for k in kinds * ctx.n(1, 6)]
    n = [0] * len(bases)
    for x in core.execute(b, list(enumerate(bases)), os.path.join(ctx.dir, "count.ndjson")):
        n[x["scn"]] += x["k"] == "al"
    one = [c + ["memfail %d" % k] for i, c in enumerate(bases) for k in range(1, min(n[i], 90) + 1)]
    one += [c + ["sysfail %d" % k] for c in bases[:len(kinds)] for k in range(1, 45)]
    two = []
    for _ in range(ctx.n(250, 4000)):
        i = r.randrange(len(bases))
        k = r.randrange(3, max(4, n[i]))
        two.append(bases[i] + ["memfail " + " ".join(str(k + j) for j in sorted(r.sample(range(12), r.choice([2, 3, 5, 9]))))])
    for name, scns in (("every-single-fault", one), ("bursts-of-faults", two)):
        core.conform(ctx, name, b, "ResTrace", scns, post=gy.res_post)
        core.conform(ctx, name + "-service", b, "SystemTrace", scns, post=gy.sys_post)
    tame = [["ledger"] + gy.tame(r, 2, 4) for _ in range(ctx.n(60, 800))]
    wild = [["ledger"] + gy.wild(r, 2, 4) for _ in range(ctx.n(60, 800))]
    small = [["ledger", "mem %d %d %d 256" % (r.choice([8, 16, 24]), r.choice([8, 16, 24]), 8)] + gy.wild(r, 3, 4) for _ in range(ctx.n(60, 800))]
    core.conform(ctx, "no-faults", b, "ResTrace", tame + wild, post=gy.res_post)
    core.conform(ctx, "small-pools", b, "ResTrace", small, post=gy.res_post)


@prop("P19")
def p19(ctx):
    r = ctx.rng("system")
    core.model_check(ctx, "SystemMC", "SystemMC.cfg", "client, network and server: three operations, no replay of old datagrams")
    if ctx.thorough:
        core.model_check(ctx, "SystemMC", "SystemMCWild.cfg", "client, network and server: two operations, network never forgets")
    b = b_sys(ctx)

    def fam(name, scns):
        core.conform(ctx, name, b, "SystemTrace", scns, post=gy.sys_post)
        core.conform(ctx, name + "-client", b, "ClientTrace", scns, post=gy.cli_post)
        core.conform(ctx, name + "-server", b, "ServerTrace", scns, post=gy.srv_post)
    seqs = core.generate(ctx, "SeqGen", "SeqGen3x%d.cfg" % ctx.n(4, 6))
    core.conform(ctx, "every-fate", b, "SystemTrace", gy.fates(r, seqs), post=gy.sys_post)
    fam("tame", many(ctx.n(150, 2000), gy.tame, r))
    fam("clients-side-by-side", many(ctx.n(40, 500), gy.tame, r, 3, 4))
    fam("replaying-network", many(ctx.n(80, 1000), gy.wild, r, 2, 4))


# ---------------------------------------------------------------- the proxy's libraries
COMMON = "proxy/common/src/"


def b_http(ctx):
    return core.build(ctx, "http", ["h_http.c"], [COMMON + "http_msg.c", COMMON + "util.c"], inc=core.PROXY_INC)


@prop("P20")
def p20(ctx):
    r = ctx.rng("http")
    b = b_http(ctx)
    core.conform(ctx, "tlc-enumerated", b, "HttpTrace", gh.parses(gh.tokens(core.generate(ctx, "SeqGen", "SeqGen12x%d.cfg" % ctx.n(3, 4))), 100))
    core.conform(ctx, "every-prefix", b, "HttpTrace", gh.parses(gh.prefixes(r, ctx.n(40, 500))))
    core.conform(ctx, "random", b, "HttpTrace", gh.parses(gh.random_parses(r, ctx.n(400, 5000))))


@prop("P21")
def p21(ctx):
    r = ctx.rng("httpgen")
    core.conform(ctx, "generate", b_http(ctx), "HttpTrace", [gh.gen_scenario(r) for _ in range(ctx.n(60, 800))])


@prop("P22")
def p22(ctx):
    r = ctx.rng("uri")
    b = core.build(ctx, "uri", ["h_uri.c"], [COMMON + "uri.c"], inc=core.PROXY_INC)
    gen = core.generate(ctx, "UriMC", ctx.n("UriMC.cfg", "UriMC4.cfg"))
    core.conform(ctx, "tlc-enumerated", b, "UriTrace", gu.parsed([bytes(x) for x in gen], r, 60, 0))
    core.conform(ctx, "random", b, "UriTrace", gu.parsed([gu.uri(r) for _ in range(ctx.n(1500, 20000))], r, 40, 2))
    core.conform(ctx, "histories", b, "UriTrace", many(ctx.n(250, 3000), gu.history, r))
    core.conform(ctx, "every-buffer-size", b, "UriTrace", many(ctx.n(25, 300), gu.every_cap, r))


CROSS_SRC = [COMMON + x for x in ("cross.c", "http_msg.c", "uri.c", "util.c")] + ["lib/src/coap_msg.c", "lib/src/coap_mem.c", "lib/src/coap_log.c"]


@prop("P23")
def p23(ctx):
    r = ctx.rng("cross")
    b = core.build(ctx, "cross", ["h_cross.c"], CROSS_SRC, inc=core.PROXY_INC)
    core.model_check(ctx, "CrossMC", ctx.n("CrossMC.cfg", "CrossMC5.cfg"), "every request URI of a small alphabet maps to options and back")
    core.conform(ctx, "uri-to-options", b, "CrossTrace", gx.uris(r, [gx.coap_uri(r) for _ in range(ctx.n(1500, 15000))]))
    core.conform(ctx, "options-to-uri", b, "CrossTrace", gx.uriofs(r, ctx.n(900, 9000)))
    core.conform(ctx, "requests", b, "CrossTrace", gx.reqs(r, ctx.n(600, 6000)))
    core.conform(ctx, "responses", b, "CrossTrace", gx.resps(r, ctx.n(600, 6000)))
    core.conform(ctx, "every-response-code", b, "CrossTrace", gx.every_code(r))


def proxy_build(ctx):
    return core.build(ctx, "proxy", ["h_proxy.c"], PROXY_SRC, inc=core.PROXY_INC, defs=["COAP_DTLS_EN"], wraps=core.HEAP_WRAPS + ["select", "pthread_sigmask"])


PROXY_SRC = ["proxy/http_coap/src/connection.c", COMMON + "data_buf.c", COMMON + "thread.c"] + CROSS_SRC


@prop("P24")
def p24(ctx):
    r = ctx.rng("proxy")
    b = proxy_build(ctx)
    core.model_check(ctx, "ProxyMC", ctx.n("ProxyMC.cfg", "ProxyMC3.cfg"), "requests cut into pieces anywhere, against all outcomes")
    core.conform(ctx, "connections", b, "ProxyTrace", gp.conns(r, ctx.n(400, 4000)))
    d = core.build(ctx, "dbuf", ["h_dbuf.c"], [COMMON + "data_buf.c"], inc=core.PROXY_INC, wraps=core.HEAP_WRAPS)
    core.conform(ctx, "byte-buffers", d, "DataBuf", gp.buffers(r, ctx.n(300, 5000)))
    core.conform(ctx, "targets", b, "ProxyTrace", gp.targets(r))
    core.conform(ctx, "sizes", b, "ProxyTrace", gp.sizes(r, ctx.tier == "thorough"))


@prop("P25")
def p25(ctx):
    r = ctx.rng("proxyres")
    b = proxy_build(ctx)

    def count_of(cmds):
        tr = os.path.join(ctx.dir, "count.ndjson")
        ls = core.execute(b, [(0, cmds)], tr)
        os.unlink(tr)
        return next((x["count"] for x in ls if x["k"] == "fin"), 200)
    core.conform(ctx, "heap-failures", b, "ProxyRes", gp.faults(r, count_of, ctx.tier == "thorough"))


@prop("P26")
def p26(ctx):
    r = ctx.rng("config")
    b = core.build(ctx, "config", ["h_config.c"], [COMMON + "config.c", COMMON + "util.c", "proxy/http_coap/src/param.c", "lib/src/coap_log.c"], inc=core.PROXY_INC, wraps=core.HEAP_WRAPS)
    gen = core.generate(ctx, "ConfigMC", ctx.n("ConfigMC.cfg", "ConfigMC4.cfg"))
    core.conform(ctx, "tlc-enumerated", b, "ConfigTrace", gf.texts([bytes(x) for x in gen]))
    core.conform(ctx, "random-texts", b, "ConfigTrace", gf.texts([gf.text(r) for _ in range(ctx.n(1000, 10000))], 1, r))
    core.conform(ctx, "every-length", b, "ConfigTrace", gf.lengths(r, ctx.tier == "thorough"))
    core.conform(ctx, "histories", b, "ConfigTrace", many(ctx.n(300, 3000), gf.history, r))
    core.conform(ctx, "parameters", b, "ConfigTrace", gf.params(r, ctx.n(300, 3000)))


@prop("P27")
def p27(ctx):
    r = ctx.rng("registrar")
    b = core.build(ctx, "reg", ["h_reg.c"], ["sample/reg_server/registrar.c"], inc=["lib/include", "sample/reg_server"], wraps=core.HEAP_WRAPS)
    gen = core.generate(ctx, "RegistrarMC", ctx.n("RegistrarMC.cfg", "RegistrarMC6.cfg"))
    core.conform(ctx, "tlc-enumerated", b, "RegistrarTrace", [gr.from_history(h) for h in gen])
    core.conform(ctx, "random", b, "RegistrarTrace", many(ctx.n(200, 3000), gr.random, r))


# ---------------------------------------------------------------- the library built with DTLS, over a stand-in for GnuTLS
def b_dtls(ctx, name, harness, sources, auth=False):
    return core.build(ctx, name, harness + ["vnet.c", "fgnutls.c"], MSG_SRC + ["lib/src/%s.c" % x for x in sources],
                      defs=["COAP_DTLS_EN"] + (["COAP_CLIENT_AUTH"] if auth else []), wraps=core.VN_WRAPS)


def dsrv(ctx, family, scns, auth):
    b = b_dtls(ctx, "dsrva" if auth else "dsrv", ["h_srv.c"], ["coap_server"], auth)
    core.conform(ctx, family + ("-auth" if auth else ""), b, "DtlsServerTrace", scns, post=gd.srv_post)


@prop("P28")
def p28(ctx):
    r = ctx.rng("dtls")
    b = b_dtls(ctx, "dtls", ["h_dtls.c"], ["coap_client", "coap_server"])
    core.model_check(ctx, "DtlsMC", ctx.n("DtlsMC.cfg", "DtlsMCBig.cfg"), "handshakes and sessions of the server: three endpoints, two places")
    core.conform(ctx, "set-up", b, "DtlsTrace", gd.setup(r, ctx.n(300, 4000)))
    seqs = gd.sequences(core.generate(ctx, "SeqGen", "SeqGen12x%d.cfg" % ctx.n(3, 4)))
    dsrv(ctx, "tlc-sequences", seqs, True)
    for auth in (True, False):
        dsrv(ctx, "sessions", [gd.sessions(r, r.choice([1, 2, 3]), r.choice([1, 2, 3]), 24) for _ in range(ctx.n(300, 3000))], auth)
        dsrv(ctx, "crowd", [gd.crowd(r, r.choice([1, 1, 2])) for _ in range(ctx.n(60, 600))], auth)
        dsrv(ctx, "slow-handshakes", many(ctx.n(40, 400), gd.slow, r), auth)


@prop("P29")
def p29(ctx):
    r = ctx.rng("dtls")
    c = b_dtls(ctx, "dcli", ["h_cli.c"], ["coap_client"])
    s = b_dtls(ctx, "dsrva", ["h_srv.c"], ["coap_server"], True)
    n = ctx.n
    seq = core.generate(ctx, "SeqGen", "SeqGen12x3.cfg")
    core.conform(ctx, "client-sequences", c, "ClientTrace", gc.sequences(seq[::n(3, 1)]), post=gd.cli_post)
    ex = many(n(150, 1500), gc.exchanges, r, None, 0.5) + many(n(60, 600), gc.timeouts, r) + many(n(60, 600), gc.exchanges, r, None, 0.3, 0.8)
    bw = many(n(100, 1000), gc.upload, r) + many(n(100, 1000), gc.download, r)
    core.conform(ctx, "client-exchanges", c, "ClientTrace", ex, post=gd.cli_post)
    core.conform(ctx, "client-blockwise", c, "ClientTrace", bw, post=gd.cli_post)
    rec = [gd.cli_records(r, x) for x in many(n(250, 2500), gc.exchanges, r, None, 0.4) + many(n(40, 400), gc.upload, r) + many(n(40, 400), gc.download, r)]
    core.conform(ctx, "client-records", c, "ClientTrace", rec, post=gd.cli_post)
    core.conform(ctx, "server", s, "ServerTrace", many(n(150, 1500), gs.mixed, r, 3, 16) + many(n(60, 600), gs.separate, r)
                 + many(n(40, 400), gs.evict, r), post=gs.post)
    core.conform(ctx, "server-blockwise", s, "ServerTrace", many(n(80, 800), gs.upload, r) + many(n(80, 800), gs.download, r), post=gs.post)
    core.conform(ctx, "server-faults", s, "ServerTrace", many(n(100, 1000), gs.mixed, r, 3, 16, 0.25, noise=0.3), post=gs.post)
    dsrv(ctx, "server-records", [gd.sessions(r, 3, 1, 24, sep=True) for _ in range(n(150, 1500))], True)
    dsrv(ctx, "server-records-faults", [gd.sessions(r, 3, 1, 20, 0.2, sep=True) for _ in range(n(80, 800))], True)


# ---------------------------------------------------------------- the proxy's TLS sockets, over the same stand-in
TLS_WRAPS = ("socket setsockopt bind listen fcntl close shutdown connect getaddrinfo freeaddrinfo accept select poll sleep usleep time clock_gettime gettimeofday").split()


def b_tls(ctx, auth):
    return core.build(ctx, "tlsa" if auth else "tls", ["h_tls.c", "fgnutls.c"],
                      ["proxy/common/src/%s.c" % x for x in ("tls_sock", "tls", "sock", "util")] + ["lib/src/coap_log.c"],
                      inc=core.PROXY_INC, defs=["TLS_CLIENT_AUTH"] if auth else [], wraps=TLS_WRAPS)


@prop("P30")
def p30(ctx):
    r = ctx.rng("tls")
    core.model_check(ctx, "TlsMC", ctx.n("TlsMC.cfg", "TlsMCBig.cfg"), "the life of a TLS socket and its deadlines")
    seqs = core.generate(ctx, "SeqGen", "SeqGen8x%d.cfg" % ctx.n(3, 4))
    for auth in (True, False):
        b = b_tls(ctx, auth)
        a = "-auth" if auth else ""
        core.conform(ctx, "set-up" + a, b, "TlsTrace", gt.setup(r, ctx.n(400, 4000)))
        core.conform(ctx, "streams" + a, b, "TlsTrace", many(ctx.n(400, 4000), gt.streams, r))
    core.conform(ctx, "tlc-sequences", b, "TlsTrace", gt.letters(seqs))


@prop("P31")
def p31(ctx):
    r = ctx.rng("tls")
    b = b_tls(ctx, True)
    core.model_check(ctx, "TlsCacheMC", ctx.n("TlsCacheMC.cfg", "TlsCacheMCBig.cfg"), "a ring of three places against the contract of the store")
    core.conform(ctx, "tlc-histories", b, "TlsTrace", gt.store(core.generate(ctx, "SeqGen", "SeqGen12x%d.cfg" % ctx.n(3, 4))))
    core.conform(ctx, "histories", b, "TlsTrace", many(ctx.n(150, 1500), gt.caches, r))
    core.conform(ctx, "sweeps", b, "TlsTrace", many(ctx.n(40, 400), gt.sweep, r))
    core.conform(ctx, "resumption", b, "TlsTrace", many(ctx.n(150, 1500), gt.streams, r))
    core.conform(ctx, "concurrent", b, "TlsTrace", [["up", "race %d" % ctx.n(3000, 20000)]] * ctx.n(4, 16), tmo=60)


@prop("P32")
def p32(ctx):
    r = ctx.rng("listen")
    b = core.build(ctx, "listen", ["h_listen.c"], ["proxy/http_coap/src/listener.c", COMMON + "thread.c", "lib/src/coap_log.c"], inc=core.PROXY_INC,
                   wraps=core.HEAP_WRAPS + "pthread_create pthread_attr_init pthread_attr_setdetachstate pthread_attr_destroy pthread_sigmask".split())
    core.conform(ctx, "tlc-sequences", b, "ListenTrace", gl.sequences(core.generate(ctx, "SeqGen", "SeqGen8x%d.cfg" % ctx.n(3, 4))))
    core.conform(ctx, "histories", b, "ListenTrace", gl.random(r, ctx.n(600, 8000)))


@prop("P33")
def p33(ctx):
    """The IPv6 builds: same specifications, endpoints told apart by port, any part of the address or interface."""
    r = ctx.rng("ip6")
    n = ctx.n
    six = ["COAP_IP6"]
    s = core.build(ctx, "srv6", ["h_srv.c", "vnet.c"], MSG_SRC + ["lib/src/coap_server.c"], defs=six, wraps=core.VN_WRAPS)
    c = core.build(ctx, "cli6", ["h_cli.c", "vnet.c"], MSG_SRC + ["lib/src/coap_client.c"], defs=six, wraps=core.VN_WRAPS)
    y = core.build(ctx, "sys6", ["h_sys.c", "vnet.c"], MSG_SRC + ["lib/src/coap_client.c", "lib/src/coap_server.c"], defs=six, wraps=core.VN_WRAPS + core.MEM_WRAPS)
    d = core.build(ctx, "dsrv6", ["h_srv.c", "vnet.c", "fgnutls.c"], MSG_SRC + ["lib/src/coap_server.c"], defs=six + ["COAP_DTLS_EN", "COAP_CLIENT_AUTH"], wraps=core.VN_WRAPS)
    e = core.build(ctx, "dcli6", ["h_cli.c", "vnet.c", "fgnutls.c"], MSG_SRC + ["lib/src/coap_client.c"], defs=six + ["COAP_DTLS_EN"], wraps=core.VN_WRAPS)

    def fam(name, b, spec, scns, post):
        core.conform(ctx, name, b, spec, scns, post=post)
    fam("server-many-endpoints", s, "ServerTrace", many(n(80, 800), gs.mixed, r, 11, 40, noise=0.15) + many(n(80, 800), gs.mixed, r, 40, 40) + many(n(80, 800), gs.evict, r), gs.post)
    fam("server", s, "ServerTrace", many(n(100, 1000), gs.mixed, r, 3, 16, 0.1, noise=0.1) + many(n(60, 600), gs.separate, r) + many(n(40, 400), gs.upload, r, 0.0, 3)
        + many(n(40, 400), gs.download, r, 3), gs.post)
    fam("client", c, "ClientTrace", many(n(100, 1000), gc.exchanges, r, None, 0.5) + many(n(40, 400), gc.timeouts, r) + many(n(40, 400), gc.upload, r) + many(n(40, 400), gc.download, r), gc.post)
    fam("together", y, "SystemTrace", many(n(60, 600), gy.tame, r) + many(n(30, 300), gy.tame, r, 3, 4), gy.sys_post)
    fam("dtls-server", d, "DtlsServerTrace", [gd.sessions(r, k, 1, 24, sep=True) for k in (3, 3, 12) for _ in range(n(40, 400))], gd.srv_post)
    fam("dtls-client", e, "ClientTrace", many(n(60, 600), gc.exchanges, r, None, 0.4) + many(n(20, 200), gc.upload, r) + many(n(20, 200), gc.download, r), gd.cli_post)


def replay(path):
    """Print the scenario a check reported and re-run that property's check."""
    with open(path) as f:
        d = json.load(f)
    print("property %s, family %s, specification %s" % (d["property"], d["family"], d["spec"]))
    for c in d["commands"]:
        print("  > " + c[:400])
    for i, l in enumerate(d["trace"]):
        print(("*** " if i == d["rejected_line"] else "    ") + json.dumps(l)[:400])
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "replay", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args(argv)
    if a.what == "setup":
        return core.setup()
    if a.what == "replay":
        return replay(a.arg)
    f, level, assumptions = H[a.arg]
    ctx = core.Ctx(a.arg, "thorough" if a.tier == "thorough" else "quick", a.seed)
    try:
        f(ctx)
        return core.finish(ctx, level, assumptions)
    except core.ToolError as e:
        if ctx.violations:
            return core.finish(ctx, level, assumptions)
        print("TOOL-ERROR %s: %s" % (a.arg, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
