"""Helpers of the demonstrations: a tiny CoAP codec over UDP and programs built from the tree in the current folder."""
import atexit, os, random, shutil, socket, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo.")
PROCS = []
@atexit.register
def _clean():
    for p in PROCS:
        p.kill(); p.wait()
    shutil.rmtree(TMP, ignore_errors=True)
CON, NON, ACK, RST = 0, 1, 2, 3
def build(out, src, libs, flags=()):
    cmd = ["gcc", "-g", "-O1", "-w", *flags, "-Ilib/include", "-o", os.path.join(TMP, out), os.path.join(HERE, src)] + libs
    if subprocess.call(cmd) != 0:
        print("cannot build the demonstration"); sys.exit(2)
    return os.path.join(TMP, out)
LIB = ["lib/src/coap_msg.c", "lib/src/coap_mem.c", "lib/src/coap_log.c"]
def freeport():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def server(large=256, flags=()):
    b = build("srv", "srv.c", LIB + ["lib/src/coap_server.c"], flags); port = freeport()
    p = subprocess.Popen([b, str(port), str(large)], stdout=subprocess.PIPE, text=True); PROCS.append(p)
    assert p.stdout.readline().strip() == "READY"
    os.set_blocking(p.stdout.fileno(), False)
    return p, port
def output(p):
    try:
        return os.read(p.stdout.fileno(), 65536).decode()
    except BlockingIOError:
        return ""
def client(*args, flags=(), port):
    b = os.path.join(TMP, "cli")
    if not os.path.exists(b):
        build("cli", "cli.c", LIB + ["lib/src/coap_client.c"], flags)
    p = subprocess.Popen([b, str(port), *map(str, args)], stdout=subprocess.PIPE, text=True); PROCS.append(p)
    return p
def opts(l):
    o, prev = b"", 0
    for num, val in l:
        d, n = num - prev, len(val); prev = num
        f = lambda x: (x, b"") if x < 13 else (13, bytes([x - 13])) if x < 269 else (14, (x - 269).to_bytes(2, "big"))
        (a, ax), (c, cx) = f(d), f(n)
        o += bytes([a << 4 | c]) + ax + cx + val
    return o
def msg(type, code, mid, tok=b"", ops=(), pl=b""):
    c, d = code
    return bytes([0x40 | type << 4 | len(tok), c << 5 | d]) + mid.to_bytes(2, "big") + tok + opts(list(ops)) + (b"\xff" + pl if pl else b"")
def parse(b):
    class M: pass
    m = M(); m.type = b[0] >> 4 & 3; n = b[0] & 15; m.code = (b[1] >> 5, b[1] & 31); m.mid = b[2] << 8 | b[3]; m.tok = b[4:4 + n]
    p, num, m.ops, m.pl = 4 + n, 0, [], b""
    while p < len(b):
        if b[p] == 255:
            m.pl = b[p + 1:]; break
        d, l = b[p] >> 4, b[p] & 15; p += 1
        if d == 13: d = 13 + b[p]; p += 1
        elif d == 14: d = 269 + (b[p] << 8 | b[p + 1]); p += 2
        if l == 13: l = 13 + b[p]; p += 1
        elif l == 14: l = 269 + (b[p] << 8 | b[p + 1]); p += 2
        num += d; m.ops.append((num, b[p:p + l])); p += l
    m.raw = b
    return m
def block(num, more, size):
    v = num << 4 | (8 if more else 0) | (size.bit_length() - 5)
    return v.to_bytes(3, "big")
def blk(m, num):
    for n, v in m.ops:
        if n == num:
            x = int.from_bytes(v, "big"); return x >> 4, x >> 3 & 1, 16 << (x & 7)
    return None
class Ep:
    def __init__(self, port, bind=("127.0.0.1", 0)):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); self.s.bind(bind); self.dst = ("127.0.0.1", port)
        self.addr = self.s.getsockname()
    def send(self, b, to=None): self.s.sendto(b, to or self.dst)
    def recv(self, timeout=1.0):
        self.s.settimeout(timeout)
        try:
            b, self.peer = self.s.recvfrom(4096)
        except (socket.timeout, ConnectionError):
            return None
        return parse(b)
    def ask(self, b, timeout=1.0):
        self.send(b); return self.recv(timeout)
PATH = lambda *s: [(11, x.encode()) for x in s]
def check(ok, what):
    if not ok:
        print("FAILED: " + what); sys.exit(1)
