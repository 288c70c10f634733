SRV, CLI, MSG, MEM = "lib/src/coap_server.c", "lib/src/coap_client.c", "lib/src/coap_msg.c", "lib/src/coap_mem.c"
SEEDS = []


def S(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo="from kit import *\n" + demo, **k))


S("S01-endpoint-address", "P14", "two hosts using the same source port",
  "endpoints with the same port but different addresses share one transaction", [
      (SRV, "(memcmp(&trans->client_sin, client_sin, client_sin_len) == 0)",
       "(trans->client_sin.COAP_IPV_SIN_PORT == client_sin->COAP_IPV_SIN_PORT)")], '''
p, port = server()
a = Ep(port, ("127.0.0.1", 0))
b = Ep(port, ("127.0.0.2", a.addr[1]))
m = a.ask(msg(CON, (0, 1), 7, b"A", PATH("x")))
check(m and m.tok == b"A" and m.pl == b"1", "first host answered")
m = b.ask(msg(CON, (0, 1), 7, b"B", PATH("x")))
check(m and m.tok == b"B" and m.pl == b"2", "second host with the same port gets its own answer")
m = a.ask(msg(CON, (0, 1), 7, b"A", PATH("x")))
check(m and m.tok == b"A" and m.pl == b"1", "the first host's request is still remembered")
''')

S("S02-reset-ignored", "P13", "a reset in reply to a separate response",
  "a reset no longer ends the retransmission of a separate response", [
      (SRV, '''            coap_log_info("Received reset from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
            ret = coap_server_trans_stop_ack_timer(trans);
''', '''            coap_log_info("Received reset from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
''')], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 1), 7, b"A", PATH("sep")))
check(m and m.type == ACK and m.code == (0, 0), "empty acknowledgement")
m = a.recv()
check(m and m.type == CON and m.tok == b"A", "separate response")
a.send(msg(RST, (0, 0), m.mid))
check(a.recv(4) is None, "no retransmission after a reset")
''')

S("S03-fraction-lost", "P13", "an unacknowledged separate response whose random initial timeout is not a whole second",
  "the doubled timeout loses its milliseconds", [
      (SRV, "    trans->timeout.tv_nsec = (msec % 1000) * 1000000;\n", "    trans->timeout.tv_nsec = (msec % 1000) * 1000;\n")], '''
p, port = server()
eps = [Ep(port) for _ in range(6)]
for i, a in enumerate(eps):
    a.t = []
    a.send(msg(CON, (0, 1), 7, bytes([65 + i]), PATH("sep")))
end = time.time() + 12
import select
while time.time() < end:
    r, _, _ = select.select([a.s for a in eps], [], [], 0.2)
    for a in eps:
        if a.s in r:
            m = a.recv()
            if m.type == CON: a.t.append(time.time())
for a in eps:
    check(len(a.t) >= 3, "retransmitted twice within 12 s")
    d1, d2 = a.t[1] - a.t[0], a.t[2] - a.t[1]
    check(abs(d2 - 2 * d1) < 0.15, "second interval %.3f is twice the first %.3f" % (d2, d1))
''')

S("S04-path-prefix", "P17", "a block for another resource whose path is a prefix of the one being uploaded to",
  "a block addressed to a different resource is appended to the upload in progress", [
      (SRV, '''         || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST1) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
         || (strcmp(block_uri, trans->block_uri) != 0))''', '''         || ((trans->type == COAP_SERVER_TRANS_BLOCKWISE_POST1) && (coap_msg_get_code_detail(req) != COAP_MSG_POST))
         || (strncmp(block_uri, trans->block_uri, strlen(block_uri)) != 0))''')], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 3), 1, b"A", PATH("upper") + [(27, block(0, 1, 32))], b"x" * 32))
check(m and m.code == (2, 31), "first block")
m = a.ask(msg(CON, (0, 3), 2, b"B", PATH("up") + [(27, block(1, 0, 32))], b"y" * 32))
check(m and m.code == (4, 0), "block for another resource refused")
time.sleep(0.3)
check(not output(p), "nothing delivered")
''')

S("S05-late-resize", "P18", "a client that asks for smaller blocks in the middle of a download",
  "a smaller block size is honoured only in the first request", [
      (SRV, "if ((ret == 0) && (block2_size < trans->block2_size))", "if ((ret == 0) && (block2_size < trans->block2_size) && (trans->block2_next == 0))")], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 1), 1, b"A", PATH("down") + [(23, block(0, 0, 64))]))
check(m and blk(m, 23) == (0, 1, 64) and len(m.pl) == 64, "first block of 64")
m = a.ask(msg(CON, (0, 1), 2, b"B", PATH("down") + [(23, block(4, 0, 16))]))
check(m and blk(m, 23) == (4, 1, 16) and m.pl == bytes(97 + i % 26 for i in range(64, 80)), "then a block of 16")
''')

S("S06-sequence-error-forgiven", "P17", "a block out of sequence followed by the missing one",
  "after 4.08 the upload goes on and is delivered", [
      (SRV, '''            coap_log_info("Out-of-sequence block received from address %s and port %u",
                          trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
            coap_server_trans_clear_blockwise(trans);
''', '''            coap_log_info("Out-of-sequence block received from address %s and port %u",
                          trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
''')], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 3), 1, b"A", PATH("up") + [(27, block(0, 1, 32))], b"x" * 32))
check(m and m.code == (2, 31), "first block")
m = a.ask(msg(CON, (0, 3), 2, b"B", PATH("up") + [(27, block(2, 1, 32))], b"z" * 32))
check(m and m.code == (4, 8), "gap refused")
m = a.ask(msg(CON, (0, 3), 3, b"C", PATH("up") + [(27, block(1, 0, 32))], b"y" * 32))
time.sleep(0.3)
check("x" * 32 not in output(p), "the abandoned upload is not delivered")
''')

S("S07-non-id-reused", "P12", "a non-confirmable request",
  "the response to a non-confirmable request reuses the request's message ID", [
      (SRV, '''    if ((coap_msg_get_type(&recv_msg) == COAP_MSG_CON)
     && (resp_type == COAP_SERVER_PIGGYBACKED))
    {
        /* copy the message ID''', '''    if (resp_type == COAP_SERVER_PIGGYBACKED)
    {
        /* copy the message ID''')], '''
p, port = server()
a = Ep(port); ids = []
for i in range(3):
    m = a.ask(msg(NON, (0, 1), 50 + i, b"A", PATH("x")))
    check(m and m.type == NON, "answered")
    ids.append(m.mid == 50 + i)
check(not all(ids), "message IDs of responses are the server's own")
''')

S("S08-duplicate-leak", "P15", "many repetitions of a non-confirmable request",
  "each repeated non-confirmable request leaks its options, until the server can no longer serve", [
      (SRV, '''            coap_log_info("Received duplicate non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
            coap_msg_destroy(&recv_msg);
''', '''            coap_log_info("Received duplicate non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
''')], '''
p, port = server()
a = Ep(port)
for i in range(200):
    a.send(msg(NON, (0, 1), 9, b"A", PATH("x")))
while a.recv(0.3): pass
m = a.ask(msg(CON, (0, 1), 10, b"B", PATH(*"abcdefgh")))
check(m and m.tok == b"B", "still serving after 200 duplicates")
''')

S("S10-short-token", "P01", "a datagram that ends one byte before its token does",
  "a datagram truncated in its token is accepted, reading one byte past its end", [
      (MSG, "    if (len < msg->token_len)\n    {\n        return -EBADMSG;", "    if (len + 1 < msg->token_len)\n    {\n        return -EBADMSG;")], '''
b = build("t", "t.c", LIB, ["-fsanitize=address"])
check(subprocess.call([b], stderr=subprocess.DEVNULL, env={"ASAN_OPTIONS": "detect_leaks=0"}) == 0, "truncated token refused")
''', kit=("kit.py",), files={"t.c": '''#include <stdlib.h>
#include <string.h>
#include "coap_mem.h"
#include "coap_msg.h"
int main(void)
{
    coap_msg_t m; char *d = malloc(7);
    coap_mem_all_create(16, 64, 16, 1280, 8, 64);
    memcpy(d, "\\x44\\x01\\x00\\x01" "abc", 7);
    coap_msg_create(&m);
    return coap_msg_parse(&m, d, 7) >= 0;
}
'''})

S("S11-late-ack-ends", "P08", "a repeated empty acknowledgement while waiting for the separate response",
  "a duplicate acknowledgement of the request ends the exchange with an error instead of being ignored", [
      (CLI, '''                coap_log_info("Received duplicate acknowledgement from host %s and port %s", client->server_host, client->server_port);
                continue;
''', '''                coap_log_info("Received duplicate acknowledgement from host %s and port %s", client->server_host, client->server_port);
                break;
''')], '''
port = freeport(); s = Ep(port, ("127.0.0.1", port))
c = client("get", port=port)
q = s.recv(5)
s.send(msg(ACK, (0, 0), q.mid), s.peer); s.send(msg(ACK, (0, 0), q.mid), s.peer)
time.sleep(0.3)
s.send(msg(NON, (2, 5), 77, q.tok, [], b"hello"), s.peer)
out = c.communicate(timeout=60)[0]
check("RET 0 CODE 2.05 PL hello" in out, "response delivered: " + out)
''')

S("S12-too-many-retransmissions", "P07", "a server that never answers",
  "the client retransmits five times instead of four", [
      (CLI, "if (client->num_retrans >= COAP_CLIENT_MAX_RETRANSMIT)", "if (client->num_retrans > COAP_CLIENT_MAX_RETRANSMIT)")], '''
port = freeport(); s = Ep(port, ("127.0.0.1", port))
c = client("get", port=port)
n = 0; t0 = time.time(); d = None
while time.time() - t0 < 110 and c.poll() is None:
    m = s.recv(1)
    if m: n += 1
    if n > 5: break
check(n == 5, "%d transmissions" % n)
''')

S("S13-body-overrun", "P10", "a download whose last block crosses the end of the caller's buffer",
  "the check for the caller's buffer ignores the block being copied", [
      (CLI, "if (block2_start + payload_len > body_len)", "if (block2_start >= body_len)")], '''
port = freeport(); s = Ep(port, ("127.0.0.1", port))
c = client("down", 50, port=port)
for i in range(2):
    q = s.recv(5)
    if q is None: break
    s.send(msg(ACK, (2, 31 if i == 0 else 5), q.mid, q.tok, [(23, block(i, 1 - i, 32))], b"z" * 32), s.peer)
out = c.communicate(timeout=60)[0]
check("RET -28 " in out, "ENOSPC reported: " + out)
''')

S("S15-double-free-toggles", "P05", "freeing a pointer twice, or one of a buffer that is not allocated",
  "freeing a buffer that is not live takes it out of the pool", [
      (MEM, '''                mask = ~(1 << bit);
                mem->active[byte] &= mask;
''', '''                mask = 1 << bit;
                mem->active[byte] ^= mask;
''')], '''
b = build("t", "t.c", LIB)
check(subprocess.call([b]) == 0, "the pool is whole after a double free")
''', kit=("kit.py",), files={"t.c": '''#include "coap_mem.h"
int main(void)
{
    coap_mem_t m; int i; void *a;
    if (coap_mem_create(&m, 16, 32) < 0) return 2;
    a = coap_mem_alloc(&m, 8);
    coap_mem_free(&m, a);
    coap_mem_free(&m, a);
    for (i = 0; i < 16; i++) if (coap_mem_alloc(&m, 8) == 0) return 1;
    return coap_mem_alloc(&m, 8) != 0;
}
'''})

S("S17-elective-refused", "P16", "an unrecognised elective option whose number has the unsafe bit set",
  "unrecognised elective options that are unsafe to forward are refused", [
      (SRV, "    return coap_msg_check_critical_ops(msg);\n", "    return (coap_msg_check_critical_ops(msg) != 0) ? coap_msg_check_critical_ops(msg) : coap_msg_check_unsafe_ops(msg);\n")], '''
p, port = server()
a = Ep(port)
m = a.ask(msg(CON, (0, 1), 1, b"A", PATH("x") + [(66, b"v")]))
check(m and m.code == (2, 5), "elective option ignored")
''')
SEEDS = [s for s in SEEDS if s]
