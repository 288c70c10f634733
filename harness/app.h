/* The application behind a server under test: resources described by the scenario, every call
 * recorded.  Define APP_EXTRA to add fields to each event. */
#ifndef APP_H
#define APP_H
#ifndef APP_EXTRA
#define APP_EXTRA()
#endif
typedef struct { char name[64]; int kind; int cls, det, ret, count, b1, b2, hasrx, rcls, rdet, rret; unsigned char *pl, *rb; size_t npl, nrb;
                 int opn; unsigned char *opv; size_t nopv; int calls; } res_t;
enum { R_FIX, R_ERR, R_BW };
static res_t R[32]; static int NR;
static res_t *find(coap_msg_t *req)
{
    char p[512] = ""; size_t n = 0;
    for (coap_msg_op_t *op = coap_msg_get_first_op(req); op; op = coap_msg_op_get_next(op))
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_PATH && n + coap_msg_op_get_len(op) + 2 < sizeof p)
        { if (n) p[n++] = '/'; memcpy(p + n, coap_msg_op_get_val(op), coap_msg_op_get_len(op)); n += coap_msg_op_get_len(op); p[n] = 0; }
    for (int i = 0; i < NR; i++) if (strcmp(R[i].name, p) == 0) return &R[i];
    return NULL;
}
static res_t *bwres;
static int block_rx(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    res_t *r = find(req);
    jopen("brx"); jint("t", vn_now); APP_EXTRA(); jmsg("req", req);
    jbytes("body", coap_server_trans_get_body(trans), coap_server_trans_get_body_end(trans));
    if (r == NULL) r = bwres;
    jint("cls", r->rcls); jint("det", r->rdet); jint("ret", r->rret); jbytes("rb", r->rb, r->nrb); jclose();
    if (r->rret < 0) return r->rret;
    coap_msg_set_code(resp, r->rcls, r->rdet);
    if (r->nrb) memcpy(coap_server_trans_get_body(trans), r->rb, r->nrb);
    coap_server_trans_set_body_end(trans, r->nrb);
    return 0;
}
static int handler(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    res_t *r = find(req); static res_t unk; unsigned char pl[2048]; size_t n = 0;
    if (r == NULL) { r = &unk; unk.cls = 4; unk.det = 4; unk.kind = R_FIX; }
    r->calls++;
    jopen("h"); jint("t", vn_now); APP_EXTRA(); jmsg("req", req);
    switch (r->kind)
    {
    case R_ERR:
        jint("kind", 1); jint("ret", r->ret); jclose();
        return r->ret;
    case R_BW:
        jint("kind", 2); jint("b1", r->b1); jint("b2", r->b2); jint("hasrx", r->hasrx); jbytes("body", r->pl, r->npl); jclose();
        bwres = r;
        return coap_server_trans_handle_blockwise(trans, req, resp, r->b1, r->b2, (char *)r->pl, r->npl, r->hasrx ? block_rx : NULL);
    default:
        memcpy(pl, r->pl, r->npl); n = r->npl;
        if (r->count) pl[n++] = r->calls;
        jint("kind", 0); jint("cls", r->cls); jint("det", r->det); jbytes("pl", pl, n); jint("opn", r->opn); jbytes("opv", r->opv, r->nopv); jclose();
        coap_msg_set_code(resp, r->cls, r->det);
        if (r->opn && (r->ret = coap_msg_add_op(resp, r->opn, r->nopv, (char *)r->opv)) < 0) return r->ret;
        return n ? coap_msg_set_payload(resp, (char *)pl, n) : 0;
    }
}
/* res <path> fix <cls> <det> <payload> <count> [<opt> <value>] | err <ret> | bw <b1> <b2> <body> <hasrx> <ret> <cls> <det> <body> */
static void app_res(char **tok, int k)
{
    res_t *r = &R[NR++]; memset(r, 0, sizeof *r); snprintf(r->name, sizeof r->name, "%s", strcmp(tok[1], "/") ? tok[1] : "");
    if (strcmp(tok[2], "fix") == 0) { r->kind = R_FIX; r->cls = atoi(tok[3]); r->det = atoi(tok[4]); r->pl = unhexdup(tok[5], &r->npl); r->count = atoi(tok[6]); if (k > 8) { r->opn = atoi(tok[7]); r->opv = unhexdup(tok[8], &r->nopv); } }
    else if (strcmp(tok[2], "err") == 0) { r->kind = R_ERR; r->ret = atoi(tok[3]); }
    else { r->kind = R_BW; r->b1 = atoi(tok[3]); r->b2 = atoi(tok[4]); r->pl = unhexdup(tok[5], &r->npl); r->hasrx = atoi(tok[6]); r->rret = atoi(tok[7]); r->rcls = atoi(tok[8]); r->rdet = atoi(tok[9]); r->rb = unhexdup(tok[10], &r->nrb); }
}
#endif
