/* Consumers of interfaces that no shipped module uses: the dynamic configuration of HTTP and the inner proxy. */
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_dynamic_conf.h"
#include "ngx_http_dynamic.h"
#include "ngx_multiport.h"

extern ngx_module_t ngx_probe_module;
typedef struct { ngx_int_t n; ngx_str_t s; } pv_t;
typedef struct { ngx_event_t ev; ngx_http_request_t *r; ngx_uint_t st; size_t sz; ngx_uint_t nb; } pctx_t;

static void *cr(ngx_conf_t *cf) { pv_t *c = ngx_pcalloc(cf->pool, sizeof(pv_t)); if (c) c->n = NGX_CONF_UNSET; return c; }
static char *in(ngx_conf_t *cf, void *conf) { pv_t *c = conf; ngx_conf_init_value(c->n, -7); if (c->s.len == 0) { ngx_str_set(&c->s, "unset"); } return NGX_CONF_OK; }
static ngx_http_dynamic_module_t dctx = { cr, in, cr, in, cr, in };
static ngx_command_t dcmds[] = {
    { ngx_string("main_int"), NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_num_slot, 0, offsetof(pv_t, n), NULL },
    { ngx_string("main_str"), NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_t, s), NULL },
    { ngx_string("srv_int"), NGX_HTTP_SRV_CONF|NGX_CONF_TAKE1, ngx_conf_set_num_slot, 0, offsetof(pv_t, n), NULL },
    { ngx_string("srv_str"), NGX_HTTP_SRV_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_t, s), NULL },
    { ngx_string("loc_int"), NGX_HTTP_LOC_CONF|NGX_CONF_TAKE1, ngx_conf_set_num_slot, 0, offsetof(pv_t, n), NULL },
    { ngx_string("loc_str"), NGX_HTTP_LOC_CONF|NGX_CONF_TAKE1, ngx_conf_set_str_slot, 0, offsetof(pv_t, s), NULL },
    ngx_null_command
};

static ngx_int_t arg(ngx_http_request_t *r, const char *k, ngx_int_t d) {
    ngx_str_t v; ngx_int_t n;
    if (ngx_http_arg(r, (u_char *) k, ngx_strlen(k), &v) != NGX_OK) return d;
    n = ngx_atoi(v.data, v.len); return n == NGX_ERROR ? d : n;
}
static ngx_int_t send_text(ngx_http_request_t *r, ngx_uint_t status, ngx_str_t *head, size_t sz, ngx_uint_t nb) {
    ngx_int_t rc; ngx_chain_t *out = NULL, **ll = &out, *cl; ngx_buf_t *b; ngx_uint_t i; size_t j, off = 0, k;
    r->headers_out.status = status; r->headers_out.content_length_n = arg(r, "cl", 1) ? (off_t) (head->len + sz) : -1;
    rc = ngx_http_send_header(r); if (rc == NGX_ERROR || rc > NGX_OK || r->header_only) return rc;
    if (nb < 1) nb = 1;
    for (i = 0; i <= nb; i++) {
        k = i == 0 ? head->len : i == nb ? sz - off : sz / nb; b = k ? ngx_create_temp_buf(r->pool, k) : ngx_calloc_buf(r->pool); cl = ngx_alloc_chain_link(r->pool); if (b == NULL || cl == NULL) return NGX_ERROR;
        if (i == 0) b->last = ngx_cpymem(b->pos, head->data, head->len); else { for (j = 0; j < k; j++) *b->last++ = 'a' + (u_char) ((off + j) * 7 % 26); off += k; }
        if (b->last == b->pos && i != nb) continue;
        if (i == nb) { b->last_buf = (r == r->main) ? 1 : 0; b->last_in_chain = 1; if (b->last == b->pos && r != r->main) b->sync = 1; }
        cl->buf = b; cl->next = NULL; *ll = cl; ll = &cl->next;
    }
    return ngx_http_output_filter(r, out);
}
static ngx_int_t answer(ngx_http_request_t *r, ngx_uint_t st, size_t sz, ngx_uint_t nb) {
    ngx_str_t h, id; off_t body = 0; ngx_chain_t *cl;
    if (ngx_http_arg(r, (u_char *) "id", 2, &id) != NGX_OK) { ngx_str_set(&id, "-"); }
    if (r->request_body) for (cl = r->request_body->bufs; cl; cl = cl->next) body += ngx_buf_size(cl->buf);
    h.data = ngx_pnalloc(r->pool, 256 + id.len + r->uri.len); if (h.data == NULL) return NGX_ERROR;
    h.len = ngx_sprintf(h.data, "X{%P %i %V %V %O %uz %V}", ngx_pid, ngx_process_slot, &id, &r->method_name, body, sz, &r->uri) - h.data;
    return send_text(r, st, &h, sz, nb);
}
static void later(ngx_event_t *ev) { pctx_t *c = ev->data; ngx_http_request_t *r = c->r; ngx_connection_t *k = r->connection; ngx_http_finalize_request(r, answer(r, c->st, c->sz, c->nb)); ngx_http_run_posted_requests(k); }
static void off(void *d) { pctx_t *c = d; if (c->ev.timer_set) ngx_del_timer(&c->ev); }
static ngx_int_t go(ngx_http_request_t *r) {
    ngx_msec_t dl = arg(r, "dl", 0); pctx_t *c; ngx_pool_cleanup_t *cu;
    if (arg(r, "no", 0) == ngx_process_slot + 1) return NGX_HTTP_FORBIDDEN;
    if (dl == 0) return answer(r, arg(r, "st", 200), arg(r, "sz", 0), arg(r, "nb", 1));
    cu = ngx_pool_cleanup_add(r->pool, sizeof(pctx_t)); if (cu == NULL) return NGX_ERROR;
    c = cu->data; ngx_memzero(c, sizeof(*c)); cu->handler = off; c->r = r; c->st = arg(r, "st", 200); c->sz = arg(r, "sz", 0); c->nb = arg(r, "nb", 1);
    c->ev.handler = later; c->ev.data = c; c->ev.log = r->connection->log; r->main->count++; ngx_add_timer(&c->ev, dl); return NGX_DONE;
}
static void body_in(ngx_http_request_t *r) { ngx_http_finalize_request(r, go(r)); }
static ngx_int_t probe(ngx_http_request_t *r) {
    ngx_int_t rc;
    if (r->headers_in.content_length_n > 0 || r->headers_in.chunked) { rc = ngx_http_read_client_request_body(r, body_in); return rc >= NGX_HTTP_SPECIAL_RESPONSE ? rc : NGX_DONE; }
    return go(r);
}
static ngx_int_t relayed(ngx_http_request_t *r) { ngx_int_t rc = ngx_http_inner_proxy_request(r, ngx_multiport_get_slot(arg(r, "w", 0))); return rc == NGX_DECLINED ? go(r) : rc; }
static void relay_in(ngx_http_request_t *r) { ngx_http_finalize_request(r, relayed(r)); }
static ngx_int_t probe_proxy(ngx_http_request_t *r) {
    ngx_int_t rc;
    if (r->headers_in.content_length_n > 0 || r->headers_in.chunked) { rc = ngx_http_read_client_request_body(r, relay_in); return rc >= NGX_HTTP_SPECIAL_RESPONSE ? rc : NGX_DONE; }
    return relayed(r);
}
static ngx_int_t probe_dconf(ngx_http_request_t *r) {
    pv_t *m = ngx_http_get_module_main_dconf(r, &ngx_probe_module), *s = ngx_http_get_module_srv_dconf(r, &ngx_probe_module), *l = ngx_http_get_module_loc_dconf(r, &ngx_probe_module);
    ngx_str_t h; u_char *p; pv_t *v[3]; int i; v[0] = m; v[1] = s; v[2] = l;
    p = h.data = ngx_pnalloc(r->pool, 4096); if (p == NULL) return NGX_ERROR;
    for (i = 0; i < 3; i++) p = v[i] ? ngx_slprintf(p, h.data + 4096, "%i:%V ", v[i]->n, &v[i]->s) : ngx_slprintf(p, h.data + 4096, "none ");
    h.len = p - h.data; return send_text(r, 200, &h, 0, 1);
}
static char *set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf) {
    ngx_http_core_loc_conf_t *clcf = ngx_http_conf_get_module_loc_conf(cf, ngx_http_core_module);
    clcf->handler = cmd->name.len == 5 ? probe : cmd->name.data[6] == 'p' ? probe_proxy : probe_dconf; return NGX_CONF_OK;
}
static ngx_command_t cmds[] = {
    { ngx_string("probe"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, set, NGX_HTTP_LOC_CONF_OFFSET, 0, NULL },
    { ngx_string("probe_proxy"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, set, NGX_HTTP_LOC_CONF_OFFSET, 0, NULL },
    { ngx_string("probe_dconf"), NGX_HTTP_LOC_CONF|NGX_CONF_NOARGS, set, NGX_HTTP_LOC_CONF_OFFSET, 0, NULL },
    ngx_null_command
};
static ngx_http_module_t ctx = { NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL };
ngx_module_t ngx_probe_module = {
    NGX_MODULE_V1, &ctx, cmds, NGX_HTTP_MODULE, NULL, NULL, NULL, NULL, NULL, NULL, NULL,
    (uintptr_t) &dctx, (uintptr_t) dcmds, NGX_MODULE_V1_DYNAMIC_PADDING
};
