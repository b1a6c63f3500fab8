/* contracts on the JSON parser of nginx-common */

#define __NO_CTYPE  1       /* isdigit / isspace as functions */

#include "vp.h"
#include <ctype.h>
#include <limits.h>

#ifdef U_PRETTY
#include "ngx_json_pretty.c"
#else
#include "ngx_json_parser.c"
#endif

#ifdef U_PRETTY
/* the writer relies on b->end only */
#define BSZ  16
#define VP_OWN_TEMP_BUF
static size_t  g_bsz = BSZ;
#endif

#include "vp_stubs.h"

#ifdef U_PRETTY
ngx_buf_t *
ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t  *b = ngx_pcalloc(pool, sizeof(ngx_buf_t));

    if (b == NULL) {
        return NULL;
    }

    b->start = ngx_palloc(pool, g_bsz);
    if (b->start == NULL) {
        return NULL;
    }

    b->pos = b->last = b->start;
    b->end = b->start + g_bsz;
    b->temporary = 1;
    return b;
}
#endif

#ifndef VP_REPLAY
/* the C locale, as nginx runs (it never calls setlocale) */
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#endif

/* nginx core, as in src/core/ngx_string.c */
ngx_int_t
ngx_hextoi(u_char *line, size_t n)
{
    u_char     c, ch;
    ngx_int_t  value, cutoff;

    if (n == 0) {
        return NGX_ERROR;
    }

    cutoff = NGX_MAX_INT_T_VALUE / 16;

    for (value = 0; n--; line++) {
        if (value > cutoff) {
            return NGX_ERROR;
        }

        ch = *line;

        if (ch >= '0' && ch <= '9') {
            value = value * 16 + (ch - '0');
            continue;
        }

        c = (u_char) (ch | 0x20);

        if (c >= 'a' && c <= 'f') {
            value = value * 16 + (c - 'a' + 10);
            continue;
        }

        return NGX_ERROR;
    }

    return value;
}

/* the error text is not part of the property, that it fits its buffer is */
u_char *
ngx_snprintf(u_char *buf, size_t max, const char *fmt, ...)
{
    VP_ASSERT(max > 0);
    buf[max - 1] = 'E';
    return buf;
}

ngx_int_t
ngx_strncasecmp(u_char *s1, u_char *s2, size_t n)
{
    ngx_uint_t  c1, c2;

    while (n) {
        c1 = (ngx_uint_t) *s1++;
        c2 = (ngx_uint_t) *s2++;

        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;

        if (c1 == c2) {
            if (c1) {
                n--;
                continue;
            }

            return 0;
        }

        return c1 - c2;
    }

    return 0;
}

void *
ngx_array_push(ngx_array_t *a)
{
    void  *elt, *new;

    if (a->nelts == a->nalloc) {
        new = vp_alloc(2 * a->nalloc * a->size);
        if (new == NULL) {
            return NULL;
        }

        memcpy(new, a->elts, a->nelts * a->size);
        a->elts = new;
        a->nalloc *= 2;
    }

    elt = (u_char *) a->elts + a->size * a->nelts;
    a->nelts++;
    return elt;
}

#define ERR  16


/* ------------------------------------------------------------------ */
#ifdef U_NUM

/* numbers: up to NB bytes, sign and first digit by shape */

#define NB  3

VP_DECLARE_INPUT(struct {
    uint8_t   shape;
    uint8_t   b[NB];
})

static u_char            g_txt[NB + 32], g_err[ERR];
static ngx_json_value_t  g_v;

static const char *g_shapes[] = {
    "-", "0", "9", "-0", " 5", "00000000000",
    "922337203685477", "-92233720368547757", "922337203685.4775",
    "0.000000000000000", "-1.0000000000000",
    "0.00000000000000000", "-0.00000000000000000000", "3.000000000000000",
};

#define NSHAPES  (sizeof(g_shapes) / sizeof(g_shapes[0]))

static void
one(unsigned s)
{
    int                neg, frac, ok, over, bad;
    size_t             i, n, plen, nd;
    uint64_t           num, den;
    ngx_json_status_t  rc;

    plen = strlen(g_shapes[s]);
    for (i = 0; i < plen; i++) {
        g_txt[i] = g_shapes[s][i];
    }

    for (i = 0; i < NB; i++) {
        g_txt[plen + i] = in.b[i];
    }
    g_txt[plen + NB] = '\0';

    /* oracle */
    i = 0;
    while (g_txt[i] == ' ') { i++; }
    neg = g_txt[i] == '-';
    i += neg;

    num = 0; den = 1; nd = 0; frac = 0; over = 0; bad = 0; ok = 1;
    for (n = i; n < plen + NB; n++) {
        if (g_txt[n] == '.' && !frac) {
            if (nd == 0) { break; }
            frac = 1;
            nd = 0;
            continue;
        }

        if (g_txt[n] < '0' || g_txt[n] > '9') {
            break;
        }

        nd++;
        /* over: may be refused; bad: is not representable */
        if (num > 922337203685477579ULL) { over = 1; }
        if (num > (LLONG_MAX - (g_txt[n] - '0')) / 10) { over = bad = 1; }
        if (frac && den > ULLONG_MAX / 10) { over = bad = 1; }
        num = num * 10 + (g_txt[n] - '0');
        if (frac) { den *= 10; }
    }

    if (nd == 0) {
        ok = 0;
    }

    while (g_txt[n] == ' ' || (g_txt[n] >= 9 && g_txt[n] <= 13)) { n++; }
    if (g_txt[n] != '\0') {
        ok = 0;
    }

    rc = ngx_json_parse(&vp_pool, g_txt, &g_v, g_err, ERR);

    VP_POST(rc == NGX_JSON_OK || rc == NGX_JSON_BAD_DATA);
    VP_POST(rc != NGX_JSON_OK || (ok && !bad));
    VP_POST(rc == NGX_JSON_OK || !ok || over);
    VP_POST(g_err[ERR - 1] == 0 || rc == NGX_JSON_OK);

    if (rc == NGX_JSON_OK) {
        VP_POST(g_v.type == (frac ? NGX_JSON_FRAC : NGX_JSON_INT));
        VP_POST(g_v.v.num.num == (neg ? -(int64_t) num : (int64_t) num));
        VP_POST(g_v.v.num.denom == den);
    }

    VP_POST(g_txt[plen + NB] == 0);
    VP_COVER(rc == NGX_JSON_OK && frac && num > 1000000);
}

void
h_json(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < NSHAPES; i++) {
        if (in.shape == i) {
            one(i);
            break;
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_STR

/* a string value: every content of NB bytes after the opening quote */

#define NB  6

VP_DECLARE_INPUT(struct {
    uint8_t   b[NB];
})

static u_char            g_txt[NB + 2], g_err[ERR];
static ngx_json_value_t  g_v;

void
h_json(void)
{
    size_t             i, n;
    ngx_flag_t         esc;
    ngx_json_status_t  rc;

    VP_LOAD_INPUT();
    g_txt[0] = '"';
    for (i = 0; i < NB; i++) {
        g_txt[i + 1] = in.b[i];
    }
    g_txt[NB + 1] = '\0';

    /* oracle: the first unescaped quote */
    esc = 0;
    for (i = 1; g_txt[i] != '\0' && g_txt[i] != '"'; i++) {
        if (g_txt[i] == '\\') {
            esc = 1;
            i++;
            if (g_txt[i] == '\0') {
                break;
            }
        }
    }

    n = g_txt[i] == '"' ? i - 1 : (size_t) -1;
    if (n != (size_t) -1) {
        i++;
        while (g_txt[i] == ' ' || (g_txt[i] >= 9 && g_txt[i] <= 13)) { i++; }
        if (g_txt[i] != '\0') {
            n = -1;
        }
    }

    rc = ngx_json_parse(&vp_pool, g_txt, &g_v, g_err, ERR);

    VP_POST(rc == (n == (size_t) -1 ? NGX_JSON_BAD_DATA : NGX_JSON_OK));
    VP_POST(rc == NGX_JSON_OK || g_err[ERR - 1] == 0);

    if (rc == NGX_JSON_OK) {
        VP_POST(g_v.type == NGX_JSON_STRING && g_v.v.str.s.data == g_txt + 1
                && g_v.v.str.s.len == n && g_v.v.str.escape == esc);
    }

    for (i = 0; i < NB; i++) {
        VP_POST(g_txt[i + 1] == in.b[i]);
    }
    VP_COVER(rc == NGX_JSON_OK && n == 4 && esc);
    VP_COVER(rc == NGX_JSON_OK && n == 0);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_KEY

/* an object key: every content of NB bytes */

#define NB  4

VP_DECLARE_INPUT(struct {
    uint8_t   b[NB];
})

static u_char                 g_txt[NB + 1], g_err[ERR];
static ngx_json_key_value_t   g_kv;

void
h_json(void)
{
    size_t                    i, n;
    ngx_uint_t                hash;
    ngx_json_status_t         rc;
    ngx_json_parser_state_t   st;
    u_char                    want[NB + 1], c;

    VP_LOAD_INPUT();
    for (i = 0; i < NB; i++) {
        g_txt[i] = in.b[i];
        want[i] = in.b[i];
    }
    g_txt[NB] = '\0';
    want[NB] = '\0';

    n = -1;
    hash = 0;

    if (want[0] == '"') {
        for (i = 1; ; i++) {
            c = want[i];
            if (c >= 'A' && c <= 'Z') {
                c += 'a' - 'A';
                want[i] = c;
            }

            if (c == '\0') {
                break;
            }

            if (c == '"') {
                n = i - 1;
                break;
            }

            hash = ngx_hash(hash, c);

            if (c == '\\') {
                i++;
                if (want[i] == '\0') {
                    break;
                }
            }
        }
    }

    memset(&st, 0, sizeof(st));
    st.cur_pos = g_txt;
    st.error = g_err;
    st.error_size = ERR;

    rc = ngx_json_parse_object_key(&st, &g_kv);

    VP_POST(rc == (n == (size_t) -1 ? NGX_JSON_BAD_DATA : NGX_JSON_OK));
    for (i = 0; i <= NB; i++) {
        VP_POST(g_txt[i] == want[i] || rc != NGX_JSON_OK);
    }

    if (rc == NGX_JSON_OK) {
        VP_POST(g_kv.key.data == g_txt + 1 && g_kv.key.len == n
                && st.cur_pos == g_txt + n + 2);
        /* an escaped key never matches a field name: its hash is free */
        VP_POST(g_kv.key_hash == hash
                || memchr(g_kv.key.data, '\\', n) != NULL);
    }

    VP_COVER(rc == NGX_JSON_OK && n == 2);
    VP_COVER(rc != NGX_JSON_OK && g_txt[0] == '"');
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_DEC

/* string decoding, in place and into a buffer of the source's size */

#define NB  7

VP_DECLARE_INPUT(struct {
    uint8_t   b[NB], n, inplace, pre, esc;
})

static u_char  g_src[NB], g_dst[NB + 2], g_want[NB];

static int
hexv(u_char c)
{
    return c >= '0' && c <= '9' ? c - '0'
        : c >= 'a' && c <= 'f' ? c - 'a' + 10
        : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

static const char  *g_pre[] = {
    "", "", "", "",                             /* 0 to 3 bytes, any content */
    "a\\u", "\\u", "x\\u12", "\\u00", "\\uD7", "\\u0", "\\uE",
    "\\u00", "\\u0", "x\\u", "y\\u"            /* cut short */
};
static const uint8_t  g_len[] = { 0, 1, 2, 3, 6, 6, 7, 7, 6, 5, 6, 5, 4, 4, 3 };

#define NSHAPES  sizeof(g_len)

static void
one(unsigned s)
{
    int                 ok, h, j;
    long                cp;
    size_t              n = g_len[s];
    size_t              i, k;
    ngx_str_t           dst;
    const char         *q;
    ngx_json_status_t   rc;
    ngx_json_esc_str_t  src;
    static const char   from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";

    for (i = 0; g_pre[s][i]; i++) {
        in.b[i] = g_pre[s][i];
    }

    /* what follows the string must not matter */
    for (i = 0; i < NB; i++) {
        g_src[i] = in.b[i];
    }

    ok = 1;
    k = 0;
    for (i = 0; i < n && ok; i++) {
        if (in.b[i] != '\\') {
            g_want[k++] = in.b[i];
            continue;
        }

        i++;
        if (i == n) {
            ok = 0;

        } else if (in.b[i] == 'u') {
            cp = 0;
            for (j = 1; j <= 4; j++) {
                h = i + j < n ? hexv(in.b[i + j]) : -1;
                if (h < 0) {
                    ok = 0;
                    break;
                }
                cp = cp * 16 + h;
            }

            if (!ok) {
                break;
            }

            VP_PRE(cp < 0xd800 || cp > 0xdfff);     /* surrogates: see DESIGN */

            i += 4;
            if (cp < 0x80) {
                g_want[k++] = cp;
            } else if (cp < 0x800) {
                g_want[k++] = 0xc0 + cp / 64;
                g_want[k++] = 0x80 + cp % 64;
            } else {
                g_want[k++] = 0xe0 + cp / 4096;
                g_want[k++] = 0x80 + cp / 64 % 64;
                g_want[k++] = 0x80 + cp % 64;
            }

        } else {
            ok = 0;
            for (q = from; *q; q++) {
                if (in.b[i] == (u_char) *q) {
                    g_want[k++] = to[q - from];
                    ok = 1;
                }
            }
        }
    }

    src.s.data = g_src;
    src.s.len = n;
    src.escape = 1;

    memset(&dst, 0, sizeof(dst));
    if (in.inplace) {
        rc = ngx_json_get_string(&dst, &src);

    } else {
        dst.data = g_dst;
        dst.len = in.pre & 1;
        g_dst[0] = 'P';
        g_dst[(in.pre & 1) + n] = 'G';
        rc = ngx_json_decode_string(&dst, &src.s);
        VP_POST(g_dst[(in.pre & 1) + n] == 'G');
    }

    VP_POST((rc == NGX_JSON_OK) == ok);

    if (rc == NGX_JSON_OK) {
        j = in.inplace ? 0 : in.pre & 1;
        VP_POST(dst.len == k + j);
        VP_POST(dst.data == (in.inplace ? g_src : g_dst));
        VP_POST(j == 0 || dst.data[0] == 'P');
        for (i = 0; i < NB; i++) {
            VP_POST(i >= k || dst.data[i + j] == g_want[i]);
        }
    }

    VP_COVER(rc == NGX_JSON_OK && n == NB && k == 3);
    VP_COVER(rc == NGX_JSON_OK && n == 6 && k == 3);
}

void
h_json(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < NSHAPES; i++) {
        if (in.n == i) {
            one(i);
            break;
        }
    }
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_DOC

/* documents of a fixed structure, against a canonical dump of the result */

VP_DECLARE_INPUT(struct {
    uint8_t   shape, d[2];
})

typedef struct {
    const char  *txt;
    const char  *want;      /* NULL: refused */
    uint32_t     fail;
} doc_t;

#define D8   "[[[[[[[["
#define U8   "]]]]]]]]"

static const doc_t  g_docs[] = {
    { "[]", "[]" },
    { " { } ", "{}" },
    { "[1]", "[i1]" },
    { "[1,2.5]", NULL },
    { "[1,\"a\"]", NULL },
    { "[1,]", NULL },
    { "[,1]", NULL },
    { "[1 2]", NULL },
    { "[1", NULL },
    { "[", NULL },
    { "[tru]", NULL },
    { "[1]", NULL, 1 },
    { "{\"a\":1}", NULL, 1 },
    { "{a:1}", NULL },
    { "{,", NULL },
    { "", NULL },
    { " \t\r\n null ", "n" },
    { "true", "t" },
    { "false ", "f" },
    { "nulL", NULL },
    { "true1", NULL },
    { "x", NULL },
};

#define NDOCS  (sizeof(g_docs) / sizeof(g_docs[0]))

static u_char            g_err[ERR];
static ngx_json_value_t  g_v;
static const char       *g_w;
static int               g_bad;

VP_SPEC_BEGIN

/*
 * Walks the expectation, not the result: everything that decides the control
 * flow here is a constant.
 */
#define OK(x)  if (!(x)) { g_bad = 1; }

static int64_t
xnum(void)
{
    int      neg;
    int64_t  v;

    neg = *g_w == '-';
    if (neg) { g_w++; }
    for (v = 0; *g_w >= '0' && *g_w <= '9'; g_w++) {
        v = v * 10 + (*g_w - '0');
    }

    return neg ? -v : v;
}

static void
xstr(ngx_str_t *s, char q)
{
    size_t  i;

    for (i = 0; *g_w != q; i++) {
        if (*g_w == '\\') {
            OK(i < s->len && s->data[i] == '\\');
            g_w++;
            i++;
        }

        OK(i < s->len && s->data[i] == *g_w);
        g_w++;
    }

    OK(s->len == i);
    g_w++;
}

static int
xtype(void)
{
    switch (*g_w) {
    case 'n': return NGX_JSON_NULL;
    case 't': case 'f': return NGX_JSON_BOOL;
    case 'i': return NGX_JSON_INT;
    case 'r': return NGX_JSON_FRAC;
    case '"': case 'e': return NGX_JSON_STRING;
    case '[': return NGX_JSON_ARRAY;
    default: return NGX_JSON_OBJECT;
    }
}

static void
dump(int type, void *v)
{
    size_t                 n, in_part, sz;
    u_char                *p;
    ngx_json_array_t      *a;
    ngx_array_part_t      *part;
    ngx_json_value_t      *jv;
    ngx_json_object_t     *o;
    ngx_json_fraction_t   *f;
    ngx_json_esc_str_t    *s;
    ngx_json_key_value_t  *kv;

    OK(type == xtype());

    switch (xtype()) {

    case NGX_JSON_NULL:
        g_w++;
        break;

    case NGX_JSON_BOOL:
        OK(*(ngx_flag_t *) v == (*g_w == 't'));
        g_w++;
        break;

    case NGX_JSON_INT:
        g_w++;
        OK(*(int64_t *) v == xnum());
        break;

    case NGX_JSON_FRAC:
        g_w++;
        f = v;
        OK(f->num == xnum());
        g_w++;
        OK(f->denom == (uint64_t) xnum());
        break;

    case NGX_JSON_STRING:
        s = v;
        OK(s->escape == (*g_w == 'e'));
        if (*g_w == 'e') { g_w++; }
        g_w++;
        xstr(&s->s, '"');
        break;

    case NGX_JSON_ARRAY:
        a = v;
        g_w++;
        n = 0;
        in_part = 0;
        part = &a->part;
        p = part->first;
        if (*g_w == ']') {
            OK(a->type == NGX_JSON_NULL && part->next == NULL);
        }

        sz = xtype() == NGX_JSON_STRING ? sizeof(ngx_json_esc_str_t)
           : xtype() == NGX_JSON_ARRAY ? sizeof(ngx_json_array_t)
           : xtype() == NGX_JSON_OBJECT ? sizeof(ngx_json_object_t)
           : xtype() == NGX_JSON_BOOL ? sizeof(ngx_flag_t)
           : xtype() == NGX_JSON_FRAC ? sizeof(ngx_json_fraction_t)
           : sizeof(int64_t);

        while (*g_w != ']') {
            if (p >= (u_char *) part->last) {
                OK(part->count == in_part && part->next != NULL);
                part = part->next;
                if (part == NULL) {
                    return;
                }
                p = part->first;
                in_part = 0;
            }

            dump(a->type, p);
            p += sz;
            n++;
            in_part++;
        }

        OK(a->count == n && part->count == in_part && part->next == NULL
           && p == part->last);
        g_w++;
        break;

    default:
        o = v;
        g_w++;
        kv = o->elts;
        for (n = 0; *g_w != '}'; n++) {
            if (n >= o->nelts) {
                g_bad = 1;
                return;
            }

            xstr(&kv[n].key, '=');
            jv = &kv[n].value;
            dump(jv->type, &jv->v);
        }

        OK(o->nelts == n && o->size == sizeof(*kv));
        g_w++;
        break;
    }
}

VP_SPEC_END

static void
one(const doc_t *d)
{
    size_t              n;
    u_char             *txt;
    ngx_json_status_t   rc;

    /* exactly the text: any read past its NUL is out of bounds */
    n = strlen(d->txt);
    txt = malloc(n + 1);
    VP_PRE(txt != NULL);
    memcpy(txt, d->txt, n + 1);

    vp_alloc_fail = d->fail;
    rc = ngx_json_parse(&vp_pool, txt, &g_v, g_err, ERR);

    if (d->want == NULL) {
        VP_POST(rc == (d->fail ? NGX_JSON_ALLOC_FAILED : NGX_JSON_BAD_DATA));
        VP_POST(g_err[ERR - 1] == 0);
        return;
    }

    VP_POST(rc == NGX_JSON_OK);
    if (rc != NGX_JSON_OK) {
        return;
    }

    g_w = d->want;
    dump(g_v.type, &g_v.v);
    VP_POST(!g_bad && *g_w == '\0');
}

#ifndef H_DEPTH

void
h_json(void)
{
    unsigned  i;

    VP_LOAD_INPUT();

    for (i = 0; i < NDOCS; i++) {
        if (in.shape == i) {
            one(&g_docs[i]);
            VP_COVER(i == 2);
            break;
        }
    }
}

#endif

#ifdef H_DEPTH

/* nesting: level 32 is entered, 33 is not, and leaving restores the level */
void
h_depth(void)
{
    static u_char            txt[8];
    ngx_json_array_t         a;
    ngx_json_object_t        o;
    ngx_json_status_t        rc;
    ngx_json_parser_state_t  st;

    VP_LOAD_INPUT();
    memset(&st, 0, sizeof(st));
    st.error = g_err;
    st.error_size = ERR;
    st.depth = in.d[0];
    VP_PRE(in.d[0] <= 32);
    memcpy(txt, "[1]", 4);
    st.cur_pos = txt;
    rc = ngx_json_parse_array(&st, &a);
    VP_POST(rc == (in.d[0] < 32 ? NGX_JSON_OK : NGX_JSON_BAD_DATA));
    VP_POST(rc != NGX_JSON_OK || (st.depth == in.d[0] && a.count == 1));
    VP_COVER(rc == NGX_JSON_OK);

    memset(&st, 0, sizeof(st));
    st.error = g_err;
    st.error_size = ERR;
    st.depth = in.d[0];
    memcpy(txt, "{\"a\":1}", 8);
    st.cur_pos = txt;
    rc = ngx_json_parse_object(&st, &o);
    VP_POST(rc == (in.d[0] < 32 ? NGX_JSON_OK : NGX_JSON_BAD_DATA));
    VP_POST(rc != NGX_JSON_OK || (st.depth == in.d[0] && o.nelts == 1));
    VP_COVER(rc == NGX_JSON_OK);
}

#endif

#endif


/* ------------------------------------------------------------------ */
#ifdef U_SLOT

/* field setters: refuse a duplicate, otherwise store exactly the value */

VP_DECLARE_INPUT(struct {
    int64_t    old, num;
    uint64_t   off, denom;
    uint8_t    esc, s[3], len;
})

typedef struct {
    int64_t    before;
    union {
        int64_t    num;
        ngx_str_t  str;
        void      *ptr;
    } v;
    int64_t    after;
} rec_t;

static rec_t              g_rec;
static ngx_json_value_t   g_v;
static ngx_json_prop_t    g_prop;
/* cur_pos + 5 > end_pos is computed before any bound is known */
static u_char             g_s[10];

#define OLD   ((uint64_t) in.old)
#define OLDP  (in.old == -1 ? (void *) -1 : (void *) &g_prop)

VP_SPEC_BEGIN

static int
P_num(ngx_json_status_t rc)
{
    return OLD != (uint64_t) -1 ? rc == NGX_JSON_BAD_DATA && g_rec.v.num == in.old
        : rc == NGX_JSON_OK && g_rec.v.num == in.num;
}

static int
P_ptr(ngx_json_status_t rc)
{
    return OLD != (uint64_t) -1
        ? rc == NGX_JSON_BAD_DATA && g_rec.v.ptr == OLDP
        : rc == NGX_JSON_OK && g_rec.v.ptr == (void *) &g_v.v;
}

static int
P_raw(ngx_json_status_t rc)
{
    return OLD != (uint64_t) -1
        ? rc == NGX_JSON_BAD_DATA && g_rec.v.str.data == OLDP
            && g_rec.v.str.len == 77
        : rc == NGX_JSON_OK && g_rec.v.str.data == g_s
            && g_rec.v.str.len == in.len;
}

VP_SPEC_END

#define SLOT_CONTRACT(f, P)                                                  \
ngx_json_status_t f##_c(ngx_pool_t *pool, ngx_json_value_t *value,           \
    ngx_json_prop_t *prop, void *dest)                                       \
__CPROVER_requires(value == &g_v && prop == &g_prop && dest == &g_rec        \
    && prop->offset == 8 && pool == &vp_pool && pool->log == &vp_log)        \
__CPROVER_assigns(g_rec.v)                                                   \
__CPROVER_ensures(P(__CPROVER_return_value))                                 \
;

SLOT_CONTRACT(ngx_json_set_num_slot, P_num)
SLOT_CONTRACT(ngx_json_set_flag_slot, P_num)
SLOT_CONTRACT(ngx_json_set_raw_str_slot, P_raw)
SLOT_CONTRACT(ngx_json_set_obj_slot, P_ptr)
SLOT_CONTRACT(ngx_json_set_arr_slot, P_ptr)

static void
slot_init(void)
{
    VP_LOAD_INPUT();
    vp_pool.log = &vp_log;
    vp_log.log_level = 0;
    g_prop.offset = 8;
    g_prop.key.len = 0;
    g_rec.before = 11;
    g_rec.after = 12;
}

#ifndef H_ENUM

#ifdef H_NUM
void
h_num(void)
{
    ngx_json_status_t  rc;

    slot_init();
    g_rec.v.num = in.old;
    g_v.type = NGX_JSON_INT;
    g_v.v.num.num = in.num;
    g_v.v.num.denom = 1;
    rc = ngx_json_set_num_slot(&vp_pool, &g_v, &g_prop, &g_rec);
    VP_POST(P_num(rc));
    VP_COVER(rc == NGX_JSON_OK);
    VP_COVER(rc != NGX_JSON_OK);
}
#endif

#ifdef H_FLAG
void
h_flag(void)
{
    ngx_json_status_t  rc;

    slot_init();
    g_rec.v.num = in.old;
    g_v.type = NGX_JSON_BOOL;
    g_v.v.boolean = in.num;
    rc = ngx_json_set_flag_slot(&vp_pool, &g_v, &g_prop, &g_rec);
    VP_POST(P_num(rc));
    VP_COVER(rc == NGX_JSON_OK);
    VP_COVER(rc != NGX_JSON_OK);
}
#endif

#ifdef H_RAW
void
h_raw(void)
{
    ngx_json_status_t  rc;

    slot_init();
    g_rec.v.str.data = OLDP;
    g_rec.v.str.len = 77;
    g_v.type = NGX_JSON_STRING;
    g_v.v.str.s.data = g_s;
    g_v.v.str.s.len = in.len;
    g_v.v.str.escape = in.esc;
    rc = ngx_json_set_raw_str_slot(&vp_pool, &g_v, &g_prop, &g_rec);
    VP_POST(P_raw(rc));
    VP_COVER(rc == NGX_JSON_OK);
    VP_COVER(rc != NGX_JSON_OK);
}
#endif

#ifdef H_OBJ
void
h_obj(void)
{
    ngx_json_status_t  rc;

    slot_init();
    g_rec.v.ptr = OLDP;
    g_v.type = NGX_JSON_OBJECT;
    rc = ngx_json_set_obj_slot(&vp_pool, &g_v, &g_prop, &g_rec);
    VP_POST(P_ptr(rc));
    VP_COVER(rc == NGX_JSON_OK);
    VP_COVER(rc != NGX_JSON_OK);
}
#endif

#ifdef H_ARR
void
h_arr(void)
{
    ngx_json_status_t  rc;

    slot_init();
    g_rec.v.ptr = OLDP;
    g_v.type = NGX_JSON_ARRAY;
    rc = ngx_json_set_arr_slot(&vp_pool, &g_v, &g_prop, &g_rec);
    VP_POST(P_ptr(rc));
    VP_COVER(rc == NGX_JSON_OK);
    VP_COVER(rc != NGX_JSON_OK);
}
#endif

#else

static ngx_str_t  g_enum[] = {
    ngx_string("a"), ngx_string("bc"), ngx_string("b"), ngx_null_string
};

/* enumerations and string fields: every content of at most 3 bytes */
void
h_enum(void)
{
    int                want;
    size_t             i;
    u_char             l[3];
    ngx_json_status_t  rc;

    slot_init();
    VP_PRE(in.len <= 3);

    for (i = 0; i < 3; i++) {
        g_s[i] = in.s[i];
        l[i] = in.s[i] >= 'A' && in.s[i] <= 'Z' ? in.s[i] + 32 : in.s[i];
    }

    want = in.len == 1 && l[0] == 'a' ? 0
         : in.len == 2 && l[0] == 'b' && l[1] == 'c' ? 1
         : in.len == 1 && l[0] == 'b' ? 2 : -1;

    g_rec.v.num = in.old;
    g_prop.post = g_enum;
    g_v.type = NGX_JSON_STRING;
    g_v.v.str.s.data = g_s;
    g_v.v.str.s.len = in.len;
    rc = ngx_json_set_enum_slot(&vp_pool, &g_v, &g_prop, &g_rec);

    if (in.old != -1 || want == -1) {
        VP_POST(rc == NGX_JSON_BAD_DATA && g_rec.v.num == in.old);

    } else {
        VP_POST(rc == NGX_JSON_OK && g_rec.v.num == want);
    }

    VP_POST(g_rec.before == 11 && g_rec.after == 12);
    VP_COVER(rc == NGX_JSON_OK && g_rec.v.num == 1);
    VP_COVER(rc == NGX_JSON_OK && g_rec.v.num == 2);

    /* string */
    g_rec.v.str.data = OLDP;
    g_rec.v.str.len = 77;
    g_v.v.str.escape = in.esc & 1;
    rc = ngx_json_set_str_slot(&vp_pool, &g_v, &g_prop, &g_rec);

    if (in.old != -1) {
        VP_POST(rc == NGX_JSON_BAD_DATA && g_rec.v.str.len == 77);

    } else if (!g_v.v.str.escape) {
        VP_POST(rc == NGX_JSON_OK && g_rec.v.str.data == g_s
                && g_rec.v.str.len == in.len);

    } else if (rc == NGX_JSON_OK) {
        VP_POST(g_rec.v.str.data == g_s && g_rec.v.str.len <= in.len);
        VP_POST(in.len != 2 || in.s[0] != '\\' || in.s[1] != 'n'
                || (g_rec.v.str.len == 1 && g_s[0] == '\n'));
    }

    VP_POST(g_rec.before == 11 && g_rec.after == 12);
    VP_COVER(rc == NGX_JSON_OK && (in.esc & 1) && in.s[0] == '\\');
}

#endif

#endif


/* ------------------------------------------------------------------ */
#ifdef U_FIELDS

/* matching of object keys to fields: by hash slot, hash, text and type */

VP_DECLARE_INPUT(struct {
    uint8_t   k[3][2], len[3], type[3], n, fail;
    uint32_t  h[3];
})

static unsigned              g_calls[2];
static void                 *g_last[2];
static ngx_json_prop_t       g_p[2];
static ngx_json_prop_t      *g_hash[3];
static ngx_json_key_value_t  g_kv[3];
static ngx_json_object_t     g_obj;
static int                   g_dest;
static int                   g_setbad;

static ngx_json_status_t
vp_set(ngx_pool_t *pool, ngx_json_value_t *value, ngx_json_prop_t *prop,
    void *dest)
{
    g_calls[prop - g_p]++;
    g_last[prop - g_p] = value;
    if (dest != &g_dest || pool != &vp_pool) {
        g_setbad = 1;
    }
    return in.fail ? NGX_JSON_ALLOC_FAILED : NGX_JSON_OK;
}

void
h_json(void)
{
    int                i, m, want[2];
    void              *last[2];
    ngx_json_status_t  rc;

    VP_LOAD_INPUT();
    VP_PRE(in.n <= 3);

    /* field 0: "a", int, hash 97; field 1: "bc", string */
    g_p[0].key.data = (u_char *) "a";
    g_p[0].key.len = 1;
    g_p[0].key_hash = 'a';
    g_p[0].type = NGX_JSON_INT;
    g_p[0].set = vp_set;
    g_p[1].key.data = (u_char *) "bc";
    g_p[1].key.len = 2;
    g_p[1].key_hash = 'b' * 31 + 'c';
    g_p[1].type = NGX_JSON_STRING;
    g_p[1].set = vp_set;
    g_hash['a' % 3] = &g_p[0];
    g_hash[('b' * 31 + 'c') % 3] = &g_p[1];

    want[0] = want[1] = 0;
    last[0] = last[1] = NULL;

    for (i = 0; i < 3; i++) {
        VP_PRE(in.len[i] <= 2);
        g_kv[i].key.data = in.k[i];
        g_kv[i].key.len = in.len[i];
        g_kv[i].key_hash = in.len[i] == 0 ? 0
            : in.len[i] == 1 ? in.k[i][0] : in.k[i][0] * 31 + in.k[i][1];
        g_kv[i].value.type = in.type[i];
        if (i >= in.n) {
            continue;
        }

        m = -1;
        if (in.len[i] == 1 && in.k[i][0] == 'a' && in.type[i] == NGX_JSON_INT) {
            m = 0;
        }

        if (in.len[i] == 2 && in.k[i][0] == 'b' && in.k[i][1] == 'c'
            && in.type[i] == NGX_JSON_STRING)
        {
            m = 1;
        }

        if (m >= 0 && !(in.fail && want[0] + want[1])) {
            want[m]++;
            last[m] = &g_kv[i].value;
        }
    }

    g_obj.elts = g_kv;
    g_obj.nelts = in.n;
    rc = ngx_json_object_parse(&vp_pool, &g_obj, g_hash, 3, &g_dest);

    VP_POST(g_calls[0] == (unsigned) want[0] && g_calls[1] == (unsigned) want[1]);
    VP_POST(g_last[0] == last[0] && g_last[1] == last[1] && !g_setbad);
    VP_POST(rc == (in.fail && want[0] + want[1] ? NGX_JSON_ALLOC_FAILED
                   : NGX_JSON_OK));
    VP_COVER(want[0] == 1 && want[1] == 1);
    VP_COVER(want[0] == 2);
}

#endif


/* ------------------------------------------------------------------ */
#ifdef U_PRETTY

/*
 * ngx_json_pretty_write: copies the bytes in order into BSZ-byte buffers (1024 in production),
 * allocating a new one only when the current one is full.  Loop bounded by
 * the source length (at most two buffers are touched here).
 */

VP_DECLARE_INPUT(struct {
    uint32_t  used, n, k;
    uint8_t   fail, b;
})

static u_char  g_src[36];

#ifndef H_DOCS

void
h_json(void)
{
    ngx_int_t                 rv;
    ngx_buf_t                *b0;
    size_t                    left, size;
    ngx_chain_t              *out, *cl, **last;
    ngx_json_pretty_writer_t  ctx;

    VP_LOAD_INPUT();
    VP_PRE(in.used <= BSZ && in.n <= 36 && in.k < in.n);
    g_src[in.k] = in.b;

    last = &out;
    rv = ngx_json_pretty_write_init(&ctx, &vp_pool, last);
    VP_POST(rv == NGX_OK);
    b0 = ctx.b;
    cl = ctx.cl;
    VP_POST(out == cl && cl->buf == b0 && b0->end - b0->start == BSZ);
    b0->last = b0->start + in.used;
    left = BSZ - in.used;

    vp_alloc_fail = in.fail ? 0xffffffff : 0;
    rv = ngx_json_pretty_write(&ctx, g_src, g_src + in.n);

    if (in.n <= left) {
        VP_POST(rv == NGX_OK && ctx.b == b0
                && b0->last == b0->start + in.used + in.n);
        VP_POST(b0->start[in.used + in.k] == in.b);
        VP_COVER(in.n == left);
        return;
    }

    if (in.fail) {
        VP_POST(rv == NGX_ERROR);
        return;
    }

    VP_PRE(in.n - left <= BSZ);
    VP_POST(rv == NGX_OK && b0->last == b0->end && ctx.b != b0
            && cl->next->buf == ctx.b
            && (size_t) (ctx.b->last - ctx.b->start) == in.n - left);
    VP_POST(in.k >= left || b0->start[in.used + in.k] == in.b);
    VP_POST(in.k < left || ctx.b->start[in.k - left] == in.b);

    ngx_json_pretty_write_close(&ctx, &size);
    VP_POST(size == in.used + in.n && ctx.cl->next == NULL);
    VP_COVER(in.k >= left);
}


#else

/* the reformatting itself, on fixed texts */

typedef struct {
    const char  *txt, *want;
    uint8_t      level;
} doc_t;

#define N  "\n"
#define I  "    "

static const doc_t  g_docs[] = {
    { "[]", "[]" },
    { "{ }", "{}" },
    { "{\"a\":1}", "{" N I "\"a\": 1" N "}" },
    { "{\"a\" : [ 1,2 ] , \"b\":\"x y\"}",
      "{" N I "\"a\": [" N I I "1," N I I "2" N I "]," N I "\"b\": \"x y\"" N "}" },
    { "[\"\\\"]\",true]", "[" N I "\"\\\"]\"," N I "true" N "]" },
    { "[null]", "[" N I I "null" N I "]", 1 },
    { " 1 ", "1" },
    { "\"a", "\"a" },
    { "[", "[" },
    { "\"a\\", "\"a\\" },
};

#define NDOCS  (sizeof(g_docs) / sizeof(g_docs[0]))

static void
one(const doc_t *d)
{
    size_t        i, n, w, size;
    u_char       *txt;
    ngx_str_t     s;
    ngx_chain_t  *cl, *out;

    n = strlen(d->txt);
    w = strlen(d->want);
    txt = malloc(n);
    VP_PRE(txt != NULL);
    memcpy(txt, d->txt, n);
    s.data = txt;
    s.len = n;

    out = NULL;
    cl = ngx_json_pretty(&vp_pool, &s, d->level, &out, &size);
    VP_POST(cl != NULL && cl == out && cl->next == NULL);
    VP_POST(size == w && cl->buf->last - cl->buf->pos == (ssize_t) w);
    for (i = 0; i < w; i++) {
        VP_POST(cl->buf->pos[i] == (u_char) d->want[i]);
    }
}

void
h_docs(void)
{
    unsigned  i;

    VP_LOAD_INPUT();
    g_bsz = 1024;

    for (i = 0; i < NDOCS; i++) {
        if (in.n == i) {
            one(&g_docs[i]);
            VP_COVER(i == 4);
            break;
        }
    }
}

#endif

#endif
