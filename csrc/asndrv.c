/* Driver for the native version 3 codec. Requests on fd 0, replies on fd 1: u32 length, then (request) u8 opcode + body, (reply) body. */
#include "asnmsg.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ALLOC 1
#endif
#endif
static size_t live(void) {
#ifdef HAVE_ALLOC
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static void rd(void *p, size_t n) { char *c = p; while (n) { ssize_t r = read(0, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }
static void wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t r = write(1, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }

/* i32 code (0 ok), u64 consumed in bits, i32 constraints ok, message, i32 length of the new encoding or -1, the encoding */
static void examine(const uint8_t *bytes, size_t n, int how) {
    uint8_t *b = malloc(n ? n : 1);
    memcpy(b, bytes, n);
    Telemetry_t *t = NULL;
    asn_dec_rval_t r;
    if (how == 0) r = uper_decode(NULL, &asn_DEF_Telemetry, (void **)&t, b, n, 0, 0);
    else if (how == 1) r = uper_decode_complete(NULL, &asn_DEF_Telemetry, (void **)&t, b, n);
    else r = asn_decode(NULL, ATS_UNALIGNED_BASIC_PER, &asn_DEF_Telemetry, (void **)&t, b, n);
    free(b);                                     /* the message must not point into it */
    put32(r.code); put64(r.consumed);
    if (r.code == RC_OK) {
        char err[256]; size_t el = sizeof err;
        int bad = asn_check_constraints(&asn_DEF_Telemetry, t, err, &el);
        put32(!bad);
        dump(t);
        asn_fprint(nul, &asn_DEF_Telemetry, t);
        size_t x = 0;
        xer_encode(&asn_DEF_Telemetry, t, XER_F_CANONICAL, eat, &x);
        void *nb = NULL;
        ssize_t m = uper_encode_to_new_buffer(&asn_DEF_Telemetry, NULL, t, &nb);
        put32((uint32_t)(int32_t)m);
        if (m >= 0) put(nb, m);
        free(nb);
    }
    ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
}

int main(void) {
    nul = fopen("/dev/null", "w");
    setvbuf(nul, NULL, _IONBF, 0);
    out = malloc(outcap = 1 << 20);
    size_t cap = 1 << 20; uint8_t *req = malloc(cap);
    { size_t x; fprintf(nul, "%f", 1.5); x = live(); (void)x; }
    for (;;) {
        uint32_t n; rd(&n, 4);
        if (n > cap) { req = realloc(req, cap = n); }
        rd(req, n);
        in = req; inn = n; inp = 0; outn = 0;
        int op = get8();
        if (op == 1) {                               /* u8 how, bytes: decode and look at it */
            int how = get8();
            examine(in + inp, inn - inp, how);
        } else if (op == 2) {                        /* u8 how, message: encode */
            int how = get8();
            Telemetry_t *t = build();
            if (how == 0) {
                uint8_t *buf = malloc(4096);
                asn_enc_rval_t e = uper_encode_to_buffer(&asn_DEF_Telemetry, NULL, t, buf, 4096);
                put32((uint32_t)(int32_t)e.encoded);
                if (e.encoded >= 0) put(buf, (e.encoded + 7) / 8);
                free(buf);
            } else {
                void *nb = NULL;
                ssize_t m = uper_encode_to_new_buffer(&asn_DEF_Telemetry, NULL, t, &nb);
                put32((uint32_t)(int32_t)(m < 0 ? m : m * 8));
                if (m >= 0) put(nb, m);
                free(nb);
            }
            ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
        } else if (op == 3) {                        /* message: constraints satisfied? */
            Telemetry_t *t = build();
            char err[256]; size_t el = sizeof err;
            put32(!asn_check_constraints(&asn_DEF_Telemetry, t, err, &el));
            ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
        } else if (op == 4) {                        /* bytes allocated now */
            put64(live());
        }
        uint32_t m = outn;
        wr(&m, 4); wr(out, outn);
    }
}
