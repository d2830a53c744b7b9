/* libFuzzer target: byte 0 selects the entry point, the rest is decoded, checked, printed, encoded and decoded again. */
#include "asnmsg.h"
#include <sanitizer/allocator_interface.h>
static asn_dec_rval_t dec(int how, Telemetry_t **t, const uint8_t *b, size_t n) {
    uint8_t *c = malloc(n ? n : 1);
    memcpy(c, b, n);
    asn_dec_rval_t r;
    if (how == 0) r = uper_decode(NULL, &asn_DEF_Telemetry, (void **)t, c, n, 0, 0);
    else if (how == 1) r = uper_decode_complete(NULL, &asn_DEF_Telemetry, (void **)t, c, n);
    else r = asn_decode(NULL, ATS_UNALIGNED_BASIC_PER, &asn_DEF_Telemetry, (void **)t, c, n);
    free(c);
    return r;
}
static void once(const uint8_t *data, size_t size) {
    Telemetry_t *t = NULL, *u = NULL;
    outn = 0;
    asn_dec_rval_t r = dec(data[0] % 3, &t, data + 1, size - 1);
    if (r.code == RC_OK) {
        char err[256]; size_t el = sizeof err, x = 0;
        int good = !asn_check_constraints(&asn_DEF_Telemetry, t, err, &el);
        asn_fprint(nul, &asn_DEF_Telemetry, t);
        xer_encode(&asn_DEF_Telemetry, t, XER_F_CANONICAL, eat, &x);
        void *nb = NULL;
        ssize_t m = uper_encode_to_new_buffer(&asn_DEF_Telemetry, NULL, t, &nb);
        if (good && m < 0) { fprintf(stderr, "\nERROR: a message that satisfies the schema cannot be encoded again\n"); abort(); }
        if (good) {
            dump(t);
            size_t n1 = outn;
            r = dec(1, &u, nb, m);
            if (r.code != RC_OK) { fprintf(stderr, "\nERROR: the new encoding does not decode\n"); abort(); }
            dump(u);
            if (outn != 2 * n1 || memcmp(out, out + n1, n1)) { fprintf(stderr, "\nERROR: the new encoding decodes to a different message\n"); abort(); }
        }
        free(nb);
    }
    ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
    ASN_STRUCT_FREE(asn_DEF_Telemetry, u);
}
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (size < 1) return 0;
    if (!nul) { nul = fopen("/dev/null", "w"); setvbuf(nul, NULL, _IONBF, 0); out = malloc(outcap = 1 << 20); once(data, size); }
    size_t a = __sanitizer_get_current_allocated_bytes();
    once(data, size);
    size_t b = __sanitizer_get_current_allocated_bytes();
    if (b > a) {                                         /* (the output buffer may have grown the first time) */
        a = b;
        once(data, size);
        b = __sanitizer_get_current_allocated_bytes();
        if (b > a) { fprintf(stderr, "\nERROR: %zu bytes leaked\n", b - a); abort(); }
    }
    return 0;
}
