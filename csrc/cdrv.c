/* Driver for the modem and layer-2 library. Requests on fd 0, replies on fd 1:
   u32 length, then (request) u8 opcode + body, (reply) body. All integers little endian. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <math.h>
#include "horus_api.h"
#include "horus_l2.h"
#include "fsk.h"
#include "golay23.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#define HAVE_LSAN 1
#endif
#endif

extern int horus_packet_version(struct horus *hstates);

/* ---- seam: bits in place of demodulated audio ------------------------------------------------ */
static const uint8_t *seam_bits; static int seam_active, seam_calls;
static void seam_fill(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[]) {
    seam_calls++;
    for (int i = 0; i < fsk->Nbits; i++) {
        if (rx_bits) rx_bits[i] = seam_bits[i];
        if (rx_sd) rx_sd[i] = seam_bits[i] ? 1.0f : -1.0f;
    }
}
void __real_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]);
void __wrap_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]) {
    if (!seam_active) __real_fsk_demod_core(fsk, rx_bits, rx_sd, fsk_in); else seam_fill(fsk, rx_bits, rx_sd);
}
void __real_fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP fsk_in[]);
void __wrap_fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP fsk_in[]) {
    if (!seam_active) __real_fsk_demod(fsk, rx_bits, fsk_in); else seam_fill(fsk, rx_bits, NULL);
}
void __real_fsk_demod_sd(struct FSK *fsk, float rx_sd[], COMP fsk_in[]);
void __wrap_fsk_demod_sd(struct FSK *fsk, float rx_sd[], COMP fsk_in[]) {
    if (!seam_active) __real_fsk_demod_sd(fsk, rx_sd, fsk_in); else seam_fill(fsk, NULL, rx_sd);
}

/* ---- I/O --------------------------------------------------------------------------------------- */
static void rd(void *p, size_t n) { char *c = p; while (n) { ssize_t r = read(0, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }
static void wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t r = write(1, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }
static uint8_t *out; static size_t outn, outcap;
static void put(const void *p, size_t n) {
    if (outn + n > outcap) { outcap = (outn + n) * 2 + 256; out = realloc(out, outcap); }
    memcpy(out + outn, p, n); outn += n;
}
static void put8(uint8_t v) { put(&v, 1); }
static void put32(uint32_t v) { put(&v, 4); }
static void putf(float v) { put(&v, 4); }
static const uint8_t *in; static size_t inn, inp;
static const uint8_t *get(size_t n) { if (inp + n > inn) { fprintf(stderr, "DRIVER: short request\n"); _exit(97); } const uint8_t *p = in + inp; inp += n; return p; }
static uint8_t get8(void) { return *get(1); }
static int32_t get32(void) { int32_t v; memcpy(&v, get(4), 4); return v; }
static float getf(void) { float v; memcpy(&v, get(4), 4); return v; }

/* ---- demodulators ------------------------------------------------------------------------------ */
#define MAXH 64
static struct { struct horus *h; short *fifo; size_t nfifo; int quad; int frames; long consumed; } H[MAXH];
static int Nbits_of(struct horus *h) { /* two-tone modes 1 bit, four-tone 2 bits per symbol, FSK_DEFAULT_NSYM symbols */
    return FSK_DEFAULT_NSYM * (horus_get_mFSK(h) == 4 ? 2 : 1);
}

/* one horus_rx call with exact-size heap buffers; appends an event when it reports something or misbehaves */
static void one_rx(int id, const short *samples, int nin, int want_all) {
    struct horus *h = H[id].h; int q = H[id].quad;
    int hs = q ? 2 : 1;
    short *din = malloc(sizeof(short) * (nin > 0 ? nin : 1) * hs);
    if (samples) memcpy(din, samples, sizeof(short) * nin * hs); else memset(din, 0, sizeof(short) * nin * hs);
    int max = horus_get_max_ascii_out_len(h);
    char *txt = malloc(max);
    memset(txt, 0x7E, max);
    int ret = horus_rx(h, txt, din, q);
    int frame = H[id].frames++;
    if (ret || want_all) {
        int n = 0; while (n < max && txt[n]) n++;
        put8(1); put32(frame); put32(ret); put32(horus_crc_ok(h)); put32(horus_packet_version(h));
        put32(horus_get_total_payload_bits(h));
        put32(n < max ? 1 : 0); put32(n); put(txt, n);
    }
    free(txt); free(din);
}

int main(void) {
    setvbuf(stderr, NULL, _IONBF, 0);
    uint8_t *buf = NULL; 
    for (;;) {
        uint32_t len; rd(&len, 4);
        buf = realloc(buf, len ? len : 1); rd(buf, len);
        in = buf; inn = len; inp = 0; outn = 0;
        uint8_t op = get8();
        switch (op) {
        case 1: { /* encode */
            int n = get32();
            uint8_t *p = malloc(n); memcpy(p, get(n), n);
            int m = horus_l2_get_num_tx_data_bytes(n);
            uint8_t *t = malloc(m);
            memset(t, 0xA5, m);
            int r = horus_l2_encode_tx_packet(t, p, n);
            put32(m); put32(r); put(t, m); put(p, n); free(t); free(p); break; }
        case 2: { /* decode: the received buffer has exactly the advertised packet size */
            int n = get32(); int m = get32();
            horus_l2_init();
            uint8_t *t = malloc(m); memcpy(t, get(m), m);
            uint8_t *p = malloc(n); memset(p, 0x5A, n);
            horus_l2_decode_rx_packet(p, t, n);
            put(p, n); free(p); free(t); break; }
        case 3: { int n = get32(); put32(horus_l2_get_num_tx_data_bytes(n)); break; }
        case 4: { int n = get32(); uint8_t *p = malloc(n ? n : 1); memcpy(p, get(n), n); put32(horus_l2_gen_crc16(p, (unsigned char)n)); free(p); break; }
        case 5: { /* golay: list of received words -> decoded, count_errors(received, decoded), syndrome of word */
            golay23_init();
            int k = get32();
            for (int i = 0; i < k; i++) { int w = get32(); int d = golay23_decode(w); put32(d); put32(golay23_count_errors(w, d)); }
            break; }
        case 6: { golay23_init(); int k = get32(); for (int i = 0; i < k; i++) put32(golay23_encode(get32())); break; }
        case 7: { /* golay exhaustive: words [a,b), step; fold mismatch against xor-weight law into reply */
            golay23_init();
            int a = get32(), b = get32(); int bad = 0, first = -1;
            for (int w = a; w < b; w++) {
                int d = golay23_decode(w);
                int enc = golay23_encode((d >> 11) & 0xfff);
                int dist = __builtin_popcount((d ^ w) & 0x7fffff);
                if (enc != d || dist > 3) { if (!bad) first = w; bad++; }
            }
            put32(bad); put32(first); break; }
        case 10: { /* open */
            int id = get8(); int mode = get32(), Rs = get32(), sp = get32(), Fs = get32(), P = get32(), q = get8();
            if (H[id].h) { fprintf(stderr, "DRIVER: handle in use\n"); _exit(97); }
            H[id].h = P > 0 ? horus_open_advanced_sample_rate(mode, Rs, sp, Fs, P) : (Rs == 0 ? horus_open(mode) : horus_open_advanced(mode, Rs, sp));
            H[id].quad = q; H[id].nfifo = 0; H[id].fifo = NULL; H[id].frames = 0; H[id].consumed = 0;
            put32(H[id].h != NULL); put32(horus_get_Fs(H[id].h)); put32(horus_get_mFSK(H[id].h));
            put32(horus_nin(H[id].h)); put32(horus_get_max_demod_in(H[id].h)); put32(horus_get_max_ascii_out_len(H[id].h));
            put32(horus_get_mode(H[id].h)); break; }
        case 11: { int id = get8(); horus_close(H[id].h); H[id].h = NULL; free(H[id].fifo); H[id].fifo = NULL; H[id].nfifo = 0; break; }
        case 12: { for (int i = 0; i < MAXH; i++) if (H[i].h) { horus_close(H[i].h); H[i].h = NULL; free(H[i].fifo); H[i].fifo = NULL; } break; }
        case 13: { /* push samples: flags bit0 = report every block */
            int id = get8(); int fl = get8(); int n = get32(); /* shorts */
            const uint8_t *s = get((size_t)n * 2);
            H[id].fifo = realloc(H[id].fifo, (H[id].nfifo + n) * 2 + 2);
            memcpy(H[id].fifo + H[id].nfifo, s, (size_t)n * 2); H[id].nfifo += n;
            int hs = H[id].quad ? 2 : 1; size_t pos = 0;
            for (;;) {
                int nin = horus_nin(H[id].h); int max = horus_get_max_demod_in(H[id].h);
                if (nin < 0 || (size_t)nin * sizeof(short) > (size_t)max) { put8(2); put32(nin); put32(max); break; }
                if (nin == 0) { put8(3); break; }
                if (H[id].nfifo - pos < (size_t)nin * hs) break;
                one_rx(id, H[id].fifo + pos, nin, fl & 1);
                H[id].consumed += nin; pos += (size_t)nin * hs;
            }
            memmove(H[id].fifo, H[id].fifo + pos, (H[id].nfifo - pos) * 2); H[id].nfifo -= pos;
            put8(0); break; }
        case 14: { /* push bits through the seam; bit count must be a multiple of the block size */
            int id = get8(); int fl = get8(); int n = get32(); const uint8_t *b = get(n);
            int nb = Nbits_of(H[id].h);
            if (n % nb) { fprintf(stderr, "DRIVER: bits not a multiple of %d\n", nb); _exit(97); }
            seam_active = 1; int c0 = seam_calls;
            for (int i = 0; i < n; i += nb) { seam_bits = b + i; one_rx(id, NULL, horus_nin(H[id].h), fl & 1); }
            seam_active = 0;
            put8(0); put32(seam_calls - c0); break; }
        case 15: { /* statistics */
            int id = get8(); struct MODEM_STATS *st = malloc(sizeof *st); 
            memset(st, 0, sizeof *st);
            horus_get_modem_extended_stats(H[id].h, st);
            int sync; float snr; horus_get_modem_stats(H[id].h, &sync, &snr);
            putf(st->snr_est); putf(snr); put32(sync); putf(st->rx_timing);
            for (int i = 0; i < horus_get_mFSK(H[id].h); i++) putf(st->f_est[i]);
            for (int i = horus_get_mFSK(H[id].h); i < 4; i++) putf(0);
            put32(st->neyetr); put32(st->neyesamp); putf(st->clock_offset); put32(st->Nc); putf(st->foff);
            put32(H[id].frames); put32((uint32_t)H[id].consumed);
            free(st); break; }
        case 22: { /* all statistics */
            int id = get8(); struct MODEM_STATS *st = malloc(sizeof *st);
            memset(st, 0, sizeof *st);
            horus_get_modem_extended_stats(H[id].h, st);
            put32(st->Nc); put32(st->nr); put32(st->sync); put32(st->neyetr); put32(st->neyesamp);
            putf(st->snr_est); putf(st->foff); putf(st->rx_timing); putf(st->clock_offset); putf(st->sync_metric);
            for (int i = 0; i < MODEM_STATS_MAX_F_EST; i++) putf(i < horus_get_mFSK(H[id].h) ? st->f_est[i] : 0);
            for (int i = 0; i < st->nr && i < MODEM_STATS_NR_MAX; i++) for (int j = 0; j < st->Nc && j <= MODEM_STATS_NC_MAX; j++) { putf(st->rx_symbols[i][j].real); putf(st->rx_symbols[i][j].imag); }
            for (int i = 0; i < st->neyetr && i < MODEM_STATS_ET_MAX; i++) for (int j = 0; j < st->neyesamp && j < MODEM_STATS_EYE_IND_MAX; j++) putf(st->rx_eye[i][j]);
            free(st); break; }
        case 16: { int id = get8(); float a = getf(), b = getf(); horus_set_freq_est_limits(H[id].h, a, b); break; }
        case 17: {
#ifdef HAVE_LSAN
            put32(__lsan_do_recoverable_leak_check());
#else
            put32(0);
#endif
            break; }
        case 21: { /* bytes now allocated */
            free(out); out = NULL; outcap = 0;
#ifdef HAVE_LSAN
            size_t n = __sanitizer_get_current_allocated_bytes();
#else
            size_t n = 0;
#endif
            put32((uint32_t)n); put32((uint32_t)((uint64_t)n >> 32)); break; }
        case 18: { int id = get8(); put32(horus_nin(H[id].h)); put32(horus_get_max_demod_in(H[id].h)); put32(Nbits_of(H[id].h)); put32(horus_crc_ok(H[id].h)); put32(horus_packet_version(H[id].h)); put32(horus_get_total_payload_bits(H[id].h)); break; }
        case 19: { int id = get8(); horus_set_verbose(H[id].h, get8()); break; }
        case 20: { /* FSK modulator/demodulator API loop: Fs Rs M P f1 fs bits -> demodulated bits (real or complex) */
            int Fs = get32(), Rs = get32(), M = get32(), P = get32(), f1 = get32(), fs = get32(), cplx = get8(), mask = get8(); int n = get32();
            const uint8_t *b = get(n);
            struct FSK *m = fsk_create_hbr(Fs, Rs, M, P, FSK_DEFAULT_NSYM, f1, fs), *d = fsk_create_hbr(Fs, Rs, M, P, FSK_DEFAULT_NSYM, f1, fs);
            fsk_set_freq_est_alg(d, mask);
            COMP *fifo = NULL; size_t nf = 0;
            int nb = m->Nbits, N = m->N;
            for (int i = 0; i + nb <= n; i += nb) {
                fifo = realloc(fifo, (nf + N) * sizeof(COMP));
                uint8_t *tb = malloc(nb); memcpy(tb, b + i, nb);
                if (cplx) { COMP *o = malloc(N * sizeof(COMP)); fsk_mod_c(m, o, tb); memcpy(fifo + nf, o, N * sizeof(COMP)); free(o); }
                else { float *o = malloc(N * sizeof(float)); fsk_mod(m, o, tb); for (int k = 0; k < N; k++) { fifo[nf + k].real = o[k] * 1000; fifo[nf + k].imag = 0; } free(o); }
                free(tb); nf += N;
            }
            size_t pos = 0; uint8_t *rb = malloc(nb); int cnt = 0;
            size_t mark = outn; put32(0);
            while (fsk_nin(d) <= nf - pos) {
                int nin = fsk_nin(d); COMP *x = malloc(nin * sizeof(COMP)); memcpy(x, fifo + pos, nin * sizeof(COMP)); pos += nin;
                fsk_demod(d, rb, x); free(x); put(rb, nb); cnt += nb;
            }
            memcpy(out + mark, &cnt, 4);
            free(rb); free(fifo); fsk_destroy(m); fsk_destroy(d); break; }
        case 99: break;
        default: fprintf(stderr, "DRIVER: unknown op %d\n", op); _exit(97);
        }
        uint32_t on = outn; wr(&on, 4); wr(out, outn);
    }
}
