/* libFuzzer target: byte 0 selects mode and input form, the rest is bits (through the seam) or samples. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "horus_api.h"
#include "fsk.h"
static const uint8_t *bits; static size_t nbits, pos; static int seam;
static void fill(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[]) {
    for (int i = 0; i < fsk->Nbits; i++) {
        int b = pos < nbits ? (bits[pos / 8] >> (7 - pos % 8)) & 1 : (pos % 3 == 0);
        pos++;
        if (rx_bits) rx_bits[i] = b;
        if (rx_sd) rx_sd[i] = b ? 1 : -1;
    }
}
void __real_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]);
void __wrap_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]) { if (seam) fill(fsk, rx_bits, rx_sd); else __real_fsk_demod_core(fsk, rx_bits, rx_sd, fsk_in); }
void __real_fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP fsk_in[]);
void __wrap_fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP fsk_in[]) { if (seam) fill(fsk, rx_bits, NULL); else __real_fsk_demod(fsk, rx_bits, fsk_in); }
void __real_fsk_demod_sd(struct FSK *fsk, float rx_sd[], COMP fsk_in[]);
void __wrap_fsk_demod_sd(struct FSK *fsk, float rx_sd[], COMP fsk_in[]) { if (seam) fill(fsk, NULL, rx_sd); else __real_fsk_demod_sd(fsk, rx_sd, fsk_in); }

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static const int modes[4] = {HORUS_MODE_BINARY_V1, HORUS_MODE_RTTY_7N1, HORUS_MODE_RTTY_7N2, HORUS_MODE_RTTY_8N2};
    if (size < 2) return 0;
    int sel = data[0]; data++; size--;
    int mode = modes[sel & 3];
    seam = !(sel & 0x80);
    int quad = (sel & 4) ? 1 : 0;
    struct horus *h = horus_open_advanced_sample_rate(mode, 100, (sel & 8) ? 200 : -1, 1600, 8);
    int max = horus_get_max_ascii_out_len(h);
    int hs = quad ? 2 : 1;
    bits = data; nbits = size * 8; pos = 0;
    size_t sp = 0;
    for (int blocks = 0; blocks < 60; blocks++) {
        int nin = horus_nin(h);
        if ((size_t)nin * 2 > (size_t)horus_get_max_demod_in(h)) __builtin_trap();
        short *in = malloc(sizeof(short) * nin * hs);
        for (int i = 0; i < nin * hs; i++) { in[i] = seam ? 0 : (short)(data[sp % size] << 8 | data[(sp + 1) % size]); sp += 2; }
        char *out = malloc(max); memset(out, 0x7e, max);
        int r = horus_rx(h, out, in, quad);
        if (r && !memchr(out, 0, max)) __builtin_trap();
        free(out); free(in);
        if (seam ? pos >= nbits + 1300 : sp >= size + 2000) break;
    }
    struct MODEM_STATS *st = malloc(sizeof *st); horus_get_modem_extended_stats(h, st); free(st);
    horus_close(h);
    return 0;
}
