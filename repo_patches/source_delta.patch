From 69ed31f8f3844b462a6c36e54a82d5d45849faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 01/35] fix: do not read past the end of the packet when the
 parity bits fill whole bytes

---
 src/horus_l2.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..2acc00f 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -304,9 +304,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     unsigned char *pin  = input_rx_data;
     int            ninbit, ingolay, ningolay, paritybyte, nparitybits;
     int            ninbyte, shift, inbit, golayparitybit, i, outbit, outbyte, noutbits, outdata;
-    #if defined(SCRAMBLER) || defined(INTERLEAVER)
     int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
-    #endif
+    unsigned char *pin_end = input_rx_data + num_tx_data_bytes;
     
     /* optional scrambler and interleaver - we dont interleave UW */
 
@@ -368,7 +367,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 if (i != 10)
                     ingolay <<=1;
                 nparitybits++;
-                if ((nparitybits % 8) == 0) {
+                if ((nparitybits % 8) == 0 && pin < pin_end) {
                     /* OK grab a new byte */
                     paritybyte = *pin++;
                     #ifdef DEBUG0
@@ -426,7 +425,7 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
             if (i != 10)
                 golayparity <<=1;
             nparitybits++;
-            if ((nparitybits % 8) == 0) {
+            if ((nparitybits % 8) == 0 && pin < pin_end) {
                 /* OK grab a new byte */
                 paritybyte = *pin++;
                 #ifdef DEBUG0
-- 
2.43.0


From b238b48b231261bdcbd4f587a12ddf2c1b33e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 02/35] fix: keep RTTY extraction inside the received bits and
 the output buffer

---
 src/horus_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..a60c40d 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -355,6 +355,11 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     
     for (i=st; i<en; i+=nfield+npad) {
 
+        /* stay inside the received bits and the output buffer (leaving room for termination) */
+
+        if ((i+nfield > hstates->rx_bits_len) || (nout >= horus_get_max_ascii_out_len(hstates)-1))
+            break;
+
         /* assemble char LSB to MSB */
 
         char_dec = 0;
-- 
2.43.0


From d92fe18c01d1b31442832e39d4c0a0a21e54eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 03/35] fix: count the leading $s of an RTTY sentence only in
 the characters received

---
 src/horus_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index a60c40d..2fe55a7 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -380,12 +380,12 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             endpacket = 1;
             rtty_start = 0;
             // Find the end of the $$s
-            for(k = 0; k<8; k++){
+            for(k = 0; k<8 && k<nout; k++){
                 if(ascii_out[k] != 36){
-                    rtty_start = k;
                     break;
                 }
             }
+            rtty_start = k;
             if(hstates->verbose){
                 fprintf(stderr, "  Found %d $s\n", rtty_start);
             }
-- 
2.43.0


From 2c8a3cbb98d09a946f30d52c7e1556ca0aaad250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 04/35] fix: do not accept RTTY checksums with non-hexadecimal
 digits

---
 src/horus_api.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 2fe55a7..4722098 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -411,15 +411,18 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3))) {
+        int hex_ok = 1;
         tx_crc = 0;
         for(i=0; i<4; i++) {
+            if (hex2int(ptx_crc[i]) < 0)
+                hex_ok = 0;
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = hex_ok && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From 0f83209c0f056fda800ea448661315a8a58cb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 05/35] fix: clear all unique words near a decoded RTTY
 sentence, so it is reported once

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 4722098..03d4b8b 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -719,8 +719,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                const int uw_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -736,8 +737,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                const int uw_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -752,8 +754,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                const int uw_found = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - uw_found < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From ac2cf2c8df36ee07d4d3c6850c9ff1f7d0d25674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 06/35] fix: give the statistics and packet version known
 values before the first block

---
 src/fsk.c       | 7 ++++++-
 src/horus_api.c | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..15e59e9 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -192,7 +192,8 @@ struct FSK * fsk_create_core(int Fs, int Rs, int M, int P, int Nsym, int tx_f1,
     fsk->EbNodB = 0;
     
     for( i=0; i<M; i++)
-        fsk->f_est[i] = 0; 
+        fsk->f_est[i] = fsk->f2_est[i] = 0; 
+    fsk->freq_est_type = 0;
     
     fsk->ppm = 0;
     
@@ -980,6 +981,10 @@ static void stats_init(struct FSK *fsk) {
     }
 
     fsk->stats->rx_timing = fsk->stats->snr_est = 0;
+    fsk->stats->clock_offset = fsk->stats->foff = 0;
+    fsk->stats->nr = fsk->stats->Nc = 0;
+    for(i=0; i<M; i++)
+        fsk->stats->f_est[i] = 0;
     
 }
 
diff --git a/src/horus_api.c b/src/horus_api.c
index 03d4b8b..866e1ed 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -250,6 +250,7 @@ struct horus *horus_open_advanced_sample_rate (int mode, int Rs, int tx_tone_spa
     }
 
     hstates->crc_ok = 0;
+    hstates->version = 0;
     hstates->total_payload_bits = 0;
     
     return hstates;
-- 
2.43.0


From f24e0e45c211601a0e234813ab8a40baf202389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 07/35] fix: compute tone search bins in 64 bits, so high rate
 ratios do not overflow

---
 src/fsk.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fsk.c b/src/fsk.c
index 15e59e9..8749903 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -460,11 +460,11 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
     kiss_fft_cpx *fftout = (kiss_fft_cpx*)malloc(sizeof(kiss_fft_cpx)*Ndft);
     #endif
     
-    st = (fsk->est_min*Ndft)/Fs + Ndft/2; if (st < 0) st = 0;
-    en = (fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft;
+    st = ((int64_t)fsk->est_min*Ndft)/Fs + Ndft/2; if (st < 0) st = 0;
+    en = ((int64_t)fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft;
     //fprintf(stderr, "min: %d max: %d st: %d en: %d\n", fsk->est_min, fsk->est_max, st, en);
     
-    f_zero = (fsk->est_space*Ndft)/Fs;
+    f_zero = ((int64_t)fsk->est_space*Ndft)/Fs;
 
     int numffts = floor((float)nin/(Ndft/2)) - 1;
     for(j=0; j<numffts; j++){
@@ -579,7 +579,7 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
             b_max = b;
         }
     }
-    float foff = (b_max-Ndft/2)*Fs/Ndft;
+    float foff = (int64_t)(b_max-Ndft/2)*Fs/Ndft;
     //fprintf(stderr, "fsk->fs_tx: %d\n",fsk->fs_tx);
     for (int m=0; m<M; m++)
         fsk->f2_est[m] = foff + m*fsk->fs_tx;
-- 
2.43.0


From 2dd6b9d8a1592f0796f3dfc8f0606be287905410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 08/35] fix: free the soft bit and spectrum buffers when a
 demodulator is closed

---
 src/fsk.c       | 1 +
 src/horus_api.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index 8749903..d276dfc 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -252,6 +252,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
+    free(fsk->Sf);
     free(fsk->fft_cfg);
     free(fsk->stats);
     free(fsk->hann_table);
diff --git a/src/horus_api.c b/src/horus_api.c
index 866e1ed..24f1033 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -260,6 +260,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From 3cf3155fd6b3b5f5f8e42bb68b43dabb6c9539b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 09/35] fix: do not divide the eye diagram by zero when the
 input is silent

---
 src/fsk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index d276dfc..fda96c4 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -912,7 +912,8 @@ void fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_
                 if(fabsf(fsk->stats->rx_eye[i][j])>eye_max)
                     eye_max = fabsf(fsk->stats->rx_eye[i][j]);
         
-        for(i=0; i<M*eye_traces; i++)
+        /* an all zero input has no eye to normalise */
+        for(i=0; (i<M*eye_traces) && (eye_max > 0); i++)
             for(j=0; j<neyesamp; j++)
                 fsk->stats->rx_eye[i][j] = fsk->stats->rx_eye[i][j]/eye_max;
     }
-- 
2.43.0


From 9be7dafc584e92eea52c30495c8d48a13f988099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 10/35] fix: only decode the terminated part of an RTTY
 sentence, not what lies behind it

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..f64fbcd 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -211,7 +211,7 @@ class HorusLib():
             # Ascii
             try:
                 # Same thing here - we might have multiple bits of data
-                data_out = data_out.decode("ascii").split('\0')[0]
+                data_out = data_out.split(b'\0')[0].decode("ascii")
             except Exception as e:
                 logging.error(f"Couldn't decode ASCII - {str(e)} - {str(data_out)}")
                 data_out = ""
-- 
2.43.0


From 8905aade8604de60ea294f971f252fec64916445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 11/35] fix: demodulate the last full block of samples without
 waiting for more

---
 horusdemodlib/demod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index f64fbcd..2e286d3 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -243,7 +243,7 @@ class HorusLib():
         while _processing:
             # Process data until we have less than _nin samples.
             _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) > (_nin * 2):
+            if len(self.input_buffer) >= (_nin * 2):
                 # Demodulate
                 _frame = self.demodulate(self.input_buffer[:(_nin*2)])
 
-- 
2.43.0


From 315bddc54591f26eb29810dfb7a6c66736bc2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 12/35] fix: resample audio before dividing it into blocks, so
 no block is short or reads past its end

---
 horusdemodlib/demod.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 2e286d3..4e95d0d 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -122,6 +122,8 @@ class HorusLib():
 
         self.callback = callback
 
+        # audio as given, and resampled to the modem sample rate
+        self.raw_buffer = bytearray(b"")
         self.input_buffer = bytearray(b"")
 
         
@@ -178,9 +180,17 @@ class HorusLib():
         demod_in : bytes
             16bit, signed for audio in. You'll need .nin frames in to work correctly.
         """
-        # resample to 48khz
-        (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return self._demodulate_block(self._resample(demod_in))
 
+    def _resample(self, samples: bytes) -> bytes:
+        """ Resample audio to the modem's 48 kHz """
+        (samples, self.resampler_state) = audioop.ratecv(samples, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        return samples
+
+    def _demodulate_block(self, demod_in: bytes) -> Frame:
+        """ Demodulate one block of 48 kHz audio """
+        # the modem always reads .nin frames, so never hand it less
+        demod_in = bytes(demod_in).ljust(self.nin * 2 * (1+int(self.stereo_iq)), b'\0')
 
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
@@ -235,17 +245,20 @@ class HorusLib():
     def add_samples(self, samples: bytes):
         """ Add samples to a input buffer, to pass on to demodulate when we have nin samples """
 
-        # Add samples to input buffer
-        self.input_buffer.extend(samples)
+        # Add whole samples to input buffer, resampled to the modem sample rate
+        self.raw_buffer.extend(samples)
+        _usable = len(self.raw_buffer) - len(self.raw_buffer) % (2 * (1+int(self.stereo_iq)))
+        self.input_buffer.extend(self._resample(bytes(self.raw_buffer[:_usable])))
+        self.raw_buffer = self.raw_buffer[_usable:]
 
         _processing = True
         _frame = None
         while _processing:
             # Process data until we have less than _nin samples.
-            _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
+            _nin = self.nin * (1+int(self.stereo_iq))
             if len(self.input_buffer) >= (_nin * 2):
                 # Demodulate
-                _frame = self.demodulate(self.input_buffer[:(_nin*2)])
+                _frame = self._demodulate_block(self.input_buffer[:(_nin*2)])
 
                 # Advance sample buffer.
                 self.input_buffer = self.input_buffer[(_nin*2):]
-- 
2.43.0


From 953e1f3a3e63515f30d6d22e72400b9a0853d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 13/35] fix: use the 4FSK soft decision polarity in test frame
 mode

---
 src/fsk_demod.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fsk_demod.c b/src/fsk_demod.c
index f245822..b2f18b0 100644
--- a/src/fsk_demod.c
+++ b/src/fsk_demod.c
@@ -317,7 +317,8 @@ int main(int argc,char *argv[]){
                     bitbuf_rx[i] = bitbuf_rx[i+1];
                 }
                 if (soft_dec_mode == 1) {
-                    bitbuf_rx[TEST_FRAME_SIZE-1] = sdbuf[j] < 0.0;
+                    /* soft decisions are positive for a 0 in 2FSK, and for a 1 in 4FSK */
+                    bitbuf_rx[TEST_FRAME_SIZE-1] = (M == 2) ? (sdbuf[j] < 0.0) : (sdbuf[j] > 0.0);
                 }
                 else {
                     bitbuf_rx[TEST_FRAME_SIZE-1] = bitbuf[j];
-- 
2.43.0


From 1acede8112fc3ad5d04f1d7d937dd3548662fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 14/35] fix: refuse NaN coordinates instead of passing them on
 as a position

---
 horusdemodlib/delegates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..484e6b7 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,8 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    # Written so that NaN is refused as well.
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From fd6002fc3759564cb0648a6c937a382b4ac10782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 15/35] fix: raise the payload_id type error instead of
 returning it

---
 horusdemodlib/delegates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index 484e6b7..1da096e 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -18,7 +18,7 @@ def decode_payload_id(data: int) -> str:
     """
 
     if type(data) != int:
-        return ValueError("payload_id - Invalid input type.")
+        raise ValueError("payload_id - Invalid input type.")
 
     if data in horusdemodlib.payloads.HORUS_PAYLOAD_LIST:
         _str = horusdemodlib.payloads.HORUS_PAYLOAD_LIST[data]
-- 
2.43.0


From 16a9bc337c42f73caea246fb46f0cff74f41b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 16/35] fix: report packet contents the ASN.1 codec chokes on
 as a ValueError

---
 horusdemodlib/decoder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..9e780a8 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -164,7 +164,13 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     
     if  packet_format['name'] == "Horus Binary v3":
         # Attempt an ASN.1 decode. Check the constraints in case we have been given some sus data.
-        _raw_fields = HORUS_ASN.decode("Telemetry", data[2:], check_constraints=True)
+        try:
+            _raw_fields = HORUS_ASN.decode("Telemetry", data[2:], check_constraints=True)
+        except asn1tools.Error:
+            raise
+        except Exception as e:
+            # The codec lets other exceptions (IndexError, NotImplementedError, ...) escape for some malformed contents.
+            raise ValueError(f"Decoder - Could not decode packet contents: {type(e).__name__} {e}") from e
         _ukhas_obj = deepcopy(_raw_fields)
         if 'customData' in _ukhas_obj:
             _ukhas_obj['customData'] = _ukhas_obj['customData'].hex()
-- 
2.43.0


From 5a00d26d75da11e10edd412d2ddfcf907b5fa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:07 +0000
Subject: [PATCH 17/35] fix: check the checksum of version 3 packets given
 their format, and report the checksum result truthfully

---
 horusdemodlib/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 9e780a8..c98cacf 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -134,10 +134,12 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     if packet_format['name'] != "Horus Binary v3":
         # check CRC first as it might be horus binary v3 that hasn't completed yet
         _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'])
+    else:
+        _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'], tail=False)
     if (not _crc_ok) and (not ignore_crc):
         raise ValueError("Decoder - CRC Failure.")
     else:
-        _output['crc_ok'] = True
+        _output['crc_ok'] = _crc_ok
     
     # Report the modulation type
     if 'v1' in packet_format['name']:
-- 
2.43.0


From f43b74940abe6fc0a77bdb519612be9fc2303fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 18/35] fix: encode the mantissa of native reals without a
 leading zero octet

---
 horusbinaryv3/clib/REAL.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index f1d0665..777de5c 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -668,6 +668,7 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 	char assertion_buffer1[9 - sizeof(dbl_value)] CC_NOTUSED;
 	char assertion_buffer2[sizeof(dbl_value) - 7] CC_NOTUSED;
 	uint8_t *ptr = buf;
+	uint8_t *mstart;	/* First byte of mantissa */
 	uint8_t *mstop;		/* Last byte of mantissa */
 	unsigned int mval;	/* Value of the last byte of mantissa */
 	unsigned int bmsign;	/* binary mask with sign */
@@ -809,8 +810,10 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 		*ptr++ = expval;
 	}
 
-	buflen = (mstop - dscr) + 1;
-	memcpy(ptr, dscr, buflen);
+	/* The shift may have emptied the first octet, which must not be sent: 11.3.1 */
+	mstart = (dscr[0] == 0 && mstop > dscr) ? dscr + 1 : dscr;
+	buflen = (mstop - mstart) + 1;
+	memcpy(ptr, mstart, buflen);
 	ptr += buflen;
 	buflen = ptr - buf;
 
-- 
2.43.0


From a28f1422e308f8a8b226d452a191fca285207d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 19/35] fix: encode subnormal reals natively with the value
 they have

---
 horusbinaryv3/clib/REAL.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index 777de5c..870a682 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -724,6 +724,9 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 		return 0;
 	}
 
+	/* Subnormal values have no implicit leading 1: bring them into the normal range */
+	if(expval < -1022) dbl_value = ldexp(dbl_value, 64);
+
 	if(float_big_endian) {
 		uint8_t *s = ((uint8_t *)&dbl_value) + 1;
 		uint8_t *end = ((uint8_t *)&dbl_value) + sizeof(double);
-- 
2.43.0


From ec96de2f2cc8e25edb249691e4fbf0bba6bd63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 20/35] fix: do not pass the unknown altitude marker on as a
 telemetry field

---
 horusdemodlib/decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index c98cacf..61fab09 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -187,8 +187,9 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
         _output["packet_format"]['length'] = len(data)
 
         
-        if _raw_fields["altitudeMeters"] != -1000:
-            _output["altitude"] = _raw_fields.pop("altitudeMeters") 
+        _altitude = _raw_fields.pop("altitudeMeters")
+        if _altitude != -1000: # -1000 stands for an unknown altitude
+            _output["altitude"] = _altitude
             _output["packet_format"]["fields"].append(["altitude", "none"])
 
         if 'gnssSatellitesVisible' in _raw_fields:
-- 
2.43.0


From aa6e54ac3ddc52036fe04d5c71255c47eb587a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 21/35] fix: skip unknown extensions of any length in the
 native decoder

---
 horusbinaryv3/clib/per_opentype.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horusbinaryv3/clib/per_opentype.c b/horusbinaryv3/clib/per_opentype.c
index f86dad7..ac9951e 100644
--- a/horusbinaryv3/clib/per_opentype.c
+++ b/horusbinaryv3/clib/per_opentype.c
@@ -296,6 +296,8 @@ uper_sot_suck(const asn_codec_ctx_t *ctx, const asn_TYPE_descriptor_t *td,
 	(void)sptr;
 
 	while(per_get_few_bits(pd, 24) >= 0);
+	/* The last few bits, fewer than 24, are part of it as well */
+	while(per_get_few_bits(pd, 1) >= 0);
 
 	rv.code = RC_OK;
 	rv.consumed = pd->moved;
-- 
2.43.0


From 2058a1fee48c7d43bac429bfd70fdef51615c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 22/35] fix: clip minutes and ascent rate correctly and round
 scaled fields when creating packets

---
 horusdemodlib/encoder.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..3a64e44 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
@@ -276,24 +276,16 @@ class Encoder():
             battery_voltage = 5.0
         elif battery_voltage < 0.0:
             battery_voltage = 0.0
-        battery_voltage = int(255 * battery_voltage/5.0)
+        battery_voltage = round(255 * battery_voltage/5.0)
 
         ## Default Custom Field data
 
         # Ascent rate is in the range -327.68 to 327.67 m/s
-        ascent_rate_100 = int(ascent_rate*100)
-        if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
-        elif ascent_rate_100 > 32767:
-            ascent_rate_100 = 32767
+        ascent_rate_100 = round(min(max(ascent_rate, -327.68), 327.67)*100)
 
         # PTU data
         # External Temperature, in the range -3276.8 to 3276.7
-        ext_temperature_10 = int(ext_temperature*10)
-        if ext_temperature_10 < -32768:
-            ext_temperature_10 = -32768
-        elif ext_temperature_10 > 32767:
-            ext_temperature_10 = 32767
+        ext_temperature_10 = round(min(max(ext_temperature, -3276.8), 3276.7)*10)
 
         # Humidity - Integer in range 0-255
         ext_humidity = int(ext_humidity)
@@ -303,11 +295,7 @@ class Encoder():
             ext_humidity = 0
 
         # Pressure, in the range 0-6553.5 hPa
-        ext_pressure_10 = int(ext_pressure*10)
-        if ext_pressure_10 < 0:
-            ext_pressure_10 = 0
-        elif ext_pressure_10 > 65535:
-            ext_pressure_10 = 65535
+        ext_pressure_10 = round(min(max(ext_pressure, 0.0), 6553.5)*10)
         
         # Encode the default custom field segment
         custom_bytes = struct.pack("<hhBHxx", ascent_rate_100, ext_temperature_10, ext_humidity, ext_pressure_10)
-- 
2.43.0


From fb922a23dbb9ac789ad7052ef944726cb77ca309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 23/35] fix: refuse sentences without a callsign or with a
 position that is not a number

---
 horusdemodlib/decoder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 61fab09..6cb5ded 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -3,6 +3,7 @@
 #
 import codecs
 import datetime
+import math
 import struct
 import time
 from .delegates import *
@@ -416,6 +417,13 @@ def parse_ukhas_string(sentence:str) -> dict:
 
     # Perform some sanity checks on the data.
 
+    # A sentence needs a callsign, and a position which is a number (float() also accepts 'nan' and 'inf').
+    if len(_callsign.strip()) == 0:
+        raise ValueError("Could not parse RTTY Sentence - No Callsign.")
+
+    if not (math.isfinite(_latitude) and math.isfinite(_longitude)):
+        raise ValueError("Could not parse RTTY Sentence - Invalid Position.")
+
     # Attempt to parse the time string. This will throw an error if any values are invalid.
     if ':' in _time:
         try:
-- 
2.43.0


From 10a2d0644f367705460cdf41f5118d19ef675fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 24/35] fix: keep one packet's upload from changing the next
 and leave out values that are not numbers

---
 horusdemodlib/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..d39de10 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -9,6 +9,7 @@
 #
 import datetime
 import logging
+import math
 from .delegates import fix_datetime
 import unittest
 import traceback
@@ -35,8 +36,9 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
 
     # Output dictionary
     # Start with supplied uploader metadata if we have been provided it.
+    # (A copy, so that the values of this packet do not end up in the metadata of the next.)
     if metadata:
-        _output = metadata
+        _output = dict(metadata)
     else:
         _output = {}
     # check if the packet is event for sondehub
@@ -71,6 +73,12 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
         logging.debug("SondeHub Data Reformatter - Offending datetime_dt: %s" % str(telemetry["time"]))
         return None
 
+    # Position - Break if it is not complete, e.g. a Horus v3 payload which does not know its altitude.
+    for _field in ["latitude", "longitude", "altitude"]:
+        if (_field not in telemetry) or not math.isfinite(telemetry[_field]):
+            logging.error(f"SondeHub Data Reformatter - Not uploading telemetry without {_field}.")
+            return None
+
     # Callsign - Break if this is an unknown payload ID.
     if telemetry["callsign"] == "UNKNOWN_PAYLOAD_ID":
         logging.error("SondeHub Data Reformatter - Not uploading telemetry from unknown payload ID. Is your payload ID list old?")
@@ -140,6 +148,9 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
             if _custom_field_name in telemetry:
                 _output[_custom_field_name] = telemetry[_custom_field_name]
 
+    # Values which are not numbers (e.g. from a sensor with a fault) cannot be represented in JSON.
+    _output = {_k: _v for _k, _v in _output.items() if not (isinstance(_v, float) and not math.isfinite(_v))}
+
     logging.debug(f"SondeHub Data Reformatter - Generated Packet: {str(_output)}")
 
     return _output
-- 
2.43.0


From 98a1dec62a834d6d04eee0a653e940f5734efbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 25/35] fix: ignore modem statistics that are not an object of
 numbers

---
 horusdemodlib/demodstats.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 9c37cb0..4b22dce 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -11,6 +11,7 @@
 import argparse
 import json
 import logging
+import math
 import socket
 import sys
 import time
@@ -92,12 +93,23 @@ class FSKDemodStats(object):
         else:
             return
 
+        # JSON data does not have to be a dictionary.
+        if type(_data) != dict:
+            self.log_error("Statistics are not a dictionary.")
+            return
+
         # Check for required fields in incoming dictionary.
         for _field in self.FSK_STATS_FIELDS:
             if _field not in _data:
                 self.log_error("Missing Field %s" % _field)
                 return
 
+        # Check that everything we calculate with is a number, before any of it is used.
+        for _field in ['EbNodB', 'ppm', 'f1_est', 'f2_est', 'f3_est', 'f4_est']:
+            if _field in _data and not self.is_number(_data[_field]):
+                self.log_error("Field %s is not a number" % _field)
+                return
+
         # Now we can process the data.
         _time = time.time()
         self.fft = _data['samp_fft']
@@ -153,6 +165,15 @@ class FSKDemodStats(object):
             self.snr = sum(_snrs) / len(_snrs)
 
 
+    @staticmethod
+    def is_number(value):
+        """ Check that a value is a (finite) number. """
+        try:
+            return type(value) in (int, float) and math.isfinite(value)
+        except OverflowError:
+            return False
+
+
     def log_debug(self, line):
         """ Helper function to log a debug message with a descriptive heading. 
         Args:
-- 
2.43.0


From 98f679bc7ebe4b4b2f7bf9e8810410cf4ea28fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 26/35] fix: upload telemetry which is still queued when the
 uploader is closed

---
 horusdemodlib/sondehubamateur.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..5f3e66d 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -162,7 +162,11 @@ class SondehubAmateurUploader(object):
         """
         self.log_info("Started Sondehub Amateur Uploader Thread.")
 
-        while self.input_processing_running:
+        _running = True
+        while _running:
+
+            # Check this before emptying the queue, so that telemetry added before close() is still uploaded.
+            _running = self.input_processing_running
 
             # Process everything in the queue.
             _to_upload = []
@@ -177,6 +181,9 @@ class SondehubAmateurUploader(object):
             if len(_to_upload) > 0:
                 self.upload_telemetry(_to_upload)
 
+            if not _running:
+                break
+
             # If we haven't uploaded our station position recently, re-upload it.
             if (
                 time.time() - self.last_user_position_upload
-- 
2.43.0


From fe055e282b2f50f06c46287a147b9de057a5fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 27/35] fix: end cleanly when uploads are disabled

---
 horusdemodlib/sondehubamateur.py | 4 ++++
 horusdemodlib/uploader.py        | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index 5f3e66d..85d094a 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -89,6 +89,10 @@ class SondehubAmateurUploader(object):
         # Input Queue.
         self.input_queue = Queue()
 
+        # Not processing, unless the thread is started below.
+        self.input_processing_running = False
+        self.input_process_thread = None
+
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
 
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..e530763 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -286,7 +286,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if sondehub_uploader.input_process_thread is not None:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 15589e0101c072e5aa142aeeadaa03b3f8104ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 28/35] fix: keep the uploader running whatever bytes arrive on
 its input

---
 horusdemodlib/uploader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index e530763..017c99a 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -145,6 +145,10 @@ def main():
 
     demod_stats = FSKDemodStats(peak_hold=True)
 
+    # Do not stop on bytes which are not valid in the system's character set, as found in corrupted RTTY sentences.
+    if hasattr(sys.stdin, 'reconfigure'):
+        sys.stdin.reconfigure(errors='backslashreplace')
+
     logging.info("Started Horus Demod Uploader. Hit CTRL-C to exit.")
     # Main loop
     try:
@@ -214,7 +218,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From 749fb97e6a529cb29964d90f32a45c86608cbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 29/35] fix: do not refresh the payload lists in RTTY mode

---
 horusdemodlib/uploader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 017c99a..ed617f2 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -226,7 +226,7 @@ def main():
                     _decoded = decode_packet(_binary_string)
                     # If we get here, we have a valid packet!
 
-                    if (_decoded['callsign'] == "UNKNOWN_PAYLOAD_ID") and not args.nodownload:
+                    if (_decoded['callsign'] == "UNKNOWN_PAYLOAD_ID") and not args.nodownload and not args.rtty:
                         # We haven't seen this payload ID. Our payload ID list might be out of date.
                         if time.time() > next_download_time:
                             logging.info("Observed unknown Payload ID, attempting to re-download lists.")
-- 
2.43.0


From 72ea84d355afc8dff42dee7d4816d9afccb2adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 30/35] fix: skip malformed custom field entries and incomplete
 downloads

---
 horusdemodlib/payloads.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..a084bd4 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -132,6 +132,7 @@ def download_latest_payload_id_list(url=PAYLOAD_ID_LIST_URL, filename=None, time
     try:
         logging.info("Attempting to download latest payload ID list from GitHub...")
         _r = requests.get(url, timeout=timeout)
+        _r.raise_for_status()
     except Exception as e:
         logging.error("Unable to download latest payload ID list: %s" % str(e))
         return None
@@ -197,6 +198,10 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
+            if type(_data) != dict:
+                logging.error(f"Custom Field List Parser - Custom field data for {_payload} is not a JSON object, skipping.")
+                continue
+
             if ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
@@ -277,6 +282,7 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
     try:
         logging.info("Attempting to download latest custom field list from GitHub...")
         _r = requests.get(url, timeout=timeout)
+        _r.raise_for_status()
     except Exception as e:
         logging.error("Unable to download latest custom field list: %s" % str(e))
         return None
@@ -287,6 +293,15 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
         logging.error("Downloaded custom field list is invalid.")
         return None
 
+    # .. and that we have got all of it.
+    try:
+        _complete = type(json.loads(_r.text)) == dict
+    except Exception as e:
+        _complete = False
+    if not _complete:
+        logging.error("Downloaded custom field list is not a JSON object.")
+        return None
+
     _custom_field_list = parse_custom_field_list(_r.text)
 
     if filename != None:
-- 
2.43.0


From 3e60cc47dc6a726325de68e80d45830506a55331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 31/35] fix: send only numbers in the local network messages

---
 horusdemodlib/horusudp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/horusdemodlib/horusudp.py b/horusdemodlib/horusudp.py
index d9e06dd..1523842 100644
--- a/horusdemodlib/horusudp.py
+++ b/horusdemodlib/horusudp.py
@@ -7,6 +7,7 @@
 import datetime
 import json
 import logging
+import math
 import socket
 import unittest
 
@@ -27,6 +28,10 @@ def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
             logging.error("Horus UDP - Zero Latitude/Longitude, not sending.")
             return
 
+        if not all(math.isfinite(telemetry[_field]) for _field in ["latitude", "longitude", "altitude"]):
+            logging.error("Horus UDP - Position is not a number, not sending.")
+            return
+
         packet = {
             "type": "PAYLOAD_SUMMARY",
             "callsign": telemetry["callsign"],
@@ -63,6 +68,9 @@ def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
                 if _custom_field_name in telemetry:
                     packet[_custom_field_name] = telemetry[_custom_field_name]
 
+        # Values which are not numbers (e.g. from a sensor with a fault) cannot be represented in JSON.
+        packet = {_k: _v for _k, _v in packet.items() if not (isinstance(_v, float) and not math.isfinite(_v))}
+
         # Set up our UDP socket
         _s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
         _s.settimeout(1)
-- 
2.43.0


From 32545798dfaafe084e8a29dfbd71c330406ff423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 32/35] fix: one-packet decode tool uses the payload and custom
 field lists it reads, and reports packets the ASN.1 decoder refuses

---
 horusdemodlib/decoder.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 6cb5ded..3ea3a1a 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -773,19 +773,20 @@ if __name__ == "__main__":
 
     if args.update:
         # Download latest list from github.
-        init_payload_id_list()
-        init_custom_field_list()
+        _payload_list = init_payload_id_list()
+        _custom_field_list = init_custom_field_list()
     else:
         # Use whatever is available in the current directory
         logging.info("Using existing payload/custom-field files.")
-        init_payload_id_list(nodownload=True)
-        init_custom_field_list(nodownload=True)
+        _payload_list = init_payload_id_list(nodownload=True)
+        _custom_field_list = init_custom_field_list(nodownload=True)
+    horusdemodlib.payloads.update_payload_lists(_payload_list, _custom_field_list)
     
     if args.decode is not None:
         try:
             _decoded = decode_packet(hex_to_bytes(args.decode))
             print(f"Decoded UKHAS String: {_decoded['ukhas_str']}")
-        except ValueError as e:
+        except (ValueError, asn1tools.Error) as e:
             print(f"Error while decoding: {str(e)}")
 
 
-- 
2.43.0


From 1d79633d2505f87b89f72c24c0607573e77bf626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 33/35] fix: eight-way receive script tells uploaders 7 and 8
 their own target frequency

---
 start_eight_4fsk.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/start_eight_4fsk.sh b/start_eight_4fsk.sh
index 26de9ac..130728c 100755
--- a/start_eight_4fsk.sh
+++ b/start_eight_4fsk.sh
@@ -130,11 +130,11 @@ MFSK6_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
 
 MFSK7_LOWER=$(echo "$MFSK7_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK7_UPPER=$(echo "$MFSK7_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK7_SIGNAL" | bc)
 
 MFSK8_LOWER=$(echo "$MFSK8_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK8_UPPER=$(echo "$MFSK8_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK8_SIGNAL" | bc)
 
 echo "Using SDR Centre Frequency: $RXFREQ Hz."
 echo "Using MFSK1 estimation range: $MFSK1_LOWER - $MFSK1_UPPER Hz"
-- 
2.43.0


From 61026372d30097c4d5f0bd8a6ebc53cdfd9fb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 34/35] fix: horus_demod writes its packets to the output file
 it was given

---
 src/horus_demod.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 45b3ac9..8acc9ba 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -247,15 +247,15 @@ int main(int argc, char *argv[]) {
         }
 
         if (horus_rx(hstates, ascii_out, demod_in, quadrature)) {
-            fprintf(stdout, "%s", ascii_out);
+            fprintf(fout, "%s", ascii_out);
             if (crc_results) {
                 if (horus_crc_ok(hstates)) {
-                    fprintf(stdout, "  CRC OK");
+                    fprintf(fout, "  CRC OK");
                 } else {
-                    fprintf(stdout, "  CRC BAD");
+                    fprintf(fout, "  CRC BAD");
                 }
             }
-            fprintf(stdout, "\n");
+            fprintf(fout, "\n");
         }
         
         if (enable_stats && stats_ctr <= 0) {
-- 
2.43.0


From 40468470c388977c49fbd1df42d5ef89a962e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 35/35] fix: the Python demodulator ignores a lone upper
 frequency limit, as horus_demod does

---
 horusdemodlib/demod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 4e95d0d..da39a67 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -293,8 +293,8 @@ def main():
     parser.add_argument('-q', action="store_true",default=False,help="use stereo (IQ) input")
     parser.add_argument('-v', action="store_true",default=False,help="verbose debug info")
     parser.add_argument('-c', action="store_true",default=False,help="display CRC results for each packet")
-    parser.add_argument('-u',"--fsk_upper", type=int, action="store",default=False,help="Estimator FSK upper limit")
-    parser.add_argument('-b',"--fsk_lower", type=int, action="store",default=False,help="Estimator FSK lower limit")
+    parser.add_argument('-u',"--fsk_upper", type=int, action="store",default=-1,help="Estimator FSK upper limit")
+    parser.add_argument('-b',"--fsk_lower", type=int, action="store",default=-99999,help="Estimator FSK lower limit")
     parser.add_argument('input',nargs='?',action='store', default=sys.stdin.buffer, help="Input filename")
     parser.add_argument('output',nargs='?',action='store', default=sys.stdout, help="Output filename")
 
-- 
2.43.0

