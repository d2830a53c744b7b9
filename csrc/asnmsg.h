/* Version 3 messages as a flat byte string (see vf/v3.py), to and from the native structures. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include "Telemetry.h"
static uint8_t *out; static size_t outn, outcap;
static void put(const void *p, size_t n) {
    if (outn + n > outcap) { outcap = (outn + n) * 2 + 4096; out = realloc(out, outcap); }
    if (n) memcpy(out + outn, p, n);
    outn += n;
}
static void put8(uint8_t v) { put(&v, 1); }
static void put32(uint32_t v) { put(&v, 4); }
static void put64(int64_t v) { put(&v, 8); }
static const uint8_t *in; static size_t inn, inp;
static const uint8_t *get(size_t n) { if (inp + n > inn) { fprintf(stderr, "DRIVER: short request\n"); _exit(97); } const uint8_t *p = in + inp; inp += n; return p; }
static uint8_t get8(void) { return *get(1); }
static uint32_t get32(void) { uint32_t v; memcpy(&v, get(4), 4); return v; }
static int64_t get64(void) { int64_t v; memcpy(&v, get(8), 8); return v; }

static void put_str(const uint8_t *b, size_t n) { put32(n); put(b, n); }
static void put_opt(const long *p) { put8(p != NULL); if (p) put64(*p); }
static void dump(const Telemetry_t *t) {
    put_str(t->payloadCallsign.buf, t->payloadCallsign.size);
    put64(t->sequenceNumber); put64(t->timeOfDaySeconds); put64(t->latitude); put64(t->longitude); put64(t->altitudeMeters);
    put8(t->extraSensors != NULL);
    if (t->extraSensors) {
        put32(t->extraSensors->list.count);
        for (int i = 0; i < t->extraSensors->list.count; i++) {
            const AdditionalSensorType_t *s = t->extraSensors->list.array[i];
            put8(s->name != NULL);
            if (s->name) put_str(s->name->buf, s->name->size);
            put8(s->values != NULL);
            if (s->values) {
                put8(s->values->present);
                switch (s->values->present) {
                case CustomFieldValues_PR_horusStr: put_str(s->values->choice.horusStr.buf, s->values->choice.horusStr.size); break;
                case CustomFieldValues_PR_horusInt:
                    put32(s->values->choice.horusInt.list.count);
                    for (int k = 0; k < s->values->choice.horusInt.list.count; k++) put64(*s->values->choice.horusInt.list.array[k]);
                    break;
                case CustomFieldValues_PR_horusReal:
                    put32(s->values->choice.horusReal.list.count);
                    for (int k = 0; k < s->values->choice.horusReal.list.count; k++) put(s->values->choice.horusReal.list.array[k], 8);
                    break;
                case CustomFieldValues_PR_horusBool: {
                    const BitFlags_t *b = &s->values->choice.horusBool;
                    put8(!!b->b0); put8(!!b->b1); put8(!!b->b2); put8(!!b->b3); put8(!!b->b4); put8(!!b->b5); put8(!!b->b6); put8(!!b->b7);
                    break; }
                default: break;
                }
            }
        }
    }
    put_opt(t->velocityHorizontalKilometersPerHour); put_opt(t->gnssSatellitesVisible);
    put_opt(t->ascentRateCentimetersPerSecond); put_opt(t->pressurehPa_x10);
    put8(t->temperatureCelsius_x10 != NULL);
    if (t->temperatureCelsius_x10) { put_opt(t->temperatureCelsius_x10->internal); put_opt(t->temperatureCelsius_x10->external);
        put_opt(t->temperatureCelsius_x10->custom1); put_opt(t->temperatureCelsius_x10->custom2); }
    put_opt(t->humidityPercentage);
    put8(t->milliVolts != NULL);
    if (t->milliVolts) { put_opt(t->milliVolts->battery); put_opt(t->milliVolts->solar); put_opt(t->milliVolts->custom1); put_opt(t->milliVolts->custom2); }
    put8(t->counts != NULL);
    if (t->counts) { put32(t->counts->list.count); for (int k = 0; k < t->counts->list.count; k++) put64(*t->counts->list.array[k]); }
    put_opt(t->gnssPowerSaveState);
    put8(t->customData != NULL);
    if (t->customData) put_str(t->customData->buf, t->customData->size);
}

static void get_str(OCTET_STRING_t *s) { uint32_t n = get32(); s->buf = malloc(n + 1); memcpy(s->buf, get(n), n); s->buf[n] = 0; s->size = n; }
static long *get_opt(void) { if (!get8()) return NULL; long *p = malloc(sizeof *p); *p = get64(); return p; }
static void add(void *list, void *item) { if (ASN_SEQUENCE_ADD(list, item)) { fprintf(stderr, "DRIVER: list\n"); _exit(97); } }
static void add_long(void *list) { long *p = malloc(sizeof *p); *p = get64(); add(list, p); }
static Telemetry_t *build(void) {
    Telemetry_t *t = calloc(1, sizeof *t);
    get_str(&t->payloadCallsign);
    t->sequenceNumber = get64(); t->timeOfDaySeconds = get64(); t->latitude = get64(); t->longitude = get64(); t->altitudeMeters = get64();
    if (get8()) {
        t->extraSensors = calloc(1, sizeof *t->extraSensors);
        for (uint32_t i = get32(); i; i--) {
            AdditionalSensorType_t *s = calloc(1, sizeof *s);
            if (get8()) { s->name = calloc(1, sizeof *s->name); get_str(s->name); }
            if (get8()) {
                CustomFieldValues_t *v = s->values = calloc(1, sizeof *v);
                v->present = get8();
                switch (v->present) {
                case CustomFieldValues_PR_horusStr: get_str(&v->choice.horusStr); break;
                case CustomFieldValues_PR_horusInt: for (uint32_t k = get32(); k; k--) add_long(&v->choice.horusInt.list); break;
                case CustomFieldValues_PR_horusReal:
                    for (uint32_t k = get32(); k; k--) { double *d = malloc(sizeof *d); memcpy(d, get(8), 8); add(&v->choice.horusReal.list, d); }
                    break;
                case CustomFieldValues_PR_horusBool: { BitFlags_t *b = &v->choice.horusBool;
                    b->b0 = get8(); b->b1 = get8(); b->b2 = get8(); b->b3 = get8(); b->b4 = get8(); b->b5 = get8(); b->b6 = get8(); b->b7 = get8(); break; }
                default: break;
                }
            }
            add(&t->extraSensors->list, s);
        }
    }
    t->velocityHorizontalKilometersPerHour = get_opt(); t->gnssSatellitesVisible = get_opt();
    t->ascentRateCentimetersPerSecond = get_opt(); t->pressurehPa_x10 = get_opt();
    if (get8()) { t->temperatureCelsius_x10 = calloc(1, sizeof *t->temperatureCelsius_x10);
        t->temperatureCelsius_x10->internal = get_opt(); t->temperatureCelsius_x10->external = get_opt();
        t->temperatureCelsius_x10->custom1 = get_opt(); t->temperatureCelsius_x10->custom2 = get_opt(); }
    t->humidityPercentage = get_opt();
    if (get8()) { t->milliVolts = calloc(1, sizeof *t->milliVolts);
        t->milliVolts->battery = get_opt(); t->milliVolts->solar = get_opt(); t->milliVolts->custom1 = get_opt(); t->milliVolts->custom2 = get_opt(); }
    if (get8()) { t->counts = calloc(1, sizeof *t->counts); for (uint32_t k = get32(); k; k--) add_long(&t->counts->list); }
    t->gnssPowerSaveState = (GnssPowerSaveState_t *)get_opt();
    if (get8()) { t->customData = calloc(1, sizeof *t->customData); get_str(t->customData); }
    return t;
}

/* ---- what a receiver does with bytes: decode, check, print, encode again ---------------------------- */
static FILE *nul;
typedef struct { int code; size_t consumed; int constraints; ssize_t reenc; uint8_t *renc; } exam_t;
static int eat(const void *b, size_t n, void *k) { (void)b; *(size_t *)k += n; return 0; }
