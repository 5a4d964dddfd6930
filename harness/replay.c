/* Replays scripts of library calls under the sanitizers and records, per call, which of the memory it was given changed.
 * usage: replay OUT SCRIPT            one script
 *        replay -t OUT SCRIPT...      one thread per script, started together; OUT.0, OUT.1, ...
 * Script lines:
 *   n K SIZE OFF HEX|-   object K = SIZE bytes ending exactly where its allocation ends, OFF bytes into it
 *                        ("-": not initialised; the memory sanitizer tracks it, otherwise filled with 0xa5)
 *   c K J OFF            object K = a copy of object J
 *   w K AT HEX           bytes of object K overwritten
 *   x FN ARG...          a call; ARG: @K an object, =N an integer, 0 a null pointer
 *   a M N                the last M "n", "c", "w" and "x" lines again, N times, without recording
 * Every "x" line gives one line of JSON in OUT. */
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mbelib-neo/mbelib.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
#ifndef MSAN
#define MSAN 0
#endif

enum { NOBJ = 64, NARG = 12 };

typedef struct { char* base; char* p; size_t n; } obj;
typedef struct { obj o[NOBJ]; FILE* out; int quiet; } machine;
typedef union { void* p; long i; } arg;

static const struct { const char* n; size_t at, size; } fields[] = {
#define F(n) {#n, offsetof(mbe_parms, n), sizeof(((mbe_parms*)0)->n)}
    F(w0), F(L), F(K), F(Vl), F(Ml), F(log2Ml), F(PHIl), F(PSIl), F(gamma), F(un), F(repeat), F(swn), F(localEnergy),
    F(amplitudeThreshold), F(errorRate), F(errorCountTotal), F(errorCount4), F(repeatCount), F(mutingThreshold),
    F(previousUw), F(noiseSeed), F(noiseOverlap)};
enum { NFIELD = sizeof fields / sizeof fields[0] };

#define P(k) (a[k].p)
#define I(k) ((int)a[k].i)
#define V(fn, ...) if (!strcmp(n, #fn)) { fn(__VA_ARGS__); return 0; }
#define R(fn, ...) if (!strcmp(n, #fn)) { return fn(__VA_ARGS__); }
#define FRAME(fn) V(fn, P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), I(9))
#define DATA(fn) V(fn, P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), I(8))

static long
invoke(const char* n, arg* a) {
    FRAME(mbe_processImbe7200x4400Framef) FRAME(mbe_processImbe7200x4400Frame)
    FRAME(mbe_processImbe7100x4400Framef) FRAME(mbe_processImbe7100x4400Frame)
    FRAME(mbe_processAmbe3600x2450Framef) FRAME(mbe_processAmbe3600x2450Frame)
    FRAME(mbe_processAmbe3600x2400Framef) FRAME(mbe_processAmbe3600x2400Frame)
    DATA(mbe_processImbe4400Dataf) DATA(mbe_processImbe4400Data)
    DATA(mbe_processAmbe2450Dataf) DATA(mbe_processAmbe2450Data)
    DATA(mbe_processAmbe2400Dataf) DATA(mbe_processAmbe2400Data)
    V(mbe_checkGolayBlock, P(0))
    R(mbe_golay2312, P(0), P(1)) R(mbe_hamming1511, P(0), P(1)) R(mbe_7100x4400hamming1511, P(0), P(1))
    R(mbe_eccImbe7200x4400C0, P(0)) R(mbe_eccImbe7100x4400C0, P(0)) R(mbe_eccAmbe3600x2450C0, P(0)) R(mbe_eccAmbe3600x2400C0, P(0))
    R(mbe_eccImbe7200x4400Data, P(0), P(1)) R(mbe_eccImbe7100x4400Data, P(0), P(1))
    R(mbe_eccAmbe3600x2450Data, P(0), P(1)) R(mbe_eccAmbe3600x2400Data, P(0), P(1))
    V(mbe_demodulateImbe7200x4400Data, P(0)) V(mbe_demodulateImbe7100x4400Data, P(0))
    V(mbe_demodulateAmbe3600x2450Data, P(0)) V(mbe_demodulateAmbe3600x2400Data, P(0))
    R(mbe_decodeImbe4400Parms, P(0), P(1), P(2)) R(mbe_decodeAmbe2450Parms, P(0), P(1), P(2)) R(mbe_decodeAmbe2400Parms, P(0), P(1), P(2))
    V(mbe_dumpImbe4400Data, P(0)) V(mbe_dumpImbe7200x4400Data, P(0)) V(mbe_dumpImbe7100x4400Data, P(0))
    V(mbe_dumpImbe7200x4400Frame, P(0)) V(mbe_dumpImbe7100x4400Frame, P(0))
    V(mbe_convertImbe7100to7200, P(0))
    V(mbe_printVersion, P(0))
    V(mbe_setThreadRngSeed, (uint32_t)a[0].i)
    V(mbe_moveMbeParms, P(0), P(1)) V(mbe_useLastMbeParms, P(0), P(1)) V(mbe_initMbeParms, P(0), P(1), P(2))
    V(mbe_spectralAmpEnhance, P(0))
    V(mbe_synthesizeTonef, P(0), P(1), P(2)) V(mbe_synthesizeTonefdstar, P(0), P(1), P(2), I(3))
    V(mbe_synthesizeSilencef, P(0)) V(mbe_synthesizeSilence, P(0))
    V(mbe_synthesizeSpeechf, P(0), P(1), P(2), I(3)) V(mbe_synthesizeSpeech, P(0), P(1), P(2), I(3))
    V(mbe_floattoshort, P(0), P(1))
    R(mbe_requiresMuting, P(0)) R(mbe_isMaxFrameRepeat, P(0)) R(mbe_requiresAdaptiveSmoothing, P(0))
    V(mbe_synthesizeComfortNoisef, P(0)) V(mbe_synthesizeComfortNoise, P(0))
    V(mbe_applyAdaptiveSmoothing, P(0), P(1))
    fprintf(stdout, "unknown function %s\n", n);
    exit(3);
}

static int
hex(const char* s, char* to, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int v = 0;
        for (int k = 0; k < 2; k++) {
            char c = s[2 * i + (size_t)k];
            if (c >= '0' && c <= '9') v = v * 16 + c - '0';
            else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10;
            else return 0;
        }
        to[i] = (char)v;
    }
    return 1;
}

static void
make(obj* o, size_t n, size_t off) {
    free(o->base);
    o->base = malloc(off + n);
    if (!o->base) exit(4);
    o->p = o->base + off;
    o->n = n;
}

static void
changes(machine* m, const char* was, const obj* o) {
    if (o->n == sizeof(mbe_parms)) {
        const mbe_parms *x = (const void*)was, *y = (const void*)o->p;
        int first = 1;
        mbe_parms xx, yy;
        memcpy(&xx, x, sizeof xx); memcpy(&yy, y, sizeof yy);
        fprintf(m->out, "{\"seen\":1,\"rec\":1,\"L\":[%d,%d],\"ch\":[", xx.L, yy.L);
        for (int f = 0; f < NFIELD; f++) {
            int lo = -1, hi = -1;
            for (size_t i = 0; i < fields[f].size / 4; i++)
                if (memcmp(was + fields[f].at + 4 * i, o->p + fields[f].at + 4 * i, 4) != 0) { if (lo < 0) lo = (int)i; hi = (int)i; }
            if (lo >= 0) { fprintf(m->out, "%s[\"%s\",%d,%d]", first ? "" : ",", fields[f].n, lo, hi); first = 0; }
        }
        fprintf(m->out, "]}");
        return;
    }
    long lo = -1, hi = -1;
    for (size_t i = 0; i < o->n; i++)
        if (was[i] != o->p[i]) { if (lo < 0) lo = (long)i; hi = (long)i; }
    int v = 0;
    if (o->n == 4) memcpy(&v, o->p, 4);
    fprintf(m->out, "{\"seen\":1,\"rec\":0,\"n\":%zu,\"v\":%d,\"ch\":[%ld,%ld]}", o->n, v, lo, hi);
}

static void
line(machine* m, char* s) {
    char* save = NULL;
    char* w = strtok_r(s, " \n", &save);
    if (!w) return;
    if (*w == 'n') {
        obj* o = &m->o[atoi(strtok_r(NULL, " \n", &save))];
        size_t n = (size_t)atol(strtok_r(NULL, " \n", &save)), off = (size_t)atol(strtok_r(NULL, " \n", &save));
        char* h = strtok_r(NULL, " \n", &save);
        make(o, n, off);
        if (*h != '-') { if (!hex(h, o->p, n)) exit(5); }
        else if (!MSAN) memset(o->p, 0xa5, n);
    } else if (*w == 'c') {
        obj* o = &m->o[atoi(strtok_r(NULL, " \n", &save))];
        obj from = m->o[atoi(strtok_r(NULL, " \n", &save))];
        char* tmp = malloc(from.n);
        memcpy(tmp, from.p, from.n);
        make(o, from.n, (size_t)atol(strtok_r(NULL, " \n", &save)));
        memcpy(o->p, tmp, from.n);
        free(tmp);
    } else if (*w == 'w') {
        obj* o = &m->o[atoi(strtok_r(NULL, " \n", &save))];
        size_t at = (size_t)atol(strtok_r(NULL, " \n", &save));
        char* h = strtok_r(NULL, " \n", &save);
        if (at + strlen(h) / 2 > o->n || !hex(h, o->p + at, strlen(h) / 2)) exit(6);
    } else if (*w == 'x') {
        char* fn = strtok_r(NULL, " \n", &save);
        if (m->quiet && !strncmp(fn, "mbe_dump", 8)) return;
        arg a[NARG];
        obj* ob[NARG];
        char* was[NARG];
        int k = 0;
        memset(a, 0, sizeof a);
        for (char* t; (t = strtok_r(NULL, " \n", &save)) && k < NARG; k++) {
            ob[k] = NULL;
            was[k] = NULL;
            if (*t == '@') { ob[k] = &m->o[atoi(t + 1)]; a[k].p = ob[k]->p; }
            else if (*t == '=') a[k].i = atol(t + 1);
            else a[k].p = NULL;
        }
        if (!m->quiet && !MSAN)
            for (int i = 0; i < k; i++)
                if (ob[i]) { was[i] = malloc(ob[i]->n); memcpy(was[i], ob[i]->p, ob[i]->n); }
        long r = invoke(fn, a);
        if (m->quiet) return;
        fprintf(m->out, "{\"op\":\"call\",\"fn\":\"%s\",\"ret\":%ld,\"args\":[", fn, r);
        for (int i = 0, first = 1; i < k; i++) {
            if (!ob[i]) continue;
            if (!first) fputc(',', m->out);
            first = 0;
#if MSAN
            /* whole output buffers and records are defined after the call; a report ends the process here */
            if (ob[i]->n == 640 || ob[i]->n == 320 || ob[i]->n == sizeof(mbe_parms)) __msan_check_mem_is_initialized(ob[i]->p, ob[i]->n);
            fprintf(m->out, "{\"seen\":0,\"v\":0}");
#else
            changes(m, was[i], ob[i]);
            free(was[i]);
#endif
        }
        fprintf(m->out, "]}\n");
        fflush(m->out);
    }
}

static pthread_barrier_t bar;
typedef struct { char out[512]; const char* script; int threaded; } job;

static void*
run(void* q) {
    job* j = q;
    machine* m = calloc(1, sizeof *m);
    FILE* f = fopen(j->script, "r");
    m->out = fopen(j->out, "w");
    if (!m->out || !f) exit(7);
    size_t cap = 0, n = 0;
    char** ls = NULL;
    char* buf = NULL;
    size_t bc = 0;
    while (getline(&buf, &bc, f) > 0) {
        if (n == cap) { cap = cap ? 2 * cap : 1024; ls = realloc(ls, cap * sizeof *ls); }
        ls[n++] = strdup(buf);
    }
    free(buf);
    fclose(f);
    if (j->threaded) pthread_barrier_wait(&bar);
    for (size_t i = 0; i < n; i++) {
        if (ls[i][0] == 'a') {
            long cnt = 0, reps = 0;
            sscanf(ls[i], "a %ld %ld", &cnt, &reps);
            m->quiet = 1;
            for (long r = 0; r < reps; r++)
                for (size_t k = i - (size_t)cnt; k < i; k++) { char* s = strdup(ls[k]); line(m, s); free(s); }
            m->quiet = 0;
        } else { char* s = strdup(ls[i]); line(m, s); free(s); }
    }
    fclose(m->out);
    for (size_t i = 0; i < n; i++) free(ls[i]);
    free(ls);
    for (int i = 0; i < NOBJ; i++) free(m->o[i].base);
    free(m);
    return NULL;
}

int
main(int argc, char** argv) {
    if (argc > 3 && !strcmp(argv[1], "-t")) {
        int k = argc - 3;
        pthread_t th[16];
        job j[16];
        if (k > 16) return 2;
        pthread_barrier_init(&bar, NULL, (unsigned)k);
        for (int i = 0; i < k; i++) { snprintf(j[i].out, sizeof j[i].out, "%s.%d", argv[2], i); j[i].script = argv[3 + i]; j[i].threaded = 1; }
        for (int i = 0; i < k; i++) pthread_create(&th[i], NULL, run, &j[i]);
        for (int i = 0; i < k; i++) pthread_join(th[i], NULL);
        return 0;
    }
    job j = {"", argv[2], 0};
    snprintf(j.out, sizeof j.out, "%s", argv[1]);
    run(&j);
    return 0;
}
