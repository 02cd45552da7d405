/* Makes the calls that arrive on standard input and answers on standard output. */
#include "c_eth_kzg.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void full(void *p, size_t n) {
    if (fread(p, 1, n, stdin) != n) exit(3);
}
static int u8(void) {
    int c = getchar();
    if (c == EOF) exit(0);
    return c;
}
static uint32_t u32(void) {
    uint8_t b[4];
    full(b, 4);
    return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
}
static uint64_t u64(void) {
    uint64_t h = u32();
    return h << 32 | u32();
}
static void put32(uint32_t n) {
    for (int k = 24; k >= 0; k -= 8) putchar(n >> k & 255);
}
static uint8_t *bytes(void) {
    uint32_t n = u32();
    if (n == 0xffffffff) return 0;
    uint8_t *p = malloc(n + 1);
    full(p, n);
    return p;
}
struct list {
    uint64_t n;
    const uint8_t **v;
};
static struct list list(void) {
    struct list l = {u32(), 0};
    if (l.n == 0xffffffff) l.n = 0;
    if (l.n) l.v = malloc(l.n * sizeof *l.v);
    for (uint64_t i = 0; i < l.n; i++) l.v[i] = bytes();
    return l;
}
static void drop(struct list l) {
    for (uint64_t i = 0; i < l.n; i++) free((void *)l.v[i]);
    free(l.v);
}
struct args {
    int op;
    uint8_t *blob;
    struct list coms, cells, proofs;
    uint64_t nidx, *idx;
};
static uint8_t commitment[48], store[128 * (2048 + 48)], *cells[128], *proofs[128];
static bool verdict;

static CResult call(const DASContext *c, struct args *a) {
    switch (a->op) {
    case 0:
        return eth_kzg_blob_to_kzg_commitment(c, a->blob, commitment);
    case 1:
        return eth_kzg_compute_cells_and_kzg_proofs(c, a->blob, cells, proofs);
    case 2:
        return eth_kzg_recover_cells_and_proofs(c, a->cells.n, a->cells.v, a->nidx, a->idx, cells, proofs);
    default:
        return eth_kzg_verify_cell_kzg_proof_batch(c, a->coms.n, a->coms.v, a->nidx, a->idx, a->cells.n, a->cells.v, a->proofs.n, a->proofs.v, &verdict);
    }
}
int main(void) {
    static char ob[1 << 16], ib[1 << 16];
    setvbuf(stdin, ib, _IOFBF, sizeof ib);
    setvbuf(stdout, ob, _IOFBF, sizeof ob);
    for (int i = 0; i < 128; i++) {
        cells[i] = store + 2048 * i;
        proofs[i] = store + 128 * 2048 + 48 * i;
    }
    DASContext *slots[256] = {0};
    for (;;) {
        int cmd = u8(), slot = u8();
        u8();
        switch (cmd) {
        case 0:
        case 6: {
            uint32_t n = cmd == 6 ? u32() : 1;
            struct args a = {0};
            a.op = u8();
            a.blob = bytes();
            a.coms = list();
            a.nidx = u32();
            if (a.nidx == 0xffffffff) a.nidx = 0;
            if (a.nidx) a.idx = malloc(8 * a.nidx);
            for (uint64_t i = 0; i < a.nidx; i++) {
                u8();
                u64();
                a.idx[i] = u64();
            }
            a.cells = list();
            a.proofs = list();
            int kind = -1, same = 1;
            char first[256] = "";
            for (uint32_t i = 0; i < n && same; i++) {
                CResult r = call(slots[slot], &a);
                char text[256] = "";
                if (r.status == Err) {
                    if (r.error_msg) strncpy(text, r.error_msg, sizeof text - 1);
                    eth_kzg_free_error_message(r.error_msg);
                }
                if (i == 0) {
                    kind = r.status;
                    memcpy(first, text, sizeof text);
                }
                same = kind == (int)r.status;
            }
            if (!same) {
                putchar(11);
            } else if (kind == Err) {
                putchar(3);
                put32(strlen(first));
                fputs(first, stdout);
            } else if (a.op == 0) {
                putchar(0);
                put32(48);
                fwrite(commitment, 1, 48, stdout);
            } else if (a.op == 1 || a.op == 2) {
                putchar(1);
                put32(128);
                for (int i = 0; i < 128; i++) {
                    put32(2048);
                    fwrite(cells[i], 1, 2048, stdout);
                }
                put32(128);
                for (int i = 0; i < 128; i++) {
                    put32(48);
                    fwrite(proofs[i], 1, 48, stdout);
                }
            } else {
                putchar(2);
                putchar(verdict);
            }
            free(a.blob);
            free(a.idx);
            drop(a.coms);
            drop(a.cells);
            drop(a.proofs);
            break;
        }
        case 1: {
            int flavour = u8(), threads = u8();
            slots[slot] = eth_kzg_das_context_new(flavour != 0, threads);
            putchar(4);
            break;
        }
        case 2:
            u8();
            eth_kzg_das_context_free(slots[slot]);
            slots[slot] = 0;
            putchar(4);
            break;
        case 7:
            putchar(0);
            put32(8);
            put32(0);
            put32(0);
            break;
        default: /* 3: collect garbage */
            putchar(4);
        }
        fflush(stdout);
    }
}
