// The type-erased interface between the simulator and one node: the real library plus sim/glue.cpp.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
enum { R_FALSE = 0, R_TRUE = 1, R_OOM = 2, R_EXC = 3, R_OTHER = 4 };
typedef void (*SinkFn)(void *ctx, const uint8_t *p, size_t n);
struct TypeOps {
    const char *name;
    void *(*create)(int *rc);
    void (*destroy)(void *);
    void *(*clone)(const void *, int *rc);             // copy construction
    int (*assign)(void *, const void *);               // copy assignment
    int (*move)(void *, void *);                       // move assignment
    int (*decode)(void *, const uint8_t *, size_t);
    int (*encode)(const void *, SinkFn, void *);
    int (*root)(const void *, uint8_t *);
    int (*equal)(const void *, const void *, int *eq);  // bit 0: ==, bit 1: !=
    int (*yaml_out)(const void *, SinkFn, void *);
    int (*yaml_in)(void *, const char *, size_t);
    int (*hex_out)(const void *, SinkFn, void *);  // null: the type has no hexadecimal form
    int (*hex_in)(void *, const char *, size_t);
    int (*print)(const void *, SinkFn, void *);  // operator<<, null if none
    int (*poke)(void *, uint64_t);               // sets the first eight bytes of the value in place, null if the type has no public way
    size_t (*ssz_size)(const void *);
    int (*part)(const void *, size_t k, SinkFn, void *);  // the k-th thing the type's public interface tells about the value; R_FALSE: no such thing
    size_t object_size;
};
struct TypePart {
    const TypeOps *types;
    const size_t *n;
};
struct NodeApi {
    size_t nparts;
    const TypePart *parts;
    int (*tree)(const uint8_t *data, size_t bytes, int as_chunks, uint64_t limit, int mix, uint64_t length, uint8_t *root);
    int (*implemented)(void);
    unsigned long (*cout_flags)(void);
    int (*att_slashable)(const void *a, const void *b, int *yes);      // the data of two IndexedAttestations
    int (*att_valid)(const void *a, const void *state, int *yes);      // IndexedAttestation, BeaconState
    int (*validator_at)(const void *v, uint64_t epoch, int *bits);     // bit 0: active, 1: slashable, 2: eligible for the activation queue
};
const NodeApi *mammon_node(void);
}
