// Shared by all workloads: images of the build variants, keys and their placement, guarded native calls, solo oracle.
#pragma once
#include "util.h"
#include "model.h"
#include "loader.h"
#include "machine.h"

extern const char *const g_vnames[]; extern const int N_VAR; // all build variants known, by stable index
extern Image *g_img[][2];                                    // [variant][copy]
static inline Image *img(int v, int copy = 0) { return v >= 0 && v < N_VAR ? g_img[v][copy] : 0; }
Image *need_img(int v, int copy = 0);
extern std::vector<int> g_loaded;                            // variant indices loaded in this process
int pick_variant(Rng &, bool bias_default = true);
extern size_t g_ctx_size, g_ctx_align;
static inline u64 seed_y(u64 s) { return mix(s ^ 0x5bd1e995); }

// what the published algorithm says; F_T1HA0 must not be used here
u64 model_fn(int fn, const void *p, u64 len, u64 seed, u64 *hi);
bool fn_usable(const Image *, int fn); // exists in the image and may run on the host CPU
int best_t1ha0(const Image *);         // implementation t1ha0 should be bound to on the host CPU
bool is_hash(int fn);

struct Res { bool ok = false; u64 r = 0, hi = 0; std::string why; bool operator==(const Res &o) const { return ok == o.ok && r == o.r && hi == o.hi; } };
Res ncall(Image *, int fn, const void *p, size_t len, u64 seed); // guarded native call (F_S64/F_S128: init, one update, final)
u64 rawcall(Image *, int fn, const void *p, size_t len, u64 seed, u64 *hi); // unguarded
int nselfcheck(Image *, int fn, std::string *why);               // -1000 when it crashed
u8 *ctx_mem(int i);                                              // static aligned context memory for native calls

// content
void fill(u8 *p, u64 n, int kind, i64 s);
static const int N_FILL = 13;
int gen_fill(Rng &, i64 &s);
u64 gen_len(Rng &, u64 max);
u64 gen_seed(Rng &);
u64 gen_val(Rng &); // a 64-bit value worth putting into a key
size_t gen_off(Rng &, size_t len); // offset within a zone: page ends, alignments

struct Key { u64 len = 0; std::vector<u8> b; int zone = -1; size_t off = 0; u8 *p = 0; };
// builds keys from "k id len kind s" / "kp id off val" / "at id zone off" lines
struct Keys { std::map<int, Key> m; bool take(const Line &); void place_all(int surround_kind, i64 ss, bool readonly); };
void place(Key &, int zone, size_t off, int surround_kind, i64 ss, int prot);

struct Prop { const char *id; void (*gen)(Rng &, u64 idx, Scen &); void (*run)(const Scen &, Verdict &); void (*init)(); const char *rule; };
extern std::vector<Prop> g_props;
struct PropReg { PropReg(const char *id, void (*g)(Rng &, u64, Scen &), void (*r)(const Scen &, Verdict &), void (*i)() = 0, const char *rule = "") { g_props.push_back({id, g, r, i, rule}); } };
u8 *alias_map(u64 len); void alias_unmap(); extern int g_alias_fd; // `len` bytes of address space backed by one small repeating buffer of 16 MiB
