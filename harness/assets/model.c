/* A stand-in for the robot's model library: every function writes a value that depends on the
 * library (SALT), on which function it is and on every bit of every argument, and records its
 * arguments per thread. */
typedef unsigned long long u64;
const volatile u64 SALT[4] = {0x5341c75f00d5a1a7ull, 0x0011223344556677ull, 0x5341c75f00d5a1a7ull, 0};
static __thread u64 calls, last, nargs;
static __thread double args[64];
static __thread u64 h;

static u64 mix(u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static void begin(u64 id) {
    calls++;
    last = id;
    nargs = 0;
    h = mix(SALT[1] ^ mix(id));
}
static void in(const double *p, int n) {
    for (int i = 0; i < n; i++) {
        u64 b;
        __builtin_memcpy(&b, p + i, 8);
        __builtin_memcpy(&args[nargs++], p + i, 8);
        h = mix(h ^ b);
    }
}
static void out(double *o, int n) {
    for (int i = 0; i < n; i++)
        o[i] = (double)(mix(h + i) >> 11) / 9007199254740992.0;
}
u64 verif_record(u64 *c, u64 *id, double *a) {
    *c = calls;
    *id = last;
    __builtin_memcpy(a, args, sizeof args);
    return nargs;
}
#define Q(name, id, n) void name(const double *q, double *o) { begin(id); in(q, 7); out(o, n); }
#define E(name, id, n) void name(const double *q, const double *t, double *o) { begin(id); in(q, 7); in(t, 16); out(o, n); }
#define N(name, id, n) void name(double *o) { begin(id); out(o, n); }
Q(O_T_J1, 1, 16) Q(O_T_J2, 2, 16) Q(O_T_J3, 3, 16) Q(O_T_J4, 4, 16) Q(O_T_J5, 5, 16) Q(O_T_J6, 6, 16) Q(O_T_J7, 7, 16) Q(O_T_J8, 8, 16) E(O_T_J9, 9, 16)
N(Ji_J_J1, 11, 42) Q(Ji_J_J2, 12, 42) Q(Ji_J_J3, 13, 42) Q(Ji_J_J4, 14, 42) Q(Ji_J_J5, 15, 42) Q(Ji_J_J6, 16, 42) Q(Ji_J_J7, 17, 42) Q(Ji_J_J8, 18, 42) E(Ji_J_J9, 19, 42)
N(O_J_J1, 21, 42) Q(O_J_J2, 22, 42) Q(O_J_J3, 23, 42) Q(O_J_J4, 24, 42) Q(O_J_J5, 25, 42) Q(O_J_J6, 26, 42) Q(O_J_J7, 27, 42) Q(O_J_J8, 28, 42) E(O_J_J9, 29, 42)
void M_NE(const double *q, const double *I, double m, const double *x, double *o) { begin(31); in(q, 7); in(I, 9); in(&m, 1); in(x, 3); out(o, 49); }
void c_NE(const double *q, const double *qd, const double *I, double m, const double *x, double *o) { begin(32); in(q, 7); in(qd, 7); in(I, 9); in(&m, 1); in(x, 3); out(o, 7); }
void g_NE(const double *q, const double *g, double m, const double *x, double *o) { begin(33); in(q, 7); in(g, 3); in(&m, 1); in(x, 3); out(o, 7); }
