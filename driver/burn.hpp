// Methods of one mock must not be mentioned under equal values of __COUNTER__ in two
// files (see the known finding on C10): the first BURN * 64 values are left out here.
#define BURN8 __COUNTER__, __COUNTER__, __COUNTER__, __COUNTER__, __COUNTER__, __COUNTER__, __COUNTER__, __COUNTER__,
#define BURN64 BURN8 BURN8 BURN8 BURN8 BURN8 BURN8 BURN8 BURN8
static const int burnt[] = {
    BURN64
#if BURN > 1
    BURN64
#endif
#if BURN > 2
    BURN64
#endif
#if BURN > 3
    BURN64
#endif
#if BURN > 4
    BURN64
#endif
#if BURN > 5
    BURN64
#endif
};
