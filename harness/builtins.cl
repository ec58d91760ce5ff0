// Built-in functions of OpenCL C for the stand-in of fakecl.hpp: plain implementations for this machine.
#define OV __attribute__((overloadable))
#define FROM(T, U) OV T convert_##T(U v) { return (T)v; }
#define FROM_ALL(T) FROM(T, char) FROM(T, uchar) FROM(T, short) FROM(T, ushort) FROM(T, int) FROM(T, uint) FROM(T, long) FROM(T, ulong) FROM(T, float)
FROM_ALL(char) FROM_ALL(uchar) FROM_ALL(short) FROM_ALL(ushort) FROM_ALL(int) FROM_ALL(uint) FROM_ALL(long) FROM_ALL(ulong) FROM_ALL(float)
#define ROUNDED(M) OV float convert_float_##M(long v) { return (float)v; } OV float convert_float_##M(ulong v) { return (float)v; } \
    OV float convert_float_##M(int v) { return (float)v; } OV float convert_float_##M(uint v) { return (float)v; }
ROUNDED(rte)

#define ORDER(T) OV T min(T a, T b) { return b < a ? b : a; } OV T max(T a, T b) { return a < b ? b : a; } OV T clamp(T v, T a, T b) { return v < a ? a : b < v ? b : v; }
ORDER(char) ORDER(uchar) ORDER(short) ORDER(ushort) ORDER(int) ORDER(uint) ORDER(long) ORDER(ulong) ORDER(float)
#define SIGNED(T) OV u##T abs(T v) { return v < 0 ? -(u##T)v : (u##T)v; } OV u##T abs_diff(T a, T b) { return a < b ? (u##T)b - (u##T)a : (u##T)a - (u##T)b; }
SIGNED(char) SIGNED(short) SIGNED(int) SIGNED(long)
#define UNSIGNED(T) OV T abs(T v) { return v; } OV T abs_diff(T a, T b) { return a < b ? b - a : a - b; }
UNSIGNED(uchar) UNSIGNED(ushort) UNSIGNED(uint) UNSIGNED(ulong)
#define WHOLE(T) OV T mad24(T a, T b, T c) { return a * b + c; } OV T mul24(T a, T b) { return a * b; }
WHOLE(int) WHOLE(uint)

OV float fabs(float v) { return v < 0 ? -v : v + 0.0f; }
OV float fmin(float a, float b) { return a != a ? b : b < a ? b : a; }
OV float fmax(float a, float b) { return a != a ? b : a < b ? b : a; }
OV float mad(float a, float b, float c) { return a * b + c; }
OV float fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
OV float sqrt(float v) { return __builtin_sqrtf(v); }
OV float floor(float v) { return __builtin_floorf(v); }
OV float ceil(float v) { return __builtin_ceilf(v); }
OV float trunc(float v) { return __builtin_truncf(v); }
OV float round(float v) { return __builtin_roundf(v); }
OV float rint(float v) { return __builtin_rintf(v); }
OV float pown(float v, int n) { float r = 1; for (int i = n < 0 ? -n : n; i > 0; --i) r *= v; return n < 0 ? 1 / r : r; }
OV float pow(float v, float e) { return __builtin_powf(v, e); }
OV float sign(float v) { return v > 0 ? 1.0f : v < 0 ? -1.0f : v == 0 ? v : 0.0f; }
OV float step(float e, float v) { return v < e ? 0.0f : 1.0f; }
OV float mix(float a, float b, float t) { return a + (b - a) * t; }
OV int isequal(float a, float b) { return a == b; }
OV int isnotequal(float a, float b) { return a != b; }
OV int isgreater(float a, float b) { return a > b; }
OV int isgreaterequal(float a, float b) { return a >= b; }
OV int isless(float a, float b) { return a < b; }
OV int islessequal(float a, float b) { return a <= b; }
OV int isnan(float a) { return a != a; }
OV int isinf(float a) { return a == a && a - a != 0; }
OV int isfinite(float a) { return a - a == 0; }
#define SELECT(T, U) OV T select(T a, T b, U c) { return c ? b : a; }
SELECT(int, int) SELECT(int, uint) SELECT(uint, int) SELECT(uint, uint) SELECT(long, long) SELECT(long, ulong) SELECT(ulong, long) SELECT(ulong, ulong) SELECT(float, int) SELECT(float, uint)
