/* Text written to standard output, character by character, whatever calls it
 * is written with.  The unit defines
 *   static int  vx_text(const char *s);  whether s is one of the texts it follows
 *   static void vx_s(const char *s);     such a text is written
 *   static void vx_c(char c);            a single character is written
 * A unit that needs the number of characters written defines VX_BEGIN and
 * VX_WRITTEN before; otherwise it is any number.  Other conversions than %s,
 * %c and %%, and calls that write more than 24 characters (56 when the format
 * is that long) are outside the model; with VX_NOFIXED also other texts than
 * the followed ones as arguments. */
#ifndef VX_WRITTEN
#define VX_BEGIN
#define VX_WRITTEN nondet_int()
#endif
static int vx_text(const char *s); static void vx_s(const char *s); static void vx_c(char c);
#define VX_O { int e = 0; char h = 0; \
    if (t) { h = *t; if (h) { t++; e = 1; } else t = 0; } \
    else if (*f && *f != '%') { h = *f; f++; e = 1; } \
    else if (*f) { f++; VX_MODEL(*f == 's' || *f == 'c' || *f == '%', "a plain conversion"); if (*f == '%') { h = '%'; e = 1; } \
        else { x = k == 0 ? a : k == 1 ? b : k == 2 ? c : d; k++; if (*f == 'c') { h = (char)(size_t)x; e = 1; } else if (vx_text((const char *)x)) e = 2; else VX_FIXED } f++; } \
    if (e == 1) vx_c(h); else if (e == 2) vx_s((const char *)x); }
#ifdef VX_NOFIXED
#define VX_FIXED VX_MODEL(0, "only the texts followed");
#else
#define VX_FIXED t = (const char *)x;
#endif
#define VX_O4 VX_O VX_O VX_O VX_O
#define VX_O8 VX_O4 VX_O4
#define VX_O24 VX_O8 VX_O8 VX_O8
#define VX_O56 VX_O24 VX_O24 VX_O8
#define VX_PRINTER(n, steps) static int n(const char *f, const void *a, const void *b, const void *c, const void *d) { int k = 0; const char *t = 0; const void *x = 0; VX_BEGIN steps VX_MODEL(!*f && (!t || !*t), "a short text"); return VX_WRITTEN; }
VX_PRINTER(vx_printf, VX_O24)
VX_PRINTER(vx_printf_long, VX_O56)
#define vx_pr(f, a, b, c, d) __builtin_choose_expr(sizeof(f) <= 24, vx_printf(f, a, b, c, d), vx_printf_long(f, a, b, c, d))
#define VX_A(x) ((const void *)(x))
#define VX_P1(f) vx_pr(f, 0, 0, 0, 0)
#define VX_P2(f, a) vx_pr(f, VX_A(a), 0, 0, 0)
#define VX_P3(f, a, b) vx_pr(f, VX_A(a), VX_A(b), 0, 0)
#define VX_P4(f, a, b, c) vx_pr(f, VX_A(a), VX_A(b), VX_A(c), 0)
#define VX_P5(f, a, b, c, d) vx_pr(f, VX_A(a), VX_A(b), VX_A(c), VX_A(d))
#define VX_PSEL(a, b, c, d, e, F, ...) F
#define printf(...) VX_PSEL(__VA_ARGS__, VX_P5, VX_P4, VX_P3, VX_P2, VX_P1)(__VA_ARGS__)
#undef putchar
#define putchar(c) vx_putc(c)
static int vx_putc(int c) { vx_c((char)c); return c; }
#undef fputc
#define fputc(c, o) vx_putc(c)
#undef putc
#define putc(c, o) vx_putc(c)
#define fputs(s, o) vx_printf("%s", VX_A(s), 0, 0, 0)
#define puts(s) vx_printf("%s\n", VX_A(s), 0, 0, 0)
