/* forced into the library sources: counts what the pattern engine hands out */
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
extern long n26_codes, n26_blocks;
static inline pcre2_code *n26_compile(PCRE2_SPTR p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *w, pcre2_compile_context *x) { pcre2_code *c = pcre2_compile(p, n, o, e, w, x); n26_codes += c != NULL; return c; }
static inline void n26_code_free(pcre2_code *c) { n26_codes -= c != NULL; pcre2_code_free(c); }
static inline pcre2_match_data *n26_block(const pcre2_code *c, pcre2_general_context *x) { pcre2_match_data *m = pcre2_match_data_create_from_pattern(c, x); n26_blocks += m != NULL; return m; }
static inline pcre2_match_data *n26_room(uint32_t n, pcre2_general_context *x) { pcre2_match_data *m = pcre2_match_data_create(n, x); n26_blocks += m != NULL; return m; }
static inline void n26_block_free(pcre2_match_data *m) { n26_blocks -= m != NULL; pcre2_match_data_free(m); }
#undef pcre2_compile
#undef pcre2_code_free
#undef pcre2_match_data_create_from_pattern
#undef pcre2_match_data_create
#undef pcre2_match_data_free
#define pcre2_match_data_create n26_room
#define pcre2_compile n26_compile
#define pcre2_code_free n26_code_free
#define pcre2_match_data_create_from_pattern n26_block
#define pcre2_match_data_free n26_block_free
