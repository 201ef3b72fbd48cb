/* the documented boolean words, any letter case; -1: not a boolean */
#ifndef BOOLWORDS_H
#define BOOLWORDS_H
#define LOW(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
static int ref_bool(const char *s, size_t n) {
    if (n == 0 || n > 5) return -1;
    char a = LOW(s[0]), b = n > 1 ? LOW(s[1]) : 0, c = n > 2 ? LOW(s[2]) : 0, d = n > 3 ? LOW(s[3]) : 0, e = n > 4 ? LOW(s[4]) : 0;
    switch (n) {
        case 1: return a == '1' || a == 'y' ? 1 : a == '0' || a == 'n' ? 0 : -1;
        case 2: return a == 'o' && b == 'n' ? 1 : a == 'n' && b == 'o' ? 0 : -1;
        case 3: if (a == 'y' && b == 'e' && c == 's') return 1;
                if (a == 'o' && b == 'f' && c == 'f') return 0;
                if (a == '0' && (b == 'x' || b == 'b')) return c == '1' ? 1 : c == '0' ? 0 : -1;
                return -1;
        case 4: return a == 't' && b == 'r' && c == 'u' && d == 'e' ? 1 : -1;
        default: return a == 'f' && b == 'a' && c == 'l' && d == 's' && e == 'e' ? 0 : -1;
    }
}
#endif
