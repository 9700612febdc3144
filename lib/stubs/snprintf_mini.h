/* snprintf as its contract for %s %X %d %u %c %%: the text is written as far as
   it fits, always ended, and the length of the whole text is returned. */
#ifndef SNPRINTF_MINI_H
#define SNPRINTF_MINI_H
static int snm_put(char *b, unsigned long n, int k, char c){ if( (unsigned long)k + 1 < n ) b[k] = c; return k + 1; }
int snprintf(char *b, unsigned long n, const char *f, ...)
{
    __builtin_va_list ap;
    int k = 0, i, j;
    __builtin_va_start(ap, f);
    for( i = 0; f[i] != 0; ++i )
    {
        if( f[i] != '%' ) { k = snm_put(b, n, k, f[i]); continue; }
        ++i;
        if( f[i] == 's' ) { const char *s = __builtin_va_arg(ap, const char *); for( j = 0; s[j] != 0; ++j ) k = snm_put(b, n, k, s[j]); }
        else if( f[i] == 'c' ) { int c = __builtin_va_arg(ap, int); k = snm_put(b, n, k, (char)c); }
        else if( f[i] == '%' ) k = snm_put(b, n, k, '%');
        else
        {
            unsigned v = __builtin_va_arg(ap, unsigned), base = f[i] == 'X' || f[i] == 'x' ? 16 : 10, d = 1;
            if( f[i] == 'd' && (int)v < 0 ) { k = snm_put(b, n, k, '-'); v = -v; }
            while( v / d >= base ) d *= base;
            for( ; d != 0; d /= base ) k = snm_put(b, n, k, (f[i] == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[v / d % base]);
        }
    }
    __builtin_va_end(ap);
    if( n > 0 ) b[(unsigned long)k < n ? (unsigned long)k : n - 1] = 0;
    return k;
}
#endif
