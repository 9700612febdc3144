/* sscanf and sprintf as their contracts for the conversions used here:
   %d %u %x %hu %Ns %N[^c], literals and blanks; sprintf: see snprintf_mini.h. */
#ifndef SSCANF_MINI_H
#define SSCANF_MINI_H
static int scm_sp(char c){ return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static int scm_dig(char c, int base)
{
    if( c >= '0' && c <= '9' ) return c - '0';
    if( base == 16 && c >= 'a' && c <= 'f' ) return c - 'a' + 10;
    if( base == 16 && c >= 'A' && c <= 'F' ) return c - 'A' + 10;
    return -1;
}
/* SCM_VALUE(s, base): the value of the digit at s; SCM_COPIED(o, s): text at s is copied to o */
#ifndef SCM_VALUE
#define SCM_VALUE(s, base) scm_dig(*(s), base)
#define SCM_COPIED(o, s)
#endif
int sscanf(const char *s, const char *f, ...)
{
    __builtin_va_list ap;
    int done = 0, stop = 0;
    __builtin_va_start(ap, f);
    while( *f != 0 && !stop )
    {
        int width = 0, half = 0;
        if( scm_sp(*f) ) { while( scm_sp(*s) ) ++s; ++f; continue; }
        if( *f != '%' ) { if( *s != *f ) { if( *s == 0 && done == 0 ) done = -1; stop = 1; } else { ++s; ++f; } continue; }
        ++f;
        while( *f >= '0' && *f <= '9' ) width = width * 10 + *f++ - '0';
        if( *f == 'h' ) { half = 1; ++f; }
        if( *f == '[' )     /* only [^c] */
        {
            char c = f[2], *o = __builtin_va_arg(ap, char *); int k = 0;
            if( *s == 0 ) { if( done == 0 ) done = -1; stop = 1; continue; }
            SCM_COPIED(o, s);
            while( *s != 0 && *s != c && k < width ) o[k++] = *s++;
            if( k == 0 ) { stop = 1; continue; }
            o[k] = 0; ++done; f += 4;
        }
        else if( *f == 's' )
        {
            char *o = __builtin_va_arg(ap, char *); int k = 0;
            while( scm_sp(*s) ) ++s;
            if( *s == 0 ) { if( done == 0 ) done = -1; stop = 1; continue; }
            while( *s != 0 && !scm_sp(*s) && (width == 0 || k < width) ) o[k++] = *s++;
            o[k] = 0; ++done; ++f;
        }
        else
        {
            int base = *f == 'x' ? 16 : 10, neg = 0; unsigned v = 0; void *o;
            while( scm_sp(*s) ) ++s;
            if( *s == 0 ) { if( done == 0 ) done = -1; stop = 1; continue; }
            if( *s == '-' ) { neg = 1; ++s; } else if( *s == '+' ) ++s;
            if( base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && scm_dig(s[2], 16) >= 0 ) s += 2;
            if( scm_dig(*s, base) < 0 ) { stop = 1; continue; }
            while( scm_dig(*s, base) >= 0 ) { v = v * base + SCM_VALUE(s, base); ++s; }
            if( neg ) v = -v;
            o = __builtin_va_arg(ap, void *);
            if( half ) *(unsigned short *)o = v; else *(unsigned *)o = v;
            ++done; ++f;
        }
    }
    __builtin_va_end(ap);
    return done;
}
#endif
