/*UNIT
{"kind":"bounded","bound":"IPv4: none; IPv6: 21 patterns of zero and other groups; in 5 of them one group has any value",
 "functions":["IPv6AddressToAsc","IPv4AddressToAsc"],
 "link":["utils.c"],"havoc":["Log_Print","Log_DebugOn"],
 "variants":[{"name":"v4","defines":["V=4"]},{"name":"v6a","defines":["V=6","PART=1"]},{"name":"v6b","defines":["V=6","PART=2"]},{"name":"v6c","defines":["V=6","PART=3"]}],
 "cbmc":["--unwind","18","--unwindset","harness.1:42,v6.2:42,v6.1:42,harness.0:42","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200,
 "trusted":["sprintf"]}
*/
/* An address is written so that it reads back as the same address. */
#include "vp.h"
#include <string.h>
#include "utils.h"
typedef struct { unsigned char sel; unsigned char a[16]; } IN;
VP_INPUTS(IN)
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
#ifdef __CPROVER
static char *num(char *b, unsigned v, int base)
{   /* up to four digits, ended */
    int started = 0, i; unsigned d[5];
    for( i = 4; i >= 0; --i ) { d[i] = base == 16 ? v & 15 : v % 10; v = base == 16 ? v >> 4 : v / 10; }
    for( i = 0; i < 5; ++i ) if( d[i] != 0 || started || i == 4 ) { *b++ = "0123456789abcdef"[d[i]]; started = 1; }
    *b = 0;
    return b;
}
int sprintf(char *b, const char *f, ...)
{
    __builtin_va_list ap; char *o = b;
    __builtin_va_start(ap, f);
    for( ; *f != 0; ++f )
    {
        if( *f != '%' ) *b++ = *f;
        else { ++f; /* the verifier passes narrow arguments as they are */
            if( *f == 'x' ) b = num(b, __builtin_va_arg(ap, unsigned short), 16); else b = num(b, __builtin_va_arg(ap, unsigned char), 10); }
    }
    *b = 0;
    __builtin_va_end(ap);
    return b - o;
}
#endif
static char buf[48];
static void v6(const char *p);
void harness(void)
{
    int i, n;
    VP_LOAD();
    memset(buf, 0x5a, sizeof(buf));
#if V == 4
    {
        unsigned v = 0; int k = 0, digits = 0;
        n = IPv4AddressToAsc(in.a, buf);
        CHECK(n >= 7 && n <= 15 && buf[n] == 0, "the length is returned");
        for( i = 0; i <= 15; ++i ) if( i <= n )
        {
            if( i < n && buf[i] >= '0' && buf[i] <= '9' ) { v = v * 10 + buf[i] - '0'; digits++; }
            else
            {
                CHECK(digits >= 1 && k < 4 && v == in.a[k], "every part in its place");
                CHECK(i == n || (buf[i] == '.' && k < 3), "separated by dots"); v = 0; digits = 0; k++;
            }
        }
        CHECK(k == 4, "four parts");
        CHECK(buf[17] == 0x5a, "nothing else is written");
        REACH("v4");
    }
#else
    switch( in.sel )
    {
#if PART == 1
    case 0: v6("s0000000"); break;
    default: v6("f000000s"); break;
#endif
#if PART == 2
    case 0: v6("f00000s0"); break;
    default: v6("fffffffs"); break;
#endif
#if PART == 3
    case 0: v6("0000000s"); break;
    case 1: v6("f0f00ff0"); break;
    case 2: v6("ffffff0s"); break;
    case 3: v6("0ffffff0"); break;
    case 4: v6("ffffffff"); break;
    case 5: v6("00000000"); break;
    case 6: v6("1f01001f"); break;
    case 7: v6("10000001"); break;
    case 8: v6("01000f0f"); break;
    case 9: v6("f00000ff"); break;
    case 10: v6("01111111"); break;
    case 11: v6("11111110"); break;
    case 12: v6("0f000f00"); break;
    case 13: v6("00f000f0"); break;
    case 14: v6("1001000f"); break;
    default: v6("f1f1f1f1"); break;
#endif
    }
#endif
}
#if V == 6
static void v6(const char *p)
    {
        unsigned g[9], v = 0; int n, k = 0, digits = 0, dc = -1, z = 0, best = 0, i;
        for( i = 0; i < 8; ++i ) if( p[i] != 's' ) { in.a[2 * i] = p[i] == 'f' ? 255 : 0; in.a[2 * i + 1] = p[i] == 'f' ? 255 : p[i] == '1'; }
        n = IPv6AddressToAsc(in.a, buf);
        CHECK(n >= 2 && n <= 39 && buf[n] == 0, "the length is returned, and fits the usual buffer");
        for( i = 0; i < 9; ++i ) g[i] = 0;
        for( i = 0; i <= 39; ++i ) if( i <= n )
        {
            char c = buf[i];
            if( i < n && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')) ) { v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); digits++; }
            else
            {
                CHECK(i == n || c == ':', "digits and colons");
                if( digits > 0 )
                {
                    CHECK(k < 8 && digits <= 4, "groups of up to four digits"); if( k < 8 ) g[k++] = v;
                    if( i < n && i + 1 == n ) CHECK(0, "no colon at the end but ::");
                }
                else if( i > 0 && i < n ) { CHECK(buf[i - 1] == ':' && dc < 0, "one :: at most"); dc = k; if( i + 1 == n ) break; }
                else CHECK(i == 0 && i < n && buf[1] == ':', "a colon starts only as ::");
                v = 0; digits = 0;
            }
        }
        CHECK(dc >= 0 ? k < 8 : k == 8, "eight groups, fewer with ::");
        for( i = 0; i < 8; ++i )
        {
            unsigned w = in.a[2 * i] << 8 | in.a[2 * i + 1], r = dc < 0 ? g[i] : i < dc ? g[i] : i >= 8 - (k - dc) ? g[i - (8 - k)] : 0;
            CHECK(w == r, "the text reads back as the address");
            z = w == 0 ? z + 1 : 0; if( z > best ) best = z;
        }
        CHECK(dc < 0 ? best < 2 : 8 - k == best, ":: stands for the longest run of zeros");
        CHECK(buf[45] == 0x5a, "nothing else is written");
        REACH("v6");
    }
#endif
