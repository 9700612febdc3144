/*UNIT
{"kind":"bounded","bound":"addresses of listed shapes (all lengths of groups and numbers that occur, with and without ::, with and without port, malformed ones); every digit arbitrary",
 "functions":["IPv4AddressToNum","IPv6AddressToNum","GetAddressFamily","AddressList_ConvertFromString"],
 "link":["addresslist.c","utils.c"],"havoc":["Log_Print","Log_DebugOn","Array_Init","Array_PushBack","Array_GetBySubscript","Array_Free"],
 "variants":[{"name":"v4","defines":["V=4"]},{"name":"v6","defines":["V=6"]},{"name":"addr","defines":["V=1"]},{"name":"bad","defines":["V=2"]}],
 "cbmc":["--unwind","60","--max-field-sensitivity-array-size","200"],"cost":5,"timeout":200,
 "trusted":["the code looks at digits only through sscanf and inet_addr","sscanf, strchr, strstr, isspace, inet_addr (dotted decimal)"]}
*/
/* The text of an address means that address. */
#include "vp.h"
#include <string.h>
#include <arpa/inet.h>
#include "addresslist.h"
#include "utils.h"
typedef struct { unsigned char sel; unsigned char d[64]; } IN;
VP_INPUTS(IN)
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
static char t[64];
static unsigned char want[16], out[64];
static const char *sh;
#ifdef __CPROVER
/* For the verifier the text has a placeholder for each arbitrary digit (a, 1),
   and what sscanf and inet_addr read there is the arbitrary value: the code
   looks at digits only through them. */
static const char *cp_o, *cp_s;
static int dv(const char *s, int b);
#define SCM_VALUE(s, b) dv(s, b)
#define SCM_COPIED(o, s) (cp_o = (o), cp_s = (s))
#include "stubs/sscanf_mini.h"
#include "stubs/ctype_c.h"
char *strstr(const char *h, const char *n)
{ for( ; ; ++h ) { int k = 0; while( n[k] != 0 && h[k] == n[k] ) ++k; if( n[k] == 0 ) return (char *)h; if( *h == 0 ) return 0; } }
static int dv(const char *s, int b)
{
    int i = __CPROVER_same_object(s, t) ? s - t : __CPROVER_same_object(s, cp_o) && cp_o != 0 ? (int)(s - cp_o + (cp_s - t)) : -1;
    if( i >= 0 && i < 64 && (sh[i] == 'x' || sh[i] == '9') ) return in.d[i];
    return scm_dig(*s, b);
}
in_addr_t inet_addr(const char *s)
{   /* by its contract: four decimal numbers */
    in_addr_t r; unsigned v = 0; int k = 0; unsigned char *b = (unsigned char *)&r;
    for( ; ; ++s )
    {
        if( *s >= '0' && *s <= '9' ) v = v * 10 + dv(s, 10);
        else { if( k > 3 || v > 255 ) return -1; b[k++] = v; v = 0; if( *s != '.' ) break; }
    }
    return *s == 0 && k == 4 ? r : (in_addr_t)-1;
}
#endif
/* builds t from a shape, in which x is any hexadecimal and 9 any decimal digit */
static int shape(const char *s)
{
    int i;
    sh = s;
    for( i = 0; s[i] != 0; ++i )
    {
        char c = s[i];
#ifdef __CPROVER
        if( c == 'x' ) { ASSUME(in.d[i] < 16); c = 'a'; }
        else if( c == '9' ) { ASSUME(in.d[i] < 10); c = '1'; }
#else
        if( c == 'x' ) c = "0123456789abcdef"[in.d[i] & 15];
        else if( c == '9' ) c = '0' + in.d[i] % 10;
#endif
        t[i] = c;
    }
    t[i] = 0;
    return i;
}
/* groups in t[from..], until end; fills want at group index g upwards */
static void groups(const char *s, int from, int to, int g)
{
    int i; unsigned v = 0;
    for( i = from; i < to; ++i )
    {
        if( s[i] == ':' ) { want[2 * g] = v >> 8; want[2 * g + 1] = v; g++; v = 0; }
        else v = v * 16 + in.d[i];
    }
    if( to > from ) { want[2 * g] = v >> 8; want[2 * g + 1] = v; }
}
static int countg(const char *s, int from, int to){ int i, n = to > from; for( i = from; i < to; ++i ) n += s[i] == ':'; return n; }
/* s: shape; a, b: the address is at t[a..b) */
static void expect6(const char *s, int a, int b)
{
    int i, dc = -1;
    memset(want, 0, 16);
    for( i = a; i + 1 < b; ++i ) if( s[i] == ':' && s[i + 1] == ':' && dc < 0 ) dc = i;
    if( dc < 0 ) { groups(s, a, b, 0); return; }
    groups(s, a, dc, 0);
    groups(s, dc + 2, b, 8 - countg(s, dc + 2, b));
}
static void v6(const char *s, int lead, int trail)
{
    int i, n = shape(s), r;
    expect6(s, lead, n - trail);
    memset(out, 0x5a, sizeof(out));
    r = IPv6AddressToNum(t, out + 8);
    CHECK(r == 16, "a well-formed address is accepted");
    for( i = 0; i < 16; ++i ) CHECK(out[8 + i] == want[i], "the text means that address");
    for( i = 0; i < 8; ++i ) CHECK(out[i] == 0x5a && out[24 + i] == 0x5a, "nothing else is written");
    REACH("v6");
}
static void v4(const char *s)
{
    int i, k = 0, r; unsigned v = 0; 
    shape(s);
    for( i = 0; ; ++i )
    {
        if( s[i] == '.' || s[i] == 0 || s[i] == ':' || s[i] == ' ' ) { ASSUME(v <= 255); want[k++] = v; v = 0; if( s[i] != '.' ) break; }
        else v = v * 10 + in.d[i];
    }
    memset(out, 0x5a, sizeof(out));
    r = IPv4AddressToNum(t, out + 8);
    CHECK(r == 4, "a well-formed address is accepted");
    for( i = 0; i < 4; ++i ) CHECK(out[8 + i] == want[i], "the text means that address");
    for( i = 0; i < 8; ++i ) CHECK(out[i] == 0x5a && out[12 + i] == 0x5a, "nothing else is written");
    CHECK(GetAddressFamily(t) == AF_INET, "and known to be IPv4");
    REACH("v4");
}
static void addr6(const char *s, int a, int b, int port)
{
    Address_Type o; int i, n = shape(s); unsigned p = 0; 
    if( port < 0 ) p = 53; else for( i = port; i < n; ++i ) p = p * 10 + in.d[i];
    ASSUME(p <= 65535);
    expect6(s, a, b);
    CHECK(AddressList_ConvertFromString(&o, t, 53) == AF_INET6 && o.family == AF_INET6 && o.Addr.Addr6.sin6_family == AF_INET6, "an address in brackets is IPv6");
    for( i = 0; i < 16; ++i ) CHECK(((unsigned char *)&o.Addr.Addr6.sin6_addr)[i] == want[i], "the address is that of the text");
    CHECK(o.Addr.Addr6.sin6_port == htons(p), "so is the port, or else the default one");
    CHECK(o.Addr.Addr6.sin6_flowinfo == 0 && o.Addr.Addr6.sin6_scope_id == 0, "nothing else is set");
    REACH("addr6");
}
static void addr4(const char *s, int port)
{
    Address_Type o; int i, k = 0, n = shape(s); unsigned p = 0, v = 0;
    if( port < 0 ) p = 53; else for( i = port; i < n; ++i ) p = p * 10 + in.d[i];
    for( i = 0; ; ++i )
    {
        if( s[i] == '.' || s[i] == 0 || s[i] == ':' ) { ASSUME(v <= 255); want[k++] = v; v = 0; if( s[i] != '.' ) break; }
        else v = v * 10 + in.d[i];
    }
    ASSUME(p <= 65535);
    CHECK(AddressList_ConvertFromString(&o, t, 53) == AF_INET && o.family == AF_INET && o.Addr.Addr4.sin_family == AF_INET, "it is IPv4");
    for( i = 0; i < 4; ++i ) CHECK(((unsigned char *)&o.Addr.Addr4.sin_addr)[i] == want[i], "the address is that of the text");
    CHECK(o.Addr.Addr4.sin_port == htons(p), "so is the port, or else the default one");
    REACH("addr4");
}
/* malformed: refused or read as something, but nothing outside is touched, and what is read depends on the text alone */
static void bad6(const char *s)
{
    int i, r; unsigned char o2[16];
    shape(s);
    memset(out, 0x5a, sizeof(out));
    r = IPv6AddressToNum(t, out + 8);
    for( i = 0; i < 8; ++i ) CHECK(out[i] == 0x5a && out[24 + i] == 0x5a, "a malformed address writes nothing outside");
    CHECK(r != 16, "a malformed address is refused");
    REACH("bad6");
}
static void bad4(const char *s)
{
    int i, r;
    shape(s);
    memset(out, 0x5a, sizeof(out));
    r = IPv4AddressToNum(t, out + 8);
    for( i = 0; i < 8; ++i ) CHECK(out[i] == 0x5a && out[12 + i] == 0x5a, "a malformed address writes nothing outside");
    CHECK(r != 4, "a malformed address is refused");
    CHECK(GetAddressFamily(t) == AF_UNSPEC, "and not taken for an address");
    REACH("bad4");
}
static void badport(const char *s, int v4)
{
    Address_Type o;
    shape(s);
    CHECK(AddressList_ConvertFromString(&o, t, 53) == (v4 ? AF_INET : AF_INET6), "the address is read");
    CHECK((v4 ? o.Addr.Addr4.sin_port : o.Addr.Addr6.sin6_port) == htons(53), "a port that is not a number leaves the default port");
    REACH("badport");
}
void harness(void)
{
    VP_LOAD();
    switch( in.sel )
    {
#if V == 4
    case 0: v4("9.9.9.9"); break;
    case 1: v4("99.9.999.9"); break;
    case 2: v4("999.999.999.999"); break;
    case 3: v4("9.99.9.99:53"); break;
    default: v4("9.9.9.9 "); break;
#elif V == 6
    case 0: v6("x:x:x:x:x:x:x:x", 0, 0); break;
    case 1: v6("xxxx:xxxx:xxxx:xxxx:xxxx:xxxx:xxxx:xxxx", 0, 0); break;
    case 2: v6("::x", 0, 0); break;
    case 3: v6("x::", 0, 0); break;
    case 4: v6("xxxx::x", 0, 0); break;
    case 5: v6("x:xx::xxx:xxxx", 0, 0); break;
    case 6: v6("::", 0, 0); break;
    case 7: v6("x:x:x:x:x:x:x::", 0, 0); break;
    case 8: v6("::x:x:x:x:x:x:xx", 0, 0); break;
    case 9: v6("xxxx:xxxx:xxxx::", 0, 0); break;
    case 10: v6("xxxx:x:x:x::x:x:xxx", 0, 0); break;
    default: v6("  xx::xx", 2, 0); break;
#elif V == 1
    case 0: addr4("9.9.9.9", -1); break;
    case 1: addr4("999.99.9.9:9", 11); break;
    case 2: addr4("99.99.99.99:99999", 12); break;
    case 3: addr4("999.999.999.999:9999", 16); break;
    case 4: addr6("[::x]", 1, 4, -1); break;
    case 5: addr6("[xxxx:x::x]:9", 1, 10, 12); break;
    case 6: addr6("[xxxx:xxxx:xxxx:xxxx:xxxx:xxxx:xxxx:xxxx]:99999", 1, 40, 42); break;
    case 7: addr6("[::]:9999", 1, 3, 5); break;
    default: addr6("[x:x:x:x:x:x:x:x]", 1, 16, -1); break;
#else
    case 0: bad6("x:x:x:x:x:x:x:x:x::"); break;
    case 1: bad6("x::x:x:x:x:x:x:x:x:x"); break;
    case 2: bad6("x:x:x:x:x:x:x:x:x:x:x:x:x:x:x::"); break;
    case 3: bad6("::x:x:x:x:x:x:x:x:x:x:x:x"); break;
    case 4: bad6("x:x"); break;
    case 5: bad6("x:x:x:x:x:x:x"); break;
    case 6: bad4("9.9.9"); break;
    case 7: bad4(""); break;
    case 8: bad4("x.y"); break;
    case 9: bad4("9"); break;
    case 10: badport("9.9.9.9:", 1); break;
    case 11: badport("9.9.9.9:p", 1); break;
    case 12: badport("[::x]:", 0); break;
    default: badport("[::x]:p", 0); break;
#endif
    }
}
