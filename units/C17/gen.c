/*UNIT
{"kind":"bounded","bound":"buffers of up to 48 bytes with any room left, names of the shapes listed in NAMES (0 to 3 labels), record data of up to 20 bytes; any TTL / type / class / preference / data bytes",
 "functions":["DnsGenerator_Init","DnsGenerator_NamePart","DNSLabelizedName","DnsGenerator_Question","DnsGenerator_CName","DnsGenerator_MX","DnsGenerator_A","DnsGenerator_AAAA","DnsGenerator_EDns","DnsGenerator_RawData","DnsGenerator_16Uint","DnsGenerator_32Uint","DnsGenerator_NextPurpose","DnsGenerator_Length"],
 "link":["dnsgenerator.c"],"cbmc":["--unwind","82"],"cost":20,"timeout":400,
 "variants":[{"name":"question","defines":["OP=0"]},{"name":"cname","defines":["OP=1"]},{"name":"mx","defines":["OP=2"]},{"name":"a","defines":["OP=3"]},{"name":"aaaa","defines":["OP=4"]},{"name":"edns","defines":["OP=5"]},{"name":"raw","defines":["OP=6"]}],
 "trusted":["IPv4AddressToNum / IPv6AddressToNum: stand-ins that write exactly 4 / 16 bytes (checked under C14)"]}
*/
/* One record appended to a message under construction, into a buffer with any
   amount of room left: either it is there, complete and counted, or the call
   fails; nothing is ever written past the buffer. */
#include "vp.h"
#include <string.h>
#include "dnsgenerator.h"
#define NL 6
#define CAP 48
typedef struct { unsigned char room, sec, shape, sel; unsigned char ip[16], data[20]; unsigned short type, klass, pref, size, cnt; int ttl; } IN;
VP_INPUTS(IN)
int IPv4AddressToNum(const char *asc, void *b){ int i; for( i = 0; i < 4; ++i ) ((unsigned char *)b)[i] = in.ip[i]; return 0; }
int IPv6AddressToNum(const char *asc, void *b){ int i; for( i = 0; i < 16; ++i ) ((unsigned char *)b)[i] = in.ip[i]; return 0; }

static unsigned char buf[CAP + 32];
static int pos, end;
/* reference decoder */
static void want8(int v){ CHECK(pos < end && buf[pos] == (unsigned char)v, "the record is encoded as asked"); pos++; }
static void want16(int v){ want8(v >> 8); want8(v); }
static void want32(unsigned v){ want16(v >> 16); want16(v & 0xffff); }
static int enc_len(const char *n){ int l = strlen(n); return l == 0 ? 1 : l + 2; }
static void want_name(const char *n)
{
    int i, j;
    if( *n == 0 ){ want8(0); return; }
    for( i = 0; ; ++i )
    {
        for( j = i; n[j] != 0 && n[j] != '.'; ++j ) ;
        want8(j - i);
        for( ; i < j; ++i ) want8(n[i]);
        if( n[j] == 0 ) break;
    }
    want8(0);
}
static int count(int sec){ return buf[4 + 2 * sec] << 8 | buf[5 + 2 * sec]; }

static void run(const char *name, const char *target, int dlen)
{
    DnsGenerator g;
    int i, sec, r, before, need, old;
    for( i = 12; i < CAP + 32; ++i ) buf[i] = 0x5A;
    ASSUME(DnsGenerator_Init(&g, (char *)buf, 12 + in.room, NULL, 0, FALSE) == 0);
    CHECK(count(0) == 0 && count(1) == 0 && count(2) == 0 && count(3) == 0 && g.Length(&g) == 12, "a new message is empty");
    for( i = 0; i < in.sec; ++i ) CHECK(g.NextPurpose(&g) == (i == 0 ? DNS_RECORD_PURPOSE_ANSWER : i == 1 ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL), "the sections come in order");
    sec = in.sec;
    buf[4 + 2 * sec] = in.cnt >> 8; buf[5 + 2 * sec] = in.cnt & 255;
    old = in.cnt;
    before = g.Length(&g);
    pos = before;
#if OP == 0
    r = g.Question(&g, name, in.type, in.klass);
    need = enc_len(name) + 4;
    if( sec != 0 ) need = -1;
#elif OP == 1
    r = g.CName(&g, name, target, in.ttl);
    need = enc_len(name) + 10 + enc_len(target);
#elif OP == 2
    r = g.MX(&g, name, in.pref, target, in.ttl);
    need = enc_len(name) + 10 + 2 + enc_len(target);
#elif OP == 3
    r = g.A(&g, name, "x", in.ttl);
    need = enc_len(name) + 10 + 4;
#elif OP == 4
    r = g.AAAA(&g, name, "x", in.ttl);
    need = enc_len(name) + 10 + 16;
#elif OP == 5
    r = g.EDns(&g, in.size);
    need = sec == 3 ? 11 : -1;
#else
    r = g.RawData(&g, name, in.type, in.klass, (char *)in.data, dlen, in.ttl);
    need = dlen > 0 ? enc_len(name) + 10 + dlen : -1;
#endif
#if OP != 0
    if( sec == 0 ) need = -1;
#endif
    end = g.Length(&g);
    CHECK(end >= before && end <= 12 + in.room, "the message never outgrows its buffer");
    for( i = 12; i < CAP + 32; ++i ) if( i >= 12 + in.room ) CHECK(buf[i] == 0x5A, "nothing is written past the buffer");
    CHECK((r == 0) == (need >= 0 && need <= in.room), "a record is accepted exactly when it belongs in the section and fits");
    if( r != 0 ){ CHECK(count(sec) == old, "a record that was not added is not counted"); REACH("refused"); }
    else {
        CHECK(count(sec) == ((old + 1) & 0xffff), "an added record is counted once");
#if OP == 0
        want_name(name); want16(in.type); want16(in.klass);
#elif OP == 1
        want_name(name); want16(5); want16(1); want32(in.ttl); want16(enc_len(target)); want_name(target);
#elif OP == 2
        want_name(name); want16(15); want16(1); want32(in.ttl); want16(enc_len(target) + 2); want16(in.pref); want_name(target);
#elif OP == 3
        want_name(name); want16(1); want16(1); want32(in.ttl); want16(4); for( i = 0; i < 4; ++i ) want8(in.ip[i]);
#elif OP == 4
        want_name(name); want16(28); want16(1); want32(in.ttl); want16(16); for( i = 0; i < 16; ++i ) want8(in.ip[i]);
#elif OP == 5
        want8(0); want16(41); want16(in.size); want32(0); want16(0);
#else
        want_name(name); want16(in.type); want16(in.klass); want32(in.ttl); want16(dlen); for( i = 0; i < dlen; ++i ) want8(in.data[i]);
#endif
        CHECK(pos == end, "nothing but the record is appended");
        REACH("added");
    }
    for( i = 0; i < 4; ++i ) if( i != sec ) CHECK(count(i) == 0, "no other section's count changes");
}

static void sections(int dlen)
{
    /* data-independent in the letters: the shapes are what matters */
#if OP == 0 || OP == 3 || OP == 4
    switch( in.shape ) {
    case 0: run("", "", dlen); break;
    case 1: run("a", "", dlen); break;
    case 2: run("a.bc", "", dlen); break;
    case 3: run("abc.d.ef", "", dlen); break;
    }
#elif OP == 1 || OP == 2
    switch( in.shape ) {
    case 0: run("", "b.c", dlen); break;
    case 1: run("a", "", dlen); break;
    case 2: run("a.bc", "d", dlen); break;
    case 3: run("ab.d", "abc.d.ef", dlen); break;
    }
#elif OP == 5
    run("", "", 0);
#else
    switch( in.shape ) {
    case 0: run("", "", dlen); break;
    case 1: run("a", "", dlen); break;
    case 2: run("a.bc", "", dlen); break;
    }
#endif
}
void harness(void)
{
    VP_LOAD();
    ASSUME(in.room <= CAP - 12 && in.sec < 4 && in.shape < 4);
#if OP == 6
    switch( in.sel % 5 ) { case 0: sections(-1); break; case 1: sections(0); break; case 2: sections(1); break; case 3: sections(4); break; default: sections(20); break; }
#else
    sections(0);
#endif
}
