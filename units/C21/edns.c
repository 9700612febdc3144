/*UNIT
{"kind":"bounded","bound":"queries of 17, 28 and 40 octets (any content, any record counts), and room for 0 to 23 more octets or the usual 4096-octet buffer",
 "functions":["MsgContext_AddFakeEdns","MsgContext_IsBlocked","DnsGenerator_Init","DnsGenerator_NextPurpose","DnsGenerator_CurrentPurpose","DnsGenerator_EDns","DnsGenerator_NamePart","DnsGenerator_16Uint","DnsGenerator_32Uint","DnsGenerator_Length"],
 "link":["iheader.c","dnsgenerator.c"],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","StrToLower","BKDRHash","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","8","--unwindset","memmove.0:50,memcpy.0:50,harness.0:45,harness.1:45,run.0:45,run.1:105,run.2:45,run.3:45,run.4:45,run.5:45","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200}
*/
/* A query for which EDNS is to be used goes out with one OPT record at its end and
   is otherwise unchanged; all of it, or nothing, and the server gets on. */
#include "vp.h"
#include <string.h>
#include "iheader.h"
#include "utils.h"
typedef struct { unsigned char sel; _Bool ap, edns; int room; unsigned char e[40]; } IN;
VP_INPUTS(IN)
static struct { IHeader h; unsigned char e[100]; } msg;
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp){ return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p){ return -1; }
char *StrToLower(char *s){ return s; }
unsigned int BKDRHash(const char *s, unsigned int o){ return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
static void run(int len)
{
    int i, r, add, buflen; unsigned ar;
    for( i = 0; i < len; i++ ) msg.e[i] = in.e[i];
    for( ; i < 100; i++ ) msg.e[i] = 0xEE;
    msg.h.EntityLength = len; msg.h.EDNSEnabled = in.edns ? 1 : 0;
    ar = in.e[10] * 256 + in.e[11];
    ASSUME(ar < 65535);     /* no query has that many */
    buflen = in.room < 0 ? SOCKET_CONTEXT_LENGTH : (int)sizeof(IHeader) + len + in.room;
    MsgContext_Init(in.ap ? 1 : 0);
    CHECK(!!MsgContext_IsBlocked((MsgContext *)&msg) == (in.ap && !in.edns), "what is without EDNS is blocked where EDNS is required");
    r = MsgContext_AddFakeEdns((MsgContext *)&msg, buflen);
    add = in.ap && !in.edns && (in.room < 0 || in.room >= 11);
    CHECK((r == 0) == (!in.ap || in.edns || add), "adding that does not work out is reported");
    for( i = 0; i < 40; i++ ) if( i < len && !(i == 10 || i == 11) ) CHECK(msg.e[i] == in.e[i], "the query itself is unchanged");
    if( add )
    {
        CHECK(msg.h.EntityLength == len + 11 && msg.h.EDNSEnabled, "one record is added");
        CHECK((unsigned)(msg.e[10] * 256 + msg.e[11]) == ar + 1, "and counted as an additional one");
        CHECK(msg.e[len] == 0 && msg.e[len + 1] == 0 && msg.e[len + 2] == 41 && msg.e[len + 3] * 256 + msg.e[len + 4] >= 512, "it is OPT of the root");
        for( i = 5; i < 11; i++ ) CHECK(msg.e[len + i] == 0, "with no extended code, flags or options");
        REACH("added");
    } else {
        CHECK(msg.h.EntityLength == len && !!msg.h.EDNSEnabled == !!in.edns, "or the message stays as it is");
        CHECK((unsigned)(msg.e[10] * 256 + msg.e[11]) == ar, "and so do its counts");
        REACH("kept");
    }
    for( i = 0; i < 12; i++ ) if( in.room >= 0 && i >= in.room ) CHECK(msg.e[len + i] == 0xEE, "nothing is written past the buffer");
}
void harness(void)
{
    VP_LOAD();
    ASSUME(in.sel < 3 && in.room >= -1 && in.room <= 23);
    switch( in.sel ){ case 0: run(17); break; case 1: run(28); break; default: run(40); }
}
