/*UNIT
{"kind":"bounded","bound":"messages with no or one question and up to two more records, in any sections; a one-label name of up to 3 octets",
 "functions":["IHeader_Fill","IHeader_Reset"],
 "link":["iheader.c"],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","StrToLower","DNSGetHostName","DNSJumpOverName","BKDRHash","GetAddressLength","Log_Print","Log_DebugOn"],
 "variants":[{"name":"queries","defines":["EXTRA=1"]},{"name":"all","defines":["EXTRA=2"]}],
 "cbmc":["--unwind","14","--unwindset","strncpy.0:70"],"cost":5,"timeout":200,
 "trusted":["assumed contracts: message parser (C01, C02), StrToLower, HASH"]}
*/
/* The header of a message is filled from this very message and from where it came
   from; nothing stays over from the message that used the buffer before. */
#include "vp.h"
#include <string.h>
#include "iheader.h"
#include "utils.h"
typedef struct {
    int initfail, iterfail, nrec, klass[3], type[3], purpose[3], namefail, qtype, len, sock, fam, port, ohash, otype;
    char name[3], oname; _Bool rh, udp, agent, oedns, ortcp; int ofam;
} IN;
VP_INPUTS(IN)
static struct { IHeader h; char e[64]; } msg;
static struct sockaddr_in6 from;
static DnsSimpleParserIterator *the;
static int recs, q;
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp)
{ CHECK(raw == msg.e && len == in.len && !tcp, "this message is read, whole"); return in.initfail; }
static char *it_next(DnsSimpleParserIterator *i)
{
    if( recs >= in.nrec ) return NULL;
    i->Purpose = (DnsRecordPurpose)in.purpose[recs]; i->Klass = (DNSRecordClass)in.klass[recs]; i->Type = (DNSRecordType)in.type[recs];
    recs++; return msg.e + 12;
}
static int it_name(DnsSimpleParserIterator *i, char *b, int n)
{ CHECK(b == msg.h.Domain && n == sizeof(msg.h.Domain), "room for any name"); if( in.namefail ) { b[0] = 'x'; return -1; } memcpy(b, in.name, 3); b[3] = 0; return 5; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
{ i->Next = it_next; i->GetName = it_name; return in.iterfail; }
/* parser contract: the first question ends right before its type */
int DNSGetHostName(const char *b, int bl, const char *n, char *o, int ol){ return 5; }
char *DNSJumpOverName(char *n){ return n + 5; }
int GetAddressLength(sa_family_t f){ return f == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6); }
char *StrToLower(char *s){ char *t = s; for( ; *t; t++ ) if( *t >= 'A' && *t <= 'Z' ) *t += 32; return s; }
uint32_t BKDRHash(const char *s, unsigned int o){ uint32_t r = 7; (void)o; while( *s ) r = r * 31 + (unsigned char)*s++; return r; }
int harness(void)
{
    int r, i, edns = 0, ok; char low[4];
    VP_LOAD();
    ASSUME(in.nrec >= 0 && in.nrec <= 1 + EXTRA && in.len >= 0 && in.len < 4000);
    q = 0;
    for( i = 0; i < 3; i++ ) if( i < in.nrec )
    {
        ASSUME(in.purpose[i] >= DNS_RECORD_PURPOSE_QUESTION && in.purpose[i] <= DNS_RECORD_PURPOSE_ADDITIONAL);
        ASSUME(i == 0 || in.purpose[i] != DNS_RECORD_PURPOSE_QUESTION);
        ASSUME(in.type[i] >= 0 && in.type[i] < 65536 && in.klass[i] >= 0 && in.klass[i] < 65536);
        if( in.purpose[i] == DNS_RECORD_PURPOSE_QUESTION ) q = 1;
        else if( in.purpose[i] == DNS_RECORD_PURPOSE_ADDITIONAL && in.type[i] == DNS_TYPE_OPT ) edns = 1;
    }
    ASSUME(in.qtype >= 0 && in.qtype < 65536);
    ASSUME(in.fam == AF_INET || in.fam == AF_INET6);
    /* whatever the message before left here */
    msg.h.Parent = &msg.h; msg.h.RequestTcp = in.ortcp ? 1 : 0; msg.h.Domain[0] = in.oname; msg.h.Domain[1] = 0; msg.h.HashValue = in.ohash; msg.h.Type = (DNSRecordType)in.otype;
    msg.h.EDNSEnabled = in.oedns ? 1 : 0; msg.h.EntityLength = 77; msg.h.BackAddress.family = in.ofam; msg.h.SendBackSocket = 99; msg.h.ReturnHeader = !in.rh; strcpy(msg.h.Agent, "old");
    msg.e[17] = in.qtype >> 8; msg.e[18] = in.qtype & 255;
    from.sin6_port = in.port; from.sin6_family = in.fam;
    r = IHeader_Fill(&msg.h, in.rh, msg.e, in.len, in.udp ? (struct sockaddr *)&from : NULL, in.sock, in.fam, in.agent ? "10.0.0.9" : NULL);
    ok = in.initfail == 0 && in.iterfail == 0 && !(q && (in.klass[0] != DNS_CLASS_IN || in.namefail));
    CHECK((r == 0) == ok, "a message that cannot be read, or asks for another class, is reported, any other is taken");
    if( r != 0 ) { REACH("refused"); return 0; }
    CHECK(msg.h.EntityLength == in.len, "the length is this message's");
    CHECK(msg.h.SendBackSocket == in.sock && msg.h.ReturnHeader == in.rh, "the socket is the one the message came from");
    CHECK(in.udp ? (msg.h.BackAddress.family == in.fam && msg.h.BackAddress.Addr.Addr4.sin_port == (in_port_t)in.port) : msg.h.BackAddress.family == AF_UNSPEC, "the return address is the sender's, a TCP message has none");
    CHECK(strcmp(msg.h.Agent, in.agent ? "10.0.0.9" : "") == 0, "and the agent");
    CHECK(msg.h.Parent == NULL && !msg.h.RequestTcp, "a fresh message belongs to no other");
    CHECK(!!msg.h.EDNSEnabled == edns, "EDNS is what this message says");
    if( q )
    {
        for( i = 0; i < 3; i++ ) low[i] = in.name[i] >= 'A' && in.name[i] <= 'Z' ? in.name[i] + 32 : in.name[i];
        low[3] = 0;
        CHECK(strcmp(msg.h.Domain, low) == 0, "the name is the asked name in lower case");
        CHECK(msg.h.HashValue == (uint32_t)HASH(low, 0), "and the hash is the hash of it");
        CHECK(msg.h.Type == in.qtype, "and the type is the asked type");
        REACH("question");
    } else {
        CHECK(msg.h.Domain[0] == 0 && msg.h.HashValue == 0 && msg.h.Type == 0, "a message without a question has no name, hash or type of another");
        REACH("none");
    }
    return 0;
}
