From 16c8034bf7f56aa36a2840c6659f945299fcb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:59 +0000
Subject: [PATCH 01/27] fix: keep the DNS message parser inside the message and
 make it terminate

Names were walked past the end of the message, self-referencing
compression pointers hung the program, and records were never checked to
lie inside the message.
---
 dnsparser.c | 45 ++++++++++++++++++++++++++++++++++++++++++---
 dnsparser.h |  3 +++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..3a33d6b 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -14,12 +14,24 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     const char *NameItr = NameStart;
     int LabelsLength = 0;
     BOOL Redirected = FALSE;
-    int LabelCount = GET_8_BIT_U_INT(NameItr); /* The amount of characters of the next label */
+    int Jumps = 0; /* Pointers followed */
+    int LabelCount; /* The amount of characters of the next label */
+
+    if( DNSBody != NULL && NameItr >= DNSBody + DNSBodyLength )
+    {
+        return -1;
+    }
+
+    LabelCount = GET_8_BIT_U_INT(NameItr);
     while( LabelCount != 0 )
     {
         if( DNSIsLabelPointerStart(LabelCount) )
         {
             int LabelPointer = 0;
+            if( DNSBody != NULL && NameItr + 1 >= DNSBody + DNSBodyLength )
+            {
+                return -1;
+            }
             if( Redirected == FALSE )
             {
                 LabelsLength += 2;
@@ -30,14 +42,15 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
                 break;
             }
             LabelPointer = DNSLabelGetPointer(NameItr);
-            if( LabelPointer > DNSBodyLength )
+            if( LabelPointer >= DNSBodyLength || ++Jumps > DNS_NAME_JUMPS_MAX )
             {
                 return -1;
             }
             NameItr = DNSBody + DNSLabelGetPointer(NameItr);
         } else {
+            /* The label must be followed by another one */
             if( DNSBody != NULL &&
-                NameItr + LabelCount > DNSBody + DNSBodyLength
+                LabelCount + 1 >= DNSBody + DNSBodyLength - NameItr
                 )
             {
                 return -1;
@@ -365,6 +378,8 @@ static DnsRecordPurpose DnsSimpleParserIterator_DeterminePurpose(
 
 static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 {
+    int NameLength, LeftLength;
+
     if( i->CurrentPosition == NULL )
     {
         i->CurrentPosition = i->Parser->RawDns + DNS_HEADER_LENGTH;
@@ -413,6 +428,30 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 
     /* Update record informations */
     i->Purpose =  DnsSimpleParserIterator_DeterminePurpose(i, i->RecordPosition);
+
+    /* The whole record must be inside the message */
+    NameLength = DNSGetHostName(i->Parser->RawDns,
+                                i->Parser->RawDnsLength,
+                                i->CurrentPosition,
+                                NULL,
+                                0
+                                );
+    LeftLength = i->Parser->RawDnsLength
+                 - (i->CurrentPosition - i->Parser->RawDns)
+                 - NameLength
+                 - (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10);
+
+    if( NameLength < 0 ||
+        LeftLength < 0 ||
+        (i->Purpose != DNS_RECORD_PURPOSE_QUESTION &&
+         DNSGetResourceDataLength(i->CurrentPosition) > LeftLength)
+      )
+    {
+        i->CurrentPosition = NULL;
+        i->RecordPosition = 0;
+        return NULL;
+    }
+
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..10637ea 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -37,6 +37,9 @@
 /* Common */
 char *DNSJumpOverName(char *NameStart);
 
+/* The pointers followed in a name at most, a name has no more labels than this */
+#define DNS_NAME_JUMPS_MAX  127
+
 int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart, char *buffer, int BufferLength);
 
 int DNSGetHostNameLength(const char *DNSBody, int DNSBodyLength, const char *NameStart);
-- 
2.43.0


From 2a804d71b80185f1579e8c09126a4a959f72955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:07 +0000
Subject: [PATCH 02/27] fix: order pending queries totally, so that none is
 lost in the search tree

The difference of two 32-bit hashes does not fit an int: the comparison was
neither antisymmetric nor transitive, and a pending query could become
unfindable, its client never answered.
---
 mcontext.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..bf9a856 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,8 +124,11 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
+    } else if( One->HashValue != Two->HashValue ) {
+        /* Subtracting would wrap around, and not be transitive. */
+        return One->HashValue < Two->HashValue ? -1 : 1;
     } else {
-        return One->HashValue - Two->HashValue;
+        return 0;
     }
 }
 
-- 
2.43.0


From 518f31b58c65f02eb5ee42bdc6a2ca8f9093c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:39 +0000
Subject: [PATCH 03/27] fix: do not write a raw record past the end of the
 generated message

DnsGenerator_RawData copied the record data without checking the room left:
a long cached record overflowed the response buffer.
---
 dnsgenerator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..249cdcb 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -576,6 +576,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
-- 
2.43.0


From efe235e389035853493e9eee0db9a430c188e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:37 +0000
Subject: [PATCH 04/27] fix: find an address in any of several nested blocks

---
 ipchunk.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..3458dc8 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -170,7 +170,13 @@ static int Contain(IpElement *New, IpElement *Elm)
         int prefixBitsElm = ipSetElm->PrefixBits;
         int ret = 0;
 
-        /* 2nd: prefix value */
+        /* 2nd: prefix bits, so that nested blocks are totally ordered */
+        if( prefixBitsNew != prefixBitsElm )
+        {
+            return prefixBitsNew - prefixBitsElm;
+        }
+
+        /* 3rd: prefix value */
         if( BitsElm == 32 )
         {
             bn += 12;
@@ -194,12 +200,6 @@ static int Contain(IpElement *New, IpElement *Elm)
             ret = memcmp(&u32New, &u32Elm, 4);
         }
 
-        /* 3rd: prefix bits */
-        if( ret == 0 && prefixBitsNew < prefixBitsElm)
-        {
-            ret = 1;
-        }
-
         /* 4th: zone */
         if( ret == 0 )
         {
@@ -339,7 +339,8 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
     Key.Data = NULL;
 
     Result = ic->AddrChunk.Search(&(ic->AddrChunk), &Key, NULL);
-    if( Result == NULL )
+    /* The longest matching prefix wins, -1 stands for a negative prefix */
+    for( ; Result == NULL && Key.IpSet.PrefixBits >= -1; --(Key.IpSet.PrefixBits) )
     {
         Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
     }
-- 
2.43.0


From 6a10278f36e0492377a8192a1ac87bab3e0758dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 05/27] fix: do not match what follows the end of an empty
 domain name

---
 stringchunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..50a9081 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -390,7 +390,8 @@ BOOL StringChunk_Domain_Match_NoWildCard(StringChunk    *dl,
         return TRUE;
     }
 
-    Domain = strchr(Domain + 1, '.');
+    /* The root domain is empty, nothing follows it */
+    Domain = *Domain == '\0' ? NULL : strchr(Domain + 1, '.');
 
     while( Domain != NULL )
     {
-- 
2.43.0


From bde27d59d9cce4de48559c5a38abff22bd819067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 06/27] fix: do not disable an arbitrary type for a
 DisabledType that is not a number

---
 filter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filter.c b/filter.c
index 26d56c4..129e07a 100755
--- a/filter.c
+++ b/filter.c
@@ -193,8 +193,12 @@ static int FilterType_Init(ConfigFileInfo *ConfigInfo)
     OneTypePendingToAdd_Str = sli.Next(&sli);
     while( OneTypePendingToAdd_Str != NULL )
     {
-        sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd);
-        DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        if( sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd) == 1 )
+        {
+            DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        } else {
+            WARNING("Invalid `DisabledType': %s\n", OneTypePendingToAdd_Str);
+        }
 
         OneTypePendingToAdd_Str = sli.Next(&sli);
     }
-- 
2.43.0


From 988f6a2dc37779772cbda98d2cbecad560a505df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:17 +0000
Subject: [PATCH 07/27] fix: reject a CacheControl rule that lacks its command

---
 cachettlcrtl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..f7844d4 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -27,13 +27,17 @@ int CacheTtlCrtl_Add(CacheTtlCtrl *c, const char *Domain, int State, uint32_t Co
 
 int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
 {
-    char    Domain[128], Cmd[16], Arg[64];
+    char    Domain[128], Cmd[16], Arg[64] = "";
     int     State;
     uint32_t Coefficient = 0;
     uint32_t Increment = 0;
     int     Infection = TTL_CTRL_INFECTION_AGGRESSIVLY;
 
-    sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg);
+    if( sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg) < 2 )
+    {
+        ERRORMSG("Invalid `CacheControl' option : %s\n", Rule);
+        return -1;
+    }
 
     if( Cmd[0] == '$' )
     {
-- 
2.43.0


From ee2f66cd4f033f6a708aa2cb30048e2252f45e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 08/27] fix: look up the TTL rule by the record's name, not by
 its cache key

---
 dnscache.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..1d1373a 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -472,6 +472,9 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 
     const CtrlContent   *TtlContent;
 
+    /* The rule for the name itself */
+    const CtrlContent   *OwnTtlContent;
+
     /* Assign start byte of the cache */
     Buffer[0] = CACHE_START;
 
@@ -481,6 +484,9 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    /* Has to be looked up before the type and class are appended to the name */
+    OwnTtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
     if( BufferItr >= Buffer + sizeof(Buffer) )
@@ -551,7 +557,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = OwnTtlContent;
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -559,11 +565,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = OwnTtlContent;
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = OwnTtlContent;
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From 9a684806a8a7dbbae7d9803a4532e86b204ad2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:52 +0000
Subject: [PATCH 09/27] fix: do not copy a cached alias that is longer than a
 name may be

---
 dnscache.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 1d1373a..89426c1 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -767,6 +767,7 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
                                             )
 {
     char Name_Type_Class[253 + 1 + 4 + 1 + 4 + 1];
+    const char *CName;
     Cht_Node *Node = NULL;
     int KeyLength = snprintf(Name_Type_Class,
                              sizeof(Name_Type_Class),
@@ -801,8 +802,15 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
             return NULL;
         }
 
+        /* Names over the limit can't be followed */
+        CName = MapStart + iNode->Offset + 1 + strlen(Name_Type_Class) + 1;
+        if( strlen(CName) > 253 )
+        {
+            return NULL;
+        }
+
         Node = iNode;
-        strcpy(Buffer, MapStart + Node->Offset + 1 + strlen(Name_Type_Class) + 1);
+        strcpy(Buffer, CName);
 
     } while( TRUE );
 
-- 
2.43.0


From 01f484299dd754f0dd0f2d02495c5e6ae7a41698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 10/27] fix: keep the IPv6 address reader inside its buffer,
 refuse incomplete addresses, accept ::

---
 utils.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/utils.c b/utils.c
index a549682..7061b2b 100755
--- a/utils.c
+++ b/utils.c
@@ -452,9 +452,12 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
     if( strstr(asc, "::") == NULL )
     {   /* full format */
         uint32_t a[8];
-        sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
+        if( sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
                 a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7
-                );
+                ) != 8 )
+        {
+            return 0;
+        }
         SET_16_BIT_U_INT(buf_s, a[0]);
         SET_16_BIT_U_INT(buf_s + 1, a[1]);
         SET_16_BIT_U_INT(buf_s + 2, a[2]);
@@ -469,7 +472,7 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
         if( asc[2] == '\0' || isspace(asc[2]) )
         {
             memset(Buffer, 0, 16);
-            return 0;
+            return 16;
         }
 
         while(1)
@@ -485,7 +488,9 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
                 break;
             }
 
-            sscanf(itr, "%x:", &a);
+            if( buf_s > (int16_t *)Buffer + 7 || sscanf(itr, "%x:", &a) != 1 )
+                return 0;
+
             SET_16_BIT_U_INT(buf_s, a);
             ++buf_s;
             ++asc;
@@ -500,7 +505,9 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
             if( *(itr + 1) == '\0' )
                 break;
 
-            sscanf(itr + 1, "%x", &a);
+            if( buf_s < (int16_t *)Buffer || sscanf(itr + 1, "%x", &a) != 1 )
+                return 0;
+
             SET_16_BIT_U_INT(buf_s, a);
             --buf_s;
             asc = itr - 1;
-- 
2.43.0


From 0338186fcfd32c086d885b9baa4d99581bcc4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:04 +0000
Subject: [PATCH 11/27] fix: use the default port where the port of an address
 is not a number

---
 addresslist.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/addresslist.c b/addresslist.c
index f19643b..4eec6c7 100755
--- a/addresslist.c
+++ b/addresslist.c
@@ -67,11 +67,9 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
                 sscanf(Addr_Port + 1, "%45[^]]", Addr);
 
                 PortPos = strchr(PortPos, ':');
-                if( PortPos == NULL )
+                if( PortPos == NULL || sscanf(PortPos + 1, "%hu", &Port) != 1 )
                 {
                     Port = DefaultPort;
-                } else {
-                    sscanf(PortPos + 1, "%hu", &Port);
                 }
 
                 Out->Addr.Addr6.sin6_family = Family;
@@ -96,11 +94,9 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
                 /* LENGTH_OF_IPV4_ADDRESS_ASCII = 15 */
                 sscanf(Addr_Port, "%15[^:]", Addr);
 
-                if( PortPos == NULL )
+                if( PortPos == NULL || sscanf(PortPos + 1, "%hu", &Port) != 1 )
                 {
                     Port = DefaultPort;
-                } else {
-                    sscanf(PortPos + 1, "%hu", &Port);
                 }
                 FILL_ADDR4(Out->Addr.Addr4, Family, Addr, Port);
 
-- 
2.43.0


From 74016751b35fe3548860b8f02edff1ac537b5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 12/27] fix: leave address records of the wrong length out of
 the IP mapping

The record's data was looked at over 4 (or 16) bytes, whatever its length,
so a shorter record was judged and overwritten beyond its end.
---
 ipmisc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..cad0e17 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -99,6 +99,11 @@ static int IPMisc_Process(IPMisc *m,
             continue;
         }
 
+        if( i.DataLength != DataLength )
+        {
+            continue;
+        }
+
         RowDataPos = i.RowData(&i);
         if( IpChunk_Find(&(m->c),
                          (unsigned char *)RowDataPos,
-- 
2.43.0


From 0f39742e49e371e6b93ddec43860fc1bc5fbf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 13/27] fix: a failed load of the IP mapping frees the new
 mapping, not the one in use

---
 ipmisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmisc.c b/ipmisc.c
index cad0e17..19e3f2b 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -355,7 +355,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
-- 
2.43.0


From 90a671f8ce5d1c3c27133fcbd444a0d6aeacc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 14/27] fix: refuse hosts entries whose address or list name
 cannot be read

Such an entry was kept with whatever the buffer held, and answered with it.
---
 hostscontainer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..f6a8425 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -281,7 +281,11 @@ PRIFUNC int HostsContainer_AddIP(HostsContainer *Container,
 {
     IpAddr ipAddr;
 
-    IpAddr_Parse(IP, &ipAddr);
+    if( IpAddr_Parse(IP, &ipAddr) != 0 )
+    {
+        INFO("Unrecognisable host : %s %s\n", IP, Domain);
+        return -1;
+    }
 
     return HostsContainer_AddNode(Container,
                                   Domain,
@@ -311,7 +315,11 @@ PRIFUNC int HostsContainer_AddGoodIpList(HostsContainer *Container,
 {
     char            Trimed[128];
 
-    sscanf(ListName, "<%127[^>]", Trimed);
+    if( sscanf(ListName, "<%127[^>]", Trimed) != 1 )
+    {
+        INFO("Unrecognisable host : %s %s\n", ListName, Domain);
+        return -1;
+    }
 
     return HostsContainer_AddNode(Container,
                                   Domain,
-- 
2.43.0


From ca7315b4587222b857062fa8296eac71ec521711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 15/27] fix: read a recursed answer of a hosts alias only as
 far as it was received

The length passed on counted the message's local header, too, so that with
a damaged answer what earlier ones left in the buffer was read as well.
---
 hosts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hosts.c b/hosts.c
index 2da3fed..b078f1c 100755
--- a/hosts.c
+++ b/hosts.c
@@ -257,7 +257,7 @@ Hosts_SocketLoop(void *Unused)
                              NULL
                              );
 
-            if( State < 1 )
+            if( State < (int)sizeof(IHeader) )
             {
                 continue;
             }
@@ -274,7 +274,7 @@ Hosts_SocketLoop(void *Unused)
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
-                                                   State,
+                                                   State - sizeof(IHeader),
                                                    OuterHeader->Domain
                                                    )
                 != 0 )
-- 
2.43.0


From 3199c984106ece86e213f4c07121b2fa33438c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 16/27] fix: the memory cache's slots are part of its memory,
 do not free them apart

With MemoryCache, the program aborted at exit (free of an inner pointer).
---
 cacheht.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cacheht.c b/cacheht.c
index acca20f..a10ee0f 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -421,6 +421,9 @@ Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const
 
 void CacheHT_Free(CacheHT *h)
 {
+    /* Slots are in the memory of the cache, too, which frees itself */
+    h->Slots.Allocated = -1;
+
     Array_Free(&(h->NodeChunk));
     Array_Free(&(h->Slots));
     h->Free2DList = -1;
-- 
2.43.0


From d0c668e2687b89881bb1d126fcf73dda67ec672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 17/27] fix: a message without a question does not keep the
 previous one's name

---
 iheader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iheader.c b/iheader.c
index 497cd01..a5bef53 100755
--- a/iheader.c
+++ b/iheader.c
@@ -33,6 +33,9 @@ int IHeader_Fill(IHeader *h,
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
+    h->Domain[0] = '\0';
+    h->HashValue = 0;
+    h->Type = DNS_TYPE_UNKNOWN;
     h->EDNSEnabled = FALSE;
 
     if( DnsSimpleParser_Init(&p, DnsEntity, EntityLength, FALSE) != 0 )
-- 
2.43.0


From 60442f569fb130aee7c173831f2f0d31b6338a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 18/27] fix: adding EDNS to a query with additional records
 does not loop forever

---
 iheader.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iheader.c b/iheader.c
index a5bef53..072a3f6 100755
--- a/iheader.c
+++ b/iheader.c
@@ -135,9 +135,16 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    /* With additional records, the generator is already there */
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
-    g.EDns(&g, 1280);
+    if( g.EDns(&g, 1280) != 0 )
+    {
+        return -126;
+    }
 
     h->EntityLength = g.Length(&g);
     h->EDNSEnabled = TRUE;
-- 
2.43.0


From e971a09460c60f36bbdb64a55cf63512863b026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 19/27] fix: do not handle a message that cannot be read as if
 it were the previous one

---
 tcpfrontend.c | 24 +++++++++++++-----------
 tcpm.c        | 22 +++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 22 +++++++++++++---------
 4 files changed, 53 insertions(+), 38 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..8b715fe 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -91,17 +91,19 @@ TcpFrontend_Work(void *Unused)
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
-                    IHeader_Fill(Header,
-                                 FALSE,
-                                 Entity,
-                                 RecvState,
-                                 NULL,
-                                 sock_c,
-                                 ClientAddr->family,
-                                 Agent
-                                 );
-
-                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    if( IHeader_Fill(Header,
+                                     FALSE,
+                                     Entity,
+                                     RecvState,
+                                     NULL,
+                                     sock_c,
+                                     ClientAddr->family,
+                                     Agent
+                                     )
+                        == 0 )
+                    {
+                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    }
 
                     if( IsNewConnected )
                     {
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..cce759e 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,19 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             State,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..0cc2e9a 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            /* Not a query we can handle */
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..04ef31e 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,19 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From 6781f8ad66ceebf9e3894723b18190059e0139af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 20/27] fix: read a TCP query to its end, however the stream is
 split

---
 tcpfrontend.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8b715fe..73088b5 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -82,13 +82,13 @@ TcpFrontend_Work(void *Unused)
             IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
+        RecvState = recv(sock_c, (char *)&TCPLength, 2, MSG_WAITALL);
         if( RecvState == 2 )
         {
             TCPLength = ntohs(TCPLength);
             if( TCPLength <= LEFT_LENGTH )
             {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
+                RecvState = recv(sock_c, Entity, TCPLength, MSG_WAITALL);
                 if( RecvState == TCPLength )
                 {
                     if( IHeader_Fill(Header,
-- 
2.43.0


From 0d84c4930d3c5ff3357fc62c2f63a3f011c1d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 21/27] fix: close the sockets of TCP clients that closed the
 connection

---
 tcpfrontend.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index 73088b5..537b85e 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -118,15 +118,14 @@ TcpFrontend_Work(void *Unused)
             } else {
                 WARNING("TCP client %s segment is too large, discarded.\n", Agent);
             }
-
-            CLOSE_SOCKET(sock_c);
         } else if( RecvState == 1 )
         {
             INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock_c);
         }
 
-        /* recv failed */
+        /* recv failed, or the client has closed the connection */
+        CLOSE_SOCKET(sock_c);
+
         if( IsNewConnected == FALSE )
         {
             Frontend.Del(&Frontend, sock_c);
-- 
2.43.0


From 9f3b66b5a47cdea7ce0eda72acd513f50132bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 22/27] fix: a TCP answer in several segments has the length of
 all of them

---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index cce759e..7dab0ac 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -677,7 +677,7 @@ TcpM_Works(TcpM *m)
             if( IHeader_Fill(Header,
                              FALSE,
                              Entity,
-                             State,
+                             PartialData - Entity,
                              NULL,
                              INVALID_SOCKET,
                              AF_UNSPEC,
-- 
2.43.0


From 12fefb6379bc8b33e2bf99d121784c13267b573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 23/27] fix: read what is wanted from a TCP server whole,
 however the stream is split

---
 tcpm.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 7dab0ac..921cd6d 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -266,12 +266,27 @@ static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 
 static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
 {
-    int Recvlength;
+    int Recvlength = 0;
     time_t t = time(NULL);
 
-    while( (Recvlength = recv(Sock, Buffer, BufferSize, 0)) < 0 )
+    /* Until all of it has been received, or the connection is closed */
+    while( Recvlength < BufferSize )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = recv(Sock, Buffer + Recvlength, BufferSize - Recvlength, 0);
+
+        if( State == 0 )
+        {
+            break;
+        }
+
+        if( State > 0 )
+        {
+            Recvlength += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsStillReadable(Sock, TIMEOUT_ms_RECV) ||
                 time(NULL) - t > TIMEOUT_ms_RECV / 1000
@@ -281,6 +296,7 @@ static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
             return (-1) * LastError;
         }
     }
+
     return Recvlength;
 }
 
-- 
2.43.0


From 91ce14a102ba90701bdf823a493fa3132c5574ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 24/27] fix: do not send a part of a query to a TCP server
 twice

---
 tcpm.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 921cd6d..04ede85 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -246,11 +246,22 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
+    int Sent = 0;
     time_t t = time(NULL);
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    /* A part may have been sent only, go on after it */
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+
+        if( State > 0 )
+        {
+            Sent += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                 time(NULL) - t > TIMEOUT_ms_SEND / 1000
-- 
2.43.0


From 30659707d92ae43e0d8b609f154e107c83c63971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:12 +0000
Subject: [PATCH 25/27] fix: a comment does not let part of its line stay or a
 line be lost

A ';' comment before a '#' one was left in, a line whose comment ended
exactly with the file and the buffer was lost, and so was the line after
an overlong one the rest of which was empty.
---
 readline.c | 60 ++++++++++++++++++++++++++++++++++++++----------------
 readline.h |  4 ++++
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/readline.c b/readline.c
index 2fd69aa..6b31db7 100755
--- a/readline.c
+++ b/readline.c
@@ -9,8 +9,8 @@ static BOOL ClearAnnotation(char *str, char mark)
 
     if( pos != NULL )
     {
-        for(--pos; pos >= str && isspace(*pos); --pos);
-        *(pos + 1) = '\0';
+        for(; pos > str && isspace(pos[-1]); --pos);
+        *pos = '\0';
         return TRUE;
     } else {
         return FALSE;
@@ -54,19 +54,22 @@ static void EliminateHeadSpace(char *str)
 
 static void EliminateFootSpace(char *str)
 {
-    char *End = str + strlen(str) - 1;
-
-    if( End >= str )
-    {
-        for(; isspace(*End) && End >= str; --End);
-        *(End + 1) = '\0';
-    }
+    char *End = str + strlen(str);
 
+    for(; End > str && isspace(End[-1]); --End);
+    *End = '\0';
 }
 
-ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+/* Continued: what is read is the rest of a line that was truncated, it may be
+   empty, and the line after it must not be taken for it. */
+static ReadLineStatus ReadLine_Inner(FILE *fp,
+                                     char *Buffer,
+                                     int BufferSize,
+                                     BOOL Continued
+                                     )
 {
     BOOL    ReachedEnd;
+    BOOL    Annotated;
 
 START:
     if( Buffer == NULL || fgets(Buffer, BufferSize, fp) == NULL )
@@ -76,7 +79,13 @@ START:
         ReachedEnd = ReachedLineEnd(fp, Buffer);
     }
 
-    if( (ClearAnnotation(Buffer, '#') || ClearAnnotation(Buffer, ';')) != FALSE )
+    Annotated = ClearAnnotation(Buffer, '#');
+    if( ClearAnnotation(Buffer, ';') )
+    {
+        Annotated = TRUE;
+    }
+
+    if( Annotated )
     {
         if( ReachedEnd == FALSE )
         {
@@ -85,16 +94,20 @@ START:
             {
                 if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
                 {
-                    return READ_FAILED_OR_END;
+                    /* The comment is at the end of the file */
+                    break;
                 }
                 ReachedEnd = ReachedLineEnd(fp, BlackHole);
             }while( ReachedEnd == FALSE );
         }
 
         EliminateFootSpace(Buffer);
-        EliminateHeadSpace(Buffer);
+        if( !Continued )
+        {
+            EliminateHeadSpace(Buffer);
+        }
 
-        if( *Buffer == '\0' )
+        if( *Buffer == '\0' && !Continued )
         {
             goto START;
         } else {
@@ -107,8 +120,11 @@ START:
     {
         EliminateCRLF(Buffer);
         EliminateFootSpace(Buffer);
-        EliminateHeadSpace(Buffer);
-        if( *Buffer == '\0' )
+        if( !Continued )
+        {
+            EliminateHeadSpace(Buffer);
+        }
+        if( *Buffer == '\0' && !Continued )
         {
             goto START;
         } else {
@@ -119,6 +135,16 @@ START:
     }
 }
 
+ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadLine_Inner(fp, Buffer, BufferSize, FALSE);
+}
+
+ReadLineStatus ReadLine_Continue(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadLine_Inner(fp, Buffer, BufferSize, TRUE);
+}
+
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 {
     ReadLineStatus Status;
@@ -126,7 +152,7 @@ ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 
     do
     {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
+        Status = ReadLine_Continue(fp, Buffer, sizeof(Buffer));
     }
     while( Status == READ_TRUNCATED );
 
diff --git a/readline.h b/readline.h
index 261fc89..772ef45 100755
--- a/readline.h
+++ b/readline.h
@@ -12,6 +12,10 @@ typedef enum _ReadLineStatus
 
 ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize);
 
+/* Read on in a line after READ_TRUNCATED */
+ReadLineStatus ReadLine_Continue(FILE *fp, char *Buffer, int BufferSize);
+
+/* Skip the rest of a line after READ_TRUNCATED */
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp);
 
 #endif /* READLINE_H_INCLUDED */
-- 
2.43.0


From a2b8bbd6ac554b2250d06dbb884f4b5ee60b1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 26/27] fix: the rest of an overlong configuration line is not
 a line of its own

What followed the first 2047 characters of a line with an unknown option,
without a value, or with a value that is not a string was read as the next
line, and could set any option.
---
 readconfig.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/readconfig.c b/readconfig.c
index e84d56e..b590f91 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -322,7 +322,7 @@ static void ParseString(ConfigOption *Option,
 
     while( ReadStatus != READ_DONE ){
 
-        ReadStatus = ReadLine(fp, Buffer, BufferLength);
+        ReadStatus = ReadLine_Continue(fp, Buffer, BufferLength);
         if( ReadStatus == READ_FAILED_OR_END )
             break;
 
@@ -380,7 +380,13 @@ int ConfigRead(ConfigFileInfo *Info)
 
         ValuePos = SplitNameAndValue(Buffer, " \t=");
         if( ValuePos == NULL )
+        {
+            if( ReadStatus == READ_TRUNCATED )
+            {
+                ReadLine_GoToNextLine(Info->fp);
+            }
             continue;
+        }
 
         KeyName = Buffer;
 
@@ -394,6 +400,10 @@ int ConfigRead(ConfigFileInfo *Info)
 
         if( Option == NULL )
         {
+            if( ReadStatus == READ_TRUNCATED )
+            {
+                ReadLine_GoToNextLine(Info->fp);
+            }
             continue;
         }
 
@@ -431,6 +441,11 @@ int ConfigRead(ConfigFileInfo *Info)
             }
         }
 
+        if( ReadStatus == READ_TRUNCATED && Option->Type != TYPE_STRING )
+        {
+            ReadLine_GoToNextLine(Info->fp);
+        }
+
         switch( Option->Type )
         {
             case TYPE_INT32:
-- 
2.43.0


From 793b70a29d7679b4a1dc9ac943a0296043ce4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:33 +0000
Subject: [PATCH 27/27] fix: a task that waits is not lost when a new one
 cannot be taken

---
 timedtask.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/timedtask.c b/timedtask.c
index 7bdae81..0fe7978 100755
--- a/timedtask.c
+++ b/timedtask.c
@@ -297,16 +297,12 @@ TimeTask_Work(void *Unused)
             {
                 static TaskInfo ni;
 
+                /* The task that was waited for is put back below in any case */
                 if( READ_PIPE(ReadFrom, &ni, sizeof(TaskInfo)) < 0 )
                 {
                     /** TODO: Show fatal error */
-                    break;
-                }
-
-                if( TimeTask_ReallyAdd(&ni) != 0 )
-                {
+                } else if( TimeTask_ReallyAdd(&ni) != 0 ) {
                     /** TODO: Show fatal error */
-                    break;
                 }
             }
 
-- 
2.43.0

